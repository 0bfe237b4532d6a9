// RAII helpers for recording control flow, shared by the scenario drivers.
#pragma once
#include "common.h"

struct Rec {
    uint32_t cp, scope = 0; bool cleanup = true;
    Rec(bool ns = false) { cp = jit_record_begin(LLVM, nullptr); if (ns) scope = jit_new_scope(LLVM); }
    ~Rec() { jit_record_end(LLVM, cp, cleanup); }
    uint32_t rewind() { jit_set_scope(LLVM, scope); return jit_record_checkpoint(LLVM); }
};
struct MaskG {
    MaskG(uint32_t i) { jit_var_mask_push(LLVM, i); }
    ~MaskG() { jit_var_mask_pop(LLVM); }
};
struct SelfG {
    uint32_t v, i;
    SelfG(uint32_t value) { uint32_t t; jit_var_self(LLVM, &v, &t); i = t; jit_var_inc_ref(i); jit_var_set_self(LLVM, value, 0); }
    ~SelfG() { jit_var_set_self(LLVM, v, i); jit_var_dec_ref(i); }
};
using Vars = std::vector<Var>;

/// Record 'if (cond) { tb } else { fb }'
template <typename TB, typename FB> Vars sym_if(const Var &cond, TB &&tb, FB &&fb) {
    bool sym = jit_flag(JitFlag::SymbolicScope);
    Vars res;
    Rec rec;
    Var cf = steal(jit_var_not(cond));
    uint32_t sz = (uint32_t) jit_var_size(cond);
    Var mt = steal(jit_var_mask_apply(cond, sz)), mf = steal(jit_var_mask_apply(cf, sz));
    Var h = steal(jit_var_cond_start("if", sym, mt, mf));
    Var l0, l1; size_t n;
    { MaskG g(mt); Vars r = tb(); std::vector<uint32_t> q; for (auto &v : r) q.push_back(v); n = q.size(); l0 = steal(jit_var_cond_append(h, q.data(), q.size())); }
    { MaskG g(mf); Vars r = fb(); std::vector<uint32_t> q; for (auto &v : r) q.push_back(v); l1 = steal(jit_var_cond_append(h, q.data(), q.size())); }
    std::vector<uint32_t> o(n);
    jit_var_cond_end(h, o.data());
    for (uint32_t x : o) res.push_back(steal(x));
    rec.cleanup = false;
    return res;
}
/// Record 'while (cond(s)) s = body(s)'
template <typename C, typename B> Vars sym_loop(Vars st, C &&cond, B &&body) {
    bool sym = jit_flag(JitFlag::SymbolicScope);
    size_t ns = st.size();
    Rec rec;
    std::vector<uint32_t> ix(ns);
    for (size_t k = 0; k < ns; ++k) ix[k] = st[k];
    Var loop = steal(jit_var_loop_start("loop", sym, ns, ix.data()));
    for (size_t k = 0; k < ns; ++k) st[k] = steal(ix[k]);
    for (int round = 0; round < 8; ++round) {
        Var a0 = cond(st);
        Var active = steal(jit_var_mask_apply(a0, (uint32_t) jit_var_size(a0)));
        Var lc = steal(jit_var_loop_cond(loop, active));
        Vars nx;
        { MaskG g(active); nx = body(st); }
        for (size_t k = 0; k < ns; ++k) ix[k] = nx[k];
        int ok = jit_var_loop_end(loop, lc, ix.data(), rec.cp);
        for (size_t k = 0; k < ns; ++k) st[k] = steal(ix[k]);
        if (ok) { rec.cleanup = false; return st; }
    }
    H::violation("loop-rerecord", "loop recording does not converge");
    return st;
}

/// Record a call to n instances (ids 1..n of a domain); body(k, args) returns the outputs of instance k
template <typename F> Vars sym_call(uint32_t n, const Var &self, Var mask, const Vars &args, F &&body) {
    bool sym = jit_flag(JitFlag::SymbolicScope);
    std::vector<uint32_t> cps(n + 1), ids(n), cini, rvi;
    Vars cin, rv, res;
    size_t no = 0;
    mask = steal(jit_var_mask_apply(mask, (uint32_t) std::max(jit_var_size(mask), jit_var_size(self))));
    jit_new_scope(LLVM);
    Rec rec(true);
    for (auto &a : args) cin.push_back(steal(jit_var_call_input(a)));
    {
        Var cm = steal(jit_var_call_mask(LLVM));
        MaskG g(cm);
        for (uint32_t k = 0; k < n; ++k) {
            cps[k] = rec.rewind();
            ids[k] = k + 1;
            SelfG sg(ids[k]);
            Vars in = cin, o = body(k, in);
            no = o.size();
            for (auto &v : o) rv.push_back(v);
        }
        cps[n] = rec.rewind();
    }
    jit_new_scope(LLVM);
    for (auto &v : cin) cini.push_back(v);
    for (auto &v : rv) rvi.push_back(v);
    std::vector<uint32_t> out(no);
    jit_var_call("call", sym, self, mask, n, n, ids.data(), (uint32_t) cini.size(), cini.data(), (uint32_t) rvi.size(), rvi.data(), cps.data(), out.data());
    rec.cleanup = false;
    for (uint32_t x : out) res.push_back(steal(x));
    return res;
}
