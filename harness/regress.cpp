// Deterministic scenarios: minimal histories of the defects found so far and hand-written corner cases.
#include "scen.h"
#include <functional>

struct Scenario { const char *prop, *name; void (*fn)(); };
static std::vector<Scenario> &all() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char *p, const char *n, void (*f)()) { all().push_back({ p, n, f }); } };
#define SCENARIO(prop, name) static void prop##_##name(); static Reg reg_##prop##_##name(#prop, #name, prop##_##name); static void prop##_##name()

static const VarType U32 = VarType::UInt32, I32 = VarType::Int32, F32 = VarType::Float32, B1 = VarType::Bool;
template <typename T> Var arr(VarType t, const std::vector<T> &v) { return copy_in(t, v.data(), v.size()); }
static Var u32(const std::vector<uint32_t> &v) { return arr(U32, v); }
static void expect(const char *what, uint32_t idx, const std::vector<uint64_t> &want) {
    std::vector<uint64_t> got = fetch(idx);
    H::stat("values_checked", want.size());
    if (got == want) return;
    std::string s;
    for (size_t i = 0; i < got.size() && i < 16; ++i) s += H::fmt(" %llx", (unsigned long long) got[i]);
    s += " expected";
    for (size_t i = 0; i < want.size() && i < 16; ++i) s += H::fmt(" %llx", (unsigned long long) want[i]);
    H::violation(std::string("scenario:") + what, "got (%zu)%s", got.size(), s.c_str());
}
static Var add(const Var &a, const Var &b) { return steal(jit_var_add(a, b)); }
static Var lt(const Var &a, const Var &b) { return steal(jit_var_lt(a, b)); }
static Var counter(size_t n) { return steal(jit_var_counter(LLVM, n)); }
static std::vector<uint64_t> rep(uint64_t v, size_t n) { return std::vector<uint64_t>(n, v); }

// ------------------------------------------------------------------ C01
SCENARIO(C01, division_in_unused_lanes) {
    // integer divisions must not trap in the padding of an array, and not in lanes disabled by a condition
    for (VarType t : { VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64 })
        for (size_t n : { 1, 2, 3, 5, 17, 33 }) for (int mod = 0; mod < 2; ++mod) {
            std::vector<uint8_t> a(n * type_sz(t)), b(a.size());
            std::vector<uint64_t> want;
            for (size_t i = 0; i < n; ++i) {
                a[i * type_sz(t)] = (uint8_t) (100 - i); b[i * type_sz(t)] = (uint8_t) (1 + i % 7);
                want.push_back(mod ? (100 - i) % (1 + i % 7) : (100 - i) / (1 + i % 7));
            }
            Var x = copy_in(t, a.data(), n), y = copy_in(t, b.data(), n);
            expect("array division", steal(mod ? jit_var_mod(x, y) : jit_var_div(x, y)), want);
        }
}
// ------------------------------------------------------------------ C02
SCENARIO(C02, neq_nan) {
    float nan = NAN; uint32_t nb; memcpy(&nb, &nan, 4);
    for (int l = 0; l < 2; ++l) {
        Var x = lit(F32, nb, 1, l), y = lit(F32, 0x3f800000, 1, l);
        expect("nan!=1", steal(jit_var_neq(x, y)), { 1 });
        expect("nan!=nan", steal(jit_var_neq(x, x)), { 1 });
        expect("nan==nan", steal(jit_var_eq(x, x)), { 0 });
        expect("bool(nan)", steal(jit_var_cast(x, B1, 0)), { 1 });
    }
}
SCENARIO(C02, rsqrt_edges) {
    for (uint32_t b : { 0x80000000u, 0u, 0x7f800000u, 0xff800000u, 0xbf800000u, 0x40800000u }) {
        std::vector<uint64_t> a = fetch(steal(jit_var_rsqrt(lit(F32, b)))), c = fetch(steal(jit_var_rsqrt(lit(F32, b, 1, true))));
        bool na = (a[0] & 0x7fffffff) > 0x7f800000u, nc = (c[0] & 0x7fffffff) > 0x7f800000u;
        if (na != nc || (!na && a[0] != c[0])) H::violation("scenario:rsqrt", "rsqrt(0x%x): literal 0x%llx, kernel 0x%llx", b, (unsigned long long) a[0], (unsigned long long) c[0]);
    }
}
SCENARIO(C02, literal_integers) {
    Var m = lit(I32, 0x80000000u), mm = lit(I32, 0xffffffffu), x = lit(I32, 0x7fffffffu);
    expect("abs(min)", steal(jit_var_abs(m)), { 0x80000000u });
    expect("neg(min)", steal(jit_var_neg(m)), { 0x80000000u });
    expect("max+max", add(x, x), { 0xfffffffeu });
    expect("min-max", steal(jit_var_sub(m, x)), { 1 });
    expect("max*max", steal(jit_var_mul(x, x)), { 1 });
    expect("fma", steal(jit_var_fma(x, x, x)), { 0x80000000u });
    expect("copysign", steal(jit_var_copysign(x, x)), { 0x7fffffffu });
    (void) mm;
    Var u = lit(U32, 0xffffffffu), s = lit(U32, 31), w = lit(VarType::UInt16, 0xffff);
    expect("u16*u16", steal(jit_var_mul(w, w)), { 1 });
    expect("shl31", steal(jit_var_shl(u, s)), { 0x80000000u });
    expect("shr31", steal(jit_var_shr(u, s)), { 1 });
}
// ------------------------------------------------------------------ C05
SCENARIO(C05, reduce_nan) {
    for (ReduceMode m : { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local, ReduceMode::NoConflicts, ReduceMode::Expand }) {
        Var t = lit(F32, 0, 4, true), v = lit(F32, 0x7fc00000u, 1, true), i = lit(U32, 2, 1, true);
        Var r = steal(jit_var_scatter(t, v, i, lit_bool(true), ReduceOp::Add, m));
        std::vector<uint64_t> g = fetch(r);
        if ((g[2] & 0x7fffffff) <= 0x7f800000u || g[0] || g[1] || g[3]) H::violation("scenario:reduce-nan", "mode %d gave %llx", (int) m, (unsigned long long) g[2]);
    }
}
SCENARIO(C05, expand_pending) {
    // an expanded reduction whose target still has pending direct updates
    Var t = lit(U32, 5, 8, true), one = lit_u32(1), tr = lit_bool(true);
    Var idx = steal(jit_var_and(counter(64), lit_u32(7)));
    t = steal(jit_var_scatter(t, one, idx, tr, ReduceOp::Add, ReduceMode::Direct));
    t = steal(jit_var_scatter(t, one, idx, tr, ReduceOp::Add, ReduceMode::Expand));
    expect("direct+expand", t, rep(5 + 16, 8));
    t = steal(jit_var_scatter(t, one, idx, tr, ReduceOp::Add, ReduceMode::Expand));
    t = steal(jit_var_scatter(t, one, idx, tr, ReduceOp::Add, ReduceMode::Expand));
    expect("expand+expand", t, rep(5 + 32, 8));
}
SCENARIO(C05, evaluate_while_recording) {
    Var one = lit_u32(1), tr = lit_bool(true);
    Var a = lit(U32, 0, 8, true), b = lit(U32, 0, 8, true);
    Var idx = steal(jit_var_and(counter(100), lit_u32(7)));
    std::vector<uint64_t> w(8), w2(8);
    for (int k = 0; k < 100; ++k) w[k & 7] += 4, w2[k & 7] += 1;
    a = steal(jit_var_scatter(a, one, idx, tr, ReduceOp::Add, ReduceMode::Auto));
    b = steal(jit_var_scatter(b, one, idx, tr, ReduceOp::Add, ReduceMode::Direct));
    Vars st{ lit_u32(0, 100), lit_u32(0, 100) };
    st = sym_loop(st, [&](Vars &s) { return lt(s[0], lit_u32(3)); }, [&](Vars &s) {
        a = steal(jit_var_scatter(a, one, idx, tr, ReduceOp::Add, ReduceMode::Auto));
        Var g = steal(jit_var_gather(b, idx, tr));
        return Vars{ add(s[0], one), add(s[1], g) };
    });
    jit_var_schedule(st[1]); jit_eval();
    expect("loop-reduce", a, w);
    expect("loop-read-target", b, w2);
    std::vector<uint64_t> w3(100);
    for (int k = 0; k < 100; ++k) w3[k] = 3 * w2[k & 7];
    expect("loop-read", st[1], w3);
}
SCENARIO(C05, minmax_signedness) {
    for (ReduceMode m : { ReduceMode::Direct, ReduceMode::Local, ReduceMode::NoConflicts }) {
        Var a = lit(I32, 0, 8, true), b = lit(U32, 0, 8, true), tr = lit_bool(true);
        Var idx = counter(8);
        Var vi = arr<int32_t>(I32, { -1, 1, -2, 2, -3, 3, -4, 4 }), vu = arr<int32_t>(U32, { -1, 1, -2, 2, -3, 3, -4, 4 });
        a = steal(jit_var_scatter(a, vi, idx, tr, ReduceOp::Max, m));
        b = steal(jit_var_scatter(b, vu, idx, tr, ReduceOp::Max, m));
        jit_eval();
        expect("max-i32", a, { 0, 1, 0, 2, 0, 3, 0, 4 });
        expect("max-u32", b, { 0xffffffffu, 1, 0xfffffffeu, 2, 0xfffffffdu, 3, 0xfffffffcu, 4 });
    }
}
SCENARIO(C05, wide_vectors) {
    std::string cpu = jit_llvm_target_cpu(), f = jit_llvm_target_features();
    uint32_t w = jit_llvm_vector_width();
    for (uint32_t q : { 1u, 2u, 32u }) {
        jit_llvm_set_target(cpu.c_str(), f.c_str(), q);
        if (q > 2 * w) continue;
        Var t = lit(U32, 0, 4, true), one = lit_u32(1), tr = lit_bool(true), c = lit_u32(0, 1);
        Var idx = steal(jit_var_and(counter(101), lit_u32(3)));
        t = steal(jit_var_scatter(t, one, idx, tr, ReduceOp::Add, ReduceMode::Direct));
        expect("w-reduce", t, { 26, 25, 25, 25 });
        uint32_t ci = lit(U32, 0, 4, true).release();
        Var inc = steal(jit_var_scatter_inc(&ci, idx, tr));
        jit_var_schedule(inc); jit_eval();
        expect("w-inc", ci, { 26, 25, 25, 25 });
        jit_var_dec_ref(ci);
    }
    jit_llvm_set_target(cpu.c_str(), f.c_str(), w);
}
SCENARIO(C05, masked_atomics) {
    // atomics whose mask is known to be disabled leave the target alone and return one zero per lane
    for (int opaque = 0; opaque < 2; ++opaque) for (size_t n : { (size_t) 1, (size_t) 21 }) {
        Var tgt = lit(U32, 7, 5, opaque), val = lit(U32, 7, n), idx = lit(U32, 2, n);
        uint32_t t = tgt.release();
        Var old = steal(jit_var_scatter_exch(&t, val, idx, lit_bool(false)));
        tgt = steal(t);
        expect("exch(false)", old, rep(0, n)); expect("exch(false) target", tgt, rep(7, 5));
        uint32_t o = 0, q = 0; t = tgt.release();
        jit_var_scatter_cas(&t, lit(U32, 7, n), val, idx, lit_bool(false), &o, &q);
        tgt = steal(t);
        Var vo = steal(o), vq = steal(q);
        expect("cas(false) old", vo, rep(0, n)); expect("cas(false) success", vq, rep(0, n)); expect("cas(false) target", tgt, rep(7, 5));
        // equal literals on both sides: the previous value is still returned
        t = tgt.release();
        old = steal(jit_var_scatter_exch(&t, val, counter(n), lit_bool(true)));
        tgt = steal(t);
        if (n == 1) { jit_var_schedule(old); jit_eval(); expect("exch(equal)", old, rep(7, n)); }
        else jit_eval();
    }
}
SCENARIO(C05, debug_index_types) {
    // bounds checks of every index type: out of bounds lanes are skipped, all others are processed
    jit_set_flag(JitFlag::Debug, 1);
    for (VarType it : { I32, U32, VarType::Int64, VarType::UInt64 }) {
        std::vector<uint8_t> ib(20 * type_sz(it));
        std::vector<uint64_t> want, wt(12, 0);
        for (uint32_t i = 0; i < 20; ++i) { uint32_t k = i % 7 == 6 ? 1000 : (i * 5) % 12; memcpy(&ib[i * type_sz(it)], &k, 4); want.push_back(k == 1000 ? 0 : 100 + k); if (k < 12) wt[k]++; }
        Var ix = copy_in(it, ib.data(), 20), src = add(counter(12), lit_u32(100));
        jit_var_eval(src);
        expect("checked gather", steal(jit_var_gather(src, ix, lit_bool(true))), want);
        Var tgt = steal(jit_var_scatter(lit(U32, 0, 12), lit_u32(1), ix, lit_bool(true), ReduceOp::Add, ReduceMode::Direct));
        expect("checked scatter", tgt, wt);
    }
    jit_set_flag(JitFlag::Debug, 0);
}
SCENARIO(C05, debug_packet_expand) {
    jit_set_flag(JitFlag::Debug, 1);
    jit_llvm_set_block_size(64);
    const size_t n = 4096;
    for (ReduceMode mode : { ReduceMode::Expand, ReduceMode::Auto }) {
        std::vector<uint32_t> idx(n);
        for (size_t i = 0; i < n; ++i) idx[i] = i % 8;
        Var a = lit_u32(1), b = lit_u32(2), ix = u32(idx), tgt = lit(U32, 0, 16, true);
        uint32_t v[2] = { a, b };
        tgt = steal(jit_var_scatter_packet(2, tgt, v, ix, lit_bool(true), ReduceOp::Add, mode));
        std::vector<uint64_t> want;
        for (size_t i = 0; i < 16; ++i) want.push_back((i % 2 + 1) * (n / 8));
        expect("expanded packets", tgt, want);
    }
    jit_llvm_set_block_size(16384);
    jit_set_flag(JitFlag::Debug, 0);
}
SCENARIO(C05, packet_unaligned_target) {
    alignas(64) static uint8_t mem[4096];
    for (VarType t : { VarType::UInt8, VarType::UInt16, U32, VarType::UInt64 }) for (uint32_t pn : { 2u, 4u, 8u, 16u }) for (int k = 0; k < 4; ++k) {
        memset(mem, 0x5a, sizeof(mem));
        size_t ts = type_sz(t), sz = 64;
        Var tgt = steal(jit_var_mem_map(LLVM, t, mem + 128 + ts * k, sz, 0)), idx = steal(jit_var_counter(LLVM, sz / pn));
        std::vector<Var> vals; std::vector<uint32_t> v; std::vector<uint64_t> want;
        for (uint32_t j = 0; j < pn; ++j) { vals.push_back(steal(jit_var_cast(add(steal(jit_var_mul(idx, lit_u32(3))), lit_u32(j)), t, 0))); v.push_back(vals.back()); }
        for (uint32_t i = 0; i < sz; ++i) want.push_back(i / pn * 3 + i % pn);
        Var out = steal(jit_var_scatter_packet(pn, tgt, v.data(), idx, lit_bool(true)));
        expect("unaligned packets", out, want);
        std::vector<uint32_t> g(pn);
        jit_var_gather_packet(pn, out, idx, lit_bool(true), g.data());
        for (uint32_t j = 0; j < pn; ++j) { std::vector<uint64_t> w; for (uint32_t i = 0; i < sz / pn; ++i) w.push_back(i * 3 + j); Var q = steal(g[j]); expect("unaligned packet gather", q, w); }
        jit_sync_thread();
        for (size_t i = 0; i < sizeof(mem); ++i) if ((i < 128 + ts * k || i >= 128 + ts * (k + sz)) && mem[i] != 0x5a) { H::violation("scenario:stray", "byte %zd changed", (ssize_t) i - 128); break; }
    }
}
SCENARIO(C05, expand_16bit) {
    for (VarType t : { VarType::Int16, VarType::UInt16 }) for (ReduceOp op : { ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or }) for (ReduceMode m : { ReduceMode::Auto, ReduceMode::Expand }) {
        std::vector<uint16_t> d(300), t0(7, op == ReduceOp::And ? 0xffff : op == ReduceOp::Min ? 0x7000 : 0);
        std::vector<uint64_t> want(t0.begin(), t0.end());
        for (size_t i = 0; i < d.size(); ++i) {
            d[i] = (uint16_t) (i * 37 % 1000 + 64); uint64_t &w = want[i % 7];
            w = op == ReduceOp::Add ? (uint16_t) (w + d[i]) : op == ReduceOp::Min ? std::min<uint64_t>(w, d[i]) : op == ReduceOp::Max ? std::max<uint64_t>(w, d[i]) : op == ReduceOp::And ? (w & d[i]) : (w | d[i]);
        }
        if (!jit_can_scatter_reduce(LLVM, t, op)) continue;
        Var tgt = arr(t, t0), v = arr(t, d), ix = steal(jit_var_mod(counter(300), lit_u32(7)));
        expect("16-bit expand", steal(jit_var_scatter(tgt, v, ix, lit_bool(true), op, m)), want);
    }
}
// ------------------------------------------------------------------ C06
static uint64_t val1(uint32_t i) { std::vector<uint64_t> v = fetch(i); return v.empty() ? ~0ull : v[0]; }
SCENARIO(C06, literal_reductions) {
    // a literal must reduce like an evaluated array with the same contents
    struct T { VarType t; uint64_t v; };
    for (T t : { T{ U32, 3 }, T{ U32, 0xfffffff1u }, T{ I32, 0xfffffff5u }, T{ VarType::UInt64, 0x123456789abull }, T{ VarType::Int64, ~0ull - 6 } })
        for (size_t n : { 1u, 2u, 3u, 17u, 64u, 1000u })
            for (ReduceOp op : { ReduceOp::Add, ReduceOp::Mul, ReduceOp::Min, ReduceOp::Max }) {
                Var a = lit(t.t, t.v, n), b = lit(t.t, t.v, n, true);
                uint64_t x = val1(steal(jit_var_reduce(LLVM, t.t, op, a))), y = val1(steal(jit_var_reduce(LLVM, t.t, op, b)));
                if (x != y) H::violation("scenario:literal-reduce", "%s op %d of %zu x %llx: literal %llx, array %llx", type_nm(t.t), (int) op, n, (unsigned long long) t.v, (unsigned long long) x, (unsigned long long) y);
                for (int ex = 0; ex < 2; ++ex) for (int rev = 0; rev < 2; ++rev) {
                    uint32_t bs = (uint32_t) (n < 3 ? n : 3);
                    std::vector<uint64_t> p = fetch(steal(jit_var_block_prefix_reduce(op, a, bs, ex, rev))), q = fetch(steal(jit_var_block_prefix_reduce(op, b, bs, ex, rev)));
                    H::stat("values_checked", p.size());
                    if (p != q) H::violation("scenario:literal-prefix", "%s op %d ex %d rev %d size %zu block %u", type_nm(t.t), (int) op, ex, rev, n, bs);
                }
            }
}
SCENARIO(C06, dot_literal) {
    Var l = lit(F32, 0x40000000u, 10), e = lit(F32, 0x40400000u, 10, true), one = lit(F32, 0x40000000u, 1);
    for (int k = 0; k < 3; ++k) {
        uint64_t v = val1(steal(k == 0 ? jit_var_reduce_dot(l, e) : k == 1 ? jit_var_reduce_dot(e, l) : jit_var_reduce_dot(l, l)));
        uint64_t w = k < 2 ? 0x42700000u : 0x42200000u;
        if (v != w) H::violation("scenario:dot-literal", "case %d gave %llx", k, (unsigned long long) v);
    }
}
SCENARIO(C06, mkperm_partial) {
    for (uint32_t n : { 1u, 31u, 33u, 65u, 1000u, 4097u }) for (uint32_t bs : { 32u, 64u, 1024u }) {
        if (bs > n) continue;
        uint32_t *k = (uint32_t *) jit_malloc(LLVM, n * 4, 1), *p = (uint32_t *) jit_malloc(LLVM, n * 4 + 4, 1);
        for (uint32_t i = 0; i < n; ++i) k[i] = (i * 7) % 5;
        p[n] = 0xdeadbeef;
        jit_block_mkperm(LLVM, k, n, bs, 5, p, nullptr);
        jit_sync_thread();
        std::vector<uint8_t> seen(n);
        for (uint32_t i = 0; i < n; ++i) { uint32_t q = p[i]; if (q >= n || q / bs != i / bs || seen[q]++) { H::violation("scenario:mkperm", "n %u block %u: entry %u is %u", n, bs, i, q); break; } }
        if (p[n] != 0xdeadbeef) H::violation("scenario:mkperm-over", "wrote past the end");
        jit_free(k); jit_free(p);
    }
}
// ------------------------------------------------------------------ C03
SCENARIO(C03, scalar_condition) {
    for (int l = 0; l < 2; ++l) for (int c = 0; c < 2; ++c) {
        Var cond = lit(B1, c, 1, l == 0), x = u32({ 1, 2, 3, 4, 5 }), y = u32({ 10, 20, 30, 40, 50 });
        Vars o = sym_if(cond, [&] { return Vars{ add(x, lit_u32(1)) }; }, [&] { return Vars{ add(y, lit_u32(1)) }; });
        expect("scalar-cond", o[0], c ? std::vector<uint64_t>{ 2, 3, 4, 5, 6 } : std::vector<uint64_t>{ 11, 21, 31, 41, 51 });
    }
}
SCENARIO(C03, side_effects_of_different_sizes) {
    // scalar (or wide) loop state, side effects of different sizes in every order, optionally inside a conditional
    for (uint32_t n : { 3u, 50u }) for (int order = 0; order < 8; ++order) for (int wide = 0; wide < 2; ++wide) for (int cnd = 0; cnd < 3; ++cnd) {
        std::vector<Var> tgt;
        std::vector<bool> big;
        for (int k = 0; k < 3; ++k) { big.push_back(order >> k & 1); tgt.push_back(u32(std::vector<uint32_t>(big[k] ? n : 4, 0))); }
        Var ctr = counter(n), zero = lit_u32(0), one = lit_u32(1);
        Vars st { wide ? u32(std::vector<uint32_t>(n, 0)) : lit_u32(0) };
        auto body = [&](int from, int to) {
            for (int k = from; k < to; ++k)
                tgt[k] = steal(jit_var_scatter(tgt[k], one, big[k] ? ctr : zero, lit_bool(1), ReduceOp::Add, ReduceMode::Direct));
        };
        st = sym_loop(st, [&](Vars &s) { return lt(s[0], lit_u32(3)); }, [&](Vars &s) -> Vars {
            if (cnd) sym_if(steal(jit_var_neq(s[0], cnd == 1 ? lit_u32(1) : zero)), [&] { body(0, 2); return Vars{ zero }; }, [&] { body(2, 3); return Vars{ one }; });
            else body(0, 3);
            return { add(s[0], one) };
        });
        bool any = false;
        for (int k = 0; k < 3; ++k) any |= big[k];
        for (int k = 0; k < 3; ++k) {
            uint64_t reps = !cnd ? 3 : k < 2 ? 2 : 1;
            std::vector<uint64_t> want(big[k] ? n : 4, big[k] ? reps : 0);
            // the whole loop has one size: a scalar update within a wide loop is performed by each of its elements
            if (!big[k]) want[0] = reps * ((wide || any) ? n : 1);
            expect("side effects of several sizes", tgt[k], want);
        }
        expect("loop state", st[0], rep(3, jit_var_size(st[0])));
    }
}
SCENARIO(C03, literal_outputs) {
    Var c = u32({ 0, 1, 0, 1 }), z = lit_u32(0);
    Var cond = steal(jit_var_neq(c, z));
    Var keep;
    Vars o = sym_if(cond, [&] { Var l = lit_u32(77); Var q = add(c, l); return Vars{ l, q }; }, [&] { Var l = lit_u32(77); return Vars{ l, c }; });
    Var s = add(o[0], o[1]), t = add(o[0], c);
    jit_var_schedule(s); jit_var_schedule(t); jit_eval();
    expect("lit-out", s, { 77, 77 + 78, 77, 77 + 78 });
    expect("lit-out2", t, { 77, 78, 77, 78 });
}
// ------------------------------------------------------------------ C04
static const char *const DOM[] = { "RgA", "RgB", "RgC", "RgD", "RgE", "RgF", "RgG", "RgH" };
static int n_dom = 0;
/// A fresh domain with n registered instances
struct Inst {
    std::vector<std::unique_ptr<char[]>> m;
    const char *name;
    Inst(uint32_t n) {
        name = DOM[n_dom++ % 8];
        for (uint32_t i = 0; i < n; ++i) { m.emplace_back(new char[8]); jit_registry_put("rg", name, m.back().get()); }
    }
    ~Inst() { for (auto &p : m) jit_registry_remove(p.get()); }
};
struct Flag { JitFlag f; int old; Flag(JitFlag f, int v) : f(f), old(jit_flag(f)) { jit_set_flag(f, v); } ~Flag() { jit_set_flag(f, old); } };

SCENARIO(C04, single_instance_names) {
    for (int merge = 0; merge < 2; ++merge) {
        Flag fl(JitFlag::MergeFunctions, merge);
        Inst i1(1), i2(1), i3(2);
        Var self = u32({ 1, 0, 1, 1 }), self2 = u32({ 1, 2, 0, 2 }), x = u32({ 10, 20, 30, 40 }), tr = lit_bool(true);
        Vars a = sym_call(1, self, tr, { x }, [&](uint32_t, Vars &in) { return Vars{ add(in[0], lit_u32(1)) }; });
        Vars b = sym_call(1, self, tr, { x }, [&](uint32_t, Vars &in) { return Vars{ add(in[0], lit_u32(2)) }; });
        Vars c = sym_call(2, self2, tr, { x }, [&](uint32_t k, Vars &in) { return Vars{ add(in[0], lit_u32(100 * (k + 1))) }; });
        for (auto *v : { &a, &b, &c }) jit_var_schedule((*v)[0]);
        jit_eval();
        expect("single1", a[0], { 11, 0, 31, 41 });
        expect("single2", b[0], { 12, 0, 32, 42 });
        expect("double", c[0], { 110, 220, 0, 240 });
    }
}
SCENARIO(C04, identical_bodies_single_and_multi) {
    for (int merge = 0; merge < 2; ++merge) {
        Flag fl(JitFlag::MergeFunctions, merge);
        Inst i1(1), i2(2);
        Var self = u32({ 1, 0, 1, 1 }), self2 = u32({ 1, 2, 0, 2 }), x = u32({ 10, 20, 30, 40 }), tr = lit_bool(true);
        auto body = [&](uint32_t, Vars &in) { return Vars{ add(in[0], lit_u32(1)) }; };
        Vars a = sym_call(1, self, tr, { x }, body), b = sym_call(2, self2, tr, { x }, body);
        jit_var_schedule(a[0]); jit_var_schedule(b[0]); jit_eval();
        expect("one", a[0], { 11, 0, 31, 41 });
        expect("two", b[0], { 11, 21, 0, 41 });
    }
}
SCENARIO(C04, shared_literal_argument) {
    for (int opt = 0; opt < 2; ++opt) for (int merge = 0; merge < 2; ++merge) {
        Flag fl(JitFlag::OptimizeCalls, opt), f2(JitFlag::MergeFunctions, merge);
        Inst i1(2);
        Var self = u32({ 1, 0, 2, 1 }), x = u32({ 10, 20, 30, 40 }), tr = lit_bool(true), l = lit_u32(7), s = lit(U32, 5, 1, true);
        Vars a = sym_call(2, self, tr, { x, l, s }, [&](uint32_t k, Vars &in) {
            // reads the caller's literal and the caller's evaluated scalar directly *and* as arguments
            Var q = add(add(in[0], in[1]), add(l, s));
            return Vars{ k ? add(q, in[2]) : q, in[1], steal(jit_var_mul(in[2], lit_u32(k + 1))) };
        });
        for (auto &v : a) jit_var_schedule(v);
        jit_eval();
        expect("sum", a[0], { 29, 0, 54, 59 });
        expect("literal", a[1], { 7, 0, 7, 7 });
        expect("scalar", a[2], { 5, 0, 10, 5 });
    }
}
SCENARIO(C04, nested_self_and_masks) {
    for (int opt = 0; opt < 2; ++opt) {
        Flag fl(JitFlag::OptimizeCalls, opt);
        Inst i1(3), i2(2);
        std::vector<uint64_t> want, wt(4, 0);
        std::vector<uint32_t> sv, ov; std::vector<uint8_t> mv;
        for (uint32_t k = 0; k < 37; ++k) {
            uint32_t s = k % 4, o = (k / 4) % 3, m = k % 5 != 0;
            sv.push_back(s); ov.push_back(o); mv.push_back(m);
            uint32_t inner = o == 0 ? 0 : k * o + 1000;
            bool act = m && s;
            want.push_back(act ? (s == 2 ? k : inner + s) : 0);
            if (act && s != 2 && o) wt[o]++;
        }
        Var self = u32(sv), other = u32(ov), mask = arr(B1, mv), x = counter(37), tgt = lit(U32, 0, 4, true);
        Vars a = sym_call(3, self, mask, { x, other }, [&](uint32_t k, Vars &in) -> Vars {
            if (k == 1) return { in[0] };
            Vars r = sym_call(2, in[1], lit_bool(true), { in[0] }, [&](uint32_t j, Vars &in2) -> Vars {
                tgt = steal(jit_var_scatter(tgt, lit_u32(1), lit_u32(j + 1), lit_bool(true), ReduceOp::Add, ReduceMode::Direct));
                return { add(steal(jit_var_mul(in2[0], lit_u32(j + 1))), lit_u32(1000)) };
            });
            return { add(r[0], lit_u32(k + 1)) };
        });
        jit_var_schedule(a[0]); jit_eval();
        expect("nested", a[0], want);
        expect("nested-effects", tgt, wt);
    }
}


SCENARIO(C09, remove_errors) {
    int a, b;
    jit_init(1u << (uint32_t) LLVM);
    uint32_t id = jit_registry_put("llvm", "scen", &a);
    if (id != 1) H::violation("id", "first id is %u", id);
    bool raised = false;
    try { jit_registry_remove(&b); } catch (const std::exception &) { raised = true; }
    if (!raised) H::violation("remove-unregistered", "removing an unregistered pointer did not raise");
    if (jit_registry_ptr("llvm", "scen", id) != &a) H::violation("ptr", "a failed removal changed the registry");
    jit_registry_remove(&a);
    if (jit_registry_ptr("llvm", "scen", id)) H::violation("ptr", "removed id still resolves");
}

// Local arrays -------------------------------------------------------------------------------------------
static Var arr_new(VarType t, uint32_t len, uint32_t size, uint64_t v) { return steal(jit_array_init(steal(jit_array_create(LLVM, t, size, len)), lit(t, v, size))); }
static Var arr_put(const Var &a, uint32_t k, const Var &v) { return steal(jit_array_write(a, lit_u32(k), v, lit_bool(true))); }
static Var arr_get(const Var &a, uint32_t k) { return steal(jit_array_read(a, lit_u32(k), lit_bool(true))); }
static void expect_u32(const char *what, const Var &v, uint32_t n, const std::function<uint32_t(uint32_t)> &f) {
    auto r = fetch(v);
    for (uint32_t i = 0; i < n; ++i) { uint64_t got = r[r.size() == 1 ? 0 : i]; if (got != f(i)) { H::violation(what, "element %u is %llu instead of %u", i, (unsigned long long) got, f(i)); return; } }
    H::stat("elements_compared", n);
}
SCENARIO(C16, versions) {   // an old version stays valid after writes, in one kernel
    uint32_t n = 40; Var i = steal(jit_var_counter(LLVM, n));
    Var a = arr_new(VarType::UInt32, 3, n, 7), b = arr_put(a, 1, i), c = arr_put(a, 1, lit_u32(9));
    Var ra = arr_get(a, 1), rb = arr_get(b, 1), rc = arr_get(c, 1), rd = arr_get(c, 0);
    for (auto *v : { &ra, &rb, &rc, &rd }) jit_var_schedule(*v);
    jit_eval();
    expect_u32("a", ra, n, [](uint32_t) { return 7; }); expect_u32("b", rb, n, [](uint32_t i) { return i; });
    expect_u32("c", rc, n, [](uint32_t) { return 9; }); expect_u32("d", rd, n, [](uint32_t) { return 7; });
}
SCENARIO(C16, lengths_and_kernels) {   // kernels that only differ in the length
    for (uint32_t len : { 5u, 3u, 4u }) {
        uint32_t n = 33; Var a = arr_new(VarType::UInt32, len, n, len);
        jit_var_eval(a);
        for (uint32_t k = 0; k < len; ++k) expect_u32("slot", arr_get(a, k), n, [&](uint32_t) { return len; });
        if (jit_array_length(a) != len) H::violation("length", "length changed");
    }
}
SCENARIO(C16, scalar_evaluated_array) {
    Var a = arr_put(arr_new(VarType::UInt32, 3, 1, 5), 2, lit_u32(6));
    jit_var_eval(a);
    Var i = steal(jit_var_mod(steal(jit_var_counter(LLVM, 50)), lit_u32(3)));
    expect_u32("read", steal(jit_array_read(a, i, lit_bool(true))), 50, [](uint32_t k) { return k % 3 == 2 ? 6u : 5u; });
}
SCENARIO(C16, loop_keeps_input) {   // and the kernel is compiled twice (result of the sum first, contents second)
    uint32_t n = 37; Var lim = steal(jit_var_mod(steal(jit_var_counter(LLVM, n)), lit_u32(5)));
    Var a = arr_new(VarType::UInt32, 4, n, 10); jit_var_eval(a);
    Vars o = sym_loop({ steal(jit_var_and(lim, lit_u32(0))), a, steal(jit_var_and(lim, lit_u32(0))) }, [&](Vars &s) { return steal(jit_var_lt(s[0], lim)); }, [&](Vars &s) -> Vars {
        Var x = steal(jit_array_read(s[1], s[0], lit_bool(true)));
        Var y = steal(jit_array_write(s[1], s[0], steal(jit_var_add(x, s[0])), lit_bool(true)));
        return { steal(jit_var_add(s[0], lit_u32(1))), y, steal(jit_var_add(s[2], x)) };
    });
    expect_u32("sum", o[2], n, [](uint32_t i) { return 10 * (i % 5); });
    for (uint32_t k = 0; k < 4; ++k) expect_u32("out", arr_get(o[1], k), n, [&](uint32_t i) { return k < i % 5 ? 10 + k : 10u; });
    for (uint32_t k = 0; k < 4; ++k) expect_u32("in", arr_get(a, k), n, [&](uint32_t) { return 10u; });
}
SCENARIO(C16, conditional_versions) {
    uint32_t n = 21; Var i = steal(jit_var_counter(LLVM, n)), c = steal(jit_var_lt(i, lit_u32(11)));
    Var a = arr_new(VarType::UInt32, 2, n, 1), b = arr_new(VarType::UInt32, 2, n, 2);
    Vars o = sym_if(c, [&]() -> Vars { return { arr_put(a, 0, lit_u32(5)) }; }, [&]() -> Vars { return { b }; });
    Var r0 = arr_get(o[0], 0), r1 = arr_get(o[0], 1), a0 = arr_get(a, 0), b1 = arr_get(b, 1);
    for (auto *v : { &r0, &r1, &a0, &b1 }) jit_var_schedule(*v);
    jit_eval();
    expect_u32("r0", r0, n, [](uint32_t i) { return i < 11 ? 5u : 2u; }); expect_u32("r1", r1, n, [](uint32_t i) { return i < 11 ? 1u : 2u; });
    expect_u32("a0", a0, n, [](uint32_t) { return 1; }); expect_u32("b1", b1, n, [](uint32_t) { return 2; });
}
SCENARIO(C16, mask_larger_than_array) {
    uint32_t n = 48; Var a = arr_new(VarType::UInt32, 2, 1, 3), m = steal(jit_var_lt(steal(jit_var_counter(LLVM, n)), lit_u32(20)));
    Var b = steal(jit_array_write(a, lit_u32(1), lit_u32(4), m));
    expect_u32("write", arr_get(b, 1), n, [](uint32_t i) { return i < 20 ? 4u : 3u; });
}

// ------------------------------------------------------------------ C17
SCENARIO(C17, writes_to_shrunk_views) {
    Var a = u32({ 1, 2, 3, 4, 5, 6 }), b = steal(jit_var_shrink(a, 3)); uint32_t v = 99;
    Var c = steal(jit_var_write(b, 1, &v));
    expect("original", a, { 1, 2, 3, 4, 5, 6 }); expect("written view", c, { 1, 99, 3 }); expect("view", b, { 1, 2, 3 });
    Var d = steal(jit_var_shrink(a, 2)); uint32_t raw = d.release(); Var e = steal(jit_var_write(raw, 0, &v)); jit_var_dec_ref(raw);
    expect("original", a, { 1, 2, 3, 4, 5, 6 }); expect("written view", e, { 99, 2 });
}
SCENARIO(C17, scatter_to_shrunk_view) {
    Var a = u32({ 1, 2, 3, 4, 5, 6 }), b = steal(jit_var_shrink(a, 3));
    b = steal(jit_var_scatter(b, lit_u32(7), lit_u32(0), lit_bool(true), ReduceOp::Identity, ReduceMode::Auto)); jit_eval();
    expect("original", a, { 1, 2, 3, 4, 5, 6 }); expect("view", b, { 7, 2, 3 });
}
// ------------------------------------------------------------------ C22
SCENARIO(C22, scatter_under_evaluated_scalar_mask) {
    // lanes past the end of the array must stay disabled when an evaluated scalar mask is broadcast
    for (size_t n = 1; n < 70; ++n) for (int later = 0; later < 2; ++later) {
        for (int k = 0; k < 3; ++k) { Var junk = u32(std::vector<uint32_t>(n + 100, 3)); }
        std::vector<uint32_t> ix(n), v(n); std::vector<uint64_t> want(n); for (size_t i = 0; i < n; ++i) { ix[i] = (uint32_t) i; v[i] = (uint32_t) (100 + i); want[i] = v[i]; }
        Var c = steal(jit_var_copy_opaque(lit_bool(true))), m = steal(jit_var_mask_apply(c, 1)); if (!later) jit_var_eval(m);
        Var t = u32(std::vector<uint32_t>(n, 0)), iv = u32(ix), vv = u32(v);
        jit_var_mask_push(LLVM, m);
        if (later) { Var m2 = steal(jit_var_mask_apply(lit_bool(true), (uint32_t) n)); jit_var_eval(m); jit_var_mask_pop(LLVM); jit_var_mask_push(LLVM, m2); }
        t = steal(jit_var_scatter(t, vv, iv, lit_bool(true), ReduceOp::Identity, ReduceMode::Auto));
        jit_var_mask_pop(LLVM); jit_eval();
        expect("scatter under a scalar mask", t, want);
    }
}

// ------------------------------------------------------------------ C11
static const char *frz(Recording *&rec, const std::vector<uint32_t> &in, const std::function<std::vector<Var>()> &fn, std::string &msg, std::vector<Var> *keep = nullptr) {
    msg.clear(); rec = nullptr;
    jit_freeze_start(LLVM, in.data(), (uint32_t) in.size());
    try {
        std::vector<Var> o = fn(); std::vector<uint32_t> q;
        for (auto &v : o) { int rv; v = steal(jit_var_schedule_force(v, &rv)); }
        jit_eval(); for (auto &v : o) q.push_back(v);
        if (keep) *keep = o;
        rec = jit_freeze_stop(LLVM, q.data(), (uint32_t) q.size());
    } catch (const std::exception &e) { msg = e.what(); if (jit_flag(JitFlag::FreezingScope)) jit_freeze_abort(LLVM); }
    if (jit_flag(JitFlag::FreezingScope)) H::violation("scenario:freezing-scope", "still set");
    return msg.c_str();
}
static void replay(const char *what, Recording *rec, std::vector<uint32_t> in, const std::vector<std::vector<uint64_t>> &want) {
    if (!jit_freeze_dry_run(rec, in.data())) { H::violation(std::string("scenario:") + what, "the dry run rejected the inputs"); return; }
    std::vector<uint32_t> o(want.size()); jit_freeze_replay(rec, in.data(), o.data());
    for (size_t i = 0; i < want.size(); ++i) { expect(what, o[i], want[i]); jit_var_dec_ref(o[i]); }
}
SCENARIO(C11, any_all_replay) {
    for (int all = 0; all < 2; ++all) for (size_t n : { 1, 3, 4, 17, 4096, 100001 }) {
        std::vector<uint8_t> x(n, all); Recording *rec; std::string msg;
        Var a = arr(B1, x); uint32_t ai = a;
        frz(rec, { ai }, [&] { return std::vector<Var> { steal(all ? jit_var_all_async(LLVM, a) : jit_var_any_async(LLVM, a)) }; }, msg);
        if (!rec) { H::violation("scenario:anyall", "%s", msg.c_str()); return; }
        for (size_t m : { n, n * 3 + 1 }) for (size_t at : { (size_t) 0, m / 3, m - 1, m }) {
            std::vector<uint8_t> y(m, all); if (at < m) y[at] = !all;
            Var b = arr(B1, y); replay("any/all replay", rec, { b }, { { at < m ? (uint64_t) !all : (uint64_t) all } });
        }
        jit_freeze_destroy(rec);
    }
}
SCENARIO(C11, unsupported_operations_are_rejected) {
    // operations that cannot be replayed must raise while recording; the system must then work as before
    struct Q { const char *name; std::function<std::vector<Var>(const Var &, const Var &)> fn; };
    std::vector<Q> qs = {
        { "read", [](const Var &a, const Var &) { Var b = add(a, lit(U32, 1)); jit_var_eval(b); uint32_t x; jit_var_read(b, 0, &x); return std::vector<Var> { steal(jit_var_add(b, lit(U32, x))) }; } },
        { "write", [](const Var &a, const Var &) { Var b = add(a, lit(U32, 1)); jit_var_eval(b); uint32_t x = 5; Var c = steal(jit_var_write(b, 1, &x)); return std::vector<Var> { c }; } },
        { "host-func", [](const Var &a, const Var &) { jit_enqueue_host_func(LLVM, [](void *) { }, nullptr); return std::vector<Var> { add(a, a) }; } },
        { "uncaptured", [](const Var &a, const Var &o) { return std::vector<Var> { add(a, o) }; } },
        { "uncaptured-reduce", [](const Var &, const Var &o) { return std::vector<Var> { steal(jit_var_reduce(LLVM, VarType::Void, ReduceOp::Add, o)) }; } },
        { "mapped-memory", [](const Var &a, const Var &) { static uint32_t mem[64] = { 1, 2, 3, 4, 5 }; Var m = steal(jit_var_mem_map(LLVM, U32, mem, 5, 0)); return std::vector<Var> { add(a, m) }; } },
        { "user-exception", [](const Var &, const Var &) -> std::vector<Var> { throw std::runtime_error("user"); } },
    };
    for (auto &q : qs) for (int pass = 0; pass < 3; ++pass) {
        Var a = u32({ 1, 2, 3, 4, 5 }), o = u32({ 10, 20, 30, 40, 50 }); Recording *rec; std::string msg;
        frz(rec, { a }, [&] { return q.fn(a, o); }, msg);
        H::stat("rejections_checked");
        if (rec) {
            // not rejected: then a replay with other contents must be right (checked against a fresh evaluation)
            Var a2 = u32({ 7, 8, 9, 10, 11 }), o2 = o; std::vector<Var> w; std::vector<uint32_t> in { a2 }, out(1);
            w = q.fn(a2, o); bool rejected = false;
            try { if (!jit_freeze_dry_run(rec, in.data())) rejected = true; else { jit_freeze_replay(rec, in.data(), out.data()); expect((std::string("accepted ") + q.name).c_str(), out[0], fetch(w[0])); jit_var_dec_ref(out[0]); } } catch (const std::exception &) { rejected = true; }
            H::stat(rejected ? "rejected_on_replay" : "accepted"); jit_freeze_destroy(rec);
        } else if (msg.empty()) H::violation("scenario:rejection", "%s: neither a recording nor an exception", q.name);
        Var s = add(a, o); expect("after a rejected recording", s, { 11, 22, 33, 44, 55 });
        Recording *r2; frz(r2, { a, o }, [&] { return std::vector<Var> { add(a, o) }; }, msg);
        if (!r2) { H::violation("scenario:rejection", "%s: a later recording failed: %s", q.name, msg.c_str()); return; }
        Var x = u32({ 1, 1, 1 }), y = u32({ 5, 6, 7 }); replay("recording after a rejected one", r2, { x, y }, { { 6, 7, 8 } }); jit_freeze_destroy(r2);
    }
}
SCENARIO(C11, abandoned_recording_with_pending_work) {
    // work that was traced but not yet evaluated when a recording is abandoned must neither be lost nor leak
    for (int k = 0; k < 3; ++k) {
        Var t = u32({ 0, 0, 0, 0 }), v = u32({ 5, 6, 7, 8 }), s; Var keep = t; uint32_t in[1] = { t };
        jit_freeze_start(LLVM, in, 1);
        Var w = steal(jit_var_scatter(t, lit(U32, 9), lit(U32, 2), lit_bool(true), ReduceOp::Identity, ReduceMode::Auto));
        s = add(t, lit(U32, 1)); jit_var_schedule(s);
        jit_freeze_abort(LLVM);
        jit_eval();
        expect("target of a pending scatter", w, { 0, 0, 9, 0 }); expect("scheduled value", s, { 1, 1, 1, 1 }); expect("original", t, { 0, 0, 0, 0 });
    }
}
SCENARIO(C11, paused_recording) {
    Var a = u32({ 1, 2, 3, 4 }); Recording *rec; std::string msg;
    frz(rec, { a }, [&] {
        Var b = add(a, lit(U32, 1)); jit_var_eval(b);
        jit_freeze_pause(LLVM);
        Var x = u32({ 9, 8, 7 }), y = add(x, x); expect("paused", y, { 18, 16, 14 });
        jit_freeze_resume(LLVM);
        return std::vector<Var> { add(b, b), b }; }, msg);
    if (!rec) { H::violation("scenario:paused", "%s", msg.c_str()); return; }
    for (uint32_t n : { 4u, 1u, 1000u }) { std::vector<uint32_t> q(n); std::vector<uint64_t> w1, w2; for (uint32_t i = 0; i < n; ++i) { q[i] = i * 3; w1.push_back(2 * (i * 3 + 1)); w2.push_back(i * 3 + 1); } Var z = u32(q); replay("paused replay", rec, { z }, { w1, w2 }); }
    jit_freeze_destroy(rec);
}
SCENARIO(C11, view_output) {
    // known finding: replay gives a view created by jit_var_shrink() the size of the array it belongs to
    std::vector<uint32_t> x(40), y(40); std::vector<uint64_t> want; for (uint32_t i = 0; i < 40; ++i) { x[i] = i; y[i] = 100 + i; if (i < 7) want.push_back(101 + i); }
    Var a = u32(x), b = u32(y); Recording *rec; std::string msg;
    frz(rec, { a }, [&] { Var c = add(a, lit(U32, 1)); jit_var_eval(c); return std::vector<Var> { steal(jit_var_shrink(c, 7)) }; }, msg);
    if (!rec) return;   // rejecting this would be fine
    replay("frozen-view", rec, { b }, { want }); jit_freeze_destroy(rec);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    std::string prop = H::opts("prop", ""), only = H::opts("name", "");
    jit_start();
    jit_set_flag(JitFlag::FastMath, 0);
    uint64_t n = 0;
    for (auto &s : all()) {
        if ((!prop.empty() && prop != s.prop) || (!only.empty() && only != s.name)) continue;
        H::cur = n++;
        fprintf(H::out, "C\t%s:%s\n", s.prop, s.name); fflush(H::out);
        try { s.fn(); } catch (const std::exception &e) { H::violation(std::string("scenario:") + s.name, "%s", e.what()); }
        H::stat("cases"); H::stat("scenarios"); H::distinct(H::hash_str(s.name));
    }
    if (!n) { fprintf(stderr, "HARNESS no scenario for %s\n", prop.c_str()); return 99; }
    H::finish();
    jit_shutdown(0);
    return 0;
}
