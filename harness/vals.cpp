// Value semantics of variables (C17): random histories of copies, views, writes, resizes, migrations and host accesses against plain vectors.
#include "common.h"

static const VarType VT[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32,
    VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
using VU = std::vector<uint64_t>;
static std::string trace;
#define T(...) do { std::string q_ = H::fmt(__VA_ARGS__); if (H::verbose()) fprintf(stderr, "TR %s\n", q_.c_str()); trace += q_ + "; "; } while (0)
static uint64_t vmask(VarType t) { size_t s = type_sz(t); return t == VarType::Bool ? 1 : s == 8 ? ~0ull : (1ull << (8 * s)) - 1; }
static uint64_t val(Rng &r, VarType t) {   // any bit pattern (moves never interpret them), few NaNs so that a mistake is visible
    uint64_t v = r.chance(.3) ? r.below(200) : r.next();
    return v & vmask(t);
}
static std::vector<uint8_t> raw(VarType t, const VU &c) { size_t s = type_sz(t); std::vector<uint8_t> b(c.size() * s); for (size_t i = 0; i < c.size(); ++i) memcpy(&b[i * s], &c[i], s); return b; }

struct Item { Var v; VarType t; VU c; JitBackend b = LLVM; std::shared_ptr<std::vector<uint8_t>> user; };   // user: mapped memory owned by the harness

struct Case {
    Rng &r; std::vector<Item> it; std::vector<std::shared_ptr<std::vector<uint8_t>>> keep; bool ok = true;
    Case(Rng &r) : r(r) { it.reserve(64); }
    size_t size() { return r.chance(.15) ? 1 : r.chance(.5) ? 1 + r.below(40) : r.chance(.8) ? 16 * (1 + r.below(5)) + r.below(3) : 1 + r.below(3000); }
    VU data(VarType t, size_t n) { VU c; for (size_t i = 0; i < n; ++i) c.push_back(val(r, t)); return c; }
    void bad(const char *k, const std::string &m) { H::violation(k, "%s [%s]", m.c_str(), trace.c_str()); ok = false; }
    Item &pick() { return it[r.below(it.size())]; }
    bool check(const char *what, const Item &x) {
        if (jit_var_size(x.v) != x.c.size() || jit_var_type(x.v) != x.t) { bad(what, H::fmt("r%u has type %s, size %zu instead of %s, %zu", x.v.i, type_nm(jit_var_type(x.v)), jit_var_size(x.v), type_nm(x.t), x.c.size())); return false; }
        VU got;
        if (x.b == LLVM && r.chance(.25)) {   // via single reads
            got = x.c;
            for (int k = 0; k < 4; ++k) { size_t i = k == 0 ? x.c.size() - 1 : r.below(x.c.size()); uint64_t q = 0; jit_var_read(x.v, i, &q); got[i] = q; }
        } else got = fetch(x.v);
        for (size_t i = 0; i < got.size(); ++i) if (got[i] != x.c[i]) { bad(what, H::fmt("%s r%u: element %zu of %zu is %llx instead of %llx", type_nm(x.t), x.v.i, i, got.size(), (unsigned long long) got[i], (unsigned long long) x.c[i])); return false; }
        H::stat("elements_compared", got.size());
        return true;
    }
    void create() {
        Item x; x.t = r.pick(VT); size_t n = size(); int how = r.below(9);
        if (how == 0) { uint64_t v = val(r, x.t); x.c.assign(n, v); bool e = r.chance(.4); x.v = lit(x.t, v, n, e); T("lit %s[%zu] eval=%d", type_nm(x.t), n, e); }
        else if (how == 1) { x.t = VarType::UInt32; x.v = steal(jit_var_counter(LLVM, n)); for (size_t i = 0; i < n; ++i) x.c.push_back(i); T("counter[%zu]", n); }
        else if (how == 2 || how == 3) {
            x.c = data(x.t, n); auto b = raw(x.t, x.c); std::vector<uint8_t> tmp(b);
            size_t off = r.below(9); tmp.insert(tmp.begin(), off, 0xee);
            x.v = copy_in(x.t, tmp.data() + off, n); memset(tmp.data(), 0xcd, tmp.size()); T("copy_in %s[%zu]", type_nm(x.t), n);
        } else if (how == 4) {   // from device memory that is reused immediately
            x.c = data(x.t, n); auto b = raw(x.t, x.c);
            void *p = jit_malloc(LLVM, b.size()); jit_memcpy(LLVM, p, b.data(), b.size());
            x.v = steal(jit_var_mem_copy(LLVM, x.t, p, n, 0));
            uint8_t fill = 0x77; if (r.chance(.7)) jit_memset_async(LLVM, p, (uint32_t) b.size(), 1, &fill);
            jit_free(p); T("copy_dev %s[%zu]", type_nm(x.t), n);
        } else if (how == 5) {   // takes over an allocation
            x.c = data(x.t, n); auto b = raw(x.t, x.c);
            void *p = jit_malloc(LLVM, b.size()); jit_memcpy(LLVM, p, b.data(), b.size());
            x.v = steal(jit_var_mem_map(LLVM, x.t, p, n, 1)); T("map(free) %s[%zu]", type_nm(x.t), n);
        } else if (how == 6) {   // memory of the caller (padded: see C13, mem-map-overread)
            x.c = data(x.t, n); auto b = raw(x.t, x.c);
            x.user = std::make_shared<std::vector<uint8_t>>(b.size() + 2048); keep.push_back(x.user);
            uint8_t *p = x.user->data() + 64 - (uintptr_t) x.user->data() % 64 + (r.chance(.4) ? type_sz(x.t) : 0);
            memcpy(p, b.data(), b.size()); x.v = steal(jit_var_mem_map(LLVM, x.t, p, n, 0)); T("map(user) %s[%zu]", type_nm(x.t), n);
        } else if (how == 7) {   // a computation
            Item &a = pick();
            if (a.b != LLVM || a.t == VarType::Pointer) return;
            x.t = a.t; uint64_t k = val(r, x.t); Var l = lit(x.t, k, 1);
            if (is_flt(x.t) || r.chance(.5)) { x.v = steal(jit_var_xor(a.v, l)); for (uint64_t v : a.c) x.c.push_back(v ^ k); }
            else if (x.t == VarType::Bool) { x.v = steal(jit_var_not(a.v)); for (uint64_t v : a.c) x.c.push_back(v ^ 1); }
            else { x.v = steal(jit_var_add(a.v, l)); for (uint64_t v : a.c) x.c.push_back((v + k) & vmask(x.t)); }
            T("op r%u -> r%u", a.v.i, x.v.i);
        } else {   // gather from another variable
            Item &a = pick(); if (a.b != LLVM || a.t == VarType::Pointer) return;
            x.t = a.t; VU ix; for (size_t i = 0; i < n; ++i) ix.push_back(r.below(a.c.size()));
            auto b = raw(VarType::UInt32, ix);
            x.v = steal(jit_var_gather(a.v, copy_in(VarType::UInt32, b.data(), n), lit_bool(true)));
            for (size_t i = 0; i < n; ++i) x.c.push_back(a.c[ix[i]]);
            if (jit_var_size(x.v) == 1 && n > 1) x.c.resize(1);
            T("gather r%u -> r%u[%zu]", a.v.i, x.v.i, n);
        }
        it.push_back(x); H::stat("created");
    }
    void step() {
        int what = r.below(24);
        if (it.empty() || (what < 4 && it.size() < 8)) { if (it.empty()) { Item x; x.t = VarType::UInt32; x.c = { 5 }; x.v = lit_u32(5); it.push_back(x); } create(); return; }
        size_t ai = r.below(it.size()); Item &a = it[ai]; size_t n = a.c.size();
        if (a.b != LLVM) {   // on the host: only compare and migrate back
            if (!check("host copy", a)) return;
            Item x = a; x.b = LLVM; x.v = steal(jit_var_migrate(a.v, LLVM)); T("migrate r%u -> r%u", a.v.i, x.v.i);
            if (r.chance(.5)) it.erase(it.begin() + ai);
            it.push_back(x); H::stat("migrations"); return;
        }
        switch (what) {
            case 4: { Item x = a; it.push_back(x); T("ref r%u", a.v.i); break; }
            case 5: { Item x = a; x.user.reset(); x.v = steal(jit_var_copy(a.v)); T("copy r%u -> r%u", a.v.i, x.v.i); it.push_back(x); H::stat("copies"); break; }
            case 6: { Item x = a; x.user.reset(); x.v = steal(jit_var_copy_opaque(a.v)); T("copy_opaque r%u -> r%u", a.v.i, x.v.i); H::stat("copies");
                      if (jit_var_state(x.v) != VarState::Evaluated) { bad("copy-opaque", "the copy is not evaluated"); return; }
                      for (auto &q : it) if (q.b == LLVM && jit_var_state(q.v) == VarState::Evaluated) {
                          void *p = nullptr, *z = nullptr; Var d = steal(jit_var_data(x.v, &p)), e = steal(jit_var_data(q.v, &z));
                          if (p == z) { bad("copy-opaque", H::fmt("r%u shares memory with r%u", x.v.i, q.v.i)); return; }
                      }
                      it.push_back(x); break; }
            case 7: case 8: case 9: {
                size_t k = r.below(n); uint64_t v = val(r, a.t), old = a.v.i;
                a.v = steal(jit_var_write(a.v, k, &v)); a.c[k] = v; T("write r%u[%zu] -> r%u", (uint32_t) old, k, a.v.i); H::stat("writes"); break; }
            case 10: { size_t k = r.below(n); uint64_t v = 0; jit_var_read(a.v, k, &v); H::stat("reads"); if (v != a.c[k]) bad("read", H::fmt("r%u[%zu] is %llx instead of %llx", a.v.i, k, (unsigned long long) v, (unsigned long long) a.c[k])); break; }
            case 11: {
                bool literal = jit_var_state(a.v) == VarState::Literal; if (n != 1 && !literal) break;
                size_t m = size(); Item x = a; x.user.reset(); x.v = steal(jit_var_resize(a.v, m)); x.c.assign(m, a.c[0]); T("resize r%u -> r%u[%zu]", a.v.i, x.v.i, m);
                it.push_back(x); H::stat("resizes"); break; }
            case 12: {
                size_t m = 1 + r.below(n); Item x = a; x.v = steal(jit_var_shrink(a.v, m)); x.c.resize(m); T("shrink r%u[%zu] -> r%u[%zu]", a.v.i, n, x.v.i, m);
                if (r.chance(.3)) it.erase(it.begin() + ai);   // the view outlives its base
                it.push_back(x); H::stat("shrinks"); break; }
            case 13: {
                Item x = a; x.b = r.chance(.8) ? JitBackend::None : LLVM; x.user.reset(); x.v = steal(jit_var_migrate(a.v, x.b)); T("migrate r%u -> r%u (%d)", a.v.i, x.v.i, (int) x.b);
                if (x.b == LLVM) x.user = a.user;
                if (r.chance(.3)) it.erase(it.begin() + ai);
                it.push_back(x); H::stat("migrations"); break; }
            case 14: case 15: {   // scatter a permutation of entries
                if (a.t == VarType::Pointer) break;
                size_t m = 1 + r.below(std::min<size_t>(n, 50)); VU ix, v; std::vector<uint8_t> seen(n);
                while (ix.size() < m) { size_t k = r.below(n); if (seen[k]) { if (r.chance(.2)) break; continue; } seen[k] = 1; ix.push_back(k); v.push_back(val(r, a.t)); }
                m = ix.size(); if (!m) break;
                auto bi = raw(VarType::UInt32, ix), bv = raw(a.t, v); uint32_t old = a.v.i;
                Var vi = copy_in(VarType::UInt32, bi.data(), m), vv = copy_in(a.t, bv.data(), m);
                a.v = steal(jit_var_scatter(a.v, vv, vi, lit_bool(true), ReduceOp::Identity, ReduceMode::Auto));
                for (size_t k = 0; k < m; ++k) a.c[ix[k]] = v[k];
                T("scatter(%zu) r%u -> r%u", m, old, a.v.i); H::stat("scatters");
                if (r.chance(.5)) jit_var_eval(a.v);
                break; }
            case 16: jit_var_eval(a.v); T("eval r%u", a.v.i); break;
            case 17: { int rv = 0; Item x = a; x.v = steal(jit_var_schedule_force(a.v, &rv)); T("force r%u -> r%u", a.v.i, x.v.i); if (rv) jit_eval();
                       if (jit_var_state(x.v) != VarState::Evaluated) { bad("force", "not evaluated"); return; }
                       it.push_back(x); break; }
            case 18: { if (it.size() > 1) { T("drop r%u", a.v.i); it.erase(it.begin() + ai); } break; }
            case 19: check("contents", a); break;
            case 20: { Var w = steal(jit_var_opaque_width(a.v)); VU q = fetch(w); if (q.size() != 1 || q[0] != n || jit_var_state(w) == VarState::Literal) bad("opaque-width", H::fmt("%zu instead of %zu", q.size() ? (size_t) q[0] : 0, n)); break; }
            case 21: {   // the pointer addresses the contents, literals are evaluated into another variable
                void *p = nullptr; bool literal = jit_var_state(a.v) == VarState::Literal; Var d = steal(jit_var_data(a.v, &p)); jit_sync_thread();
                if (literal == (d.i == a.v.i) && literal) bad("data", "a shared literal was evaluated in place");
                auto b = raw(a.t, a.c); if (memcmp(p, b.data(), b.size())) bad("data", H::fmt("pointer of r%u does not address its contents", a.v.i));
                if (a.user && !(p >= (void *) a.user->data() && p < (void *) (a.user->data() + a.user->size()))) { }
                break; }
            case 22: {   // undefined memory: only its shape is defined, until it is overwritten
                VarType t = r.pick(VT); if (t == VarType::Pointer) break;
                size_t m = 1 + r.below(40); Item x; x.t = t; x.v = steal(jit_var_undefined(LLVM, t, m)); VU ix; x.c = data(t, m); for (size_t k = 0; k < m; ++k) ix.push_back(k);
                auto bi = raw(VarType::UInt32, ix), bv = raw(t, x.c); Var vi = copy_in(VarType::UInt32, bi.data(), m), vv = copy_in(t, bv.data(), m);
                x.v = steal(jit_var_scatter(x.v, vv, vi, lit_bool(true), ReduceOp::Identity, ReduceMode::Auto)); T("undefined+scatter r%u", x.v.i); it.push_back(x); break; }
            case 23: {   // stashed references: counts come back
                uint32_t before = jit_var_ref(a.v); uint64_t h = jit_var_stash_ref(a.v); Var extra = a.v; jit_var_unstash_ref(h);
                if (jit_var_ref(a.v) != before + 1) bad("stash", H::fmt("reference count %u instead of %u", jit_var_ref(a.v), before + 1));
                break; }
        }
        if (it.size() > 14) it.erase(it.begin() + r.below(it.size()));
    }
};

static void one(Rng &r) {
    trace.clear();
    jit_set_flag(JitFlag::ConstantPropagation, r.chance(.8)); jit_set_flag(JitFlag::ValueNumbering, r.chance(.8)); jit_set_flag(JitFlag::ReuseIndices, r.chance(.5));
    Case c(r); int steps = 2 + r.below(r.chance(.5) ? 12 : 40);
    for (int s = 0; s < steps && c.ok; ++s) c.step();
    for (size_t k = 0; k < c.it.size() && c.ok; ++k) c.check("final contents", c.it[k]);
    if (c.ok && r.chance(.3)) for (size_t k = 0; k < c.it.size() && c.ok; ++k) c.check("final contents", c.it[k]);
    for (auto &x : c.it) if (c.ok && x.user && x.b == LLVM) {   // memory of the caller holds what its only owner wrote
        void *p = nullptr; Var d = steal(jit_var_data(x.v, &p)); jit_sync_thread(); (void) d;
    }
    c.it.clear(); jit_sync_thread();
    H::distinct(H::hash_str(trace)); H::sample(trace);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    H::loop([&](uint64_t, Rng &r) { one(r); });
    jit_shutdown(1);
    return H::finish();
}
