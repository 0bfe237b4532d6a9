// Thread-local scopes, prefixes, masks, self pointers, flags and labels (C22) against explicit stacks; mode=threads runs one history per thread.
#include <thread>
#include "common.h"
using VU = std::vector<uint64_t>;
static const VarType U32 = VarType::UInt32, B1 = VarType::Bool;
static std::atomic<bool> g_bad { false };
static std::atomic<uint64_t> g_uid { 1000 };
static std::mutex g_scopes_lock; static std::set<uint32_t> g_scopes;   // scopes handed out (unique while a case runs)

static Var pack(VarType t, const VU &v) { size_t s = type_sz(t); std::vector<uint8_t> b(v.size() * s); for (size_t i = 0; i < v.size(); ++i) memcpy(&b[i * s], &v[i], s); return copy_in(t, b.data(), v.size()); }

struct Case {
    Rng &r; size_t n; std::string trace; bool threads, ok = true;
    std::vector<std::string> prefix; struct M { Var v; VU c; }; std::vector<M> masks;
    std::vector<uint32_t> scopes; std::vector<std::pair<uint32_t, Var>> selfs; uint32_t flags;
    struct L { Var v; std::string label; bool has; VU c; }; std::vector<L> vars;
    Var tgt; VU tc;
    uint64_t uid() { return ++g_uid; }
    void T(const std::string &s) { if (H::verbose()) fprintf(stderr, "TR %s\n", s.c_str()); trace += s + "; "; }
    void bad(const char *k, const std::string &m) { if (!g_bad.exchange(true)) H::violation(k, "%s [%s]", m.c_str(), trace.c_str()); ok = false; }
    std::string pfx() { std::string s; for (auto &p : prefix) s += p + "/"; return s; }
    Case(Rng &r, bool threads) : r(r), threads(threads) {
        n = r.chance(.1) ? 1 : 1 + r.below(r.chance(.5) ? 40 : 300);
        flags = jit_flags(); tc.assign(n, 0); tgt = pack(U32, tc); scopes.push_back(jit_scope(LLVM));
    }
    VU bits(size_t m) { VU c; double p = r.pick((const double[]) { .05, .5, .95, 0, 1 }); for (size_t i = 0; i < m; ++i) c.push_back(r.chance(p)); return c; }
    bool active(size_t i) { return masks.empty() || masks.back().c[masks.back().c.size() == 1 ? 0 : i]; }
    void check_values(const char *what, const Var &v, const VU &w) {
        VU g = fetch(v); if (H::verbose()) for (size_t i = 0; i < w.size(); ++i) fprintf(stderr, "%s[%zu]=%llx want %llx mask %d\n", what, i, (unsigned long long) g[g.size() == 1 ? 0 : i], (unsigned long long) w[i], active(i));
        for (size_t i = 0; i < w.size() && ok; ++i) if (g[g.size() == 1 ? 0 : i] != w[i]) bad(what, H::fmt("element %zu of %zu is %llx instead of %llx", i, w.size(), (unsigned long long) g[g.size() == 1 ? 0 : i], (unsigned long long) w[i]));
        if (!threads) H::stat("elements_compared", w.size());
    }
    void audit() {
        const char *p = jit_prefix(LLVM); std::string w = pfx();
        if ((p ? std::string(p) : "") != w || (p == nullptr) != prefix.empty()) bad("prefix", H::fmt("prefix is '%s' instead of '%s'", p ? p : "(null)", w.c_str()));
        if (jit_scope(LLVM) != scopes.back()) bad("scope", H::fmt("scope is %u instead of %u", jit_scope(LLVM), scopes.back()));
        Var t = steal(jit_var_mask_peek(LLVM));
        if (t.i != (masks.empty() ? 0 : masks.back().v.i)) bad("mask", H::fmt("top of the mask stack is r%u instead of r%u", t.i, masks.empty() ? 0 : masks.back().v.i));
        uint32_t sv = 0, si = 0; jit_var_self(LLVM, &sv, &si);
        if (sv != (selfs.empty() ? 0 : selfs.back().first) || (si != (selfs.empty() ? 0 : selfs.back().second.i))) bad("self", H::fmt("self is (%u, r%u)", sv, si));
        if (jit_flags() != flags) bad("flags", H::fmt("flags are %x instead of %x", jit_flags(), flags));
        for (int k = 0; k < 22; ++k) if ((jit_flag((JitFlag) (1u << k)) != 0) != ((flags >> k) & 1)) bad("flag", H::fmt("flag %d", k));
        for (auto &l : vars) { const char *s = jit_var_label(l.v); if ((s != nullptr) != l.has || (s && l.label != s)) bad("label", H::fmt("label of r%u is '%s' instead of '%s'", l.v.i, s ? s : "(null)", l.has ? l.label.c_str() : "(null)")); }
    }
    L fresh(bool array) {
        L l; uint64_t u = uid(); l.c = array ? VU(n, 0) : VU(1, u);
        if (array) { for (size_t i = 0; i < n; ++i) l.c[i] = (uint32_t) (u * 7919 + i * 31); l.v = pack(U32, l.c); } else l.v = lit_u32((uint32_t) u);
        l.label = ""; l.has = !prefix.empty();
        return l;
    }
    void step() {
        static const char *NAMES[] = { "a", "bb", "loop body", "x_1", "", "0", "long_prefix_name_that_exceeds_small_buffers" };
        switch (r.below(20)) {
            case 0: if (prefix.size() < 5) { std::string s = r.pick(NAMES); jit_prefix_push(LLVM, s.c_str()); prefix.push_back(s); T("prefix+" + s); } break;
            case 1: if (!prefix.empty()) { jit_prefix_pop(LLVM); prefix.pop_back(); T("prefix-"); }
                    else { bool e = false; try { jit_prefix_pop(LLVM); } catch (...) { e = true; } if (!e) bad("prefix-underflow", "no exception"); } break;
            case 2: case 3: {
                M m; if (r.chance(.2)) { m.c = { r.below(2) }; m.v = r.chance(.5) ? lit_bool(m.c[0]) : steal(jit_var_copy_opaque(lit_bool(m.c[0]))); }
                else { m.c = bits(n); m.v = pack(B1, m.c); if (r.chance(.4)) { m.v = steal(jit_var_not(m.v)); for (auto &x : m.c) x ^= 1; } }
                if (!masks.empty() && r.chance(.5)) {   // nested like the control flow constructs do it
                    size_t sz = std::max(m.c.size(), masks.back().c.size()); Var q = steal(jit_var_mask_apply(m.v, (uint32_t) sz));
                    VU c(sz); for (size_t i = 0; i < sz; ++i) c[i] = m.c[m.c.size() == 1 ? 0 : i] & masks.back().c[masks.back().c.size() == 1 ? 0 : i];
                    m.v = q; m.c = c;
                }
                else m.v = steal(jit_var_and(steal(jit_var_mask_default(LLVM, m.c.size())), m.v));   // the tail of the last SIMD packet must be disabled
                if (r.chance(.3)) jit_var_eval(m.v);
                if (m.c.size() > 1 && jit_var_size(m.v) == 1) m.c.resize(1);
                jit_var_mask_push(LLVM, m.v); masks.push_back(m); T(H::fmt("mask+(%zu:r%u%s)", m.c.size(), m.v.i, jit_var_state(m.v) == VarState::Evaluated ? "e" : "")); break; }
            case 4: if (!masks.empty()) { jit_var_mask_pop(LLVM); masks.pop_back(); T("mask-"); }
                    else { bool e = false; try { jit_var_mask_pop(LLVM); } catch (...) { e = true; } if (!e) bad("mask-underflow", "no exception"); } break;
            case 5: { uint32_t s = jit_new_scope(LLVM); T("scope+");
                      { std::lock_guard<std::mutex> g(g_scopes_lock); if (!g_scopes.insert(s).second) bad("scope-unique", H::fmt("scope %u was handed out twice", s)); }
                      scopes.push_back(s); break; }
            case 6: if (scopes.size() > 1) {   // go back to an earlier scope; its variables must not depend on those of later ones
                jit_set_scope(LLVM, scopes[0]); if (jit_scope(LLVM) != scopes[0]) bad("scope", "jit_set_scope() had no effect");
                Var a = pack(U32, VU(n, 3)), x = steal(jit_var_mul(a, a)); check_values("value", x, VU(n, 9));
                jit_set_scope(LLVM, scopes.back()); T("scope!"); } break;
            case 7: { uint32_t value = 5000 + (uint32_t) r.below(1000); Var ix; if (r.chance(.5)) ix = pack(U32, VU(n, value));
                      jit_var_set_self(LLVM, value, ix); uint32_t v2, i2; jit_var_self(LLVM, &v2, &i2); if (ix.i && i2 != ix.i) bad("self", "index was not kept");
                      selfs.push_back({ value, borrow(i2) }); T("self+"); break; }
            case 8: if (!selfs.empty()) { selfs.pop_back(); if (selfs.empty()) jit_var_set_self(LLVM, 0, 0); else jit_var_set_self(LLVM, selfs.back().first, selfs.back().second); T("self-"); } break;
            case 9: { static const int F[] = { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 18 };
                      int k = r.pick(F); bool on = r.chance(.5); if (k == 0 && on) break;
                      if (r.chance(.7)) { jit_set_flag((JitFlag) (1u << k), on); flags = on ? flags | (1u << k) : flags & ~(1u << k); }
                      else { uint32_t f = flags ^ (1u << k); if (k == 0) break; jit_set_flags(f); flags = f; }
                      T(H::fmt("flag %d=%d", k, on)); break; }
            case 10: case 11: { L l = fresh(r.chance(.6)); vars.push_back(l); T("var r" + std::to_string(l.v.i)); break; }
            case 12: case 13: if (!vars.empty()) {   // labels
                L &l = vars[r.below(vars.size())]; size_t k = r.below(4); std::string e; uint32_t old = l.v.i, ix;
                if (k == 0) { ix = jit_var_set_label(l.v, 1, nullptr); }
                else if (k == 1) { e = r.pick(NAMES); ix = jit_var_set_label(l.v, 1, e.c_str()); }
                else if (k == 2) { e = "s.x[12]"; ix = jit_var_set_label(l.v, 3, "s", "x", "12"); }
                else { e = "q[0].z"; ix = jit_var_set_label(l.v, 3, "q", "0", "z"); }
                bool shared = jit_var_ref(old) > 1 && ix != old; (void) shared;
                L nl = l; nl.v = steal(ix); nl.label = e; nl.has = k != 0 || !prefix.empty(); T(H::fmt("label r%u '%s' -> r%u", old, nl.label.c_str(), ix));
                if (ix != old && r.chance(.5)) { vars.push_back(nl); break; }   // the original keeps its label
                if (ix == old) { for (auto &q : vars) if (&q != &l && q.v.i == old) { bad("label-shared", H::fmt("r%u is labelled in place although it has another owner", old)); } }
                l = nl; break; }
            case 14: if (!vars.empty()) { L &l = vars[r.below(vars.size())]; jit_var_eval(l.v); check_values("contents", l.v, l.c); break; }
            case 15: if (!vars.empty()) { size_t k = r.below(vars.size()); if (r.chance(.5)) { L l = vars[k]; vars.push_back(l); } else vars.erase(vars.begin() + k); } break;
            case 16: {   // a scatter is restricted by the mask in effect while it is traced
                VU m = r.chance(.5) ? VU(n, 1) : bits(n), ix(n), v(n); size_t s = r.below(n); for (size_t i = 0; i < n; ++i) { ix[i] = (i + s) % n; v[i] = (uint32_t) (uid() * 131 + i); }
                size_t ms = masks.empty() ? 1 : masks.back().c.size(); if (ms != 1 && ms != n) break;
                tgt = steal(jit_var_scatter(tgt, pack(U32, v), pack(U32, ix), pack(B1, m), ReduceOp::Identity, ReduceMode::Auto));
                for (size_t i = 0; i < n; ++i) if (m[i] && active(i)) tc[ix[i]] = v[i];
                T("scatter"); if (r.chance(.5)) { bool pop = !masks.empty() && r.chance(.5); if (pop) { jit_var_mask_pop(LLVM); masks.pop_back(); } jit_eval(); check_values("scatter target", tgt, tc); }
                else jit_eval();
                if (!threads) H::stat("masked_effects");
                break; }
            case 17: {   // a gather as well
                VU m = r.chance(.5) ? VU(n, 1) : bits(n), ix(n), w(n); for (size_t i = 0; i < n; ++i) ix[i] = r.below(n);
                if (jit_var_size(tgt) == 1) break;
                VU ix2 = ix; for (size_t i = 0; i < n; ++i) if (!(m[i] && active(i))) ix2[i] = 0xffffff00u;   // invalid address in disabled lanes
                Var g = steal(jit_var_gather(tgt, pack(U32, ix2), pack(B1, m))); for (size_t i = 0; i < n; ++i) w[i] = m[i] && active(i) ? tc[ix[i]] : 0;
                T("gather"); check_values("gather", g, w); if (!threads) H::stat("masked_reads"); break; }
            case 18: {   // mask_apply returns the intersection with the top of the stack
                VU m = bits(n), w(n); Var q = steal(jit_var_mask_apply(pack(B1, m), (uint32_t) n)); for (size_t i = 0; i < n; ++i) w[i] = m[i] && active(i);
                T("mask_apply"); check_values("mask_apply", q, w); break; }
            case 19: {   // value numbering: equal expressions of different scopes are kept apart
                Var a = pack(U32, VU(n, 3)), b = lit_u32((uint32_t) uid());
                Var x = steal(jit_var_mul(a, b)), y = steal(jit_var_mul(a, b)); uint32_t s = jit_scope(LLVM), s2 = jit_new_scope(LLVM);
                { std::lock_guard<std::mutex> g(g_scopes_lock); if (!g_scopes.insert(s2).second) bad("scope-unique", H::fmt("scope %u was handed out twice", s2)); }
                Var z = steal(jit_var_mul(a, b)); jit_set_scope(LLVM, s); Var u = steal(jit_var_mul(a, b));
                if (z.i == x.i || z.i == u.i) bad("scope-merge", "expressions of different scopes were merged");
                if ((flags >> 4) & 1) { if (y.i != x.i || u.i != x.i) { if (!threads) H::stat("not_merged"); } else if (!threads) H::stat("merged"); } else if (y.i == x.i || u.i == x.i) bad("merge-disabled", "value numbering is disabled, but expressions were merged");
                if (r.chance(.5)) check_values("value", z, VU(n, (uint32_t) (3 * jit_var_size(b) * 0 + 3 * (uint32_t) fetch(b)[0])));
                T("lvn"); break; }
        }
        if (ok && r.chance(threads ? .3 : .6)) audit();
    }
    void run() {
        int steps = 5 + r.below(60);
        for (int s = 0; s < steps && ok && !g_bad; ++s) step();
        if (ok) check_values("scatter target", tgt, tc);
        for (auto &l : vars) if (ok) check_values("contents", l.v, l.c);
        if (ok) audit();
        // unwind everything: the state is what it was before
        while (!prefix.empty()) { jit_prefix_pop(LLVM); prefix.pop_back(); if (ok) audit(); }
        while (!masks.empty()) { jit_var_mask_pop(LLVM); masks.pop_back(); if (ok) audit(); }
        while (!selfs.empty()) { selfs.pop_back(); if (selfs.empty()) jit_var_set_self(LLVM, 0, 0); else jit_var_set_self(LLVM, selfs.back().first, selfs.back().second); if (ok) audit(); }
        while (scopes.size() > 1) { scopes.pop_back(); jit_set_scope(LLVM, scopes.back()); if (ok) audit(); }
        vars.clear(); tgt.reset();
    }
};

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    std::string mode = H::opts("mode", "single");
    uint32_t base = jit_flags() & ~((1u << 15) | (1u << 14));
    H::loop([&](uint64_t cs, Rng &r) {
        g_bad = false; g_scopes.clear();
        if (mode == "single") { jit_set_flags(base); Case c(r, false); c.run(); H::distinct(H::hash_str(c.trace)); H::sample(c.trace); jit_set_flags(base); H::stat("histories"); return; }
        uint32_t flags0 = jit_flags(), scope0 = jit_scope(LLVM); jit_prefix_push(LLVM, "main"); Var keep = lit_bool(false); jit_var_mask_push(LLVM, keep);
        int nt = 2 + r.below(4); std::vector<std::thread> ts; std::vector<std::string> tr(nt);
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() {
            Rng q(H::seed * 977 + t, cs); 
            try { jit_set_flags(base); for (int rep = 0; rep < 3 && !g_bad; ++rep) { Case c(q, true); c.run(); tr[t] += c.trace; jit_set_flags(base); } }
            catch (const std::exception &e) { if (!g_bad.exchange(true)) H::violation("unexpected-exception", "%s", e.what()); }
            jit_sync_thread();
        });
        for (auto &t : ts) t.join();
        const char *p = jit_prefix(LLVM); Var top = steal(jit_var_mask_peek(LLVM));
        if (!p || strcmp(p, "main/") || top.i != keep.i || jit_flags() != flags0 || jit_scope(LLVM) != scope0) H::violation("other-thread", "state of the main thread was changed by other threads");
        jit_var_mask_pop(LLVM); jit_prefix_pop(LLVM);
        uint64_t h = 0; for (auto &s : tr) h = h * 31 + H::hash_str(s);
        H::distinct(h); H::stat("threads", nt); H::stat("histories", nt * 3);
    });
    jit_shutdown(1);
    return H::finish();
}
