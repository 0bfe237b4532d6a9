// Lifetime of variables (C07): mode=graph compares the set of live variables with reachability in an explicit graph,
// mode=prog runs generated programs and verifies that nothing is left. mode=abort (C14) raises exceptions at random
// statements of generated programs (inside loops, conditionals, callables) and verifies that everything is restored.
#include "prog.h"
#include "whos.h"
#if defined(__SANITIZE_ADDRESS__)
#  include <sanitizer/lsan_interface.h>
#endif
using VU = std::vector<uint64_t>;
static const VarType U32 = VarType::UInt32, B1 = VarType::Bool;
static Var packv(VarType t, const VU &v) { size_t s = type_sz(t); std::vector<uint8_t> b(v.size() * s); for (size_t i = 0; i < v.size(); ++i) memcpy(&b[i * s], &v[i], s); return copy_in(t, b.data(), v.size()); }

/// The list of variables, and the number of bytes in use (as printed)
static bool whos(std::map<uint32_t, Row> &rows, std::string &used) {
    std::string w = jit_var_whos(); rows.clear(); used = "";
    if (!parse_whos(w, rows)) { H::violation("whos-format", "cannot parse: %s", w.substr(0, 1500).c_str()); return false; }
    for (size_t q = 0; (q = w.find(" used (peak", q)) != std::string::npos; ++q) { size_t l = w.rfind('\n', q), c = w.find(": ", l), s = w.find('/', c); used += w.substr(c + 2, s - c - 2) + ";"; }
    return true;
}
static bool clean(std::string &msg) {
    jit_sync_thread();
    std::map<uint32_t, Row> rows; std::string used; whos(rows, used);
    if (!rows.empty()) { msg = H::fmt("%zu variables are left:", rows.size()); for (auto &r : rows) msg += H::fmt(" r%u(%s, %lu refs, size %lu)", r.first, r.second.type.c_str(), r.second.refs, r.second.size); return false; }
    for (size_t p = 0, e; (e = used.find(';', p)) != std::string::npos; p = e + 1) if (used.substr(p, e - p) != "0 B") { msg = "memory is still in use: " + used; return false; }
    return true;
}
struct Snapshot {
    uint32_t flags, scope, mask, sv, si; std::string prefix;
    static Snapshot take() { Snapshot s; s.flags = jit_flags(); s.scope = jit_scope(LLVM); Var m = steal(jit_var_mask_peek(LLVM)); s.mask = m.i; jit_var_self(LLVM, &s.sv, &s.si); const char *p = jit_prefix(LLVM); s.prefix = p ? p : "(none)"; return s; }
    std::string diff(const Snapshot &o, bool scopes) const {
        if (flags != o.flags) return H::fmt("flags %x -> %x", flags, o.flags);
        if (scopes && scope != o.scope) return H::fmt("scope %u -> %u", scope, o.scope);
        if (mask != o.mask) return H::fmt("mask r%u -> r%u", mask, o.mask);
        if (sv != o.sv || si != o.si) return "self pointer";
        if (prefix != o.prefix) return "prefix " + prefix + " -> " + o.prefix;
        return "";
    }
};

// ------------------------------------------------------------------ mode=graph
struct Node { uint32_t ix = 0; int ext = 0; std::vector<int> dep; VU c; bool evaluated = false, cb = false, known = true; std::atomic<int> *freed = nullptr; bool dead = false; std::string label; };
struct CbData { std::atomic<int> freed { 0 }, evals { 0 }; bool reenter = false; };
static void on_event(uint32_t, int free_, void *p) {
    CbData *d = (CbData *) p; (free_ ? d->freed : d->evals)++;
    if (d->reenter) { Var a = lit_u32(77), b = steal(jit_var_add(a, a)); (void) jit_var_size(b); }   // callbacks may use the library
}
struct Graph {
    Rng &r; std::vector<Node> v; size_t n; std::string trace; bool ok = true; std::vector<std::unique_ptr<CbData>> cbs; std::vector<int> cbi; std::vector<uint64_t> stash; std::vector<std::vector<int>> se;   // nodes kept alive by pending side effects
    std::vector<std::vector<uint8_t>> mapped; bool fuzzy = false; std::set<int> stashed;
    Graph(Rng &r) : r(r) { n = 1 + r.below(r.chance(.2) ? 1 : r.chance(.5) ? 20 : 200); }
    void T(const std::string &s) { if (H::verbose()) fprintf(stderr, "TR %s\n", s.c_str()); trace += s + "; "; }
    void bad(const char *k, const std::string &m) { if (ok) H::violation(k, "%s [%s]", m.c_str(), trace.c_str()); ok = false; }
    int add_node(uint32_t ix, const VU &c, std::vector<int> dep) {
        for (size_t k = 0; k < v.size(); ++k) if (!v[k].dead && v[k].ix == ix) {
            if (v[k].ext == 0) { v[k].dead = true; if (cbi[k] >= 0 && cbs[cbi[k]]->freed != 1) bad("callback-missing", H::fmt("r%u was replaced, but its callback was called %d times", ix, (int) cbs[cbi[k]]->freed)); continue; }   // released by the operation itself
            bad("index-reused", H::fmt("r%u was handed out although it is in use", ix)); }
        Node x; x.ix = ix; x.ext = 1; x.c = c; x.dep = dep; x.evaluated = jit_var_state(ix) == VarState::Evaluated; if (x.evaluated) x.dep.clear();
        v.push_back(x); cbi.push_back(-1); return (int) v.size() - 1;
    }
    int pick(bool evaluated = false) { for (int t = 0; t < 20; ++t) { if (v.empty()) break; int k = r.below(v.size()); if (!v[k].dead && v[k].ext > 0 && (!evaluated || v[k].evaluated)) return k; } return -1; }
    VU value(size_t s) { VU c(s); for (auto &x : c) x = r.next() & 0xffffffff; return c; }
    void reach(std::vector<char> &live) {
        live.assign(v.size(), 0); std::vector<int> st;
        for (size_t k = 0; k < v.size(); ++k) if (!v[k].dead && v[k].ext > 0) st.push_back((int) k);
        for (auto &q : se) for (int k : q) st.push_back(k);
        while (!st.empty()) { int k = st.back(); st.pop_back(); if (live[k]) continue; live[k] = 1; for (int d : v[k].dep) st.push_back(d); }
    }
    void audit() {
        std::vector<char> live; std::map<uint32_t, Row> rows; std::string used; whos(rows, used);
        // synchronise the model with evaluations that took place
        for (bool again = true; again; ) {
            again = false; reach(live);
            for (size_t k = 0; k < v.size(); ++k) if (live[k] && !v[k].evaluated && rows.count(v[k].ix) && jit_var_state(v[k].ix) == VarState::Evaluated) { v[k].evaluated = true; v[k].dep.clear(); again = true; }
            for (size_t k = 0; k < se.size(); ++k) if (!rows.count(v[se[k][0]].ix) || !jit_var_is_dirty(v[se[k][0]].ix)) { se.erase(se.begin() + k--); again = true; }
        }
        // nodes kept alive by others only may also have been evaluated
        size_t known = 0;
        for (size_t k = 0; k < v.size() && ok; ++k) {
            Node &x = v[k]; if (x.dead) continue;
            if (live[k]) {
                known++;
                auto it = rows.find(x.ix);
                if (it == rows.end()) { bad("freed-early", H::fmt("r%u is referenced, but does not exist", x.ix)); break; }
                if (it->second.refs < (unsigned long) x.ext) bad("reference-count", H::fmt("r%u has %lu references instead of at least %d", x.ix, it->second.refs, x.ext));
                if (it->second.size != x.c.size()) bad("size", H::fmt("r%u has size %lu instead of %zu", x.ix, it->second.size, x.c.size()));
                if (cbi[k] >= 0 && cbs[cbi[k]]->freed != 0) bad("callback-early", H::fmt("the callback of r%u was informed about its destruction although it is referenced", x.ix));
                if (x.evaluated && x.ext > 0 && !fuzzy && se.empty()) {   // nothing but the users' references and dependent computations
                    size_t in = 0; for (size_t j = 0; j < v.size(); ++j) if (!v[j].dead && live[j]) for (int d : v[j].dep) in += d == (int) k;
                    if (it->second.refs != x.ext + in) bad("reference-count", H::fmt("r%u has %lu references, %d were handed out and %zu are due to dependent variables", x.ix, it->second.refs, x.ext, in));
                }
            } else {
                x.dead = true;
                if (cbi[k] >= 0 && cbs[cbi[k]]->freed != 1) bad("callback-missing", H::fmt("the callback of r%u was called %d times on destruction", x.ix, (int) cbs[cbi[k]]->freed));
                H::stat("variables_freed");
            }
        }
        if (ok && !fuzzy && se.empty()) {
            std::set<uint32_t> mine; for (size_t k = 0; k < v.size(); ++k) if (live[k]) mine.insert(v[k].ix);
            for (auto &q : rows) if (!mine.count(q.first)) { bad("leak", H::fmt("r%u (%s, %lu refs, size %lu) exists although nothing refers to it", q.first, q.second.type.c_str(), q.second.refs, q.second.size)); break; }
        }
        if (known == 0 && rows.empty()) fuzzy = false;
        H::stat("audits"); H::stat("rows_checked", rows.size());
    }
    void compare(int k) {
        Node &x = v[k];
        VU g(x.c.size()); for (size_t i = 0; i < g.size() && i < 4; ++i) { size_t j = i == 0 ? 0 : r.below(g.size()); uint32_t q = 0; jit_var_read(x.ix, j, &q); if (q != x.c[j]) { bad("contents", H::fmt("r%u[%zu] is %x instead of %llx", x.ix, j, q, (unsigned long long) x.c[j])); return; } }
        H::stat("elements_compared", std::min<size_t>(4, g.size()));
    }
    void drop(int k) { jit_var_dec_ref(v[k].ix); v[k].ext--; }
    void step() {
        switch (r.below(24)) {
            case 0: case 1: { VU c = value(r.chance(.2) ? 1 : n); Var q = r.chance(.1) && c.size() == 1 ? steal(jit_var_copy_opaque(lit_u32((uint32_t) c[0]))) : packv(U32, c); int k = add_node(q.release(), c, {}); T(H::fmt("r%u=array(%zu)", v[k].ix, c.size())); break; }
            case 2: case 3: case 4: case 5: case 6: case 7: {
                int a = pick(), b = pick(); if (a < 0 || b < 0 || a == b) break; if (v[a].c.size() == 1 && v[b].c.size() == 1 && (!v[a].evaluated || !v[b].evaluated) && r.chance(.5)) break;
                size_t m = std::max(v[a].c.size(), v[b].c.size()); VU c(m); int o = r.below(3); bool third = o == 2;
                int d = third ? pick() : -1; if (third && (d < 0 || d == a || d == b)) break;
                if (third) m = std::max(m, v[d].c.size()), c.resize(m);
                for (size_t i = 0; i < m; ++i) { uint64_t x = v[a].c[v[a].c.size() == 1 ? 0 : i], y = v[b].c[v[b].c.size() == 1 ? 0 : i], z = third ? v[d].c[v[d].c.size() == 1 ? 0 : i] : 0; c[i] = (o == 0 ? x + y : o == 1 ? (x ^ y) : x * y + z) & 0xffffffff; }
                uint32_t ix = o == 0 ? jit_var_add(v[a].ix, v[b].ix) : o == 1 ? jit_var_xor(v[a].ix, v[b].ix) : jit_var_fma(v[a].ix, v[b].ix, v[d].ix);
                std::vector<int> dep { a, b }; if (third) dep.push_back(d);
                int k = add_node(ix, c, dep); T(H::fmt("r%u=%s(r%u,r%u)", ix, o == 0 ? "add" : o == 1 ? "xor" : "fma", v[a].ix, v[b].ix)); (void) k; break; }
            case 8: { int a = pick(); if (a >= 0) { jit_var_inc_ref(v[a].ix); v[a].ext++; T(H::fmt("inc r%u", v[a].ix)); } break; }
            case 9: case 10: case 11: { int a = pick(); if (a >= 0) { T(H::fmt("dec r%u", v[a].ix)); drop(a); } break; }
            case 12: { int a = pick(); if (a >= 0) { T(H::fmt("eval r%u", v[a].ix)); jit_var_eval(v[a].ix); if (jit_var_state(v[a].ix) != VarState::Evaluated) bad("eval", "jit_var_eval() had no effect"); } break; }
            case 13: { int a = pick(); if (a >= 0) { T(H::fmt("schedule r%u", v[a].ix)); jit_var_schedule(v[a].ix); } break; }
            case 14: T("eval"); jit_eval(); break;
            case 15: { int a = pick(); if (a < 0 || cbi[a] >= 0) break; cbs.emplace_back(new CbData()); cbs.back()->reenter = r.chance(.2); cbi[a] = (int) cbs.size() - 1; jit_var_set_callback(v[a].ix, on_event, cbs.back().get()); T(H::fmt("callback r%u", v[a].ix)); H::stat("callbacks"); break; }
            case 16: { int a = pick(); if (a < 0 || cbi[a] < 0 || !r.chance(.3)) break; jit_var_set_callback(v[a].ix, nullptr, nullptr); if (cbs[cbi[a]]->freed != 0) bad("callback", "called early"); cbi[a] = -1; T(H::fmt("no callback r%u", v[a].ix)); break; }
            case 17: {   // a scatter modifies the array in place, or a copy of it when it is shared
                int t = pick(true), x = pick(); if (t < 0 || x < 0 || t == x || v[t].c.size() != n || n == 1 || jit_var_is_dirty(v[t].ix)) break;
                if (v[x].c.size() != 1 && v[x].c.size() != n) break;
                uint32_t at = (uint32_t) r.below(n); VU im(v[x].c.size()); for (size_t i = 0; i < im.size(); ++i) im[i] = (at + i) % n;
                fuzzy = true; VU c = v[t].c; for (size_t i = 0; i < im.size(); ++i) c[im[i]] = v[x].c[i];
                uint32_t old = v[t].ix; size_t users = 0; for (size_t j = 0; j < v.size(); ++j) if (!v[j].dead) for (int d : v[j].dep) users += d == t;
                for (auto &q : se) for (int d : q) users += d == t;
                if (stashed.count(t) && users) break;   // meant for copies made by control flow constructs
                uint32_t nw = jit_var_scatter(old, v[x].ix, packv(U32, im), lit_bool(true), ReduceOp::Identity, ReduceMode::Auto);
                T(H::fmt("scatter r%u[..]=r%u -> r%u", old, v[x].ix, nw));
                if (nw == old) { if ((v[t].ext > 1 || users) && !stashed.count(t)) bad("in-place", H::fmt("r%u was modified in place although it is shared (%d references, %zu users)", old, v[t].ext, users)); jit_var_dec_ref(nw); v[t].c = c; se.push_back({ t, x }); if (stashed.count(t) && (v[t].ext > 1 || users)) jit_eval(); }
                else { int k = add_node(nw, c, {}); se.push_back({ k, x }); if (r.chance(.7)) drop(t); }
                if (r.chance(.3)) { jit_eval(); T("eval"); }
                H::stat("scatters"); break; }
            case 18: { int a = pick(); if (a < 0) break; int d = pick(); if (d < 0 || v[d].c.size() != n || a == d || n == 1) break;   // gather
                fuzzy = true; uint32_t at = (uint32_t) r.below(n); VU im(n), c(n); for (size_t i = 0; i < n; ++i) { im[i] = (at + i) % n; c[i] = v[d].c[im[i]]; }
                uint32_t ix = jit_var_gather(v[d].ix, packv(U32, im), lit_bool(true)); for (auto &x : v) if (!x.dead && x.ix == v[d].ix && jit_var_state(x.ix) == VarState::Evaluated) { x.evaluated = true; x.dep.clear(); }
                bool have = false; for (auto &x : v) if (!x.dead && x.ext > 0 && x.ix == ix) { x.ext++; have = true; } if (!have) add_node(ix, c, { d }); T(H::fmt("r%u=gather(r%u)", ix, v[d].ix)); H::stat("gathers"); break; }
            case 19: { int a = pick(); if (a < 0 || stashed.count(a)) break; uint64_t h = jit_var_stash_ref(v[a].ix); stash.push_back(h); if (v[a].ext == 1) stashed.insert(a); T(H::fmt("stash r%u", v[a].ix)); break; }
            case 20: if (!stash.empty()) { size_t k = r.below(stash.size()); jit_var_unstash_ref(stash[k]); stash.erase(stash.begin() + k); T("unstash"); if (stash.empty()) stashed.clear(); } break;
            case 21: { int a = pick(); if (a < 0) break; uint32_t ix = jit_var_set_label(v[a].ix, 1, "lbl"); if (ix == v[a].ix) { jit_var_dec_ref(ix); } else { add_node(ix, v[a].c, { a }); } T(H::fmt("label r%u -> r%u", v[a].ix, ix)); break; }
            case 22: { int a = pick(); if (a >= 0) { T(H::fmt("read r%u", v[a].ix)); compare(a); } break; }
            case 23: { // memory handed over to the library, or lent to it
                VU c = value(n); bool give = r.chance(.5); void *p; size_t W = 64;
                if (give) p = jit_malloc(LLVM, (n + W) * 4); else { mapped.emplace_back((n + W) * 4); p = mapped.back().data(); }
                jit_sync_thread(); for (size_t i = 0; i < n; ++i) ((uint32_t *) p)[i] = (uint32_t) c[i];
                uint32_t ix = jit_var_mem_map(LLVM, U32, p, n, give); add_node(ix, c, {}); T(H::fmt("r%u=map(%d)", ix, give)); break; }
        }
        if (ok) audit();
    }
    void run() {
        int steps = 8 + r.below(70);
        for (int s = 0; s < steps && ok; ++s) step();
        // everything that is still referenced has its contents
        for (size_t k = 0; k < v.size() && ok; ++k) if (!v[k].dead && v[k].ext > 0) compare((int) k);
        if (ok) audit();
        for (uint64_t h : stash) jit_var_unstash_ref(h);
        std::vector<int> order; for (size_t k = 0; k < v.size(); ++k) if (!v[k].dead) for (int e = 0; e < v[k].ext; ++e) order.push_back((int) k);
        for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
        for (int k : order) drop(k);
        jit_eval();
        std::string m; if (ok && !clean(m)) bad("leak", m);
        for (size_t k = 0; k < v.size() && ok; ++k) if (cbi[k] >= 0 && cbs[cbi[k]]->freed != 1) bad("callback-missing", H::fmt("%d calls", (int) cbs[cbi[k]]->freed));
    }
};

// ------------------------------------------------------------------ mode=prog, mode=abort
struct Abort { };
static GenCfg config(Rng &r) {
    GenCfg c; c.inputs = 5; c.tables = 2; c.bufs = 2; c.max_n = 60; c.all_types = r.chance(.3);
    switch (r.below(3)) {
        case 0: c.stmts = 20; c.w_scatter = .15; c.w_bufread = .1; break;
        case 1: c.stmts = 9; c.w_if = .2; c.w_loop = .2; c.w_scatter = .1; c.w_bufread = .08; c.depth = 3; break;
        default: c.stmts = 8; c.w_if = .08; c.w_loop = .08; c.w_call = .35; c.w_scatter = .08; c.depth = 2; c.domains = r.range(1, 2); break;
    }
    return c;
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    jit_set_flag(JitFlag::FastMath, 0);
    std::string mode = H::opts("mode", "graph");
    uint32_t base = jit_flags();
    H::loop([&](uint64_t cs, Rng &r) {
        if (mode == "graph") {
            uint32_t f = base & ~(1u << 4); if (r.chance(.4)) f &= ~(1u << 1); if (r.chance(.1)) f |= 1u << 15; jit_set_flags(f);
            Graph g(r); g.run(); jit_set_flags(base); H::distinct(H::hash_str(g.trace)); H::sample(g.trace); return;
        }
        Program p = Gen(r, config(r)).make();
        RefExec ref(p); ref.run(); std::string text = show(p), m;
        // bystanders: a variable, a pending computation, a pending side effect
        std::vector<uint32_t> z(17); for (size_t i = 0; i < z.size(); ++i) z[i] = (uint32_t) (i * 3);
        bool abort = mode == "abort"; int stmts = 1 << 30;
        uint32_t optf[] = { 2, 3, 4, 6, 9, 10, 12 };
        for (int k = 0; k < (abort ? 4 : 2); ++k) {
            ExecCfg c; c.p_literal = r.pick((const double[]) { 0, .5, 1 }); c.p_eval = r.pick((const double[]) { 0, 0, .3 });
            if (abort) c.p_map = 0;   // lent memory must outlive pending computations
            for (uint32_t f : optf) if (f != 3 && r.chance(.25)) c.clear_flags |= 1u << f;
            std::string err;
            {
                Var b0 = copy_in(U32, z.data(), z.size()), b1 = steal(jit_var_add(b0, lit_u32(5))), b2 = copy_in(U32, z.data(), z.size());
                if (abort) b2 = steal(jit_var_scatter(b2, lit_u32(1000), lit_u32(3), lit_bool(true), ReduceOp::Identity, ReduceMode::Auto));
                Snapshot s0 = Snapshot::take();
                uint32_t rc[3] = { jit_var_ref(b0), jit_var_ref(b1), 0 };
                int count = 0, at = abort && k > 0 ? (int) r.below((uint32_t) std::max(1, stmts)) : -1; bool aborted = false;
                if (abort) c.hook = [&](Exec &, std::vector<Var> &, bool) { if (count++ == at) throw Abort(); };
                {
                    Exec ex(p, c, Rng(H::seed ^ 99, cs * 16 + k));
                    try { ex.run(); }
                    catch (const Abort &) { aborted = true; H::stat("aborted"); }
                    catch (const std::exception &e) { H::violation("exception", "%s | %s", e.what(), text.c_str()); jit_set_flags(base); return; }
                    if (!aborted) { err = compare(p, ref, ex); stmts = count; if (!err.empty()) H::violation("mismatch", "%s | %s", err.c_str(), text.c_str()); }
                }
                std::string d = s0.diff(Snapshot::take(), aborted && false);
                if (!d.empty()) H::violation("state", "%s after %s statement %d | %s", d.c_str(), aborted ? "aborting at" : "", at, text.c_str());
                if (abort) {
                    if (jit_var_ref(b0) > rc[0] || jit_var_ref(b1) != rc[1]) H::violation("bystander-refs", "aborting at statement %d: reference counts %u, %u -> %u, %u | %s", at, rc[0], rc[1], jit_var_ref(b0), jit_var_ref(b1), text.c_str());
                    VU g1 = fetch(b1), g2 = fetch(b2), g0 = fetch(b0);
                    for (size_t i = 0; i < z.size(); ++i) if (g1[i] != z[i] + 5 || g0[i] != z[i] || g2[i] != (i == 3 ? 1000 : z[i])) { H::violation("bystander", "aborting at statement %d: element %zu is %llu, %llu, %llu | %s", at, i, (unsigned long long) g0[i], (unsigned long long) g1[i], (unsigned long long) g2[i], text.c_str()); break; }
                    H::stat("bystanders_checked", 3);
                }
            }
            if (!clean(m)) { H::violation("leak", "%s after %s | flags -%x | %s", m.c_str(), abort ? H::fmt("aborting at a statement (run %d)", k).c_str() : "a program", c.clear_flags, text.c_str()); return; }
            H::stat("leak_checks");
        }
        H::distinct(H::hash_str(text)); H::sample(text);
        if ((cs & 15) == 15) jit_flush_kernel_cache();
    });
    int rc = H::finish();
    jit_shutdown(0);
    return rc;
}
