// Introspection monitors (C19): summaries, graphs, strings, labels and logging report the true state and change nothing.
#include "prog.h"
#include "whos.h"

static bool parse_dot(const std::string &g, std::set<uint32_t> &nodes, size_t &edges, std::string &err) {
    int depth = 0; size_t p = 0;
    std::vector<std::pair<uint32_t, uint32_t>> ed;
    while (p < g.size()) {
        size_t e = g.find('\n', p);
        if (e == std::string::npos) e = g.size();
        std::string l = g.substr(p, e - p); p = e + 1;
        size_t b = l.find_first_not_of(' ');
        if (b == std::string::npos) continue;
        l = l.substr(b);
        if (l == "digraph {" || (l.compare(0, 9, "subgraph ") == 0 && l.back() == '{')) { depth++; continue; }
        if (l == "}") { if (--depth < 0) { err = "unbalanced braces"; return false; } continue; }
        if (isdigit((unsigned char) l[0])) {
            uint32_t a = (uint32_t) strtoul(l.c_str(), nullptr, 10);
            size_t ar = l.find(" -> "), lb = l.find(" [label=\"{");
            if (lb != std::string::npos && (ar == std::string::npos || lb < ar)) {
                if (l.size() < 2 || l.substr(l.size() - 2) != "];") { err = "malformed node: " + l; return false; }
                if (!nodes.insert(a).second) { err = "duplicate node"; return false; }
            } else if (ar != std::string::npos) ed.push_back({ a, (uint32_t) strtoul(l.c_str() + ar + 4, nullptr, 10) });
            else { err = "unexpected line: " + l; return false; }
        }
    }
    if (depth) { err = "unbalanced braces"; return false; }
    for (auto &x : ed) if (!nodes.count(x.first) || !nodes.count(x.second)) { err = H::fmt("edge %u -> %u has no node", x.first, x.second); return false; }
    edges = ed.size();
    return true;
}
static std::string value_text(VarType t, uint64_t v) {
    switch (t) {
        case VarType::Bool: case VarType::UInt8: case VarType::UInt16: case VarType::UInt32: case VarType::UInt64: return H::fmt("%" PRIu64, v);
        case VarType::Int8: return H::fmt("%d", (int) (int8_t) v);
        case VarType::Int16: return H::fmt("%d", (int) (int16_t) v);
        case VarType::Int32: return H::fmt("%d", (int32_t) v);
        case VarType::Int64: return H::fmt("%" PRId64, (int64_t) v);
        case VarType::Float16: { uint16_t h = (uint16_t) v; int e = (h >> 10) & 31, m = h & 1023; double d = e == 31 ? (m ? NAN : INFINITY) : e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24); return H::fmt("%g", h & 0x8000 ? -d : d); }
        case VarType::Float32: { float f; uint32_t q = (uint32_t) v; memcpy(&f, &q, 4); return H::fmt("%g", f); }
        case VarType::Float64: { double d; memcpy(&d, &v, 8); return H::fmt("%g", d); }
        default: return "?";
    }
}
static std::string no_sign_nan(std::string s) { size_t p; while ((p = s.find("-nan")) != std::string::npos) s.erase(p, 1); return s; }
/// "[a, b, .. n skipped .., c]" against the contents
static std::string check_str(const std::string &s, VarType t, const std::vector<uint64_t> &v) {
    if (s.size() < 2 || s.front() != '[' || s.back() != ']') return "missing brackets";
    std::vector<std::string> e; std::string in = s.substr(1, s.size() - 2);
    size_t p = 0;
    while (!in.empty() && p <= in.size()) { size_t q = in.find(", ", p); if (q == std::string::npos) q = in.size(); e.push_back(in.substr(p, q - p)); p = q + 2; }
    size_t k = 0, i = 0, skipped = 0;
    for (; i < e.size(); ++i) {
        size_t n;
        if (sscanf(e[i].c_str(), ".. %zu skipped ..", &n) == 1) { skipped += n; k += n; continue; }
        if (k >= v.size()) return "too many entries";
        if (no_sign_nan(e[i]) != no_sign_nan(value_text(t, v[k]))) return H::fmt("entry %zu printed as '%s' instead of '%s'", k, e[i].c_str(), value_text(t, v[k]).c_str());
        ++k;
    }
    if (k != v.size()) return H::fmt("%zu entries accounted for instead of %zu", k, v.size());
    if (v.size() <= 16 && skipped) return "small array was abbreviated";
    return "";
}

static std::atomic<uint64_t> log_msgs{ 0 };
static bool log_reenter = false;
static thread_local int in_log = 0;
// results of jit_var_str()/whos()/graphviz() live in one static buffer, which a reentrant callback would overwrite
struct Quiet { Quiet() { in_log++; } ~Quiet() { in_log--; } };
static void log_cb(LogLevel, const char *msg) {
    log_msgs++;
    if (strstr(msg, "unrecoverable error")) fprintf(stderr, "%s\n", msg);
    volatile size_t n = strlen(msg); (void) n;
    if (log_reenter && !in_log) { in_log = 1; (void) jit_flags(); (void) jit_malloc_watermark(LLVM); const char *w = jit_var_whos(); (void) w; in_log = 0; }
}

struct Intro {
    Rng r;
    std::map<uint32_t, std::string> labels;       // index -> label (while the harness holds a reference)
    std::string violation, vkey;
    uint32_t prefix = 0;
    void bad(const char *k, const std::string &s) { if (violation.empty()) { vkey = k; violation = s; } }

    struct Snap { std::string whos, dot; std::vector<uint32_t> refs; std::vector<int> st; size_t wm; size_t l, s, h; uint32_t flags, scope; };
    Snap snap(const std::vector<Var> &e) {
        Snap q;
        Quiet quiet;
        q.whos = jit_var_whos(); q.dot = jit_var_graphviz();
        for (auto &v : e) { q.refs.push_back(v.i ? jit_var_ref(v) : 0); q.st.push_back(v.i ? (int) jit_var_state(v) : 0); }
        q.wm = jit_malloc_watermark(LLVM); jit_launch_stats(&q.l, &q.s, &q.h); q.flags = jit_flags(); q.scope = jit_scope(LLVM);
        return q;
    }
    void table(const std::vector<Var> &e) {
        Quiet quiet;
        std::map<uint32_t, Row> rows;
        std::string w = jit_var_whos();
        if (!parse_whos(w, rows)) { bad("whos-format", "cannot parse: " + w.substr(0, 1500)); return; }
        H::stat("tables_parsed"); H::stat("table_rows", rows.size());
        for (auto &v : e) {
            if (!v.i) continue;
            auto it = rows.find(v.i);
            if (it == rows.end()) { bad("whos-missing", H::fmt("r%u is not listed", v.i)); return; }
            const Row &q = it->second;
            VarState s = jit_var_state(v);
            std::string ty = type_nm(jit_var_type(v));
            if (q.refs != jit_var_ref(v) || q.size != jit_var_size(v) || q.type != ty) { bad("whos-row", H::fmt("r%u: listed as %s refs %lu size %lu, really %s refs %u size %zu", v.i, q.type.c_str(), q.refs, q.size, ty.c_str(), jit_var_ref(v), jit_var_size(v))); return; }
            bool lit = q.status == "const.", ev = !lit && !q.status.empty();
            if ((s == VarState::Literal) != lit || (s == VarState::Evaluated || s == VarState::Dirty) != ev || ev != q.storage) { bad("whos-status", H::fmt("r%u: listed as '%s' storage %d, state is %d", v.i, q.status.c_str(), q.storage, (int) s)); return; }
            const char *l = jit_var_label(v);
            if (q.label != (l ? l : "")) { bad("whos-label", H::fmt("r%u: label listed as '%s', really '%s'", v.i, q.label.c_str(), l ? l : "")); return; }
            H::stat("rows_checked");
        }
        std::set<uint32_t> nodes; size_t edges = 0; std::string err;
        std::string g = jit_var_graphviz();
        if (!parse_dot(g, nodes, edges, err)) { bad("graphviz", err); return; }
        H::stat("graph_edges", edges);
        bool same = nodes.size() == rows.size();
        for (auto &kv : rows) same &= nodes.count(kv.first) == 1;
        if (!same) bad("graphviz-nodes", H::fmt("%zu nodes, but %zu listed variables", nodes.size(), rows.size()));
    }
    void pure(const std::vector<Var> &e) {
        Snap a = snap(e);
        for (int k = 0; k < 12 && !e.empty(); ++k) {
            uint32_t i = e[r.below(e.size())].i;
            if (!i) continue;
            switch (r.below(12)) {
                case 0: (void) jit_var_label(i); break;
                case 1: (void) jit_var_kind_name(i); break;
                case 2: (void) jit_var_is_dirty(i); break;
                case 3: (void) jit_var_is_zero_literal(i); break;
                case 4: (void) jit_var_is_finite_literal(i); break;
                case 5: (void) jit_var_is_unaligned(i); break;
                case 6: { VarInfo q = jit_var_info(i); if (q.type != jit_var_type(i) || q.size != jit_var_size(i) || q.state != jit_var_state(i)) bad("var-info", H::fmt("r%u", i)); break; }
                case 7: { Var m = steal(jit_var_mask_peek(LLVM)); break; }
                case 8: (void) jit_prefix(LLVM); (void) jit_cache_dir(); break;
                case 9: if (jit_var_state(i) != VarState::Evaluated) (void) jit_var_device(i); break;
                case 10: (void) jit_registry_id_bound(VARIANT, "NoSuchDomain"); break;
                default: (void) jit_llvm_target_features(); (void) jit_leak_warnings(); break;
            }
            H::stat("queries");
        }
        Snap b = snap(e);
        if (a.whos != b.whos) bad("whos-changed", "the variable table changed while only asking for information");
        if (a.dot != b.dot) bad("dot-changed", "the graph changed while only asking for information");
        if (a.refs != b.refs || a.st != b.st) bad("state-changed", "reference counts or states changed while only asking for information");
        if (a.wm != b.wm || a.l != b.l || a.s != b.s || a.h != b.h || a.flags != b.flags || a.scope != b.scope) bad("counters-changed", "statistics, flags or scope changed while only asking for information");
        H::stat("purity_checks");
    }
    void set_level() {
        LogLevel l = r.pick({ LogLevel::Disable, LogLevel::Error, LogLevel::Info, LogLevel::InfoSym, LogLevel::Debug, LogLevel::Debug, LogLevel::Trace, LogLevel::Trace });
        log_reenter = r.chance(.3);
        jit_set_log_level_callback(l, log_cb);
        if (jit_log_level_callback() != l) bad("log-level", "callback level was not stored");
        H::stat("log_level_changes");
    }
    void hook(Exec &x, std::vector<Var> &e, bool top) {
        if (!r.chance(.35)) return;
        uint32_t op = r.below(top ? 9 : 5);
        if (!(H::optu("ops", 0x1ff) >> op & 1)) return;
        switch (op) {
            case 0: table(e); break;
            case 1: pure(e); break;
            case 2: set_level(); break;
            case 3: { // label a variable: at most a copy with the same contents
                size_t k = r.below(e.size());
                if (!e[k].i || !top) break; // (loop bodies are traced twice and must do the same both times)
                std::string l;
                for (int n = r.below(12); n; --n) { char c = (char) (33 + r.below(94)); l += c == '/' ? '_' : c; }
                VarType t = jit_var_type(e[k]); size_t n = jit_var_size(e[k]);
                Var q = steal(jit_var_set_label(e[k], 1, l.c_str()));
                const char *g = jit_var_label(q);
                if (!g || l != g || jit_var_type(q) != t || jit_var_size(q) != n) bad("set-label", H::fmt("label '%s' reads back as '%s'", l.c_str(), g ? g : "(null)"));
                e[k] = q;
                H::stat("labels_set");
                break;
            }
            case 4: jit_log(r.pick({ LogLevel::Error, LogLevel::Warn, LogLevel::Info, LogLevel::Debug, LogLevel::Trace }), "%s %d %s", "message", (int) r.below(100), "x"); H::stat("log_calls"); break;
            case 5: case 6: { // printing evaluates at most
                std::vector<uint32_t> c;
                for (auto &v : e) if (v.i && jit_var_state(v) != VarState::Symbolic) c.push_back(v.i);
                if (c.empty()) break;
                uint32_t i = c[r.below(c.size())], refs = jit_var_ref(i);
                std::string s; { Quiet q; s = jit_var_str(i); }
                if (jit_var_ref(i) != refs && jit_var_state(i) != VarState::Evaluated) bad("str-ref", "printing changed a reference count");
                std::string err = check_str(s, jit_var_type(i), fetch(i));
                if (!err.empty()) bad("var-str", err + " in " + s.substr(0, 300));
                H::stat("strings_checked");
                break;
            }
            case 7: if (prefix < 3 && r.chance(.6)) { jit_prefix_push(LLVM, r.pick({ "pre", "a b", "x<y>", "z" })); prefix++; } else if (prefix) { jit_prefix_pop(LLVM); prefix--; } H::stat("prefix_changes"); break;
            default: {
                if (jit_flag(JitFlag::KernelHistory)) { KernelHistoryEntry *h = jit_kernel_history(); if (h) { for (KernelHistoryEntry *q = h; (uint32_t) q->backend; ++q) { if (q->ir) { volatile size_t n = strlen(q->ir); (void) n; } free(q->ir); H::stat("history_entries"); } free(h); } }
                else { jit_set_flag(JitFlag::KernelHistory, 1); }
                x.r.next();
                break;
            }
        }
    }
    void done() { while (prefix) { jit_prefix_pop(LLVM); prefix--; } jit_set_log_level_callback(LogLevel::Disable, nullptr); jit_kernel_history_clear(); }
};

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start(LogLevel::Disable);
    jit_set_flag(JitFlag::FastMath, 0);
    uint32_t base_flags = jit_flags();
    H::loop([&](uint64_t i, Rng &r) {
        GenCfg c;
        c.inputs = 6; c.stmts = 9; c.w_if = .08; c.w_loop = .08; c.w_call = .1; c.w_scatter = .08; c.w_bufread = .08; c.bufs = 2; c.tables = 2; c.depth = 2; c.domains = r.range(0, 2);
        c.all_types = r.chance(.5); c.hostile = r.chance(.6); c.max_n = 60;
        if (!c.domains) c.w_call = 0;
        Program p = Gen(r, c).make();
        RefExec ref(p);
        ref.run();
        std::string text = show(p);
        if (H::verbose()) fprintf(stderr, "---- case %llu\n%s\n", (unsigned long long) i, text.c_str());
        uint64_t lanes = 0, unk = 0;
        for (int k = 0; k < 2; ++k) {
            ExecCfg ec;
            ec.p_literal = .5; ec.p_eval = r.pick((const double[]) { 0, .2 }); ec.fetch_each = r.chance(.3);
            for (JitFlag f : { JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::ValueNumbering, JitFlag::ConstantPropagation }) if (r.chance(.2)) ec.clear_flags |= (uint32_t) f;
            Intro in{ Rng(H::seed ^ 99, i * 16 + k) };
            ec.hook = [&](Exec &x, std::vector<Var> &e, bool top) { in.hook(x, e, top); };
            {
                Exec ex(p, ec, Rng(H::seed ^ 77, i * 16 + k));
                try { ex.run(); }
                catch (const std::exception &e) { in.done(); jit_set_flags(base_flags); H::violation("exception", "%s | %s", e.what(), text.c_str()); continue; }
                in.done();
                jit_set_flags(base_flags);
                std::string err = compare(p, ref, ex, &lanes, &unk);
                if (!err.empty()) H::violation("mismatch", "%s | %s", err.c_str(), text.c_str());
                if (!in.violation.empty()) H::violation(in.vkey, "%s | %s", in.violation.c_str(), text.c_str());
            }
            H::stat("executions");
        }
        // nothing may be left over
        std::map<uint32_t, Row> rows;
        if (!parse_whos(jit_var_whos(), rows)) H::violation("whos-format", "cannot parse the final table");
        else if (!rows.empty()) H::violation("leak", "%zu variables remain after the program ended: %s", rows.size(), text.c_str());
        H::stat("elements_compared", lanes);
        if (lanes > 4) H::distinct(H::hash_str(text));
        H::sample(text);
        if ((i & 15) == 15) jit_flush_kernel_cache();
    });
    H::stat("log_messages", log_msgs);
    int rc = H::finish();
    jit_shutdown(0);
    return rc;
}
