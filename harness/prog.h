// Random structured programs: data representation, generator, reference
// interpreter, and an executor that traces them through the library's API.
#pragma once
#include "ops.h"

struct Slot { VarType t; bool wide; };

enum class SK { Op, Lit, Gather, Scatter, If, Loop, Call, BufRead, Counter, Arr, ArrNew };

struct Block;
struct Stmt {
    SK k;
    Op op = Op::Add;
    int dst = -1;
    int a[3] = { -1, -1, -1 };
    uint64_t lit = 0;
    int ref = -1;                 // buffer / table / domain / array id
    std::vector<int> in, out;     // If: out; Loop: in (init), out; Call: in (args), out
    std::vector<int> inner;       // Loop: slots of the state inside
    std::vector<int> r0, r1;      // If: results of both branches; Loop: r0 = body results
    int cond = -1;                // Loop: condition slot computed by b0
    std::shared_ptr<Block> b0, b1;// If: true/false; Loop: condition/body
    bool swap = false;
};
struct Block { std::vector<Stmt> s; };

struct Input { VarType t; bool wide; bool uniform; std::vector<uint64_t> v; };
struct Table { VarType t; std::vector<uint64_t> v; };          // read-only gather source
struct Buffer {                                                // scatter target
    VarType t; ReduceOp op; uint32_t mul, add; ReduceMode smode = ReduceMode::Auto; std::vector<uint64_t> init;
};
struct Func { std::vector<Slot> params, data; std::vector<Slot> outs; std::vector<Slot> slots; };
struct Callee { Block body; std::vector<Slot> slots; std::vector<int> results; std::vector<uint64_t> data; };
struct Domain {
    std::vector<VarType> params, outs, data;   // signature
    std::vector<Callee> inst;                  // one per instance
    std::string name;
};
struct Program {
    uint32_t n = 1;
    std::vector<Input> inputs;       // occupy slots [0, inputs.size())
    std::vector<Table> tables;
    std::vector<Buffer> bufs;
    std::vector<Domain> domains;
    std::vector<Slot> slots;         // slots of the main body
    Block body;
    std::vector<int> outputs;        // observed slots
};

// ------------------------------------------------------------------ values
static const VarType all_types[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32,
    VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
static const VarType main_types[] = { VarType::Bool, VarType::Int32, VarType::UInt32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float32, VarType::Float32, VarType::Float64 };

inline uint64_t hostile_value(Rng &r, VarType t) {
    uint64_t m = refop::mask_of(t);
    if (t == VarType::Bool) return r.below(2);
    if (is_int(t)) {
        unsigned w = (unsigned) type_sz(t) * 8;
        switch (r.below(9)) {
            case 0: return 0; case 1: return 1; case 2: return m; case 3: return m >> 1; case 4: return 1ull << (w - 1);
            case 5: return (1ull << r.below(w)) & m;
            case 6: return ((1ull << r.below(w)) + (r.below(2) ? 1 : m)) & m;
            case 7: return r.below(20);
            default: return r.next() & m;
        }
    }
    double d;
    switch (r.below(14)) {
        case 0: d = 0; break; case 1: d = -0.0; break; case 2: d = 1; break; case 3: d = -1; break;
        case 4: d = INFINITY; break; case 5: d = -INFINITY; break; case 6: d = NAN; break;
        case 7: d = r.range(0, 40) * 0.5 - 10; break;
        case 8: d = r.below(2) ? 1e-30 : -3e30; break;
        case 9: case 10: return r.next() & m;
        case 11: d = (r.uniform() - .5) * 4; break;
        case 12: d = std::ldexp(1.0, (int) r.below(40) - 20); break;
        default: d = (r.uniform() - .5) * 2e4; break;
    }
    return t == VarType::Float16 ? d2h(d) : t == VarType::Float32 ? tobits((float) d) : tobits(d);
}
/// Small values that keep programs numerically tame
inline uint64_t tame_value(Rng &r, VarType t) {
    if (t == VarType::Bool) return r.below(2);
    if (is_int(t)) return r.below(3) ? r.below(16) : hostile_value(r, t);
    double d = (double) r.range(0, 64) * 0.25 - 8;
    return t == VarType::Float16 ? d2h(d) : t == VarType::Float32 ? tobits((float) d) : tobits(d);
}

// ------------------------------------------------------------------ reference interpreter
struct RVal { VarType t = VarType::Void; bool wide = false; std::vector<LV> v; LV at(size_t i) const { return v[v.size() == 1 ? 0 : i]; } };

inline LV red(ReduceOp op, VarType t, LV a, LV b) {
    VarType at[3] = { t, t, t }; LV ar[3] = { a, b, { 0, EXACT } };
    Op o = Op::Add;
    // which operand an IEEE min/max reduction returns when one of them is NaN depends on the order
    if (is_flt(t) && (op == ReduceOp::Min || op == ReduceOp::Max))
        for (LV x : { a, b }) if (x.k == UNK || std::isnan(as_double(t, x.b))) return { 0, UNK };
    switch (op) {
        case ReduceOp::Identity: return b;
        case ReduceOp::Add: o = Op::Add; break; case ReduceOp::Mul: o = Op::Mul; break;
        case ReduceOp::Min: o = Op::Min; break; case ReduceOp::Max: o = Op::Max; break;
        case ReduceOp::And: o = Op::And; break; case ReduceOp::Or: o = Op::Or; break;
        default: break;
    }
    LV r = ref_op(o, t, t, at, ar);
    if (r.k == SZ && is_flt(t)) { r.b = 0; }
    return r;
}

struct RefExec {
    const Program &p;
    uint32_t n;
    std::vector<RVal> env;
    std::vector<std::vector<LV>> bufs;
    uint64_t ops = 0, iters = 0, calls = 0, branches = 0, scatters = 0;
    std::vector<uint8_t> dead;     // lanes whose control flow depends on an unknown value
    explicit RefExec(const Program &p) : p(p), n(p.n) { dead.assign(n, 0); }

    void run() {
        env.assign(p.slots.size(), RVal());
        for (size_t i = 0; i < p.inputs.size(); ++i) {
            RVal &v = env[i];
            v.t = p.inputs[i].t; v.wide = p.inputs[i].wide;
            size_t m = v.wide ? n : 1;
            v.v.resize(m);
            for (size_t j = 0; j < m; ++j) { uint64_t b = p.inputs[i].v[p.inputs[i].uniform ? 0 : j]; v.v[j] = { b, classify(v.t, b) }; }
        }
        for (auto &b : p.bufs) { std::vector<LV> v; for (uint64_t x : b.init) v.push_back({ x, classify(b.t, x) }); bufs.push_back(v); }
        std::vector<uint8_t> act(n, 1);
        block(p.body, env, act, nullptr);
    }
    void block(const Block &b, std::vector<RVal> &e, const std::vector<uint8_t> &act, const Callee *self) {
        for (const Stmt &s : b.s) stmt(s, e, act, self);
    }
    bool truth(const RVal &v, size_t i, bool &b) { LV x = v.at(i); b = x.b & 1; return x.k == EXACT; }
    void stmt(const Stmt &s, std::vector<RVal> &e, const std::vector<uint8_t> &act, const Callee *self) {
        switch (s.k) {
            case SK::Op: {
                int na = op_arity(s.op);
                size_t m = 1; VarType at[3] = {};
                for (int i = 0; i < na; ++i) { m = std::max(m, e[s.a[i]].v.size()); at[i] = e[s.a[i]].t; }
                VarType t = s.op == Op::Select ? at[1] : at[0];
                RVal r;
                r.t = (s.op == Op::Cast || s.op == Op::Reinterpret) ? (VarType) s.lit : op_rtype(s.op, t);
                r.v.resize(m); r.wide = m > 1;
                for (size_t i = 0; i < m; ++i) {
                    LV a[3]; for (int j = 0; j < na; ++j) a[j] = e[s.a[j]].at(i);
                    r.v[i] = ref_op(s.op, t, r.t, at, a);
                }
                if (s.op == Op::Div && (t == VarType::Float32 || t == VarType::Float64)) {
                    // a float32/64 division by a constant multiplies by its reciprocal: exact for powers of two only
                    const RVal &d = e[s.a[1]];
                    bool uni = true;
                    for (LV x : d.v) uni &= x.k == d.v[0].k && x.b == d.v[0].b;
                    int ex; double dv = d.v.empty() ? 0 : as_double(t, d.v[0].b), fr = std::frexp(dv, &ex);
                    bool edge = std::fabs(dv) < (t == VarType::Float32 ? 1e-36 : 1e-306) || std::fabs(dv) > (t == VarType::Float32 ? 1e36 : 1e306);
                    if (uni && dv == dv && !std::isinf(dv) && dv != 0 && (edge || std::fabs(fr) != .5))
                        for (LV &x : r.v) if (x.k == EXACT || x.k == SZ || x.k == SUB) x.k = edge || x.k == SUB ? UNK : x.k == SZ ? SZ : APPROX;
                }
                ops += m;
                e[s.dst] = std::move(r);
                break;
            }
            case SK::Lit: { RVal r; r.t = (VarType) s.ref; r.v = { { s.lit, classify(r.t, s.lit) } }; e[s.dst] = r; break; }
            case SK::Counter: { RVal r; r.t = VarType::UInt32; r.wide = true; r.v.resize(n); for (uint32_t i = 0; i < n; ++i) r.v[i] = { i, EXACT }; e[s.dst] = r; break; }
            case SK::Gather: case SK::BufRead: {
                const RVal &ix = e[s.a[0]];
                size_t m = ix.v.size();
                if (s.a[1] >= 0) m = std::max(m, e[s.a[1]].v.size());
                RVal r; r.t = s.k == SK::Gather ? p.tables[s.ref].t : p.bufs[s.ref].t; r.v.resize(m);
                for (size_t i = 0; i < m; ++i) {
                    LV x = ix.at(i); bool mk = true, kn = true;
                    if (s.a[1] >= 0) kn = truth(e[s.a[1]], i, mk);
                    // 'act' lanes only: others read zero (masked), never used afterwards
                    if (!kn || (mk && x.k != EXACT)) r.v[i] = { 0, UNK };
                    else if (!mk) r.v[i] = { 0, EXACT };
                    else if (s.k == SK::Gather) { uint64_t b = p.tables[s.ref].v.at(x.b); r.v[i] = { b, classify(r.t, b) }; }
                    else r.v[i] = bufs[s.ref].at(x.b);
                }
                e[s.dst] = r;
                break;
            }
            case SK::Scatter: {
                const RVal &ix = e[s.a[0]], &val = e[s.a[1]];
                size_t m = self ? n : std::max(ix.v.size(), val.v.size());  // a callee runs once per element, whatever it is given
                auto &B = bufs[s.ref];
                for (size_t i = 0; i < m; ++i) {
                    if (!act[i]) continue;
                    bool mk = true;
                    if (s.a[2] >= 0 && !truth(e[s.a[2]], i, mk)) { for (LV &x : B) x.k = UNK; continue; }
                    if (dead[i]) { for (LV &x : B) x.k = UNK; continue; }
                    if (!mk) continue;
                    LV x = ix.at(i), v = val.at(i);
                    if (x.k != EXACT) { for (LV &y : B) y.k = UNK; continue; }
                    B.at(x.b) = red(p.bufs[s.ref].op, p.bufs[s.ref].t, B[x.b], v);
                    scatters++;
                }
                break;
            }
            case SK::If: {
                const RVal c = e[s.a[0]];
                std::vector<uint8_t> at(n), af(n);
                for (uint32_t i = 0; i < n; ++i) {
                    bool b; bool kn = truth(c, i, b);
                    if (!kn && act[i]) dead[i] = 1;
                    at[i] = act[i] && b; af[i] = act[i] && !b;
                }
                branches++;
                block(*s.b0, e, at, self);
                std::vector<RVal> tv; for (int x : s.r0) tv.push_back(e[x]);
                block(*s.b1, e, af, self);
                for (size_t k = 0; k < s.out.size(); ++k) {
                    const RVal &a = tv[k], &b = e[s.r1[k]];
                    size_t m = std::max(c.v.size(), std::max(a.v.size(), b.v.size()));
                    RVal r; r.t = a.t; r.v.resize(m);
                    for (size_t i = 0; i < m; ++i) {
                        LV x = c.at(i);
                        r.v[i] = x.k != EXACT ? LV{ 0, UNK } : (x.b & 1) ? a.at(i) : b.at(i);
                    }
                    e[s.out[k]] = r;
                }
                break;
            }
            case SK::Loop: {
                size_t ns = s.in.size();
                // state is kept at full width
                std::vector<std::vector<LV>> st(ns);
                for (size_t k = 0; k < ns; ++k) { st[k].resize(n); for (uint32_t i = 0; i < n; ++i) st[k][i] = e[s.in[k]].at(i); }
                std::vector<uint8_t> a(act);
                for (int guard = 0; guard < 400; ++guard) {
                    for (size_t k = 0; k < ns; ++k) { RVal r; r.t = e[s.in[k]].t; r.v = st[k]; e[s.inner[k]] = r; }
                    block(*s.b0, e, a, self);
                    bool any = false;
                    for (uint32_t i = 0; i < n; ++i) {
                        bool b; bool kn = truth(e[s.cond], i, b);
                        if (!kn && a[i]) dead[i] = 1;
                        a[i] = a[i] && b && kn;
                        any |= a[i];
                    }
                    if (!any) break;
                    iters++;
                    block(*s.b1, e, a, self);
                    std::vector<std::vector<LV>> nx(ns);
                    for (size_t k = 0; k < ns; ++k) { nx[k].resize(n); for (uint32_t i = 0; i < n; ++i) nx[k][i] = a[i] ? e[s.r0[k]].at(i) : st[k][i]; }
                    st = nx;
                }
                for (size_t k = 0; k < ns; ++k) { RVal r; r.t = e[s.in[k]].t; r.v = st[k]; r.wide = n > 1; e[s.out[k]] = r; }
                break;
            }
            case SK::Call: {
                const Domain &d = p.domains[s.ref];
                const RVal self_v = e[s.a[0]];
                std::vector<std::vector<LV>> out(d.outs.size(), std::vector<LV>(n, LV{ 0, EXACT }));
                for (size_t k = 0; k < d.inst.size(); ++k) {
                    const Callee &c = d.inst[k];
                    std::vector<uint8_t> a(n);
                    bool any = false;
                    for (uint32_t i = 0; i < n; ++i) {
                        bool mk = true; if (s.a[1] >= 0 && !truth(e[s.a[1]], i, mk)) { dead[i] = 1; mk = false; }
                        LV sv = self_v.at(i);
                        if (sv.k != EXACT) { dead[i] = 1; mk = false; }
                        a[i] = act[i] && mk && sv.b == k + 1; any |= a[i];
                    }
                    if (!any) continue;
                    calls++;
                    std::vector<RVal> le(c.slots.size());
                    size_t q = 0;
                    for (size_t j = 0; j < d.params.size(); ++j, ++q) le[q] = e[s.in[j]];
                    for (size_t j = 0; j < d.data.size(); ++j, ++q) { le[q].t = d.data[j]; le[q].v = { { c.data[j], classify(d.data[j], c.data[j]) } }; }
                    block(c.body, le, a, &c);
                    for (size_t j = 0; j < d.outs.size(); ++j)
                        for (uint32_t i = 0; i < n; ++i) if (a[i]) out[j][i] = le[c.results[j]].at(i);
                }
                for (size_t j = 0; j < d.outs.size(); ++j) { RVal r; r.t = d.outs[j]; r.v = out[j]; r.wide = n > 1; e[s.out[j]] = r; }
                break;
            }
            default: break;
        }
    }
};

// ------------------------------------------------------------------ executor
struct Exec;
struct ExecCfg {
    uint32_t set_flags = 0, clear_flags = 0;  // JitFlag bits
    double p_eval = 0;       // probability of forcing evaluation after a top-level statement
    double p_literal = .5;   // narrow/uniform inputs are literals (else opaque)
    double p_map = .2;       // wide inputs come from mapped memory with guard pages
    bool fetch_each = false; // evaluate outputs one by one
    double p_generic = .2;   // use jit_var_op
    bool drop = true;        // drop references early
    std::function<void(Rng &)> between;   // hook called between top-level statements
    std::function<void(Exec &, std::vector<Var> &, bool)> hook;   // called after every statement (true: at the top level)
};


inline const char *VARIANT = "vrf";
/// Domain names are string constants that outlive the program
inline const char *persistent(const std::string &s) { static std::set<std::string> all; return all.insert(s).first->c_str(); }

struct Exec {
    const Program &p;
    ExecCfg cfg;
    Rng r;
    uint32_t n;
    std::vector<Var> env;
    std::vector<Var> tabs, bufs;
    std::vector<std::unique_ptr<GuardBuf>> guards;
    std::vector<std::vector<uint64_t>> outs, bufouts;
    std::vector<std::vector<void *>> regptr;      // [domain][instance]
    std::vector<std::vector<std::vector<Var>>> idata;  // captured instance data
    std::vector<std::unique_ptr<char[]>> objs;
    uint64_t evals = 0;
    int depth = 0, in_call = 0;
    /// The reference treats this operand as one value per element, yet simplifications may have turned it into a scalar
    Var widen(const Var &v) {
        if (in_call || p.n <= 1 || jit_var_size(v) != 1) return v;
        return steal(jit_var_resize(v, p.n));
    }

    Exec(const Program &p, ExecCfg c, Rng r) : p(p), cfg(c), r(r), n(p.n) {}
    ~Exec() { cleanup(); }
    void cleanup() {
        env.clear(); tabs.clear(); bufs.clear(); idata.clear();
        for (auto &v : regptr) for (void *q : v) jit_registry_remove(q);
        regptr.clear();
        jit_sync_thread();
        guards.clear();
    }
    Var make_array(VarType t, const std::vector<uint64_t> &v, bool map) {
        size_t ts = type_sz(t);
        if (map && !v.empty()) {
            // Mapped memory must be padded to a whole number of SIMD packets
            size_t W = jit_llvm_vector_width(), np = (v.size() + W - 1) / W * W;
            guards.emplace_back(new GuardBuf(np * ts));
            uint8_t *q = guards.back()->ptr;
            for (size_t i = 0; i < np * ts; ++i) q[i] = (uint8_t) r.next();
            for (size_t i = 0; i < v.size(); ++i) memcpy(q + i * ts, &v[i], ts);
            return steal(jit_var_mem_map(LLVM, t, q, v.size(), 0));
        }
        std::vector<uint8_t> raw(v.size() * ts);
        for (size_t i = 0; i < v.size(); ++i) memcpy(raw.data() + i * ts, &v[i], ts);
        return copy_in(t, raw.data(), v.size());
    }
    void run() {
        uint32_t saved = jit_flags();
        jit_set_flags((saved | cfg.set_flags) & ~cfg.clear_flags);
        struct Restore { uint32_t f; ~Restore() { jit_set_flags(f); } } restore{ saved };
        env.resize(p.slots.size());
        for (size_t i = 0; i < p.inputs.size(); ++i) {
            const Input &in = p.inputs[i];
            if (!in.wide || in.uniform) {
                bool l = r.chance(cfg.p_literal);
                env[i] = lit(in.t, in.v[0], in.wide ? n : 1, !l);
            } else {
                env[i] = make_array(in.t, in.v, r.chance(cfg.p_map));
            }
        }
        for (auto &t : p.tables) tabs.push_back(make_array(t.t, t.v, false));
        for (auto &b : p.bufs) bufs.push_back(make_array(b.t, b.init, false));
        for (size_t d = 0; d < p.domains.size(); ++d) {
            std::vector<void *> ptrs; std::vector<std::vector<Var>> dat;
            for (size_t k = 0; k < p.domains[d].inst.size(); ++k) {
                objs.emplace_back(new char[16]);
                void *q = objs.back().get();
                uint32_t id = jit_registry_put(VARIANT, persistent(p.domains[d].name), q);
                if (id != k + 1) { H::violation("registry-id", "fresh domain: instance %zu got id %u", k, id); }
                ptrs.push_back(q);
                std::vector<Var> vs;
                for (size_t j = 0; j < p.domains[d].data.size(); ++j)
                    vs.push_back(lit(p.domains[d].data[j], p.domains[d].inst[k].data[j], 1, !r.chance(cfg.p_literal)));
                dat.push_back(vs);
            }
            regptr.push_back(ptrs); idata.push_back(dat);
        }
        block(p.body, env, true);
        // observe
        if (!cfg.fetch_each) {
            for (int o : p.outputs) jit_var_schedule(env[o]);
            jit_eval(); evals++;
        }
        for (int o : p.outputs) outs.push_back(fetch(env[o]));
        for (auto &b : bufs) bufouts.push_back(fetch(b));
    }
    void block(const Block &b, std::vector<Var> &e, bool top) {
        for (const Stmt &s : b.s) {
            stmt(s, e);
            if (cfg.hook) cfg.hook(*this, e, top);
            if (top) {
                if (cfg.between) cfg.between(r);
                if (cfg.p_eval > 0 && r.chance(cfg.p_eval)) {
                    for (size_t k = 0; k < 3; ++k) { int x = r.below(e.size()); if (e[x].i) jit_var_schedule(e[x]); }
                    jit_eval(); evals++;
                }
            }
        }
    }
    void stmt(const Stmt &s, std::vector<Var> &e) {
        switch (s.k) {
            case SK::Op: {
                uint32_t a[3] = {};
                for (int i = 0; i < op_arity(s.op); ++i) a[i] = e[s.a[i]];
                uint32_t res = 0;
                if (!(r.chance(cfg.p_generic) && jit_apply_generic(s.op, a, &res)))
                    res = jit_apply(s.op, (VarType) s.lit, a);
                e[s.dst] = steal(res);
                break;
            }
            case SK::Lit: e[s.dst] = lit((VarType) s.ref, s.lit, 1, false); break;
            case SK::Counter: e[s.dst] = steal(jit_var_counter(LLVM, n)); break;
            case SK::Gather: case SK::BufRead: {
                Var m = s.a[1] >= 0 ? e[s.a[1]] : lit_bool(true);
                e[s.dst] = steal(jit_var_gather(s.k == SK::Gather ? tabs[s.ref] : bufs[s.ref], e[s.a[0]], m));
                break;
            }
            case SK::Scatter: {
                Var m = s.a[2] >= 0 ? e[s.a[2]] : lit_bool(true);
                bufs[s.ref] = steal(jit_var_scatter(bufs[s.ref], e[s.a[1]], widen(e[s.a[0]]), m, p.bufs[s.ref].op, (ReduceMode) s.lit));
                break;
            }
            case SK::If: exec_if(s, e); break;
            case SK::Loop: exec_loop(s, e); break;
            case SK::Call: exec_call(s, e); break;
            default: break;
        }
    }
    struct RecGuard {
        uint32_t cp, scope = 0; bool cleanup = true;
        RecGuard(const char *nm, bool ns = false) { (void) nm; cp = jit_record_begin(LLVM, nullptr); if (ns) scope = jit_new_scope(LLVM); }
        ~RecGuard() { jit_record_end(LLVM, cp, cleanup); }
        uint32_t rewind() { jit_set_scope(LLVM, scope); return jit_record_checkpoint(LLVM); }
    };
    struct MaskGuard {
        MaskGuard(uint32_t i) { jit_var_mask_push(LLVM, i); }
        ~MaskGuard() { jit_var_mask_pop(LLVM); }
    };
    struct SelfGuard {
        uint32_t v, i;
        SelfGuard(uint32_t value) { uint32_t t; jit_var_self(LLVM, &v, &t); i = t; jit_var_inc_ref(i); jit_var_set_self(LLVM, value, 0); }
        ~SelfGuard() { jit_var_set_self(LLVM, v, i); jit_var_dec_ref(i); }
    };
    void exec_if(const Stmt &s, std::vector<Var> &e) {
        bool sym = jit_flag(JitFlag::SymbolicScope);
        std::vector<Var> res;
        {
            RecGuard rec("if");
            Var ct = e[s.a[0]], cf = steal(jit_var_not(ct));
            uint32_t sz = (uint32_t) jit_var_size(ct);
            Var mt = steal(jit_var_mask_apply(ct, sz)), mf = steal(jit_var_mask_apply(cf, sz));
            Var h = steal(jit_var_cond_start("if", sym, mt, mf));
            Var l0, l1;
            std::vector<Var> snap = e;
            { MaskGuard g(mt); block(*s.b0, e, false);
              std::vector<uint32_t> rv; for (int x : s.r0) rv.push_back(e[x]);
              l0 = steal(jit_var_cond_append(h, rv.data(), rv.size())); }
            e = snap;
            { MaskGuard g(mf); block(*s.b1, e, false);
              std::vector<uint32_t> rv; for (int x : s.r1) rv.push_back(e[x]);
              l1 = steal(jit_var_cond_append(h, rv.data(), rv.size())); }
            e = std::move(snap);
            std::vector<uint32_t> rv(s.out.size());
            jit_var_cond_end(h, rv.data());
            for (uint32_t x : rv) res.push_back(steal(x));
            rec.cleanup = false;
        }
        for (size_t k = 0; k < s.out.size(); ++k) e[s.out[k]] = res[k];
    }
    void exec_loop(const Stmt &s, std::vector<Var> &e) {
        bool sym = jit_flag(JitFlag::SymbolicScope);
        size_t ns = s.in.size();
        std::vector<Var> snap = e, res;
        {
            RecGuard rec("loop");
            std::vector<uint32_t> ix(ns);
            for (size_t k = 0; k < ns; ++k) ix[k] = e[s.in[k]];
            Var loop = steal(jit_var_loop_start("loop", sym, ns, ix.data()));
            for (size_t k = 0; k < ns; ++k) e[s.inner[k]] = steal(ix[k]);
            for (int round = 0;; ++round) {
                if (round > 3) { H::violation("loop-rerecord", "loop recording does not converge"); break; }
                block(*s.b0, e, false);
                Var active_i = e[s.cond];
                Var active = steal(jit_var_mask_apply(active_i, (uint32_t) jit_var_size(active_i)));
                Var lc = steal(jit_var_loop_cond(loop, active));
                {
                    MaskGuard g(active);
                    block(*s.b1, e, false);
                }
                for (size_t k = 0; k < ns; ++k) ix[k] = e[s.r0[k]];
                if (jit_var_loop_end(loop, lc, ix.data(), rec.cp)) {
                    for (size_t k = 0; k < ns; ++k) res.push_back(steal(ix[k]));
                    rec.cleanup = false;
                    break;
                }
                for (size_t k = 0; k < ns; ++k) e[s.inner[k]] = steal(ix[k]);
            }
        }
        e = std::move(snap);
        for (size_t k = 0; k < res.size(); ++k) e[s.out[k]] = res[k];
    }
    void exec_call(const Stmt &s, std::vector<Var> &e) {
        const Domain &d = p.domains[s.ref];
        bool sym = jit_flag(JitFlag::SymbolicScope);
        size_t K = d.inst.size(), ni = d.params.size(), no = d.outs.size();
        std::vector<uint32_t> cps(K + 1), ids(K), out(no, 0);
        std::vector<Var> cin, rv;
        Var mask = s.a[1] >= 0 ? e[s.a[1]] : lit_bool(true), self = widen(e[s.a[0]]);
        mask = steal(jit_var_mask_apply(mask, (uint32_t) std::max(jit_var_size(mask), jit_var_size(self))));
        jit_new_scope(LLVM);
        {
            RecGuard rec(d.name.c_str(), true);
            for (size_t j = 0; j < ni; ++j) cin.push_back(steal(jit_var_call_input(e[s.in[j]])));
            {
                Var cm = steal(jit_var_call_mask(LLVM));
                MaskGuard g(cm);
                for (size_t k = 0; k < K; ++k) {
                    cps[k] = rec.rewind();
                    ids[k] = (uint32_t) k + 1;
                    SelfGuard sg(ids[k]);
                    std::vector<Var> le(d.inst[k].slots.size());
                    size_t q = 0;
                    for (size_t j = 0; j < ni; ++j) le[q++] = cin[j];
                    for (size_t j = 0; j < d.data.size(); ++j) le[q++] = idata[s.ref][k][j];
                    in_call++;
                    block(d.inst[k].body, le, false);
                    in_call--;
                    for (size_t j = 0; j < no; ++j) rv.push_back(le[d.inst[k].results[j]]);
                }
                cps[K] = rec.rewind();
            }
            jit_new_scope(LLVM);
            std::vector<uint32_t> cini, rvi;
            for (auto &v : cin) cini.push_back(v);
            for (auto &v : rv) rvi.push_back(v);
            jit_var_call(d.name.c_str(), sym, self, mask, (uint32_t) K, (uint32_t) K, ids.data(), (uint32_t) ni, cini.data(),
                         (uint32_t) rvi.size(), rvi.data(), cps.data(), out.data());
            rec.cleanup = false;
        }
        for (size_t j = 0; j < no; ++j) e[s.out[j]] = steal(out[j]);
    }
};

// ------------------------------------------------------------------ printing / hashing
inline std::string show(const Block &b, int ind = 0);
inline std::string show(const Stmt &s, int ind) {
    std::string p(ind * 2, ' ');
    auto L = [](const std::vector<int> &v) { std::string r; for (int x : v) r += (r.empty() ? "" : ",") + std::to_string(x); return r; };
    switch (s.k) {
        case SK::Op: return p + H::fmt("s%d=%s(%d,%d,%d)%s", s.dst, op_nm[(int) s.op], s.a[0], s.a[1], s.a[2],
                                       (s.op == Op::Cast || s.op == Op::Reinterpret) ? type_nm((VarType) s.lit) : "") + "\n";
        case SK::Lit: return p + H::fmt("s%d=%s 0x%llx\n", s.dst, type_nm((VarType) s.ref), (unsigned long long) s.lit);
        case SK::Counter: return p + H::fmt("s%d=counter\n", s.dst);
        case SK::Gather: return p + H::fmt("s%d=table%d[s%d] if s%d\n", s.dst, s.ref, s.a[0], s.a[1]);
        case SK::BufRead: return p + H::fmt("s%d=buf%d[s%d] if s%d\n", s.dst, s.ref, s.a[0], s.a[1]);
        case SK::Scatter: return p + H::fmt("buf%d[s%d] op= s%d if s%d (mode %d)\n", s.ref, s.a[0], s.a[1], s.a[2], (int) s.lit);
        case SK::If: return p + H::fmt("if s%d -> {%s}\n", s.a[0], L(s.out).c_str()) + show(*s.b0, ind + 1) + p + "  yield " + L(s.r0) + "\n" + p + "else\n" + show(*s.b1, ind + 1) + p + "  yield " + L(s.r1) + "\n";
        case SK::Loop: return p + "loop {" + L(s.inner) + "}={" + L(s.in) + "} -> {" + L(s.out) + "}\n" + show(*s.b0, ind + 1) + p + H::fmt("while s%d\n", s.cond) + show(*s.b1, ind + 1) + p + "  next " + L(s.r0) + "\n";
        case SK::Call: return p + H::fmt("{%s}=call dom%d self=s%d mask=s%d (%s)\n", L(s.out).c_str(), s.ref, s.a[0], s.a[1], L(s.in).c_str());
        default: return p + "?\n";
    }
}
inline std::string show(const Block &b, int ind) { std::string r; for (auto &s : b.s) r += show(s, ind); return r; }
inline std::string show(const Program &p) {
    std::string r = H::fmt("n=%u\n", p.n);
    for (size_t i = 0; i < p.inputs.size(); ++i) {
        const Input &in = p.inputs[i];
        r += H::fmt("s%zu: %s %s", i, type_nm(in.t), in.wide ? (in.uniform ? "wide-uniform" : "wide") : "scalar");
        for (size_t j = 0; j < in.v.size() && j < 4; ++j) r += H::fmt(" %llx", (unsigned long long) in.v[j]);
        r += "\n";
    }
    for (size_t d = 0; d < p.domains.size(); ++d)
        for (size_t k = 0; k < p.domains[d].inst.size(); ++k) {
            r += H::fmt("dom%zu.%zu:\n", d, k) + show(p.domains[d].inst[k].body, 1) + "  results";
            for (int x : p.domains[d].inst[k].results) r += H::fmt(" %d", x);
            r += "  data"; for (uint64_t x : p.domains[d].inst[k].data) r += H::fmt(" 0x%llx", (unsigned long long) x);
            r += "\n";
        }
    r += show(p.body) + "outputs";
    for (int o : p.outputs) r += H::fmt(" %d", o);
    return r;
}

// ------------------------------------------------------------------ generator
struct GenCfg {
    int inputs = 5, stmts = 20, depth = 2;
    double w_if = 0, w_loop = 0, w_call = 0, w_gather = .1, w_scatter = 0, w_bufread = 0;
    bool all_types = true;
    bool hostile = true;
    bool approx = false;
    uint32_t max_n = 70;
    int domains = 0, bufs = 0, tables = 1;
};

struct Gen {
    Rng &r; GenCfg c; Program p;
    std::vector<Slot> *slots = nullptr;
    struct Ctx { std::vector<int> vis; int depth; bool symbolic; int dom; bool narrow_only; };

    Gen(Rng &r, GenCfg c) : r(r), c(c) {}
    VarType rtype() { return c.all_types ? r.pick(all_types) : r.pick(main_types); }
    int slot(VarType t, bool wide) { slots->push_back({ t, wide }); return (int) slots->size() - 1; }
    VarType ty(int s) { return (*slots)[s].t; }
    bool wide(int s) { return (*slots)[s].wide; }

    int find(Ctx &x, VarType t, int want_wide = -1) {
        std::vector<int> cand;
        for (int s : x.vis) if (ty(s) == t && (want_wide < 0 || wide(s) == (bool) want_wide)) cand.push_back(s);
        if (cand.empty()) return -1;
        // prefer recent slots
        if (r.chance(.5)) return cand[cand.size() - 1 - r.below(std::min<size_t>(cand.size(), 3))];
        return r.pick(cand);
    }
    int emit_lit(Block &b, Ctx &x, VarType t, uint64_t v) {
        Stmt s; s.k = SK::Lit; s.ref = (int) t; s.lit = v & refop::mask_of(t); s.dst = slot(t, false); b.s.push_back(s);
        x.vis.push_back(s.dst);
        return s.dst;
    }
    int emit_op(Block &b, Ctx &x, Op o, int a0, int a1 = -1, int a2 = -1, VarType rt = VarType::Void) {
        Stmt s; s.k = SK::Op; s.op = o; s.a[0] = a0; s.a[1] = a1; s.a[2] = a2; s.lit = (uint64_t) rt;
        bool w = wide(a0) || (a1 >= 0 && wide(a1)) || (a2 >= 0 && wide(a2));
        VarType t = (o == Op::Cast || o == Op::Reinterpret) ? rt : op_rtype(o, o == Op::Select ? ty(a1) : ty(a0));
        s.dst = slot(t, w); b.s.push_back(s); x.vis.push_back(s.dst);
        return s.dst;
    }
    int need(Block &b, Ctx &x, VarType t) {
        int s = find(x, t);
        if (s >= 0 && !r.chance(.12)) return s;
        if (s < 0 && r.chance(.5) && !x.vis.empty()) {
            int o = r.pick(x.vis);
            int q = emit_cast(b, x, o, t);
            if (q >= 0) return q;
        }
        return emit_lit(b, x, t, c.hostile ? hostile_value(r, t) : tame_value(r, t));
    }
    int emit_cast(Block &b, Ctx &x, int s, VarType t) {
        VarType f = ty(s);
        if (f == t) return s;
        if (is_flt(f) && is_int(t)) {
            // keep the value inside the target's range (otherwise undefined)
            double lim = t == VarType::Int8 || t == VarType::UInt8 ? 100 : 20000;
            auto fl = [&](double d) { return f == VarType::Float16 ? (uint64_t) d2h(d) : f == VarType::Float32 ? tobits((float) d) : tobits(d); };
            int hi = emit_lit(b, x, f, fl(lim)), lo = emit_lit(b, x, f, fl(is_uint(t) ? 0 : -lim));
            int a = emit_op(b, x, Op::Lt, s, hi), g = emit_op(b, x, Op::Gt, s, lo);
            int m = emit_op(b, x, Op::And, a, g);
            s = emit_op(b, x, Op::Select, m, s, lo);
            if (r.chance(.4)) { static const Op rd[] = { Op::Floor, Op::Ceil, Op::Round, Op::Trunc }; s = emit_op(b, x, r.pick(rd), s); }
        }
        return emit_op(b, x, Op::Cast, s, -1, -1, t);
    }
    int u32_index(Block &b, Ctx &x, uint32_t m) {   // an in-bounds index for m (power of two) elements
        int s = need(b, x, VarType::UInt32);
        if (x.narrow_only == false && !wide(s) && r.chance(.7)) { int q = find(x, VarType::UInt32, 1); if (q >= 0) s = q; }
        int l = emit_lit(b, x, VarType::UInt32, m - 1);
        return emit_op(b, x, Op::And, s, l);
    }
    void random_op(Block &b, Ctx &x) {
        for (int tries = 0; tries < 20; ++tries) {
            Op o = (Op) r.below((uint32_t) Op::Count);
            if (op_approx(o) && !c.approx) continue;
            if (o == Op::Cast) {
                if (x.vis.empty()) continue;
                if (emit_cast(b, x, r.pick(x.vis), rtype()) >= 0) return;
                continue;
            }
            if (o == Op::Reinterpret) {
                if (x.vis.empty()) continue;
                int s = r.pick(x.vis);
                VarType t = rtype();
                if (t == VarType::Bool || ty(s) == VarType::Bool || type_sz(t) != type_sz(ty(s)) || t == ty(s)) continue;
                emit_op(b, x, o, s, -1, -1, t);
                return;
            }
            VarType t = rtype();
            if (!op_ok(o, t)) continue;
            if ((o == Op::Not || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::AndMask || o == Op::OrMask) && is_flt(t) && r.chance(.6)) continue;
            if (o == Op::AndMask || o == Op::OrMask) { int a = need(b, x, t), m = need(b, x, VarType::Bool); emit_op(b, x, o, a, m); return; }
            if (o == Op::Select) { int m = need(b, x, VarType::Bool), a = need(b, x, t), d = need(b, x, t); emit_op(b, x, o, m, a, d); return; }
            int a0 = need(b, x, t);
            if (op_arity(o) == 1) {
                // abs/neg on the most negative value is defined as wrap-around for literals and arrays alike
                emit_op(b, x, o, a0); return;
            }
            int a1 = r.chance(.06) ? a0 : need(b, x, t);
            unsigned w = (unsigned) type_sz(t) * 8;
            if (o == Op::Shl || o == Op::Shr) {
                if (r.chance(.4)) a1 = emit_lit(b, x, t, r.below(w));
                else { int l = emit_lit(b, x, t, w - 1); a1 = emit_op(b, x, Op::And, a1, l); }
            }
            if ((o == Op::Div || o == Op::Mod) && is_int(t)) {
                if (r.chance(.5)) {  // literal divisor: powers of two, one, others
                    uint64_t v = r.chance(.5) ? 1ull << r.below(w - 1) : 1 + r.below(100);
                    if (is_sint(t) && r.chance(.3)) v = (0 - v) & refop::mask_of(t);
                    a1 = emit_lit(b, x, t, v);
                } else if (r.chance(.3)) {  // anything: lanes with a zero divisor have an undefined result
                } else {             // positive variable divisor
                    int l = emit_lit(b, x, t, 63), one = emit_lit(b, x, t, 1);
                    a1 = emit_op(b, x, Op::And, a1, l); a1 = emit_op(b, x, Op::Add, a1, one);
                }
            }
            if (o == Op::Div && is_flt(t)) {
                // division by a literal is approximate (x * (1/c)): use powers of two, or non-literals only
                if (!c.approx) {
                    double d = std::ldexp(1.0, (int) r.below(8) - 4);
                    uint64_t v = t == VarType::Float16 ? d2h(d) : t == VarType::Float32 ? tobits((float) d) : tobits(d);
                    if (r.chance(.5)) a1 = emit_lit(b, x, t, v);
                    else { int q = find(x, t, 1); if (q < 0) { a1 = emit_lit(b, x, t, v); } else a1 = q; }
                }
            }
            if (op_arity(o) == 2) { emit_op(b, x, o, a0, a1); return; }
            int a2 = need(b, x, t);
            emit_op(b, x, o, a0, a1, a2);
            return;
        }
    }
    void gather(Block &b, Ctx &x) {
        if (p.tables.empty()) return random_op(b, x);
        int t = r.below(p.tables.size());
        Stmt s; s.k = SK::Gather; s.ref = t;
        s.a[0] = u32_index(b, x, (uint32_t) p.tables[t].v.size());
        if (r.chance(.5)) s.a[1] = need(b, x, VarType::Bool);
        bool w = wide(s.a[0]) || (s.a[1] >= 0 && wide(s.a[1]));
        s.dst = slot(p.tables[t].t, w); b.s.push_back(s); x.vis.push_back(s.dst);
    }
    void scatter(Block &b, Ctx &x) {
        if (p.bufs.empty() || x.narrow_only) return random_op(b, x);
        int q = r.below(p.bufs.size());
        Buffer &B = p.bufs[q];
        Stmt s; s.k = SK::Scatter; s.ref = q;
        int ix;
        if (B.op == ReduceOp::Identity) {
            if (lane_slot < 0 || x.dom >= 0) return random_op(b, x);
            int m = emit_lit(b, x, VarType::UInt32, B.mul), a = emit_lit(b, x, VarType::UInt32, B.add), k = emit_lit(b, x, VarType::UInt32, (uint32_t) B.init.size() - 1);
            ix = emit_op(b, x, Op::Mul, lane_slot, m); ix = emit_op(b, x, Op::Add, ix, a); ix = emit_op(b, x, Op::And, ix, k);
        } else {
            ix = find(x, VarType::UInt32, 1);
            if (ix < 0) return random_op(b, x);
            int k = emit_lit(b, x, VarType::UInt32, (uint32_t) B.init.size() - 1);
            ix = emit_op(b, x, Op::And, ix, k);
        }
        if (!wide(ix) && p.n > 1) return;
        s.a[0] = ix;
        s.a[1] = need(b, x, B.t);
        if (is_flt(B.t) && (B.op == ReduceOp::Add || B.op == ReduceOp::Mul)) {
            // exactly representable sums: use a small integer
            int u = find(x, VarType::UInt32); if (u < 0) return;
            int l = emit_lit(b, x, VarType::UInt32, 7);
            u = emit_op(b, x, Op::And, u, l);
            s.a[1] = emit_op(b, x, Op::Cast, u, -1, -1, B.t);
        }
        if (r.chance(.5)) s.a[2] = need(b, x, VarType::Bool);
        static const ReduceMode modes[] = { ReduceMode::Auto, ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local };
        s.lit = B.op == ReduceOp::Identity ? (uint64_t) (r.chance(.5) ? ReduceMode::Auto : ReduceMode::Permute) 
            // evaluating a pending update is not possible while recording: stick to one mode there
            : (uint64_t) (x.symbolic ? B.smode : r.pick(modes));
        b.s.push_back(s);
    }
    int lane_slot = -1;
    Ctx nested(const Ctx &x) { Ctx y = x; y.depth++; y.symbolic = true; return y; }

    void cond(Block &b, Ctx &x) {
        Stmt s; s.k = SK::If;
        s.a[0] = need(b, x, VarType::Bool);
        s.b0 = std::make_shared<Block>(); s.b1 = std::make_shared<Block>();
        Ctx xt = nested(x), xf = nested(x);
        fill(*s.b0, xt, r.range(1, 5)); fill(*s.b1, xf, r.range(0, 5));
        int no = r.range(x.narrow_only ? 1 : (r.chance(.1) ? 0 : 1), 4);
        for (int k = 0; k < no; ++k) {
            VarType t = xt.vis.empty() ? rtype() : ty(r.chance(.6) ? xt.vis[xt.vis.size() - 1 - r.below(std::min<size_t>(4, xt.vis.size()))] : r.pick(xt.vis));
            int a = find(xt, t), f = find(xf, t);
            if (a < 0) a = emit_lit(*s.b0, xt, t, hostile_value(r, t));
            if (f < 0) f = emit_lit(*s.b1, xf, t, hostile_value(r, t));
            s.r0.push_back(a); s.r1.push_back(f);
            s.out.push_back(slot(t, wide(s.a[0]) || wide(a) || wide(f)));
        }
        b.s.push_back(s);
        for (int o : s.out) x.vis.push_back(o);
    }
    void loop(Block &b, Ctx &x) {
        Stmt s; s.k = SK::Loop;
        // the loop counter and its (per-lane) limit
        int lim = need(b, x, VarType::UInt32);
        if (!x.narrow_only && !wide(lim)) { int q = find(x, VarType::UInt32, 1); if (q >= 0 && r.chance(.8)) lim = q; }
        bool w = wide(lim);
        int l7 = emit_lit(b, x, VarType::UInt32, r.pick((const uint32_t[]) { 3, 7, 7, 15 }));
        lim = emit_op(b, x, Op::And, lim, l7);
        int zero = emit_lit(b, x, VarType::UInt32, r.below(3));
        std::vector<int> init{ zero };
        int nst = r.range(0, 4);
        Ctx xi = x;
        if (!w) { // a scalar loop: only scalar values take part
            xi.narrow_only = true; xi.vis.clear();
            for (int v : x.vis) if (!wide(v)) xi.vis.push_back(v);
        }
        for (int k = 0; k < nst; ++k) {
            if (xi.vis.empty()) break;
            init.push_back(r.chance(.1) ? init.back() : r.pick(xi.vis));
        }
        s.in = init;
        Ctx y = nested(xi);
        for (int v : init) { int q = slot(ty(v), w && p.n > 1 ? true : wide(v)); s.inner.push_back(q); y.vis.push_back(q); }
        s.b0 = std::make_shared<Block>(); s.b1 = std::make_shared<Block>();
        int cnd = emit_op(*s.b0, y, Op::Lt, s.inner[0], lim);
        if (r.chance(.3)) { int m = find(y, VarType::Bool); if (m >= 0) cnd = emit_op(*s.b0, y, Op::And, cnd, m); }
        s.cond = cnd;
        Ctx z = y;
        fill(*s.b1, z, r.range(1, 6));
        int one = emit_lit(*s.b1, z, VarType::UInt32, 1);
        int nxt = emit_op(*s.b1, z, Op::Add, s.inner[0], one);
        s.r0.push_back(nxt);
        for (size_t k = 1; k < init.size(); ++k) {
            VarType t = ty(init[k]);
            int q;
            double u = r.uniform();
            if (u < .15) q = s.inner[k];                                  // loop-invariant
            else if (u < .3) { std::vector<int> c2; for (int v : s.inner) if (ty(v) == t) c2.push_back(v); q = r.pick(c2); }  // swaps / copies
            else q = find(z, t);
            if (q < 0) q = s.inner[k];
            s.r0.push_back(q);
        }
        for (size_t k = 0; k < init.size(); ++k) s.out.push_back(slot(ty(init[k]), w && p.n > 1 ? true : wide(init[k])));
        b.s.push_back(s);
        for (int o : s.out) x.vis.push_back(o);
    }
    void call(Block &b, Ctx &x) {
        int lo = x.dom + 1;   // callees may only call higher-numbered domains
        if (lo >= (int) p.domains.size()) return random_op(b, x);
        int di = lo + r.below(p.domains.size() - lo);
        Domain &d = p.domains[di];
        uint32_t K = (uint32_t) d.inst.size();
        Stmt s; s.k = SK::Call; s.ref = di;
        int u = x.narrow_only ? need(b, x, VarType::UInt32) : find(x, VarType::UInt32, r.chance(.9) ? 1 : -1);
        if (u < 0) return random_op(b, x);
        int l = emit_lit(b, x, VarType::UInt32, K + 1);
        s.a[0] = emit_op(b, x, Op::Mod, u, l);
        if (r.chance(.1)) s.a[0] = emit_lit(b, x, VarType::UInt32, r.below(K + 1));
        if (r.chance(.4)) s.a[1] = need(b, x, VarType::Bool);
        for (VarType t : d.params) s.in.push_back(need(b, x, t));
        bool w = true;
        for (VarType t : d.outs) s.out.push_back(slot(t, w));
        b.s.push_back(s);
        for (int o : s.out) x.vis.push_back(o);
    }
    void one(Block &b, Ctx &x) {
        double u = r.uniform();
        if (x.depth < c.depth && (u -= c.w_if) < 0) return cond(b, x);
        if (x.depth < c.depth && (u -= c.w_loop) < 0) return loop(b, x);
        if (!x.narrow_only && (u -= c.w_call) < 0) return call(b, x);
        if ((u -= c.w_gather) < 0) return gather(b, x);
        if ((u -= c.w_scatter) < 0) return scatter(b, x);
        if (!x.symbolic && (u -= c.w_bufread) < 0 && !p.bufs.empty()) {
            int q = r.below(p.bufs.size());
            Stmt s; s.k = SK::BufRead; s.ref = q; s.a[0] = u32_index(b, x, (uint32_t) p.bufs[q].init.size());
            if (r.chance(.3)) s.a[1] = need(b, x, VarType::Bool);
            s.dst = slot(p.bufs[q].t, wide(s.a[0]) || (s.a[1] >= 0 && wide(s.a[1]))); b.s.push_back(s); x.vis.push_back(s.dst);
            return;
        }
        random_op(b, x);
    }
    void fill(Block &b, Ctx &x, int k) { for (int i = 0; i < k; ++i) one(b, x); }

    static inline std::atomic<uint64_t> dom_counter{ 0 };
    Program make() {
        static const uint32_t sizes[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65 };
        p.n = r.chance(.8) ? std::min(c.max_n, r.pick(sizes)) : r.range(1, c.max_n);
        slots = &p.slots;
        Ctx x{ {}, 0, false, -1, false };
        for (int i = 0; i < c.inputs; ++i) {
            Input in; in.t = i == 0 ? VarType::UInt32 : i == 1 ? VarType::Bool : rtype();
            in.wide = p.n > 1 && (i == 0 || r.chance(.7));
            in.uniform = in.wide && i > 1 && r.chance(.15);
            size_t m = in.wide && !in.uniform ? p.n : 1;
            bool hs = c.hostile && i > 0;
            for (size_t j = 0; j < m; ++j) in.v.push_back(hs ? hostile_value(r, in.t) : tame_value(r, in.t));
            p.inputs.push_back(in);
            x.vis.push_back(slot(in.t, in.wide));
        }
        for (int i = 0; i < c.tables; ++i) {
            Table t; t.t = rtype(); size_t m = 1u << r.below(6);
            for (size_t j = 0; j < m; ++j) t.v.push_back(c.hostile ? hostile_value(r, t.t) : tame_value(r, t.t));
            p.tables.push_back(t);
        }
        for (int i = 0; i < c.bufs; ++i) {
            Buffer B;
            static const VarType bt[] = { VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float32, VarType::Float64 };
            B.t = r.pick(bt);
            uint32_t m = 1;
            if (r.chance(.4)) { B.op = ReduceOp::Identity; while (m < p.n) m <<= 1; m <<= r.below(2); }
            else {
                static const ReduceOp ri[] = { ReduceOp::Add, ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or };
                static const ReduceOp rf[] = { ReduceOp::Add, ReduceOp::Min, ReduceOp::Max };
                B.op = is_flt(B.t) ? r.pick(rf) : r.pick(ri); m = 1u << r.below(6);
            }
            B.smode = r.pick((const ReduceMode[]) { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local });
            B.mul = r.below(64) * 2 + 1; B.add = r.below(64);
            for (uint32_t j = 0; j < m; ++j) {
                uint64_t v = is_flt(B.t) ? (B.t == VarType::Float32 ? tobits((float) r.below(50)) : tobits((double) r.below(50))) : hostile_value(r, B.t);
                B.init.push_back(v);
            }
            p.bufs.push_back(B);
        }
        make_domains();
        Stmt cs; cs.k = SK::Counter; cs.dst = slot(VarType::UInt32, p.n > 1); p.body.s.push_back(cs);
        lane_slot = cs.dst; x.vis.push_back(cs.dst);
        fill(p.body, x, c.stmts);
        // observe everything that was written at the top level, plus a few inputs
        std::set<int> os;
        for (auto &s : p.body.s) { if (s.dst >= 0 && s.k != SK::Lit && r.chance(.4)) os.insert(s.dst); for (int o : s.out) os.insert(o); }
        for (int i = 0; i < 2; ++i) os.insert(r.below(p.slots.size()) % p.inputs.size());
        p.outputs.assign(os.begin(), os.end());
        std::vector<int> keep;
        for (int o : p.outputs) keep.push_back(o);
        p.outputs = keep;
        return p;
    }
    void make_domains() {
        for (int d = c.domains - 1; d >= 0; --d) {
            Domain D;
            D.name = "D" + std::to_string(getpid()) + "_" + std::to_string(dom_counter++);
            int np = r.range(0, 4), no = r.range(r.chance(.15) ? 0 : 1, 4), nd = r.range(0, 4), K = r.chance(.2) ? 1 : r.range(2, 5);
            for (int i = 0; i < np; ++i) D.params.push_back(rtype());
            for (int i = 0; i < no; ++i) D.outs.push_back(rtype());
            for (int i = 0; i < nd; ++i) D.data.push_back(rtype());
            D.inst.resize(K);
            p.domains.insert(p.domains.begin(), D);
        }
        for (int d = c.domains - 1; d >= 0; --d) {
            Domain &D = p.domains[d];
            for (size_t k = 0; k < D.inst.size(); ++k) {
                Callee C;
                for (VarType t : D.data) C.data.push_back(r.chance(.3) && k ? D.inst[0].data[C.data.size()] : c.hostile ? hostile_value(r, t) : tame_value(r, t));
                if (k > 0 && r.chance(.35)) { // same code, possibly different data
                    const Callee &o = D.inst[r.below(k)];
                    C.body = o.body; C.slots = o.slots; C.results = o.results;
                } else {
                    slots = &C.slots;
                    Ctx x{ {}, 0, true, d, false };
                    for (VarType t : D.params) x.vis.push_back(slot(t, p.n > 1));
                    for (VarType t : D.data) x.vis.push_back(slot(t, false));
                    int ls = lane_slot; lane_slot = -1;
                    int dp = c.depth; c.depth = std::max(1, dp - 1);
                    fill(C.body, x, r.range(0, 7));
                    c.depth = dp;
                    lane_slot = ls;
                    for (VarType t : D.outs) {
                        int q = find(x, t);
                        if (q < 0 || r.chance(.1)) q = emit_lit(C.body, x, t, c.hostile ? hostile_value(r, t) : tame_value(r, t));
                        C.results.push_back(q);
                    }
                    slots = &p.slots;
                }
                D.inst[k] = C;
            }
        }
        slots = &p.slots;
    }
};

/// Slots read by a statement (nested blocks included)
inline void uses(const Block &b, std::multiset<int> &u);
inline void uses(const Stmt &s, std::multiset<int> &u) {
    for (int x : s.a) if (x >= 0) u.insert(x);
    for (int x : s.in) u.insert(x);
    for (int x : s.r0) u.insert(x);
    for (int x : s.r1) u.insert(x);
    if (s.cond >= 0) u.insert(s.cond);
    if (s.b0) uses(*s.b0, u);
    if (s.b1) uses(*s.b1, u);
}
inline void uses(const Block &b, std::multiset<int> &u) { for (auto &s : b.s) uses(s, u); }

/// Greedy minimisation: drop statements and outputs while 'fails' still holds
inline void shrink(Program &p, const std::function<bool(const Program &)> &fails) {
    auto clone = [](const Program &q) {
        Program r = q;
        std::function<void(Block &)> deep = [&](Block &b) { for (auto &s : b.s) { if (s.b0) { s.b0 = std::make_shared<Block>(*s.b0); deep(*s.b0); } if (s.b1) { s.b1 = std::make_shared<Block>(*s.b1); deep(*s.b1); } } };
        deep(r.body);
        for (auto &d : r.domains) for (auto &c : d.inst) deep(c.body);
        return r;
    };
    bool progress = true;
    while (progress) {
        progress = false;
        for (size_t k = p.outputs.size(); k-- > 0;) {
            Program q = clone(p); q.outputs.erase(q.outputs.begin() + k);
            if (fails(q)) { p = q; progress = true; }
        }
        auto each = [&](auto &&get, size_t nblk) {
            for (size_t bi = 0; bi < nblk; ++bi) {
                for (size_t k = get(p, bi)->s.size(); k-- > 0;) {
                    Program q = clone(p);
                    Block *b = get(q, bi);
                    if (!b || k >= b->s.size()) continue;
                    Stmt st = b->s[k];
                    b->s.erase(b->s.begin() + k);
                    std::multiset<int> u;
                    uses(q.body, u);
                    for (int o : q.outputs) u.insert(o);
                    bool used = st.dst >= 0 && u.count(st.dst);
                    for (int o : st.out) used |= u.count(o) > 0;
                    if (used) continue;
                    if (fails(q)) { p = q; progress = true; }
                }
            }
        };
        // enumerate blocks of the main body in preorder
        std::function<void(Block &, std::vector<Block *> &)> coll = [&](Block &b, std::vector<Block *> &v) { v.push_back(&b); for (auto &s : b.s) { if (s.b0) coll(*s.b0, v); if (s.b1) coll(*s.b1, v); } };
        std::vector<Block *> all; coll(p.body, all);
        auto get = [&](Program &q, size_t i) -> Block * { std::vector<Block *> v; coll(q.body, v); static Block none; return i < v.size() ? v[i] : &none; };
        each(get, all.size());
        for (size_t d = 0; d < p.domains.size(); ++d)
            for (size_t i = 0; i < p.domains[d].inst.size(); ++i)
                for (size_t k = p.domains[d].inst[i].body.s.size(); k-- > 0;) {
                    Program q = clone(p); Callee &c = q.domains[d].inst[i];
                    if (k >= c.body.s.size()) continue;
                    Stmt st = c.body.s[k]; c.body.s.erase(c.body.s.begin() + k);
                    std::multiset<int> v; uses(c.body, v); for (int o : c.results) v.insert(o);
                    bool used = st.dst >= 0 && v.count(st.dst); for (int o : st.out) used |= v.count(o) > 0;
                    if (!used && fails(q)) { p = q; progress = true; }
                }
    }
}

/// Compare observed outputs against the reference; returns a description of the first mismatch
inline std::string compare(const Program &p, RefExec &ref, Exec &ex, uint64_t *lanes = nullptr, uint64_t *unknown = nullptr) {
    for (size_t k = 0; k < p.outputs.size(); ++k) {
        const RVal &rv = ref.env[p.outputs[k]];
        const auto &ob = ex.outs[k];
        size_t m = std::max(ob.size(), rv.v.size());
        if (ob.size() != 1 && ob.size() != p.n) return H::fmt("output s%d has size %zu (n=%u)", p.outputs[k], ob.size(), p.n);
        for (size_t i = 0; i < m; ++i) {
            if (i < ref.dead.size() && ref.dead[i]) { if (unknown) ++*unknown; continue; }
            LV r = rv.at(i); uint64_t o = ob[ob.size() == 1 ? 0 : i];
            if (r.k == UNK) { if (unknown) ++*unknown; } else if (lanes) ++*lanes;
            if (!lane_ok(rv.t, r, o))
                return H::fmt("output s%d (%s) element %zu: expected 0x%llx (kind %d, %g), got 0x%llx (%g)", p.outputs[k], type_nm(rv.t), i,
                              (unsigned long long) r.b, r.k, as_double(rv.t, r.b), (unsigned long long) o, as_double(rv.t, o));
        }
    }
    for (size_t k = 0; k < p.bufs.size(); ++k)
        for (size_t i = 0; i < ref.bufs[k].size(); ++i) {
            LV r = ref.bufs[k][i]; uint64_t o = ex.bufouts[k].at(i);
            if (r.k == UNK) { if (unknown) ++*unknown; } else if (lanes) ++*lanes;
            if (!lane_ok(p.bufs[k].t, r, o))
                return H::fmt("buffer %zu (%s, op %d) element %zu: expected 0x%llx, got 0x%llx", k, type_nm(p.bufs[k].t), (int) p.bufs[k].op, i,
                              (unsigned long long) r.b, (unsigned long long) o);
        }
    return "";
}
