// Local array variables against per-element vectors (C16), inside and outside of loops, conditionals and calls.
#include "ops.h"
#include "scen.h"

static const VarType VT[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32,
    VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
static const VarType U32 = VarType::UInt32, B1 = VarType::Bool;
using VU = std::vector<uint64_t>;
static std::string trace;
#define T(...) do { std::string q_ = H::fmt(__VA_ARGS__); if (H::verbose()) fprintf(stderr, "TR %s\n", q_.c_str()); trace += q_ + "; "; } while (0)

static Var pack(VarType t, const VU &v) {
    std::vector<uint8_t> raw(v.size() * type_sz(t));
    for (size_t i = 0; i < v.size(); ++i) memcpy(raw.data() + i * type_sz(t), &v[i], type_sz(t));
    return copy_in(t, raw.data(), v.size());
}
static uint64_t num(VarType t, uint64_t k) {
    switch (t) {
        case VarType::Bool: return k & 1;
        case VarType::Float16: return d2h((double) (k % 1000)); case VarType::Float32: return tobits((float) (k % 100000)); case VarType::Float64: return tobits((double) (k % 1000000));
        default: return k & refop::mask_of(t);
    }
}
/// A per-element value: variable + contents (size 1 or n) and 'known' flags (unknown: uninitialised)
struct Val { Var v; VU c; std::vector<uint8_t> k; uint64_t at(size_t i) const { return c[c.size() == 1 ? 0 : i]; } bool known(size_t i) const { return k.empty() || k[k.size() == 1 ? 0 : i]; } };
struct Arr { Var v; VarType t; uint32_t len; std::vector<VU> c; std::vector<std::vector<uint8_t>> k; };  // [element][slot]

struct World {
    Rng &r; size_t n;
    World(Rng &r, size_t n) : r(r), n(n) { }
    Val value(VarType t, bool allow_array = true, uint32_t bound = 0) {
        Val x; int how = r.below(allow_array ? 5 : 2);
        auto gen = [&]() { uint64_t q = bound ? r.below(bound) : r.next(); return bound ? q : num(t, q); };
        if (how < 2) { x.c = { gen() }; x.v = lit(t, x.c[0], r.chance(.85) ? 1 : n, how == 1); if (how == 1 && jit_var_size(x.v) > 1) x.c.assign(n, x.c[0]); }
        else {
            uint64_t u = gen(); bool uni = r.chance(.15);
            for (size_t i = 0; i < n; ++i) x.c.push_back(uni ? u : gen());
            x.v = pack(t, x.c);
            if (r.chance(.3)) x.v = steal(jit_var_or(x.v, lit(t, 0)));   // not evaluated yet
        }
        return x;
    }
    Val mask() {
        int how = r.below(6);
        if (how < 2) { Val x; x.c = { 1 }; x.v = lit_bool(true, r.chance(.8) ? 1 : n); return x; }
        if (how == 2 && r.chance(.3)) { Val x; x.c = { 0 }; x.v = lit_bool(false); return x; }
        return value(B1);
    }
    Arr create() {
        Arr a; a.t = r.pick(VT); a.len = r.chance(.2) ? 1 : r.chance(.85) ? 1 + r.below(9) : 1 + r.below(150);
        uint32_t size = r.chance(.5) ? 1 : (uint32_t) n;
        a.v = steal(jit_array_create(LLVM, a.t, size, a.len));
        a.c.assign(n, VU(a.len, 0)); a.k.assign(n, std::vector<uint8_t>(a.len, 0));
        T("create %s len=%u size=%u", type_nm(a.t), a.len, size);
        if (r.chance(.85)) {
            Val x = value(a.t);
            if (jit_var_size(x.v) != size && size != 1) { x.c = { x.c[0] }; x.v = lit(a.t, x.c[0], size); }
            a.v = steal(jit_array_init(a.v, x.v));
            for (size_t i = 0; i < n; ++i) for (uint32_t j = 0; j < a.len; ++j) { a.c[i][j] = x.at(i); a.k[i][j] = 1; }
            T("init(size %zu)", x.c.size());
        }
        return a;
    }
    Val index(uint32_t len, const Val &m) {
        Val x = value(U32, true, len);
        // indices of masked elements may be anything, if they are not uniform
        if (x.c.size() == n && n > 1 && jit_var_size(x.v) == n && m.c.size() == n && r.chance(.3)) {
            for (size_t i = 0; i < n; ++i) if (!m.at(i)) x.c[i] = (uint32_t) r.next();
            x.v = pack(U32, x.c);
        }
        return x;
    }
    static void do_write(Arr &a, size_t n, const Val &ix, const Val &v, const Val &m) {
        a.v = steal(jit_array_write(a.v, ix.v, v.v, m.v));
        for (size_t i = 0; i < n; ++i) if (m.at(i)) { a.c[i][ix.at(i)] = v.at(i); a.k[i][ix.at(i)] = v.known(i); }
    }
    void write(Arr &a) {
        Val m = mask(), ix = index(a.len, m), v = value(a.t);
        do_write(a, n, ix, v, m);
        T("write(ix %zu%s, v %zu, m %zu)", ix.c.size(), jit_var_state(ix.v) == VarState::Literal ? "L" : "", v.c.size(), m.c.size());
        H::stat("writes");
    }
    bool expect(const char *what, uint32_t idx, const VU &want, const std::vector<uint8_t> &known, const std::vector<uint8_t> &zero_ok) {
        VU g = fetch(idx);
        if (g.size() != 1 && g.size() != n) { H::violation("size", "%s: size %zu (%zu elements) [%s]", what, g.size(), n, trace.c_str()); return false; }
        for (size_t i = 0; i < n; ++i) {
            if (!known[i]) continue;
            uint64_t x = g[g.size() == 1 ? 0 : i];
            H::stat("elements_compared");
            if (x != want[i] && !(zero_ok.size() && zero_ok[i] && x == 0)) { H::violation(what, "element %zu of %zu is %llx instead of %llx [%s]", i, n, (unsigned long long) x, (unsigned long long) want[i], trace.c_str()); return false; }
        }
        return true;
    }
    struct Pend { Var v; VU w; std::vector<uint8_t> k, z; std::string d; };
    std::vector<Pend> pend;
    Pend read(const Arr &a, Val *res = nullptr) {
        Val m = mask(), ix = index(a.len, m);
        Pend p; p.v = steal(jit_array_read(a.v, ix.v, m.v)); p.d = "read";
        for (size_t i = 0; i < n; ++i) {
            uint32_t j = m.at(i) || ix.at(i) < a.len ? (uint32_t) ix.at(i) : 0;
            p.w.push_back(a.c[i][j]); p.k.push_back(a.k[i][j]); p.z.push_back(!m.at(i));
            if (!m.at(i) && ix.at(i) >= a.len) p.k[i] = 0;
        }
        T("read(ix %zu, m %zu)", ix.c.size(), m.c.size());
        H::stat("reads");
        if (res) { res->v = p.v; res->c = p.w; res->k = p.k; for (size_t i = 0; i < n; ++i) if (p.z[i]) { res->k.resize(n, 1); res->k[i] = 0; } }
        return p;
    }
    bool audit(const char *what, const Arr &a) {
        if (jit_array_length(a.v) != a.len) { H::violation("length", "length %zu instead of %u [%s]", jit_array_length(a.v), a.len, trace.c_str()); return false; }
        std::vector<uint32_t> slots;
        if (a.len <= 12) for (uint32_t j = 0; j < a.len; ++j) slots.push_back(j); else for (int q = 0; q < 8; ++q) slots.push_back(r.below(a.len));
        std::vector<Var> vs;
        bool together = r.chance(.7);
        for (uint32_t j : slots) { vs.push_back(steal(jit_array_read(a.v, lit_u32(j), lit_bool(true)))); if (together) jit_var_schedule(vs.back()); }
        if (together) jit_eval();
        for (size_t q = 0; q < slots.size(); ++q) {
            VU w; std::vector<uint8_t> k;
            for (size_t i = 0; i < n; ++i) { w.push_back(a.c[i][slots[q]]); k.push_back(a.k[i][slots[q]]); }
            if (!expect(what, vs[q], w, k, {})) { return false; }
        }
        H::stat("audits");
        return true;
    }
};

static void one(Rng &r) {
    size_t n = r.chance(.1) ? 1 : r.chance(.3) ? 1 + r.below(40) : r.chance(.7) ? 16 * (1 + r.below(4)) + r.below(3) : 1 + r.below(900);
    jit_set_flag(JitFlag::ConstantPropagation, r.chance(.8)); jit_set_flag(JitFlag::ValueNumbering, r.chance(.8));
    jit_set_flag(JitFlag::OptimizeLoops, r.chance(.7)); jit_set_flag(JitFlag::Debug, r.chance(.08));
    jit_set_flag(JitFlag::CompressLoops, 0); jit_set_flag(JitFlag::OptimizeCalls, r.chance(.7)); jit_set_flag(JitFlag::MergeFunctions, r.chance(.7));
    trace = H::fmt("n=%zu; ", n);
    World w(r, n);
    std::vector<Arr> as;
    as.push_back(w.create());
    bool shared_type = r.chance(.6);
    int steps = 1 + r.below((uint32_t) H::optu("steps", r.chance(.3) ? 4 : 14)); uint32_t span = (uint32_t) H::optu("span", 20);
    auto pick = [&]() -> Arr & { return as[r.below(as.size())]; };
    for (int s = 0; s < steps; ++s) {
        int what = r.below(span); if (!((H::optu("mask", 0xfffff) >> what) & 1)) continue;
        if (what < 6) w.write(pick());
        else if (what < 9) {
            World::Pend p = w.read(pick());
            if (r.chance(.3)) { if (!w.expect(p.d.c_str(), p.v, p.w, p.k, p.z)) return; } else w.pend.push_back(p);
        } else if (what == 9) { if (as.size() < 5) { as.push_back(w.create()); } }
        else if (what == 10) { if (as.size() < 6) { as.push_back(Arr(pick())); T("copy"); H::stat("copies"); } }
        else if (what == 11) { jit_var_eval(pick().v); T("eval"); H::stat("evaluations"); }
        else if (what == 12) { Arr &a = pick(); jit_var_schedule(a.v); if (r.chance(.5)) jit_eval(); T("schedule"); H::stat("evaluations"); }
        else if (what == 13) {  // select between arrays of the same shape
            Arr &a = pick(); Arr b = a;
            for (auto &q : as) if (q.t == a.t && q.len == a.len && r.chance(.5)) b = q;
            if (r.chance(.5)) w.write(b);
            if (jit_var_size(a.v) != jit_var_size(b.v)) continue;
            Val m = w.value(B1);
            Arr c = a;
            c.v = steal(jit_var_select(m.v, a.v, b.v));
            for (size_t i = 0; i < n; ++i) if (!m.at(i)) { c.c[i] = b.c[i]; c.k[i] = b.k[i]; }
            T("select(m %zu)", m.c.size()); H::stat("selects");
            if (as.size() < 6) as.push_back(c); else pick() = c;
        } else if (what == 14) {  // read-modify-write
            Arr &a = pick(); Val x; w.read(a, &x);
            Val m = w.mask(), ix = w.index(a.len, m);
            World::do_write(a, n, ix, x, m); T("write(read)");
        } else if (what <= 16) {  // loop: state (i, array, sum)
            Arr &a = pick();
            if (a.t == B1 || jit_var_size(a.v) != n) continue;
            Val lim = w.value(U32, true, 6), st = w.value(U32, true, a.len), inc = w.value(U32, true, 3);
            bool rd = r.chance(.7), wr = r.chance(.8), masked = r.chance(.4);
            bool outer = r.chance(.3);
            Val v = w.value(a.t);
            uint32_t len = a.len; VarType t = a.t; 
            Arr a0 = a, before;
            Var one = lit_u32(1), L = lit_u32(len), c3 = lit_u32(3), acc0 = lit(t, 0);
            Vars s0 = { pack(U32, VU(n, 0)), a.v, r.chance(.5) ? acc0 : pack(t, VU(n, 0)) };
            if (r.chance(.3)) s0.push_back(as[r.below(as.size())].v);   // an array that the loop does not change
            Arr other = a; bool have = s0.size() == 4; if (have) for (auto &q : as) if (q.v.i == s0[3].i) other = q;
            if (have && jit_var_size(s0[3]) != n) { s0.pop_back(); have = false; }
            T("loop(len=%u rd=%d wr=%d masked=%d other=%d lim=%zu)", len, rd, wr, masked, have, lim.c.size());
            Vars o = sym_loop(s0, [&](Vars &s) { return steal(jit_var_lt(s[0], lim.v)); }, [&](Vars &s) -> Vars {
                Vars q = s;
                Var ix = steal(jit_var_mod(steal(jit_var_add(steal(jit_var_mul(s[0], inc.v)), st.v)), L));
                Var m = masked ? steal(jit_var_neq(steal(jit_var_mod(s[0], c3)), one)) : lit_bool(true);
                if (rd) q[2] = steal(jit_var_add(s[2], steal(jit_array_read(s[1], ix, lit_bool(true)))));
                if (wr) q[1] = steal(jit_array_write(s[1], ix, steal(jit_var_add(v.v, steal(jit_var_cast(s[0], t, 0)))), m));
                q[0] = steal(jit_var_add(s[0], one));
                return q;
            });
            bool def = true;
            VU sum(n, 0); std::vector<uint8_t> ks(n, 1);
            if (H::verbose()) { fprintf(stderr, "before %lx st %lu inc %lu lim %lu v %lx\n", a.c[0][0], st.at(0), inc.at(0), lim.at(0), v.at(0)); }
            for (size_t i = 0; i < n; ++i) for (uint64_t k = 0; k < lim.at(i); ++k) {
                uint64_t ix = (k * inc.at(i) + st.at(i)) % len;
                if (rd) { sum[i] = refop::eval(Op::Add, t, t, sum[i], a.c[i][ix], 0, def); ks[i] &= a.k[i][ix]; }
                if (wr && (!masked || k % 3 != 1)) { a.c[i][ix] = refop::eval(Op::Add, t, t, v.at(i), num(t, k), 0, def); a.k[i][ix] = v.known(i); }
                H::stat("loop_iterations");
            }
            if (outer) before = a0;
            a.v = o[1];
            if (rd) w.pend.push_back({ o[2], sum, ks, {}, "loop sum" });
            if (have) { Arr q = other; q.v = o[3]; if (as.size() < 6) as.push_back(q); }
            if (outer && as.size() < 6) as.push_back(before);
            H::stat("loops");
        } else if (what <= 18) {  // conditional
            Arr &a = pick();
            if (jit_var_size(a.v) != n) continue;
            Val c = w.value(B1), it = w.value(U32, true, a.len), vt = w.value(a.t), iff = w.value(U32, true, a.len), vf = w.value(a.t);
            if (jit_var_size(c.v) != n) { c.c.assign(n, c.at(0)); c.v = pack(B1, c.c); }
            bool wt = r.chance(.8), wf = r.chance(.5);
            T("if(wt=%d wf=%d)", wt, wf);
            uint32_t av = a.v;
            Vars o = sym_if(c.v,
                [&]() -> Vars { Var q = borrow(av); if (wt) q = steal(jit_array_write(q, it.v, vt.v, lit_bool(true))); return { q, steal(jit_array_read(q, it.v, lit_bool(true))) }; },
                [&]() -> Vars { Var q = borrow(av); if (wf) q = steal(jit_array_write(q, iff.v, vf.v, lit_bool(true))); return { q, steal(jit_array_read(q, iff.v, lit_bool(true))) }; });
            VU got; std::vector<uint8_t> k;
            for (size_t i = 0; i < n; ++i) {
                const Val &ix = c.at(i) ? it : iff, &v = c.at(i) ? vt : vf;
                if (c.at(i) ? wt : wf) { a.c[i][ix.at(i)] = v.at(i); a.k[i][ix.at(i)] = 1; }
                got.push_back(a.c[i][ix.at(i)]); k.push_back(a.k[i][ix.at(i)]);
            }
            Arr before = a; a.v = o[0];
            w.pend.push_back({ o[1], got, k, {}, "read in conditional" });
            H::stat("conditionals");
        } else {  // a call whose callables use a private array
            VarType t = r.pick(VT); uint32_t len = 2 + r.below(5), ni = 1 + r.below(3);
            VU self; for (size_t i = 0; i < n; ++i) self.push_back(r.below(ni + 1));
            Val x = w.value(t), y = w.value(t); VU ixc; for (size_t i = 0; i < n; ++i) ixc.push_back(r.below(len));
            if (jit_var_size(x.v) != n) { x.c.assign(n, x.at(0)); x.v = pack(t, x.c); }
            Var ix = pack(U32, ixc);
            T("call(%u, %s len=%u)", ni, type_nm(t), len);
            Vars o = sym_call(ni, pack(U32, self), lit_bool(true), { x.v, ix }, [&](uint32_t k, Vars &in) -> Vars {
                Var a = steal(jit_array_init(steal(jit_array_create(LLVM, t, 1, len)), lit(t, num(t, 3))));
                a = steal(jit_array_write(a, in[1], in[0], lit_bool(true)));
                a = steal(jit_array_write(a, lit_u32(k % len), y.c.size() == 1 && jit_var_size(y.v) == 1 ? lit(t, y.c[0]) : in[0], lit_bool(true)));
                return { steal(jit_array_read(a, in[1], lit_bool(true))), steal(jit_array_read(a, lit_u32((k + 1) % len), lit_bool(true))) };
            });
            VU w0, w1;
            for (size_t i = 0; i < n; ++i) {
                if (!self[i]) { w0.push_back(0); w1.push_back(0); continue; }
                uint32_t k = (uint32_t) self[i] - 1;
                VU m(len, num(t, 3)); m[ixc[i]] = x.at(i); m[k % len] = y.c.size() == 1 && jit_var_size(y.v) == 1 ? y.c[0] : x.at(i);
                w0.push_back(m[ixc[i]]); w1.push_back(m[(k + 1) % len]);
            }
            std::vector<uint8_t> k1(n, 1);
            w.pend.push_back({ o[0], w0, k1, {}, "call output 0" }); w.pend.push_back({ o[1], w1, k1, {}, "call output 1" });
            H::stat("calls");
        }
    }
    (void) shared_type;
    
    std::vector<size_t> order(w.pend.size());
    if (r.chance(.5)) { for (auto &p : w.pend) jit_var_schedule(p.v); if (r.chance(.5)) for (auto &a : as) jit_var_schedule(a.v); jit_eval(); }
    for (auto &p : w.pend) if (!w.expect(p.d.c_str(), p.v, p.w, p.k, p.z)) return;
    for (auto &a : as) if (!w.audit("final contents", a)) return;
    H::distinct(H::hash_str(trace)); H::sample(trace);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    H::loop([&](uint64_t, Rng &r) { jit_set_flag(JitFlag::PrintIR, H::optu("ir", 0)); one(r); jit_set_flag(JitFlag::Debug, 0); });
    jit_shutdown(1);
    return H::finish();
}
