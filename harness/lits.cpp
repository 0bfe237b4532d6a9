// Every operation x element type with every operand presented as a literal, an opaque scalar, an array or the same
// variable: all presentations must give the reference value (C01, C02).
// Also compositions of two operations with special literals (simplification rules see through one level).
#include "ops.h"

static const VarType VT[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32,
    VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };

static uint64_t from_d(VarType t, double d) {
    if (t == VarType::Float16) return d2h(d);
    if (t == VarType::Float32) return tobits((float) d);
    return tobits(d);
}
/// Interesting values of a type
static std::vector<uint64_t> table(VarType t, Rng &r, bool shift_amount = false) {
    std::vector<uint64_t> v;
    uint64_t m = refop::mask_of(t);
    unsigned w = (unsigned) type_sz(t) * 8;
    if (t == VarType::Bool) return { 0, 1 };
    if (shift_amount) { for (unsigned i : { 0u, 1u, w / 2, w - 1, r.below(w) }) v.push_back(i); return v; }
    if (is_flt(t)) {
        for (double d : { 0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 4.0, 0.1, -7.75, 10.0, 1024.0, 2.5, -2.5, 3.5, 6.5e4, 1.0 / 3 }) v.push_back(from_d(t, d));
        double inf = std::numeric_limits<double>::infinity();
        v.push_back(from_d(t, inf)); v.push_back(from_d(t, -inf)); v.push_back(from_d(t, std::nan("")));
        uint64_t mx = t == VarType::Float16 ? 0x7bff : t == VarType::Float32 ? 0x7f7fffffu : 0x7fefffffffffffffull;
        v.push_back(mx); v.push_back(mx | (1ull << (w - 1)));
        if (t == VarType::Float16) { v.push_back(1); v.push_back(0x03ff); v.push_back(0x0400); v.push_back(0x3c01); v.push_back(0x6400); v.push_back(0x6801); }
        for (int i = 0; i < 4; ++i) v.push_back(from_d(t, std::ldexp(r.uniform() * 2 - 1, (int) r.below(14) - 4)));
        return v;
    }
    for (uint64_t x : { 0ull, 1ull, 2ull, 3ull, 5ull, 7ull, 10ull, ~0ull, ~0ull - 1, ~0ull - 2, ~0ull - 6, ~0ull - 9 }) v.push_back(x & m);
    for (unsigned k : { 2u, 3u, w / 2, w - 2, w - 1 }) {
        v.push_back((1ull << k) & m); v.push_back((0 - (1ull << k)) & m);
        v.push_back(((1ull << k) - 1) & m); v.push_back(((1ull << k) + 1) & m);
    }
    for (int i = 0; i < 5; ++i) v.push_back((r.next() >> r.below(w)) & m);
    return v;
}

struct Item { Var v; std::vector<LV> ref; std::string desc; VarType t; bool approx_div; };
static std::vector<Item> items;

static bool is_def(Op o, VarType t, uint64_t a, uint64_t b) {
    bool d = true;
    refop::eval(o, t, op_rtype(o, t), a, b, 0, d);
    return d;
}
/// Operand in one of its presentations
struct Opd { Var v; std::vector<LV> ref; std::string d; VarType t; bool lit = false; };

static const char *pres_nm[] = { "array", "lit", "opaque" };
static std::map<std::string, uint64_t> seen;

static Opd mk(VarType t, const std::vector<uint64_t> &vals, int pres, Rng &r) {
    Opd o; o.t = t;
    if (pres == 0) {
        std::vector<uint8_t> raw(vals.size() * type_sz(t));
        for (size_t i = 0; i < vals.size(); ++i) memcpy(raw.data() + i * type_sz(t), &vals[i], type_sz(t));
        o.v = copy_in(t, raw.data(), vals.size());
        for (uint64_t b : vals) o.ref.push_back({ b, EXACT });
        o.d = "array";
    } else {
        uint64_t b = vals[r.below(vals.size())];
        o.v = pres == 1 ? lit(t, b) : copy_in(t, &b, 1);
        o.ref.push_back({ b, EXACT });
        o.lit = pres == 1;
        o.d = H::fmt("%s(%llx)", pres_nm[pres], (unsigned long long) b);
    }
    for (LV &l : o.ref) if (classify(t, l.b) == SUB) l.k = EXACT;
    return o;
}
static bool divides_by_lit(Op o, VarType t, const Opd *a) {
    return o == Op::Div && (t == VarType::Float32 || t == VarType::Float64 || t == VarType::Float16) && a[1].ref.size() == 1;
}
static bool apply(Op o, VarType t, VarType rt, const Opd *a, Opd &out, bool generic) {
    int n = op_arity(o);
    size_t sz = 1;
    for (int i = 0; i < n; ++i) sz = std::max(sz, a[i].ref.size());
    VarType at[3]; for (int i = 0; i < n; ++i) at[i] = a[i].t;
    out.ref.clear();
    for (size_t e = 0; e < sz; ++e) {
        LV l[3] = { { 0, EXACT }, { 0, EXACT }, { 0, EXACT } };
        for (int i = 0; i < n; ++i) l[i] = a[i].ref.size() == 1 ? a[i].ref[0] : a[i].ref[e];
        LV q = ref_op(o, t, rt, at, l);
        if (H::verbose() && e == 0) fprintf(stderr, "%s.%s %d\n", op_nm[(int) o], type_nm(t), n);
        if (divides_by_lit(o, t, a) && q.k < APPROX) {
            // the reciprocal of the divisor may be computed first: it must neither overflow nor be subnormal
            double dv = as_double(t, l[1].b), x = as_double(t, q.b);
            double lim = t == VarType::Float16 ? 1e4 : t == VarType::Float32 ? 1e37 : 1e307;
            double ad = std::fabs(dv);
            if (l[1].k == EXACT && ad > 1 / lim && ad < lim) { if (q.k == EXACT && x == x) q.k = APPROX; }
            else if (!(l[1].k == EXACT && (ad == 0 || std::isinf(dv)))) q.k = UNK;
            if (q.k == SUB) q.k = APPROX;
        }
        // integer division that traps on one lane would end the process: undefined lanes must not exist
        if (q.k == UNK && is_int(t) && (o == Op::Div || o == Op::Mod)) return false;
        out.ref.push_back(q);
    }
    uint32_t ai[3]; for (int i = 0; i < n; ++i) ai[i] = a[i].v;
    uint32_t res = 0;
    if (!(generic && jit_apply_generic(o, ai, &res))) res = jit_apply(o, rt, ai);
    out.v = steal(res);
    out.t = rt;
    out.lit = false;
    out.d = H::fmt("%s.%s%s%s(", op_nm[(int) o], type_nm(t), rt != t ? "->" : "", rt != t ? type_nm(rt) : "");
    for (int i = 0; i < n; ++i) out.d += (i ? ", " : "") + a[i].d;
    out.d += ")";
    return true;
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    jit_set_flag(JitFlag::FastMath, 0);
    H::loop([&](uint64_t, Rng &r) {
        nt_chaos(0, 0);
        bool cp = !r.chance(.15), vn = !r.chance(.2);
        jit_set_flag(JitFlag::ConstantPropagation, cp);
        jit_set_flag(JitFlag::ValueNumbering, vn);
        items.clear();
        Op o; VarType t, rt;
        do { o = (Op) r.below((int) Op::Count); t = VT[r.below(12)]; }
        while (o == Op::Reinterpret || (o == Op::Cast ? false : !op_ok(o, t)));
        rt = op_rtype(o, t);
        if (o == Op::Cast) { do rt = VT[r.below(12)]; while (rt == t); }
        int n = op_arity(o);
        VarType at[3] = { t, t, t };
        if (o == Op::Select) { at[0] = VarType::Bool; }
        if (o == Op::AndMask || o == Op::OrMask) at[1] = VarType::Bool;
        bool shift = o == Op::Shl || o == Op::Shr, dm = is_int(t) && (o == Op::Div || o == Op::Mod);

        // tuples of operands (the full table is crossed where possible)
        std::vector<uint64_t> tb[3], col[3];
        for (int i = 0; i < n; ++i) tb[i] = table(at[i], r, shift && i == 1);
        size_t cnt = n == 1 ? tb[0].size() : 17 + r.below(64);
        for (size_t k = 0; k < cnt; ++k) {
            uint64_t x[3] = {};
            for (int tries = 0; tries < 64; ++tries) {
                for (int i = 0; i < n; ++i) x[i] = n == 1 ? tb[0][k] : r.pick(tb[i]);
                if (!dm || is_def(o, t, x[0], x[1])) break;
                x[1] = 1;
            }
            for (int i = 0; i < n; ++i) col[i].push_back(x[i]);
        }
        auto emit = [&](Opd &&q) { items.push_back(Item{ std::move(q.v), std::move(q.ref), std::move(q.d), q.t, false }); };
        int budget = H::thorough() ? 60 : 36;
        std::vector<Opd> level1;
        for (int k = 0; k < budget; ++k) {
            Opd a[3], out;
            int pat = k == 0 ? 0 : k < 7 ? (int) (k - 1) % n + 1 : (int) r.below(8);
            for (int i = 0; i < n; ++i) {
                int pres = pat == 0 ? 0 : pat <= 3 ? (pat - 1 == i ? 1 : 0) : (int) r.below(3);
                if (dm && i == 1 && pres != 0) {
                    // a scalar divisor must suit all dividends
                    std::vector<uint64_t> ok;
                    for (uint64_t b : tb[1]) { bool all = true; for (uint64_t x : col[0]) all &= is_def(o, t, x, b); for (uint64_t x : tb[0]) all &= is_def(o, t, x, b); if (all) ok.push_back(b); }
                    a[i] = mk(at[i], ok, pres, r);
                } else if (dm && i == 0 && pres != 0) {
                    std::vector<uint64_t> ok;
                    for (uint64_t x : tb[0]) if (is_def(o, t, x, refop::mask_of(t))) ok.push_back(x);
                    a[i] = mk(at[i], ok, pres, r);
                } else a[i] = mk(at[i], pres == 0 ? col[i] : tb[i], pres, r);
            }
            // one variable in both positions
            if (n >= 2 && pat >= 6 && at[n - 1] == at[n - 2] && !shift && !dm) a[n - 1] = a[n - 2];
            bool all_lit = true; for (int i = 0; i < n; ++i) all_lit &= a[i].lit;
            if (!apply(o, t, rt, a, out, r.chance(.3))) continue;
            H::stat("presentations");
            if (all_lit) H::stat("all_literal");
            if (jit_var_state(out.v) == VarState::Literal) H::stat("folded");
            level1.push_back(out);
            emit(std::move(out));
        }
        // compositions: a second operation with special literals / the same operand / the operand of the first one
        for (int k = 0; k < (int) budget / 2 && !level1.empty(); ++k) {
            Opd a[3], out, x = r.pick(level1);
            Op o2; VarType t2 = x.t, rt2;
            int pos;
            int tries = 0;
            do { o2 = r.chance(.3) ? o : (Op) r.below((int) Op::Count); } while ((o2 == Op::Reinterpret || (o2 != Op::Cast && !op_ok(o2, t2)) || o2 == Op::Div || o2 == Op::Mod) && ++tries < 200);
            if (tries >= 200) continue;
            rt2 = op_rtype(o2, t2);
            if (o2 == Op::Cast) { do rt2 = VT[r.below(12)]; while (rt2 == t2); }
            int n2 = op_arity(o2);
            VarType at2[3] = { t2, t2, t2 };
            if (o2 == Op::Select) at2[0] = VarType::Bool;
            if (o2 == Op::AndMask || o2 == Op::OrMask) at2[1] = VarType::Bool;
            std::vector<uint64_t> sp;
            if (is_flt(t2)) sp = { from_d(t2, 0), from_d(t2, 1), from_d(t2, -1), from_d(t2, 2), from_d(t2, -0.0) };
            else sp = { 0, 1, refop::mask_of(t2), 2 & refop::mask_of(t2), 3 & refop::mask_of(t2) };
            bool sh2 = o2 == Op::Shl || o2 == Op::Shr;
            if (sh2) sp = { 0, 1, type_sz(t2) * 8 - 1 };
            pos = (int) r.below(n2);
            if (at2[pos] != t2 || sh2) pos = o2 == Op::Select ? 1 + (int) r.below(2) : 0;
            for (int i = 0; i < n2; ++i) {
                if (i == pos) a[i] = x;
                else if (at2[i] == t2 && r.chance(.25) && !sh2) a[i] = x;
                else if (at2[i] == t2 && !sh2 && r.chance(.2)) { a[i] = r.pick(level1); }
                else a[i] = mk(at2[i], at2[i] == t2 ? sp : std::vector<uint64_t>{ 0, 1 }, r.chance(.75) ? 1 : 2, r);
            }
            size_t s = 1; bool bad = false;
            for (int i = 0; i < n2; ++i) if (a[i].ref.size() != 1) { if (s != 1 && a[i].ref.size() != s) bad = true; s = a[i].ref.size(); }
            if (bad) continue;
            if (!apply(o2, t2, rt2, a, out, false)) continue;
            H::stat("compositions");
            emit(std::move(out));
        }
        for (Item &it : items) jit_var_schedule(it.v);
        jit_eval();
        std::string all;
        for (Item &it : items) {
            std::vector<uint64_t> got = fetch(it.v);
            if (jit_var_type(it.v) != it.t) { H::violation("result-type", "%s has type %s instead of %s", it.desc.c_str(), type_nm(jit_var_type(it.v)), type_nm(it.t)); break; }
            if (got.size() != it.ref.size() && !(got.size() == 1)) { H::violation("result-size", "%s has size %zu instead of %zu", it.desc.c_str(), got.size(), it.ref.size()); break; }
            for (size_t e = 0; e < it.ref.size(); ++e) {
                uint64_t g = got[got.size() == 1 ? 0 : e];
                if (it.ref[e].k != UNK) H::stat("elements_compared");
                if (!lane_ok(it.t, it.ref[e], g)) {
                    H::violation("value", "%s element %zu of %zu: %llx, expected %llx (k=%d)%s; operands %llx %llx %llx; cp=%d vn=%d width=%u", it.desc.c_str(), e, it.ref.size(), (unsigned long long) g,
                                 (unsigned long long) it.ref[e].b, it.ref[e].k, "", (unsigned long long) (e < col[0].size() ? col[0][e] : 0),
                                 (unsigned long long) (n > 1 && e < col[1].size() ? col[1][e] : 0), (unsigned long long) (n > 2 && e < col[2].size() ? col[2][e] : 0), cp, vn, jit_llvm_vector_width());
                    break;
                }
            }
            all += it.desc + ";";
        }
        if (H::verbose()) fprintf(stderr, "%s\n", all.c_str());
        H::distinct(H::hash_str(all));
        H::sample(all);
        items.clear();
        if (jit_flag(JitFlag::ConstantPropagation) != (cp ? 1 : 0)) H::violation("flags", "flag changed");
    });
    jit_shutdown(1);
    return H::finish();
}
