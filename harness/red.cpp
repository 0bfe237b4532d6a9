// Reductions, scans, compaction, sorting permutations, fills and copies (C06)
#include "common.h"

static uint32_t B = 16384; // jit_llvm_block_size()
static int poolsz = 1;

template <typename T> struct VTOf;
#define VT_(t, v) template <> struct VTOf<t> { static constexpr VarType v_ = VarType::v; }
VT_(uint8_t, UInt8); VT_(int32_t, Int32); VT_(uint32_t, UInt32); VT_(int64_t, Int64); VT_(uint64_t, UInt64);
VT_(half, Float16); VT_(float, Float32); VT_(double, Float64); VT_(int8_t, Int8); VT_(int16_t, Int16); VT_(uint16_t, UInt16);
template <typename T> constexpr bool FLT = std::is_same_v<T, half> || std::is_floating_point_v<T>;
template <typename T> double D_(T v) { if constexpr (std::is_same_v<T, half>) return (double) (float) v; else return (double) v; }

static const char *opn(ReduceOp o) { const char *n[] = { "identity", "add", "mul", "min", "max", "and", "or" }; return n[(int) o]; }

/// Reference fold, written as modular / double arithmetic. State type is uint64_t for integers and double for floats.
template <typename T> struct Fold {
    using S = std::conditional_t<FLT<T>, double, uint64_t>;
    ReduceOp op;
    S init() const {
        if constexpr (FLT<T>)
            return op == ReduceOp::Mul ? 1.0 : op == ReduceOp::Min ? INFINITY : op == ReduceOp::Max ? -INFINITY : 0.0;
        else
            switch (op) {
                case ReduceOp::Mul: return 1;
                case ReduceOp::Min: return (uint64_t) std::numeric_limits<T>::max();
                case ReduceOp::Max: return (uint64_t) std::numeric_limits<T>::min();
                case ReduceOp::And: return ~0ull;
                default: return 0;
            }
    }
    S step(S a, T b_) const {
        if constexpr (FLT<T>) {
            double b = D_(b_);
            switch (op) { case ReduceOp::Add: return a + b; case ReduceOp::Mul: return a * b; case ReduceOp::Min: return b < a ? b : a; case ReduceOp::Max: return b > a ? b : a; default: return 0; }
        } else {
            uint64_t b = (uint64_t) b_;
            switch (op) {
                case ReduceOp::Add: return a + b; case ReduceOp::Mul: return a * b;
                case ReduceOp::Min: return (T) a < b_ ? a : b; case ReduceOp::Max: return (T) a > b_ ? a : b;
                case ReduceOp::And: return a & b; case ReduceOp::Or: return a | b; default: return 0;
            }
        }
    }
    bool same(S want, T got) const {
        if constexpr (FLT<T>) { double g = D_(got); return g == want || (g != g && want != want); }
        else return (T) want == got;
    }
    std::string str(S w) const { if constexpr (FLT<T>) return H::fmt("%g", w); else return H::fmt("%lld", (long long) (T) w); }
};
template <typename T> std::string sv(T v) { if constexpr (FLT<T>) return H::fmt("%g", D_(v)); else return H::fmt("%lld", (long long) v); }

/// Values for which every association of the operation gives the same (exact) result
template <typename T> std::vector<T> values(Rng &r, size_t n, ReduceOp op) {
    std::vector<T> v(n);
    if constexpr (!FLT<T>) {
        int sh = r.below(3) ? 0 : (int) r.below(sizeof(T) * 8);
        for (auto &x : v) x = (T) (r.next() >> (64 - sizeof(T) * 8) >> sh);
        if (op == ReduceOp::Mul) { for (auto &x : v) if (r.chance(.9)) x = (T) (x | 1); }
        if (op == ReduceOp::And) for (auto &x : v) if (r.chance(.999)) x = (T) -1 ^ (T) (r.chance(.02) ? (T) 1 << r.below(sizeof(T) * 8 - 1) : 0);
        if (op == ReduceOp::Or) for (auto &x : v) if (r.chance(.99)) x = 0;
    } else if (op == ReduceOp::Add) {
        double lim = std::is_same_v<T, half> ? 2000 : sizeof(T) == 4 ? 8e6 : 1e12, budget = lim;
        double p = r.chance(.5) ? 1 : r.uniform();
        size_t left = n;
        for (auto &x : v) {
            double m = std::max(1.0, std::floor(2 * lim / (double) std::max<size_t>(n, 1))), d = std::floor((r.uniform() * 2 - 1) * (m + 1));
            if (r.chance(.01)) d = std::floor((r.uniform() * 2 - 1) * budget * .5);
            if (!r.chance(p) || std::fabs(d) > budget) d = 0;
            budget -= std::fabs(d); x = (T) d; left--;
        }
        if (r.chance(.1) && n) v[r.below(n)] = (T) (r.chance(.5) ? NAN : INFINITY);
    } else if (op == ReduceOp::Mul) {
        int e = 0;
        for (auto &x : v) {
            double d = r.chance(.5) ? 1 : -1;
            if (r.chance(.1)) { int s = e > 2 ? -1 : e < -2 ? 1 : r.chance(.5) ? 1 : -1; e += s; d *= s > 0 ? 2 : .5; }
            x = (T) d;
        }
        if (r.chance(.1) && n) v[r.below(n)] = (T) 0.0;
    } else
        for (auto &x : v) x = r.chance(.02) ? (T) (r.chance(.5) ? INFINITY : -INFINITY) : (T) ((r.uniform() * 2 - 1) * (r.chance(.3) ? 60000 : 10));
    return v;
}
/// Is the prefix of a product/sum of these values exact in any association? (partial products may leave [2^-8, 2^8])
static uint32_t pick_size(Rng &r) {
    switch (r.below(8)) {
        case 0: return 1 + r.below(20);
        case 1: return 1 + r.below(300);
        case 2: return r.range(B - 2, B + 2);
        case 3: return r.range(2 * B - 2, 2 * B + 2);
        case 4: return B * (1 + r.below(6)) + r.below(3);
        case 5: return 1 + r.below(12 * B);
        case 6: return B * (2 + r.below(8)) + r.below(B);
        default: return 1 + r.below(3000);
    }
}
static uint32_t pick_block(Rng &r, uint32_t n) {
    uint32_t b;
    switch (r.below(9)) {
        case 0: b = n; break;
        case 1: b = 1; break;
        case 2: b = 2 + r.below(16); break;
        case 3: b = n / 2 + r.below(3); break;
        case 4: b = 2 * B + 1 + r.below(3 * B); break;
        case 5: b = n - r.below(3); break;
        case 6: b = r.range(2 * B - 1, 2 * B + 2); break;
        case 7: b = n / 3 + 1 + r.below(4); break;
        default: b = 1 + r.below(n); break;
    }
    if (b == 0) b = 1;
    return std::min(b, n);
}
static const ReduceOp IOPS[] = { ReduceOp::Add, ReduceOp::Mul, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or };
static ReduceOp pick_op(Rng &r, bool flt) { return IOPS[r.below(flt ? 4 : 6)]; }

template <typename T> static void check_blocks(const std::vector<T> &in, const T *out, uint32_t bs, ReduceOp op, const std::string &what) {
    Fold<T> f{ op }; uint32_t n = (uint32_t) in.size();
    for (uint32_t b = 0; b * (uint64_t) bs < n; ++b) {
        auto a = f.init();
        for (uint64_t j = b * (uint64_t) bs; j < std::min<uint64_t>(n, (b + 1ull) * bs); ++j) a = f.step(a, in[j]);
        if (!f.same(a, out[b])) { H::violation("block-reduce", "%s: block %u is %s, expected %s", what.c_str(), b, sv(out[b]).c_str(), f.str(a).c_str()); return; }
        H::stat("reduction_results");
    }
}
template <typename T> static void check_prefix(const std::vector<T> &in, const T *out, uint32_t bs, ReduceOp op, bool excl, bool rev, const std::string &what) {
    Fold<T> f{ op }; uint32_t n = (uint32_t) in.size();
    for (uint64_t b = 0; b < n; b += bs) {
        auto a = f.init(); uint64_t e = std::min<uint64_t>(n, b + bs);
        for (uint64_t q = b; q < e; ++q) {
            uint64_t j = rev ? e - 1 - (q - b) : q;
            auto p = a; a = f.step(a, in[j]);
            if (!f.same(excl ? p : a, out[j])) { H::violation("prefix-reduce", "%s: entry %llu is %s, expected %s", what.c_str(), (unsigned long long) j, sv(out[j]).c_str(), f.str(excl ? p : a).c_str()); return; }
        }
    }
    H::stat("prefix_results", n);
}
template <typename T> static std::vector<T> as(uint32_t idx) {
    if (!idx) return {};
    auto raw = fetch_raw(idx); std::vector<T> v(raw.size() / sizeof(T)); memcpy((void *) v.data(), raw.data(), raw.size()); return v;
}
template <typename T> static void raw_case(Rng &r) {
    VarType vt = VTOf<T>::v_;
    uint32_t n = pick_size(r), bs = pick_block(r, n);
    ReduceOp op = pick_op(r, FLT<T>);
    auto v = values<T>(r, n, op);
    GuardBuf in(n * sizeof(T), r.chance(.8)); memcpy(in.ptr, (void *) v.data(), n * sizeof(T));
    if (r.chance(.5)) {
        uint32_t m = (n + bs - 1) / bs;
        GuardBuf out(m * sizeof(T), r.chance(.8));
        std::string what = H::fmt("jit_block_reduce(%s, %s, size=%u, block_size=%u, pool=%d)", type_nm(vt), opn(op), n, bs, poolsz);
        H::distinct(H::hash_str(what));

        if (bs == n && r.chance(.5)) jit_reduce(LLVM, vt, op, in.ptr, n, out.ptr); else jit_block_reduce(LLVM, vt, op, n, bs, in.ptr, out.ptr);
        jit_sync_thread();
        check_blocks<T>(v, (T *) out.ptr, bs, op, what);
        if (memcmp(in.ptr, (void *) v.data(), n * sizeof(T))) H::violation("input-modified", "%s", what.c_str());
    } else {
        bool ex = r.chance(.5), rev = r.chance(.5), inpl = r.chance(.3);
        GuardBuf out(n * sizeof(T), r.chance(.8));
        void *dst = inpl ? in.ptr : out.ptr;
        std::string what = H::fmt("jit_block_prefix_reduce(%s, %s, size=%u, block_size=%u, exclusive=%d, reverse=%d, inplace=%d, pool=%d)", type_nm(vt), opn(op), n, bs, ex, rev, inpl, poolsz);
        H::distinct(H::hash_str(what));
        jit_block_prefix_reduce(LLVM, vt, op, bs, n, ex, rev, in.ptr, dst);
        jit_sync_thread();
        check_prefix<T>(v, (T *) dst, bs, op, ex, rev, what);
        if (!inpl && memcmp(in.ptr, (void *) v.data(), n * sizeof(T))) H::violation("input-modified", "%s", what.c_str());
        if (r.chance(.02)) H::sample(what);
    }
}
/// A variable with the given contents: evaluated, unevaluated, or dirty
template <typename T> static Var make(Rng &r, const std::vector<T> &v) {
    VarType vt = VTOf<T>::v_; Var x = copy_in(vt, v.data(), v.size());
    switch (r.below(3)) {
        case 0: return x;
        case 1: { // unevaluated copy
            Var idx = steal(jit_var_counter(LLVM, v.size()));
            return steal(jit_var_gather(x, idx, lit_bool(true)));
        }
        default: { // pending scatter
            if (v.size() < 2) return x;
            uint32_t k = r.below(v.size()); std::vector<T> w = v; w[k] = (T) 1;
            Var y = copy_in(vt, w.data(), w.size());
            Var val = copy_in(vt, &v[k], 1);
            return steal(jit_var_scatter(y, val, lit_u32(k), lit_bool(true)));
        }
    }
}
template <typename T> static void var_case(Rng &r) {
    VarType vt = VTOf<T>::v_;
    uint32_t n = pick_size(r), bs = pick_block(r, n);
    ReduceOp op = pick_op(r, FLT<T>);
    bool literal = r.chance(.35);
    std::vector<T> v = literal ? std::vector<T>(n) : values<T>(r, n, op);
    if (literal) {
        T c;
        if constexpr (FLT<T>) c = op == ReduceOp::Mul ? (T) (r.chance(.3) ? 0.0 : r.chance(.5) ? 1.0 : -1.0) : (T) (double) ((int) r.below(5) - 2);
        else c = (T) (r.next() >> r.below(64));
        if constexpr (FLT<T>) if (op == ReduceOp::Add) { double lim = std::is_same_v<T, half> ? 2048 : 16e6; if (std::fabs(D_(c)) * n > lim) c = (T) 0.0; }
        for (auto &x : v) x = c;
    }
    Var x = literal ? [&] { uint64_t b = 0; memcpy(&b, (void *) &v[0], sizeof(T)); return lit(vt, b, n); }() : make<T>(r, v);
    int which = r.below(6); if (which == 5) which = 4;
    std::string src = literal ? "literal" : "array";
    if (which == 0 && op != ReduceOp::And && op != ReduceOp::Or) {
        std::string what = H::fmt("jit_var_reduce(%s %s, %s, size=%u, pool=%d)", src.c_str(), type_nm(vt), opn(op), n, poolsz);
        H::distinct(H::hash_str(what));
        Var y = steal(jit_var_reduce(r.chance(.5) ? LLVM : JitBackend::None, r.chance(.5) ? vt : VarType::Void, op, x));
        auto o = as<T>(y);
        if (o.size() != 1 || jit_var_type(y) != vt) { H::violation("shape", "%s: size %zu", what.c_str(), o.size()); return; }
        check_blocks<T>(v, o.data(), n, op, what);
    } else if (which <= 2) {
        int sym = (int) r.below(3) - 1;
        if (sym == 1 && !jit_can_scatter_reduce(LLVM, vt, op)) sym = -1;
        if (sym == 1 && !literal && FLT<T> && (op == ReduceOp::Min || op == ReduceOp::Max) && std::is_same_v<T, half>) sym = 0;
        std::string what = H::fmt("jit_var_block_reduce(%s %s, %s, size=%u, block_size=%u, symbolic=%d, pool=%d)", src.c_str(), type_nm(vt), opn(op), n, bs, sym, poolsz);
        H::distinct(H::hash_str(what));
        Var y = steal(jit_var_block_reduce(op, x, bs, sym));
        auto o = as<T>(y);
        if (o.size() != (n + bs - 1) / bs || jit_var_type(y) != vt) { H::violation("shape", "%s: size %zu", what.c_str(), o.size()); return; }
        check_blocks<T>(v, o.data(), bs, op, what);
    } else if (which == 3) {
        bool ex = r.chance(.5), rev = r.chance(.5);
        std::string what = H::fmt("jit_var_block_prefix_reduce(%s %s, %s, size=%u, block_size=%u, exclusive=%d, reverse=%d, pool=%d)", src.c_str(), type_nm(vt), opn(op), n, bs, ex, rev, poolsz);
        H::distinct(H::hash_str(what));
        Var y = steal(jit_var_block_prefix_reduce(op, x, bs, ex, rev));
        auto o = as<T>(y);
        if (o.size() != n || jit_var_type(y) != vt) { H::violation("shape", "%s: size %zu", what.c_str(), o.size()); return; }
        check_prefix<T>(v, o.data(), bs, op, ex, rev, what);
    } else if (!FLT<T> || r.chance(.4)) { // tile / repeat
        uint32_t k = 1 + r.below(5); if (n > 4 * B) k = 1 + r.below(2);
        bool tile = r.chance(.5); size_t mx = !tile && r.chance(.4) ? 1 + r.below(n * k + 5) : 0;
        std::string what = H::fmt("%s(%s %s, size=%u, count=%u, max=%zu)", tile ? "jit_var_tile" : "jit_var_repeat", src.c_str(), type_nm(vt), n, k, mx);
        H::distinct(H::hash_str(what));
        Var y = steal(tile ? jit_var_tile(x, k) : jit_var_repeat(x, k, mx));
        size_t want = (size_t) n * k; if (mx && want > mx) want = mx;
        auto o = as<T>(y);
        if (o.size() != want && !(literal && o.size() == 1)) { H::violation("shape", "%s: size %zu", what.c_str(), o.size()); return; }
        for (size_t i = 0; i < o.size(); ++i) {
            T w = tile ? v[i % n] : v[i / k];
            if (memcmp((void *) &w, (void *) &o[i], sizeof(T))) { H::violation("tile-repeat", "%s: entry %zu is %s, expected %s", what.c_str(), i, sv(o[i]).c_str(), sv(w).c_str()); return; }
        }
        H::stat("tile_repeat_elements", o.size());
    } else if constexpr (FLT<T>) { // dot
        auto a = values<T>(r, n, ReduceOp::Add); for (auto &q : a) if (D_(q) != D_(q) || std::fabs(D_(q)) > 1e30) q = (T) 0.0;
        uint32_t m = r.chance(.15) ? 1 : n;
        std::vector<T> b(m); for (auto &q : b) q = (T) (double) ((int) r.below(3) - 1);
        Var xa = make<T>(r, a), xb;
        if (r.chance(.3)) { for (auto &q : b) q = b[0]; uint64_t bits = 0; memcpy(&bits, (void *) &b[0], sizeof(T)); xb = lit(vt, bits, m); } else xb = make<T>(r, b);
        std::string what = H::fmt("jit_var_reduce_dot(%s, size=%u/%u, pool=%d)", type_nm(vt), n, m, poolsz);
        H::distinct(H::hash_str(what));
        bool swap = r.chance(.5);
        Var y = steal(jit_var_reduce_dot(swap ? xb : xa, swap ? xa : xb));
        double w = 0; for (uint32_t i = 0; i < n; ++i) w += D_(a[i]) * D_(b[m == 1 ? 0 : i]);
        auto o = as<T>(y);
        if (o.size() != 1 || D_(o[0]) != w) { H::violation("dot", "%s: %g, expected %g", what.c_str(), o.empty() ? NAN : D_(o[0]), w); return; }
        H::stat("dot_products");
    }
}
static std::vector<uint8_t> mask_bits(Rng &r, uint32_t n, int *kind = nullptr) {
    std::vector<uint8_t> m(n); int k = r.below(6); if (kind) *kind = k;
    double p = k == 0 ? 0 : k == 1 ? 1 : r.uniform();
    for (auto &x : m) x = r.chance(p);
    if (k == 2) { std::fill(m.begin(), m.end(), 0); m[r.below(n)] = 1; }
    if (k == 3) { std::fill(m.begin(), m.end(), 1); m[r.below(n)] = 0; }
    return m;
}
static void mask_case(Rng &r) {
    uint32_t n = pick_size(r); auto m = mask_bits(r, n);
    std::vector<uint32_t> want; for (uint32_t i = 0; i < n; ++i) if (m[i]) want.push_back(i);
    if (r.chance(.4)) {
        GuardBuf in(n), out(n * 4);
        memcpy(in.ptr, m.data(), n);
        uint32_t c = jit_compress(LLVM, in.ptr, n, (uint32_t *) out.ptr);
        std::string what = H::fmt("jit_compress(size=%u, active=%zu, pool=%d)", n, want.size(), poolsz);
        H::distinct(H::hash_str(what));
        if (c != want.size() || (c && memcmp(out.ptr, want.data(), c * 4))) { H::violation("compress", "%s returned %u", what.c_str(), c); return; }
        if (memcmp(in.ptr, m.data(), n)) H::violation("input-modified", "%s", what.c_str());
        H::stat("compressions");
        return;
    }
    bool all = want.size() == n, any = !want.empty();
    Var x; std::string src;
    switch (r.below(5)) {
        case 0: x = copy_in(VarType::Bool, m.data(), n); src = "array"; break;
        case 1: { // unevaluated
            std::vector<uint32_t> u(n); for (uint32_t i = 0; i < n; ++i) u[i] = m[i] ? 5 + r.below(100) : r.below(5);
            Var a = copy_in(VarType::UInt32, u.data(), n); x = steal(jit_var_ge(a, lit_u32(5))); src = "expression"; break;
        }
        case 2: { bool b = r.chance(.5); x = lit_bool(b, n); all = any = b; want.clear(); if (b) for (uint32_t i = 0; i < n; ++i) want.push_back(i); src = "literal"; break; }
        case 3: { x = steal(jit_var_mask_default(LLVM, n)); all = any = true; want.clear(); for (uint32_t i = 0; i < n; ++i) want.push_back(i); src = "default mask"; break; }
        default: { // pending scatter
            uint32_t k = r.below(n); auto w = m; w[k] ^= 1; Var y = copy_in(VarType::Bool, w.data(), n);
            x = steal(jit_var_scatter(y, copy_in(VarType::Bool, &m[k], 1), lit_u32(k), lit_bool(true))); src = "dirty array"; break;
        }
    }
    int which = r.below(5);
    const char *names[] = { "jit_var_all", "jit_var_any", "jit_var_all_async", "jit_var_any_async", "jit_var_compress" };
    std::string what = H::fmt("%s(%s, size=%u, active=%zu, pool=%d)", names[which], src.c_str(), n, want.size(), poolsz);
    H::distinct(H::hash_str(what));
    if (which == 0 || which == 1) {
        int g = which == 0 ? jit_var_all(x) : jit_var_any(x);
        if ((bool) g != (which == 0 ? all : any)) H::violation("any-all", "%s = %d", what.c_str(), g);
    } else if (which < 4) {
        Var y = steal(which == 2 ? jit_var_all_async(LLVM, x) : jit_var_any_async(LLVM, x));
        auto o = fetch(y);
        if (jit_var_type(y) != VarType::Bool || o.size() != 1 || o[0] != (uint64_t) (which == 2 ? all : any)) H::violation("any-all", "%s = %d", what.c_str(), o.empty() ? -1 : (int) o[0]);
    } else {
        Var y = steal(jit_var_compress(x));
        auto o = as<uint32_t>(y);
        if (y == 0 ? !want.empty() : (o != want || jit_var_type(y) != VarType::UInt32)) { H::violation("compress", "%s: %zu entries", what.c_str(), o.size()); return; }
    }
    // the mask itself must be unchanged
    std::vector<uint64_t> back; if (x) back = fetch(x); size_t bad = 0; std::vector<uint8_t> cur(n, 0); for (auto i : want) cur[i] = 1;
    for (size_t i = 0; i < back.size() && back.size() == n; ++i) bad += back[i] != cur[i];
    if (bad && src != "default mask") H::violation("input-modified", "%s", what.c_str());
    H::stat("mask_reductions");
}
static void perm_case(Rng &r) {
    uint32_t n = pick_size(r), bs = r.chance(.5) ? n : pick_block(r, n), nb = 1 + r.below(r.pick({ 3u, 20u, 300u, 3000u }));
    if (r.chance(.1)) bs = n + r.below(10);
    std::vector<uint32_t> v(n); uint32_t lo = r.below(nb), span = 1 + r.below(nb - lo);
    for (auto &x : v) x = lo + r.below(span);
    bool offs = bs >= n && r.chance(.7);
    if (offs) bs = n;
    if (!offs && (n + bs - 1) / bs > 3000) bs = n / 100 + 1;
    if ((uint64_t) ((n + bs - 1) / bs) * nb > 4000000) nb = lo + span, bs = n;
    GuardBuf in(n * 4), perm(n * 4), off(((size_t) nb * 4 + 1) * 4);
    memcpy(in.ptr, v.data(), n * 4);
    std::string what = H::fmt("jit_block_mkperm(size=%u, block_size=%u, buckets=%u, offsets=%d, pool=%d)", n, bs, nb, offs, poolsz);
    H::distinct(H::hash_str(what));
    uint32_t u = jit_block_mkperm(LLVM, (uint32_t *) in.ptr, n, bs, nb, (uint32_t *) perm.ptr, offs ? (uint32_t *) off.ptr : nullptr);
    jit_sync_thread();
    const uint32_t *p = (uint32_t *) perm.ptr, *o = (uint32_t *) off.ptr;
    std::vector<uint8_t> seen(n, 0);
    for (uint64_t g = 0; g < n; g += bs) {
        uint64_t e = std::min<uint64_t>(n, g + bs);
        std::vector<std::pair<uint32_t, uint32_t>> last; // stability within 32-element groups
        for (uint64_t i = g; i < e; ++i) {
            if (p[i] < g || p[i] >= e || seen[p[i]]) { H::violation("mkperm", "%s: entry %llu = %u is not a permutation", what.c_str(), (unsigned long long) i, p[i]); return; }
            seen[p[i]] = 1;
            if (i > g && v[p[i]] < v[p[i - 1]]) { H::violation("mkperm", "%s: not sorted at %llu", what.c_str(), (unsigned long long) i); return; }
        }
        std::vector<uint32_t> pos(e - g); for (uint64_t i = g; i < e; ++i) pos[p[i] - g] = (uint32_t) (i - g);
        for (uint64_t a = 0; a < e - g; a += 32)
            for (uint64_t i = a; i < std::min<uint64_t>(a + 32, e - g); ++i)
                for (uint64_t j = i + 1; j < std::min<uint64_t>(a + 32, e - g); ++j)
                    if (v[g + i] == v[g + j] && pos[i] > pos[j]) { H::violation("mkperm", "%s: unstable", what.c_str()); return; }
    }
    if (offs) {
        std::map<uint32_t, std::pair<uint32_t, uint32_t>> want; uint32_t start = 0; std::vector<uint32_t> cnt(nb); for (auto x : v) cnt[x]++;
        for (uint32_t k = 0; k < nb; ++k) if (cnt[k]) { want[k] = { start, cnt[k] }; start += cnt[k]; }
        if (u != want.size()) { H::violation("mkperm", "%s returned %u, expected %zu", what.c_str(), u, want.size()); return; }
        for (uint32_t k = 0; k < u; ++k) {
            auto it = want.find(o[k * 4]);
            if (it == want.end() || it->second.first != o[k * 4 + 1] || it->second.second != o[k * 4 + 2]) { H::violation("mkperm", "%s: wrong offset record %u", what.c_str(), k); return; }
            want.erase(it);
        }
    } else if (u != 0 && bs < n) H::violation("mkperm", "%s returned %u", what.c_str(), u);
    if (memcmp(in.ptr, v.data(), n * 4)) H::violation("input-modified", "%s", what.c_str());
    H::stat("permutations");
}
static void empty_case(Rng &r) {
    VarType ts[] = { VarType::UInt8, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
    VarType vt = r.pick(ts); ReduceOp op = pick_op(r, true);
    Var y = steal(jit_var_reduce(LLVM, vt, op, 0));
    uint64_t want = 0;
    auto put = [&](auto z) { using T = decltype(z); Fold<T> f{ op }; auto a = f.init(); T t; if constexpr (FLT<T>) t = (T) a; else t = (T) a; memcpy(&want, (void *) &t, sizeof(T)); };
    switch (vt) { case VarType::UInt8: put((uint8_t) 0); break; case VarType::Int32: put((int32_t) 0); break; case VarType::UInt32: put((uint32_t) 0); break; case VarType::Int64: put((int64_t) 0); break;
        case VarType::UInt64: put((uint64_t) 0); break; case VarType::Float16: put(half(0)); break; case VarType::Float32: put(0.f); break; default: put(0.0); break; }
    auto o = fetch(y);
    if (o.size() != 1 || o[0] != want || jit_var_type(y) != vt) H::violation("identity", "jit_var_reduce(%s, %s) of an empty array", type_nm(vt), opn(op));
    if (!jit_var_all(0) || jit_var_any(0) || jit_var_compress(0) || jit_var_block_reduce(op, 0, 3, 0) || jit_var_block_prefix_reduce(op, 0, 3, 0, 0) || jit_var_tile(0, 3) || jit_var_repeat(0, 3) || jit_var_reduce_dot(0, 0))
        H::violation("empty", "reduction of an empty array");
    if (fetch(steal(jit_var_all_async(LLVM, 0)))[0] != 1 || fetch(steal(jit_var_any_async(LLVM, 0)))[0] != 0) H::violation("empty", "asynchronous any/all of an empty array");
    H::stat("empty_inputs");
}
static void fill_case(Rng &r) {
    if (r.chance(.35)) { // aggregate
        uint32_t n = r.chance(.2) ? B + r.below(B) : 1 + r.below(40);
        std::vector<AggregationEntry> e(n); std::vector<uint8_t> want; std::vector<uint64_t> srcs(n);
        size_t off = 0;
        for (uint32_t i = 0; i < n; ++i) {
            int s = 1 << r.below(4); off = (off + s - 1) / s * s; if (r.chance(.2)) off += s * r.below(4);
            srcs[i] = r.next(); bool ptr = r.chance(.5);
            e[i].size = (int16_t) (ptr ? -s : s); e[i].resource_kind = 0; e[i].offset = (uint32_t) off; e[i].src = ptr ? (const void *) &srcs[i] : (const void *) (uintptr_t) srcs[i];
            off += s;
        }
        want.assign(off, 0x77); for (uint32_t i = 0; i < n; ++i) memcpy(want.data() + e[i].offset, &srcs[i], std::abs(e[i].size));
        off = (off + 7) / 8 * 8; want.resize(off, 0x77);
        GuardBuf dst(off); memset(dst.ptr, 0x77, off);
        AggregationEntry *p = (AggregationEntry *) jit_malloc(JitBackend::LLVM, n * sizeof(AggregationEntry)); memcpy((void *) p, e.data(), n * sizeof(AggregationEntry));
        jit_aggregate(LLVM, dst.ptr, p, n);
        jit_sync_thread(); jit_free(p);
        if (memcmp(dst.ptr, want.data(), off)) H::violation("aggregate", "jit_aggregate(size=%u, pool=%d)", n, poolsz);
        H::distinct(H::hash_str(H::fmt("agg %u %zu", n, off))); H::stat("aggregations", n);
        return;
    }
    uint32_t is = 1u << r.below(4), n = pick_size(r); uint64_t val = r.chance(.3) ? 0 : r.chance(.3) ? r.below(256) : r.next();
    GuardBuf dst((size_t) n * is);
    uint8_t *p = dst.ptr;
    if (r.chance(.5)) {
        jit_memset_async(LLVM, p, n, is, &val); jit_sync_thread();
        for (uint32_t i = 0; i < n; ++i) if (memcmp(p + (size_t) i * is, &val, is)) { H::violation("memset", "jit_memset_async(size=%u, isize=%u, value=0x%llx): entry %u", n, is, (unsigned long long) val, i); return; }
    } else {
        GuardBuf src((size_t) n * is); for (size_t i = 0; i < (size_t) n * is; i += 7) src.ptr[i] = (uint8_t) r.next();
        bool as_ = r.chance(.5);
        if (as_) { jit_memcpy_async(LLVM, p, src.ptr, (size_t) n * is); jit_sync_thread(); } else jit_memcpy(LLVM, p, src.ptr, (size_t) n * is);
        if (memcmp(p, src.ptr, (size_t) n * is)) H::violation("memcpy", "jit_memcpy%s(size=%zu)", as_ ? "_async" : "", (size_t) n * is);
    }
    H::distinct(H::hash_str(H::fmt("fill %u %u %llx", n, is, (unsigned long long) val))); H::stat("fills");
}
template <typename F> static void typed(Rng &r, F &&f) {
    switch (r.below(8)) {
        case 0: f((uint8_t) 0); break; case 1: f((int32_t) 0); break; case 2: f((uint32_t) 0); break; case 3: f((int64_t) 0); break;
        case 4: f((uint64_t) 0); break; case 5: f(half(0)); break; case 6: f(0.f); break; default: f(0.0); break;
    }
}
int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    jit_set_flag(JitFlag::FastMath, 0);
    poolsz = (int) pool_size();
    if (H::opt.count("pool")) poolsz = (int) H::optu("pool", 1);
    H::loop([&](uint64_t, Rng &r) {
        B = r.pick({ 64u, 256u, 1024u, 4096u, 16384u }); jit_llvm_set_block_size(B);
        if (r.chance(.3)) nt_chaos(r.next(), 1 + r.below(2)); else nt_chaos(0, 0);
        switch (r.below(10)) {
            case 0: case 1: case 2: typed(r, [&](auto z) { raw_case<decltype(z)>(r); }); break;
            case 3: case 4: case 5: typed(r, [&](auto z) { var_case<decltype(z)>(r); }); break;
            case 6: mask_case(r); break;
            case 7: case 8: perm_case(r); break;
            default: r.chance(.1) ? empty_case(r) : fill_case(r); break;
        }
    });
    nt_chaos(0, 0);
    jit_shutdown(0);
    return H::finish();
}
