// Half precision type against an independently written integer reference (exhaustive over float inputs).
#define DRJIT_INCLUDE_FLOAT16_FALLBACK 1
#include "common.h"
#include <cfenv>

static inline uint16_t ref_f2h(uint32_t b) {   // round to nearest even, integer arithmetic only
    uint32_t s = b >> 31 << 15, e = b >> 23 & 0xff, m = b & 0x7fffff;
    if (e == 0xff) return (uint16_t) (s | 0x7c00 | (m ? 0x200 : 0));
    if (e == 0) return (uint16_t) s;                       // below 2^-126
    int x = (int) e - 127;
    uint64_t sig = m | 0x800000;                           // value = sig * 2^(x-23)
    int q = x < -14 ? -24 : x - 10;                        // exponent of the result's last place
    int sh = q - (x - 23);                                 // bits to drop (>= 13)
    if (sh > 40) return (uint16_t) s;
    uint64_t k = sig >> sh, rem = sig & ((1ull << sh) - 1), half_ = 1ull << (sh - 1);
    if (rem > half_ || (rem == half_ && (k & 1))) k++;
    // k < 2^11 (+1); value = k * 2^q
    if (x < -14) return (uint16_t) (s | k);                // may carry into the normal range, encoded correctly
    uint32_t r = (uint32_t) ((x + 15) << 10) + (uint32_t) (k - 1024);
    return (uint16_t) (s | (r >= 0x7c00 ? 0x7c00 : r));
}
static inline bool h_nan(uint16_t h) { return (h & 0x7fff) > 0x7c00; }
static inline double ref_h2d(uint16_t h) {
    int e = h >> 10 & 31, m = h & 1023; double v;
    if (e == 31) v = m ? NAN : INFINITY; else if (e == 0) v = std::ldexp((double) m, -24); else v = std::ldexp((double) (m | 1024), e - 25);
    return h & 0x8000 ? -v : v;
}
static inline uint32_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline uint16_t ref_of(float f) { return ref_f2h(fb(f)); }

static void bad(const char *key, const char *what, uint64_t in, uint64_t got, uint64_t want) {
    if (H::violations < H::max_violations) H::violation(key, "%s: input 0x%llx gave 0x%llx, expected 0x%llx", what, (unsigned long long) in, (unsigned long long) got, (unsigned long long) want);
}
#ifndef STRIDE
#define STRIDE 1
#endif
static void conv_chunk(uint64_t c, uint64_t n_chunks) {
    uint64_t lo = (1ull << 32) * c / n_chunks, hi = (1ull << 32) * (c + 1) / n_chunks;
    for (uint64_t i = lo; i < hi; i += STRIDE) {
        uint32_t b = (uint32_t) i;
        uint16_t w = ref_f2h(b), g1 = half::float32_to_float16(bf(b)), g2 = half::float32_to_float16_fallback(bf(b));
        if (__builtin_expect(g1 != w || g2 != w, 0)) {
            if (h_nan(w)) { if (!h_nan(g1) || !h_nan(g2)) bad("nan-lost", "float->half", b, h_nan(g1) ? g2 : g1, w); }
            else if (g1 != w) bad("f2h", "float->half", b, g1, w);
            else bad("f2h-fallback", "float->half (fallback)", b, g2, w);
            if (H::violations >= H::max_violations) return;
        }
    }
    H::stat("float_inputs", (hi - lo) / STRIDE);
}
static void all_halfs() {
    for (uint32_t h = 0; h < 65536; ++h) {
        float f1 = half::float16_to_float32((uint16_t) h), f2 = half::float16_to_float32_fallback((uint16_t) h);
        half x = half::from_binary((uint16_t) h); float f3 = (float) x;
        double w = ref_h2d((uint16_t) h);
        for (float f : { f1, f2, f3 }) {
            if (w != w ? f == f : (fb(f) != fb((float) w))) bad("h2f", "half->float", h, fb(f), fb((float) w));
        }
        if (x.value != h) bad("bits", "from_binary", h, x.value, h);
        if (w == w) {
            if (half(f1).value != h) bad("roundtrip", "half->float->half", h, half(f1).value, h);
            if (half((double) f1).value != h) bad("roundtrip-double", "half->double->half", h, half((double) f1).value, h);
            if (half::float32_to_float16_fallback(f2) != h) bad("roundtrip-fallback", "half->float->half", h, half::float32_to_float16_fallback(f2), h);
        }
        half n = -x;
        if (n.value != (h ^ 0x8000)) bad("neg", "negation", h, n.value, h ^ 0x8000);
        half c(x), d; d = x; half e(std::move(c));
        if (d.value != h || e.value != h) bad("copy", "copy", h, d.value, h);
        double v = w;
        if (v == v) {
            if ((double) (float) x != v || (double) x != v || (x == x) != true || (x != x)) bad("cmp-self", "self comparison", h, 0, 0);
            if (std::fabs(v) < 1e9 && (int64_t) (float) x != (int64_t) v) bad("int", "conversion to integer", h, 0, 0);
        } else if ((x == x) || !(x != x) || (x < x) || (x <= x)) bad("nan-cmp", "NaN comparison", h, 0, 0);
        if ((bool) (float) x != (v != 0 || v != v)) bad("bool", "conversion to bool", h, 0, 0);
    }
    H::stat("half_inputs", 65536);
}
template <typename T> static void from_type(Rng &r, int n) {
    for (int i = 0; i < n; ++i) {
        T v;
        if constexpr (std::is_integral_v<T>) { uint64_t q = r.next() >> r.below(64); v = (T) (r.chance(.5) ? q : 0 - q); }
        else {
            uint64_t q = r.next(); if (sizeof(T) == 4) q >>= 32;
            if (r.chance(.6)) { double d = ref_h2d((uint16_t) r.next()); d = d == d ? d * (1 + (r.uniform() - .5) * 2e-3) : 1; T t = (T) d; v = t; }
            else memcpy(&v, &q, sizeof(T));
        }
        float f = (float) v;
        uint16_t w = ref_of(f), g = half(v).value;
        if (h_nan(w) ? !h_nan(g) : g != w) bad("from-type", typeid(T).name(), fb(f), g, w);
        // mixed arithmetic: computed as float, rounded once
        half a = half::from_binary((uint16_t) r.next());
        float fa = (float) ref_h2d(a.value), fv = (float) v;
        struct { uint16_t g; float w; const char *n; } t[] = { { (a + v).value, fa + fv, "+" }, { (a - v).value, fa - fv, "-" }, { (a * v).value, fa * fv, "*" }, { (a / v).value, fa / fv, "/" } };
        for (auto &x : t) { uint16_t w2 = ref_of(x.w); if (h_nan(w2) ? !h_nan(x.g) : x.g != w2) bad("mixed", x.n, fb(fv), x.g, w2); }
        if ((a == v) != (fa == fv) || (a != v) != (fa != fv) || (a < v) != (fa < fv) || (a > v) != (fa > fv) || (a <= v) != (fa <= fv) || (a >= v) != (fa >= fv))
            bad("mixed-cmp", typeid(T).name(), fb(fv), a.value, 0);
    }
    H::stat("mixed_operations", (uint64_t) n * 10);
}
static void pair_ops(uint16_t a, uint16_t b) {
    half x = half::from_binary(a), y = half::from_binary(b);
    float fa = (float) ref_h2d(a), fb_ = (float) ref_h2d(b);
    half z[8] = { x + y, x - y, x * y, x / y, x, x, x, x };
    z[4] += y; z[5] -= y; z[6] *= y; z[7] /= y;
    float w[4] = { fa + fb_, fa - fb_, fa * fb_, fa / fb_ };
    for (int i = 0; i < 8; ++i) {
        uint16_t q = ref_of(w[i & 3]), g = z[i].value;
        if (__builtin_expect(g != q, 0) && !(h_nan(q) && h_nan(g))) bad("op", i < 4 ? &"+-*/"[i] : "compound assignment", (uint64_t) a << 16 | b, g, q);
    }
    bool c[6] = { x == y, x != y, x < y, x > y, x <= y, x >= y }, d[6] = { fa == fb_, fa != fb_, fa < fb_, fa > fb_, fa <= fb_, fa >= fb_ };
    if (memcmp(c, d, 6)) bad("compare", "comparison", (uint64_t) a << 16 | b, c[0] | c[1] << 1 | c[2] << 2 | c[3] << 3 | c[4] << 4 | c[5] << 5, d[0] | d[1] << 1 | d[2] << 2 | d[3] << 3 | d[4] << 4 | d[5] << 5);
}
enum class E8 : uint8_t { a }; enum class E32s : int32_t { a }; enum class E64 : uint64_t { a };
static void traits() {
    using namespace drjit;
    auto T = [](const char *n, bool ok) { if (!ok) H::violation("traits", "%s", n); H::stat("trait_queries"); };
#define TT(x) T(#x, (x))
    TT(detail::is_signed_v<half>); TT(!detail::is_unsigned_v<half>); TT(detail::is_floating_point_v<half>); TT(detail::is_arithmetic_v<half>);
    TT(detail::is_scalar_v<half>); TT(!detail::is_integral_v<half>); TT(sizeof(half) == 2); TT(alignof(half) == 2);
    TT(var_type<half>::value == VarType::Float16); TT(var_type<float>::value == VarType::Float32); TT(var_type<double>::value == VarType::Float64);
    TT(var_type<bool>::value == VarType::Bool); TT(var_type<int8_t>::value == VarType::Int8); TT(var_type<uint8_t>::value == VarType::UInt8);
    TT(var_type<int16_t>::value == VarType::Int16); TT(var_type<uint16_t>::value == VarType::UInt16); TT(var_type<int32_t>::value == VarType::Int32);
    TT(var_type<uint32_t>::value == VarType::UInt32); TT(var_type<int64_t>::value == VarType::Int64); TT(var_type<uint64_t>::value == VarType::UInt64);
    TT(var_type<long>::value == VarType::Int64); TT(var_type<unsigned long long>::value == VarType::UInt64); TT(var_type<signed char>::value == VarType::Int8);
    TT(var_type<int *>::value == VarType::UInt32); TT(var_type<E8>::value == VarType::UInt8); TT(var_type<E32s>::value == VarType::Int32); TT(var_type<E64>::value == VarType::UInt64);
    struct S { }; TT(var_type<S>::value == VarType::Void);
    TT(detail::is_signed_v<int>); TT(detail::is_unsigned_v<uint8_t>); TT(detail::is_floating_point_v<double>); TT(detail::is_integral_v<bool>); TT(!detail::is_signed_v<bool>);
    TT(detail::is_arithmetic_v<float>); TT(detail::is_scalar_v<int *>); TT(!detail::is_arithmetic_v<S>); TT(!detail::is_floating_point_v<int>); TT(!detail::is_unsigned_v<float>);
    using C = detail::constants<half>;
    const long double pi = 3.14159265358979323846264338327950288L;
    struct { const char *n; half h; long double v; } cs[] = {
        { "E", C::E, expl(1.0L) }, { "LogTwo", C::LogTwo, logl(2.0L) }, { "InvLogTwo", C::InvLogTwo, 1 / logl(2.0L) }, { "Pi", C::Pi, pi }, { "InvPi", C::InvPi, 1 / pi },
        { "SqrtPi", C::SqrtPi, sqrtl(pi) }, { "InvSqrtPi", C::InvSqrtPi, 1 / sqrtl(pi) }, { "TwoPi", C::TwoPi, 2 * pi }, { "InvTwoPi", C::InvTwoPi, 1 / (2 * pi) },
        { "SqrtTwoPi", C::SqrtTwoPi, sqrtl(2 * pi) }, { "InvSqrtTwoPi", C::InvSqrtTwoPi, 1 / sqrtl(2 * pi) }, { "FourPi", C::FourPi, 4 * pi }, { "InvFourPi", C::InvFourPi, 1 / (4 * pi) },
        { "SqrtFourPi", C::SqrtFourPi, sqrtl(4 * pi) }, { "InvSqrtFourPi", C::InvSqrtFourPi, 1 / sqrtl(4 * pi) }, { "SqrtTwo", C::SqrtTwo, sqrtl(2.0L) }, { "InvSqrtTwo", C::InvSqrtTwo, 1 / sqrtl(2.0L) },
        { "Infinity", C::Infinity, INFINITY }, { "OneMinusEpsilon", C::OneMinusEpsilon, 1 - ldexpl(1, -11) } };
    for (auto &c : cs) {   // nearest representable value
        long double d = fabsl((long double) ref_h2d(c.h.value) - c.v);
        bool ok = c.h.value == 0x7c00 ? c.v > 1e30L : d <= fabsl((long double) ref_h2d((uint16_t) (c.h.value + 1)) - c.v) && d <= fabsl((long double) ref_h2d((uint16_t) (c.h.value - 1)) - c.v);
        if (!ok) H::violation("constant", "%s = 0x%x", c.n, c.h.value);
        H::stat("constants");
    }
    if (!h_nan(C::NaN.value) || !h_nan(detail::debug_init<half>::value.value)) H::violation("constant", "NaN");
}
static const uint16_t special_h[] = { 0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x401, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0xfe01, 0x7c01, 0x3c00, 0xbc00, 0x3c01, 0x3bff, 0x4000, 0x3800, 0x6400, 0x7800, 0x1400, 0x0200 };

int main(int argc, char **argv) {
    H::args(argc, argv);
    // 64 cases: all floats; then 64 cases over all left operands
    H::loop([&](uint64_t i, Rng &r) {
        if (i < 64) { conv_chunk(i, 64); H::distinct(i); if (i == 0) H::sample("float->half, all bit patterns 0x0 .. 0x3ffffff"); return; }
        if (i == 64) { traits(); all_halfs(); }
        uint32_t k = (uint32_t) (i - 64) & 63, nb = H::thorough() ? 65536 : 700;
        for (uint32_t a = k * 1024; a < (k + 1) * 1024; ++a) {
            for (uint16_t s : special_h) pair_ops((uint16_t) a, s), pair_ops(s, (uint16_t) a);
            if (H::thorough()) for (uint32_t b = 0; b < 65536; ++b) pair_ops((uint16_t) a, (uint16_t) b);
            else for (uint32_t b = 0; b < nb; ++b) pair_ops((uint16_t) a, (uint16_t) (b & 1 ? r.next() : a + (int) r.below(64) - 32));
            if (H::violations >= H::max_violations) return;
        }
        H::stat("operand_pairs", 1024ull * (nb + 48));
        int m = H::thorough() ? 20000 : 600;
        from_type<int8_t>(r, m); from_type<uint8_t>(r, m); from_type<int16_t>(r, m); from_type<uint16_t>(r, m); from_type<int32_t>(r, m); from_type<uint32_t>(r, m);
        from_type<int64_t>(r, m); from_type<uint64_t>(r, m); from_type<float>(r, m * 4); from_type<double>(r, m * 4); from_type<bool>(r, m);
        H::distinct(i);
        if (i == 70) H::sample("half pairs with left operands 0x1800..0x1bff: + - * / and six comparisons, compound assignments, mixed operand types");
    });
    return H::finish();
}
