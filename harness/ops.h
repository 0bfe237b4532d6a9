// Scalar reference semantics of the traced operations. Independent of the library.
#pragma once
#include "common.h"

// ------------------------------------------------------------------ half (independent implementation)
inline float h2f(uint16_t h) {
    uint32_t s = (uint32_t) (h >> 15) << 31, e = (h >> 10) & 31, m = h & 1023, r;
    if (e == 31) r = s | 0x7f800000u | (m << 13);
    else if (e) r = s | ((e + 112) << 23) | (m << 13);
    else { float f = std::ldexp((float) m, -24); memcpy(&r, &f, 4); r |= s; }
    float f; memcpy(&f, &r, 4); return f;
}
inline uint16_t d2h(double d) {  // correctly rounded (RNE)
    uint64_t b; memcpy(&b, &d, 8);
    uint16_t s = (uint16_t) ((b >> 63) << 15);
    if (d != d) return s | 0x7e00;
    double a = std::fabs(d);
    if (a >= 65520.0) return s | 0x7c00;
    if (a == 0) return s;
    int e; std::frexp(a, &e); e -= 1;              // a = m * 2^e, 1 <= m < 2
    if (e < -14) e = -14;
    double q = std::ldexp(a, 10 - e);              // units of the last place
    double fl = std::floor(q), fr = q - fl;
    uint64_t n = (uint64_t) fl;
    if (fr > 0.5 || (fr == 0.5 && (n & 1))) n++;
    // n in [0, 2048]; value n * 2^(e-10)
    if (n >= 2048) { n >>= 1; e++; }
    if (e > 15) return s | 0x7c00;
    if (n < 1024) return s | (uint16_t) n;         // subnormal
    return (uint16_t) (s | ((e + 15) << 10) | (n - 1024));
}
inline uint16_t f2h(float f) { return d2h((double) f); }

template <typename T> inline T frombits(uint64_t b) { T v; memcpy(&v, &b, sizeof(T)); return v; }
template <typename T> inline uint64_t tobits(T v) { uint64_t b = 0; memcpy(&b, &v, sizeof(T)); return b; }

struct F16 { uint16_t v; };

// ------------------------------------------------------------------ operations
enum class Op : int {
    Neg, Not, Sqrt, Abs, Ceil, Floor, Round, Trunc, Popc, Clz, Ctz, Brev, Rcp, Rsqrt,
    Add, Sub, Mul, Div, Mod, MulHi, MulWide, Min, Max, FMin, FMax, Copysign,
    And, Or, Xor, Shl, Shr, Eq, Neq, Lt, Le, Gt, Ge, AndMask, OrMask,
    Fma, Select, Cast, Reinterpret, Count
};
static const char *op_nm[] = { "neg","not","sqrt","abs","ceil","floor","round","trunc","popc","clz","ctz","brev","rcp","rsqrt",
    "add","sub","mul","div","mod","mulhi","mulwide","min","max","fmin","fmax","copysign",
    "and","or","xor","shl","shr","eq","neq","lt","le","gt","ge","andmask","ormask","fma","select","cast","reinterp" };
inline int op_arity(Op o) {
    if (o <= Op::Rsqrt || o == Op::Cast || o == Op::Reinterpret) return 1;
    if (o == Op::Fma || o == Op::Select) return 3;
    return 2;
}
/// Is the operation defined for operand type t? (t: first operand; for Select: the value type)
inline bool op_ok(Op o, VarType t) {
    bool f = is_flt(t), i = is_int(t), b = t == VarType::Bool;
    switch (o) {
        case Op::Neg: case Op::Abs: case Op::Add: case Op::Sub: case Op::Mul: case Op::Div:
        case Op::Min: case Op::Max: case Op::FMin: case Op::FMax: case Op::Fma: return f || i;
        case Op::Copysign: return f || is_sint(t);
        case Op::Not: case Op::And: case Op::Or: case Op::Xor: return i || b || f;
        case Op::Sqrt: case Op::Ceil: case Op::Floor: case Op::Round: case Op::Trunc: case Op::Rcp: case Op::Rsqrt: return f;
        case Op::Popc: case Op::Clz: case Op::Ctz: case Op::Brev: case Op::Mod: case Op::Shl: case Op::Shr: return i;
        case Op::MulHi: return i && type_sz(t) >= 4;
        case Op::MulWide: return i && type_sz(t) == 4;
        case Op::Eq: case Op::Neq: return true;
        case Op::Lt: case Op::Le: case Op::Gt: case Op::Ge: return f || i;
        case Op::AndMask: case Op::OrMask: return f || i;
        case Op::Select: return true;
        default: return false;
    }
}
inline VarType op_rtype(Op o, VarType t) {
    switch (o) {
        case Op::Eq: case Op::Neq: case Op::Lt: case Op::Le: case Op::Gt: case Op::Ge: return VarType::Bool;
        case Op::MulWide: return t == VarType::UInt32 ? VarType::UInt64 : VarType::Int64;
        default: return t;
    }
}
inline bool op_approx(Op o) { return o == Op::Rcp || o == Op::Rsqrt; }

inline uint32_t jit_apply(Op o, VarType rt, const uint32_t *a) {
    switch (o) {
        case Op::Neg: return jit_var_neg(a[0]); case Op::Not: return jit_var_not(a[0]);
        case Op::Sqrt: return jit_var_sqrt(a[0]); case Op::Abs: return jit_var_abs(a[0]);
        case Op::Ceil: return jit_var_ceil(a[0]); case Op::Floor: return jit_var_floor(a[0]);
        case Op::Round: return jit_var_round(a[0]); case Op::Trunc: return jit_var_trunc(a[0]);
        case Op::Popc: return jit_var_popc(a[0]); case Op::Clz: return jit_var_clz(a[0]);
        case Op::Ctz: return jit_var_ctz(a[0]); case Op::Brev: return jit_var_brev(a[0]);
        case Op::Rcp: return jit_var_rcp(a[0]); case Op::Rsqrt: return jit_var_rsqrt(a[0]);
        case Op::Add: return jit_var_add(a[0], a[1]); case Op::Sub: return jit_var_sub(a[0], a[1]);
        case Op::Mul: return jit_var_mul(a[0], a[1]); case Op::Div: return jit_var_div(a[0], a[1]);
        case Op::Mod: return jit_var_mod(a[0], a[1]); case Op::MulHi: return jit_var_mul_hi(a[0], a[1]);
        case Op::MulWide: return jit_var_mul_wide(a[0], a[1]);
        case Op::Min: return jit_var_min(a[0], a[1]); case Op::Max: return jit_var_max(a[0], a[1]);
        case Op::FMin: return jit_var_fmin(a[0], a[1]); case Op::FMax: return jit_var_fmax(a[0], a[1]);
        case Op::Copysign: return jit_var_copysign(a[0], a[1]);
        case Op::And: case Op::AndMask: return jit_var_and(a[0], a[1]);
        case Op::Or: case Op::OrMask: return jit_var_or(a[0], a[1]);
        case Op::Xor: return jit_var_xor(a[0], a[1]);
        case Op::Shl: return jit_var_shl(a[0], a[1]); case Op::Shr: return jit_var_shr(a[0], a[1]);
        case Op::Eq: return jit_var_eq(a[0], a[1]); case Op::Neq: return jit_var_neq(a[0], a[1]);
        case Op::Lt: return jit_var_lt(a[0], a[1]); case Op::Le: return jit_var_le(a[0], a[1]);
        case Op::Gt: return jit_var_gt(a[0], a[1]); case Op::Ge: return jit_var_ge(a[0], a[1]);
        case Op::Fma: return jit_var_fma(a[0], a[1], a[2]);
        case Op::Select: return jit_var_select(a[0], a[1], a[2]);
        case Op::Cast: return jit_var_cast(a[0], rt, 0);
        case Op::Reinterpret: return jit_var_cast(a[0], rt, 1);
        default: return 0;
    }
}
/// The same operation through the generic entry point, where one exists
inline bool jit_apply_generic(Op o, const uint32_t *a, uint32_t *out) {
    JitOp j;
    switch (o) {
        case Op::Neg: j = JitOp::Neg; break; case Op::Not: j = JitOp::Not; break; case Op::Sqrt: j = JitOp::Sqrt; break;
        case Op::Abs: j = JitOp::Abs; break; case Op::Ceil: j = JitOp::Ceil; break; case Op::Floor: j = JitOp::Floor; break;
        case Op::Round: j = JitOp::Round; break; case Op::Trunc: j = JitOp::Trunc; break; case Op::Popc: j = JitOp::Popc; break;
        case Op::Clz: j = JitOp::Clz; break; case Op::Ctz: j = JitOp::Ctz; break;
        case Op::Add: j = JitOp::Add; break; case Op::Sub: j = JitOp::Sub; break; case Op::Mul: j = JitOp::Mul; break;
        case Op::Div: j = JitOp::Div; break; case Op::Mod: j = JitOp::Mod; break;
        case Op::Min: j = JitOp::Min; break; case Op::Max: j = JitOp::Max; break;
        case Op::And: j = JitOp::And; break; case Op::Or: j = JitOp::Or; break; case Op::Xor: j = JitOp::Xor; break;
        case Op::Shl: j = JitOp::Shl; break; case Op::Shr: j = JitOp::Shr; break;
        case Op::Eq: j = JitOp::Eq; break; case Op::Neq: j = JitOp::Neq; break; case Op::Lt: j = JitOp::Lt; break;
        case Op::Le: j = JitOp::Le; break; case Op::Gt: j = JitOp::Gt; break; case Op::Ge: j = JitOp::Ge; break;
        case Op::Fma: j = JitOp::Fma; break; case Op::Select: j = JitOp::Select; break;
        default: return false;
    }
    *out = jit_var_op(j, a);
    return true;
}

/// Reference result. 'def' is cleared when the operation has no defined result.
namespace refop {
template <typename T> struct is_f : std::is_floating_point<T> {};

template <typename T> T f_min(T a, T b) { if (a != a || b != b) return std::numeric_limits<T>::quiet_NaN(); return a < b ? a : b; }
template <typename T> T f_max(T a, T b) { if (a != a || b != b) return std::numeric_limits<T>::quiet_NaN(); return a > b ? a : b; }
template <typename T> T f_fmin(T a, T b) { if (a != a) return b; if (b != b) return a; return a < b ? a : b; }
template <typename T> T f_fmax(T a, T b) { if (a != a) return b; if (b != b) return a; return a > b ? a : b; }

template <typename T> uint64_t fop(Op o, T a, T b, T c, bool &def) {
    switch (o) {
        case Op::Sqrt: return tobits<T>(std::sqrt(a));
        case Op::Ceil: return tobits<T>(std::ceil(a));
        case Op::Floor: return tobits<T>(std::floor(a));
        case Op::Round: return tobits<T>(std::nearbyint(a));
        case Op::Trunc: return tobits<T>(std::trunc(a));
        case Op::Rcp: return tobits<T>(T(1) / a);
        case Op::Rsqrt: return tobits<T>(T(std::sqrt(1 / (double) a)));
        case Op::Add: return tobits<T>(a + b);
        case Op::Sub: return tobits<T>(a - b);
        case Op::Mul: return tobits<T>(a * b);
        case Op::Div: return tobits<T>(a / b);
        case Op::Min: return tobits<T>(f_min(a, b));
        case Op::Max: return tobits<T>(f_max(a, b));
        case Op::FMin: return tobits<T>(f_fmin(a, b));
        case Op::FMax: return tobits<T>(f_fmax(a, b));
        case Op::Eq: return a == b; case Op::Neq: return a != b;
        case Op::Lt: return a < b; case Op::Le: return a <= b; case Op::Gt: return a > b; case Op::Ge: return a >= b;
        case Op::Fma: return tobits<T>(std::fma(a, b, c));
        default: def = false; return 0;
    }
}
template <typename T> uint64_t iop(Op o, uint64_t ab, uint64_t bb, uint64_t cb, bool &def) {
    using U = std::make_unsigned_t<T>;
    constexpr unsigned W = sizeof(T) * 8;
    T a = (T) ab, b = (T) bb;
    U ua = (U) ab, ub = (U) bb, uc = (U) cb;
    auto R = [](U v) -> uint64_t { return (uint64_t) v; };
    constexpr bool S = std::is_signed<T>::value;
    switch (o) {
        case Op::Neg: return R((U) (U(0) - ua));
        case Op::Abs: return R(S && a < 0 ? (U) (U(0) - ua) : ua);
        case Op::Popc: return R((U) __builtin_popcountll((uint64_t) ua));
        case Op::Clz: { unsigned n = 0; for (int i = (int) W - 1; i >= 0 && !((uint64_t) ua >> i & 1); --i) n++; return n; }
        case Op::Ctz: { unsigned n = 0; for (unsigned i = 0; i < W && !((uint64_t) ua >> i & 1); ++i) n++; return n; }
        case Op::Brev: { U r = 0; for (unsigned i = 0; i < W; ++i) if ((uint64_t) ua >> i & 1) r |= (U) (U(1) << (W - 1 - i)); return R(r); }
        case Op::Add: return R((U) ((uint64_t) ua + ub));
        case Op::Sub: return R((U) ((uint64_t) ua - ub));
        case Op::Mul: return R((U) ((uint64_t) ua * ub));
        case Op::Div: case Op::Mod:
            if (ub == 0 || (S && a == std::numeric_limits<T>::min() && b == (T) -1)) { def = false; return 0; }
            return R((U) (o == Op::Div ? a / b : a % b));
        case Op::MulHi: if constexpr (W >= 32) {
            if constexpr (S) return R((U) (((__int128) a * b) >> W));
            else return R((U) (((unsigned __int128) a * b) >> W));
        } else { def = false; return 0; }
        case Op::MulWide:
            return S ? (uint64_t) ((int64_t) a * (int64_t) b) : (uint64_t) ua * (uint64_t) ub;
        case Op::Min: case Op::FMin: return R((U) (a < b ? a : b));
        case Op::Max: case Op::FMax: return R((U) (a > b ? a : b));
        case Op::Copysign: { U m = a < 0 ? (U) (U(0) - ua) : ua; return R(b < 0 ? (U) (U(0) - m) : m); }
        case Op::Shl: if ((uint64_t) ub >= W) { def = false; return 0; } return R((U) ((uint64_t) ua << ub));
        case Op::Shr: if ((uint64_t) ub >= W) { def = false; return 0; } return R((U) (a >> b));
        case Op::Eq: return a == b; case Op::Neq: return a != b;
        case Op::Lt: return a < b; case Op::Le: return a <= b; case Op::Gt: return a > b; case Op::Ge: return a >= b;
        case Op::Fma: return R((U) ((uint64_t) ua * ub + uc));
        default: def = false; return 0;
    }
}
inline uint64_t mask_of(VarType t) { size_t s = type_sz(t) * 8; return t == VarType::Bool ? 1 : (s == 64 ? ~0ull : ((1ull << s) - 1)); }

template <typename I, typename F> uint64_t f2i(F f, bool &def) {
    if (f != f) { def = false; return 0; }
    long double t = std::trunc((long double) f);
    if (t < (long double) std::numeric_limits<I>::min() || t > (long double) std::numeric_limits<I>::max()) { def = false; return 0; }
    return tobits<I>((I) t);
}
inline uint64_t cast(VarType s, VarType d, uint64_t b, bool &def) {
    if (s == d) return b;
    // source as either integer (i, signed flag) or floating point
    if (is_flt(s)) {
        double v = s == VarType::Float16 ? h2f((uint16_t) b) : s == VarType::Float32 ? frombits<float>(b) : frombits<double>(b);
        switch (d) {
            case VarType::Bool: return v != 0;   // NaN converts to true, as in C++
            case VarType::Int8: return f2i<int8_t>(v, def); case VarType::UInt8: return f2i<uint8_t>(v, def);
            case VarType::Int16: return f2i<int16_t>(v, def); case VarType::UInt16: return f2i<uint16_t>(v, def);
            case VarType::Int32: return f2i<int32_t>(v, def); case VarType::UInt32: return f2i<uint32_t>(v, def);
            case VarType::Int64: return f2i<int64_t>(v, def); case VarType::UInt64: return f2i<uint64_t>(v, def);
            case VarType::Float16: return s == VarType::Float64 ? f2h((float) v) : d2h(v);
            case VarType::Float32: return tobits((float) v);
            case VarType::Float64: return tobits(v);
            default: def = false; return 0;
        }
    }
    if (s == VarType::Bool) b = b & 1;
    int64_t sv = 0; uint64_t uv = b; bool sg = is_sint(s);
    switch (s) {
        case VarType::Int8: sv = (int8_t) b; break; case VarType::Int16: sv = (int16_t) b; break;
        case VarType::Int32: sv = (int32_t) b; break; case VarType::Int64: sv = (int64_t) b; break;
        default: break;
    }
    if (sg) uv = (uint64_t) sv;
    switch (d) {
        case VarType::Bool: return uv != 0;
        case VarType::Float16: { float f = sg ? (float) sv : (float) uv; return f2h(f); }
        case VarType::Float32: return tobits(sg ? (float) sv : (float) uv);
        case VarType::Float64: return tobits(sg ? (double) sv : (double) uv);
        default: return uv & mask_of(d);
    }
}
/// Core evaluation of one element
inline uint64_t eval(Op o, VarType t, VarType rt, uint64_t a, uint64_t b, uint64_t c, bool &def) {
    switch (o) {
        case Op::Select: return (a & 1) ? b : c;
        case Op::Cast: return cast(t, rt, a, def);
        case Op::Reinterpret: return a;
        case Op::Not: return ~a & mask_of(t);
        case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
        case Op::AndMask: return (b & 1) ? a : 0;
        case Op::OrMask: return (b & 1) ? mask_of(t) : a;
        default: break;
    }
    if (is_flt(t)) {  // pure sign-bit operations
        uint64_t sb = 1ull << (type_sz(t) * 8 - 1);
        if (o == Op::Neg) return a ^ sb;
        if (o == Op::Abs) return a & ~sb;
        if (o == Op::Copysign) return (a & ~sb) | (b & sb);
    }
    switch (t) {
        case VarType::Bool: if (o == Op::Eq) return (a & 1) == (b & 1); if (o == Op::Neq) return (a & 1) != (b & 1); def = false; return 0;
        case VarType::Int8: return iop<int8_t>(o, a, b, c, def); case VarType::UInt8: return iop<uint8_t>(o, a, b, c, def);
        case VarType::Int16: return iop<int16_t>(o, a, b, c, def); case VarType::UInt16: return iop<uint16_t>(o, a, b, c, def);
        case VarType::Int32: return iop<int32_t>(o, a, b, c, def); case VarType::UInt32: return iop<uint32_t>(o, a, b, c, def);
        case VarType::Int64: return iop<int64_t>(o, a, b, c, def); case VarType::UInt64: return iop<uint64_t>(o, a, b, c, def);
        case VarType::Float16: {
            uint64_t r = fop<float>(o, h2f((uint16_t) a), h2f((uint16_t) b), h2f((uint16_t) c), def);
            if (op_rtype(o, t) == VarType::Bool) return r;
            return f2h(frombits<float>(r));
        }
        case VarType::Float32: return fop<float>(o, frombits<float>(a), frombits<float>(b), frombits<float>(c), def);
        case VarType::Float64: return fop<double>(o, frombits<double>(a), frombits<double>(b), frombits<double>(c), def);
        default: def = false; return 0;
    }
}
} // namespace refop

// ------------------------------------------------------------------ lane values with a knowledge flag
enum K : uint8_t { EXACT, SZ /* zero, sign unknown */, NAN_ /* some NaN */, SUB /* subnormal or flushed to zero */, APPROX, UNK };
struct LV { uint64_t b; uint8_t k; };

inline bool flt_isnan(VarType t, uint64_t b) {
    if (t == VarType::Float16) return (b & 0x7fff) > 0x7c00;
    if (t == VarType::Float32) return (b & 0x7fffffff) > 0x7f800000u;
    if (t == VarType::Float64) return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull;
    return false;
}
inline bool flt_iszero(VarType t, uint64_t b) {
    return is_flt(t) && (b & (refop::mask_of(t) >> 1)) == 0;
}
inline bool flt_issub(VarType t, uint64_t b) {  // subnormal, or small enough to be flushed before rounding
    if (t == VarType::Float32) { uint64_t m = b & 0x7fffffff; return m && m <= 0x00800000; }
    if (t == VarType::Float64) { uint64_t m = b & 0x7fffffffffffffffull; return m && m <= 0x0010000000000000ull; }
    return false;
}
inline uint8_t classify(VarType t, uint64_t b) {
    if (!is_flt(t)) return EXACT;
    if (flt_isnan(t, b)) return NAN_;
    if (flt_issub(t, b)) return SUB;
    return EXACT;
}
/// Possible bit patterns of a lane value
inline int reps(VarType t, LV v, uint64_t *r) {
    uint64_t sb = is_flt(t) ? 1ull << (type_sz(t) * 8 - 1) : 0;
    switch (v.k) {
        case EXACT: r[0] = v.b; return 1;
        case SZ: r[0] = 0; r[1] = sb; return 2;
        case NAN_: { uint64_t q = t == VarType::Float16 ? 0x7e00 : t == VarType::Float32 ? 0x7fc00000u : 0x7ff8000000000000ull; r[0] = q; r[1] = q | sb; return 2; }
        case SUB: r[0] = v.b; r[1] = v.b & sb; return 2;
        default: return 0;
    }
}
/// Are -0 / +0 results of this operation specified well enough to compare their sign?
inline LV ref_op(Op o, VarType t, VarType rt, const VarType *at, const LV *a) {
    int n = op_arity(o);
    uint64_t rp[3][2]; int rn[3] = { 1, 1, 1 };
    rp[0][0] = rp[1][0] = rp[2][0] = 0;
    if (o == Op::Select && a[0].k == EXACT) return (a[0].b & 1) ? a[1] : a[2];
    for (int i = 0; i < n; ++i) {
        if (a[i].k >= APPROX) return { 0, UNK };
        if (a[i].k == NAN_ && (o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Not)) return { 0, UNK };  // payload
        rn[i] = reps(at[i], a[i], rp[i]);
    }
    uint64_t res[8]; int m = 0;
    for (int i = 0; i < rn[0]; ++i) for (int j = 0; j < rn[1]; ++j) for (int l = 0; l < rn[2]; ++l) {
        bool def = true;
        uint64_t r = refop::eval(o, t, rt, rp[0][i], rp[1][n > 1 ? j : 0], rp[2][n > 2 ? l : 0], def);
        if (!def) return { 0, UNK };
        res[m++] = r;
    }
    bool same = true, zeros = true, nans = true, subz = true;
    for (int i = 0; i < m; ++i) {
        same &= res[i] == res[0];
        zeros &= flt_iszero(rt, res[i]);
        nans &= flt_isnan(rt, res[i]);
        subz &= flt_iszero(rt, res[i]) || flt_issub(rt, res[i]);
    }
    LV r{ res[0], EXACT };
    bool arith = !(o == Op::Select || o == Op::Reinterpret || o == Op::Neg || o == Op::Abs || o == Op::Copysign || o == Op::And ||
                   o == Op::Or || o == Op::Xor || o == Op::Not || o == Op::AndMask || o == Op::OrMask);
    if (is_flt(rt) && nans) r.k = NAN_;
    else if (is_flt(rt) && zeros && (!same || arith)) r = { 0, SZ };  // sign of a computed zero is outside the claim
    else if (!same) {
        if (is_flt(rt) && subz) { for (int i = 0; i < m; ++i) if (flt_issub(rt, res[i])) r.b = res[i];
            r.k = SUB;
            for (int i = 0; i < m; ++i) if (!flt_iszero(rt, res[i]) && res[i] != r.b) r.k = UNK; }
        else r.k = UNK;
    } else if (is_flt(rt)) r.k = classify(rt, r.b);
    if (o == Op::Cast && t == VarType::Float16 ? false : (o == Op::Cast && is_flt(t) && rt == VarType::Float16 && r.k == EXACT && 0)) r.k = UNK;
    // half precision: sqrt(1/x), where the intermediate value may overflow
    if (o == Op::Rsqrt && rt == VarType::Float16 && r.k == EXACT && a[0].k == EXACT && (a[0].b & 0x7fff) < 0x0200) r.k = UNK;
    // the reciprocal of the operand may be an intermediate result, and subnormals may be flushed
    if (o == Op::Rsqrt && a[0].k == EXACT && ((rt == VarType::Float32 && (a[0].b & 0x7fffffff) >= 0x7e800000u) ||
        (rt == VarType::Float64 && (a[0].b & 0x7fffffffffffffffull) >= 0x7fd0000000000000ull)) && !(r.k == SZ)) r.k = UNK;
    if (op_approx(o) && r.k == EXACT) r.k = APPROX;
    return r;
}
inline double as_double(VarType t, uint64_t b) {
    switch (t) {
        case VarType::Float16: return h2f((uint16_t) b);
        case VarType::Float32: return frombits<float>(b);
        case VarType::Float64: return frombits<double>(b);
        case VarType::Int8: return (int8_t) b; case VarType::Int16: return (int16_t) b;
        case VarType::Int32: return (int32_t) b; case VarType::Int64: return (double) (int64_t) b;
        default: return (double) b;
    }
}
/// Does an observed bit pattern agree with the reference?
inline bool lane_ok(VarType t, LV r, uint64_t obs) {
    switch (r.k) {
        case EXACT: return t == VarType::Bool ? obs == (r.b & 1) : obs == r.b;
        case SZ: return flt_iszero(t, obs);
        case NAN_: return flt_isnan(t, obs);
        case SUB: return obs == r.b || flt_iszero(t, obs);
        case APPROX: {
            double x = as_double(t, r.b), y = as_double(t, obs);
            if (x == y || (x != x && y != y)) return true;
            double tol = t == VarType::Float16 ? 4e-3 : t == VarType::Float32 ? 1e-6 : 2e-15;
            if (std::isinf(x) || std::isinf(y)) {
                // at the edge of the range the approximation may over/underflow
                double mx = t == VarType::Float16 ? 6e4 : t == VarType::Float32 ? 3e38 : 1.7e308;
                double fin = std::isinf(x) ? std::fabs(y) : std::fabs(x);
                return fin > mx;
            }
            double mn = t == VarType::Float16 ? 6e-5 : t == VarType::Float32 ? 1e-37 : 1e-307;
            return std::fabs(x - y) <= tol * std::max(std::fabs(x), std::fabs(y)) || (std::fabs(x) < mn && std::fabs(y) < mn);
        }
        default: return true;
    }
}
