// Recorded (frozen) functions: replays equal the execution of the original operations on the new inputs (C11).
#include "ops.h"
#include "scen.h"
#include "whos.h"
using VU = std::vector<uint64_t>;
static const VarType U32 = VarType::UInt32, U64 = VarType::UInt64, F32 = VarType::Float32, B1 = VarType::Bool;
// size classes: 0/1 vary from call to call, 2 scalar, 3 fixed, 4/5 = class 0 divided by 2/4, 6 = data-dependent, 7 = shrunk fixed
enum { CA, CB, CS, CF, CA2, CA4, CD, CV };
static const size_t FIX = 24, SHR = 7;
struct FVal { VarType t; int c; VU v; };
enum FKind { KAdd, KMul, KXor, KShr, KMinMax, KSel, KCast, KEval, KEvalAll, KWidth, KGather, KGatherPkt, KScatter, KScatterPkt, KScatterCond, KReduce, KDot, KBlockReduce, KPrefix, KAnyAll, KCompress, KLoop, KCond, KCall, KCopy, KFixLit, KFixCount, KGemm, KShrink, KPaused, KUndef, NKINDS };
static const char *kname[] = { "add", "mul", "xor", "shr", "minmax", "sel", "cast", "eval", "evalall", "width", "gather", "gatherpkt", "scatter", "scatterpkt", "scattercond", "reduce", "dot", "blockreduce", "prefix", "anyall", "compress", "loop", "cond", "call", "copy", "fixlit", "fixcount", "gemm", "shrink", "paused", "undef" };
struct FOp { FKind k; int a = 0, b = 0, c = 0; uint32_t p = 0, q = 0, r = 0; };
struct FFn { std::vector<std::pair<VarType, int>> in; std::vector<FOp> ops; std::vector<int> out; bool compress = false;
    std::string show() const { std::string s; for (auto &i : in) s += H::fmt("in(%d,c%d) ", (int) i.first, i.second); int n = (int) in.size(); (void) n; for (auto &o : ops) s += H::fmt("%s(%d,%d,%d;%u,%u,%u) ", kname[o.k], o.a, o.b, o.c, o.p, o.q, o.r); s += "->"; for (int o : out) s += H::fmt(" %d", o); return s; } };
static uint64_t tmask(VarType t) { return t == U64 ? ~0ull : 0xffffffffull; }

/// Operations producing no value return the index of an existing one (so that every operation defines exactly one value)
template <typename V, typename E> struct Run {
    // Shared walk over the program; E implements the operations
    static std::vector<V> go(const FFn &f, std::vector<V> vals, E &e) { for (auto &o : f.ops) vals.push_back(e.op(o, vals)); return vals; }
};

// ---------------------------------------------------------------- reference
struct Ref_ {
    static size_t len(const FVal &a, const FVal &b) { return std::max(a.v.size(), b.v.size()); }
    static uint64_t at(const FVal &a, size_t i) { return a.v[a.v.size() == 1 ? 0 : i]; }
    static double fl(uint64_t b) { float f; uint32_t u = (uint32_t) b; memcpy(&f, &u, 4); return f; }
    uint64_t red(VarType t, int op, uint64_t x, uint64_t y) { switch (op) { case 0: return (x + y) & tmask(t); case 1: return std::min(x, y); case 2: return std::max(x, y); case 3: return x | y; default: return x & y; } }
    FVal op(const FOp &o, const std::vector<FVal> &s) {
        const FVal &a = s[o.a], &b = s[o.b]; FVal r { a.t, a.c, {} }; size_t n;
        auto each = [&](auto fn) { for (size_t i = 0; i < n; ++i) r.v.push_back(fn(i)); };
        switch (o.k) {
            case KAdd: n = len(a, b); r.c = a.v.size() >= b.v.size() ? a.c : b.c; each([&](size_t i) { return (at(a, i) + at(b, i)) & tmask(a.t); }); break;
            case KMul: n = a.v.size(); each([&](size_t i) { return (a.v[i] * (2 * o.p + 1)) & tmask(a.t); }); break;
            case KXor: n = a.v.size(); each([&](size_t i) { return (a.v[i] ^ o.p) & tmask(a.t); }); break;
            case KShr: n = a.v.size(); each([&](size_t i) { return a.v[i] >> (o.p % 31); }); break;
            case KMinMax: n = len(a, b); r.c = a.v.size() >= b.v.size() ? a.c : b.c; each([&](size_t i) { return o.p & 1 ? std::min(at(a, i), at(b, i)) : std::max(at(a, i), at(b, i)); }); break;
            case KSel: n = len(a, b); r.c = a.v.size() >= b.v.size() ? a.c : b.c; each([&](size_t i) { return (at(a, i) & 7) < 1 + o.p % 7 ? at(b, i) : at(a, i); }); break;
            case KCast: n = a.v.size(); r.t = a.t == U32 ? U64 : U32; each([&](size_t i) { return a.v[i] & tmask(r.t); }); break;
            case KEval: case KEvalAll: case KCopy: case KPaused: r = a; break;
            case KWidth: r = { U32, CS, { a.v.size() } }; break;
            case KGather: n = b.v.size(); r.c = b.c; each([&](size_t i) { return o.p & 1 && !((b.v[i] & 7) < 4) ? 0 : a.v[b.v[i] % a.v.size()]; }); break;
            case KGatherPkt: n = b.v.size(); r.c = b.c; each([&](size_t i) { size_t k = b.v[i] % (a.v.size() / 4) * 4; return (a.v[k] + 3 * a.v[k + 1] + 5 * a.v[k + 2] + 7 * a.v[k + 3]) & tmask(a.t); }); break;
            case KScatter: r = a; for (size_t i = 0; i < b.v.size(); ++i) { if (o.p & 1 && !((b.v[i] & 7) < 4)) continue; uint64_t k = b.v[i] % a.v.size(); if (o.q == 0) r.v[k] = (k * 5 + 3) & tmask(a.t); else r.v[k] = red(a.t, o.q - 1, r.v[k], b.v[i] & tmask(a.t)); } break;
            case KScatterPkt: r = a; for (size_t i = 0; i < b.v.size(); ++i) { uint64_t k = b.v[i] % (a.v.size() / 2); r.v[2 * k] = (r.v[2 * k] + b.v[i]) & tmask(a.t); r.v[2 * k + 1] = (r.v[2 * k + 1] + 1) & tmask(a.t); } break;
            case KScatterCond: r = a; for (size_t i = 0; i < b.v.size(); ++i) { uint64_t k = b.v[i] % a.v.size(); if ((b.v[i] & 7) < 1 + o.p % 7) r.v[k] = (r.v[k] + b.v[i]) & tmask(a.t); else r.v[k] = (r.v[k] + 9) & tmask(a.t); } break;
            case KReduce: { uint64_t x = a.v[0]; for (size_t i = 1; i < a.v.size(); ++i) x = red(a.t, o.p % 3, x, a.v[i]); r = { a.t, CS, { x } }; break; }
            case KDot: { double x = 0; for (size_t i = 0; i < a.v.size(); ++i) x += (double) (a.v[i] & 7) * (double) (b.v[i] & 3); r = { U32, CS, { (uint64_t) x } }; break; }
            case KBlockReduce: { size_t k = o.p & 1 ? 4 : 2; r.c = o.p & 1 ? CA4 : CA2; for (size_t i = 0; i < a.v.size(); i += k) { uint64_t x = a.v[i]; for (size_t j = 1; j < k; ++j) x = red(a.t, o.q % 3, x, a.v[i + j]); r.v.push_back(x); } break; }
            case KPrefix: { size_t k = o.p & 1 ? a.v.size() : 4; bool ex = o.p & 2, rev = o.p & 4; r.v.resize(a.v.size()); for (size_t s0 = 0; s0 < a.v.size(); s0 += k) { uint64_t x = 0; size_t e = std::min(k, a.v.size() - s0); for (size_t j = 0; j < e; ++j) { size_t q = s0 + (rev ? e - 1 - j : j); if (ex) r.v[q] = x; x = (x + a.v[q]) & tmask(a.t); if (!ex) r.v[q] = x; } } break; }
            case KAnyAll: { bool x = o.p & 1; for (uint64_t q : a.v) { bool m = (q & 63) < 1 + o.q % 63; x = o.p & 1 ? x && m : x || m; } r = { U32, CS, { x ? a.v.size() + 1 : 7 } }; r.v[0] = x ? 11 : 7; break; }
            case KCompress: r = { U32, CD, {} }; for (size_t i = 0; i < a.v.size(); ++i) if ((a.v[i] & 7) < 1 + o.p % 7) r.v.push_back(i); if (r.v.empty()) r.v.push_back(~0ull); break;
            case KLoop: n = a.v.size(); each([&](size_t i) { uint64_t x = a.v[i], c = x & 7; while (c > 0) { x = (x * 3 + at(b, i)) & tmask(a.t); --c; } return x; }); break;
            case KCond: n = a.v.size(); each([&](size_t i) { return ((a.v[i] & 7) < 1 + o.p % 7 ? a.v[i] * 3 + at(b, i) : a.v[i] + 5) & tmask(a.t); }); break;
            case KCall: n = a.v.size(); each([&](size_t i) { uint64_t id = a.v[i] & 3, x = a.v[i], y = s[o.c].v[0] & tmask(a.t); return (id == 0 ? 0 : id == 1 ? x + y : id == 2 ? x * 3 : (x ^ y) + 1) & tmask(a.t); }); break;
            case KFixLit: r = { U32, CF, VU(FIX, o.p) }; break;
            case KFixCount: r = { U32, CF, {} }; for (size_t i = 0; i < FIX; ++i) r.v.push_back(i); break;
            case KGemm: { r = { U32, CF, VU(16) }; r.c = 8; for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) { uint64_t x = 0; for (size_t k = 0; k < 6; ++k) x += (a.v[i * 6 + k] & 7) * (b.v[k * 4 + j] & 7); r.v[i * 4 + j] = x; } break; }
            case KShrink: r = a; r.c = CV; r.v.resize(SHR); break;
            case KUndef: r = a; break;
            default: break;
        }
        return r;
    }
};
// ---------------------------------------------------------------- traced execution
struct TVal { VarType t; int c; Var v; };
struct Trace {
    static Var L(VarType t, uint64_t x) { return lit(t, x); }
    static Var kc(VarType t, uint64_t x) { return lit(t, x & tmask(t)); }
    static Var lt(const TVal &a, uint64_t m, uint64_t c) { return steal(jit_var_lt(steal(jit_var_and(a.v, kc(a.t, m))), kc(a.t, c))); }
    static Var idx(const TVal &b, const Var &w) { Var i = steal(jit_var_cast(b.v, U64, 0)); i = steal(jit_var_mod(i, steal(jit_var_cast(w, U64, 0)))); return steal(jit_var_cast(i, U32, 0)); }
    static Var cast(const Var &v, VarType t) { return steal(jit_var_cast(v, t, 0)); }
    static ReduceOp rop(int o) { return o == 0 ? ReduceOp::Add : o == 1 ? ReduceOp::Min : o == 2 ? ReduceOp::Max : o == 3 ? ReduceOp::Or : ReduceOp::And; }
    Var width(const TVal &a) { jit_var_eval(a.v); return steal(jit_var_opaque_width(a.v)); }
    bool recording;
    TVal op(const FOp &o, const std::vector<TVal> &s) {
        const TVal &a = s[o.a], &b = s[o.b]; TVal r { a.t, a.c, Var() };
        int wide = a.c == CS ? b.c : a.c;
        Var T = lit_bool(true), keep = a.v;
        switch (o.k) {
            case KAdd: r.c = wide; r.v = steal(jit_var_add(a.v, b.v)); break;
            case KMul: r.v = steal(jit_var_mul(a.v, kc(a.t, 2 * o.p + 1))); break;
            case KXor: r.v = steal(jit_var_xor(a.v, kc(a.t, o.p))); break;
            case KShr: r.v = steal(jit_var_shr(a.v, kc(a.t, o.p % 31))); break;
            case KMinMax: r.c = wide; r.v = steal(o.p & 1 ? jit_var_min(a.v, b.v) : jit_var_max(a.v, b.v)); break;
            case KSel: r.c = wide; r.v = steal(jit_var_select(lt(a, 7, 1 + o.p % 7), b.v, a.v)); break;
            case KCast: r.t = a.t == U32 ? U64 : U32; r.v = cast(a.v, r.t); break;
            case KEval: jit_var_eval(a.v); r = a; break;
            case KEvalAll: jit_var_schedule(a.v); jit_eval(); r = a; break;
            case KCopy: r.v = steal(o.p & 1 ? jit_var_copy(a.v) : jit_var_copy_opaque(a.v)); break;
            case KPaused: if (recording) { jit_eval(); int was = jit_freeze_pause(LLVM); if (was) H::violation("pause", "already paused"); Var q = steal(jit_var_mul(lit(U32, 3, FIX, true), lit_u32(5))); jit_var_eval(q); uint32_t x; jit_var_read(q, 2, &x); if (x != 15) H::violation("paused-value", "%u", x); if (!jit_freeze_resume(LLVM)) H::violation("pause", "was not paused"); } r = a; break;
            case KWidth: r = { U32, CS, width(a) }; break;
            case KGather: { Var i = idx(b, width(a)); r.c = b.c; r.v = steal(jit_var_gather(a.v, i, o.p & 1 ? lt(b, 7, 4) : T)); break; }
            case KGatherPkt: { Var w = steal(jit_var_div(width(a), lit_u32(4))); Var i = idx(b, w); uint32_t q[4]; jit_var_gather_packet(4, a.v, i, T, q); Var x = steal(q[0]); for (int j = 1; j < 4; ++j) { Var y = steal(q[j]); x = steal(jit_var_add(x, steal(jit_var_mul(y, kc(a.t, 2 * j + 1))))); } r.c = b.c; r.v = x; break; }
            case KScatter: { Var i = idx(b, width(a)), val = o.q == 0 ? steal(jit_var_add(steal(jit_var_mul(cast(i, a.t), kc(a.t, 5))), kc(a.t, 3))) : cast(b.v, a.t); r.v = steal(jit_var_scatter(a.v, val, i, o.p & 1 ? lt(b, 7, 4) : T, o.q == 0 ? ReduceOp::Identity : rop(o.q - 1), o.q == 0 ? ReduceMode::Auto : o.r % 4 == 0 ? ReduceMode::Direct : o.r % 4 == 1 ? ReduceMode::Expand : o.r % 4 == 2 ? ReduceMode::Local : ReduceMode::Auto)); break; }
            case KScatterPkt: { Var w = steal(jit_var_div(width(a), lit_u32(2))); Var i = idx(b, w), v0 = cast(b.v, a.t), v1 = kc(a.t, 1); uint32_t q[2] = { v0, v1 }; r.v = steal(jit_var_scatter_packet(2, a.v, q, i, T, ReduceOp::Add, ReduceMode::Auto)); break; }
            case KScatterCond: { Var i = idx(b, width(a)), val = cast(b.v, a.t), nine = kc(a.t, 9); Var t = steal(jit_var_copy_opaque(a.v)); jit_var_eval(t);
                Vars q = sym_if(lt(b, 7, 1 + o.p % 7), [&] { t = steal(jit_var_scatter(t, val, i, lit_bool(true), ReduceOp::Add, ReduceMode::Direct)); return Vars {}; }, [&] { t = steal(jit_var_scatter(t, nine, i, lit_bool(true), ReduceOp::Add, ReduceMode::Direct)); return Vars {}; });
                r.v = t; break; }
            case KReduce: r = { a.t, CS, steal(jit_var_reduce(LLVM, a.t, rop(o.p % 3), a.v)) }; break;
            case KDot: { Var x = cast(steal(jit_var_and(a.v, kc(a.t, 7))), F32), y = cast(steal(jit_var_and(b.v, kc(b.t, 3))), F32); r = { U32, CS, cast(steal(jit_var_reduce_dot(x, y)), U32) }; break; }
            case KBlockReduce: r.c = o.p & 1 ? CA4 : CA2; r.v = steal(jit_var_block_reduce(rop(o.q % 3), a.v, o.p & 1 ? 4 : 2, 0)); break;
            case KPrefix: r.v = steal(jit_var_block_prefix_reduce(ReduceOp::Add, a.v, o.p & 1 ? (uint32_t) jit_var_size(a.v) : 4, !!(o.p & 2), !!(o.p & 4))); break;
            case KAnyAll: { Var m = lt(a, 63, 1 + o.q % 63); Var x = steal(o.p & 1 ? jit_var_all_async(LLVM, m) : jit_var_any_async(LLVM, m)); r = { U32, CS, steal(jit_var_select(x, lit_u32(11), lit_u32(7))) }; break; }
            case KCompress: { Var x = steal(jit_var_compress(lt(a, 7, 1 + o.p % 7))); r = { U32, CD, x }; if (!x.i) r.v = L(U32, ~0ull); break; }
            case KLoop: { Var one = kc(a.t, 1), zero = kc(a.t, 0), three = kc(a.t, 3), bb = b.v; Vars q = sym_loop({ a.v, steal(jit_var_and(a.v, kc(a.t, 7))) }, [&](Vars &st) { return steal(jit_var_gt(st[1], zero)); }, [&](Vars &st) { return Vars { steal(jit_var_add(steal(jit_var_mul(st[0], three)), bb)), steal(jit_var_sub(st[1], one)) }; }); r.v = q[0]; break; }
            case KCond: { Vars q = sym_if(lt(a, 7, 1 + o.p % 7), [&] { return Vars { steal(jit_var_add(steal(jit_var_mul(a.v, kc(a.t, 3))), b.v)) }; }, [&] { return Vars { steal(jit_var_add(a.v, kc(a.t, 5))) }; }); r.v = q[0]; break; }
            case KCall: { Var id = cast(steal(jit_var_and(a.v, kc(a.t, 3))), U32), y = cast(s[o.c].v, a.t); jit_var_eval(y); Vars q = sym_call(3, id, lit_bool(true), { a.v }, [&](uint32_t j, Vars &x) { return Vars { j == 0 ? steal(jit_var_add(x[0], y)) : j == 1 ? steal(jit_var_mul(x[0], kc(a.t, 3))) : steal(jit_var_add(steal(jit_var_xor(x[0], y)), kc(a.t, 1))) }; }); r.v = q[0]; break; }
            case KFixLit: r = { U32, CF, lit(U32, o.p, FIX, true) }; break;
            case KFixCount: r = { U32, CF, steal(jit_var_counter(LLVM, FIX)) }; break;
            case KGemm: { Var x = cast(steal(jit_var_and(a.v, kc(a.t, 7))), F32), y = cast(steal(jit_var_and(b.v, kc(b.t, 7))), F32); jit_var_schedule(x); jit_var_schedule(y); jit_eval(); r = { U32, 8, cast(steal(jit_var_batched_gemm(x, y, 0, 0, 4, 4, 6, nullptr)), U32) }; break; }
            case KShrink: jit_var_eval(a.v); r.c = CV; r.v = steal(jit_var_shrink(a.v, SHR)); break;
            case KUndef: r = a; break;
            default: break;
        }
        return r;
    }
};

static FFn gen(Rng &r) {
    FFn f; std::vector<std::pair<VarType, int>> v;
    auto ty = [&] { return r.chance(.25) ? U64 : U32; };
    f.in.push_back({ ty(), CA }); if (r.chance(.6)) f.in.push_back({ ty(), CA }); if (r.chance(.7)) f.in.push_back({ ty(), CB }); if (r.chance(.5)) f.in.push_back({ ty(), CS }); if (r.chance(.4)) f.in.push_back({ ty(), CF });
    v = f.in;
    auto pick = [&](auto pred) { std::vector<int> c; for (int i = 0; i < (int) v.size(); ++i) if (pred(v[i])) c.push_back(i); return c.empty() ? -1 : r.chance(.5) ? c.back() : c[r.below(c.size())]; };
    auto any = [&] { return pick([](auto &q) { return q.second != CD; }); };
    int n = 1 + r.below(r.chance(.3) ? 16 : 8);
    for (int i = 0; i < n; ++i) {
        FOp o; o.k = (FKind) r.below(NKINDS); o.p = (uint32_t) r.below(64); o.q = (uint32_t) r.below(64); o.r = (uint32_t) r.below(64);
        auto t = [&](int i) { return v[i].first; }; auto c = [&](int i) { return v[i].second; };
        o.a = any(); std::pair<VarType, int> res = v[o.a];
        auto same = [&](int a) { return pick([&](auto &q) { return q.first == t(a) && q.second != CD && (q.second == c(a) || q.second == CS || c(a) == CS); }); };
        switch (o.k) {
            case KAdd: case KMinMax: case KSel: o.b = same(o.a); if (c(o.a) == CS) res.second = c(o.b); break;
            case KCond: case KLoop: o.b = pick([&](auto &q) { return q.first == t(o.a) && (q.second == c(o.a) || q.second == CS); }); break;
            case KCast: res.first = t(o.a) == U32 ? U64 : U32; break;
            case KWidth: res = { U32, CS }; break;
            case KGather: o.a = pick([](auto &q) { return q.second != CS && q.second != CD; }); o.b = any(); res = { t(o.a), c(o.b) }; break;
            case KGatherPkt: o.a = pick([](auto &q) { return q.second == CA || q.second == CB || q.second == CF; }); o.b = any(); res = { t(o.a), c(o.b) }; break;
            case KScatter: o.a = pick([](auto &q) { return q.second != CS && q.second != CD; }); o.b = any(); res = v[o.a]; o.q %= 6; if (t(o.a) == U64 && o.q > 1) o.q = 1; if (c(o.b) == CS && o.q == 0) {} break;
            case KScatterPkt: o.a = pick([](auto &q) { return q.second == CA || q.second == CB || q.second == CF; }); o.b = any(); res = v[o.a]; break;
            case KScatterCond: o.a = pick([](auto &q) { return q.second != CS && q.second != CD; }); o.b = pick([](auto &q) { return q.second != CS && q.second != CD; }); res = v[o.a]; break;
            case KReduce: res.second = CS; break;
            case KDot: o.b = pick([&](auto &q) { return q.second == c(o.a); }); res = { U32, CS }; break;
            case KBlockReduce: o.a = pick([](auto &q) { return q.second == CA; }); res = { t(o.a), o.p & 1 ? CA4 : CA2 }; break;
            case KPrefix: o.a = pick([](auto &q) { return q.second == CA || q.second == CB; }); if (o.a < 0) continue; res = v[o.a]; break;
            case KAnyAll: res = { U32, CS }; break;
            case KCompress: if (!r.chance(.15)) continue; o.a = pick([](auto &q) { return q.second == CA; }); res = { U32, CD }; f.compress = true; break;
            case KCall: o.c = pick([](auto &q) { return q.second == CS; }); if (o.c < 0 || o.c >= (int) f.in.size()) { o.c = -1; for (int q = 0; q < (int) f.in.size(); ++q) if (f.in[q].second == CS) o.c = q; } if (o.c < 0) continue; break;
            case KFixLit: case KFixCount: if (r.chance(.5)) continue; res = { U32, CF }; break;
            case KGemm: o.a = pick([](auto &q) { return q.second == CF; }); o.b = o.a < 0 ? -1 : pick([](auto &q) { return q.second == CF; }); if (o.a < 0) continue; res = { U32, 8 }; break;
            case KShrink: if (!H::optu("views", 0)) continue; o.a = pick([](auto &q) { return q.second == CF; }); if (o.a < 0) continue; res = { t(o.a), CV }; break;
            case KUndef: continue;
            default: break;
        }
        if (o.a < 0 || o.b < 0) continue;
        f.ops.push_back(o); v.push_back(res);
    }
    int no = 1 + r.below(4);
    for (int i = 0; i < no; ++i) f.out.push_back(r.chance(.7) ? (int) v.size() - 1 - (int) r.below(std::min<size_t>(4, v.size())) : (int) r.below(v.size()));
    return f;
}

struct Sizes { size_t a, b; };
static Sizes sizes(Rng &r, bool big) {
    auto ok = [](size_t a, size_t b) { std::set<size_t> s { a, a / 2, a / 4, b, FIX, 1, SHR, 16 }; return s.size() == 8; };
    for (;;) { size_t a = 4 * (2 + r.below(big ? 6000 : 40)), b = 4 * (2 + r.below(big ? 6000 : 40)); if (ok(a, b)) return { a, b }; }
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start(LogLevel::Disable);
    uint32_t base = jit_flags() & ~(1u << 3);   // FastMath off
    H::loop([&](uint64_t cs, Rng &r) {
        (void) cs;
        jit_set_flags(base); for (uint32_t f : { 2, 4, 6, 9, 10 }) if (r.chance(.15)) jit_set_flag((JitFlag) (1u << f), 0);
        FFn f = gen(r); std::string text = f.show(); H::distinct(H::hash_str(text));
        if (H::verbose()) fprintf(stderr, "PROG %s\n", text.c_str());
        Recording *rec = nullptr; std::vector<size_t> omap; size_t n_unique = 0; Sizes rs {}; int rounds = 3 + r.below(4); bool big = r.chance(.15); Sizes last {};
        bool stop = false;
        for (int round = 0; round < rounds && !stop; ++round) {
            Sizes sz = round && r.chance(.4) ? (r.chance(.5) ? rs : last) : sizes(r, big && r.chance(.6)); last = sz;
            std::vector<FVal> mi; std::vector<TVal> ti; std::vector<uint32_t> in; std::vector<Var> dep, hold;
            for (auto &q : f.in) {
                size_t n = q.second == CA ? sz.a : q.second == CB ? sz.b : q.second == CS ? 1 : FIX;
                VU x(n); std::vector<uint8_t> raw(n * type_sz(q.first)); bool small = r.chance(.5);
                for (size_t i = 0; i < n; ++i) { x[i] = (small ? r.below(16) : r.next()) & tmask(q.first); memcpy(&raw[i * type_sz(q.first)], &x[i], type_sz(q.first)); }
                mi.push_back({ q.first, q.second, x }); ti.push_back({ q.first, q.second, copy_in(q.first, raw.data(), n) });
                in.push_back(ti.back().v);
                if (r.chance(.3)) hold.push_back(ti.back().v);
                if (r.chance(.3)) dep.push_back(steal(jit_var_add(ti.back().v, lit(q.first, 1)))); else dep.push_back(Var());
            }
            Ref_ re; std::vector<FVal> want = Run<FVal, Ref_>::go(f, mi, re);
            std::vector<Var> out; bool replayed = false;
            auto check_flags = [&](const char *w) { if (jit_flag(JitFlag::FreezingScope)) { H::violation("flag", "freezing scope is active after %s", w); stop = true; } };
            if (rec) {
                int dr = jit_freeze_dry_run(rec, in.data());
                if (!dr) { H::stat("dry_run_rejected"); if (sz.a == rs.a && sz.b == rs.b && !f.compress) H::violation("dry-run-rejects", "sizes equal those of the recording: %s", text.c_str()); jit_freeze_destroy(rec); rec = nullptr; }
                else {
                    H::stat("dry_run_accepted");
                    std::vector<uint32_t> o(n_unique); std::vector<Var> uo;
                    try { jit_freeze_replay(rec, in.data(), o.data()); replayed = true; for (uint32_t x : o) uo.push_back(steal(x)); for (size_t m : omap) out.push_back(uo[m]); H::stat("replays"); if (sz.a != rs.a || sz.b != rs.b) H::stat("replays_other_size"); }
                    catch (const std::exception &e) { H::violation("replay-raises", "after an accepting dry run: %s [%s] sizes %zu/%zu then %zu/%zu", std::string(e.what()).substr(0, 300).c_str(), text.c_str(), rs.a, rs.b, sz.a, sz.b); stop = true; }
                    check_flags("replay");
                }
            }
            if (!rec && !stop) {
                rs = sz;
                jit_freeze_start(LLVM, in.data(), (uint32_t) in.size());
                bool abandon = r.chance(.05); std::string err; int at = abandon ? (int) r.below(f.ops.size() + 1) : -1;
                try {
                    Trace t { true }; std::vector<TVal> v = ti; int step = 0;
                    for (auto &o : f.ops) { if (step++ == at) throw std::runtime_error("user"); v.push_back(t.op(o, v)); }
                    if (at >= 0 && step <= at) throw std::runtime_error("user");
                    for (int o : f.out) { int rv; out.push_back(steal(jit_var_schedule_force(v[o].v, &rv))); }
                    jit_eval();
                    // like the language bindings, list every output variable only once
                    std::vector<uint32_t> q; omap.clear(); for (auto &x : out) { size_t m = std::find(q.begin(), q.end(), x.i) - q.begin(); if (m == q.size()) q.push_back(x); omap.push_back(m); } n_unique = q.size();
                    rec = jit_freeze_stop(LLVM, q.data(), (uint32_t) q.size());
                    H::stat("recordings");
                } catch (const std::exception &e) { err = e.what(); if (abandon || jit_flag(JitFlag::FreezingScope)) jit_freeze_abort(LLVM); }
                check_flags("recording");
                if (abandon) { H::stat("recordings_abandoned"); out.clear(); }
                else if (!err.empty()) { H::violation("record-raises", "%s [%s]", err.substr(0, 300).c_str(), text.c_str()); stop = true; }
            }
            for (size_t i = 0; i < out.size(); ++i) {
                const FVal &w = want[f.out[i]]; VU g = fetch(out[i]); VU ww = w.v;
                if (w.c == CD && g.size() == 1 && ww.size() == 1 && ww[0] == ~0ull) ww[0] = 0xffffffffull;
                H::stat("elements_compared", g.size());
                bool eq = g.size() == ww.size(); size_t k = 0; if (eq) for (; k < g.size(); ++k) if (g[k] != ww[k]) { eq = false; break; }
                if (!eq) { H::violation(replayed ? "replay-value" : "record-value", "output %zu (v%d): size %zu, expected %zu; element %zu is %llx, expected %llx [%s] recorded with %zu/%zu, called with %zu/%zu", i, f.out[i], g.size(), ww.size(), k, (unsigned long long) (k < g.size() ? g[k] : 0), (unsigned long long) (k < ww.size() ? ww[k] : 0), text.c_str(), rs.a, rs.b, sz.a, sz.b); stop = true; break; }
            }
            for (size_t i = 0; i < in.size(); ++i) {
                VU g = fetch(ti[i].v); if (g != mi[i].v) { H::violation("input-changed", "input %zu was modified by a %s [%s]", i, replayed ? "replay" : "recording", text.c_str()); stop = true; }
                if (dep[i].i) { g = fetch(dep[i]); for (size_t k = 0; k < g.size(); ++k) if (g[k] != ((mi[i].v[k] + 1) & tmask(mi[i].t))) { H::violation("dependent-changed", "a value computed from input %zu has changed [%s]", i, text.c_str()); stop = true; break; } }
                H::stat("inputs_checked");
            }
        }
        if (rec) jit_freeze_destroy(rec);
        H::sample(text);
        jit_set_flags(base); jit_eval(); jit_sync_thread();
        std::map<uint32_t, Row> rows; std::string w = jit_var_whos(); parse_whos(w, rows);
        if (!rows.empty()) { H::violation("leak", "%zu variables are left, e.g. r%u (%s, %lu refs, size %lu) [%s]", rows.size(), rows.begin()->first, rows.begin()->second.type.c_str(), rows.begin()->second.refs, rows.begin()->second.size, text.c_str()); int e = H::finish(); fflush(nullptr); _exit(e); }
        for (size_t q = 0; (q = w.find(" used (peak", q)) != std::string::npos; ++q) { size_t l = w.rfind('\n', q), c = w.find(": ", l), s = w.find('/', c); std::string u = w.substr(c + 2, s - c - 2); if (u != "0 B") { H::violation("leak-memory", "memory in use: %s [%s]", u.c_str(), text.c_str()); int e = H::finish(); fflush(nullptr); _exit(e); } }
        H::stat("leak_checks");
    });
    int rc = H::finish();
    jit_shutdown(1);
    return rc;
}
