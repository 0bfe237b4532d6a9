// Invalid requests are rejected and leave everything as it was (C14).
#include "ops.h"
#include "scen.h"
#include "whos.h"
using VU = std::vector<uint64_t>;
static const VarType U32 = VarType::UInt32, B1 = VarType::Bool, F32 = VarType::Float32;
static Var packv(VarType t, const VU &v) { size_t s = type_sz(t); std::vector<uint8_t> b(v.size() * s); for (size_t i = 0; i < v.size(); ++i) memcpy(&b[i * s], &v[i], s); return copy_in(t, b.data(), v.size()); }
static Var seq(VarType t, size_t n, uint64_t m = 3) { VU v(n); for (size_t i = 0; i < n; ++i) v[i] = t == B1 ? i & 1 : t == F32 ? tobits((float) i) : t == VarType::Float64 ? tobits((double) i) : i * m; return packv(t, v); }
static std::string mem_used(const std::string &w) { std::string used; for (size_t q = 0; (q = w.find(" used (peak", q)) != std::string::npos; ++q) { size_t l = w.rfind('\n', q), c = w.find(": ", l), s = w.find('/', c); used += w.substr(c + 2, s - c - 2) + ";"; } return used; }

struct ErrCtx { size_t n; Var A, B, F, M, M5, D, X, S, L, G, U8, E8; Var one, tru; };
struct Snap {
    std::map<uint32_t, Row> rows; std::string used, prefix; uint32_t flags, scope, mask, sv, si;
    static Snap take() {
        Snap s; std::string w = jit_var_whos(); if (!parse_whos(w, s.rows)) H::violation("whos-format", "cannot parse"); s.used = mem_used(w);
        s.flags = jit_flags(); s.scope = jit_scope(LLVM); { Var m = steal(jit_var_mask_peek(LLVM)); s.mask = m.i; } jit_var_self(LLVM, &s.sv, &s.si); const char *p = jit_prefix(LLVM); s.prefix = p ? p : "(none)"; return s;
    }
    std::string diff(const Snap &o) const {
        if (flags != o.flags) return H::fmt("flags %x -> %x", flags, o.flags);
        if (scope != o.scope) return H::fmt("scope %u -> %u", scope, o.scope);
        if (mask != o.mask) return H::fmt("mask r%u -> r%u", mask, o.mask);
        if (sv != o.sv || si != o.si) return "self pointer";
        if (prefix != o.prefix) return "prefix";
        bool evaluated = false; std::string d;
        for (auto &q : o.rows) {
            auto it = rows.find(q.first);
            if (it == rows.end()) d = H::fmt("r%u (%s, %lu refs, size %lu) was left behind", q.first, q.second.type.c_str(), q.second.refs, q.second.size);
            else { if (it->second.status != q.second.status || it->second.storage != q.second.storage) evaluated = true;
                   if (it->second.type != q.second.type || it->second.size != q.second.size) return H::fmt("r%u changed its type or size", q.first);
                   if (it->second.refs != q.second.refs) d = H::fmt("r%u has %lu instead of %lu references", q.first, q.second.refs, it->second.refs); }
        }
        { for (auto &q : rows) if (!o.rows.count(q.first)) { d = H::fmt("r%u (%s) vanished", q.first, q.second.type.c_str()); if (q.second.type == "void") evaluated = true; } }
        if (evaluated) return "";     // pending work was carried out, which releases operands
        return d;
    }
};
struct ErrCase { const char *name; std::function<void(ErrCtx &, Rng &)> fn; };
#define I(...) { Var keep_ = steal(__VA_ARGS__); (void) keep_; }
static std::vector<ErrCase> catalog() {
    std::vector<ErrCase> c;
    auto add = [&](const char *n, std::function<void(ErrCtx &, Rng &)> f) { c.push_back({ n, f }); };
    #define BAD(n, ...) add(n, [](ErrCtx &c, Rng &r) { (void) c; (void) r; __VA_ARGS__; });
    // arithmetic
    BAD("add: sizes", I(jit_var_add(c.A, c.B)));
    BAD("add: empty operand", I(jit_var_add(c.A, 0)));
    BAD("mul: sizes", I(jit_var_mul(c.X, c.B)));
    BAD("fma: sizes", I(jit_var_fma(c.A, c.A, c.B)));
    BAD("div: empty operand", I(jit_var_div(0, c.A)));
    BAD("select: sizes", I(jit_var_select(c.M, c.A, c.B)));
    BAD("select: types", I(jit_var_select(c.M, c.A, c.F)));
    BAD("select: condition type", I(jit_var_select(c.A, c.A, c.A)));
    BAD("select: empty", I(jit_var_select(c.M, c.A, 0)));
    BAD("and: mask size", I(jit_var_and(c.A, c.M5)));
    BAD("and: types", I(jit_var_and(c.A, c.F)));
    BAD("or: types", I(jit_var_or(c.F, c.A)));
    BAD("cast: bit cast of different size", I(jit_var_cast(c.A, VarType::UInt64, 1)));
    BAD("mul_wide: float", I(jit_var_mul_wide(c.F, c.F)));
    BAD("shl: sizes", I(jit_var_shl(c.A, c.B)));
    // memory
    BAD("gather: index type", I(jit_var_gather(c.A, c.F, c.tru)));
    BAD("gather: empty source", I(jit_var_gather(0, c.A, c.tru)));
    BAD("gather: empty mask", I(jit_var_gather(c.A, c.A, 0)));
    BAD("gather: sizes", I(jit_var_gather(c.A, c.B, c.M)));
    BAD("gather: literal index out of bounds", Var i = lit_u32((uint32_t) c.n + (uint32_t) r.below(5)); I(jit_var_gather(c.A, i, c.tru)));
    BAD("gather_packet: length 1", uint32_t o[1] = {}; jit_var_gather_packet(1, c.G, c.B, c.tru, o));
    BAD("gather_packet: indivisible", uint32_t o[4] = {}; Var s = seq(U32, 5); jit_var_gather_packet(4, s, c.B, c.tru, o));
    BAD("gather_packet: empty source", uint32_t o[4] = {}; jit_var_gather_packet(4, 0, c.B, c.tru, o));
    BAD("scatter: types", I(jit_var_scatter(c.D, c.F, c.A, c.tru, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter: sizes", I(jit_var_scatter(c.D, c.A, c.B, c.tru, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter: mask size", I(jit_var_scatter(c.D, c.A, c.A, c.M5, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter: empty target", I(jit_var_scatter(0, c.A, c.A, c.tru, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter: permute reduction", I(jit_var_scatter(c.D, c.A, c.A, c.tru, ReduceOp::Add, ReduceMode::Permute)));
    BAD("scatter: bool reduction", I(jit_var_scatter(c.M, c.M, c.A, c.tru, ReduceOp::Add, ReduceMode::Auto)));
    BAD("scatter: float and", I(jit_var_scatter(c.F, c.F, c.A, c.tru, ReduceOp::And, ReduceMode::Auto)));
    BAD("scatter_packet: target size", uint32_t v[2] = { c.B, c.B }; I(jit_var_scatter_packet(2, c.A, v, c.B, c.tru, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter_packet: types", uint32_t v[2] = { c.B, c.F }; I(jit_var_scatter_packet(2, c.G, v, c.B, c.tru, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter_packet: sizes", uint32_t v[2] = { c.A, c.B }; I(jit_var_scatter_packet(2, c.G, v, c.B, c.tru, ReduceOp::Identity, ReduceMode::Auto)));
    BAD("scatter_inc: target type", uint32_t t = c.F; Var k = borrow(t); I(jit_var_scatter_inc(&t, c.A, c.tru)));
    BAD("scatter_inc: index type", uint32_t t = c.D; I(jit_var_scatter_inc(&t, c.F, c.tru)));
    BAD("scatter_inc: sizes", uint32_t t = c.D; I(jit_var_scatter_inc(&t, c.A, c.M5)));
    BAD("scatter_exch: types", uint32_t t = c.D; I(jit_var_scatter_exch(&t, c.F, c.A, c.tru)));
    BAD("scatter_exch: index type", uint32_t t = c.D; I(jit_var_scatter_exch(&t, c.A, c.F, c.tru)));
    BAD("scatter_cas: types", uint32_t t = c.D, o = 0, s = 0; jit_var_scatter_cas(&t, c.A, c.F, c.A, c.tru, &o, &s));
    BAD("scatter_cas: index type", uint32_t t = c.D, o = 0, s = 0; jit_var_scatter_cas(&t, c.A, c.A, c.F, c.tru, &o, &s));
    // whole-array operations
    BAD("read: out of bounds", uint32_t q; jit_var_read(r.chance(.5) ? c.A : c.X, c.n + r.below(3), &q));
    BAD("write: out of bounds", uint32_t q = 1; I(jit_var_write(r.chance(.5) ? c.A : c.X, c.n + r.below(3), &q)));
    BAD("shrink: larger", I(jit_var_shrink(r.chance(.5) ? c.A : c.X, c.n + 1)));
    BAD("resize: array", I(jit_var_resize(r.chance(.5) ? c.A : c.X, c.n + 1)));
    BAD("any: type", (void) jit_var_any(c.A));
    BAD("all: type", (void) jit_var_all(c.F));
    BAD("compress: type", I(jit_var_compress(c.A)));
    BAD("block_reduce: block size 0", I(jit_var_block_reduce(ReduceOp::Add, c.A, 0, 0)));
    BAD("block_prefix_reduce: block size 0", I(jit_var_block_prefix_reduce(ReduceOp::Add, c.A, 0, 0, 0)));
    BAD("block_reduce: mode", I(jit_var_block_reduce(ReduceOp::Add, c.A, 2, 7)));
    BAD("reduce: float and", I(jit_var_reduce(LLVM, F32, ReduceOp::And, c.F)));
    BAD("reduce: type mismatch", I(jit_var_reduce(LLVM, F32, ReduceOp::Add, c.A)));
    BAD("reduce_dot: types", I(jit_var_reduce_dot(c.A, c.F)));
    BAD("reduce_dot: empty", I(jit_var_reduce_dot(c.F, 0)));
    BAD("reduce_dot: sizes", Var f5 = seq(F32, 5); I(jit_var_reduce_dot(c.F, f5)));
    BAD("mask_apply: type", I(jit_var_mask_apply(c.A, (uint32_t) c.n)));
    BAD("mask_pop: underflow", jit_var_mask_pop(LLVM));
    BAD("prefix_pop: underflow", jit_prefix_pop(LLVM));
    BAD("prefix_push: string", jit_prefix_push(LLVM, r.chance(.5) ? "a/b" : "a\nb"));
    BAD("label: string", I(jit_var_set_label(c.X, 1, r.chance(.5) ? "a/b" : "a\nb")));
    BAD("label: string (shared)", Var k = borrow(c.A); I(jit_var_set_label(c.A, 1, "x/y")));
    // local arrays
    BAD("array: too long", I(jit_array_create(LLVM, U32, 1, 65536)));
    BAD("array_length: not an array", (void) jit_array_length(c.A));
    BAD("array_read: not an array", I(jit_array_read(c.A, c.one, c.tru)));
    BAD("array_read: offset type", I(jit_array_read(c.L, c.F, c.tru)));
    BAD("array_read: mask type", I(jit_array_read(c.L, c.A, c.A)));
    BAD("array_read: sizes", I(jit_array_read(c.L, c.B, c.tru)));
    BAD("array_write: type", I(jit_array_write(c.L, c.one, c.F, c.tru)));
    BAD("array_write: sizes", I(jit_array_write(c.L, c.one, c.B, c.tru)));
    BAD("array_init: type", I(jit_array_init(c.L, c.F)));
    BAD("array_init: size", I(jit_array_init(c.L, c.B)));
    // calls, loops, conditionals
    BAD("call_input: empty", I(jit_var_call_input(0)));
    BAD("loop_start: no state", Rec rec; I(jit_var_loop_start("l", false, 0, nullptr)));
    BAD("loop_start: empty state", Rec rec; uint32_t s[2] = { c.A, 0 }; I(jit_var_loop_start("l", false, 2, s)));
    BAD("loop: condition type", (void) sym_loop({ c.A }, [](Vars &s) { return s[0]; }, [](Vars &s) { return s; }));
    BAD("loop: state becomes empty", (void) sym_loop({ c.A, c.one }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [](Vars &s) { return Vars { s[0], Var() }; }));
    BAD("loop: incompatible shape", (void) sym_loop({ c.A, c.one }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { return Vars { s[0], steal(jit_var_add(s[1], c.B)) }; }));
    BAD("loop: type changes", (void) sym_loop({ c.A, c.one }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { return Vars { s[0], steal(jit_var_add(c.F, steal(jit_var_cast(s[1], F32, 0)))) }; }));
    BAD("loop: exception in the body", (void) sym_loop({ c.A }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { Var q = steal(jit_var_add(s[0], c.one)); c.D = steal(jit_var_scatter(c.D, q, c.A, c.tru, ReduceOp::Identity, ReduceMode::Auto)); throw std::runtime_error("user"); return s; }));
    BAD("cond: number of outputs", (void) sym_if(c.M, [&] { return Vars { c.A, c.A }; }, [&] { return Vars { c.A }; }));
    BAD("cond: sizes", (void) sym_if(c.M, [&] { return Vars { c.A }; }, [&] { return Vars { c.B }; }));
    BAD("cond: uninitialized second output", (void) sym_if(c.M, [&] { return Vars { c.A, c.A }; }, [&] { return Vars { c.X, Var() }; }));
    BAD("cond: sizes (second output)", (void) sym_if(c.M, [&] { return Vars { c.A, c.A }; }, [&] { return Vars { c.X, c.B }; }));
    BAD("cond: side effect of another size (second branch)", (void) sym_if(c.M, [&] { Var t = steal(jit_var_scatter(c.D, c.A, c.A, c.tru, ReduceOp::Identity, ReduceMode::Auto)); return Vars { c.A }; }, [&] { Var t = steal(jit_var_scatter(c.G, c.B, c.B, c.tru, ReduceOp::Identity, ReduceMode::Auto)); return Vars { c.A }; }));
    BAD("cond: exception in the second branch", (void) sym_if(c.M, [&] { Var t = steal(jit_var_scatter(c.D, c.A, c.A, c.tru, ReduceOp::Identity, ReduceMode::Auto)); return Vars { t, c.A }; }, [&] { throw std::runtime_error("user"); return Vars { c.A }; }));
    BAD("cond: uninitialized output", (void) sym_if(c.M, [&] { return Vars { c.A }; }, [&] { return Vars { Var() }; }));
    BAD("cond: side effect of another size", (void) sym_if(c.M, [&] { Var t = steal(jit_var_scatter(c.G, c.B, c.B, c.tru, ReduceOp::Identity, ReduceMode::Auto)); return Vars { c.A }; }, [&] { return Vars { c.A }; }));
    BAD("cond: evaluation inside", (void) sym_if(c.M, [&] { Vars l = sym_loop({ c.A }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { jit_var_eval(s[0]); return s; }); return Vars { l[0] }; }, [&] { return Vars { c.A }; }));
    BAD("loop: read of the state", (void) sym_loop({ c.A }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { uint32_t q; jit_var_read(s[0], 0, &q); return s; }));
    BAD("loop: gather from the state", (void) sym_loop({ c.A }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { Var q = steal(jit_var_add(s[0], c.A)); return Vars { steal(jit_var_gather(q, c.A, c.tru)) }; }));
    BAD("loop: reduction of the state", (void) sym_loop({ c.A }, [&](Vars &s) { return steal(jit_var_lt(s[0], c.one)); }, [&](Vars &s) { return Vars { steal(jit_var_reduce(LLVM, U32, ReduceOp::Add, s[0])) }; }));
    BAD("call: mask type", uint32_t id = 1, cp[2] = { 0, 0 }, in[1], out[1]; (void) in; (void) out; jit_var_call("c", false, c.A, c.A, 1, 1, &id, 0, in, 0, in, cp, out));
    BAD("call: self type", uint32_t id = 1, cp[2] = { 0, 0 }, in[1], out[1]; (void) in; (void) out; jit_var_call("c", false, c.F, c.M, 1, 1, &id, 0, in, 0, in, cp, out));
    BAD("call: no instance", uint32_t id = 1, cp[2] = { 0, 0 }, in[1], out[1]; (void) in; (void) out; jit_var_call("c", false, c.A, c.M, 0, 0, &id, 0, in, 0, in, cp, out));
    BAD("call: output types", (void) sym_call(2, steal(jit_var_and(c.A, c.one)), c.tru, { c.A }, [&](uint32_t k, Vars &a) { return k == 0 ? Vars { a[0] } : Vars { steal(jit_var_cast(a[0], F32, 0)) }; }));
    BAD("call: output size", (void) sym_call(2, steal(jit_var_and(c.A, c.one)), c.tru, { c.A }, [&](uint32_t k, Vars &a) { return k == 0 ? Vars { a[0] } : Vars { c.A }; }));
    BAD("call: number of outputs", (void) sym_call(2, steal(jit_var_and(c.A, c.one)), c.tru, { c.A }, [&](uint32_t k, Vars &a) { return k == 0 ? Vars { a[0] } : Vars { }; }));
    BAD("call: captured array", (void) sym_call(2, steal(jit_var_and(c.A, c.one)), c.tru, { c.A }, [&](uint32_t, Vars &a) { return Vars { steal(jit_var_add(a[0], c.A)) }; }));
    BAD("call: exception in a callable", (void) sym_call(3, steal(jit_var_and(c.A, c.one)), c.tru, { c.A }, [&](uint32_t k, Vars &a) { if (k == 1) throw std::runtime_error("user"); Var q = steal(jit_var_scatter(c.D, a[0], c.one, c.tru, ReduceOp::Add, ReduceMode::Auto)); return Vars { a[0] }; }));
    BAD("call: evaluation in a callable", (void) sym_call(2, steal(jit_var_and(c.A, c.one)), c.tru, { c.A }, [&](uint32_t, Vars &a) { jit_var_eval(a[0]); return Vars { a[0] }; }));
    BAD("call_getter: index type", uint32_t v[2] = { 0, c.one }; I(jit_var_call_getter(U32, 2, v, c.F, c.M)));
    // registry, memory, events
    BAD("registry: unknown pointer", (void) jit_registry_remove(&r));
    BAD("registry: unknown pointer (id)", (void) jit_registry_id(&r));
    BAD("free: unknown pointer", jit_free(&r));
    BAD("malloc_device: unknown pointer", (void) jit_malloc_device(&r));
    BAD("migrate: unknown pointer", (void) jit_malloc_migrate(&r, JitBackend::None, 0));
    BAD("backend: unknown", (void) jit_has_backend((JitBackend) 77));
    BAD("compress: raw", I(jit_var_compress(c.F)));
    // cooperative vectors
    BAD("coop_vec: empty", I(jit_coop_vec_pack(0, nullptr)));
    BAD("coop_vec: uninitialized", uint32_t v[2] = { c.F, 0 }; I(jit_coop_vec_pack(2, v)));
    BAD("coop_vec: types", uint32_t v[2] = { c.F, c.A }; I(jit_coop_vec_pack(2, v)));
    BAD("coop_vec: sizes", Var f5 = seq(F32, 5); uint32_t v[2] = { c.F, f5 }; I(jit_coop_vec_pack(2, v)));
    BAD("coop_vec: lengths", uint32_t v[2] = { c.F, c.F }; Var a = steal(jit_coop_vec_pack(2, v)), b = steal(jit_coop_vec_pack(1, v)); I(jit_coop_vec_binary_op(JitOp::Add, a, b)));
    BAD("coop_vec: not a vector", (void) jit_coop_vec_length(c.F));
    BAD("coop_vec: unpack length", uint32_t v[2] = { c.F, c.F }, o[3] = {}; Var a = steal(jit_coop_vec_pack(2, v)); jit_coop_vec_unpack(a, 3, o));
    BAD("gemm: types", Var q; GemmBatch gb {}; I(jit_var_batched_gemm(c.F, c.A, 1, 1, 1, false, false, &gb)));
    BAD("gemm: empty", GemmBatch gb {}; I(jit_var_batched_gemm(c.F, 0, 1, 1, 1, false, false, &gb)));
    return c;
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start(LogLevel::Disable);
    auto cat = catalog();
    std::string only = H::opts("only", "");
    uint32_t base = jit_flags();
    H::loop([&](uint64_t cs, Rng &r) {
        jit_set_flags(base); for (uint32_t f : { 2, 4, 6, 9, 10 }) if (r.chance(.15)) jit_set_flag((JitFlag) (1u << f), 0);
        if (r.chance(.1)) jit_set_flag(JitFlag::Debug, 1);
        std::string names;
        {
            ErrCtx c; c.n = 17; size_t n = c.n;
            c.A = seq(U32, n, 1); c.B = seq(U32, 5, 1); c.F = seq(F32, n); c.M = seq(B1, n); c.M5 = seq(B1, 5); c.G = seq(U32, 32); c.D = seq(U32, n); c.one = lit_u32(1); c.tru = lit_bool(true);
            c.X = steal(jit_var_add(c.A, lit_u32(5))); c.S = steal(jit_var_mul(c.A, lit_u32(7)));
            c.L = steal(jit_array_create(LLVM, U32, n, 4)); c.L = steal(jit_array_init(c.L, steal(jit_var_resize(lit_u32(9), n))));
            if (r.chance(.5)) c.D = steal(jit_var_scatter(c.D, lit_u32(1000), lit_u32(3), c.tru, ReduceOp::Identity, ReduceMode::Auto)); else { VU q(n); for (size_t i = 0; i < n; ++i) q[i] = i == 3 ? 1000 : i * 3; c.D = packv(U32, q); }
            if (r.chance(.5)) jit_var_schedule(c.S);
            bool pfx = r.chance(.3), mk = r.chance(.3) && only.empty(); Var msk;
            int cnt = 1 + r.below(6);
            for (int k = 0; k < cnt; ++k) {
                const ErrCase &b = only.empty() ? cat[r.below(4) == 0 ? cs % cat.size() : r.below(cat.size())] : *std::find_if(cat.begin(), cat.end(), [&](auto &q) { return only == q.name; });
                names += std::string(b.name) + "; ";
                if (H::verbose()) fprintf(stderr, "TR %s\n", b.name);
                bool under = !strstr(b.name, "underflow");
                if (pfx && under) jit_prefix_push(LLVM, "p");
                if (mk && under) { msk = steal(jit_var_mask_default(LLVM, n)); jit_var_mask_push(LLVM, msk); }
                uint32_t dix = c.D; Snap s0 = Snap::take(); bool threw = false; std::string what;
                try { b.fn(c, r); } catch (const std::exception &e) { threw = true; what = e.what(); }
                if (!threw) H::violation(std::string("accepted:") + b.name, "no error was reported");
                Snap s1 = Snap::take(); if (strncmp(b.name, "call", 4) == 0 || strncmp(b.name, "cond", 4) == 0 || strncmp(b.name, "loop", 4) == 0) s1.scope = s0.scope;   // scopes are unique numbers that need not be restored
                std::string d = s0.diff(s1);
                if (!d.empty() && c.D.i == dix) H::violation(std::string("state:") + b.name, "%s (error: %s) [%s]", d.c_str(), what.substr(0, 150).c_str(), names.c_str());
                if (mk && under) jit_var_mask_pop(LLVM);
                if (pfx && under) jit_prefix_pop(LLVM);
                if (what.size() < 4) H::violation("message", "error without explanation: %s", b.name);
                H::stat("rejected"); H::distinct(H::hash_str(b.name));
                // subsequent correct use works
                if (r.chance(.3)) { Var q = steal(jit_var_add(c.A, c.X)); VU g = fetch(q); for (size_t i = 0; i < n; ++i) if (g[i] != 2 * i + 5) { H::violation(std::string("later:") + b.name, "a computation after the error yields %llu", (unsigned long long) g[i]); break; } }
            }
            VU a = fetch(c.A), x = fetch(c.X), s = fetch(c.S), d = fetch(c.D), g = fetch(c.G), f = fetch(c.F), l = fetch(steal(jit_array_read(c.L, lit_u32(2), lit_bool(true))));
            for (size_t i = 0; i < n; ++i)
                if (a[i] != i || x[i] != i + 5 || s[i] != i * 7 || d[i] != (i == 3 ? 1000 : i * 3) || g[i] != i * 3 || f[i] != tobits((float) i) || l[l.size() == 1 ? 0 : i] != 9) {
                    H::violation("bystander", "element %zu: %llu %llu %llu %llu %llu %llx %llu [%s]", i, (unsigned long long) a[i], (unsigned long long) x[i], (unsigned long long) s[i], (unsigned long long) d[i], (unsigned long long) g[i], (unsigned long long) f[i], (unsigned long long) l[l.size() == 1 ? 0 : i], names.c_str()); break; }
            H::stat("bystanders_checked", 7);
        }
        jit_set_flags(base); jit_eval(); jit_sync_thread();
        std::map<uint32_t, Row> rows; std::string w = jit_var_whos(); parse_whos(w, rows); std::string used = mem_used(w);
        if (!rows.empty()) { H::violation("leak", "%zu variables are left, e.g. r%u (%s, %lu refs, size %lu) [%s]", rows.size(), rows.begin()->first, rows.begin()->second.type.c_str(), rows.begin()->second.refs, rows.begin()->second.size, names.c_str()); { int e_ = H::finish(); fflush(nullptr); _exit(e_); } }
        for (size_t p = 0, e; (e = used.find(';', p)) != std::string::npos; p = e + 1) if (used.substr(p, e - p) != "0 B") { H::violation("leak-memory", "memory in use: %s [%s]", used.c_str(), names.c_str()); { int e_ = H::finish(); fflush(nullptr); _exit(e_); } }
        H::stat("leak_checks"); H::sample(names);
    });
    int rc = H::finish();
    jit_shutdown(1);
    return rc;
}
