// Gathers, scatters, scatter-reductions, atomic increment/exchange/compare-and-swap and their packet variants against
// plain arrays (C05). Targets live between canaries; snapshots of targets must keep their contents.
#include "ops.h"
#include "scen.h"

static const VarType VT[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32,
    VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
using VU = std::vector<uint64_t>;

static Var pack(VarType t, const VU &v) {
    std::vector<uint8_t> raw(v.size() * type_sz(t));
    for (size_t i = 0; i < v.size(); ++i) memcpy(raw.data() + i * type_sz(t), &v[i], type_sz(t));
    return copy_in(t, raw.data(), v.size());
}
static uint64_t num(VarType t, int64_t k) {  // small integer as a value of the type
    switch (t) {
        case VarType::Bool: return k & 1;
        case VarType::Float16: return d2h((double) k);
        case VarType::Float32: return tobits((float) k);
        case VarType::Float64: return tobits((double) k);
        default: return (uint64_t) k & refop::mask_of(t);
    }
}
/// A target: storage owned by the library, or mapped memory between canaries
struct Tgt {
    Var v; VarType t; VU m;
    int kind = -1;          // last pending update (-1: none)
    std::unique_ptr<uint8_t[]> store; size_t pad = 0;
    uint8_t *base = nullptr;
};
struct Want { Var v; VU m; std::vector<bool> dc; std::string d; VarType t; };  // dc: unspecified lanes
static std::string trace;
static std::string mset(const std::multiset<uint64_t> &s) { std::string o; for (uint64_t x : s) if (o.size() < 120) o += H::fmt("%llx ", (unsigned long long) x); return o; }
#define T(...) do { trace += H::fmt(__VA_ARGS__); trace += "; "; } while (0)

static void check(const Want &w) {
    if (w.t != jit_var_type(w.v)) { H::violation("type", "%s: type %s instead of %s [%s]", w.d.c_str(), type_nm(jit_var_type(w.v)), type_nm(w.t), trace.c_str()); return; }
    VU g = fetch(w.v);
    if (g.size() != w.m.size() && g.size() != 1) { H::violation("size", "%s: size %zu instead of %zu [%s]", w.d.c_str(), g.size(), w.m.size(), trace.c_str()); return; }
    for (size_t i = 0; i < w.m.size(); ++i) {
        if (w.dc.size() && w.dc[i]) continue;
        H::stat("elements_compared");
        uint64_t x = g[g.size() == 1 ? 0 : i];
        if (x != w.m[i] && !(flt_iszero(w.t, x) && flt_iszero(w.t, w.m[i]))) {
            H::violation("value", "%s: element %zu of %zu is %llx instead of %llx [%s]", w.d.c_str(), i, w.m.size(), (unsigned long long) x, (unsigned long long) w.m[i], trace.c_str());
            return;
        }
    }
}
static uint64_t combine(ReduceOp op, VarType t, uint64_t a, uint64_t b) {
    bool def = true; Op o = op == ReduceOp::Add ? Op::Add : op == ReduceOp::Mul ? Op::Mul : op == ReduceOp::Min ? Op::Min : op == ReduceOp::Max ? Op::Max : op == ReduceOp::And ? Op::And : Op::Or;
    return refop::eval(o, t, t, a, b, 0, def);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    H::loop([&](uint64_t, Rng &r) {
        nt_chaos(r.chance(.4) ? r.next() : 0, r.chance(.4) ? 1 + r.below(3) : 0);
        jit_llvm_set_block_size(1u << (4 + r.below(11) + (jit_llvm_vector_width() > 16)));
        jit_set_flag(JitFlag::ScatterReduceLocal, r.chance(.5));
        jit_set_flag(JitFlag::PacketOps, r.chance(.7));
        jit_set_flag(JitFlag::ConstantPropagation, r.chance(.8));
        jit_set_flag(JitFlag::LaunchBlocking, r.chance(.1));
        jit_set_flag(JitFlag::Debug, 0);
        trace.clear();
        std::vector<Tgt> tg;
        std::vector<Want> wants;
        uint32_t big = r.chance(.15) ? 30000 : r.chance(.4) ? 700 : 60;
        auto extent = [&](uint32_t mx) -> uint32_t { return r.chance(.08) ? 1 : r.chance(.3) ? (1 + r.below(4)) * 16 : 1 + r.below(mx); };
        int nt = 1 + r.below(3);
        for (int k = 0; k < nt; ++k) {
            Tgt t; t.t = r.pick(VT);
            if (r.chance(.5)) t.t = r.pick((const VarType[]) { VarType::UInt32, VarType::Int32, VarType::Float32, VarType::Float64, VarType::UInt64 });
            uint32_t m = r.chance(.15) ? 1 : extent(big);
            if (r.chance(.3)) m = (m + 7) / 8 * 8;
            for (uint32_t i = 0; i < m; ++i) t.m.push_back(num(t.t, is_flt(t.t) ? (int64_t) r.below(64) - 32 : (int64_t) r.next()));
            size_t ts = type_sz(t.t);
            int how = r.below(4);
            if (how == 0) {  // literal
                uint64_t b = num(t.t, r.below(3));
                t.m.assign(m, b); t.v = lit(t.t, b, m);
                T("t%d=literal %s[%u]", k, type_nm(t.t), m);
            } else if (how == 1) {
                size_t pad = 128, al = r.chance(.5) ? 0 : ts * r.below(8);
                t.store.reset(new uint8_t[m * ts + 2 * pad + 256]); t.pad = pad;
                t.base = (uint8_t *) (((uintptr_t) t.store.get() + 63) / 64 * 64) + pad + al;
                memset(t.store.get(), 0xC3, m * ts + 2 * pad + 256);
                for (uint32_t i = 0; i < m; ++i) memcpy(t.base + i * ts, &t.m[i], ts);
                t.v = steal(jit_var_mem_map(LLVM, t.t, t.base, m, 0));
                T("t%d=mapped+%zu %s[%u]", k, al, type_nm(t.t), m);
            } else if (how == 2) {  // computed, not evaluated yet
                Var a = pack(t.t, t.m);
                t.v = steal(jit_var_or(a, lit(t.t, 0)));
                T("t%d=expr %s[%u]", k, type_nm(t.t), m);
            } else { t.v = pack(t.t, t.m); T("t%d=array %s[%u]", k, type_nm(t.t), m); }
            tg.push_back(std::move(t));
        }
        auto settle = [&](Tgt &t, int kind) {  // updates of different kinds are not ordered: evaluate in between
            if (t.kind >= 0 && t.kind != kind) { jit_var_eval(t.v); T("eval t%d", (int) (&t - tg.data())); t.kind = -1; }
        };
        int steps = 2 + r.below(8);
        for (int s = 0; s < steps; ++s) {
            int ti = (int) r.below(nt);
            Tgt &t = tg[ti];
            uint32_t m = (uint32_t) t.m.size(), n = extent(big);
            if (r.chance(.06)) { jit_eval(); for (auto &q : tg) q.kind = -1; T("eval"); }
            if (r.chance(.06)) { jit_sync_thread(); }
            if (r.chance(.12)) {  // snapshot
                wants.push_back({ t.v, t.m, {}, H::fmt("snapshot of t%d taken before step %d", ti, s), t.t }); T("snapshot t%d", ti);
                if (t.kind >= 0) { /* a pending update belongs to both references */ }
            }
            // ---- mask
            bool dbg = r.chance(.06);
            jit_set_flag(JitFlag::Debug, dbg);
            int what = (int) r.below(10);
            bool packet = what == 2 || what == 3;
            uint32_t pn = packet ? (uint32_t) r.pick((const int[]) { 2, 4, 8 }) : 1;
            if (packet && (m < pn || m % pn)) { what = what == 2 ? 0 : 1; packet = false; pn = 1; }
            uint32_t slots = m / pn;
            bool unique = r.chance(.35);
            VU mk(n, 1), ix(n);
            double mp = r.chance(.3) ? 1 : r.uniform();
            for (uint32_t i = 0; i < n; ++i) mk[i] = r.chance(mp);
            uint32_t hot = r.chance(.4) ? 1 + r.below(std::min(slots, 4u)) : slots;
            for (uint32_t i = 0; i < n; ++i) ix[i] = r.below(hot);
            if (unique) {
                std::vector<uint32_t> perm(slots);
                for (uint32_t i = 0; i < slots; ++i) perm[i] = i;
                if (r.chance(.6)) for (uint32_t i = slots - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
                if (n > slots && r.chance(.7)) { n = slots; mk.resize(n); ix.resize(n); }
                for (uint32_t i = 0; i < n; ++i) { if (i < slots) ix[i] = perm[i]; else { ix[i] = 0; mk[i] = 0; } }
            }
            // indices of masked lanes may be anything
            VU ixv = ix;
            VarType it = r.pick((const VarType[]) { VarType::UInt32, VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64 });
            if (what >= 6) it = VarType::UInt32;   // atomics demand it
            if (packet) it = VarType::UInt32;
            for (uint32_t i = 0; i < n; ++i) if (!mk[i] && r.chance(.5)) ixv[i] = r.next() & refop::mask_of(VarType::UInt32) & (it == VarType::Int32 ? 0x7fffffff : ~0ull);
            Var vm, vi;
            bool scalar_mask = false;
            if (mp == 1 && !unique) { vm = lit_bool(1, r.chance(.8) ? 1 : n); scalar_mask = true; for (auto &x : mk) x = 1; }
            else if (r.chance(.05)) { vm = lit_bool(0); for (auto &x : mk) x = 0; scalar_mask = true; }
            else vm = pack(VarType::Bool, mk);
            if (r.chance(.1) && !unique) { for (uint32_t i = 0; i < n; ++i) ix[i] = ix[0]; vi = lit(it, ix[0]); if (scalar_mask) { n = 1; mk.resize(1); ix.resize(1); vm = lit_bool(mk[0]); } }
            else if (unique && mp == 1 && r.chance(.3)) { // identity permutation through a counter
                for (uint32_t i = 0; i < n; ++i) { ix[i] = i < slots ? i : 0; mk[i] = i < slots; }
                vi = steal(jit_var_counter(LLVM, n)); it = VarType::UInt32; vm = pack(VarType::Bool, mk);
            } else {
                if (dbg && scalar_mask == false && m > 1 && jit_var_state(t.v) != VarState::Literal) {  // (gathers from uniform values ignore the index)
                    // out of bounds accesses are skipped (and reported) in debug mode
                    for (uint32_t i = 0; i < n; ++i) if (mk[i] && r.chance(.02)) { ixv[i] = slots + r.below(3); mk[i] = 0; H::stat("out_of_bounds"); }
                }
                vi = pack(it, ixv);
            }
            size_t act = 0; for (auto x : mk) act += x;
            if (H::verbose()) fprintf(stderr, "step %d what=%d t%d n=%u m=%u act=%zu\n", s, what, ti, n, m, act);
            H::stat("active_lanes", act);
            if (what == 0 || what == 2) {  // gather
                std::vector<Var> o;
                if (!packet) o.push_back(steal(jit_var_gather(t.v, vi, vm)));
                else { uint32_t q[8]; jit_var_gather_packet(pn, t.v, vi, vm, q); for (uint32_t j = 0; j < pn; ++j) o.push_back(steal(q[j])); }
                if (act) t.kind = -1;   // (nothing is read when the mask is disabled)
                T("gather%u t%d n=%u%s", pn, ti, n, dbg ? " debug" : "");
                for (uint32_t j = 0; j < pn; ++j) {
                    Want w{ o[j], VU(n), {}, H::fmt("gather step %d component %u", s, j), t.t };
                    for (uint32_t i = 0; i < n; ++i) w.m[i] = mk[i] ? t.m[ix[i] * pn + j] : 0;
                    if (r.chance(.3)) check(w); else wants.push_back(w);
                }
                H::stat("gathers");
            } else if (what <= 5) {  // scatter / scatter-reduce
                ReduceOp op = what == 5 || packet ? r.pick((const ReduceOp[]) { ReduceOp::Identity, ReduceOp::Add }) : what == 1 ? ReduceOp::Identity :
                    r.pick((const ReduceOp[]) { ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or });
                if (!jit_can_scatter_reduce(LLVM, t.t, op)) op = ReduceOp::Identity;
                if (op == ReduceOp::Add && t.t == VarType::Float16 && n > 300) op = ReduceOp::Identity;
                ReduceMode mode = ReduceMode::Auto;
                if (op != ReduceOp::Identity) {
                    mode = r.pick((const ReduceMode[]) { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local, ReduceMode::Expand, ReduceMode::NoConflicts });
                    if (mode == ReduceMode::NoConflicts && !unique) mode = ReduceMode::Local;
                    if (mode == ReduceMode::Expand && m > 2000) mode = ReduceMode::Auto;
                }
                std::vector<VU> val(pn, VU(n));
                std::vector<Var> vv;
                bool vlit = r.chance(.15);
                for (uint32_t j = 0; j < pn; ++j) {
                    uint64_t c = num(t.t, r.below(4));
                    for (uint32_t i = 0; i < n; ++i) {
                        int64_t k = op == ReduceOp::Add ? (int64_t) r.below(3) : (int64_t) (is_flt(t.t) ? r.below(2000) - 1000.0 : (double) (r.next() >> 12));
                        val[j][i] = vlit ? c : (t.t == VarType::Float16 && op == ReduceOp::Add) ? num(t.t, r.below(2)) : num(t.t, k);
                    }
                    // conflicting plain scatters: all write the same value to a slot
                    if (op == ReduceOp::Identity && !unique && !vlit) for (uint32_t i = 0; i < n; ++i) val[j][i] = num(t.t, (int64_t) (ix[i] * 7 + s + j));
                    vv.push_back(vlit ? lit(t.t, c) : pack(t.t, val[j]));
                }
                settle(t, op == ReduceOp::Identity ? 100 : (int) op);
                if (mode == ReduceMode::NoConflicts && t.kind >= 0) { jit_var_eval(t.v); t.kind = -1; }
                if (packet && op == ReduceOp::Identity && t.kind >= 0) { jit_var_eval(t.v); t.kind = -1; }
                if (!packet) t.v = steal(jit_var_scatter(t.v, vv[0], vi, vm, op, mode));
                else { uint32_t q[8]; for (uint32_t j = 0; j < pn; ++j) q[j] = vv[j]; t.v = steal(jit_var_scatter_packet(pn, t.v, q, vi, vm, op, mode)); }
                t.kind = op == ReduceOp::Identity ? 100 : (int) op;
                T("scatter%u t%d op=%d mode=%d n=%u hot=%u uniq=%d%s", pn, ti, (int) op, (int) mode, n, hot, unique, dbg ? " debug" : "");
                for (uint32_t i = 0; i < n; ++i) if (mk[i]) for (uint32_t j = 0; j < pn; ++j) {
                    uint64_t &d = t.m[ix[i] * pn + j];
                    d = op == ReduceOp::Identity ? val[j][i] : combine(op, t.t, d, val[j][i]);
                }
                if (mode == ReduceMode::NoConflicts) { jit_var_eval(t.v); t.kind = -1; }
                H::stat(op == ReduceOp::Identity ? "scatters" : H::fmt("reductions_mode%d", (int) mode).c_str());
            } else if (what <= 7) {  // increment
                if (t.t != VarType::UInt32) continue;
                settle(t, -2);
                uint32_t idx = t.v.release();
                Var o = steal(jit_var_scatter_inc(&idx, vi, vm));
                t.v = steal(idx);
                T("inc t%d n=%u hot=%u", ti, n, hot);
                VU before = t.m, g = fetch(o);
                t.kind = -1;
                if (jit_var_size(o) != n && act) { H::violation("size", "increment: size %zu instead of %u [%s]", g.size(), n, trace.c_str()); return; }
                std::map<uint64_t, std::vector<uint32_t>> got;
                for (uint32_t i = 0; i < n; ++i) if (mk[i]) { got[ix[i]].push_back((uint32_t) (g[i] - before[ix[i]])); t.m[ix[i]] = (uint32_t) (t.m[ix[i]] + 1); }
                for (auto &kv : got) {
                    std::sort(kv.second.begin(), kv.second.end());
                    for (uint32_t i = 0; i < kv.second.size(); ++i) if (kv.second[i] != i) { H::violation("increment", "slot %llu: ticket %u handed out, expected %u (of %zu) [%s]", (unsigned long long) kv.first, kv.second[i], i, kv.second.size(), trace.c_str()); return; }
                }
                H::stat("increments", act);
            } else if (what == 8) {  // exchange
                if (type_sz(t.t) < 4 || t.t == VarType::Bool) continue;
                settle(t, -2);
                VU val(n);
                for (uint32_t i = 0; i < n; ++i) val[i] = num(t.t, (int64_t) (1000000 + s * 100000 + i));
                uint32_t idx = t.v.release();
                Var vv = pack(t.t, val);
                Var o = steal(jit_var_scatter_exch(&idx, vv, vi, vm));
                t.v = steal(idx);
                T("exch t%d n=%u hot=%u", ti, n, hot);
                VU g = fetch(o), fin = fetch(t.v);
                t.kind = -1;
                if (g.size() != n) { H::violation("size", "exchange: size %zu instead of %u [%s]", g.size(), n, trace.c_str()); return; }
                std::map<uint64_t, std::multiset<uint64_t>> in, out;
                for (uint32_t i = 0; i < m; ++i) { in[i].insert(t.m[i]); out[i].insert(fin[i]); }
                for (uint32_t i = 0; i < n; ++i) {
                    if (mk[i]) { in[ix[i]].insert(val[i]); out[ix[i]].insert(g[i]); }
                    else if (g[i] != 0) { H::violation("exchange", "masked lane %u returned %llx [%s]", i, (unsigned long long) g[i], trace.c_str()); return; }
                }
                for (uint32_t i = 0; i < m; ++i) if (in[i] != out[i]) { H::violation("exchange", "slot %u of %u: values lost or duplicated (%s became %s) [%s]", i, m, mset(in[i]).c_str(), mset(out[i]).c_str(), trace.c_str()); return; }
                t.m = fin;
                H::stat("exchanges", act);
            } else {  // compare-and-swap
                if (type_sz(t.t) < 4 || t.t == VarType::Bool) continue;
                settle(t, -2);
                VU val(n), cmp(n);
                for (uint32_t i = 0; i < n; ++i) { val[i] = num(t.t, (int64_t) (1000000 + s * 100000 + i)); cmp[i] = r.chance(.7) ? t.m[ix[i]] : num(t.t, 77); if (!unique) cmp[i] = t.m[ix[i]]; }
                uint32_t idx = t.v.release(), q0 = 0, q1 = 0;
                Var vv = pack(t.t, val), vc = pack(t.t, cmp);
                jit_var_scatter_cas(&idx, vc, vv, vi, vm, &q0, &q1);
                Var o = steal(q0), ok = steal(q1);
                t.v = steal(idx);
                T("cas t%d n=%u hot=%u", ti, n, hot);
                jit_var_schedule(o); jit_var_schedule(ok); jit_eval();
                VU g = fetch(o), gs = fetch(ok), fin = fetch(t.v);
                t.kind = -1;
                if (g.size() != n || gs.size() != n) { H::violation("size", "compare-and-swap: sizes %zu/%zu instead of %u [%s]", g.size(), gs.size(), n, trace.c_str()); return; }
                VU want = t.m;
                std::map<uint64_t, int> wins;
                for (uint32_t i = 0; i < n; ++i) {
                    if (!mk[i]) { if (gs[i] || g[i]) { H::violation("cas", "masked lane %u returned (%llx, %llx) [%s]", i, (unsigned long long) g[i], (unsigned long long) gs[i], trace.c_str()); return; } continue; }
                    if (gs[i]) { wins[ix[i]]++; want[ix[i]] = val[i]; if (g[i] != cmp[i]) { H::violation("cas", "lane %u succeeded with old value %llx != %llx [%s]", i, (unsigned long long) g[i], (unsigned long long) cmp[i], trace.c_str()); return; } }
                }
                for (uint32_t i = 0; i < n; ++i) if (mk[i]) {
                    bool possible = cmp[i] == t.m[ix[i]];
                    int w = wins.count(ix[i]) ? wins[ix[i]] : 0;
                    if (possible ? w != 1 : (bool) gs[i]) { H::violation("cas", "slot %llu: %d successful swaps (lane %u compares %llx, saw %llx, slot was %llx is %llx) [%s]", (unsigned long long) ix[i], w, i, (unsigned long long) cmp[i], (unsigned long long) g[i], (unsigned long long) t.m[ix[i]], (unsigned long long) fin[ix[i]], trace.c_str()); return; }
                    if (!gs[i] && g[i] != want[ix[i]] && !(unique && g[i] == t.m[ix[i]])) { H::violation("cas", "lane %u failed but saw %llx [%s]", i, (unsigned long long) g[i], trace.c_str()); return; }
                }
                for (uint32_t i = 0; i < m; ++i) if (fin[i] != want[i]) { H::violation("cas", "slot %u contains %llx instead of %llx [%s]", i, (unsigned long long) fin[i], (unsigned long long) want[i], trace.c_str()); return; }
                t.m = fin;
                H::stat("swaps", act);
            }
        }
        jit_set_flag(JitFlag::Debug, 0);
        for (auto &w : wants) check(w);
        for (size_t k = 0; k < tg.size(); ++k) {
            Want w{ tg[k].v, tg[k].m, {}, H::fmt("final t%zu", k), tg[k].t };
            check(w);
            if (tg[k].store) {
                jit_sync_thread();
                size_t ts = type_sz(tg[k].t), nb = tg[k].m.size() * ts;
                uint8_t *lo = tg[k].store.get(), *end = lo + nb + 2 * tg[k].pad + 256;
                for (uint8_t *p = lo; p < end; ++p) if ((p < tg[k].base || p >= tg[k].base + nb) && *p != 0xC3) {
                    H::violation("stray-write", "byte %td relative to the target was changed [%s]", p - tg[k].base, trace.c_str()); break;
                }
                H::stat("canaries_checked");
            }
        }
        wants.clear();
        tg.clear();
        if (H::verbose()) fprintf(stderr, "%s\n", trace.c_str());
        H::distinct(H::hash_str(trace)); H::sample(trace);
    });
    jit_shutdown(1);
    return H::finish();
}
