// flags: -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1
// Memory allocator monitors (C08): code memory manager, allocation cache, asynchronous recycling
#include "common.h"
#include "src/llvm_memmgr.h"

// ------------------------------------------------------------- code memory manager (callbacks invoked by LLVM)
static void memmgr_case(Rng &r) {
    std::string log;
    for (int round = 0; round < 6; ++round) {
        size_t sz = 1 + r.below(r.pick({ 20u, 300u, 3000u }));
        jitc_llvm_memmgr_prepare(sz);
        uint8_t *base = jitc_llvm_memmgr_data;
        log += H::fmt("| prepare(%zu) ", sz);
        if (!base || jitc_llvm_memmgr_offset != 0) { H::violation("memmgr", "prepare() did not reset the manager"); return; }
        struct Sec { uint8_t *p; size_t n; uint8_t tag; };
        std::vector<Sec> secs; uint8_t *end = base; bool exhausted = false;
        int n = 1 + r.below(14);
        for (int i = 0; i < n; ++i) {
            size_t size = r.chance(.1) ? 0 : r.below(r.chance(.2) ? sz * 12 + 2 : sz * 3 + 2);
            unsigned al = r.pick({ 0u, 1u, 2u, 4u, 8u, 16u, 32u, 64u, 128u, 4096u }), ea = al ? al : 16;
            const char *name = r.chance(.5) ? ".text" : ".rodata";
            // the bytes that follow are stale
            log += H::fmt("(%zu,%u) ", size, al);
            uint8_t *p = r.chance(.5) ? jitc_llvm_memmgr_allocate(nullptr, size, al, (unsigned) i, name)
                                      : jitc_llvm_memmgr_allocate_data(nullptr, size, al, (unsigned) i, name, 1);
            uint8_t *want = base + (size_t) (end - base + ea - 1) / ea * ea;
            if (exhausted || (size_t) (want - base) + size > sz * 10) {   // at least 10 bytes of storage per byte of IR were promised
                if (!p) { if ((exhausted = true)) { } H::stat("memmgr_exhausted"); if (jitc_llvm_memmgr_offset <= (size_t) (end - base) && size) { H::violation("memmgr", "exhaustion is not visible in the offset: %s", log.c_str()); return; } continue; }
            } else if (!p) { H::violation("memmgr", "allocation failed although it fits: %s", log.c_str()); return; }
            if (p != want && ((uintptr_t) p % ea || p < end)) { H::violation("memmgr", "section is misaligned or overlaps a previous one: %s", log.c_str()); return; }
            if ((size_t) (p + size - base) > jitc_llvm_memmgr_offset) { H::violation("memmgr", "section lies beyond the recorded offset: %s", log.c_str()); return; }
            for (uint8_t *q = end; q < p; ++q) if (*q) { H::violation("memmgr", "padding before a section is not zero: %s", log.c_str()); return; }
            uint8_t tag = (uint8_t) (1 + r.below(255));
            memset(p, tag, size); secs.push_back({ p, size, tag }); end = p + size;
            H::stat("memmgr_sections");
        }
        for (auto &s : secs) for (size_t k = 0; k < s.n; ++k) if (s.p[k] != s.tag) { H::violation("memmgr", "a later section overwrote an earlier one: %s", log.c_str()); return; }
        if (r.chance(.2)) { jitc_llvm_memmgr_shutdown(); if (jitc_llvm_memmgr_data || jitc_llvm_memmgr_offset) { H::violation("memmgr", "shutdown"); return; } }
    }
    bool g0 = jitc_llvm_memmgr_got; jitc_llvm_memmgr_prepare(100);
    jitc_llvm_memmgr_allocate_data(nullptr, 8, 8, 0, ".data", 0); if (jitc_llvm_memmgr_got != g0) H::violation("memmgr", "got flag set by an ordinary section");
    jitc_llvm_memmgr_allocate_data(nullptr, 8, 8, 0, r.chance(.5) ? ".got" : ".got.plt", 0); if (!jitc_llvm_memmgr_got) H::violation("memmgr", "global offset table went unnoticed");
    jitc_llvm_memmgr_shutdown(); if (jitc_llvm_memmgr_got) H::violation("memmgr", "got flag survives shutdown");
    H::distinct(H::hash_str(log));
    if (r.chance(.02)) H::sample("code memory manager: " + log);
}

// ------------------------------------------------------------- allocator
struct Blk { uint8_t *p; size_t n; JitBackend b; bool shared; uint64_t tag; bool written; };
static std::map<uintptr_t, uintptr_t> live_iv; static std::mutex iv_m;
static void iv_add(const void *p_, size_t n, const char *who) {
    uintptr_t p = (uintptr_t) p_;
    std::lock_guard<std::mutex> g(iv_m);
    auto it = live_iv.lower_bound(p);
    bool bad = (it != live_iv.end() && it->first < p + n);
    if (it != live_iv.begin()) { --it; bad |= it->second > p; }
    if (bad) H::violation("overlap", "%s returned memory that overlaps a live allocation (%zu bytes)", who, n);
    live_iv[p] = p + n;
}
static void iv_del(const void *p) { std::lock_guard<std::mutex> g(iv_m); live_iv.erase((uintptr_t) p); }
static void fill(uint8_t *p, size_t n, uint64_t tag) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t) (tag * 31 + i * 7); }
static bool same(const uint8_t *p, size_t n, uint64_t tag) { for (size_t i = 0; i < n; ++i) if (p[i] != (uint8_t) (tag * 31 + i * 7)) return false; return true; }
static size_t rnd_size(Rng &r) { switch (r.below(6)) { case 0: return 1 + r.below(8); case 1: return 1 + r.below(300); case 2: return (size_t) 1 << r.below(15); case 3: return ((size_t) 1 << r.below(15)) + 1; case 4: return 2097152 - 64 + r.below(200); default: return 1 + r.below(70000); } }
static size_t allocated(JitBackend b) { jit_malloc_clear_statistics(); return jit_malloc_watermark(b); }
static std::atomic<uint64_t> n_ops;
static void alloc_history(Rng &r, int ops, bool quiescent_writes, std::vector<Blk> *handoff, std::mutex *hm) {
    std::vector<Blk> l;
    auto check_free = [&](Blk b) {
        if (b.written && !same(b.p, b.n, b.tag)) H::violation("content", "contents of an allocation of %zu bytes (%s) changed while it was live", b.n, b.b == LLVM ? "LLVM" : "host");
        iv_del(b.p); jit_free(b.p);
    };
    for (int o = 0; o < ops; ++o) {
        n_ops++;
        int op = r.below(12);
        if (op < 5 || l.empty()) {
            JitBackend b = r.chance(.5) ? LLVM : JitBackend::None; bool sh = r.chance(.4);
            size_t n = rnd_size(r);
            if (!n) continue;
            uint8_t *p = (uint8_t *) jit_malloc(b, n, sh);
            if (!p) { H::violation("null", "jit_malloc(%zu) returned null", n); return; }
            if ((uintptr_t) p % 64) H::violation("align", "jit_malloc(%zu) is not aligned to 64 bytes", n);
            iv_add(p, n, "jit_malloc()");
            Blk k { p, n, b, sh, r.next(), false };
            if (b == JitBackend::None || sh || quiescent_writes) { fill(p, n, k.tag); k.written = true; }   // immediately writable
            l.push_back(k);
        } else if (op < 8) { size_t i = r.below(l.size()); check_free(l[i]); l[i] = l.back(); l.pop_back(); }
        else if (op == 8) {   // migration between host and LLVM
            size_t i = r.below(l.size()); Blk &b = l[i]; if (!b.written) continue;
            bool mv = r.chance(.5); JitBackend dst = r.chance(.5) ? LLVM : JitBackend::None;
            if (mv) {   // the caller synchronises before touching or releasing migrated memory
                iv_del(b.p); uint8_t *q = (uint8_t *) jit_malloc_migrate(b.p, dst, 1); iv_add(q, b.n, "jit_malloc_migrate()"); b.p = q; b.b = dst; b.shared = false; jit_sync_thread();
                if (!same(b.p, b.n, b.tag)) H::violation("migrate", "moved allocation lost its contents");
            } else {
                uint8_t *q = (uint8_t *) jit_malloc_migrate(b.p, dst, 0); if (q == b.p) { H::violation("migrate", "copy returned its source"); continue; }
                iv_add(q, b.n, "jit_malloc_migrate()"); jit_sync_thread();
                if (!same(q, b.n, b.tag) || !same(b.p, b.n, b.tag)) H::violation("migrate", "copied allocation lost its contents");
                iv_del(q); jit_free(q);
            }
            H::stat("migrations");
        } else if (op == 9) { if (r.chance(.2)) { jit_flush_malloc_cache(); H::stat("flushes"); } }
        else if (op == 10) { Blk &b = l[r.below(l.size())]; if (b.written && !same(b.p, b.n, b.tag)) H::violation("content", "live allocation changed"); if (jit_malloc_device(b.p) != -1) H::violation("device", "jit_malloc_device()"); }
        else if (handoff) {
            std::lock_guard<std::mutex> g(*hm);
            if (r.chance(.5) && !handoff->empty()) { l.push_back(handoff->back()); handoff->pop_back(); H::stat("handoffs"); }
            else { handoff->push_back(l.back()); l.pop_back(); }
        }
    }
    for (auto &b : l) check_free(b);
}
static void accounting(const char *where, const std::map<JitBackend, size_t> &want) {
    jit_sync_thread(); jit_flush_malloc_cache();
    for (auto &kv : want) {
        size_t a = allocated(kv.first);
        if (a != kv.second) H::violation("accounting", "%s: %zu bytes are held for backend %d although live allocations amount to %zu", where, a, (int) kv.first, kv.second);
        H::stat("accounting_checks");
    }
}
static void alloc_case(Rng &r) {
    size_t b0 = 0, b1 = 0;
    jit_sync_thread(); jit_flush_malloc_cache(); b0 = allocated(JitBackend::None); b1 = allocated(LLVM);
    std::vector<Blk> handoff; std::mutex hm;
    int nt = r.below(3) ? 1 : 2 + (int) r.below(4), ops = nt == 1 ? 250 : 120;
    std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    auto body = [&](int i) { Rng q(seeds[i]); alloc_history(q, ops, false, &handoff, &hm); jit_sync_thread(); };
    for (int i = 1; i < nt; ++i) th.emplace_back(body, i);
    body(0);
    for (auto &t : th) t.join();
    for (auto &b : handoff) { if (b.written && !same(b.p, b.n, b.tag)) H::violation("content", "allocation changed after being handed to another thread"); iv_del(b.p); jit_free(b.p); }
    accounting("everything freed", { { JitBackend::None, b0 }, { LLVM, b1 } });
    H::distinct(r.next()); H::stat("allocator_operations", n_ops); n_ops = 0;
    // exact accounting of a known set
    std::map<JitBackend, size_t> cur { { JitBackend::None, b0 }, { LLVM, b1 } };
    std::vector<void *> l; std::vector<size_t> gr; std::vector<JitBackend> bk;
    for (int i = 0; i < 12; ++i) {
        JitBackend b = r.chance(.5) ? LLVM : JitBackend::None; size_t n = rnd_size(r);
        size_t a0 = allocated(b); void *p = jit_malloc(b, n, r.chance(.3)); size_t a1 = jit_malloc_watermark(b);
        if (a1 < a0 + n && a1 != a0) H::violation("accounting", "allocation of %zu bytes raised the total by %zu", n, a1 - a0);
        if (a1 == a0) { H::stat("reused"); }
        l.push_back(p); gr.push_back(a1 - a0); bk.push_back(b); cur[b] += a1 - a0;
        (void) n;
    }
    accounting("a known set is live", cur);
    while (!l.empty()) {
        size_t i = r.below(l.size()); size_t w0 = allocated(bk[i]); jit_free(l[i]); if (jit_malloc_watermark(bk[i]) < w0) H::violation("accounting", "watermark dropped");
        cur[bk[i]] -= gr[i]; l.erase(l.begin() + i); gr.erase(gr.begin() + i); bk.erase(bk.begin() + i);
        if (r.chance(.3)) accounting("some of a known set is live", cur);
    }
    accounting("known set freed", cur);
    // watermark
    allocated(LLVM); size_t m0 = jit_malloc_watermark(LLVM); void *p = jit_malloc(LLVM, 5000, 0); size_t m1 = jit_malloc_watermark(LLVM); jit_free(p); jit_flush_malloc_cache();
    if (jit_malloc_watermark(LLVM) != m1 || m1 < m0 + 5000) H::violation("watermark", "watermark %zu -> %zu -> %zu", m0, m1, jit_malloc_watermark(LLVM));
    jit_malloc_clear_statistics(); if (jit_malloc_watermark(LLVM) != m0) H::violation("watermark", "watermark after clearing");
    // unknown pointers, zero and impossible sizes
    int x; bool threw = false; try { jit_free(&x); } catch (const std::exception &) { threw = true; } if (!threw) H::violation("unknown", "jit_free() of a foreign pointer was accepted");
    jit_free(nullptr); if (jit_malloc(LLVM, 0, 0) || jit_malloc(JitBackend::None, 0, 0)) H::violation("zero", "zero-sized allocation");
    for (size_t huge : { (size_t) 1 << 49, (size_t) 1 << 46 }) for (JitBackend b : { LLVM, JitBackend::None }) {
        threw = false; void *q = nullptr; try { q = jit_malloc(b, huge, 0); } catch (const std::exception &) { threw = true; }
        if (!threw && q == (void *) -1) { H::violation("oom", "failed allocation of 2^%d bytes returned an invalid pointer", huge == (size_t) 1 << 49 ? 49 : 46); return; }
        if (q) jit_free(q);
        H::stat(threw ? "oom_reported" : "oom_granted");
    }
    accounting("after failed allocations", cur);
}
// a thread that has never used the backend releases memory (garbage collector threads do that)
static void foreign_case(Rng &r) {
    jit_sync_thread(); jit_flush_malloc_cache(); size_t b0 = allocated(JitBackend::None), b1 = allocated(LLVM);
    std::vector<void *> l; std::vector<uint32_t> vars;
    for (int i = 0; i < 10; ++i) l.push_back(jit_malloc(r.chance(.5) ? LLVM : JitBackend::None, rnd_size(r), r.chance(.5)));
    for (int i = 0; i < 10; ++i) { std::vector<uint32_t> d(1 + r.below(3000), i); vars.push_back(jit_var_mem_copy(LLVM, VarType::UInt32, d.data(), d.size(), 1)); }
    std::thread([&] { for (void *p : l) jit_free(p); for (uint32_t v : vars) jit_var_dec_ref(v); }).join();
    accounting("freed by a thread without backend state", { { JitBackend::None, b0 }, { LLVM, b1 } });
    H::stat("foreign_thread_frees", 20); H::distinct(r.next());
}
// asynchronous recycling: results of in-flight kernels must survive any churn of the allocation cache
static void async_case(Rng &r) {
    nt_chaos(r.next(), 1 + r.below(3));
    struct Ent { Var v; uint32_t a, b, n; }; std::vector<Ent> l;   // contents: a + b * i
    std::vector<Blk> host; uint32_t sizes[] = { 1, 17, 1000, 4096, 30000, 200000 };
    int ops = H::thorough() ? 160 : 60; std::string log;
    auto check = [&](Ent &e) {
        std::vector<uint64_t> d = fetch(e.v);
        for (uint32_t i = 0; i < e.n; ++i) if (d[i] != (uint32_t) (e.a + e.b * i)) { H::violation("async", "element %u of %u is %llu, expected %u: a buffer was recycled too early: %s", i, e.n, (unsigned long long) d[i], e.a + e.b * i, log.c_str()); return false; }
        H::stat("async_arrays_checked"); return true;
    };
    for (int o = 0; o < ops; ++o) {
        int op = r.below(14); uint32_t n = r.pick(sizes);
        log += H::fmt("%d,%u ", op, n);
        if (op < 3 || l.size() < 2) {
            uint32_t a = (uint32_t) r.next(), b = (uint32_t) r.next() | 1; Var c = steal(jit_var_counter(LLVM, n)), v = steal(jit_var_fma(c, lit_u32(b), lit_u32(a)));
            jit_var_eval(v); l.push_back({ v, a, b, n });
        } else if (op == 3) { std::vector<uint32_t> d(n); uint32_t a = (uint32_t) r.next(), b = (uint32_t) r.next(); for (uint32_t i = 0; i < n; ++i) d[i] = a + b * i; l.push_back({ copy_in(VarType::UInt32, d.data(), n), a, b, n }); }   // host copy into a shared buffer
        else if (op == 4) { Ent &e = l[r.below(l.size())]; Var v = steal(jit_var_add(e.v, lit_u32(7))); jit_var_eval(v); Ent f{ v, e.a + 7, e.b, e.n }; l.push_back(f); }
        else if (op < 8) { size_t i = r.below(l.size()); std::swap(l[i], l.back()); l.pop_back(); }   // freed while its kernel may be running
        else if (op == 8) { Ent &e = l[r.below(l.size())]; Var v = steal(jit_var_copy(e.v)); l.push_back({ v, e.a, e.b, e.n }); }
        else if (op == 9) { Ent &e = l[r.below(l.size())]; Var h = steal(jit_var_migrate(e.v, JitBackend::None)); Ent f{ h, e.a, e.b, e.n }; if (r.chance(.3)) { if (!check(f)) return; } else if (r.chance(.5)) l.push_back(f); }
        else if (op == 10) { bool sh = r.chance(.6); Blk k{ nullptr, n * 4ull, sh ? LLVM : JitBackend::None, sh, r.next(), true }; k.p = (uint8_t *) jit_malloc(k.b, k.n, sh); fill(k.p, k.n, k.tag); host.push_back(k); }
        else if (op == 11 && !host.empty()) { size_t i = r.below(host.size()); Blk b = host[i]; host[i] = host.back(); host.pop_back(); if (!same(b.p, b.n, b.tag)) { H::violation("async-host", "a %s buffer was overwritten by earlier asynchronous work: %s", b.b == LLVM ? "shared" : "host", log.c_str()); return; } jit_free(b.p); H::stat("host_buffers_checked"); }
        else if (op == 12) { if (!check(l[r.below(l.size())])) return; }
        else if (op == 13) { if (r.chance(.15)) jit_flush_malloc_cache(); else { uint32_t a = (uint32_t) r.next(); Var z = lit_u32(a, n); jit_var_eval(z); l.push_back({ z, a, 0, n }); } }
    }
    for (auto &e : l) if (!check(e)) return;
    jit_sync_thread();
    for (auto &b : host) { if (!same(b.p, b.n, b.tag)) { H::violation("async-host", "a %s buffer was overwritten by earlier asynchronous work: %s", b.b == LLVM ? "shared" : "host", log.c_str()); return; } jit_free(b.p); }
    nt_chaos(0, 0);
    H::distinct(H::hash_str(log)); if (r.chance(.05)) H::sample("async churn: " + log);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    std::string mode = H::opts("mode", "all");
    H::loop([&](uint64_t i, Rng &r) {
        if (mode == "memmgr") { for (int k = 0; k < 40; ++k) memmgr_case(r); return; }
        if (mode == "async") { async_case(r); return; }
        switch (i % 8) {
            case 0: for (int k = 0; k < 40; ++k) memmgr_case(r); break;
            case 1: case 2: case 3: alloc_case(r); break;
            case 4: foreign_case(r); break;
            default: async_case(r);
        }
    });
    return H::finish();
}
