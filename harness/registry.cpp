// The pointer registry against a model (C09): random histories on one thread, concurrent histories on several threads.
#include "common.h"

// equal names at different addresses (names are compared by content); they live as long as the registry
static const char V1[] = "llvm", V1b[] = "llvm", V2[] = "cuda", V3[] = "", D1[] = "A", D1b[] = "A", D2[] = "B", D3[] = "AB", D4[] = "llvm", D5[] = "";
struct Dom { const char *v, *d; };
static const Dom DOM[] = { { V1, D1 }, { V1, D2 }, { V2, D1 }, { V2, D3 }, { V3, D4 }, { V1, D5 }, { V2, D5 } };
static const Dom ALT[] = { { V1b, D1b }, { V1b, D2 }, { V2, D1b }, { V2, D3 }, { V3, D4 }, { V1b, D5 }, { V2, D5 } };

struct ModelDom { std::map<uint32_t, void *> live; uint32_t high = 0; };   // high: ids handed out since the last clear

static bool raises(const std::function<void()> &f) { try { f(); } catch (const std::exception &) { return true; } return false; }

static void sequential(Rng &r) {
    jit_shutdown(0); jit_init(1u << (uint32_t) LLVM);   // fresh registry (a shutdown with leftover instances is part of the history)
    size_t nptr = r.pick((const size_t[]) { 3, 12, 80, 700 });
    std::vector<uint8_t> storage(nptr * 16);
    uintptr_t stride = r.pick((const uintptr_t[]) { 1, 8, 16 });
    auto P = [&](size_t i) { return (void *) (storage.data() + i * stride); };
    std::map<void *, std::pair<int, uint32_t>> where;   // pointer -> (domain, id); id 0: cleared
    ModelDom md[7];
    uint64_t hash = nptr;
    auto bad = [&](const char *what, const std::string &m) { H::violation(what, "%s", m.c_str()); };
    auto audit = [&]() {
        for (int k = 0; k < 7; ++k) {
            ModelDom &d = md[k];
            const Dom &n = r.chance(.5) ? DOM[k] : ALT[k];
            uint32_t bound = jit_registry_id_bound(n.v, n.d), top = d.live.empty() ? 0 : d.live.rbegin()->first;
            if (bound < top) { bad("bound", H::fmt("id bound %u, but id %u is in use", bound, top)); return; }
            if (bound > d.high) { bad("bound", H::fmt("id bound %u, but at most %u ids were handed out", bound, d.high)); return; }
            if (top == 0 && bound != 0) { bad("bound", H::fmt("id bound %u of an empty domain", bound)); return; }
            if (bound != top) { bad("bound", H::fmt("id bound %u, the largest id in use is %u", bound, top)); return; }
            std::vector<void *> got(bound + 2, (void *) 0x5a5a), want(bound + 2, (void *) 0x5a5a);
            jit_registry_get_pointers(n.v, n.d, got.data());
            for (auto &e : d.live) want[e.first - 1] = e.second;
            for (size_t i = 0; i < got.size(); ++i)
                if (got[i] != want[i] && !(i < bound && got[i] == nullptr && want[i] == (void *) 0x5a5a)) { bad("pointers", H::fmt("get_pointers: entry %zu is %p instead of %p", i, got[i], want[i])); return; }
            for (uint32_t id = 1; id <= bound; ++id) {
                void *p = jit_registry_ptr(n.v, n.d, id), *w = d.live.count(id) ? d.live[id] : nullptr;
                if (p != w) { bad("lookup", H::fmt("id %u yields %p instead of %p", id, p, w)); return; }
            }
            void *pk = jit_registry_peek(n.v, n.d);
            bool ok = d.live.empty() ? pk == nullptr : false;
            for (auto &e : d.live) ok |= e.second == pk;
            if (!ok) { bad("peek", H::fmt("peek returned %p (domain has %zu instances)", pk, d.live.size())); return; }
            if (jit_registry_ptr(n.v, n.d, 0)) { bad("lookup", "id 0 is not null"); return; }
            H::stat("domains_audited"); H::stat("ids_looked_up", bound);
        }
        for (auto &w : where) if (jit_registry_id(w.first) != w.second.second) { bad("reverse", H::fmt("pointer %p has id %u instead of %u", w.first, jit_registry_id(w.first), w.second.second)); return; }
        if (jit_registry_id(nullptr)) bad("reverse", "id of a null pointer");
    };
    int steps = (int) (nptr * 4 + 20);
    double grow = .6;
    for (int s = 0; s < steps && H::violations < H::max_violations; ++s) {
        if (r.chance(.02)) grow = r.chance(.5) ? .8 : .25;
        void *p = P(r.below(nptr));
        auto it = where.find(p);
        double x = r.uniform();
        if (x < .004) {
            jit_registry_clear(); hash = hash * 31 + 1;
            for (auto &d : md) { d.live.clear(); d.high = 0; }
            for (auto &w : where) w.second.second = 0;
            H::stat("clears");
        } else if (x < grow) {
            int k = (int) r.below(7); const Dom &n = r.chance(.5) ? DOM[k] : ALT[k];
            if (it == where.end()) {
                uint32_t id = jit_registry_put(n.v, n.d, p);
                hash = hash * 31 + id * 7 + k;
                if (id == 0) { bad("put", "id 0 was handed out"); return; }
                if (md[k].live.count(id)) { bad("put", H::fmt("id %u was handed out twice (domain %d)", id, k)); return; }
                if (id > md[k].high + 1) { bad("put", H::fmt("id %u was handed out, although only %u were used before", id, md[k].high)); return; }
                md[k].high = std::max(md[k].high, id); md[k].live[id] = p; where[p] = { k, id };
                H::stat("registrations");
            } else {
                if (!raises([&]() { jit_registry_put(n.v, n.d, p); })) { bad("double-registration", "accepted"); return; }
                H::stat("rejected");
            }
        } else if (it != where.end()) {
            auto w = it->second;
            jit_registry_remove(p);
            if (w.second) md[w.first].live.erase(w.second);
            where.erase(it); hash = hash * 31 + w.second;
            if (!raises([&]() { jit_registry_id(p); })) { bad("reverse", "a removed pointer still has an id"); return; }
            H::stat("removals");
        } else {
            if (!raises([&]() { jit_registry_remove(p); })) { bad("unknown-removal", "accepted"); return; }
            if (!raises([&]() { jit_registry_id(p); })) { bad("reverse", "an unregistered pointer has an id"); return; }
            H::stat("rejected");
        }
        // O(1) probe after every step, full audit now and then
        if (!where.empty()) { auto j = where.begin(); std::advance(j, r.below(std::min<size_t>(where.size(), 5))); if (jit_registry_id(j->first) != j->second.second) { bad("reverse", "an id changed"); return; }
            if (j->second.second && jit_registry_ptr(DOM[j->second.first].v, DOM[j->second.first].d, j->second.second) != j->first) { bad("lookup", "the entry of another pointer changed"); return; } }
        if (r.chance(nptr > 100 ? .02 : .15)) audit();
    }
    audit();
    if (r.chance(.5)) {  // otherwise, leave instances behind: they are removed after the library was shut down
        for (auto &w : where) jit_registry_remove(w.first);
    } else {
        jit_set_leak_warnings(0); jit_shutdown(0); H::stat("shutdown_with_instances");
        if (r.chance(.5)) jit_init(1u << (uint32_t) LLVM);
        for (auto &w : where) jit_registry_remove(w.first);
    }
    H::distinct(hash); H::sample(H::fmt("%zu pointers, %d steps", nptr, steps));
}

static void concurrent(Rng &r) {
    int nt = (int) r.range(2, 6);
    std::vector<std::thread> th;
    static std::mutex m; static std::map<std::pair<int, uint32_t>, void *> owner;  // ids that are certainly live
    owner.clear();
    uint64_t base = r.next();
    std::atomic<uint64_t> ops { 0 }, handed { 0 };
    int steps = (int) r.range(50, 400);
    std::vector<std::vector<uint8_t>> st(nt, std::vector<uint8_t>(64));
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t]() {
        Rng q(base, t + 1);
        std::map<void *, std::pair<int, uint32_t>> mine;
        for (int s = 0; s < steps; ++s) {
            void *p = st[t].data() + q.below(64);
            auto it = mine.find(p);
            if (it == mine.end()) {
                int k = (int) q.below(3);
                uint32_t id = jit_registry_put(DOM[k].v, DOM[k].d, p);
                mine[p] = { k, id };
                { std::lock_guard<std::mutex> g(m); auto e = owner.try_emplace({ k, id }, p); if (!e.second) H::violation("put", "id %u of domain %d was handed out to two live pointers", id, k); }
                handed++;
            } else {
                { std::lock_guard<std::mutex> g(m); owner.erase(it->second); }
                jit_registry_remove(p);
                mine.erase(it);
            }
            for (auto &e : mine) {
                if (jit_registry_id(e.first) != e.second.second) { H::violation("reverse", "id changed (thread %d)", t); return; }
                if (jit_registry_ptr(DOM[e.second.first].v, DOM[e.second.first].d, e.second.second) != e.first) { H::violation("lookup", "entry changed (thread %d)", t); return; }
                if (jit_registry_id_bound(DOM[e.second.first].v, DOM[e.second.first].d) < e.second.second) { H::violation("bound", "bound below a live id"); return; }
                ops++;
                if (q.chance(.7)) break;
            }
            if (q.chance(.05)) jit_registry_peek(V1, D1);
            if (q.chance(.05)) { std::vector<void *> dst(nt * 64 + 1); jit_registry_get_pointers(V1, D1, dst.data()); }
        }
        for (auto &e : mine) { { std::lock_guard<std::mutex> g(m); owner.erase(e.second); } jit_registry_remove(e.first); }
    });
    for (auto &t : th) t.join();
    for (auto &d : DOM) if (jit_registry_id_bound(d.v, d.d) != 0) { H::violation("bound", "bound %u after all instances were removed", jit_registry_id_bound(d.v, d.d)); break; }
    H::stat("concurrent_lookups", ops); H::stat("concurrent_registrations", handed);
    H::distinct(base);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    jit_set_leak_warnings(0);
    bool conc = H::opts("mode", "") == "threads";
    H::loop([&](uint64_t, Rng &r) { if (conc) concurrent(r); else sequential(r); });
    jit_shutdown(1);
    return H::finish();
}
