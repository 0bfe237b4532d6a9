// standalone:
// flags: -Wno-self-move -Wno-self-assign-overloaded
// Bundled containers and utilities against their standard counterparts (C24)
#include "common.h"
#include <drjit-core/nanostl.h>
#include <drjit-core/hash.h>
#include <string>
#include <list>
#include <mutex>
#include <cstdio>
#include "../shim/nanothread/nanothread.h"
#include "src/lock.h"
#include "src/free_slots.h"
#include "src/alloc.h"
#include "src/hash.h"

static std::atomic<uint64_t> pending_calls{0};
static std::atomic<int> pending_bad{0};
void lock_release_pending(Lock &lock) noexcept {   // contract: fully release the lock, then do the deferred work
    if (lock.owner.load() != thread_id() || lock.recursion_count != LOCK_PENDING) pending_bad++;
    lock.recursion_count = 1;
    lock_release(lock);
    pending_calls++;
}
void jitc_sanitation_checkpoint() { }
void jitc_fail(const char *f, ...) noexcept { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); fputc('\n', stderr); abort(); }

// ---------------------------------------------------------------- tracked elements
static std::atomic<int64_t> n_alloc{0};
#if !(defined(__has_feature) && (__has_feature(address_sanitizer) || __has_feature(thread_sanitizer)))
void *operator new(size_t n) { n_alloc++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { n_alloc++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new(size_t n, std::align_val_t a) { n_alloc++; return aligned_alloc((size_t) a, (n + (size_t) a) & ~((size_t) a - 1)); }
void *operator new[](size_t n, std::align_val_t a) { n_alloc++; return aligned_alloc((size_t) a, (n + (size_t) a) & ~((size_t) a - 1)); }
static void rel(void *p) { if (p) { n_alloc--; free(p); } }
void operator delete(void *p) noexcept { rel(p); }
void operator delete[](void *p) noexcept { rel(p); }
void operator delete(void *p, size_t) noexcept { rel(p); }
void operator delete[](void *p, size_t) noexcept { rel(p); }
void operator delete(void *p, std::align_val_t) noexcept { rel(p); }
void operator delete[](void *p, std::align_val_t) noexcept { rel(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { rel(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { rel(p); }
#endif
struct AllocBalance {   // every block allocated within the scope is released within it
    int64_t n0 = n_alloc; const char *what;
    explicit AllocBalance(const char *w) : what(w) { }
    ~AllocBalance() { int64_t d = n_alloc - n0; if (d) H::violation("memory-balance", "%s: %lld blocks were not released", what, (long long) d); }
};
static std::unordered_map<const void *, int> *live;   // address -> id of the object living there
static uint64_t n_ctor, n_dtor, n_bad;
static void bad(const char *key, const char *what) { if (n_bad++ < 8) H::violation(key, "%s", what); }
template <size_t Align> struct alignas(Align) Obj {
    int v; bool moved = false; int *heap;
    void born() {
        if ((uintptr_t) this % Align) bad("align", "element is misaligned");
        if (!live->emplace(this, 1).second) bad("ctor", "object constructed on top of a live one");
        heap = new int(v); n_ctor++;
    }
    void alive(const char *w) const { if (!live->count(this)) bad("dead", w); }
    Obj() : v(-1) { born(); }
    Obj(int v) : v(v) { born(); }
    Obj(const Obj &o) : v(o.v) { o.alive("copied from a dead object"); if (o.moved) v = -7; else if (*o.heap != o.v) bad("corrupt", "source content"); born(); }
    Obj(Obj &&o) noexcept : v(o.v) { o.alive("moved from a dead object"); if (o.moved) v = -7; o.moved = true; born(); }
    Obj &operator=(const Obj &o) { alive("assigned to a dead object"); o.alive("assigned from a dead object"); v = o.moved ? -7 : o.v; *heap = v; moved = false; return *this; }
    Obj &operator=(Obj &&o) noexcept { alive("assigned to a dead object"); o.alive("assigned from a dead object"); v = o.moved ? -7 : o.v; *heap = v; if (&o != this) { moved = false; o.moved = true; } return *this; }
    ~Obj() { if (!live->erase(this)) bad("dtor", "destroyed twice or never constructed"); delete heap; n_dtor++; }
    bool operator==(const Obj &o) const { return v == o.v; }
    bool operator!=(const Obj &o) const { return v != o.v; }
};
template <typename T> static int val(const T &t) { return (int) t; }
template <size_t A> static int val(const Obj<A> &t) { t.alive("read of a dead object"); return t.moved ? -99 : *t.heap; }

template <typename T> static void vec_case(Rng &r, int ops) {
    std::string log; log.reserve(1 << 16);
    {
        AllocBalance ab("vector");
        const int K = 3;
        drjit::vector<T> a[K]; std::vector<int> b[K];
        size_t cap[K] = { 0, 0, 0 };
        int next = 1;
        auto nv = [&] { return sizeof(T) == 1 ? (next++ & 0x7f) : next++; };
        for (int o = 0; o < ops && !n_bad; ++o) {
            int i = r.below(K), j = r.below(K), op = r.below(24);
            log += H::fmt("%d:%d,%d ", op, i, j);
            auto &x = a[i]; auto &y = b[i];
            switch (op) {
                case 0: case 1: case 2: { int v = nv(); const T t(v); x.push_back(t); y.push_back(v); break; }
                case 3: { int v = nv(); T t(v); x.push_back(std::move(t)); y.push_back(v); break; }
                case 4: { int v = nv(); T &q = x.emplace_back(v); y.push_back(v); if (&q != &x.back()) bad("emplace", "emplace_back() returned another element"); break; }
                case 5: if (y.size()) { x.pop_back(); y.pop_back(); } break;
                case 6: { size_t n = r.below(12); x.resize(n, T(5)); y.resize(n, 5); break; }
                case 7: { size_t n = r.below(40); size_t c0 = x.capacity(); x.reserve(n); if (x.capacity() < n || (n <= c0 && x.capacity() != c0)) bad("reserve", "capacity after reserve()"); break; }
                case 8: x.clear(); y.clear(); break;
                case 9: x = a[j]; y = b[j]; break;
                case 10: if (i != j) { x = std::move(a[j]); y = std::move(b[j]); b[j].clear(); if (a[j].size() || !a[j].empty()) bad("move", "moved-from vector is not empty"); } break;
                case 11: x.swap(a[j]); y.swap(b[j]); break;
                case 12: { drjit::vector<T> c(x); a[j] = std::move(c); b[j] = b[i]; if (c.size() != 0) bad("move", "moved-from vector"); break; }
                case 13: { drjit::vector<T> c(std::move(x)); if (x.size()) bad("move", "moved-from vector"); x = c; break; }
                case 14: { size_t n = r.below(9); x = drjit::vector<T>(n, T(3)); y.assign(n, 3); if (x.capacity() < n) bad("cap", "capacity"); break; }
                case 15: { size_t n = r.below(5); drjit::vector<T> c(n); if (c.size() != n) bad("size", "vector(n)"); for (size_t k = 0; k < n; ++k) if (val(c[k]) != val(T())) bad("init", "vector(n) elements"); break; }
                case 16: if (y.size()) { size_t p = r.below(y.size()), q = p + r.below(y.size() - p + 1); drjit::vector<T> c(x.data() + p, x.data() + q); std::vector<int> d(y.begin() + p, y.begin() + q); x = std::move(c); y = d; } break;
                case 17: if ((x == a[j]) != (y == b[j]) || (x != a[j]) != (y != b[j])) bad("compare", "vector comparison"); break;
                case 18: if (y.size()) { size_t p = r.below(y.size()); int v = nv(); x[p] = T(v); y[p] = v; if (&x[p] != x.begin() + p || &x.back() != x.end() - 1) bad("iter", "iterators"); } break;
                case 19: if (y.size()) { size_t p = r.below(y.size()); x.push_back(x[p]); y.push_back(y[p]); } break;         // own element
                case 20: if (y.size()) { size_t p = r.below(y.size()); x.emplace_back(x[p]); y.push_back(y[p]); } break;
                case 21: if (y.size()) { size_t n = r.below(20); size_t p = r.below(y.size()); int v = y[p]; x.resize(n, x[p]); y.resize(n, v); } break;
                case 22: { auto &self = x; x = self; break; }
                default: { int m = r.below(30); for (int k = 0; k < m; ++k) { int v = nv(); x.push_back(T(v)); y.push_back(v); } break; }
            }
            for (int k = 0; k < K; ++k) {
                bool ok = a[k].size() == b[k].size() && a[k].empty() == b[k].empty() && a[k].capacity() >= a[k].size();
                for (size_t e = 0; ok && e < b[k].size(); ++e) ok = val(a[k][e]) == b[k][e] && val(((const drjit::vector<T> &) a[k])[e]) == b[k][e];
                size_t cnt = 0; for (const T &t : (const drjit::vector<T> &) a[k]) { ok = ok && val(t) == b[k][cnt]; cnt++; }
                if (!ok || cnt != b[k].size()) { n_bad++; H::violation("vector", "vector differs from std::vector after: %s", log.c_str()); return; }
                (void) cap;
            }
            if (!live->empty() || std::is_class_v<T>) {
                size_t n = 0; for (auto &q : a) n += q.size();
                if (std::is_class_v<T> && live->size() != n) { n_bad++; H::violation("balance", "%zu live elements, %zu expected after: %s", live->size(), n, log.c_str()); return; }
            }
        }
        // amortised growth
        drjit::vector<T> g; size_t re = 0, last = 0;
        for (int k = 0; k < 500; ++k) { g.push_back(T(1)); if (g.capacity() != last) re++, last = g.capacity(); }
        if (re > 40) bad("growth", "push_back() does not grow geometrically");
    }
    H::stat("vector_operations", ops);
    if (live->size() && !n_bad) H::violation("leak", "%zu elements are alive after the vectors are gone: %s", live->size(), log.c_str());
    H::distinct(H::hash_str(log, 7));
    if (r.chance(.01)) H::sample("vector: " + log);
}

struct Base { int tag = 1; static inline int count = 0; Base() { count++; } virtual ~Base() { count--; } };
struct Der : Base { Obj<8> o; Der() : o(4) { tag = 2; } Der(int a, int b) : o(a + b) { tag = a; } };
static void uptr_case(Rng &r, int ops) {
    using P = drjit::unique_ptr<Base>; using O = Obj<8>;
    {
        AllocBalance ab("unique_ptr");
        P p[3]; std::unique_ptr<Base> q[3]; int id[3] = { 0, 0, 0 };
        drjit::unique_ptr<O> s[2]; int sv[2] = { 0, 0 };
        drjit::unique_ptr<O[]> arr; int an = 0;
        for (int o = 0; o < ops && !n_bad; ++o) {
            int i = r.below(3), j = r.below(3);
            switch (r.below(14)) {
                case 0: { int t = 10 + r.below(100); p[i] = drjit::make_unique<Der>(t, 1); id[i] = t; break; }
                case 1: if (i != j) { p[i] = std::move(p[j]); id[i] = id[j]; id[j] = 0; } else { P &self = p[i]; p[i] = std::move(self); } break;
                case 2: p[i].reset(); id[i] = 0; break;
                case 3: { Base *b = p[i].release(); if ((b != nullptr) != (id[i] != 0) || p[i].get()) bad("release", "release()"); delete b; id[i] = 0; break; }
                case 4: { P t(std::move(p[i])); if (p[i]) bad("move", "source still owns"); p[j] = std::move(t); int v = id[i]; id[i] = 0; id[j] = v; break; }
                case 5: { Der *d = new Der(); p[i].reset(d); id[i] = 2; break; }
                case 6: { drjit::unique_ptr<Der> d(new Der(7, 1)); P b(std::move(d)); if (d) bad("convert", "converting move"); p[i] = std::move(b); id[i] = 7; break; }
                case 7: { drjit::unique_ptr<Der> d = drjit::make_unique<Der>(8, 2); p[i] = std::move(d); if (d.get()) bad("convert", "converting assignment"); id[i] = 8; break; }
                case 8: { int k = r.below(2), v = r.below(99) + 1; O src(v); s[k] = drjit::make_unique<O>(std::move(src)); if (!src.moved) bad("forward", "make_unique() did not move an rvalue"); sv[k] = v; break; }
                case 9: { int k = r.below(2), v = r.below(99) + 1; O src(v); s[k] = drjit::make_unique<O>(src); if (src.moved) bad("forward", "make_unique() moved from an lvalue"); sv[k] = v; break; }
                case 10: { std::swap(s[0], s[1]); std::swap(sv[0], sv[1]); break; }
                case 11: { an = 1 + r.below(5); arr = drjit::unique_ptr<O[]>(new O[an]); for (int k = 0; k < an; ++k) arr[k] = O(k); break; }
                case 12: { drjit::unique_ptr<O[]> t(std::move(arr)); for (int k = 0; k < an; ++k) if (val(((const drjit::unique_ptr<O[]> &) t)[k]) != k) bad("array", "array content"); if (r.chance(.5)) arr = std::move(t); else an = 0; break; }
                default: arr.reset(); an = 0; break;
            }
            int n = 0;
            for (int k = 0; k < 3; ++k) {
                n += id[k] != 0;
                const P &c = p[k];
                if ((bool) p[k] != (id[k] != 0) || !p[k] != (id[k] == 0) || (id[k] && (p[k]->tag != id[k] || c.get()->tag != id[k] || p[k].get() != c.get()))) bad("unique_ptr", "ownership differs from the model");
            }
            for (int k = 0; k < 2; ++k) if ((bool) s[k] != (sv[k] != 0) || (sv[k] && val(*s[k].get()) != sv[k])) bad("unique_ptr", "content differs from the model");
            if (Base::count != n) bad("balance", "number of objects alive");
        }
    }
    H::stat("unique_ptr_operations", ops);
    if (live->size() || Base::count) bad("leak", "objects are alive after the unique_ptr are gone");
    H::distinct(r.next());
}

struct MoveOnly { int v; MoveOnly(int v = 0) : v(v) { } MoveOnly(MoveOnly &&o) noexcept : v(o.v) { o.v = -1; } MoveOnly &operator=(MoveOnly &&o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; } };
static void tuple_case(Rng &r) {
    {
        AllocBalance ab("tuple");
        using T3 = drjit::tuple<Obj<8>, int, std::string>;
        int a = r.below(1000), b = r.below(1000); std::string s = H::fmt("str%u", r.below(1000));
        T3 t(Obj<8>(a), b, s), u(t), w;
        auto chk = [&](const T3 &x, int a, int b, const std::string &s, const char *n) {
            if (val(drjit::get<0>(x)) != a || drjit::get<1>(x) != b || drjit::get<2>(x) != s) bad("tuple", n);
        };
        chk(t, a, b, s, "construction"); chk(u, a, b, s, "copy");
        w = t; chk(w, a, b, s, "assignment"); drjit::get<1>(w) = 17; chk(w, a, 17, s, "get() lvalue"); chk(t, a, b, s, "copies are independent");
        T3 m(std::move(w)); chk(m, a, 17, s, "move construction");
        w = std::move(m); chk(w, a, 17, s, "move assignment");
        auto [x, y, z] = t; if (val(x) != a || y != b || z != s) bad("tuple", "structured binding");
        auto &[xr, yr, zr] = t; yr = b + 1; chk(t, a, b + 1, s, "structured binding by reference"); (void) xr; (void) zr;
        int i1; std::string s1; Obj<8> o1; drjit::tie(o1, i1, s1) = t; if (val(o1) != a || i1 != b + 1 || s1 != s) bad("tuple", "tie()");
        drjit::tie(o1, i1, s1) = T3(Obj<8>(4), 5, "x"); if (val(o1) != 4 || i1 != 5 || s1 != "x") bad("tuple", "tie() rvalue");
        auto mt = drjit::make_tuple(b, (float) a, s.c_str()); if (drjit::get<0>(mt) != b || drjit::get<1>(mt) != (float) a || s != drjit::get<2>(mt)) bad("tuple", "make_tuple()");
        static_assert(std::is_same_v<decltype(mt), drjit::tuple<int, float, const char *>>);
        drjit::tuple<double, long> cv(drjit::tuple<float, int>(1.5f, a)); if (drjit::get<0>(cv) != 1.5 || drjit::get<1>(cv) != a) bad("tuple", "conversion");
        cv = drjit::tuple<float, int>(2.5f, b); if (drjit::get<0>(cv) != 2.5 || drjit::get<1>(cv) != b) bad("tuple", "converting assignment");
        drjit::tuple<MoveOnly, int> mo(MoveOnly(a), b), mp(std::move(mo)); if (drjit::get<0>(mp).v != a || drjit::get<0>(mo).v != -1) bad("tuple", "move-only element");
        MoveOnly got = drjit::get<0>(std::move(mp)); if (got.v != a || drjit::get<0>(mp).v != -1) bad("tuple", "get() of an rvalue");
        static_assert(T3::Size == 3 && std::tuple_size<T3>::value == 3 && std::is_same_v<std::tuple_element<1, T3>::type, int> && std::is_same_v<T3::type<2>, std::string> && drjit::tuple<>::Size == 0);
    }
    if (live->size()) bad("leak", "objects are alive after the tuples are gone");
    H::stat("tuple_scenarios");
}

template <typename T> static std::string expect_int(T v) { return std::is_signed_v<T> ? std::to_string((long long) v) : std::to_string((unsigned long long) v); }
template <typename T> static T rnd_int(Rng &r) {
    switch (r.below(5)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T) r.below(12); case 3: return (T) (r.next() >> r.below(64)); default: return (T) r.next(); }
}
static std::string rnd_text(Rng &r, int maxn) { std::string s; int n = r.below(maxn + 1); for (int k = 0; k < n; ++k) s += (char) ('!' + r.below(90)); return s; }
static void string_case(Rng &r, int ops) {
    std::string log; log.reserve(1 << 16);
    { AllocBalance ab("string");
    const int K = 3;
    drjit::string a[K]; std::string b[K];
    for (int o = 0; o < ops && !n_bad; ++o) {
        int i = r.below(K), j = r.below(K), op = r.below(30);
        log += H::fmt("%d:%d,%d ", op, i, j);
        auto &x = a[i]; auto &y = b[i];
        if (y.size() > 5000) { x.clear(); y.clear(); }
        std::string t = rnd_text(r, r.chance(.2) ? 300 : 8);
        auto INT = [&](auto z) { auto v = rnd_int<decltype(z)>(r); if (r.chance(.5)) x.put(v); else x += v; y += expect_int(v); };
        switch (op) {
            case 0: x.put(t.c_str()); y += t; break;
            case 1: { drjit::string q(t.c_str()); x.put(q); y += t; break; }
            case 2: INT(int()); break; case 3: INT(uint32_t()); break; case 4: INT(int64_t()); break; case 5: INT(uint64_t()); break; case 6: INT(short()); break;
            case 7: INT((uint16_t) 0); break; case 8: INT((signed char) 0); break; case 9: INT((uint8_t) 0); break; case 10: INT((long long) 0); break;
            case 11: { bool v = r.chance(.5); x.put(v); y += v ? "1" : "0"; break; }
            case 12: { char c = (char) ('a' + r.below(26)); x += c; y += c; break; }
            case 13: { double v; uint64_t u = r.next(); if (r.chance(.3)) memcpy(&v, &u, 8); else v = (double) (int) r.below(2000) / 8; char buf[64]; snprintf(buf, 64, "%g", v); if (r.chance(.5)) x.put(v); else x += v; y += buf; break; }
            case 14: { float v; uint32_t u = (uint32_t) r.next(); memcpy(&v, &u, 4); char buf[64]; snprintf(buf, 64, "%g", (double) v); x.put(v); y += buf; break; }
            case 15: { const void *p = (const void *) (uintptr_t) (r.next() >> r.below(64)); char buf[64]; snprintf(buf, 64, "0x%llx", (unsigned long long) (uintptr_t) p); x.put(p); y += buf; break; }
            case 16: x.put("lit ", 12, ", ", t.c_str(), '!', -5ll, (const char *) "z"); y += "lit 12, " + t + "!-5z"; break;
            case 17: x = a[j]; y = b[j]; break;
            case 18: if (i != j) { x = std::move(a[j]); y = b[j]; b[j].clear(); if (a[j].size()) bad("move", "moved-from string is not empty"); a[j].clear(); } break;
            case 19: x.swap(a[j]); y.swap(b[j]); break;
            case 20: { size_t n = r.below(60); x.resize(n, 'q'); y.resize(n, 'q'); break; }
            case 21: { size_t n = r.below(100); x.reserve(n); if (x.capacity() < n) bad("reserve", "string capacity"); break; }
            case 22: x.clear(); y.clear(); break;
            case 23: { size_t n = r.below(9); x.indent(n); y += std::string(n, ' '); break; }
            case 24: { drjit::string z = x + t.c_str() + 7u; std::string w = y + t + "7"; if (w != std::string(z.c_str()) || z.size() != w.size()) bad("concat", "string + char * + int"); break; }
            case 25: { drjit::string z = t.c_str() + x + 42; if (t + y + "42" != z.c_str()) bad("concat", "char * + string + int"); break; }
            case 26: { drjit::string z(x), w(std::move(z)), q(t.c_str(), t.size()), e; if (y != w.c_str() || z.size() || t != q.c_str() || q.length() != t.size() || e.c_str()[0] || e.size()) bad("ctor", "string constructors"); break; }
            case 27: if ((x == a[j]) != (y == b[j]) || (x != a[j]) != (y != b[j])) bad("compare", "string comparison"); break;
            case 28: x = t.c_str(); y = t; x += a[j]; y += b[j]; break;
            case 29: { drjit::string z; z.iput(4, "a", t.c_str(), 1u); if ("a" + t + "1" != z.c_str()) bad("iput", "iput()"); drjit::detail::dummy_string d; d.put("a", t.c_str(), 123456u).indent(3); if (d.size() < 1 + t.size() + 6 + 3) bad("dummy", "dummy_string underestimates"); break; }
        }
        for (int k = 0; k < K; ++k) {
            const drjit::string &c = a[k];
            if (c.size() != b[k].size() || strlen(c.c_str()) != b[k].size() || b[k] != c.c_str() || c.capacity() < c.size() || (size_t) (c.end() - c.begin()) != b[k].size()) {
                n_bad++; H::violation("string", "string '%.200s' (size %zu), expected '%.200s' after: %s", c.c_str(), c.size(), b[k].c_str(), log.c_str()); return;
            }
        }
    }
    }
    H::stat("string_operations", ops);
    H::distinct(H::hash_str(log, 9));
}

static void slots_case(Rng &r, int ops) {
    FreeSlots f; std::set<uint32_t> s; uint32_t bound = 0; uint32_t span = r.pick({ 1u, 10u, 64u, 65u, 200u, 5000u });
    std::string log;
    for (int o = 0; o < ops; ++o) {
        if (r.chance(.48) && !s.empty()) {
            uint32_t g = f.pop(); log += H::fmt("pop=%u ", g);
            if (!s.erase(g)) { H::violation("free-slots", "pop() returned %u, which is not free (or was handed out before): %s", g, log.c_str()); return; }
        } else {
            uint32_t v = r.below(span);
            if (s.count(v)) continue;
            f.push(v); s.insert(v); bound = std::max(bound, v); log += H::fmt("push%u ", v);
        }
        if (f.size() != s.size() || f.empty() != s.empty()) { H::violation("free-slots", "size() = %zu, %zu slots are free: %s", f.size(), s.size(), log.c_str()); return; }
    }
    while (!s.empty()) { uint32_t g = f.pop(); if (!s.erase(g)) { H::violation("free-slots", "pop() returned %u twice", g); return; } }
    if (!f.empty()) H::violation("free-slots", "slots remain after draining");
    H::stat("slot_operations", ops);
    H::distinct(H::hash_str(log, 3));
}

static void hash_case(Rng &r) {
    auto m32 = [](uint32_t h) { h ^= h >> 16; h *= 2246822507u; h ^= h >> 13; h *= 3266489909u; return h ^ h >> 16; };
    auto m64 = [](uint64_t k) { k = (k ^ k >> 33) * 18397679294719823053ull; k = (k ^ k >> 33) * 14181476777654086739ull; return k ^ k >> 33; };
    for (int i = 0; i < 3000; ++i) {
        uint64_t k = r.next() >> r.below(64);
        if (UInt32Hasher()((uint32_t) k) != m32((uint32_t) k) || UInt64Hasher()(k) != m64(k) || PointerHasher()((void *) (uintptr_t) k) != m64(k)) { H::violation("hash", "MurmurHash finalizer differs for %llx", (unsigned long long) k); return; }
    }
    uint8_t buf[400]; for (auto &c : buf) c = (uint8_t) r.next();
    for (int i = 0; i < 100; ++i) {
        size_t n = r.below(200), o1 = r.below(100), seed = r.next();
        std::vector<uint8_t> c(buf + o1, buf + o1 + n);
        if (hash(c.data(), n) != hash(buf + o1, n) || hash(c.data(), n, seed) != hash(buf + o1, n, seed)) { H::violation("hash", "hash depends on the address"); return; }
        if (n) { size_t p = r.below(n); c[p] ^= (uint8_t) (1 << r.below(8)); if (hash(c.data(), n) == hash(buf + o1, n) || hash(c.data(), n, seed) == hash(buf + o1, n, seed)) { H::violation("hash", "hash ignores byte %zu of %zu", p, n); return; } }
        if (hash(buf, n, seed) == hash(buf, n, seed + 1) || hash(buf, n + 1) == hash(buf, n)) { H::violation("hash", "seed or size is ignored"); return; }
        std::string s = rnd_text(r, 30); if (hash_str(s.c_str()) != hash(s.data(), s.size()) || hash_str(s.c_str(), seed) != hash(s.data(), s.size(), seed)) { H::violation("hash", "hash_str()"); return; }
        size_t x = r.next(), y = r.next(), x1 = x, x2 = x, x3 = x; hash_combine(x1, y); hash_combine(x2, y); hash_combine(x3, y ^ 1);
        if (x1 != x2 || x1 == x3 || x1 == x) { H::violation("hash", "hash_combine()"); return; }
        auto head = [&] { std::string t = rnd_text(r, 40); for (char &c : t) if (c == '{' || c == ':') c = '.'; return t; };
        std::string body = "{\nbody: ; " + rnd_text(r, 60), k1 = head() + "\n" + body, k2 = head() + "\nx\n" + body, k3 = k1 + " ";
        auto eq = [](XXH128_hash_t p, XXH128_hash_t q) { return p.low64 == q.low64 && p.high64 == q.high64; };
        auto h1 = hash_kernel(k1.c_str(), k1.size(), JitBackend::LLVM), h2 = hash_kernel(k2.c_str(), k2.size(), JitBackend::LLVM), h3 = hash_kernel(k3.c_str(), k3.size(), JitBackend::LLVM);
        std::string k4 = k1; k4[k4.size() - 1 - r.below(body.size() - 9)] ^= 1; auto h4 = hash_kernel(k4.c_str(), k4.size(), JitBackend::LLVM);
        if (!eq(h1, h2)) { H::violation("kernel-hash", "kernel hash depends on the text before the body"); return; }
        if (eq(h1, h3) || eq(h1, h4)) { H::violation("kernel-hash", "different kernel bodies have the same hash"); return; }
        XXH128Cmp cmp; if (cmp(h1, h1) || cmp(h1, h3) == cmp(h3, h1)) { H::violation("kernel-hash", "XXH128Cmp is not a strict order"); return; }
    }
    H::stat("hash_comparisons", 3000 * 3 + 100 * 12);
}
template <typename T, size_t A> static void alloc_case(Rng &r) {
    aligned_allocator<T, A> al; std::vector<std::pair<T *, size_t>> l;
    for (int i = 0; i < 30; ++i) {
        size_t n = 1 + r.below(300); T *p = al.allocate(n);
        if ((uintptr_t) p % A) H::violation("aligned-allocator", "pointer is not aligned to %zu", A);
        memset((void *) p, i, n * sizeof(T)); l.push_back({ p, n });
    }
    for (size_t i = 0; i < l.size(); ++i) {
        for (size_t k = 0; k < l[i].second * sizeof(T); ++k) if (((uint8_t *) l[i].first)[k] != i) { H::violation("aligned-allocator", "allocations overlap"); break; }
        al.deallocate(l[i].first, l[i].second);
    }
    std::vector<T, aligned_allocator<T, A>> v; for (int i = 0; i < 1000; ++i) { v.push_back((T) i); if ((uintptr_t) v.data() % A) { H::violation("aligned-allocator", "vector storage is not aligned"); return; } }
    if (!(al == aligned_allocator<char, A>()) || al != aligned_allocator<char, A>() || al == aligned_allocator<T, 2 * A>()) H::violation("aligned-allocator", "comparison");
    H::stat("allocations", 30);
}

// Mutual exclusion: the lock protects plain (non-atomic) data
static void lock_case(Rng &r) {
    int nt = 2 + r.below(7), iters = 300 + r.below(600);
    Lock l; lock_init(l);
    uint64_t counter = 0, shadow = 0; std::atomic<int> inside{0}, bad_n{0}; std::atomic<uint64_t> marks{0};
    uint64_t before = pending_calls;
    std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    std::atomic<uint64_t> done{0};
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        Rng q(seeds[t]);
        for (int i = 0; i < iters; ++i) {
            lock_guard g(l);
            if (inside.fetch_add(1) != 0) bad_n++;
            int depth = q.below(4);
            for (int d = 0; d < depth; ++d) lock_acquire(l);
            bool mark = q.chance(.2);
            if (mark) { lock_set_pending(l); marks++; }
            counter++; if (q.chance(.1)) for (int k = 0; k < 50; ++k) lock_pause();
            for (int d = 0; d < depth; ++d) lock_release(l);
            if (q.chance(.3)) {
                inside.fetch_sub(1);
                { unlock_guard u(l); if (q.chance(.3)) std::this_thread::yield(); }
                if (inside.fetch_add(1) != 0) bad_n++;
                if (mark && !(l.recursion_count & LOCK_PENDING)) bad_n += 100;
            }
            shadow++;
            if (counter - shadow > (uint64_t) nt) bad_n++;
            inside.fetch_sub(1); done++;
        }
    });
    for (auto &t : th) t.join();
    if (bad_n || counter != (uint64_t) nt * iters || shadow != counter) H::violation("lock", "mutual exclusion violated: counter=%llu, expected %llu, %d overlaps", (unsigned long long) counter, (unsigned long long) nt * iters, (int) bad_n);
    if (pending_bad) H::violation("lock-pending", "deferred work was delivered while the lock was not at its outermost release");
    if (pending_calls - before > marks || (marks && pending_calls == before)) H::violation("lock-pending", "%llu deliveries for %llu marks", (unsigned long long) (pending_calls - before), (unsigned long long) marks);
    if (l.owner.load() != 0 || (l.recursion_count & ~LOCK_PENDING) != 0) H::violation("lock", "the lock is not free after all threads left");
    lock_destroy(l);
    H::stat("lock_sections", (uint64_t) nt * iters); H::stat("lock_marks", marks);
    // exactly once per marked outermost section
    Lock m; lock_init(m); uint64_t b0 = pending_calls;
    for (int i = 0; i < 50; ++i) { bool mark = r.chance(.5); { lock_guard g(m); { lock_guard h(m); if (mark) lock_set_pending(m); uint64_t c = pending_calls; if (r.chance(.5)) { unlock_guard u(m); if (0) { } } (void) c; } if (pending_calls != b0) H::violation("lock-pending", "delivered before the outermost release"); } if (pending_calls != b0 + mark) { H::violation("lock-pending", "delivered %llu times", (unsigned long long) (pending_calls - b0)); return; } b0 = pending_calls; }
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    live = new std::unordered_map<const void *, int>(); live->reserve(1 << 14);
    bool only_lock = H::opts("mode", "all") == "lock";
    H::loop([&](uint64_t i, Rng &r) {
        n_bad = 0; live->clear();
        if (only_lock) { lock_case(r); H::distinct(r.next()); return; }
        int ops = H::thorough() ? 400 : 150;
        switch (i % 12) {
            case 0: case 1: vec_case<Obj<8>>(r, ops); break;
            case 2: vec_case<Obj<64>>(r, ops); break;
            case 3: vec_case<int>(r, ops); vec_case<uint8_t>(r, ops); vec_case<double>(r, ops); break;
            case 4: uptr_case(r, ops); break;
            case 5: for (int k = 0; k < 20; ++k) tuple_case(r); H::distinct(r.next()); break;
            case 6: case 7: string_case(r, ops * 2); break;
            case 8: case 9: for (int k = 0; k < 5; ++k) slots_case(r, ops * 3); break;
            case 10: hash_case(r); alloc_case<uint32_t, 64>(r); alloc_case<uint8_t, 32>(r); alloc_case<double, 8>(r); alloc_case<uint64_t, 4096>(r);
                     alloc_case<uint32_t, alignof(uint32_t)>(r); alloc_case<uint8_t, 1>(r); H::distinct(r.next()); break;
            case 11: lock_case(r); H::distinct(r.next()); break;
        }
    });
    return H::finish();
}
