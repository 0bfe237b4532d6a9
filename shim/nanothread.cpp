// Stand-in for nanothread, see nanothread/nanothread.h
#include <nanothread/nanothread.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <mutex>
#include <thread>
#include <vector>
#include <algorithm>
#if defined(__x86_64__)
#  include <immintrin.h>
#endif

using clk = std::chrono::steady_clock;

struct Task {
    uint32_t refs = 0;            // user references
    uint32_t size = 1, next = 0, done = 0, wait_parents = 0;
    bool finished = false, profile = false, queued = false;
    void (*func)(uint32_t, void *) = nullptr;
    void *payload = nullptr;
    void (*deleter)(void *) = nullptr;
    bool own_payload = false;
    std::vector<Task *> children;
    std::exception_ptr exc;
    clk::time_point t0, t1;
};

namespace {
struct PoolImpl {
    std::mutex m;
    std::condition_variable cv_work, cv_done;
    std::vector<std::thread> workers;
    std::vector<Task *> ready;
    bool stop = false, ext_busy = false;
    int profile = 0;
    uint64_t live = 0, outstanding = 0;
    uint32_t running = 0;
    uint64_t rng = 0x9E3779B97F4A7C15ull;
    int chaos = 0;
    NTStats st{};

    uint64_t rnd() { // under lock
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        return rng;
    }
};
PoolImpl *g() { static PoolImpl *p = new PoolImpl(); return p; }
thread_local uint32_t tls_id = 0;
thread_local bool tls_ext = false;
std::mutex g_cfg;
bool g_started = false;
uint32_t g_size = 0;

struct FTZ {
#if defined(__x86_64__)
    unsigned old;
    FTZ() { old = _mm_getcsr(); _mm_setcsr(old | 0x8040); }
    ~FTZ() { _mm_setcsr(old); }
#endif
};

void maybe_free(Task *t, std::unique_lock<std::mutex> &) {
    if (t->finished && t->refs == 0) {
        g()->live--; g()->st.tasks_freed++;
        delete t;
    }
}

// Called with lock held
void make_ready(Task *t) {
    PoolImpl &p = *g();
    t->queued = true;
    p.ready.push_back(t);
    p.cv_work.notify_all();
    p.cv_done.notify_all();
}

void finish(Task *t, std::unique_lock<std::mutex> &lk) {
    PoolImpl &p = *g();
    // Run the deleter before the task becomes visible as complete
    if (t->payload && (t->deleter || t->own_payload)) {
        void *pl = t->payload; auto del = t->deleter; bool own = t->own_payload;
        t->payload = nullptr;
        p.st.payload_frees++;
        lk.unlock();
        if (del) del(pl);
        if (own) free(pl);
        lk.lock();
    }
    t->t1 = clk::now();
    t->finished = true;
    for (Task *c : t->children) {
        if (t->exc && !c->exc) c->exc = t->exc;
        if (--c->wait_parents == 0) make_ready(c);
    }
    t->children.clear();
    p.outstanding--;
    p.cv_done.notify_all();
    maybe_free(t, lk);
}

// Execute one unit of work if possible. Lock is held on entry + exit.
bool run_one(std::unique_lock<std::mutex> &lk) {
    PoolImpl &p = *g();
    if (p.ready.empty()) return false;
    size_t pick = 0;
    if (p.chaos && p.ready.size() > 1) {
        pick = p.rnd() % p.ready.size();
        if (pick) p.st.steals_out_of_order++;
    }
    Task *t = p.ready[pick];
    uint32_t index = t->next++;
    if (t->next == t->size)
        p.ready.erase(p.ready.begin() + (ptrdiff_t) pick);
    if (index == 0) t->t0 = clk::now();
    uint32_t delay = 0, delay2 = 0;
    if (p.chaos) {
        uint64_t r = p.rnd();
        if ((r & 7) < (uint64_t) p.chaos) delay = 1 + (uint32_t) ((r >> 8) % (p.chaos >= 2 ? 200 : 30));
        if (((r >> 32) & 7) < (uint64_t) p.chaos) delay2 = 1 + (uint32_t) ((r >> 40) % (p.chaos >= 2 ? 100 : 30));
        if (delay) p.st.delays_injected++;
        if (delay2) p.st.delays_injected++;
    }
    p.running++;
    p.st.units_run++;
    if (tls_id) p.st.units_on_worker++;
    p.st.max_concurrency = std::max(p.st.max_concurrency, (uint64_t) p.running);
    std::exception_ptr exc;
    bool skip = t->exc != nullptr;
    lk.unlock();
    auto pause = [](uint32_t us) {
        if (us < 10) std::this_thread::yield();
        else std::this_thread::sleep_for(std::chrono::microseconds(us));
    };
    if (delay) pause(delay);
    if (t->func && !skip) {
        FTZ ftz; (void) ftz;
        try { t->func(index, t->payload); } catch (...) { exc = std::current_exception(); }
    }
    if (delay2) pause(delay2);
    lk.lock();
    p.running--;
    if (exc && !t->exc) t->exc = exc;
    if (++t->done == t->size)
        finish(t, lk);
    return true;
}

void worker(uint32_t id) {
    tls_id = id;
    PoolImpl &p = *g();
    std::unique_lock<std::mutex> lk(p.m);
    while (true) {
        if (run_one(lk)) continue;
        if (p.stop) break;
        p.cv_work.wait(lk);
    }
}

void start_workers(uint32_t size) {
    for (uint32_t i = 1; i < size; ++i)
        g()->workers.emplace_back(worker, i);
}

void stop_workers() {
    PoolImpl &p = *g();
    { std::unique_lock<std::mutex> lk(p.m); p.stop = true; p.cv_work.notify_all(); }
    for (auto &w : p.workers) w.join();
    p.workers.clear();
    std::unique_lock<std::mutex> lk(p.m);
    p.stop = false;
}

void ensure_started() {
    std::lock_guard<std::mutex> lg(g_cfg);
    if (g_started) return;
    if (g_size == 0) {
        const char *s = getenv("NT_THREADS");
        g_size = s ? (uint32_t) atoi(s) : core_count();
        if (g_size == 0) g_size = 1;
    }
    g_started = true;
    start_workers(g_size);
}
}

extern "C" {
uint32_t core_count() {
    uint32_t n = std::thread::hardware_concurrency();
    return n ? n : 1;
}
Pool *pool_create(uint32_t, int) { ensure_started(); return (Pool *) g(); }
void pool_destroy(Pool *) {
    std::lock_guard<std::mutex> lg(g_cfg);
    if (g_started) { stop_workers(); g_started = false; g_size = 0; }
}
uint32_t pool_size(Pool *) { ensure_started(); std::lock_guard<std::mutex> lg(g_cfg); return g_size; }
void pool_set_size(Pool *, uint32_t size) {
    if (size == NANOTHREAD_AUTO) size = core_count();
    if (size == 0) size = 1;
    std::lock_guard<std::mutex> lg(g_cfg);
    if (g_started) stop_workers();
    g_size = size;
    g_started = true;
    start_workers(size);
}
uint32_t pool_thread_id() { return tls_id; }
int pool_profile() { std::lock_guard<std::mutex> lk(g()->m); return g()->profile; }
void pool_set_profile(int v) { std::lock_guard<std::mutex> lk(g()->m); g()->profile = v; }

Task *task_submit_dep(Pool *, const Task *const *parent, uint32_t parent_count,
                      uint32_t size, void (*func)(uint32_t, void *), void *payload,
                      uint32_t payload_size, void (*deleter)(void *), int always_async,
                      int profile) {
    ensure_started();
    PoolImpl &p = *g();
    bool has_parent = false;
    for (uint32_t i = 0; i < parent_count; ++i) has_parent |= parent[i] != nullptr;
    if (size == 0) { fprintf(stderr, "nanothread-shim: task of size 0\n"); size = 1; func = nullptr; }

    bool prof;
    { std::unique_lock<std::mutex> lk(p.m); prof = profile || p.profile; }

    if (!has_parent && size == 1 && !always_async) {
        clk::time_point t0 = clk::now();
        std::exception_ptr exc;
        if (func) {
            FTZ ftz; (void) ftz;
            try { func(0, payload); } catch (...) { exc = std::current_exception(); }
        }
        if (deleter) deleter(payload);
        std::unique_lock<std::mutex> lk(p.m);
        p.st.tasks_inline++;
        if (!prof && !exc) return nullptr;
        Task *t = new Task();
        t->refs = 1; t->finished = true; t->done = t->next = 1; t->exc = exc;
        t->t0 = t0; t->t1 = clk::now();
        p.live++;
        return t;
    }

    Task *t = new Task();
    t->size = size; t->func = func; t->profile = prof; t->refs = 1;
    if (payload) {
        if (deleter || payload_size == 0) {
            t->payload = payload; t->deleter = deleter;
        } else {
            t->payload = malloc(payload_size);
            memcpy(t->payload, payload, payload_size);
            t->own_payload = true;
        }
    }
    std::unique_lock<std::mutex> lk(p.m);
    p.live++; p.outstanding++; p.st.tasks_submitted++;
    t->t0 = clk::now();
    for (uint32_t i = 0; i < parent_count; ++i) {
        Task *q = const_cast<Task *>(parent[i]);
        if (!q) continue;
        if (q->finished) { if (q->exc && !t->exc) t->exc = q->exc; continue; }
        q->children.push_back(t);
        t->wait_parents++;
    }
    if (t->wait_parents == 0) make_ready(t);
    return t;
}

void task_retain(Task *t) {
    if (!t) return;
    std::unique_lock<std::mutex> lk(g()->m);
    t->refs++;
}

void task_release(Task *t) {
    if (!t) return;
    std::unique_lock<std::mutex> lk(g()->m);
    if (t->refs == 0) { fprintf(stderr, "nanothread-shim: task released too often\n"); abort(); }
    t->refs--;
    maybe_free(t, lk);
}

void task_wait(Task *t) {
    if (!t) return;
    PoolImpl &p = *g();
    std::unique_lock<std::mutex> lk(p.m);
    // Only one external thread may execute work at any time, since they all
    // share the thread ID 0. Worker threads may always help.
    t->refs++;
    if (!t->finished) p.st.waits_blocked++;
    while (!t->finished) {
        bool can = tls_id != 0 || tls_ext || !p.ext_busy, ran = false;
        if (can) {
            bool take = tls_id == 0 && !tls_ext;
            if (take) { p.ext_busy = true; tls_ext = true; }
            ran = run_one(lk);
            if (take) { p.ext_busy = false; tls_ext = false; p.cv_done.notify_all(); }
        }
        if (!ran && !t->finished) p.cv_done.wait(lk);
    }
    std::exception_ptr exc = t->exc;
    t->refs--;
    maybe_free(t, lk);
    lk.unlock();
    if (exc) std::rethrow_exception(exc);
}

void task_wait_and_release(Task *t) {
    if (!t) return;
    try { task_wait(t); } catch (...) { task_release(t); throw; }
    task_release(t);
}

int task_query(Task *t) {
    if (!t) return 1;
    std::unique_lock<std::mutex> lk(g()->m);
    return t->finished;
}
double task_time(Task *t) {
    if (!t) return 0;
    std::unique_lock<std::mutex> lk(g()->m);
    return std::chrono::duration<double, std::milli>(t->t1 - t->t0).count();
}
double task_time_rel(Task *a, Task *b) {
    if (!a || !b) return 0;
    std::unique_lock<std::mutex> lk(g()->m);
    return std::chrono::duration<double, std::milli>(b->t1 - a->t1).count();
}
void nt_chaos(uint64_t seed, int level) {
    std::unique_lock<std::mutex> lk(g()->m);
    g()->rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    if (!g()->rng) g()->rng = 1;
    g()->chaos = level;
}
void nt_stats(NTStats *o) { std::unique_lock<std::mutex> lk(g()->m); *o = g()->st; }
uint64_t nt_live_tasks() { std::unique_lock<std::mutex> lk(g()->m); return g()->live; }
void nt_quiesce() {
    PoolImpl &p = *g();
    std::unique_lock<std::mutex> lk(p.m);
    while (p.outstanding) {
        bool ran = false;
        if (tls_id == 0 && !p.ext_busy) {
            p.ext_busy = true; tls_ext = true;
            ran = run_one(lk);
            p.ext_busy = false; tls_ext = false;
            p.cv_done.notify_all();
        }
        if (!ran && p.outstanding) p.cv_done.wait(lk);
    }
}
}
