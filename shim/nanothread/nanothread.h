/*
 * Stand-in for the 'nanothread' thread pool, whose git submodule is empty in
 * this sandbox. It implements the part of nanothread's public API that
 * Dr.Jit-Core uses, with the semantics documented by nanothread / jit.h:
 *
 *  - pool_size() counts the calling thread, workers have IDs 1..size-1
 *  - a size-1 task without parents that is not 'always_async' runs right away
 *  - task_wait() lets the waiting thread participate in the execution
 *  - payloads are copied when payload_size != 0 and there is no deleter
 *
 * It is part of the test harness, not of the code under test.
 */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <utility>
#include <memory>

#define NANOTHREAD_AUTO ((uint32_t) -1)
#define NANOTHREAD_EXPORT __attribute__((visibility("default")))

struct Pool;
struct Task;
typedef struct Pool Pool;
typedef struct Task Task;

extern "C" {
NANOTHREAD_EXPORT uint32_t core_count();
NANOTHREAD_EXPORT Pool *pool_create(uint32_t size = NANOTHREAD_AUTO, int ftz = 1);
NANOTHREAD_EXPORT void pool_destroy(Pool *pool = nullptr);
NANOTHREAD_EXPORT uint32_t pool_size(Pool *pool = nullptr);
NANOTHREAD_EXPORT void pool_set_size(Pool *pool, uint32_t size);
NANOTHREAD_EXPORT uint32_t pool_thread_id();
NANOTHREAD_EXPORT int pool_profile();
NANOTHREAD_EXPORT void pool_set_profile(int value);

NANOTHREAD_EXPORT Task *task_submit_dep(Pool *pool, const Task *const *parent,
                                        uint32_t parent_count, uint32_t size = 1,
                                        void (*func)(uint32_t, void *) = nullptr,
                                        void *payload = nullptr,
                                        uint32_t payload_size = 0,
                                        void (*payload_deleter)(void *) = nullptr,
                                        int always_async = 0, int profile = 0);
NANOTHREAD_EXPORT void task_retain(Task *task);
NANOTHREAD_EXPORT void task_release(Task *task);
NANOTHREAD_EXPORT void task_wait(Task *task);
NANOTHREAD_EXPORT void task_wait_and_release(Task *task);
NANOTHREAD_EXPORT int task_query(Task *task);
NANOTHREAD_EXPORT double task_time(Task *task);
NANOTHREAD_EXPORT double task_time_rel(Task *task_1, Task *task_2);

/* ---- harness extensions (not part of nanothread) ---- */
struct NTStats {
    uint64_t tasks_submitted, tasks_inline, tasks_freed, units_run, units_on_worker,
             steals_out_of_order, delays_injected, max_concurrency, payload_frees,
             waits_blocked;
};
/// Seed + intensity (0: off .. 3: heavy) of the schedule perturbation
NANOTHREAD_EXPORT void nt_chaos(uint64_t seed, int level);
NANOTHREAD_EXPORT void nt_stats(NTStats *out);
/// Number of task handles that are currently alive
NANOTHREAD_EXPORT uint64_t nt_live_tasks();
/// Block until no task is queued or running (does not consume references)
NANOTHREAD_EXPORT void nt_quiesce();
}

namespace drjit {
template <typename Int> struct blocked_range {
    blocked_range(Int begin, Int end, Int block_size = 1)
        : m_begin(begin), m_end(end), m_block_size(block_size) { }
    struct iterator {
        iterator(Int value) : value(value) { }
        Int operator*() const { return value; }
        void operator++() { ++value; }
        bool operator==(const iterator &it) const { return value == it.value; }
        bool operator!=(const iterator &it) const { return value != it.value; }
        Int value;
    };
    uint32_t blocks() const { return (uint32_t) ((m_end - m_begin + m_block_size - 1) / m_block_size); }
    iterator begin() const { return iterator(m_begin); }
    iterator end() const { return iterator(m_end); }
    Int block_size() const { return m_block_size; }
    Int m_begin, m_end, m_block_size;
};

template <typename Int, typename Func>
void parallel_for(const blocked_range<Int> &range, Func &&func, Pool *pool = nullptr) {
    struct P { Func *f; Int begin, end, bs; } p { &func, range.m_begin, range.m_end, range.m_block_size };
    auto cb = [](uint32_t i, void *ptr) {
        P *q = (P *) ptr;
        Int b = q->begin + q->bs * (Int) i, e = b + q->bs;
        if (e > q->end) e = q->end;
        (*q->f)(blocked_range<Int>(b, e));
    };
    task_wait_and_release(task_submit_dep(pool, nullptr, 0, range.blocks(), cb, &p));
}
}
