// Shared infrastructure of all drivers: case loop, reporting, RNG, RAII.
#pragma once
#include <drjit-core/jit.h>
#include <drjit-core/half.h>
#include <nanothread/nanothread.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>

static constexpr JitBackend LLVM = JitBackend::LLVM;
using drjit::half;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1, uint64_t stream = 0) {
        s = seed * 0x9E3779B97F4A7C15ull + stream * 0xD1342543DE82EF95ull + 0x1234567;
        for (int i = 0; i < 4; ++i) next();
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint64_t n) { return n ? (uint32_t) (next() % n) : 0; }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below((uint64_t) hi - lo + 1); }
    bool chance(double p) { return (next() >> 11) * 0x1.0p-53 < p; }
    double uniform() { return (next() >> 11) * 0x1.0p-53; }
    template <typename T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
    template <typename T> const T &pick(const std::vector<T> &a) { return a[below(a.size())]; }
};

namespace H {
inline uint64_t seed = 1, begin = 0, end = 100, cur = 0;
inline int violations = 0, max_violations = 8;
inline FILE *out = nullptr;
inline std::map<std::string, std::string> opt;
inline std::map<std::string, uint64_t> counters;
inline std::set<uint64_t> hashes;
inline std::mutex mtx;
inline std::vector<std::string> samples;

inline void stat(const std::string &k, uint64_t n = 1) {
    std::lock_guard<std::mutex> g(mtx);
    counters[k] += n;
}
inline void stat_max(const std::string &k, uint64_t n) {
    std::lock_guard<std::mutex> g(mtx);
    uint64_t &v = counters["max:" + k];
    v = std::max(v, n);
}
/// Record one (non-trivial) case by the hash of its content
inline void distinct(uint64_t h) {
    std::lock_guard<std::mutex> g(mtx);
    hashes.insert(h);
}
inline void sample(const std::string &s) {
    std::lock_guard<std::mutex> g(mtx);
    if (samples.size() < 2) samples.push_back(s.substr(0, 1500));
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof(buf), f, ap);
    return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f);
    std::string r = vfmt(f, ap);
    va_end(ap);
    return r;
}
/// Report a violation. 'key' identifies the kind of failure (known-findings matching)
__attribute__((format(printf, 2, 3))) inline void violation(const std::string &key, const char *f, ...) {
    va_list ap; va_start(ap, f);
    std::string r = vfmt(f, ap);
    va_end(ap);
    for (char &c : r) if (c == '\n') c = ' ';
    std::lock_guard<std::mutex> g(mtx);
    fprintf(out, "V\t%s\t%llu\t%s\n", key.c_str(), (unsigned long long) cur, r.c_str());
    fflush(out);
    violations++;
}
inline uint64_t optu(const char *k, uint64_t d) {
    auto it = opt.find(k);
    return it == opt.end() ? d : strtoull(it->second.c_str(), nullptr, 0);
}
inline std::string opts(const char *k, const char *d) {
    auto it = opt.find(k);
    return it == opt.end() ? d : it->second;
}
inline bool thorough() { return optu("thorough", 0) != 0; }
inline bool verbose() { return optu("verbose", 0) != 0; }

inline void args(int argc, char **argv) {
    out = stdout;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        size_t p = a.find('=');
        if (p == std::string::npos) { opt[a] = "1"; continue; }
        opt[a.substr(0, p)] = a.substr(p + 1);
    }
    seed = optu("seed", 1); begin = optu("begin", 0); end = optu("end", 20);
    max_violations = (int) optu("maxv", 8);
    if (opt.count("out")) {
        out = fopen(opt["out"].c_str(), "w");
        if (!out) { fprintf(stderr, "HARNESS cannot open %s\n", opt["out"].c_str()); exit(99); }
    }
}
inline void flush_stats() {
    std::lock_guard<std::mutex> g(mtx);
    for (auto &kv : counters) fprintf(out, "S\t%s\t%llu\n", kv.first.c_str(), (unsigned long long) kv.second);
    for (uint64_t h : hashes) fprintf(out, "H\t%llx\n", (unsigned long long) h);
    for (auto s : samples) { for (char &c : s) if (c == '\n') c = '~'; fprintf(out, "X\t%s\n", s.c_str()); }
    NTStats st; nt_stats(&st);
    fprintf(out, "S\tpool:tasks_submitted\t%llu\nS\tpool:units_run\t%llu\nS\tpool:units_on_worker\t%llu\nS\tpool:delays_injected\t%llu\n",
            (unsigned long long) st.tasks_submitted, (unsigned long long) st.units_run,
            (unsigned long long) st.units_on_worker, (unsigned long long) st.delays_injected);
    counters.clear(); hashes.clear(); samples.clear();
    fflush(out);
}
inline int finish() {
    flush_stats();
    fprintf(out, "DONE\n");
    fflush(out);
    return 0;
}

/// Standard case loop: runs body(case_index, rng); unexpected exceptions are violations
template <typename F> void loop(F &&body) {
    for (uint64_t i = begin; i < end && violations < max_violations; ++i) {
        cur = i;
        fprintf(out, "C\t%llu\n", (unsigned long long) i);
        fflush(out);
        Rng r(seed, i);
        try {
            body(i, r);
        } catch (const std::exception &e) {
            violation("unexpected-exception", "%s", e.what());
        }
        stat("cases");
    }
}
} // namespace H

inline size_t type_sz(VarType t) {
    switch (t) {
        case VarType::Bool: case VarType::Int8: case VarType::UInt8: return 1;
        case VarType::Int16: case VarType::UInt16: case VarType::Float16: return 2;
        case VarType::Int32: case VarType::UInt32: case VarType::Float32: return 4;
        case VarType::Int64: case VarType::UInt64: case VarType::Float64: case VarType::Pointer: return 8;
        default: return 0;
    }
}
inline const char *type_nm(VarType t) {
    switch (t) {
        case VarType::Bool: return "bool"; case VarType::Int8: return "i8"; case VarType::UInt8: return "u8";
        case VarType::Int16: return "i16"; case VarType::UInt16: return "u16"; case VarType::Int32: return "i32";
        case VarType::UInt32: return "u32"; case VarType::Int64: return "i64"; case VarType::UInt64: return "u64";
        case VarType::Float16: return "f16"; case VarType::Float32: return "f32"; case VarType::Float64: return "f64";
        case VarType::Pointer: return "ptr"; default: return "?";
    }
}
inline bool is_flt(VarType t) { return t == VarType::Float16 || t == VarType::Float32 || t == VarType::Float64; }
inline bool is_sint(VarType t) { return t == VarType::Int8 || t == VarType::Int16 || t == VarType::Int32 || t == VarType::Int64; }
inline bool is_uint(VarType t) { return t == VarType::UInt8 || t == VarType::UInt16 || t == VarType::UInt32 || t == VarType::UInt64; }
inline bool is_int(VarType t) { return is_sint(t) || is_uint(t); }

/// Owning variable index
struct Var {
    uint32_t i = 0;
    Var() = default;
    explicit Var(uint32_t idx) : i(idx) {}
    Var(const Var &o) : i(o.i) { jit_var_inc_ref(i); }
    Var(Var &&o) noexcept : i(o.i) { o.i = 0; }
    Var &operator=(const Var &o) { jit_var_inc_ref(o.i); uint32_t old = i; i = o.i; jit_var_dec_ref(old); return *this; }
    Var &operator=(Var &&o) noexcept { if (this != &o) { uint32_t old = i; i = o.i; o.i = 0; jit_var_dec_ref(old); } return *this; }
    ~Var() { jit_var_dec_ref(i); }
    operator uint32_t() const { return i; }
    uint32_t release() { uint32_t r = i; i = 0; return r; }
    void reset() { jit_var_dec_ref(i); i = 0; }
};
inline Var steal(uint32_t i) { return Var(i); }
inline Var borrow(uint32_t i) { jit_var_inc_ref(i); return Var(i); }

inline Var lit(VarType t, uint64_t bits, size_t size = 1, bool eval = false) {
    return steal(jit_var_literal(LLVM, t, &bits, size, eval));
}
inline Var lit_u32(uint32_t v, size_t size = 1) { return lit(VarType::UInt32, v, size); }
inline Var lit_bool(bool v, size_t size = 1) { return lit(VarType::Bool, v, size); }
inline Var copy_in(VarType t, const void *p, size_t n) {
    return steal(jit_var_mem_copy(LLVM, t, p, n, 1));
}
/// Synchronously fetch the contents of a variable as raw bytes
inline std::vector<uint8_t> fetch_raw(uint32_t idx) {
    size_t n = jit_var_size(idx), ts = type_sz(jit_var_type(idx));
    std::vector<uint8_t> r(n * ts);
    if (!n) return r;
    void *ptr = nullptr;
    Var d = steal(jit_var_data(idx, &ptr));
    jit_sync_thread();
    memcpy(r.data(), ptr, n * ts);
    return r;
}
/// Contents of a variable, each element zero-extended to 64 bits
inline std::vector<uint64_t> fetch(uint32_t idx) {
    size_t ts = type_sz(jit_var_type(idx));
    std::vector<uint8_t> raw = fetch_raw(idx);
    std::vector<uint64_t> r(ts ? raw.size() / ts : 0);
    for (size_t i = 0; i < r.size(); ++i) { uint64_t v = 0; memcpy(&v, raw.data() + i * ts, ts); r[i] = v; }
    return r;
}

/// Select the code generation target. Native AVX512-FP16 instruction selection is never used: LLVM 17/18 crash in
/// (or miscompile) plain half precision comparisons for it (see DESIGN.md, "Toolchain").
inline void set_target(int tgt) {
    std::string cpu = jit_llvm_target_cpu() ? jit_llvm_target_cpu() : "", f = jit_llvm_target_features() ? jit_llvm_target_features() : "";
    uint32_t w = jit_llvm_vector_width();
    bool avx2 = f.find("+avx2") != std::string::npos;
    size_t pos;
    while ((pos = f.find("+avx512fp16")) != std::string::npos) f[pos] = '-';
    switch (tgt) {
        case 1: w = std::min(w, 8u); break;
        case 2: case 3:
            if (avx2) { cpu = "haswell"; f = "+sse4.2,+avx,+avx2,+fma,+f16c,+bmi,+bmi2,+lzcnt,+popcnt,+cx16"; }
            w = tgt == 2 ? std::min(w, 8u) : 4; break;
        case 4: w *= 2; break;
        default: break;
    }
    jit_llvm_set_target(cpu.c_str(), f.c_str(), w);
}
inline void jit_start(LogLevel lvl = LogLevel::Error) {
    if (H::opt.count("log")) lvl = (LogLevel) H::optu("log", 2);
    jit_set_log_level_stderr(lvl);
    jit_init(1u << (uint32_t) JitBackend::LLVM);
    if (!jit_has_backend(LLVM)) { fprintf(stderr, "HARNESS LLVM backend could not be initialised\n"); exit(99); }
    set_target((int) H::optu("tgt", getenv("VERIF_TGT") ? strtoul(getenv("VERIF_TGT"), nullptr, 0) : 0));
}

/// A user buffer whose last byte is followed by an inaccessible page (and preceded by one)
struct GuardBuf {
    uint8_t *base = nullptr, *ptr = nullptr;
    size_t total = 0, bytes = 0;
    GuardBuf(size_t n, bool at_end = true) : bytes(n) {
        size_t pg = 4096, body = (n + pg - 1) / pg * pg;
        if (!body) body = pg;
        total = body + 2 * pg;
        base = (uint8_t *) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) { fprintf(stderr, "HARNESS mmap failed\n"); exit(99); }
        memset(base, 0xA5, total);
        mprotect(base, pg, PROT_NONE);
        mprotect(base + pg + body, pg, PROT_NONE);
        ptr = at_end ? base + pg + body - n : base + pg;
    }
    ~GuardBuf() { munmap(base, total); }
    GuardBuf(const GuardBuf &) = delete;
};
