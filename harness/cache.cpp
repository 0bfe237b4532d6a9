// The on-disk kernel cache (C10): altered, torn, foreign and vanishing files, failing and crashing I/O, concurrent processes, eviction.
#include "scen.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <utime.h>
#define XXH_INLINE_ALL
#include <xxh3.h>

static const VarType U32 = VarType::UInt32;
#if defined(__has_feature)
#  if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#    define NO_INTERPOSE 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#  define NO_INTERPOSE 1
#endif

// ---------------------------------------------------------------- I/O fault injection
enum Call { CFopen, CWrite, CRead, CClose, CLink, CChmod, CRemove, COpen, CUtime, NCALLS };
static const char *call_name[] = { "fopen", "write", "read", "close", "link", "chmod", "remove", "open", "utime" };
struct Plan { bool on = false; int call = -1, nth = 0, err = 0; bool shrt = false, kill = false, sticky = false; int kill_at = -1; uint32_t delay = 0; int count[NCALLS] = {}, total = 0; bool fired = false; std::function<void()> hook; };
static thread_local Plan plan; static thread_local bool inside = false;
static thread_local uint64_t delay_rng = 1;
/// Returns the errno to be reported (0: proceed); 'len' may be shortened
static int fault(Call c, size_t *len = nullptr) {
    if (!plan.on || inside) return 0;
    inside = true;
    int k = plan.count[c]++, t = plan.total++; int e = 0;
    if (t == plan.kill_at) { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (plan.delay) { delay_rng = delay_rng * 6364136223846793005ull + 1442695040888963407ull; if ((delay_rng >> 33) % 3 == 0) usleep((delay_rng >> 40) % plan.delay); }
    if (plan.call == c && (plan.sticky ? k >= plan.nth : k == plan.nth)) { plan.fired = true; if (plan.hook) { auto h = plan.hook; h(); } else if (plan.shrt && len && *len > 1) *len = 1 + (*len - 1) / 3; else e = plan.err; }
    inside = false;
    return e;
}
#if !defined(NO_INTERPOSE)
template <typename F> static F real(F, const char *n) { return (F) dlsym(RTLD_NEXT, n); }
#define FWD(name, ...) static auto f = real(name, #name); return f(__VA_ARGS__)
extern "C" {
FILE *fopen(const char *p, const char *m) { if (int e = fault(CFopen)) { errno = e; return nullptr; } FWD(fopen, p, m); }
ssize_t write(int fd, const void *b, size_t n) { if (int e = fault(CWrite, &n)) { errno = e; return -1; } FWD(write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    size_t l = n > 0 ? v[0].iov_len : 0, l0 = l; if (int e = fault(CWrite, &l)) { errno = e; return -1; }
    if (l != l0) { struct iovec w = v[0]; w.iov_len = l; static auto f = real(writev, "writev"); return f(fd, &w, 1); }
    FWD(writev, fd, v, n);
}
ssize_t read(int fd, void *b, size_t n) { if (int e = fault(CRead, &n)) { errno = e; return -1; } FWD(read, fd, b, n); }
int fclose(FILE *q) { int e = fault(CClose); static auto f = real(fclose, "fclose"); int r = f(q); if (e) { errno = e; return -1; } return r; }
int link(const char *a, const char *b) { if (int e = fault(CLink)) { errno = e; return -1; } FWD(link, a, b); }
int fchmodat(int d, const char *p, mode_t m, int g) { if (int e = fault(CChmod)) { errno = e; return -1; } FWD(fchmodat, d, p, m, g); }
int remove(const char *p) noexcept { if (int e = fault(CRemove)) { errno = e; return -1; } FWD(remove, p); }
int utimensat(int d, const char *p, const struct timespec *t, int g) noexcept { if (int e = fault(CUtime)) { errno = e; return -1; } FWD(utimensat, d, p, t, g); }
}
#endif

// ---------------------------------------------------------------- kernels
struct KOp { int k; uint32_t c, d; };
struct KDef { std::vector<KOp> ops;
    explicit KDef(uint64_t seed) { Rng r(seed, 5); int n = 1 + r.below(6); for (int i = 0; i < n; ++i) ops.push_back({ (int) r.below(i ? 7 : 5), (uint32_t) r.next() | 1, (uint32_t) r.next() }); }
    uint32_t ref(uint32_t x) const { for (auto &o : ops) switch (o.k) { case 0: x += o.c; break; case 1: x *= o.c; break; case 2: x ^= o.c; break; case 3: x = (x >> (o.c & 31)) ^ x; break; case 4: x = x < o.c ? x + o.d : x; break; case 5: { uint32_t m = x & 7; for (uint32_t i = 0; i < m; ++i) x = x * o.c + i; break; } default: { uint32_t w = x % 3; x = w == 0 ? x + o.c : w == 1 ? x ^ o.d : x * (o.c ^ o.d | 1); } } return x; }
    Var trace(Var x) const {
        auto L = [](uint32_t v) { return lit(U32, v); };
        for (auto &o : ops) switch (o.k) {
            case 0: x = steal(jit_var_add(x, L(o.c))); break;
            case 1: x = steal(jit_var_mul(x, L(o.c))); break;
            case 2: x = steal(jit_var_xor(x, L(o.c))); break;
            case 3: x = steal(jit_var_xor(steal(jit_var_shr(x, L(o.c & 31))), x)); break;
            case 4: x = steal(jit_var_select(steal(jit_var_lt(x, L(o.c))), steal(jit_var_add(x, L(o.d))), x)); break;
            case 5: { Var m = steal(jit_var_and(x, L(7))); Vars q = sym_loop({ x, L(0), m }, [](Vars &s) { return steal(jit_var_lt(s[1], s[2])); }, [&](Vars &s) { return Vars { steal(jit_var_fma(s[0], L(o.c), s[1])), steal(jit_var_add(s[1], L(1))), s[2] }; }); x = q[0]; break; }
            default: { Var self = steal(jit_var_add(steal(jit_var_mod(x, L(3))), L(1))); Vars q = sym_call(3, self, lit_bool(true), { x }, [&](uint32_t k, Vars &in) { return Vars { k == 0 ? steal(jit_var_add(in[0], L(o.c))) : k == 1 ? steal(jit_var_xor(in[0], L(o.d))) : steal(jit_var_mul(in[0], L(o.c ^ o.d | 1))) }; }); x = q[0]; }
        }
        return x;
    }
    bool calls() const { for (auto &o : ops) if (o.k == 6) return true; return false; }
};
static std::string last_ir; static uint64_t last_hash[2];
enum Res { Wrong = -1, Built = 0, Disk = 1, Memory = 2 };
/// Evaluate a kernel on fresh data and check the result
static int evaluate(const KDef &k, Rng &r, const Plan *p, std::string &msg) {
    size_t n = 2 + r.below(r.chance(.2) ? 3000 : 40); std::vector<uint32_t> x(n); for (auto &v : x) v = (uint32_t) r.next();
    jit_kernel_history_clear(); int res = Wrong; msg.clear();
    try {
        Var a = copy_in(U32, x.data(), n), y = k.trace(a);
        if (p) { plan = *p; plan.on = true; }
        try { jit_var_eval(y); } catch (...) { plan.on = false; throw; }
        plan.on = false;
        std::vector<uint64_t> g = fetch(y);
        for (size_t i = 0; i < n; ++i) if (g[i] != k.ref(x[i])) { msg = H::fmt("element %zu of %zu: f(0x%x) = 0x%llx, expected 0x%x", i, n, x[i], (unsigned long long) g[i], k.ref(x[i])); break; }
        H::stat("elements_compared", n); H::stat("evaluations");
        KernelHistoryEntry *h = jit_kernel_history(); int entries = 0;
        for (KernelHistoryEntry *q = h; q && (uint32_t) q->backend; ++q) { if (q->type == KernelType::JIT) { ++entries; res = q->cache_disk ? Disk : q->cache_hit ? Memory : Built; last_ir = q->ir; last_hash[0] = q->hash[0]; last_hash[1] = q->hash[1]; } free(q->ir); }
        free(h);
        if (entries != 1 && msg.empty()) msg = H::fmt("%d kernels in the history", entries);
    } catch (const std::exception &e) { msg = std::string("exception: ") + std::string(e.what()).substr(0, 300); }
    if (!msg.empty()) return Wrong;
    return res;
}

// ---------------------------------------------------------------- files
using Bytes = std::vector<uint8_t>;
static Bytes slurp(const std::string &p) { Bytes b; FILE *f = fopen(p.c_str(), "rb"); if (!f) return b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
static void spit(const std::string &p, const Bytes &b) { ::remove(p.c_str()); FILE *f = fopen(p.c_str(), "wb"); if (!f) { fprintf(stderr, "HARNESS cannot write %s\n", p.c_str()); exit(99); } if (!b.empty()) fwrite(b.data(), 1, b.size(), f); fclose(f); }
static std::vector<std::string> list(const std::string &d, const char *suffix = ".bin") { std::vector<std::string> v; DIR *q = opendir(d.c_str()); if (!q) return v; while (dirent *e = readdir(q)) { std::string s = e->d_name; size_t l = strlen(suffix); if (s.size() >= l && s.compare(s.size() - l, l, suffix) == 0) v.push_back(s); } closedir(q); std::sort(v.begin(), v.end()); return v; }
static void wipe(const std::string &d) { for (auto &f : list(d, "")) if (f != "." && f != "..") { std::string p = d + "/" + f; if (::remove(p.c_str()) != 0) rmdir(p.c_str()); } }
#pragma pack(push, 1)
struct Head { uint8_t version; uint32_t compressed, source, kernel, reloc; XXH128_hash_t sum; };
#pragma pack(pop)
/// The documented checksum: header up to the checksum, source, compressed payload
static XXH128_hash_t checksum(const Bytes &f, const std::string &src) {
    XXH3_state_t *s = XXH3_createState(); XXH3_128bits_reset_withSeed(s, 1);
    XXH3_128bits_update(s, f.data(), offsetof(Head, sum)); XXH3_128bits_update(s, src.data(), src.size()); XXH3_128bits_update(s, f.data() + sizeof(Head), f.size() - sizeof(Head));
    XXH128_hash_t h = XXH3_128bits_digest(s); XXH3_freeState(s); return h;
}
static void resum(Bytes &f, const std::string &src) { XXH128_hash_t h = checksum(f, src); memcpy(f.data() + offsetof(Head, sum), &h, sizeof h); }

static std::string dir_;
static std::string entry_of(const std::vector<std::string> &before) { for (auto &f : list(dir_)) if (!std::binary_search(before.begin(), before.end(), f)) return dir_ + "/" + f; return ""; }

static const char *mut_name[] = { "bit-flip", "byte", "truncate", "extend", "zero-tail", "zero-block", "empty", "garbage", "foreign", "splice", "stale-version", "forged-size", "forged-payload", "directory", "dangling-link", "fifo-free", "swap-head", "random-tail" };
/// Returns false if the mutation leaves nothing that may be loaded
static bool mutate(int m, const std::string &path, const Bytes &good, const Bytes &other, const std::string &src, Rng &r) {
    Bytes b = good; size_t n = b.size();
    switch (m) {
        case 0: { int k = r.chance(.7) ? 1 : 1 + r.below(5); for (int i = 0; i < k; ++i) { size_t p = r.chance(.4) ? r.below(std::min<size_t>(n, 40)) : r.below(n); b[p] ^= 1 << r.below(8); } break; }
        case 1: b[r.below(n)] = (uint8_t) r.next(); break;
        case 2: b.resize(r.chance(.3) ? r.below(40) : r.below(n)); break;
        case 3: for (int i = 1 + r.below(64); i--; ) b.push_back((uint8_t) (r.chance(.5) ? 0 : r.next())); break;
        case 4: { size_t p = r.below(n); std::fill(b.begin() + p, b.end(), 0); break; }
        case 5: { size_t p = r.below(n), e = std::min(n, p + 1 + r.below(512)); std::fill(b.begin() + p, b.begin() + e, 0); break; }
        case 6: b.clear(); break;
        case 7: for (auto &x : b) x = (uint8_t) r.next(); if (r.chance(.5)) b.resize(r.below(2 * n)); break;
        case 8: b = other; break;
        case 9: { size_t p = r.below(std::min(n, other.size())); std::copy(other.begin() + p, other.begin() + std::min(n, other.size()), b.begin() + p); break; }
        case 10: b[0] += r.chance(.5) ? 1 : 255; resum(b, src); break;
        case 11: { Head h; memcpy(&h, b.data(), sizeof h); bool kf = r.chance(.5); uint32_t f = kf ? h.kernel : h.reloc; f = r.chance(.5) ? f + 8 * (1 + r.below(20)) : r.chance(.5) ? f / 2 & ~7u : f + 0x10000; if (kf) h.kernel = f; else h.reloc = f; memcpy(b.data(), &h, sizeof h); resum(b, src); break; }
        case 12: { for (size_t i = sizeof(Head) + r.below(n - sizeof(Head)); i < n; ++i) b[i] = (uint8_t) r.next(); Head h; memcpy(&h, b.data(), sizeof h); (void) h; break; }
        case 13: ::remove(path.c_str()); mkdir(path.c_str(), 0755); return false;
        case 14: ::remove(path.c_str()); if (symlink((dir_ + "/nowhere").c_str(), path.c_str())) { } return false;
        case 15: ::remove(path.c_str()); return false;
        case 16: std::copy(other.begin(), other.begin() + sizeof(Head), b.begin()); break;
        default: { size_t p = r.below(n); for (size_t i = p; i < n; ++i) b[i] = (uint8_t) r.next(); }
    }
    spit(path, b);
    return b == good;
}
static void undo(int m, const std::string &path) { if (m == 13) rmdir(path.c_str()); if (m == 14) ::remove(path.c_str()); }

static void content(Rng &r) {
    KDef k(r.next()), k2(r.next()); std::string msg; wipe(dir_);
    auto bad = [&](const char *key, const char *what, const std::string &x) { H::violation(key, "%s: %s", what, x.c_str()); };
    std::vector<std::string> before = list(dir_);
    int e = evaluate(k, r, nullptr, msg); if (e == Wrong) return bad("value", "first evaluation", msg); if (e != Built) return bad("phantom-hit", "first evaluation", H::fmt("state %d with an empty cache directory", e));
    std::string src = last_ir, path = entry_of(before); if (path.empty()) return bad("not-written", "first evaluation", "no cache file");
    Bytes good = slurp(path); before = list(dir_);
    Head h; if (good.size() < sizeof h) return bad("file-format", "size", H::fmt("%zu", good.size())); memcpy(&h, good.data(), sizeof h);
    XXH128_hash_t want = checksum(good, src); if (memcmp(&want, &h.sum, 16) || good.size() != sizeof h + h.compressed || h.source != src.size()) return bad("file-format", "header", "the checksum or the sizes of a file that was just written are wrong");
    struct stat st; if (!stat(path.c_str(), &st) && (st.st_mode & 022)) bad("permissions", "mode", H::fmt("%o", st.st_mode));
    if (!list(dir_, ".tmp").empty()) bad("leftover", "temporary file after a successful write", list(dir_, ".tmp")[0]);
    e = evaluate(k2, r, nullptr, msg); if (e == Wrong) return bad("value", "second kernel", msg);
    std::string path2 = entry_of(before); Bytes other = path2.empty() ? good : slurp(path2);
    if (e == Built && path2.empty()) return bad("not-written", "second kernel", "no cache file");
    jit_flush_kernel_cache();
    e = evaluate(k, r, nullptr, msg); if (e == Wrong) return bad("value", "loaded from disk", msg); if (e != Disk) return bad("not-used", "an intact entry", H::fmt("state %d", e));
    int rounds = 2 + r.below(4);
    for (int q = 0; q < rounds; ++q) {
        int m = (int) r.below(sizeof(mut_name) / sizeof(*mut_name)); if ((m == 8 || m == 9 || m == 16) && other == good) m = 0;
        bool same = mutate(m, path, good, other, src, r); H::stat(H::fmt("mutation:%s", mut_name[m]));
        jit_flush_kernel_cache();
        e = evaluate(k, r, nullptr, msg);
        if (e == Wrong) { bad("value-corrupt", mut_name[m], msg); undo(m, path); return; }
        if (!same && e != Built) { bad("trusted", mut_name[m], H::fmt("an altered file was used (state %d)", e)); undo(m, path); return; }
        if (same && e != Disk) { bad("not-used", mut_name[m], "unchanged file"); return; }
        undo(m, path);
        if (m == 13 || m == 14) { jit_flush_kernel_cache(); if (evaluate(k, r, nullptr, msg) == Wrong) return bad("value-corrupt", mut_name[m], msg); }
        jit_flush_kernel_cache();
        e = evaluate(k, r, nullptr, msg);
        if (e == Wrong) return bad("value", "after recovery", msg); if (e != Disk) return bad("not-repaired", mut_name[m], "the entry was not replaced by a valid one");
        good = slurp(path); H::stat("repairs_checked");
    }
}
static void target(Rng &r) {
    // the same program for different compilation targets: every target needs its own entry
    wipe(dir_); KDef k(r.next()); std::string msg; std::set<int> have; int base = (int) H::optu("tgt", getenv("VERIF_TGT") ? strtoul(getenv("VERIF_TGT"), nullptr, 0) : 0);
    std::string c0 = jit_llvm_target_cpu(), f0 = jit_llvm_target_features(); uint32_t w0 = jit_llvm_vector_width();
    std::map<std::string, std::string> seen;
    for (int i = 0; i < 6; ++i) {
        jit_flush_kernel_cache();
        std::string f = f0; uint32_t w = w0; const char *cpu = c0.c_str();
        switch (r.below(5)) { case 0: break; case 1: w = 4; break; case 2: w = 8; break; case 3: cpu = "haswell"; f = "+sse4.2,+avx,+avx2,+fma,+f16c,+bmi,+bmi2,+lzcnt,+popcnt,+cx16"; w = 8; break; default: { size_t p = f.find("+bmi2"); if (p != std::string::npos) f[p] = '-'; } }
        jit_llvm_set_target(cpu, f.c_str(), w);
        std::string key = H::fmt("%s/%s/%u", cpu, f.c_str(), w);
        int e = evaluate(k, r, nullptr, msg);
        if (e == Wrong) H::violation("value", "target %s: %s", key.c_str(), msg.c_str());
        else if (e == Disk && !seen.count(key)) H::violation("foreign-target", "a kernel compiled for another target was used for %s", key.c_str());
        else if (e == Built && seen.count(key)) H::violation("not-used", "entry for target %s", key.c_str());
        seen[key]; H::stat("target_switches");
    }
    jit_llvm_set_target(c0.c_str(), f0.c_str(), w0); (void) base;
}

static void restart() {
    uint32_t fl = jit_flags(); std::string c0 = jit_llvm_target_cpu(), f0 = jit_llvm_target_features(); uint32_t w0 = jit_llvm_vector_width();
    jit_sync_thread(); jit_shutdown(0); jit_init(1u << (uint32_t) LLVM); jit_llvm_set_target(c0.c_str(), f0.c_str(), w0); jit_set_flags(fl);
}
static void faults(Rng &r) {
    KDef k(r.next()), k2(r.next()); std::string msg, path; wipe(dir_); Bytes good;
    bool have = r.chance(.5);
    if (have) { if (evaluate(k, r, nullptr, msg) == Wrong) return (void) H::violation("value", "%s", msg.c_str()); path = entry_of({}); good = slurp(path); jit_flush_kernel_cache(); }
    static const struct { Call c; int err; bool shrt, sticky; } fs[] = { { CFopen, EACCES, 0, 0 }, { CFopen, EROFS, 0, 1 }, { CFopen, ENOSPC, 0, 1 }, { CFopen, EMFILE, 0, 1 }, { CWrite, ENOSPC, 0, 0 }, { CWrite, ENOSPC, 0, 1 }, { CWrite, EIO, 0, 0 }, { CWrite, 0, 1, 0 }, { CWrite, 0, 1, 1 }, { CWrite, EDQUOT, 0, 1 }, { CRead, EIO, 0, 0 }, { CRead, EIO, 0, 1 }, { CRead, 0, 1, 0 }, { CRead, 0, 1, 1 }, { CClose, EIO, 0, 0 }, { CLink, EPERM, 0, 0 }, { CLink, ENOSPC, 0, 0 }, { CLink, EMLINK, 0, 0 }, { CChmod, EPERM, 0, 0 }, { CRemove, EACCES, 0, 1 }, { CWrite, EINTR, 0, 0 }, { CRead, EINTR, 0, 0 } };
    auto &f = fs[r.below(sizeof(fs) / sizeof(*fs))];
    Plan p; p.call = f.c; p.err = f.err; p.shrt = f.shrt; p.sticky = f.sticky; p.nth = r.chance(.6) ? 0 : (int) r.below(4);
    bool race = r.chance(.3), reads = have && (f.c == CFopen || f.c == CRead);
    if (race && have) { // the file changes while it is being read
        p.shrt = p.sticky = false; p.err = 0; p.call = r.chance(.5) ? CFopen : CRead; int what = (int) r.below(4); uint64_t s = r.next();
        p.hook = [&, what, s] { Rng q(s); switch (what) { case 0: if (truncate(path.c_str(), q.below(good.size()))) { } break; case 1: ::remove(path.c_str()); break; case 2: { Bytes b = good; for (int i = 0; i < 20; ++i) b[q.below(b.size())] ^= 1 << q.below(8); FILE *o = fopen(path.c_str(), "r+b"); if (o) { fwrite(b.data(), 1, b.size(), o); fclose(o); } break; } default: { Bytes b(q.below(3000)); for (auto &x : b) x = (uint8_t) q.next(); FILE *o = fopen(path.c_str(), "wb"); if (o) { fwrite(b.data(), 1, b.size(), o); fclose(o); } } } };
        H::stat("changed_while_read");
    }
    int e = evaluate(k, r, &p, msg);
    if (e == Wrong) return (void) H::violation("value-fault", "%s fails with %d (call %d%s): %s", call_name[p.call], p.err, p.nth, p.sticky ? "+" : "", msg.c_str());
    (void) reads;
    if (plan.fired) { H::stat(H::fmt("fault:%s", call_name[p.call])); H::stat("faults_injected"); }
    // whatever is in the directory now must be usable or detectably broken
    for (int i = 0; i < 2; ++i) {
        jit_flush_kernel_cache();
        std::vector<std::string> l = list(dir_); bool valid = false; std::string src = last_ir;
        for (auto &n : l) { Bytes b = slurp(dir_ + "/" + n); Head h; if (b.size() >= sizeof h) { memcpy(&h, b.data(), sizeof h); if (b.size() == sizeof h + h.compressed && h.source == src.size()) { XXH128_hash_t w = checksum(b, src); if (!memcmp(&w, &h.sum, 16)) valid = true; } } }
        if (!l.empty() && !valid && i == 0 && !race) return (void) H::violation("bad-file-published", "after %s failed with %d (call %d)", call_name[p.call], p.err, p.nth);
        e = evaluate(k, r, nullptr, msg);
        if (e == Wrong) return (void) H::violation("value-after-fault", "%s: %s", call_name[p.call], msg.c_str());
        if (valid != (e == Disk)) return (void) H::violation(valid ? "not-used" : "trusted", "after %s failed with %d (call %d): a valid file %s, state %d", call_name[p.call], p.err, p.nth, valid ? "exists" : "does not exist", e);
    }
    if (plan.fired && (f.err == EACCES || f.err == EROFS)) { restart(); jit_flush_kernel_cache(); }
    e = evaluate(k2, r, nullptr, msg); if (e == Wrong) H::violation("value-after-fault", "other kernel: %s", msg.c_str());
    if (plan.fired && (f.err == EACCES || f.err == EROFS) && e == Built && list(dir_).empty()) H::violation("not-written", "after a restart");
}

// ---------------------------------------------------------------- other processes
struct Child { pid_t pid; int fd; std::string text; int status = 0; };
static Child launch_child(const std::string &dir, const std::vector<uint64_t> &seeds, const std::string &extra, const std::vector<std::string> &env = {}) {
    int p[2]; if (pipe2(p, O_CLOEXEC)) exit(99);
    std::string s = "kernels="; for (uint64_t x : seeds) s += H::fmt("%llu,", (unsigned long long) x);
    pid_t pid = fork();
    if (!pid) {
        dup2(p[1], 1); setenv("DRJIT_CACHE_DIR", dir.c_str(), 1); for (auto &e : env) putenv((char *) e.c_str());
        int nul = ::open("/dev/null", O_RDWR); if (!getenv("CHILD_DEBUG")) dup2(nul, 2);
        std::vector<std::string> a { "cache", "child=1", s }; size_t q = 0; std::string x = extra; while (!x.empty()) { q = x.find(' '); a.push_back(x.substr(0, q)); x = q == std::string::npos ? "" : x.substr(q + 1); }
        std::vector<char *> v; for (auto &t : a) v.push_back((char *) t.c_str()); v.push_back(nullptr);
        alarm(120); execv("/proc/self/exe", v.data()); _exit(98);
    }
    close(p[1]); return { pid, p[0], "" };
}
static void wait_child(Child &c) { char b[4096]; ssize_t n; while ((n = ::read(c.fd, b, sizeof b)) > 0) c.text.append(b, n); close(c.fd); waitpid(c.pid, &c.status, 0); }
static int child_main() {
    H::out = fopen("/dev/null", "w"); jit_start(LogLevel::Disable); jit_set_flag(JitFlag::KernelHistory, 1);
    Rng r(H::optu("cseed", 1)); std::vector<uint64_t> seeds; std::string s = H::opts("kernels", ""); for (size_t q; (q = s.find(',')) != std::string::npos; s = s.substr(q + 1)) seeds.push_back(strtoull(s.c_str(), nullptr, 10));
    if (H::optu("shuffle", 0)) for (size_t i = seeds.size(); i > 1; --i) std::swap(seeds[i - 1], seeds[r.below(i)]);
    Plan p; int ka = (int) H::optu("kill", 0) - 1; p.delay = (uint32_t) H::optu("delay", 0); delay_rng = r.next();
    int used = 0; uint64_t rounds = H::optu("rounds", 1);
    for (uint64_t q = 0; q < rounds; ++q) {
        for (uint64_t x : seeds) { std::string msg; p.kill_at = ka < 0 ? -1 : ka - used; int e = evaluate(KDef(x), r, &p, msg); used += plan.total; plan.total = 0; dprintf(1, "R %llu %d %s\n", (unsigned long long) x, e, msg.c_str()); }
        jit_flush_kernel_cache();
    }
    if (H::optu("linger", 0)) usleep(H::optu("linger", 0) * 1000);
    dprintf(1, "END %d\n", used); jit_shutdown(0); return 0;
}
static std::vector<std::pair<int, std::string>> parse(const std::string &t, bool &ended) { std::vector<std::pair<int, std::string>> v; ended = false; size_t q = 0; while (q < t.size()) { size_t e = t.find('\n', q); if (e == std::string::npos) break; std::string l = t.substr(q, e - q); q = e + 1; if (l.rfind("END", 0) == 0) ended = true; int s; unsigned long long x; int c = 0; if (sscanf(l.c_str(), "R %llu %d %n", &x, &s, &c) >= 2) v.push_back({ s, l.substr(c) }); } return v; }
static std::string sub_dir() { static int n = 0; std::string d = dir_ + H::fmt("/sub%d", n++); mkdir(d.c_str(), 0755); return d; }
static void drop_dir(const std::string &d) { wipe(d); rmdir(d.c_str()); }
static bool child_ok(Child &c, const char *what, bool may_die, std::vector<std::pair<int, std::string>> &v) {
    bool ended; v = parse(c.text, ended);
    for (auto &q : v) if (q.first == Wrong) { H::violation("process-value", "%s: %s", what, q.second.c_str()); return false; }
    bool killed = WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGKILL;
    if (WIFEXITED(c.status) && (WEXITSTATUS(c.status) == 98 || WEXITSTATUS(c.status) == 99)) { fprintf(stderr, "HARNESS child could not be started\n"); exit(99); }
    if (!(WIFEXITED(c.status) && WEXITSTATUS(c.status) == 0 && ended) && !(killed && may_die)) { H::violation("process-crash", "%s: status 0x%x after %zu kernels: %s", what, c.status, v.size(), c.text.substr(0, 300).c_str()); return false; }
    H::stat("child_kernels", v.size()); return true;
}
static void crash(Rng &r) {
    std::string d = sub_dir(); std::vector<uint64_t> s; int n = 1 + r.below(3); for (int i = 0; i < n; ++i) s.push_back(r.next()); std::vector<std::pair<int, std::string>> v;
    int ndeath = 1 + r.below(3);
    for (int i = 0; i < ndeath; ++i) {
        bool timed = r.chance(.2); Child c = launch_child(d, s, H::fmt("cseed=%llu %s", (unsigned long long) r.next() >> 1, timed ? "delay=2000" : H::fmt("kill=%u", 1 + r.below(9 * n)).c_str()));
        if (timed) { usleep(60000 + r.below(200000)); kill(c.pid, SIGKILL); }
        wait_child(c); if (!child_ok(c, "process that is killed", true, v)) { drop_dir(d); return; }
        if (WIFSIGNALED(c.status)) H::stat("killed_processes");
    }
    size_t present = list(d).size();
    Child c = launch_child(d, s, "cseed=3 rounds=1"); wait_child(c); if (!child_ok(c, "process after a crash", false, v)) { drop_dir(d); return; }
    size_t disk = 0; for (auto &q : v) disk += q.first == Disk;
    if (disk != present) H::violation("crash-entry", "%zu entries were left by killed processes, %zu of them were usable", present, disk);
    if (list(d).size() != (size_t) n) H::violation("crash-unwritten", "%zu of %d entries after a complete run", list(d).size(), n);
    c = launch_child(d, s, "cseed=4 rounds=1"); wait_child(c); if (!child_ok(c, "third process", false, v)) { drop_dir(d); return; }
    for (auto &q : v) if (q.first != Disk) H::violation("not-used", "by a process that runs after a complete run");
    H::stat("crash_recoveries"); drop_dir(d);
}
static void many(Rng &r) {
    std::string d = sub_dir(); std::vector<uint64_t> s; int n = 2 + r.below(4); for (int i = 0; i < n; ++i) s.push_back(r.next());
    bool vandal = r.chance(.6); int np = 2 + r.below(4); std::vector<Child> cs; std::vector<std::pair<int, std::string>> v;
    for (int i = 0; i < np; ++i) cs.push_back(launch_child(d, s, H::fmt("cseed=%llu shuffle=1 rounds=%u delay=%u", (unsigned long long) r.next() >> 1, 2 + r.below(3), r.chance(.5) ? 3000 : 100)));
    if (vandal) for (int i = 0; i < 60; ++i) {
        usleep(1000 + r.below(9000)); auto l = list(d, r.chance(.9) ? ".bin" : ""); if (l.empty()) continue; std::string f = d + "/" + l[r.below(l.size())];
        switch (r.below(4)) { case 0: ::remove(f.c_str()); break; case 1: if (truncate(f.c_str(), r.below(2000))) { } break; case 2: { int q = ::open(f.c_str(), O_RDWR); if (q >= 0) { uint8_t b = (uint8_t) r.next(); if (pwrite(q, &b, 1, r.below(2000)) < 0) { } close(q); } break; } default: ::rename(f.c_str(), (d + "/" + l[r.below(l.size())]).c_str()); }
        H::stat("vandalised_files");
    }
    bool fine = true; for (auto &c : cs) { wait_child(c); fine &= child_ok(c, vandal ? "concurrent process (files are being altered)" : "concurrent process", false, v); }
    H::stat("concurrent_processes", np);
    if (fine) {
        if (!vandal) { if (list(d).size() != (size_t) n) H::violation("concurrent-entries", "%zu entries for %d kernels", list(d).size(), n); if (!list(d, ".tmp").empty()) H::violation("leftover", "temporary file after all processes ended"); }
        Child c = launch_child(d, s, "cseed=5 rounds=2"); wait_child(c);
        if (child_ok(c, "process after concurrent ones", false, v)) for (size_t i = vandal ? n : 0; i < v.size(); ++i) if (v[i].first != Disk) { H::violation("not-used", "entry written by concurrent processes (round %zu)", i / n); break; }
    }
    drop_dir(d);
}
static void sweep(Rng &r) {
    // least recently used entries are evicted once the budget is exceeded, and nothing else is touched
    std::string d = sub_dir(); int n = 5 + r.below(30); struct E { std::string f; size_t size; time_t t; }; std::vector<E> es; size_t total = 0; time_t now = time(nullptr);
    std::set<time_t> ts; for (int i = 0; i < n; ++i) { time_t t; do t = now - 100 - r.below(1000000); while (!ts.insert(t).second); E e { H::fmt("%032llx.llvm.v6.bin", (unsigned long long) i), 1 + r.below(4000), t }; total += e.size; es.push_back(e); spit(d + "/" + e.f, Bytes(e.size, 7)); utimbuf u { t, t }; utime((d + "/" + e.f).c_str(), &u); }
    std::vector<std::string> aliens = { "notes.txt", "x.bin.tmp", "data", "weird.bin.1234.tmp" }; for (auto &a : aliens) { spit(d + "/" + a, Bytes(100, 1)); utimbuf u { 1000, 1000 }; utime((d + "/" + a).c_str(), &u); } mkdir((d + "/dir.bin").c_str(), 0755);
    size_t budget = r.chance(.2) ? 0 : r.chance(.3) ? total + r.below(1000) : 1 + r.below(total); bool recent = r.chance(.15);
    if (recent) spit(d + "/sweep.stamp", {});
    std::string unit = budget && budget % 1024 == 0 ? H::fmt("%zuk", budget / 1024) : H::fmt("%zu", budget);
    Child c = launch_child(d, {}, "linger=150", { "DRJIT_CACHE_MAXSIZE=" + unit }); wait_child(c); std::vector<std::pair<int, std::string>> v; if (!child_ok(c, "sweep", false, v)) { wipe(d); drop_dir(d); return; }
    for (auto &a : aliens) if (access((d + "/" + a).c_str(), F_OK)) H::violation("sweep-alien", "%s was removed", a.c_str());
    std::sort(es.begin(), es.end(), [](const E &a, const E &b) { return a.t > b.t; });
    size_t left = 0; bool gone = false; int holes = 0, kept = 0; for (auto &e : es) { bool ex = !access((d + "/" + e.f).c_str(), F_OK); if (ex) { left += e.size; ++kept; if (gone) ++holes; } else gone = true; }
    bool expect = budget && total > budget && !recent;
    if (holes) H::violation("sweep-order", "%d entries survived that were used less recently than an evicted one (%d of %d kept, budget %zu, total %zu)", holes, kept, n, budget, total);
    if (expect && left > budget) H::violation("sweep-budget", "%zu bytes remain with a budget of %zu (total %zu)", left, budget, total);
    if (!expect && kept != n) H::violation("sweep-needless", "%d of %d entries kept, budget %zu, total %zu, recent sweep: %d", kept, n, budget, total, recent);
    if (expect && kept < n) { size_t e = es[kept].size; if (left + e <= budget / 5 * 4) H::violation("sweep-excess", "%zu of %zu bytes remain although the next entry (%zu) would have fit", left, budget, e); }
    H::stat("sweeps"); rmdir((d + "/dir.bin").c_str()); drop_dir(d);
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    signal(SIGPIPE, SIG_IGN);
    if (H::optu("child", 0)) return child_main();
    unsetenv("DRJIT_CACHE_DIR");
    jit_start(LogLevel::Disable);
    jit_set_flag(JitFlag::KernelHistory, 1);
    dir_ = jit_cache_dir() ? jit_cache_dir() : "";
    if (dir_.empty()) { fprintf(stderr, "HARNESS no cache directory\n"); return 99; }
    std::string mode = H::opts("mode", "content");
    H::loop([&](uint64_t cs, Rng &r) {
        (void) cs; jit_flush_kernel_cache();
        uint64_t id = r.s; H::distinct(id);
        if (mode == "content") { if (r.chance(.15)) target(r); else content(r); }
        else if (mode == "faults") faults(r);
        else { uint32_t k = r.below(10); if (k < 5) crash(r); else if (k < 7) many(r); else sweep(r); }
        H::sample(H::fmt("%s case %llu", mode.c_str(), (unsigned long long) cs));
    });
    wipe(dir_);
    int rc = H::finish(); jit_shutdown(0); return rc;
}
