// flags: -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1
// String builder and unit formatting monitors (C19)
#define steal h_steal
#define borrow h_borrow
#include "common.h"
#undef steal
#undef borrow
#include "src/internal.h"
#include "src/strbuf.h"
#include "src/log.h"
#include <cinttypes>

extern uint32_t jitc_llvm_vector_width;

// ---------------------------------------------------------------- exhaustive 32 bit decimal numbers
static void u32_block(uint64_t blk) {
    StringBuffer b(4096);
    char want[16]; int wl;
    uint64_t start = blk << 26, end = start + (1ull << 26);
    wl = snprintf(want, sizeof(want), "%" PRIu64, start);
    for (uint64_t v = start; v < end; ++v) {
        b.rewind_to(v & 7);
        size_t at = b.size();
        b.put_u32((uint32_t) v);
        size_t n = b.size() - at;
        if (n != (size_t) wl || memcmp(b.get() + at, want, wl) != 0 || b.get()[at + n] != 0) {
            H::violation("put_u32", "%" PRIu64 " became '%.*s' (length %zu, terminated %d)", v, (int) std::min(n, (size_t) 20), b.get() + at, n, b.get()[at + n] == 0);
            return;
        }
        int k = wl - 1;
        while (k >= 0 && want[k] == '9') want[k--] = '0';
        if (k >= 0) want[k]++; else { memmove(want + 1, want, wl); want[0] = '1'; wl++; }
    }
    H::stat("u32_values", 1ull << 26);
    H::distinct(blk);
}

// ---------------------------------------------------------------- reference expansion of the directives
static const char *T_llvm[] = { "???", "i1", "???", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i64", "i64", "???", "half", "float", "double" };
static const char *T_big[] = { "???", "???", "???", "i16", "i16", "i32", "i32", "i64", "i64", "i128", "i128", "???", "???", "???", "???", "???" };
static const char *T_abbr[] = { "???", "i1", "???", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i64", "i64", "???", "f16", "f32", "f64" };
static const char *T_bin[] = { "???", "i1", "???", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i64", "i64", "???", "i16", "i32", "i64" };
static const char *T_pfx[] = { "%u", "%p", "???", "%b", "%b", "%w", "%w", "%r", "%r", "%rd", "%rd", "%rd", "???", "%h", "%f", "%d" };
static const VarType TYPES[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Pointer, VarType::Float16, VarType::Float32, VarType::Float64 };

static uint64_t interesting(Rng &r) {
    switch (r.below(6)) {
        case 0: return r.below(300);
        case 1: { uint64_t p = 1; for (uint32_t i = r.below(20); i; --i) p *= 10; return p + r.below(5) - 2; }
        case 2: return (1ull << r.below(64)) + r.below(5) - 2;
        case 3: return ~0ull >> r.below(64);
        case 4: return r.next() >> r.below(64);
        default: { uint64_t p = 1; for (uint32_t i = r.below(20); i; --i) p *= 10; return p * (1 + r.below(9)); }
    }
}
static std::string rtext(Rng &r, size_t max, bool dollar = false) {
    std::string s; size_t n = r.below(max + 1);
    for (size_t i = 0; i < n; ++i) { char c = r.chance(.05) ? (char) (1 + r.below(255)) : (char) (32 + r.below(95)); if (c == '$' && !dollar) c = r.chance(.5) ? '#' : '%'; if (c == 0) c = 'x'; s += c; }
    return s;
}
static std::string vecty(const std::string &t) { return "<" + std::to_string(jitc_llvm_vector_width) + " x " + t + ">"; }

static std::string literal_text(const Variable &v) {
    VarType t = (VarType) v.type;
    double d; bool flt = true;
    if (t == VarType::Float32) { float f; memcpy(&f, &v.literal, 4); d = f; }
    else if (t == VarType::Float16) {
        uint16_t h = (uint16_t) v.literal; int e = (h >> 10) & 31, m = h & 1023;
        d = e == 31 ? (m ? NAN : INFINITY) : e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24);
        if (h & 0x8000) d = -d;
    } else if (t == VarType::Float64) memcpy(&d, &v.literal, 8);
    else flt = false;
    if (!flt) return H::fmt("%" PRIu64, (uint64_t) v.literal);
    uint64_t u; memcpy(&u, &d, 8);
    if (t == VarType::Float64) u = v.literal;
    return H::fmt("0x%" PRIx64, u);
}

struct Fmt { std::string f, want; std::vector<uint64_t> args; };
static Fmt random_fmt(Rng &r, std::vector<Variable> &vars, std::vector<std::string> &strs, size_t max_args) {
    Fmt o;
    static const char dirs[] = "usQwtbdHhmTBDMvVlaAoz<>";
    int n = 1 + r.below(14);
    strs.reserve(64);
    for (int i = 0; i < n; ++i) {
        if (r.chance(.5)) { std::string t = rtext(r, r.chance(.2) ? 60 : 12); o.f += t; o.want += t; continue; }
        char c = dirs[r.below(sizeof(dirs) - 1)];
        bool noarg = c == 'w' || c == 'z' || c == '<' || c == '>';
        if (!noarg && o.args.size() >= max_args) continue;
        o.f += '$'; o.f += c;
        const Variable &v = vars[r.below(vars.size())];
        int t = v.type, tm = (VarType) t == VarType::Bool ? (int) VarType::UInt8 : t;
        if (!noarg && c != 'u' && c != 's' && c != 'Q') o.args.push_back((uint64_t) (uintptr_t) &v);
        switch (c) {
            case 'u': { uint32_t q = (uint32_t) interesting(r); o.args.push_back(q); o.want += std::to_string(q); break; }
            case 's': { strs.push_back(rtext(r, r.chance(.2) ? 3000 : 20, true)); o.args.push_back((uint64_t) (uintptr_t) strs.back().c_str()); o.want += strs.back(); break; }
            case 'Q': { uint64_t q = interesting(r); o.args.push_back(q); o.want += H::fmt("%016" PRIx64, q); break; }
            case 'w': o.want += std::to_string(jitc_llvm_vector_width); break;
            case 't': o.want += T_llvm[t]; break;
            case 'b': o.want += T_bin[t]; break;
            case 'd': o.want += T_big[t]; break;
            case 'h': o.want += T_abbr[t]; break;
            case 'H': o.want += (VarType) t == VarType::Bool ? "i8" : T_abbr[t]; break;
            case 'm': o.want += T_llvm[tm]; break;
            case 'T': o.want += vecty(T_llvm[t]); break;
            case 'B': o.want += vecty(T_bin[t]); break;
            case 'D': o.want += vecty(T_big[t]); break;
            case 'M': o.want += vecty(T_llvm[tm]); break;
            case 'v': o.want += T_pfx[t] + std::to_string(v.reg_index); break;
            case 'V': o.want += vecty(T_llvm[t]) + " " + T_pfx[t] + std::to_string(v.reg_index); break;
            case 'l': { VarType vt = (VarType) t;
                if (vt == VarType::Float16 && (v.literal & 0x7c00) == 0x7c00 && (v.literal & 0x3ff)) { o.f.resize(o.f.size() - 2); o.args.pop_back(); break; }  // NaN payloads are not specified
                if (vt == VarType::Float32 && (v.literal & 0x7f800000) == 0x7f800000 && (v.literal & 0x7fffff)) { o.f.resize(o.f.size() - 2); o.args.pop_back(); break; }
                o.want += literal_text(v); break; }
            case 'a': o.want += std::to_string(v.unaligned ? 1 : type_sz((VarType) t)); break;
            case 'A': o.want += std::to_string(v.unaligned ? 1 : type_sz((VarType) t) * jitc_llvm_vector_width); break;
            case 'o': o.want += std::to_string(v.param_offset / 8); break;
            case 'z': o.want += "zeroinitializer"; break;
            default: break;   // $< and $>: nothing at the top level
        }
    }
    return o;
}

// ---------------------------------------------------------------- histories
static bool same(StringBuffer &b, const std::string &m, const std::string &log) {
    H::stat("buffer_states");
    bool ok = b.size() == m.size() && (m.empty() || memcmp(b.get(), m.data(), m.size()) == 0) && b.size() <= b.capacity();
    if (!ok) {
        size_t k = 0; while (k < m.size() && k < b.size() && b.get()[k] == m[k]) ++k;
        H::violation("content", "after %s: size %zu, expected %zu, first difference at %zu", log.substr(log.size() > 400 ? log.size() - 400 : 0).c_str(), b.size(), m.size(), k);
        return false;
    }
    if (b.capacity() && (!b.get() || b.get()[m.size()] != 0)) {
        H::violation("unterminated", "after %s", log.substr(log.size() > 400 ? log.size() - 400 : 0).c_str());
        return false;
    }
    return true;
}
static size_t call_vfmt(StringBuffer &b, const char *f, ...) { va_list ap; va_start(ap, f); size_t n = b.vfmt(f, ap); va_end(ap); return n; }

static void history(Rng &r) {
    size_t cap0 = r.pick({ 0u, 1u, 2u, 8u, 16u, 31u, 1024u });
    StringBuffer b(cap0);
    std::string m, log = H::fmt("StringBuffer(%zu) ", cap0);
    std::vector<Variable> vars;
    for (int i = 0; i < 20; ++i) {
        Variable v; memset((void *) &v, 0, sizeof(v));
        v.type = (uint32_t) r.pick(TYPES); v.reg_index = (uint32_t) interesting(r); v.literal = interesting(r);
        if (r.chance(.3)) v.literal = r.next();
        size_t ts = type_sz((VarType) v.type); if (ts < 8) v.literal &= (1ull << (8 * ts)) - 1;
        v.unaligned = r.chance(.3); v.param_offset = r.below(10000) * 8;
        vars.push_back(v);
    }
    int n = 5 + r.below(60);
    for (int i = 0; i < n; ++i) {
        // aim at an (almost) full buffer from time to time
        if (r.chance(.25) && b.capacity() > b.size() && b.capacity() < (1 << 20)) {
            size_t left = b.capacity() - b.size(), k = left > r.below(24) ? left - r.below(24) : left;
            if (k > left) k = left;
            std::string t(k, 'f'); b.put(t.c_str(), t.size()); m += t; log += H::fmt("fill(%zu) ", k);
            if (!same(b, m, log)) return;
        }
        switch (r.below(17)) {
            case 0: { std::string t = rtext(r, 40, true); log += H::fmt("put(str,%zu) ", t.size()); b.put(t.c_str(), t.size()); m += t; break; }
            case 1: { char c = (char) r.below(256); log += "put(c) "; b.put(c); m += c; break; }
            case 2: { size_t k = r.below(50); log += H::fmt("put(c,%zu) ", k); b.put('z', k); m += std::string(k, 'z'); break; }
            case 3: { uint32_t v = (uint32_t) interesting(r); log += H::fmt("put_u32(%u) ", v); b.put_u32(v); m += std::to_string(v); break; }
            case 4: { uint64_t v = interesting(r); log += H::fmt("put_u64(%" PRIu64 ") ", v); b.put_u64(v); m += std::to_string(v); break; }
            case 5: { uint32_t v = (uint32_t) interesting(r); log += H::fmt("put_x32(%u) ", v); b.put_x32(v); m += H::fmt("%x", v); break; }
            case 6: { uint64_t v = interesting(r); log += H::fmt("put_x64(%" PRIx64 ") ", v); b.put_x64(v); m += H::fmt("%" PRIx64, v); break; }
            case 7: { std::string t = rtext(r, r.chance(.2) ? 500 : 30, true); int v = (int) r.next(); log += H::fmt("fmt(%%s%%i,%zu) ", t.size());
                      size_t rv = r.chance(.5) ? b.fmt("<%s %i>", t.c_str(), v) : call_vfmt(b, "<%s %i>", t.c_str(), v); std::string w = "<" + t + " " + std::to_string(v) + ">"; m += w;
                      if (rv != w.size()) H::violation("fmt-return", "fmt() returned %zu, wrote %zu", rv, w.size()); break; }
            case 8: { size_t p = r.below(m.size() + 1); if (!b.capacity()) break; log += H::fmt("rewind_to(%zu) ", p); b.rewind_to(p); m.resize(p); break; }
            case 9: { size_t p = r.below(std::min(m.size(), (size_t) 30) + 1); if (!b.capacity()) break; log += H::fmt("rewind(%zu) ", p); b.rewind(p); m.resize(m.size() - p); break; }
            case 10: { std::string t; for (int k = r.below(6); k; --k) t += r.chance(.5) ? ',' : ' '; log += H::fmt("commas(%zu) ", t.size()); b.put(t.c_str(), t.size()); m += t; b.delete_trailing_commas(); while (!m.empty() && (m.back() == ',' || m.back() == ' ')) m.pop_back(); break; }
            case 11: { if (m.size() < 2) break; size_t s = r.below(m.size() + 1), t = r.below(s + 1); log += H::fmt("move_suffix(%zu,%zu) ", s, t); b.move_suffix(s, t); m = m.substr(0, t) + m.substr(s) + m.substr(t, s - t); break; }
            case 12: { log += "swap/move "; StringBuffer c(r.below(20)); std::string cm = rtext(r, 9); c.put(cm.c_str(), cm.size());
                       if (r.chance(.3)) { b.swap(c); std::swap(m, cm); }
                       else if (r.chance(.5)) { StringBuffer d(std::move(b)); if (b.size() != 0 || b.capacity() != 0) H::violation("move", "a moved-from buffer is not empty"); b = std::move(d); }
                       else { b = std::move(c); m = cm; }
                       break; }
            case 13: { if (r.chance(.3)) { log += "clear "; b.clear(); m.clear(); } break; }
            default: {
                std::vector<std::string> strs;
                Fmt f = random_fmt(r, vars, strs, 8);
                uint64_t a[8] = {}; for (size_t k = 0; k < f.args.size(); ++k) a[k] = f.args[k];
                std::string copy = f.f;      // exactly sized: the formatter may not read past the end of the format string
                std::vector<char> exact(copy.begin(), copy.end()); exact.push_back(0); exact.shrink_to_fit();
                log += "fmt_llvm('" + (copy.size() > 60 ? copy.substr(0, 60) : copy) + "') ";
                b.fmt_llvm(f.args.size(), copy.size(), exact.data(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
                m += f.want;
                H::stat("format_directives", f.args.size());
                break;
            }
        }
        H::stat("buffer_operations");
        if (!same(b, m, log)) return;
        H::stat_max("buffer_size", b.size());
    }
    H::distinct(H::hash_str(log));
    H::sample(log);
}

// ---------------------------------------------------------------- units
static void units(Rng &r) {
    static const char *mu[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
    static const struct { const char *n; double f; } tu[] = { { "us", 1 }, { "ms", 1e3 }, { "s", 1e6 }, { "m", 60e6 }, { "h", 3600e6 }, { "d", 86400e6 }, { "w", 604800e6 }, { "y", 604800e6 * 52.1429 } };
    for (int i = 0; i < 40; ++i) {
        size_t v = (size_t) interesting(r);
        const char *s = jitc_mem_string(v);
        double q = 0; char unit[16] = {}; int n = sscanf(s, "%lf %15s", &q, unit), u = -1;
        for (int k = 0; k < 7; ++k) if (!strcmp(unit, mu[k])) u = k;
        double got = u < 0 ? -1 : std::ldexp(q, 10 * u);
        if (n != 2 || u < 0 || std::fabs(got - (double) v) > 1e-2 * (double) v) H::violation("mem-string", "%zu bytes printed as '%s'", v, s);
        float t = (float) (r.chance(.2) ? r.below(100000) : std::exp(r.uniform() * 40 - 5));
        s = jitc_time_string(t);
        n = sscanf(s, "%lf %15s", &q, unit); u = -1;
        for (int k = 0; k < 8; ++k) if (!strcmp(unit, tu[k].n)) u = k;
        got = u < 0 ? -1 : q * tu[u].f;
        if (n != 2 || u < 0 || std::fabs(got - t) > 1e-3 * t + 1e-4) H::violation("time-string", "%g us printed as '%s'", t, s);
        H::stat("unit_strings", 2);
    }
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    std::string mode = H::opts("mode", "hist");
    H::loop([&](uint64_t i, Rng &r) {
        if (mode == "u32") { u32_block(i); return; }
        jitc_llvm_vector_width = r.pick({ 1u, 4u, 8u, 16u, 99999999u });
        history(r);
        units(r);
    });
    return H::finish();
}
