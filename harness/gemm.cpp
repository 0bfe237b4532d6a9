// Batched matrix products (C21): every output element against the triple loop, on exactly representable data
#include "common.h"

template <typename T> struct TN; template <> struct TN<half> { static constexpr VarType v = VarType::Float16; }; template <> struct TN<float> { static constexpr VarType v = VarType::Float32; }; template <> struct TN<double> { static constexpr VarType v = VarType::Float64; };
template <typename T> double D_(T v) { if constexpr (std::is_same_v<T, half>) return (double) (float) v; else return (double) v; }
static int poolsz;

static uint32_t dim(Rng &r, bool k) {
    switch (r.below(9)) {
        case 0: return 1;
        case 1: return 1 + r.below(8);
        case 2: return 5 + r.below(3) + 6 * r.below(3);            // row slab edges
        case 3: return 15 + r.below(3) + 8 * r.below(6);           // column slab edges
        case 4: return k && r.chance(.5) ? 1023 + r.below(4) + 1024 * r.below(3) : 31 + r.below(4);   // K segment edges
        case 5: return 63 + r.below(4);
        default: return 1 + r.below(60);
    }
}
template <typename T> static void gemm_case(Rng &r) {
    VarType vt = TN<T>::v;
    uint32_t M = dim(r, false), N = dim(r, false), K = dim(r, true);
    int tr = r.below(3); bool At = tr == 1, Bt = tr == 2;
    if (r.chance(.03)) { M = 1 + r.below(3); K = 1 + r.below(4); N = 4095 + r.below(3) + (r.chance(.3) ? 4096 : 0); } // column panels
    GemmBatch b { }; size_t grid = 1, red = 1;
    bool batched = r.chance(.7);
    uint32_t nb = 0, nr = 0;
    size_t na = (size_t) M * K, nbm = (size_t) K * N;
    if (batched) {
        nb = r.below(4); nr = r.below(r.chance(.5) ? 1 : 4); if (r.chance(.1)) { nb = r.below(7); nr = r.below(7 - nb); }
        size_t work = (size_t) M * N * K, budget = 3000000;
        for (uint32_t d = 0; d < nb + nr; ++d) {
            uint32_t e = r.chance(.25) ? 1 : 1 + r.below(5);
            while (e > 1 && work * e > budget) e--;
            work *= e; b.extent[d] = e; (d < nb ? grid : red) *= e;
        }
        b.n_bdims = nb; b.n_rdims = nr;
        // strides: contiguous in some order, broadcast, or arbitrary (overlapping matrices)
        for (int op = 0; op < 2; ++op) {
            uint32_t *st = op ? b.b_stride : b.a_stride; size_t one = op ? nbm : na, s = one;
            std::vector<uint32_t> ord(nb + nr); for (uint32_t d = 0; d < ord.size(); ++d) ord[d] = d;
            if (r.chance(.3)) for (size_t d = ord.size(); d > 1; --d) std::swap(ord[d - 1], ord[r.below(d)]);
            double pb = r.pick({ 0., .2, .6 });
            for (uint32_t d : ord) {
                if (r.chance(pb)) { st[d] = 0; continue; }
                if (r.chance(.1)) { st[d] = r.below(one + 1); continue; }
                if (r.chance(.1)) s += r.below(5);
                st[d] = (uint32_t) s; s *= b.extent[d];
            }
        }
        size_t maxo = 0;
        for (int op = 0; op < 2; ++op) { size_t o = op ? nbm : na; for (uint32_t d = 0; d < nb + nr; ++d) o += (size_t) (b.extent[d] - 1) * (op ? b.b_stride : b.a_stride)[d]; (op ? nbm : na) = o; maxo = std::max(maxo, o); }
        if (maxo > 3000000) { H::stat("skipped_too_large"); return; }
    }
    // Integer data: sums are exact in the accumulation type, and in the output type
    size_t terms = (size_t) K * red; double lim = std::is_same_v<T, half> ? 2000 : sizeof(T) == 4 ? 1.6e7 : 1e15;
    double amp = std::floor(std::sqrt(std::max(1.0, lim / terms))); if (amp > 30) amp = 30;
    double dens = std::min(1.0, lim / terms / (amp * amp)); dens = std::sqrt(dens);
    bool special = r.chance(.06);
    std::vector<T> A(na), B(nbm);
    double cap = std::is_same_v<T, half> && dens < 1 ? dens * .3 : dens;
    for (auto &x : A) x = r.chance(cap) ? (T) (double) ((int) r.below(2 * (uint32_t) amp + 1) - (int) amp) : (T) 0.0;
    for (auto &x : B) x = r.chance(cap) ? (T) (double) ((int) r.below(2 * (uint32_t) amp + 1) - (int) amp) : (T) 0.0;
    if (special) { A[r.below(na)] = (T) (r.chance(.5) ? INFINITY : NAN); if (r.chance(.3)) B[r.below(nbm)] = (T) -INFINITY; }
    std::string what = H::fmt("%s M=%u N=%u K=%u At=%d Bt=%d pool=%d batch", type_nm(vt), M, N, K, At, Bt, poolsz);
    for (uint32_t d = 0; d < nb + nr; ++d) what += H::fmt(" %s%u(%u,%u)", d < nb ? "" : "r", b.extent[d], b.a_stride[d], b.b_stride[d]);
    H::distinct(H::hash_str(what));
    if (r.chance(.01)) H::sample(what);
    // reference
    std::vector<double> W(grid * M * N, 0.0);
    for (size_t g = 0; g < grid; ++g)
        for (size_t q = 0; q < red; ++q) {
            size_t ao = 0, bo = 0, z = g;
            for (uint32_t d = 0; d < nb; ++d) { ao += z % b.extent[d] * (size_t) b.a_stride[d]; bo += z % b.extent[d] * (size_t) b.b_stride[d]; z /= b.extent[d]; }
            z = q;
            for (uint32_t d = nb; d < nb + nr; ++d) { ao += z % b.extent[d] * (size_t) b.a_stride[d]; bo += z % b.extent[d] * (size_t) b.b_stride[d]; z /= b.extent[d]; }
            for (uint32_t i = 0; i < M; ++i)
                for (uint32_t k = 0; k < K; ++k) {
                    double av = D_(A[ao + (At ? (size_t) k * M + i : (size_t) i * K + k)]);
                    if (av == 0 && !special) continue;
                    double *w = &W[(g * M + i) * N];
                    if (Bt) for (uint32_t j = 0; j < N; ++j) w[j] += av * D_(B[bo + (size_t) j * K + k]);
                    else for (uint32_t j = 0; j < N; ++j) w[j] += av * D_(B[bo + (size_t) k * N + j]);
                }
        }
    const GemmBatch *bp = batched ? &b : nullptr;
    size_t nc = grid * M * N;
    auto cmp = [&](const T *C) {
        for (size_t i = 0; i < nc; ++i) {
            double g = D_(C[i]), w = W[i];
            if (std::fabs(w) > lim && w - w == 0) { H::stat("not_exact"); continue; }
            if (!(g == w || (g != g && w != w))) { H::violation("gemm", "%s: C[%zu][%zu][%zu] = %g, expected %g", what.c_str(), i / ((size_t) M * N), i / N % M, i % N, g, w); return; }
        }
        H::stat("elements_compared", nc);
    };
    if (r.chance(.6)) {
        GuardBuf a(na * sizeof(T), r.chance(.8)), bb(nbm * sizeof(T), r.chance(.8)), c(nc * sizeof(T), r.chance(.8));
        memcpy(a.ptr, (void *) A.data(), na * sizeof(T)); memcpy(bb.ptr, (void *) B.data(), nbm * sizeof(T));
        jit_batched_gemm(LLVM, vt, At, Bt, M, N, K, bp, a.ptr, bb.ptr, c.ptr);
        jit_sync_thread();
        cmp((T *) c.ptr);
        if (memcmp(a.ptr, (void *) A.data(), na * sizeof(T)) || memcmp(bb.ptr, (void *) B.data(), nbm * sizeof(T))) H::violation("input-modified", "%s", what.c_str());
        H::stat("raw_products");
    } else {
        Var a = copy_in(vt, A.data(), na), bb = copy_in(vt, B.data(), nbm);
        if (r.chance(.3)) a = steal(jit_var_gather(a, steal(jit_var_counter(LLVM, na)), lit_bool(true))); // unevaluated operand
        if (r.chance(.2) && nbm > 1) { // dirty operand
            uint32_t k = r.below(nbm); auto B2 = B; B2[k] = (T) 3.0; bb = copy_in(vt, B2.data(), nbm);
            bb = steal(jit_var_scatter(bb, copy_in(vt, &B[k], 1), lit_u32(k), lit_bool(true)));
        }
        Var c = steal(jit_var_batched_gemm(a, bb, At, Bt, M, N, K, bp));
        if (jit_var_size(c) != nc || jit_var_type(c) != vt) { H::violation("shape", "%s: size %zu", what.c_str(), jit_var_size(c)); return; }
        auto raw = fetch_raw(c); cmp((const T *) raw.data());
        H::stat("var_products");
    }
    if (K > 1024) H::stat("multi_segment"); if (N > 4096) H::stat("multi_panel"); if (red > 1) H::stat("reduced_batches"); if (grid > 1) H::stat("grid_batches");
}
int main(int argc, char **argv) {
    H::args(argc, argv);
    jit_start();
    poolsz = (int) pool_size();
    H::loop([&](uint64_t, Rng &r) {
        if (r.chance(.3)) nt_chaos(r.next(), 1); else nt_chaos(0, 0);
        switch (r.below(3)) { case 0: gemm_case<half>(r); break; case 1: gemm_case<float>(r); break; default: gemm_case<double>(r); }
        if (r.chance(.05)) { // rejected requests leave the output alone
            GemmBatch b { }; b.n_bdims = 4; b.n_rdims = 3; for (auto &e : b.extent) e = 1;
            float A = 1, B_ = 1, C = 7; int n = 0;
            try { jit_batched_gemm(LLVM, VarType::Float32, 0, 0, 1, 1, 1, &b, &A, &B_, &C); } catch (const std::exception &) { n++; }
            try { jit_batched_gemm(LLVM, VarType::Int32, 0, 0, 1, 1, 1, nullptr, &A, &B_, &C); } catch (const std::exception &) { n++; }
            Var x = copy_in(VarType::Float32, &A, 1), y = copy_in(VarType::Float64, std::vector<double>{ 1 }.data(), 1);
            try { steal(jit_var_batched_gemm(x, y, 0, 0, 1, 1, 1, nullptr)); } catch (const std::exception &) { n++; }
            try { steal(jit_var_batched_gemm(x, 0, 0, 0, 1, 1, 1, nullptr)); } catch (const std::exception &) { n++; }
            jit_sync_thread();
            if (n != 4 || C != 7) H::violation("reject", "invalid requests: %d rejected, C=%g", n, C);
            H::stat("rejections", n);
        }
    });
    nt_chaos(0, 0);
    jit_shutdown(0);
    return H::finish();
}
