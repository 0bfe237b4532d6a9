// Random programs against the reference interpreter (C01-C05, C16 share this engine).
#include "prog.h"
#include <sys/wait.h>
#include <unistd.h>

static GenCfg config(const std::string &mode, Rng &r) {
    GenCfg c;
    if (mode == "arith") { c.inputs = 7; c.stmts = 30; c.approx = r.chance(.3); c.tables = 1; c.w_gather = .03; c.max_n = 300; }
    else if (mode == "opt") { c.inputs = 6; c.stmts = 30; c.tables = 2; c.bufs = 2; c.w_scatter = .08; c.w_bufread = .08; }
    else if (mode == "flow") { c.inputs = 6; c.stmts = 9; c.w_if = .2; c.w_loop = .2; c.w_scatter = .1; c.w_bufread = .08; c.bufs = 3; c.tables = 2; c.depth = 3; }
    else if (mode == "call") { c.inputs = 6; c.stmts = 8; c.w_if = .05; c.w_loop = .05; c.w_call = .35; c.w_scatter = .08; c.bufs = 2; c.tables = 1; c.depth = 2; c.domains = r.range(1, 3); c.w_bufread = .05; }
    else { fprintf(stderr, "HARNESS unknown mode\n"); exit(99); }
    c.all_types = r.chance(mode == "arith" ? .8 : .4);
    c.hostile = r.chance(.7);
    return c;
}

int main(int argc, char **argv) {
    H::args(argc, argv);
    std::string mode = H::opts("mode", "arith");
    if (H::opt.count("dump")) {}
    bool shrinking = H::opt.count("shrink");
    if (!shrinking) jit_start(); else jit_set_flags((uint32_t) JitFlag::Default);
    // FastMath licenses rewrites that ignore NaN/Inf/-0 (e.g. x*0 -> 0) and is outside the claim
    jit_set_flag(JitFlag::FastMath, 0);
    uint32_t base_flags = jit_flags();
    const uint32_t optf[] = { (uint32_t) JitFlag::ConstantPropagation, (uint32_t) JitFlag::ValueNumbering, (uint32_t) JitFlag::ReuseIndices,
        (uint32_t) JitFlag::OptimizeLoops, (uint32_t) JitFlag::OptimizeCalls, (uint32_t) JitFlag::MergeFunctions,
        (uint32_t) JitFlag::PacketOps, (uint32_t) JitFlag::ScatterReduceLocal };
    H::loop([&](uint64_t i, Rng &r) {
        Program p = Gen(r, config(mode, r)).make();
        RefExec ref(p);
        if (H::verbose()) fprintf(stderr, "---- case %llu\n%s\n", (unsigned long long) i, show(p).c_str());
        ref.run();
        std::string text = show(p);
        int runs = mode == "opt" ? 4 : mode == "arith" ? 1 : 2;
        uint64_t lanes = 0, unk = 0;
        for (int k = 0; k < runs; ++k) {
            ExecCfg c;
            if (k > 0 || mode != "opt") {
                for (uint32_t f : optf) if (r.chance(.3)) c.clear_flags |= f;
                if (r.chance(.1)) c.set_flags |= (uint32_t) JitFlag::LaunchBlocking;
                if (r.chance(.1)) c.set_flags |= (uint32_t) JitFlag::KernelHistory;
            }
            c.set_flags |= (uint32_t) H::optu("setflags", 0);
            c.p_literal = r.pick((const double[]) { 0, .5, 1 });
            c.p_eval = mode == "arith" ? r.pick((const double[]) { 0, 0, .1 }) : r.pick((const double[]) { 0, 0, .1, .4 });
            c.fetch_each = r.chance(.3);
            if (shrinking) {   // debugging aid: every attempt runs in a child, crashes included
                auto attempt = [&](const Program &q) {
                    jit_start();
                    jit_set_flag(JitFlag::FastMath, 0);
                    for (int t = 0; t < 3; ++t) {
                        RefExec rr(q); rr.run();
                        Exec e2(q, c, Rng(H::seed ^ 77, i * 16 + k + 1000 * t));
                        try { e2.run(); } catch (const std::exception &e) { return 3; }
                        std::string er = compare(q, rr, e2);
                        if (!er.empty()) { fprintf(stderr, "%s\n", er.c_str()); return 2; }
                    }
                    return 0;
                };
                auto run = [&](const Program &q) {
                    fflush(nullptr);
                    pid_t pid = fork();
                    if (!pid) { close(1); close(2); alarm(30); _exit(attempt(q)); }
                    int st = 0; waitpid(pid, &st, 0);
                    return st;
                };
                int st0 = run(p);
                fprintf(stderr, "case %llu run %d: status 0x%x\n", (unsigned long long) i, k, st0);
                if (st0) {
                    shrink(p, [&](const Program &q) { return run(q) == st0; });
                    fprintf(stderr, "--- minimised (flags -%x +%x lit %g eval %g)\n%s\n", c.clear_flags, c.set_flags, c.p_literal, c.p_eval, show(p).c_str());
                    if (H::opt.count("go")) attempt(p);
                    _exit(0);
                }
                continue;
            }
            Exec ex(p, c, Rng(H::seed ^ 77, i * 16 + k));
            try {
                ex.run();
            } catch (const std::exception &e) {
                H::violation("exception", "%s | flags -%x | program: %s", e.what(), c.clear_flags, text.c_str());
                jit_set_flags(base_flags);
                continue;
            }
            std::string err = compare(p, ref, ex, &lanes, &unk);
            if (!err.empty())
                H::violation("mismatch", "%s | run %d flags -%x +%x lit %g eval %g | %s", err.c_str(), k, c.clear_flags, c.set_flags, c.p_literal, c.p_eval, text.c_str());
            H::stat("executions");
            H::stat("evaluations_forced", ex.evals);
            if (c.set_flags & (uint32_t) JitFlag::KernelHistory) { KernelHistoryEntry *h = jit_kernel_history(); if (h) { for (KernelHistoryEntry *q = h; (uint32_t) q->backend; ++q) { free(q->ir); } free(h); } }
        }
        H::stat("elements_compared", lanes); H::stat("elements_unspecified", unk);
        H::stat("ref_ops", ref.ops); H::stat("loop_iterations", ref.iters); H::stat("callee_runs", ref.calls);
        H::stat("branches", ref.branches); H::stat("scatter_updates", ref.scatters);
        if (lanes > 4) H::distinct(H::hash_str(text));
        H::sample(text);
        if ((i & 15) == 15) { jit_flush_kernel_cache(); }
    });
    int rc = H::finish();
    if (!shrinking) jit_shutdown(0);
    return rc;
}
