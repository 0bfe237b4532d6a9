#!/usr/bin/env python3
"""run.py check <property>: build what the check needs from /repo's working tree,
run its drivers, judge what they observed, write evidence/<property>.json."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build as B
from vlib.checks import CHECKS

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NCPU = 8

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "harness/tsan.supp"),
}

def sanitizer_key(err):
    """Stable signature of a crash/sanitizer report."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+(?: \w+)?)[^\n]*?(?: in ([^\n]+))?\n", err)
    ub = re.search(r"([\w/.+-]+):(\d+):\d+: runtime error: ([^\n]*)", err)
    fr = []
    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", err):
        mm = re.search(r"/repo/([\w/.+-]+)", f) or re.search(r"/(src|include|ext)/([\w/.+-]+)", f)
        if mm and "/verif/" not in f:
            fn = re.split(r"[(<]", f)[0].strip()
            fr.append(fn)
    if ub:
        return "ubsan:%s:%s" % (os.path.basename(ub.group(1)), re.sub(r"0x[0-9a-f]+|-?\d+", "N", ub.group(3))[:80])
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2), fr[0] if fr else "?")
    m = re.search(r"error message of this specific failure is as follows:\s*>>> ([^\n]*)", err)
    if m:
        return "jit_fail:" + re.sub(r"\d+", "N", m.group(1))[:80]
    m = re.search(r"Assertion[^\n]*", err)
    if m:
        return "assert:" + re.sub(r"\d+", "N", m.group(0))[:100]
    return "crash"

def tsan_keys(err):
    keys = {}
    for rep in err.split("WARNING: ThreadSanitizer: ")[1:]:
        kind = rep.split("\n")[0].split(" (pid")[0].strip()
        fns = []
        for blk in re.split(r"\n\s*\n", rep)[:2]:
            for f in re.findall(r"#\d+ ([^\n]+)", blk):
                if "/repo/" in f or "/src/" in f or "/include/" in f:
                    fns.append(re.split(r"[(<]", f)[0].strip())
                    break
        keys.setdefault("tsan:%s:%s" % (kind, "|".join(sorted(set(fns)))), rep[:3000])
    return keys

class Job:
    def __init__(s, exe, variant, drv, args, env, timeout, idx):
        s.exe, s.variant, s.drv, s.args, s.env, s.timeout, s.idx = exe, variant, drv, args, env, timeout, idx

def run_job(job, tmp, attempt=0):
    home = os.path.join(tmp, "home-%d-%d" % (job.idx, attempt))
    os.makedirs(home, exist_ok=True)
    outf = os.path.join(tmp, "out-%d-%d" % (job.idx, attempt))
    errf = outf + ".err"
    env = {k: v for k, v in os.environ.items() if not k.startswith("DRJIT")}
    env.update(SAN_ENV)
    env["HOME"] = home
    env["TMPDIR"] = home
    env.update(job.env)
    cmd = [job.exe, "out=" + outf] + job.args
    t0 = time.time()
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=home, start_new_session=True)
        try:
            rc = p.wait(job.timeout)
            hung = False
        except subprocess.TimeoutExpired:
            hung, rc = True, None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    err = open(errf, "rb").read()[-400000:].decode("utf8", "replace")
    lines = open(outf, errors="replace").read().split("\n") if os.path.exists(outf) else []
    shutil.rmtree(home, ignore_errors=True)
    return dict(rc=rc, hung=hung, err=err, lines=lines, dur=time.time() - t0, cmd=cmd)

def load_known(pid):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                m = re.match(r"finding: property=\S+ key=(\S+)(?: match=(\S+))? (.*)", l)
                r.append((m.group(1), m.group(2) or "", m.group(3)))
    except OSError:
        pass
    return r

def main():
    if len(sys.argv) < 3 or sys.argv[1] != "check":
        print("usage: run.py check <property>"); return 2
    pid = sys.argv[2]
    spec = CHECKS[pid]
    tier = TIER if TIER in ("quick", "thorough") else "quick"
    t0 = time.time()
    try:
        exes = B.build([(d["driver"], d["variant"]) for d in spec["drivers"] if d.get(tier)], NCPU)
    except B.BuildError as e:
        print("HARNESS build failed: %s" % e)
        return 2
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="vrf-%s-" % pid.lower())
    try:
        return judge(pid, spec, tier, exes, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def judge(pid, spec, tier, exes, tmp, t0, t_build):
    jobs = []
    for d in spec["drivers"]:
        n = d.get(tier)
        if not n:
            continue
        shards = d.get("shards", NCPU)
        shards = min(shards, n)
        timeout = d.get("timeout", {}).get(tier, 240 if tier == "quick" else 3600)
        for k in range(shards):
            base = d.get("base", 0)
            b, e = base + n * k // shards, base + n * (k + 1) // shards
            args = ["seed=%d" % SEED, "begin=%d" % b, "end=%d" % e, "shard=%d" % k] + list(d.get("args", []))
            if tier == "thorough":
                args.append("thorough=1")
            env = dict(d.get("env", {}))
            # vary the pool size between shards
            thr = d.get("threads", [1, 2, 3, 4, 4, 5, 2, 3])
            env.setdefault("NT_THREADS", str(thr[k % len(thr)]))
            tg = d.get("targets", [0, 1, 2, 0, 3, 0, 4, 0])
            env.setdefault("VERIF_TGT", str(tg[k % len(tg)]))
            if "env_cycle" in d:
                env.update(d["env_cycle"][k % len(d["env_cycle"])])
            jobs.append(Job(exes[(d["driver"], d["variant"])], d["variant"], d["driver"], args, env, timeout, len(jobs)))
    counters, hashes, samples, viol, harness = {}, set(), [], [], []
    done = 0
    lock = threading.Lock()

    def work(job):
        nonlocal done
        r = run_job(job, tmp)
        if r["hung"]:  # a firing watchdog is only believed if it fires again
            r2 = run_job(job, tmp, 1)
            with lock:
                counters["watchdog_fired"] = counters.get("watchdog_fired", 0) + 1
            r = r2
        with lock:
            cur, ended = None, False
            for l in r["lines"]:
                f = l.split("\t")
                if f[0] == "C":
                    cur = f[1]
                elif f[0] == "V":
                    viol.append((f[1], "%s %s case %s: %s" % (job.drv, job.variant, f[2], f[3] if len(f) > 3 else ""), r, job))
                elif f[0] == "S":
                    if f[1].startswith("max:"):
                        counters[f[1]] = max(counters.get(f[1], 0), int(f[2]))
                    else:
                        counters[f[1]] = counters.get(f[1], 0) + int(f[2])
                elif f[0] == "H":
                    hashes.add(f[1])
                elif f[0] == "X":
                    if len(samples) < 6:
                        samples.append(f[1])
                elif f[0] == "DONE":
                    ended = True
            if r["hung"]:
                viol.append(("hang", "%s %s did not finish in %d s twice (case %s)" % (job.drv, job.variant, job.timeout, cur), r, job))
                return
            if r["rc"] == 99 or "HARNESS" in r["err"][:2000]:
                harness.append(r["err"][-2000:])
                return
            if job.variant == "tsan" and "WARNING: ThreadSanitizer" in r["err"]:
                for k, rep in tsan_keys(r["err"]).items():
                    viol.append((k, "%s case %s: %s" % (job.drv, cur, " ".join(rep.split())[:600]), r, job))
                if ended:
                    done += 1
                    return
            if r["rc"] != 0 or not ended:
                if r["rc"] in (-9,) and not os.path.exists("/nonexistent"):
                    # killed from outside (memory guard): no verdict
                    harness.append("driver %s was killed (rc=-9)" % job.drv)
                    return
                viol.append((sanitizer_key(r["err"]), "%s %s ended with status %s in case %s: %s" %
                             (job.drv, job.variant, r["rc"], cur, " ".join(r["err"].split())[-900:]), r, job))
                return
            done += 1

    with ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
        list(ex.map(work, jobs))

    known = load_known(pid)
    hit, fresh = {}, []
    for key, msg, r, job in viol:
        for kk, mm, desc in known:
            if kk == key and (not mm or mm in msg):
                hit[(kk, mm)] = desc
                break
        else:
            fresh.append((key, msg, r, job))
    evals = counters.get(spec.get("eval_counter", "cases"), 0)
    minimum = spec.get("min", {}).get(tier, 1)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(hashes),
        "rule": spec["rule"],
        "samples": samples[:4] or ["(none)"],
        "explanation": spec.get("explanation", ""),
        "observed": dict(sorted(counters.items())),
        "driver_processes": len(jobs), "driver_processes_completed": done,
        "build_s": round(t_build, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for (k, m), desc in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (key, msg, r, job) in enumerate(fresh):
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 5:
                break
            f = os.path.join(rd, "%s-%d.txt" % (pid, len(seen)))
            with open(f, "w") as o:
                o.write("key: %s\n%s\ncommand: %s %s\n\n%s\n" % (key, msg, " ".join("%s=%s" % kv for kv in job.env.items()), " ".join(r["cmd"]), r["err"][-20000:]))
            print("[%s] %s: %s" % (pid, key, msg[:700]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if harness:
        print("HARNESS failure: %s" % harness[0])
        return 2
    for name, lo in spec.get("require", {}).items():
        if counters.get(name, 0) < (lo[tier] if isinstance(lo, dict) else lo):
            print("HARNESS inconclusive: counter %s is %d" % (name, counters.get(name, 0)))
            return 2
    if evals < minimum:
        print("HARNESS inconclusive: only %d evaluations" % evals)
        return 2
    print("[%s] held on %d evaluations (%d distinct), %.0f s (build %.0f s)" % (pid, evals, len(hashes), time.time() - t0, t_build))
    return 0

if __name__ == "__main__":
    sys.exit(main())
