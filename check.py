#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Symbolic checking of the real code: compiles /repo's current tree together with the property's harness to LLVM IR,
explores it with the engine in /verif/engine (every branch and every assertion decided by an SMT solver), confirms each
counterexample by running it natively against the real crate, and writes evidence/<property>.json.
exit 0: held on everything explored; 1: a confirmed violation (VIOLATION line); 2: the machinery could not run.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
ENGINE_T = os.path.join(BUILD, "engine")
SXE = os.path.join(ENGINE_T, "release", "sxe")
T0 = time.time()
LLFLAGS = ["--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "relocation-model=static"]
procs = set()
plock = threading.Lock()
stop = threading.Event()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, env=None, cwd=None, mem=None):
    """run a command in its own process group; returns (rc, stdout, stderr); rc None on timeout"""

    def pre():
        os.setsid()
        import resource

        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=cwd, preexec_fn=pre, errors="replace")
    with plock:
        procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e
    finally:
        with plock:
            procs.discard(p)


def kill_all():
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def build_engine():
    env = dict(os.environ, CARGO_TARGET_DIR=ENGINE_T, RUSTUP_TOOLCHAIN="stable")
    rc, o, e = run(["cargo", "build", "--release", "--offline", "-q"], timeout=600, env=env, cwd=os.path.join(VERIF, "engine"))
    if rc != 0:
        print(e[-3000:])
        sys.exit("engine does not build")


def fresh(target):
    """forget the previous build of the crate under test: always recompile it from /repo's current files"""
    for prof in ("debug", "release"):
        for pat in ("pokers-*", "harness-*"):
            for d in glob.glob(os.path.join(target, prof, ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)


def cargo_env(target, spec):
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="stable")
    env.pop("RUSTFLAGS", None)
    if spec.get("hook"):
        env["RUSTFLAGS"] = "--cfg pokers_verif"
    return env


def build_ll(spec):
    """the harness, the crate and the parts of std they use, as one LLVM module"""
    t = os.path.join(BUILD, "ll_hook" if spec.get("hook") else "ll")
    fresh(t)
    deps = os.path.join(t, "release", "deps")
    for f in glob.glob(os.path.join(deps, "*.ll")):
        os.unlink(f)
    cmd = ["cargo", "rustc", "-q", "--release", "--offline", "--lib", "--features", spec["feature"], "--crate-type", "staticlib", "--"] + LLFLAGS
    rc, o, e = run(cmd, timeout=400, env=cargo_env(t, spec), cwd=os.path.join(VERIF, "harness"))
    ll = glob.glob(os.path.join(deps, "harness-*.ll"))
    if (rc != 0 or len(ll) != 1) and spec.get("hook") and spec.get("fallback"):
        # the hooks themselves no longer fit the code around them: look at the public interface only
        log("the hooks do not build; jobs without hooks only\n" + e[-1500:])
        spec["hook"] = False
        return build_ll(spec)
    if rc != 0 or len(ll) != 1:
        print(e[-4000:])
        print("ERROR: the harness does not build against /repo")
        kill_all()
        os._exit(2)
    return ll[0]


def build_replay(spec, release):
    t = os.path.join(BUILD, "native_hook" if spec.get("hook") else "native")
    cmd = ["cargo", "build", "-q", "--offline", "--bin", "replay", "--features", spec["feature"]]
    prof = "debug"
    if release:
        cmd.insert(2, "--release")
        prof = "release"
    rc, o, e = run(cmd, timeout=400, env=cargo_env(t, spec), cwd=os.path.join(VERIF, "harness"))
    if rc != 0:
        print(e[-3000:])
        return None
    dst = os.path.join(BUILD, "replay_%s_%s" % (spec["feature"], prof))
    shutil.copy2(os.path.join(t, prof, "replay"), dst)
    return dst


def engine_job(ll, job, shard, tmp, seed):
    cmd = [SXE, ll, job["entry"], "--time", str(job["time"]), "--seed", str(seed), "--tmp", tmp]
    if job.get("params") is not None:
        cmd += ["--param", ",".join(map(str, job["params"]))]
    if job.get("shards", 1) > 1:
        cmd += ["--shard", "%d/%d" % (shard, job["shards"])]
    cmd += job.get("opts", [])
    if stop.is_set():
        return job, shard, None, "stopped"
    rc, o, e = run(cmd, timeout=job["time"] + 90)
    if rc != 0:
        return job, shard, None, "engine exit %s %s" % (rc, e[-300:])
    try:
        return job, shard, json.loads(o), ""
    except ValueError as x:
        return job, shard, None, "bad engine output: %s" % x


def native(binp, job, inputs, timeout=60):
    cmd = [binp, job["entry"], ",".join(map(str, inputs)) or "-", ",".join(map(str, job.get("params") or [])) or "-"]
    rc, o, e = run(cmd, timeout=timeout, mem=12 << 30)
    return rc, o, e, cmd


def classify(rc, o, e):
    """outcome of a native replay"""
    if rc == 0:
        return "ok"
    if rc == 9:
        return "assume"
    if rc is None:
        return "hang"
    if rc == 7:
        m = re.findall(r"ASSERT (\d+) failed", o)
        return "assert " + ",".join(sorted(set(m), key=int))
    p = re.search(r"panicked at ([^\n]*)\n?([^\n]*)", e)
    return "panic: %s %s" % ((p.group(1), p.group(2)) if p else ("exit %s" % rc, e.strip()[-120:]))


def known_findings(pid):
    """lines `known: property=<id> entry=<entry> outcome=<regex> inputs=<regex> what=<text>` suppress exactly that failure"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) outcome=(\S+) inputs=(\S+) what=(.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    tmp = os.path.join(BUILD, "tmp_%s_%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    evid_dir = os.path.join(VERIF, "evidence")
    rep_dir = os.path.join(VERIF, "replays")
    os.makedirs(evid_dir, exist_ok=True)
    os.makedirs(rep_dir, exist_ok=True)
    wall_cap = 780 if tier == "quick" else 6 * 3600
    try:
        rc = drive(pid, tier, seed, spec, tmp, evid_dir, rep_dir, wall_cap)
    finally:
        kill_all()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def drive(pid, tier, seed, spec, tmp, evid_dir, rep_dir, wall_cap):
    if not os.path.exists(SXE):
        build_engine()
    jobs = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    natt = os.path.join(BUILD, "native_hook" if spec.get("hook") else "native")
    fresh(natt)
    bins = {}
    hooked = bool(spec.get("hook"))

    def mk_native():
        bins["dev"] = build_replay(spec, False)

    th = threading.Thread(target=mk_native)
    th.start()
    ll = build_ll(spec)
    if hooked and not spec.get("hook"):
        jobs = spec["fallback"]
        th.join()
        fresh(os.path.join(BUILD, "native"))
        th = threading.Thread(target=mk_native)
        th.start()
    log("module built: %s, %d KB" % (os.path.basename(ll), os.path.getsize(ll) // 1024))
    th.join()
    if not bins.get("dev"):
        print("ERROR: replay binary does not build")
        return 2

    rlock = threading.Lock()

    def rel():
        with rlock:
            if "release" not in bins:
                bins["release"] = build_replay(spec, True)
            return bins["release"]

    units = [(j, i) for j in jobs for i in range(j.get("shards", 1))]
    # longest first
    units.sort(key=lambda u: -u[0].get("cost", u[0]["time"]))
    results, failures, unconfirmed, violations, known_hit = [], [], [], [], []
    wit = {"run": 0, "agree": 0, "differ": []}
    samples = []
    kf = known_findings(pid)
    tried = {}

    def confirm(job, cand):
        """a counterexample counts when the real code shows it"""
        key = (job["entry"], cand["kind"], cand["id"], cand["msg"], str(job.get("params")) if job.get("freq") else "")
        if tried.get(key, 0) >= 12:
            return
        tried[key] = tried.get(key, 0) + 1
        if job.get("confirm") == "schedule" or cand.get("sched"):
            reps = 40
        else:
            reps = 1
        outc = None
        for prof in ("dev", "release"):
            b = bins["dev"] if prof == "dev" else rel()
            if not b:
                continue
            n = reps if prof == "dev" else 1
            if job.get("confirm") == "dev" and prof != "dev":
                continue
            for _ in range(n):
                tmo = 40 if cand["kind"] in ("hang", "deadlock") else 90
                rc, o, e, cmd = native(b, job, cand["inputs"], tmo)
                c = classify(rc, o, e)
                if c == "hang" and cand["kind"] not in ("hang", "deadlock"):
                    c = "hang"
                if c not in ("ok", "assume"):
                    outc = (prof, c, o, e, cmd)
                    break
                last = c
            if outc:
                break
        if not outc and spec.get("engine_confirms") and cand["kind"] in ("assert", "deadlock", "panic", "hang") and cand.get("sched"):
            # a failing schedule cannot be forced natively; the engine's own deterministic trace is the replay
            outc = ("engine", "%s %s under schedule %s" % (cand["kind"], cand["id"], cand["sched"][:60]), json.dumps(cand), "", [SXE, "(see engine_cmd)"])
        if not outc:
            unconfirmed.append(dict(entry=job["entry"], params=job.get("params"), kind=cand["kind"], id=cand["id"], msg=cand["msg"][:200], inputs=cand["inputs"][:60], native=last))
            return
        prof, c, o, e, cmd = outc
        for ent, ore, ire, what in kf:
            if ent == job["entry"] and re.search(ore, c) and re.search(ire, ",".join(map(str, cand["inputs"]))):
                known_hit.append(what)
                return
        name = "%s_%d.json" % (pid, len(violations) + 1)
        path = os.path.join(rep_dir, name)
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=pid, entry=job["entry"], params=job.get("params"), inputs=cand["inputs"], kind=cand["kind"], assertion=cand["id"],
                    meaning=spec.get("asserts", {}).get(cand["id"], ""), message=cand["msg"], profile=prof, outcome=c, stack=cand.get("stack", []),
                    sched=cand.get("sched", []), stdout=o[-2000:], stderr=e[-2000:], replay_cmd=" ".join(cmd),
                    how="cd %s/harness && cargo run --offline --bin replay --features %s -- %s %s %s"
                    % (VERIF, spec["feature"], job["entry"], ",".join(map(str, cand["inputs"])) or "-", ",".join(map(str, job.get("params") or [])) or "-"),
                ),
                f, indent=1,
            )
        violations.append((path, job, cand, c))

    counted = [0]
    waiting = {}

    def weigh(job, r):
        """counted outcomes: for each number of random words, every outcome must have the same measure"""
        k = (job["entry"], tuple(job.get("params") or []))
        waiting.setdefault(k, []).append(r)
        rs = waiting[k]
        if not job.get("freq") or len(rs) < job.get("shards", 1) or any(r["timed_out"] or r["unexplored"] or r["incomplete"] or r["candidates"] for r in rs):
            return
        vol, span = {}, None
        for r in rs:
            for words, key, v, paths, total in r.get("measures", []):
                d = vol.setdefault(words, {})
                d[key] = d.get(key, 0.0) + v
                # outcomes lo..lo+n
                span = (total >> 32, total & 0xffffffff)
        if not vol:
            return
        lo, n = span
        share, off = [0.0] * n, False
        # a bias below a millionth of an outcome's share is that of the generator's own rounding
        eps = 1e-6 * sum(sum(d.values()) for d in vol.values()) / n
        for words, d in sorted(vol.items()):
            mean = sum(d.values()) / n
            counted[0] += 1
            for k in range(n):
                v = d.get(lo + k, 0.0)
                share[k] += v
                off |= abs(v - mean) > eps
        if not off:
            return
        mean = sum(share) / n
        more = [lo + k for k in range(n) if share[k] > mean * (1 + 1e-6)]
        less = [lo + k for k in range(n) if share[k] < mean * (1 - 1e-6)]
        few = sorted((x for x in (more, less) if x), key=len)
        few = few[0][:4000] if few else []
        log("%s%s: %d of %d outcomes are more likely than the average, %d less (%.3f to %.3f of it)" % (job["entry"], job.get("params"), len(more), n, len(less), min(share) / mean, max(share) / mean))
        # confirmed by how often the real code deals them
        confirm(dict(job, entry=job["freq"], confirm="dev"), dict(kind="assert", id=2, msg="outcomes that are not equally likely", inputs=[len(few)] + few))

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = [ex.submit(engine_job, ll, j, i, tmp, seed) for j, i in units]
        pend = set(futs)
        while pend:
            done, pend = cf.wait(pend, timeout=2, return_when=cf.FIRST_COMPLETED)
            for f in done:
                job, shard, r, err = f.result()
                if r is None:
                    failures.append("%s%s/%d: %s" % (job["entry"], job.get("params") or "", shard, err))
                    continue
                results.append((job, shard, r))
                if not violations:
                    weigh(job, r)
                for cand in r["candidates"]:
                    if not violations:
                        confirm(job, cand)
                if not job.get("nowit") and not violations:
                    for w in r["witnesses"][: job.get("maxwit", 2)]:
                        if wit["run"] >= 60:
                            break
                        wit["run"] += 1
                        rc, o, e, cmd = native(bins["dev"], job, w["inputs"])
                        c = classify(rc, o, e)
                        obs = [int(x) for x in re.findall(r"^OBS (\d+)$", o, re.M)]
                        if c == "ok" and obs == w["obs"]:
                            wit["agree"] += 1
                            if len(samples) < 6:
                                samples.append(dict(entry=job["entry"], params=job.get("params"), inputs=w["inputs"], observed=obs[:16]))
                        elif c in ("ok", "assume"):
                            wit["differ"].append(dict(entry=job["entry"], params=job.get("params"), inputs=w["inputs"], engine=w["obs"][:40], native=obs[:40], outcome=c))
                        else:
                            # the real code fails on a path the engine passed
                            confirm(job, dict(kind="assert", id=0, msg="native run of an explored path: " + c, inputs=w["inputs"]))
            if violations or time.time() - T0 > wall_cap:
                if not violations:
                    failures.append("wall clock cap reached with %d jobs pending" % len(pend))
                stop.set()
                for f in pend:
                    f.cancel()
                kill_all()
                break

    def tot(*ks):
        s = 0
        for _, _, r in results:
            v = r
            for k in ks:
                v = v.get(k, 0)
            s += v
        return s

    inc = {}
    for _, _, r in results:
        for k, v in r["incomplete"].items():
            inc[k[:160]] = inc.get(k[:160], 0) + v
    reach = {}
    for j, _, r in results:
        for k, v in r["reach"].items():
            kk = "%s:%s" % (j["entry"], k)
            reach[kk] = reach.get(kk, 0) + v
    fns = sorted({fn for _, _, r in results for fn in r["functions"]})
    mine = [f for f in fns if "pokers" in f]
    unexpl = tot("unexplored")
    complete = not failures and not inc and unexpl == 0 and not any(r["timed_out"] for _, _, r in results) and not unconfirmed and tot("unknown_asserts") == 0
    vac = [j["entry"] for j in jobs if not any(k.startswith(j["entry"] + ":") and v for k, v in reach.items())]
    per = {}
    for j, s, r in results:
        k = "%s%s" % (j["entry"], j.get("params") or "")
        p = per.setdefault(k, dict(paths=0, asserts=0, queries=0, solver_s=0, wall_s=0, shards=0, timed_out=0, unexplored=0))
        p["paths"] += r["paths"]
        p["asserts"] += r["asserts"]
        p["queries"] += r["solver"]["queries"]
        p["solver_s"] = round(p["solver_s"] + r["solver"]["ms"] / 1000, 2)
        p["wall_s"] = round(max(p["wall_s"], r["total_s"]), 2)
        p["shards"] += 1
        p["timed_out"] += int(r["timed_out"])
        p["unexplored"] += r["unexplored"]
    if not samples:
        for j, _, r in results[:3]:
            for w in r["witnesses"][:1]:
                samples.append(dict(entry=j["entry"], params=j.get("params"), inputs=w["inputs"], observed=w["obs"][:16]))
    cov = dict(
        states=tot("paths"),
        transitions=tot("steps"),
        traces_validated_against_impl=wit["agree"],
        samples=samples or ["none"],
        what="states: symbolic paths explored to their end, each standing for every input that takes it; transitions: IR instructions executed symbolically",
        functions_encoded=mine,
        functions_encoded_total=len(fns),
        bounds=spec["bounds"] if bool(spec.get("hook")) == hooked else "hooks do not build against this tree: only " + "; ".join("%s%s" % (j["entry"], j.get("params") or "") for j in jobs),
        outside_bounds=spec.get("outside", ""),
        complete_within_bounds=complete,
        jobs=per,
        queries=dict(
            discharged=tot("solver", "unsat") + tot("solver", "sat"), sat=tot("solver", "sat"), unsat=tot("solver", "unsat"), unknown=tot("solver", "unknown"),
            solver_s=round(tot("solver", "ms") / 1000, 2), max_ms=max([r["solver"]["max_ms"] for _, _, r in results] or [0]),
            solvers="z3-new (incremental), then z3-new and cvc5 side by side",
        ),
        polynomial_identities=dict(by_normal_form=tot("identities", "by_normal_form"), given_to_solver_as_well=tot("identities", "given_to_solver"), confirmed=tot("identities", "confirmed")),
        assertions=dict(
            evaluated=tot("asserts"), by_solver=tot("asserts_solver"), by_rewriting_to_true=tot("asserts_folded"), by_model_or_cache=tot("asserts_finite"), undecided=tot("unknown_asserts"), reached=reach
        ),
        forks=tot("forks"), merges=tot("merges"), infeasible=tot("killed"), unknown_branches=tot("unknown_branches"), unexplored=unexpl,
        incomplete=inc, job_failures=failures, unconfirmed_counterexamples=unconfirmed[:20],
        measures=dict(compared=counted[0], what="sets of outcomes with the same number of random words whose measures (exact counts of the inputs) were compared") if counted[0] else {},
        native_cross_checks=dict(run=wit["run"], agree=wit["agree"], differ=wit["differ"][:5]),
        known_findings=sorted(set(known_hit)),
        violations=[dict(replay=p, entry=j["entry"], outcome=c) for p, j, cd, c in violations],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov, wall_s=round(time.time() - T0, 2))
    with open(os.path.join(evid_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("paths %d, instructions %d, queries %d (%.1f s solver), assertions %d, cross-checks %d/%d" % (cov["states"], cov["transitions"], tot("solver", "queries"), tot("solver", "ms") / 1000, tot("asserts"), wit["agree"], wit["run"]))
    for w in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violations:
        for p, j, cd, c in violations:
            print("  %s%s: %s (assertion %s: %s)" % (j["entry"], j.get("params") or "", c, cd["id"], spec.get("asserts", {}).get(cd["id"], cd["msg"])))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not complete:
        print("INCOMPLETE: not everything within the stated bounds was decided: " + "; ".join(([str(inc)] if inc else []) + failures[:3] + (["%d unexplored" % unexpl] if unexpl else []) + (["%d unconfirmed: %s" % (len(unconfirmed), json.dumps(unconfirmed[0])[:500])] if unconfirmed else [])))
    if wit["differ"]:
        print("MISMATCH between engine and native run: %s" % json.dumps(wit["differ"][0]))
    if vac:
        print("NOTE: nothing asserted in %s" % vac)
    if not results:
        print("ERROR: no job gave a result")
        return 2
    print("OK property=%s tier=%s complete=%s wall=%.1fs" % (pid, tier, complete, time.time() - T0))
    return 0


if __name__ == "__main__":
    main()
