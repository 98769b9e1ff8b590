#!/usr/bin/env python3
"""Driver of one check:  run.py PID [--tier quick|thorough] [--replay FILE] [--shards N]

Starts worker processes that execute /repo's current working tree under
workloads with monitors (vf/worker.py), watches them, merges what they
observed, writes evidence/PID.json and decides: 0 held, 1 violated (with a
VIOLATION line), 3 inconclusive (the monitors did not see enough).
"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time, hashlib, importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VF_REPO", "/repo")


def worker_env(tmp, extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "TORCH", "PYTHON"))}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
               TORCHINDUCTOR_CACHE_DIR=os.path.join(tmp, "inductor"),
               TRITON_CACHE_DIR=os.path.join(tmp, "triton"), TORCHDYNAMO_DISABLE="1", OMP_NUM_THREADS="2",
               NUMBA_NUM_THREADS="4", TMPDIR=os.path.join(tmp, "t"), VF_REPO=REPO, PYTHONFAULTHANDLER="1",
               PYTHONPATH=ROOT, HOME=os.path.join(tmp, "home"), MKL_NUM_THREADS="2", PYTHONWARNINGS="ignore")
    env.update(extra)
    # compiled kernels are shared by the workers of one run that run in the same mode
    env["NUMBA_CACHE_DIR"] = os.path.join(os.path.dirname(tmp), "numba-" + (env.get("VF_MODE") or "default"))
    for d in (env["NUMBA_CACHE_DIR"],) + tuple(os.path.join(tmp, x) for x in ("inductor", "t", "home")):
        os.makedirs(d, exist_ok=True)
    return env


class Worker:
    def __init__(self, pid, tier, seed, shard, nshards, tmp, extra, replay=None, mode=""):
        self.shard, self.mode = shard, mode
        self.dir = os.path.join(tmp, f"w{shard}")
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, "result.json")
        self.journal = os.path.join(self.dir, "journal.json")
        self.log = os.path.join(self.dir, "log.txt")
        cmd = [PY, "-X", "faulthandler", os.path.join(HERE, "worker.py"), pid, tier, str(seed), str(shard), str(nshards), self.dir]
        if replay:
            cmd.append(replay)
        e = dict(extra)
        if mode:
            e["VF_MODE"] = mode
        env = worker_env(os.path.join(tmp, f"w{shard}"), e)
        self.p = subprocess.Popen(cmd, env=env, stdout=open(self.log, "w"), stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, start_new_session=True, cwd=self.dir)
        self.t0 = time.time()

    def progress_age(self):
        try:
            return time.time() - os.stat(self.journal).st_mtime
        except OSError:
            return time.time() - self.t0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self, n=3000):
        try:
            return open(self.log, errors="replace").read()[-n:]
        except OSError:
            return ""

    def case(self):
        try:
            return json.load(open(self.journal))
        except Exception:
            return None


def save_replay(pid, case, msg, seed, tier):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "message": msg, "seed": seed, "tier": tier}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.pid, a.tier, a.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = json.load(open(os.path.join(HERE, "config.json"))).get(pid, {})
    shards = a.shards or spec.get("shards", {}).get(tier, 6 if tier == "quick" else 8)
    stall = spec.get("stall", 240)
    limit = 800 if tier == "quick" else 3300
    extra = spec.get("env", {})
    modes = spec.get("modes") or [""] * shards
    if len(modes) != shards:
        modes = [modes[i % len(modes)] for i in range(shards)]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        code = drive(a, pid, tier, seed, shards, stall, limit, extra, modes, t0, tmp, spec)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def drive(a, pid, tier, seed, shards, stall, limit, extra, modes, t0, tmp, spec):
    crashes, notes, results = [], [], []
    if a.replay:
        rep = json.load(open(a.replay))
        mode = (rep["case"] or {}).get("_mode", "")
        ws = [Worker(pid, rep.get("tier", tier), rep.get("seed", seed), 0, 1, tmp, extra, os.path.abspath(a.replay), mode)]
    else:
        ws = [Worker(pid, tier, seed, i, shards, tmp, extra, None, modes[i]) for i in range(shards)]
    live = list(ws)
    inconclusive = []
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w.p.poll()
            if rc is not None:
                live.remove(w)
                try:
                    r = json.load(open(w.out))
                except Exception:
                    r = None
                if r is not None and rc == 0:
                    results.append(r)
                elif rc < 0 and w.case() is not None:
                    if -rc == signal.SIGKILL:
                        inconclusive.append(f"worker {w.shard} was killed (memory?) in {w.case()}")
                    else:
                        crashes.append((w.case(), f"process died with signal {signal.Signals(-rc).name}: {w.tail(1500)}"))
                else:
                    inconclusive.append(f"worker {w.shard} exit {rc}: {w.tail()}")
            elif w.progress_age() > stall or time.time() - t0 > limit:
                case = w.case()
                w.kill()
                live.remove(w)
                if time.time() - t0 > limit or case is None:
                    inconclusive.append(f"worker {w.shard} stopped by the watchdog in {case}: {w.tail()}")
                    continue
                # run the case alone, with the machine to itself: a hang only if it hangs again
                tmp2 = tempfile.mkdtemp(prefix="vf-")
                rp = os.path.join(tmp2, "replay.json")
                json.dump({"case": case}, open(rp, "w"))
                w2 = Worker(pid, tier, seed, 0, 1, tmp2, extra, rp, case.get("_mode", ""))
                t1 = time.time()
                while w2.p.poll() is None and time.time() - t1 < stall:
                    time.sleep(0.1)
                if w2.p.poll() is None:
                    w2.kill()
                    crashes.append((case, f"does not finish: {stall} s twice, the second time alone; {w2.tail(1500)}"))
                else:
                    try:
                        results.append(json.load(open(w2.out)))
                        notes.append(f"worker {w.shard} was slow in one case, which finished alone")
                    except Exception:
                        crashes.append((case, f"dies when run alone: {w2.tail(1500)}"))
                shutil.rmtree(tmp2, ignore_errors=True)
    # merge
    counters, feats, samples, viols, known, evals = {}, set(), [], [], {}, 0
    rules = ""
    required, level, assumptions, extra_cov = {}, "exploration", [], {}
    for r in results:
        evals += r["evaluations"]
        for k, v in r["counters"].items():
            if k.startswith("max:"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        feats.update(map(str, r["features"]))
        samples += r["samples"][: max(1, 6 // len(results))]
        viols += r["violations"]
        for k, v in r["known"].items():
            known.setdefault(k, v)
        rules, required, level = r["rule"], r["required"], r["level"]
        assumptions = r["assumptions"]
        for k, v in r.get("sets", {}).items():
            extra_cov.setdefault(k, set()).update(v)
    for c, m in crashes:
        viols.append({"case": c, "message": m, "key": "crash"})
    if not a.replay and not inconclusive:
        for k, v in required.items():
            got = len(feats) if k == "features" else counters.get(k, 0)
            if got < v:
                inconclusive.append(f"monitor saw too little: {k} = {got} < {v}")
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    listed = [e for e in kf.get("findings", []) if e["property"] == pid]
    for e in listed:
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    code = 0
    for v in viols[:10]:
        path = save_replay(pid, v["case"], v["message"], seed, tier)
        print(f"  {v['message'][:1500]}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, ROOT)}")
        code = 1
    for n in notes:
        print("note:", n)
    if code == 0 and inconclusive:
        for i in inconclusive:
            print("INCONCLUSIVE:", i[:4000])
        code = 3
    wall = round(time.time() - t0, 2)
    if not a.replay:
        cov = {"evaluations": evals, "distinct_nontrivial": len(feats), "rule": rules, "samples": samples or ["none"],
               "observed": dict(sorted(counters.items())),
               "distinct_observed": {k: len(v) for k, v in sorted(extra_cov.items())},
               "known_findings_seen": sorted(known)}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
              "wall_s": wall, "violations": len(viols)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {evals} cases, {len(feats)} distinct, {len(viols)} violations, {wall} s -> exit {code}")
    if not a.replay:
        print("  observed:", ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    return code


if __name__ == "__main__":
    main()
