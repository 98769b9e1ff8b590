"""Plants seeded changes: builds seeded/<id>/ from a spec file and confirms that the patch counts.

    python3 tools/plant.py make SPECFILE [ID ...]    write seeded/<id>/ and confirm it
    python3 tools/plant.py check [ID ...]            confirm the committed seeded/<id>/ again

Confirmed means: the patch applies to /repo's HEAD, changes only original lines of non-test
sources, builds, the demo passes without it and fails with it, and the stable tests pass with it.
All work happens in scratch copies under /tmp.
"""

import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
BASE = "7321ebe"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# cwd: the repository. Exit 0 if the property holds, 1 if it is broken.\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
HEAD = '''import os
import sys
import tempfile

TMP_OBJ = tempfile.TemporaryDirectory()
TMP = TMP_OBJ.name
os.environ["NUMBA_CACHE_DIR"] = os.path.join(TMP, "numba")
os.environ["TORCHDYNAMO_DISABLE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))

import numpy as np

import gsply
from gsply import GSData


def scene(n, k=0, seed=0):
    r = np.random.default_rng(seed)
    f = np.float32
    return GSData.from_arrays(
        means=r.normal(0, 3, (n, 3)).astype(f),
        scales=r.uniform(-7, -1, (n, 3)).astype(f),
        quats=r.normal(0, 1, (n, 4)).astype(f),
        opacities=r.normal(0, 3, n).astype(f),
        sh0=r.normal(0, 1, (n, 3)).astype(f),
        shN=r.normal(0, 0.3, (n, k, 3)).astype(f),
        format="ply",
    )


def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)


'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def clone(tag):
    d = pathlib.Path(tempfile.mkdtemp(prefix=f"plant-{tag}-"))
    run(["git", "clone", "-q", "/repo", str(d / "repo")], check=True)
    return d


def blame_ok(repo, patch):
    """Old lines removed or adjacent to insertions must come from the original commit."""
    import re

    bad = []
    cur = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            s, n = int(m[1]), int(m[2] or 1)
            if n:
                out = run(["git", "blame", "-s", "-l", "-L", f"{s},{s + n - 1}", "HEAD", "--", cur], cwd=repo).stdout
                for ln in out.splitlines():
                    if not ln.lstrip("^").startswith(BASE):
                        bad.append(ln)
    return bad


def tests(work):
    repo = work / "repo"
    env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=f"{repo}/src:/opt/vp", NUMBA_CACHE_DIR=str(work / "nb"), TORCHINDUCTOR_CACHE_DIR=str(work / "ind"),
               TRITON_CACHE_DIR=str(work / "tri"))
    os.makedirs(work / "nb", exist_ok=True)
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "seed_plugin", "--timeout=200",
             "--continue-on-collection-errors", "-m", "not benchmark", f"--basetemp={work}/pt", "-o", "junit_family=xunit2",
             f"--junitxml={work}/j.xml", "tests"], cwd=repo, env=env)
    out = work / "out.json"
    run([PY, "/opt/vp/results.py", str(out), f"junit:{work}/j.xml"])
    return json.loads(out.read_text()) if out.exists() else {"error": r.stdout[-2000:]}


def demo(d, repo):
    r = run(["bash", str(d / "demo.sh")], cwd=repo, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def confirm(sid, with_tests=True):
    d = SEEDED / sid
    work = clone(sid)
    try:
        repo = work / "repo"
        res = {"id": sid}
        code, out = demo(d, repo)
        res["clean"] = code
        if code:
            res["clean_out"] = out
        a = run(["git", "apply", str(d / "patch.diff")], cwd=repo)
        if a.returncode:
            return {**res, "apply": a.stderr}
        res["blame"] = blame_ok(repo, run(["git", "diff", "-U0"], cwd=repo).stdout)
        code, out = demo(d, repo)
        res["patched"] = code
        res["out"] = out
        if with_tests:
            got = tests(work)
            base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
            stable = base["stable"]
            passed = set(got.get("passed", []))
            res["failed"] = sorted(t for t in stable if t not in passed)[:5]
        res["ok"] = res["clean"] == 0 and res["patched"] != 0 and not res["blame"] and not res.get("failed")
        return res
    finally:
        shutil.rmtree(work)


def make(spec):
    d = SEEDED / spec["id"]
    d.mkdir(parents=True, exist_ok=True)
    work = clone(spec["id"])
    try:
        repo = work / "repo"
        for path, old, new in spec["edits"]:
            p = repo / "src/gsply" / path
            s = p.read_text()
            assert s.count(old) >= 1, (spec["id"], "pattern missing", old)
            nth = spec.get("nth", {}).get(old, 0)
            i = -1
            for _ in range(nth + 1):
                i = s.index(old, i + 1)
            p.write_text(s[:i] + new + s[i + len(old):])
        (d / "patch.diff").write_text(run(["git", "diff"], cwd=repo).stdout)
    finally:
        shutil.rmtree(work)
    (d / "demo.sh").write_text(DEMO_SH)
    (d / "demo.py").write_text(HEAD + spec["demo"].strip("\n") + '\n\nprint("ok")\n')
    (d / "meta.json").write_text(json.dumps({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")


def main():
    what, *args = sys.argv[1:]
    if what == "make":
        ns = {}
        exec(pathlib.Path(args[0]).read_text(), ns)
        specs = [s for s in ns["SPECS"] if not args[1:] or s["id"] in args[1:]]
        for s in specs:
            make(s)
        ids = [s["id"] for s in specs]
    else:
        ids = args or sorted(p.name for p in SEEDED.iterdir())
    with cf.ThreadPoolExecutor(4) as ex:
        for res in ex.map(confirm, ids):
            print(json.dumps(res), flush=True)


main()
