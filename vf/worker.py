"""Worker: runs the cases of one shard of one check inside the monitored process."""
import importlib, json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(ROOT, "vf")]
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


def main():
    pid, tier, seed, shard, nshards, outdir = sys.argv[1:7]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    replay = sys.argv[7] if len(sys.argv) > 7 else None
    os.makedirs(outdir, exist_ok=True)
    from vf import core
    mod = importlib.import_module(f"vf.checks.{pid.lower()}")
    if hasattr(mod, "before_import"):
        mod.before_import(os.environ.get("VF_MODE", ""))
    import gsply
    assert os.path.realpath(gsply.__file__).startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep), gsply.__file__
    check = mod.CHECK()
    core.run_worker(check, pid, tier, seed, shard, nshards, outdir, replay)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        os._exit(7)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
