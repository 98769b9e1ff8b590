"""Runs the public operations on given scenes in this (specially started) interpreter and reports the digests.

    python -m vf.ambient_child OUT.json [N K SEED]...
"""
import json, os, sys, tempfile

sys.path.insert(0, os.path.join(os.environ.get("VF_REPO", "/repo"), "src"))


def main():
    out = sys.argv[1]
    from vf import ambient, world
    from vf.core import rng_of
    a = ambient.fingerprint()
    import gsply
    gsply.GSData, gsply.sogread            # the package itself
    changed = ambient.differences(a, ambient.fingerprint())
    ops = dict(world.ops(), **ambient.more_ops())
    spec = sys.argv[2:]
    res = {"import changes": changed}
    with tempfile.TemporaryDirectory() as d:
        for i in range(0, len(spec), 3):
            n, k, s = map(int, spec[i:i + 3])
            w = world.World(rng_of("child", n, k, s), n, k, tempfile.mkdtemp(dir=d))
            for o in sorted(ops):
                res[f"{o}/{n}/{k}"] = ambient.outcome(ops[o], w)
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
