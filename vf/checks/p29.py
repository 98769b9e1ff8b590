"""P29: where a save stores its data, and in which encoding, follows the documented rules; the file loads back whatever its name."""
import os
from pathlib import Path, PurePosixPath
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, fail, rng_of, bucket

# entry -> (container, how the name is treated)   rule: the documented rule; exact: exactly the given name
ENT = {"plywrite": ("a", "rule"), "plywrite_arrays": ("arr", "rule"), "save": ("a", "rule"), "plywrite_t": ("t", "rule"), "tsave_plain": ("t", "rule"),
       "tsave": ("t", "packed"), "tsave_compressed": ("t", "packed"), "plywrite_gpu": ("t", "packed"), "write_compressed_gpu": ("t", "packed"), "write_compressed": ("arr", "packed"), "write_uncompressed": ("a", "plain")}
STEM = ["scene", "a b", " lead", "trail ", "ünï😀", "日本", "x.y", "v1.2.3", "...", "-rf", "a'b\"c", "100%", "$HOME", "~", "new\nline", "tab\t", "*?", "a\\b", "CON", "ply", "x.ply", "x.compressed", "compressed", "x.compressed.ply", "x.ply_compressed", "x.sog", "x.json", ".hidden",
        "z" * 200, "ﬁle", "e\u0301", "a;b|c&d", "#", "[x]", "{0}", "%s", "\x7f", "x:y", "\udce9x"]
END = ["", ".ply", ".compressed.ply", ".ply_compressed", ".PLY", ".Compressed.Ply", ".compressed.PLY", ".PLY_COMPRESSED", ".plyx", ".ply.bak", ".compressed", ".compressed.ply.bak", "ply", "_compressed.ply", "compressed.ply", ".ply ", ".ply.", ".", ".txt", ".ply.ply", ".ply_compressed.ply",
       ".compressed.ply.ply", ".tar.gz", ".compressed.sog", ".sog", ".ply_compressed.gz", "..ply"]
DIRS = ["", "sub", "sub.ply", "sub.compressed.ply", "d e", "x.ply_compressed", "ü", "sub/deeper.v2", ".hid"]
FORM = ["str", "Path", "rel", "relPath", "dot", "dotdot", "double", "pure", "sub_rel"]


def expected(name, rule, flag):
    """(file name, packed?) by the documented rule, or None when the rule does not say."""
    if rule == "packed":
        return name, True
    if rule == "plain":
        return name, False
    if name.endswith((".compressed.ply", ".ply_compressed")):
        return name, True
    if not flag:
        return name, False
    if name.endswith(".ply"):
        if not name[:-4].strip("."):     # nothing before .ply
            return None
        return name[:-4] + ".compressed.ply", True
    return name + ".compressed.ply", True


class CHECK(Check):
    rule = "every save entry point x name endings (grid) x stems, directories, path forms, flags and neighbours; the directory listing and the stored bytes are compared with the documented rule; distinct by (entry, ending, flag, form, neighbour)"
    required = {"saves": 3000, "loads": 9000, "features": 1500}
    n_quick, n_thorough = 2600, 120000

    def setup(self, ctx, tier):
        global gsply, GSTensor, GSData, writer, C, io
        import gsply
        from gsply import GSTensor, GSData, writer
        from gsply.torch import compression as C, io
        self.scenes = {}
        for n, k in ((0, 0), (1, 0), (2, 3), (5, 15), (300, 8)):
            s = gen.scene(rng_of("P29s", n, k), n, k, "normal")
            f = hold.formats(0, 0, 0, k)
            a = hold.gsdata(s, f)
            self.scenes[n, k] = (s, a, a.consolidate() if n else a, hold.tensor(s, f))

    def directed(self, tier):
        for e in ENT:
            for i in range(len(END)):
                for flag in (False, True):
                    yield {"k": "one", "e": e, "end": i, "flag": flag}
        for i in range(len(STEM)):
            for flag in (False, True):
                for e in ("plywrite", "save", "tsave", "plywrite_t"):
                    yield {"k": "stem", "stem": i, "flag": flag, "e": e}

    def write(self, e, p, flag, s, a, t):
        arr = [s[f] for f in gen.F[:5]] + [s["shN"] if s["shN"].shape[1] else None]
        {"plywrite": lambda: gsply.plywrite(p, a, compressed=flag), "plywrite_arrays": lambda: gsply.plywrite(p, *arr, compressed=flag), "save": lambda: a.save(p, compressed=flag),
         "plywrite_t": lambda: gsply.plywrite(p, t, compressed=flag), "tsave_plain": lambda: t.save(p, compressed=False), "tsave": lambda: t.save(p) if flag else t.save(p, compressed=True), "tsave_compressed": lambda: t.save_compressed(p),
         "plywrite_gpu": lambda: io.plywrite_gpu(p, t), "write_compressed_gpu": lambda: C.write_compressed_gpu(p, t), "write_compressed": lambda: writer.write_compressed(p, *arr), "write_uncompressed": lambda: writer.write_uncompressed(p, a)}[e]()

    def run(self, c, ctx):
        rng = rng_of("P29", c)
        k = c["k"]
        e = c.get("e") or str(rng.choice(list(ENT)))
        flag = c.get("flag", bool(rng.random() < .5))
        stem = STEM[c["stem"]] if "stem" in c else STEM[int(rng.integers(len(STEM)))]
        end = END[c["end"]] if "end" in c else END[int(rng.integers(len(END)))]
        if k == "stem":
            end = ".ply" if c["stem"] % 2 else str(rng.choice(["", ".ply", ".compressed.ply", ".ply_compressed"]))
        if k == "one" and rng.random() < .5:
            stem = "scene"
        name = stem + end
        if "/" in name or name in ("", ".", "..") or len(os.fsencode(name)) > 230:
            name = "m" + end
        cont, rule = ENT[e]
        if e == "tsave_plain":
            flag = False
        want = expected(name, rule, flag)
        if want is None:
            return
        wname, packed = want
        n, kk = list(self.scenes)[int(rng.integers(len(self.scenes)))]
        s, a, ac, t = self.scenes[n, kk]
        if rng.random() < .4:
            a = ac
        base = os.path.dirname(ctx.path())
        sub = DIRS[int(rng.integers(len(DIRS)))]
        d = os.path.join(base, sub) if sub else base
        os.makedirs(d, exist_ok=True)
        os.makedirs(os.path.join(base, "other"))
        # neighbours: files under every related name
        near = bool(rng.random() < .5)
        keep = {}
        if near:
            for x in {name, name + ".compressed.ply", name + ".ply", stem, stem + ".ply", stem + ".compressed.ply", stem + ".ply_compressed", name + ".tmp", name + "~", "scene.ply"}:
                p = os.path.join(d, x)
                if len(os.fsencode(x)) < 250 and x not in ("", ".", "..") and "/" not in x and not os.path.isdir(p):
                    keep[p] = rng.bytes(int(rng.integers(0, 5000)))
                    open(p, "wb").write(keep[p])
        form = FORM[int(rng.integers(len(FORM)))]
        full = os.path.join(d, name)
        cwd = os.getcwd()
        what = f"{e}({name!r}, compressed={flag}) in {sub!r}, {form}, n={n} K={kk}: "
        def spell(nm):
            full = os.path.join(d, nm)
            return {"str": lambda: full, "Path": lambda: Path(full), "rel": lambda: nm, "relPath": lambda: Path(nm), "dot": lambda: "./" + nm, "dotdot": lambda: Path(base, "other", "..", sub, nm),
                    "double": lambda: d + "//" + nm, "pure": lambda: PurePosixPath(full), "sub_rel": lambda: os.path.join(sub, nm)}[form]()
        home = base if form == "sub_rel" else d
        try:
            os.chdir(home)
            self.write(e, spell(name), flag, s, a, t)
            ctx.count("saves")
            have = {os.path.join(r, x) for r, _, fs in os.walk(base) for x in fs}
            out = os.path.join(d, wname)
            require(out in have, lambda: what + f"stored nothing under {wname!r}; new files: {sorted(os.path.relpath(x, base) for x in have - set(keep))}")
            require(have == set(keep) | {out}, lambda: what + f"also created {sorted(os.path.relpath(x, base) for x in have - set(keep) - {out})} or removed {sorted(set(keep) - have)}")
            for p, b in keep.items():
                require(p == out or open(p, "rb").read() == b, lambda: what + f"changed the neighbour {os.path.basename(p)!r}")
            b = open(out, "rb").read()
            h = b[:b.index(b"end_header\n")]
            require((b"element chunk" in h) == packed, lambda: what + f"stored {'compressed' if b'element chunk' in h else 'plain'} data")
            p = spell(wname)
            if packed:
                wantv, tol = ref.decode(*ref.read_packed(b))
            else:
                wantv = ref.read_std(b)
                bad = ref.diff_scene(wantv, s, "stored ")
                require(not bad, lambda: what + bad)
            got = {"plyread": gsply.plyread(p), "GSData.load": GSData.load(p), "GSTensor.load": GSTensor.load(p, device="cpu").to_gsdata()}
            for nm, g in got.items():
                require(len(g) == n, lambda: what + f"{nm} returned {len(g)} Gaussians, saved {n}")
                if packed:
                    bad = ref.diff_close(g, wantv, tol, "")
                else:
                    bad = ref.diff_scene(g, wantv, "")
                require(not bad, lambda: what + f"{nm} of the stored file: {bad}")
                ctx.count("loads")
            det = gsply.detect_format(p)
            require(det == (packed, None if packed else {0: 0, 3: 1, 8: 2, 15: 3}[kk]), lambda: what + f"detect_format says {det}")
        finally:
            os.chdir(cwd)
        ctx.feat(e, end, flag, form, near)
        ctx.seen("names", name)
        ctx.sample({"entry": e, "name": name, "flag": flag, "form": form, "stored": wname, "packed": packed})
