"""P01: uncompressed save/load is bit-exact and the file is the standard 3DGS PLY."""
import io, os
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, rng_of, bucket


class CHECK(Check):
    rule = ("cases = size x SH degree x value flavour (arbitrary bit patterns, special values, distinct ids, trained-like) x "
            "memory layout x dtype x save entry point; distinct by (size bucket, K, flavour, entry point, layout class)")
    required = {"files_parsed": 150, "loads_compared": 150, "features": 100}
    n_quick, n_thorough = 420, 9000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor
        import gsply
        import torch
        from gsply import GSTensor

    def directed(self, tier):
        out = []
        for n in gen.SIZES + [4096, 66000]:
            for k in (0, 3, 8, 15):
                out.append({"k": "dir", "n": n, "K": k, "fl": "bits", "s": n * 16 + k})
        out += [{"k": "dir", "n": 300_007, "K": 0, "fl": "bits", "s": 5}, {"k": "dir", "n": 150_001, "K": 3, "fl": "bits", "s": 6}, {"k": "dir", "n": 1_050_001, "K": 0, "fl": "bits", "s": 7}]
        if tier == "thorough":
            out += [{"k": "dir", "n": n, "K": 15, "fl": "ids", "s": n} for n in list(range(0, 40)) + [65535, 65536, 65537, 200000, 300001]]
            out += [{"k": "dir", "n": n, "K": k, "fl": "bits", "s": n} for n in (99999, 178571, 178572, 250000) for k in (0, 3)]
        return out

    def random_case(self, i, seed, tier):
        return {"k": "rand", "s": seed * 1000003 + i}

    def run(self, c, ctx):
        rng = rng_of("P01", c["s"])
        if c["k"] == "dir":
            n, k, fl = c["n"], c["K"], c["fl"]
        else:
            n, k = gen.pick_n(rng, 0.06, 0.01 if ctx.tier == "thorough" else 0), gen.pick_k(rng)
            fl = str(rng.choice(["bits", "special", "ids", "normal", "linear"]))
        s = gen.scene(rng, n, k, fl)
        ent = str(rng.choice(["func", "func", "method", "arrays", "base", "loaded", "slice", "f64", "tensor", "sh2d", "write_unc", "shn_none", "tensor_base"]))
        lay = str(rng.choice(["mixed", "C", "F", "cols", "rows", "rev", "slab", "perm"]))
        src, kinds = gen.relayout_scene(rng, s, None if lay == "mixed" else lay)
        fmt = "ply"
        p = ctx.path("out.ply")
        mk = lambda d: gsply.GSData.from_arrays(d["means"], d["scales"], d["quats"], d["opacities"], d["sh0"], d["shN"] if k or rng.random() < .5 else None, format=fmt)
        if ent == "arrays" and fl not in ("normal",):
            ent = "func"                      # separate arrays go through value-based format detection
        if ent == "arrays" and (n == 0 or not self.clearly_ply(s)):
            ent = "func"
        if ent == "f64" and fl in ("bits", "special"):
            ent = "method"                    # widening may quieten signalling NaNs; not the library's doing
        if ent == "func":
            gsply.plywrite(p, mk(src))
        elif ent == "method":
            mk(src).save(p)
        elif ent == "shn_none" and k == 0:
            gsply.plywrite(p, gsply.GSData.from_arrays(*[src[f] for f in gen.F[:5]], None, format=fmt))
        elif ent == "arrays":
            gsply.plywrite(p, *[src[f] for f in gen.F[:5]], shN=src["shN"] if k else None)
        elif ent == "sh2d" and k and self.clearly_ply(s) and n:
            flat = np.ascontiguousarray(s["shN"].transpose(0, 2, 1)).reshape(n, 3 * k)
            gsply.plywrite(p, *[src[f] for f in gen.F[:5]], shN=flat)
        elif ent == "f64":
            wide = [f for f in gen.F if rng.random() < .5] or list(gen.F)
            d = {f: src[f].astype(np.float64) if f in wide else src[f] for f in gen.F}
            gsply.plywrite(p, mk(d))
        elif ent == "base":
            mk(src).consolidate().save(p)
        elif ent == "loaded":
            q = ctx.path("pre.ply")
            with open(q, "wb") as f:
                f.write(ref.build_std(s))
            gsply.plywrite(p, gsply.plyread(q))
        elif ent == "slice" and n:
            q = ctx.path("pre.ply")
            with open(q, "wb") as f:
                f.write(ref.build_std(s))
            d = gsply.plyread(q)
            st = int(rng.integers(1, 4))
            d = d[int(rng.integers(0, n))::st] if rng.random() < .7 else d[::-1]
            idx = np.arange(n)
            s = {f: np.ascontiguousarray(getattr(d, f)) if f != "shN" else np.ascontiguousarray(ref.norm_shn(d.shN, len(d))) for f in gen.F}
            gsply.plywrite(p, d)
        elif ent == "tensor":
            t = GSTensor(**{f: torch.from_numpy(np.ascontiguousarray(s[f])) for f in gen.F}, _format=gsply.create_ply_format(gen.DEG_OF_K[k]))
            t.save(p, compressed=False) if rng.random() < .5 else gsply.plywrite(p, t)
        elif ent == "tensor_base":
            t = GSTensor.from_gsdata(mk(src), device="cpu")
            t.save(p, compressed=False)
        elif ent == "write_unc":
            from gsply.writer import write_uncompressed
            write_uncompressed(p, mk(src))
        else:
            ent = "func"
            gsply.plywrite(p, mk(src))
        b = open(p, "rb").read()
        try:
            disk = ref.read_std(b)
        except ref.BadPly as e:
            require(False, f"{ent} n={n} K={k}: file is not a standard 3DGS PLY: {e}")
        ctx.count("files_parsed")
        ctx.count("values_compared", 2 * sum(s[f].size for f in gen.F))
        m = ref.diff_scene(disk, s)
        require(not m, lambda: f"{ent} layout={kinds} n={n} K={k} {fl}: file content differs: {m}")
        # byte identity whatever the source
        p2 = ctx.path("canon.ply")
        gsply.plywrite(p2, gsply.GSData.from_arrays(*[np.ascontiguousarray(s[f]) for f in gen.F], format="ply"))
        b2 = open(p2, "rb").read()
        require(b == b2, f"{ent} layout={kinds} n={n} K={k}: bytes differ from the file written from contiguous arrays (lengths {len(b)}, {len(b2)})")
        rd = str(rng.choice(["plyread", "load", "read_unc", "tload"]))
        if rd == "plyread":
            r = gsply.plyread(p if rng.random() < .5 else str(p))
        elif rd == "load":
            r = gsply.GSData.load(p)
        elif rd == "read_unc":
            from gsply.reader import read_uncompressed
            r = read_uncompressed(p)
        else:
            r = GSTensor.load(p, device="cpu")
        m = ref.diff_scene(r, s)
        require(not m, lambda: f"{ent}/{rd} n={n} K={k} {fl}: loaded values differ: {m}")
        require(len(r) == s["means"].shape[0] and (len(r) == 0 or r.get_sh_degree() == gen.DEG_OF_K[k]), f"{rd}: length or SH degree changed: {len(r)}, {r.get_sh_degree()}")
        m = hold.declared_ply(r, k) if len(r) else ""
        require(not m, lambda: f"{ent}/{rd} n={n} K={k}: {m}")
        require(gsply.detect_format(p) == (False, gen.DEG_OF_K[k]), f"detected as {gsply.detect_format(p)}")
        ctx.count("loads_compared")
        ctx.count("entry:" + ent)
        ctx.feat(bucket(n), k, fl, ent, lay)
        ctx.sample({"n": n, "K": k, "flavour": fl, "entry": ent, "layout": kinds, "read": rd, "bytes": len(b)})

    @staticmethod
    def clearly_ply(s):
        sc, op = s["scales"], s["opacities"]
        if not sc.size:
            return True
        return (sc < 0).mean() > 0.3 and ((op >= 0) & (op <= 1)).mean() < 0.8 and np.isfinite(sc).all()
