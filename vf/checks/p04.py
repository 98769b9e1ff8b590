"""P04: every compressed output is a well-formed packed file with true bounds and nearest codes."""
import numpy as np
from vf import gen, ref
from vf.core import Check, require, rng_of, bucket

ENTRIES = ["plywrite", "plywrite_name", "plywrite_arrays", "save", "bytes_data", "bytes_arrays", "arrays_data", "arrays_arrays", "write_compressed",
           "tensor_save", "tensor_save_compressed", "plywrite_gpu", "plywrite_tensor"]


def finite_scene(rng, n, k):
    """Finite scenes for the codec, mixing flavours by 256-blocks and adding degenerate content."""
    fl = str(rng.choice(gen.FINITE + ["mixture", "mixture"]))
    if fl != "mixture":
        s = gen.scene(rng, n, k, fl)
        if rng.random() < .3:
            narrow(rng, s)
        return s, fl
    parts, left = [], n
    while left > 0:
        m = min(left, 256 * int(rng.integers(1, 3)))
        parts.append(gen.scene(rng, m, k, str(rng.choice(gen.FINITE))))
        left -= m
    if not parts:
        return gen.scene(rng, 0, k, "normal"), fl
    s = {f: np.concatenate([p[f] for p in parts]) for f in gen.F}
    if rng.random() < .3:
        m = rng.random(n) < .05
        s["scales"][m] = rng.choice(np.array([-np.inf, np.inf], np.float32), (int(m.sum()), 3))
    if rng.random() < .3:
        m = rng.random(n) < .05
        s["quats"][m] = 0
    if rng.random() < .2:
        a = int(rng.integers(0, 3))
        s["means"][:, a] = s["means"][0, a]
    if rng.random() < .5:
        narrow(rng, s)
    return s, fl


def narrow(rng, s):
    """Some fields of some chunks spread over a very narrow range, near zero or around a value."""
    n = len(s["means"])
    for c in range(0, n, 256):
        for f in ("means", "scales", "sh0"):
            a = s[f][c:c + 256]
            for i in range(3):
                if rng.random() < .4:
                    w = 10.0 ** rng.uniform(-8.8, -3)
                    base = 0.0 if rng.random() < .7 else float(rng.choice([1, -1])) * 10.0 ** rng.uniform(-4, 1)
                    a[:, i] = base + w * (rng.random(len(a)) - float(rng.choice([0, .5, 1])))


class CHECK(Check):
    rule = ("finite scenes (trained-like, constant chunks, extremes, many magnitudes, infinite log-scales, zero quaternions) x size around 256-multiples x "
            "SH degree x entry point x layout; distinct by (size bucket, K, flavour, entry)")
    required = {"outputs_checked": 250, "codes_checked": 500000, "features": 120}
    n_quick, n_thorough = 200, 12000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, plywrite_gpu, write_compressed
        import gsply
        import torch
        from gsply import GSTensor
        from gsply.torch.io import plywrite_gpu
        from gsply.writer import write_compressed

    def directed(self, tier):
        ns = gen.SIZES + [768, 769, 2047, 2048, 2049]
        out = [{"k": "dir", "n": n, "K": (0, 3, 8, 15)[(i + j) % 4], "e": e, "s": n * 16 + j} for i, n in enumerate(ns) for j, e in enumerate(ENTRIES)
               if tier == "thorough" or (i + j) % 3 == 0]
        out += [{"k": "dir", "n": (70001, 4099)[j % 2], "K": (0, 3)[j // 2 % 2], "e": e, "s": j} for j, e in enumerate(ENTRIES)]
        out += [{"k": "dir", "n": 300_007 + j, "K": 0, "e": e, "s": 77} for j, e in enumerate(ENTRIES) if tier == "thorough" or j % 3 == 0]
        if tier == "thorough":
            out += [{"k": "dir", "n": n, "K": 3, "e": e, "s": n} for n in list(range(0, 30)) + list(range(250, 262)) + [65535, 65536, 200001] for e in ENTRIES[::3]]
        return out

    def produce(self, e, s, src, k, ctx, rng):
        fmt = gsply.create_ply_format(gen.DEG_OF_K[k])
        n = s["means"].shape[0]
        shn = src["shN"] if (k or rng.random() < .5) else None
        mk = lambda: gsply.GSData.from_arrays(*[src[f] for f in gen.F[:5]], shn, format="ply")
        tn = lambda: GSTensor(**{f: torch.from_numpy(np.ascontiguousarray(s[f])) for f in gen.F}, _format=fmt)
        out = ctx.path("o.compressed.ply")
        if e == "plywrite":
            out = out.replace(".compressed", "")
            gsply.plywrite(out, mk(), compressed=True)
            out = out.replace(".ply", ".compressed.ply")
        elif e == "plywrite_name":
            gsply.plywrite(out, mk())
        elif e == "plywrite_arrays":
            gsply.plywrite(out, *[src[f] for f in gen.F[:5]], shN=shn, compressed=True)
        elif e == "save":
            (mk().consolidate() if rng.random() < .4 and n else mk()).save(out, compressed=True)
        elif e == "bytes_data":
            return ref.read_packed(gsply.compress_to_bytes(mk()))
        elif e == "bytes_arrays":
            return ref.read_packed(gsply.compress_to_bytes(*[src[f] for f in gen.F[:5]], shn))
        elif e in ("arrays_data", "arrays_arrays"):
            h, cb, pk, sh = gsply.compress_to_arrays(mk()) if e == "arrays_data" else gsply.compress_to_arrays(*[src[f] for f in gen.F[:5]], shn)
            return ref.read_packed(h + np.ascontiguousarray(cb).tobytes() + np.ascontiguousarray(pk).tobytes() + (b"" if sh is None else np.ascontiguousarray(sh).tobytes()))
        elif e == "write_compressed":
            write_compressed(out, *[src[f] for f in gen.F[:5]], shn)
        elif e == "tensor_save":
            tn().save(out)
        elif e == "tensor_save_compressed":
            tn().save_compressed(out)
        elif e == "plywrite_gpu":
            plywrite_gpu(out, tn())
        elif e == "plywrite_tensor":
            gsply.plywrite(out, tn(), compressed=True)
        return ref.read_packed(open(out, "rb").read())

    def run(self, c, ctx):
        rng = rng_of("P04", c["s"], c.get("e"))
        if c["k"] == "dir":
            n, k, e = c["n"], c["K"], c["e"]
        else:
            n, k, e = gen.pick_n(rng, .06, .01 if ctx.tier == "thorough" else 0), gen.pick_k(rng), str(rng.choice(ENTRIES))
        s, fl = finite_scene(rng, n, k)
        lay = str(rng.choice(["C", "C", "perm", "F", "slab", "rows"] if ctx.tier == "quick" and rng.random() < .85 else ["mixed", "C", "F", "cols", "rows", "rev", "slab", "perm"]))
        src, kinds = gen.relayout_scene(rng, s, None if lay == "mixed" else lay)
        if "arrays" in e.split("_")[-1] and e != "bytes_arrays" or e in ("bytes_arrays", "plywrite_arrays"):
            # separate arrays go through value-based format detection: use clearly logarithmic data
            if e in ("arrays_arrays", "bytes_arrays", "plywrite_arrays"):
                s = gen.scene(rng, n, k, "normal")
                fl = "normal"
                src, kinds = gen.relayout_scene(rng, s, None if lay == "mixed" else lay)
                if n < 20:
                    s["scales"][...] = -np.abs(s["scales"]) - 1
                    s["opacities"][...] = -2 - np.abs(s["opacities"])
                    src, kinds = gen.relayout_scene(rng, s, None if lay == "mixed" else lay)
        if not e.startswith("t") and rng.random() < .15:                 # the same numbers, some fields in double precision
            wide = [f for f in gen.F if rng.random() < .5] or ["opacities"]
            src = {f: v.astype(np.float64) if f in wide else v for f, v in src.items()}
            kinds = kinds + ["float64: " + " ".join(wide)]
            ctx.count("mixed_precision")
        what = f"{e} n={n} K={k} {fl} layout={kinds}: "
        try:
            bounds, packed, sh = self.produce(e, s, src, k, ctx, rng)
        except ref.BadPly as x:
            require(False, what + f"not a well-formed compressed PLY: {x}")
        m = ref.check_encoding(s, bounds, packed, sh, what)
        require(not m, m)
        ctx.count("outputs_checked")
        ctx.count("codes_checked", packed.size * 3 + (0 if sh is None else sh.size))
        ctx.count("entry:" + e)
        ctx.feat(bucket(n), k, fl, e)
        ctx.sample({"n": n, "K": k, "flavour": fl, "entry": e, "layout": kinds})
