"""P05: compress/decompress loses at most quantisation error, over any pair of paths and any number of generations."""
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, rng_of, bucket
from vf.checks.p04 import finite_scene

ENC = ["file", "method", "bytes", "arrays", "tensor", "tensor_gpu"]
DEC = ["plyread", "load", "bytes", "tload", "from_compressed"]
EPS = ref.EPS


def compare(got, s, what, first=True):
    """Independent value-level tolerances. s: the scene that was compressed."""
    n, k = s["shN"].shape[:2]
    g = {f: getattr(got, f) for f in gen.F}
    g = {f: (v.detach().cpu().numpy() if hasattr(v, "detach") else v) for f, v in g.items()}
    g["shN"] = ref.norm_shn(g["shN"], n)
    for f in gen.F:
        require(g[f].shape == s[f].shape, what + f"{f} has shape {g[f].shape}, was {s[f].shape}")
    if n == 0:
        return g
    st = np.arange(0, n, 256)
    ch = np.arange(n) // 256

    def interp(name, a, b, half, unit):
        lo, hi = np.minimum.reduceat(a, st)[ch], np.maximum.reduceat(a, st)[ch]
        tol = (hi - lo) * half + unit * EPS * (np.abs(lo) + np.abs(hi)) * (hi > lo) + 1e-45
        bad = ~(np.abs(b - a) <= tol)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            require(False, what + f"{name}{list(i)} came back as {b[i]!r}, was {a[i]!r}; chunk range [{lo[i]!r}, {hi[i]!r}], allowed {tol[i]:.3g}; {int(bad.sum())} of {bad.size}")
    steps = np.array([1 / 2047, 1 / 1023, 1 / 2047]) / 2
    interp("means", s["means"].astype(np.float64), g["means"].astype(np.float64), steps, 12)
    interp("scales", np.clip(s["scales"].astype(np.float64), -20, 20), g["scales"].astype(np.float64), steps, 12)
    c0, c1 = s["sh0"].astype(np.float64) * ref.C0 + .5, g["sh0"].astype(np.float64) * ref.C0 + .5
    lo, hi = np.minimum.reduceat(c0, st)[ch], np.maximum.reduceat(c0, st)[ch]
    tol = (hi - lo) / 510 + 16 * EPS * (np.abs(lo) + np.abs(hi) + 1)
    bad = ~(np.abs(c1 - c0) <= tol)
    require(not bad.any(), lambda: what + f"color {np.argwhere(bad)[0].tolist()}: {c1[bad][0]!r}, was {c0[bad][0]!r}, allowed {tol[bad][0]:.3g}")
    o0, o1 = ref.sigmoid(s["opacities"]), ref.sigmoid(g["opacities"])
    bad = ~(np.abs(o0 - o1) <= .5 / 255 + 1e-5)
    require(not bad.any(), lambda: what + f"opacity [{int(np.argmax(bad))}]: {o1[bad][0]!r}, was {o0[bad][0]!r} (linear)")
    q0 = s["quats"].astype(np.float64)
    nn = np.linalg.norm(q0, axis=1)
    use = (nn > 1e-6) & (nn < 1e12)
    q0 = q0[use] / nn[use, None]
    q1 = g["quats"].astype(np.float64)[use]
    sg = np.sign((q0 * q1).sum(1))[:, None]
    d = np.abs(q0 * np.where(sg == 0, 1, sg) - q1)
    half = np.sqrt(2) / 1023 / 2
    ds = np.sort(d, axis=1)
    bad = ~((ds[:, 2] <= half * 1.02 + 2e-6) & (ds[:, 3] <= 3 * half + 5e-5)) if len(d) else np.zeros(0, bool)
    require(not bad.any(), lambda: what + f"rotation {q0[bad][0].tolist()} came back as {q1[bad][0].tolist()} ({int(bad.sum())} of {len(d)})")
    x, y = s["shN"].astype(np.float64), g["shN"].astype(np.float64)
    bad = ((x >= -4) & (x < 4)) & ~(np.abs(x - y) <= 1 / 32 + 1e-6)
    require(not bad.any(), lambda: what + f"SH {np.argwhere(bad)[0].tolist()}: {y[bad][0]!r}, was {x[bad][0]!r}")
    return g


class CHECK(Check):
    rule = ("finite scenes x size x SH degree x every encoder/decoder pair x number of generations; distinct by (size bucket, K, encoder, decoder, generations)")
    required = {"roundtrips": 400, "generations": 150, "features": 150, "other_precision": 12}
    n_quick, n_thorough = 260, 9000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, plywrite_gpu, plyread_gpu
        import gsply
        import torch
        from gsply import GSTensor
        from gsply.torch.io import plywrite_gpu, plyread_gpu

    def directed(self, tier):
        ns = [1, 2, 255, 256, 257, 512, 513, 1000]
        return [{"k": "dir", "n": ns[(i + j) % len(ns)], "K": (0, 3, 8, 15)[(i * 2 + j) % 4], "enc": e, "dec": d, "g": 1 + (i + j) % 3, "s": i * 10 + j}
                for i, e in enumerate(ENC) for j, d in enumerate(DEC)] + \
            [{"k": "dir", "n": (70001, 4099)[i % 2], "K": (0, 3)[i // 2 % 2], "enc": ENC[i % len(ENC)], "dec": DEC[i % len(DEC)], "g": 1 + i // 2 % 2, "s": 900 + i} for i in range(2 * max(len(ENC), len(DEC)))] + \
            [{"k": "dir", "n": 1_050_001 + i, "K": 0, "enc": e, "dec": d, "g": 1, "s": 990 + i} for i, (e, d) in enumerate([("file", "tload"), ("tensor", "plyread")])]

    def encode(self, e, d, ctx):
        """d: GSData or GSTensor -> compressed bytes"""
        p = ctx.path("g.compressed.ply")
        t = hasattr(d, "to_gsdata")
        if e in ("tensor", "tensor_gpu"):
            x = d if t else GSTensor.from_gsdata(d, device="cpu")
            x.save(p) if e == "tensor" else plywrite_gpu(p, x)
            return open(p, "rb").read()
        x = d.to_gsdata() if t else d
        if e == "file":
            gsply.plywrite(p, x)
        elif e == "method":
            x.save(p, compressed=True)
        elif e == "bytes":
            return bytes(gsply.compress_to_bytes(x))
        else:
            h, cb, pk, sh = gsply.compress_to_arrays(x)
            return h + cb.tobytes() + pk.tobytes() + (b"" if sh is None else sh.tobytes())
        return open(p, "rb").read()

    def decode(self, e, b, ctx):
        if e == "bytes":
            return gsply.decompress_from_bytes(b)
        if e == "from_compressed" or e == "tload" or e in ("plyread", "load"):
            p = ctx.path("h.compressed.ply")
            with open(p, "wb") as f:
                f.write(b)
            if e == "plyread":
                return gsply.plyread(p)
            if e == "load":
                return gsply.GSData.load(p)
            if e == "tload":
                return GSTensor.load(p, device="cpu")
            return GSTensor.from_compressed(p, device="cpu")

    def run(self, c, ctx):
        rng = rng_of("P05", c["s"], c["k"])
        if c["k"] == "dir":
            n, k, enc, dec, gens = c["n"], c["K"], c["enc"], c["dec"], c["g"]
        else:
            n, k = gen.pick_n(rng, .06, .01 if ctx.tier == "thorough" else 0), gen.pick_k(rng)
            enc, dec = str(rng.choice(ENC)), str(rng.choice(DEC))
            gens = int(rng.choice([1, 1, 2, 3])) if ctx.tier == "quick" else int(rng.choice([1, 2, 3, 5, 12]))
        s, fl = finite_scene(rng, n, k)
        d = gsply.GSData.from_arrays(*[s[f].copy() for f in gen.F], format="ply")
        if enc.startswith("tensor") and rng.random() < .35:       # tensors of another precision: what they hold is what is stored
            dt = str(rng.choice(["float16", "bfloat16", "float64"]))
            if dt != "float64":
                s = {f: np.clip(v, -6e4, 6e4) for f, v in s.items()}
                q = s["quats"].astype(np.float64)
                s["quats"] = (q / np.maximum(np.linalg.norm(q, axis=1, keepdims=True), 1e-30)).astype(np.float32)
            d = GSTensor(**{f: torch.from_numpy(s[f].copy()).to(getattr(torch, dt)) for f in gen.F}, _format=dict(d.format_state))
            s = {f: getattr(d, f).float().numpy().copy() for f in gen.F}
            fl += " " + dt
            ctx.count("other_precision")
        prev = None
        for g in range(gens):
            if g:
                enc, dec = str(rng.choice(ENC)), str(rng.choice(DEC))
            what = f"n={n} K={k} {fl} generation {g + 1} {enc}->{dec}: "
            d = self.decode(dec, self.encode(enc, d, ctx), ctx)
            require(len(d) == n, what + f"{len(d)} of {n} Gaussians")
            if n:
                require(d.get_sh_degree() == gen.DEG_OF_K[k], what + "SH degree changed")
                m = hold.declared_ply(d, k)
                require(not m, lambda: what + m)
            if g == 0:
                cur = compare(d, s, what)
            else:
                cur = {f: getattr(d, f) for f in gen.F}
                cur = {f: (v.detach().cpu().numpy() if hasattr(v, "detach") else v) for f, v in cur.items()}
                cur["shN"] = ref.norm_shn(cur["shN"], n)
                self.nodrift(cur, prev, what)
                ctx.count("generations")
            prev = {f: np.array(v) for f, v in cur.items()}
            ctx.count("roundtrips")
        ctx.count("values", n * (14 + 3 * k))
        ctx.feat(bucket(n), k, enc, dec, gens)
        ctx.sample({"n": n, "K": k, "flavour": fl, "encoder": enc, "decoder": dec, "generations": gens})

    @staticmethod
    def nodrift(a, b, what):
        """Recompressing decoded data reproduces it: no further loss except float rounding (and one code for rotations)."""
        n = len(a["means"])
        if not n:
            return
        st, ch = np.arange(0, n, 256), np.arange(n) // 256
        for f in ("means", "scales", "sh0"):
            x = b[f].astype(np.float64)
            lo, hi = np.minimum.reduceat(x, st)[ch], np.maximum.reduceat(x, st)[ch]
            u = 40 * EPS * (np.abs(lo) + np.abs(hi) + (4 if f == "sh0" else 0))
            # one code step is only reachable when the range is as small as the rounding of the bounds
            tol = u + np.where(hi - lo < 1e5 * u, (hi - lo) / 255, 0)
            bad = ~(np.abs(a[f].astype(np.float64) - x) <= tol)
            require(not bad.any(), lambda: what + f"{f} drifts from {x[bad][0]!r} to {a[f][bad][0]!r} (range {(hi - lo)[bad][0]!r})")
        require(np.allclose(a["opacities"], b["opacities"], atol=1e-3), what + "opacities drift")
        require(np.array_equal(a["shN"], b["shN"]), what + "SH coefficients drift")
        q0, q1 = a["quats"].astype(np.float64), b["quats"].astype(np.float64)
        sg = np.sign((q0 * q1).sum(1))[:, None]
        dd = np.abs(q0 * np.where(sg == 0, 1, sg) - q1)
        require(dd.max() <= 2.5 * np.sqrt(2) / 1023, what + f"rotation drifts by {dd.max():.3g}")
