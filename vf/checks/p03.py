"""P03: decoding of arbitrary compressed PLY content against a float64 reference."""
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, rng_of, bucket

READERS = ("plyread", "load", "read_compressed", "bytes")
SIZES = [0, 1, 2, 3, 100, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024, 1025, 2048]


def random_bounds(rng, c, style):
    if style == "mixed":
        parts = [random_bounds(rng, 1, str(rng.choice(["trained", "degenerate", "reversed", "wide", "huge", "unit"]))) for _ in range(c)]
        return np.concatenate(parts) if parts else np.zeros((0, 18), np.float32)
    b = np.empty((c, 18), np.float64)
    for lo, hi in ((0, 3), (6, 9), (12, 15)):
        w = slice(lo, lo + 3), slice(hi, hi + 3)
        if style in ("trained", "degenerate", "reversed"):
            loc = {0: 0, 6: -5, 12: .5}[lo]
            x = np.sort(loc + rng.standard_normal((2, c, 3)) * {0: 20, 6: 2, 12: .4}[lo], axis=0)
            if style == "degenerate":
                eq = rng.random((c, 3)) < .6
                x[1] = np.where(eq, x[0], x[1])
            if style == "reversed":
                x = x[::-1]
        elif style == "wide":
            x = np.sign(rng.standard_normal((2, c, 3))) * 10.0 ** rng.uniform(-30, 10, (2, c, 3))
        elif style == "huge":
            x = rng.choice([-1e37, -1e30, -3.0, 0.0, -0.0, 1e-44, 1e-38, 1.0, 1e30, 1e37], (2, c, 3))
        else:
            x = np.stack([np.zeros((c, 3)), np.ones((c, 3))])
        b[:, w[0]], b[:, w[1]] = x[0], x[1]
    return b.astype(np.float32)


class CHECK(Check):
    rule = ("files and byte strings built by an independent encoder from arbitrary packed words, SH bytes and chunk bounds; distinct by (size bucket, K, "
            "bounds style, word style, header style)")
    required = {"decodes_compared": 400, "gaussians": 50000, "position codes x": 2048, "rotation codes": 4096, "opacity codes": 256, "SH bytes": 256, "features": 100}
    n_quick, n_thorough = 330, 12000

    def setup(self, ctx, tier):
        global gsply, GSTensor, read_compressed
        import gsply
        from gsply.reader import read_compressed
        self.codes = {"x": set(), "r": set(), "o": set(), "s": set()}

    def directed(self, tier):
        out = [{"k": "sweep", "K": k, "s": s} for k in (0, 3, 8, 15) for s in range(2 if tier == "quick" else 20)]
        out += [{"k": "dir", "n": n, "K": k, "s": n * 16 + k} for n in SIZES for k in (0, 3, 8, 15)]
        out += [{"k": "dir", "n": n, "K": k, "s": n + k} for n, k in ((4099, 15), (70001, 0), (70001, 3), (131075, 8), (300_007, 0), (1_050_001, 0))]
        if tier == "thorough":
            out += [{"k": "dir", "n": n, "K": 3, "s": n} for n in list(range(0, 80)) + list(range(240, 270)) + [65535, 65536, 65537, 131072, 300001]]
        return out

    def run(self, c, ctx):
        rng = rng_of("P03", c["s"], c["k"])
        comments, eol, hs = [], "\n", "plain"
        if c["k"] == "sweep":
            k, n = c["K"], 4096
            i = np.arange(n, dtype=np.uint64)
            perm = lambda m: (rng.permutation(n).astype(np.uint64) % m)
            w = np.empty((n, 4), np.uint32)
            w[:, 0] = (perm(2048) << 21 | perm(1024) << 11 | perm(2048)).astype(np.uint32)
            w[:, 1] = (perm(4) << 30 | perm(1024) << 20 | perm(1024) << 10 | perm(1024)).astype(np.uint32)
            w[:, 2] = (perm(2048) << 21 | perm(1024) << 11 | perm(2048)).astype(np.uint32)
            w[:, 3] = (perm(256) << 24 | perm(256) << 16 | perm(256) << 8 | i % 256).astype(np.uint32)
            # every value of every quaternion component for every choice of the largest one
            w[:, 1] = ((i % 4) << 30).astype(np.uint32)
            for sh, j in ((20, 0), (10, 1), (0, 2)):
                v = (rng.permutation(1024)[i // 4]).astype(np.uint32)
                w[:, 1] |= v << np.uint32(sh)
            style, ws = "mixed", "sweep"
            sh = (np.arange(n * 3 * k) % 256).astype("u1").reshape(n, 3 * k) if k else None
        else:
            if c["k"] == "dir":
                n, k = c["n"], c["K"]
            else:
                n, k = (int(rng.choice(SIZES)) if rng.random() < .6 else int(rng.integers(0, 3000))), gen.pick_k(rng)
                if ctx.tier == "thorough" and rng.random() < .01:
                    n = int(rng.integers(60000, 200000))
            ws = str(rng.choice(["random", "random", "extreme", "quat_valid"]))
            w = rng.integers(0, 2**32, (n, 4), dtype=np.uint64).astype(np.uint32)
            if ws == "extreme":
                w = rng.choice(np.array([0, 2**32 - 1, 0x80000000, 0x7FFFFFFF, 0xFFE00000, 0x001FF800, 0x7FF, 0xFF, 0xFFFFFF00, 0x3FFFFFFF, 0xC0000000,
                                         0x20080200, 0xE0080200], np.uint64), (n, 4)).astype(np.uint32)
            elif ws == "quat_valid":
                w[:, 1] = (w[:, 1] & 0xC0000000) | (rng.integers(300, 724, n).astype(np.uint32) << np.uint32(20)) | \
                    (rng.integers(300, 724, n).astype(np.uint32) << np.uint32(10)) | rng.integers(300, 724, n).astype(np.uint32)
            style = str(rng.choice(["trained", "degenerate", "reversed", "wide", "huge", "unit", "mixed"]))
            sh = rng.integers(0, 256, (n, 3 * k)).astype("u1") if k else None
            hs = str(rng.choice(["plain", "plain", "comments", "long", "obj_info", "marker"]))
            if hs == "comments":
                comments = [f"comment {'x' * int(rng.integers(0, 120))}" for _ in range(int(rng.integers(1, 8)))]
            elif hs == "long":
                comments = ["comment " + "pad " * int(rng.integers(1, 60)) for _ in range(int(rng.choice([60, 120, 200, 400])))]
            elif hs == "obj_info":
                comments = ["obj_info a 1"]
            elif hs == "marker":
                comments = ["comment end_header", "comment element vertex 7", "comment element chunk 9"]
        ck = (n + 255) // 256
        bounds = random_bounds(rng, ck, style)
        b = ref.build_packed(bounds, w, sh, comments=comments, eol=eol)
        want, tol = ref.decode(bounds, w, sh)
        # the span max-min must be representable
        p = ctx.path("x.ply" if rng.random() < .5 else "x.compressed.ply")
        with open(p, "wb") as f:
            f.write(b)
        first = None
        for rd in READERS:
            if rd == "plyread":
                d = gsply.plyread(p)
            elif rd == "load":
                d = gsply.GSData.load(p)
            elif rd == "read_compressed":
                d = read_compressed(p)
                require(d is not None, f"read_compressed returned None for a valid file n={n} K={k}")
            else:
                d = gsply.decompress_from_bytes(b)
            what = f"n={n} K={k} bounds={style} words={ws} header={hs} {rd}: "
            for fl in gen.F:
                a = getattr(d, fl)
                if a is not None:
                    require(a.dtype == np.float32, what + f"{fl} has dtype {a.dtype}")
            m = ref.diff_close(d, want, tol, what)
            require(not m, m)
            require(np.isfinite(d.opacities).all() and np.isfinite(ref.norm_shn(d.shN, n)).all() and np.isfinite(d.means).all(), what + "non-finite values")
            if n:
                qn = np.linalg.norm(d.quats.astype(np.float64), axis=1)
                abc2 = ((((w[:, 1:2] >> np.array([20, 10, 0], np.uint32)) & 1023) / 1023.0 - .5) ** 2).sum(1) * 2
                require(np.all(np.abs(qn - np.maximum(1, np.sqrt(abc2))) < 2e-3), what + "quaternion norm")
                require(d.get_sh_degree() == gen.DEG_OF_K[k], what + f"SH degree {d.get_sh_degree()}")
                m = hold.declared_ply(d, k)
                require(not m, lambda: what + m)
            require(len(d) == n, what + "length")
            snap = {f: ref.norm_shn(getattr(d, f), n).copy() if f == "shN" else np.array(getattr(d, f)) for f in gen.F}
            if first is None:
                first = snap
            else:
                m = ref.diff_scene(snap, first, what + "differs from the first reader: ")
                require(not m, m)
            ctx.count("decodes_compared")
            ctx.count("gaussians", n)
        if c["k"] == "sweep" and n:
            pos, rot, sca, col = ref.unpack_codes(w)
            self.codes["x"] |= set(pos[:, 0].tolist())
            self.codes["r"] |= set((rot[:, 0] * 1024 + rot[:, 1]).tolist())
            self.codes["o"] |= set(col[:, 3].tolist())
            if sh is not None:
                self.codes["s"] |= set(np.unique(sh).tolist())
        ctx.feat(bucket(n), k, style, ws, hs)
        ctx.sample({"n": n, "K": k, "bounds": style, "words": ws, "header": hs})

    def finish(self, ctx, tier):
        for nm, kk in (("position codes x", "x"), ("rotation codes", "r"), ("opacity codes", "o"), ("SH bytes", "s")):
            ctx.count(nm, len(self.codes[kk]))
