"""P23: SOG scenes decode to what metadata and textures define, from any container, and are usable like any other scene."""
import os
from pathlib import Path
import numpy as np
from vf import gen, hold, ref, sog
from vf.core import Check, require, fail, rng_of, bucket

KINDS = ["bytes", "bundle", "folder", "bundle-path", "folder-path", "deflated", "upper"]


class CHECK(Check):
    rule = "oracle: float64 SOG decoder over generated metadata and real lossless WebP textures; distinct by (version, bands, container, count bucket, style, palette bucket)"
    required = {"decoded": 250, "values": 1000000, "containers": 250, "features": 150}
    n_quick, n_thorough = 260, 6000

    def setup(self, ctx, tier):
        global gsply, plt
        import gsply

    def directed(self, tier):
        for v in (2, 3):
            for b in (0, 1, 2, 3):
                for n in (0, 1, 2, 63, 64, 65, 1000):
                    yield {"k": "dir", "v": v, "b": b, "n": n, "kind": KINDS[(n + b) % 7], "style": "random" if n % 2 else "extreme"}
        for i in range(8):
            yield {"k": "quats", "part": i}
        for v in (2, 3):
            for b in range(4):
                yield {"k": "codes", "v": v, "b": b}
            for pal in (16400, 65536):
                yield {"k": "dir", "v": v, "b": 1 + (pal == 16400), "n": 3000, "kind": "bytes", "style": "random", "pal": pal}
            for n, b in ((70001, 1), (70001, 3), (300_007, 0)):
                yield {"k": "dir", "v": v, "b": b, "n": n, "kind": "bytes", "style": "random"}

    def load(self, rng, kind, m, T, ctx):
        e = sog.files(m, T, rng, rename=bool(rng.random() < .2))
        if rng.random() < .2:
            e["unrelated.txt"] = b"x"
        d = os.path.dirname(ctx.path())
        if kind in ("folder", "folder-path"):
            p = sog.folder(e, os.path.join(d, "scene.v1"))
            return gsply.sogread(Path(p) if kind == "folder-path" else p), e
        b = sog.bundle(e, rng, kind == "deflated" or rng.random() < .3)
        if kind == "bytes":
            return gsply.sogread(b), e
        p = os.path.join(d, "Scene.SOG" if kind == "upper" else "scene.sog")
        with open(p, "wb") as f:
            f.write(b)
        return gsply.sogread(Path(p) if kind == "bundle-path" else p), e

    def judge(self, s, m, T, what, ctx):
        want, tol = sog.decode(m, T)
        n = want["means"].shape[0]
        require(len(s) == n, lambda: what + f"{len(s)} Gaussians, metadata says {n}")
        for f in gen.F:
            a = getattr(s, f)
            require(f == "shN" and a is None or a.dtype == np.float32, lambda: what + f"{f} is {a.dtype}")
        bad = ref.diff_close(s, want, tol, "")
        require(not bad, lambda: what + bad)
        bad = hold.unmasked(s)
        require(not bad, lambda: what + bad)
        fmt = gsply.create_ply_format({0: 0, 3: 1, 8: 2, 15: 3}[want["shN"].shape[1]])
        have = dict(s.format_state)
        require(all(have.get(k) == v for k, v in fmt.items()), lambda: what + f"declares {have}, values are {fmt}")
        require(s.get_sh_degree() == {0: 0, 3: 1, 8: 2, 15: 3}[want["shN"].shape[1]], lambda: what + f"SH degree {s.get_sh_degree()}")
        ctx.count("decoded")
        ctx.count("values", sum(v.size for v in want.values()))
        return want

    def run(self, c, ctx):
        rng = rng_of("P23", c)
        if c["k"] == "quats":              # every byte of every quaternion channel
            n = 4096
            m, T = sog.scene(rng, n, 0, 2 + c["part"] % 2)
            q = T["quats.webp"] = np.zeros((64, 64, 4), np.uint8)
            i = np.arange(n)
            f = q.reshape(-1, 4)
            f[:, 0], f[:, 1], f[:, 2] = (i + 31 * c["part"]) % 256, (i // 16 * 7) % 256, (i * 13 + c["part"]) % 256
            f[:, 3] = (i + c["part"]) % 256 if c["part"] < 4 else 252 + i % 4
            if c["part"] in (3, 5):
                f[:, :3] = rng.choice(np.array([0, 255, 127, 128], np.uint8), (n, 3))
            kind, k = "bytes", 0
            v, b, st = 2 + c["part"] % 2, 0, "quats"
        elif c["k"] == "codes":            # every code of every channel
            v, b, st, n, kind = c["v"], c["b"], "codes", 65536, "bytes"
            m, T = sog.scene(rng, n, b, v)
            for x in ("means_l.webp", "means_u.webp", "scales.webp", "sh0.webp"):
                T[x] = np.zeros((256, 256, 4), np.uint8)
            i = np.arange(n)
            lo, hi, sc, c0 = (T[x].reshape(-1, 4) for x in ("means_l.webp", "means_u.webp", "scales.webp", "sh0.webp"))
            for d in range(3):
                j = (i * (1, 3, 7)[d] + 11 * d) % 65536
                if m["means"]["mins"][d] != m["means"]["maxs"][d]:
                    lo[:, d], hi[:, d] = j & 255, j >> 8
                sc[:, d] = (i >> d) & 255
            for d in range(4):
                c0[:, d] = (i * (1, 3, 5, 7)[d] >> d) & 255
        else:
            if c["k"] == "dir":
                v, b, n, kind, st = c["v"], c["b"], c["n"], c["kind"], c["style"]
            else:
                v, b = int(rng.choice([2, 3])), int(rng.integers(0, 4))
                n = gen.pick_n(rng, .06)
                kind, st = str(rng.choice(KINDS)), str(rng.choice(["random", "extreme"]))
            m, T = sog.scene(rng, n, b, v, st, c.get("pal"))
        what = f"sogread({kind}) of a version {v} scene, n={n}, bands={b}, {st}: "
        s, e = self.load(rng, kind, m, T, ctx)
        want = self.judge(s, m, T, what, ctx)
        pal = m.get("shN", {}).get("count", 64)
        ctx.feat(v, b, kind, bucket(n), st, bucket(pal))
        # the same content from another container
        k2 = str(rng.choice([x for x in KINDS if x != kind]))
        s2, _ = self.load(rng, k2, m, T, ctx)
        for f in gen.F:
            a, b2 = ref.norm_shn(getattr(s, f), n) if f == "shN" else getattr(s, f), ref.norm_shn(getattr(s2, f), n) if f == "shN" else getattr(s2, f)
            require(np.array_equal(a, b2, equal_nan=True), lambda: what + f"{f} differs when read from {k2}")
        require(dict(s.format_state) == dict(s2.format_state), lambda: what + "declared format differs between containers")
        ctx.count("containers")
        # usable like any other scene
        k = want["shN"].shape[1]
        p = ctx.path("out.ply")
        gsply.plywrite(p, s2)
        x = gsply.plyread(p)
        for f in gen.F:
            a, b2 = (ref.norm_shn(getattr(y, f), n) if f == "shN" else getattr(y, f) for y in (s, x))
            require(np.array_equal(a, b2, equal_nan=True), lambda: what + f"{f} changed by saving and loading")
        if n:
            i = rng.integers(0, n, min(n, 9))
            y = s[i]
            bad = ref.diff_close(y, {f: ref.norm_shn(getattr(s, f), n)[i].astype(np.float64) if f == "shN" else getattr(s, f)[i].astype(np.float64) for f in gen.F}, {f: 0 for f in gen.F}, "")
            require(not bad, lambda: what + "indexing: " + bad)
            z = gsply.GSData.concatenate([s, x])
            require(len(z) == 2 * n and np.array_equal(z.means[n:], s.means), lambda: what + "combining with a loaded scene")
            require(np.array_equal(ref.norm_shn(z.shN, 2 * n)[:n], ref.norm_shn(s.shN, n)), lambda: what + "combining with a loaded scene: shN")
            q = ctx.path("out.compressed.ply")
            gsply.plywrite(q, s)
            require(len(gsply.plyread(q)) == n, lambda: what + "compressed save")
            L = gsply.plyread(p)
            s2.denormalize(inplace=True), L.denormalize(inplace=True)
            for f in gen.F:
                a, b2 = (ref.norm_shn(getattr(o, f), n) if f == "shN" else getattr(o, f) for o in (s2, L))
                require(np.array_equal(a, b2, equal_nan=True), lambda: what + f"{f} differs after a conversion from the same scene loaded from PLY")
            ctx.count("used_as_scene")
        ctx.sample(dict(c, n=n, kind=kind))
