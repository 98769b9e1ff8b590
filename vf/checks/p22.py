"""P22: the tensor codec and the array codec agree, encoder and decoder, compiled kernels on or off."""
import os
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket
from vf.checks import p04

EPS = ref.EPS
LOAD = ["plyread_gpu", "read_compressed_gpu", "load", "from_compressed", "decompress_gpu"]
SAVE = ["save", "save_compressed", "plywrite_gpu", "write_compressed_gpu", "compress_gpu"]


def before_import(mode):
    if mode == "compiled":
        os.environ["TORCHDYNAMO_DISABLE"] = "0"


class CHECK(Check):
    rule = "differential: tensor encoder against array encoder (bounds and codes) and tensor loaders against the array loader over scenes and arbitrary packed words, eager and compiled; distinct by (direction, entry, flavour, K, size bucket, mode)"
    required = {"encoded": 200, "decoded": 300, "codes_compared": 200000, "features": 250}
    n_quick, n_thorough = 600, 12000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, GSData, C, IO
        import gsply, torch
        from gsply import GSTensor, GSData
        from gsply.torch import compression as C, io as IO

    def directed(self, tier):
        for k in (0, 3, 8, 15):
            for n in (0, 1, 2, 255, 256, 257, 511, 512, 513, 1024):
                yield {"k": "enc", "K": k, "n": n, "e": SAVE[(n + k) % 5]}
                yield {"k": "dec", "K": k, "n": n, "e": LOAD[(n + k) % 5]}
        for i in range(5):
            for j, n in enumerate((70001, 4099)):
                yield {"k": "enc", "K": (0, 3)[(i + j) % 2], "n": n, "e": SAVE[i]}
                yield {"k": "dec", "K": (3, 0)[(i + j) % 2], "n": n, "e": LOAD[i]}
            yield {"k": "dec", "K": 0, "n": 300_007 + i, "e": LOAD[i]}
        for i, e in enumerate(SAVE[::2] if tier == "quick" else SAVE):
            yield {"k": "enc", "K": 0, "n": 200_003 + i, "e": e}
        for part in range(8):
            yield {"k": "sweep", "part": part}

    def finish(self, ctx, tier):
        if ctx.mode == "compiled":
            import torch._dynamo.utils as u
            ctx.count("compiled_graphs", int(u.counters["stats"].get("unique_graphs", 0)))

    # ---------------------------------------------------------------- encoder

    def encode(self, rng, c, ctx):
        n, k = c["n"], c["K"]
        u = rng.random()
        if u < .5:
            s, fl = hold.moderate(rng, n, k), "moderate"
            r = tuple(int(x) for x in rng.integers(0, 2, 3)) if rng.random() < .4 and c["e"] != "compress_gpu" else (0, 0, 0)
        else:
            s, r = p04.finite_scene(rng, n, k), (0, 0, 0)
            fl = "finite"
            if isinstance(s, tuple):
                s, fl = s[0], str(s[1])
        raw = hold.raw_of(s, *r)
        fmt = hold.formats(*r, k)
        t = hold.tensor(raw, fmt, bool(rng.random() < .2))
        state = str(rng.choice(["plain", "cons", "strided", "slice"]))
        if state == "cons" and n:
            t = t.consolidate()
        elif state == "strided":
            t = GSTensor(**{f: torch.from_numpy(np.repeat(raw[f], 2, 0))[::2] for f in gen.F}, _format=dict(fmt))
        elif state == "slice" and n:
            t = hold.tensor({f: np.concatenate([raw[f][:1], raw[f]]) for f in gen.F}, fmt)[1:]
        e = c["e"]
        what = f"{e} of {fl} scene ({state}, {ctx.mode or 'eager'}) n={n} K={k} formats {r}: "
        p = ctx.path("t.ply")
        if e == "compress_gpu":
            with torch.no_grad():
                bounds, packed, sh = C.compress_gpu(t.means, t.scales, t.quats, t.opacities, t.sh0, t.shN if t.shN is not None and k else None)
            require(isinstance(bounds, np.ndarray) and isinstance(packed, np.ndarray), lambda: what + "results are not arrays")
            if sh is None:
                require(k == 0, lambda: what + "SH data missing")
        else:
            {"save": lambda: t.save(p), "save_compressed": lambda: t.save_compressed(p), "plywrite_gpu": lambda: IO.plywrite_gpu(p, t), "write_compressed_gpu": lambda: C.write_compressed_gpu(p, t)}[e]()
            try:
                bounds, packed, sh = ref.read_packed(open(p, "rb").read())
            except ref.BadPly as x:
                fail(what + f"not a valid compressed PLY: {x}")
        q = ctx.path("a.compressed.ply")
        gsply.plywrite(q, hold.gsdata(raw, fmt))
        cb, cp, cs = ref.read_packed(open(q, "rb").read())
        self.agree_codes(what, n, k, raw, r, (bounds, packed, sh), (cb, cp, cs))
        ctx.count("encoded")
        ctx.count("codes_compared", int(np.size(packed) + (0 if sh is None else np.size(sh))))
        ctx.feat("enc", e, fl, k, bucket(n), state, r, ctx.mode)

    @staticmethod
    def agree_codes(what, n, k, raw, r, a, b):
        ab, ap, ash = a
        bb, bp, bsh = b
        require(ab.shape == bb.shape and ab.dtype == np.float32, lambda: what + f"{ab.shape} {ab.dtype} chunk bounds, array encoder {bb.shape}")
        require(ap.shape == bp.shape and ap.dtype == np.uint32, lambda: what + f"packed words {ap.shape} {ap.dtype}, array encoder {bp.shape}")
        if not n:
            return
        x, y = ab.astype(np.float64), bb.astype(np.float64)
        ch = np.arange(n) // 256
        # the conversion to log form may round differently in the two encoders
        tb = 4 * EPS * np.maximum(np.abs(x), np.abs(y))
        tb[:, 6:12] += 4e-6 * (1 + np.abs(y[:, 6:12])) if r[0] else 0
        tb[:, 12:18] += 4 * EPS
        if r[2]:
            tb[:, 12:18] += 8 * EPS * (1 + np.abs(y[:, 12:18]))
        tb[:, 0:6] = 0
        if not r[0]:
            tb[:, 6:12] = 0
        bad = ~(np.abs(x - y) <= tb) & ~(x == y)
        require(not bad.any(), lambda: what + "chunk bound {} is {!r}, array encoder {!r}".format(*(lambda i: (i, ab[i], bb[i]))(tuple(int(v) for v in np.argwhere(bad)[0]))))
        ga, gb = ref.unpack_codes(ap), ref.unpack_codes(bp)
        for nm, u, v, cols in (("position", ga[0], gb[0], slice(0, 3)), ("scale", ga[2], gb[2], slice(6, 9)), ("colour", ga[3][:, :3], gb[3][:, :3], slice(12, 15))):
            lo, hi = y[:, cols][ch], y[:, slice(cols.start + 3, cols.stop + 3)][ch]
            # ranges so small that a code step is lost in float32 rounding of the values
            with np.errstate(all="ignore"):
                slack = (8 * EPS * np.maximum(np.abs(lo), np.abs(hi)) + (4e-6 * (1 + np.abs(lo)) if r[0] and nm == "scale" else 0) + (1e-6 * (1 + np.abs(lo)) if nm == "colour" else 0)) / np.maximum(hi - lo, 1e-300) * 2047
            tiny = (hi - lo) < 1e-9
            bad = (np.abs(u - v) > 1 + np.where(np.isfinite(slack), slack, 1e9)) & ~tiny
            require(not bad.any(), lambda: what + f"{nm} code {u[bad][0]}, array encoder {v[bad][0]}; {int(bad.sum())} differ by more than a step")
        bad = np.abs(ga[3][:, 3] - gb[3][:, 3]) > 1
        require(not bad.any(), lambda: what + f"opacity code {ga[3][:, 3][bad][0]}, array encoder {gb[3][:, 3][bad][0]}")
        same = ga[1][:, 0] == gb[1][:, 0]
        d = np.abs(ga[1][:, 1:] - gb[1][:, 1:]).max(1)
        q = np.abs(raw["quats"].astype(np.float64))
        srt = np.sort(q / np.maximum(np.linalg.norm(q, axis=1, keepdims=True), 1e-300), 1)
        bad = same & (d > 1)
        # near a tie either component may be taken as the largest (and a sign may flip at zero)
        tie = srt[:, 3] - srt[:, 2] < 1e-5
        require(not bad.any() or bool(tie[bad].all()), lambda: what + f"rotation codes {ga[1][bad & ~tie][0]}, array encoder {gb[1][bad & ~tie][0]}")
        bad = ~same & ~tie
        require(not bad.any(), lambda: what + f"rotation {raw['quats'][bad][0]} coded with largest component {ga[1][bad][0, 0]}, array encoder {gb[1][bad][0, 0]}")
        if tie.any():
            da, db = (ref.decode(*z)[0]["quats"][tie] for z in ((ab, ap, None), (bb, bp, None)))
            dist = np.minimum(np.abs(da - db).max(1), np.abs(da + db).max(1))
            require(dist.max() < 6e-3, lambda: what + "rotations with equal components decode differently")
        if k:
            require(ash is not None and ash.shape == bsh.shape, lambda: what + f"SH data {None if ash is None else ash.shape}, array encoder {bsh.shape}")
            d = np.abs(ash.astype(int) - bsh.astype(int))
            require(d.max() <= 1, lambda: what + f"SH code differs by {d.max()}")
            frac = np.abs(raw["shN"].astype(np.float64) * 32 % 1)
            inner = (frac > 1e-3) & (frac < 1 - 1e-3)
            w = d.reshape(n, 3, k).transpose(0, 2, 1)
            require(not (w[inner] > 0).any(), lambda: what + "SH codes differ although the value is not near a step")
        else:
            require(ash is None or ash.size == 0, lambda: what + "SH data for degree 0")

    # ---------------------------------------------------------------- decoder

    def words(self, rng, n, k, c):
        """Arbitrary packed content."""
        ch = (n + 255) // 256
        style = str(rng.choice(["normal", "degenerate", "reversed", "wide", "huge"]))
        lo = rng.standard_normal((ch, 3, 3)) * {"wide": 1e4, "huge": 1e30}.get(style, 3)
        w = np.abs(rng.standard_normal((ch, 3, 3))) * {"wide": 1e4, "huge": 1e30}.get(style, 3)
        hi = lo + (0 if style == "degenerate" else -w if style == "reversed" else w)
        b = np.concatenate([x for i in range(3) for x in (lo[:, i], hi[:, i])], 1).astype(np.float32).reshape(ch, 18)
        p = rng.integers(0, 2**32, (n, 4), dtype=np.uint64).astype(np.uint32)
        if rng.random() < .3:
            p = rng.choice(np.array([0, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0xC0000000, 0x000000FF, 0xFF], np.uint32), (n, 4))
        sh = rng.integers(0, 256, (n, 3 * k)).astype(np.uint8) if k else None
        return b, p, sh, style

    def decode(self, rng, c, ctx):
        n, k, e = c["n"], c["K"], c["e"]
        if rng.random() < .3 and n:
            s = hold.moderate(rng, n, k)
            b, p, sh = ref.read_packed(gsply.compress_to_bytes(hold.gsdata(s, hold.formats(0, 0, 0, k))))
            style = "encoded"
        else:
            b, p, sh, style = self.words(rng, n, k, c)
        self.compare(rng, e, b, p, sh, n, k, style, ctx)

    def compare(self, rng, e, b, p, sh, n, k, style, ctx):
        path = ctx.path(str(rng.choice(["x.ply", "x.compressed.ply", "x.ply_compressed"])))
        data = ref.build_packed(b, p, sh, comments=["comment made elsewhere"] if rng.random() < .3 else ())
        with open(path, "wb") as f:
            f.write(data)
        cpu = gsply.plyread(path)
        bad = hold.unmasked(cpu)
        require(not bad, lambda: bad)
        dev = [("cpu"), "cpu:0", torch.device("cpu")][int(rng.integers(3))]
        if e == "decompress_gpu":
            x = C.decompress_gpu(b.copy(), p.copy(), None if sh is None else sh.copy(), "cpu")
            t = dict(zip(gen.F, x))
        else:
            t = {"plyread_gpu": lambda: IO.plyread_gpu(path, device=dev), "read_compressed_gpu": lambda: C.read_compressed_gpu(path, dev), "load": lambda: GSTensor.load(path, device=dev),
                 "from_compressed": lambda: GSTensor.from_compressed(path, device=dev)}[e]()
        what = f"{e} of a compressed file ({style} bounds, {ctx.mode or 'eager'}) n={n} K={k} device {dev}: "
        v = hold.values(cpu)
        _, tol = ref.decode(b, p, sh)
        # the largest component is ill-conditioned near zero
        tol = {f: 2 * np.asarray(x) + (1e-6 if f != "quats" else 0) * (np.abs(v[f].astype(np.float64)) if v[f].size else 0) for f, x in tol.items()}
        m = ref.diff_close(t, {f: v[f].astype(np.float64) for f in gen.F}, tol, "")
        require(not m, lambda: what + m.replace("reference", "array loader"))
        if not isinstance(t, dict):
            for f in gen.F:
                x = getattr(t, f)
                require(x is None or x.dtype == torch.float32, lambda: what + f"{f} is {x.dtype}")
            require(dict(t.format_state) == dict(cpu.format_state), lambda: what + f"declares {dict(t.format_state)}, array loader {dict(cpu.format_state)}")
            require(t.get_sh_degree() == cpu.get_sh_degree() and len(t) == len(cpu), lambda: what + "SH degree or length differ")
            if n and e != "load" and rng.random() < .3:      # the loaded scene can be used like any other
                y = t[::2].to_gsdata()
                z = cpu[::2]
                m = ref.diff_close(y, {f: a.astype(np.float64) for f, a in hold.values(z).items()}, {f: a[::2] if np.shape(a)[:1] == (n,) else a for f, a in tol.items()}, "every second: ")
                require(not m, lambda: what + m)
        ctx.count("decoded")
        ctx.count("codes_compared", int(p.size + (0 if sh is None else sh.size)))
        ctx.feat("dec", e, style, k, bucket(n), ctx.mode)

    def run(self, c, ctx):
        rng = rng_of("P22", c)
        if c["k"] == "sweep":          # every code of every packed field
            n = 2048
            i = np.arange(n, dtype=np.uint32)
            p = np.stack([(i << 21) | ((i & 1023) << 11) | (i[::-1]), ((i & 3) << 30) | ((i >> 2 & 1023) << 20) | ((i * 7 & 1023) << 10) | (i * 13 & 1023),
                          (i[::-1] << 21) | ((i * 5 & 1023) << 11) | i, ((i & 255) << 24) | ((i * 3 & 255) << 16) | ((i >> 3 & 255) << 8) | (i[::-1] & 255)], 1).astype(np.uint32)
            p = np.roll(p, c["part"] * 31, 0)
            b, _, sh, style = self.words(rng, n, (0, 3, 8, 15)[c["part"] % 4], c)
            return self.compare(rng, LOAD[c["part"] % 5], b, p, sh, n, (0, 3, 8, 15)[c["part"] % 4], "sweep", ctx)
        if c["k"] == "random":
            enc = rng.random() < .45
            c = {"n": gen.pick_n(rng, .05), "K": gen.pick_k(rng), "e": str(rng.choice(SAVE if enc else LOAD)), "k": "enc" if enc else "dec"}
        if c["k"] == "enc":
            self.encode(rng, c, ctx)
        else:
            self.decode(rng, c, ctx)
        ctx.sample(dict(c))
