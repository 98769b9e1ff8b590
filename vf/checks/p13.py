"""P13: SH/RGB conversion against the float64 formula."""
import numpy as np
from vf import gen, hold, num, ref
from vf.core import Check, require, rng_of, bucket

EPS = ref.EPS


def near(got, w, mag, dtype, what):
    e = EPS if dtype == np.float32 else 2.0 ** -53
    big = np.abs(w) > 3e38
    with np.errstate(invalid="ignore", over="ignore"):
        ok = np.abs(np.asarray(got, np.float64) - w) <= 6 * e * mag + 2e-45
    ok |= big
    if not np.all(ok):
        g = np.asarray(got)
        i = np.argwhere(~np.asarray(ok).reshape(g.shape))[0] if g.ndim else ()
        require(False, what + f"value at {list(map(int, i))} is {g[tuple(i)]!r}, expected {np.asarray(w)[tuple(i)]!r}")


class CHECK(Check):
    rule = "value styles x shape x layout x dtype x scalar/array x function/container x conversion sequence; distinct by (style, kind, shape rank, dtype, layout, sequence)"
    required = {"function_calls": 300, "container_steps": 400, "features": 120}
    n_quick, n_thorough = 600, 20000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, D
        import gsply
        import torch
        from gsply import GSTensor
        from gsply.gsdata import DataFormat as D

    def directed(self, tier):
        yield from gen.big(tier, 8)

    def run(self, c, ctx):
        rng = rng_of("P13", c)
        if "n" in c:
            for _ in range(4):
                self.containers(rng, ctx, c["n"], c["K"])
            return self.functions(rng, ctx, c["n"])
        (self.functions if rng.random() < .45 else self.containers)(rng, ctx)

    def functions(self, rng, ctx, n=None):
        n = int(rng.choice([0, 1, 2, 3, 12, 300, 5000])) if n is None else n
        dt = np.float32 if rng.random() < .6 else np.float64
        v, st = num.floats(rng, int(np.prod(num.shape_of(rng, n))), dtype=dt)
        x = v
        for _ in range(3):
            shp = num.shape_of(rng, v.size)
            if int(np.prod(shp)) == v.size:
                x = v.reshape(shp)
                break
        x = np.clip(x, -1e37, 1e37).astype(dt)
        x, lay = gen.relayout(rng, x)
        kind = "array"
        if v.size and rng.random() < .3:
            kind = str(rng.choice(["float", "npscalar", "0d"]))
            f = np.asarray(x).ravel()[0]
            x = float(f) if kind == "float" else (np.asarray(f) if kind == "0d" else f)
        elif rng.random() < .1:
            kind, x = "int", np.asarray(rng.integers(-5, 300, 7))
        keep = np.array(x, copy=True)
        for fn, name in ((gsply.sh2rgb, "sh2rgb"), (gsply.rgb2sh, "rgb2sh")):
            with np.errstate(over="ignore"):
                r = fn(x)
            x64 = np.asarray(keep, np.float64)
            with np.errstate(over="ignore"):
                w = x64 * ref.C0 + .5 if name == "sh2rgb" else (x64 - .5) / ref.C0
            what = f"{name}({kind} {getattr(x, 'dtype', '')} {np.shape(x)} {lay} {st}): "
            require(np.shape(r) == np.shape(x), what + f"shape {np.shape(r)}")
            if kind == "array":
                require(r.dtype == x.dtype, what + f"dtype {r.dtype}")
            near(r, w, np.abs(w) + .5 / (ref.C0 if name == "rgb2sh" else 1), np.float64 if kind in ("float", "int") or getattr(x, "dtype", None) == np.float64 else np.float32, what)
            require(np.array_equal(np.asarray(x), keep) or np.asarray(x).tobytes() == keep.tobytes(), what + "the input changed")
            with np.errstate(over="ignore"):
                b = (gsply.rgb2sh if name == "sh2rgb" else gsply.sh2rgb)(r)
            near(b, x64, np.abs(x64) + .5 / ref.C0, np.float64 if kind in ("float", "int") or getattr(x, "dtype", None) == np.float64 else np.float32, what + "there and back: ")
            ctx.count("function_calls")
        ctx.feat(st, kind, np.ndim(x), str(getattr(x, "dtype", "py")), lay)

    def containers(self, rng, ctx, n=None, k=None):
        n, k = (gen.pick_n(rng, .04), gen.pick_k(rng)) if n is None else (n, k)
        s = gen.scene(rng, n, k, "normal")
        v, st = num.floats(rng, 3 * n)
        s["sh0"] = np.clip(v, -1e37, 1e37).reshape(n, 3)
        rgb = int(rng.integers(2))
        tensor = rng.random() < .4
        fmt = hold.formats(int(rng.integers(2)), int(rng.integers(2)), rgb, k)
        state = str(rng.choice(["plain", "layout", "consolidated", "slice", "loaded", "masked"]))
        d = hold.tensor(s, fmt) if tensor else hold.gsdata(s, fmt, "mixed" if state == "layout" else None, rng)
        if state == "consolidated" and n:
            d = d.consolidate()
        elif state == "slice" and n > 1:
            d = d[::2] if rng.random() < .5 else d[: n // 2]
        elif state == "masked" and n:
            m = rng.random(n) < .5
            d.add_mask_layer("a", torch.from_numpy(m) if tensor else m)
        seq = []
        for _ in range(int(rng.integers(1, 5))):
            before = hold.snapshot(d)
            to = "rgb" if before["fmt"]["sh0"] == D.SH0_SH else "sh"
            inplace = bool(rng.random() < .5)
            r = (d.to_rgb if to == "rgb" else d.to_sh)(inplace=inplace)
            seq.append(to + ("!" if inplace else ""))
            what = f"{'tensor' if tensor else 'array'} n={len(d)} K={k} {state} {st} {seq}: "
            require((r is d) == inplace, what + "in-place operation returned another object (or the reverse)")
            after = hold.snapshot(r)
            if not inplace:
                m = hold.same_snapshot(hold.snapshot(d), before)
                require(not m, lambda: what + "the source changed: " + m)
            x = before["v"]["sh0"].astype(np.float64)
            w = x * ref.C0 + .5 if to == "rgb" else (x - .5) / ref.C0
            require(after["v"]["sh0"].dtype == np.float32 and after["v"]["sh0"].shape == x.shape, what + f"sh0 is {after['v']['sh0'].dtype}{after['v']['sh0'].shape}")
            near(after["v"]["sh0"], w, np.abs(w) + .5 / (ref.C0 if to == "sh" else 1), np.float32, what)
            exp = dict(before, fmt=dict(before["fmt"], sh0=D.SH0_RGB if to == "rgb" else D.SH0_SH), v=dict(before["v"], sh0=after["v"]["sh0"]))
            m = hold.same_snapshot(after, exp)
            require(not m, lambda: what + "something besides the colour changed: " + m)
            back = (r.to_sh if to == "rgb" else r.to_rgb)(inplace=False)
            near(hold.values(back)["sh0"], x, np.abs(x) + .5 / ref.C0, np.float32, what + "there and back: ")
            d = r
            ctx.count("container_steps")
        ctx.feat(st, tensor, state, rgb, len(seq), bucket(n))
        ctx.sample({"container": "tensor" if tensor else "array", "n": n, "state": state, "sequence": seq, "values": st})
