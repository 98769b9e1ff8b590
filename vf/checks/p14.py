"""P14: logit and sigmoid against float64 references."""
import numpy as np
from vf import gen, num, ref
from vf.core import Check, require, rng_of, bucket


def relerr_ok(got, w, rel, absol):
    return np.abs(np.asarray(got, np.float64) - w) <= rel * np.abs(w) + absol


class CHECK(Check):
    rule = "value styles x shape x layout x dtype (float32, float64, integers, bool, Python scalars) x eps; distinct by (function, style, kind, dtype, layout, rank)"
    required = {"calls": 800, "values": 300000, "inverse_checked": 200, "features": 150}
    n_quick, n_thorough = 900, 30000

    def setup(self, ctx, tier):
        global gsply
        import gsply

    def directed(self, tier):
        out = [{"k": "grid", "f": f, "part": i} for f in ("sigmoid", "logit") for i in range(4 if tier == "quick" else 64)]
        return out

    def run(self, c, ctx):
        rng = rng_of("P14", c)
        if c["k"] == "grid":
            # dense coverage of the interesting interval
            if c["f"] == "sigmoid":
                x = np.linspace(-110 + 55 * (c["part"] % 4), -55 + 55 * (c["part"] % 4), 100001).astype(np.float32 if c["part"] % 2 else np.float64)
                x = x + x.dtype.type(rng.random() * 1e-3)
            else:
                x = np.clip(np.linspace(-.01, 1.01, 100001) + rng.random() * 1e-5, -1, 2).astype(np.float32 if c["part"] % 2 else np.float64)
            lay, kind, st, fn = "C", "array", "grid", c["f"]
        else:
            fn = str(rng.choice(["sigmoid", "logit"]))
            n = int(rng.choice([0, 1, 2, 3, 12, 300, 5000, 40000, 300007], p=[.08, .1, .1, .1, .2, .2, .2, .015, .005]))
            dt = np.float32 if rng.random() < .6 else np.float64
            v, st = num.floats(rng, n, dtype=dt)
            if fn == "logit" and rng.random() < .7:
                v, st = np.clip(rng.random(n) * 1.2 - .1, 0, 1).astype(dt), "unit"
                if rng.random() < .3:
                    v, st = (10.0 ** rng.uniform(-12, 0, n)).astype(dt), "small"
            if dt == np.float64 and rng.random() < .2 and fn == "sigmoid":
                v, st = rng.uniform(-800, 800, n), "wide64"
            x = v
            for _ in range(3):
                shp = num.shape_of(rng, v.size)
                if int(np.prod(shp)) == v.size:
                    x = v.reshape(shp)
                    break
            x, lay = gen.relayout(rng, x)
            kind = "array"
            u = rng.random()
            if v.size and u < .2:
                kind = str(rng.choice(["float", "npscalar", "0d", "int", "npint"]))
                f = v.flat[0]
                x = {"float": float(f), "0d": np.asarray(f), "npscalar": f, "int": int(rng.integers(-3, 4)), "npint": np.int32(rng.integers(-3, 4))}[kind]
            elif u < .35:
                kind = str(rng.choice(["int32", "int64", "uint8", "bool", "int8", "list"]))
                x = rng.integers(0, 2, 9) if kind in ("bool", "uint8") else rng.integers(-40, 41, 9)
                x = x.astype(kind).reshape(3, 3) if kind != "list" else (x / 8).tolist()
        keep = np.array(x, copy=True)
        x64 = keep.astype(np.float64)
        f32 = getattr(keep, "dtype", None) == np.float32 and kind == "array"
        kw = {}
        if fn == "logit":
            eps = 1e-6
            if rng.random() < .4:
                eps = float(rng.choice([1e-12, 1e-9, 1e-7, 1e-4, 1e-3, .01, .2, .49]))
                kw = {"eps": eps}
        what = f"{fn}({kind} {keep.dtype} {keep.shape} {lay} {st} {kw}): "
        r = getattr(gsply, fn)(x, **kw)
        require(np.shape(r) == keep.shape, what + f"shape {np.shape(r)}")
        if kind == "array":
            require(r.dtype == keep.dtype, what + f"dtype {r.dtype}")
        if kind not in ("float", "int"):
            require(np.asarray(x).tobytes() == keep.tobytes(), what + "the input changed")
        g = np.asarray(r, np.float64)
        require(np.isfinite(g).all(), lambda: what + f"{x64[~np.isfinite(g)][0]!r} -> {g[~np.isfinite(g)][0]!r}")

        def bad(ok, w):
            i = tuple(np.argwhere(~ok)[0]) if np.ndim(ok) else ()
            require(False, what + f"{fn}({x64[i]!r}) = {g[i]!r}, expected {w[i]!r} ({int((~np.asarray(ok)).sum())} wrong)")
        if fn == "sigmoid":
            w = ref.sigmoid(x64)
            ok = relerr_ok(g, w, 4e-7 if f32 else 1e-13, 2e-38 if f32 else 1e-300) & (g >= 0) & (g <= 1)
            if not np.all(ok):
                bad(ok, w)
            m = (np.abs(x64) < 12)
            b = np.asarray(gsply.logit(r, eps=1e-9), np.float64)
            p = w
            with np.errstate(divide="ignore"):
                tol = 2e-6 * (1 + np.abs(x64)) + (4 * ref.EPS if f32 else 1e-15) / np.maximum(p * (1 - p), 1e-30)
            ok = (np.abs(b - x64) <= tol) | ~m
            require(np.all(ok), lambda: what + f"logit(sigmoid(x)) = {b[~ok].ravel()[0]!r} for x = {x64[~ok].ravel()[0]!r}")
        else:
            p = np.clip(x64, eps, 1 - eps)
            w = np.log(p / (1 - p))
            ok = np.abs(g - w) <= ((1e-6 if f32 else 1e-12) * (1 + np.abs(w)) + (4 * ref.EPS if f32 else 4e-16) / (p * (1 - p)))
            if not np.all(ok):
                bad(ok, w)
            lim = np.log((1 - eps) / eps)
            require(np.all(np.abs(g) <= lim * (1 + 1e-6) + (4 * ref.EPS / eps if f32 else 1e-6)), what + "outside the clamp")
            b = np.asarray(gsply.sigmoid(r), np.float64)
            ok = np.abs(b - p) <= (2e-6 if f32 else 1e-9)
            require(np.all(ok), lambda: what + f"sigmoid(logit(p)) = {b[~ok].ravel()[0]!r} for p = {p[~ok].ravel()[0]!r}")
        if g.size > 1:
            o = np.argsort(x64.ravel(), kind="stable")
            y = g.ravel()[o]
            slack = (3e-7 if f32 else 1e-12) * np.maximum(np.abs(y[1:]), np.abs(y[:-1])) + (1e-6 if fn == "logit" and f32 else 1e-12 if fn == "logit" else 0)
            require(np.all(y[1:] >= y[:-1] - slack), what + "not monotone")
        ctx.count("inverse_checked")
        ctx.count("calls")
        ctx.count("values", g.size)
        ctx.feat(fn, st, kind, str(keep.dtype), lay, keep.ndim)
        ctx.sample({"function": fn, "kind": kind, "dtype": str(keep.dtype), "shape": list(keep.shape), "layout": lay, "values": st, "kw": kw})
