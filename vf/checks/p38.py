"""P38: tensor scenes of any floating precision: operations keep the precision and are exact up to it."""
import numpy as np
from vf import engine as E, gen, hold, ref
from vf.core import Check, require, fail, rng_of, bucket

DT = ["float16", "bfloat16", "float64", "float32"]
MOVE = ["slice", "index", "mask", "one", "add", "radd", "consolidate", "clone", "get_gaussian", "with_format", "layer", "apply", "rebuild", "dict", "to_same"]
CONV = ["rgb", "sh", "denormalize", "normalize", "cast"]
OUT = ["to_gsdata", "save", "from_gsdata"]


class Model:
    """Values in float64, whatever the precision of the scene."""

    def __init__(self, v, fmt, dt, layers=None):
        self.v, self.fmt, self.dt, self.layers = v, dict(fmt), dt, dict(layers or {})

    def take(self, i):
        return Model({f: a[i] for f, a in self.v.items()}, self.fmt, self.dt, {x: c[i] for x, c in self.layers.items()})

    def copy(self):
        return self.take(slice(None))


class CHECK(Check):
    rule = "random chains of tensor operations in float16, bfloat16, float64 and float32 against a float64 model; every field's dtype and value after each step; distinct by (dtype, operation before, operation, SH degree, backing buffer)"
    required = {"steps": 4000, "conversions": 700, "outputs": 250, "features": 500}
    n_quick, n_thorough = 420, 16000

    def setup(self, ctx, tier):
        global gsply, torch, GSData, GSTensor, EPSD, D
        import gsply, torch
        from gsply import GSData, GSTensor
        from gsply.gsdata import DataFormat as D
        EPSD = {"float16": 2.0 ** -11, "bfloat16": 2.0 ** -8, "float32": 2.0 ** -24, "float64": 2.0 ** -53}

    def directed(self, tier):
        for dt in DT:
            for k in (0, 3, 8, 15):
                for first in MOVE + CONV + OUT:
                    yield {"k": "d", "dt": dt, "K": k, "first": first}
            yield {"k": "d", "dt": dt, "K": 3, "first": "consolidate", "n": 70001}
        for i, op in enumerate(MOVE + CONV + OUT):
            yield {"k": "d", "dt": DT[i % len(DT)], "K": (3, 0)[i // 2 % 2], "first": op, "n": (70001, 4099, 140_003)[i % 3]}

    def same(self, t, m, what, tol=None):
        dt = getattr(torch, m.dt)
        n = len(m.v["means"])
        require(len(t) == n, lambda: what + f"{len(t)} Gaussians, expected {n}")
        require(t.dtype == dt, lambda: what + f"dtype is {t.dtype}, expected {m.dt}")
        for f in gen.F:
            x = getattr(t, f)
            w = m.v[f]
            if f == "shN" and x is None:
                require(w.shape[1] == 0, lambda: what + "shN is gone")
                continue
            require(x.dtype == dt, lambda: what + f"{f} is {x.dtype}, expected {m.dt}")
            g = x.detach().double().numpy()
            require(g.shape == w.shape, lambda: what + f"{f} has shape {g.shape}, expected {w.shape}")
            if tol and f in tol:
                bad = ~(np.abs(g - w) <= tol[f]) & ~(g == w)
            else:
                bad = ~(g == w) & ~(np.isnan(g) & np.isnan(w))
            require(not bad.any(), lambda: what + f"{f}: {g[bad][0]!r}, expected {w[bad][0]!r}; {int(bad.sum())} of {bad.size}")
        b = t._base
        require(b is None or b.dtype == dt, lambda: what + f"the backing buffer is {b.dtype}")
        for a, o in (("scales", "SCALES"), ("opacities", "OPACITIES")):
            require(getattr(t, f"is_{a}_linear") == m.fmt[a], lambda: what + f"{a} declared {t.format_state}")
        require(t.is_sh0_rgb == m.fmt["sh0"], lambda: what + f"colours declared {t.format_state}")
        require(list(t.mask_names or []) == list(m.layers), lambda: what + f"layers {t.mask_names}, expected {list(m.layers)}")
        for x, c in m.layers.items():
            require(np.array_equal(t.get_mask_layer(x).numpy(), c), lambda: what + f"layer {x} changed")

    def new(self, rng, n, k, dt):
        s = hold.moderate(rng, n, k)
        fmt = {"scales": bool(rng.random() < .4), "opacities": bool(rng.random() < .4), "sh0": bool(rng.random() < .4)}
        raw = hold.raw_of(s, *fmt.values())
        if rng.random() < .3:
            raw["means"] = (raw["means"].astype(np.float64) * np.exp(rng.normal(0, 3, n))[:, None]).clip(-6e4, 6e4)
        v = {f: torch.from_numpy(np.array(raw[f], np.float64)).to(getattr(torch, dt)) for f in gen.F}
        how = str(rng.choice(["init", "arrays", "cast"]))
        F = hold.formats(*fmt.values(), k)
        if how == "cast":
            src = hold.tensor({f: a.float().numpy() for f, a in v.items()}, F)
            if rng.random() < .5 and n:
                src = src.consolidate()
            if dt == "float64":
                v = {f: a.float().double() for f, a in v.items()}
            t = src.to_dtype(getattr(torch, dt)) if rng.random() < .5 else src.to(dtype=getattr(torch, dt))
        elif how == "arrays":
            t = GSTensor.from_arrays(*[v[f].clone() for f in gen.F], format="ply", device="cpu").with_format(**F)
        else:
            t = GSTensor(**{f: v[f].clone() for f in gen.F}, _format=dict(F))
        return t, Model({f: a.double().numpy() for f, a in v.items()}, fmt, dt), how

    def run(self, c, ctx):
        rng = rng_of("P38", c)
        dt = c.get("dt") or str(rng.choice(DT, p=[.35, .3, .25, .1]))
        k = c["K"] if "K" in c else gen.pick_k(rng)
        n = c.get("n", int(rng.choice([1, 2, 5, 33, 300], p=[.1, .1, .3, .3, .2])))
        t, m, how = self.new(rng, n, k, dt)
        hist = [how]
        self.same(t, m, f"{dt} tensor scene ({how}), n={n} K={k}: ")
        for i in range(int(rng.integers(5, 12))):
            op = c["first"] if i == 0 and "first" in c else str(rng.choice(MOVE + CONV + CONV + OUT))
            what = f"{m.dt} tensor scene, n={len(m.v['means'])} K={k}, after {hist[-5:]} {op}: "
            r = self.step(rng, op, t, m, what, ctx)
            if r is None:
                continue
            t2, m2, tol = r
            self.same(t2, m2, what, tol)
            if tol:
                ctx.count("conversions")
                m2 = Model({f: (np.zeros((len(t2), 0, 3)) if getattr(t2, f) is None else getattr(t2, f).detach().double().numpy().copy()) for f in gen.F}, m2.fmt, m2.dt, m2.layers)
            ctx.count("steps")
            ctx.feat(m.dt, hist[-1], op, k, t2._base is not None)
            hist.append(op)
            if 0 < len(t2) < 2000 or len(t2) and n > 2000:
                t, m = t2, m2
        ctx.sample({"dtype": dt, "n": n, "K": k, "history": hist})

    def step(self, rng, op, t, m, what, ctx):
        n = len(m.v["means"])
        e = EPSD[m.dt]
        if op in ("slice", "index", "mask"):
            st, key = E.draw_key(rng, n, {"slice": "slice", "index": str(rng.choice(["ints", "list", "empty"])), "mask": "mask"}[op])
            return t[E.key_for(t, key, rng.random() < .6)], m.take(np.asarray(key, np.intp) if isinstance(key, list) else key), None
        if op == "one":
            i = int(rng.integers(-n, n))
            x = t[i]
            for f, a in zip(gen.F, x):
                require(a is None and m.v[f].shape[1:] == (0, 3) or a.dtype == getattr(torch, m.dt) and np.array_equal(a.detach().double().numpy(), m.v[f][i]), lambda: what + f"{f} of Gaussian {i} is {a}")
            return t, m, None
        if op == "get_gaussian":
            i = int(rng.integers(-n, n))
            return t.get_gaussian(i), m.take(slice(i % n, i % n + 1)), None
        if op in ("add", "radd"):
            if n > 3000:
                return None
            key = np.flatnonzero(rng.random(n) < .6)
            o, mo = t[key], m.take(key)
            if rng.random() < .4 and len(key):
                o = o.consolidate()
            if op == "add" and rng.random() < .5:      # the second scene takes the precision of the first
                d2 = str(rng.choice(DT))
                o = o.to_dtype(getattr(torch, d2))
                mo.v = {f: torch.from_numpy(a).to(getattr(torch, d2)).to(getattr(torch, m.dt)).double().numpy() for f, a in mo.v.items()}
                if not all(np.isfinite(a).all() for a in mo.v.values()):
                    return None
            a, b, x, y = (t, o, m, mo) if op == "add" else (o, t, mo, m)
            return a + b if rng.random() < .7 else a.add(b), Model({f: np.concatenate([x.v[f], y.v[f]]) for f in gen.F}, m.fmt, m.dt, {z: np.concatenate([x.layers[z], y.layers[z]]) for z in m.layers}), None
        if op in ("consolidate", "clone", "to_same", "with_format"):
            r = {"consolidate": t.consolidate, "clone": t.clone, "to_same": lambda: t.to("cpu", dtype=getattr(torch, m.dt)), "with_format": t.with_format}[op]()
            return r, m.copy(), None
        if op == "layer":
            free = [x for x in "abcdefgh" if x not in m.layers]
            if not free or len(m.layers) > 3:
                return None
            c = rng.random(n) < .8
            r = t.clone()
            r.add_mask_layer(free[0], torch.from_numpy(c))
            m = m.copy()
            m.layers[free[0]] = c
            return r, m, None
        if op == "apply":
            if not m.layers:
                return None
            return t.apply_masks("or"), m.take(np.logical_or.reduce(list(m.layers.values()))), None
        if op in ("rebuild", "dict"):
            F = hold.formats(m.fmt["scales"], m.fmt["opacities"], m.fmt["sh0"], m.v["shN"].shape[1])
            m = m.copy()
            kw = {"format": "ply", "device": "cpu"}
            if rng.random() < .5:
                kw["dtype"] = getattr(torch, str(rng.choice(DT)))
                m.v = {f: torch.from_numpy(a).to(getattr(torch, m.dt)).to(kw["dtype"]).double().numpy() for f, a in m.v.items()}
                if not all(np.isfinite(a).all() for a in m.v.values()):
                    return None
                m.dt = str(kw["dtype"])[6:]
            r = (GSTensor.from_arrays(*t.unpack(), **kw) if op == "rebuild" else GSTensor.from_dict(t.to_dict(), **kw)).with_format(**F)
            m.layers = {}
            return r, m, None
        if op in ("rgb", "sh", "denormalize", "normalize"):
            return self.convert(rng, op, t, m, e)
        if op == "cast":
            to = str(rng.choice(DT))
            d2 = getattr(torch, to)
            name = {"float32": "float", "float64": "double", "float16": "half"}.get(to)
            w = [lambda: t.to(dtype=d2), lambda: t.to_dtype(d2), lambda: t.to("cpu", dtype=d2)] + ([lambda: getattr(t, name)()] if name else [])
            r = w[int(rng.integers(len(w)))]()
            m2 = m.copy()
            m2.dt = to
            m2.v = {f: torch.from_numpy(a).to(getattr(torch, m.dt)).to(d2).double().numpy() for f, a in m.v.items()}
            if not all(np.isfinite(a).all() for a in m2.v.values()):
                self.same(r, m2, what + f"to {to}: ")
                return None
            return r, m2, None
        # results outside torch
        if m.dt == "bfloat16" and op != "save":
            try:
                t.to_gsdata()
            except TypeError:                 # numpy has no such type
                return t, m, None
            return None
        ctx.count("outputs")
        if op in ("to_gsdata", "from_gsdata"):
            g = t.to_gsdata()
            for f in gen.F:
                x = ref.norm_shn(getattr(g, f), n) if f == "shN" else getattr(g, f)
                require(np.array_equal(np.asarray(x, np.float64), m.v[f]), lambda: what + f"{f} changed on the way to arrays")
            if op == "to_gsdata":
                return t, m, None
            to = str(rng.choice(DT))
            r = GSTensor.from_gsdata(g, device="cpu", dtype=getattr(torch, to))
            m2 = m.copy()
            m2.dt = to
            # a transfer may pass through float32
            m2.v = {f: torch.from_numpy(a).to(getattr(torch, to)).double().numpy() for f, a in m.v.items()}
            if not all(np.isfinite(a).all() for a in m2.v.values()):
                return None
            return r, m2, {f: (2.2 * EPSD[to] + 2.0 ** -24) * np.abs(a) + 1e-7 for f, a in m2.v.items()}
        if any(m.fmt.values()) or not all((np.abs(a) < 3e38).all() for a in m.v.values()):
            return None
        p = ctx.path("o.ply")
        with open(p, "wb") as f:
            f.write(b"before")
        try:
            {"save": lambda: t.save(p, compressed=False), "plywrite": lambda: gsply.plywrite(p, t)}[str(rng.choice(["save", "plywrite"]))]()
        except TypeError:
            require(m.dt == "bfloat16", lambda: what + "refused")
            with open(p, "rb") as f:
                require(f.read() == b"before", what + "a refused save touched the file")
            return t, m, None
        with open(p, "rb") as f:
            d = ref.read_std(f.read())
        bad = ref.diff_scene(d, {f: a.astype(np.float32) for f, a in m.v.items()})
        require(not bad, lambda: what + f"file content differs: {bad}")
        return t, m, None

    def convert(self, rng, op, t, m, e):
        if op in ("rgb", "sh") and m.fmt["sh0"] == (op == "rgb"):
            return None
        m2, tol = m.copy(), {}
        v = m.v
        with np.errstate(all="ignore"):
            if op == "rgb" and not m.fmt["sh0"]:
                m2.v["sh0"] = v["sh0"] * ref.C0 + .5
                tol["sh0"] = 2.2 * e * (np.abs(v["sh0"]) * ref.C0 + np.abs(m2.v["sh0"]) + .5) + 1e-7
                m2.fmt["sh0"] = True
            elif op == "sh" and m.fmt["sh0"]:
                m2.v["sh0"] = (v["sh0"] - .5) / ref.C0
                tol["sh0"] = 2.2 * e * (2 * np.abs(m2.v["sh0"]) + np.abs(v["sh0"] - .5) / ref.C0) + (1e-7 if m.dt != "float64" else 1e-15)
                m2.fmt["sh0"] = False
            elif op == "denormalize":
                if not m.fmt["scales"]:
                    if v["scales"].size and v["scales"].max() > 11:
                        return None
                    m2.v["scales"] = np.exp(v["scales"])
                    tol["scales"] = 4 * e * m2.v["scales"] + (6e-8 if m.dt == "float16" else 1e-40)
                if not m.fmt["opacities"]:
                    m2.v["opacities"] = ref.sigmoid(v["opacities"])
                    tol["opacities"] = 4 * e * m2.v["opacities"] + (6e-8 if m.dt == "float16" else 1e-40)
                m2.fmt["scales"] = m2.fmt["opacities"] = True
            elif op == "normalize":
                w = max(e, 0) * 1.01 + (6e-8 if m.dt != "float64" else 1e-15)
                if m.fmt["scales"]:
                    x = np.maximum(v["scales"], 1e-9)
                    m2.v["scales"] = np.log(x)
                    tol["scales"] = w * (np.abs(m2.v["scales"]) + 1)
                if m.fmt["opacities"]:
                    x = v["opacities"].clip(1e-4, 1 - 1e-4)
                    m2.v["opacities"] = np.log(x / (1 - x))
                    tol["opacities"] = w * (np.abs(m2.v["opacities"]) + 1) + (1.2e-7 if m.dt != "float64" else 3e-16) / (1 - x)
                m2.fmt["scales"] = m2.fmt["opacities"] = False
        f = {"rgb": "to_rgb", "sh": "to_sh"}.get(op, op)
        if op == "normalize" and rng.random() < .25:
            r = t.to_ply_tensor()
        elif rng.random() < .5:
            r = getattr(t, f)(inplace=False)
        else:
            r = t.clone()
            x = getattr(r, f)()
            require(x is r, f + " in place returned another object")
        return r, m2, tol or None
