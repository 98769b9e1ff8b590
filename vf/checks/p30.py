"""P30: scenes built from arrays or dictionaries declare the right format and hold exactly the given values."""
import os
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, fail, rng_of, bucket

PRESETS = ["auto", "ply", "linear", "rasterizer"]
HOW = ["from_arrays", "from_dict", "constructor", "kw_arrays"]
BADFMT = ["PLY", "Auto", "", "log", "linear ", "gsplat", None, 0, 1.5, ["ply"], b"ply"]
DEG = {0: 0, 3: 1, 8: 2, 15: 3}


def clear(rng, n, lin):
    """Values that nobody would take for the other kind."""
    u = rng.random()
    if lin:
        s = rng.uniform(1e-6, .5, (n, 3)) if u < .4 else np.exp(rng.normal(-5, 1.5, (n, 3))).clip(1e-9, 9) if u < .8 else rng.uniform(.01, 9.5, (n, 3))
        o = rng.uniform(0, 1, n) if u < .6 else rng.choice([0.0, 1.0, .5, 1e-7, 1 - 1e-7], n) if u < .8 else rng.beta(8, 1, n)
    else:
        s = rng.normal(-5, 1.2, (n, 3)).clip(-20, -.01) if u < .6 else -rng.uniform(.5, 15, (n, 3))
        if u > .8 and n > 4:
            s[: n // 2] = rng.uniform(.1, 3, (n // 2, 3))       # large Gaussians among many small ones
        o = rng.uniform(1.05, 12, n) * rng.choice([-1, 1], n) if u < .5 else -rng.uniform(.1, 9, n)
        if u > .8 and n > 4:
            o[: n // 2] = rng.uniform(0, 1, n // 2)
    return s, o


class CHECK(Check):
    rule = "every factory x preset x container x SH degree x dtype x layout on clearly logarithmic, clearly linear and mixed scenes; declared format, predicates and stored bits compared; distinct by (container, how, preset, kind, K, dtype, layout)"
    required = {"scenes": 3000, "detected": 1200, "roundtrips": 2500, "refusals": 300, "converted": 300, "features": 900}
    n_quick, n_thorough = 3600, 150000

    def setup(self, ctx, tier):
        global gsply, torch, GSData, GSTensor, D, FMT
        import gsply, torch
        from gsply import GSData, GSTensor
        from gsply.gsdata import DataFormat as D
        FMT = lambda ls, lo, rgb, k: {"scales": D.SCALES_LINEAR if ls else D.SCALES_PLY, "opacities": D.OPACITIES_LINEAR if lo else D.OPACITIES_PLY, "sh0": D.SH0_RGB if rgb else D.SH0_SH,
                                      "sh_order": [D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEG[k]], "means": D.MEANS_RAW, "quats": D.QUATS_RAW}

    def directed(self, tier):
        for cont in "at":
            for how in HOW:
                for p in PRESETS:
                    for k in DEG:
                        for n in (0, 1, 2, 300):
                            yield {"k": "one", "cont": cont, "how": how, "p": p, "K": k, "n": n}
            for i, how in enumerate(HOW):
                for p in PRESETS:
                    yield {"k": "one", "cont": cont, "how": how, "p": p, "K": (0, 3)[i % 2], "n": (70001, 4099)[i // 2 % 2]}
            for i in range(10):             # long runs of one kind first, as in scenes sorted by size
                yield {"k": "one", "cont": cont, "how": HOW[i % 4], "p": "auto", "K": 0, "n": (2000, 22000, 140001)[i % 3], "sort": 1 + i % 2}
            for i in range(len(BADFMT)):
                yield {"k": "bad", "cont": cont, "i": i}
            for f in gen.F[:5]:
                yield {"k": "missing", "cont": cont, "f": f}
        for k in DEG:
            yield {"k": "presets", "K": k}
        for i in range(12):
            yield {"k": "write", "i": i}

    def expect(self, d, fmt, k, what):
        have = dict(d.format_state)
        for x in fmt:
            require(have.get(x) == fmt[x], lambda: what + f"declares {x} as {have.get(x)}, not {fmt[x]}")
        for p, x, v in (("is_scales_ply", "scales", D.SCALES_PLY), ("is_scales_linear", "scales", D.SCALES_LINEAR), ("is_opacities_ply", "opacities", D.OPACITIES_PLY), ("is_opacities_linear", "opacities", D.OPACITIES_LINEAR),
                        ("is_sh0_sh", "sh0", D.SH0_SH), ("is_sh0_rgb", "sh0", D.SH0_RGB), ("is_sh_order_0", "sh_order", D.SH_ORDER_0), ("is_sh_order_1", "sh_order", D.SH_ORDER_1), ("is_sh_order_2", "sh_order", D.SH_ORDER_2), ("is_sh_order_3", "sh_order", D.SH_ORDER_3)):
            require(getattr(d, p) == (fmt[x] == v), lambda: what + f"{p} is {getattr(d, p)}, declared {fmt[x]}")
        own = d.format_state
        own["scales"] = own["junk"] = D.SH0_RGB
        require(dict(d.format_state) == have, lambda: what + "editing the dictionary given out by format_state changed the scene")
        require(d.get_sh_degree() == DEG[k], lambda: what + f"SH degree {d.get_sh_degree()}, coefficients {k}")

    def same(self, d, src, what):
        """Every field holds the bits it was given."""
        for f in gen.F:
            g, w = getattr(d, f), src[f]
            if f == "shN" and (w is None or w.shape[1] == 0):
                require(g is None or tuple(g.shape[:2]) == (len(d), 0), lambda: what + f"shN is {g.shape}")
                continue
            if hasattr(w, "detach"):
                require(torch.is_tensor(g) and g.dtype == w.dtype and g.shape == w.shape and bool(torch.equal(torch.nan_to_num(g, 123.), torch.nan_to_num(w, 123.))), lambda: what + f"{f} does not hold the given values")
            else:
                require(isinstance(g, np.ndarray) and g.dtype == w.dtype and ref.bits_equal(np.array(g), np.array(w)), lambda: what + f"{f} does not hold the given values")

    def run(self, c, ctx):
        rng = rng_of("P30", c)
        kd = c["k"]
        if kd == "bad" or kd == "missing":
            return self.bad(rng, c, ctx)
        if kd == "presets":
            return self.presets(c["K"], ctx)
        if kd == "write":
            return self.write(rng, ctx)
        if kd == "random":
            u = rng.random()
            if u < .06:
                return self.write(rng, ctx)
            if u < .12:
                return self.bad(rng, {"k": str(rng.choice(["bad", "missing"])), "cont": str(rng.choice(["a", "t"])), "i": int(rng.integers(len(BADFMT))), "f": str(rng.choice(gen.F[:5]))}, ctx)
        cont, how, p = (c.get("cont") or str(rng.choice(["a", "t"]))), c.get("how") or str(rng.choice(HOW)), c.get("p") or str(rng.choice(PRESETS))
        n, k = c["n"] if "n" in c else gen.pick_n(rng), c["K"] if "K" in c else gen.pick_k(rng)
        auto = p == "auto" or how == "constructor"
        ls, lo = bool(rng.random() < .5), bool(rng.random() < .5)
        s = gen.scene(rng, n, k, "normal" if auto else str(rng.choice(["normal", "special", "bits", "wide"])))
        kind = "given"
        if auto:
            sc, _ = clear(rng, n, ls)
            _, op = clear(rng, n, lo)
            s["scales"], s["opacities"] = sc.astype(np.float32), op.astype(np.float32)
            if lo:
                s["opacities"] = s["opacities"].clip(0, 1)
            if n > 4 and ("sort" in c or rng.random() < .15):
                if not ls:
                    s["scales"][: n // 2] = rng.uniform(.1, 3, (n // 2, 3))
                if not lo:
                    s["opacities"][: n // 2] = rng.uniform(0, 1, n // 2)
                up = c.get("sort", int(rng.integers(1, 3))) * 2 - 3
                s["scales"], s["opacities"] = np.sort(s["scales"], 0)[::up].copy(), np.sort(s["opacities"])[::up].copy()
            kind = f"{'lin' if ls else 'log'}/{'lin' if lo else 'logit'}"
        elif p == "ply":
            ls = lo = False
        else:
            ls = lo = True
        if n == 0 and auto:
            ls = lo = False
        rgb = bool(rng.random() < .4) and how != "constructor"
        given = how != "constructor" and rng.random() < .4
        lay = "plain"
        kw = {}
        if how != "constructor":
            if rgb or rng.random() < .3:
                kw["sh0_format"] = D.SH0_RGB if rgb else D.SH0_SH
            if given:
                kw["sh_degree"] = DEG[k] if rng.random() < .7 else None
            if not (p == "auto" and rng.random() < .5):
                kw["format"] = p
        none = k == 0 and rng.random() < .6
        dt = "float32"
        if cont == "a":
            src = gen.copy(s)
            if rng.random() < .5:
                src, lay = gen.relayout_scene(rng, src)
                lay = "relaid"
        else:
            dt = str(rng.choice(["float32", "float32", "float64", "float16", "bfloat16"]))
            if n == 0 or not auto and dt in ("float16",):
                dt = "float32"
            src = {f: torch.from_numpy(np.ascontiguousarray(s[f]).copy()).to(getattr(torch, dt)) for f in gen.F}
            if lo and auto:
                src["opacities"] = src["opacities"].clamp(0, 1)
            u = rng.random()
            if u < .2:
                src, lay = {f: v.requires_grad_(True) for f, v in src.items()}, "grad"
            elif u < .4 and n:
                src, lay = {f: torch.stack([v, v + 1], 1)[:, 0] for f, v in src.items()}, "strided"
        if none:
            src["shN"] = None
        cls = GSData if cont == "a" else GSTensor
        want = dict(src)
        if cont == "t" and how != "constructor":
            if how == "from_dict" or rng.random() < .3:
                kw["device"] = "cpu" if rng.random() < .7 else torch.device("cpu")
            if rng.random() < .25:
                dt2 = str(rng.choice(["float32", "float64"]))
                kw["dtype"] = getattr(torch, dt2)
                want = {f: None if v is None else v.to(kw["dtype"]) for f, v in src.items()}
        what = f"{cls.__name__} {how}({', '.join(f'{a}={b}' for a, b in kw.items())}) of {kind} values, n={n} K={k} {dt} {lay}: "
        before = {f: None if v is None else v.clone() if cont == "t" else np.array(v) for f, v in src.items()}
        if how == "from_arrays":
            a = [src[f] for f in gen.F]
            d = cls.from_arrays(*(a[:5] if none and rng.random() < .5 else a), **kw)
        elif how == "kw_arrays":
            d = cls.from_arrays(**{f: src[f] for f in gen.F if f != "shN" or not none}, **kw)
        elif how == "from_dict":
            q = {f: src[f] for f in (gen.F if rng.random() < .5 else gen.F[::-1]) if f != "shN" or not none or rng.random() < .5}
            keys = list(q)
            d = cls.from_dict(q, **kw)
            require(list(q) == keys and all(q[f] is src[f] for f in q), lambda: what + "the dictionary changed")
        else:
            d = cls(**{f: src[f] for f in gen.F})
        self.expect(d, FMT(ls, lo, rgb, k), k, what)
        self.same(d, want, what)
        for f, v in src.items():
            require(v is None or (torch.equal(torch.nan_to_num(v.detach()), torch.nan_to_num(before[f].detach())) if cont == "t" else ref.bits_equal(np.array(v), before[f])), lambda: what + f"the given {f} changed")
        require(d.masks is None and d.mask_names is None and len(d) == n, lambda: what + "masks or length")
        if lay == "grad":
            require(all(getattr(d, f).requires_grad for f in gen.F[:5]), lambda: what + "gradients are no longer tracked")
        ctx.count("scenes")
        ctx.count("detected", auto)
        # taking it apart and rebuilding it
        fm = "ply" if not ls and not lo else "rasterizer" if ls and lo else "auto"
        kk = {"format": fm, "sh0_format": D.SH0_RGB if rgb else D.SH0_SH}
        dk = dict(kk, device="cpu") if cont == "t" else kk
        if fm != "auto" or auto:
            for nm, r in (("unpack", cls.from_arrays(*d.unpack(), **kk)), ("to_dict", cls.from_dict(d.to_dict(), **dk))):
                self.expect(r, FMT(ls, lo, rgb, k), k, what + nm + " and back: ")
                self.same(r, {f: getattr(d, f) for f in gen.F}, what + nm + " and back: ")
                ctx.count("roundtrips")
        u = d.unpack()
        require(len(u) == 6 and all(x is getattr(d, f) or x is None for x, f in zip(u, gen.F)), lambda: what + "unpack gives other arrays")
        u = d.unpack(include_shN=False)
        require(len(u) == 5 and list(d.to_dict()) == list(gen.F), lambda: what + "unpack or to_dict with other members")
        # the declaration steers conversion
        if n and kind != "given" and dt in ("float32", "float64") and n < 2000 and rng.random() < .4:
            v = {f: (x.detach().numpy() if hasattr(x, "detach") else np.array(x)).astype(np.float64) for f, x in ((f, getattr(d, f)) for f in ("scales", "opacities"))}
            r = d.denormalize(inplace=False)
            rv = {f: (x.detach().numpy() if hasattr(x, "detach") else np.array(x)).astype(np.float64) for f, x in ((f, getattr(r, f)) for f in ("scales", "opacities"))}
            wo = v["opacities"] if lo else ref.sigmoid(v["opacities"])
            ws = v["scales"] if ls else np.exp(v["scales"])
            require(np.allclose(rv["opacities"], wo, atol=1e-5), lambda: what + "denormalize gives other opacities than the values mean")
            require(np.allclose(rv["scales"], ws, rtol=1e-4, atol=1e-7) if ls else np.allclose(rv["scales"].clip(1e-4, 100), ws.clip(1e-4, 100), rtol=1e-4, atol=1e-6), lambda: what + "denormalize gives other scales than the values mean")
            ctx.count("converted")
        ctx.feat(cont, how, p if how != "constructor" else "-", kind, k, dt, lay)
        ctx.sample({"container": cls.__name__, "how": how, "preset": p, "kind": kind, "n": n, "K": k, "dtype": dt})

    def bad(self, rng, c, ctx):
        n, k = int(rng.choice([0, 1, 7])), gen.pick_k(rng)
        s = gen.scene(rng, n, k, "normal")
        t = c["cont"] == "t"
        cls = GSTensor if t else GSData
        q = {f: torch.from_numpy(s[f].copy()) if t else s[f] for f in gen.F}
        kw = {"device": "cpu"} if t else {}
        if c["k"] == "bad":
            b = BADFMT[c["i"]]
            for nm, fn in (("from_arrays", lambda: cls.from_arrays(*q.values(), format=b)), ("from_dict", lambda: cls.from_dict(q, format=b, **kw)), ("sh_degree", lambda: cls.from_arrays(*q.values(), format="ply", sh_degree=4 + c["i"])),
                           ("negative sh_degree", lambda: cls.from_dict(q, format="linear", sh_degree=-1 - c["i"], **kw))):
                self.refused(fn, f"{cls.__name__} {nm} with format {b!r} / SH degree {4 + c['i']}", ctx)
            d = cls.from_arrays(*q.values(), format="ply")
            for bad in ({"scale": D.SCALES_LINEAR}, {"scales": D.SCALES_LINEAR, "Opacities": D.OPACITIES_LINEAR}, {"_format": {}}, {"": D.SH0_RGB}):
                self.refused(lambda: d.with_format(**bad), f"{cls.__name__}.with_format({bad})", ctx)
            self.expect(d, FMT(False, False, False, k), k, "after refused re-declarations: ")
        else:
            r = {f: v for f, v in q.items() if f != c["f"]}
            for p in PRESETS:
                self.refused(lambda: cls.from_dict(r, format=p, **kw), f"{cls.__name__}.from_dict without {c['f']}", ctx)
            self.refused(lambda: cls.from_arrays(**r), f"{cls.__name__}.from_arrays without {c['f']}", ctx)
        ctx.feat("refused", c["cont"], c.get("i"), c.get("f"), k)

    def refused(self, fn, what, ctx):
        try:
            r = fn()
        except Exception:
            ctx.count("refusals")
            return
        fail(what + f" was accepted: {dict(r.format_state)}")

    def presets(self, k, ctx):
        for rgb in (False, True):
            for nm, fn, lin in (("create_ply_format", gsply.create_ply_format, False), ("create_rasterizer_format", gsply.create_rasterizer_format, True)):
                f = fn(sh_degree=DEG[k], sh0_format=D.SH0_RGB if rgb else D.SH0_SH)
                w = FMT(lin, lin, rgb, k)
                require(dict(f) == w, lambda: f"{nm}({DEG[k]}) is {f}")
                f["scales"] = None
                require(dict(fn(sh_degree=DEG[k], sh0_format=D.SH0_RGB if rgb else D.SH0_SH)) == w, f"{nm} shares state between calls")
                ctx.feat(nm, k, rgb)
        for b in (-1, 4, 15, None, "3"):
            for fn in (gsply.create_ply_format, gsply.create_rasterizer_format):
                try:
                    f = fn(b)
                except Exception:
                    ctx.count("refusals")
                else:
                    fail(f"{fn.__name__}({b!r}) was accepted: {f}")

    def write(self, rng, ctx):
        """plywrite of loose arrays detects what they are."""
        n, k = int(rng.choice([1, 3, 40, 300])), gen.pick_k(rng)
        s = gen.scene(rng, n, k, "normal")
        ls, lo = bool(rng.random() < .5), bool(rng.random() < .5)
        s["scales"] = clear(rng, n, ls)[0].astype(np.float32)
        s["opacities"] = clear(rng, n, lo)[1].astype(np.float32)
        if lo:
            s["opacities"] = s["opacities"].clip(0, 1)
        p = ctx.path("o.ply")
        gsply.plywrite(p, *[s[f] for f in gen.F[:5]], s["shN"] if k else None)
        got = ref.read_std(open(p, "rb").read())
        lg = ref.to_log(s["scales"], s["opacities"])
        what = f"plywrite of {'lin' if ls else 'log'}/{'lin' if lo else 'logit'} arrays n={n} K={k}: "
        for f, lin, w in (("scales", ls, lg[0]), ("opacities", lo, lg[1])):
            if lin:
                require(np.allclose(got[f], w, rtol=1e-4, atol=2e-3 if f == "opacities" else 1e-4), lambda: what + f"{f} were not stored as logarithms")
            else:
                require(ref.bits_equal(got[f], s[f]), lambda: what + f"{f} changed")
        d = gsply.plyread(p)
        self.expect(d, FMT(False, False, False, k), k, what + "read back: ")
        ctx.count("scenes")
        ctx.feat("write", ls, lo, k, bucket(n))
