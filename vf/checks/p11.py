"""P11: the declared format always describes the stored numbers, against a float64 shadow of the scene."""
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket


class Shadow:
    """The scene itself, independent of form: log scales, logits, SH colours in float64, with the error later steps may have added."""

    def __init__(self, v, conv=None):
        self.v, self.conv = v, conv or {"scales": 0, "opacities": 0, "sh0": 0, "quats": 0}

    def take(self, key):
        return Shadow({f: a[key] for f, a in self.v.items()}, dict(self.conv))

    def join(self, o):
        return Shadow({f: np.concatenate([self.v[f], o.v[f]]) for f in self.v}, {x: max(self.conv[x], o.conv[x]) for x in self.conv})

    def bump(self, *fs):
        c = dict(self.conv)
        for f in fs:
            c[f] += 1
        return Shadow(self.v, c)


class CHECK(Check):
    rule = "random histories of conversions, slices, copies, combinations, transfers, saves and re-declarations over scenes of all 8 declared formats; after every step the numbers read under the declared format must be the shadow scene; distinct by (container, declared format, last operation, operation)"
    required = {"steps": 2500, "conversions": 700, "redundant": 250, "refused_mix": 60, "bystanders": 3000, "loads": 80, "features": 600}
    n_quick, n_thorough = 450, 12000
    OPS = ["convert", "convert", "convert", "redundant", "redundant", "index", "copy", "add", "bulk", "mask", "layout", "transfer", "saveload", "manual", "rebuild", "copyfmt", "mix", "util", "dtype", "toply"]

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, GSData, D
        import gsply, torch
        from gsply import GSTensor, GSData
        from gsply.gsdata import DataFormat as D

    def directed(self, tier):
        for t in (0, 1):
            for r in range(8):
                for first in ("convert", "redundant", "saveload", "toply", "transfer", "mix", "add", "rebuild"):
                    yield {"k": "d", "t": t, "r": [r & 1, r >> 1 & 1, r >> 2 & 1], "first": first}
        yield from gen.big(tier, 4)

    # the declaration, as a user sees it
    def declared(self, d, what):
        fs = dict(d.format_state)
        n = len(d)
        deg = d.get_sh_degree()
        shn = d.shN
        k = 0 if shn is None else int(shn.shape[1])
        require(deg == gen.DEG_OF_K[k], lambda: what + f"SH degree {deg} declared for {k} coefficients")
        order = [d.is_sh_order_0, d.is_sh_order_1, d.is_sh_order_2, d.is_sh_order_3]
        require(order == [i == deg for i in range(4)], lambda: what + f"SH order flags {order} for degree {deg}")
        want = (D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3)[deg]
        require(fs.get("sh_order") == want, lambda: what + f"sh_order {fs.get('sh_order')} declared for SH degree {deg}")
        ls, lo, rgb = fs["scales"] == D.SCALES_LINEAR, fs["opacities"] == D.OPACITIES_LINEAR, fs["sh0"] == D.SH0_RGB
        flags = (d.is_scales_linear, d.is_scales_ply, d.is_opacities_linear, d.is_opacities_ply, d.is_sh0_rgb, d.is_sh0_sh)
        require(flags == (ls, not ls, lo, not lo, rgb, not rgb), lambda: what + f"format flags {flags} disagree with format_state {fs}")
        require(set(fs) == {"scales", "opacities", "sh0", "sh_order", "means", "quats"}, lambda: what + f"format_state has keys {sorted(fs)}")
        own = d.format_state
        own.update(scales=own["opacities"], extra=None)
        require(dict(d.format_state) == fs, lambda: what + "editing the dictionary given out by format_state changed the declaration")
        return ls, lo, rgb

    def judge(self, d, sh, what):
        ls, lo, rgb = self.declared(d, what)
        v = hold.values(d)
        require(len(v["means"]) == len(sh.v["means"]), lambda: what + "number of Gaussians")
        for f in ("means", "shN"):
            require(np.array_equal(v[f], sh.v[f].astype(np.float32)), lambda: what + f"{f} changed")
        c = sh.conv
        x = v["scales"].astype(np.float64)
        with np.errstate(all="ignore"):
            x = np.log(x) if ls else x
            tol = 3e-6 * (1 + np.abs(sh.v["scales"])) * (c["scales"] + ls)
            bad = ~(np.abs(x - sh.v["scales"]) <= tol)
            self.no(bad, "scales", x, sh, what, ls, ("log", "linear"))
            o = v["opacities"].astype(np.float64)
            p = ref.sigmoid(sh.v["opacities"])
            y = np.log(o) - np.log1p(-o) if lo else o
            tol = (3e-6 * (1 + np.abs(sh.v["opacities"])) + 8 * ref.EPS / (p * (1 - p))) * (c["opacities"] + lo)
            bad = ~(np.abs(y - sh.v["opacities"]) <= tol)
            self.no(bad, "opacities", y, sh, what, lo, ("logit", "linear"))
            z = v["sh0"].astype(np.float64)
            z = (z - .5) / ref.C0 if rgb else z
            tol = 8 * ref.EPS * (np.abs(sh.v["sh0"]) + 2) * (c["sh0"] + rgb)
            bad = ~(np.abs(z - sh.v["sh0"]) <= tol)
            self.no(bad, "sh0", z, sh, what, rgb, ("SH", "RGB"))
        q = v["quats"].astype(np.float64)
        q, w = (a / np.linalg.norm(a, axis=1, keepdims=True) if len(a) else a for a in (q, sh.v["quats"]))
        require(not len(q) or np.abs(q - w).max() <= 2e-6 * (1 + c["quats"]), lambda: what + "rotations changed")
        return ls, lo, rgb

    @staticmethod
    def no(bad, f, x, sh, what, flag, names):
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            fail(what + f"{f} declared {names[int(flag)]}, but {f}{list(i)} read that way is {x[i]:.7g}; the scene has {sh.v[f][i]:.7g}")

    def make(self, rng, n, k, r, t, ctx):
        s = hold.moderate(rng, n, k, str(rng.choice(["normal", "ids"])))
        q = s["quats"].astype(np.float64)
        nn = np.linalg.norm(q, axis=1, keepdims=True)
        s["quats"] = np.where(nn > 1e-2, q, [1, 0, 0, 0]).astype(np.float32).reshape(n, 4)
        raw = hold.raw_of(s, *r)
        sh = Shadow({f: a.astype(np.float64) for f, a in s.items()})
        # the shadow is what the stored float32 numbers mean
        if r[0]:
            sh.v["scales"] = np.log(raw["scales"].astype(np.float64))
        if r[1]:
            o = raw["opacities"].astype(np.float64)
            sh.v["opacities"] = np.log(o) - np.log1p(-o)
        if r[2]:
            sh.v["sh0"] = (raw["sh0"].astype(np.float64) - .5) / ref.C0
        fmt = hold.formats(*r, k)
        how = str(rng.choice(["arrays", "consolidated", "preset", "slice"]))
        preset = {(0, 0, 0): "ply", (1, 1, 0): "linear"}.get(tuple(r))
        kw = {"device": "cpu"} if t else {}
        cls = GSTensor if t else GSData
        conv = (lambda a: torch.from_numpy(a.copy())) if t else (lambda a: a.copy())
        if how == "preset" and preset:
            how = "preset " + preset
            a = [conv(raw[f]) for f in gen.F]
            d = cls.from_arrays(*a, format=preset, **kw) if rng.random() < .5 else cls.from_dict(dict(zip(gen.F, a)), format=preset, **kw)
        else:
            d = hold.tensor(raw, fmt) if t else hold.gsdata(raw, fmt, "mixed" if rng.random() < .3 else None, rng)
            if how == "consolidated" and n:
                d = d.consolidate()
            elif how == "slice" and n:
                d = d[:]
        return d, sh, how

    def run(self, c, ctx):
        rng = rng_of("P11", c)
        k = c.get("K", gen.pick_k(rng))
        n = c.get("n", int(rng.choice([0, 1, 2, 5, 33, 257], p=[.04, .1, .16, .3, .3, .1])))
        if c["k"] == "d":
            t, r, n = c["t"], c["r"], max(n, 2)
        else:
            t, r = int(rng.integers(2)), [int(x) for x in rng.integers(0, 2, 3)]
        d, sh, how = self.make(rng, n, k, r, t, ctx)
        hist = [how]
        what = f"{E.kind(d)} n={n} K={k} linear scales={r[0]} linear opacities={r[1]} rgb={r[2]} from {how}: "
        self.judge(d, sh, what)
        steps = int(rng.integers(5, 14))
        i = 0
        pool = []       # scenes left behind: nothing done to their relatives may change what they declare
        while i < steps:
            op = c["first"] if c["k"] == "d" and i == 0 else str(rng.choice(self.OPS))
            pre = self.declared(d, what)
            what = f"{E.kind(d)} n={len(d)} K={k} declared {pre} (linear scales, linear opacities, rgb) after {hist[-6:]}, "
            self.side = []
            res = self.step(rng, op, d, sh, pre, k, ctx, what)
            i += 1
            if res is None:
                continue
            d2, sh2, label = res
            post = self.judge(d2, sh2, what + f"{label}: ")
            if d2 is not d:
                self.judge(d, sh, what + f"{label}, source afterwards: ")
            for o, so, name in pool:
                self.judge(o, so, what + f"{label}, {name} afterwards: ")
                ctx.count("bystanders")
            ctx.count("steps")
            ctx.feat(E.kind(d), pre, hist[-1].split("(")[0], label)
            hist.append(label)
            move = len(d2) < 2000 and (len(d2) or rng.random() < .2)
            if d2 is not d:
                pool.append((d, sh, f"the source of the {label}") if move else (d2, sh2, f"the {label} result"))
            pool = (pool + self.side)[-3:]
            if move:
                d, sh = d2, sh2
        ctx.sample({"K": k, "n": n, "formats": r, "history": hist})

    def step(self, rng, op, d, sh, pre, k, ctx, what):
        t, n = E.is_t(d), len(d)
        ls, lo, rgb = pre
        if op == "convert":
            st = str(rng.choice(["normalize", "denormalize", "color", "color"]))
            ip = bool(rng.random() < .5)
            if st == "color":
                st = "to_sh" if rgb else "to_rgb"
            elif st == "normalize" and rng.random() < .5 and not (ls or lo):
                st = "denormalize"
            src = d if ip or not t else d
            r = getattr(src, st)(inplace=ip) if rng.random() < .8 or not ip else getattr(src, st)()
            ctx.count("conversions")
            now = self.declared(r, what)
            want = {"normalize": (False, False, rgb), "denormalize": (True, True, rgb), "to_sh": (ls, lo, False), "to_rgb": (ls, lo, True)}[st]
            require(now == want, lambda: what + f"{st}: declares {now}, expected {want}")
            s2 = sh.bump(*({"normalize": ("scales",) * ls + ("opacities",) * lo, "denormalize": ("scales",) * (not ls) + ("opacities",) * (not lo) + ("quats",), "to_sh": ("sh0",), "to_rgb": ("sh0",)}[st]))
            if ip:
                sh.conv = s2.conv
                return r, sh, st + " inplace"
            return r, s2, st
        if op == "redundant":       # to a form already declared: scales and opacities stay as they are
            st = "normalize" if not (ls or lo) else "denormalize" if ls and lo else str(rng.choice(["normalize", "denormalize"]))
            keep = {"normalize": [f for f, x in (("scales", ls), ("opacities", lo)) if not x], "denormalize": [f for f, x in (("scales", ls), ("opacities", lo)) if x]}[st]
            b = hold.values(d)
            ip = bool(rng.random() < .5)
            r = getattr(d, st)(inplace=ip)
            a = hold.values(r)
            for f in keep:
                require(ref.bits_equal(a[f], b[f]), lambda: what + f"{st}(inplace={ip}): {f} was already in that form and changed")
            ctx.count("redundant")
            s2 = sh.bump("quats", *[f for f in ("scales", "opacities") if f not in keep])
            if ip:
                sh.conv = s2.conv
                return r, sh, st + " again inplace"
            return r, s2, st + " again"
        if op == "index":
            st, key = E.draw_key(rng, n, None if not t else str(rng.choice(["slice", "mask", "ints", "list", "masklist", "empty"])))
            kk = np.asarray(key, bool if st == "masklist" else np.intp) if isinstance(key, list) else key
            r = d[key]
            if isinstance(key, slice):      # a view: give it its own numbers
                r = r.clone() if t else r.copy()
            return r, sh.take(kk), "index " + st
        if op == "copy":
            s = hold.snapshot(d)
            st = E.copy(rng, s)
            return st.run(d), sh.bump(), st.label
        if op == "layout":
            r = d.consolidate() if t or rng.random() < .5 else d.make_contiguous(inplace=bool(rng.random() < .5))
            return (r, sh, "layout") if r is d else (r.clone() if t else r.copy(), sh.bump(), "layout")
        if op == "mask":
            if rng.random() < .5 or d.masks is None:
                m = rng.random(n) < .6
                d.masks = d.mask_names = None
                d.add_mask_layer("m", E.tmask(d, m))
            m = model.canon(hold.masks(d)[1]).all(1)
            ip = bool(rng.random() < .5)
            r = d.apply_masks("and", inplace=ip)
            if ip:
                x = sh.take(m)
                sh.v = x.v
                return r, sh, "apply_masks inplace"
            return r, sh.take(m), "apply_masks"
        if op in ("add", "bulk"):
            if t and op == "bulk" or n > 700:
                return None
            key = rng.random(n) < .5
            o, so = d[E.tmask(d, key)], sh.take(key)
            if op == "add":
                r = [lambda: d + o, lambda: d.add(o), lambda: sum([d, o])][int(rng.integers(3))]()
                return r, sh.join(so), "add"
            return GSData.concatenate([o, d, o]), so.join(sh).join(so), "concatenate"
        if op == "transfer":
            if t:
                r = d.to_gsdata()
                r = r.copy()
            else:
                r = GSTensor.from_gsdata(d, device="cpu").clone()
            return r, sh.bump(), "transfer"
        if op == "toply":
            if not t:
                return None
            which = str(rng.choice(["to_ply_tensor", "to_ply_data"]))
            r = getattr(d, which)()
            now = self.declared(r, what + which + ": ")
            require(now[:2] == (False, False), lambda: what + f"{which} declares {now}")
            s2 = sh.bump("quats", *(("scales",) * ls + ("opacities",) * lo + ("sh0",) * rgb))
            return (r.copy() if which == "to_ply_data" else r.clone()), s2, which
        if op == "saveload":
            p = ctx.path("x.ply")
            d.save(p, compressed=False) if t or rng.random() < .5 else gsply.plywrite(p, d)
            r = gsply.plyread(p) if not t or rng.random() < .5 else GSTensor.load(p, device="cpu")
            r.masks = r.mask_names = None
            if len(d):                  # and every other way to save and load
                q = ctx.path("x.compressed.ply")
                gsply.plywrite(q, d)
                b = open(q, "rb").read()
                for name, o in (("plyread", gsply.plyread(q)), ("bytes", gsply.decompress_from_bytes(b)), ("bytes of compress", gsply.decompress_from_bytes(gsply.compress_to_bytes(d) if not t else d.to_gsdata() and b)),
                                ("tensor load", GSTensor.load(q, device="cpu")), ("from_compressed", GSTensor.from_compressed(q, device="cpu"))):
                    now = self.declared(o, what + f"loaded compressed by {name}: ")
                    require(now == (False, False, False), lambda: what + f"a compressed file loaded by {name} declares {now}")
                    require(o.get_sh_degree() == d.get_sh_degree(), lambda: what + f"{name}: SH degree {o.get_sh_degree()}")
            now = self.declared(r, what + "loaded: ")
            require(now == (False, False, False), lambda: what + f"a loaded file declares {now}")
            ctx.count("loads")
            return r, sh.bump("quats", *(("scales",) * ls + ("opacities",) * lo + ("sh0",) * rgb)), "save and load"
        if op == "manual":          # the program converts one field itself and declares it
            f = str(rng.choice(["scales", "opacities", "sh0"]))
            v = hold.values(d)[f].astype(np.float64)
            x = {"scales": np.log(v) if ls else np.exp(v), "opacities": (np.log(v) - np.log1p(-v)) if lo else ref.sigmoid(v), "sh0": (v - .5) / ref.C0 if rgb else v * ref.C0 + .5}[f] if n else v
            new = {"scales": D.SCALES_PLY if ls else D.SCALES_LINEAR, "opacities": D.OPACITIES_PLY if lo else D.OPACITIES_LINEAR, "sh0": D.SH0_SH if rgb else D.SH0_RGB}[f]
            r = d.with_format(**{f: new})
            if r is d:
                fail(what + "with_format returned the same object")
            x = x.astype(np.float32)
            setattr(r, f, E._t(x) if t else x)
            r = r.clone() if t else r.copy()
            return r, sh.bump(f), f"with_format({f})"
        if op == "rebuild":
            s = hold.snapshot(d)
            st = E.rebuild(rng, s)
            r = st.run(d)
            return (r.clone() if t else r.copy()), sh.bump(), st.label
        if op == "copyfmt":
            o = d.clone() if t else d.copy()
            if rng.random() < .5 and not (ls or lo):
                o.denormalize()
                kw = {f: E._t(x) if t else x for f, x in ((f, hold.values(o)[f].copy()) for f in ("scales", "opacities", "quats"))}
                r = d.clone() if t else d.copy()
                for f, x in kw.items():
                    setattr(r, f, x)
                r.copy_format_from(o)
                self.side = [(o, sh.bump("scales", "opacities", "quats"), "the scene whose format was copied")]
                return r, sh.bump("scales", "opacities", "quats"), "copy_format_from"
            r = d.clone() if t else d.copy()
            r.copy_format_from(o)
            self.side = [(o, sh.bump(), "the scene whose format was copied")]
            return r, sh.bump(), "copy_format_from"
        if op == "util":
            if t:
                return None
            ip = bool(rng.random() < .5)
            if not (ls or lo):
                r = gsply.apply_pre_activations(d, inplace=ip)
                s2, lab = sh.bump("scales", "opacities", "quats"), "apply_pre_activations"
            elif ls and lo:
                r = gsply.apply_pre_deactivations(d, inplace=ip)
                s2, lab = sh.bump("scales", "opacities"), "apply_pre_deactivations"
            else:
                return None
            ctx.count("conversions")
            if ip:
                sh.conv = s2.conv
                return r, sh, lab
            return r, s2, lab
        if op == "dtype":
            if not t:
                return None
            return d.double().float().clone(), sh.bump(), "double().float()"
        if op == "mix":             # different declared formats are refused by every way of combining
            f = str(rng.choice(["scales", "opacities", "sh0"]))
            new = {"scales": D.SCALES_PLY if ls else D.SCALES_LINEAR, "opacities": D.OPACITIES_PLY if lo else D.OPACITIES_LINEAR, "sh0": D.SH0_SH if rgb else D.SH0_RGB}[f]
            o = (d.clone() if t else d.copy()).with_format(**{f: new})
            ways = [lambda: d + o, lambda: o + d, lambda: d.add(o), lambda: sum([o, d])] + ([] if t else [lambda: GSData.concatenate([d, o]), lambda: GSData.concatenate([d, d.copy(), o])])
            for w in ways:
                try:
                    w()
                except ValueError:
                    ctx.count("refused_mix")
                else:
                    fail(what + f"a scene whose {f} are declared differently was combined silently")
            return d, sh, "mix refused"
