"""P12: log/linear conversion against float64 formulas."""
import numpy as np
from vf import gen, hold, num, ref
from vf.core import Check, require, rng_of, bucket

EPS = ref.EPS


def check_linear(src, got, lin_s, lin_o, what, lo=1e-4, hi=100.0, mq=1e-8, tensor=False):
    """got: values after conversion to linear form of src (declared linear scales/opacities where flagged)."""
    with np.errstate(over="ignore", under="ignore"):
        if lin_s:
            require(ref.bits_equal(got["scales"], src["scales"]), what + "scales were already linear but changed")
        else:
            e = np.exp(src["scales"].astype(np.float64))
            w = e if tensor else np.clip(e, lo, hi)
            inf = w > 3.4028235e38
            ok = np.abs(got["scales"] - w) <= 2e-6 * w + 2e-38
            ok |= inf & (np.isinf(got["scales"]) | (got["scales"] > 3.40e38))
            require(ok.all(), lambda: what + f"exp scale {src['scales'][~ok][0]!r} -> {got['scales'][~ok][0]!r}, expected {w[~ok][0]!r}")
        if lin_o:
            require(ref.bits_equal(got["opacities"], src["opacities"]), what + "opacities were already linear but changed")
        else:
            w = ref.sigmoid(src["opacities"])
            g = got["opacities"]
            ok = (np.abs(g - w) <= 2e-6 * w + 2e-38) & (g >= 0) & (g <= 1)
            require(ok.all(), lambda: what + f"sigmoid opacity {src['opacities'][~ok][0]!r} -> {g[~ok][0]!r}, expected {w[~ok][0]!r}")
        if tensor:
            require(ref.bits_equal(got["quats"], src["quats"]), what + "quaternions changed")
            return
        q = src["quats"].astype(np.float64)
        nn = np.linalg.norm(q, axis=1)
        g = got["quats"].astype(np.float64)
        ident = np.abs(g - np.array([0, 0, 0, 1.0])).max(axis=1) == 0 if len(g) else np.zeros(0, bool)
        unit = np.abs(g - q / np.where(nn > 0, nn, 1)[:, None]).max(axis=1) <= 1.5e-6 if len(g) else np.zeros(0, bool)
        ok = np.where(nn < mq * (1 - 1e-5), ident, np.where(nn > mq * (1 + 1e-5), unit, ident | unit))
        require(ok.all(), lambda: what + f"quaternion {src['quats'][~ok][0].tolist()} (norm {nn[~ok][0]:.3g}) -> {got['quats'][~ok][0].tolist()}")


def check_log(src, got, ply_s, ply_o, what, ms=1e-9, lo=1e-4, hi=1 - 1e-4):
    if ply_s:
        require(ref.bits_equal(got["scales"], src["scales"]), what + "scales were already logs but changed")
    else:
        w = np.log(np.maximum(src["scales"].astype(np.float64), float(np.float32(ms))))
        ok = np.abs(got["scales"] - w) <= 1e-6 * (1 + np.abs(w))
        require(ok.all(), lambda: what + f"log scale {src['scales'][~ok][0]!r} -> {got['scales'][~ok][0]!r}, expected {w[~ok][0]!r}")
    if ply_o:
        require(ref.bits_equal(got["opacities"], src["opacities"]), what + "opacities were already logits but changed")
    else:
        o = np.clip(src["opacities"].astype(np.float64), lo, hi)
        w = np.log(o / (1 - o))
        ok = np.abs(got["opacities"] - w) <= 2e-6 * (1 + np.abs(w)) + 6 * EPS / (o * (1 - o))
        require(ok.all(), lambda: what + f"logit opacity {src['opacities'][~ok][0]!r} -> {got['opacities'][~ok][0]!r}, expected {w[~ok][0]!r}")
    require(ref.bits_equal(got["quats"], src["quats"]), what + "quaternions changed by conversion to log form")


def logit64(x):
    return np.log(x / (1 - x))


class CHECK(Check):
    rule = "value styles over the whole float range x size x layout x entry point x clamp parameters x declared form; distinct by (style, entry, container, state, form, size bucket)"
    required = {"conversions_checked": 400, "values": 200000, "inverse_checked": 60, "features": 120, "half": 1500}
    n_quick, n_thorough = 520, 20000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor
        import gsply
        import torch
        from gsply import GSTensor

    def directed(self, tier):
        yield from gen.big(tier, 12)

    def half(self, rng, n, k, ctx):
        """Tensors in half precision: the limits hold, nothing becomes infinite."""
        dt = getattr(torch, str(rng.choice(["float16", "bfloat16"])))
        s = gen.scene(rng, n, k, "normal")
        s["scales"] = np.exp(rng.uniform(np.log(1e-12), np.log(5e4), (n, 3))) * (rng.random((n, 3)) < .9)
        s["opacities"] = rng.choice([0, 1e-6, 1e-4, 2e-4, .5, .999, .9998, .9999, 1], n) if rng.random() < .5 else rng.random(n)
        form = [int(x) for x in rng.choice([0, 1, 1], 2)]
        if not form[0]:
            s["scales"] = np.log(s["scales"].clip(1e-9))
        if not form[1]:
            s["opacities"] = logit64(s["opacities"].clip(1e-4, 1 - 1e-4))
        d = GSTensor(**{f: torch.from_numpy(np.array(s[f])).to(dt) for f in gen.F}, _format=hold.formats(*form, 0, k))
        v = {f: getattr(d, f).double().numpy() for f in gen.F}
        r = d.normalize(inplace=False) if rng.random() < .5 else d.clone().normalize()
        g = {f: getattr(r, f).double().numpy() for f in gen.F}
        what = f"tensor of {dt} in form {form}, n={n}: normalize: "
        e = {torch.float16: 2.0 ** -11, torch.bfloat16: 2.0 ** -8}[dt]
        for f, w in (("scales", np.log(np.maximum(v["scales"], 1e-9)) if form[0] else v["scales"]), ("opacities", logit64(v["opacities"].clip(1e-4, 1 - 1e-4)) if form[1] else v["opacities"])):
            require(getattr(r, f).dtype == dt, lambda: what + f"{f} is {getattr(r, f).dtype}")
            bad = ~(np.abs(g[f] - w) <= 1.01 * e * np.abs(w) + 1e-3 * e + 2e-6)
            require(not bad.any(), lambda: what + f"{f} {v[f][bad][0]!r} became {g[f][bad][0]!r}, expected {w[bad][0]!r}")
        for f in ("means", "quats", "sh0", "shN"):
            require(ref.bits_equal(g[f], v[f]), lambda: what + f"{f} changed")
        require(r.is_scales_ply and r.is_opacities_ply, what + "not declared in log form")
        ctx.count("half", n)
        ctx.feat("half", str(dt), tuple(form), k)

    def run(self, c, ctx):
        rng = rng_of("P12", c)
        if "n" not in c and rng.random() < .07:
            return self.half(rng, int(rng.choice([1, 7, 300])), gen.pick_k(rng), ctx)
        n, k = c.get("n", gen.pick_n(rng, .06)), c.get("K", gen.pick_k(rng))
        s = gen.scene(rng, n, k, "normal")
        styles = []
        for f in ("scales", "opacities", "quats"):
            v, st = num.floats(rng, s[f].size)
            if f == "quats":
                v = np.clip(v, -1e18, 1e18)
            s[f] = v.reshape(s[f].shape)
            styles.append(st)
        if c["k"] == "big" and n:
            for f, ex in (("scales", [0, 1e-12, 1e-5, 1e6, -20, 12]), ("opacities", [0, 1, -.01, 1e-7, 1.5, 1 - 1e-6, -30, 30])):
                m = rng.random(s[f].shape) < .2
                s[f][m] = rng.choice(np.array(ex, np.float32), int(m.sum()))
        if n and rng.random() < .4:
            s["quats"][rng.random(n) < .2] = 0
        direction = ("log", "linear")[c["i"] // 6 + c["i"] & 1] if c["k"] == "big" else str(rng.choice(["linear", "log"]))
        form = (int(rng.integers(2)), int(rng.integers(2))) if rng.random() < .5 else ((0, 0) if direction == "linear" else (1, 1))
        if form[0] and direction == "log" or form[0]:
            pass
        tensor = rng.random() < .3
        fmt = hold.formats(form[0], form[1], int(rng.integers(2)), k)
        state = str(rng.choice(["plain", "layout", "consolidated", "slice", "masked"]))
        entry = str(rng.choice(["method", "method", "method_copy", "func", "func_copy"])) if not tensor else str(rng.choice(["method", "method_copy"]))
        inplace = not entry.endswith("copy")
        if entry.startswith("func"):
            form = (0, 0) if direction == "linear" else (1, 1)     # the functions convert both fields, whatever is declared
            fmt = hold.formats(form[0], form[1], 0, k)
        if tensor:
            d = hold.tensor(s, fmt)
        else:
            d = hold.gsdata(s, fmt, "mixed" if state == "layout" else None, rng)
        if state == "consolidated" and n:
            d = d.consolidate()
        elif state == "slice" and n > 1:
            d = d[::2] if rng.random() < .5 else d[: n // 2]
        elif state == "masked" and n:
            m = rng.random(n) < .5
            d.add_mask_layer("a", torch.from_numpy(m) if tensor else m)
        before = hold.snapshot(d)
        kw = {}
        if entry.startswith("func") and rng.random() < .6:
            if direction == "linear":
                lo = float(rng.choice([1e-6, 1e-4, .01, 1.0]))
                kw = {"min_scale": lo, "max_scale": lo * float(rng.choice([1, 10, 1e5])), "min_quat_norm": float(rng.choice([1e-12, 1e-8, 1e-3, .5]))}
            else:
                kw = {"min_scale": float(rng.choice([1e-20, 1e-9, 1e-3])), "min_opacity": float(rng.choice([1e-6, 1e-3, .2])), "max_opacity": float(rng.choice([.3, .9, .999]))}
        if entry.startswith("func"):
            r = (gsply.apply_pre_activations if direction == "linear" else gsply.apply_pre_deactivations)(d, inplace=inplace, **kw)
        else:
            r = (d.denormalize if direction == "linear" else d.normalize)(inplace=inplace)
        what = f"{'tensor' if tensor else 'array'} {entry} to {direction} {kw} n={len(r)} state={state} styles={styles} linear before={form}: "
        require((r is d) == inplace, what + "in-place operation returned another object (or the reverse)")
        after = hold.snapshot(r)
        if not inplace:
            m = hold.same_snapshot(hold.snapshot(d), before)
            require(not m, lambda: what + "the source changed: " + m)
        src, got = before["v"], after["v"]
        for f in ("means", "sh0", "shN"):
            require(ref.bits_equal(src[f], got[f]), what + f"{f} changed")
        require(before["names"] == after["names"] and (before["masks"] is None) == (after["masks"] is None) and (before["masks"] is None or (before["masks"] == after["masks"]).all()), what + "masks changed")
        for f in ("scales", "opacities", "quats"):
            require(got[f].shape == src[f].shape and got[f].dtype == np.float32, what + f"{f} is {got[f].dtype}{got[f].shape}")
            if not tensor:
                require(np.isfinite(got[f]).all(), lambda: what + f"{f}: {src[f][~np.isfinite(got[f])][0]!r} became {got[f][~np.isfinite(got[f])][0]!r}")
        if direction == "linear":
            if not (form == (1, 1) and not entry.startswith("func")):
                check_linear(src, got, form[0] and not entry.startswith("func"), form[1] and not entry.startswith("func"), what, kw.get("min_scale", 1e-4), kw.get("max_scale", 100.0), kw.get("min_quat_norm", 1e-8), tensor)
            require(r.is_scales_linear and r.is_opacities_linear, what + "not declared linear")
        else:
            if not (form == (0, 0) and not entry.startswith("func")):
                check_log(src, got, not form[0] and not entry.startswith("func"), not form[1] and not entry.startswith("func"), what, kw.get("min_scale", 1e-9), kw.get("min_opacity", 1e-4), kw.get("max_opacity", 1 - 1e-4))
            require(r.is_scales_ply and r.is_opacities_ply, what + "not declared log")
        if not tensor or direction == "log":
            # there and back inside the limits
            back = (r.normalize if direction == "linear" else r.denormalize)(inplace=False)
            b = hold.values(back)
            if direction == "linear" and not kw and form == (0, 0):
                x, o = src["scales"].astype(np.float64), src["opacities"].astype(np.float64)
                m = (x > -9.2) & (x < 4.6)
                ok = np.abs(b["scales"] - x)[m] <= 4e-6 * (1 + np.abs(x[m]))
                require(ok.all(), lambda: what + f"log scale {x[m][~ok][0]!r} comes back as {b['scales'][m][~ok][0]!r}")
                p = ref.sigmoid(o)
                m = (p > 1.01e-4) & (p < 1 - 1.01e-4)
                ok = np.abs(b["opacities"] - o)[m] <= 4e-6 * (1 + np.abs(o[m])) + 8 * EPS / (p * (1 - p))[m]
                require(ok.all(), lambda: what + f"logit {o[m][~ok][0]!r} comes back as {b['opacities'][m][~ok][0]!r}")
                ctx.count("inverse_checked")
            elif direction == "log" and not kw and form == (1, 1):
                x, p = src["scales"].astype(np.float64), src["opacities"].astype(np.float64)
                m = (x > 1.01e-4) & (x < 99)
                ok = np.abs(b["scales"] - x)[m] <= 2e-5 * x[m]
                require(ok.all(), lambda: what + f"scale {x[m][~ok][0]!r} comes back as {b['scales'][m][~ok][0]!r}")
                m = (p > 1.01e-4) & (p < 1 - 1.01e-4)
                ok = np.abs(b["opacities"] - p)[m] <= 4e-6
                require(ok.all(), lambda: what + f"opacity {p[m][~ok][0]!r} comes back as {b['opacities'][m][~ok][0]!r}")
                ctx.count("inverse_checked")
        ctx.count("conversions_checked")
        ctx.count("values", 8 * len(r))
        ctx.feat(styles[0], entry, direction, tensor, state, form, bucket(n))
        ctx.sample({"n": n, "styles": styles, "entry": entry, "direction": direction, "container": "tensor" if tensor else "array", "state": state, "clamps": kw})
