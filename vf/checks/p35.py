"""P35: gradients through tensor scenes, against an independently accumulated chain rule."""
import os
import warnings
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket

F5 = ("means", "scales", "quats", "opacities", "sh0", "shN")


class Track:
    """Where every element of a derived scene comes from and its derivative with respect to it."""

    def __init__(self, src, row, d, e):
        self.src, self.row, self.d, self.e = src, row, d, e       # scene number, row in it; derivative and its error, per field

    def pick(self, key):
        return Track(self.src[key], self.row[key], {f: x[key] for f, x in self.d.items()}, {f: x[key] for f, x in self.e.items()})

    def scaled(self, f, d, err):
        t = Track(self.src, self.row, dict(self.d), dict(self.e))
        t.d[f] = self.d[f] * d
        t.e[f] = self.e[f] * np.abs(d) + np.abs(self.d[f]) * err
        return t

    @staticmethod
    def join(a, b):
        c = lambda x, y: np.concatenate([x, y])
        return Track(c(a.src, b.src), c(a.row, b.row), {f: c(a.d[f], b.d[f]) for f in F5}, {f: c(a.e[f], b.e[f]) for f in F5})


class CHECK(Check):
    rule = "random chains of tensor operations over scenes tracking gradients in all or some fields, then back-propagation of random weights; gradients compared with the chain rule accumulated outside torch; optimiser steps followed through later operations; distinct by (start, operations, tracked fields, size)"
    required = {"backwards": 700, "ops": 2000, "leaf_gradients": 3000, "steps": 200, "untracked": 60, "features": 400}
    n_quick, n_thorough = 1600, 60000
    OPS = ("slice", "step", "mask", "list", "get_gaussian", "clone", "consolidate", "normalize", "denormalize", "normalize in place", "denormalize in place",
           "to_rgb", "to_sh", "to_rgb in place", "to_sh in place", "to_ply_tensor", "double", "float", "add", "add self", "sum", "with_format", "apply_masks", "apply_masks in place",
           "layers", "side", "from_arrays", "from_dict", "roundabout")

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, D
        import gsply, torch
        from gsply import GSTensor
        from gsply.gsdata import DataFormat as D

    def directed(self, tier):
        for op in self.OPS:
            for start in ("transfer", "transfer_base", "arrays", "consolidated", "partial"):
                yield {"k": "d", "op": op, "start": start, "K": (0, 3, 8, 15)[len(op) % 4]}
        for i, op in enumerate(self.OPS):
            yield {"k": "d", "op": op, "start": ("transfer", "arrays", "consolidated")[i % 3], "K": (0, 3)[i % 2], "n": (4099, 70001)[i // 2 % 2]}
        for n in (4099, 70001):
            for start in ("transfer", "arrays"):
                yield {"k": "d", "op": "mask", "start": start, "K": 3, "n": n}

    # ---- starting scenes
    def start(self, rng, n, k, ctx, how=None, fmt=None):
        """(scene, leaves by field, description); leaves map to None where nothing is tracked."""
        s = hold.moderate(rng, n, k)
        r = tuple(int(x) for x in rng.integers(0, 2, 3)) if fmt is None else fmt
        raw, f = hold.raw_of(s, *r), hold.formats(*r, k)
        if n > 2 and rng.random() < .3:           # values the conversions clamp
            if r[0]:
                raw["scales"][rng.integers(n)] = 0
            if r[1]:
                raw["opacities"][rng.integers(n)] = float(rng.integers(2))
        if r[1]:                                  # clear of the ends of the clamp
            o = raw["opacities"]
            raw["opacities"] = np.where((np.abs(o - 1e-4) < 2e-5) | (np.abs(o - (1 - 1e-4)) < 2e-5), np.float32(.5), o).astype(np.float32)
        how = how or str(rng.choice(["transfer", "transfer_base", "transfer_filtered", "arrays", "consolidated", "partial", "from_arrays"]))
        dt = torch.float64 if rng.random() < .15 else torch.float32
        if how.startswith("transfer"):
            d = hold.gsdata(raw, f, none_ok=rng.random() < .5)
            if how == "transfer_base" and n:
                d = d.consolidate()
            kw = {}
            if how == "transfer_filtered":
                m = rng.random(n) < .7
                kw["mask"] = m
            t = GSTensor.from_gsdata(d, device="cpu", dtype=dt, requires_grad=True, **kw)
            leaves = {x: getattr(t, x) for x in F5}
            for x, v in leaves.items():
                require(v is None or v.requires_grad, lambda: f"from_gsdata(requires_grad=True) from {how}, n={n} K={k}: {x} does not track gradients")
                require(v is None or v.is_leaf, lambda: f"from_gsdata(requires_grad=True) from {how}, n={n} K={k}: {x} is not a leaf tensor, so it gets no .grad and no optimiser accepts it")
        else:
            leaves = {x: torch.from_numpy(np.ascontiguousarray(raw[x])).to(dt).clone() for x in F5}
            if k == 0 and rng.random() < .5:
                leaves["shN"] = None
            tracked = [x for x in F5 if how != "partial" or rng.random() < .4] or ["scales"]
            for x in tracked:
                if leaves[x] is not None:
                    leaves[x].requires_grad_(True)
            a = {x: leaves[x] for x in F5}
            if how == "from_arrays":
                t = GSTensor.from_arrays(**a, format="ply" if not r[0] else "linear", sh0_format=D.SH0_RGB if r[2] else D.SH0_SH)
                t = t.with_format(**{x: y for x, y in f.items() if x in ("scales", "opacities", "sh0")})
            else:
                t = GSTensor(**a, _format=dict(f))
            if how == "consolidated" and n:
                t = t.consolidate()
        return t, leaves, how

    def track_of(self, leaves, j):
        n = len(leaves["means"])
        sh = {x: (tuple(v.shape) if v is not None else (n, 0, 3)) for x, v in leaves.items()}
        return Track(np.full(n, j), np.arange(n), {x: np.ones(s) for x, s in sh.items()}, {x: np.zeros(s) for x, s in sh.items()})

    # ---- conversions
    @staticmethod
    def val(t, f):
        v = getattr(t, f)
        return v.detach().double().numpy().copy()

    def to_log(self, t, tr):
        fm = t.format_state
        if fm["scales"] == D.SCALES_LINEAR:
            x = self.val(t, "scales")
            with np.errstate(divide="ignore"):
                d = np.where(x >= 1e-9, 1 / np.where(x >= 1e-9, x, 1), 0)
            tr = tr.scaled("scales", d, 3e-6 * d)
        if fm["opacities"] == D.OPACITIES_LINEAR:
            o = self.val(t, "opacities")
            inside = (o > 1e-4) & (o < 1 - 1e-4)
            q = np.where(inside, o, .5)
            d = np.where(inside, 1 / (q * (1 - q)), 0)
            tr = tr.scaled("opacities", d, 3e-6 * d)
        return tr

    def to_lin(self, t, tr):
        fm = t.format_state
        if fm["scales"] != D.SCALES_LINEAR:
            d = np.exp(self.val(t, "scales"))
            tr = tr.scaled("scales", d, 3e-6 * d)
        if fm["opacities"] != D.OPACITIES_LINEAR:
            o = ref.sigmoid(self.val(t, "opacities"))
            d = o * (1 - o)
            tr = tr.scaled("opacities", d, 4e-7 + 3e-6 * d)
        return tr

    # ---- one operation
    def apply(self, rng, op, t, tr, world, ctx):
        n, fm = len(t), t.format_state
        lin = lambda f, w: fm[f] == w
        if op in ("slice", "step"):
            a, b = sorted(int(x) for x in rng.integers(-n - 1, n + 2, 2))
            key = slice(a, b, int(rng.integers(2, 5)) if op == "step" else None)
            if rng.random() < .3:
                key = slice(None, None, key.step)
            return t[key], tr.pick(key)
        if op == "mask":
            m = rng.random(n) < rng.choice([0, .3, .8, 1])
            form = int(rng.integers(3))
            return t[torch.from_numpy(m) if form == 0 else m if form == 1 else ([bool(x) for x in m] if n else torch.from_numpy(m))], tr.pick(m)
        if op == "list":
            i = rng.integers(-n, n, int(rng.integers(0, 7))) if n else np.zeros(0, int)
            form = int(rng.integers(3))
            return t[torch.from_numpy(i) if form == 0 else i if form == 1 else [int(x) for x in i]], tr.pick(i.astype(int))
        if op == "get_gaussian":
            if not n:
                return t, tr
            i = int(rng.integers(-n, n))
            return t.get_gaussian(i), tr.pick(slice(i % n, i % n + 1))
        if op in ("clone", "consolidate"):
            return getattr(t, op)(), tr
        if op == "to_ply_tensor":
            tr2 = self.to_log(t, tr)
            return t.to_ply_tensor(), tr2
        if op.startswith("normalize"):
            tr2 = self.to_log(t, tr)
            return t.normalize(inplace=op.endswith("place")), tr2
        if op.startswith("denormalize"):
            tr2 = self.to_lin(t, tr)
            return t.denormalize(inplace=op.endswith("place")), tr2
        if op in ("to_rgb", "to_sh"):
            c = ref.C0 if op == "to_rgb" else 1 / ref.C0
            return getattr(t, op)(inplace=False), tr.scaled("sh0", c, 3e-6 * c)
        if op in ("to_rgb in place", "to_sh in place"):
            c = ref.C0 if op[3] == "r" else 1 / ref.C0
            before = (t.sh0.detach().clone(), dict(fm))
            try:
                r = getattr(t, op.split()[0])(inplace=True)
            except RuntimeError as e:                  # torch does not edit leaves that track gradients in place
                require("in-place" in str(e) and t.sh0.requires_grad, lambda: f"{op}: {e}")
                require(torch.equal(t.sh0.detach(), before[0]) and t.format_state == before[1], f"{op} was refused but changed the scene")
                return t, tr
            self.inplace = True
            return r, tr.scaled("sh0", c, 3e-6 * c)
        if op in ("double", "float"):
            return getattr(t, op)() if rng.random() < .5 else t.to(dtype=torch.float64 if op == "double" else torch.float32), tr
        if op == "add self":
            if n > 200000:
                return t, tr
            return (t + t if rng.random() < .5 else t.add(t)), Track.join(tr, tr)
        if op in ("add", "sum"):
            k = 0 if t.shN is None else t.shN.shape[1]
            parts = [(t, tr)]
            for _ in range(1 if op == "add" else int(rng.integers(1, 4))):
                if rng.random() < .25 and n:
                    i = int(rng.integers(0, n))
                    parts.append((t[i:], tr.pick(slice(i, None))))
                    continue
                o, lv, how = self.start(rng, int(rng.choice([0, 1, 3, 20])), k, ctx,
                                        fmt=(lin("scales", D.SCALES_LINEAR), lin("opacities", D.OPACITIES_LINEAR), lin("sh0", D.SH0_RGB)))
                if rng.random() < .3:
                    o = o.to(dtype=torch.float64) if rng.random() < .5 else o.clone()
                if rng.random() < .25:                   # a part that tracks nothing
                    o = GSTensor(**{x: None if getattr(o, x) is None else getattr(o, x).detach().clone() for x in F5}, _format=dict(o.format_state))
                    lv = {x: None if v is None else v.detach() for x, v in lv.items()}
                if how != "transfer_filtered" or len(o) == len(lv["means"]):
                    world.append(lv)
                    parts.append((o, self.track_of(lv, len(world) - 1)))
            if rng.random() < .5:
                parts = parts[::-1]
            if op == "sum":
                r = sum(p for p, _ in parts)
            else:
                r = parts[0][0]
                for p, _ in parts[1:]:
                    r = r.add(p) if rng.random() < .5 else r + p
            x = parts[0][1]
            for _, y in parts[1:]:
                x = Track.join(x, y)
            return r, x
        if op == "with_format":
            return t.with_format(**{f: fm[f] for f in ("scales", "opacities") if rng.random() < .5}), tr
        if op in ("apply_masks", "apply_masks in place"):
            cols = {}
            for i in range(int(rng.integers(1, 4))):
                cols[f"m{i}_{int(rng.integers(1e9))}"] = rng.random(n) < .8
            old = None if t.masks is None else t.masks.numpy().copy()
            if op.endswith("place") and t.masks is not None and rng.random() < .5:
                cols = {}
            for x, c in cols.items():
                t.add_mask_layer(x, torch.from_numpy(c))
            mode = "and" if rng.random() < .5 else "or"
            m = t.masks.numpy()
            m = m[:, None] if m.ndim == 1 else m
            keep = (m.all(1) if mode == "and" else m.any(1)).copy()
            return t.apply_masks(mode, inplace=op.endswith("place")), tr.pick(keep)
        if op == "layers":
            t.add_mask_layer(f"l{int(rng.integers(1e9))}", torch.from_numpy(rng.random(n) < .5))
            t.combine_masks("or")
            if rng.random() < .5:
                t.remove_mask_layer(t.mask_names[0])
            return t, tr
        if op == "side":                               # reading and exporting leaves the graph alone
            w = int(rng.integers(5))
            if w == 0:
                t.to_gsdata()
            elif w == 1 and n:
                gsply.plywrite(ctx.path(), t, compressed=bool(rng.integers(2)))
            elif w == 2:
                repr(t), len(t), t.get_sh_degree(), t.format_state, t.is_scales_ply
            elif w == 3 and n:
                t.save(ctx.path("x.compressed.ply"))
            else:
                t.to_ply_data()
            return t, tr
        if op in ("from_arrays", "from_dict", "roundabout"):
            pre = "ply" if not lin("scales", D.SCALES_LINEAR) else "linear"
            kw = {}
            if rng.random() < .3:
                kw["dtype"] = torch.float64 if rng.random() < .5 else torch.float32
            if op == "roundabout":
                m, s, q, o, c, h = t.unpack()
                r = GSTensor(m, s, q, o, c, h, _format=dict(fm))
            elif op == "from_arrays":
                r = GSTensor.from_arrays(*t.unpack(), format=pre, sh0_format=fm["sh0"], device="cpu" if rng.random() < .5 else None, **kw)
            else:
                r = GSTensor.from_dict(t.to_dict(), format=pre, sh0_format=fm["sh0"], device="cpu", **kw)
            if r.format_state["opacities"] != fm["opacities"]:
                r = r.with_format(opacities=fm["opacities"])
            return r, tr
        raise AssertionError(op)

    def run(self, c, ctx):
        rng = rng_of("P35", c)
        if c["k"] != "d" and rng.random() < .2:
            return self.optimise(rng, ctx)
        n = c.get("n", int(rng.choice([0, 1, 2, 5, 33, 257], p=[.04, .1, .16, .4, .25, .05])))
        k = c.get("K", gen.pick_k(rng))
        if c["k"] == "d":
            n = max(n, 3)
        self.inplace = False
        t, leaves, how = self.start(rng, n, k, ctx, c.get("start"))
        world = [leaves]
        if how != "transfer_filtered":
            require(len(t) == len(leaves["means"]), "length")
        tr = self.track_of(leaves, 0)
        hist = []
        what = lambda: f"start {how}, n={n} K={k}, {t.dtype}, operations {hist}: "
        ops = [c["op"]] if "op" in c else []
        for _ in range(int(rng.integers(0 if ops else 1, 5))):
            ops.append(str(rng.choice(self.OPS)))
        for op in ops:
            if len(t) > 200000:
                break
            hist.append(op)
            t, tr = self.apply(rng, op, t, tr, world, ctx)
            require(len(t) == len(tr.src), lambda: what() + f"{len(t)} Gaussians, expected {len(tr.src)}")
            ctx.count("ops")
        low = 2e-6
        if rng.random() < .08:                       # reduced precision at the end: gradients to its accuracy
            low, kind = ((2e-3, torch.float16), (1.6e-2, torch.bfloat16))[int(rng.integers(2))]
            t = t.to(dtype=kind)
            hist.append(str(kind))
        # back-propagate random weights through some of the fields, read in some way
        use = [f for f in F5 if rng.random() < .75] or ["means"]
        read = str(rng.choice(["fields", "unpack", "dict", "single"]))
        rows = None
        if read == "single" and len(t):
            i = int(rng.integers(-len(t), len(t)))
            vals = dict(zip(F5, t[i][:6]))
            rows = i % len(t)
        elif read == "unpack":
            vals = dict(zip(F5, t.unpack()))
        elif read == "dict":
            dd = t.to_dict()
            vals = {f: dd.get(f) for f in F5}
        else:
            vals = {f: getattr(t, f) for f in F5}
        loss, want, tol = 0, {}, {}
        for f in use:
            v = vals[f]
            if v is None or v.numel() == 0:
                continue
            w = rng.normal(size=tuple(v.shape)).astype(np.float32).astype(np.float64)
            loss = loss + (v.double() * torch.from_numpy(w)).sum()
            full = np.zeros(tr.d[f].shape)
            if rows is None:
                full[...] = w.reshape(full.shape)
            else:
                full[rows] = w
            for j, lv in enumerate(world):
                if lv[f] is None or not lv[f].requires_grad:
                    continue
                m = tr.src == j
                g, e = np.zeros(tuple(lv[f].shape)), np.zeros(tuple(lv[f].shape))
                np.add.at(g, tr.row[m], (full * tr.d[f])[m])
                np.add.at(e, tr.row[m], np.abs(full * tr.e[f])[m] + low * np.abs(full * tr.d[f])[m])
                want[j, f], tol[j, f] = g, e
                if m.any():
                    require(v.requires_grad, lambda: what() + f"{f} of the result does not track gradients although it comes from a tensor that does")
        tracked = any(v is not None and v.requires_grad for lv in world for v in lv.values())
        if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
            ctx.count("untracked")
            require(not any(g.any() for g in want.values()), lambda: what() + "the result does not track gradients")
            return
        try:
            loss.backward()
        except RuntimeError as e:
            if self.inplace and "inplace operation" in str(e):
                ctx.count("torch_refused_in_place")
                return
            fail(what() + f"back-propagation failed: {e}")
        ctx.count("backwards")
        for j, lv in enumerate(world):
            for f, v in lv.items():
                if v is None or not v.requires_grad:
                    continue
                g = np.zeros(tuple(v.shape)) if v.grad is None else v.grad.detach().double().numpy()
                w = want.get((j, f), np.zeros(tuple(v.shape)))
                e = tol.get((j, f), np.zeros(tuple(v.shape)))
                bad = ~(np.abs(g - w) <= e + 1e-6 * np.abs(w) + 1e-12)
                if bad.any():
                    i = tuple(int(x) for x in np.argwhere(bad)[0])
                    fail(what() + f"gradient of {f}{list(i)} of scene {j} (weights through {use}, read by {read}): {g[i]!r}, chain rule gives {w[i]!r} (tolerance {e[i]:.2g})")
                ctx.count("leaf_gradients")
        ctx.feat(how, "+".join(sorted(set(x.split()[0] for x in hist))), read, bucket(n))
        ctx.sample({"start": how, "n": n, "K": k, "ops": hist, "read": read, "fields": use, "scenes": len(world)})

    def optimise(self, rng, ctx):
        """The documented training loop: every step must reach everything read afterwards."""
        n, k = int(rng.choice([1, 3, 30, 300])), gen.pick_k(rng)
        t, leaves, how = self.start(rng, n, k, ctx, str(rng.choice(["transfer", "transfer_base", "arrays"])), fmt=(0, 0, 0))
        names = [f for f in F5 if leaves[f] is not None and leaves[f].numel() and rng.random() < .6] or ["means"]
        lr = .01
        try:
            opt = torch.optim.SGD([getattr(t, f) for f in names], lr=lr)
        except ValueError as e:
            fail(f"start {how}, n={n} K={k}: the optimiser refuses {names}: {e}")
        for it in range(int(rng.integers(1, 4))):
            opt.zero_grad()
            before = {f: self.val(t, f) for f in F5 if getattr(t, f) is not None}
            m = rng.random(n) < .7
            how2 = str(rng.choice(["plain", "masked", "linear", "sliced"]))
            u = {"plain": lambda: t, "masked": lambda: t[torch.from_numpy(m)], "linear": lambda: t.denormalize(inplace=False), "sliced": lambda: t[: n // 2 + 1]}[how2]()
            sel = {"plain": slice(None), "masked": m, "linear": slice(None), "sliced": slice(0, n // 2 + 1)}[how2]
            loss, g = 0, {}
            for f in names:
                v = getattr(u, f)
                w = rng.normal(size=tuple(v.shape)).astype(np.float32).astype(np.float64)
                loss = loss + (v.double() * torch.from_numpy(w)).sum()
                g[f] = np.zeros(before[f].shape)
                d = 1.
                if how2 == "linear" and f == "scales":
                    d = np.exp(before[f])
                if how2 == "linear" and f == "opacities":
                    o = ref.sigmoid(before[f])
                    d = o * (1 - o)
                g[f][sel] = w * d
            loss.backward()
            opt.step()
            what = f"start {how}, n={n} K={k}, step {it} over {names} through a {how2} scene: "
            want = {f: before[f] - lr * g.get(f, 0) for f in before}
            a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
            keep = rng.random(n) < .6
            views = {"the fields": (t, slice(None)), "to_gsdata": (t.to_gsdata(), slice(None)), "a slice": (t[a:b], slice(a, b)), "a mask": (t[keep], keep), "clone": (t.clone(), slice(None)),
                     "consolidate": (t.consolidate(), slice(None)), "unpack": (GSTensor(*t.unpack(), _format=dict(t.format_state)), slice(None)), "to_ply_data": (t.to_ply_data(), slice(None))}
            p = ctx.path()
            gsply.plywrite(p, t)
            views["a saved file"] = (gsply.plyread(p), slice(None))
            for name, (x, key) in views.items():
                v = hold.values(x)
                for f, w in want.items():
                    e = w[key]
                    if e.size:
                        bad = ~(np.abs(v[f].reshape(e.shape) - e) <= 2e-6 * (1 + np.abs(e)))
                        require(not bad.any(), lambda: what + f"{name}: {f} is {v[f].reshape(e.shape)[bad][0]!r}, expected {e[bad][0]!r} (before the step {before[f][key][bad][0]!r})")
            for f in names:
                x = getattr(t, f)
                require(x.requires_grad and x.is_leaf, lambda: what + f"{f} stopped being an optimisable tensor")
            ctx.count("steps")
        ctx.feat("train", how, "+".join(names), bucket(n))
