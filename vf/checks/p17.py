"""P17: combining scenes stacks every field, by every way of combining; mismatches are refused."""
import functools, operator
import numpy as np
from vf import engine as E, gen, hold, model
from vf.core import Check, require, fail, rng_of, bucket

SIZES = [0, 1, 2, 3, 7, 31, 32, 33, 255, 256, 257, 1000]


class CHECK(Check):
    rule = "all combining operations over 2-5 parts (sizes incl. 0, SH degree, layouts, backing buffers, mask-layer relations, containers); distinct by (way, part count, origins, mask relation, refusal)"
    required = {"combined": 500, "mask_relations": 300, "refusals": 80, "chains": 60, "features": 300}
    n_quick, n_thorough = 420, 14000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor
        import gsply, torch
        from gsply import GSTensor

    def directed(self, tier):
        for k in (0, 3, 8, 15):
            for t in (0, 1):
                for rel in ("same", "permuted", "one_none", "other_none", "different", "count", "unnamed", "half_named", "none", "one_dim"):
                    yield {"k": "rel", "K": k, "t": t, "rel": rel}
                for f in ("scales", "opacities", "sh0", "degree"):
                    yield {"k": "refuse", "K": k, "t": t, "f": f}
        for t in (0, 1):
            for i, rel in enumerate(("same", "permuted", "none", "different")):
                yield {"k": "rel", "K": (0, 3)[i % 2], "t": t, "rel": rel, "n": (70001, 4099)[i // 2], "cnt": 2}
                yield {"k": "rel", "K": 0, "t": t, "rel": rel, "n": 70001 + 65536 * i, "cnt": 2, "i": i}
                yield {"k": "rel", "K": (0, 3)[i % 2], "t": t, "rel": rel, "cnt": (17, 70, 300)[i % 3]}

    def parts(self, rng, ctx, k, t, c, base_formats=True, first=None):
        """c scenes of one container kind and the same declared format."""
        r = (int(rng.integers(2)), int(rng.integers(2)), int(rng.integers(2))) if rng.random() < .5 else (0, 0, 0)
        fmt = hold.formats(*r, k)
        out = []
        for i in range(c):
            n = int(rng.choice(SIZES[:8] if rng.random() < .7 else SIZES)) if first is None or i else first
            s = hold.moderate(rng, n, k, "ids" if rng.random() < .4 else None)
            raw = hold.wild(rng, n, k) if rng.random() < .3 else hold.raw_of(s, *r)
            how = str(rng.choice(["plain", "mixed", "base", "slice_of_base", "noncontig_slice"]))
            if how == "slice_of_base" and n:
                big = {f: np.concatenate([raw[f][:2], raw[f], raw[f][:1]]) for f in gen.F}
                d = hold.gsdata(big, fmt).consolidate()[min(2, n):][:n]
            elif how == "noncontig_slice" and n:
                big = {f: np.repeat(raw[f], 2, axis=0) for f in gen.F}
                d = hold.gsdata(big, fmt)
                d = (d.consolidate() if rng.random() < .5 else d)[::2]
            else:
                d = hold.gsdata(raw, fmt, "mixed" if how == "mixed" else None, rng)
                if how == "base" and n:
                    d = d.consolidate()
            if t:
                if rng.random() < .4:
                    d = hold.tensor(raw, fmt)
                    how = "tensor"
                else:
                    d = GSTensor.from_gsdata(d, device="cpu")
                    if rng.random() < .4 and n:
                        d = d.consolidate()
                        how += "+cons"
            if how == "base" and rng.random() < .5 and n:       # visible edit on top of the buffer
                for f in gen.F[:2]:
                    x = getattr(d, f)
                    x[0] = 3
                how = "edited base"
            d.masks = d.mask_names = None
            out.append((d, how))
        return out

    def set_masks(self, rng, d, names, L, one_dim=False):
        n = len(d)
        m = rng.random((n, L)) < .5
        if one_dim:
            m = m[:, 0]
        d.masks = E._t(m) if E.is_t(d) else m
        d.mask_names = None if names is None else list(names)

    def mask_all(self, rng, objs, rel):
        L = int(rng.integers(1, 5))
        names = [str(x) for x in rng.permutation(E.NAMES)[:L]]
        for i, d in enumerate(objs):
            last = i == len(objs) - 1
            if rel == "none" or (rel == "one_none" and i == 0) or (rel == "other_none" and last):
                continue
            if rel == "permuted":
                self.set_masks(rng, d, [str(x) for x in rng.permutation(names)], L)
            elif rel == "different" and last:
                self.set_masks(rng, d, names[:-1] + ["zz"], L)
            elif rel == "count" and last:
                self.set_masks(rng, d, names + ["extra"], L + 1)
            elif rel == "unnamed":
                self.set_masks(rng, d, None, L)
            elif rel == "half_named" and last:
                self.set_masks(rng, d, None, L)
            elif rel == "one_dim":
                self.set_masks(rng, d, [names[0]] if rng.random() < .5 else None, 1, True)
            else:
                self.set_masks(rng, d, names, L, L == 1 and rng.random() < .5)

    def ways(self, t):
        w = {"+": lambda p: functools.reduce(operator.add, p), "add": lambda p: functools.reduce(lambda a, b: a.add(b), p), "sum": lambda p: sum(p),
             "sum_start": lambda p: sum(p[1:], p[0]), "right": lambda p: functools.reduce(lambda a, b: b + a, reversed(p))}
        if not t:
            w["concatenate"] = lambda p: type(p[0]).concatenate(list(p))
            w["concatenate_tuple"] = lambda p: type(p[0]).concatenate(tuple(p))
        return w

    def run(self, c, ctx):
        rng = rng_of("P17", c)
        if c["k"] == "refuse":
            return self.refuse(rng, c, ctx)
        k = c.get("K", gen.pick_k(rng))
        t = c.get("t", int(rng.integers(2)))
        if c["k"] == "random" and rng.random() < .25:
            return self.refuse(rng, {"K": k, "t": t, "f": str(rng.choice(["scales", "opacities", "sh0", "degree"]))}, ctx)
        cnt = 2 if c["k"] == "rel" and rng.random() < .6 else int(rng.integers(2, 6))
        cnt = c.get("cnt", cnt)
        ps = self.parts(rng, ctx, k, t, cnt, first=c.get("n"))
        objs = [p[0] for p in ps]
        if rng.random() < .1:       # the same object twice
            objs[-1] = objs[0]
        rel = c.get("rel") or str(rng.choice(["same", "permuted", "one_none", "other_none", "different", "count", "unnamed", "half_named", "none", "one_dim"]))
        self.mask_all(rng, objs, rel)
        ss = [hold.snapshot(o) for o in objs]
        what = f"{'tensor' if t else 'array'} parts {[len(o) for o in objs][:8]} ({cnt}) K={k} from {[p[1] for p in ps][:8]}, masks {rel}: "
        for name, way in self.ways(t).items():
            bulk = name.startswith("concatenate")
            if name == "right":
                exp = ss[-1]
                for s in reversed(ss[:-1]):
                    exp = model.concat([s, exp], False)
            else:
                exp = model.concat(ss, bulk)
            r = way(objs)
            n = sum(len(o) for o in objs)
            require(len(r) == n, lambda: what + f"{name}: length {len(r)}, parts sum to {n}")
            got = hold.snapshot(r)
            m = model.diff(got, exp)
            require(not m, lambda: what + f"{name}: {m}")
            require(r.get_sh_degree() == gen.DEG_OF_K[k], lambda: what + f"{name}: SH degree {r.get_sh_degree()}")
            for o, s in zip(objs, ss):
                m = hold.same_snapshot(hold.snapshot(o), s)
                require(not m, lambda: what + f"{name} changed a part: {m}")
            ctx.count("combined")
            if not bulk:
                ctx.count("mask_relations")
            ctx.feat(name, cnt, t, [p[1] for p in ps][:2], rel, k)
            if name in ("+", "concatenate"):         # the result combines again
                r2 = r + objs[0]
                m = model.diff(hold.snapshot(r2), model.concat([got, ss[0]], False))
                require(not m, lambda: what + f"({name}) + first part: {m}")
                ctx.count("chains")
        ctx.sample({"sizes": [len(o) for o in objs], "K": k, "masks": rel, "tensor": bool(t), "origins": [p[1] for p in ps]})

    def refuse(self, rng, c, ctx):
        k, t, f = c["K"], c["t"], c["f"]
        r = [int(rng.integers(2)) for _ in range(3)]
        n = int(rng.choice([1, 2, 33])), int(rng.choice([1, 5, 40]))
        k2 = k
        r2 = list(r)
        if f == "degree":
            k2 = int(rng.choice([x for x in (0, 3, 8, 15) if x != k]))
        else:
            i = ("scales", "opacities", "sh0").index(f)
            r2[i] = 1 - r[i]
        mk = []
        for nn, kk, rr in ((n[0], k, r), (n[1], k2, r2)):
            raw = hold.raw_of(hold.moderate(rng, nn, kk), *rr)
            d = hold.tensor(raw, hold.formats(*rr, kk)) if t else hold.gsdata(raw, hold.formats(*rr, kk), "mixed" if rng.random() < .3 else None, rng)
            if rng.random() < .4:
                d = d.consolidate()
            mk.append(d)
        third = rng.random() < .4
        ps = [mk[0], mk[0].clone() if t else mk[0].copy(), mk[1]] if third else ([mk[0], mk[1]] if rng.random() < .5 else [mk[1], mk[0]])
        ss = [hold.snapshot(o) for o in ps]
        for o in (1, 5.0, "x", None, [], (), {}, object(), ps[0].means):     # sums with what is no scene
            for name, way in (("+", lambda: ps[0] + o), ("right +", lambda: o + ps[0]), ("add", lambda: ps[0].add(o)), ("sum from", lambda: sum(ps, o))):
                if o is ps[0].means and name != "add":
                    continue                              # numpy and torch have the first say there
                try:
                    x = way()
                except Exception:
                    continue
                fail(f"{'tensor' if t else 'array'} scene {name} {type(o).__name__} {o!r:.40} gave {type(x).__name__}")
        for name, way in self.ways(t).items():
            try:
                x = way(ps)
            except ValueError:
                pass
            else:
                fail(f"{'tensor' if t else 'array'} parts with different {f} (formats {r} and {r2}, K {k} and {k2}) were combined by {name} into {len(x)} Gaussians")
            for o, s in zip(ps, ss):
                m = hold.same_snapshot(hold.snapshot(o), s)
                require(not m, lambda: f"a refused {name} changed a part: {m}")
            ctx.count("refusals")
            ctx.feat("refuse", f, name, t, third, k, k2)
