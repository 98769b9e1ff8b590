"""P16: copies and out-of-place results are independent; plain slices and re-declared views share."""
import numpy as np
from vf import engine as E, gen, hold, model
from vf.core import Check, require, fail, rng_of, bucket

COPY = ["copy", "getitem", "add", "bulk", "convert", "apply", "decompress", "load", "func", "copy_slice", "to_ply", "consolidate", "consolidate"]
VIEW = ["slice", "get_gaussian", "with_format"]
MUT = ["fields", "fields", "masks", "names", "declare", "convert", "add_layer", "remove_layer", "apply_masks", "replace", "one"]


def mutate(rng, d, how):
    """Change d as a program might; False when not applicable."""
    t = E.is_t(d)
    s = hold.snapshot(d)
    n, k = len(d), s["v"]["shN"].shape[1]
    if how == "fields":
        if not n:
            return False
        for f in gen.F:
            if f == "shN" and not k:
                continue
            x = getattr(d, f)
            if t:
                x.mul_(-1.5).add_(.25)
            else:
                x *= -1.5
                x += .25
    elif how == "one":
        if not n:
            return False
        f = str(rng.choice(gen.F[:5]))
        getattr(d, f)[int(rng.integers(n))] = 77.0
    elif how == "masks":
        if d.masks is None or not n:
            return False
        d.masks[...] = ~d.masks
    elif how == "names":
        if d.mask_names is None:
            return False
        if rng.random() < .5:
            d.mask_names[0] = "changed"
        else:
            d.mask_names.append("more")
    elif how == "declare":
        k2 = {0: 3, 3: 8, 8: 15, 15: 0}[k]
        other = hold.gsdata(gen.scene(rng, 1, k2), hold.formats(not model.lin_s(s), not model.lin_o(s), not model.rgb(s), k2))
        d.copy_format_from(other)
    elif how == "convert":
        E.convert(rng, s, True).run(d)
        (d.to_sh if model.rgb(hold.snapshot(d)) else d.to_rgb)()
    elif how == "add_layer":
        d.add_mask_layer("brand new", E.tmask(d, np.ones(n, bool)))
    elif how == "remove_layer":
        if not d.mask_names:
            return False
        d.remove_mask_layer(d.mask_names[0])
    elif how == "apply_masks":
        if d.masks is None:
            return False
        d.apply_masks("or", inplace=True)
    else:
        for f in gen.F[:5]:
            v = hold.values(d)[f] + 1
            setattr(d, f, E._t(v) if t else v)
    return True


class CHECK(Check):
    rule = "every deriving operation x scene origin x mutation of either side afterwards, in sequence; snapshots of the other side around each mutation; distinct by (origin, operation, mutation, side)"
    required = {"copy_mutations": 600, "view_writes": 120, "features": 300}
    n_quick, n_thorough = 420, 14000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor
        import gsply, torch
        from gsply import GSTensor

    def derive(self, rng, how, d, s, ctx):
        """(label, function without arguments producing the result, further source objects) or None."""
        t = E.is_t(d)
        n, k = len(d), s["v"]["shN"].shape[1]
        if how == "copy":
            st = E.copy(rng, s)
            return st.label, lambda: st.run(d), []
        if how in ("getitem", "copy_slice"):
            if how == "copy_slice" and t:
                return None
            kind, key = E.draw_key(rng, n, str(rng.choice(["mask", "ints", "list", "masklist", "npints32", "empty"] + (["slice", "negstep"] if how == "copy_slice" else []))))
            if how == "copy_slice":
                if rng.random() < .2 and n:
                    i = int(rng.integers(-n, n))
                    return "copy_slice int", lambda: d.copy_slice(i), []
                return f"copy_slice {kind}", lambda: d.copy_slice(key), []
            bit = rng.random() < .5
            full = rng.random() < .3
            if full and n:      # selections of everything, in order
                kind, key = rng.choice(["allmask", "arange"]), None
                key = np.ones(n, bool) if kind == "allmask" else np.arange(n)
            return f"[{kind}]", lambda: d[E.key_for(d, key, bit)], []
        if how in ("add", "bulk"):
            if how == "bulk" and t:
                return None
            m = int(rng.choice([0, 1, 4, 30]))
            if rng.random() < .3 or model.rgb(s) or model.lin_s(s) != model.lin_o(s):
                o = E.copy(rng, s).run(d)
                if rng.random() < .3:
                    o = o[:0]
            else:
                raw = hold.raw_of(hold.moderate(rng, m, k), model.lin_s(s), model.lin_o(s), False)
                o = hold.tensor(raw, s["fmt"]) if t else hold.gsdata(raw, s["fmt"])
                if rng.random() < .5:
                    o = o.consolidate()
            if how == "bulk":
                return "concatenate", lambda: type(d).concatenate([o, d] if m else [d, o]), [o]
            w = str(rng.choice(["+", "add", "sum", "r+"]))
            return w, {"+": lambda: d + o, "r+": lambda: o + d, "add": lambda: d.add(o), "sum": lambda: sum([d, o])}[w], [o]
        if how == "convert":
            st = E.convert(rng, s, False)
            return st.label, lambda: st.run(d), []
        if how == "apply":
            if s["masks"] is None:
                return None
            ls = E.draw_layers(rng, s)
            md = str(rng.choice(["and", "or"]))
            return "apply_masks", lambda: d.apply_masks(md, ls), []
        if how == "decompress":
            if t:
                return None
            b = gsply.compress_to_bytes(d)
            return "decompress", lambda: gsply.decompress_from_bytes(b), [gsply.decompress_from_bytes(b)]
        if how == "load":
            p = ctx.path("l.ply")
            c = bool(rng.random() < .5)
            gsply.plywrite(p, d, compressed=c)
            p = p.replace(".ply", ".compressed.ply") if c else p
            if t:
                return "load", lambda: GSTensor.load(p, device="cpu"), [GSTensor.load(p, device="cpu")]
            return "load", lambda: gsply.plyread(p), [gsply.plyread(p)]
        if how == "func":
            if t:
                return None
            if model.lin_s(s) and model.lin_o(s):
                return "apply_pre_deactivations", lambda: gsply.apply_pre_deactivations(d, inplace=False), []
            if not model.lin_s(s) and not model.lin_o(s):
                return "apply_pre_activations", lambda: gsply.apply_pre_activations(d, inplace=False), []
            return None
        if how == "consolidate":
            if d._base is not None:     # may return the object itself
                return None
            return "consolidate", lambda: d.consolidate(), []
        if how == "to_ply":
            if not t:
                return None
            return "to_ply_tensor", lambda: d.to_ply_tensor(), []
        if how == "slice":
            kind, key = E.draw_key(rng, n, "slice" if t or rng.random() < .7 else "negstep")
            return f"view [{kind}]", lambda: d[key], [key]
        if how == "get_gaussian":
            if not n:
                return None
            i = int(rng.integers(-n, n))
            return "get_gaussian", lambda: d.get_gaussian(i), [slice(i % n, i % n + 1)]
        if how == "with_format":
            fmt = hold.formats(int(rng.integers(2)), int(rng.integers(2)), int(rng.integers(2)), k)
            return "with_format", lambda: d.with_format(**fmt), [slice(None)]

    def directed(self, tier):
        yield from gen.big(tier, 6)

    def run(self, c, ctx):
        rng = rng_of("P16", c)
        k = c.get("K", gen.pick_k(rng))
        n = c.get("n", int(rng.choice([0, 1, 2, 5, 17, 60, 256, 300], p=[.06, .1, .08, .2, .2, .2, .08, .08])))
        d, origin = E.origin(rng, n, k, ctx)
        for _ in range(4):
            how = str(rng.choice(COPY * 2 + VIEW * 3))
            s = hold.snapshot(d)
            x = self.derive(rng, how, d, s, ctx)
            if x is None:
                continue
            label, fn, extra = x
            what = f"{origin} n={len(d)} K={k} {label}: "
            r = fn()
            m = hold.same_snapshot(hold.snapshot(d), s)
            require(not m, lambda: what + "the source changed: " + m)
            if how in VIEW:
                require(r is not d, what + "returned the source itself")
                self.views(rng, d, r, extra[0], what, ctx, origin, label)
                d, origin = E.origin(rng, n, k, ctx)
                continue
            if how == "consolidate" and r is d:
                continue
            require(r is not d, what + "returned the source itself")
            sources = [d] + extra
            # the result is changed, the sources keep their state
            for mu in rng.permutation(MUT)[:3]:
                before = [hold.snapshot(o) for o in sources]
                if not mutate(rng, r, str(mu)):
                    continue
                for o, b in zip(sources, before):
                    m = hold.same_snapshot(hold.snapshot(o), b)
                    require(not m, lambda: what + f"changing the result ({mu}) changed the source: {m}")
                ctx.count("copy_mutations")
                ctx.feat(origin, label, mu, "result")
                if mu == "names":
                    break
            # a fresh result; the sources are changed, the result keeps its state
            r = fn()
            for o in sources:
                for mu in rng.permutation(MUT)[:2]:
                    b = hold.snapshot(r)
                    oo = [hold.snapshot(p) for p in sources if p is not o]
                    if not mutate(rng, o, str(mu)):
                        continue
                    m = hold.same_snapshot(hold.snapshot(r), b)
                    require(not m, lambda: what + f"changing the source ({mu}) changed the result: {m}")
                    for p, q in zip([p for p in sources if p is not o], oo):
                        m = hold.same_snapshot(hold.snapshot(p), q)
                        require(not m, lambda: what + f"changing one source ({mu}) changed another: {m}")
                    ctx.count("copy_mutations")
                    ctx.feat(origin, label, mu, "source")
                    if mu == "names":
                        break
            d, origin = E.origin(rng, n, k, ctx)
        # in-place operations return the object itself
        s = hold.snapshot(d)
        for st in (E.convert(rng, s, True), E.contiguous(rng, s)):
            if E.kind(d) in st.kinds and st.alias == "self":
                require(st.run(d) is d, f"{origin} n={len(d)} K={k} {st.label} returned another object")
                s = hold.snapshot(d)
        if s["masks"] is not None:
            require(d.apply_masks("or", inplace=True) is d, f"{origin}: apply_masks(inplace=True) returned another object")
        ctx.sample({"origin": origin, "n": n, "K": k})

    def views(self, rng, d, r, key, what, ctx, origin, label):
        k = hold.values(d)["shN"].shape[1]
        for side, (src, dst) in (("view", (r, d)), ("source", (d, r))):
            if not len(r):
                break
            for f in gen.F:
                if f == "shN" and not k:
                    continue
                a = getattr(src, f)
                if E.is_t(src):
                    a.mul_(-1.25).add_(3.0)
                else:
                    a *= -1.25
                    a += 3.0
                v, w = hold.values(d)[f][key], hold.values(r)[f]
                require(v.shape == w.shape and (v == w).all(), lambda: what + f"writing {f} of the {side} is not seen through the other side")
                ctx.count("view_writes")
        # names and declaration are the view's own
        for a, b, side in ((r, d, "view"), (d, r, "source")):
            for mu in ("declare", "add_layer", "names"):
                s = hold.snapshot(b)
                if not mutate(rng, a, mu):
                    continue
                q = hold.snapshot(b)
                require(q["names"] == s["names"] and q["fmt"] == s["fmt"] and (q["masks"] is None) == (s["masks"] is None) and (s["masks"] is None or (q["masks"].shape == s["masks"].shape and (q["masks"] == s["masks"]).all())),
                        lambda: what + f"{mu} on the {side} changed the other side's masks, names or declared format")
                ctx.feat(origin, label, mu, side)
            if a.mask_names is not None and a.masks is not None:
                a.mask_names = a.mask_names[:model.canon(hold.masks(a)[1]).shape[1]]
