"""P19: consolidation, contiguity and memory layout are invisible: same values, and the same results afterwards."""
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket
from vf.checks import p09

CHANGES = ["consolidate", "consolidate_twice", "contiguous_new", "contiguous_inplace", "layout", "slice_of_base", "reversed", "cons_contig", "contig_cons", "copy", "base_then_edit_back", "readonly"]


def rows(x):
    return 0 if x is None else len(x)


class CHECK(Check):
    rule = "twin monitor: one scene in its given layout and the same scene after a layout change, then the same random operation sequence on both, compared bit for bit after every step; distinct by (container, change, origin layout, operation)"
    required = {"changes": 450, "twin_steps": 1500, "twin_saves": 200, "features": 500}
    n_quick, n_thorough = 330, 14000
    W = {"edit": 16, "edit_masks": 3, "getitem": 12, "get_gaussian": 2, "copy": 5, "add": 7, "bulk": 4, "consolidate": 5, "contiguous": 4, "convert": 10,
         "with_format": 2, "add_layer": 3, "remove_layer": 2, "apply_masks": 3, "to_other": 4, "dtype_trip": 2, "rebuild": 2}

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor
        import gsply, torch
        from gsply import GSTensor

    def directed(self, tier):
        for k in (0, 3, 8, 15):
            for t in (0, 1):
                for ch in CHANGES:
                    for n in (1, 2, 300):
                        yield {"k": "pair", "K": k, "t": t, "ch": ch, "n": n}
        for i, ch in enumerate(CHANGES):
            for t in (0, 1):
                yield {"k": "pair", "K": (0, 3, 8)[(i + t) % 3], "t": t, "ch": ch, "n": (70001, 4099)[(i // 3 + t) % 2]}
        for t in (0, 1):
            for ch in CHANGES[:2]:
                yield {"k": "pair", "K": 0, "t": t, "ch": ch, "n": 300_007}

    def change(self, rng, d, s, ch):
        """The same scene in another layout, or None."""
        t = E.is_t(d)
        n, k = len(d), s["v"]["shN"].shape[1]
        if ch in ("consolidate", "consolidate_twice"):
            r = d.consolidate()
            return r.consolidate() if ch.endswith("twice") else r
        if ch == "copy":
            return d.clone() if t else d.copy()
        if ch in ("layout", "reversed", "slice_of_base", "base_then_edit_back", "readonly"):
            fmt = s["fmt"]
            if ch == "slice_of_base":
                big = {f: np.concatenate([a[:1], a, a[:2]]) for f, a in s["v"].items()}
                if n == 0:
                    return None
                r = hold.tensor(big, fmt) if t else hold.gsdata(big, fmt, none_ok=False)
                r = r.consolidate()[1:n + 1]
            elif ch == "base_then_edit_back":
                r = hold.tensor(s["v"], fmt) if t else hold.gsdata(s["v"], fmt, none_ok=False)
                if n == 0:
                    return None
                r = r.consolidate()
                f = str(rng.choice(gen.F[:5]))
                getattr(r, f)[...] = 5
                setattr(r, f, E._t(s["v"][f]) if t else s["v"][f].copy())
            elif t:
                r = GSTensor(**{f: (lambda a: torch.from_numpy(np.ascontiguousarray(np.moveaxis(a, 0, -1))).movedim(-1, 0) if ch == "layout" else torch.from_numpy(np.repeat(a, 2, axis=0))[::2])(a)
                                for f, a in s["v"].items()}, _format=dict(fmt))
            elif ch == "reversed":
                v = {f: np.ascontiguousarray(a[::-1])[::-1] for f, a in s["v"].items()}
                from gsply import GSData
                r = GSData.from_arrays(*[v[f] for f in gen.F], format="ply").with_format(**fmt)
            elif ch == "readonly":
                v = {f: a.copy() for f, a in s["v"].items()}
                for a in v.values():
                    a.flags.writeable = False
                from gsply import GSData
                r = GSData.from_arrays(*[v[f] for f in gen.F], format="ply").with_format(**fmt)
            else:
                r = hold.gsdata(s["v"], fmt, "mixed", rng)
            m = s["masks"]
            r.masks = None if m is None else (E._t(m) if t else (np.asfortranarray(m) if rng.random() < .5 else m.copy()))
            r.mask_names = None if s["names"] is None else list(s["names"])
            return r
        if t:
            return None
        if ch == "contiguous_new":
            return d.make_contiguous(inplace=False)
        if ch == "contiguous_inplace":
            r = d.copy() if rng.random() < .5 else d[:]
            x = r.make_contiguous(inplace=True)
            require(x is r, "make_contiguous(inplace=True) returned another object")
            return r
        if ch == "cons_contig":
            return d.consolidate().make_contiguous(inplace=True)
        return d.make_contiguous(inplace=False).consolidate()

    def run(self, c, ctx):
        rng = rng_of("P19", c)
        k = c.get("K", gen.pick_k(rng))
        n = c.get("n", int(rng.choice([0, 1, 2, 5, 33, 256, 300, 1200], p=[.06, .1, .1, .2, .2, .12, .12, .1])))
        kinds = "AT" if "t" not in c else "AT"[c["t"]]
        d, how = E.origin(rng, n, k, ctx, kinds)
        if c["k"] == "pair" and rng.random() < .5 and not E.is_t(d):      # a strided origin
            d = d[::-1] if rng.random() < .5 else d.make_contiguous(inplace=False)
        s = hold.snapshot(d)
        ch = c.get("ch") or str(rng.choice(CHANGES))
        d2 = self.change(rng, d, s, ch)
        if d2 is None:
            return
        what = f"{E.kind(d)} scene from {how}, n={n} K={k}, {ch}: "
        for x, w in ((d2, "the values differ: "), (d, "the source changed: ")):
            m = hold.same_snapshot(hold.snapshot(x), s)
            require(not m, lambda: what + w + m)
        if "contig" in ch and not E.is_t(d):
            if ch != "contig_cons":
                require(d2.is_contiguous() and all(getattr(d2, f) is None or getattr(d2, f).flags.c_contiguous for f in gen.F), lambda: what + "not contiguous afterwards")
        require(len(d2) == n and d2.get_sh_degree() == gen.DEG_OF_K[k], lambda: what + "length or SH degree changed")
        if not E.is_t(d2):
            fl = [x.flags.c_contiguous for x in [getattr(d2, f) for f in gen.F] + [d2.masks] if x is not None]
            require(d2.is_contiguous() == all(fl), lambda: what + f"is_contiguous() is {d2.is_contiguous()}, the arrays say {fl}")
        ctx.count("changes")
        if ch == "readonly" or d2 is d:
            d2 = d2 if ch == "readonly" else (d2.clone() if E.is_t(d) else d2.copy())
        # a view onto the source would see edits twice: give the twin its own source when memory is shared
        if ch in ("contiguous_new", "cons_contig", "contig_cons", "consolidate", "consolidate_twice", "contiguous_inplace"):
            d = d.clone() if E.is_t(d) else d.copy() if rng.random() < .3 else self.reown(d)
        hist = []
        a, b = d, d2
        for _ in range(int(rng.integers(3, 8))):
            sa = hold.snapshot(a)
            w2 = what + f"after {hist[-5:]} "
            if rng.random() < .15:
                self.save(rng, a, b, sa, ctx, w2)
                continue
            st, objs, os_ = p09.draw(rng, sa, a, [(a, sa)], {x: y for x, y in self.W.items() if ch != "readonly" or x not in ("edit", "convert", "edit_masks")})
            if ch == "readonly" and "inplace=True" in st.label:
                continue
            if st.raises:
                for x in (a, b):
                    try:
                        st.run(x, *[x for _ in objs])
                    except st.raises:
                        continue
                    fail(w2 + f"{st.label} was accepted")
                continue
            exp, tol = p09.expected(st, a, sa, os_)
            ra = st.run(a, *[a for _ in objs])
            rb = st.run(b, *[b for _ in objs])
            ga, gb = hold.snapshot(ra), hold.snapshot(rb)
            for g, w in ((ga, "with the original layout"), (gb, "after the layout change")):
                m = model.diff(g, exp, tol)
                require(not m, lambda: w2 + f"{st.label} {w}: {m}")
            if not tol:
                m = hold.same_snapshot(gb, ga)
                require(not m, lambda: w2 + f"{st.label}: result differs from the same operation without the layout change: {m}")
            ctx.count("twin_steps")
            ctx.feat(E.kind(a), ch, how, st.label.split("(")[0], k > 0)
            hist.append(st.label)
            if tol:       # keep the twins identical for the following comparisons
                if E.kind(ra) == E.kind(rb):
                    for f in tol:
                        x, y = getattr(ra, f), getattr(rb, f)
                        y[...] = x.clone() if E.is_t(ra) else x.copy()
            if len(ra) < 3000:
                a, b = ra, rb
            if not len(a):
                break
        ctx.sample({"origin": how, "change": ch, "n": n, "K": k, "history": hist})

    @staticmethod
    def reown(d):
        """The same scene with its own memory and the same strides, buffer or not."""
        import copy
        return copy.deepcopy(d)

    def save(self, rng, a, b, s, ctx, what):
        how = str(rng.choice(["save", "plywrite", "save_c", "plywrite_c"]))
        if model.lin_s(s) or model.lin_o(s) or model.rgb(s):
            for x, w in ((a, "original layout"), (b, "after the layout change")):
                m = E.check_saved(s, E.saved(how, x, ctx.path("s.ply")))
                require(not m, lambda: what + f"{how} ({w}): {m}")
        else:
            out = []
            for x in (a, b):
                p = ctx.path("s.ply")
                E.saved(how, x, p)
                import glob, os
                out.append([open(q, "rb").read() for q in sorted(glob.glob(os.path.dirname(p) + "/*"))])
            require(out[0] == out[1] and len(out[0]) == 1, lambda: what + f"{how}: the file bytes depend on the memory layout")
        ctx.count("twin_saves")
