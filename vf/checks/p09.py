"""P09: every deriving operation uses the field values visible at that moment, whatever happened before."""
import numpy as np
from vf import engine as E, gen, hold, model
from vf.core import Check, require, fail, rng_of, bucket


def draw(rng, s, d, pool, weights):
    """One step for the object d with snapshot s; pool: [(obj, snapshot)] of the same kind."""
    while True:
        g = str(rng.choice(list(weights), p=np.array(list(weights.values())) / sum(weights.values())))
        if g == "add" or g == "bulk":
            k = E.kind(d)
            same = [(o, x) for o, x in pool if E.kind(o) == k and len(x["v"]["means"]) + len(s["v"]["means"]) < 6000]
            ok = [p for p in same if model.mergeable(s, p[1])]
            src = ok if ok and rng.random() < .85 else same
            if not src or (g == "bulk" and k == "T"):
                continue
            c = 1 if g == "add" else int(rng.integers(1, 4))
            os_ = [src[int(rng.integers(len(src)))] for _ in range(c)]
            st = getattr(E, g)(rng, s, [x for _, x in os_])
            return st, [o for o, _ in os_], [x for _, x in os_]
        st = getattr(E, g)(rng, s)
        if st is None or E.kind(d) not in st.kinds:
            continue
        return st, [], []


def expected(st, d, s, os_):
    if getattr(st, "kind_model", False):
        return st.model(s, E.is_t(d))
    return st.model(s, *os_)


class CHECK(Check):
    rule = "random operation histories (edits, replacements, conversions, slices, masks, combination, consolidation, transfer, save) over a pool of scenes; distinct by (origin, last two operations before, operation, container)"
    required = {"derivations": 600, "after_edit": 200, "saves": 100, "again": 150, "features": 500}
    n_quick, n_thorough = 300, 9000
    W = {"edit": 38, "resize": 2, "edit_masks": 5, "getitem": 12, "get_gaussian": 2, "copy": 7, "add": 8, "bulk": 4, "consolidate": 8, "contiguous": 5, "convert": 12,
         "with_format": 2, "add_layer": 4, "remove_layer": 2, "apply_masks": 4, "to_other": 7, "dtype_trip": 2, "rebuild": 2}
    P_SAVE = .12

    def setup(self, ctx, tier):
        import gsply, torch
        from gsply import GSTensor

    def saves(self, rng, d, s, ctx, what):
        t = E.is_t(d)
        hows = ["save", "plywrite", "save_c", "plywrite_c"] + (["to_ply_data"] if t else [])
        if not t and not (model.lin_s(s) or model.lin_o(s) or model.rgb(s)):
            hows.append("bytes")
        how = str(rng.choice(hows))
        if how == "to_ply_data" and model.rgb(s):
            how = "save"
        got = E.saved(how, d, ctx.path("s.ply"))
        m = E.check_saved(s, got)
        require(not m, lambda: what + f"saved with {how}: {m}; the fields show other values")
        ctx.count("saves")
        return how

    def again(self, rng, st, d, objs, r, ctx, what):
        """The same operation once more after an edit of its source: the new values, and the first result as it was."""
        first = hold.snapshot(r)
        for _ in range(int(rng.choice([1, 1, 2]))):
            ed = E.edit(rng, hold.snapshot(d))
            if E.kind(d) not in ed.kinds or ed.raises:
                continue
            ed.run(d)
        exp, tol = expected(st, d, hold.snapshot(d), [hold.snapshot(o) for o in objs])
        r2 = st.run(d, *objs)
        m = model.diff(hold.snapshot(r2), exp, tol)
        require(not m, lambda: what + f"{st.label}, {ed.label}, {st.label} again: {m}")
        if st.alias == "copy":
            m = hold.same_snapshot(hold.snapshot(r), first)
            require(not m, lambda: what + f"{st.label}, {ed.label}: the earlier result changed: {m}")
        ctx.count("again")
        ctx.feat("again", st.label.split("(")[0], ed.label.split("(")[0], E.kind(d))
        return r2

    def directed(self, tier):
        yield from gen.big(tier, 6)

    def run(self, c, ctx):
        rng = rng_of("P09", c)
        k = c.get("K", gen.pick_k(rng))
        pool, most = [], max(3000, 3 * c.get("n", 0))
        for _ in range(2):
            n = int(rng.choice([0, 1, 2, 5, 17, 40, 256, 300], p=[.04, .08, .08, .2, .2, .2, .1, .1]))
            if "n" in c and not pool:
                n = c["n"]
            d, how = E.origin(rng, n, k, ctx)
            pool.append((d, how, []))
        for _ in range(int(rng.integers(6, 14)) if ctx.tier == "quick" else int(rng.integers(6, 40))):
            i = int(rng.integers(len(pool)))
            d, how, hist = pool[i]
            s = hold.snapshot(d)
            what = f"{E.kind(d)} scene from {how}, n={len(d)} K={k}, after {hist[-6:]}: "
            if rng.random() < self.P_SAVE:
                hist.append(self.saves(rng, d, s, ctx, what))
                ctx.feat(how, hist[-3:-1], hist[-1])
                continue
            st, objs, os_ = draw(rng, s, d, [(o, hold.snapshot(o)) for o, _, _ in pool], self.W)
            if st.raises:
                try:
                    st.run(d, *objs)
                except st.raises:
                    continue
                fail(what + f"{st.label} was accepted")
            exp, tol = expected(st, d, s, os_)
            r = st.run(d, *objs)
            m = model.diff(hold.snapshot(r), exp, tol)
            require(not m, lambda: what + f"{st.label}: {m}")
            if r is not d and st.alias in ("copy", "any") and rng.random() < .5:
                r = self.again(rng, st, d, objs, r, ctx, what)
                hist.append("edit, again")
            if st.group != "edit":
                ctx.count("derivations")
                if any(h.startswith(("edit", "replace", "masks")) for h in hist[-3:]):
                    ctx.count("after_edit")
                ctx.count("op:" + st.label.split("(")[0].split("[")[0])
            ctx.feat(how, [h.split("(")[0] for h in hist[-2:]], st.label)
            if r is d:
                hist.append(st.label)
            else:
                new = (r, how, hist + [st.label])
                if len(pool) < 4 and len(r) < most:
                    pool.append(new)
                elif len(r) < most:
                    pool[int(rng.integers(len(pool)))] = new
        ctx.sample({"origins": [p[1] for p in pool], "K": k, "history": pool[-1][2]})
