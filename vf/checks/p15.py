"""P15: indexing behaves like numpy indexing applied to every field at once."""
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket

STYLES = ["slice", "slice", "mask", "ints", "list", "masklist", "empty", "negstep", "npints32"]


class CHECK(Check):
    rule = "scene origin x container x consolidated or not x key kind x nesting depth, plus integer access, iteration and out-of-range keys; distinct by (origin, container, K, key kind, depth, n bucket)"
    required = {"selections": 1500, "tuples": 300, "refusals": 150, "features": 250}
    n_quick, n_thorough = 420, 14000

    def setup(self, ctx, tier):
        import gsply, torch
        from gsply import GSTensor

    def directed(self, tier):
        # every integer and every small slice of small scenes
        return [{"k": "dir", "n": n, "K": K, "o": o, "t": t} for n in (0, 1, 4) for K, o in ((0, "arrays"), (3, "consolidated"), (15, "arrays"), (8, "consolidated")) for t in (0, 1)] + list(gen.big(tier, 8))

    def same_tuple(self, got, s, i, what):
        require(isinstance(got, tuple) and len(got) == 7, what + f"returned {type(got)}")
        for f, g in zip(gen.F, got):
            w = s["v"][f][i]
            if f == "shN" and g is None:
                require(w.size == 0, what + "no SH coefficients")
                continue
            g = np.asarray(g.detach().numpy() if hasattr(g, "detach") else g)
            require(ref.bits_equal(g, w), lambda: what + f"{f} is {g!r}, expected {w!r}")
        m = got[6]
        require((m is None) == (s["masks"] is None), what + "mask row")
        if m is not None:
            m = np.asarray(m.detach().numpy() if hasattr(m, "detach") else m)
            require(m.shape == s["masks"][i].shape and (m == s["masks"][i]).all(), lambda: what + f"mask row {m}, expected {s['masks'][i]}")

    def select(self, d, s, key, fn, what, ctx):
        r = fn(d)
        exp = model.index(s, key)
        got = hold.snapshot(r)
        m = model.diff(got, exp)
        require(not m, lambda: what + m)
        require((got["masks"] is None) == (exp["masks"] is None) and (got["masks"] is None or got["masks"].shape == exp["masks"].shape), lambda: what + f"masks have shape {got['masks'].shape}")
        require(len(r) == len(exp["v"]["means"]) and r.get_sh_degree() == d.get_sh_degree() or len(d) == 0, what + f"length {len(r)}, SH degree {r.get_sh_degree()}")
        ctx.count("selections")
        return r

    def refuse(self, d, s, fn, types, what, ctx):
        try:
            fn(d)
        except types:
            ctx.count("refusals")
            m = hold.same_snapshot(hold.snapshot(d), s)
            require(not m, lambda: what + "refused but the scene changed: " + m)
            return
        except Exception as e:
            fail(what + f"raised {type(e).__name__}: {e}")
        fail(what + "was accepted")

    def run(self, c, ctx):
        rng = rng_of("P15", c)
        if c["k"] == "dir":
            return self.small(c, rng, ctx)
        k, n = c.get("K", gen.pick_k(rng)), c["n"] if "n" in c else (gen.pick_n(rng, .03) if rng.random() < .6 else int(rng.integers(0, 12)))
        d, how = E.origin(rng, n, k, ctx, formats=True, flavour="wild" if rng.random() < .3 else None)
        t = E.is_t(d)
        for depth in range(int(rng.integers(1, 5))):
            s = hold.snapshot(d)
            n = len(d)
            what = f"{how} n={n} K={k} depth={depth}: "
            for _ in range(2):
                st, key = E.draw_key(rng, n)
                while st == "negstep" and t:
                    st, key = E.draw_key(rng, n)
                if not t and rng.random() < .35:
                    fn, lab = (lambda d, key=key: d.copy_slice(key)), "copy_slice"
                else:
                    bit = bool(rng.random() < .5)
                    fn, lab = (lambda d, key=key, bit=bit: d[E.key_for(d, key, bit)]), "[]"
                r = self.select(d, s, key, fn, what + f"{lab} {st} {key if isinstance(key, slice) else ''}: ", ctx)
                ctx.feat(how, t, k, st, lab, depth, bucket(n))
            if n:
                i = int(rng.integers(-n, n))
                ix = i if rng.random() < .5 else rng.choice([np.int64, np.int32, np.intp])(i)
                self.same_tuple(d[ix], s, i, what + f"[{ix!r}]: ")
                g = int(rng.integers(-n, n))
                self.select(d, s, slice(g % n, g % n + 1), lambda d: d.get_gaussian(g), what + f"get_gaussian({g}): ", ctx)
                if not t:
                    self.select(d, s, slice(i % n, i % n + 1), lambda d: d.copy_slice(i), what + f"copy_slice({i}): ", ctx)
                    z = rng.choice([np.int64, np.int32, np.int16])(i) if abs(i) < 30000 else np.int64(i)
                    self.select(d, s, slice(i % n, i % n + 1), lambda d: d.copy_slice(z), what + f"copy_slice({z!r}): ", ctx)
                ctx.count("tuples")
            st = E.bad_index(rng, s)
            if st:
                self.refuse(d, s, st.run, st.raises, what + st.label + ": ", ctx)
            if n <= 20 and rng.random() < .3:
                got = list(d) if not t else [d[i] for i in range(n)]
                require(len(got) == n, what + f"iteration yields {len(got)} items")
                for i, g in enumerate(got):
                    self.same_tuple(g, s, i, what + f"iteration item {i}: ")
            m = hold.same_snapshot(hold.snapshot(d), s)
            require(not m, lambda: what + "indexing changed the scene: " + m)
            d = r if rng.random() < .8 else d
        ctx.sample({"origin": how, "K": k, "n": n, "depth": depth})

    def small(self, c, rng, ctx):
        n, k = c["n"], c["K"]
        s0 = hold.moderate(rng, n, k, "ids")
        fmt = hold.formats(0, 0, 0, k)
        d = hold.tensor(s0, fmt) if c["t"] else hold.gsdata(s0, fmt)
        d.add_mask_layer("p", E.tmask(d, rng.random(n) < .5))
        d.add_mask_layer("q", E.tmask(d, rng.random(n) < .5))
        if c["o"] == "consolidated":
            d = d.consolidate()
        s = hold.snapshot(d)
        what = f"small {c}: "
        ends = [None] + list(range(-n - 2, n + 3))
        for a in ends:
            for b in ends:
                for st in (None, 1, 2, 3) + (() if c["t"] else (-1, -2)):
                    self.select(d, s, slice(a, b, st), lambda d: d[a:b:st], what + f"[{a}:{b}:{st}]: ", ctx)
        for i in range(-n - 2, n + 2):
            if -n <= i < n:
                self.same_tuple(d[i], s, i, what + f"[{i}]: ")
                self.select(d, s, [i], lambda d: d[[i]], what + f"[[{i}]]: ", ctx)
                ctx.count("tuples")
            else:
                for fn in (lambda d: d[i], lambda d: d[np.int64(i)], lambda d: d[[i]], lambda d: d[np.array([i])], lambda d: d.get_gaussian(i)):
                    self.refuse(d, s, fn, (IndexError,), what + f"index {i}: ", ctx)
                if not c["t"]:
                    self.refuse(d, s, lambda d: d.copy_slice(i), (IndexError,), what + f"copy_slice({i}): ", ctx)
        for bits in range(2 ** n):
            m = np.array([bits >> j & 1 for j in range(n)], bool)
            self.select(d, s, m, lambda d: d[m], what + f"mask {m}: ", ctx)
        ctx.feat("small", c["t"], k, c["o"], n)
