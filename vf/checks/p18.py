"""P18: mask layers against a dictionary of named boolean columns, over operation sequences."""
import numpy as np
from vf import engine as E, gen, hold, model
from vf.core import Check, require, fail, rng_of, bucket


class Table:
    """The dictionary model: ordered name -> column, plus the identity of every row."""

    def __init__(self, ids, layers=None):
        self.ids, self.layers = ids, dict(layers or {})

    def take(self, key):
        return Table(self.ids[key], {k: v[key] for k, v in self.layers.items()})

    def copy(self):
        return Table(self.ids.copy(), {k: v.copy() for k, v in self.layers.items()})

    def combine(self, mode, names):
        cols = [self.layers[x] for x in (names if names is not None else self.layers)]
        r = np.zeros(len(self.ids), int)
        for c in cols:
            r = r + c
        return r == len(cols) if mode == "and" else r > 0


def pick(rng, names):
    """Some layer names in any order; as in any table, a column may be named twice."""
    if rng.random() < .3:
        return [str(x) for x in rng.choice(names, int(rng.integers(1, len(names) + 2)))]
    return [str(x) for x in rng.permutation(names)[:int(rng.integers(1, len(names) + 1))]]


def arr(x):
    return x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)


class CHECK(Check):
    rule = "random sequences of mask-layer operations mixed with indexing, copying and combining, against a dictionary of columns; state compared after every step; distinct by (container, last operation, operation, layer count, size class)"
    required = {"steps": 3000, "combines": 800, "applies": 250, "refusals": 300, "features": 350}
    n_quick, n_thorough = 360, 12000
    OPS = ["add", "add", "add", "get", "remove", "replace", "combine", "combine", "apply", "index", "copy", "concat", "bad", "write", "transfer", "reorder_add"]

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor
        import gsply, torch
        from gsply import GSTensor

    def directed(self, tier):
        for n in (0, 1, 2, 7, 8, 9, 63, 64, 65, 1000, 10007) + ((100003,) if tier == "thorough" else ()):
            for L in (1, 2, 3, 5, 9, 33, 70):
                yield {"k": "combine", "n": n, "L": L}
        for n, L in ((70001, 3), (70001, 9), (300007, 2)):
            yield {"k": "combine", "n": n, "L": L}
        for n in (1, 5, 65):                  # around the widths of small counters
            for L in (127, 128, 129, 255, 256, 257, 300, 512) + ((65536,) if n == 1 and tier == "thorough" else ()):
                yield {"k": "combine", "n": n, "L": L}
        yield from gen.big(tier, 4)

    def scene(self, rng, n, k, t):
        s = hold.moderate(rng, n, k)
        s["means"] = np.stack([np.arange(n), np.arange(n) % 97, -np.arange(n)], 1).astype(np.float32).reshape(n, 3)
        d = hold.gsdata(s, hold.formats(0, 0, 0, k), "mixed" if rng.random() < .3 else None, rng)
        if rng.random() < .5 and n:
            d = d.consolidate()
        if t:
            d = GSTensor.from_gsdata(d, device="cpu") if rng.random() < .6 else hold.tensor(s, hold.formats(0, 0, 0, k))
        d.masks = d.mask_names = None
        return d, s

    def check(self, d, T, src, what):
        """The object's rows and layers are the model's."""
        n = len(T.ids)
        require(len(d) == n, lambda: what + f"{len(d)} Gaussians, the model has {n}")
        got = hold.values(d)
        for f in gen.F:
            require(np.array_equal(got[f], src[f][T.ids]), lambda: what + f"{f} is not the field of the selected Gaussians in order")
        nm, m = hold.masks(d)
        if not T.layers:
            require(m is None and nm is None, lambda: what + f"masks present ({nm}) where no layer exists")
            return
        require(m is not None, lambda: what + f"masks gone, expected layers {list(T.layers)}")
        require(nm == list(T.layers), lambda: what + f"layer names {nm}, expected {list(T.layers)}")
        c = model.canon(m)
        require(c.shape == (n, len(T.layers)) and c.dtype == bool, lambda: what + f"masks of shape {m.shape} {m.dtype} for {len(T.layers)} layers of {n}")
        for i, (x, col) in enumerate(T.layers.items()):
            require(np.array_equal(c[:, i], col), lambda: what + f"layer {x!r} (column {i}) changed its values")
            g = arr(d.get_mask_layer(x))
            require(g.shape == (n,) and g.dtype == bool and np.array_equal(g, col), lambda: what + f"get_mask_layer({x!r}) is not that layer's column")

    def combine(self, rng, d, T, ctx, what):
        for mode in ("and", "or"):
            for ls in (None, pick(rng, list(T.layers)), [str(rng.choice(list(T.layers)))]):
                try:
                    g = arr(d.combine_masks(mode, ls))
                except ValueError:
                    if ls is None or len(set(ls)) == len(ls):
                        raise
                    continue        # a selection naming a layer twice may be refused, but not misread
                w = T.combine(mode, ls)
                require(g.shape == w.shape and g.dtype == bool and np.array_equal(g, w), lambda: what + f"combine_masks({mode}, {ls}) selects {int(g.sum()) if g.dtype == bool else g.dtype} of {len(w)}, expected {int(w.sum())}")
                ctx.count("combines")

    def run(self, c, ctx):
        rng = rng_of("P18", c)
        if c["k"] == "combine":
            for t in (0, 1):
                d, src = self.scene(rng, c["n"], 0, t)
                T = Table(np.arange(c["n"]))
                if c["L"] > 100 or rng.random() < .5:
                    m = rng.random((c["n"], c["L"])) < rng.choice([.03, .5, .97])
                    if c["n"]:
                        m[0] = True                                   # every layer set: counts equal the number of layers
                    if c["n"] > 3:
                        m[1], m[2] = False, np.arange(c["L"]) != int(rng.integers(c["L"]))
                        m[3] = np.arange(c["L"]) == int(rng.integers(c["L"]))
                    lay = int(rng.integers(3))
                    x = m if lay == 0 else (np.asfortranarray(m) if lay == 1 else np.repeat(m, 2, 1)[:, ::2])
                    d.masks = E._t(x) if t else x
                    d.mask_names = [f"n{i}" for i in range(c["L"])]
                    T.layers = {f"n{i}": m[:, i] for i in range(c["L"])}
                else:
                    for i in range(c["L"]):
                        col = rng.random(c["n"]) < rng.choice([.03, .5, .97, 1])
                        d.add_mask_layer(f"n{i}", E.tmask(d, col))
                        T.layers[f"n{i}"] = col
                what = f"{c['L']} layers of {c['n']}, {'tensor' if t else 'array'}: "
                self.combine(rng, d, T, ctx, what)
                for mode in ("and", "or"):
                    r = d.apply_masks(mode)
                    self.check(r, T.take(T.combine(mode, None)), src, what + f"apply_masks({mode}): ")
                    ctx.count("applies")
                self.check(d, T, src, what + "afterwards: ")
                ctx.feat("sweep", c["L"], bucket(c["n"]), t)
            return
        k = c.get("K", gen.pick_k(rng))
        t = int(rng.integers(2))
        n = c["n"] if "n" in c else int(rng.choice([0, 1, 2, 3, 9, 20, 40, 300], p=[.05, .1, .1, .15, .2, .2, .15, .05]))
        d, src = self.scene(rng, n, k, t)
        T = Table(np.arange(n))
        hist = []
        if n and rng.random() < .2:         # many layers from the start
            L = int(rng.choice([2, 8, 9, 12, 17, 40]))
            m = rng.random((n, L)) < .5
            d.masks, d.mask_names = E._t(m) if t else m, [f"q{j}" for j in range(L)]
            T.layers = {f"q{j}": m[:, j].copy() for j in range(L)}
        steps = int(rng.integers(8, 25))
        i = 0
        while i < steps:
            op = str(rng.choice(self.OPS))
            what = f"{E.kind(d)} n={len(T.ids)} layers={list(T.layers)} after {hist[-6:]} then {op}: "
            r = self.step(rng, op, d, T, src, ctx, what)
            if r is None:
                continue
            i += 1
            d2, T2, label = r
            self.check(d2, T2, src, what + f"{label}: ")
            if d2 is not d:
                self.check(d, T, src, what + f"{label} changed its source: ")
            ctx.count("steps")
            ctx.feat(E.kind(d), hist[-1:], label, min(len(T.layers), 4), bucket(len(T.ids)))
            hist.append(label)
            if len(T2.ids) or rng.random() < .4:
                d, T = d2, T2
        ctx.sample({"n": n, "K": k, "history": hist})

    def step(self, rng, op, d, T, src, ctx, what):
        n, L = len(T.ids), list(T.layers)
        t = E.is_t(d)
        if op in ("add", "reorder_add"):
            free = [x for x in E.NAMES + [f"x{j}" for j in range(40)] if x not in T.layers]
            name = str(free[int(rng.integers(min(len(free), 12)))])
            col = rng.random(n) < .5
            how = str(rng.choice(["array", "list", "view", "int"]))
            m = E.tmask(d, col) if how == "array" else col.tolist() if how == "list" else col.astype(np.int32) if how == "int" else np.repeat(col, 2)[::2]
            if t and how == "int":
                m = torch.from_numpy(m)
            if n == 0 and how == "list":
                m = np.zeros(0, bool)
            d.add_mask_layer(name, m)
            if how == "array" and n and not t:        # the caller goes on using its own array
                m[:] = ~m
            T.layers[name] = col
            return d, T, f"add {how}"
        if op == "get":
            return (d, T, "get") if L else None
        if op == "remove":
            if not L:
                return None
            x = str(rng.choice(L))
            d.remove_mask_layer(x)
            del T.layers[x]
            return d, T, f"remove {['first', 'mid', 'last'][0 if L.index(x) == 0 else 2 if L.index(x) == len(L) - 1 else 1]}"
        if op == "replace":         # remove and add again under the same name: goes to the end
            if not L:
                return None
            x = str(rng.choice(L))
            col = rng.random(n) < .5
            d.remove_mask_layer(x)
            d.add_mask_layer(x, E.tmask(d, col))
            del T.layers[x]
            T.layers[x] = col
            return d, T, "replace"
        if op == "write":           # in place through the visible array
            if not L or not n:
                return None
            i, j = int(rng.integers(n)), int(rng.integers(len(L)))
            if d.masks.ndim == 1:
                d.masks[i] = True
            else:
                d.masks[i, j] = True
            c = T.layers[L[j]].copy()
            c[i] = True
            T.layers[L[j]] = c
            return d, T, "write"
        if op == "combine":
            if not L:
                return None
            self.combine(rng, d, T, ctx, what)
            return d, T, "combine"
        if op == "apply":
            if not L:
                return None
            mode, ip = str(rng.choice(["and", "or"])), bool(rng.random() < .4)
            ls = None if rng.random() < .5 else pick(rng, L)
            try:
                r = d.apply_masks(mode, ls, inplace=ip) if rng.random() < .5 else d.apply_masks(mode=mode, layers=ls, inplace=ip)
            except ValueError:
                if ls is None or len(set(ls)) == len(ls):
                    raise
                return d, T, "apply refused"
            T2 = T.take(T.combine(mode, ls))
            ctx.count("applies")
            if ip:
                require(r is d, what + "apply_masks(inplace=True) returned another object")
                T.ids, T.layers = T2.ids, T2.layers
                return d, T, "apply inplace"
            return r, T2, "apply"
        if op == "index":
            st, key = E.draw_key(rng, n, None if not t else str(rng.choice(["slice", "mask", "ints", "list", "masklist", "empty"])))
            if isinstance(key, list):
                kk = np.asarray(key, bool if st == "masklist" else np.intp)
            else:
                kk = key
            return d[key], T.take(kk), f"index {st}"
        if op == "copy":
            how = str(rng.choice(["copy", "consolidate", "contiguous", "convert", "with_format"]))
            r = {"copy": lambda: d.clone() if t else d.copy(), "consolidate": lambda: d.consolidate(), "contiguous": lambda: d if t else d.make_contiguous(inplace=False),
                 "convert": lambda: d.to_rgb(inplace=False).to_sh(inplace=False), "with_format": lambda: d.with_format()}[how]()
            if how == "convert":        # only masks and rows matter here
                r.sh0 = d.sh0.clone() if t else d.sh0.copy()
            return r, T.copy(), how
        if op == "transfer":
            if t:
                return d.to_gsdata(), T.copy(), "to arrays"
            return GSTensor.from_gsdata(d, device="cpu"), T.copy(), "to tensor"
        if op == "concat":
            if n > 600:
                return None
            rel = str(rng.choice(["same", "permuted", "none", "different", "self"]))
            if rel == "self" or n == 0:
                o, T0 = d, T
            else:
                st, key = "mask", rng.random(n) < .5
                o, T0 = d[E.tmask(d, key)], T.take(key)
                if rel == "none":
                    o.masks = o.mask_names = None
                    T0.layers = {}
                elif L:
                    names = list(L) if rel == "same" else [str(x) for x in rng.permutation(L)]
                    if rel == "different":
                        names[0] = "another one"
                    T0.layers = {x: rng.random(len(T0.ids)) < .5 for x in names}
                    x = np.stack([T0.layers[y] for y in names], 1).reshape(len(T0.ids), len(names))
                    o.masks = E._t(x) if t else x
                    o.mask_names = names
            flip = rng.random() < .3
            A, B = (T0, T) if flip else (T, T0)
            r = (o + d) if flip else (d.add(o) if rng.random() < .5 else d + o)
            R = Table(np.concatenate([A.ids, B.ids]))
            if not A.layers or not B.layers:
                for x in list(A.layers) or list(B.layers):
                    R.layers[x] = np.concatenate([A.layers.get(x, np.zeros(len(A.ids), bool)), B.layers.get(x, np.zeros(len(B.ids), bool))])
            elif set(A.layers) == set(B.layers):
                R.layers = {x: np.concatenate([A.layers[x], B.layers[x]]) for x in A.layers}
            return r, R, f"concat {rel}"
        if op == "bad":
            how = str(rng.choice(["dup", "short", "long", "2d", "scalar", "get", "remove", "combine_mode", "combine_name", "apply_mode", "apply_name", "nomasks"]))
            ok = np.ones(n, bool)
            f = {"dup": lambda: d.add_mask_layer(str(rng.choice(L)), E.tmask(d, ok)), "short": lambda: d.add_mask_layer("new", E.tmask(d, ok[:-1])),
                 "long": lambda: d.add_mask_layer("new", E.tmask(d, np.ones(n + 1, bool))), "2d": lambda: d.add_mask_layer("new", E.tmask(d, np.ones((n, 1), bool))),
                 "scalar": lambda: d.add_mask_layer("new", torch.tensor(True) if t else np.array(True)), "get": lambda: d.get_mask_layer("unknown"), "remove": lambda: d.remove_mask_layer("unknown"),
                 "combine_mode": lambda: d.combine_masks("xor"), "combine_name": lambda: d.combine_masks("or", ["unknown"]),
                 "apply_mode": lambda: d.apply_masks("AND", inplace=True), "apply_name": lambda: d.apply_masks("and", (L[:1] + ["unknown"]), inplace=True),
                 "nomasks": lambda: d.apply_masks("or", inplace=True)}[how]
            if (how in ("dup", "combine_mode", "combine_name", "apply_mode", "apply_name") and not L) or (how == "short" and not n) or (how == "nomasks" and L):
                return None
            try:
                f()
            except ValueError:
                ctx.count("refusals")
                return d, T, f"bad {how}"
            fail(what + f"{how} was accepted")
