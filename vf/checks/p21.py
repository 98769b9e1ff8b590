"""P21: the tensor container and the array container do the same, step by step on twin scenes."""
import os
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket
from vf.checks import p09


def arr(x):
    return None if x is None else x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)


class CHECK(Check):
    rule = "twin scenes (array, tensor) driven through the same random operation sequence; fields, masks, names, declared format, queries, errors and saved files compared after every step; distinct by (state flags, last operation, operation)"
    required = {"steps": 3000, "queries": 1200, "refusals": 250, "files": 200, "features": 500}
    n_quick, n_thorough = 330, 12000
    W = {"edit": 16, "resize": 2, "edit_masks": 6, "getitem": 14, "get_gaussian": 3, "bad_index": 6, "copy": 6, "add": 10, "consolidate": 7, "convert": 14,
         "with_format": 2, "add_layer": 7, "remove_layer": 4, "apply_masks": 6, "rebuild": 4}

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, GSData
        import gsply, torch
        from gsply import GSTensor, GSData

    def directed(self, tier):
        for g in self.W:
            for k in (0, 3, 8, 15):
                for base in (0, 1):
                    yield {"k": "d", "g": g, "K": k, "base": base}
        for i, g in enumerate(self.W):
            yield {"k": "d", "g": g, "K": (0, 3)[i % 2], "base": i // 2 % 2, "n": (4099, 70001)[i % 2]}

    def twins(self, rng, ctx, k, n, base=None):
        d, how = E.origin(rng, n, k, ctx, "A")
        if base == 1 and n:
            d = d.consolidate()
        s = hold.snapshot(d)
        if how in ("arrays", "layout") and rng.random() < .6:
            t = hold.tensor(s["v"], s["fmt"])
            t.masks = None if s["masks"] is None else torch.from_numpy(s["masks"].copy())
            t.mask_names = None if s["names"] is None else list(s["names"])
        else:
            t = GSTensor.from_gsdata(d, device="cpu").clone()
        if base == 0 and rng.random() < .5:
            t.shN = t.shN if k == 0 else t.shN.clone()
        return d, t, how

    def compare(self, a, t, slack, what):
        sa, st = hold.snapshot(a), hold.snapshot(t)
        tol = {}
        for f, c in slack.items():
            x = sa["v"][f].astype(np.float64)
            if f == "opacities" and not model.lin_o(sa):
                o = ref.sigmoid(x)
                tol[f] = c * (4e-6 * (1 + np.abs(x)) + 8 * ref.EPS / np.maximum(o * (1 - o), 1e-30))
            else:
                tol[f] = c * 4e-6 * (1 + np.abs(x))
        m = model.diff(st, sa, tol)
        require(not m, lambda: what + "the tensor scene differs from the array scene (expected = array): " + m)
        return sa

    def queries(self, rng, a, t, s, ctx, what):
        n = len(a)
        require(len(t) == n, lambda: what + f"len {len(t)} != {n}")
        for q in ("get_sh_degree", "has_high_order_sh"):
            if hasattr(a, q) and hasattr(t, q):
                require(getattr(a, q)() == getattr(t, q)(), lambda: what + f"{q}() differs")
        for q in ("is_scales_ply", "is_scales_linear", "is_opacities_ply", "is_opacities_linear", "is_sh0_sh", "is_sh0_rgb", "is_sh_order_0", "is_sh_order_1", "is_sh_order_2", "is_sh_order_3"):
            require(getattr(a, q) == getattr(t, q), lambda: what + f"{q}: array {getattr(a, q)}, tensor {getattr(t, q)}")
        if n:
            i = int(rng.integers(-n, n))
            x, y = a[i], t[i]
            require(len(x) == len(y) == 7, lambda: what + f"[{i}] has {len(x)} and {len(y)} entries")
            for j, (u, v) in enumerate(zip(x, y)):
                u, v = arr(u), arr(v)
                if j == 5 and (u is None or v is None or u.size == 0):
                    require((u is None or u.size == 0) and (v is None or v.size == 0), lambda: what + f"[{i}] shN differs")
                    continue
                require((u is None) == (v is None), lambda: what + f"[{i}] entry {j}: {u} and {v}")
                if u is not None:
                    require(np.shape(u) == np.shape(v) and np.allclose(np.asarray(u, float), np.asarray(v, float), rtol=1e-3, atol=1e-3), lambda: what + f"[{i}] entry {j}: array {u}, tensor {v}")
        names = s["names"] or []
        for x in names:
            require(np.array_equal(a.get_mask_layer(x), arr(t.get_mask_layer(x))), lambda: what + f"get_mask_layer({x!r}) differs")
        if s["masks"] is not None:
            for mode in ("and", "or"):
                ls = E.draw_layers(rng, s)
                u, v = a.combine_masks(mode, ls), arr(t.combine_masks(mode, ls))
                require(u.shape == v.shape and np.array_equal(u, v), lambda: what + f"combine_masks({mode}, {ls}) differs")
        for x, y in ((a.unpack(), t.unpack()), (a.unpack(False), t.unpack(False))):
            require(len(x) == len(y), lambda: what + f"unpack gives {len(x)} and {len(y)} entries")
        require(set(a.to_dict()) == set(t.to_dict()), lambda: what + f"to_dict keys {sorted(a.to_dict())} and {sorted(t.to_dict())}")
        ctx.count("queries")

    def files(self, rng, a, t, s, slack, ctx, what):
        pa, pt = ctx.path("a.ply"), ctx.path("a.ply")
        how = str(rng.choice(["save", "plywrite", "plywrite_c", "export"]))
        if how == "export":
            x = t.to_ply_data()
            y = a.normalize(inplace=False)
            self.compare(y, x, {f: slack.get(f, 0) + 2 for f in ("scales", "opacities", "sh0", "quats") if f in slack or f in ("scales", "opacities")}, what + "to_ply_data against normalize: ")
            ctx.count("files")
            return
        if how == "save":
            a.save(pa)
            t.save(pt, compressed=False)
        else:
            gsply.plywrite(pa, a, compressed=how.endswith("_c"))
            gsply.plywrite(pt, t, compressed=how.endswith("_c"))
        fa, ft = sorted(os.listdir(os.path.dirname(pa))), sorted(os.listdir(os.path.dirname(pt)))
        require(fa == ft and len(fa) == 1, lambda: what + f"{how}: files {fa} and {ft}")
        pa, pt = os.path.join(os.path.dirname(pa), fa[0]), os.path.join(os.path.dirname(pt), ft[0])
        if how != "plywrite_c":
            x, y = (ref.read_std(open(p, "rb").read()) for p in (pa, pt))
            truth, tol = model.to_ply(s)
            for f in slack:
                tol[f] = tol[f] * 2 + slack[f] * (4e-6 * (1 + np.abs(truth[f])) + (8 * ref.EPS / np.maximum(ref.sigmoid(truth[f]) * (1 - ref.sigmoid(truth[f])), 1e-30) if f == "opacities" else 0))
            conv = model.lin_s(s) or model.lin_o(s) or model.rgb(s)
            m = ref.diff_close(y, {f: v.astype(np.float64) for f, v in x.items()}, {f: 2 * np.asarray(tol[f]) for f in gen.F}, "stored ") if conv or slack else ref.diff_scene(y, x)
            require(not m, lambda: what + f"{how}: the two files differ: {m}")
        else:
            for x, p, o in ((a, pa, s), (t, pt, hold.snapshot(t))):
                m = E.check_saved(o, ("packed", ref.read_packed(open(p, "rb").read())))
                require(not m, lambda: what + f"{how} of {E.kind(x)}: {m}")
        ctx.count("files")

    def run(self, c, ctx):
        rng = rng_of("P21", c)
        k = c.get("K", gen.pick_k(rng))
        n = c.get("n", int(rng.choice([0, 1, 2, 5, 33, 257], p=[.06, .12, .12, .3, .3, .1])))
        if c["k"] == "d":
            n = max(n, 2)
        a, t, how = self.twins(rng, ctx, k, n, c.get("base"))
        hist, slack = [], {}
        self.compare(a, t, slack, f"twins from {how}, n={n} K={k}: ")
        pool = []
        for i in range(int(rng.integers(6, 16))):
            s = hold.snapshot(a)
            what = f"twins from {how}, n={len(a)} K={k}, after {hist[-6:]}: "
            if rng.random() < .5:
                self.queries(rng, a, t, s, ctx, what)
            if rng.random() < .12:
                self.files(rng, a, t, s, slack, ctx, what)
                hist.append("save")
                m = self.compare(a, t, slack, what + "after saving: ")
            W = self.W if not (c["k"] == "d" and i == 0) else {c["g"]: 1}
            g = str(rng.choice(list(W), p=np.array(list(W.values())) / sum(W.values())))
            others = []
            if g == "add":
                cand = pool + [(a, t, slack)]
                o = cand[int(rng.integers(len(cand)))]
                so = hold.snapshot(o[0])
                if len(so["v"]["means"]) + n > max(3000, 3 * c.get("n", 0)):
                    continue
                others, st = [o], E.add(rng, s, [so])
            else:
                st = getattr(E, g)(rng, s)
            if st is None or "A" not in st.kinds or "T" not in st.kinds:
                continue
            if st.raises:
                for x, nm in ((a, "array"), (t, "tensor")):
                    try:
                        st.run(x, *[o[0 if x is a else 1] for o in others])
                    except st.raises:
                        pass
                    else:
                        fail(what + f"{st.label} was accepted by the {nm} scene")
                self.compare(a, t, slack, what + f"after refused {st.label}: ")
                ctx.count("refusals")
                ctx.feat("refused", st.label, how)
                continue
            ra = st.run(a, *[o[0] for o in others])
            rt = st.run(t, *[o[1] for o in others])
            ns = dict(slack)
            for o in others:
                for f, x in o[2].items():
                    ns[f] = max(ns.get(f, 0), x)
            if st.group == "convert":
                for f in ("scales", "opacities", "quats", "sh0"):
                    ns[f] = ns.get(f, 0) + 1
            self.compare(ra, rt, ns, what + f"{st.label}: ")
            require((ra is a) == (rt is t) or st.alias == "any", lambda: what + f"{st.label}: one container returned itself, the other a new object")
            if ra is not a:
                self.compare(a, t, slack, what + f"sources after {st.label}: ")
            ctx.count("steps")
            ctx.feat(model.lin_s(s), model.lin_o(s), model.rgb(s), s["masks"] is None, hist[-1:], st.label.split("(")[0])
            hist.append(st.label)
            if rng.random() < .3 and len(pool) < 3 and ra is not a:
                pool.append((a.copy(), t.clone(), dict(slack)))
            if ra is a or len(ra) < max(1500, 3 * c.get("n", 0)) and (len(ra) or rng.random() < .3):
                a, t, slack = ra, rt, ns
            n = len(a)
            if max(slack.values(), default=0) > 6:
                t = GSTensor.from_gsdata(a, device="cpu").clone()
                slack = {}
        ctx.sample({"origin": how, "K": k, "history": hist})
