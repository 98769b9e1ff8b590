"""P20: transfer between arrays and tensors (and between tensor precisions) is lossless."""
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket

DT = ["float32", "float64", "float16", "bfloat16"]


def special(rng, s):
    """Values a bit-exact transfer must keep: infinities, -0, denormals, NaN payloads."""
    sp = np.array([np.inf, -np.inf, -0.0, 1e-45, -1e-40, 3.4e38, np.nan], np.float32)
    for f in gen.F:
        a = s[f]
        if a.size:
            ix = rng.integers(0, a.size, max(1, a.size // 9))
            a.reshape(-1)[ix] = rng.choice(sp, len(ix))
            a.reshape(-1).view(np.uint32)[ix[:1]] = 0x7FC01234
    return s


def rounded(a, dt):
    import torch
    return torch.from_numpy(np.ascontiguousarray(a)).to(dt)


class CHECK(Check):
    rule = "transfers both ways over SH degree x size x layout x backing buffer x dtype x gradient flag x masks x pre-filter; bit comparison; distinct by (direction, layout, dtype, flags)"
    required = {"to_tensor": 350, "to_array": 350, "casts": 250, "filtered": 90, "with_grad": 80, "features": 400}
    n_quick, n_thorough = 420, 14000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, GSData
        import gsply, torch
        from gsply import GSTensor, GSData

    def directed(self, tier):
        for k in (0, 3, 8, 15):
            for n in (0, 1, 2, 33):
                for dt in DT:
                    for g in (0, 1):
                        yield {"k": "d", "K": k, "n": n, "dt": dt, "g": g}
        yield from gen.big(tier, 8)

    def tsnap(self, t):
        """Fields as tensors (shN None -> (n,0,3))."""
        out = {}
        for f in gen.F:
            v = getattr(t, f)
            out[f] = torch.zeros(len(t), 0, 3, dtype=t.dtype) if v is None else v.detach()
        return out

    def expect(self, t, v, dt, names, m, fmt, what):
        """The tensor scene t holds float32 arrays v cast to dt, with this metadata."""
        got = self.tsnap(t)
        for f in gen.F:
            w = rounded(v[f], dt)
            require(got[f].dtype == dt, lambda: what + f"{f} is {got[f].dtype}, asked for {dt}")
            require(tuple(got[f].shape) == v[f].shape, lambda: what + f"{f} has shape {tuple(got[f].shape)}, source {v[f].shape}")
            a, b = got[f].contiguous(), w
            if dt == torch.float32:
                same = torch.equal(a.view(torch.int32), b.view(torch.int32)) if a.numel() else True
            else:
                same = bool(torch.all((a == b) | (torch.isnan(a) & torch.isnan(b))))
            require(same, lambda: what + f"{f} changed its values")
        self.meta(t, names, m, fmt, what)
        k = v["shN"].shape[1]
        require(len(t) == len(v["means"]) and t.get_sh_degree() == gen.DEG_OF_K[k], lambda: what + "length or SH degree changed")

    def meta(self, d, names, m, fmt, what):
        nm, gm = hold.masks(d)
        require(nm == names, lambda: what + f"mask names {nm}, source {names}")
        require((gm is None) == (m is None), lambda: what + f"masks {'lost' if gm is None else 'invented'}")
        if m is not None:
            require(gm.shape == m.shape and gm.dtype == m.dtype and np.array_equal(gm, m), lambda: what + f"mask values changed ({m.shape} -> {gm.shape}, {gm.dtype})")
        require(dict(d.format_state) == fmt, lambda: what + f"declared format {dict(d.format_state)}, source {fmt}")

    def run(self, c, ctx):
        rng = rng_of("P20", c)
        k = c.get("K", gen.pick_k(rng))
        n = c.get("n", int(rng.choice([0, 1, 2, 5, 33, 257, 1500], p=[.06, .12, .12, .2, .2, .2, .1])))
        src, how = E.origin(rng, n, k, ctx, "A")
        if how in ("arrays", "layout", "consolidated") and rng.random() < .7:
            s = hold.snapshot(src)
            v = special(rng, {f: a.copy() for f, a in s["v"].items()})
            x = hold.gsdata(v, s["fmt"], str(rng.choice(["mixed", "F", "rev", "rows"])) if how == "layout" else None, rng)
            if how == "consolidated" and n:
                x = x.consolidate()
            x.masks, x.mask_names = src.masks, src.mask_names
            src, how = x, how + "+special"
        if rng.random() < .25 and n > 1:        # views: strided, reversed, offset
            sl = [slice(None, None, 2), slice(None, None, -1), slice(1, None), slice(-1, None), slice(n, None)][int(rng.integers(5))]
            src, how = src[sl], how + f"[{sl.start}:{sl.stop}:{sl.step}]"
            n = len(src)
        if src.masks is not None and rng.random() < .3:
            src.masks = np.asfortranarray(src.masks) if rng.random() < .5 else np.repeat(src.masks, 2, 0)[::2]
        s = hold.snapshot(src)
        dt = getattr(torch, c.get("dt") or str(rng.choice(DT, p=[.5, .2, .2, .1])))
        grad = bool(c["g"]) if "g" in c else bool(rng.random() < .25)
        flt = (rng.random(n) < rng.choice([0, .3, .7, 1])) if rng.random() < .3 else None
        what = f"array scene from {how}, n={n} K={k}, to {dt}{', with gradients' if grad else ''}{', filtered' if flt is not None else ''}: "
        kw = {}
        if dt != torch.float32 or rng.random() < .3:
            kw["dtype"] = dt
        if grad or rng.random() < .2:
            kw["requires_grad"] = grad
        if flt is not None:
            kw["mask"] = flt
        t = GSTensor.from_gsdata(src, device="cpu" if rng.random() < .5 else torch.device("cpu"), **kw)
        e = s if flt is None else model.index(s, flt)
        self.expect(t, e["v"], dt, e["names"], e["masks"], e["fmt"], what)
        m = hold.same_snapshot(hold.snapshot(src), s)
        require(not m, lambda: what + "the source changed: " + m)
        for f in gen.F:
            x = getattr(t, f)
            if x is not None and (f != "shN" or k):
                require(x.requires_grad == grad, lambda: what + f"{f}.requires_grad is {x.requires_grad}")
        ctx.count("to_tensor")
        ctx.count("filtered", flt is not None)
        ctx.count("with_grad", grad)
        ctx.feat("A>T", how, k, dt, grad, flt is not None, e["masks"] is None, bucket(n))
        if flt is not None:
            for bad in (np.ones(n + 1, bool), np.ones(max(n - 1, 0), bool)):
                if len(bad) != n:
                    try:
                        GSTensor.from_gsdata(src, device="cpu", mask=bad)
                    except (ValueError, IndexError):
                        pass
                    else:
                        fail(what + f"a mask of length {len(bad)} was accepted")
        if grad and len(t) and dt in (torch.float32, torch.float64):
            t.means.sum().backward()       # the flag is real: a graph leads back from the fields
        # a chain of casts, each exact relative to the one before
        cur, ev = t, e["v"]
        start = str(rng.choice(["as is", "field replaced", "constructed", "indexed"]))
        if start == "field replaced":
            cur = t.clone()
            cur.means = cur.means.detach().clone()
        elif start == "constructed":
            cur = GSTensor(**{f: (None if getattr(t, f) is None else getattr(t, f).detach().clone()) for f in gen.F}, masks=None if t.masks is None else t.masks.clone(),
                           mask_names=None if t.mask_names is None else list(t.mask_names), _format=dict(t.format_state))
        elif start == "indexed":
            cur = t[torch.ones(len(t), dtype=torch.bool)]
        self.meta(cur, e["names"], e["masks"], e["fmt"], what + f"{start}: ")
        fields = self.tsnap(cur)
        for _ in range(int(rng.integers(1, 4))):
            to = getattr(torch, str(rng.choice(DT)))
            how2 = str(rng.choice(["to", "to_dtype", "name", "to_dev", "cpu", "clone", "consolidate", "slice"]))
            name = {torch.float32: "float", torch.float64: "double", torch.float16: "half"}.get(to)
            if how2 == "name" and name is None:
                continue
            nxt = {"to": lambda: cur.to(dtype=to), "to_dtype": lambda: cur.to_dtype(to), "name": lambda: getattr(cur, name)(), "to_dev": lambda: cur.to("cpu", to, bool(rng.random() < .5)),
                   "cpu": lambda: cur.cpu(), "clone": lambda: cur.clone(), "consolidate": lambda: cur.consolidate(), "slice": lambda: cur[0:len(cur)]}[how2]()
            if how2 in ("cpu", "clone", "consolidate", "slice"):
                to = cur.dtype
            got = self.tsnap(nxt)
            for f in gen.F:
                w = fields[f].to(to)
                require(got[f].dtype == to and got[f].shape == w.shape and bool(torch.all((got[f] == w) | (torch.isnan(got[f]) & torch.isnan(w)))),
                        lambda: what + f"{start}, then {how2} {to}: {f} is {got[f].dtype}, values are not those of the source in that precision")
            self.meta(nxt, e["names"], e["masks"], e["fmt"], what + f"{start}, then {how2}: ")
            now = self.tsnap(cur)
            for f in gen.F:
                require(torch.equal(torch.nan_to_num(now[f].double()), torch.nan_to_num(fields[f].double())), lambda: what + f"{how2} changed its source")
            ctx.count("casts")
            ctx.feat("cast", start, how2, cur.dtype, to, cur._base is not None if hasattr(cur, "_base") else "", e["masks"] is None)
            cur, fields = nxt, got
        # back to arrays
        for x, fl in ((t, self.tsnap(t)), (cur, fields)):
            if x.dtype == torch.bfloat16:
                continue
            b = x.to_gsdata()
            v = {}
            for f in gen.F:
                a = getattr(b, f)
                a = np.zeros((len(x), 0, 3), fl[f].numpy().dtype) if a is None else np.asarray(a)
                w = fl[f].contiguous().numpy()
                require(a.dtype == w.dtype and a.shape == w.shape, lambda: what + f"back to arrays: {f} is {a.dtype} {a.shape}, tensor {w.dtype} {w.shape}")
                u = {2: np.uint16, 4: np.uint32, 8: np.uint64}[a.dtype.itemsize]
                require(np.array_equal(np.ascontiguousarray(a).view(u), np.ascontiguousarray(w).view(u)), lambda: what + f"back to arrays: {f} changed its bits")
            self.meta(b, e["names"], e["masks"], e["fmt"], what + "back to arrays: ")
            ctx.count("to_array")
            if x is t and dt == torch.float32:
                m = hold.same_snapshot(hold.snapshot(b), e)
                require(not m, lambda: what + f"there and back: {m}")
            elif x is t and dt == torch.float64:
                m = ref.diff_scene({f: np.nan_to_num(np.asarray(a).astype(np.float32)) for f, a in hold.values(b).items()}, {f: np.nan_to_num(a) for f, a in e["v"].items()})
                require(not m, lambda: what + f"there and back through float64: {m}")
            # the array scene is usable: field replaced, indexed, moved again
            y = b[::-1] if rng.random() < .5 else b.copy()
            z = GSTensor.from_gsdata(y, device="cpu", dtype=x.dtype)
            require(len(z) == len(x), lambda: what + "moved again: length changed")
        # tensors made from tensors in odd layouts
        if rng.random() < .4 and n:
            v = {f: torch.from_numpy(np.repeat(a, 2, 0))[::2] if rng.random() < .5 else torch.from_numpy(np.ascontiguousarray(np.moveaxis(a, 0, -1))).movedim(-1, 0) for f, a in s["v"].items()}
            g2 = rng.random() < .4
            if g2:
                for a in v.values():
                    a.requires_grad_(True)
            x = GSTensor(**v, _format=dict(s["fmt"]))
            if s["masks"] is not None:
                x.masks = torch.from_numpy(np.asfortranarray(s["masks"]).copy(order="F"))
                x.mask_names = None if s["names"] is None else list(s["names"])
            b = x.to_gsdata()
            m = hold.same_snapshot(hold.snapshot(b), s)
            require(not m, lambda: what + f"strided tensors{' with gradients' if g2 else ''} to arrays: {m}")
            ctx.count("to_array")
            ctx.feat("T>A strided", k, g2, s["masks"] is None)
        ctx.sample({"origin": how, "n": n, "K": k, "dtype": str(dt), "grad": grad, "filtered": flt is not None})
