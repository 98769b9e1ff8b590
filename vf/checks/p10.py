"""P10: saving, compressing and transferring leave the caller's object and arrays bit for bit unchanged."""
import os
import numpy as np
from vf import engine as E, gen, hold, model, ref
from vf.core import Check, require, fail, rng_of, bucket

A_OBJ = ["plywrite", "plywrite_c", "plywrite_name", "save", "save_c", "write_uncompressed", "bytes", "carrays", "to_tensor", "unpack", "to_dict", "detectless_copy", "to_tensor64"]
A_ARR = ["arrays", "arrays_c", "write_compressed", "bytes_arrays", "carrays_arrays", "from_arrays_save"]
T_OBJ = ["t_save", "t_save_unc", "t_save_compressed", "t_plywrite", "t_plywrite_c", "plywrite_gpu", "write_compressed_gpu", "compress_gpu", "to_ply_data", "to_ply_tensor", "to_gsdata", "t_half", "t_to64", "t_unpack", "t_clone"]
FAULTS = ["none", "none", "none", "nodir", "isdir", "full", "underfile"]
FILES = {"plywrite", "plywrite_c", "plywrite_name", "save", "save_c", "write_uncompressed", "arrays", "arrays_c", "write_compressed", "from_arrays_save",
         "t_save", "t_save_unc", "t_save_compressed", "t_plywrite", "t_plywrite_c", "plywrite_gpu", "write_compressed_gpu"}
PURE = ("write_uncompressed", "compress_gpu")      # take the numbers as they are


class Trap:
    """Everything the caller can see of its arrays: identity, layout, flags, and the bytes of the whole buffer behind them."""

    def __init__(self, items):
        self.items = [(nm, a, self.sig(a)) for nm, a in items if a is not None]

    @staticmethod
    def sig(a):
        if hasattr(a, "detach"):
            st = a.untyped_storage()
            import torch
            whole = bytes(torch.tensor([], dtype=torch.uint8).set_(st).numpy()) if st.nbytes() else b""
            return (a.data_ptr(), tuple(a.shape), a.stride(), a.dtype, a.requires_grad, a.grad is None if a.is_leaf else None, a._version, whole)
        b = a
        while isinstance(b.base, np.ndarray):
            b = b.base
        return (a.__array_interface__["data"], a.shape, a.strides, a.dtype.str, a.flags.writeable, np.ascontiguousarray(b).tobytes())

    def diff(self):
        for nm, a, s in self.items:
            now = self.sig(a)
            if now != s:
                i = [j for j, (x, y) in enumerate(zip(now, s)) if x != y][0]
                what = (["address", "shape", "strides", "dtype", "gradient flag", "gradient", "in-place write counter", "bytes"] if hasattr(a, "detach") else ["address", "shape", "strides", "dtype", "writeable flag", "bytes"])[i]
                return f"{nm}: {what} changed"
        return ""


class CHECK(Check):
    rule = "every save, compression and transfer entry point x declared format x layout x container x write outcome; whole buffers of the caller compared before and after, then the same save repeated; distinct by (entry, formats, state, fault)"
    required = {"saves": 900, "failed_saves": 60, "repeats": 400, "readonly": 30, "features": 400}
    n_quick, n_thorough = 420, 14000

    def setup(self, ctx, tier):
        global gsply, torch, GSTensor, GSData, plywrite_gpu, W, C
        import gsply, torch
        from gsply import GSTensor, GSData
        from gsply.torch.io import plywrite_gpu
        from gsply import writer as W
        from gsply.torch import compression as C

    def directed(self, tier):
        for e in A_OBJ + A_ARR + T_OBJ:
            for r in range(8):
                yield {"k": "d", "e": e, "r": [r & 1, r >> 1 & 1, r >> 2 & 1], "n": (5, 300, 1, 40)[r % 4], "K": (3, 0, 15, 8)[r % 4]}

        for i, e in enumerate((A_OBJ + A_ARR + T_OBJ) * 2):
            r = (i * 3 + 1) % 8 if i % 3 else 0
            yield {"k": "d", "e": e, "r": [r & 1, r >> 1 & 1, r >> 2 & 1], "n": (4099, 70001)[i % 2], "K": (0, 3)[i // 2 % 2]}

    def call(self, e, d, a, p):
        """Run entry e; returns comparable output or None."""
        dirn = os.path.dirname(p)
        if e in ("plywrite", "t_plywrite"):
            gsply.plywrite(p, d)
        elif e in ("plywrite_c", "t_plywrite_c"):
            gsply.plywrite(p, d, compressed=True)
        elif e == "plywrite_name":
            gsply.plywrite(p.replace(".ply", ".compressed.ply"), d)
        elif e in ("save", "t_save_unc"):
            d.save(p, compressed=False)
        elif e == "t_save":
            d.save(p)
        elif e == "save_c":
            d.save(p, compressed=True)
        elif e == "write_uncompressed":
            W.write_uncompressed(p, d)
        elif e == "arrays":
            gsply.plywrite(p, *a[:5], shN=a[5])
        elif e == "arrays_c":
            gsply.plywrite(p, *a[:5], shN=a[5], compressed=True)
        elif e == "write_compressed":
            W.write_compressed(p, *a)
        elif e == "from_arrays_save":
            GSData.from_arrays(*a, format="ply").save(p)
        elif e == "t_save_compressed":
            d.save_compressed(p)
        elif e == "plywrite_gpu":
            plywrite_gpu(p, d)
        elif e == "write_compressed_gpu":
            C.write_compressed_gpu(p, d)
        elif e == "bytes":
            return gsply.compress_to_bytes(d)
        elif e == "bytes_arrays":
            return gsply.compress_to_bytes(*a)
        elif e in ("carrays", "carrays_arrays"):
            r = gsply.compress_to_arrays(d) if e == "carrays" else gsply.compress_to_arrays(*a)
            return [x if x is None or isinstance(x, bytes) else x.tobytes() for x in r]
        elif e == "compress_gpu":
            with torch.no_grad():
                r = C.compress_gpu(d.means.detach(), d.scales.detach(), d.quats.detach(), d.opacities.detach(), d.sh0.detach(), None if d.shN is None or not d.shN.shape[1] else d.shN.detach())
            return [None if x is None else x.tobytes() for x in r]
        else:
            r = {"to_tensor": lambda: GSTensor.from_gsdata(d, device="cpu"), "to_tensor64": lambda: GSTensor.from_gsdata(d, device="cpu", dtype=torch.float64), "unpack": lambda: d.unpack(),
                 "to_dict": lambda: d.to_dict(), "detectless_copy": lambda: d.copy(), "to_ply_data": lambda: d.to_ply_data(), "to_ply_tensor": lambda: d.to_ply_tensor(), "to_gsdata": lambda: d.to_gsdata(),
                 "t_half": lambda: d.half(), "t_to64": lambda: d.to(dtype=torch.float64), "t_unpack": lambda: d.unpack(), "t_clone": lambda: d.clone()}[e]()
            vals = r if isinstance(r, tuple) else [r[f] for f in gen.F if f in r] if isinstance(r, dict) else [getattr(r, f) for f in gen.F]
            return [None if x is None else np.ascontiguousarray(x.detach().numpy() if hasattr(x, "detach") else x).tobytes() for x in vals]
        return {f: open(os.path.join(dirn, f), "rb").read() for f in sorted(os.listdir(dirn))}

    def run(self, c, ctx):
        rng = rng_of("P10", c)
        if c["k"] == "d":
            e, r, n, k = c["e"], tuple(c["r"]), c["n"], c["K"]
        else:
            e, r = str(rng.choice(A_OBJ + A_ARR + T_OBJ)), tuple(int(x) for x in rng.integers(0, 2, 3))
            n, k = int(rng.choice([0, 1, 2, 40, 256, 300, 700], p=[.06, .1, .1, .3, .14, .2, .1])), gen.pick_k(rng)
        s = hold.moderate(rng, n, k)
        if rng.random() < .4 and not (n == 0):        # rotations that are not normalised
            s["quats"] = (s["quats"] * rng.choice([.5, 2, 7], (n, 1))).astype(np.float32)
        arr = e in A_ARR
        if arr and rng.random() < .5:
            r = (0, 0, 0)
        raw = hold.raw_of(s, *r)
        if arr and r == (0, 0, 0):
            from vf.checks.p06 import CHECK as P06
            P06.clear(raw)
        fmt = hold.formats(*r, k)
        state = str(rng.choice(["plain", "layout", "consolidated", "sliced", "readonly", "loaded"]))
        t = e in T_OBJ
        a = None
        if t:
            grad = rng.random() < .3
            d = hold.tensor(raw, fmt, grad)
            state = {"layout": "strided", "readonly": "plain", "loaded": "plain"}.get(state, state) + (" grad" if grad else "")
            if state.startswith("consolidated") and n:
                d = d.consolidate()
            elif state.startswith("sliced") and n:
                big = {f: np.concatenate([raw[f][:1], raw[f], raw[f][:1]]) for f in gen.F}
                d = hold.tensor(big, fmt, grad)
                d = (d.consolidate() if rng.random() < .5 else d)[1:n + 1]
            elif state.startswith("strided"):
                d = GSTensor(**{f: torch.from_numpy(np.repeat(raw[f], 2, 0))[::2] for f in gen.F}, _format=dict(fmt))
        else:
            if state == "loaded" and r == (0, 0, 0):
                p0 = ctx.path("l.ply")
                with open(p0, "wb") as f:
                    f.write(ref.build_std(raw))
                d = gsply.plyread(p0)
            elif state == "readonly":
                v = {f: gen.relayout(rng, raw[f], str(rng.choice(["C", "rows"])))[0] for f in gen.F}
                for x in v.values():
                    x.flags.writeable = False
                d = GSData.from_arrays(*[v[f] for f in gen.F], format="ply").with_format(**fmt)
                ctx.count("readonly")
            elif state == "sliced" and n:
                big = {f: np.concatenate([raw[f][:1], raw[f], raw[f][:1]]) for f in gen.F}
                x = hold.gsdata(big, fmt, none_ok=False)
                d = (x.consolidate() if rng.random() < .5 else x)[1:n + 1]
            else:
                d = hold.gsdata(raw, fmt, "mixed" if state == "layout" else None, rng)
                if state == "consolidated" and n:
                    d = d.consolidate()
        if rng.random() < .5:
            L = int(rng.integers(1, 4))
            m = rng.random((n, L)) < .5
            d.masks = E._t(m) if t else np.asfortranarray(m)
            d.mask_names = [f"m{i}" for i in range(L)]
        if arr:
            a = [getattr(d, f) for f in gen.F]
            if rng.random() < .2:
                a = [None if x is None else x.astype(np.float64) for x in a]
        fault = str(rng.choice(FAULTS)) if c["k"] != "d" and e in FILES else "none"
        what = f"{e} of {'tensor' if t else 'array'} scene ({state}) n={n} K={k} linear scales={r[0]} linear opacities={r[1]} rgb={r[2]}, write fault {fault}: "
        before = hold.snapshot(d)
        names_obj, fields = d.mask_names, {f: getattr(d, f) for f in gen.F + ("masks",)}
        trap = Trap(list(fields.items()) + ([(f"caller's {f}", x) for f, x in zip(gen.F, a)] if a else []))

        def unchanged(w):
            m = trap.diff() or hold.same_snapshot(hold.snapshot(d), before)
            require(not m, lambda: what + w + m)
            require(d.mask_names is names_obj, lambda: what + w + "the list of mask names was exchanged")
            for f, x in fields.items():
                require(getattr(d, f) is x, lambda: what + w + f"{f} is another array object now")
        p = ctx.path("o.ply")
        if fault == "none":
            out = self.call(e, d, a, p)
            unchanged("")
            out2 = self.call(e, d, a, ctx.path("o.ply"))
            unchanged("second time: ")
            require(out == out2, lambda: what + "doing it twice gives different results")
            ctx.count("saves", 2)
            ctx.count("repeats")
        else:
            dirn = os.path.dirname(p)
            if fault == "nodir":
                p = os.path.join(dirn, "no", "such", "o.ply")
            elif fault == "isdir":
                for x in ("o.ply", "o.compressed.ply"):
                    os.mkdir(os.path.join(dirn, x))
            elif fault == "underfile":
                open(os.path.join(dirn, "f"), "w").close()
                p = os.path.join(dirn, "f", "o.ply")
            else:
                for x in ("o.ply", "o.compressed.ply"):
                    os.symlink("/dev/full", os.path.join(dirn, x))
            try:
                self.call(e, d, a, p)
            except OSError:
                ctx.count("failed_saves")
            else:
                fail(what + "no error was raised") if n else None
            unchanged("after the failed write: ")
            out = self.call(e, d, a, ctx.path("o.ply"))
            unchanged("writing elsewhere: ")
            ctx.count("saves", 2)
        # another entry point in between, then the first one again
        if rng.random() < .5:
            e2 = str(rng.choice(T_OBJ if t else A_OBJ))
            self.call(e2, d, a, ctx.path("o.ply"))
            unchanged(f"then {e2}: ")
            require(self.call(e, d, a, ctx.path("o.ply")) == out, lambda: what + f"differs after {e2} in between")
            ctx.count("saves", 2)
            ctx.count("repeats")
        ctx.feat(e, r, state, fault)
        ctx.sample({"entry": e, "formats": r, "state": state, "fault": fault, "n": n, "K": k})
