"""P06: the stored content depends only on the scene, not on how it is held or which entry point saves it."""
import itertools
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, fail, rng_of, bucket

UNC = ["plywrite", "save", "arrays", "tsave", "plywrite_t"]
CMP = ["plywrite_c", "plywrite_name", "save_c", "arrays_c", "tsave_c", "tsave_compressed", "plywrite_gpu", "plywrite_t_c", "bytes", "carrays", "bytes_arrays", "carrays_arrays"]
REPS = list(itertools.product([0, 1], [0, 1], [0, 1]))


class CHECK(Check):
    rule = ("one scene held in all 8 declared-format combinations x container x layout x consolidated, saved through every entry point; every stored file "
            "decoded by the reference parser; distinct by (formats, entry, container state, K, size bucket)")
    required = {"saves_checked": 400, "converted_saves": 200, "features": 200}
    n_quick, n_thorough = 300, 9000

    def setup(self, ctx, tier):
        global gsply, plywrite_gpu
        import gsply
        from gsply.torch.io import plywrite_gpu

    def directed(self, tier):
        out = []
        for i, (e, r) in enumerate(itertools.product(UNC + CMP, REPS)):
            out.append({"k": "dir", "e": e, "r": r, "n": (5, 300, 1, 257)[i % 4], "K": (3, 0, 15, 8)[(i // 3) % 4], "s": i})
        for i, e in enumerate(UNC + CMP):
            for j in (0, 1):
                out.append({"k": "dir", "e": e, "r": REPS[(i * 3 + j * 5 + 1) % 8], "n": (4099, 70001)[j], "K": (0, 3)[(i + j) % 2], "s": 1000 + i})
        return out

    def run(self, c, ctx):
        rng = rng_of("P06", c["s"], c["k"])
        if c["k"] == "dir":
            e, r, n, k = c["e"], tuple(c["r"]), c["n"], c["K"]
        else:
            e, r = str(rng.choice(UNC + CMP)), REPS[int(rng.integers(8))]
            n, k = gen.pick_n(rng, .03), gen.pick_k(rng)
        s = hold.moderate(rng, n, k)
        if "arrays" in e and e != "carrays":
            r = (0, 0, 0)
        raw = hold.raw_of(s, *r)
        fmt = hold.formats(*r, k)
        h = hold.Held(raw, *r)
        state = str(rng.choice(["plain", "plain", "layout", "consolidated", "sliced", "masked"]))
        is_t = e in ("tsave", "plywrite_t", "tsave_c", "tsave_compressed", "plywrite_gpu", "plywrite_t_c")
        if is_t:
            d = hold.tensor(raw, fmt)
            if state == "consolidated" and n:
                d = d.consolidate()
            elif state == "masked" and n:
                d.add_mask_layer("m", __import__("torch").from_numpy(rng.random(n) < .5))
            elif state == "sliced" and n:
                big = {f: np.concatenate([raw[f], raw[f][:1]]) for f in gen.F}
                d = hold.tensor(big, fmt)[:n]
        else:
            if e.endswith("arrays") and e not in ("carrays",):
                # arrays go through value-based detection: make the sample clearly logarithmic
                self.clear(raw)
                h = hold.Held(raw, *r)
            d = hold.gsdata(raw, fmt, str(rng.choice(["mixed", "F", "rows", "cols", "perm"])) if state == "layout" else None, rng)
            if state == "consolidated" and n:
                d = d.consolidate()
            elif state == "masked" and n:
                d.add_mask_layer("m", rng.random(n) < .5)
            elif state == "sliced" and n:
                big = {f: np.concatenate([raw[f], raw[f][:1]]) for f in gen.F}
                x = hold.gsdata(big, fmt)
                if rng.random() < .5:
                    x = x.consolidate()
                d = x[:n]
        p = ctx.path("o.ply" if e in UNC + ["plywrite_c", "arrays_c"] else "o.compressed.ply")
        q = p if e in UNC or p.endswith(".compressed.ply") else p.replace(".ply", ".compressed.ply")
        a = [getattr(d, f) for f in gen.F] if not is_t else None
        b = None
        if e in ("plywrite", "plywrite_t", "plywrite_name"):
            gsply.plywrite(p, d)
        elif e == "save":
            d.save(p)
        elif e == "tsave":
            d.save(p, compressed=False)
        elif e == "arrays":
            gsply.plywrite(p, *a[:5], shN=a[5])
        elif e in ("plywrite_c", "plywrite_t_c"):
            gsply.plywrite(p, d, compressed=True)
        elif e == "arrays_c":
            gsply.plywrite(p, *a[:5], shN=a[5], compressed=True)
        elif e == "save_c":
            d.save(p, compressed=True)
        elif e == "tsave_c":
            d.save(p)
        elif e == "tsave_compressed":
            d.save_compressed(p)
        elif e == "plywrite_gpu":
            plywrite_gpu(p, d)
        elif e == "bytes":
            b = gsply.compress_to_bytes(d)
        elif e == "bytes_arrays":
            b = gsply.compress_to_bytes(*a)
        else:
            hd, cb, pk, sh = gsply.compress_to_arrays(d) if e == "carrays" else gsply.compress_to_arrays(*a)
            b = hd + cb.tobytes() + pk.tobytes() + (b"" if sh is None else sh.tobytes())
        what = f"{e} of {'tensor' if is_t else 'array'} scene ({state}) n={n} K={k} linear scales={r[0]} linear opacities={r[1]} rgb={r[2]}: "
        if b is None:
            b = open(q, "rb").read()
        ctx.count("saves_checked")
        ctx.count("entry:" + e)
        if any(r):
            ctx.count("converted_saves")
        ctx.feat(e, r, state, k, bucket(n))
        ctx.sample({"entry": e, "formats": r, "state": state, "n": n, "K": k})
        if e in UNC:
            try:
                got = ref.read_std(b)
            except ref.BadPly as x:
                fail(what + f"not a standard PLY: {x}")
            m = ref.diff_close(got, h.truth, h.tol, what + "stored ")
            require(not m, m)
            return
        try:
            bounds, packed, sh = ref.read_packed(b)
        except ref.BadPly as x:
            fail(what + f"not a compressed PLY: {x}")
        m = self.lossy(ref.decode(bounds, packed, sh)[0], h, n, k)
        if m and e in ("bytes", "carrays") and any(r) and not ref.check_encoding(raw, bounds, packed, sh):
            fail(what + "in-memory compression stores the unconverted numbers: " + m, key="inmem-unconverted")
        require(not m, lambda: what + m)

    @staticmethod
    def clear(raw):
        raw["scales"][...] = -np.abs(raw["scales"]) - .5
        o = raw["opacities"]
        o[(o >= -.5) & (o <= 1.5)] = -3.0

    @staticmethod
    def lossy(got, h, n, k):
        if got["means"].shape[0] != n or got["shN"].shape != h.truth["shN"].shape:
            return f"{got['means'].shape[0]} Gaussians, shN {got['shN'].shape}"
        if not n:
            return ""
        st, ch = np.arange(0, n, 256), np.arange(n) // 256
        for f, steps in (("means", ref.STEPS), ("scales", ref.STEPS), ("sh0", np.array([255.0] * 3))):
            x = h.truth[f]
            lo, hi = np.minimum.reduceat(x, st)[ch], np.maximum.reduceat(x, st)[ch]
            tol = (hi - lo) / steps / 2 + 16 * ref.EPS * (np.abs(lo) + np.abs(hi) + (2 if f == "sh0" else 0)) + 2 * h.tol[f].max()
            bad = ~(np.abs(got[f] - x) <= tol)
            if bad.any():
                i = tuple(int(v) for v in np.argwhere(bad)[0])
                return f"{f}{list(i)} decodes to {got[f][i]:.7g}, the scene has {x[i]:.7g} +- {tol[i]:.2g}"
        bad = ~(np.abs(ref.sigmoid(got["opacities"]) - ref.sigmoid(h.truth["opacities"])) <= .5 / 255 + 1e-5)
        if bad.any():
            i = int(np.argmax(bad))
            return f"opacity [{i}] decodes to {got['opacities'][i]:.5g}, the scene has {h.truth['opacities'][i]:.5g} (logit)"
        q0 = h.truth["quats"]
        q0 = q0 / np.linalg.norm(q0, axis=1, keepdims=True)
        q1 = got["quats"]
        sg = np.sign((q0 * q1).sum(1))[:, None]
        if np.abs(q0 * np.where(sg == 0, 1, sg) - q1).max() > 2.2e-3:
            return "rotations differ"
        x = h.truth["shN"]
        if x.size and np.any(((x >= -4) & (x < 4)) & (np.abs(x - got["shN"]) > 1 / 32 + 1e-6)):
            return "SH coefficients differ"
        return ""
