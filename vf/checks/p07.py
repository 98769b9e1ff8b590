"""P07: hostile PLY input is refused or read correctly: no hang, no native out-of-bounds access, no undocumented error."""
import os
import numpy as np
from vf import gen, guard, hostile, ref
from vf.core import Check, require, fail, rng_of, bucket

READERS = ["plyread", "load", "read_uncompressed", "read_compressed", "bytes", "detect", "tload", "plyread_gpu", "from_compressed", "read_compressed_gpu"]
BASES = [("std", 0, 0), ("std", 1, 0), ("std", 3, 3), ("std", 2, 15), ("std", 5, 8), ("packed", 0, 0), ("packed", 3, 0), ("packed", 2, 3), ("packed", 257, 0), ("packed", 256, 8), ("packed", 300, 15)]


def before_import(mode):
    if mode == "guarded":
        guard.bounds_checked_kernels()


def consistent(d, what):
    g = {f: getattr(d, f) for f in gen.F}
    g = {f: (v.detach().cpu().numpy() if hasattr(v, "detach") else v) for f, v in g.items()}
    n = len(d)
    g["shN"] = ref.norm_shn(g["shN"], n)
    for f, shp in (("means", (n, 3)), ("scales", (n, 3)), ("quats", (n, 4)), ("opacities", (n,)), ("sh0", (n, 3))):
        require(g[f].shape == shp and g[f].dtype == np.float32, what + f"inconsistent scene: {f} is {g[f].dtype}{g[f].shape} for {n} Gaussians")
    require(g["shN"].ndim == 3 and g["shN"].shape[0] == n and g["shN"].shape[2] == 3, what + f"inconsistent scene: shN {g['shN'].shape}")
    if d.masks is not None:
        require(d.masks.shape[0] == n, what + "inconsistent scene: masks")
    return g, n


def verify(d, b, what, ctx):
    """What a reader returned must be what the bytes say."""
    g, n = consistent(d, what)
    try:
        fmt, els, off = ref.parse_header(b)
    except ref.BadPly as e:
        els = None
    if els is not None and len(els) >= 2 and [e[0] for e in els[:2]] == ["chunk", "vertex"]:
        try:
            bounds, packed, sh = ref.read_packed(b, exact=False)
        except ref.BadPly as e:
            require("payload" not in str(e) and "chunks for" not in str(e) and "element" not in str(e).replace("sh element", "") or "sh element" in str(e) or "elements" == str(e),
                    what + f"a scene was returned although the file is damaged: {e}")
            ctx.count("accepted_outside_reference")
            need = els[0][1] * 72 + els[1][1] * 16
            require(n == els[1][1] and need <= len(b) - off, what + f"{n} Gaussians returned; {e}")
            return
        want, tol = ref.decode(bounds, packed, sh)
        require(n == packed.shape[0], what + f"{n} Gaussians, file has {packed.shape[0]}")
        for f in gen.F:
            w, t = want[f], np.broadcast_to(tol[f], want[f].shape)
            require(g[f].shape == w.shape, what + f"{f} shape {g[f].shape}")
            with np.errstate(all="ignore"):
                sane = np.isfinite(w) & (np.abs(w) < 1e37) & np.isfinite(t)
                if f in ("means", "scales", "sh0"):
                    o = {"means": 0, "scales": 6, "sh0": 12}[f]
                    B = np.abs(bounds.astype(np.float64)[np.arange(n) // 256]) if n else np.zeros((0, 18))
                    sane &= (B[:, o:o + 3] < 1e37) & (B[:, o + 3:o + 6] < 1e37)
                bad = sane & ~(np.abs(g[f] - w) <= t)
            require(not bad.any(), lambda: what + f"{f} {np.argwhere(bad)[0].tolist()} = {g[f][bad][0]!r}, the bytes say {w[bad][0]!r}")
        return
    try:
        n_true, cols = ref.read_vertices(b)
    except ref.BadPly as e:
        require("payload" not in str(e), what + f"a scene was returned although the file is shorter than its header announces: {e}")
        ctx.count("accepted_outside_reference")
        if n:
            require(np.ascontiguousarray(g["means"][0]).tobytes() in b, what + "returned a position that is nowhere in the file")
        return
    m = ref.agrees_with_vertices(d, n_true, cols)
    require(not m, what + m)


class CHECK(Check):
    rule = ("every truncation of small valid files, every header byte flip sample, line/token/number/encoding mutations, spliced and arbitrary bytes x every "
            "reader; distinct by (base, mutation, reader, outcome)")
    required = {"inputs": 1500, "refusals": 1200, "accepted_and_verified": 150, "guarded_reads": 200, "features": 200}
    n_quick, n_thorough = 2600, 90000
    max_s = {"quick": 240, "thorough": 1500}

    def setup(self, ctx, tier):
        global gsply, GSTensor, read_uncompressed, read_compressed, plyread_gpu, read_compressed_gpu
        import gsply
        from gsply import GSTensor
        from gsply.reader import read_uncompressed, read_compressed
        from gsply.torch.io import plyread_gpu
        from gsply.torch.compression import read_compressed_gpu
        rng = rng_of("P07", "warm")
        for k in (0, 3):                       # compile and start threads before the limits are set
            p = ctx.path("w.ply")
            b = hostile.base("packed", 300, k, rng)
            with open(p, "wb") as f:
                f.write(b)
            gsply.plyread(p), gsply.decompress_from_bytes(b), GSTensor.load(p, device="cpu")
        guard.install_step_counter()
        guard.limit_memory(3 << 30)

    def directed(self, tier):
        out = []
        for i, (kind, n, k) in enumerate(BASES):
            b = hostile.base(kind, n, k, rng_of("base", kind, n, k))
            L = len(b)
            if tier == "thorough":
                cuts = range(L) if L < 6000 else sorted(set(list(range(0, 2500)) + list(range(2500, L, 37)) + list(range(L - 300, L))))
            else:
                cuts = sorted(set(range(0, L, max(1, L // 60))) | set(range(max(0, L - 5), L)))
            out += [{"k": "cut", "b": i, "at": c} for c in cuts]
        out += [{"k": "number", "b": i, "e": e, "v": v} for i in range(len(BASES)) for e in range(3) for v in range(len(hostile.NUMBERS)) if tier == "thorough" or (i + v + e) % 3 == 0]
        out += [{"k": "special", "w": w} for w in ("missing", "dir", "empty", "dangling", "null", "noperm")]
        return out

    def run(self, c, ctx):
        if c["k"] == "special":
            return self.special(c["w"], ctx)
        rng = rng_of("P07", c)
        if c["k"] == "cut":
            kind, n, k = BASES[c["b"]]
            b = hostile.base(kind, n, k, rng_of("base", kind, n, k))[:c["at"]]
            name = "truncated"
        elif c["k"] == "number":
            kind, n, k = BASES[c["b"]]
            b = hostile.base(kind, n, k, rng_of("base", kind, n, k))
            h, p = hostile.split(b)
            lines = h.split(b"\n")
            idx = [i for i, l in enumerate(lines) if l.startswith(b"element")]
            i = idx[c["e"] % len(idx)]
            w = lines[i].split(b" ")
            w[-1] = hostile.NUMBERS[c["v"]]
            lines[i] = b" ".join(w)
            b = b"\n".join(lines) + p
            name = "number"
        elif rng.random() < .12:
            b, name, kind, n, k = hostile.arbitrary(rng), "arbitrary", "-", 0, 0
        else:
            kind, n, k = BASES[int(rng.integers(len(BASES)))]
            b, name = hostile.mutate(hostile.base(kind, n, k, rng), rng)
        p = ctx.path(str(rng.choice(["h.ply", "h.compressed.ply"])))
        with open(p, "wb") as f:
            f.write(b)
        ctx.count("inputs")
        rds = READERS if c["k"] != "random" else [str(x) for x in rng.choice(READERS, 4, replace=False)]
        for rd in rds:
            self.read(rd, p, b, f"{kind} n={n} K={k} {name} ({len(b)} bytes) {rd}: ", ctx, (kind, n, k, name.split("+")[0]))
        ctx.sample({"base": [kind, n, k], "mutation": name, "bytes": len(b), "readers": rds})

    def read(self, rd, p, b, what, ctx, sig):
        d = None
        budget = 20000 + 60 * len(b)
        st = guard.steps(budget)
        try:
            with st:
                if rd == "plyread":
                    d = gsply.plyread(p)
                elif rd == "load":
                    d = gsply.GSData.load(p)
                elif rd == "read_uncompressed":
                    d = read_uncompressed(p)
                elif rd == "read_compressed":
                    d = read_compressed(p)
                elif rd == "bytes":
                    d = gsply.decompress_from_bytes(b)
                elif rd == "detect":
                    d = gsply.detect_format(p)
                elif rd == "tload":
                    d = GSTensor.load(p, device="cpu")
                elif rd == "plyread_gpu":
                    d = plyread_gpu(p, device="cpu")
                elif rd == "from_compressed":
                    d = GSTensor.from_compressed(p, device="cpu")
                else:
                    d = read_compressed_gpu(p, device="cpu")
        except guard.StepBudget as e:
            fail(what + f"did not finish within {budget} steps ({e})")
        except ValueError as e:
            d, out = None, "ValueError"
        except OSError as e:
            fail(what + f"raised {type(e).__name__} for a readable file: {e}") if type(e).__name__ != "OSError" else None
            d, out = None, "OSError"
        except BaseException as e:
            fail(what + f"raised {type(e).__name__} instead of ValueError: {e}")
        else:
            out = "none" if d is None else "accepted"
        ctx.maxi("steps", st.used)
        if ctx.mode == "guarded":
            ctx.count("guarded_reads")
        if rd == "detect":
            require(isinstance(d, tuple) and len(d) == 2 and isinstance(d[0], bool) and (d[1] is None or d[1] in (0, 1, 2, 3)), what + f"returned {d!r}")
        elif d is None:
            ctx.count("refusals")
        else:
            verify(d, b, what, ctx)
            ctx.count("accepted_and_verified")
        ctx.feat(*sig, rd, out)

    def special(self, w, ctx):
        p = ctx.path("x.ply")
        if w == "dir":
            os.makedirs(p)
        elif w == "empty":
            open(p, "wb").close()
        elif w == "dangling":
            os.symlink(p + "nope", p)
        elif w == "null":
            p = "/dev/null"
        elif w == "noperm":
            open(p, "wb").write(b"ply\n")
            os.chmod(p, 0)
        for rd in READERS:
            if rd == "bytes":
                continue
            for arg in (p, __import__("pathlib").Path(p)):
                try:
                    with guard.steps(20000):
                        if rd in ("plyread", "load", "read_uncompressed", "read_compressed", "detect"):
                            d = {"plyread": gsply.plyread, "load": gsply.GSData.load, "read_uncompressed": read_uncompressed, "read_compressed": read_compressed, "detect": gsply.detect_format}[rd](arg)
                        else:
                            d = {"tload": GSTensor.load, "plyread_gpu": plyread_gpu, "from_compressed": GSTensor.from_compressed, "read_compressed_gpu": read_compressed_gpu}[rd](arg, device="cpu")
                except (ValueError, OSError):
                    ctx.count("refusals")
                except BaseException as e:
                    fail(f"{rd} on a {w} path raised {type(e).__name__}: {e}")
                else:
                    require(d is None or d == (False, None), f"{rd} on a {w} path returned {d!r}")
                    ctx.count("refusals")
        ctx.feat("special", w)
