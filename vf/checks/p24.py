"""P24: damaged SOG input is refused or read consistently: no native out-of-bounds access, crash, hang or invented Gaussians."""
import copy, io, json, os
from pathlib import Path
import numpy as np
from vf import gen, guard, ref, sog
from vf.core import Check, require, fail, rng_of, bucket

BASES = [(v, b, n) for v in (2, 3) for b in (0, 1, 3) for n in (0, 1, 5, 70, 300)]
VALUES = [None, -1, 0, 1, 2, 3, 4, 7, 63, 64, 65, 255, 256, 257, 65535, 65536, 2**31, 2**32, 2**63, 10**30, -2**63, 0.5, -1.5, 1e308, 3.0, float("nan"), float("inf"), True, "", "3", "x", "means_l.webp", "nope.webp",
          "../meta.json", ".", "/", "\x00", [], [1], [1, 2, 3, 4], [[1]], [None], {}, {"shape": [3]}, ["a"], [1e300], [2, "b"]]


def before_import(mode):
    if mode == "guarded":
        guard.bounds_checked_kernels()


def paths(o, at=()):
    out = [at] if at else []
    for k, v in (o.items() if isinstance(o, dict) else enumerate(o) if isinstance(o, list) and len(o) < 20 else ()):
        out += paths(v, at + (k,))
    return out


def put(o, at, v):
    for k in at[:-1]:
        o = o[k]
    o[at[-1]] = v


def drop(o, at):
    for k in at[:-1]:
        o = o[k]
    del o[at[-1]]


def get(o, at):
    for k in at:
        o = o[k]
    return o


class CHECK(Check):
    rule = "structural metadata mutations (every path x hostile value), resized/short/foreign textures, short tables, container damage (every truncation of a bundle, byte flips) and arbitrary bytes, plain and bounds-checked kernels; distinct by (base, mutation, target, container, outcome)"
    required = {"inputs": 3000, "refusals": 1500, "accepted": 300, "guarded_reads": 700, "features": 700}
    n_quick, n_thorough = 4000, 120000

    def setup(self, ctx, tier):
        global gsply
        import gsply
        self.base = {}
        for b in BASES:
            rng = rng_of("P24base", b)
            m, T = sog.scene(rng, b[2], b[1], b[0])
            self.base[b] = (m, T, sog.files(m, T))
            gsply.sogread(sog.bundle(self.base[b][2]))
        guard.install_step_counter()
        guard.limit_memory(4 << 30)

    def directed(self, tier):
        for i, b in enumerate(BASES):
            m = self.base[b][0]
            ps = paths(m)
            for j, p in enumerate(ps):
                yield {"k": "del", "b": i, "p": j}
                for q in range(len(VALUES)):
                    if tier == "thorough" or (i + j + q) % 13 == 0:
                        yield {"k": "set", "b": i, "p": j, "v": q}
            for t in range(7):
                for how in range(12):
                    if tier == "thorough" or (i + t + how) % 3 == 0:
                        yield {"k": "tex", "b": i, "t": t, "how": how}
            for ln in (0, 1, 2, 100, 128, 254, 255, 256, 257, 300):
                for a in range(3):
                    yield {"k": "table", "b": i, "a": a, "len": ln}
        for i in (2, 9, 14, 24):
            L = len(sog.bundle(self.base[BASES[i]][2]))
            for at in range(0, L, 1 if tier == "thorough" and L < 8000 else max(1, L // 60)):
                yield {"k": "cut", "b": i, "at": at}
        for w in range(12):
            yield {"k": "special", "w": w}

    def texture(self, rng, a, how):
        h, w = a.shape[:2]
        if how == 0:
            return sog.webp(a[:max(1, h - 1)]), a[:max(1, h - 1)]
        if how == 1:
            return sog.webp(a[:, :max(1, w - 1)]), a[:, :max(1, w - 1)]
        if how == 2:
            return sog.webp(a[:1, :1]), a[:1, :1]
        if how == 3:
            x = a.copy()
            x[..., 3] = 255
            return sog.webp(x[..., :3]), x
        if how == 4:
            return b"", None
        if how == 5:
            e = sog.webp(a)
            return e[:int(rng.integers(0, len(e)))], None
        if how == 6:
            e = bytearray(sog.webp(a))
            for _ in range(int(rng.integers(1, 6))):
                e[int(rng.integers(len(e)))] = int(rng.integers(256))
            return bytes(e), None
        if how == 7:
            b = io.BytesIO()
            sog.Image.fromarray(np.ascontiguousarray(a)).save(b, "PNG")
            return b.getvalue(), None
        if how == 8:
            return rng.bytes(int(rng.integers(1, 200))), None
        if how == 9:
            x = rng.integers(0, 256, a.shape, dtype=np.uint8)
            return sog.webp(x), x
        if how == 10:
            x = np.full_like(a, 255)
            return sog.webp(x), x
        k = int(rng.integers(1, 5))
        x = np.ascontiguousarray(a[:max(1, h // k), :max(1, w // k)])
        return sog.webp(x), x

    def read(self, rng, m, T, e, what, ctx, sig, raw=None, arg=None):
        """m: metadata dict if it still is one; T: textures that are still known (None = unknown)."""
        ctx.count("inputs")
        if arg is None:
            kind = str(rng.choice(["bytes", "bundle", "folder"]))
            if raw is not None:
                kind = "bytes" if kind == "folder" else kind
            b = raw if raw is not None else sog.bundle(e) if kind != "folder" else None
            arg = b
            if kind != "bytes":
                arg = ctx.path("x.sog")
                if kind == "bundle":
                    with open(arg, "wb") as f:
                        f.write(b)
                else:
                    sog.folder({k: v for k, v in e.items() if "/" not in k}, arg)
        else:
            kind = "special"
        what += f"({kind}): "
        s = None
        try:
            with guard.steps(400000):
                s = gsply.sogread(arg)
        except guard.StepBudget as x:
            fail(what + f"did not finish within the step budget ({x})")
        except Exception as x:
            if type(x) is IndexError and str(x) == "index is out of bounds":
                fail(what + "a native kernel accessed an element outside its array")
            if isinstance(x, SystemError):
                fail(what + f"interpreter error {x}")
            ctx.count("refusals")
            out = type(x).__name__
        except BaseException as x:
            fail(what + f"raised {type(x).__name__}: {x}")
        else:
            out = "accepted"
            ctx.count("accepted")
            self.accepted(s, m, T, what, ctx)
        if ctx.mode == "guarded":
            ctx.count("guarded_reads")
        ctx.feat(*sig, kind, out)

    def accepted(self, s, m, T, what, ctx):
        n = len(s)
        require(isinstance(s, gsply.GSData), what + f"returned {type(s).__name__}")
        for f, shp in (("means", (n, 3)), ("scales", (n, 3)), ("quats", (n, 4)), ("opacities", (n,)), ("sh0", (n, 3))):
            a = getattr(s, f)
            require(a.shape == shp and a.dtype == np.float32, lambda: what + f"inconsistent scene: {f} is {a.dtype}{a.shape} for {n} Gaussians")
        k = ref.norm_shn(s.shN, n)
        require(k.ndim == 3 and k.shape[0] == n and k.shape[2] == 3 and k.shape[1] in (0, 3, 8, 15), lambda: what + f"inconsistent scene: shN {k.shape}")
        require(s.masks is None or s.masks.shape[0] == n, lambda: what + "inconsistent scene: masks")
        for name in ("means_l.webp", "means_u.webp", "quats.webp", "scales.webp", "sh0.webp") + (("shN_labels.webp",) if k.shape[1] else ()):
            if T is not None and T.get(name) is not None:
                px = T[name].shape[0] * T[name].shape[1]
                require(n <= px, lambda: what + f"returned {n} Gaussians, {name} has {px} pixels")
        if m is None or T is None or any(v is None for v in T.values()):
            return
        try:
            want, tol = sog.decode(m, T)
        except Exception:
            return
        finite = all(np.isfinite(v).all() for v in want.values()) and all(np.abs(v).max(initial=0) < 1e30 for v in want.values())
        finite = finite and all(np.max(v, initial=0) < 1e30 for v in tol.values())
        lo, hi = (np.array(m["means"][x], np.float64) for x in ("mins", "maxs"))
        if finite and (lo != hi).all():
            if "shN_centroids.webp" in T and k.shape[1]:     # what a palette of the wrong size means is not defined
                h, w = T["shN_centroids.webp"].shape[:2]
                pal = h * 64 if "count" not in m else m["shN"]["count"]
                if w != 64 * k.shape[1] or h * 64 < pal:
                    return
            bad = ref.diff_close(s, want, tol, "")
            require(not bad, lambda: what + "accepted, but " + bad)
            ctx.count("accepted_and_verified")

    def run(self, c, ctx):
        rng = rng_of("P24", c)
        if c["k"] == "special":
            return self.special(rng, c["w"], ctx)
        i = c["b"] if "b" in c else int(rng.integers(len(BASES)))
        b = BASES[i]
        m, T, e = self.base[b]
        m, T, e = copy.deepcopy(m), dict(T), dict(e)
        k = c["k"]
        if k == "random":
            u = rng.random()
            k = "two" if u < .45 else "flip" if u < .6 else "cut" if u < .65 else "arbitrary" if u < .7 else "entry" if u < .78 else "json" if u < .86 else "table" if u < .93 else "tex"
        what = f"sogread of a version {b[0]} scene, bands {b[1]}, n={b[2]}, {k} "
        sig = (b[:2], k)
        if k in ("del", "set", "two"):
            for _ in range(1 if k != "two" else int(rng.integers(1, 4))):
                ps = paths(m)
                p = ps[c["p"]] if k != "two" else ps[int(rng.integers(len(ps)))]
                if k == "del" or k == "two" and rng.random() < .2:
                    drop(m, p)
                    what += f"removed {'.'.join(map(str, p))} "
                else:
                    old = get(m, p)
                    v = VALUES[c["v"]] if k == "set" else VALUES[int(rng.integers(len(VALUES)))]
                    if k == "two" and isinstance(old, int) and rng.random() < .5:
                        v = old + int(rng.choice([-1, 1, 2, 100]))
                    put(m, p, copy.deepcopy(v))
                    what += f"set {'.'.join(map(str, p))} to {str(v)[:30]} "
                sig += (str(p[:2]),)
                if not m:
                    break
            if k == "two" and rng.random() < .3:
                t = list(T)[int(rng.integers(len(T)))]
                e[t], T[t] = self.texture(rng, T[t], int(rng.integers(12)))
                what += f"and damaged {t} "
            # names may now point anywhere
            want = {"means": 2, "scales": 1, "quats": 1, "sh0": 1}
            orig = self.base[b][0]
            moved = any(not isinstance(m.get(a), dict) or m[a].get("files") != orig[a]["files"] for a in orig if isinstance(orig[a], dict))
            e["meta.json"] = json.dumps(m).encode()
            return self.read(rng, None if moved else m, None if moved else T, e, what, ctx, sig)
        if k == "tex":
            names = list(T)
            t = names[(c["t"] if "t" in c else int(rng.integers(len(names)))) % len(names)]
            how = c["how"] if "how" in c else int(rng.integers(12))
            e[t], T[t] = self.texture(rng, T[t], how)
            return self.read(rng, m, T, e, what + f"{t} kind {how} ", ctx, sig + (t, how))
        if k == "table":
            a = ("scales", "sh0", "shN")[c["a"] if "a" in c else int(rng.integers(3))]
            ln = c["len"] if "len" in c else int(rng.integers(0, 300))
            if "codebook" in m.get(a, {}):
                cb = m[a]["codebook"]
                m[a]["codebook"] = (cb + cb)[:ln]
            else:
                for x in ("mins", "maxs"):
                    if a in m and isinstance(m[a][x], list):
                        m[a][x] = (m[a][x] * 100)[:ln % 7]
            e["meta.json"] = json.dumps(m).encode()
            if a != "shN" and "codebook" in m[a]:
                top = T["scales.webp" if a == "scales" else "sh0.webp"].reshape(-1, 4)[:b[2], :3].max(initial=0)
                if b[2] and top >= ln:
                    return self.refused(rng, e, what + f"{a} table of {ln} entries for label {top} ", ctx, sig)
            return self.read(rng, None if a == "shN" else m, T, e, what + f"{a} table of {ln} ", ctx, sig + (a, ln))
        raw = sog.bundle(e, deflate=bool(rng.random() < .5)) if k != "cut" else sog.bundle(e)
        if k == "cut":
            at = c.get("at", int(rng.integers(0, len(raw))))
            return self.read(rng, None, None, e, what + f"at byte {at} ", ctx, sig + (bucket(at),), raw=raw[:at])
        if k == "flip":
            a = bytearray(raw)
            for _ in range(int(rng.integers(1, 8))):
                lo = 0 if rng.random() < .5 else max(0, len(a) - 600)
                a[int(rng.integers(lo, len(a)))] = int(rng.integers(256))
            return self.read(rng, None, None, e, what, ctx, sig, raw=bytes(a))
        if k == "arbitrary":
            n = int(rng.choice([0, 1, 4, 22, 100, 5000]))
            a = rng.bytes(n)
            if rng.random() < .5:
                a = b"PK\x05\x06" + a if rng.random() < .5 else a + raw[-200:]
            return self.read(rng, None, None, e, "sogread of arbitrary bytes ", ctx, (k, n), raw=a)
        if k == "entry":
            x = sorted(e)[int(rng.integers(len(e)))]
            y = sorted(e)[int(rng.integers(len(e)))]
            u = rng.random()
            if u < .5:
                del e[x]
            elif u < .75:
                e[x] = e[y]
            else:
                e[x], e[y] = e[y], e[x]
            return self.read(rng, None, None, e, what + f"{x} <- {y} ", ctx, sig + (x,))
        j = e["meta.json"]
        u = int(rng.integers(9))
        e["meta.json"] = [j[:int(rng.integers(len(j)))], j.decode().encode("utf-16"), b"\xef\xbb\xbf" + j, b"[" * 100000, b"[]", b"null", b"3", j.replace(b":", b";", 1), b"\xff" + j][u]
        self.read(rng, None, None, e, what + f"text damage {u} ", ctx, sig + (u,))

    def refused(self, rng, e, what, ctx, sig):
        r0 = ctx.counters.get("accepted", 0)
        self.read(rng, None, None, e, what, ctx, sig)
        require(ctx.counters.get("accepted", 0) == r0, lambda: what + ": a scene was returned although the table does not cover the labels")

    def special(self, rng, w, ctx):
        p = ctx.path("x.sog")
        v2 = self.base[BASES[2]]
        if w == 0:
            arg = p
        elif w == 1:
            os.makedirs(p)
            arg = p
        elif w == 2:
            open(p, "wb").close()
            arg = Path(p)
        elif w == 3:
            os.symlink(p + "nope", p)
            arg = p
        elif w == 4:
            arg = ctx.path("x.zip")
            open(arg, "wb").write(sog.bundle(v2[2]))
        elif w == 5:
            arg = ctx.path("meta.json")
            open(arg, "wb").write(v2[2]["meta.json"])
        elif w == 6:
            arg = b""
        elif w == 7:
            arg = sog.folder(v2[2], p)
            os.remove(os.path.join(p, "sh0.webp"))
            os.makedirs(os.path.join(p, "sh0.webp"))
        elif w == 8:
            arg = ""
        elif w == 9:
            arg = "a\x00b.sog"
        elif w == 10:
            arg = sog.folder({"meta.json": v2[2]["meta.json"]}, p)
        else:
            arg = "/dev/null"
        r0 = ctx.counters.get("accepted", 0)
        self.read(rng, None, None, {}, f"sogread special {w} ", ctx, ("special", w), arg=arg)
        require(w == 4 or ctx.counters.get("accepted", 0) == r0, f"sogread special {w}: a scene was returned")
