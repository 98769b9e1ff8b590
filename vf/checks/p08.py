"""P08: format detection agrees with an independent parser and with loading."""
import os, pathlib
import numpy as np
from vf import gen, guard, hostile, ref
from vf.core import Check, require, fail, rng_of, bucket
from vf.checks import p02
from vf.checks.p07 import BASES


def layout(b):
    """('compressed', K, need) | ('std', K, need) | None (anything else) | 'gray' (outside what the property speaks about)."""
    i = b.find(b"end_header")
    head = b[:i + 12] if i >= 0 else b[:200000]
    if any(len(l) > 60000 for l in head.split(b"\n")) or any(x in head for x in b"\x1c\x1d\x1e\x1f\x0b\x0c\x85"):
        return "gray"
    try:
        fmt, els, off = ref.parse_header(b)
    except (ref.BadPly, ValueError):
        return None
    if fmt != "binary_little_endian" or not els:
        return None
    names = [e[0] for e in els]
    fl = lambda t: t in ("float", "float32")
    if names[:2] == ["chunk", "vertex"]:
        ok = [p for _, p in els[0][2]] == ref.CHUNK_PROPS and all(fl(t) for t, _ in els[0][2]) and \
            [p for _, p in els[1][2]] == ref.VERT_PROPS and all(t in ("uint", "uint32") for t, _ in els[1][2]) and els[0][1] == (els[1][1] + 255) // 256
        if not ok:
            return None
        k3 = 0
        if "sh" in names:
            k3 = len(els[names.index("sh")][2])
            good = names.index("sh") == 2 and els[2][1] == els[1][1] and [(t in ("uchar", "uint8"), p) for t, p in els[2][2]] == [(True, f"f_rest_{i}") for i in range(k3)]
            if not good or k3 % 3:
                return None
            if k3 not in (9, 24, 45):
                return "gray"
        return "compressed", k3 // 3, off + els[0][1] * 72 + els[1][1] * (16 + k3)
    if names[0] == "vertex":
        k = (len(els[0][2]) - 14) // 3
        if all(fl(t) for t, _ in els[0][2]) and k in gen.DEG_OF_K and [p for _, p in els[0][2]] == ref.std_props(k):
            return "std", k, off + els[0][1] * 4 * len(els[0][2])
    return None


NEAR = ["none", "sh+1", "sh-1", "sh 0", "sh*256", "sh=chunk", "chunk+1", "chunk-1", "chunk 0", "vertex+1", "vertex-256", "sh first", "vertex first", "sh before vertex", "extra first", "extra between",
        "extra before sh", "extra last", "sh twice", "vertex type", "vertex types", "chunk type", "sh type", "sh types", "chunk swap", "chunk missing", "chunk extra", "vertex swap", "vertex extra", "vertex missing",
        "vertex rename", "chunk rename", "sh rename", "sh offset", "sh swap", "sh 8", "sh 10", "sh 46", "sh 12", "sh empty", "SH", "ascii", "big endian", "std as second", "vertex std", "float32", "uint32 uint8"]


def near(v, rng, n, k):
    """A compressed file in which at most one thing is not as the layout demands."""
    c = (n + 255) // 256
    E = [["chunk", c, [["float", p] for p in ref.CHUNK_PROPS]], ["vertex", n, [["uint", p] for p in ref.VERT_PROPS]]]
    if k:
        E.append(["sh", n, [["uchar", f"f_rest_{i}"] for i in range(3 * k)]])
    C, V, S = E[0], E[1], E[2] if k else ["sh", n, [["uchar", f"f_rest_{i}"] for i in range(9)]]
    if v.split()[0][:2] in ("sh", "SH") and not k and v not in ("sh twice",):
        E.append(S)
    X = ["extra", int(rng.integers(0, 3)), [["float", "a"], ["uchar", "b"]]]
    pick = lambda a: int(rng.integers(len(a[2])))
    enc = "binary_little_endian"
    if v == "sh+1": S[1] += 1
    elif v == "sh-1": S[1] -= 1
    elif v == "sh 0": S[1] = 0
    elif v == "sh*256": S[1] *= 256
    elif v == "sh=chunk": S[1] = c
    elif v == "chunk+1": C[1] += 1
    elif v == "chunk-1": C[1] = max(0, c - 1)
    elif v == "chunk 0": C[1] = 0
    elif v == "vertex+1": V[1] = c * 256 + 1
    elif v == "vertex-256": V[1] = max(0, n - 256)
    elif v == "sh first": E.insert(0, E.pop())
    elif v == "vertex first": E[0], E[1] = E[1], E[0]
    elif v == "sh before vertex": E.insert(1, E.pop())
    elif v == "extra first": E.insert(0, X)
    elif v == "extra between": E.insert(1, X)
    elif v == "extra before sh": E.insert(2, X)
    elif v == "extra last": E.append(X)
    elif v == "sh twice": E.append(["sh", n, list(S[2])])
    elif v == "vertex type": V[2][pick(V)][0] = str(rng.choice(["int", "float", "ushort", "double", "uchar", "list uchar uint"]))
    elif v == "vertex types": V[2] = [[str(rng.choice(["int", "float", "int32"])), p] for _, p in V[2]]
    elif v == "chunk type": C[2][pick(C)][0] = str(rng.choice(["double", "int", "uint", "float64", "half"]))
    elif v == "sh type": S[2][pick(S)][0] = str(rng.choice(["char", "float", "ushort", "int8"]))
    elif v == "sh types": S[2] = [[str(rng.choice(["char", "float"])), p] for _, p in S[2]]
    elif v in ("chunk swap", "vertex swap", "sh swap"):
        a = {"c": C, "v": V, "s": S}[v[0]]
        i = int(rng.integers(len(a[2]) - 1))
        a[2][i], a[2][i + 1] = a[2][i + 1], a[2][i]
    elif v in ("chunk missing", "vertex missing"):
        a = C if v[0] == "c" else V
        a[2].pop(pick(a) if rng.random() < .5 else -1)
    elif v in ("chunk extra", "vertex extra"):
        a = C if v[0] == "c" else V
        a[2].insert(pick(a) if rng.random() < .5 else len(a[2]), [a[2][0][0], "extra"])
    elif v in ("chunk rename", "vertex rename", "sh rename"):
        a = {"c": C, "v": V, "s": S}[v[0]]
        i = pick(a)
        a[2][i][1] = str(rng.choice([a[2][i][1].upper(), a[2][i][1] + "_", a[2][i][1][:-1], "x"]))
    elif v == "sh offset": S[2] = [["uchar", f"f_rest_{i + 1}"] for i in range(len(S[2]))]
    elif v in ("sh 8", "sh 10", "sh 46", "sh 12"): S[2] = [["uchar", f"f_rest_{i}"] for i in range(int(v.split()[1]))]
    elif v == "sh empty": S[2] = []
    elif v == "SH": S[0] = "SH"
    elif v in ("ascii", "big endian"): enc = "ascii" if v == "ascii" else "binary_big_endian"
    elif v == "std as second": E[1:] = [["vertex", n, [["float", p] for p in ref.std_props(k)]]]
    elif v == "vertex std": E[:] = [["vertex", n, [["float", p] for p in ref.std_props(k)]], C]
    elif v == "float32": C[2] = [["float32", p] for _, p in C[2]]
    elif v == "uint32 uint8":
        V[2], S[2] = [["uint32", p] for _, p in V[2]], [["uint8", p] for _, p in S[2]]
    h = f"ply\nformat {enc} 1.0\n" + "".join(f"element {e} {m}\n" + "".join(f"property {t} {p}\n" for t, p in ps) for e, m, ps in E) + "end_header\n"
    size = sum(m * len(ps) * 4 for _, m, ps in E) + int(rng.integers(0, 5000))
    body = np.abs(rng.standard_normal(size // 4 + 1)).astype("<f4").tobytes()[:size]
    return h.encode() + body


class CHECK(Check):
    rule = "written, foreign, damaged and arbitrary files x name x path type; distinct by (origin, mutation, detected, loaded)"
    required = {"detections": 1500, "known_detected": 400, "unknown_detected": 500, "features": 80}
    n_quick, n_thorough = 2200, 60000

    def setup(self, ctx, tier):
        global gsply, GSTensor
        import gsply
        from gsply import GSTensor
        self.foreign = p02.CHECK()
        guard.install_step_counter()

    def directed(self, tier):
        out = [{"k": "written", "n": n, "K": k, "c": c, "s": n} for n in (0, 1, 255, 256, 257, 700) for k in (0, 3, 8, 15) for c in (0, 1)]
        out += [{"k": "special", "w": w} for w in ("missing", "dir", "empty", "dangling", "null", "dirpath", "weird")]
        out += [{"k": "near", "v": v, "n": n, "K": k} for v in NEAR for n, k in ((1, 3), (256, 0), (257, 15), (600, 8))]
        return out

    def run(self, c, ctx):
        rng = rng_of("P08", c)
        name = str(rng.choice(["a.ply", "a.compressed.ply", "a.ply_compressed", "noext", "b.txt", "x y.ply"]))
        p = ctx.path(name)
        if c["k"] == "special":
            return self.special(c["w"], p, ctx)
        if c["k"] == "written":
            s = gen.scene(rng, c["n"], c["K"], "normal")
            d = gsply.GSData.from_arrays(*[s[f] for f in gen.F], format="ply")
            q = ctx.path("w.compressed.ply" if c["c"] else "w.ply")
            if rng.random() < .5:
                gsply.plywrite(q, d)
            else:
                GSTensor.from_gsdata(d, device="cpu").save(q, compressed=bool(c["c"]))
            b, origin, mut = open(q, "rb").read(), "written", "compressed" if c["c"] else "plain"
            got = gsply.detect_format(q)
            require(got == ((True, None) if c["c"] else (False, gen.DEG_OF_K[c["K"]])), f"detect_format says {got} for a file just written with SH degree {gen.DEG_OF_K[c['K']]}, compressed={bool(c['c'])}, n={c['n']}")
        else:
            u = rng.random()
            if c["k"] == "near" or u < .12:
                mut = c["v"] if c["k"] == "near" else str(rng.choice(NEAR))
                n, k = (c["n"], c["K"]) if c["k"] == "near" else (int(rng.choice([1, 2, 255, 256, 257, 512, 700])), gen.pick_k(rng))
                b, origin = near(mut, rng, n, k), "near"
            elif u < .35:
                v = str(rng.choice(p02.VARIANTS))
                k, n = gen.pick_k(rng), int(rng.choice([0, 1, 3, 20]))
                b, _ = self.foreign.build(v, rng, n, k, gen.scene(rng, n, k, "normal"))
                origin, mut = "foreign", v
            elif u < .45:
                b, origin, mut = hostile.arbitrary(rng), "arbitrary", "-"
            elif u < .55:
                kind, n, k = BASES[int(rng.integers(len(BASES)))]
                b, origin, mut = hostile.base(kind, n, k, rng), kind, "intact"
            else:
                kind, n, k = BASES[int(rng.integers(len(BASES)))]
                b, mut = hostile.mutate(hostile.base(kind, n, k, rng), rng)
                origin, mut = kind, mut.split("+")[0]
        with open(p, "wb") as f:
            f.write(b)
        st0 = os.stat(p)
        arg = pathlib.Path(p) if rng.random() < .5 else p
        what = f"{origin}/{mut} ({len(b)} bytes, {name}): "
        try:
            with guard.steps(20000 + 60 * len(b)):
                got = gsply.detect_format(arg)
        except guard.StepBudget as e:
            fail(what + f"detection does not finish ({e})")
        except Exception as e:
            fail(what + f"detection raised {type(e).__name__}: {e}")
        st1 = os.stat(p)
        require((st0.st_size, st0.st_mtime_ns, st0.st_mode, st0.st_ino) == (st1.st_size, st1.st_mtime_ns, st1.st_mode, st1.st_ino) and open(p, "rb").read() == b
                and os.listdir(os.path.dirname(p)) == [name], what + "detection changed the file or its directory")
        want = layout(b)
        ctx.count("detections")
        head = b[:b.find(b"end_header") + 10][-700:]
        if want == "gray":
            ctx.count("gray")
        elif want is None:
            require(got == (False, None), lambda: what + f"detected as {got}, but it is neither layout: {head!r}")
            ctx.count("unknown_detected")
        elif want[0] == "compressed":
            require(got == (True, None), lambda: what + f"detected as {got}, but it is laid out as a compressed PLY: {head!r}")
            ctx.count("known_detected")
        else:
            require(got == (False, gen.DEG_OF_K[want[1]]), lambda: what + f"detected as {got}, but it is a standard PLY of SH degree {gen.DEG_OF_K[want[1]]}: {head!r}")
            ctx.count("known_detected")
        for rd in ("plyread", "load", "tload") if rng.random() < .3 else ("plyread",):
            try:
                d = gsply.plyread(arg) if rd == "plyread" else (gsply.GSData.load(arg) if rd == "load" else GSTensor.load(arg, device="cpu"))
            except (ValueError, OSError) as e:
                d = None
            if d is None:
                complete = isinstance(want, tuple) and len(b) >= want[2]
                require(not complete, lambda: what + f"detected as {got}, the file is complete, but {rd} refuses it: {head!r}")
            else:
                require(got != (False, None), lambda: what + f"{rd} loaded {len(d)} Gaussians from a file detected as unknown: {head!r}")
                if len(d) and want != "gray":
                    require(d.get_sh_degree() == gen.DEG_OF_K[want[1]], what + f"{rd} gave SH degree {d.get_sh_degree()}, detected {got}, the file has {want[1]} coefficients")
            ctx.feat(origin, mut, got, d is not None, rd)
        ctx.sample({"origin": origin, "variant": mut, "detected": list(got), "reference": str(want)})

    def special(self, w, p, ctx):
        if w == "dir":
            os.makedirs(p)
        elif w == "empty":
            open(p, "wb").close()
        elif w == "dangling":
            os.symlink(p + "nope", p)
        elif w == "null":
            p = "/dev/null"
        elif w == "dirpath":
            p = p + "/x/y.ply"
        elif w == "weird":
            p = os.path.join(os.path.dirname(p), "n" * 300)
        for a in (p, pathlib.Path(p)):
            try:
                got = gsply.detect_format(a)
            except Exception as e:
                fail(f"detect_format raised {type(e).__name__} on a {w} path: {e}")
            require(got == (False, None), f"detect_format of a {w} path says {got}")
            ctx.count("detections")
        ctx.feat("special", w)
