"""Independent references: PLY grammar, compressed codec in float64, formulas. No gsply code is used here."""
import re
import numpy as np
from .gen import DEG_OF_K, F

C0 = 0.28209479177387814
EPS = 2.0 ** -24
CHUNK_PROPS = ["min_x", "min_y", "min_z", "max_x", "max_y", "max_z", "min_scale_x", "min_scale_y", "min_scale_z",
               "max_scale_x", "max_scale_y", "max_scale_z", "min_r", "min_g", "min_b", "max_r", "max_g", "max_b"]
VERT_PROPS = ["packed_position", "packed_rotation", "packed_scale", "packed_color"]


class BadPly(Exception):
    pass


def std_props(k):
    return (["x", "y", "z", "f_dc_0", "f_dc_1", "f_dc_2"] + [f"f_rest_{i}" for i in range(3 * k)] +
            ["opacity", "scale_0", "scale_1", "scale_2", "rot_0", "rot_1", "rot_2", "rot_3"])


TYPES = {"char": "i1", "int8": "i1", "uchar": "u1", "uint8": "u1", "short": "<i2", "int16": "<i2", "ushort": "<u2",
         "uint16": "<u2", "int": "<i4", "int32": "<i4", "uint": "<u4", "uint32": "<u4", "float": "<f4", "float32": "<f4",
         "double": "<f8", "float64": "<f8"}


def parse_header(b):
    """Strict PLY grammar. Returns (format, elements, offset); elements = [(name, count, [(type, name) | ('list', ...)])]."""
    pos, lines = 0, []
    while True:
        j = b.find(b"\n", pos)
        if j < 0:
            raise BadPly("no end_header")
        line = b[pos:j]
        pos = j + 1
        if line.endswith(b"\r"):
            line = line[:-1]
        try:
            t = line.decode("ascii")
        except UnicodeDecodeError:
            if line.startswith((b"comment", b"obj_info")):
                continue
            raise BadPly("non-ascii header line")
        lines.append(t)
        if t.strip() == "end_header":
            break
    if lines[0].strip() != "ply":
        raise BadPly("magic")
    fmt, elements, seen = None, [], set()
    for t in lines[1:-1]:
        w = t.split()
        if not w or w[0] in ("comment", "obj_info"):
            continue
        if w[0] == "format":
            if len(w) != 3 or fmt is not None:
                raise BadPly("format line")
            fmt = w[1]
        elif w[0] == "element":
            if len(w) != 3 or not re.fullmatch(r"[0-9]+", w[2]) or w[1] in seen:
                raise BadPly("element line")
            seen.add(w[1])
            elements.append((w[1], int(w[2]), []))
        elif w[0] == "property":
            if not elements:
                raise BadPly("property before element")
            if len(w) == 3 and w[1] in TYPES:
                elements[-1][2].append((w[1], w[2]))
            elif len(w) == 5 and w[1] == "list" and w[2] in TYPES and w[3] in TYPES:
                elements[-1][2].append(("list", w[4]))
            else:
                raise BadPly("property line")
        else:
            raise BadPly("keyword " + w[0])
    if fmt is None:
        raise BadPly("no format")
    return fmt, elements, pos


def read_std(b, exact=True):
    """A standard uncompressed 3DGS file -> scene; BadPly when it is anything else."""
    fmt, els, off = parse_header(b)
    if fmt != "binary_little_endian":
        raise BadPly("format " + fmt)
    if not els or els[0][0] != "vertex":
        raise BadPly("first element")
    name, n, props = els[0]
    if any(t not in ("float", "float32") for t, _ in props):
        raise BadPly("property types")
    k = (len(props) - 14) // 3
    if k not in DEG_OF_K or [p for _, p in props] != std_props(k):
        raise BadPly("property names")
    if len(els) > 1 and exact:
        raise BadPly("other elements")
    need = n * len(props) * 4
    payload = b[off:]
    if len(payload) < need or (exact and len(payload) != need):
        raise BadPly(f"payload {len(payload)} != {need}")
    a = np.frombuffer(payload[:need], "<f4").reshape(n, len(props))
    return from_table(a, k)


def from_table(a, k):
    n = a.shape[0]
    sh = np.empty((n, k, 3), np.float32)
    u = sh.view(np.uint32)
    au = np.ascontiguousarray(a).view(np.uint32)
    for c in range(3):
        for j in range(k):
            u[:, j, c] = au[:, 6 + c * k + j]
    o = 6 + 3 * k
    def g(x):
        return np.ascontiguousarray(au[:, x]).view(np.float32)
    return {"means": g(slice(0, 3)), "sh0": g(slice(3, 6)), "shN": sh, "opacities": g(o),
            "scales": g(slice(o + 1, o + 4)), "quats": g(slice(o + 4, o + 8))}


def table(s):
    n, k = s["shN"].shape[:2]
    t = np.empty((n, 14 + 3 * k), np.float32)
    u = t.view(np.uint32)
    def b(x):
        return np.ascontiguousarray(x, np.float32).view(np.uint32)
    u[:, 0:3] = b(s["means"])
    u[:, 3:6] = b(s["sh0"])
    sh = b(s["shN"])
    for c in range(3):
        for j in range(k):
            u[:, 6 + c * k + j] = sh[:, j, c]
    o = 6 + 3 * k
    u[:, o] = b(s["opacities"])
    u[:, o + 1:o + 4] = b(s["scales"])
    u[:, o + 4:o + 8] = b(s["quats"])
    return t


def build_std(s, comments=(), eol="\n", after_format=(), before_end=(), trailing=b"", types=None, count=None,
              fmt="binary_little_endian"):
    n, k = s["shN"].shape[:2]
    lines = ["ply", f"format {fmt} 1.0"] + list(after_format) + list(comments) + [f"element vertex {n if count is None else count}"]
    lines += [f"property {types or 'float'} {p}" for p in std_props(k)] + list(before_end) + ["end_header"]
    return (eol.join(lines) + eol).encode("ascii") + table(s).tobytes() + trailing


def bits_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == bool:
        return bool((a == b).all())
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def norm_shn(x, n):
    return np.zeros((n, 0, 3), np.float32) if x is None else np.asarray(x)


def diff_scene(got, want, what=""):
    """'' when bit-identical, else a description. got: object or dict."""
    n = want["means"].shape[0]
    for f in F:
        g = got[f] if isinstance(got, dict) else getattr(got, f)
        if f == "shN":
            g = norm_shn(g, n)
        if hasattr(g, "detach"):
            g = g.detach().cpu().numpy()
        w = want[f]
        g = np.asarray(g)
        if g.shape != w.shape:
            return f"{what}{f}: shape {g.shape}, expected {w.shape}"
        if g.dtype != w.dtype:
            return f"{what}{f}: dtype {g.dtype}, expected {w.dtype}"
        if g.size and np.ascontiguousarray(g).tobytes() != np.ascontiguousarray(w).tobytes():
            ga, wa = np.ascontiguousarray(g).view(np.uint32).reshape(g.shape), np.ascontiguousarray(w).view(np.uint32).reshape(w.shape)
            bad = np.argwhere(ga != wa)
            i = tuple(int(x) for x in bad[0])
            return f"{what}{f}{list(i)} = {g[i]!r} (0x{int(ga[i]):08x}), expected {w[i]!r} (0x{int(wa[i]):08x}); {len(bad)} of {g.size} differ"
    return ""


# ---------------------------------------------------------------- compressed codec

def read_packed(b, exact=True):
    """Compressed PLY bytes -> (bounds (C,18) f4, packed (N,4) u4, sh (N,3K) u1 or None)."""
    fmt, els, off = parse_header(b)
    if fmt != "binary_little_endian":
        raise BadPly("format")
    names = [e[0] for e in els]
    if names[:2] != ["chunk", "vertex"]:
        raise BadPly(f"elements {names}")
    if [p for _, p in els[0][2]] != CHUNK_PROPS or any(t not in ("float", "float32") for t, _ in els[0][2]):
        raise BadPly("chunk properties")
    if [p for _, p in els[1][2]] != VERT_PROPS or any(t not in ("uint", "uint32") for t, _ in els[1][2]):
        raise BadPly("vertex properties")
    c, n = els[0][1], els[1][1]
    if c != (n + 255) // 256:
        raise BadPly(f"{c} chunks for {n} vertices")
    k3 = 0
    if len(names) > 2:
        if names[2] != "sh" or len(names) > 3:
            raise BadPly("elements")
        k3 = len(els[2][2])
        if els[2][1] != n or k3 not in (9, 24, 45) or [(t in ("uchar", "uint8"), p) for t, p in els[2][2]] != [(True, f"f_rest_{i}") for i in range(k3)]:
            raise BadPly("sh element")
    need = c * 72 + n * 16 + n * k3
    p = b[off:]
    if len(p) < need or (exact and len(p) != need):
        raise BadPly(f"payload {len(p)} != {need}")
    bounds = np.frombuffer(p[:c * 72], "<f4").reshape(c, 18)
    packed = np.frombuffer(p[c * 72:c * 72 + n * 16], "<u4").reshape(n, 4)
    sh = np.frombuffer(p[c * 72 + n * 16:need], "u1").reshape(n, k3) if k3 else None
    return bounds, packed, sh


def packed_header(c, n, k3, comments=(), eol="\n", sh_count=None):
    lines = ["ply", "format binary_little_endian 1.0"] + list(comments) + [f"element chunk {c}"]
    lines += [f"property float {p}" for p in CHUNK_PROPS]
    lines += [f"element vertex {n}"] + [f"property uint {p}" for p in VERT_PROPS]
    if k3:
        lines += [f"element sh {n if sh_count is None else sh_count}"] + [f"property uchar f_rest_{i}" for i in range(k3)]
    lines += ["end_header"]
    return (eol.join(lines) + eol).encode("ascii")


def build_packed(bounds, packed, sh, **kw):
    c, n = bounds.shape[0], packed.shape[0]
    k3 = 0 if sh is None else sh.shape[1]
    b = packed_header(c, n, k3, **kw) + np.ascontiguousarray(bounds, "<f4").tobytes() + np.ascontiguousarray(packed, "<u4").tobytes()
    return b + (np.ascontiguousarray(sh, "u1").tobytes() if k3 else b"")


def unpack_codes(packed):
    p = packed.astype(np.int64)
    pos = np.stack([p[:, 0] >> 21 & 2047, p[:, 0] >> 11 & 1023, p[:, 0] & 2047], 1)
    rot = np.stack([p[:, 1] >> 30 & 3, p[:, 1] >> 20 & 1023, p[:, 1] >> 10 & 1023, p[:, 1] & 1023], 1)
    sca = np.stack([p[:, 2] >> 21 & 2047, p[:, 2] >> 11 & 1023, p[:, 2] & 2047], 1)
    col = np.stack([p[:, 3] >> 24 & 255, p[:, 3] >> 16 & 255, p[:, 3] >> 8 & 255, p[:, 3] & 255], 1)
    return pos, rot, sca, col


STEPS = np.array([2047.0, 1023.0, 2047.0])


def decode(bounds, packed, sh):
    """float64 reference decode + absolute tolerance (float32 evaluation) per field."""
    n = packed.shape[0]
    ch = np.arange(n) // 256
    B = bounds.astype(np.float64)[ch] if n else np.zeros((0, 18))
    pos, rot, sca, col = unpack_codes(packed)
    out, tol = {}, {}
    with np.errstate(all="ignore"):
        def lerp(codes, steps, lo, hi):
            t = codes / steps
            return lo + t * (hi - lo), 8 * EPS * (np.abs(lo) + np.abs(hi)) + 1e-44
        out["means"], tol["means"] = lerp(pos, STEPS, B[:, 0:3], B[:, 3:6])
        out["scales"], tol["scales"] = lerp(sca, STEPS, B[:, 6:9], B[:, 9:12])
        c, ct = lerp(col[:, :3], 255.0, B[:, 12:15], B[:, 15:18])
        out["sh0"], tol["sh0"] = (c - 0.5) / C0, (ct + 4 * EPS * (np.abs(c) + 0.5)) / C0
        o = col[:, 3] / 255.0
        lg = np.where(col[:, 3] == 0, -10.0, np.where(col[:, 3] == 255, 10.0, np.log(np.clip(o, 1e-9, 1 - 1e-9) / np.clip(1 - o, 1e-9, 1))))
        out["opacities"], tol["opacities"] = lg, np.full(n, 1e-4)
        abc = (rot[:, 1:] / 1023.0 - 0.5) * np.sqrt(2.0)
        m = np.sqrt(np.maximum(0, 1 - (abc ** 2).sum(1)))
        q = np.empty((n, 4))
        for w in range(4):
            sel = rot[:, 0] == w
            rest = [i for i in range(4) if i != w]
            q[sel, w] = m[sel]
            q[np.ix_(sel, rest)] = abc[sel]
        tq = np.full((n, 4), 4e-7)
        # sqrt near zero amplifies rounding of 1 - |abc|^2
        tq[np.arange(n), rot[:, 0]] = np.where(m > 1e-2, 4e-5, np.sqrt(1e-6))
        out["quats"], tol["quats"] = q, tq
        if sh is None:
            out["shN"], tol["shN"] = np.zeros((n, 0, 3)), np.zeros((n, 0, 3))
        else:
            k = sh.shape[1] // 3
            out["shN"] = (sh.astype(np.float64).reshape(n, 3, k).transpose(0, 2, 1) - 127.5) / 32.0
            tol["shN"] = np.full((n, k, 3), 1e-6)
    return out, tol


def diff_close(got, want, tol, what="", fields=F):
    n = want["means"].shape[0]
    for f in fields:
        g = got[f] if isinstance(got, dict) else getattr(got, f)
        if f == "shN":
            g = norm_shn(g, n)
        if hasattr(g, "detach"):
            g = g.detach().cpu().numpy()
        g = np.asarray(g)
        if g.shape != want[f].shape:
            return f"{what}{f}: shape {g.shape}, expected {want[f].shape}"
        if not g.size:
            continue
        with np.errstate(all="ignore"):
            ok = np.abs(g.astype(np.float64) - want[f]) <= tol[f]
            ok |= g.astype(np.float64) == want[f]
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            return f"{what}{f}{list(i)} = {g[i]!r}, reference {want[f][i]!r} +- {np.broadcast_to(tol[f], want[f].shape)[i]:.3g}; {int((~ok).sum())} of {g.size} differ"
    return ""


def f32(x):
    return np.asarray(x, np.float32)


def check_encoding(s, bounds, packed, sh, what=""):
    """s: PLY-form scene (float32). '' when bounds and codes conform."""
    n, k = s["shN"].shape[:2]
    c = (n + 255) // 256
    if bounds.shape != (c, 18) or packed.shape != (n, 4):
        return f"{what}shapes {bounds.shape} {packed.shape} for {n}"
    if (sh is None) != (k == 0) or (sh is not None and sh.shape != (n, 3 * k)):
        return f"{what}sh shape {None if sh is None else sh.shape} for K={k}"
    if n == 0:
        return ""
    col = s["sh0"].astype(np.float64) * C0 + 0.5
    starts = np.arange(c) * 256
    want = np.concatenate([np.minimum.reduceat(s["means"], starts), np.maximum.reduceat(s["means"], starts),
                           np.clip(np.minimum.reduceat(s["scales"], starts), -20, 20), np.clip(np.maximum.reduceat(s["scales"], starts), -20, 20),
                           np.minimum.reduceat(col, starts), np.maximum.reduceat(col, starts)], 1).astype(np.float64)
    tolb = np.zeros_like(want)
    tolb[:, 12:] = 3 * EPS * (np.abs(want[:, 12:]) + np.maximum(np.abs(want[:, 12:] - 0.5), 0.5))
    bad = ~(np.abs(bounds.astype(np.float64) - want) <= tolb)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        return f"{what}bound {CHUNK_PROPS[j]} of chunk {i} is {bounds[i, j]!r}, true value {want[i, j]!r} ({n} gaussians)"
    ch = np.arange(n) // 256
    B = bounds.astype(np.float64)[ch]
    pos, rot, sca, colc = unpack_codes(packed)

    def near(name, codes, v, lo, hi, steps, vt):
        rng = hi - lo
        with np.errstate(all="ignore"):
            t = np.clip((v - lo) / rng, 0, 1) * steps
            slack = 0.5 + steps * (6 * EPS + vt / rng) + 1e-9
            ok = (np.abs(codes - t) <= slack) | ~(rng > 1e-9)
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            return f"{what}{name} code {list(i)} = {codes[i]}, exact {t[i]:.4f} (value {v[i]!r} in [{lo[i]!r}, {hi[i]!r}]); {int((~ok).sum())} wrong"
        return ""
    m = near("position", pos, s["means"].astype(np.float64), B[:, 0:3], B[:, 3:6], STEPS, 0.0)
    m = m or near("scale", sca, s["scales"].astype(np.float64), B[:, 6:9], B[:, 9:12], STEPS, 0.0)
    m = m or near("color", colc[:, :3], col, B[:, 12:15], B[:, 15:18], np.array([255.0] * 3), 3 * EPS * (np.abs(col) + 0.5))
    if m:
        return m
    op = sigmoid(s["opacities"]) * 255
    ok = np.abs(colc[:, 3] - op) <= 0.5 + 255 * 8 * EPS * 4
    if not ok.all():
        i = int(np.argwhere(~ok)[0][0])
        return f"{what}opacity code [{i}] = {colc[i, 3]}, exact {op[i]:.4f}"
    q = s["quats"].astype(np.float64)
    nn = np.linalg.norm(q, axis=1, keepdims=True)
    use = ((nn > 1e-6) & (nn < 1e12))[:, 0]
    q = q / np.where(nn > 0, nn, 1)
    w = rot[:, 0]
    big = q[np.arange(n), w]
    ok = (np.abs(big) >= np.abs(q).max(1) - 1e-6) | ~use
    if not ok.all():
        i = int(np.argwhere(~ok)[0][0])
        return f"{what}quaternion [{i}] {q[i]} packed with largest index {w[i]}"
    q = q * np.where(big < 0, -1, 1)[:, None]
    for wi in range(4):
        sel = (w == wi) & use
        rest = [i for i in range(4) if i != wi]
        t = np.clip(q[np.ix_(sel, rest)] * np.sqrt(0.5) + 0.5, 0, 1) * 1023
        bad = ~(np.abs(rot[sel][:, 1:] - t) <= 0.5 + 2e-3)
        if bad.any():
            i, j = map(int, np.argwhere(bad)[0])
            return f"{what}quaternion codes {rot[sel][i]} for {q[sel][i]}, exact {t[i]}"
    if k:
        x = s["shN"].transpose(0, 2, 1).reshape(n, 3 * k).astype(np.float64) * 32 + 128
        t = np.floor(np.clip(x, 0, 255))
        ok = (sh == t) | ((np.abs(sh - t) <= 1) & (np.abs(x - np.rint(x)) <= 1e-4 * np.maximum(1, np.abs(x) / 255)))
        if not ok.all():
            i, j = map(int, np.argwhere(~ok)[0])
            return f"{what}sh byte [{i},{j}] = {sh[i, j]}, exact floor({x[i, j]:.5f}); {int((~ok).sum())} wrong"
    return ""


def sigmoid(x):
    x = np.asarray(x, np.float64)
    with np.errstate(over="ignore"):
        return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def to_linear(s, min_scale=1e-4, max_scale=100.0):
    with np.errstate(over="ignore"):
        sc = np.clip(np.exp(s["scales"].astype(np.float64)), min_scale, max_scale)
    q = s["quats"].astype(np.float64)
    nn = np.linalg.norm(q, axis=1, keepdims=True)
    return sc, sigmoid(s["opacities"]), np.where(nn < 1e-8, np.array([0, 0, 0, 1.0]), q / np.where(nn > 0, nn, 1))


def to_log(scales, opac, min_scale=1e-9, lo=1e-4, hi=1 - 1e-4):
    sc = np.log(np.maximum(np.asarray(scales, np.float64), min_scale))
    o = np.clip(np.asarray(opac, np.float64), lo, hi)
    return sc, np.log(o / (1 - o))


# ---------------------------------------------------------------- general PLY reader (any types, any element order)

def read_vertices(b):
    """Every value of the vertex element by property name, from any well-formed PLY; BadPly otherwise."""
    fmt, els, off = parse_header(b)
    names = [e[0] for e in els]
    if "vertex" not in names:
        raise BadPly("no vertex element")
    if fmt == "ascii":
        toks = iter(b[off:].split())
        def one(t):
            try:
                v = next(toks)
            except StopIteration:
                raise BadPly("payload short")
            try:
                return float(v) if t[-2:] in ("f4", "f8") else int(v)
            except ValueError:
                raise BadPly("payload text")
        def lst(_):
            return [one("i4") for _ in range(one("i4"))]
    elif fmt in ("binary_little_endian", "binary_big_endian"):
        pos = [off]
        def one(t):
            d = np.dtype(t).newbyteorder(">" if fmt == "binary_big_endian" else "<")
            if pos[0] + d.itemsize > len(b):
                raise BadPly("payload short")
            v = np.frombuffer(b, d, 1, pos[0])[0]
            pos[0] += d.itemsize
            return v
        def lst(_):
            raise BadPly("lists not supported by this reference")
    else:
        raise BadPly("format")
    for name, n, props in els:
        if any(t == "list" for t, _ in props):
            raise BadPly("lists not supported by this reference")
        types = [TYPES[t] for t, _ in props]
        if name == "vertex" and len({p for _, p in props}) != len(props):
            raise BadPly("duplicate property")
        if fmt == "binary_little_endian":
            dt = np.dtype([(f"c{i}", t) for i, t in enumerate(types)])
            if pos[0] + n * dt.itemsize > len(b):
                raise BadPly("payload short")
            a = np.frombuffer(b, dt, n, pos[0]) if dt.itemsize else np.zeros(n, dt)
            pos[0] += n * dt.itemsize
            rows = [a[f"c{i}"] for i in range(len(types))]
        else:
            cells = [[one(t) for t in types] for _ in range(n)]
            rows = [np.array([r[i] for r in cells], np.float64 if types[i][-2:] in ("f4", "f8") else np.int64) for i in range(len(types))]
        if name == "vertex":
            return n, {p: r for (_, p), r in zip(props, rows)}
    raise BadPly("no vertex element")


def agrees_with_vertices(d, n, cols):
    """'' when a loaded scene holds exactly the values of the vertex columns."""
    if len(d) != n:
        return f"{len(d)} Gaussians, the file has {n}"
    rest = sorted((p for p in cols if p.startswith("f_rest_")), key=lambda p: int(p[7:]) if p[7:].isdigit() else -1)
    g = {f: getattr(d, f) for f in F}
    g = {f: (v.detach().cpu().numpy() if hasattr(v, "detach") else v) for f, v in g.items()}
    g["shN"] = norm_shn(g["shN"], n)
    k = g["shN"].shape[1]
    if rest != [f"f_rest_{i}" for i in range(3 * k)]:
        return f"{k} SH bands, the file has {len(rest)} f_rest properties"
    want = {"x": g["means"][:, 0], "y": g["means"][:, 1], "z": g["means"][:, 2], "opacity": g["opacities"]}
    for i in range(3):
        want[f"f_dc_{i}"] = g["sh0"][:, i]
        want[f"scale_{i}"] = g["scales"][:, i]
        for j in range(k):
            want[f"f_rest_{i * k + j}"] = g["shN"][:, j, i]
    for i in range(4):
        want[f"rot_{i}"] = g["quats"][:, i]
    for p, v in want.items():
        if p not in cols:
            return f"property {p} is not in the file but a value was returned for it"
        w = cols[p]
        if w.dtype == np.float32 and v.dtype == np.float32:
            same = np.ascontiguousarray(w).view(np.uint32) == np.ascontiguousarray(v).view(np.uint32)
        else:
            w64, v64 = w.astype(np.float64), v.astype(np.float64)
            same = (w64.astype(np.float32) == v64.astype(np.float32)) | (np.isnan(w64) & np.isnan(v64))
        if not np.all(same):
            i = int(np.argwhere(~same)[0][0])
            return f"{p} of Gaussian {i} is {v[i]!r}, the file says {w[i]!r}"
    return ""
