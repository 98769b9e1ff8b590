"""Scene generators. A scene is a dict of float32 arrays: means scales quats opacities sh0 shN (shN (n,K,3) or None)."""
import numpy as np

F = ("means", "scales", "quats", "opacities", "sh0", "shN")
K_OF_DEG = {0: 0, 1: 3, 2: 8, 3: 15}
DEG_OF_K = {0: 0, 3: 1, 8: 2, 15: 3}
SIZES = [0, 1, 2, 3, 7, 31, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1024]
SPECIAL = np.array([0x00000000, 0x80000000, 0x3F800000, 0xBF800000, 0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001,
                    0xFFC12345, 0x7FFFFFFF, 0x00000001, 0x80000001, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF,
                    0x33800000, 0x3F000000, 0x0A0D0A0D, 0x6C70000A, 0x5F646E65], np.uint32).view(np.float32)


def shapes(n, k):
    return {"means": (n, 3), "scales": (n, 3), "quats": (n, 4), "opacities": (n,), "sh0": (n, 3), "shN": (n, k, 3)}


def pick_n(rng, big=0.05, huge=0.0):
    u = rng.random()
    if u < huge:
        return int(rng.integers(50000, 160000))
    if u < huge + big:
        return int(rng.integers(2000, 20000))
    if u < 0.75:
        return int(rng.choice(SIZES))
    return int(rng.integers(0, 1200))


def big(tier, m):
    """Cases of sizes at which 16-bit indices, block-wise or parallel variants begin to matter."""
    for i in range(m if tier == "quick" else 6 * m):
        yield {"k": "big", "n": (4099, 70001, 300_007, 20011, 131_075, 10007)[i % 6], "K": (0, 3, 0, 0, 3, 15)[i % 6], "i": i}


def pick_k(rng):
    return int(rng.choice([0, 3, 8, 15]))


def scene(rng, n, k, flavour="normal"):
    f = getattr(Flavours, flavour)
    s = f(rng, n, k)
    for name, shp in shapes(n, k).items():
        a = s.get(name)
        assert a.shape == shp and a.dtype == np.float32, (name, a.shape, shp, a.dtype)
    return s


def _r(rng, shp, scale=1.0, loc=0.0):
    return (rng.standard_normal(shp) * scale + loc).astype(np.float32)


class Flavours:
    @staticmethod
    def normal(rng, n, k):
        """What trained models look like (log scales, logits)."""
        sh = shapes(n, k)
        q = _r(rng, sh["quats"])
        if n and rng.random() < 0.5:
            q = q / np.maximum(np.linalg.norm(q, axis=1, keepdims=True), 1e-6)
        return {"means": _r(rng, sh["means"], float(rng.choice([0.1, 2, 50])), float(rng.choice([0, 0, 10, -300]))),
                "scales": _r(rng, sh["scales"], 1.5, -4.5), "quats": q.astype(np.float32),
                "opacities": _r(rng, sh["opacities"], 3.0), "sh0": _r(rng, sh["sh0"], 1.0),
                "shN": _r(rng, sh["shN"], 0.4)}

    @staticmethod
    def linear(rng, n, k):
        """Values already activated: scales in (0, 10), opacities in (0, 1)."""
        s = Flavours.normal(rng, n, k)
        s["scales"] = np.exp(np.clip(s["scales"], -8, 2)).astype(np.float32)
        s["opacities"] = (1 / (1 + np.exp(-s["opacities"].astype(np.float64)))).astype(np.float32)
        return s

    @staticmethod
    def bits(rng, n, k):
        return {f: rng.integers(0, 2**32, shp, dtype=np.uint64).astype(np.uint32).view(np.float32)
                for f, shp in shapes(n, k).items()}

    @staticmethod
    def special(rng, n, k):
        return {f: rng.choice(SPECIAL.view(np.uint32), shp).astype(np.uint32).view(np.float32)
                for f, shp in shapes(n, k).items()}

    @staticmethod
    def ids(rng, n, k):
        """Every number in the scene is different, so any misplaced value is identifiable."""
        out, base = {}, 1
        for f, shp in shapes(n, k).items():
            c = int(np.prod(shp))
            a = np.arange(base, base + c, dtype=np.float64)
            base += c
            out[f] = a.astype(np.float32).reshape(shp)
        return out

    @staticmethod
    def const(rng, n, k):
        """Constant within each 256-block, some blocks mixed."""
        s = Flavours.normal(rng, n, k)
        for f in F:
            a = s[f]
            for c in range(0, n, 256):
                if rng.random() < 0.7:
                    a[c:c + 256] = a[c:c + 1]
        return s

    @staticmethod
    def wide(rng, n, k):
        """Finite values over many magnitudes."""
        def w(shp, lo, hi):
            return (np.sign(rng.standard_normal(shp)) * 10.0 ** rng.uniform(lo, hi, shp)).astype(np.float32)
        sh = shapes(n, k)
        q = w(sh["quats"], -6, 6)
        return {"means": w(sh["means"], -8, 8), "scales": np.clip(w(sh["scales"], -3, 2), -60, 60).astype(np.float32),
                "quats": q, "opacities": w(sh["opacities"], -4, 2.5), "sh0": w(sh["sh0"], -6, 3),
                "shN": w(sh["shN"], -4, 1.5)}

    @staticmethod
    def edge(rng, n, k):
        """Hand-picked finite extremes for the codec."""
        s = Flavours.normal(rng, n, k)
        ch = rng.choice
        s["scales"] = ch(np.array([-60, -30, -20.5, -20, -19.99, -5, 0, 3, 19.99, 20, 21, 50], np.float32), s["scales"].shape).astype(np.float32)
        s["opacities"] = ch(np.array([-100, -40, -10, -6.24, -5.54, 0, 5.54, 6.24, 10, 40, 100], np.float32), (n,)).astype(np.float32)
        s["sh0"] = ch(np.array([-5, -1.7724539, 0, 1.7724539, 5, 1e-7], np.float32), s["sh0"].shape).astype(np.float32)
        s["shN"] = ch(np.array([-100, -4.01, -4, -3.97, -0.5, -1 / 32, 0, 1e-9, 1 / 64, 1 / 32, 0.5, 3.95, 3.97, 4, 4.1, 99], np.float32), s["shN"].shape).astype(np.float32)
        q = ch(np.array([-1, -0.70710678, -0.5, 0, 0, 0.5, 0.70710678, 1], np.float32), s["quats"].shape).astype(np.float32)
        bad = (q == 0).all(axis=1)
        q[bad] = np.array([1, 0, 0, 0], np.float32)
        s["quats"] = q
        return s


FINITE = ["normal", "normal", "const", "wide", "edge"]


def relayout(rng, a, kind=None):
    """The same values in another memory layout (a view of a bigger or permuted buffer)."""
    kinds = ["C", "F", "cols", "rows", "rev", "slab", "ro", "perm"]
    kind = kind or str(rng.choice(kinds))
    if kind == "F":
        return np.asfortranarray(a), kind
    if kind == "perm":                       # the axes stored in any order
        order = [int(x) for x in rng.permutation(a.ndim)]
        return np.ascontiguousarray(a.transpose(order)).transpose(np.argsort(order)), kind
    if kind == "cols" and a.ndim >= 1:
        big = np.full(a.shape[:-1] + (a.shape[-1] * 2 + 1,), 7.25, a.dtype)
        v = big[..., 1::2]
        v[...] = a
        return v, kind
    if kind == "rows":
        big = np.full((a.shape[0] * 2 + 1,) + a.shape[1:], -3.5, a.dtype)
        v = big[1::2]
        v[...] = a
        return v, kind
    if kind == "rev":
        return np.ascontiguousarray(a[::-1])[::-1], kind
    if kind == "slab":
        big = np.full((a.shape[0] + 5,) + a.shape[1:], 9.0, a.dtype)
        v = big[3:3 + a.shape[0]]
        v[...] = a
        return v, kind
    if kind == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b, kind
    return np.ascontiguousarray(a).copy(), "C"


def relayout_scene(rng, s, kind=None, allow_ro=True):
    out, kinds = {}, []
    for f in F:
        k = kind
        if k is None:
            k = str(rng.choice(["C", "F", "cols", "rows", "rev", "slab", "perm"] + (["ro"] if allow_ro else [])))
        out[f], kk = relayout(rng, s[f], k)
        kinds.append(kk)
    return out, kinds


def copy(s):
    return {f: (None if s[f] is None else np.array(s[f])) for f in F}


def take(s, idx):
    return {f: s[f][idx] for f in F}
