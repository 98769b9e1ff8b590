"""SOG scenes: random generator, container builder and a float64 reference decoder written from the format description."""
import io, json, os, zipfile
import numpy as np
from PIL import Image

COEF = {0: 0, 1: 3, 2: 8, 3: 15}
NAMES = ["means_l.webp", "means_u.webp", "quats.webp", "scales.webp", "sh0.webp", "shN_centroids.webp", "shN_labels.webp"]


def webp(a):
    """Lossless WebP of an (H, W, 3|4) uint8 array, RGB kept under transparent pixels."""
    b = io.BytesIO()
    Image.fromarray(np.ascontiguousarray(a)).save(b, "WEBP", lossless=True, exact=True, method=0, quality=0)
    return b.getvalue()


def tex(rng, n, side=None, alpha=None):
    """Random texture with at least n pixels."""
    w = side or int(rng.choice([max(1, int(np.ceil(np.sqrt(n)))), max(1, n), 4, 64, 1]))
    h = max(1, -(-n // w))
    if max(w, h) > 16000:
        w = h = int(np.ceil(np.sqrt(n)))
    h += int(rng.integers(0, 3))
    a = rng.integers(0, 256, (h, w, 4), dtype=np.uint8)
    if alpha is not None:
        a[..., 3] = alpha
    return a


def scene(rng, n, bands, version, style="random", palette=None):
    """meta, textures {name: (H, W, 4) uint8}."""
    T = {}
    T["means_l.webp"] = tex(rng, n, alpha=255 if rng.random() < .5 else None)
    T["means_u.webp"] = tex(rng, n, alpha=255 if rng.random() < .5 else None)
    q = T["quats.webp"] = tex(rng, n)
    u = rng.random()
    q[..., 3] = 255 if u < .15 else rng.integers(252, 256, q.shape[:2]) if u < .8 else rng.integers(240, 256, q.shape[:2])
    if style == "extreme":
        q[..., :3] = rng.choice(np.array([0, 1, 127, 128, 254, 255], np.uint8), q[..., :3].shape)
    T["scales.webp"] = tex(rng, n, alpha=255 if rng.random() < .5 else None)
    c = T["sh0.webp"] = tex(rng, n, alpha=255 if rng.random() < .15 else None)
    if style == "extreme":
        c[..., 3] = rng.choice(np.array([0, 1, 254, 255], np.uint8), c.shape[:2])
    lo = rng.uniform(-6, 2, 3)
    hi = lo + rng.uniform(0, 8, 3)
    u = rng.random()
    if u < .12:                                 # far away, in both directions
        lo, hi = -rng.uniform(5, 60, 3), rng.uniform(5, 60, 3)
    elif u < .24:                               # almost flat
        hi = lo + 10.0 ** rng.uniform(-9, -2, 3)
    elif u < .28:                               # tiny, near the origin
        lo = rng.choice([0.0, 1e-9, -1e-12], 3)
        hi = lo + 10.0 ** rng.uniform(-20, -8, 3)
    for d in range(3):
        if rng.random() < .1:                   # a scene that is flat in one direction
            hi[d] = lo[d]
            T["means_l.webp"][..., d] = T["means_u.webp"][..., d] = 0
    sc, shc = np.sort(rng.uniform(-12, 3, 256)), np.sort(rng.normal(0, 1.5, 256))
    if rng.random() < .5:
        rng.shuffle(sc), rng.shuffle(shc)
    m = {"means": {"mins": lo.tolist(), "maxs": hi.tolist(), "files": NAMES[:2]}, "scales": {"files": NAMES[3:4]}, "quats": {"files": NAMES[2:3]}, "sh0": {"files": NAMES[4:5]}}
    if version == 2:
        m = {"version": 2, "count": n, "antialias": bool(rng.random() < .5), **m}
        m["scales"]["codebook"], m["sh0"]["codebook"] = sc.tolist(), shc.tolist()
        if rng.random() < .25:                  # entries the version does not use
            for f, w in (("means", 3), ("scales", 3), ("quats", 4), ("sh0", 4)):
                m[f].update(shape=[int(rng.choice([n, n + 1, 0])), w], dtype="float32")
                if f != "means":
                    m[f].update(mins=[-1.0] * w, maxs=[2.0] * w)
    else:
        m["means"].update(shape=[n, 3], dtype="float32")
        a, b = rng.uniform(-12, 0, 3), rng.uniform(-3, 3, 4)
        if rng.random() < .3:
            a, b = rng.uniform(-40, 10, 3), rng.uniform(-40, 10, 4)
        m["scales"].update(shape=[n, 3], dtype="float32", mins=a.tolist(), maxs=(a + rng.uniform(0, 10, 3)).tolist())
        m["quats"].update(shape=[n, 4], dtype="uint8", encoding="quaternion_packed")
        m["sh0"].update(shape=[n, 1, 4], dtype="float32", mins=b.tolist(), maxs=(b + rng.uniform(0, 8, 4)).tolist())
    if bands:
        k = COEF[bands]
        pal = int(rng.choice([1, 2, 63, 64, 65, 128, 300, 1000, 5000 if n > 3000 else 200]))
        if rng.random() < .04 and k < 15 or palette:
            pal = palette or int(rng.choice([16384, 16385, 40000, 65535, 65536]))
        rows = -(-pal // 64)
        T[NAMES[5]] = rng.integers(0, 256, (rows, 64 * k, 4), dtype=np.uint8)
        if rng.random() < .5:
            T[NAMES[5]][..., 3] = 255
        lt = T[NAMES[6]] = tex(rng, n, alpha=255 if rng.random() < .5 else None)
        top = pal if rng.random() < .8 or version == 3 else min(65536, pal + 70)   # v3 has no explicit palette size
        lab = rng.integers(0, top, lt.shape[:2])
        lt[..., 0], lt[..., 1] = lab & 255, lab >> 8
        m["shN"] = {"files": NAMES[5:7]}
        if version == 2:
            cb = rng.normal(0, .5, 256)
            m["shN"].update(count=pal, bands=bands, codebook=cb.tolist())
        else:
            a = float(rng.uniform(-2, 0))
            m["shN"].update(shape=[n, k], dtype="float32", mins=a, maxs=a + float(rng.uniform(0, 4)), quantization=8)
    elif version == 2 and rng.random() < .2:
        m["shN"] = {"files": NAMES[5:7], "count": 0, "bands": 0, "codebook": []}
    return m, T


def files(m, T, rng=None, rename=False):
    """Encoded entries of a container; optionally with other file names and RGB images where alpha is opaque."""
    out = {}
    m = json.loads(json.dumps(m))
    names = {}
    for i, k in enumerate(T):
        names[k] = f"tex {i}-ü.webp" if rename else k
    for a in m.values():
        if isinstance(a, dict) and "files" in a:
            a["files"] = [names.get(x, x) for x in a["files"]]
    for k, a in T.items():
        if a[..., 3].min(initial=255) == 255 and rng is not None and rng.random() < .5:
            a = a[..., :3]
        out[names[k]] = webp(a)
    items = [("meta.json", json.dumps(m).encode())] + list(out.items())
    if rng is not None:
        rng.shuffle(items)
    return dict(items)


def bundle(entries, rng=None, deflate=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if deflate else zipfile.ZIP_STORED) as z:
        for k, v in entries.items():
            z.writestr(k, v)
    return b.getvalue()


def folder(entries, path):
    os.makedirs(path, exist_ok=True)
    for k, v in entries.items():
        with open(os.path.join(path, k), "wb") as f:
            f.write(v)
    return path


def decode(m, T):
    """fields, tolerances in float64."""
    v3 = "count" not in m
    n = m["means"]["shape"][0] if v3 else m["count"]
    flat = {k: a.reshape(-1, 4)[:n].astype(np.int64) for k, a in T.items() if k != NAMES[5]}
    E = 2.0 ** -23
    lo, hi = (np.array(m["means"][x], np.float64) for x in ("mins", "maxs"))
    code = flat[NAMES[0]][:, :3] + 256 * flat[NAMES[1]][:, :3]
    lg = lo + (hi - lo) * code / 65535
    means = np.sign(lg) * np.expm1(np.abs(lg))
    tm = (np.abs(means) + 1) * (8 * E * (1 + np.maximum(np.abs(lo), np.abs(hi))))
    q = flat[NAMES[2]]
    out = np.zeros((n, 4))
    v = (q[:, :3] / 255 * 2 - 1) / np.sqrt(2)
    tag = q[:, 3] - 252
    for t, ix in enumerate(((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2))):
        s = tag == t
        for j, i in enumerate(ix):
            out[s, i] = v[s, j]
        out[s, t] = np.sqrt(np.maximum(0, 1 - (v[s] ** 2).sum(1)))
    out[tag < 0] = [0, 0, 0, 1]
    res = 1 - (v ** 2).sum(1)
    tq = np.full((n, 4), 4 * E)
    for t in range(4):                    # the square root is ill-conditioned near zero
        s = tag == t
        tq[s, t] = np.where(np.abs(res[s]) < 1e-5, 1e-2 * np.sqrt(1e-1), 4 * E / np.sqrt(np.maximum(np.abs(res[s]), 1e-5)) + 4 * E)
    c = flat[NAMES[4]]
    s = flat[NAMES[3]]
    if v3:
        a, b = (np.array(m["scales"][x], np.float64) for x in ("mins", "maxs"))
        sc = a + s[:, :3] / 255 * (b - a)
        ts = np.broadcast_to(4 * E * (np.abs(a) + np.abs(b)), sc.shape)
        a, b = (np.array(m["sh0"][x], np.float64) for x in ("mins", "maxs"))
        x = a + c / 255 * (b - a)
        tx = np.broadcast_to(4 * E * (np.abs(a) + np.abs(b)), x.shape)
        sh0, op, t0, to = x[:, :3], x[:, 3], tx[:, :3], tx[:, 3]
    else:
        sc = np.array(m["scales"]["codebook"], np.float64)[s[:, :3]]
        sh0 = np.array(m["sh0"]["codebook"], np.float64)[c[:, :3]]
        ts, t0 = E * np.abs(sc), E * np.abs(sh0)
        p = np.clip(c[:, 3] / 255, 1e-6, 1 - 1e-6)
        op = np.log(p / (1 - p))
        to = np.full(n, 1e-5) * (1 + np.abs(op))
    k = 0
    if "shN" in m:
        k = m["shN"]["shape"][1] if v3 else COEF[m["shN"]["bands"]]
    shn = np.zeros((n, k, 3))
    if k:
        C = T[NAMES[5]].astype(np.int64)
        lab = flat[NAMES[6]][:, 0] + 256 * flat[NAMES[6]][:, 1]
        pal = C.shape[0] * 64 if v3 else m["shN"]["count"]
        for i in np.flatnonzero(lab < pal):
            row, col = divmod(int(lab[i]), 64)
            px = C[row, col * k:(col + 1) * k, :3]
            shn[i] = (m["shN"]["mins"] + px / 255 * (m["shN"]["maxs"] - m["shN"]["mins"])) if v3 else np.array(m["shN"]["codebook"])[px]
    tn = np.full(shn.shape, 4 * E * (max(abs(m["shN"]["mins"]), abs(m["shN"]["maxs"])) * 2 if v3 else 1)) + (0 if v3 else E * np.abs(shn)) if k else np.zeros(shn.shape)
    return dict(means=means, scales=sc, quats=out, opacities=op, sh0=sh0, shN=shn), dict(means=tm, scales=ts, quats=tq, opacities=to, sh0=t0, shN=tn)
