"""What operations on a scene mean, in plain numpy: a scene is a snapshot {v, names, masks, fmt} (hold.snapshot)."""
import numpy as np
from vf import gen, ref

EPS = ref.EPS


def canon(m):
    """Masks as (N, L), one column per layer."""
    return None if m is None else (m[:, None] if m.ndim == 1 else m)


def like(s, v=None, names="", masks="", fmt=None):
    return {"v": dict(s["v"] if v is None else v), "names": s["names"] if isinstance(names, str) else names,
            "masks": s["masks"] if isinstance(masks, str) else masks, "fmt": dict(s["fmt"] if fmt is None else fmt)}


def index(s, key):
    key = np.asarray(key, dtype=np.intp if isinstance(key, (list, tuple)) and not len(key) else None) if not isinstance(key, slice) else key
    return like(s, {f: a[key] for f, a in s["v"].items()}, masks=None if s["masks"] is None else s["masks"][key])


def layer_names(s):
    """Names as add_mask_layer sees them."""
    if s["masks"] is None:
        return []
    return list(s["names"]) if s["names"] is not None else [f"layer_{i}" for i in range(canon(s["masks"]).shape[1])]


def add_layer(s, name, col):
    m = canon(s["masks"])
    col = np.asarray(col, bool)[:, None]
    return like(s, names=layer_names(s) + [name], masks=col if m is None else np.concatenate([m, col], 1))


def remove_layer(s, name):
    i = s["names"].index(name)
    m = np.delete(canon(s["masks"]), i, 1)
    nm = [x for j, x in enumerate(s["names"]) if j != i]
    return like(s, names=nm or None, masks=m if nm else None)


def combine(s, mode, layers=None):
    m = canon(s["masks"])
    if layers is not None:
        m = m[:, [s["names"].index(x) for x in layers]]
    return m.all(1) if mode == "and" else m.any(1)


def join_masks(a, b):
    """(names, masks) of a + b, the pairwise rule."""
    ma, mb = canon(a["masks"]), canon(b["masks"])
    na, nb = len(a["v"]["means"]), len(b["v"]["means"])
    if ma is None and mb is None:
        return None, None
    if mb is None:
        return a["names"], np.concatenate([ma, np.zeros((nb, ma.shape[1]), bool)])
    if ma is None:
        return b["names"], np.concatenate([np.zeros((na, mb.shape[1]), bool), mb])
    if ma.shape[1] != mb.shape[1]:
        return None, None
    if a["names"] is not None and b["names"] is not None:
        if sorted(a["names"]) != sorted(b["names"]):
            return None, None
        mb = mb[:, [b["names"].index(x) for x in a["names"]]]
        names = a["names"]
    else:
        names = a["names"] if a["names"] is not None else b["names"]
    return names, np.concatenate([ma, mb])


def concat(parts, bulk):
    v = {f: np.concatenate([p["v"][f] for p in parts]) for f in gen.F}
    if bulk:
        return like(parts[0], v, None, None)
    acc = parts[0]
    for p in parts[1:]:
        nm, m = join_masks(acc, p)
        acc = like(acc, {f: np.concatenate([acc["v"][f], p["v"][f]]) for f in gen.F}, nm, m)
    return acc


def mergeable(a, b):
    return a["fmt"] == b["fmt"] and a["v"]["shN"].shape[1] == b["v"]["shN"].shape[1]


# conversions: returns (snapshot with float64 fields where converted, {field: tolerance})

def _D():
    from gsply.gsdata import DataFormat
    return DataFormat


def lin_s(s):
    return s["fmt"]["scales"] == _D().SCALES_LINEAR


def lin_o(s):
    return s["fmt"]["opacities"] == _D().OPACITIES_LINEAR


def rgb(s):
    return s["fmt"]["sh0"] == _D().SH0_RGB


def to_linear(s, tensor, force=False):
    D = _D()
    v, tol = dict(s["v"]), {}
    ls, lo = lin_s(s) and not force, lin_o(s) and not force
    fmt = dict(s["fmt"], scales=D.SCALES_LINEAR, opacities=D.OPACITIES_LINEAR)
    if ls and lo:
        return like(s, v, fmt=fmt), tol
    with np.errstate(over="ignore"):
        if not ls:
            e = np.exp(v["scales"].astype(np.float64))
            v["scales"] = e if tensor else np.clip(e, 1e-4, 100)
            tol["scales"] = 2e-6 * v["scales"] + 1e-38
        if not lo:
            v["opacities"] = ref.sigmoid(v["opacities"])
            tol["opacities"] = 2e-6 * v["opacities"] + 1e-38
    if not tensor:
        q = v["quats"].astype(np.float64)
        nn = np.linalg.norm(q, axis=1, keepdims=True)
        v["quats"] = np.where(nn < 1e-8, np.array([0, 0, 0, 1.0]), q / np.where(nn > 0, nn, 1))
        tol["quats"] = np.full(q.shape, 1.5e-6)
    return like(s, v, fmt=fmt), tol


def to_log(s, force=False):
    D = _D()
    v, tol = dict(s["v"]), {}
    if lin_s(s) or force:
        x = np.log(np.maximum(v["scales"].astype(np.float64), 1e-9))
        v["scales"], tol["scales"] = x, 1e-6 * (1 + np.abs(x))
    if lin_o(s) or force:
        o = np.clip(v["opacities"].astype(np.float64), 1e-4, 1 - 1e-4)
        x = np.log(o / (1 - o))
        v["opacities"], tol["opacities"] = x, 2e-6 * (1 + np.abs(x)) + 6 * EPS / (o * (1 - o))
    return like(s, v, fmt=dict(s["fmt"], scales=D.SCALES_PLY, opacities=D.OPACITIES_PLY)), tol


def to_rgb(s):
    v = dict(s["v"])
    x = v["sh0"].astype(np.float64) * ref.C0 + .5
    v["sh0"] = x
    return like(s, v, fmt=dict(s["fmt"], sh0=_D().SH0_RGB)), {"sh0": 6 * EPS * (np.abs(x) + .5)}


def to_sh(s):
    v = dict(s["v"])
    x = (v["sh0"].astype(np.float64) - .5) / ref.C0
    v["sh0"] = x
    return like(s, v, fmt=dict(s["fmt"], sh0=_D().SH0_SH)), {"sh0": 6 * EPS * (np.abs(x) + .5 / ref.C0)}


def to_ply(s):
    """What a file must hold: (float64 scene, tolerances)."""
    a, t1 = to_log(s)
    t2 = {}
    if rgb(s):
        a, t2 = to_sh(a)
    tol = {f: np.zeros(s["v"][f].shape) for f in gen.F}
    tol.update(t1)
    tol.update(t2)
    return {f: x.astype(np.float64) for f, x in a["v"].items()}, tol


def diff(got, exp, tol=None, masks=True, fmt=True):
    """'' when the snapshot is what the model says."""
    tol = tol or {}
    n = len(exp["v"]["means"])
    for f in gen.F:
        g, w = got["v"][f], exp["v"][f]
        if g.shape != w.shape:
            return f"{f} has shape {g.shape}, expected {w.shape}"
        if g.dtype != np.float32:
            return f"{f} is {g.dtype}"
        if f in tol:
            with np.errstate(invalid="ignore"):
                bad = ~((np.abs(g.astype(np.float64) - w) <= tol[f]) | (g == w))
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                return f"{f}{list(i)} = {g[i]!r}, expected {w[i]!r} +- {np.broadcast_to(tol[f], w.shape)[i]:.2g}; {int(bad.sum())} of {g.size} differ"
    m = ref.diff_scene({f: got["v"][f] for f in gen.F}, {f: (exp["v"][f] if f not in tol else got["v"][f]) for f in gen.F})
    if m:
        return m
    if masks:
        gm, wm = canon(got["masks"]), canon(exp["masks"])
        if got["names"] != exp["names"]:
            return f"mask names {got['names']}, expected {exp['names']}"
        if (gm is None) != (wm is None):
            return f"masks {'missing' if gm is None else 'present'}, expected {'none' if wm is None else wm.shape}"
        if gm is not None and (gm.shape != wm.shape or gm.dtype != bool or not (gm == wm).all()):
            return f"mask values {gm.shape} {gm.dtype} differ from {wm.shape}"
    if fmt and got["fmt"] != exp["fmt"]:
        return f"declared format {got['fmt']}, expected {exp['fmt']}"
    return ""
