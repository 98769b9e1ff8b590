"""Ways of holding one scene: container kind, declared formats, layout, backing buffer."""
import numpy as np
from vf import gen, ref

EPS = ref.EPS


def moderate(rng, n, k, flavour=None):
    """PLY-form scene well inside every clamp of the linear form."""
    if flavour == "wild":
        return wild(rng, n, k)
    fl = flavour or str(rng.choice(["normal", "const", "ids"]))
    s = gen.scene(rng, n, k, "normal" if fl == "ids" else fl)
    if fl == "ids":
        t = gen.scene(rng, n, k, "ids")
        for f in ("means", "sh0", "shN"):
            s[f] = (t[f] / 1024).astype(np.float32)
    s["scales"] = np.clip(s["scales"], -9, 4.5)
    s["opacities"] = np.clip(s["opacities"], -8, 8)
    return s


def wild(rng, n, k):
    """Any bit pattern but NaN: for operations that only move values."""
    s = gen.scene(rng, n, k, "bits")
    for a in s.values():
        a[np.isnan(a)] = -0.0
    return s


class Held:
    """obj + truth (float64 PLY form) + tol per field of what a correct file must contain."""

    def __init__(self, raw, lin_s, lin_o, rgb):
        self.raw, self.lin_s, self.lin_o, self.rgb = raw, lin_s, lin_o, rgb
        t = {f: raw[f].astype(np.float64) for f in gen.F}
        tol = {f: np.zeros(raw[f].shape) for f in gen.F}
        if lin_s:
            t["scales"] = np.log(np.maximum(t["scales"], 1e-9))
            tol["scales"] = 4 * EPS * (np.abs(t["scales"]) + 1)
        if lin_o:
            o = np.clip(t["opacities"], 1e-4, 1 - 1e-4)
            t["opacities"] = np.log(o / (1 - o))
            tol["opacities"] = 4 * EPS * (np.abs(t["opacities"]) + 1 / (o * (1 - o)))
        if rgb:
            t["sh0"] = (t["sh0"] - .5) / ref.C0
            tol["sh0"] = 6 * EPS * (np.abs(t["sh0"]) + .5 / ref.C0)
        self.truth, self.tol = t, tol


def raw_of(s, lin_s, lin_o, rgb):
    r = gen.copy(s)
    if lin_s:
        r["scales"] = np.exp(s["scales"].astype(np.float64)).astype(np.float32)
    if lin_o:
        r["opacities"] = ref.sigmoid(s["opacities"]).astype(np.float32)
    if rgb:
        r["sh0"] = (s["sh0"].astype(np.float64) * ref.C0 + .5).astype(np.float32)
    return r


def formats(lin_s, lin_o, rgb, k):
    from gsply.gsdata import DataFormat as D
    import gsply
    f = gsply.create_ply_format(gen.DEG_OF_K[k])
    f["scales"] = D.SCALES_LINEAR if lin_s else D.SCALES_PLY
    f["opacities"] = D.OPACITIES_LINEAR if lin_o else D.OPACITIES_PLY
    f["sh0"] = D.SH0_RGB if rgb else D.SH0_SH
    return f


def gsdata(raw, fmt, layout=None, rng=None, none_ok=True):
    """GSData holding the raw arrays (copied) under the declared format."""
    from gsply import GSData
    src = gen.copy(raw)
    if layout:
        src, _ = gen.relayout_scene(rng, src, None if layout == "mixed" else layout, allow_ro=False)
    k = raw["shN"].shape[1]
    shn = src["shN"] if k or not none_ok or (rng is not None and rng.random() < .5) else None
    d = GSData.from_arrays(*[src[f] for f in gen.F[:5]], shn, format="ply")
    return d.with_format(**fmt)


def tensor(raw, fmt, grad=False):
    import torch
    from gsply import GSTensor
    t = {f: torch.from_numpy(np.ascontiguousarray(raw[f]).copy()) for f in gen.F}
    if grad:
        for v in t.values():
            v.requires_grad_(True)
    return GSTensor(**t, _format=dict(fmt))


def values(d):
    """float32 numpy copies of every field (shN None -> (n,0,3))."""
    out = {}
    n = d.means.shape[0]
    for f in gen.F:
        v = getattr(d, f)
        if hasattr(v, "detach"):
            v = v.detach().cpu().numpy()
        out[f] = np.array(ref.norm_shn(v, n)) if f == "shN" else np.array(v)
    return out


def masks(d):
    """(names or None, array or None); a single unnamed all-true array counts as none."""
    m = d.masks
    if m is not None and hasattr(m, "detach"):
        m = m.detach().cpu().numpy()
    nm = d.mask_names
    return (None if nm is None else list(nm)), (None if m is None else np.array(m))


def snapshot(d):
    v = values(d)
    nm, m = masks(d)
    return {"v": v, "names": nm, "masks": m, "fmt": dict(d.format_state)}


def same_snapshot(a, b):
    """'' when bit-identical."""
    m = ref.diff_scene(a["v"], b["v"])
    if m:
        return m
    if a["names"] != b["names"]:
        return f"mask names {a['names']} instead of {b['names']}"
    if (a["masks"] is None) != (b["masks"] is None) or (a["masks"] is not None and not ref.bits_equal(a["masks"], b["masks"])):
        return "mask values differ"
    if a["fmt"] != b["fmt"]:
        return f"declared format {a['fmt']} instead of {b['fmt']}"
    return ""


def declared_ply(d, k):
    """'' if d declares what every PLY file holds: log scales, logit opacities, SH colour, the degree of its k coefficients."""
    import gsply
    want = gsply.create_ply_format(gen.DEG_OF_K[k])
    have = dict(d.format_state)
    flags = (d.is_scales_ply, d.is_opacities_ply, d.is_sh0_sh, getattr(d, f"is_sh_order_{gen.DEG_OF_K[k]}"), d.is_scales_linear, d.is_opacities_linear, d.is_sh0_rgb)
    if have != want or flags != (True,) * 4 + (False,) * 3:
        return f"declares {have}, flags {flags}; expected {want}"
    return unmasked(d)


def unmasked(d):
    """'' if nothing is masked out of a scene just read."""
    nm, m = masks(d)
    if nm is not None or m is not None and (m.shape[:1] != (len(d),) or m.dtype != bool or not m.all()):
        return f"masks {None if m is None else (m.shape, m.dtype, int(m.sum()))} named {nm} on a scene of {len(d)} just read"
    return ""
