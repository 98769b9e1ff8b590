"""Operations on array and tensor scenes, drawn at random, each with its numpy meaning (vf/model.py)."""
import copy as _copy, os, pickle
import numpy as np
from vf import gen, hold, model, ref

NAMES = ["a", "b", "fg", "layer_1", "layer_0", "", "opacity", "ü", "x y", "c", "d"]


class Step:
    """One operation with all its parameters.

    run(d, *others) -> result; model(s, *others) -> (snapshot, tol); alias: relation of the result to its source:
    copy, view, self (same object), any (not specified); raises: error types the operation must end with.
    """

    def __init__(self, label, run, model, alias="copy", kinds="AT", others=(), raises=None, group="", exact_masks=False, reads=None):
        self.label, self.run, self.model, self.alias, self.kinds = label, run, model, alias, kinds
        self.others, self.raises, self.group, self.reads = others, raises, group, reads


def is_t(d):
    return hasattr(d, "to_gsdata")


def kind(d):
    return "T" if is_t(d) else "A"


def tmask(d, m):
    if not is_t(d):
        return np.array(m)
    import torch
    return torch.from_numpy(np.ascontiguousarray(m))


def n_of(s):
    return len(s["v"]["means"])


# ------------------------------------------------------------------ keys

def draw_key(rng, n, style=None):
    """(label, key as numpy/list/slice, negative step?)"""
    style = style or str(rng.choice(["slice", "slice", "mask", "ints", "list", "masklist", "empty", "negstep", "npints32"]))
    if style == "slice":
        def e():
            return None if rng.random() < .3 else int(rng.integers(-n - 3, n + 4))
        st = None if rng.random() < .5 else int(rng.integers(1, max(2, min(n, 9)) + 1))
        return style, slice(e(), e(), st)
    if style == "negstep":
        def e():
            return None if rng.random() < .4 else int(rng.integers(-n - 2, n + 3))
        return style, slice(e(), e(), -int(rng.integers(1, 5)))
    if style in ("mask", "masklist"):
        m = rng.random(n) < rng.choice([0, .1, .5, .9, 1])
        return style, (m if style == "mask" else m.tolist())
    if n == 0 or style == "empty":
        return "empty", (np.zeros(0, np.int64) if rng.random() < .5 else [])
    c = int(rng.choice([1, 2, n, 2 * n + 1, 7]))
    ix = rng.integers(-n, n, c)
    if style == "ints":
        if rng.random() < .3:
            ix = rng.permutation(n)
        return style, ix.astype(np.int64)
    if style == "npints32":
        return style, (ix % n).astype(rng.choice([np.int32, np.uint32, np.int16 if n < 30000 else np.int32]))
    return style, ix.tolist()


def key_for(d, key, rng_bit):
    """Sometimes hand a tensor scene a torch key."""
    if is_t(d) and isinstance(key, np.ndarray) and rng_bit and key.dtype in (np.dtype(bool), np.dtype(np.int64)):
        import torch
        return torch.from_numpy(key.copy())
    return key


# ------------------------------------------------------------------ values that fit the declared format

def values_for(rng, s, f, shape):
    if f == "means":
        return rng.uniform(-40, 40, shape).astype(np.float32)
    if f == "scales":
        x = rng.uniform(-8.5, 4, shape)
        return np.exp(x).astype(np.float32) if model.lin_s(s) else x.astype(np.float32)
    if f == "opacities":
        x = rng.uniform(-7, 7, shape)
        return ref.sigmoid(x).astype(np.float32) if model.lin_o(s) else x.astype(np.float32)
    if f == "quats":
        q = rng.standard_normal(shape) + 1e-3
        q = q / np.linalg.norm(q, axis=-1, keepdims=True)
        return q.astype(np.float32)
    if f == "sh0":
        x = rng.uniform(-1.7, 1.7, shape)
        return (x * ref.C0 + .5).astype(np.float32) if model.rgb(s) else x.astype(np.float32)
    return rng.uniform(-1, 1, shape).astype(np.float32)


def _t(a):
    import torch
    return torch.from_numpy(np.ascontiguousarray(a).copy())


# ------------------------------------------------------------------ edits (in place on the given object)

def edit(rng, s):
    """Change values through the visible fields."""
    n, k = n_of(s), s["v"]["shN"].shape[1]
    f = str(rng.choice([x for x in gen.F if x != "shN" or k]))
    a = s["v"][f]
    how = str(rng.choice(["elem", "rows", "mask", "all", "iadd", "replace", "replace", "replace_layout", "col"]))
    if n == 0:
        how = "replace"
    if how == "elem":
        ix = tuple(int(rng.integers(m)) for m in a.shape)
        if f == "quats":
            ix = ix[:1]
        val = values_for(rng, s, f, a[ix].shape)
    elif how == "rows":
        i = int(rng.integers(n))
        ix = slice(i, i + int(rng.integers(1, 5)))
        val = values_for(rng, s, f, a[ix].shape)
    elif how == "col":
        ix = (slice(None), int(rng.integers(a.shape[1]))) if a.ndim > 1 and f != "quats" else slice(None)
        val = values_for(rng, s, f, a[ix].shape)
    elif how == "mask":
        ix = rng.random(n) < .4
        val = values_for(rng, s, f, a[ix].shape)
    elif how == "all":
        ix, val = Ellipsis, values_for(rng, s, f, a.shape)
    elif how == "iadd":
        ix, val = None, np.float32(1.0 if f == "means" else 1.0)
        if f == "means":
            val = np.float32(rng.choice([1.5, -2.25]))
    else:
        ix, val = None, values_for(rng, s, f, a.shape)
    lay = str(rng.choice(["F", "perm", "cols", "rows", "rev", "slab"])) if how == "replace_layout" else "C"

    def run(d):
        if how == "iadd":
            if is_t(d):
                if rng_bit:
                    getattr(d, f).add_(float(val))
                else:
                    x = getattr(d, f)
                    x += float(val)
                    setattr(d, f, x)
            else:
                x = getattr(d, f)
                x += val
                if rng_bit:
                    setattr(d, f, x)
        elif how == "replace":
            setattr(d, f, _t(val) if is_t(d) else val.copy())
        elif how == "replace_layout":
            if is_t(d):
                t = _t(np.ascontiguousarray(val.T)).T if val.ndim == 2 else _t(val)
                setattr(d, f, t)
            else:
                setattr(d, f, gen.relayout(np.random.default_rng(1), val.copy(), lay)[0])
        else:
            getattr(d, f)[tmask(d, ix) if how == "mask" else ix] = _t(val) if is_t(d) and np.ndim(val) else (float(val) if is_t(d) else val)
        return d

    def mod(s):
        v = {x: np.array(y) for x, y in s["v"].items()}
        if how == "iadd":
            v[f] = v[f] + val if f in ("means",) else v[f] + val
        elif how.startswith("replace"):
            v[f] = val.copy()
        else:
            v[f][ix] = val
        return model.like(s, v), {}
    rng_bit = bool(rng.random() < .5)
    if how == "iadd" and f != "means":      # keep the values inside what the format allows
        return edit(rng, s)
    return Step(f"edit {how} {f}", run, mod, "self", group="edit")


def resize(rng, s):
    """Replace every field by data of another length."""
    n, k = int(rng.choice([0, 1, 3, 40, 257])), s["v"]["shN"].shape[1]
    new = {f: values_for(rng, s, f, shp) for f, shp in gen.shapes(n, k).items()}

    def run(d):
        d.masks = None
        d.mask_names = None
        for f in gen.F:
            if f == "shN" and k == 0:
                d.shN = None
            else:
                setattr(d, f, _t(new[f]) if is_t(d) else new[f].copy())
        return d
    return Step(f"replace all fields by {n} Gaussians", run, lambda s: (model.like(s, new, None, None), {}), "self", group="edit")


def edit_masks(rng, s):
    n = n_of(s)
    m = model.canon(s["masks"])
    how = str(rng.choice(["set1", "set2", "flip", "rename", "clear"]))
    if m is None and how in ("flip", "clear"):
        how = "set2"
    if s["names"] is None and how == "rename":
        how = "set1"
    if how == "flip" and n == 0:
        how = "set2"
    if how == "set1":
        new, nm = rng.random(n) < .5, [str(rng.choice(NAMES))]
    elif how == "set2":
        L = int(rng.integers(1, 5))
        new, nm = rng.random((n, L)) < .5, [str(x) for x in rng.permutation(NAMES)[:L]]
    elif how == "flip":
        i, j = int(rng.integers(n)), int(rng.integers(m.shape[1]))
    elif how == "rename":
        i = int(rng.integers(len(s["names"])))
        nn = f"r{int(rng.integers(1000))}"

    def run(d):
        if how in ("set1", "set2"):
            d.masks = _t(new) if is_t(d) else new.copy()
            d.mask_names = list(nm)
        elif how == "flip":
            if d.masks.ndim == 1:
                d.masks[i] = not bool(d.masks[i])
            else:
                d.masks[i, j] = not bool(d.masks[i, j])
        elif how == "rename":
            d.mask_names[i] = nn
        else:
            d.masks = None
            d.mask_names = None
        return d

    def mod(s):
        if how in ("set1", "set2"):
            return model.like(s, names=list(nm), masks=new), {}
        if how == "flip":
            x = model.canon(s["masks"]).copy()
            x[i, j] = not x[i, j]
            return model.like(s, masks=x), {}
        if how == "rename":
            x = list(s["names"])
            x[i] = nn
            return model.like(s, names=x), {}
        return model.like(s, names=None, masks=None), {}
    return Step(f"masks {how}", run, mod, "self", group="edit")


# ------------------------------------------------------------------ deriving operations

def getitem(rng, s, copy_slice=False):
    st, key = draw_key(rng, n_of(s))
    bit = bool(rng.random() < .5)
    sl = isinstance(key, slice)
    if copy_slice:
        return Step(f"copy_slice[{st}]", lambda d: d.copy_slice(key), lambda s: (model.index(s, key), {}), "copy", "A", group="index")
    return Step(f"[{st}]", lambda d: d[key_for(d, key, bit)], lambda s: (model.index(s, key), {}), "view" if sl else "copy", "A" if st == "negstep" else "AT", group="index")


def get_gaussian(rng, s):
    n = n_of(s)
    if n == 0:
        return None
    i = int(rng.integers(-n, n))
    j = i % n
    return Step("get_gaussian", lambda d: d.get_gaussian(i), lambda s: (model.index(s, slice(j, j + 1)), {}), "view", group="index")


def bad_index(rng, s):
    n = n_of(s)
    i = n + int(rng.integers(0, 3)) if rng.random() < .5 else -n - 1 - int(rng.integers(0, 3))
    how = str(rng.choice(["int", "npint", "list", "array", "get_gaussian", "shortmask", "longmask", "masklist"]))
    mask = np.ones(n + (1 if how == "longmask" or n == 0 else -1), bool)
    keys = {"int": i, "npint": np.int64(i), "list": [0, i] if n else [i], "array": np.array([i, 0] if n else [i]), "shortmask": mask, "longmask": mask, "masklist": mask.tolist()}
    if how == "masklist" and not mask.size:
        return None

    def run(d):
        return d.get_gaussian(i) if how == "get_gaussian" else d[keys[how]]
    return Step(f"bad index {how}", run, None, raises=(IndexError, ValueError) if "mask" in how else (IndexError,), group="bad")


def copy(rng, s):
    how = str(rng.choice(["copy", "deepcopy", "pickle"], p=[.6, .2, .2]))

    def run(d):
        if how == "deepcopy":
            return _copy.deepcopy(d)
        if how == "pickle":
            return pickle.loads(pickle.dumps(d))
        return d.clone() if is_t(d) else d.copy()
    return Step(how, run, lambda s: (model.like(s), {}), "copy", group="copy")


def add(rng, s, others):
    """others: snapshots of the further parts."""
    how = str(rng.choice(["+", "add", "sum"]))
    run = {"+": lambda d, o: d + o, "add": lambda d, o: d.add(o), "sum": lambda d, o: sum([d, o])}[how]
    if not model.mergeable(s, others[0]):
        return Step(f"{how} of different forms", run, None, others=1, raises=(ValueError,), group="concat")
    return Step(how, run, lambda s, o: (model.concat([s, o], False), {}), "copy", others=1, group="concat")


def bulk(rng, s, others):
    def run(d, *o):
        return type(d).concatenate([d, *o])
    if not all(model.mergeable(s, o) for o in others):
        return Step("concatenate different forms", run, None, others=len(others), raises=(ValueError,), kinds="A", group="concat")
    return Step(f"concatenate {len(others) + 1}", run, lambda *p: (model.concat(list(p), True), {}), "copy", "A", others=len(others), group="concat")


def consolidate(rng, s):
    return Step("consolidate", lambda d: d.consolidate(), lambda s: (model.like(s), {}), "any", group="layout")


def contiguous(rng, s):
    ip = bool(rng.random() < .5)
    return Step(f"make_contiguous(inplace={ip})", lambda d: d.make_contiguous(inplace=ip), lambda s: (model.like(s), {}), "self" if ip else "any", "A", group="layout")


def convert(rng, s, ip=None):
    what = str(rng.choice(["normalize", "denormalize", "color"]))
    ip = bool(rng.random() < .5) if ip is None else ip
    if what == "color":
        what = "to_sh" if model.rgb(s) else "to_rgb"

    def mod(s, tensor=False):
        return {"normalize": lambda: model.to_log(s), "denormalize": lambda: model.to_linear(s, tensor), "to_rgb": lambda: model.to_rgb(s), "to_sh": lambda: model.to_sh(s)}[what]()
    st = Step(f"{what}(inplace={ip})", lambda d: getattr(d, what)(inplace=ip), mod, "self" if ip else "copy", group="convert")
    st.kind_model = True
    return st


def with_format(rng, s):
    return Step("with_format()", lambda d: d.with_format(), lambda s: (model.like(s), {}), "view", group="copy")


def add_layer(rng, s):
    n = n_of(s)
    name = str(rng.choice(NAMES))
    u = rng.random()
    col = rng.random(n) < .5
    if name in model.layer_names(s):
        return Step("add_mask_layer duplicate", lambda d: d.add_mask_layer(name, tmask(d, col)), None, raises=(ValueError,), group="masks")
    if u < .12:
        bad = np.ones(n + int(rng.integers(1, 3)), bool) if n == 0 or u < .06 else np.ones(n - 1, bool)
        return Step("add_mask_layer wrong length", lambda d: d.add_mask_layer(name, tmask(d, bad)), None, raises=(ValueError,), group="masks")
    if u < .18:
        bad = np.ones((n, 1), bool) if n != 1 else np.ones((2, 1), bool)
        return Step("add_mask_layer wrong shape", lambda d: d.add_mask_layer(name, tmask(d, bad)), None, raises=(ValueError,), group="masks")
    how = str(rng.choice(["array", "list", "int"]))

    def run(d):
        m = tmask(d, col) if how == "array" else (col.tolist() if how == "list" else (_t(col.astype(np.int64)) if is_t(d) else col.astype(np.uint8)))
        d.add_mask_layer(name, m)
        return d
    return Step(f"add_mask_layer({how})", run, lambda s: (model.add_layer(s, name, col), {}), "self", group="masks")


def remove_layer(rng, s):
    if s["names"] and rng.random() < .85:
        name = str(rng.choice(s["names"]))

        def run(d):
            d.remove_mask_layer(name)
            return d
        return Step("remove_mask_layer", run, lambda s: (model.remove_layer(s, name), {}), "self", group="masks")
    return Step("remove unknown layer", lambda d: d.remove_mask_layer("nope"), None, raises=(ValueError,), group="masks")


def draw_layers(rng, s):
    """None (all) or a non-empty list of distinct known names."""
    if not s["names"] or rng.random() < .45:
        return None
    c = int(rng.integers(1, len(s["names"]) + 1))
    return [str(x) for x in rng.permutation(s["names"])[:c]]


def apply_masks(rng, s):
    mode = str(rng.choice(["and", "or"]))
    if s["masks"] is None:
        return Step("apply_masks without masks", lambda d: d.apply_masks(mode), None, raises=(ValueError,), group="masks")
    ls, ip = draw_layers(rng, s), bool(rng.random() < .4)
    if rng.random() < .06:
        bad = str(rng.choice(["mode", "layer"]))
        return Step(f"apply_masks unknown {bad}", lambda d: d.apply_masks("xor" if bad == "mode" else mode, ["nope"] if bad == "layer" else ls, ip), None, raises=(ValueError,), group="masks")
    return Step(f"apply_masks({mode}, {'all' if ls is None else 'some'}, inplace={ip})", lambda d: d.apply_masks(mode, ls, inplace=ip),
                lambda s: (model.index(s, model.combine(s, mode, ls)), {}), "self" if ip else "copy", group="masks")


# ------------------------------------------------------------------ transfers and rebuilding

def to_other(rng, s):
    """Array scene to tensor scene or back; a result of the other kind."""
    n = n_of(s)
    m = (rng.random(n) < .6) if rng.random() < .3 else None
    wide = rng.random() < .3

    def run(d):
        if is_t(d):
            return d.to_gsdata()
        from gsply import GSTensor
        if wide:
            import torch
            return GSTensor.from_gsdata(d, device="cpu", mask=m, dtype=torch.float64).float()
        return GSTensor.from_gsdata(d, device="cpu", mask=m)

    def mod(s, tensor=False):
        return (model.index(s, m) if m is not None and not tensor else model.like(s)), {}
    st = Step("transfer" + (" masked" if m is not None else ""), run, mod, "any", group="transfer")
    st.kind_model = True
    return st


def dtype_trip(rng, s):
    return Step("double().float()", lambda d: d.double().float(), lambda s: (model.like(s), {}), "any", "T", group="transfer")


def rebuild(rng, s):
    how = str(rng.choice(["dict", "unpack"]))

    def run(d):
        fmt = d.format_state
        a = d.to_dict() if how == "dict" else dict(zip(gen.F, d.unpack()))
        kw = {"device": "cpu"} if is_t(d) else {}
        r = type(d).from_dict(a, format="ply", **kw) if how == "dict" else type(d).from_arrays(*[a[f] for f in gen.F], format="ply", **kw)
        r.copy_format_from(d)
        return r
    return Step(f"rebuild from {how}", run, lambda s: (model.like(s, names=None, masks=None), {}), "any", group="rebuild")


# ------------------------------------------------------------------ saving: the result is what the file holds

def saved(how, d, path):
    """Saves d; returns the stored scene (reference reader): ('raw', scene) or ('packed', (bounds, packed, sh))."""
    import gsply
    if how == "save":
        d.save(path, compressed=False)
    elif how == "plywrite":
        gsply.plywrite(path, d)
    elif how == "save_c":
        d.save(path, compressed=True)
        path = path if is_t(d) else path.replace(".ply", ".compressed.ply")
    elif how == "plywrite_c":
        gsply.plywrite(path, d, compressed=True)
        path = path.replace(".ply", ".compressed.ply")
    elif how == "bytes":
        return "packed", ref.read_packed(gsply.compress_to_bytes(d))
    elif how == "to_ply_data":
        x = d.to_ply_data()
        return "raw", {f: np.asarray(a) for f, a in hold.values(x).items()}
    with open(path, "rb") as f:
        b = f.read()
    return ("packed", ref.read_packed(b)) if how.endswith("_c") else ("raw", ref.read_std(b))


def check_saved(s, got):
    """'' when the stored scene is the scene of the snapshot."""
    from vf.checks.p06 import CHECK as P06
    truth, tol = model.to_ply(s)
    if got[0] == "raw":
        return ref.diff_close(got[1], truth, tol, "stored ")

    class H:
        pass
    h = H()
    h.truth, h.tol = truth, {f: np.asarray(t) if np.size(t) else np.zeros(1) for f, t in tol.items()}
    return P06.lossy(ref.decode(*got[1])[0], h, n_of(s), s["v"]["shN"].shape[1])


# ------------------------------------------------------------------ origins

def origin(rng, n, k, ctx, kinds="AT", masks=True, formats=True, flavour=None):
    """A scene built in some way; the object."""
    import gsply
    s = hold.moderate(rng, n, k, flavour)
    formats = formats and flavour != "wild"
    q = s["quats"].astype(np.float64)
    nn = np.linalg.norm(q, axis=1, keepdims=True)
    if flavour != "wild":
        s["quats"] = np.where(nn > 1e-3, q / np.where(nn > 0, nn, 1), [1, 0, 0, 0]).astype(np.float32).reshape(n, 4)
    r = (int(rng.integers(2)), int(rng.integers(2)), int(rng.integers(2))) if formats and rng.random() < .5 else (0, 0, 0)
    raw = hold.raw_of(s, *r)
    how = str(rng.choice(["arrays", "layout", "consolidated", "file", "packed", "slice_of_base", "bytes"]))
    want_t = "T" in kinds and ("A" not in kinds or rng.random() < .5)
    if how in ("file", "packed", "bytes", "slice_of_base") and r != (0, 0, 0):
        how = str(rng.choice(["arrays", "layout", "consolidated"]))
    fmt = hold.formats(*r, k)
    if how in ("file", "packed"):
        p = ctx.path("o.ply" if how == "file" else "o.compressed.ply")
        gsply.plywrite(p, hold.gsdata(raw, fmt))
        d = gsply.plyread(p)
    elif how == "bytes":
        d = gsply.decompress_from_bytes(gsply.compress_to_bytes(hold.gsdata(raw, fmt)))
    elif how == "slice_of_base":
        big = {f: np.concatenate([raw[f], raw[f][:n // 2]]) for f in gen.F}
        d = hold.gsdata(big, fmt, none_ok=False).consolidate()[n // 2:][:n] if n else hold.gsdata(raw, fmt)
    else:
        d = hold.gsdata(raw, fmt, "mixed" if how == "layout" else None, rng)
        if how == "consolidated" and n:
            d = d.consolidate()
    if want_t:
        from gsply import GSTensor
        if rng.random() < .5 and how in ("arrays", "layout"):
            d = hold.tensor(raw, fmt)
        else:
            d = GSTensor.from_gsdata(d, device="cpu")
        how = "t:" + how
    if masks:
        d.masks = None
        d.mask_names = None
        u = rng.random()
        if u < .6:
            L = int(rng.integers(1, 4))
            m = rng.random((len(d), L)) < .5
            if L == 1 and rng.random() < .5:
                m = m[:, 0]
            d.masks = _t(m) if is_t(d) else m
            if rng.random() < .8:
                d.mask_names = [str(x) for x in rng.permutation(NAMES)[:L]]
    return d, how
