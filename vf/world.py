"""A scene in every form an operation may start from, the public operations on it, and digests of their results."""
import hashlib, os, threading
import numpy as np
from vf import gen, hold, ref, sog


def _g():
    import gsply
    return gsply


def dig(h, x):
    if x is None or isinstance(x, (bool, int, float, str)):
        h.update(repr(x).encode())
    elif isinstance(x, bytes):
        h.update(x)
    elif isinstance(x, np.ndarray):
        h.update(f"{x.dtype}{x.shape}".encode() + np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.generic):
        dig(h, np.asarray(x))
    elif isinstance(x, (tuple, list)):
        for y in x:
            dig(h, y)
        h.update(b"]")
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            dig(h, x[k])
    elif hasattr(x, "detach"):
        dig(h, x.detach().cpu().numpy())
    else:
        s = hold.snapshot(x)
        dig(h, s["v"]), dig(h, s["names"]), dig(h, s["masks"])
        h.update(repr(sorted((str(a), str(b)) for a, b in s["fmt"].items())).encode())
    return h


def digest(x):
    return dig(hashlib.sha1(), x).hexdigest()


def put(path, b):
    with open(path, "wb") as f:
        f.write(b)


class World:
    """One scene in every form an operation may start from (without the tensor form where torch is absent)."""

    def __init__(self, rng, n, k, d, flavour="normal", tensors=True):
        self.dir, self.n, self.k = d, n, k
        s = self.s = hold.moderate(rng, n, k, flavour)
        f = hold.formats(0, 0, 0, k)
        self.a = hold.gsdata(s, f)
        if n:
            self.a.add_mask_layer("m", s["means"][:, 0] > 0)
            self.a.add_mask_layer("w", s["means"][:, 1] > 0)
        self.lin = self.a.denormalize(inplace=False)
        self.t = hold.tensor(s, f) if tensors else None
        self.std, self.pk = ref.build_std(s), _g().compress_to_bytes(self.a)
        self.pstd, self.ppk = os.path.join(d, "in.ply"), os.path.join(d, "in.compressed.ply")
        put(self.pstd, self.std), put(self.ppk, self.pk)
        # packed content no encoder here writes: any word, rotations without a real largest component, reversed ranges
        ch = (n + 255) // 256
        bnd = (rng.standard_normal((ch, 18)) * 3).astype(np.float32)
        w = rng.integers(0, 2**32, (n, 4), dtype=np.uint64).astype(np.uint32)
        ext = rng.random((n, 4)) < .3
        w[ext] = rng.choice(np.array([0, 0xFFFFFFFF, 0x3FFFFFFF, 0x80000000, 0xC0000000, 0xFF], np.uint32), int(ext.sum()))
        self.fpk = ref.build_packed(bnd, w, rng.integers(0, 256, (n, 3 * k)).astype(np.uint8) if k else None)
        self.pfpk = os.path.join(d, "foreign.compressed.ply")
        put(self.pfpk, self.fpk)
        m, T = sog.scene(rng, n, {0: 0, 3: 1, 8: 2, 15: 3}[k], int(rng.choice([2, 3])))
        e = sog.files(m, T)
        self.sog = sog.bundle(e)
        self.psog = os.path.join(d, "in.sog")
        put(self.psog, self.sog)
        self.fsog = sog.folder(e, os.path.join(d, "sogdir"))
        self.idx = rng.integers(0, max(n, 1), 50)
        self.msk = rng.random(n) < .5
        self.b = self.a[::-1].copy()
        self.file = 0
        self.lock = threading.Lock()

    def out(self, suf):
        with self.lock:
            self.file += 1
            return os.path.join(self.dir, f"o{self.file}{suf}")


def saved(f):
    def g(w):
        p = w.out(f.suffix)
        q = f(w, p) or p
        with open(q, "rb") as fh:
            b = fh.read()
        os.remove(q)
        return b
    return g


def S(suffix, fn):
    def f(w, p):
        fn(w, p)
    f.suffix = suffix
    return saved(f)


# operations that need torch
TENSOR_OPS = {"tload", "tload_std", "plyread_gpu", "read_compressed_gpu", "tforeign_packed", "tsave", "tsave_plain", "plywrite_gpu", "from_gsdata", "to_gsdata", "t_denorm", "t_index", "t_add", "t_rgb",
              "t_cons", "t_clone", "t_half", "gpu_codec", "repr", "layers_to_tensor", "tlayers_add", "tlayers_to", "empty_grad", "bad_tmask", "bad_tmix"}
# operations that need the WebP decoder
SOG_OPS = {"sog_bytes", "sog_file", "sog_folder", "sog_unicode", "bad_sog"}


def ops(tensors=True):
    from gsply import GSData
    from gsply.writer import write_uncompressed, write_compressed
    from gsply.reader import read_uncompressed, read_compressed
    if tensors:
        from gsply import GSTensor
        from gsply.torch import plyread_gpu, plywrite_gpu
        from gsply.torch.compression import compress_gpu, decompress_gpu, read_compressed_gpu, write_compressed_gpu
        import torch
    g = _g()
    o = {
        "plyread": lambda w: g.plyread(w.pstd), "plyread_packed": lambda w: g.plyread(w.ppk), "load": lambda w: GSData.load(w.ppk), "detect": lambda w: [g.detect_format(w.pstd), g.detect_format(w.ppk)],
        "read_uncompressed": lambda w: read_uncompressed(w.pstd), "read_compressed": lambda w: read_compressed(w.ppk),
        "from_bytes": lambda w: g.decompress_from_bytes(w.pk), "tload": lambda w: GSTensor.load(w.ppk, device="cpu"), "tload_std": lambda w: GSTensor.load(w.pstd, device="cpu"),
        "plyread_gpu": lambda w: plyread_gpu(w.ppk, device="cpu"), "read_compressed_gpu": lambda w: read_compressed_gpu(w.ppk, device="cpu"),
        "foreign_packed": lambda w: [g.plyread(w.pfpk), g.decompress_from_bytes(w.fpk)], "tforeign_packed": lambda w: read_compressed_gpu(w.pfpk, device="cpu"),
        "sog_bytes": lambda w: g.sogread(w.sog), "sog_file": lambda w: g.sogread(w.psog), "sog_folder": lambda w: g.sogread(w.fsog),
        "write": S(".ply", lambda w, p: g.plywrite(p, w.a)), "write_packed": S(".compressed.ply", lambda w, p: g.plywrite(p, w.a)), "write_linear": S(".ply", lambda w, p: w.lin.save(p)),
        "write_linear_packed": S(".compressed.ply", lambda w, p: w.lin.save(p)), "write_uncompressed": S(".ply", lambda w, p: write_uncompressed(p, w.a)),
        "write_arrays": S(".ply", lambda w, p: g.plywrite(p, *w.a.unpack())), "write_compressed": S(".compressed.ply", lambda w, p: write_compressed(p, *w.a.unpack())),
        "to_bytes": lambda w: g.compress_to_bytes(w.a), "to_arrays": lambda w: g.compress_to_arrays(w.a), "to_bytes_lin": lambda w: g.compress_to_bytes(w.lin),
        "tsave": S(".compressed.ply", lambda w, p: w.t.save(p)), "tsave_plain": S(".ply", lambda w, p: w.t.save(p, compressed=False)), "plywrite_gpu": S(".compressed.ply", lambda w, p: plywrite_gpu(p, w.t)),
        "denormalize": lambda w: w.a.denormalize(inplace=False), "normalize": lambda w: w.lin.normalize(inplace=False), "to_rgb": lambda w: w.a.to_rgb(inplace=False),
        "to_rgb_sh": lambda w: w.a.to_rgb(inplace=False).to_sh(), "copy": lambda w: w.a.copy(), "consolidate": lambda w: w.a.consolidate(), "contiguous": lambda w: w.a.make_contiguous(inplace=False),
        "preact": lambda w: g.apply_pre_activations(w.a.copy()), "predeact": lambda w: g.apply_pre_deactivations(w.lin.copy()),
        "sigmoid": lambda w: [g.sigmoid(w.s["opacities"]), g.logit(ref.sigmoid(w.s["opacities"]).astype(np.float32)), g.sh2rgb(w.s["sh0"]), g.rgb2sh(w.s["sh0"])],
        "index": lambda w: w.a[w.idx] if w.n else None, "mask": lambda w: w.a[w.msk], "slice": lambda w: w.a[1::3].copy(), "copy_slice": lambda w: w.a.copy_slice(slice(0, None, 2)),
        "apply_masks": lambda w: w.a.apply_masks("or", inplace=False) if w.n else None, "combine_masks": lambda w: w.a.combine_masks("and") if w.n else None,
        "add": lambda w: w.a + w.b, "concatenate": lambda w: GSData.concatenate([w.a, w.b, w.a]), "unpack": lambda w: w.a.unpack(), "to_dict": lambda w: w.a.to_dict(),
        "from_gsdata": lambda w: GSTensor.from_gsdata(w.a, device="cpu"), "to_gsdata": lambda w: w.t.to_gsdata(), "t_denorm": lambda w: w.t.denormalize(inplace=False), "t_index": lambda w: w.t[torch.from_numpy(w.msk)],
        "t_add": lambda w: w.t + w.t, "t_rgb": lambda w: w.t.to_rgb(inplace=False), "t_cons": lambda w: w.t.consolidate(), "t_clone": lambda w: w.t.clone(), "t_half": lambda w: w.t.half().float(),
    }
    def gpu_codec(w):
        b, p, h = compress_gpu(w.t.means, w.t.scales, w.t.quats, w.t.opacities, w.t.sh0, w.t.shN if w.k else None)
        return [b, p, h, decompress_gpu(b, p, h, "cpu")]
    o["gpu_codec"] = gpu_codec
    return {x: f for x, f in o.items() if tensors or x not in TENSOR_OPS}
