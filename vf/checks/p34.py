"""P34: a load returns what the file holds now, as a self-contained scene that stays what it is; a save replaces the whole file."""
import os
import numpy as np
from vf import gen, hold, ref, sog
from vf.core import Check, require, rng_of, bucket

NAMES = ["a.ply", "b.compressed.ply", "c.ply", "d.ply_compressed"]
BANDS = {0: 0, 3: 1, 8: 2, 15: 3}


def readers(kind):
    import gsply
    from gsply import GSData, GSTensor
    from gsply.reader import read_uncompressed, read_compressed
    from gsply.torch import plyread_gpu
    from gsply.torch.compression import read_compressed_gpu

    def blob(p):
        with open(p, "rb") as f:
            return f.read()
    both = {"plyread": gsply.plyread, "load": GSData.load, "tload": lambda p: GSTensor.load(p, device="cpu")}
    if kind == "std":
        return dict(both, read_uncompressed=read_uncompressed)
    if kind == "packed":
        return dict(both, read_compressed=read_compressed, from_bytes=lambda p: gsply.decompress_from_bytes(blob(p)), plyread_gpu=lambda p: plyread_gpu(p, device="cpu"),
                    read_compressed_gpu=lambda p: read_compressed_gpu(p, device="cpu"))
    if kind == "sog":
        return {"sogread": gsply.sogread, "sogread_bytes": lambda p: gsply.sogread(blob(p))}
    return {"sogread_folder": gsply.sogread}


def savers():
    """name -> (kind, function(path, array scene))"""
    import gsply
    from gsply import GSTensor
    from gsply.writer import write_uncompressed, write_compressed
    from gsply.torch import plywrite_gpu

    def t(d):
        return d if isinstance(d, GSTensor) else GSTensor.from_gsdata(d, device="cpu")

    def a(d):
        return d.to_gsdata() if isinstance(d, GSTensor) else d
    return {"plywrite": ("std", lambda p, d: gsply.plywrite(p, a(d))), "save": ("std", lambda p, d: d.save(p) if not isinstance(d, GSTensor) else d.save(p, compressed=False)),
            "arrays": ("std", lambda p, d: gsply.plywrite(p, *a(d).unpack())), "write_uncompressed": ("std", lambda p, d: write_uncompressed(p, a(d))),
            "plywrite_packed": ("packed", lambda p, d: gsply.plywrite(p, a(d), compressed=True)), "save_packed": ("packed", lambda p, d: d.save(p)),
            "write_compressed": ("packed", lambda p, d: write_compressed(p, *a(d).unpack())), "tsave": ("packed", lambda p, d: t(d).save(p)), "plywrite_gpu": ("packed", lambda p, d: plywrite_gpu(p, t(d)))}


class CHECK(Check):
    rule = "random histories over a few paths (overwritten in place or replaced, with equal size and time stamp or not, shortened, removed, saved over by scenes loaded from them) with loads by every reader, edits of the results and detection; distinct by (last file event, reader or saver, kind, K)"
    required = {"loads": 2000, "held_compared": 15000, "swaps_same_stamp": 250, "self_saves": 400, "probes": 700, "detections": 250, "features": 250}
    n_quick, n_thorough = 300, 6000

    def setup(self, ctx, tier):
        global gsply
        import gsply
        self.R = {k: readers(k) for k in ("std", "packed", "sog", "folder")}
        self.S = savers()

    def directed(self, tier):
        for kind in ("std", "packed", "sog", "folder"):
            for rd in readers(kind):
                for how in ("inplace", "replace"):
                    for k in (0, 3, 15):
                        yield {"k": "swap", "kind": kind, "rd": rd, "how": how, "K": k}
        for sv, (kind, _) in savers().items():
            for rd in readers(kind):
                yield {"k": "self", "sv": sv, "rd": rd}

    # ---- files
    def content(self, rng, kind, n, k, values=None):
        """Bytes (or folder entries) and the reference scene of a new file."""
        s = values or hold.moderate(rng, n, k, "normal")
        if kind == "std":
            return ref.build_std(s), None
        if kind == "packed":
            w = rng.integers(0, 2**32, (n, 4), dtype=np.uint64).astype(np.uint32)
            b = np.sort(rng.standard_normal((2, (n + 255) // 256, 9)), axis=0)
            bounds = np.concatenate([b[0][:, :3], b[1][:, :3], b[0][:, 3:6], b[1][:, 3:6], b[0][:, 6:], b[1][:, 6:]], axis=1).astype(np.float32)
            return ref.build_packed(bounds, w, rng.integers(0, 256, (n, 3 * k)).astype("u1") if k else None), None
        m, T = sog.scene(rng, n, BANDS[k], 2)
        e = sog.files(m, T)
        return (sog.bundle(e) if kind == "sog" else e), sog.decode(m, T)

    def put(self, rng, st, p, kind, n, k, how, same_stamp):
        old = st.get(p)
        b, want = self.content(rng, kind, n, k)
        if kind == "folder":
            stamps = {x: os.stat(os.path.join(p, x)) for x in os.listdir(p)} if os.path.isdir(p) else {}
            sog.folder(b, p)
            for x, s in stamps.items():
                if same_stamp:
                    os.utime(os.path.join(p, x), ns=(s.st_atime_ns, s.st_mtime_ns))
        else:
            stamp = os.stat(p) if os.path.exists(p) else None
            if how == "inplace" or stamp is None:
                with open(p, "r+b" if stamp else "wb") as f:
                    f.truncate(len(b)) if rng.random() < .5 else None
                    f.write(b)
                    f.truncate()
            elif how == "rewrite":
                with open(p, "wb") as f:
                    f.write(b)
            else:
                with open(p + ".new", "wb") as f:
                    f.write(b)
                os.replace(p + ".new", p)
            if same_stamp and stamp:
                os.utime(p, ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
        st[p] = {"kind": kind, "n": n, "K": k, "want": want, "how": how, "same": bool(same_stamp and old)}

    def expected(self, p, e):
        if e["want"] is not None:
            return e["want"]
        with open(p, "rb") as f:
            b = f.read()
        if e["kind"] == "std":
            s = ref.read_std(b)
            return s, None
        return ref.decode(*ref.read_packed(b))

    # ---- monitors
    def load(self, rng, st, p, rd, held, ctx, last):
        e = st[p]
        d = self.R[e["kind"]][rd](p)
        what = f"{rd} of a {e['kind']} file ({e['n']} Gaussians, K={e['K']}) after [{last}]: "
        require(d is not None, what + "returned None")
        want, tol = self.expected(p, e)
        m = ref.diff_scene(d, want, what) if tol is None else ref.diff_close(d, want, tol, what)
        require(not m, m)
        m = hold.unmasked(d)
        require(not m, lambda: what + m)
        for f in gen.F:
            a = getattr(d, f)
            if a is not None and isinstance(a, np.ndarray):
                require(a.dtype == np.float32 and a.dtype.isnative, what + f"{f} has dtype {a.dtype}")
                require(a.flags.writeable, what + f"{f} is read-only")
        self.held_same(held, ctx, what)
        ctx.count("loads")
        ctx.feat(last.split(":")[0], rd, e["kind"], e["K"])
        h = [d, hold.snapshot(d), p]
        held.append(h)
        return h

    def held_same(self, held, ctx, what):
        for d, s, _ in held:
            m = hold.same_snapshot(hold.snapshot(d), s)
            require(not m, lambda: what + "an earlier result changed: " + m)
        ctx.count("held_compared", len(held))

    def probe(self, rng, h, held, ctx, what):
        """Writes into one field of a result: nothing else may change."""
        d = h[0]
        n = len(d)
        if not n:
            return
        f = str(rng.choice([f for f in gen.F if getattr(d, f) is not None and getattr(d, f).shape[-1] and (f != "shN" or getattr(d, f).shape[1])]))
        x = rng.standard_normal(tuple(getattr(d, f).shape)).astype(np.float32)
        if isinstance(getattr(d, f), np.ndarray):
            getattr(d, f)[...] = x
        else:
            import torch
            with torch.no_grad():
                getattr(d, f).copy_(torch.from_numpy(x))
        h[1]["v"][f] = x
        self.held_same(held, ctx, what + f"after writing into {f} of a result: ")
        ctx.count("probes")

    def save_over(self, rng, st, p, sv, h, held, ctx):
        if sv == "arrays" and len(h[0]) < 40:       # separate arrays: the form is detected from the values, ambiguous for a few
            sv = "plywrite"
        kind, f = self.S[sv]
        e0 = st.get(p)
        d = h[0]
        # keep the declared form of loaded files (log, logit, SH); what is stored must be what the fields show
        v = h[1]["v"]
        f(p, d)
        what = f"{sv} of a loaded scene over {'its own' if h[2] == p else 'another'} file: "
        with open(p, "rb") as fh:
            b = fh.read()
        k = v["shN"].shape[1]
        n = v["means"].shape[0]
        if kind == "std":
            try:
                m = ref.diff_scene(ref.read_std(b), v, what)
            except ref.BadPly as x:
                m = what + f"not a standard PLY: {x}"
        else:
            try:
                m = ref.check_encoding(v, *ref.read_packed(b), what)
            except ref.BadPly as x:
                m = what + f"not a compressed PLY: {x}"
        require(not m, m)
        st[p] = {"kind": kind, "n": n, "K": k, "want": None, "how": "saved", "same": False}
        self.held_same(held, ctx, what)
        ctx.count("self_saves")
        ctx.feat("save", sv, e0["kind"] if e0 else "", k)

    def detect(self, st, p, ctx, last):
        e = st[p]
        got = gsply.detect_format(p)
        want = (True, None) if e["kind"] == "packed" else (False, gen.DEG_OF_K[e["K"]]) if e["kind"] == "std" else None
        if want is not None:
            require(tuple(got)[0] == want[0] and (want[0] or got[1] == want[1]), lambda: f"detection of a {e['kind']} file with K={e['K']} after [{last}] gave {got}")
            ctx.count("detections")

    def run(self, c, ctx):
        rng = rng_of("P34", c)
        d = os.path.dirname(ctx.path())
        st, held = {}, []
        if c["k"] == "swap":
            p = os.path.join(d, "x.sogdir" if c["kind"] == "folder" else "x.sog" if c["kind"] == "sog" else "x.ply")
            n = int(rng.choice([1, 40, 257, 600]))
            for i in range(3):
                self.put(rng, st, p, c["kind"], n, c["K"], c["how"], True)
                if i:
                    ctx.count("swaps_same_stamp")
                h = self.load(rng, st, p, c["rd"], held, ctx, f"swap: {c['how']}")
                if c["kind"] in ("std", "packed"):
                    self.detect(st, p, ctx, "swap")
                self.probe(rng, h, held, ctx, "swap ")
                self.load(rng, st, p, c["rd"], held, ctx, "edit of an earlier result")
            n2 = max(1, n // 3)
            self.put(rng, st, p, c["kind"], n2, c["K"] if c["kind"] == "folder" else 3, c["how"], True)
            self.held_same(held, ctx, "after the file was shortened: ")
            self.load(rng, st, p, c["rd"], held, ctx, "shortened")
            if c["kind"] != "folder":
                os.remove(p)
                self.held_same(held, ctx, "after the file was removed: ")
            return
        if c["k"] == "self":
            kind = self.S[c["sv"]][0]
            p = os.path.join(d, "x.ply" if kind == "std" else "x.compressed.ply")
            for n, k in ((40, 3), (600, 15), (3, 0), (300, 8)):
                self.put(rng, st, p, kind, n, k, "rewrite", False)
                h = self.load(rng, st, p, c["rd"], held, ctx, "self")
                for _ in range(2):
                    self.probe(rng, h, held, ctx, "self ")
                    self.save_over(rng, st, p, c["sv"], h, held, ctx)
                    h = self.load(rng, st, p, c["rd"], held, ctx, "self-save")
            return
        paths = [os.path.join(d, x) for x in NAMES] + [os.path.join(d, "e.sog"), os.path.join(d, "f.sogdir")]
        last = "start"
        sizes = [int(x) for x in rng.choice([0, 1, 2, 40, 255, 256, 257, 300, 700, 1500], 2)]
        k = gen.pick_k(rng)
        for _ in range(int(rng.integers(8, 26))):
            r = rng.random()
            p = str(rng.choice(paths, p=[.3, .3, .12, .12, .1, .06]))
            if p not in st or r < .25:
                kind = "folder" if p.endswith("dir") else "sog" if p.endswith(".sog") else str(rng.choice(["std", "packed"]))
                same = p in st and rng.random() < .6 and st[p]["kind"] == kind
                n, kk = (st[p]["n"], st[p]["K"]) if same else (int(rng.choice(sizes)), k if rng.random() < .7 else gen.pick_k(rng))
                if kind in ("sog", "folder"):
                    n = min(max(n, 1), 60)
                how = str(rng.choice(["inplace", "rewrite", "replace"]))
                self.put(rng, st, p, kind, n, kk, how, same)
                last = f"{how}{'=' if same else ''}: {os.path.basename(p)}"
                ctx.count("swaps_same_stamp", same)
                self.held_same(held, ctx, f"after [{last}]: ")
            elif r < .65:
                rd = str(rng.choice(sorted(self.R[st[p]["kind"]])))
                self.load(rng, st, p, rd, held, ctx, last)
                last = f"load: {rd}"
            elif r < .75 and held:
                self.probe(rng, held[int(rng.integers(len(held)))], held, ctx, "")
                last = "edit"
            elif r < .88 and held:
                h = held[int(rng.integers(len(held)))]
                q = h[2] if rng.random() < .6 and not h[2].endswith(("sog", "dir")) else str(rng.choice(paths[:4]))
                kinds = ["std"] if q.endswith("/a.ply") or q.endswith("/c.ply") else ["packed"]
                sv = str(rng.choice([x for x in sorted(self.S) if self.S[x][0] in kinds]))
                if sv == "plywrite_packed" and not q.endswith("compressed.ply") and not q.endswith(".ply_compressed"):
                    continue
                self.save_over(rng, st, q, sv, h, held, ctx)
                last = f"save: {sv}"
            elif r < .94 and not p.endswith(("dir", "sog")):
                self.detect(st, p, ctx, last)
            elif not p.endswith("dir"):
                os.remove(p)
                del st[p]
                try:
                    (gsply.sogread if p.endswith("sog") else gsply.plyread)(p)
                    require(False, "a removed file was loaded")
                except (OSError, ValueError):
                    pass
                self.held_same(held, ctx, "after removing a file: ")
                last = "remove: " + os.path.basename(p)
            if len(held) > 12:
                held.pop(int(rng.integers(len(held))))
        ctx.sample({"files": len(st), "last": last, "held": len(held)})
