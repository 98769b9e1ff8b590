"""P27: a save that cannot put every byte on storage raises; a save that returns is complete; inconsistent inputs are refused before a file is touched."""
import os, resource, signal
from pathlib import Path
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, fail, rng_of, bucket

A_STD, A_PK = ["plywrite", "save", "write_uncompressed", "arrays"], ["plywrite_c", "save_c", "write_compressed", "arrays_c"]
T_STD, T_PK = ["tsave_plain", "plywrite_t"], ["tsave", "tsave_compressed", "plywrite_gpu", "write_compressed_gpu", "plywrite_tc"]
ENT = A_STD + A_PK + T_STD + T_PK
BADDIR = ["missing_dir", "parent_is_file", "target_is_dir", "long_name", "dangling_into_missing", "loop", "full", "nul"]


class fsize:
    """Writes beyond `limit` bytes of any file fail, as on a full disk (the last write is cut short)."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class CHECK(Check):
    rule = "storage faults at enumerated byte offsets (RLIMIT_FSIZE short writes, /dev/full, unusable paths) and every single-field shape inconsistency, for every save entry point; distinct by (entry, fault class, K, size bucket, path state)"
    required = {"faults_injected": 4000, "faults_reported": 3500, "complete_saves": 300, "bad_shapes": 1000, "features": 400}
    n_quick, n_thorough = 900, 40000

    def setup(self, ctx, tier):
        global gsply, GSTensor, GSData, torch
        import gsply, torch
        from gsply import GSTensor, GSData
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)

    def call(self, e, p, d):
        """d: dict of arrays (fields), or a scene"""
        from gsply import writer
        from gsply.torch import compression as C, io as IO
        arr = lambda x: [getattr(x, f) for f in gen.F[:5]] + [x.shN if x.shN is not None and x.shN.shape[1:2] != (0,) else None]
        {"plywrite": lambda: gsply.plywrite(p, d), "save": lambda: d.save(p), "write_uncompressed": lambda: writer.write_uncompressed(p, d), "arrays": lambda: gsply.plywrite(p, *arr(d)),
         "plywrite_c": lambda: gsply.plywrite(p, d, compressed=True), "save_c": lambda: d.save(p, compressed=True), "write_compressed": lambda: writer.write_compressed(p, *arr(d)),
         "arrays_c": lambda: gsply.plywrite(p, *arr(d), compressed=True),
         "tsave_plain": lambda: d.save(p, compressed=False), "plywrite_t": lambda: gsply.plywrite(p, d), "tsave": lambda: d.save(p), "tsave_compressed": lambda: d.save_compressed(p),
         "plywrite_gpu": lambda: IO.plywrite_gpu(p, d), "write_compressed_gpu": lambda: C.write_compressed_gpu(p, d), "plywrite_tc": lambda: gsply.plywrite(p, d, compressed=True)}[e]()

    def name(self, e):
        return "o.compressed.ply" if e in A_PK + T_PK else "o.ply"

    def scene(self, rng, e, n, k, state):
        s = hold.moderate(rng, n, k, "normal")
        f = hold.formats(0, 0, 0, k)
        if e in T_STD + T_PK:
            t = hold.tensor(s, f)
            return t.consolidate() if state == "cons" and n else t
        d = hold.gsdata(s, f)
        return d.consolidate() if state == "cons" and n else d

    def directed(self, tier):
        for e in ENT:
            for k, n in ((0, 1), (15, 2), (3, 257)):
                yield {"k": "sweep", "e": e, "n": n, "K": k, "state": "cons" if k == 15 else "plain", "step": 1 if tier == "thorough" else 13}
            for n, k in ((70000, 15), (20000, 0)):
                yield {"k": "big", "e": e, "n": n, "K": k, "state": "cons" if k else "plain"}
            yield {"k": "big", "e": e, "n": 60000, "K": 15, "state": "plain"}
            for b in BADDIR:
                yield {"k": "dir", "e": e, "b": b}
            for n in (1, 5, 300):
                for k in (0, 3, 15):
                    yield {"k": "shapes", "e": e, "n": n, "K": k}

    def attempt(self, e, p, d, limit, want, what, ctx):
        """One save under a size limit. want: the complete bytes."""
        ctx.count("faults_injected", limit < len(want))
        err = None
        with fsize(limit):
            try:
                self.call(e, p, d)
            except Exception as x:
                err = x
            except BaseException as x:
                fail(what + f"raised {type(x).__name__}: {x}")
        if err is not None:
            require(limit < len(want), lambda: what + f"raised {type(err).__name__} although nothing failed: {err}")
            ctx.count("faults_reported")
            return
        require(os.path.isfile(p), lambda: what + "returned normally, no file")
        b = open(p, "rb").read()
        require(b == want, lambda: what + f"returned normally with {len(b)} of {len(want)} bytes stored")
        ctx.count("complete_saves")

    def run(self, c, ctx):
        rng = rng_of("P27", c)
        k = c["k"]
        if k == "random":
            e = str(rng.choice(ENT))
            u = rng.random()
            if u < .45:
                n, K, st = gen.pick_n(rng, .08), gen.pick_k(rng), str(rng.choice(["cons", "plain"]))
                return self.limits(rng, e, n, K, st, None, ctx)
            if u < .9:
                return self.shapes(rng, e, int(rng.choice([1, 2, 5, 255, 256, 257, 600])), gen.pick_k(rng), ctx, some=True)
            return self.dirs(rng, e, str(rng.choice(BADDIR)), ctx)
        if k == "sweep":
            return self.limits(rng, c["e"], c["n"], c["K"], c["state"], c["step"], ctx)
        if k == "big":
            return self.limits(rng, c["e"], c["n"], c["K"], c["state"], "big", ctx)
        if k == "dir":
            return self.dirs(rng, c["e"], c["b"], ctx)
        self.shapes(rng, c["e"], c["n"], c["K"], ctx)

    def limits(self, rng, e, n, k, state, step, ctx):
        d = self.scene(rng, e, n, k, state)
        p0 = ctx.path(self.name(e))
        self.call(e, p0, d)
        want = open(p0, "rb").read()
        L = len(want)
        what = f"{e}, n={n} K={k} {state}: "
        require(len(gsply.plyread(p0)) == n, lambda: what + "the file does not load back")
        ctx.count("complete_saves")
        if step == "big":
            B = 1 << 20
            at = {0, 1, 100, 4096, 8192, L - 1, L - 2, L - 4, L - 4096, L - B, L // 2, L // 3} | {x * B + j for x in range(0, L // B + 1) for j in (-1, 0, 1)}
            at = sorted(int(x) for x in rng.choice(sorted(x for x in at if 0 <= x < L), 14)) + [L - 1, L]
        elif step is None:
            at = sorted({int(x) for x in rng.integers(0, L, 4)} | {L, L - 1, max(0, L - 8192), min(L - 1, 8192)})
        else:
            o = int(rng.integers(step))
            at = sorted(set(range(o, L, step)) | {0, L - 1, L, L + 100})
            if len(at) > 900:
                at = sorted({int(x) for x in rng.choice(at, 900)} | {0, L - 1, L})
        for i, x in enumerate(at):
            old = i % 3
            p = ctx.path(self.name(e))
            if old == 1:
                open(p, "wb").write(want)                 # the same scene is already there
            elif old == 2:
                open(p, "wb").write(b"z" * (L + 5000))     # something longer is there
            self.attempt(e, p if i % 2 else Path(p), d, x, want, what + f"storage ends at byte {x} of {L} ({('new file', 'same file', 'longer file')[old]}): ", ctx)
            os.remove(p) if os.path.exists(p) else None
        ctx.feat("limit", e, k, bucket(n), state)
        ctx.sample({"entry": e, "n": n, "K": k, "bytes": L, "offsets": at[:6]})

    def dirs(self, rng, e, b, ctx):
        d = self.scene(rng, e, int(rng.choice([1, 300])), gen.pick_k(rng), "plain")
        base = os.path.dirname(ctx.path())
        nm = self.name(e)
        p = os.path.join(base, nm)
        if b == "missing_dir":
            p = os.path.join(base, "nope", "deeper", nm)
        elif b == "parent_is_file":
            open(os.path.join(base, "f"), "wb").close()
            p = os.path.join(base, "f", nm)
        elif b == "target_is_dir":
            os.makedirs(p)
        elif b == "long_name":
            p = os.path.join(base, "x" * 300 + nm)
        elif b == "dangling_into_missing":
            os.symlink(os.path.join(base, "gone", "t.ply"), p)
        elif b == "loop":
            os.symlink(p, p)
        elif b == "full":
            os.symlink("/dev/full", p)
        else:
            p = os.path.join(base, "a\0" + nm)
        ctx.count("faults_injected")
        what = f"{e} to a path that is {b}: "
        try:
            self.call(e, p, d)
        except Exception as x:
            ctx.count("faults_reported")
        else:
            require(b != "nul" and os.path.isfile(p) and not os.path.islink(p) or os.path.isfile(p), lambda: what + "returned normally and stored nothing")
            require(len(gsply.plyread(p)) == len(d), lambda: what + "returned normally with an incomplete file")
            ctx.count("complete_saves")
        ctx.feat("dir", e, b)

    def bad(self, rng, f, a, n, k):
        """Variants of one field that do not fit the others."""
        out = []
        cols = {"means": 3, "scales": 3, "quats": 4, "sh0": 3}
        up = np.concatenate([a, a[:1]])
        out += [("a row more", up), ("twice the rows", np.concatenate([a, a]))]
        if n > 1:
            out += [("a row less", a[:-1]), ("a single row", a[:1]), ("no rows", a[:0])]
        if f in cols:
            out += [("a column less", a[:, :-1]), ("a column more", np.concatenate([a, a[:, :1]], 1)), ("one dimension", a[:, 0]), ("flattened", a.reshape(-1)), ("transposed", np.ascontiguousarray(a.T)) if n != cols[f] else ("zero columns", a[:, :0]),
                    ("a single column", a[:, :1]), ("an extra dimension", a[:, :, None])]
        elif f == "opacities":
            out += [("three columns", np.stack([a] * 3, 1)), ("two columns", np.stack([a] * 2, 1)), ("a scalar", a[0]) if n > 1 else ("two rows", np.concatenate([a, a]))]
        else:
            out += [("two channels", a[:, :, :2]), ("four channels", np.concatenate([a, a[:, :, :1]], 2))]
        return out

    def shapes(self, rng, e, n, k, ctx, some=False):
        s = hold.moderate(rng, n, k, "normal")
        good = self.scene(rng, e, n, k, "plain")
        tens = e in T_STD + T_PK
        todo = [(f, nm, a) for f in gen.F if f != "shN" or k for nm, a in self.bad(rng, f, s[f], n, k)]
        if some:
            todo = [todo[int(i)] for i in rng.integers(0, len(todo), 4)]
        for f, nm, a in todo:
            raw = dict(s)
            raw[f] = a
            if tens:
                d = GSTensor(**{x: torch.from_numpy(np.array(raw[x])) for x in gen.F}, _format=dict(good.format_state))
            else:
                d = GSData(**{x: raw[x] for x in gen.F}, _format=dict(good.format_state))
            how = str(rng.choice(["existing", "new"]))
            p = ctx.path(self.name(e))
            before = b"precious" * 700
            if how == "existing":
                open(p, "wb").write(before)
            what = f"{e}, n={n} K={k}, {f} with {nm}: "
            ctx.count("bad_shapes")
            try:
                self.call(e, p, d)
            except Exception as x:
                ctx.count("refused")
            except BaseException as x:
                fail(what + f"raised {type(x).__name__}: {x}")
            else:
                fail(what + f"was accepted ({np.shape(a)})")
            if how == "existing":
                require(open(p, "rb").read() == before, lambda: what + "refused after the existing file had been overwritten")
            else:
                require(not os.path.exists(p), lambda: what + "refused, but left a file behind")
            ctx.feat("shape", e, f, nm, k)
