"""P37: time and memory of every operation grow no faster than the scene; views and queries cost nothing."""
import os, sys, tempfile, time, tracemalloc
import numpy as np
from vf import gen, hold, world
from vf.core import Check, require, rng_of

SIZES = (3000, 24000, 192000)
PARTS = (60, 480, 3840)
LAYERS = (8, 64, 512)
# what the fixed-cost operations may allocate, whatever the size of the scene
FIXED = 64 * 1024
TOOL = 4


class Meter:
    """Executed lines of the library (a deterministic work count), CPU time and peak traced memory of a call."""

    def __init__(self):
        self.n = 0
        self.root = os.path.join(os.environ.get("VF_REPO", "/repo"), "src", "gsply")
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "p37")
        mon.register_callback(TOOL, mon.events.LINE, self.line)

    def line(self, code, no):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.n += 1

    def lines(self, f):
        mon = sys.monitoring
        self.n = 0
        mon.set_events(TOOL, mon.events.LINE)
        try:
            f()
        finally:
            mon.set_events(TOOL, 0)
        return self.n

    @staticmethod
    def cpu(f, times):
        best = None
        for _ in range(times):
            t = time.process_time()
            r = f()
            t = time.process_time() - t
            del r
            best = t if best is None else min(best, t)
            if best > 5:
                break
        return best

    @staticmethod
    def peak(f):
        tracemalloc.start()
        try:
            tracemalloc.reset_peak()
            a = tracemalloc.get_traced_memory()[0]
            r = f()
            p = tracemalloc.get_traced_memory()[1] - a
            del r
            return p
        finally:
            tracemalloc.stop()


def fixed_ops():
    """Operations whose cost may not depend on the size of the scene: name -> f(GSData or GSTensor)."""
    from gsply.gsdata import DataFormat
    o = {"len": len, "degree": lambda d: d.get_sh_degree(), "flags": lambda d: [getattr(d, x) for x in dir(type(d)) if x.startswith("is_") and isinstance(getattr(type(d), x), property)],
         "format_state": lambda d: d.format_state, "with_format": lambda d: d.with_format(scales=DataFormat.SCALES_PLY), "unpack": lambda d: d.unpack(), "to_dict": lambda d: d.to_dict(),
         "slice": lambda d: d[1:-1], "slice step": lambda d: d[::3], "slice reversed": lambda d: d[:len(d) // 2:2], "one": lambda d: d[len(d) // 2], "last": lambda d: d[-1], "get_gaussian": lambda d: d.get_gaussian(-1),
         "few": lambda d: d[[0, -1, 5]], "copy_slice": lambda d: d.copy_slice(slice(5, 9)) if hasattr(d, "copy_slice") else None, "layer": lambda d: d.get_mask_layer("m"),
         "convert declared": lambda d: d.normalize(), "contiguous already": lambda d: d.make_contiguous() if hasattr(d, "make_contiguous") and d._base is None and d.means.flags["C_CONTIGUOUS"] else None,
         "consolidated already": lambda d: d.consolidate() if d._base is not None else None, "to same": lambda d: d.to("cpu") if hasattr(d, "to") else None}
    return o


class CHECK(Check):
    rule = "every public operation at three sizes a factor 8 apart (Gaussians; parts of a concatenation; mask layers): executed library lines, CPU time and peak traced memory of each; distinct by (operation, dimension, source form)"
    required = {"measured": 550, "lines": 50000, "features": 180, "growths": 140}
    n_quick, n_thorough = 0, 60

    def setup(self, ctx, tier):
        global gsply, GSData, GSTensor, torch
        import gsply, torch
        from gsply import GSData, GSTensor
        self.m = Meter()
        self.ops = world.ops()
        self.w = {}
        w = world.World(rng_of("warm37"), 300, 3, tempfile.mkdtemp(dir=ctx.tmp))
        for f in self.ops.values():
            f(w)

    def directed(self, tier):
        names = sorted(world.ops())
        out = [{"k": "op", "ops": names[i::8], "K": 3, "s": 0} for i in range(8)]
        out += [{"k": "fixed", "src": s} for s in ("arrays", "base", "loaded", "packed", "tensor", "tbase")]
        out += [{"k": "parts", "src": s} for s in ("arrays", "base")] + [{"k": "layers", "src": s} for s in ("arrays", "tensor")] + [{"k": "rows", "src": s} for s in ("arrays", "tensor")]
        return out

    def random_case(self, i, seed, tier):
        r = rng_of("P37", seed, i)
        names = sorted(world.ops())
        return {"k": "op", "ops": [str(x) for x in r.choice(names, 12, replace=False)], "K": int(r.choice([0, 8, 15])), "s": int(r.integers(1, 1 << 30))}

    def grow(self, what, fs, ctx, memory=True, lines=True):
        """fs: the same operation on three inputs, each 8 times the one before."""
        prev = None
        for i, f in enumerate(fs):
            f()                                          # compile, warm up
            ln = self.m.lines(f)
            t = self.m.cpu(f, 3)
            p = self.m.peak(f) if memory else 0
            if prev:
                l0, t0, p0, f0 = prev
                require(ln <= 12 * l0 + 200, lambda: f"{what}: 8 times the input took {ln} executed lines instead of {l0}")
                if t > 32 * t0 + .15:                    # once more, in case the machine was busy
                    t, t0 = min(t, self.m.cpu(f, 4)), max(t0, self.m.cpu(f0, 4))
                require(t <= 32 * t0 + .15, lambda: f"{what}: 8 times the input took {t:.3f} s of CPU time instead of {t0:.4f} s")
                require(p <= 14 * p0 + 500_000, lambda: f"{what}: 8 times the input needed {p} bytes instead of {p0}")
                ctx.count("growths")
            prev = (ln, t, p, f)
            ctx.count("measured")
            ctx.count("lines", ln)

    def world(self, n, k, s, ctx):
        if (n, k, s) not in self.w:
            self.w[n, k, s] = world.World(rng_of("P37w", n, k, s), n, k, tempfile.mkdtemp(dir=ctx.tmp))
        return self.w[n, k, s]

    def run(self, c, ctx):
        if c["k"] == "op":
            ws = [self.world(n, c["K"], c["s"], ctx) for n in SIZES]
            for w in ws:
                w.idx = rng_of("P37i", w.n).integers(0, w.n, w.n)
            for o in c["ops"]:
                self.grow(f"{o} (K={c['K']})", [lambda w=w: self.ops[o](w) for w in ws], ctx, memory=o not in world.TENSOR_OPS)
                ctx.feat(o, "gaussians", c["K"])
            if c["K"] != 3:
                self.w.clear()
        elif c["k"] == "fixed":
            ds = [self.source(c["src"], n, ctx) for n in SIZES]
            for o, f in fixed_ops().items():
                if o == "layer":
                    for d in ds:
                        if d.mask_names is None:
                            d.masks = None
                            d.add_mask_layer("m", d.means[:, 0] > 0)
                self.flat(f"{o} of a scene ({c['src']})", [lambda d=d: f(d) for d in ds], ctx, memory=c["src"] not in ("tensor", "tbase"))
                ctx.feat(o, "fixed", c["src"])
        elif c["k"] == "parts":
            d = self.source(c["src"], 3000, ctx)
            fs = []
            for p in PARTS:
                parts = [d[20 * (i % 100):20 * (i % 100) + 20] for i in range(p)]
                fs.append(lambda parts=parts: GSData.concatenate(parts))
            self.grow(f"concatenation of parts ({c['src']})", fs, ctx)
            ctx.feat("concatenate", "parts", c["src"])
        elif c["k"] == "layers":
            for op in ("and", "or", "some", "apply", "copy", "index", "add", "remove", "get"):
                fs = []
                for L in LAYERS:
                    d = hold.gsdata(hold.moderate(rng_of("P37l"), 500, 0), hold.formats(0, 0, 0, 0))
                    d.masks = rng_of("P37m", L).random((500, L)) < .9
                    d.mask_names = [f"n{i}" for i in range(L)]
                    if c["src"] == "tensor":
                        d = GSTensor.from_gsdata(d, device="cpu")
                    sub = [f"n{i}" for i in range(0, L, 2)]

                    def rem(d=d):
                        e = d.with_format()
                        e.remove_mask_layer("n3")
                        return e
                    fs.append({"and": lambda d=d: d.combine_masks("and"), "or": lambda d=d: d.combine_masks("or"), "some": lambda d=d, s=sub[:20]: d.combine_masks("and", layers=s), "apply": lambda d=d: d.apply_masks("or"),
                               "copy": lambda d=d: d.clone() if hasattr(d, "clone") else d.copy(), "index": lambda d=d: d[[3, 2, 1]], "add": lambda d=d: d + d, "remove": rem, "get": lambda d=d, L=L: d.get_mask_layer(f"n{L - 1}")}[op])
                self.grow(f"{op} with mask layers ({c['src']})", fs, ctx, memory=c["src"] == "arrays")
                ctx.feat(op, "layers", c["src"])
        else:
            # selections that repeat rows: the cost follows the selection, not scene times selection
            d = self.source(c["src"], 3000, ctx)
            fs = [lambda i=np.zeros(n, np.int64): d[i] for n in SIZES]
            self.grow(f"index list with repeats ({c['src']})", fs, ctx, memory=c["src"] == "arrays")
            ctx.feat("index", "rows", c["src"])

    def source(self, src, n, ctx):
        s, f = hold.moderate(rng_of("P37s", n), n, 3), hold.formats(0, 0, 0, 3)
        if src == "tensor":
            return hold.tensor(s, f)
        if src == "tbase":
            return hold.tensor(s, f).consolidate()
        d = hold.gsdata(s, f)
        if src == "base":
            return d.consolidate()
        if src in ("loaded", "packed"):
            p = ctx.path("x.ply" if src == "loaded" else "x.compressed.ply")
            d.save(p)
            return gsply.plyread(p)
        return d

    def flat(self, what, fs, ctx, memory):
        ls, ts, ps = [], [], []
        for f in fs:
            f()
            ls.append(self.m.lines(f))
            ts.append(self.m.cpu(f, 5))
            ps.append(self.m.peak(f) if memory else 0)
            ctx.count("measured")
            ctx.count("lines", ls[-1])
        require(ls[-1] <= ls[0] + 10, lambda: f"{what} executes {ls[-1]} lines at {SIZES[-1]} Gaussians, {ls[0]} at {SIZES[0]}")
        if ts[-1] > 16 * ts[0] + .01:
            ts[-1], ts[0] = min(ts[-1], self.m.cpu(fs[-1], 10)), max(ts[0], self.m.cpu(fs[0], 3))
        require(ts[-1] <= 16 * ts[0] + .01, lambda: f"{what} takes {ts[-1]:.4f} s at {SIZES[-1]} Gaussians, {ts[0]:.6f} s at {SIZES[0]}")
        require(max(ps) <= FIXED, lambda: f"{what} allocates {max(ps)} bytes")
