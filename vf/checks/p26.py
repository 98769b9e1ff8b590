"""P26: kernels stay in bounds, race-free and leave nothing uninitialised - observed at every array access, under bounds checks and under poisoned memory."""
import ctypes, os
import numpy as np
from vf import gen, guard, hold, ref, trace
from vf.core import Check, require, fail, rng_of, bucket
from vf import world

POISON = (0, 0x5A, 0xA5)
LAY = ["c", "strided", "reversed", "fortran", "double"]


def before_import(mode):
    if mode == "traced":
        trace.install()
    elif mode == "bounds":
        guard.bounds_checked_kernels()


def poison(v):
    """Memory handed out from now on is filled with v."""
    ctypes.CDLL(None).mallopt(-6, (~v & 0xFF) if v else 0)      # glibc fills new memory with the complement of M_PERTURB
    for size in range(1, 1025, 1):                              # numpy keeps small freed blocks for reuse
        for a in [np.full(size, v, np.uint8) for _ in range(8)]:
            del a


class CHECK(Check):
    rule = "every array access of every kernel called through the public API, observed by a traced twin run (bounds, per-iteration read/write sets, shadow initialisation, iteration-order independence); compiled bounds checks; byte equality of results under three memory poison patterns; distinct by (mode, operation, K, size bucket, layout) and kernel signature"
    required = {"traced_accesses": 3000000, "traced_calls": 250, "traced_iterations": 100000, "bounds_checked_calls": 350, "poison_comparisons": 400, "features": 400}
    n_quick, n_thorough = 300, 9000
    max_s = {"quick": 300, "thorough": 1500}

    def setup(self, ctx, tier):
        global gsply
        import gsply
        self.ops = world.ops()
        self.ops.update(self.more())

    def more(self):
        from gsply.writer import write_compressed
        g = gsply

        def arrays(w):
            return [w.lay[f] for f in gen.F[:5]] + [w.lay["shN"] if w.k else None]

        def acts(inv):
            def f(w):
                d = gsply.GSData.from_arrays(*arrays(w), format="ply")
                d = d.with_format(**hold.formats(inv, inv, 0, w.k)).copy()
                return (g.apply_pre_deactivations if inv else g.apply_pre_activations)(d)
            return f
        return {
            "lay_write": world.S(".ply", lambda w, p: g.plywrite(p, *arrays(w))), "lay_packed": world.S(".compressed.ply", lambda w, p: write_compressed(p, *arrays(w))),
            "lay_bytes": lambda w: g.compress_to_bytes(*arrays(w)), "lay_cons": lambda w: gsply.GSData.from_arrays(*arrays(w), format="ply").consolidate(),
            "lay_rgb": lambda w: gsply.GSData.from_arrays(*arrays(w), format="ply").to_rgb(inplace=False).to_sh(inplace=False),
            "lay_act": acts(0), "lay_deact": acts(1),
            "lay_util": lambda w: [g.sigmoid(w.lay["opacities"]), g.sigmoid(w.lay["means"]), g.logit(np.clip(w.lay["sh0"], .1, .9)), g.logit(np.abs(w.lay["means"][:, 0]) % 1), g.sh2rgb(w.lay["sh0"]), g.rgb2sh(w.lay["shN"])],
            "mixed_masks": lambda w: [w.a + w.plain(), w.plain() + w.a, w.a[::2] + w.b, gsply.GSData.concatenate([w.plain(), w.a, w.b]), gsply.GSData.concatenate([w.a, w.plain()])],
            "mixed_masks_t": lambda w: [(lambda a, b: [a + b, b + a])(gsply.GSTensor.from_gsdata(w.a, device="cpu"), w.t)],
            "mask_layers": lambda w: self.layers(w.a.copy()) + self.layers(gsply.GSTensor.from_gsdata(w.a, device="cpu")),
            "inplace_rgb": lambda w: [w.a.copy().to_rgb(), w.lin.copy().to_rgb().to_sh(), w.a.consolidate().to_rgb()],
        }

    @staticmethod
    def layers(d):
        import torch
        n = len(d)
        x = np.arange(n) % 3 == 0
        out = []
        for j in range(3):
            d.add_mask_layer(f"x{j}", x if isinstance(d.means, np.ndarray) else torch.from_numpy(x))
            out.append(d[0:0 + n])
            out.append(d.combine_masks("or"))
        d.remove_mask_layer("x1")
        out.append(d.apply_masks("or", inplace=False))
        return out + [d]

    def directed(self, tier):
        ks = (0, 3, 8, 15)
        for op in sorted(p25_names()):
            for j, n in enumerate((1, 2, 257, 300, 513)):
                for rep in range(3):       # consecutive cases go to workers in different modes
                    yield {"k": "op", "rep": rep, "op": op, "n": n, "K": ks[(j + len(op)) % 4], "lay": LAY[(j + len(op)) % 5]}

    def world(self, rng, n, k, lay, ctx):
        w = world.World(rng, n, k, os.path.dirname(ctx.path()))
        w.lay = {}
        w.plain = lambda: hold.gsdata(w.s, hold.formats(0, 0, 0, w.k))
        for f in gen.F:
            a = w.s[f]
            if lay == "strided":
                a = np.repeat(a, 2, 0)[::2]
            elif lay == "reversed":
                a = np.ascontiguousarray(a[::-1])[::-1]
            elif lay == "fortran":
                a = np.asfortranarray(a)
            elif lay == "double":
                a = a.astype(np.float64)
            w.lay[f] = a
        return w

    def run(self, c, ctx):
        rng = rng_of("P26", {x: y for x, y in c.items() if x != "rep"})
        m = ctx.mode
        op = c.get("op") or str(rng.choice(sorted(self.ops)))
        n = c.get("n")
        if n is None:
            n = int(rng.choice([1, 2, 3, 7, 255, 256, 257, 300, 511, 512, 513, 700])) if m == "traced" else gen.pick_n(rng, .1) or 5
        k = c.get("K", gen.pick_k(rng))
        lay = c.get("lay") or str(rng.choice(LAY))
        w = self.world(rng, n, k, lay, ctx)
        what = f"{op}, n={n} K={k} arrays {lay}: "
        if m == "traced":
            p0, c0 = len(trace.LOG["problems"]), dict(trace.LOG["calls"])
            trace.ON["v"] = True
            try:
                self.ops[op](w)
            finally:
                trace.ON["v"] = False
            require(len(trace.LOG["problems"]) == p0, lambda: what + trace.LOG["problems"][p0])
            for f, x in trace.LOG["calls"].items():
                if x != c0.get(f, 0):
                    ctx.feat("kernel", f, k, bucket(n), lay)
                    ctx.seen("kernels", f)
        elif m == "bounds":
            try:
                self.ops[op](w)
            except IndexError as e:
                if str(e) == "index is out of bounds":
                    fail(what + "a native kernel accessed an element outside its array")
                raise
            ctx.count("bounds_checked_calls")
        else:
            first = None
            for v in POISON:
                poison(v)
                try:
                    h = world.digest(self.ops[op](w))
                finally:
                    poison(0)
                require(first in (None, h), lambda: what + f"the result depends on what the memory contained before (filled with {v:#x})")
                first = h
                ctx.count("poison_comparisons")
        ctx.feat(m or "poison", op, k, bucket(n), lay)
        ctx.sample(dict(c, op=op, n=n, K=k, lay=lay))

    def finish(self, ctx, tier):
        if ctx.mode == "traced":
            L = trace.LOG
            ctx.count("traced_accesses", L["accesses"])
            ctx.count("traced_iterations", L["iterations"])
            ctx.count("traced_calls", sum(L["calls"].values()))
            for f, e in L["untraced"].items():
                ctx.seen("not traceable", f + " " + e)


def p25_names():
    return list(world.ops()) + ["lay_write", "lay_packed", "lay_bytes", "lay_cons", "lay_rgb", "lay_act", "lay_deact", "lay_util", "inplace_rgb", "mixed_masks", "mixed_masks_t", "mask_layers"]
