"""P33: an operation that does not complete - refused or broken off at any point - leaves everything it was given as it was."""
import os, sys
import numpy as np
from vf import engine as E, gen, hold, model, ref, world
from vf.core import Check, require, rng_of, bucket

FAULT = {"at": 0, "n": 0, "exc": None, "where": ""}


class Interrupt(BaseException):
    """Stands for KeyboardInterrupt, a timer's exception, a killed request."""


def install_faults(root):
    """At a chosen executed line of the code under test an exception is raised."""
    mon = sys.monitoring
    mon.use_tool_id(3, "vf-faults")
    root = os.path.realpath(root) + os.sep
    ours = {}

    def line(code, no):
        o = ours.get(code)
        if o is None:
            o = ours[code] = os.path.realpath(code.co_filename).startswith(root)
        if not o:
            return mon.DISABLE
        if FAULT["at"] == 0:
            return
        FAULT["n"] += 1
        if FAULT["n"] == FAULT["at"]:
            FAULT["where"] = f"{os.path.basename(code.co_filename)}:{code.co_name}"
            raise FAULT["exc"]
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def lines(f):
    FAULT.update(at=-1, n=0)
    try:
        f()
    finally:
        n, FAULT["at"] = FAULT["n"], 0
    return n


def fds():
    return {int(x): os.readlink(f"/proc/self/fd/{x}") for x in os.listdir("/proc/self/fd") if os.path.exists(f"/proc/self/fd/{x}")}


def deep(d):
    """Everything visible of a scene, and the arrays themselves."""
    return hold.snapshot(d), {f: id(getattr(d, f)) for f in gen.F}, id(d.masks), (None if d.masks is None else str(d.masks.dtype))


def deep_diff(d, b):
    m = hold.same_snapshot(hold.snapshot(d), b[0])
    if m:
        return m
    for f, i in b[1].items():
        if id(getattr(d, f)) != i:
            return f"{f} is another array object"
    if (id(d.masks), None if d.masks is None else str(d.masks.dtype)) != b[2:]:
        return "the masks are another array"
    return ""


def bad_calls(rng, d, s, other, tmp):
    """(label, call) pairs that should be refused; one that is accepted is not judged here."""
    import gsply
    import torch
    from gsply import GSData, GSTensor
    t, n = E.is_t(d), len(s["v"]["means"])
    cls = type(d)
    arr = (lambda x: torch.from_numpy(np.array(x))) if t else np.asarray
    names = model.layer_names(s) if s["masks"] is not None else []
    k = s["v"]["shN"].shape[1]
    o = []

    def a(label, f):
        o.append((label, f))
    for key in (n, -n - 1, n + 10**6, 2**40, [0, n], [n + 3], [-n - 1], arr(np.ones(n + 1, bool)), arr(np.zeros(max(n - 1, 0), bool)), "means", 1.5, None, (0, 1), {}, arr(np.array([0.5])), object()):
        a(f"[{str(key)[:20]}]", lambda key=key: d[key])
    if not t:
        a("copy_slice", lambda: d.copy_slice([0, n + 1]))
    for bad in (np.ones(n + 1, bool), np.ones((n, 2), bool), np.ones(max(n - 1, 0), bool), np.ones((2, n), bool)):
        a(f"add_mask_layer {bad.shape}", lambda bad=bad: d.add_mask_layer("new", arr(bad)))
    for x in names[:3]:
        a("add_mask_layer again", lambda x=x: d.add_mask_layer(x, arr(np.ones(n, bool))))
    a("add_mask_layer no array", lambda: d.add_mask_layer("new", "mask"))
    for x in ("nowhere", "", 5, None):
        a("remove_mask_layer", lambda x=x: d.remove_mask_layer(x))
        a("get_mask_layer", lambda x=x: d.get_mask_layer(x))
    for ip in (False, True):
        a("apply_masks mode", lambda ip=ip: d.apply_masks("xor", inplace=ip))
        a("apply_masks layer", lambda ip=ip: d.apply_masks("or", ["nowhere"], inplace=ip))
        a("apply_masks layers", lambda ip=ip: d.apply_masks("and", names[:1] + ["nowhere"], inplace=ip))
    a("combine mode", lambda: d.combine_masks("nand"))
    a("combine layer", lambda: d.combine_masks("or", layers=names[:1] + ["nowhere"]))
    for x in (other, 5, "scene", None, s["v"]["means"]):
        a(f"+ {type(x).__name__}", lambda x=x: d + x)
        a(f"add {type(x).__name__}", lambda x=x: d.add(x))
        if not t:
            a(f"concatenate {type(x).__name__}", lambda x=x: GSData.concatenate([d, x]))
    if not t:
        a("concatenate none", lambda: GSData.concatenate([d, None, d]))
        for bad in (np.ones(n + 1, bool), np.ones(max(n - 1, 0), bool)):
            a("from_gsdata mask", lambda bad=bad: GSTensor.from_gsdata(d, device="cpu", mask=bad))
        a("from_gsdata device", lambda: GSTensor.from_gsdata(d, device="nowhere"))
    else:
        a("to device", lambda: d.to("nowhere"))
        a("to dtype", lambda: d.to(dtype="float32x"))
        a("cuda", lambda: d.to("cuda:99"))
        a("from_gsdata", lambda: GSTensor.from_gsdata(5))
    a("with_format", lambda: d.with_format(nonsense=1))
    for kw in ({"min_scale": "x"}, {"max_scale": None}, {"min_opacity": object()}, {"nonsense": 1}):
        for m in ("normalize", "denormalize", "to_rgb", "to_sh"):
            for ip in (False, True):
                a(f"{m} {kw}", lambda m=m, kw=kw, ip=ip: getattr(d, m)(inplace=ip, **kw))
    if not t:
        for kw in ({"min_scale": "x"}, {"min_opacity": object()}, {"nonsense": 1}, {"min_quat_norm": "y"}):
            for nm in ("apply_pre_activations", "apply_pre_deactivations"):
                for ip in (False, True):
                    a(f"{nm} {kw}", lambda nm=nm, kw=kw, ip=ip: getattr(gsply, nm)(d, inplace=ip, **kw))
    full = os.path.join(tmp, "x.ply", "y.ply")
    a("save missing directory", lambda: d.save(full))
    a("save packed missing directory", lambda: d.save(full, compressed=True))
    a("plywrite directory", lambda: gsply.plywrite(tmp, d))
    a("save nothing", lambda: d.save(None))
    a("load", lambda: cls.load(full))
    return o


class CHECK(Check):
    rule = ("refusals: every invalid argument of every operation, and every operation on scenes with one field too short or unwritable; faults: an exception raised at enumerated executed lines of every out-of-place operation, load and save; "
            "everything involved compared before and after, then a valid operation compared with the model or with the undisturbed result; distinct by (operation, container or fault kind, place)")
    required = {"refused": 7000, "broken_off": 2500, "reruns": 900, "continued": 250, "features": 900}
    n_quick, n_thorough = 220, 7000

    def setup(self, ctx, tier):
        global gsply
        import gsply
        self.ops = world.ops()
        install_faults(os.path.join(os.environ.get("VF_REPO", "/repo"), "src"))
        w = world.World(rng_of("warm33"), 300, 3, os.path.dirname(ctx.path()))
        for f in self.ops.values():
            f(w)

    def directed(self, tier):
        for op in sorted(world.ops()):
            for n, k in ((5, 0), (300, 3)):
                yield {"k": "fault", "op": op, "n": n, "K": k}

    def run(self, c, ctx):
        rng = rng_of("P33", c)
        if c["k"] == "fault":
            return self.fault(rng, c, ctx)
        if rng.random() < .25:
            return self.inconsistent(rng, ctx)
        self.refuse(rng, ctx)

    def refuse(self, rng, ctx):
        k = gen.pick_k(rng)
        n = int(rng.choice([0, 1, 2, 7, 40, 300], p=[.05, .1, .1, .25, .3, .2]))
        d, how = E.origin(rng, n, k, ctx)
        t = E.is_t(d)
        for _ in range(int(rng.integers(0, 3))):           # some history first
            st = E.edit(rng, hold.snapshot(d)) if rng.random() < .5 else E.add_layer(rng, hold.snapshot(d))
            if st is not None and not st.raises and E.kind(d) in st.kinds:
                d = st.run(d)
        s = hold.snapshot(d)
        # a scene it must not be combined with: other declared format or other SH degree
        o = d.denormalize(inplace=False) if not (model.lin_s(s) or model.lin_o(s)) else d.normalize(inplace=False)
        if rng.random() < .5:
            kk = 8 if k != 8 else 0
            o = (hold.tensor if t else hold.gsdata)(hold.moderate(rng, 6, kk), hold.formats(0, 0, 0, kk))
        tmp = os.path.dirname(ctx.path())
        calls = bad_calls(rng, d, s, o, tmp)
        what = f"{'tensor' if t else 'array'} scene from {how}, n={len(d)} K={k}: "
        bd, bo = deep(d), deep(o)
        for label, f in calls:
            try:
                f()
            except Exception as e:
                ctx.count("refused")
                ctx.feat("refuse", label.split(" ")[0].split("[")[0], type(e).__name__, E.kind(d))
            else:
                d = type(d)(**{f: None if getattr(d, f) is None else (getattr(d, f).clone() if t else getattr(d, f).copy()) for f in gen.F}, masks=d.masks, mask_names=d.mask_names, _format=dict(d.format_state)) \
                    if deep_diff(d, bd) else d
                bd = deep(d)
                s = bd[0]
                ctx.count("accepted")
                continue
            m = deep_diff(d, bd)
            require(not m, lambda: what + f"refused {label} changed the scene: {m}")
            m = deep_diff(o, bo)
            require(not m, lambda: what + f"refused {label} changed the other scene: {m}")
        require(os.listdir(tmp) == [], lambda: what + f"a refused call left {os.listdir(tmp)}")
        # life goes on
        for g in (E.edit, E.getitem, E.copy, E.convert, E.consolidate, E.add_layer):
            s = hold.snapshot(d)
            st = g(rng, s)
            if st is None or st.raises or E.kind(d) not in st.kinds:
                continue
            exp, tol = st.model(s, E.is_t(d)) if getattr(st, "kind_model", False) else st.model(s)
            r = st.run(d)
            m = model.diff(hold.snapshot(r), exp, tol)
            require(not m, lambda: what + f"after refused calls, {st.label}: {m}")
            ctx.count("continued")

    def inconsistent(self, rng, ctx):
        """One field has another length, or must not be written: whatever raises has changed nothing."""
        import torch
        from gsply import GSData, GSTensor
        k = int(rng.choice([0, 3, 15]))
        n = int(rng.choice([6, 40, 300]))
        d0, how = E.origin(rng, n, k, ctx)
        t = E.is_t(d0)
        e = d0.clone() if t else d0.copy()
        tmp = os.path.dirname(ctx.path())
        f = str(rng.choice([x for x in gen.F if x != "shN" or k]))
        why = str(rng.choice(["short", "long", "columns", "read-only"]))
        ops = {"denormalize": lambda d: d.denormalize(), "normalize": lambda d: d.normalize(), "to_rgb": lambda d: d.to_rgb(), "to_sh": lambda d: d.to_sh(), "copy": lambda d: d.clone() if t else d.copy(),
               "consolidate": lambda d: d.consolidate(), "last": lambda d: d[len(d) - 1], "slice": lambda d: d[::2], "mask": lambda d: d[torch.ones(len(d), dtype=torch.bool) if t else np.ones(len(d), bool)],
               "contiguous": lambda d: d.make_contiguous() if not t else None, "save": lambda d: d.save(os.path.join(tmp, "o.ply"), compressed=False), "packed": lambda d: d.save(os.path.join(tmp, "o.compressed.ply")),
               "+": lambda d: d + e, "radd": lambda d: e + d, "pre": lambda d: gsply.apply_pre_activations(d), "depre": lambda d: gsply.apply_pre_deactivations(d), "transfer": lambda d: d.to_gsdata() if t else GSTensor.from_gsdata(d, device="cpu"),
               "add_mask_layer": lambda d: d.add_mask_layer("zz", (torch if t else np).ones(n + 1, dtype=torch.bool if t else bool)), "bytes": lambda d: gsply.compress_to_bytes(d), "denorm copy": lambda d: d.denormalize(inplace=False)}
        for op, g in ops.items():
            d = d0.clone() if t else d0.copy()
            if op in ("normalize", "depre"):
                d = d.denormalize(inplace=False)
            if op == "to_sh":
                d = d.to_rgb(inplace=False)
            x = getattr(d, f)
            if why == "short":
                setattr(d, f, x[:-3])
            elif why == "long":
                setattr(d, f, torch.cat([x, x[:3]]) if t else np.concatenate([x, x[:3]]))
            elif why == "columns" and x.ndim > 1:
                setattr(d, f, x[:, :-1] if f != "shN" else x[:, :, :2])
            elif not t and why == "read-only":
                x = x.copy()
                x.setflags(write=False)
                setattr(d, f, x)
            b, be = deep(d), deep(e)
            try:
                g(d)
            except Exception as ex:
                m = deep_diff(d, b) or deep_diff(e, be)
                require(not m, lambda: f"{'tensor' if t else 'array'} scene from {how}, n={n} K={k}, {f} {why}: {op} raised {type(ex).__name__} but changed the scene: {m}")
                ctx.count("refused")
                ctx.feat("inconsistent", op, f, why, t)

    def fault(self, rng, c, ctx):
        op, n, k = c["op"], c["n"], c["K"]
        f = self.ops[op]
        w = world.World(rng, n, k, os.path.dirname(ctx.path()))
        base = world.digest(f(w))
        total = lines(lambda: f(w))
        cap = 24 if ctx.tier == "quick" else 400
        at = range(1, total + 1) if total <= cap else sorted({1, 2, total, total - 1} | {int(x) for x in rng.integers(1, total + 1, cap)})
        scenes = {"a": w.a, "lin": w.lin, "b": w.b, "t": w.t}
        before = {x: deep(d) for x, d in scenes.items()}
        inputs = {}
        for p in (w.pstd, w.ppk, w.psog):
            with open(p, "rb") as fh:
                inputs[p] = fh.read()
        f0 = fds()
        for i, at_line in enumerate(at):
            exc = (Interrupt, MemoryError, OSError)[i % 3]
            FAULT.update(at=at_line, n=0, exc=exc("injected"), where="")
            r = None
            try:
                r = f(w)
            except (Interrupt, Exception):
                out = "raised"
            else:
                out = "completed"
            finally:
                FAULT["at"] = 0
                FAULT["exc"] = None
            what = f"{op} (n={n} K={k}) broken off by {exc.__name__} in {FAULT['where']} (line event {at_line} of {total}): "
            if out == "completed" and FAULT["where"]:
                # only an exception the library may take for its own ("not in this format", "no such optimisation") may be caught
                require(exc is not Interrupt or world.digest(r) == base, lambda: what + "it returned another result instead of raising")
                if world.digest(r) != base:
                    ctx.count("answered otherwise")
                    ctx.feat("otherwise", op, exc.__name__, FAULT["where"])
            for x, d in scenes.items():
                m = deep_diff(d, before[x])
                require(not m, lambda: what + f"scene {x} changed: {m}")
            ctx.count("broken_off")
            ctx.feat("fault", op, exc.__name__, FAULT["where"].split(":")[-1])
            if i % 3 == 2 or at_line > total - 3:
                again = world.digest(f(w))
                require(again == base, lambda: what + "the same call afterwards gives another result")
                ctx.count("reruns")
        import gc
        gc.collect()
        f1 = fds()
        new = {a: b for a, b in f1.items() if a not in f0 and b.startswith(w.dir)}
        require(not new, lambda: f"{op}: left open after being broken off: {new}")
        for p, b in inputs.items():
            with open(p, "rb") as fh:
                require(fh.read() == b, lambda: f"{op}: input file {p} changed")
        require(world.digest(f(w)) == base, f"{op}: another result after the faults")
        ctx.count("reruns")
        ctx.maxi("line events of one call", total)
