"""Process-wide state: a fingerprint of it, settings of it, and public calls whose results must not depend on it."""
import contextlib, decimal, gc, io, locale, logging, os, random, signal, socket, sys, tempfile, threading, warnings
import numpy as np
from vf import hold, ref, world

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE, signal.SIGXFSZ, signal.SIGALRM, signal.SIGFPE, signal.SIGSEGV]


def fingerprint():
    """Everything process-wide that a library call could quietly change, by name."""
    import numba, torch
    d = {}
    s = np.random.get_state()
    d["numpy random state"] = (s[0], s[1].tobytes(), s[2:])
    d["random state"] = hash(random.getstate())
    d["torch random state"] = torch.get_rng_state().numpy().tobytes()
    d["numpy error settings"] = repr((np.geterr(), np.geterrcall(), np.getbufsize()))
    d["numpy print options"] = repr(np.get_printoptions())
    d["torch settings"] = repr((torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_num_threads(), torch.get_num_interop_threads(),
                                torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled(), str(torch.get_default_device()), torch.get_float32_matmul_precision(),
                                torch.is_autocast_enabled("cpu"), repr(torch._tensor_str.PRINT_OPTS)))
    d["kernel thread count"] = numba.get_num_threads()
    # float environment: flush-to-zero and rounding mode, as seen by numpy and by torch in this thread
    with np.errstate(all="ignore"):
        tiny = np.float32(1e-38) * np.array([.01], np.float32)
    third = np.array([1.0]) / np.array([3.0])
    d["float environment"] = repr((tiny.tobytes(), third.tobytes(), (torch.tensor([1e-38]) * torch.tensor([.01])).numpy().tobytes()))
    d["warning filters"] = repr(warnings.filters)
    d["warning hook"] = (id(warnings.showwarning), id(warnings.formatwarning))
    d["working directory"] = os.getcwd()
    d["environment"] = repr(sorted(os.environ.items()))
    d["module path"] = repr(sys.path)
    d["interpreter settings"] = repr((sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits(), gc.isenabled(), gc.get_threshold(), sys.getdefaultencoding()))
    d["hooks and streams"] = (id(sys.excepthook), id(sys.unraisablehook), id(threading.excepthook), id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.gettrace()), id(sys.getprofile()), len(sys.meta_path), len(sys.path_hooks))
    d["locale"] = locale.setlocale(locale.LC_ALL, None)
    u = os.umask(0)
    os.umask(u)
    d["umask"] = u
    d["signal handlers"] = repr([signal.getsignal(x) for x in SIGNALS])
    d["signal mask"] = repr(signal.pthread_sigmask(signal.SIG_BLOCK, []))
    r = logging.getLogger()
    d["logging"] = repr((r.level, [id(h) for h in r.handlers], r.disabled, logging.root.manager.disable, logging.raiseExceptions, logging.lastResort is None,
                         [(n, logging.getLogger(n).level, logging.getLogger(n).propagate, logging.getLogger(n).disabled) for n in ("gsply", "numba", "torch")]))
    d["decimal context"] = repr(decimal.getcontext())
    d["temporary directory"] = tempfile.tempdir
    d["socket timeout"] = socket.getdefaulttimeout()
    d["python threads"] = threading.active_count()
    d["process priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    return d


def differences(a, b):
    return [k for k in a if a[k] != b[k]]


class _Raise(logging.Handler):
    """Formats every record; a record that cannot be formatted raises."""
    def emit(self, record):
        record.getMessage()


@contextlib.contextmanager
def setting(name, rng, tmp):
    """One process-wide setting a program may have, undone afterwards."""
    import numba, torch
    with contextlib.ExitStack() as st:
        if name == "numpy warns":
            st.enter_context(np.errstate(all="warn"))
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter("always")
        elif name == "print options":
            st.enter_context(np.printoptions(precision=1, threshold=2, suppress=True, legacy="1.13"))
            torch.set_printoptions(precision=1, threshold=3)
            st.callback(torch.set_printoptions, profile="default")
        elif name == "torch double":
            torch.set_default_dtype(torch.float64)
            st.callback(torch.set_default_dtype, torch.float32)
        elif name == "torch half":
            torch.set_default_dtype(torch.float16)
            st.callback(torch.set_default_dtype, torch.float32)
        elif name == "no grad":
            st.enter_context(torch.no_grad())
        elif name == "inference mode":
            st.enter_context(torch.inference_mode())
        elif name == "deterministic torch":
            torch.use_deterministic_algorithms(True)
            st.callback(torch.use_deterministic_algorithms, False)
        elif name == "anomaly mode":
            torch.autograd.set_detect_anomaly(True)
            st.callback(torch.autograd.set_detect_anomaly, False)
        elif name == "torch threads":
            old = torch.get_num_threads()
            torch.set_num_threads(int(rng.choice([1, 3])))
            st.callback(torch.set_num_threads, old)
        elif name == "kernel threads":
            old = numba.get_num_threads()
            numba.set_num_threads(int(rng.integers(1, numba.config.NUMBA_NUM_THREADS + 1)))
            st.callback(numba.set_num_threads, old)
        elif name == "seeds":
            np.random.seed(int(rng.integers(1, 1 << 30)))
            random.seed(int(rng.integers(1, 1 << 30)))
            torch.manual_seed(int(rng.integers(1, 1 << 30)))
        elif name == "directory":
            old = os.getcwd()
            os.chdir(tmp)
            st.callback(os.chdir, old)
        elif name == "umask":
            old = os.umask(int(rng.choice([0, 0o77, 0o27])))
            st.callback(os.umask, old)
        elif name == "debug logging":
            r, h = logging.getLogger(), _Raise()
            lv = r.level
            g = logging.getLogger("gsply")
            gl = g.level
            r.addHandler(h)
            r.setLevel(1)
            g.setLevel(1)
            st.callback(r.removeHandler, h), st.callback(r.setLevel, lv), st.callback(g.setLevel, gl)
        elif name == "logging off":
            logging.disable(logging.CRITICAL)
            st.callback(logging.disable, logging.NOTSET)
        elif name == "gc always":
            old = gc.get_threshold()
            gc.set_threshold(1)
            st.callback(gc.set_threshold, *old)
        elif name == "gc never":
            gc.disable()
            st.callback(gc.enable)
        elif name == "no output":
            st.enter_context(contextlib.redirect_stdout(None)), st.enter_context(contextlib.redirect_stderr(None))
        elif name == "decimal":
            old = decimal.getcontext().copy()
            decimal.getcontext().prec = 2
            st.callback(decimal.setcontext, old)
        elif name == "trace function":
            old = sys.gettrace()
            sys.settrace(lambda *a: None)
            st.callback(sys.settrace, old)
        elif name != "none":
            raise KeyError(name)
        yield


SETTINGS = ["numpy warns", "print options", "torch double", "torch half", "no grad", "inference mode", "deterministic torch", "anomaly mode", "torch threads",
            "kernel threads", "seeds", "directory", "umask", "debug logging", "logging off", "gc always", "gc never", "no output", "decimal", "trace function"]


def outcome(f, w):
    """Digest of a result, or the kind of the refusal."""
    try:
        return world.digest(f(w))
    except Exception as e:
        return "refused: " + "/".join(c.__name__ for c in type(e).__mro__[:-1])


def more_ops(tensors=True):
    """Calls that could depend on iteration order, on assertions, on text encodings or on paths."""
    import gsply
    from gsply import GSData
    if tensors:
        import torch
        from gsply import GSTensor
    g = gsply

    def layers(names, w):
        s = w.a.copy()
        for i, x in enumerate(names):
            s.add_mask_layer(x, w.s["means"][:, i % 3] > i / 7 - 1)
        return s
    AB = ["b", "ä", "zeta", "x y", "alpha", "q1", "q2", "q3", "long name", "0"]

    def tlayers(names, w):
        t = w.t.clone()
        for i, x in enumerate(names):
            t.add_mask_layer(x, t.means[:, i % 3] > i / 7 - 1)
        return t

    def bad(w, call, **change):
        """call() on arrays one of which has an inconsistent shape."""
        v = {k: np.array(x) for k, x in w.s.items() if x is not None}
        for k, x in change.items():
            v[k] = x(v[k]) if callable(x) else x
        if not w.k:
            v.setdefault("shN", None)
            if v["shN"] is not None and v["shN"].shape[1:2] == (0,):
                v["shN"] = None
        p = w.out(".ply")
        world.put(p, b"old")
        try:
            return call(p, *[v[f] for f in ("means", "scales", "quats", "opacities", "sh0", "shN")])
        finally:
            with open(p, "rb") as f:
                assert_same(f.read(), b"old")

    def assert_same(a, b):
        if a != b:
            raise RuntimeError("an existing file was touched")
    grow = lambda x: np.concatenate([x, x[:1], np.zeros((1,) + x.shape[1:], x.dtype)])
    cut = lambda x: x[:, :-1]
    o = {
        "layers": lambda w: layers(AB, w),
        "layers_add": lambda w: layers(AB, w) + layers(AB[::-1], w),
        "layers_sum": lambda w: sum([layers(AB, w), layers(AB[3:] + AB[:3], w)]),
        "layers_other": lambda w: layers(AB[:5], w) + layers(AB[5:], w),
        "layers_index": lambda w: layers(AB, w)[::2],
        "layers_combine": lambda w: [layers(AB, w).combine_masks(m, layers=AB[2:6]) for m in ("and", "or")],
        "layers_remove": lambda w: rm(layers(AB, w)),
        "layers_to_tensor": lambda w: GSTensor.from_gsdata(layers(AB, w), device="cpu"),
        "tlayers_add": lambda w: tlayers(AB, w) + tlayers(AB[::-1], w),
        "tlayers_to": lambda w: tlayers(AB, w).to_gsdata(),
        "keys": lambda w: [list(w.a.to_dict()), [type(x).__name__ for x in w.a.unpack()]],
        "repr": lambda w: [len(w.a), w.a.get_sh_degree(), len(w.t)],
        "from_dict": lambda w: GSData.from_dict(w.a.to_dict(), format="ply"),
        "roundtrip_unicode": lambda w: unicode_file(w),
        "sog_unicode": lambda w: sog_unicode(w),
        "empty_grad": lambda w: GSTensor.from_gsdata(w.a, device="cpu", requires_grad=True).to_gsdata(),
        "bad_extension_missing": lambda w: g.plyread(os.path.join(w.dir, "missing.ply")),
        "bad_bytes": lambda w: g.decompress_from_bytes(w.pk[:-1] if w.n else b"ply\n"),
        "bad_garbage": lambda w: g.decompress_from_bytes(b"ply\n" * 40),
        "bad_sog": lambda w: g.sogread(w.sog[:len(w.sog) // 2]),
        "bad_index": lambda w: w.a[w.n + 3],
        "bad_list": lambda w: w.a[[0, w.n + 3]],
        "bad_mask": lambda w: w.a[np.ones(w.n + 1, bool)],
        "bad_tmask": lambda w: w.t[torch.ones(w.n + 1, dtype=torch.bool)],
        "bad_layer": lambda w: w.a.copy().add_mask_layer("z", np.ones(w.n + 2, bool)),
        "bad_name": lambda w: w.a.get_mask_layer("nowhere"),
        "bad_mode": lambda w: w.a.combine_masks("xor"),
        "bad_mix": lambda w: w.a + w.lin,
        "bad_cat": lambda w: GSData.concatenate([w.a, w.lin]),
        "bad_empty_cat": lambda w: GSData.concatenate([]),
        "bad_tmix": lambda w: w.t + w.t.denormalize(inplace=False),
        "bad_format": lambda w: GSData.from_arrays(*[w.s[f] for f in ("means", "scales", "quats", "opacities", "sh0")], format="nonsense"),
    }
    if True:
        for f in ("means", "scales", "quats", "opacities", "sh0", "shN"):
            for nm, call in (("write", lambda p, *v: g.plywrite(p, *v)), ("pack", lambda p, *v: g.plywrite(p[:-4] + ".compressed.ply", *v)), ("bytes", lambda p, *v: g.compress_to_bytes(*v)), ("arrays", lambda p, *v: g.compress_to_arrays(*v))):
                o[f"bad_rows_{f}_{nm}"] = lambda w, f=f, call=call: bad(w, call, **{f: grow}) if w.n and (f != "shN" or w.k) else None
                if f != "opacities":
                    o[f"bad_cols_{f}_{nm}"] = lambda w, f=f, call=call: bad(w, call, **{f: cut}) if w.n and f != "shN" else None

    def rm(s):
        s.remove_mask_layer("zeta")
        s.remove_mask_layer("0")
        return s

    def unicode_file(w):
        p = os.path.join(w.dir, "sc\u00e8ne \u6f22.ply") if sys.getfilesystemencoding().lower().replace("-", "") == "utf8" else os.path.join(w.dir, "scene.ply")
        g.plywrite(p, w.a)
        r = g.plyread(p)
        os.remove(p)
        return r

    def sog_unicode(w):
        from vf import sog
        import json
        m, T = sog.scene(np.random.default_rng(3), w.n, 1, 2)
        e = sog.files(m, T)
        d = json.loads(e["meta.json"])
        d["asset"] = {"title": "sc\u00e8ne \u6f22\u5b57"}
        e["meta.json"] = json.dumps(d, ensure_ascii=False).encode()
        import tempfile as tf
        return [g.sogread(sog.bundle(e)), g.sogread(sog.folder(e, tf.mkdtemp(dir=w.dir)))]
    return {x: f for x, f in o.items() if tensors or x not in world.TENSOR_OPS}
