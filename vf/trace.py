"""Observes every array access of every native kernel by running its Python body on tracing arrays next to the compiled call.

install() must be called before the code under test is imported. The compiled
kernel still produces the result; the traced run works on copies and only
reports: accesses outside an array, elements touched by two iterations of a
parallel loop with at least one write, reads of elements never written, and
results that depend on the order of iterations.
"""
import math, random, types
import numpy as np

LOG = {"accesses": 0, "iterations": 0, "calls": {}, "untraced": {}, "problems": [], "pranges": 0, "signatures": set()}
ON = {"v": False}
CUR = [None]          # the active Run


class Problem(Exception):
    pass


class Run:
    def __init__(self, name, order):
        self.name, self.order = name, order
        self.it = None                 # current parallel iteration
        self.writes, self.reads, self.alive, self.fresh = {}, {}, [], {}

    def problem(self, msg):
        raise Problem(f"{self.name}: {msg}")

    def on_read(self, addrs, what):
        LOG["accesses"] += len(addrs)
        if self.fresh:
            for lo, (hi, item, done, nm) in self.fresh.items():
                for a in addrs:
                    if lo <= a < hi and not done[(a - lo) // item]:
                        self.problem(f"reads element {(a - lo) // item} of a new array before anything was stored there")
        if self.it is None:
            return
        w, r, it = self.writes, self.reads, self.it
        for a in addrs:
            x = w.get(a, it)
            if x != it:
                self.problem(f"{what} is read by iteration {it} and written by iteration {x} of a parallel loop")
            y = r.get(a)
            if y is None:
                r[a] = it
            elif y != it:
                r[a] = -1

    def on_write(self, addrs, what):
        LOG["accesses"] += len(addrs)
        if self.fresh:
            for lo, (hi, item, done, nm) in self.fresh.items():
                for a in addrs:
                    if lo <= a < hi:
                        done[(a - lo) // item] = 1
        if self.it is None:
            return
        w, r, it = self.writes, self.reads, self.it
        for a in addrs:
            x = w.get(a, it)
            if x != it:
                self.problem(f"{what} is written by iterations {x} and {it} of a parallel loop")
            y = r.get(a, it)
            if y != it:
                self.problem(f"{what} is written by iteration {it} and read by {'others' if y == -1 else f'iteration {y}'} of a parallel loop")
            w[a] = it

    def new(self, arr, filled):
        self.alive.append(arr)
        lo = arr.__array_interface__["data"][0]
        if not filled and arr.size:
            self.fresh[lo] = (lo + arr.nbytes, arr.itemsize, bytearray(arr.size), arr.shape)
        return wrap(arr)


def wrap(a):
    t = a.view(Traced)
    return t


def addresses(a):
    base = a.__array_interface__["data"][0]
    if a.ndim == 0:
        return (base,)
    off = np.zeros(a.shape, np.int64)
    for d, s in enumerate(a.strides):
        sh = [1] * a.ndim
        sh[d] = a.shape[d]
        off = off + (np.arange(a.shape[d], dtype=np.int64) * s).reshape(sh)
    return (off.ravel() + base).tolist()


def plain_index(k):
    return isinstance(k, (int, np.integer)) and not isinstance(k, (bool, np.bool_))


class Traced(np.ndarray):
    def _locate(self, key):
        """address for an element key, or None"""
        ks = key if isinstance(key, tuple) else (key,)
        if len(ks) != self.ndim or not all(plain_index(k) for k in ks):
            for k, n in zip(ks, self.shape):
                if plain_index(k) and not -n <= k < n:
                    CUR[0].problem(f"index {tuple(map(str, ks))} is outside an array of shape {self.shape}")
            return None
        off = self.__array_interface__["data"][0]
        for k, n, s in zip(ks, self.shape, self.strides):
            k = int(k)
            if not -n <= k < n:
                CUR[0].problem(f"index {tuple(int(x) for x in ks)} is outside an array of shape {self.shape}")
            off += (k + n if k < 0 else k) * s
        return off

    def __getitem__(self, key):
        run = CUR[0]
        if run is None:
            return np.ndarray.__getitem__(self, key)
        at = self._locate(key)
        if at is None:
            key2 = key
            r = np.ndarray.__getitem__(self, key2)
            if isinstance(r, np.ndarray) and r.size and not np.shares_memory(r, self):
                base = np.ndarray.view(self, np.ndarray)
                run.on_read(addresses(base), "an element")
                run.alive.append(r)
            return r
        run.on_read((at,), f"element {key} of an array of shape {self.shape}")
        v = np.ndarray.__getitem__(self, key)
        return int(v) if self.dtype.kind in "iu" else bool(v) if self.dtype.kind == "b" else np.float64(v)

    def __setitem__(self, key, val):
        run = CUR[0]
        if run is None:
            return np.ndarray.__setitem__(self, key, val)
        at = self._locate(key)
        if at is None:
            tgt = np.ndarray.__getitem__(np.ndarray.view(self, np.ndarray), key)
            if isinstance(tgt, np.ndarray) and (tgt.size == 0 or np.shares_memory(tgt, self)):
                run.on_write(addresses(tgt), "an element")
            else:
                run.on_write(addresses(np.ndarray.view(self, np.ndarray)), "an element")
            if isinstance(val, Traced):
                run.on_read(addresses(np.ndarray.view(val, np.ndarray)), "an element")
                val = np.ndarray.view(val, np.ndarray)
            return np.ndarray.__setitem__(self, key, val)
        run.on_write((at,), f"element {key} of an array of shape {self.shape}")
        k = self.dtype.kind
        if k in "iu":
            bits = self.dtype.itemsize * 8
            if isinstance(val, (float, np.floating)):
                if not math.isfinite(val):
                    run.problem(f"stores {val} into an integer array")
                val = int(val)
            val = int(val) & ((1 << bits) - 1)
            if k == "i" and val >> (bits - 1):
                val -= 1 << bits
        with np.errstate(all="ignore"):
            np.ndarray.__setitem__(self, key, val)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        run = CUR[0]
        if run is not None:
            for x in inputs:
                if isinstance(x, Traced):
                    run.on_read(addresses(np.ndarray.view(x, np.ndarray)), "an element")
            for x in out or ():
                if isinstance(x, Traced):
                    run.on_write(addresses(np.ndarray.view(x, np.ndarray)), "an element")
        un = lambda x: np.ndarray.view(x, np.ndarray) if isinstance(x, Traced) else x
        o = tuple(un(x) for x in out) if out else None
        if o is not None:
            kw["out"] = o
        with np.errstate(all="ignore"):
            r = getattr(ufunc, method)(*[un(x) for x in inputs], **kw)
        if out:
            return out[0] if len(out) == 1 else out
        return run.new(r, True) if run is not None and isinstance(r, np.ndarray) else r


class Cast:
    """np.uint32 and friends as the compiled code means them: wrap-around conversion of a number, or a dtype."""

    def __init__(self, t):
        self.t = t
        self.dtype = np.dtype(t)

    def __call__(self, x=0):
        if isinstance(x, np.ndarray):
            return self.t(x)
        k, bits = self.dtype.kind, self.dtype.itemsize * 8
        if k == "f":
            return np.float64(self.t(x))
        if k not in "iu":
            return self.t(x)
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            CUR[0].problem(f"converts {x} to an integer")
        v = int(x) & ((1 << bits) - 1)
        return v - (1 << bits) if k == "i" and v >> (bits - 1) else v


def real_dtype(d):
    return d.dtype if isinstance(d, Cast) else d


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        v = getattr(np, n)
        if n in ("empty", "empty_like", "zeros", "zeros_like", "ones", "ones_like", "full", "full_like", "array", "arange", "copy", "ascontiguousarray"):
            def make(*a, **k):
                a = [np.ndarray.view(x, np.ndarray) if isinstance(x, Traced) else real_dtype(x) for x in a]
                k = {x: real_dtype(y) for x, y in k.items()}
                r = v(*a, **k)
                return CUR[0].new(r, not n.startswith("empty"))
            return make
        if isinstance(v, type) and issubclass(v, np.generic):
            return Cast(v)
        return v


def traced_prange(*a):
    run = CUR[0]
    rng = range(*[int(x) for x in a])
    if run is None or run.it is not None:
        yield from rng
        return
    LOG["pranges"] += 1
    order = list(rng)
    if run.order is not None:
        run.order.shuffle(order)
    run.writes, run.reads = {}, {}
    try:
        for i in order:
            run.it = i
            LOG["iterations"] += 1
            yield i
    finally:
        run.it = None


class Serial:
    def __call__(self, *a):
        return range(*[int(x) for x in a])


class NumbaProxy(types.ModuleType):
    def __init__(self, real, parallel):
        super().__init__("numba")
        self.__dict__["_real"], self.__dict__["prange"] = real, traced_prange if parallel else Serial()

    def __getattr__(self, n):
        if n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"):
            return Cast(getattr(np, n))
        return getattr(self._real, n)


class Kernel:
    """Stands for the compiled function in its module."""

    def __init__(self, real, f, parallel):
        self.__dict__.update(real=real, f=f, parallel=parallel, __name__=f.__name__, __doc__=f.__doc__, __wrapped__=f)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def python(self, top_parallel):
        import numba
        g = dict(self.f.__globals__)
        for k, v in list(g.items()):
            if v is np:
                g[k] = NumpyProxy()
            elif v is numba:
                g[k] = NumbaProxy(numba, top_parallel)
            elif v is REAL.get("prange") or v is numba.prange:
                g[k] = traced_prange if top_parallel else Serial()
            elif isinstance(v, Kernel) and v is not self:
                g[k] = (lambda vv: lambda *a, **kw: vv.python(top_parallel and vv.parallel)(*a, **kw))(v)
            elif isinstance(v, type) and issubclass(v, np.generic):
                g[k] = Cast(v)
        fn = types.FunctionType(self.f.__code__, g, self.f.__name__, self.f.__defaults__, self.f.__closure__)
        fn.__kwdefaults__ = self.f.__kwdefaults__
        return fn

    def trace(self, args, kw, order):
        def cp(x):
            if not isinstance(x, np.ndarray):
                return x
            return memo[id(x)]
        # keep aliasing between arguments: copy the owning buffers once
        memo, bufs = {}, []
        for x in list(args) + list(kw.values()):
            if isinstance(x, np.ndarray) and id(x) not in memo:
                y = None
                for o, c in bufs:
                    if x.size and o.size and np.shares_memory(o, x) and o.shape == x.shape and o.strides == x.strides and o.__array_interface__["data"][0] == x.__array_interface__["data"][0]:
                        y = c
                if y is None:
                    y = np.lib.stride_tricks.as_strided(*self.clone(x))
                bufs.append((x, y))
                memo[id(x)] = y
        run = Run(self.f.__name__, order)
        run.alive.append((memo, bufs))
        old = CUR[0]
        a = [wrap(cp(x)) if isinstance(x, np.ndarray) else x for x in args]
        k = {n: wrap(cp(x)) if isinstance(x, np.ndarray) else x for n, x in kw.items()}
        CUR[0] = run
        try:
            with np.errstate(all="ignore"):
                r = self.python(self.parallel)(*a, **k)
        finally:
            CUR[0] = old
        out = []
        for x in r if isinstance(r, tuple) else (r,):
            if isinstance(x, np.ndarray):
                lo = x.__array_interface__["data"][0]
                f = run.fresh.get(lo)
                if f and x.nbytes == f[0] - lo and not all(f[2]):
                    raise Problem(f"{run.name}: element {f[2].index(0)} of a returned array of shape {x.shape} is never written")
                out.append(np.array(np.ndarray.view(x, np.ndarray)))
            elif x is not None:
                out.append(np.asarray(x))
        return out + [np.array(y) for _, y in bufs]

    @staticmethod
    def clone(x):
        """A copy with the same shape and the same strides (arguments keep their layout)."""
        if x.size == 0 or any(s < 0 for s in x.strides):
            y = x.copy()
            return y, y.shape, y.strides
        span = sum((n - 1) * s for n, s in zip(x.shape, x.strides)) + x.itemsize
        buf = np.zeros(span, np.uint8)
        y = np.ndarray(x.shape, x.dtype, buf, 0, x.strides) if x.ndim else x.copy()
        y[...] = x
        return y, y.shape, y.strides

    def __call__(self, *args, **kw):
        if ON["v"] and CUR[0] is None:
            nm = self.f.__name__
            try:
                try:
                    one = self.trace(args, kw, None)
                    two = self.trace(args, kw, random.Random(7))
                except Problem:
                    raise
                except (ZeroDivisionError, OverflowError, TypeError, AttributeError, NotImplementedError, ValueError, KeyError, IndexError, NameError) as e:
                    LOG["untraced"][nm] = f"{type(e).__name__}: {e}"[:200]
                else:
                    LOG["calls"][nm] = LOG["calls"].get(nm, 0) + 1
                    LOG["signatures"].add(nm + "|" + ",".join(f"{x.dtype}{tuple(min(s, 600) for s in x.shape)}" for x in args if isinstance(x, np.ndarray)))
                    for x, y in zip(one, two):
                        if x.shape != y.shape or not np.allclose(x.astype(np.float64), y.astype(np.float64), rtol=1e-5, atol=1e-6, equal_nan=True):
                            raise Problem(f"{nm}: the result depends on the order in which the iterations of a parallel loop run")
            except Problem as e:
                LOG["problems"].append(str(e))
        return self.real(*args, **kw)


REAL = {}


def install():
    import numba
    from numba.extending import typeof_impl
    from numba.core import types as nt
    REAL.update(jit=numba.jit, njit=numba.njit, prange=numba.prange)

    @typeof_impl.register(Kernel)
    def _(val, c):
        return nt.Dispatcher(val.real)

    def make(kind):
        real = REAL[kind]

        def deco(*a, **kw):
            if len(a) == 1 and callable(a[0]) and not kw and hasattr(a[0], "__code__"):
                return Kernel(real(a[0]), a[0], False)
            d = real(*a, **kw)
            return lambda f: Kernel(d(f), f, bool(kw.get("parallel")))
        return deco
    numba.jit, numba.njit = make("jit"), make("njit")
