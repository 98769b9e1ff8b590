"""Execution guards: step budget, memory limit, bounds-checked serial kernels."""
import os, resource, sys

STATE = {"left": None, "steps": 0}


class StepBudget(BaseException):
    pass


def install_step_counter(root=None):
    """Counts branches and jumps executed by the code under test; raises StepBudget when a set budget is used up."""
    root = os.path.realpath(root or os.path.join(os.environ.get("VF_REPO", "/repo"), "src")) + os.sep
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "vf-steps")
    cache = {}

    def ours(code):
        v = cache.get(code)
        if v is None:
            v = cache[code] = os.path.realpath(code.co_filename).startswith(root)
        return v

    def hit(code, *a):
        if not ours(code):
            return mon.DISABLE
        STATE["steps"] += 1
        if STATE["left"] is not None:
            STATE["left"] -= 1
            if STATE["left"] < 0:
                STATE["left"] = None
                raise StepBudget(f"in {code.co_filename}:{code.co_name}")
    for ev in (mon.events.JUMP, mon.events.BRANCH):
        mon.register_callback(tool, ev, hit)
    mon.set_events(tool, mon.events.JUMP | mon.events.BRANCH)


class steps:
    """with steps(budget): ...   raises StepBudget inside the block when it is used up."""

    def __init__(self, budget):
        self.budget = budget

    def __enter__(self):
        self.s0 = STATE["steps"]
        STATE["left"] = self.budget
        return self

    def __exit__(self, *a):
        STATE["left"] = None
        self.used = STATE["steps"] - self.s0


def limit_memory(extra):
    """From now on at most `extra` more bytes of address space."""
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
    resource.setrlimit(resource.RLIMIT_AS, (now + extra, resource.RLIM_INFINITY))


def bounds_checked_kernels():
    """Call before importing the code under test: kernels are compiled serially with bounds checks."""
    import numba
    for name in ("jit", "njit"):
        real = getattr(numba, name)

        def wrap(*a, _real=real, **kw):
            for x in ("parallel", "cache"):
                kw.pop(x, None)
            kw["boundscheck"] = True
            kw.setdefault("nopython", True) if _real is numba_real["jit"] else None
            if a and callable(a[0]) and len(a) == 1:
                return _real(**kw)(a[0])
            return _real(*a, **kw)
        numba_real.setdefault(name, real)
        setattr(numba, name, wrap)
    if hasattr(numba, "prange"):
        pass


numba_real = {}
