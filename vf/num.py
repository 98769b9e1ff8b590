"""Float workloads: values over the whole float range."""
import numpy as np


def floats(rng, n, style=None, dtype=np.float32):
    style = style or str(rng.choice(["moderate", "bits", "exponents", "special", "near"]))
    if style == "moderate":
        return (rng.standard_normal(n) * rng.choice([1e-3, .1, 1, 5, 30])).astype(dtype), style
    if style == "bits":
        u = rng.integers(0, 2**32, n, dtype=np.uint64).astype(np.uint32)
        x = u.view(np.float32).copy()
        x[~np.isfinite(x)] = 1.5
        return x.astype(dtype), style
    if style == "exponents":
        e = np.arange(n) % 278 - 149
        return (np.ldexp(1 + rng.random(n), e) * rng.choice([-1, 1], n)).clip(-3.4e38, 3.4e38).astype(np.float32).astype(dtype), style
    if style == "near":
        c = rng.choice(np.array([0, 1, .5, 1e-4, 1 - 1e-4, 1e-6, 1 - 1e-6, 100, 1e-9, 88.7, -88.7, -103.9, 16.6, -16.6, 9.21, -9.21, -20.7, 4.605]), n)
        x = c.astype(np.float32)
        k = rng.integers(-3, 4, n)
        y = x.view(np.int32) + np.where(x == 0, np.abs(k), k).astype(np.int32)
        return y.view(np.float32).copy().astype(dtype), style
    s = np.array([0.0, -0.0, 1.0, -1.0, .5, 1e-45, -1e-45, 1.1754944e-38, 3.4028235e38, -3.4028235e38, 88.72283, 88.8, -87.4, -103.98, -104, 17, -17, 1e-4, 100, 1e-9, 4.6051702, -9.2103404,
                  1 - 6e-8, 1 + 1.2e-7, 0.9999, 1e-4, 1e-6, 0.999999, 10, -10, 50, -50, 1e10, -1e10], np.float64)
    return rng.choice(s, n).astype(np.float32).astype(dtype), style


def shape_of(rng, n):
    """Some shape with about n elements."""
    u = int(rng.integers(5))
    if u == 0 or n == 0:
        return (n,)
    if u == 1:
        return (max(1, n // 3), 3)
    if u == 2:
        return (1, n)
    if u == 3:
        return (n, 1)
    return (max(1, n // 12), 4, 3)
