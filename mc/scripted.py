"""A numpy Generator whose answers are chosen by the explorer, and exhaustive enumeration of its answers."""

import numpy as np
from scipy.special import ndtri

ONE = 1.0 - 2.0**-53
U_MENU = (0.5, 0.0, ONE, 0.1, 0.9)
P_MENU = (1, 0, 2)


class ReplayDivergence(RuntimeError):
    pass


class ScriptedRNG(np.random.Generator):
    """Every scalar draw is one decision point: an index into a small menu of quantiles (or counts)."""

    def __init__(self, script=(), u_menu=U_MENU, p_menu=P_MENU, default=None):
        super().__init__(np.random.PCG64(12345))
        self.script = list(script)
        self.u_menu = u_menu
        self.p_menu = p_menu
        self.default = default  # callable(i, kind, n) -> index, used past the end of the script
        self.points = []  # (kind, number of alternatives)
        self.choices = []

    def __reduce__(self):
        raise TypeError("scripted generators are not copied")

    def decide(self, kind, n):
        i = len(self.points)
        self.points.append((kind, n))
        if i < len(self.script):
            c = self.script[i]
            if not 0 <= c < n:
                raise ReplayDivergence(f"decision {i} has {n} alternatives, script says {c}")
        else:
            c = self.default(i, kind, n) if self.default else 0
        self.choices.append(c)
        return c

    # -- scalars
    def _u(self):
        return self.u_menu[self.decide("u", len(self.u_menu))]

    def _arr(self, f, size):
        if size is None:
            return f()
        out = np.empty(size)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = f()
        return out

    def random(self, size=None, dtype=np.float64, out=None):
        return self._arr(self._u, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        u = self._arr(self._u, size)
        return low + (high - low) * u

    def _z(self):
        u = self._u()
        return float(ndtri(min(max(u, 1e-6), 1 - 1e-6)))

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._arr(self._z, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.standard_normal(size)

    def exponential(self, scale=1.0, size=None):
        return scale * -np.log1p(-self._arr(self._u, size))

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))

    def poisson(self, lam=1.0, size=None):
        lam_a = np.broadcast_to(lam, size) if size is not None else np.asarray(lam)
        out = np.empty(lam_a.shape, dtype=np.int64)
        flat, lf = out.reshape(-1), np.asarray(lam_a, dtype=float).reshape(-1)
        if np.any(lf < 0) or np.any(np.isnan(lf)):
            raise ValueError("lam < 0 or lam contains NaNs")
        for i in range(flat.size):
            flat[i] = 0 if lf[i] == 0 else self.p_menu[self.decide("p", len(self.p_menu))]
        return int(out) if out.ndim == 0 else out

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = high if endpoint else high - 1
        if hi < low:
            raise ValueError("low >= high")
        menu = sorted({int(low), int(hi), int((low + hi) // 2)})

        def f():
            return menu[self.decide("i", len(menu))]

        if size is None:
            return np.dtype(dtype).type(f())
        return self._arr(f, size).astype(dtype)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if np.ndim(a) == 0 and isinstance(a, (int, np.integer)) else np.asarray(a, dtype=None)
        ok = list(range(len(arr))) if p is None else [i for i in range(len(arr)) if p[i] > 0]
        if not ok:
            raise ValueError("a cannot be empty")
        if size is None:
            return arr[ok[self.decide("c", len(ok))]]
        n = int(np.prod(size))
        if replace:
            idx = [ok[self.decide("c", len(ok))] for _ in range(n)]
        else:
            left, idx = list(ok), []
            for _ in range(n):
                idx.append(left.pop(self.decide("c", len(left))))
        return arr[np.array(idx, dtype=int)].reshape(size)

    def permutation(self, x, axis=0):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        left, idx = list(range(len(arr))), []
        while left:
            idx.append(left.pop(self.decide("c", len(left)) if len(left) > 1 else 0))
        return arr[idx]

    def shuffle(self, x, axis=0):
        x[:] = self.permutation(x)


def fair(i, kind, n):
    """A fixed, aperiodic answer past the enumerated decisions, so that rejection loops end; the first ones are defaults."""
    if i < 12:
        return 0
    x = (i * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & 0xFFFFFFFFFFFFFFFF
    x ^= x >> 31
    x = (x * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    return (x >> 33) % n


def explore(run, make, max_dev=2, max_points=40, max_runs=200000):
    """Deviation-bounded exhaustive exploration: every answer sequence with at most max_dev non-default answers.

    ``make(script)`` builds a ScriptedRNG, ``run(rng)`` executes one complete run and checks it. Yields nothing;
    returns (runs, decision points visited).
    """
    stack = [((), 0)]
    runs = points = 0
    while stack:
        script, dev = stack.pop()
        rng = make(script)
        run(rng)
        runs += 1
        points += len(rng.points)
        if rng.choices[: len(script)] != list(script):
            raise ReplayDivergence("prefix not replayed")
        if runs >= max_runs:
            raise RuntimeError("exploration bound exceeded")
        if dev >= max_dev:
            continue
        for i in range(len(script), min(len(rng.points), max_points)):
            for alt in range(1, rng.points[i][1]):
                stack.append((tuple(rng.choices[:i]) + (alt,), dev + 1))
    return runs, points


def lattice(n):
    """Midpoints of n equal-probability cells."""
    return tuple((i + 0.5) / n for i in range(n))


class LatticeRNG(np.random.Generator):
    """Array draws return every quantile of an n-point lattice once (n = number of values drawn); counts return their mean.

    The empirical distribution of anything derived from one such draw is its exact law to a resolution of 1/n.
    """

    def __init__(self, seed=0):
        super().__init__(np.random.PCG64(seed))
        self.perm = np.random.default_rng(seed)
        self.lam = []
        self.k = 0

    def _l(self, size):
        if size is None:
            self.k += 1
            return (0.5 + self.k * 0.6180339887498949) % 1.0
        n = int(np.prod(size))
        return self.perm.permutation((np.arange(n) + 0.5) / max(n, 1)).reshape(size)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._l(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (high - low) * self._l(size)

    def poisson(self, lam=1.0, size=None):
        self.lam.append(np.sum(lam))
        r = np.round(np.asarray(lam if size is None else np.broadcast_to(lam, size))).astype(np.int64)
        return int(r) if r.ndim == 0 else r


class CountingRNG(ScriptedRNG):
    """A scripted generator that also records the mean of every Poisson draw."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.lam = []

    def poisson(self, lam=1.0, size=None):
        self.lam.append(float(np.sum(lam)))
        return super().poisson(lam, size)
