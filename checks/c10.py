"""Sampling a production function: expected number, limits, laws, equivalence of requests, rejection."""

import itertools

import numpy as np
from cratermaker import Production

from mc.scripted import ONE, CountingRNG, LatticeRNG, explore, fair

BOUNDS = {
    "quick": "5 settings x 4 spans x 5 diameter ranges x area 1e9: every answer sequence with 1 deviation (2 for one span and range per setting) (0..3 craters, 5 quantiles per draw); quantile lattices of 5,000 points; 4 x 5 ways to state the span x 3 unit settings",
    "thorough": "2 deviations everywhere x 3 areas, quantile lattices of 50,000 points x 3 orders",
}
NOTE = "Oracle: the production function itself (decided by C09) and the documented contract of sampling."
SETTINGS = [("neukum", {"version": "Moon"}), ("neukum", {"version": "Mars"}), ("neukum", {"version": "Projectile"}), ("powerlaw", {}), ("powerlaw", {"generator_type": "projectile"})]
SPANS = [(1000.0, 0.0), (4500.0, 3900.0), (10.0, 9.5), (1e-3, 0.0)]
RANGES = [(1e3, 1e5), (10.0, 1e6), (1e4, 1.001e4), (0.5, 5.0), (2e5, 2e6)]


def make(s, rng, **kw):
    return Production.maker(s[0], **s[1], rng=rng, **kw)


def close(a, b, t=1e-9):
    return abs(a - b) <= t * max(abs(a), abs(b))


def verify(chk, d, t, span, rng, n=None, timed=True):
    chk.expect(isinstance(d, np.ndarray) and isinstance(t, np.ndarray), lambda: f"{type(d)}, {type(t)}")
    if n is not None:
        chk.expect(d.shape == (n,), lambda: f"{n} craters drawn, {d.shape} returned")
    chk.expect(t.shape == (d.shape if timed else (0,)), lambda: f"{d.shape} diameters, {t.shape} times")
    chk.expect(np.all(np.isfinite(d)) and np.all(d >= rng[0] * (1 - 1e-12)) and np.all(d <= rng[1] * (1 + 2e-8)), lambda: f"diameters {d} outside {rng}")
    if timed:
        chk.expect(np.all(np.isfinite(t)) and np.all(t <= span[0] * (1 + 1e-12)) and np.all(t >= span[1] * (1 - 1e-12)), lambda: f"times {t} outside {span}")
        chk.expect(np.all(np.diff(t) <= 0), lambda: f"times are not sorted from old to young: {t}")


def part_draws(chk):
    """every answer of the generator up to the deviation bound, for every setting, span, range and area"""

    deep = (SPANS[1], RANGES[0])

    def case(s, span, dr, area):
        def f():
            ref = make(s, np.random.default_rng(1))
            mu = float(ref.function(dr[0], span[0], span[1])) * area

            def run(rng):
                p = make(s, rng)
                d, t = p.sample(time_start=span[0], time_end=span[1], diameter_range=dr, area=area)
                chk.execd(), chk.trans(len(rng.points))
                chk.expect(close(sum(rng.lam), mu, 1e-9), lambda: f"expected number {sum(rng.lam)}, production at the smallest diameter times area is {mu}")
                n = rng.p_menu[rng.choices[0]] if rng.points and rng.points[0][0] == "p" else None
                verify(chk, d, t, span, dr, n)
                chk.state(s, span, dr, d.size, np.round(np.log(d), 6), np.round(t, 6))
                chk.outcome(f"{d.size} craters")

            explore(run, lambda sc: CountingRNG(sc, u_menu=(0.5, 0.0, ONE, 0.1, 0.9), p_menu=(2, 0, 1, 3), default=fair), max_dev=2 if chk.thorough or (span, dr) == deep else 1, max_points=12)

        return f

    for s in SETTINGS:
        for span in SPANS:
            for dr in RANGES:
                for area in (1.0, 1e9, 3.8e13) if chk.thorough else (1e9,):
                    yield f"{s} {span} {dr} {area:g}", case(s, span, dr, area)


def part_law(chk):
    """quantile lattices: the sampled sizes follow the cumulative production, the times its rate; the number is the expected one"""
    n = 50000 if chk.thorough else 5000

    def case(s, span, dr, seed):
        def f():
            ref = make(s, np.random.default_rng(1))
            F = lambda d: np.asarray(ref.function(np.atleast_1d(d), span[0], span[1]), dtype=float)  # noqa: E731
            area = n / float(F(dr[0])[0])
            rng = LatticeRNG(seed)
            p = make(s, rng)
            d, t = p.sample(time_start=span[0], time_end=span[1], diameter_range=dr, area=area)
            chk.execd(), chk.trans(len(d))
            verify(chk, d, t, span, dr, n)
            lo, hi = F([dr[0], dr[1]])
            ds = np.sort(d)[:: n // 500]
            w = (F(ds) - hi) / (lo - hi)  # fraction larger than d
            e = 1.0 - (np.arange(n) + 0.5)[:: n // 500] / n
            k = int(np.argmax(np.abs(w - e)))
            tol = 4e-2 if dr[1] > 1e6 else 5e-3 if dr[1] / dr[0] < 1e3 else 2e-2  # the law is interpolated between 50 sizes, with a kink at the end of the published range
            chk.expect(abs(w[k] - e[k]) < tol, lambda: f"fraction larger than {ds[k]}: sampled {e[k]}, production {w[k]}")
            a, b = float(ref.function(1000.0, span[0])), float(ref.function(1000.0, span[1])) if span[1] > 0 else 0.0
            ts = np.sort(t)
            c = (np.asarray([float(ref.function(1000.0, max(x, 1e-12))) for x in ts[:: n // 500]]) - b) / (a - b)
            q = (np.arange(n) + 0.5)[:: n // 500] / n
            k = int(np.argmax(np.abs(c - q)))
            chk.expect(abs(c[k] - q[k]) < 1.5e-2, lambda: f"fraction of craters younger than {ts[:: n // 500][k]} My: sampled {q[k]}, production {c[k]}")
            chk.state(s, span, dr, seed)

        return f

    for s in SETTINGS:
        for span in SPANS:
            for dr in RANGES:
                for seed in (1, 2, 3) if chk.thorough else (1,):
                    yield f"{s} {span} {dr} {seed}", case(s, span, dr, seed)


def part_requests(chk):
    """every way to state the start and the end of the span, in every unit setting, gives the same sample as plain times"""

    def case(s, units, sf, ef, span, area):
        def f():
            DC, NC = units
            kw = {"D_conversion_factor": DC, "N_conversion_factor": NC}
            ref = make(s, np.random.default_rng(1), **kw)
            N = lambda D, t: float(ref.function(D, t)) if t > 0 else 0.0  # noqa: E731
            t1, t0 = span
            start = {
                "time": {"time_start": t1}, "age": {"age": t1},
                "N_D": {"N_D": (3000.0 / DC, N(3000.0, t1) * NC)}, "number": {"diameter_number": (3000.0, N(3000.0, t1) * area)},
            }[sf]
            end = {
                "none": {}, "time": {"time_end": t0}, "N_D": {"N_D_end": (500.0 / DC, N(500.0, t0) * NC)},
                "number": {"diameter_number_end": (1000.0, N(1000.0, t0) * area)}, "number2": {"diameter_number_end": (250.0, N(250.0, t0) * area)},
                "number3": {"diameter_number_end": (3000.0, N(3000.0, t0) * area)},
            }[ef]
            if ef == "none":
                t0 = 0.0
            for script in ((0,), (1,), (2, 1, 2, 0, 3), (0, 3, 3, 3, 3)):
                r1, r2 = (CountingRNG(script, p_menu=(2, 0, 1, 3), default=fair, u_menu=(0.5, 0.2, 0.8, 0.4, 0.6)) for _ in range(2))
                want = make(s, r1, **kw).sample(time_start=t1, time_end=t0, diameter_range=(900.0, 5e4), area=area)
                got = make(s, r2, **kw).sample(**start, **end, diameter_range=(900.0, 5e4), area=area)
                chk.execd(2), chk.trans(2)
                chk.expect(close(sum(r1.lam), sum(r2.lam), 1e-5), lambda: f"expected number {sum(r2.lam)}, as times {sum(r1.lam)}")
                chk.expect(got[0].shape == want[0].shape and np.allclose(got[0], want[0], rtol=1e-6) and np.allclose(got[1], want[1], rtol=1e-5, atol=1e-4), lambda: f"{got} instead of {want}")
                verify(chk, *got, (t1 * (1 + 1e-6), t0 * (1 - 1e-6)), (900.0, 5e4))
            chk.state(s, units, sf, ef, span)

        return f

    for s in SETTINGS:
        for units in ((None, None), (1.0, 1.0), (1000.0, 1e6), (1.0, 1e12)):
            for sf, ef in itertools.product(("time", "age", "N_D", "number"), ("none", "time", "N_D", "number", "number2", "number3")):
                for span in ((3000.0, 700.0), (50.0, 1.0)):
                    u = (units[0] or 1000.0, units[1] or 1e12)
                    yield f"{s} units={units} {sf}..{ef} {span}", case(s, u, sf, ef, span, 2.5e11)


def part_options(chk):
    """defaults: range of the production function, unit area, no times; determinism and independence of the global generator"""

    def case(s):
        def f():
            dr = (2e3, 7e4)
            p = make(s, CountingRNG((3,), p_menu=(2, 0, 1, 3), default=fair), diameter_range=dr)
            d, t = p.sample(time_start=1000.0, area=1e10)
            verify(chk, d, t, (1000.0, 0.0), dr, 3)
            p = make(s, CountingRNG((3,), p_menu=(2, 0, 1, 3), default=fair), diameter_range=dr)
            d, t = p.sample(time_start=1000.0, area=1e10, diameter_range=(10.0, 20.0))
            verify(chk, d, t, (1000.0, 0.0), (10.0, 20.0), 3)
            r = CountingRNG((2,), p_menu=(2, 0, 1, 3), default=fair)
            d, t = make(s, r).sample(time_start=1000.0, diameter_range=dr)
            chk.expect(close(sum(r.lam), float(p.function(dr[0], 1000.0)) * 1.0, 1e-9), lambda: f"without an area the expected number is {r.lam}")
            r = CountingRNG((3,), p_menu=(2, 0, 1, 3), default=fair)
            d, t = make(s, r).sample(time_start=1000.0, diameter_range=dr, area=1e9, compute_time=False)
            verify(chk, d, t, (1000.0, 0.0), dr, 3, timed=False)
            out = []
            for k in range(2):
                np.random.seed(k)
                g0 = np.random.get_state()[1].copy()
                out.append(make(s, np.random.default_rng(5)).sample(time_start=3900.0, time_end=10.0, diameter_range=(100.0, 1e5), area=1e8))
                chk.expect(np.array_equal(g0, np.random.get_state()[1]), "the global generator was used")
            chk.expect(np.array_equal(out[0][0], out[1][0]) and np.array_equal(out[0][1], out[1][1]), "equal generators, different samples")
            other = make(s, np.random.default_rng(6)).sample(time_start=3900.0, time_end=10.0, diameter_range=(100.0, 1e5), area=1e8)
            chk.expect(not np.array_equal(other[0][:5], out[0][0][:5]), "the sample does not depend on the generator")
            chk.execd(7), chk.trans(7)
            for D in ([], [5e3], [5e3, 1e3, 2e4], np.array([10.0, 1e6])):
                for span in SPANS:
                    tt = np.asarray(make(s, LatticeRNG()).compute_time(np.array(D), span[0], span[1]))
                    chk.execd(), chk.trans()
                    chk.expect(tt.shape == (len(D),) and np.all(tt <= span[0] * (1 + 1e-12)) and np.all(tt >= span[1] * (1 - 1e-12)) and np.all(np.diff(tt) <= 0), lambda: f"compute_time({D}, {span}) = {tt}")
            chk.state(s)

        return f

    for s in SETTINGS:
        yield f"{s}", case(s)


GOOD = {"time_start": 1000.0, "diameter_range": (1e3, 1e5), "area": 1e9}
BAD = [
    {"time_start": None}, {"diameter_number": (1000.0, 5.0)}, {"N_D": (1.0, 100.0)}, {"time_start": None, "N_D": (1.0, 100.0), "diameter_number": (1000.0, 5.0)}, {"age": 500.0, "N_D": (1.0, 100.0)},
    {"time_end": 10.0, "diameter_number_end": (1000.0, 0.1)}, {"time_end": 10.0, "N_D_end": (1.0, 0.1)}, {"time_start": [1000.0]}, {"time_end": [10.0]}, {"time_end": 2000.0}, {"time_start": "x"},
    {"time_start": None, "diameter_number": (1000.0,)}, {"time_start": None, "diameter_number": (1000.0, -1.0)}, {"time_start": None, "diameter_number": (-1000.0, 1.0)}, {"time_start": None, "diameter_number": (1.0, 2.0, 3.0)},
    {"diameter_number_end": (1000.0, -1.0)}, {"diameter_number_end": (1000.0,)}, {"diameter_number_end": (-5.0, 1.0)}, {"diameter_range": (1e3,)}, {"diameter_range": (1e3, 1e4, 1e5)}, {"diameter_range": (0.0, 1e5)},
    {"diameter_range": (-1.0, 1e5)}, {"diameter_range": (1e5, 1e3)}, {"diameter_range": (1e3, 1e3)}, {"diameter_range": None}, {"area": -1.0}, {"area": [1.0]}, {"compute_time": 1}, {"compute_time": "no"},
    {"time_start": None, "N_D": (1.0, -3.0)}, {"time_start": None, "N_D": (1.0, 2.0, 3.0)}, {"N_D_end": (1.0, 2.0, 3.0)}, {"N_D_end": (1.0, -2.0)},
]


def part_reject(chk):
    """every kind of contradictory or invalid request is rejected without consuming randomness"""

    def case(s, b):
        def f():
            rng = CountingRNG((), default=fair)
            p = make(s, rng)
            chk.execd(), chk.trans()
            kw = {k: v for k, v in {**GOOD, **b}.items() if v is not None}
            try:
                r = p.sample(**kw)
            except (ValueError, TypeError):
                chk.expect(not rng.points, "randomness was consumed before the request was rejected")
                chk.outcome("rejected")
                return
            chk.fail(f"accepted: {kw} -> {r}")

        return f

    for s in SETTINGS:
        for b in BAD + ([{"time_start": 4600.0}, {"time_end": -1.0}] if s[0] == "neukum" else []):
            yield f"{s} {b}", case(s, b)

    def setters():
        p = make(SETTINGS[0], np.random.default_rng(1))
        for k, v in (("D_conversion_factor", 3.0), ("N_conversion_factor", 2.0), ("diameter_range", (1.0,)), ("generator_type", "crater")):
            chk.execd(), chk.trans()
            try:
                setattr(p, k, v)
            except (ValueError, TypeError, NotImplementedError):
                continue
            chk.fail(f"{k}={v} accepted")

    yield "setters", setters


PARTS = [("draws", part_draws), ("law", part_law), ("requests", part_requests), ("options", part_options), ("reject", part_reject)]
