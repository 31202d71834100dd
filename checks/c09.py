"""Production functions: shape, monotonicity, additivity, inverses, input forms, rejection, histories of changes."""

import itertools

import numpy as np
from cratermaker import Production
from scipy.integrate import quad

from mc import core

BOUNDS = {
    "quick": "7 model/version settings x 61 diameters over 1 cm..10,000 km x 12 times (all ordered pairs and triples); inverses on 31 diameters x 8 ages; all histories of 3 changes/evaluations",
    "thorough": "181 diameters x 20 times; inverses on 91 x 14; histories of 4",
}
NOTE = "Oracle: published polynomial coefficients and chronology, closed-form power law, algebraic laws."

COEF = {
    "Moon": [-3.0876, -3.557528, 0.781027, 1.021521, -0.156012, -0.444058, 0.019977, 0.086850, -0.005874, -0.006809, 8.25e-4, 5.54e-5],
    "Mars": [-3.384, -3.197, 1.257, 0.7915, -0.4861, -0.3630, 0.1016, 6.756e-2, -1.181e-2, -4.753e-3, 6.233e-4, 5.805e-5],
    "Projectile": [0, 1.375458, 1.272521e-1, -1.282166, -3.074558e-1, 4.149280e-1, 1.910668e-1, -4.260980e-2, -3.976305e-2, -3.180179e-3, 2.799369e-3, 6.892223e-4, 2.614385e-6, -1.416178e-5, -1.191124e-6],
}
RANGE = {"Moon": (10.0, 1e6), "Mars": (15.0, 362e3), "Projectile": (0.1, 200e3)}
SETTINGS = [
    ("neukum", {"version": "Moon"}), ("neukum", {"version": "Mars"}), ("neukum", {"version": "Projectile"}),
    ("powerlaw", {}), ("powerlaw", {"generator_type": "projectile"}), ("powerlaw", {"N1_coef": 2e-5, "slope": -1.8}), ("powerlaw", {"N1_coef": 1e-9, "slope": 3.1}),
]
DEFAULT_PL = {"crater": (7.883e-3, -3.328), "projectile": (7.989e-7, -2.634)}


def make(s):
    return Production.maker(s[0], **s[1])


def chron(s, t):
    """Accumulated production up to time t, relative to 1 Gy."""
    if s[0] == "powerlaw":
        return t / 1000.0
    f = lambda x: 5.44e-14 * (np.exp(6.93 * x * 1e-3) - 1.0) + 10**-3.0876 * x * 1e-3  # noqa: E731
    return f(t) / f(1000.0)


def pl(s):
    d = DEFAULT_PL[s[1].get("generator_type", "crater")]
    return s[1].get("N1_coef", d[0]), -abs(s[1].get("slope", d[1]))


def poly(c, Dkm):
    x = np.log10(Dkm)
    return 10 ** sum(a * x**i for i, a in enumerate(c))


def shape(s, D):
    """Production relative to 1 km, and a tolerance; None outside the published range."""
    if s[0] == "powerlaw":
        return (D / 1000.0) ** pl(s)[1], 1e-9
    v = s[1]["version"]
    if not RANGE[v][0] <= D <= RANGE[v][1]:
        return None
    if v != "Projectile":
        return poly(COEF[v], D / 1e3) / poly(COEF[v], 1.0), 1e-8
    if D > 0.3 * RANGE[v][1]:
        return None  # the integral is dominated by the unpublished end of the range
    g = lambda y: poly(COEF[v], np.exp(y)) * np.exp(-2 * y)  # noqa: E731  (R/D^3 dD in log D)
    top = np.log(RANGE[v][1] / 1e3)
    return quad(g, np.log(D / 1e3), top, limit=200)[0] / quad(g, 0.0, top, limit=200)[0], 0.12  # the code integrates in bins of a factor sqrt(2)


def close(a, b, t=1e-9):
    return abs(a - b) <= t * max(abs(a), abs(b))


def diams(chk, n=None):
    return [float(x) for x in np.geomspace(1e-2, 1e7, n or (181 if chk.thorough else 61))]


def times(chk):
    t = [0.0, 1e-3, 1.0, 10.0, 100.0, 500.0, 1000.0, 2500.0, 3500.0, 3800.0, 4200.0, 4500.0]
    return t if not chk.thorough else sorted(t + [1e-6, 50.0, 250.0, 3000.0, 3650.0, 4000.0, 4400.0, 4499.9])


def part_law(chk):
    """every setting x diameter x ordered pair of times: published shape, chronology, monotone, continuous, additive"""

    def case(si, block):
        def f():
            s = SETTINGS[si]
            p = make(s)
            T = times(chk)
            ref = float(p.function(1000.0, 1000.0))
            if s[0] == "powerlaw":
                n1, sl = pl(s)
                chk.expect(close(ref, n1 * 1000.0**sl * 1000.0), f"production {ref} at 1 km and 1 Gy, expected {n1 * 1000.0**sl * 1000}")
            else:
                pub = {"Moon": 8.38e-10, "Mars": 4.13e-10}.get(s[1]["version"])
                chk.expect(pub is None or pub / 3 < ref < pub * 3, f"production {ref} at 1 km and 1 Gy is far from the published {pub}")
            rng = RANGE.get(s[1].get("version"), (1.0, 1e6))
            D = sorted(set(diams(chk)) | {float(x) for e in rng for x in (e, e * (1 - 1e-9), e * (1 + 1e-9), e * 0.5, e * 2)})
            D = D[block::8]
            prev = None
            for d in D:
                F = {}
                for t1, t0 in itertools.product(T, T):
                    if t1 < t0:
                        continue
                    chk.execd(), chk.trans()
                    n = float(p.function(d, t1, t0))
                    F[t1, t0] = n
                    chk.expect(np.isfinite(n) and n >= 0, lambda: f"N({d}, {t1}..{t0}) = {n}")
                    w = float(p.function(d, 1000.0)) * (chron(s, t1) - chron(s, t0))
                    chk.expect(abs(n - w) <= 1e-8 * max(abs(w), n) + 1e-14 * float(p.function(d, t1)), lambda: f"N({d}, {t1}..{t0}) = {n}, the chronology gives {w}")
                    chk.expect(t1 == t0 or n > 0, lambda: f"no production between {t1} and {t0}")
                    if t0 == 0.0:
                        chk.expect(float(p.function(d, t1)) == n and float(p.function(d, age=t1)) == n, "end time 0, no end time and age differ")
                for t2, t1, t0 in itertools.combinations(sorted(T, reverse=True), 3):
                    a, b, c = F[t2, t1], F[t1, t0], F[t2, t0]
                    chk.expect(abs(a + b - c) <= 1e-12 * F[t2, 0.0], lambda: f"N({t2}..{t1}) + N({t1}..{t0}) = {a + b}, but N({t2}..{t0}) = {c}")
                    chk.expect(c > a and c > b, lambda: f"a longer span produces less: {a, b, c}")
                sh = shape(s, d)
                if sh is not None:
                    r = F[1000.0, 0.0] / ref
                    chk.expect(close(r, sh[0], sh[1]), lambda: f"N({d})/N(1 km) = {r}, published {sh[0]}")
                chk.state(si, round(np.log10(d), 9))
                if prev is not None:
                    chk.expect(F[1000.0, 0.0] < prev[1], lambda: f"N({d}) = {F[1000.0, 0.0]} is not below N({prev[0]}) = {prev[1]}")
                prev = (d, F[1000.0, 0.0])

        return f

    for si in range(len(SETTINGS)):
        for b in range(8):
            yield f"{SETTINGS[si]} block {b}", case(si, b)

    def dense(si):
        def f():
            s = SETTINGS[si]
            p = make(s)
            D = np.geomspace(1e-2, 1e7, 4001 if chk.thorough else 1001)
            n = np.asarray(p.function(D, 1000.0), dtype=float)
            chk.execd(len(D)), chk.trans(len(D))
            chk.expect(n.shape == D.shape, f"shape {n.shape}")
            k = np.where(np.diff(n) >= 0)[0]
            chk.expect(k.size == 0, lambda: f"production does not decrease at {D[k[:3]]}")
            sl = np.diff(np.log(n)) / np.diff(np.log(D))
            j = np.where(np.abs(np.diff(sl)) > 8.0)[0]
            chk.expect(j.size == 0 and sl.min() > -25, lambda: f"jump at {D[j[:3]]}")
            r = RANGE.get(s[1].get("version"))
            if r is not None:  # power laws beyond the published range
                lo, hi = sl[D[1:] < r[0]], sl[D[:-1] > r[1]]
                if s[1]["version"] != "Projectile":
                    chk.expect(np.ptp(lo) < 1e-6 and np.ptp(hi) < 1e-6, lambda: f"not a power law beyond the published range: {np.ptp(lo), np.ptp(hi)}")
                    chk.expect(hi.mean() < sl[D[:-1] <= r[1]][-1], "the extrapolation to large sizes is not steepened")
                for e in r:
                    a, b = float(p.function(e * (1 - 1e-9), 1000.0)), float(p.function(e * (1 + 1e-9), 1000.0))
                    chk.expect(close(a, b, 1e-6), lambda: f"discontinuous at {e}: {a}, {b}")

        return f

    for si in range(len(SETTINGS)):
        yield f"{SETTINGS[si]} dense", dense(si)


def part_inverse(chk):
    """age from number density and diameter from number density, for every pair on the lattice, scalar and array"""
    Ds = diams(chk, 91 if chk.thorough else 31)
    Ds = [d for d in Ds if d <= 1e6]
    As = [1e-2, 1.0, 37.0, 500.0, 1500.0, 3000.0, 3900.0, 4499.0] + ([0.1, 5.0, 150.0, 2500.0, 3500.0, 4200.0] if chk.thorough else [])

    def case(si, d):
        def f():
            p = make(SETTINGS[si])
            N = [float(p.function(d, a)) for a in As]
            for a, n in zip(As, N):
                chk.execd(2), chk.trans(2)
                b = p.age_from_D_N(d, n)
                chk.expect(np.isscalar(b) and abs(b - a) <= 1e-6 + 1e-8 * a, lambda: f"age {a} -> N({d})={n} -> age {b}")
                for t0 in (0.0, 0.5 * a):
                    m = float(p.function(d, a, t0))
                    e = p.D_from_N_age(m, a, t0)
                    chk.expect(abs(e - d) <= 1e-6 + 1e-8 * d, lambda: f"diameter {d} -> N({a}..{t0})={m} -> diameter {e}")
                for d2 in (20.0, 1000.0, 3e4):  # through any reference diameter
                    n2 = float(p.function(d2, b))
                    c = p.age_from_D_N(d2, n2)
                    chk.expect(abs(c - a) <= 1e-5 + 1e-7 * a, lambda: f"age {a} through N({d}) and N({d2}) became {c}")
                chk.state(si, d, a)
            for seq in (list, tuple, np.array):
                chk.execd(2), chk.trans(2)
                b = p.age_from_D_N(seq([d] * len(As)), seq(N))
                chk.expect(np.shape(b) == (len(As),) and np.allclose(b, As, rtol=1e-7, atol=1e-5), lambda: f"array of ages {As} -> {b}")
                e = p.D_from_N_age(seq([N[2], 2 * N[2]]), As[2])
                chk.expect(np.shape(e) == (2,) and abs(e[0] - d) <= 1e-6 + 1e-8 * d and e[1] < e[0], lambda: f"array of diameters {e}")
            k = p.age_from_D_N(d, float(p.function(d, 100.0)), validate_inputs=False)
            chk.expect(abs(k - 100.0) < 1e-5, "unvalidated inverse differs")

        return f

    for si in range(len(SETTINGS)):
        for d in Ds:
            yield f"{SETTINGS[si]} D={d:.4g}", case(si, d)


def part_forms(chk):
    """scalars, lists, tuples and arrays of diameters and times, validated or not, give the same numbers"""

    def case(si):
        def f():
            p = make(SETTINGS[si])
            D, T1, T0 = [5.0, 100.0, 2e3, 5e5], [10.0, 1000.0, 4400.0], [0.0, 30.0, 4000.0]
            M = np.array([[float(p.function(d, t1, t0)) for t1, t0 in zip(T1, [0.0, 30.0, 4000.0])] for d in D])
            for fd, ft in itertools.product((list, tuple, np.array), repeat=2):
                chk.execd(4), chk.trans(4)
                a = np.asarray(p.function(fd(D), ft(T1), ft(T0)))
                chk.expect(a.shape == (4, 3) and np.allclose(a, M, rtol=1e-12), lambda: f"array form: {a} instead of {M}")
                b = np.asarray(p.function(fd(D), T1[1], T0[1]))
                chk.expect(b.shape == (4,) and np.allclose(b, M[:, 1], rtol=1e-12), "array of diameters")
                c = np.asarray(p.function(D[1], ft(T1), ft(T0)))
                chk.expect(c.shape == (3,) and np.allclose(c, M[1], rtol=1e-12), "array of times")
                e = np.asarray(p.function(D[1], ft(T1), 5.0))
                chk.expect(np.allclose(e, [float(p.function(D[1], t, 5.0)) for t in T1], rtol=1e-12), "array of times with a scalar end")
            u = np.asarray(p.function(np.array(D), np.array(T1), np.array(T0), validate_inputs=False))
            chk.expect(np.allclose(u, M, rtol=1e-12), "unvalidated form")
            for x in (int, np.float64, np.int64, np.float32):
                chk.execd(), chk.trans()
                chk.expect(close(float(p.function(x(1000), x(100), x(10))), float(p.function(1000.0, 100.0, 10.0)), 1e-6), f"numeric type {x}")
            c = np.asarray(p.chronology(np.array(T1), np.array(T0)))
            k = [float(p.chronology(a, b)) for a, b in zip(T1, T0)]
            chk.expect(np.allclose(c, k, rtol=1e-12) and close(float(p.chronology(1000.0)), float(p.chronology(1000.0, 0.0))), "chronology forms")
            chk.expect(np.allclose(c / c[0], M[0] / M[0][0], rtol=1e-9), "the chronology is not proportional to the production")
            q = np.asarray(p.csfd(np.array(D)))
            chk.expect(np.allclose(q / q[0], M[:, 0] / M[0, 0], rtol=1e-9), "the size distribution is not proportional to the production")
            chk.state(si)

        return f

    for si in range(len(SETTINGS)):
        yield f"{SETTINGS[si]}", case(si)


def part_reject(chk):
    """every kind of invalid argument is rejected by every setting"""
    bad = [
        ("function", (-1.0, 100.0), {}), ("function", ([1.0, -1.0], 100.0), {}), ("function", (1.0, 10.0, 20.0), {}), ("function", (1.0, "x"), {}),
        ("function", (1.0, [10.0, 5.0], [1.0, 6.0]), {}), ("function", (1.0, [10.0, 5.0], [1.0]), {}), ("function", (1.0, 10.0, [1.0]), {}), ("function", (1.0, 10.0, "x"), {}),
        ("age_from_D_N", (-1.0, 1e-9), {}), ("age_from_D_N", (1.0, -1e-9), {}), ("age_from_D_N", ([1.0, 2.0], [1e-9]), {}), ("age_from_D_N", ([1.0, -2.0], [1e-9, 1e-9]), {}),
        ("D_from_N_age", (1e-9, 10.0, 20.0), {}), ("D_from_N_age", (1e-9, "x"), {}), ("chronology", (10.0, 20.0), {}), ("chronology", ([10.0], [20.0]), {}),
    ]
    neu = [
        ("function", (1.0, 4501.0), {}), ("function", (1.0, 100.0, -1.0), {}), ("function", (1.0, -1.0, -2.0), {}), ("function", (1.0, [100.0], [-1.0]), {}), ("function", (1.0, [4501.0]), {}),
        ("chronology", (5000.0,), {}), ("chronology", (100.0, -5.0), {}), ("D_from_N_age", (1e-9, 5000.0), {}), ("D_from_N_age", (1e-9, 100.0, -5.0), {}), ("age_from_D_N", (1000.0, 1.0), {}),
    ]

    def case(si, b):
        def f():
            p = make(SETTINGS[si])
            chk.execd(), chk.trans()
            try:
                r = getattr(p, b[0])(*b[1], **b[2])
            except (ValueError, TypeError):
                chk.outcome("rejected")
                return
            chk.fail(f"{b[0]}{b[1]} accepted: {r}")

        return f

    for si, s in enumerate(SETTINGS):
        for b in bad + (neu if s[0] == "neukum" else []):
            yield f"{s} {b}", case(si, b)

    mk = [("powerlaw", {"generator_type": "comet"}), ("powerlaw", {"N1_coef": -1.0}),
          ("powerlaw", {"N1_coef": "x"}), ("powerlaw", {"slope": "x"}), ("nosuch", {}), (3, {}), ("Neukum2", {})]

    def mcase(m):
        def f():
            chk.execd(), chk.trans()
            try:
                p = Production.maker(m[0], **m[1])
            except (ValueError, TypeError, KeyError):
                chk.outcome("rejected")
                return
            chk.fail(f"{m} accepted: {p}")

        return f

    for m in mk:
        yield f"maker {m}", mcase(m)


def part_history(chk):
    """every sequence of changes and evaluations on two live instances: each always equals a fresh one with its settings"""
    ops = [("A", "version", "Moon"), ("A", "version", "mars"), ("A", "version", "Projectile"), ("A", "version", "Venus"), ("B", "slope", -2.0), ("B", "N1_coef", 5e-4), ("B", "N1_coef", -1.0), ("AB", "eval", None), ("A", "inverse", None), ("C", "new", None)]
    depth = 4 if chk.thorough else 3
    ref = {v: [float(make(("neukum", {"version": v})).function(d, 3000.0, 10.0)) for d in (5.0, 1e3, 2e5)] for v in ("Moon", "Mars", "Projectile")}

    def case(first):
        def g():
            for rest in itertools.product(ops, repeat=depth - 1):
                A, B = Production.maker("neukum", version="Moon"), Production.maker("powerlaw")
                v, n1, sl = "Moon", *DEFAULT_PL["crater"]
                for who, k, x in (first, *rest):
                    chk.trans()
                    if k == "eval":
                        A.function(1000.0, 1000.0), B.function(1000.0, 1000.0)
                    elif k == "inverse":
                        A.age_from_D_N(1000.0, float(A.function(1000.0, 500.0)))
                    elif k == "new":
                        Production.maker("neukum", version="Mars").function(1000.0, 1000.0)
                    else:
                        try:
                            setattr(A if who == "A" else B, k, x)
                        except ValueError:
                            chk.expect(x in ("Venus", -1.0), f"{k}={x} rejected")
                        else:
                            chk.expect(x not in ("Venus", -1.0), f"{k}={x} accepted")
                            if k == "version":
                                v = x.title()
                            elif k == "slope":
                                sl = x
                            else:
                                n1 = x
                chk.expect(A.version == v and A.generator_type == ("projectile" if v == "Projectile" else "crater"), lambda: f"version {A.version}, {A.generator_type}; expected {v}")
                a = [float(A.function(d, 3000.0, 10.0)) for d in (5.0, 1e3, 2e5)]
                chk.expect(np.allclose(a, ref[v], rtol=1e-12), lambda: f"after {(first, *rest)} the {v} function gives {a}, a fresh one {ref[v]}")
                b = float(B.function(50.0, 300.0, 100.0))
                chk.expect(close(b, n1 * 50.0**sl * 200.0), lambda: f"power law gives {b}, expected {n1 * 50.0**sl * 200.0}")
                chk.execd()
                chk.state(v, n1, sl)

        return lambda: core.forked(chk, g)

    for first in ops:
        yield f"starts with {first}", case(first)


PARTS = [("law", part_law), ("inverse", part_inverse), ("forms", part_forms), ("reject", part_reject), ("history", part_history)]
