"""Size scaling: law, monotonicity, inverses, morphology types, determinism, limits of the random variation, wiring."""

import itertools

import numpy as np
from cratermaker import Projectile, Scaling, Target

from mc.scripted import ONE, ScriptedRNG, fair

BOUNDS = {
    "quick": "2 models x 8 targets x 7 materials x 3 velocities x 2 angles x 25 sizes over 1 m..1000 km (8 per decade near the transition); scripted draws: 3^3 recompute answers x 9 per conversion",
    "thorough": "all 28 targets, 61 sizes, 5^3 recompute answers",
}
NOTE = "Oracle: closed-form pi-group scaling and transition relations."
MATS = {
    "Water": (2.30, 0.55, 0.0, 1000.0), "Sand": (0.24, 0.41, 0.0, 1750.0), "Dry Soil": (0.24, 0.41, 0.18e6, 1500.0), "Wet Soil": (0.20, 0.55, 1.14e6, 2000.0),
    "Soft Rock": (0.20, 0.55, 7.60e6, 2250.0), "Hard Rock": (0.20, 0.55, 18.0e6, 2500.0), "Ice": (15.625, 0.48, 0.0, 900.0),
}
TARGETS = ["Moon", "Mars", "Earth", "Mercury", "Ceres", "Europa", "Phobos", "Arrokoth"]
ALL = ["Mercury", "Venus", "Earth", "Moon", "Mars", "Phobos", "Deimos", "Ceres", "Vesta", "Io", "Europa", "Ganymede", "Callisto", "Titan", "Rhea", "Dione", "Tethys",
       "Enceladus", "Mimas", "Ariel", "Umbriel", "Titania", "Oberon", "Miranda", "Triton", "Charon", "Pluto", "Arrokoth"]


def close(a, b, t=1e-6):
    return abs(a - b) <= t * max(abs(a), abs(b))


def pi_scale(d, K1, mu, Y, rt, rp, vz, g):
    p2 = g * (d / 2) / vz**2
    p3 = Y / (rt * vz**2)
    pv = K1 * (p2 * (rp / rt) ** (1 / 3) + p3 ** (1 + mu / 2)) ** (-3 * mu / (2 + mu))
    vol = pv * (4 / 3 * np.pi * (d / 2) ** 3 * rp) / rt
    return max(2 * (3 * vol / np.pi) ** (1 / 3), d)


def nominal(model, ttype, g):
    if model == "ctem":
        return 16533.8 * g**-1.0303 if ttype == "silicate" else 3081.39 * g**-1.22486
    return 10 ** (-0.5484575694575697 * np.log10(g) + 4.201369948094472) if ttype == "silicate" else 10 ** (-0.7066985617230864 * np.log10(g) + 3.52268633631802)


def sizes(chk):
    return np.geomspace(1.0, 1e6, 61 if chk.thorough else 25)


def part_deterministic(chk):
    """no random variation: every model, target, material, velocity, angle and size: law, monotone, invertible, repeatable"""

    def case(model, tname, mat):
        def f():
            T = Target.maker(tname)
            for vel, ang in itertools.product((1000.0, 20000.0, 60000.0), (90.0, 15.0)):
                P = Projectile.maker("generic", sample=False, velocity=vel, angle=ang, density=2700.0, target=T)
                kw = {} if model == "ctem" else {"monte_carlo_scaling": False}
                s = Scaling.maker(model, target=T, projectile=P, material=mat, **kw)
                K1, mu, Y, rho = MATS[mat]
                chk.expect((s.K1, s.mu, s.Ybar) == (K1, mu, Y), f"material {mat}: {s.K1, s.mu, s.Ybar}")
                chk.expect(s.target.density == rho, f"density {s.target.density} for {mat}")
                nom = nominal(model, T.transition_scale_type, T.gravity)
                chk.expect(close(s.transition_nominal, nom), f"transition {s.transition_nominal}, expected {nom}")
                vz = vel * np.sin(np.deg2rad(ang))
                prev = 0.0
                for d in sizes(chk):
                    chk.execd(2), chk.trans(2)
                    t = s.projectile_to_transient(float(d))
                    w = pi_scale(d, K1, mu, Y, rho, 2700.0, vz, T.gravity)
                    chk.expect(close(t, w), lambda: f"projectile {d} -> transient {t}, expected {w}")
                    chk.expect(t >= d * (1 - 1e-12) and t > prev, lambda: f"transient {t} for projectile {d} not monotone (previous {prev})")
                    b = s.transient_to_projectile(t)
                    chk.expect(close(b, d, 1e-5), lambda: f"projectile {d} -> transient {t} -> projectile {b}")
                    chk.expect(s.projectile_to_transient(float(d)) == t, "not repeatable")
                    prev = t

        return f

    def transition(model, tname):
        def f():
            T = Target.maker(tname)
            kw = {} if model == "ctem" else {"monte_carlo_scaling": False}
            s = Scaling.maker(model, target=T, **kw)
            nom = s.transition_nominal
            grid = sorted(set(sizes(chk)) | {nom * x for x in np.geomspace(0.3, 3.0, 33)} | {nom * 0.5 * 0.999, nom * 0.5 * 1.001, nom * 2 * 0.999, nom * 2 * 1.001})
            last = {}
            for D in grid:
                D = float(D)
                chk.execd(3), chk.trans(3)
                t, mt = s.final_to_transient(D)
                want = "simple" if D < 0.5 * nom else "complex" if D > 2 * nom else "transitional"
                chk.expect(mt == want, lambda: f"final diameter {D / nom} of the transition is called {mt}")
                chk.expect(0 < t < D or mt != "simple", lambda: f"final {D} -> transient {t}")
                ref = D * 0.84 if mt == "simple" else D * 0.84 / 1.02 * (D / nom) ** -s.final_exp
                chk.expect(close(t, ref), lambda: f"final {D} ({mt}) -> transient {t}, expected {ref}")
                if mt in last:
                    chk.expect(t > last[mt], lambda: f"not monotone at {D} ({mt})")
                last[mt] = t
                for forced in ("simple", "complex", "transitional"):
                    t2, m2 = s.final_to_transient(D, morphology_type=forced)
                    chk.expect(m2 == forced and (t2 == t or forced != mt), "forced morphology type ignored")
                Df, m3 = s.transient_to_final(t)
                t4, m4 = s.final_to_transient(Df, m3)
                chk.expect(close(t4, t), lambda: f"transient {t} -> final {Df} ({m3}) -> transient {t4}")
                chk.expect((Df, m3) == s.transient_to_final(t), "not repeatable")
                if not (0.35 < D / nom < 0.7 or 1.4 < D / nom < 2.8):
                    chk.expect(m3 == mt, lambda: f"final {D} is {mt}, but its transient becomes a {m3} crater")
                    chk.expect(close(Df, D), lambda: f"final {D} -> transient {t} -> final {Df}")
                chk.state(model, tname, mt, m3, round(np.log10(D), 3))

        return f

    for model in ("montecarlo", "ctem"):
        for tname in ALL if chk.thorough else TARGETS:
            for mat in MATS:
                yield f"{model} {tname} {mat}", case(model, tname, mat)
            yield f"{model} {tname} transition", transition(model, tname)


def part_random(chk):
    """random variation: every answer of the draws behind the transition and every answer during a conversion"""
    menu = (0.0, 0.5, ONE) if not chk.thorough else (0.0, 0.2, 0.5, 0.8, ONE)

    def case(tname, rel):
        def f():
            T = Target.maker(tname)
            P = Projectile.maker("generic", sample=False, velocity=15000.0, target=T)
            for pre in itertools.product(range(len(menu)), repeat=3):
                for post in itertools.product(range(len(menu)), repeat=2):
                    rng = ScriptedRNG(u_menu=menu, default=lambda i, k, n: 0)
                    s = Scaling.maker("montecarlo", target=T, projectile=P, rng=rng)
                    rng.script, rng.points, rng.choices = list(pre) + [min(p, 1) for p in post], [], []
                    s.recompute()
                    chk.execd(), chk.trans()
                    chk.expect(1 / 0.88 - 1e-9 <= s.simple_enlargement_factor <= 1 / 0.80 + 1e-9, f"simple enlargement {s.simple_enlargement_factor}")
                    chk.expect(0.0789 - 1e-9 <= s.final_exp <= 0.0791 + 1e-9, f"exponent {s.final_exp}")
                    sg = 0.07 if T.transition_scale_type == "silicate" else 0.1034
                    chk.expect(abs(np.log10(s.transition_diameter / s.transition_nominal)) < 6 * sg, f"transition {s.transition_diameter} nominal {s.transition_nominal}")
                    D = rel * s.transition_nominal
                    snap = (s.simple_enlargement_factor, s.final_exp, s.transition_diameter, s.transition_nominal)
                    t, mt = s.final_to_transient(D)
                    chk.expect(t < D, f"final {D} -> transient {t}")
                    allowed = {"simple"} if rel < 0.5 else {"complex"} if rel > 2 else {"simple", "transitional"} if rel < 1 else {"complex", "transitional"}
                    chk.expect(mt in allowed, lambda: f"final diameter {rel} of the transition is called {mt}")
                    Df, m3 = s.transient_to_final(t)
                    t4, _ = s.final_to_transient(Df, m3)
                    chk.expect(close(t4, t), lambda: f"transient {t} -> final {Df} ({m3}) -> transient {t4}")
                    r = Df / s.transition_nominal
                    ok = {"simple": r < 1.25, "complex": r > 0.8, "transitional": 0.4 < r < 2.5}.get(str(m3), False)
                    chk.expect(ok, lambda: f"a crater of {r} times the transition diameter is called {m3}")
                    chk.expect(0.75 < Df / D < 1.34, lambda: f"final {D} -> transient {t} -> final {Df}")
                    chk.expect(snap == (s.simple_enlargement_factor, s.final_exp, s.transition_diameter, s.transition_nominal), "converting a size changed the scaling model")
                    d = s.transient_to_projectile(t)
                    chk.expect(close(s.projectile_to_transient(d), t, 1e-5), "projectile round trip")
                    chk.state(tname, rel, pre, str(mt), str(m3))

        return f

    for tname in ("Moon", "Europa", "Mars"):
        for rel in (0.1, 0.49, 0.52, 0.75, 0.99, 1.01, 1.5, 1.95, 2.02, 10.0):
            yield f"{tname} {rel}", case(tname, rel)


def part_wiring(chk):
    """every way to give target, projectile, material, density and coefficients: explicit values win, targets agree"""

    def case(model, tform, pform, mat, extra):
        def f():
            chk.execd(), chk.trans()
            tname = "Mars"
            T = {"name": "Mars", "object": Target.maker("Mars"), "dense": Target.maker("Mars", density=3333.0), "none": None}[tform]
            P = {"name": "asteroids", "none": None, "object": Projectile.maker("comets", target=tname if not isinstance(T, Target) else T)}[pform]
            s = Scaling.maker(model, target=T, projectile=P, rng_seed=3, **({"material": mat} if mat else {}), **extra)
            tn = "Moon" if tform == "none" else "Mars"
            chk.expect(s.target.name == tn, lambda: f"target {s.target.name}")
            chk.expect(not isinstance(T, Target) or s.target is T, "the target object was replaced")
            chk.expect(not isinstance(P, Projectile) or s.projectile is P, "the projectile object was replaced")
            if pform != "object":
                chk.expect(s.projectile.target.name == tn, lambda: f"the projectile is for {s.projectile.target.name}, the target is {tn}")
                want = {"Moon": 22100.0, "Mars": 10700.0}[tn]
                chk.expect(s.projectile.mean_velocity == want, lambda: f"mean velocity {s.projectile.mean_velocity} on {tn}, expected {want}")
            m = (mat or "Soft Rock").title()
            c = dict(zip(("K1", "mu", "Ybar"), MATS[m]))
            for k, v in c.items():
                chk.expect(getattr(s, k) == extra.get(k, v), lambda: f"{k} is {getattr(s, k)}, expected {extra.get(k, v)}")
            dens = extra.get("density", 3333.0 if tform == "dense" and not mat else MATS[m][3])
            chk.expect(s.target.density == dens, lambda: f"target density {s.target.density}, expected {dens}")
            chk.expect(s.material == m, lambda: f"material {s.material}")
            g = Target.maker(tn).gravity
            chk.expect(close(s.transition_nominal, nominal(model, "silicate", g)), "transition diameter is not that of the target")
            chk.state(model, tform, pform, mat, extra)

        return f

    for model in ("montecarlo", "ctem"):
        for tform in ("name", "object", "dense", "none"):
            for pform in ("name", "none", "object"):
                if tform == "none" and pform == "object":
                    continue
                for mat in (None, "sand", "Ice"):
                    for extra in ({}, {"K1": 0.5}, {"mu": 0.3, "Ybar": 1e6}, {"density": 1234.0}, {"density": 1234.0, "K1": 0.5}):
                        yield f"{model} {tform} {pform} {mat} {extra}", case(model, tform, pform, mat, extra)

    def reject():
        for kw in ({"K1": -1.0}, {"mu": -1.0}, {"Ybar": -1.0}, {"K1": "x"}, {"density": -1.0}, {"material": 5}, {"material": "Flubber"}):
            chk.execd(), chk.trans()
            try:
                Scaling.maker("montecarlo", **kw)
            except Exception:
                continue
            chk.fail(f"{kw} accepted")
        s = Scaling.maker("ctem")
        for fn in (s.projectile_to_transient, s.transient_to_projectile, s.transient_to_final, s.final_to_transient):
            for v in (0.0, -1.0, np.inf, np.nan, "big", None):
                chk.execd(), chk.trans()
                try:
                    r = fn(v)
                except Exception:
                    continue
                chk.fail(f"{fn.__name__}({v!r}) = {r}")
        for x in ("linear", 3, ""):
            try:
                Scaling.maker(x)
            except Exception:
                continue
            chk.fail(f"{x!r} accepted")

    yield "reject", reject


PARTS = [("deterministic", part_deterministic), ("random", part_random), ("wiring", part_wiring)]
