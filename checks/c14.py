"""Target bodies: physical relations, precedence of given values, rejection of invalid ones, isolation."""

import itertools

import numpy as np
from cratermaker import Target

from mc import core

BOUNDS = {
    "quick": "all 28 catalogue bodies x all override subsets; user bodies; all operation sequences of length 3 on two bodies; all sequences of 2 of 15 makers (catalogue, user-defined, rejected, own catalogue), changed or not, each in a fresh process",
    "thorough": "as quick, with operation sequences of length 4 and maker sequences of length 3",
}
NOTE = "Oracle: closed-form relations and an independent table of the bodies."

# independent rounded reference data: radius (km), mass (kg), icy
REF = {
    "Mercury": (2439.7, 3.301e23, 0), "Venus": (6051.8, 4.867e24, 0), "Earth": (6371.0, 5.972e24, 0), "Moon": (1737.4, 7.346e22, 0),
    "Mars": (3389.5, 6.417e23, 0), "Phobos": (11.1, 1.07e16, 0), "Deimos": (6.27, 1.5e15, 0), "Ceres": (469.7, 9.38e20, 1),
    "Vesta": (262.7, 2.59e20, 0), "Io": (1821.6, 8.93e22, 0), "Europa": (1560.8, 4.80e22, 1), "Ganymede": (2634.1, 1.482e23, 1),
    "Callisto": (2410.3, 1.076e23, 1), "Titan": (2574.7, 1.345e23, 1), "Rhea": (763.8, 2.307e21, 1), "Dione": (561.4, 1.095e21, 1),
    "Tethys": (531.1, 6.17e20, 1), "Enceladus": (252.1, 1.08e20, 1), "Mimas": (198.2, 3.75e19, 1), "Ariel": (578.9, 1.25e21, 1),
    "Umbriel": (584.7, 1.28e21, 1), "Titania": (788.9, 3.34e21, 1), "Oberon": (761.4, 3.08e21, 1), "Miranda": (235.8, 6.4e19, 1),
    "Triton": (1353.4, 2.139e22, 1), "Charon": (606.0, 1.586e21, 1), "Pluto": (1188.3, 1.303e22, 1), "Arrokoth": (9.1, 7.485e14, 1),
}
DENS = {"Water": 1000.0, "Sand": 1750.0, "Dry Soil": 1500.0, "Wet Soil": 2000.0, "Soft Rock": 2250.0, "Hard Rock": 2500.0, "Ice": 900.0}
GRAV = 6.6743e-11


def close(a, b, t=1e-9):
    return abs(a - b) <= t * max(abs(a), abs(b), 1e-300)


def relations(chk, t, what):
    r, m = t.radius, t.mass
    chk.expect(np.isfinite(r) and r > 0 and np.isfinite(m) and m > 0, f"{what}: radius {r}, mass {m}")
    chk.expect(close(t.diameter, 2 * r), f"{what}: diameter {t.diameter} is not twice the radius {r}")
    chk.expect(close(t.surface_area, 4 * np.pi * r * r), f"{what}: surface area {t.surface_area} for radius {r}")
    chk.expect(close(t.volume, 4 / 3 * np.pi * r**3), f"{what}: volume {t.volume} for radius {r}")
    chk.expect(close(t.circumference, 2 * np.pi * r), f"{what}: circumference {t.circumference} for radius {r}")
    chk.expect(close(t.gravity, GRAV * m / r**2, 1e-3), f"{what}: gravity {t.gravity} for mass {m}, radius {r}")
    chk.expect(close(t.escape_velocity, np.sqrt(2 * GRAV * m / r), 1e-3), f"{what}: escape velocity {t.escape_velocity} for mass {m}, radius {r}")
    str(t)


def view(t):
    return (t.name, t.radius, t.mass, t.material, t.density, t.transition_scale_type)


def part_catalogue(chk):
    """every catalogue body: independent reference values, relations, consistency of a second instance"""

    def case(name):
        def f():
            chk.execd(2), chk.trans(2)
            t = Target.maker(name)
            r, m, icy = REF[name]
            chk.expect(t.name == name, "name")
            chk.expect(close(t.radius, r * 1e3, 0.02), f"{name}: radius {t.radius}, reference {r * 1e3}")
            chk.expect(close(t.mass, m, 0.25 if name == "Deimos" else 0.03), f"{name}: mass {t.mass}, reference {m}")
            chk.expect(t.transition_scale_type == ("ice" if icy else "silicate"), f"{name}: {t.transition_scale_type}")
            chk.expect(t.material in DENS and t.density == DENS[t.material], f"{name}: density {t.density} for {t.material}")
            relations(chk, t, name)
            chk.expect(view(Target.maker(name)) == view(t), "two instances differ")
            chk.expect(Target.maker(t) is t, "an instance is not used as it is")
            chk.state(view(t))

        return f

    for n in REF:
        yield n, case(n)

    def default():
        for t in (Target.maker(), Target.maker(None), Target.maker("Moon")):
            chk.execd(), chk.trans()
            chk.expect(view(t) == view(Target.maker("Moon")), "the default body is not the Moon")

    yield "default", default

    def unknown():
        for n in ("moon", "", "Nibiru"):
            chk.execd(), chk.trans()
            try:
                t = Target.maker(n)
            except Exception:
                chk.outcome("rejected")
                continue
            chk.fail(f"unknown body {n!r} accepted as {view(t)}")
        for n in (3, 1.5, ["Moon"], {"name": "Moon"}):
            chk.execd(), chk.trans()
            try:
                t = Target.maker(n)
            except Exception:
                chk.outcome("rejected")
                continue
            chk.fail(f"{n!r} accepted as a target")

    yield "unknown", unknown


SIZE = [{}, {"radius": 1.0e5}, {"diameter": 3.0e6}]
MASS = [{}, {"mass": 1e20}]
MAT = [{}, {"material": "Ice"}, {"material": "Hard Rock"}, {"material": "Cheese"}]
DEN = [{}, {"density": 1234.5}]
TRN = [{}, {"transition_scale_type": "ice"}, {"transition_scale_type": "silicate"}]


def model(name, kw):
    """What the body must be, or None if it must be rejected."""
    base = {}
    if name in REF:
        b = Target.maker(name)
        base = dict(radius=b.radius, mass=b.mass, material=b.material, transition_scale_type=b.transition_scale_type)
    v = dict(base)
    if "diameter" in kw:
        v["radius"] = kw["diameter"] / 2
    v.update({k: x for k, x in kw.items() if k != "diameter"})
    if any(v.get(k) is None for k in ("radius", "mass", "transition_scale_type")):
        return None
    return (name, v["radius"], v["mass"], v.get("material"), v.get("density", DENS.get(v.get("material"))), v["transition_scale_type"])


def part_override(chk):
    """every body (catalogue and user-defined) x every subset of explicit values: explicit values win"""

    def case(name, kw):
        def f():
            want = model(name, kw)
            chk.execd(), chk.trans()
            before = [view(Target.maker(n)) for n in ("Moon", "Europa")]
            cat = Target.maker("Moon").catalogue
            try:
                t = Target.maker(name, **kw)
            except (ValueError, RuntimeError, TypeError) as e:
                chk.expect(want is None, lambda: f"{name} {kw} rejected: {e}")
                chk.outcome("rejected")
            else:
                chk.expect(want is not None, lambda: f"{name} {kw} accepted although it is incomplete: {view(t)}")
                chk.expect(view(t) == want, lambda: f"{name} {kw}: {view(t)}, expected {want}")
                relations(chk, t, f"{name} {kw}")
                chk.outcome("made")
                chk.state(view(t))
            chk.expect([view(Target.maker(n)) for n in ("Moon", "Europa")] == before, f"making {name} {kw} changed other bodies")
            chk.expect(Target.maker("Moon").catalogue == cat, f"making {name} {kw} changed the catalogue")

        return f

    for name in ["Moon", "Europa", "Phobos", "Planet X"] + ([n for n in REF if n not in ("Moon", "Europa", "Phobos")] if chk.thorough else []):
        for c in itertools.product(SIZE, MASS, MAT, DEN, TRN):
            kw = {k: v for d in c for k, v in d.items()}
            yield f"{name} {kw}", case(name, kw)


BAD = [
    {"radius": -1.0}, {"radius": 0.0}, {"diameter": -2.0}, {"diameter": 0.0}, {"mass": 0.0}, {"mass": -1.0}, {"density": 0.0}, {"density": -5.0},
    {"density": "heavy"}, {"material": 3}, {"transition_scale_type": "plasma"}, {"radius": 1.0, "diameter": 2.0}, {"radius": "big"}, {"mass": "x"},
]


def part_reject(chk):
    """every invalid value on every body, at creation and by assignment: rejected without any effect"""

    def case(name, kw):
        def f():
            cat = Target.maker("Moon").catalogue
            ref = view(Target.maker("Moon"))
            base = {"radius": 1e5, "mass": 1e20, "transition_scale_type": "ice"} if name == "Planet X" else {}
            if name == "Planet X" and "diameter" in kw:
                base.pop("radius")
            chk.execd(), chk.trans()
            try:
                t = Target.maker(name, **{**base, **kw})
            except Exception:
                chk.outcome("rejected")
            else:
                chk.fail(f"{name} {kw} accepted: {view(t)}")
            chk.expect(Target.maker("Moon").catalogue == cat, f"a rejected body ({name} {kw}) changed the catalogue")
            chk.expect(view(Target.maker("Moon")) == ref, "a rejected body changed the Moon")
            if len(kw) == 1 and "diameter" not in kw:
                (k, v), = kw.items()
                t = Target.maker(name, **base)
                v0 = view(t)
                chk.execd(), chk.trans()
                try:
                    setattr(t, k, v)
                except Exception:
                    chk.outcome("assignment rejected")
                else:
                    chk.fail(f"assignment {k}={v!r} accepted")
                chk.expect(view(t) == v0, f"rejected assignment {k}={v!r} changed the body: {v0} -> {view(t)}")

        return f

    for name in ("Moon", "Ganymede", "Planet X"):
        for kw in BAD:
            yield f"{name} {kw}", case(name, kw)


OPS = [
    ("A", "radius", 2e6), ("A", "mass", 3e22), ("A", "density", 1111.0), ("A", "material", "Ice"), ("A", "transition_scale_type", "ice"),
    ("B", "radius", 5e5), ("B", "mass", 1e21), ("B", "density", 777.0), ("B", "material", "Sand"), ("A", "new", "Mars"), ("B", "bad", -1.0),
]


def part_history(chk):
    """all sequences of assignments, new bodies and rejected bodies on two live bodies: the model is matched after every step"""
    depth = 4 if chk.thorough else 3

    def case(first):
        def f():
            for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
                A, B = Target.maker("Moon"), Target.maker("Moon")
                M = {"A": dict(zip("nrmods", view(A))), "B": dict(zip("nrmods", view(B)))}
                obj = {"A": A, "B": B}
                for i in (first,) + rest:
                    who, k, v = OPS[i]
                    chk.trans()
                    if k == "new":
                        C = Target.maker(v, radius=7e6)
                        chk.expect(C.radius == 7e6, "override ignored")
                    elif k == "bad":
                        try:
                            obj[who].radius = v
                        except ValueError:
                            pass
                        else:
                            chk.fail("negative radius accepted")
                    else:
                        setattr(obj[who], k, v)
                        M[who][{"radius": "r", "mass": "m", "density": "d", "material": "o", "transition_scale_type": "s"}[k]] = v
                    for w in ("A", "B"):
                        chk.expect(view(obj[w]) == tuple(M[w].values()), lambda: f"after {OPS[i]} body {w} is {view(obj[w])}, expected {tuple(M[w].values())}")
                        t = obj[w]
                        chk.expect(close(t.gravity, GRAV * t.mass / t.radius**2, 1e-3) and close(t.escape_velocity**2, 2 * t.gravity * t.radius, 1e-6) and close(t.diameter, 2 * t.radius), "relations")
                    chk.state(view(A), view(B))
                chk.execd()
            chk.expect(view(Target.maker("Moon")) == ("Moon",) + view(Target.maker("Moon"))[1:] and close(Target.maker("Moon").radius, 1737.4e3, 0.02), "catalogue changed")

        return f

    for i in range(len(OPS)):
        yield f"starts with {OPS[i]}", case(i)


SPECS = [
    ("Moon", {}), ("Moon", {"radius": 1e5}), ("Moon", {"mass": 1e20, "density": 1234.5}), ("Mars", {"material": "Cheese", "density": 950.0}), ("Europa", {"material": "Cheese"}),
    ("Planet X", {"radius": 1e5, "mass": 1e20, "transition_scale_type": "ice", "material": "Cheese", "density": 777.0}),
    ("Planet X", {"diameter": 3e5, "mass": 1e21, "transition_scale_type": "silicate"}), ("Planet X", {"radius": 2e5, "mass": 1e21, "transition_scale_type": "ice", "material": "Cheese"}),
    ("Planet Y", {"radius": 2e5, "mass": 1e21, "transition_scale_type": "ice", "material": "Ice"}), ("Planet X", {"radius": 1e5}), ("Moon", {"radius": -1.0}),
    ("Planet Y", {"mass": 1e20, "transition_scale_type": "ice", "material": "Cheese", "density": 1.0}),
    ("Moon", {"catalogue": {"Moon": {"radius": 3e6, "mass": 5e22, "material": "Ice", "transition_scale_type": "ice"}}}),
    ("Vulcan", {"catalogue": {"Vulcan": {"radius": 3e5, "mass": 5e21, "material": "Ice", "transition_scale_type": "ice"}}}), ("Vulcan", {}),
]


def part_sequence(chk):
    """all sequences of bodies made (and then changed), each from a fresh process: no body depends on what was made before"""
    depth = 3 if chk.thorough else 2
    ref = {n: Target.maker(n) for n in ("Moon", "Mars", "Europa")}
    ref = {n: dict(radius=b.radius, mass=b.mass, material=b.material, transition_scale_type=b.transition_scale_type) for n, b in ref.items()}

    def want(name, kw):
        kw = dict(kw)
        v = dict((kw.pop("catalogue", ref)).get(name, {}))
        if "diameter" in kw:
            v["radius"] = kw["diameter"] / 2
        v.update({k: x for k, x in kw.items() if k != "diameter"})
        if any(v.get(k) is None for k in ("radius", "mass", "transition_scale_type")) or v["radius"] <= 0:
            return None
        return (name, v["radius"], v["mass"], v.get("material"), v.get("density", DENS.get(v.get("material"))), v["transition_scale_type"])

    def case(seq, change):
        def g():
            live = []
            for i in seq:
                name, kw = SPECS[i]
                chk.trans()
                w = want(name, kw)
                try:
                    t = Target.maker(name, **{k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()})
                except (ValueError, RuntimeError, TypeError) as e:
                    chk.expect(w is None, lambda: f"{name} {kw} rejected after {[SPECS[j] for j in seq]}: {e}")
                    continue
                chk.expect(w is not None, lambda: f"{name} {kw} accepted: {view(t)}")
                chk.expect(view(t) == w, lambda: f"{name} {kw}: {view(t)}, expected {w}")
                relations(chk, t, name)
                if change:
                    t.radius, t.mass, t.density = t.radius * 3, t.mass * 2, 55.0
                    t.material, t.transition_scale_type = "Mud", "ice"
                live.append((t, view(t)))
            for t, v in live:
                chk.expect(view(t) == v, lambda: f"an earlier body changed from {v} to {view(t)}")
            for n, b in ref.items():
                chk.expect(view(Target.maker(n)) == want(n, {}), lambda: f"{n} is now {view(Target.maker(n))}")
            chk.execd()
            chk.state(seq, change)

        return lambda: core.forked(chk, g)

    for seq in itertools.product(range(len(SPECS)), repeat=depth):
        for change in (False, True):
            yield f"{seq} change={change}", case(seq, change)


PARTS = [("sequence", part_sequence), ("catalogue", part_catalogue), ("override", part_override), ("reject", part_reject), ("history", part_history)]
