"""Construction of craters: size given in any form, exclusivity, copies, fixed and measured attributes, identifiers."""

import itertools
import math

import numpy as np
from cratermaker import Crater, Projectile, Scaling, Target

BOUNDS = {
    "quick": "8 size forms x 12 sizes x 6 target/scaling pairs; all subsets of 10 size, 4 velocity, 4 location, 2 direction and 4 measured arguments; all copies with 1 or 2 of 17 overrides; all assignment sequences of length 3 over 14 assignments",
    "thorough": "40 sizes, all copies with up to 3 overrides, assignment sequences of length 4",
}
NOTE = "Oracle: relations between the attributes, the scaling model, and a small reference model of the measured attributes."

FIXED = ["id", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle", "projectile_mass",
         "location", "morphology_type", "time", "radius", "diameter", "transient_radius", "projectile_radius", "projectile_density", "projectile_vertical_velocity", "projectile_direction"]
MEAS = ["measured_diameter", "measured_radius", "measured_semimajor_axis", "measured_semiminor_axis", "measured_orientation", "measured_location", "measured_rim_height",
        "measured_floor_depth", "degradation_state", "production_time", "production_ND", "production_sequence", "name"]


def close(a, b, t=1e-6):
    return abs(a - b) <= t * max(abs(a), abs(b), 1e-300)


def snap(c):
    return {k: getattr(c, k) for k in FIXED + MEAS}


def consistent(chk, c, where=""):
    e = chk.expect
    e(close(c.diameter, 2 * c.radius) and close(c.radius, math.sqrt(c.semimajor_axis * c.semiminor_axis)), lambda: f"{where}: diameter {c.diameter}, radius {c.radius}, axes {c.semimajor_axis} {c.semiminor_axis}")
    e(c.final_diameter == c.diameter and c.final_radius == c.radius, lambda: f"{where}: final size differs from size")
    e(close(c.transient_diameter, 2 * c.transient_radius), lambda: f"{where}: transient {c.transient_diameter} {c.transient_radius}")
    e(close(c.projectile_diameter, 2 * c.projectile_radius), lambda: f"{where}: projectile {c.projectile_diameter} {c.projectile_radius}")
    e(close(c.projectile_mass, 4 / 3 * math.pi * c.projectile_radius**3 * c.projectile_density), lambda: f"{where}: projectile mass {c.projectile_mass}, radius {c.projectile_radius}, density {c.projectile_density}")
    e(close(c.projectile_vertical_velocity, c.projectile_velocity * math.sin(math.radians(c.projectile_angle))), lambda: f"{where}: velocities {c.projectile_velocity} {c.projectile_vertical_velocity} angle {c.projectile_angle}")
    e(c.projectile_direction == c.orientation, lambda: f"{where}: direction {c.projectile_direction} orientation {c.orientation}")
    e(-180 <= c.location[0] < 180 and -90 <= c.location[1] <= 90, lambda: f"{where}: location {c.location}")
    e(0 <= c.projectile_angle <= 90 and c.projectile_velocity > 0, lambda: f"{where}: angle {c.projectile_angle} velocity {c.projectile_velocity}")


def measured_equal_fixed(chk, c, where=""):
    for m, f in (("measured_diameter", "diameter"), ("measured_radius", "radius"), ("measured_semimajor_axis", "semimajor_axis"), ("measured_semiminor_axis", "semiminor_axis")):
        chk.expect(close(getattr(c, m), getattr(c, f), 1e-12), lambda: f"{where}: {m} is {getattr(c, m)}, {f} is {getattr(c, f)}")
    chk.expect(tuple(c.measured_location) == tuple(c.location), lambda: f"{where}: measured location {c.measured_location}, location {c.location}")
    chk.expect(close(c.measured_orientation, c.orientation % 360), lambda: f"{where}: measured orientation {c.measured_orientation}, orientation {c.orientation}")


def setups():
    for t, sc, pop in (("Moon", "ctem", "asteroids"), ("Mars", "ctem", "comets"), ("Europa", "montecarlo", "comets"), ("Mercury", "montecarlo", "generic"), ("Ceres", "ctem", "generic"), ("Moon", "montecarlo", "asteroids")):
        T = Target.maker(t)
        kw = {"density": 2000.0, "mean_velocity": 12000.0} if pop == "generic" else {}
        P = Projectile.maker(pop, target=T, **kw)
        skw = {} if sc == "ctem" else {"monte_carlo_scaling": False}
        yield f"{t}/{sc}/{pop}", Scaling.maker(sc, target=T, projectile=P, **skw)


BASE = dict(projectile_velocity=14000.0, projectile_angle=37.0, projectile_direction=200.0, projectile_density=2400.0, location=(12.0, -34.0), time=100.0)
FORMS = {
    "diameter": lambda c: {"diameter": c.diameter},
    "radius": lambda c: {"radius": c.radius},
    "final_diameter": lambda c: {"final_diameter": c.diameter},
    "final_radius": lambda c: {"final_radius": c.radius},
    "axes": lambda c: {"semimajor_axis": c.radius, "semiminor_axis": c.radius},
    "transient_diameter": lambda c: {"transient_diameter": c.transient_diameter},
    "transient_radius": lambda c: {"transient_radius": c.transient_radius},
    "projectile_diameter": lambda c: {"projectile_diameter": c.projectile_diameter},
    "projectile_radius": lambda c: {"projectile_radius": c.projectile_radius},
    "projectile_mass": lambda c: {"projectile_mass": c.projectile_mass},
}


def part_sizes(chk):
    """every size form x size x scaling model: attributes agree with the value given, with each other and with the scaling model"""

    def case(name, s, D):
        def f():
            ref = Crater.maker(diameter=D, scaling=s, **BASE)
            for form, get in FORMS.items():
                kw = get(ref)
                chk.execd(), chk.trans()
                c = Crater.maker(scaling=s, **kw, **BASE)
                for k, v in kw.items():
                    chk.expect(close(getattr(c, k), v, 1e-9), lambda: f"{form}: gave {k}={v}, crater has {getattr(c, k)}")
                consistent(chk, c, form)
                measured_equal_fixed(chk, c, form)
                for k, a in (("projectile_velocity", 14000.0), ("projectile_angle", 37.0), ("orientation", 200.0), ("time", 100.0), ("projectile_density", 2400.0)):
                    chk.expect(close(getattr(c, k), a, 1e-9), lambda: f"{form}: {k} given as {a}, crater has {getattr(c, k)}")
                chk.expect(c.location == (12.0, -34.0), lambda: f"{form}: location {c.location}")
                # the scaling model, set up with this projectile, must agree
                s.projectile = Projectile.maker(s.projectile, target=s.target).new_projectile(velocity=14000.0, angle=37.0, density=2400.0, direction=200.0, location=(12.0, -34.0))
                td = s.projectile_to_transient(c.projectile_diameter)
                chk.expect(close(td, c.transient_diameter, 1e-5), lambda: f"{form}: projectile {c.projectile_diameter} makes transient {td}, crater has {c.transient_diameter}")
                if form.startswith(("transient", "projectile")):
                    fd, mt = s.transient_to_final(c.transient_diameter)
                    chk.expect(close(fd, c.diameter, 1e-5) and mt == c.morphology_type, lambda: f"{form}: transient {c.transient_diameter} makes {fd} {mt}, crater has {c.diameter} {c.morphology_type}")
                else:
                    t2, mt = s.final_to_transient(c.diameter)
                    chk.expect(close(t2, c.transient_diameter, 1e-5) and mt == c.morphology_type, lambda: f"{form}: final {c.diameter} from transient {t2} {mt}, crater has {c.transient_diameter} {c.morphology_type}")
                    chk.expect(c.id == ref.id or form != "radius", lambda: f"{form}: identifier differs from the same crater given by diameter")
                    for k in FIXED[1:]:
                        a, b = getattr(c, k), getattr(ref, k)
                        chk.expect(a == b or (isinstance(a, float) and close(a, b, 1e-9)), lambda: f"{form}: {k} is {a}, by diameter {b}")
                c2 = Crater.maker(scaling=s, **kw, **BASE)
                chk.expect(snap(c2) == snap(c), f"{form}: equal inputs give different craters")
                chk.state(name, form, round(math.log10(D), 3), c.morphology_type)
            # elliptical craters
            for ratio in (1.0, 1.2, 3.0):
                a, b = D / 2 * math.sqrt(ratio), D / 2 / math.sqrt(ratio)
                c = Crater.maker(scaling=s, semimajor_axis=a, semiminor_axis=b, **BASE)
                chk.execd(), chk.trans()
                consistent(chk, c, f"ellipse {ratio}")
                measured_equal_fixed(chk, c, f"ellipse {ratio}")
                chk.expect(c.semimajor_axis == a and c.semiminor_axis == b, "axes changed")
                chk.expect(close(c.transient_diameter, ref.transient_diameter) and close(c.projectile_diameter, ref.projectile_diameter), "an ellipse of the same mean diameter needs the same projectile")

        return f

    sizes = np.geomspace(10.0, 1e6, 40 if chk.thorough else 12)
    for i, (name, s) in enumerate(setups()):
        for D in sizes:
            yield f"{name} {D:.4g}", case(name, s, float(D))


def part_exclusive(chk):
    """every subset of the size, velocity, location, direction and measured arguments is accepted exactly when it is unambiguous"""
    s = Scaling.maker("ctem")
    D = 5000.0
    ref = Crater.maker(diameter=D, scaling=s, projectile_velocity=15000.0, projectile_angle=45.0)
    vals = {"diameter": D, "final_diameter": D, "radius": D / 2, "final_radius": D / 2, "semimajor_axis": D / 2, "semiminor_axis": D / 2, "transient_diameter": ref.transient_diameter,
            "transient_radius": ref.transient_radius, "projectile_diameter": ref.projectile_diameter, "projectile_radius": ref.projectile_radius, "projectile_mass": ref.projectile_mass}

    def make(**kw):
        chk.execd(), chk.trans()
        try:
            return Crater.maker(scaling=s, rng_seed=5, **kw)
        except (ValueError, TypeError):
            return None

    def sizecase(first):
        def f():
            rest = [k for k in vals if k != "diameter" and k != "radius"]
            for r in range(len(rest) + 1):
                for sub in itertools.combinations(rest, r):
                    keys = list(first) + list(sub)
                    c = make(**{k: vals[k] for k in keys})
                    groups = {"diameter": "d", "final_diameter": "d", "radius": "r", "final_radius": "r", "semimajor_axis": "ax", "semiminor_axis": "ax"}
                    g = {groups.get(k, k) for k in keys}
                    ok = len(g) == 1 and (g != {"ax"} or len(keys) == 2)
                    chk.expect((c is not None) == ok, lambda: f"size given by {keys}: {'rejected' if c is None else 'accepted'}")
                    if c is not None:
                        consistent(chk, c, str(keys))
                        for k in keys:
                            chk.expect(close(getattr(c, k), vals[k], 1e-9), lambda: f"{keys}: {k}")
                    chk.state("size", tuple(sorted(keys)), ok)

        return f

    for first in ((), ("diameter",), ("radius",), ("diameter", "radius")):
        yield f"size {first}", sizecase(first)

    def velocity():
        v = {"projectile_velocity": 15000.0, "projectile_vertical_velocity": 15000.0 * math.sin(math.radians(30.0)), "projectile_angle": 30.0, "projectile_mean_velocity": 20000.0}
        for r in range(5):
            for sub in itertools.combinations(v, r):
                c = make(diameter=D, **{k: v[k] for k in sub})
                three = len([k for k in sub if k != "projectile_mean_velocity"]) == 3
                ok = not three and not ("projectile_mean_velocity" in sub and ("projectile_velocity" in sub or "projectile_vertical_velocity" in sub))
                if sub == ("projectile_vertical_velocity",):
                    continue  # under-determined: not specified
                chk.expect((c is not None) == ok, lambda: f"velocity given by {sub}: {'rejected' if c is None else 'accepted'}")
                if c is not None:
                    consistent(chk, c, str(sub))
                    for k in sub:
                        if k != "projectile_mean_velocity":
                            chk.expect(close(getattr(c, k), v[k], 1e-9), lambda: f"{sub}: {k} given as {v[k]}, crater has {getattr(c, k)}")
                    if len(sub) == 2 and "projectile_mean_velocity" not in sub:
                        for k in ("projectile_velocity", "projectile_vertical_velocity", "projectile_angle"):
                            chk.expect(close(getattr(c, k), v[k], 1e-9), lambda: f"{sub}: {k} inferred as {getattr(c, k)}, expected {v[k]}")
                chk.state("velocity", sub)
        for vv, va in ((20000.0, 15000.0),):
            chk.expect(make(diameter=D, projectile_velocity=va, projectile_vertical_velocity=vv) is None, "vertical velocity larger than the velocity accepted")

    def location():
        v = {"location": (33.0, 44.0), "projectile_location": (33.0, 44.0), "longitude": 33.0, "latitude": 44.0}
        for r in range(5):
            for sub in itertools.combinations(v, r):
                c = make(diameter=D, **{k: v[k] for k in sub})
                ok = set(sub) in ({*()}, {"location"}, {"projectile_location"}, {"longitude", "latitude"})
                chk.expect((c is not None) == ok, lambda: f"location given by {sub}: {'rejected' if c is None else 'accepted'}")
                if c is not None and sub:
                    chk.expect(c.location == (33.0, 44.0) and tuple(c.measured_location) == (33.0, 44.0), lambda: f"{sub}: {c.location} {c.measured_location}")
                chk.state("location", sub)
        for lon, lat, want in ((370.0, 95.0, (-170.0, 85.0)), (180.0, 0.0, (-180.0, 0.0)), (-190.0, 10.0, (170.0, 10.0)), (720.0, -90.0, (0.0, -90.0)), (359.0, 12.0, (-1.0, 12.0))):
            for kw in ({"location": (lon, lat)}, {"longitude": lon, "latitude": lat}, {"projectile_location": (lon, lat)}):
                c = make(diameter=D, **kw)
                chk.expect(c is not None and c.location == want and tuple(c.measured_location) == want, lambda: f"{kw}: {c and c.location} {c and c.measured_location}")

    def direction():
        for sub in ((), ("orientation",), ("projectile_direction",), ("orientation", "projectile_direction")):
            c = make(diameter=D, **{k: 77.0 for k in sub})
            chk.expect((c is not None) == (len(sub) < 2), lambda: f"{sub}")
            if c is not None and sub:
                chk.expect(c.orientation == 77.0 and c.projectile_direction == 77.0 and c.measured_orientation == 77.0, lambda: f"{sub}: {c.orientation}")

    def measured():
        v = {"measured_semimajor_axis": 2400.0, "measured_semiminor_axis": 2000.0, "measured_diameter": 4000.0, "measured_radius": 2000.0}
        for sub, ok, want in (
            (("measured_semimajor_axis", "measured_semiminor_axis"), True, (2400.0, 2000.0)),
            (("measured_diameter",), True, (2000.0, 2000.0)),
            (("measured_radius",), True, (2000.0, 2000.0)),
            (("measured_diameter", "measured_radius"), False, None),
            (("measured_semimajor_axis",), False, None),
            (("measured_semiminor_axis",), False, None),
        ):
            c = make(diameter=D, **{k: v[k] for k in sub})
            chk.expect((c is not None) == ok, lambda: f"measured size given by {sub}: {'rejected' if c is None else 'accepted'}")
            if c is not None:
                chk.expect((c.measured_semimajor_axis, c.measured_semiminor_axis) == want, lambda: f"{sub}: {c.measured_semimajor_axis} {c.measured_semiminor_axis}")
                chk.expect(c.diameter == D, "the measured size changed the size")
                consistent(chk, c)

    def bad():
        for kw in ({"diameter": -1.0}, {"diameter": 0.0}, {"radius": -5.0}, {"transient_diameter": -1.0}, {"projectile_diameter": -1.0}, {"projectile_mass": -1.0}, {"diameter": 1.0, "projectile_velocity": -1.0},
                   {"diameter": 1.0, "projectile_density": -1.0}, {"diameter": 1.0, "projectile_angle": -5.0}, {"diameter": math.nan}, {"diameter": math.inf}, {"crater": 5, "diameter": 1.0}):
            chk.execd(), chk.trans()
            try:
                c = Crater.maker(scaling=s, rng_seed=5, **kw)
            except Exception:
                continue
            chk.fail(f"{kw} accepted: {c.diameter}")

    for n, f in (("velocity", velocity), ("location", location), ("direction", direction), ("measured", measured), ("bad", bad)):
        yield n, f


OVER = [
    {"name": "Tycho"}, {"time": 55.0}, {"location": (370.0, 20.0)}, {"longitude": -20.0, "latitude": 5.0}, {"orientation": 12.0}, {"projectile_velocity": 9000.0}, {"projectile_angle": 20.0},
    {"projectile_vertical_velocity": 5000.0}, {"measured_diameter": 700.0}, {"measured_radius": 350.0}, {"measured_semimajor_axis": 900.0, "measured_semiminor_axis": 800.0}, {"measured_location": (1.0, 2.0)}, {"measured_orientation": 5.0},
    {"measured_rim_height": 11.0, "measured_floor_depth": -12.0}, {"degradation_state": 3.0}, {"production_time": (10.0, 2.0)}, {"production_ND": (1.0, 5.0)}, {"production_sequence": 3},
    {"diameter": 8000.0}, {"radius": 4500.0}, {"semimajor_axis": 6000.0, "semiminor_axis": 5000.0}, {"transient_diameter": 4000.0}, {"projectile_diameter": 300.0}, {"projectile_mass": 1e10},
]
SIZE = {"diameter", "radius", "semimajor_axis", "transient_diameter", "projectile_diameter", "projectile_mass"}
PERSIST = ["name", "time", "location", "orientation", "projectile_velocity", "projectile_angle", "measured_rim_height", "measured_floor_depth", "degradation_state", "production_time", "production_ND", "production_sequence"]


def part_copy(chk):
    """every copy with one or two overrides, of plain, elliptical and annotated craters; the original never changes"""
    s = Scaling.maker("ctem")
    base = {
        "plain": lambda: Crater.maker(diameter=5000.0, scaling=s, **BASE),
        "ellipse": lambda: Crater.maker(semimajor_axis=3000.0, semiminor_axis=2000.0, scaling=s, **BASE),
        "random": lambda: Crater.maker(diameter=5000.0, scaling=s, rng_seed=11),
        "annotated": lambda: Crater.maker(diameter=5000.0, scaling=s, name="Old", measured_diameter=4000.0, measured_location=(9.0, 9.0), measured_orientation=44.0, measured_rim_height=1.0, measured_floor_depth=-2.0,
                                          degradation_state=7.0, production_time=(3.0, 1.0), production_sequence=9, **BASE),
    }

    def sub_ok(ov):
        keys = [k for d in ov for k in d]
        return len(keys) == len(set(keys)) and len([k for k in keys if k in SIZE]) < 2 and not ({"location", "longitude"} <= set(keys)) and not {"projectile_velocity", "projectile_vertical_velocity", "projectile_angle"} <= set(keys) and len({"measured_diameter", "measured_radius", "measured_semimajor_axis"} & set(keys)) < 2

    def case(bname, ov):
        def f():
            o = base[bname]()
            kw = {k: v for d in ov for k, v in d.items()}
            before = snap(o)
            nv = [k for k in kw if k in ("projectile_velocity", "projectile_vertical_velocity", "projectile_angle")]
            c = Crater.maker(o, scaling=s, **kw)
            chk.execd(), chk.trans()
            chk.expect(snap(o) == before, "the original crater changed")
            chk.expect(c is not o and c._var is not o._var, "not a copy")
            consistent(chk, c, str(kw))
            resized = bool(SIZE & set(kw))
            want = {k: before[k] for k in PERSIST}
            if "longitude" in kw:
                want["location"] = (kw["longitude"], kw["latitude"])
            if "location" in kw:
                want["location"] = (10.0, 20.0)
            for k in PERSIST:
                if k in kw and k != "location":
                    want[k] = kw[k]
            if "production_ND" in kw:
                want["production_ND"] = (1.0, 5.0, 0.0)
            if "projectile_vertical_velocity" in kw:
                if "projectile_velocity" in kw:
                    want["projectile_angle"] = math.degrees(math.asin(5000.0 / kw["projectile_velocity"]))
                else:
                    want["projectile_velocity"] = 5000.0 / math.sin(math.radians(kw.get("projectile_angle", before["projectile_angle"])))
            for k, w in want.items():
                g = getattr(c, k)
                ok = g == w or (isinstance(w, tuple) and g is not None and tuple(g) == tuple(w)) or (isinstance(w, float) and isinstance(g, float) and close(g, w, 1e-9) and k != "time")
                chk.expect(ok, lambda: f"copy with {kw}: {k} is {g}, expected {w}")
            if resized:
                for k in SIZE & set(kw):
                    if k != "projectile_mass":
                        chk.expect(close(getattr(c, k), kw[k], 1e-9), lambda: f"copy with {kw}: {k} is {getattr(c, k)}")
                chk.expect(close(c.projectile_density, before["projectile_density"]) , lambda: f"copy with {kw}: projectile density {c.projectile_density}")
                if not any(k.startswith("measured_") for k in kw) and bname != "annotated":
                    chk.expect(close(c.measured_diameter, c.diameter), lambda: f"copy with {kw}: measured {c.measured_diameter} of a crater of {c.diameter}")
                ref = Crater.maker(scaling=s, **{k: v for k, v in kw.items() if k in SIZE or k == "semiminor_axis"}, projectile_velocity=c.projectile_velocity, projectile_angle=c.projectile_angle,
                                   projectile_density=before["projectile_density"], orientation=c.orientation, location=c.location, time=c.time)
                for k in FIXED[1:]:
                    a, b = getattr(c, k), getattr(ref, k)
                    chk.expect(a == b or (isinstance(a, float) and close(a, b)), lambda: f"copy with {kw}: {k} is {a}, a new crater of that size has {b}")
            else:
                for k in ("semimajor_axis", "semiminor_axis", "transient_diameter", "projectile_diameter", "projectile_mass", "morphology_type"):
                    chk.expect(getattr(c, k) == before[k], lambda: f"copy with {kw}: {k} changed to {getattr(c, k)}")
                if not any(k.startswith("measured_") for k in kw):
                    for k in ("measured_semimajor_axis", "measured_semiminor_axis"):
                        chk.expect(getattr(c, k) == before[k], lambda: f"copy with {kw}: {k} changed to {getattr(c, k)}")
                fixedchange = {k: getattr(c, k) for k in FIXED[1:]} != {k: before[k] for k in FIXED[1:]}
                chk.expect((c.id != before["id"]) == fixedchange, lambda: f"copy with {kw}: identifier {'changed' if c.id != before['id'] else 'kept'}")
            if "measured_diameter" in kw or "measured_radius" in kw:
                chk.expect(close(c.measured_diameter, 700.0) and c.measured_semimajor_axis == c.measured_semiminor_axis == 350.0, lambda: f"copy with {kw}: measured diameter {c.measured_diameter}")
            if "measured_semimajor_axis" in kw:
                chk.expect((c.measured_semimajor_axis, c.measured_semiminor_axis) == (900.0, 800.0), lambda: f"copy with {kw}: measured axes {c.measured_semimajor_axis, c.measured_semiminor_axis}")
            if "measured_location" in kw:
                chk.expect(tuple(c.measured_location) == (1.0, 2.0), lambda: f"copy with {kw}: measured location {c.measured_location}")
            if "measured_orientation" in kw:
                chk.expect(c.measured_orientation == 5.0, lambda: f"copy with {kw}: measured orientation {c.measured_orientation}")
            # changing the copy must not reach the original
            c.measured_diameter = 1.0
            c.name = "X"
            c.measured_location = (0.0, 0.0)
            chk.expect(snap(o) == before, "changing the copy changed the original")
            chk.state(bname, kw)

        return f

    depth = 3 if chk.thorough else 2
    for bname in base:
        for r in range(depth + 1):
            for ov in itertools.combinations(OVER, r):
                if sub_ok(ov):
                    yield f"{bname} {ov}", case(bname, ov)


ASSIGN = [
    ("measured_diameter", 3000.0), ("measured_diameter", 9000.0), ("measured_radius", 2500.0), ("measured_semimajor_axis", 4000.0), ("measured_semimajor_axis", 1000.0), ("measured_semiminor_axis", 500.0),
    ("measured_semiminor_axis", 6000.0), ("measured_orientation", 370.0), ("measured_location", (190.0, 10.0)), ("measured_rim_height", 4.0), ("degradation_state", 2.0), ("name", "N"),
    ("measured_radius", -1.0), ("measured_semimajor_axis", -2.0), ("measured_semiminor_axis", 0.0),
]


def part_assign(chk):
    """every sequence of assignments to measured attributes follows the reference model; fixed attributes never change"""
    s = Scaling.maker("ctem")

    def case(first):
        def f():
            o = Crater.maker(diameter=5000.0, scaling=s, **BASE)
            fixed = {k: getattr(o, k) for k in FIXED}
            for k in FIXED:
                chk.execd(), chk.trans()
                try:
                    setattr(o, k, 1.0)
                except (AttributeError, TypeError):
                    pass
                else:
                    chk.fail(f"assigning {k} raises no error")
                chk.expect(getattr(o, k) == fixed[k], f"{k} changed")
            for seq in itertools.product(ASSIGN, repeat=(4 if chk.thorough else 3) - 1):
                c = Crater.maker(o)
                m = {"measured_semimajor_axis": 2500.0, "measured_semiminor_axis": 2500.0, "measured_orientation": 200.0, "measured_location": (12.0, -34.0)}
                for k, v in (first,) + seq:
                    chk.trans()
                    bad = isinstance(v, float) and v <= 0
                    try:
                        setattr(c, k, v)
                        chk.expect(not bad, lambda: f"{k} = {v} accepted")
                    except ValueError:
                        chk.expect(bad, lambda: f"{k} = {v} rejected")
                    if not bad:
                        if k in ("measured_diameter", "measured_radius"):
                            r = v / 2 if k == "measured_diameter" else v
                            m["measured_semimajor_axis"] = m["measured_semiminor_axis"] = r
                        elif k.endswith("axis"):
                            other = "measured_semiminor_axis" if "major" in k else "measured_semimajor_axis"
                            ax = sorted([v, m[other]])
                            m["measured_semiminor_axis"], m["measured_semimajor_axis"] = ax
                        elif k == "measured_orientation":
                            m[k] = 10.0
                        elif k == "measured_location":
                            m[k] = (-170.0, 10.0)
                        else:
                            m[k] = v
                    for kk, w in m.items():
                        g = getattr(c, kk)
                        chk.expect(g == w or (isinstance(w, tuple) and tuple(g) == w), lambda: f"after {(first,) + seq}: {kk} is {g}, expected {w}")
                    chk.expect(close(c.measured_radius, math.sqrt(m["measured_semimajor_axis"] * m["measured_semiminor_axis"])) and close(c.measured_diameter, 2 * c.measured_radius), "measured size inconsistent")
                chk.expect({k: getattr(c, k) for k in FIXED} == fixed, lambda: f"after {(first,) + seq}: fixed attributes changed")
                chk.execd()
                chk.state(m)

        return f

    for a in ASSIGN:
        yield f"{a}", case(a)


def part_ids(chk):
    """craters that differ in any fixed input get different identifiers, equal ones equal identifiers"""
    s = Scaling.maker("ctem")

    def f():
        menu = {"diameter": (1000.0, 1000.0000001, 50000.0), "location": ((1.0, 2.0), (2.0, 1.0), (1.0, 2.0000001), (-1.0, -2.0)), "time": (None, 1.0, 10.0), "projectile_angle": (45.0, 44.0), "projectile_velocity": (1e4, 1.1e4), "orientation": (0.0, 90.0)}
        seen = {}
        for combo in itertools.product(*menu.values()):
            kw = dict(zip(menu, combo))
            c = Crater.maker(scaling=s, **kw)
            d = Crater.maker(scaling=s, name="other", measured_diameter=5.0, **kw)
            chk.execd(2), chk.trans(2)
            chk.expect(c.id == d.id, lambda: f"{kw}: name or measured size changes the identifier")
            chk.expect(int(c.id) not in seen, lambda: f"{kw} and {seen[int(c.id)]} have the same identifier {c.id}")
            chk.expect(0 <= int(c.id) < 2**32, "identifier out of range")
            seen[int(c.id)] = kw
            chk.state(int(c.id))

    yield "ids", f


PARTS = [("sizes", part_sizes), ("exclusive", part_exclusive), ("copy", part_copy), ("assign", part_assign), ("ids", part_ids)]
