"""Projectiles: given quantities are kept, the rest derived or sampled, copies are faithful, invalid values rejected."""

import copy
import itertools

import numpy as np
from cratermaker import Projectile, Target

from mc.scripted import ScriptedRNG, fair

BOUNDS = {
    "quick": "3 populations + default x 6 targets x sample on/off x all subsets of 5 given quantities x 4 value profiles (typical, equal to the defaults, extreme); histories of 3 operations; 2 answers per draw",
    "thorough": "as quick with histories of 4 operations and all 28 targets plus a user-defined one",
}
NOTE = "Oracle: reference model of a projectile with its population tables."

AST = {"Mercury": 41100.0, "Venus": 29100.0, "Earth": 24600.0, "Moon": 22100.0, "Mars": 10700.0, "Ceres": 5300.0, "Vesta": 5300.0}
COM = {
    "Io": 32000.0, "Europa": 26000.0, "Ganymede": 20000.0, "Callisto": 15000.0, "Mimas": 27000.0, "Enceladus": 24000.0, "Tethys": 21000.0,
    "Dione": 19000.0, "Rhea": 16000.0, "Titan": 10500.0, "Miranda": 12500.0, "Ariel": 10300.0, "Umbriel": 8700.0, "Titania": 6800.0,
    "Oberon": 5900.0, "Triton": 8200.0, "Pluto": 1900.0, "Charon": 1800.0,
}
DENSITY = {"asteroids": 2250.0, "comets": 500.0, "generic": 1000.0}
GIVEN = {"velocity": 5123.0, "angle": 33.0, "direction": 200.0, "location": (370.0, 10.0), "density": 3210.0}
# coincidences with defaults and means, and extreme values
PROFILES = {
    "typical": GIVEN,
    "defaults": {"velocity": "mean", "angle": 90.0, "direction": 0.0, "location": (0.0, 0.0), "density": 3210.0},
    "edges": {"velocity": 1.0, "angle": 0.0, "direction": 359.5, "location": (180.0, -90.0), "density": 1000.0},
    "edges2": {"velocity": 2e5, "angle": 1e-3, "direction": 180.0, "location": (-180.0, 90.0), "density": 1.0},
}
Q = ("velocity", "angle", "direction", "location", "density")


def tgt(name):
    if name == "Planet X":
        return Target.maker(name, radius=1e6, mass=1e22, transition_scale_type="ice", material="Ice")
    return Target.maker(name)


def loc(x):
    return tuple(float(v) for v in (x["lon"], x["lat"])) if getattr(x, "dtype", None) is not None and x.dtype.names else tuple(float(v) for v in x)


def view(p):
    return {"velocity": p.velocity, "angle": p.angle, "direction": p.direction, "location": loc(p.location), "density": p.density,
            "mean": p.mean_velocity, "sample": p.sample, "pop": p.population, "target": p.target.name}


def same(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9)


def population(pop, tname):
    if pop is None:
        return "asteroids" if tname in AST else "comets" if tname in COM else "generic"
    return pop


def consistent(chk, p, what):
    chk.expect(same(p.vertical_velocity, p.velocity * np.sin(np.deg2rad(p.angle))), f"{what}: vertical velocity {p.vertical_velocity}, velocity {p.velocity}, angle {p.angle}")
    chk.expect(p.density > 0 and p.velocity >= 0, f"{what}: {view(p)}")


def targets(chk):
    base = ["Moon", "Mars", "Europa", "Phobos", "Pluto", "Planet X"]
    return (sorted(AST) + sorted(COM) + ["Phobos", "Arrokoth", "Planet X"]) if chk.thorough else base


def part_make(chk):
    """every population x target x sampling flag x subset of given quantities"""

    def case(pop, tname, sample, keys, prof):
        def f():
            T = tgt(tname)
            kind = population(pop, tname)
            GIVEN = dict(PROFILES[prof])
            if GIVEN["velocity"] == "mean":
                GIVEN["velocity"] = 9000.0 if pop == "generic" else Projectile.maker(pop, target=T, rng=np.random.default_rng(1)).mean_velocity
            WANT = {**GIVEN, "location": ((GIVEN["location"][0] + 180.0) % 360.0 - 180.0, GIVEN["location"][1])}
            kw = {k: GIVEN[k] for k in keys}
            if pop == "generic":
                kw["mean_velocity"] = 9000.0
            mean = {"asteroids": AST.get(tname, AST["Moon"]), "comets": COM.get(tname, {"Moon": 17670.0, "Mars": 14210.0}.get(tname)), "generic": 9000.0 if pop == "generic" else 20000.0}[kind]
            seen = []
            for flip in (0, 1):
                rng = np.random.default_rng(10 + flip)
                chk.execd(), chk.trans(1 + len(keys))
                try:
                    p = Projectile.maker(pop, target=T, sample=sample, rng=rng, **kw)
                except ValueError as e:
                    chk.expect(kind == "generic" and not sample and "velocity" not in keys, lambda: f"rejected: {e}")
                    chk.outcome("rejected")
                    return
                if kind == "generic" and not sample:
                    chk.expect("velocity" in keys, "a generic projectile without any velocity was accepted")
                v = view(p)
                chk.expect(v["pop"] == kind, lambda: f"population {v['pop']}, expected {kind}")
                chk.expect(v["sample"] is sample, "sampling flag lost")
                chk.expect(p.target is T, "target object replaced")
                if mean is not None:
                    chk.expect(same(v["mean"], mean), lambda: f"mean velocity {v['mean']}, expected {mean}")
                default = {"velocity": v["mean"], "angle": 90.0, "direction": 0.0, "location": (0.0, 0.0), "density": DENSITY[kind]}
                for q in Q:
                    if q in keys:
                        chk.expect(same(v[q], WANT[q]), lambda: f"{q} given as {GIVEN[q]} became {v[q]}")
                    elif not sample or q == "density":
                        chk.expect(same(v[q], default[q]), lambda: f"{q} is {v[q]}, expected the default {default[q]}")
                consistent(chk, p, "made")
                for how, q in (("copy", copy.copy(p)), ("deepcopy", copy.deepcopy(p)), ("new_projectile", p.new_projectile())):
                    w = view(q)
                    chk.execd(), chk.trans()
                    consistent(chk, q, how)
                    for x in (*Q, "mean", "sample", "pop", "target"):
                        if how == "new_projectile" and sample and x in Q[:4]:
                            continue
                        chk.expect(same(w[x], v[x]) if not isinstance(v[x], (str, bool)) else w[x] == v[x], lambda: f"{how}: {x} is {w[x]}, not {v[x]}")
                    chk.expect(view(p) == v, f"{how} changed the original")
                seen.append(v)
                chk.state(v)
            if sample:
                for q in Q[:4]:
                    if q not in keys:
                        chk.expect(not same(seen[0][q], seen[1][q]), lambda: f"{q} does not depend on the random stream although it is to be sampled")
            chk.outcome("made")

        return f

    for pop in (None, "asteroids", "comets", "generic"):
        for tname in targets(chk):
            for sample in (True, False):
                for n in range(len(Q) + 1):
                    for keys in itertools.combinations(Q, n):
                        for prof in PROFILES if n else ("typical",):
                            yield f"{pop} {tname} sample={sample} {prof} {keys}", case(pop, tname, sample, keys, prof)


SETV = {"velocity": 777.0, "angle": 12.0, "direction": 99.0, "location": (-20.0, 5.0), "density": 1500.0, "mean_velocity": 8000.0}
HOPS = ["copy", "deepcopy", "new", "new velocity", "new angle", "new density", "maker", "maker angle"] + [f"set {k}" for k in SETV] + ["bad"]


def part_history(chk):
    """all sequences of copies, new projectiles and assignments: results match the model and older objects never change"""
    depth = 4 if chk.thorough else 3

    def step(p, m, op, chk, live):
        sample = m["sample"]
        if op in ("copy", "deepcopy"):
            q = copy.copy(p) if op == "copy" else copy.deepcopy(p)
            return q, dict(m)
        if op.startswith("new") or op == "maker angle":
            k = op.split()[1] if " " in op else None
            kw = {k: GIVEN[k]} if k else {}
            q = Projectile.maker(p, target=p.target, **kw) if op == "maker angle" else p.new_projectile(**kw)
            m2 = dict(m)
            for x in Q[:4]:
                if sample:
                    m2[x] = None  # any sampled value
            if k:
                m2[k] = GIVEN[k]
            chk.expect(q is not p, f"{op}: the same object was returned")
            return q, m2
        if op == "maker":
            q = Projectile.maker(p, target=p.target)
            chk.expect(q is p, "an instance is not used as it is")
            return p, m
        if op == "bad":
            for k, v in (("velocity", -1.0), ("angle", -1.0), ("direction", -1.0), ("density", -1.0), ("mean_velocity", -1.0), ("location", (1.0, 2.0, 3.0)), ("sample", 1), ("angle", "x"), ("density", "x"), ("velocity", "x")):
                try:
                    setattr(p, k, v)
                except Exception:
                    continue
                chk.fail(f"{k}={v!r} accepted")
            return p, m
        k = op.split()[1]
        setattr(p, k, SETV[k])
        m2 = dict(m)
        m2["mean" if k == "mean_velocity" else k] = SETV[k]
        return p, m2

    def match(p, m, op, chk):
        v = view(p)
        for k, w in m.items():
            if w is None:
                continue
            ok = same(v[k], w) if not isinstance(w, (str, bool)) else v[k] == w
            chk.expect(ok, lambda: f"after {op}: {k} is {v[k]}, expected {w}")
        consistent(chk, p, op)

    def case(pop, sample, first):
        def f():
            for rest in itertools.product(HOPS, repeat=depth - 1):
                rng = ScriptedRNG(default=fair, u_menu=(0.3, 0.6, 0.45, 0.7))
                p = Projectile.maker(pop, target=T0, sample=sample, rng=rng, mean_velocity=9000.0, velocity=4000.0, angle=45.0)
                m = view(p)
                m0 = [(p, m)]
                for op in (first,) + rest:
                    old = p
                    p, m = step(p, m, op, chk, m0)
                    match(p, m, op, chk)
                    m = {k: (w if w is not None else view(p)[k]) for k, w in m.items()}
                    if p is not old:
                        m0.append((p, m))
                    else:
                        m0[-1] = (p, m)
                    for q, mq in m0:
                        match(q, mq, f"{op} (an earlier object)", chk)
                    chk.trans()
                    chk.state({k: v for k, v in view(p).items()})
                    chk.expect(p.rng is rng, f"{op}: the random stream was replaced")
                chk.execd()

        return f

    T0 = tgt("Moon")
    for pop in ("asteroids", "comets", "generic"):
        for sample in (True, False):
            for first in HOPS:
                yield f"{pop} sample={sample} {first}", case(pop, sample, first)


def part_reject(chk):
    """every invalid value, alone and beside valid ones, for every population"""
    bad = [{"velocity": -1.0}, {"angle": -1.0}, {"direction": -1.0}, {"density": -1.0}, {"location": (1.0,)}, {"location": "here"}, {"velocity": "fast"}, {"angle": "steep"}, {"density": "heavy"}]

    def case(pop, sample, kw, extra):
        def f():
            chk.execd(), chk.trans()
            try:
                p = Projectile.maker(pop, sample=sample, rng=np.random.default_rng(1), **{"velocity": 5000.0, "mean_velocity": 5000.0, **extra, **kw})
            except Exception:
                chk.outcome("rejected")
                return
            chk.fail(f"accepted: {view(p)}")

        return f

    for pop in ("asteroids", "comets", "generic"):
        for sample in (True, False):
            for kw in bad:
                for extra in ({}, {"angle": 30.0, "density": 1000.0}):
                    yield f"{pop} {sample} {kw} {extra}", case(pop, sample, kw, extra)

    def unknown():
        for x in ("asteroid", "", 3, 1.5, ["asteroids"]):
            chk.execd(), chk.trans()
            try:
                Projectile.maker(x)
            except Exception:
                continue
            chk.fail(f"{x!r} accepted")

    yield "unknown population", unknown


PARTS = [("make", part_make), ("history", part_history), ("reject", part_reject)]
