"""Random streams: every combination of generator, state and seed; every pair of histories; every interleaving of two simulations."""

import copy
import hashlib
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np
from cratermaker import Counting, Crater, Morphology, Production, Projectile, Scaling, Simulation, Surface
from cratermaker.utils import montecarlo_utils as mcu

from checks import c03
from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "every combination of 5 kinds of generator, 5 kinds of state and 3 seeds, absent or present, for 16 calls of 7 samplers, 12 components, stand-alone craters and new and reopened simulations; 10 simulation kinds x every history of at most 2 of 12 operations by 3 ways of starting, in 2 surroundings; every interleaving of pairs of histories of 3 operations of two simulations; every sequence of at most 3 of 11 assignments of generators and states and uses; 4 process environments",
    "thorough": "the same with histories of 3 operations, assignments of 4 and interleavings of 4 operations",
}
NOTE = "Oracle: the same call with an explicit generator placed in the expected state (whose effect is decided by identity and by state after the call); the same history executed alone, elsewhere, or in another process."
GEN = ["PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"]
SEEDS = [0, 7, 2**40 + 1]
HERE = Path(__file__).resolve().parent.parent


def gen(kind, n):
    """A generator of this kind, in the middle of its stream."""
    g = np.random.Generator(getattr(np.random, kind)(1000 + n))
    g.normal(size=n)
    g.integers(0, 10, dtype=np.uint32)
    return g


def st(g):
    return json.dumps(_plain(g.bit_generator.state))


def _plain(v):
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in sorted(v.items())}
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v.item() if isinstance(v, np.generic) else v


def combos(some=False):
    """Every way to ask for a stream: (name, keywords, expected generator)."""
    rs, ss, es = ([None, *GEN], [None, *GEN], [None, *SEEDS]) if not some else ([None, "PCG64", "Philox"], [None, "PCG64", "MT19937"], [None, 0, 7])
    full = [(r, s, e) for r in rs for s in ss for e in es if (r, s, e) != (None, None, None)]
    for r, s, e in full:
        kw = {}
        if r is not None:
            kw["rng"] = gen(r, 3)
        if s is not None:
            kw["rng_state"] = gen(s, 5).bit_generator.state
        if e is not None:
            kw["rng_seed"] = e
        ref = gen(r, 3) if r is not None else gen(s, 5) if s is not None else np.random.default_rng(e)
        yield f"{r} {s} {e}", kw, ref


def set_globals(n):
    """Results must not depend on the global streams."""
    np.random.seed(n)
    random.seed(n)


def val(o):
    """What a call gave, as plain values."""
    if isinstance(o, Crater):
        return {n: _r(getattr(o, n, None)) for n in c03.FIELDS if n != "ejecta_region"}
    if hasattr(o, "as_dict") and not isinstance(o, dict):
        return {str(k): _r(v) for k, v in o.as_dict().items() if not str(k).startswith("rng")}
    if isinstance(o, dict):
        return {str(k): val(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [val(x) for x in o]
    return _r(o)


def _r(v):
    if isinstance(v, (np.ndarray, list, tuple)):
        a = np.asarray(v)
        return [_r(x) for x in a.tolist()] if a.dtype.names is None else repr(a.tolist())
    if isinstance(v, np.generic):
        v = v.item()
    return repr(v)


DIAMS = np.array([1e3, 2e3, 5e3, 1e4, 3e4])
CDF = np.array([100.0, 40.0, 9.0, 3.0, 0.2])


def samplers(uxgrid):
    yield "location", lambda **k: mcu.get_random_location(**k)
    yield "locations", lambda **k: mcu.get_random_location(size=4, **k)
    yield "location on a face", lambda **k: mcu.get_random_location_on_face(uxgrid, 5, **k)
    yield "locations on faces", lambda **k: mcu.get_random_location_on_face(uxgrid, [5, 0, 7], **k)
    yield "angle", lambda **k: mcu.get_random_impact_angle(**k)
    yield "angles", lambda **k: mcu.get_random_impact_angle(size=3, **k)
    yield "direction", lambda **k: mcu.get_random_impact_direction(**k)
    yield "directions", lambda **k: mcu.get_random_impact_direction(size=(2, 2), **k)
    yield "sizes", lambda **k: mcu.get_random_size(DIAMS, CDF, size=5, **k)
    yield "sizes by mean", lambda **k: mcu.get_random_size(DIAMS, CDF, mu=12.5, **k)
    yield "velocity", lambda **k: mcu.get_random_velocity(1.5e4, **k)
    yield "velocities", lambda **k: mcu.get_random_velocity(1.5e4, size=6, **k)
    yield "velocities above escape", lambda **k: mcu.get_random_velocity(2.2e4, vescape=2e4, size=6, **k)
    yield "bounded", lambda **k: mcu.bounded_norm(3.0, 0.5, **k)
    yield "bounded many", lambda **k: mcu.bounded_norm(3.0, 0.5, size=4, **k)
    yield "bounded explicitly", lambda **k: mcu.bounded_norm(3.0, 0.5, lower_bound=2.9, upper_bound=5.0, **k)


def judge(chk, what, kw, ref, call, stream=None):
    """One call with the given combination, and one with a generator in the expected state."""
    given = kw.get("rng")
    before = copy.deepcopy({k: v for k, v in kw.items() if k != "rng"})
    set_globals(11)
    a = call(**kw)
    chk.expect(json.dumps(_plain({k: v for k, v in kw.items() if k != "rng"})) == json.dumps(_plain(before)), lambda: f"{what}: the arguments were changed")
    mine = copy.deepcopy(ref)
    set_globals(12)
    b = call(rng=mine)
    chk.expect(val(a[0] if stream else a) == val(b[0] if stream else b), lambda: f"{what}: not what the stream that takes precedence gives: {str(val(a[0] if stream else a))[:150]} instead of {str(val(b[0] if stream else b))[:150]}")
    if given is not None:
        chk.expect(st(given) == st(mine), lambda: f"{what}: the given generator is not in the state that its draws leave it in")
    if stream:
        chk.expect(st(a[1]) == st(mine), lambda: f"{what}: continues with another stream")
        chk.expect(b[1] is mine, lambda: f"{what}: a given generator is not the one that is used")
        if given is not None:
            chk.expect(a[1] is given, lambda: f"{what}: a given generator is not the one that is used, with others given")
    chk.state((what, json.dumps(val(a[0] if stream else a))))
    chk.execd(2)
    chk.outcome("ok")
    return a


def part_samplers(chk):
    """an explicit generator wins over a state and a state over a seed, in every sampler"""
    uxgrid = None
    d = scratch("rs_")
    with quiet():
        uxgrid = Surface.maker("icosphere", gridlevel=1, simdir=d, ask_overwrite=False, rng_seed=1).uxgrid

    def case(f):
        def run():
            used = set()
            for n, kw, ref in combos():
                a = judge(chk, n, kw, ref, f)
                used.add(json.dumps(val(a)))
            chk.expect(len(used) == len(GEN) * 2 + len(SEEDS), lambda: f"{len(used)} different results of {len(GEN) * 2 + len(SEEDS)} different streams")
            # a stream is consumed: two calls are not the same, and equal those of an equal stream
            for k in GEN:
                g1, g2 = gen(k, 3), gen(k, 3)
                x = [val(f(rng=g1)), val(f(rng=g1))]
                y = [val(f(rng=g2)), val(f(rng=g2))]
                chk.expect(x == y, f"{k}: two streams in the same state differ")
                chk.expect(x[0] != x[1], f"{k}: the stream does not advance")
                chk.execd(4)

        return run

    for n, f in samplers(uxgrid):
        yield n, case(f)


def comp_calls():
    """name -> function of the stream keywords that gives (draws, generator of the component)."""

    def surface(d, **k):
        return Surface.maker("icosphere", gridlevel=1, simdir=d, ask_overwrite=False, **k)

    def projectile(name, **more):
        def f(d, **k):
            p = Projectile.maker(name, simdir=d, ask_overwrite=False, **more, **k)
            q = p.new_projectile()
            return [val(p.velocity), val(p.angle), val(p.direction), val(p.location)] + [_r(getattr(x, n)) for x in (q, p.new_projectile()) for n in ("velocity", "angle", "direction", "location")] + [q.rng is p.rng], p.rng

        return f

    for n, more in [("asteroids", {}), ("comets", {}), ("generic", {"mean_velocity": 1.5e4}), ("generic", {"mean_velocity": 1.5e4, "velocity": 1.2e4})]:
        yield f"projectile {n} {'velocity' if 'velocity' in more else ''}", projectile(n, **more)

    def production(name, **more):
        def f(d, **k):
            p = Production.maker(name, simdir=d, ask_overwrite=False, **more, **k)
            x = p.sample(time_start=3900.0, time_end=3800.0, area=1e12, diameter_range=(2e4, 1e6))
            return [x, p.sample(diameter_number=(3e4, 1e-3), area=1e12, diameter_range=(2e4, 1e6))], p.rng

        return f

    yield "production neukum", production("neukum")
    yield "production powerlaw", production("powerlaw", N1_coef=1e-4)
    yield "production projectile", production("neukum", version="projectile")

    def scaling(name, **more):
        def f(d, **k):
            s = Scaling.maker(name, simdir=d, ask_overwrite=False, **more, **k)
            out = [_r(getattr(s, n)) for n in ("K1", "mu", "Ybar", "transition_diameter", "final_exp", "simple_enlargement_factor", "complex_enlargement_factor") if hasattr(s, n)]
            if name == "montecarlo":
                out.append(val(s.projectile_to_crater(s.projectile.new_projectile(diameter=1e3, mass=1e12)) if hasattr(s, "projectile_to_crater") else None))
            out += [_r(s.final_to_transient(2e4)), _r(s.transient_to_final(1.5e4)), _r(s.final_to_transient(3e5))]
            return out, s.rng

        return f

    yield "scaling montecarlo", scaling("montecarlo")
    yield "scaling ctem", scaling("ctem")

    def morphology(name, **more):
        def f(d, **k):
            s = surface(d, **k)
            g = k.get("rng", s.rng)
            m = Morphology.maker(name, surface=s, simdir=d, ask_overwrite=False, rng=g, do_counting=False, **more)
            c = m.Crater.maker(diameter=9e5, location=(10.0, 20.0), morphology=m, rng=g) if hasattr(m, "Crater") else None
            c = c or Crater.maker(diameter=9e5, location=(10.0, 20.0), rng=g)
            m.emplace(c)
            return [hashlib.sha1(np.ascontiguousarray(s.face_elevation)).hexdigest(), hashlib.sha1(np.ascontiguousarray(s.uxds["ejecta_thickness"].values)).hexdigest()], m.rng

        return f

    yield "morphology basicmoon", morphology("basicmoon", dorays=True)
    yield "morphology realisticmoon", morphology("realisticmoon")

    def onface(d, **k):
        s = surface(d, **k)
        out = [val(s.get_random_location_on_face(3)), val(s.get_random_location_on_face([1, 2]))]
        s.apply_noise(noise_width=1e5, noise_height=1e3) if hasattr(s, "apply_noise") else None
        return [*out, hashlib.sha1(np.ascontiguousarray(s.face_elevation)).hexdigest()], s.rng

    yield "surface", onface

    def counting(d, **k):
        s = surface(d, rng_seed=1)
        c = Counting.maker("depthcount", surface=s, simdir=d, ask_overwrite=False, **k)
        return [], c.rng

    yield "counting", counting


def part_components(chk):
    """an explicit generator wins over a state and a state over a seed, in every component, and it is the one that is used"""

    def case(f):
        def run():
            d = scratch("rc_")
            try:
                for n, kw, ref in combos(not chk.thorough):

                    def call(**k):
                        with quiet():
                            return f(d / "x", **k)

                    judge(chk, n, kw, ref, call, stream=True)
                    shutil.rmtree(d / "x", ignore_errors=True)
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return run

    for n, f in comp_calls():
        yield n, case(f)


def crater_calls():
    yield "by diameter", {"diameter": 3e4}
    yield "by radius", {"radius": 3e4}
    yield "by transient diameter", {"transient_diameter": 3e4}
    yield "by projectile", {"projectile_diameter": 1e3}
    yield "by projectile with velocity", {"projectile_diameter": 1e3, "projectile_velocity": 1.2e4, "projectile_angle": 30.0}
    yield "with mean velocity", {"diameter": 3e4, "projectile_mean_velocity": 1.7e4}
    yield "with location", {"diameter": 3e4, "location": (1.0, 2.0)}
    yield "by mass", {"projectile_mass": 1e12}


def part_craters(chk):
    """the same for stand-alone craters"""

    def case(args):
        def run():
            d = scratch("rk_")
            try:
                for n, kw, ref in combos():

                    def call(**k):
                        with quiet():
                            return Crater.maker(simdir=d, **args, **k)

                    judge(chk, n, kw, ref, call)
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return run

    for n, a in crater_calls():
        yield n, case(a)


COMPS = ["target", "production", "projectile", "scaling", "surface", "counting", "morphology"]
NESTED = [("scaling", "projectile"), ("scaling", "target"), ("production", "target"), ("surface", "target"), ("morphology", "surface"), ("morphology", "counting"), ("morphology", "production"), ("morphology", "scaling"), ("counting", "surface"), ("projectile", "target")]


def shared(s):
    bad = [n for n in COMPS if getattr(s, n).rng is not s.rng]
    for a, b in NESTED:
        o = getattr(getattr(s, a), b, None)
        if o is not None and o.rng is not s.rng:
            bad.append(f"{a}.{b}")
    return bad


def part_simulation(chk):
    """the same for simulations, new and opened again; all components share the stream"""

    def case(kind, again):
        def run():
            d = scratch("rm_")
            try:
                if again:
                    s = c03.build(d / "base", kind, rng_seed=31)
                    with quiet():
                        s.emplace(diameter=5e5)
                        s.save()
                    del s
                for n, kw, ref in combos(not chk.thorough):
                    if again and n.split()[2] == "7":
                        continue

                    def call(**k):
                        if again:
                            shutil.copytree(d / "base", d / "x")
                        with quiet():
                            s = Simulation(simdir=d / "x", ask_overwrite=False, save_actions=None, **k) if again else c03.build(d / "x", kind, **{"rng_seed": None, **k})
                            bad = shared(s)
                            chk.expect(not bad, lambda: f"{n}: another stream in {bad}")
                            chk.expect(s.is_new == (not again), "new or not")
                            s.emplace(diameter=6e5)
                            s.emplace(projectile_diameter=5e4)
                            out = c03.fingerprint(s)
                        bad = shared(s)
                        chk.expect(not bad, lambda: f"{n}: another stream in {bad} after emplacing")
                        r = s.rng
                        shutil.rmtree(d / "x", ignore_errors=True)
                        return out, r

                    judge(chk, n, kw, ref, call, stream=True)
                if again:  # and when none is given, that which was saved
                    def saved(**k):
                        return call_again(**k)

                    with quiet():
                        shutil.copytree(d / "base", d / "x")
                        s = Simulation(simdir=d / "x", ask_overwrite=False)
                        a = st(s.rng)
                        import yaml

                        c = yaml.safe_load((d / "base" / "cratermaker.yaml").read_text()) if (d / "base" / "cratermaker.yaml").exists() else None
                        if c:
                            r = np.random.default_rng()
                            r.bit_generator.state = c["simulation_config"]["rng_state"] if "simulation_config" in c else c["rng_state"]
                            chk.expect(a == st(r), "the saved state is not continued")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return run

    for k in ["plain", "real", "rays", "fixed", "comets", "power", "nomc"]:
        yield f"new {k}", case(k, False)
    for k in ["plain", "real", "fixed", "comets"]:
        yield f"again {k}", case(k, True)


# --- histories ---------------------------------------------------------------------------------------------------------
def o_emplace(s):
    return s.emplace(diameter=0.5 * s.surface.radius)


def o_random(s):
    return s.emplace(projectile_diameter=0.04 * s.surface.radius)


def o_batch(s):
    s.emplace([s.Crater.maker(diameter=f * s.surface.radius) for f in (0.7, 0.6, 0.8)])


def o_population(s):
    s.populate(time_start=4000.0, time_end=3900.0)


def o_run(s):
    s.run(time_start=3900.0, time_end=3800.0, ninterval=2)


def o_sample(s):
    return s.production.sample(time_start=3900.0, time_end=3800.0, area=1e12, diameter_range=(2e4, 1e6))


def o_projectile(s):
    p = s.projectile.new_projectile()
    return [p.velocity, p.angle, p.direction, p.location]


def o_onface(s):
    return s.surface.get_random_location_on_face([3, 4])


def o_save(s):
    s.save()


def o_tally(s):
    s.counting.tally(measure_rim=False, quiet=True)


def o_noise(s):
    s.surface.apply_noise(noise_width=1e6, noise_height=1e3)


def o_crater(s):
    return s.Crater.maker(diameter=4e4)


OPS = {"emplace": o_emplace, "random": o_random, "batch": o_batch, "population": o_population, "run": o_run, "sample": o_sample, "projectile": o_projectile, "face": o_onface, "save": o_save, "tally": o_tally, "crater": o_crater, "noise": o_noise}
KINDS = ["plain", "power", "real", "rays", "fixed", "comets", "ctem", "nomc", "custom", "quasimc"]


def do(s, op):
    with quiet():
        return val(OPS[op](s))


def final(s):
    f = c03.fingerprint(s)
    f.pop("rng")
    f["stream"] = st(s.rng)
    return f


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def start(how, d, kind):
    if how == "seed":
        return c03.build(d, kind, rng_seed=5)
    g = np.random.default_rng(5)
    g = gen("PCG64", 4)
    return c03.build(d, kind, rng_seed=None, **({"rng_state": g.bit_generator.state} if how == "state" else {"rng": g}))


def alone(d, kind, ops, how="seed"):
    s = start(how, d, kind)
    tr = [digest(final(s))]
    for op in ops:
        r = do(s, op)
        tr.append((op, digest(r), digest(final(s))))
    return tr


def where(a, b):
    for i, (x, y) in enumerate(zip(a, b, strict=True)):
        if x != y:
            return f"differs after operation {i} ({x[0] if isinstance(x, tuple) else 'none'})"
    return "differs"


def part_histories(chk):
    """two simulations that start alike go alike, whatever the surroundings"""
    depth = 3 if chk.thorough else 2

    def case(kind, first):
        def run():
            d = scratch("rh_")
            cwd = os.getcwd()
            try:
                i = 0
                for rest in itertools.product(OPS, repeat=depth - 1):
                    ops = [first, *rest]
                    how = ["seed", "state", "generator"][i % 3]
                    i += 1
                    set_globals(i)
                    a = alone(d / "a", kind, ops, how)
                    # elsewhere: another directory (relative, with another name), other global streams, another simulation that is alive
                    (d / "elsewhere" / "there").mkdir(parents=True)
                    os.chdir(d / "elsewhere")
                    set_globals(i + 1000)
                    other = c03.build(d / "elsewhere" / "o", "comets" if i % 2 else "real", rng_seed=77, target="Mars")
                    do(other, "emplace")
                    b = alone(Path("there") / "b", kind, ops, how)
                    chk.expect(a == b, lambda: f"{ops} from the same {how}: {where(a, b)}")
                    for x in a:
                        chk.state((kind, x))
                    chk.execd(2)
                    chk.outcome(how)
                    os.chdir(cwd)
                    shutil.rmtree(d / "a"), shutil.rmtree(d / "elsewhere")
            finally:
                os.chdir(cwd)
                shutil.rmtree(d, ignore_errors=True)

        return run

    for k in KINDS:
        for first in OPS:
            yield f"{k}: {first}", case(k, first)


PAIRS = [
    ("plain", ["random", "population", "save"], "plain", ["emplace", "sample", "projectile"], 5, 6),
    ("plain", ["random", "emplace", "save"], "plain", ["random", "emplace", "save"], 5, 5),
    ("real", ["emplace", "noise", "projectile"], "comets", ["random", "face", "emplace"], 5, 5),
    ("custom", ["random", "random", "save"], "mars", ["population", "random", "tally"], 1, 1),
    ("power", ["sample", "random", "run"], "plain", ["run", "random", "save"], 3, 9),
    ("fixed", ["projectile", "emplace", "random"], "rays", ["emplace", "random", "crater"], 2, 2),
    ("ctem", ["random", "crater", "emplace"], "nomc", ["random", "crater", "emplace"], 4, 4),
    ("rays", ["batch", "emplace", "random"], "real", ["batch", "emplace", "random"], 8, 8),
]


def part_interleavings(chk):
    """two simulations in one process, in every interleaving: each goes as it goes alone"""

    def case(i, first_b):
        ka, oa, kb, ob, sa, sb = PAIRS[i]
        if chk.thorough:
            oa, ob = [*oa, "random"], [*ob, "random"]

        def run():
            d = scratch("ri_")
            try:
                def go(k, seed, dd, ops, on):
                    s = c03.build(dd, k, rng_seed=seed)
                    on(digest(final(s)))
                    yield
                    for op in ops:
                        r = do(s, op)
                        on((op, digest(r), digest(final(s))))
                        yield

                def solo(k, seed, dd, ops):
                    tr = []
                    for _ in go(k, seed, dd, ops, tr.append):
                        pass
                    return tr

                wa, wb = solo(ka, sa, d / "a", oa), solo(kb, sb, d / "b", ob)
                n = len(oa) + 1
                for pos in itertools.combinations(range(n + len(ob) + 1), n):
                    if (0 in pos) == first_b:
                        continue
                    ta, tb = [], []
                    ga, gb = go(ka, sa, d / "ia", oa, ta.append), go(kb, sb, d / "ib", ob, tb.append)
                    for t in range(n + len(ob) + 1):
                        next(ga if t in pos else gb, None)
                        chk.trans()
                    chk.expect(ta == wa and tb == wb, lambda: f"interleaving {pos}: the {'first' if ta != wa else 'second'} simulation {where(ta, wa) if ta != wa else where(tb, wb)}")
                    chk.execd()
                    chk.state((i, pos))
                    shutil.rmtree(d / "ia"), shutil.rmtree(d / "ib")
                chk.outcome("ok")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return run

    for i in range(len(PAIRS)):
        for fb in (False, True):
            yield f"{PAIRS[i][0]} {PAIRS[i][1]} with {PAIRS[i][2]} {PAIRS[i][3]}, {'second' if fb else 'first'} one first", case(i, fb)


ASSIGN = {
    "rng": lambda s: setattr(s, "rng", gen("PCG64", 8)),
    "rng of another kind": lambda s: setattr(s, "rng", gen("Philox", 8)),
    "state": lambda s: setattr(s, "rng_state", gen("PCG64", 6).bit_generator.state),
    "state of another kind": lambda s: setattr(s, "rng_state", gen("MT19937", 6).bit_generator.state),
    "state of a component": lambda s: setattr(s.projectile, "rng_state", gen("PCG64", 6).bit_generator.state),
    "nothing": lambda s: setattr(s, "rng_state", None),
    "emplace": o_emplace,
    "random": o_random,
    "run": o_run,
    "save": o_save,
    "reset": lambda s: s.reset(),
}


def part_assignments(chk):
    """whatever generator, state or component is assigned, all components go on sharing one stream: that which was assigned"""
    depth = 4 if chk.thorough else 3

    def case(first):
        def run():
            d = scratch("ra_")
            try:
                for n in range(depth):
                    for rest in itertools.product(ASSIGN, repeat=n):
                        seq = [first, *rest]
                        if n == depth - 1 and seq[-1] not in ("emplace", "random", "state of another kind", "rng") and not chk.thorough:
                            continue
                        s = c03.build(d / "x", "plain")
                        try:
                            for op in seq:
                                g = s.rng
                                if op == "state of a component" and type(g.bit_generator).__name__ != "PCG64":
                                    break  # a state of another kind is for that component alone
                                before = st(g)
                                with quiet():
                                    ASSIGN[op](s)
                                if op.startswith("rng"):
                                    chk.expect(st(s.rng) == st(gen("Philox" if "kind" in op else "PCG64", 8)), lambda: f"{seq}: the assigned generator is not used")
                                elif op.startswith("state"):
                                    chk.expect(st(s.rng) == st(gen("MT19937" if "kind" in op else "PCG64", 6)), lambda: f"{seq}: the assigned state is not used")
                                else:
                                    chk.expect(s.rng is g, lambda: f"{seq}: {op} changes the generator")
                                bad = shared(s)
                                chk.expect(not bad, lambda: f"{seq}: after {op} another stream in {bad}")
                                chk.state((op, st(s.rng)))
                                chk.trans()
                        except (ValueError, TypeError, AttributeError) as e:
                            chk.fail(f"{seq}: {type(e).__name__} {e}"[:200])
                        chk.execd()
                        shutil.rmtree(d / "x", ignore_errors=True)
                chk.outcome("ok")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return run

    for a in ASSIGN:
        yield a, case(a)


CHILD = """import sys, json
sys.path.insert(0, {here!r})
from mc import core; core.bootstrap()
import warnings; warnings.simplefilter("ignore")
from pathlib import Path
from checks import c01
import numpy, random
numpy.random.seed({n}); random.seed({n})
out = {{}}
for kind, ops in {jobs!r}:
    out[kind + ": " + " ".join(ops)] = c01.alone(Path({d!r}) / (kind + "_" + "_".join(ops)), kind, ops)
print("RESULT" + json.dumps(out))
"""
JOBS = [(k, o) for k in KINDS for o in (["batch", "random", "save"], ["population", "emplace", "tally"], ["run", "noise", "projectile"])]
ENVS = {
    "as it is": {},
    "other hashes": {"PYTHONHASHSEED": "1"},
    "more hashes": {"PYTHONHASHSEED": "4242"},
    "one thread": {"OMP_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "RAYON_NUM_THREADS": "1", "PYTHONHASHSEED": "7"},
    "another zone": {"TZ": "Asia/Tokyo", "LC_ALL": "C", "PYTHONHASHSEED": "99"},
    "another home": {"HOME": "/nonexistent", "COLUMNS": "20", "PYTHONHASHSEED": "31337"},
}


def part_processes(chk):
    """the same history in processes with other hashes, threads, zones and directories"""

    def case(k):
        def run():
            jobs = [j for j in JOBS if j[0] == k]
            d = scratch("rp_")
            try:
                res = {}
                for i, (n, env) in enumerate(ENVS.items()):
                    if i % 2 and i > 1 and not chk.thorough:
                        continue
                    w = d / f"w{i}"
                    (w / "sub").mkdir(parents=True)
                    code = CHILD.format(here=str(HERE), n=i, jobs=jobs, d=str(w) if i % 2 else "sub")
                    r = subprocess.run([sys.executable, "-B", "-c", code], cwd=w, env={**os.environ, **env}, capture_output=True, text=True)
                    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
                    if not line:
                        raise RuntimeError(r.stderr[-500:])
                    res[n] = json.loads(line[0][6:])
                    chk.execd(len(jobs))
                base = res["as it is"]
                for n, x in res.items():
                    for j in base:
                        chk.expect(x[j] == base[j], lambda: f"{n}: {j} {where([tuple(t) if isinstance(t, list) else t for t in base[j]], [tuple(t) if isinstance(t, list) else t for t in x[j]])}")
                        chk.state((j, n))
                chk.outcome("ok")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return run

    for k in KINDS:
        yield k, case(k)


PARTS = [("samplers", part_samplers), ("components", part_components), ("craters", part_craters), ("simulation", part_simulation), ("histories", part_histories), ("interleavings", part_interleavings), ("assignments", part_assignments), ("processes", part_processes)]
