"""Every short list of craters from a menu, emplaced in every form, with a failure at every point."""

import itertools
import shutil

import dask
import numpy as np
from cratermaker import Crater, Simulation
from cratermaker.components.morphology import MorphologyCrater
from cratermaker.components.morphology.basicmoon import BasicMoonCrater

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "every list of up to 3 of 6 craters (overlapping, disjoint, covering everything, too small for the mesh, without a time) formed for real as one list and one at a time; every list of up to 4 with recorded formation; 7 ways to hand over craters; a failure at each formation step of every list of up to 3 followed by another list; every order of up to 4 dated craters for the degradation; runs with scripted populations and user given craters",
    "thorough": "lists of up to 4 formed for real, of up to 6 recorded, failures in lists of up to 4, on two meshes",
}
NOTE = "Oracle: the same craters formed one after the other in the order of the list, each by its own call. Degradation below the mesh size is switched off where results are compared, because it is applied between the times of a group of craters by design; its time spans are monitored separately."
LEVEL = "implementation"
dask.config.set(scheduler="synchronous")
R = 1737400.0
MENU = {
    "A": dict(diameter=0.5 * R, location=(0.0, 0.0), time=90.0, rng_seed=1),
    "B": dict(diameter=0.4 * R, location=(12.0, 5.0), time=80.0, rng_seed=2),
    "C": dict(diameter=0.45 * R, location=(170.0, -20.0), time=70.0, rng_seed=3),
    "D": dict(diameter=1.7 * R, location=(60.0, 40.0), time=60.0, rng_seed=4),
    "e": dict(diameter=50.0, location=(60.0, 41.0), time=50.0, rng_seed=5),
    "F": dict(diameter=0.42 * R, location=(-90.0, -60.0), rng_seed=6),
}
_sims = {}


def make(gridlevel=3, fresh=False, **k):
    key = (gridlevel, tuple(sorted(k.items())))
    if fresh or key not in _sims:
        with quiet():
            sim = Simulation(simdir=scratch("sim_"), gridlevel=gridlevel, ask_overwrite=False, save_actions=None, rng_seed=5, **k)
        if fresh:
            return sim
        _sims[key] = sim
    return _sims[key]


def crater(name):
    return Crater.maker(**MENU[name])


def clear(sim):
    with quiet():
        sim.morphology._init_queue_manager()
        sim.surface.reset()
        sim.counting.reset()
    sim.rng.bit_generator.state = np.random.default_rng(7).bit_generator.state


def result(sim, tallied=True):
    s = sim.surface
    data = {}
    for v in sorted(s.uxds.data_vars):
        x = np.array(s.uxds[v].values)
        if np.any(x):
            data[v] = x.tobytes()
    return {
        "variables": data,
        "emplaced": [identity(c) for c in sim.counting.emplaced],
        "observed": sorted(identity(c) for c in sim.counting.observed.values()) if tallied else None,
    }


def identity(c):
    return (int(c.id), c.diameter, tuple(c.location), c.time)


def differ(chk, what, a, b):
    for k in b:
        if k == "variables":
            d = [v for v in sorted(set(a[k]) | set(b[k])) if a[k].get(v) != b[k].get(v)]
            chk.expect(not d, f"{what}: {d} differ")
        else:
            chk.expect(a[k] == b[k], f"{what}: {k} is {a[k]}, not {b[k]}")


def words(n, menu=MENU):
    for k in range(1, n + 1):
        yield from itertools.product(menu, repeat=k)


def lists(chk):
    """One call with a list against one call per crater, with the real formation."""
    for gl in (3, 2) if chk.thorough else (3,):
        for w in words(4 if chk.thorough else 3, "ABCDe" if chk.thorough else "ABCDeF"):
            if len(set(w)) < len(w):
                continue

            def case(gl=gl, w=w):
                sim = make(gl, do_subpixel_degradation=False)
                what = f"{''.join(w)} on mesh {gl}"
                clear(sim)
                with quiet():
                    for x in w:
                        sim.emplace([crater(x)])
                    one = result(sim)
                    clear(sim)
                    sim.emplace([crater(x) for x in w])
                chk.execd()
                chk.trans(len(w))
                many = result(sim)
                chk.state(gl, w, [c[0] for c in many["emplaced"]])
                differ(chk, f"{what} as one list", many, one)
                with quiet():
                    ids = [int(sim.morphology.Crater.maker(crater=crater(x)).id) for x in w if x != "e"]
                chk.expect([c[0] for c in many["emplaced"]] == ids, f"{what}: emplaced {many['emplaced']}")
                chk.expect(sim.morphology._queue_manager is None or sim.morphology._queue_manager.is_empty, f"{what}: craters are left in the queue")
                if set(w) == {"e"}:
                    chk.expect(not many["variables"] and not many["observed"], f"{what}: a crater too small for the mesh changed {list(many['variables'])}")

            yield f"{gl}{''.join(w)}", case


def order(chk):
    """Which craters are formed in which order, for lists that overlap in every pattern."""
    n = 6 if chk.thorough else 4
    for first in itertools.product(MENU, repeat=2):

        def case(first=first):
            sim = make(3, do_subpixel_degradation=False)
            clear(sim)
            formed = []
            object.__setattr__(sim.morphology, "form_crater", lambda c, **k: formed.append(c))
            try:
                base = {x: sim.morphology.Crater.maker(crater=crater(x)) for x in MENU}
                for k in range(0, n - 1):
                    for rest in itertools.product(MENU, repeat=k):
                        w = first + rest
                        cs = [base[x] for x in w]
                        if n > 4 and len(w) == n and w[0] != "A":
                            continue
                        if len({id(c) for c in cs}) < len(cs):  # the same crater twice is two objects
                            seen = set()
                            for i, c in enumerate(cs):
                                if id(c) in seen:
                                    cs[i] = sim.morphology.Crater.maker(crater=crater(w[i]))
                                seen.add(id(c))
                        formed.clear()
                        with quiet():
                            sim.emplace(cs)
                        chk.execd()
                        chk.state(w)
                        want = [c for x, c in zip(w, cs, strict=True) if x != "e"]
                        chk.expect(
                            len(formed) == len(want) and all(a is b or int(a.id) == int(b.id) for a, b in zip(formed, want, strict=True)),
                            lambda: f"{''.join(w)}: formed {[identity(c) for c in formed]}, expected {[identity(c) for c in want]}",
                        )
                        chk.expect(len({id(c) for c in formed}) == len(formed), f"{''.join(w)}: a crater was formed twice")
            finally:
                object.__delattr__(sim.morphology, "form_crater")

        yield f"{''.join(first)}…", case


def forms(chk):
    """Craters handed over as any accepted type mean the same, and belong to the surface they are emplaced on."""
    other = {}

    def foreign(cls):
        def conv(sim, w):
            if "sim" not in other:
                other["sim"] = make(2, fresh=True, do_subpixel_degradation=False)
            o = other["sim"]
            clear(o)
            return [cls(o, crater(x)) for x in w]

        return conv

    def emplaced_elsewhere(sim, w):
        cs = foreign(lambda o, c: c)(sim, w)
        with quiet():
            return other["sim"].emplace(cs)

    FORMS = {
        "tuple": lambda sim, w: tuple(crater(x) for x in w),
        "morphology craters": lambda sim, w: [sim.morphology.Crater.maker(crater=crater(x)) for x in w],
        "generic morphology craters": lambda sim, w: [MorphologyCrater.maker(crater=crater(x), morphology=sim.morphology) for x in w],
        "basic moon craters": lambda sim, w: [BasicMoonCrater.maker(crater=crater(x), morphology=sim.morphology) for x in w],
        "emplaced before": lambda sim, w: _before(sim, w),
        "craters of another simulation": foreign(lambda o, c: o.morphology.Crater.maker(crater=c)),
        "craters emplaced in another simulation": emplaced_elsewhere,
    }

    def _before(sim, w):
        with quiet():
            cs = sim.emplace([crater(x) for x in w])
        clear(sim)
        return cs

    for w in words(2):
        if len(set(w)) < len(w):
            continue
        for fname, form in FORMS.items():

            def case(w=w, fname=fname, form=form):
                sim = make(3, do_subpixel_degradation=False)
                what = f"{''.join(w)} as {fname}"
                clear(sim)
                with quiet():
                    sim.emplace([crater(x) for x in w])
                ref = result(sim)
                clear(sim)
                with quiet():
                    cs = form(sim, w)
                    clear(sim)
                    there = result(other["sim"]) if "sim" in other else None
                    sim.emplace(cs)
                chk.execd()
                chk.state(w, fname)
                differ(chk, what, result(sim), ref)
                if "another" in fname:
                    differ(chk, f"{what}: the other simulation", result(other["sim"]), there)
                if len(w) == 1:
                    clear(sim)
                    with quiet():
                        sim.emplace(cs[0])
                    differ(chk, f"{what}, not in a list", result(sim), ref)

            yield f"{''.join(w)} {fname}", case


class Boom(Exception):
    pass


def failures(chk):
    """A failure while forming the k-th crater leaves nothing behind that a later call would form."""
    for w in words(4 if chk.thorough else 3, "ABCD"):
        if len(set(w)) < len(w):
            continue
        for k in range(len(w)):

            def case(w=w, k=k):
                sim = make(3, do_subpixel_degradation=False)
                clear(sim)
                what = f"{''.join(w)} fails at {w[k]}"
                cls = type(sim.morphology)
                calls = [0]

                def shape(self, *a, **kw):
                    calls[0] += 1
                    if calls[0] == k + 1:
                        raise Boom
                    return cls.crater_shape(self, *a, **kw)

                object.__setattr__(sim.morphology, "crater_shape", lambda *a, **kw: shape(sim.morphology, *a, **kw))
                try:
                    with quiet():
                        sim.emplace([crater(x) for x in w])
                    chk.fail(f"{what}: the failure was swallowed")
                except Boom:
                    pass
                finally:
                    object.__delattr__(sim.morphology, "crater_shape")
                chk.execd()
                before = [identity(c) for c in sim.counting.emplaced]
                chk.expect([c[1] for c in before] == [MENU[x]["diameter"] for x in w[:k]], f"{what}: recorded {before}")
                formed = []
                object.__setattr__(sim.morphology, "form_crater", lambda c, **kw: formed.append(c.diameter))
                try:
                    with quiet():
                        sim.emplace([crater("F")])
                finally:
                    object.__delattr__(sim.morphology, "form_crater")
                chk.state(w, k)
                chk.expect(formed == [MENU["F"]["diameter"]], f"{what}, then F is emplaced: formed {formed}")

            yield f"{''.join(w)} {k}", case


def spans(chk):
    """No stretch of time is degraded twice, and none outside of the times of the craters."""
    menu = "ABCF"
    for n in (1, 2, 3, 4):
        for w in itertools.product("ABCF", repeat=n):
            for ts in ((90.0, 80.0, 70.0, 60.0), (90.0, 90.0, 70.0, 70.0), (90.0, None, 70.0, 0.0)):

                def case(w=w, ts=ts):
                    sim = make(3)
                    clear(sim)
                    log = []
                    m = sim.morphology
                    object.__setattr__(m, "form_crater", lambda c, **k: log.append(("form", c.time)))
                    object.__setattr__(m, "compute_subpixel_degradation", lambda time_start, time_end, **k: log.append((time_start, time_end)))
                    try:
                        cs = [m.Crater.maker(crater=Crater.maker(**{**MENU[x], "time": t})) for x, t in zip(w, ts, strict=False)]
                        with quiet():
                            sim.emplace(cs)
                    finally:
                        object.__delattr__(m, "form_crater")
                        object.__delattr__(m, "compute_subpixel_degradation")
                    chk.execd()
                    chk.state(w, ts, len(log))
                    times = [c.time for c in cs if c.time is not None]
                    chk.expect([x[1] for x in log if x[0] == "form"] == [c.time for c in cs], f"{''.join(w)} {ts}: {log}")
                    sp = [x for x in log if x[0] != "form"]
                    last = max(times, default=None)
                    for a, b in sp:
                        chk.expect(a > b, f"{''.join(w)} {ts}: degraded from {a} to {b}")
                        chk.expect(a <= last and b >= min(times), f"{''.join(w)} {ts}: degraded from {a} to {b} outside of the times or again ({sp})")
                        last = b

                yield f"{''.join(w)} {ts}", case


def runs(chk):
    """A simulated population is formed oldest first, whatever order it is drawn in and whatever craters the user adds."""
    for gen in ("crater", "projectile"):
        for perm in itertools.permutations((3000.0, 2000.0, 2500.0, 100.0)):
            for quasi in ((), (2200.0,), (2999.0, 50.0)):

                def case(gen=gen, perm=perm, quasi=quasi):
                    d = scratch("run_")
                    given = [Crater.maker(diameter=0.4 * R, location=(5.0 + k, 5.0), production_time=t, rng_seed=k) for k, t in enumerate(quasi)]
                    with quiet():
                        sim = Simulation(simdir=d, gridlevel=2, ask_overwrite=False, save_actions=None, rng_seed=5, production={"crater": "neukum", "projectile": "powerlaw"}[gen], quasimc_craters=given or None)
                    p = sim.production
                    chk.expect(p.generator_type == gen or gen == "projectile", f"{p.generator_type}")
                    object.__setattr__(p, "sample", lambda **k: (np.linspace(0.3, 0.6, len(perm)) * R * (1.0 if p.generator_type == "crater" else 0.1), np.array(perm)))
                    got = []
                    object.__setattr__(sim.morphology, "form_crater", lambda c, **k: got.append(c))
                    with quiet():
                        sim.populate(age=3800.0)
                    chk.execd()
                    chk.state(gen, perm, quasi)
                    t = [c.time for c in got]
                    chk.expect(t == sorted(t, reverse=True), f"drawn {perm}, given {quasi}: formed at {t}")
                    if quasi:
                        for c in sim.production.quasimc_craters:
                            chk.expect(t.count(c.time) == 1, f"drawn {perm}, given {quasi}: formed at {t} without {c.time}")
                        chk.expect(set(t) <= {*perm, *(c.time for c in sim.production.quasimc_craters)}, f"drawn {perm}, given {quasi}: formed at {t}")
                    else:
                        chk.expect(sorted(t) == sorted(perm), f"drawn {perm}: formed at {t}")
                    shutil.rmtree(d, ignore_errors=True)

                yield f"{gen} {perm} {quasi}", case


PARTS = [("lists", lists), ("order", order), ("forms", forms), ("failures", failures), ("spans", spans), ("runs", runs)]
