"""Every short history of emplacing, overprinting, degrading, tallying and removing craters, against a model of their tags."""

import itertools
import warnings

import dask
import numpy as np
from cratermaker import Crater, Simulation
from cratermaker.components.morphology.basicmoon import BasicMoonCrater

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "every sequence of up to 3 of 12 operations (8 craters from unresolvable to hemispheric, tally, degrade, fill, remove) on an icosphere, with tags, lists and numbers compared after each; the same with counting off and on a high resolution surface for up to 2; chains of up to 12 nested craters in every size order pattern; tallies of every region with and without rim measurement",
    "thorough": "sequences of up to 4 operations (3 elsewhere), on two meshes",
}
NOTE = "Oracle: a set of tagged faces per crater: all of its region when it forms, less the interior of every larger crater formed later, none once it is removed or its measured degradation exceeds its visibility; recomputed here for copies of the craters."
LEVEL = "implementation"
dask.config.set(scheduler="synchronous")
R = 1737530.0
MENU = {
    "A": dict(diameter=1.7 * R, location=(0.0, 0.0), time=90.0, rng_seed=1),
    "B": dict(diameter=1.65 * R, location=(35.0, 5.0), time=80.0, rng_seed=2),
    "C": dict(diameter=2.4 * R, location=(20.0, -10.0), time=70.0, rng_seed=3),
    "D": dict(diameter=1.75 * R, location=(175.0, 40.0), time=60.0, rng_seed=4),
    "E": dict(diameter=3.2 * R, location=(10.0, 5.0), time=55.0, rng_seed=7),
    "F": dict(diameter=1.6 * R, location=(-60.0, -70.0), rng_seed=8),
    "s": dict(diameter=0.5 * R, location=(5.0, 5.0), time=50.0, rng_seed=5),
    "u": dict(diameter=50.0, location=(60.0, 41.0), time=45.0, rng_seed=6),
}
HIRES = {
    "A": dict(diameter=0.16 * R, location=(10.0, 20.0), time=90.0, rng_seed=1),
    "B": dict(diameter=0.15 * R, location=(12.0, 21.0), time=80.0, rng_seed=2),
    "C": dict(diameter=0.3 * R, location=(9.0, 19.0), time=70.0, rng_seed=3),
    "D": dict(diameter=1.7 * R, location=(-150.0, -20.0), time=60.0, rng_seed=4),
    "E": dict(diameter=1.2 * R, location=(40.0, 20.0), time=55.0, rng_seed=7),
    "s": dict(diameter=0.05 * R, location=(11.0, 20.0), time=50.0, rng_seed=5),
}
MIN_FACES = 100
_sims = {}


def make(kind, **k):
    key = (kind, tuple(sorted(k.items())))
    if key not in _sims:
        k = {"do_subpixel_degradation": False, **k}
        with quiet():
            if kind == "hires":
                k.update(surface="hireslocal", pix=0.01 * R, local_radius=0.12 * R, local_location=(10.0, 20.0), superdomain_scale_factor=1000)
            else:
                k["gridlevel"] = int(kind[3:])
            _sims[key] = Simulation(simdir=scratch("sim_"), ask_overwrite=False, save_actions=None, rng_seed=5, **k)
    return _sims[key]


def clear(sim):
    with quiet():
        sim.morphology._init_queue_manager()
        sim.surface.reset()
        sim.counting.reset()
    sim.rng.bit_generator.state = np.random.default_rng(7).bit_generator.state


def tags(s):
    if "crater_id" not in s.uxds:
        return {}
    a = s.uxds["crater_id"].values
    return {int(i): frozenset(np.flatnonzero((a == i).any(axis=1)).tolist()) for i in np.unique(a) if i}


def everything_else(s):
    return {v: s.uxds[v].values.copy() for v in s.uxds.data_vars if v != "crater_id"}


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[v], b[v]) for v in a)


class Model:
    """Tagged faces per crater."""

    def __init__(self, sim, menu, exact=True):
        self.sim, self.s, self.menu, self.exact = sim, sim.surface, menu, exact
        self.tags, self.known, self.emplaced, self.gone = {}, {}, [], set()

    def faces(self, region):
        return frozenset(np.arange(self.s.n_face)[region.face_indices].tolist())

    def copy(self, c):
        return BasicMoonCrater.maker(crater=Crater.maker(**self.menu[c]), morphology=self.sim.morphology)

    def form(self, name):
        c = self.copy(name)
        if c.crater_region is None or np.pi * c.crater_region.radius**2 <= self.s.face_area[c.face_index]:
            return False
        self.emplaced.append(int(c.id))
        self.known[int(c.id)] = name
        if not self.sim.morphology.do_counting or c.crater_region.n_face < MIN_FACES:
            return True
        inside = self.faces(c.crater_region.extract_subregion(c.radius))
        for i in list(self.tags):
            if self.menu[self.known[i]]["diameter"] < c.diameter:
                self.tags[i] -= inside
        self.tags[int(c.id)] = self.faces(c.crater_region)
        self.gone.discard(int(c.id))
        return True

    def tally(self, ids=None):
        for i in list(self.tags):
            if not self.tags[i]:
                self.drop(i)
            elif ids is None or i in ids:
                c = self.copy(self.known[i])
                k = self.sim.counting
                with quiet():
                    if k.measure_degradation_state(c) >= k.visibility_function(c):
                        self.drop(i)

    def drop(self, i):
        self.tags.pop(i, None)
        self.gone.add(i)

    def check(self, chk, what):
        k = self.sim.counting
        here = tags(self.s)
        chk.expect({int(i) for i in k.observed} == set(here), f"{what}: {sorted(self.names(k.observed))} are counted but {sorted(self.names(here))} are tagged")
        for i, c in k.observed.items():
            chk.expect(int(i) == int(c.id), f"{what}: crater {c.id} is counted as {i}")
        chk.expect([int(c.id) for c in k.emplaced] == self.emplaced, f"{what}: emplaced {self.names(int(c.id) for c in k.emplaced)}, expected {self.names(self.emplaced)}")
        chk.expect(k.n_emplaced == self.sim.n_emplaced == len(self.emplaced), f"{what}: n_emplaced is {k.n_emplaced}, {self.sim.n_emplaced}")
        chk.expect(k.n_observed == len(here), f"{what}: n_observed is {k.n_observed}")
        chk.expect(self.sim.n_observed == (len(here) if self.sim.do_counting else None), f"{what}: sim.n_observed is {self.sim.n_observed}")
        if self.exact:
            chk.expect(set(here) == set(self.tags), f"{what}: {self.names(here)} are counted, expected {self.names(self.tags)}")
            for i in here:
                chk.expect(here[i] == self.tags[i], lambda i=i: f"{what}: {self.known[i]} has {len(here[i] - self.tags[i])} tagged faces too many and {len(self.tags[i] - here[i])} too few")
        back = self.gone & set(here)
        chk.expect(not back, f"{what}: {self.names(back)} came back")
        if not self.exact:
            self.gone |= {i for i in self.emplaced if i not in here}
        return here

    def names(self, ids):
        return [self.known.get(int(i), str(i)) for i in ids]


def apply(chk, m, op, what):
    sim, s, k = m.sim, m.s, m.sim.counting
    if op in m.menu:
        before = everything_else(s)
        with quiet():
            sim.emplace(Crater.maker(**m.menu[op]))
            formed = m.form(op)
        if not formed:
            chk.expect(same(before, everything_else(s)), f"{what}: something changed")
        m.tally() if sim.do_counting else None
        return
    with quiet():
        if op == "degrade":
            s.apply_diffusion(np.linspace(0.5, 20.0, s.n_face) * s.face_area)
            return
        if op == "fill":
            r = s.extract_region((10.0, 5.0), 0.6 * R)
            r.update_elevation(-r.face_elevation)
            return
        before = everything_else(s)
        if op == "tally":
            k.tally()
            m.tally()
        elif op == "remove":
            for i in list(k.observed)[:1]:
                k.remove(i)
                m.drop(int(i))
        chk.expect(same(before, everything_else(s)), f"{what}: counting changed the surface")


def histories(chk):
    worlds = [("ico3", {}, MENU, 4 if chk.thorough else 3, True), ("ico3", {"do_counting": False}, MENU, 2, True), ("hires", {}, HIRES, 3 if chk.thorough else 2, False)]
    if chk.thorough:
        worlds.append(("ico4", {}, MENU, 2, True))
    extra = ("tally", "degrade", "fill", "remove")
    for kind, opt, menu, depth, exact in worlds:
        for first in itertools.product([*menu, *extra], repeat=min(depth - 1, 2)):

            def case(kind=kind, opt=opt, menu=menu, depth=depth, exact=exact, first=first):
                sim = make(kind, **opt)
                for rest in itertools.product([*menu, *extra], repeat=depth - len(first)):
                    w = first + rest
                    crat = [x for x in w if x in menu]
                    if len(set(crat)) < len(crat) or not crat:
                        continue
                    clear(sim)
                    m = Model(sim, menu, exact)
                    for n, op in enumerate(w):
                        what = f"{kind} {opt or ''} {' '.join(w[: n + 1])}"
                        apply(chk, m, op, what)
                        chk.trans()
                        here = m.check(chk, what)
                    chk.execd()
                    chk.state(kind, str(opt), sorted((m.known[i], len(f)) for i, f in here.items()), m.emplaced)
                    chk.outcome(f"{len(here)} observed")

            yield f"{kind} {opt or ''} {' '.join(first)} …", case


def chains(chk):
    """Nested craters, more than a face has places for."""
    sizes = [3.0, 2.7, 2.4, 2.2, 2.0, 1.9, 1.8, 1.75, 1.7, 1.65, 1.62, 1.6]
    orders = {
        "falling": sizes,
        "equal": [1.8] * 12,
        "rising": sizes[::-1],
        "saw": [x for p in zip(sizes[:6], sizes[6:], strict=True) for x in p],
        "saw up": [x for p in zip(sizes[::-1][:6], sizes[::-1][6:], strict=True) for x in p],
    }
    for oname, ds in orders.items():
        for degrading in (True, False):
            for step in (0.0, 3.0, 11.0):

                def case(oname=oname, ds=ds, degrading=degrading, step=step):
                    sim = make("ico3")
                    clear(sim)
                    menu = {f"{n}": dict(diameter=d * R, location=(step * n, 0.5 * step * n), time=90.0 - n, rng_seed=n) for n, d in enumerate(ds)}
                    m = Model(sim, menu, exact=False)
                    k = sim.counting
                    if not degrading:
                        object.__setattr__(k, "measure_degradation_state", lambda c, **kw: 0.0)
                    try:
                        for n in range(len(ds)):
                            what = f"{oname}, {'degrading' if degrading else 'not degrading'}, {step} degrees apart, {n + 1} craters"
                            with quiet(), warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                sim.emplace(Crater.maker(**menu[str(n)]))
                                m.form(str(n))
                            here = m.check(chk, what)
                            chk.trans()
                            chk.state(oname, degrading, step, n, len(here))
                            chk.expect(int(k.emplaced[-1].id) in here or degrading, f"{what}: the last crater is not counted")
                        chk.execd()
                    finally:
                        if not degrading:
                            object.__delattr__(k, "measure_degradation_state")

                yield f"{oname} {degrading} {step}", case


def regions(chk):
    """Tallies of parts of the surface concern the craters in them, and repeated tallies change nothing more."""
    places = {"all": None, "A": ((0.0, 0.0), 0.5 * R), "D": ((175.0, 40.0), 0.4 * R), "empty": ((-90.0, 0.0), 0.3 * R), "half": ((0.0, 0.0), 1.5 * R)}
    for w in (("A", "D"), ("B", "D", "F"), ("A", "B", "C", "D"), ("E", "D"), ("A",), ()):
        for damage in ("none", "degrade", "flatten"):
            for rname, reg in places.items():
                for rim in (False, True):

                    def case(w=w, damage=damage, rname=rname, reg=reg, rim=rim):
                        sim = make("ico3")
                        clear(sim)
                        s, k = sim.surface, sim.counting
                        m = Model(sim, MENU)
                        for x in w:
                            apply(chk, m, x, x)
                        what = f"{' '.join(w)} {damage} tally {rname} {'with rims' if rim else ''}"
                        with quiet():
                            if damage == "degrade":
                                s.apply_diffusion(np.full(s.n_face, 30.0) * s.face_area)
                            elif damage == "flatten":
                                s.update_elevation(np.zeros(s.n_face + s.n_node), overwrite=True)
                            before = everything_else(s)
                            region = None if reg is None else s.extract_region(*reg)
                            k.tally(**({} if region is None else {"region": region}), measure_rim=rim)
                            ids = None if region is None else {i for i, f in tags(s).items() | m.tags.items() if f & m.faces(region)}
                            m.tally(ids)
                        chk.execd()
                        chk.expect(same(before, everything_else(s)), f"{what}: the surface changed")
                        m.exact = not rim
                        here = m.check(chk, what)
                        chk.state(w, damage, rname, rim, sorted(here))
                        if not rim:
                            with quiet():
                                k.tally(quiet=True)
                                k.tally()
                            m.tally()
                            m.check(chk, what + ", tally twice more")

                    yield f"{' '.join(w)} {damage} {rname} {rim}", case


def options(chk):
    """Options of a tally reach the measurement of every crater."""
    for fc, fe in itertools.product((True, False), repeat=2):
        for w in itertools.permutations("ABDF", 3):

            def case(fc=fc, fe=fe, w=w):
                sim = make("ico3")
                clear(sim)
                m = Model(sim, MENU)
                for x in w:
                    apply(chk, m, x, x)
                k = sim.counting
                seen = []

                def fit(crater, **kw):
                    seen.append((int(crater.id), kw.get("fit_center", False), kw.get("fit_ellipse", False)))
                    return crater

                object.__setattr__(k, "fit_rim", fit)
                try:
                    with quiet():
                        k.tally(measure_rim=True, fit_center=fc, fit_ellipse=fe)
                finally:
                    object.__delattr__(k, "fit_rim")
                chk.execd()
                chk.state(fc, fe, w)
                chk.expect(sorted(seen) == sorted((i, fc, fe) for i in m.tags), f"{w}: fitted {[(m.known[i], a, b) for i, a, b in seen]} with fit_center={fc}, fit_ellipse={fe}")

            yield f"{fc} {fe} {''.join(w)}", case


PARTS = [("histories", histories), ("chains", chains), ("regions", regions), ("options", options)]
