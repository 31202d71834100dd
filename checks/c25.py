"""Selecting and wiring components: every registered component in every form of selection, and every pair of forms in a simulation."""

import itertools
import json
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np
from cratermaker import Counting, Morphology, Production, Projectile, Scaling, Simulation, Surface, Target
from cratermaker.core.base import ComponentBase

from checks import c24
from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "14 registered components by name, class and instance; 2 unknown names, 6 wrong types and every component of another kind, for 7 makers; 27 targets and defaults; every pair of 28 ways to give a component to a simulation, each opened twice; 96 ways to wire a morphology on its own; 72 ordered pairs of simulations in one process",
    "thorough": "the same, every triple of ways to give a component",
}
NOTE = "Oracle: object identity of target, surface, projectile, production, scaling, counting and generator across all components; the documented table of defaults; snapshots of a simulation made alone in its own process."
HERE = Path(__file__).resolve().parent.parent
COMPS = ["target", "production", "projectile", "scaling", "surface", "counting", "morphology"]
MAKERS = {"production": Production, "projectile": Projectile, "scaling": Scaling, "surface": Surface, "counting": Counting, "morphology": Morphology}
EXPECT = {"production": {"neukum", "powerlaw"}, "projectile": {"asteroids", "comets", "generic"}, "scaling": {"montecarlo", "ctem"}, "surface": {"icosphere", "arbitrary_resolution", "hireslocal", "datasurface"}, "counting": {"depthcount"}, "morphology": {"basicmoon", "realisticmoon"}}
DEFAULT = {"production": "neukum", "projectile": "asteroids", "scaling": "montecarlo", "surface": "icosphere", "counting": "depthcount", "morphology": "basicmoon"}
NEED = {"generic": {"mean_velocity": 1.5e4}, "arbitrary_resolution": {"pix": 1e6}, "hireslocal": {"pix": 5e5, "local_radius": 7e5, "local_location": (10.0, 20.0), "superdomain_scale_factor": 3.0}}
INNER = ["Mercury", "Venus", "Earth", "Moon", "Mars", "Vesta", "Ceres"]


def need(kind, name, d):
    kw = {"simdir": d, "ask_overwrite": False, "rng_seed": 3, **NEED.get(name, {})}
    if kind in ("morphology", "counting") or name == "icosphere":
        kw["gridlevel"] = 1
    if kind == "counting":
        kw["surface"] = Surface.maker("icosphere", **kw)
    return kw


def raises(chk, exc, f, what):
    try:
        with quiet():
            r = f()
    except exc:
        return
    except Exception as e:
        chk.fail(f"{what}: {type(e).__name__} instead of {exc.__name__}: {e}"[:300])
        return
    chk.fail(f"{what}: accepted as {type(r).__name__}")


def part_selection(chk):
    """by name, by class and by instance the same kind of component is made; an instance is used as it is"""

    def one(kind, name, form):
        def f():
            d = scratch("sel_")
            try:
                M = MAKERS[kind]
                cls = M._registry[name]
                kw = need(kind, name, d)
                with quiet():
                    if form == "name":
                        c = M.maker(name, **kw)
                    elif form == "keyword":
                        c = M.maker(**{kind: name}, **kw)
                    elif form == "class":
                        c = M.maker(cls, **kw)
                    else:
                        c0 = M.maker(name, **kw)
                        before = c24.props(c0, kind)
                        st = repr(c0.rng.bit_generator.state)
                        c = M.maker(c0)
                        chk.expect(c is c0, "an instance is not used as it is")
                        chk.expect(c24.props(c0, kind) == before, lambda: f"an instance is changed: {c24.diff(before, c24.props(c0, kind))}")
                        chk.expect(repr(c0.rng.bit_generator.state) == st, "an instance loses its generator state")
                chk.expect(type(c) is cls and c.component_name == name, lambda: f"{form} {name} makes {type(c).__name__} {c.component_name}")
                chk.expect(name in M.available() and M._registry[c.component_name] is type(c), "the registry does not know it")
                # the same by every form
                with quiet():
                    other = M.maker(name, **need(kind, name, d))
                if form != "instance" and kind != "projectile":
                    a, b = c24.props(c, kind), c24.props(other, kind)
                    for k in ["transition_diameter", "simple_enlargement_factor", "final_exp", "complex_enlargement_factor"]:
                        a.pop(k, None), b.pop(k, None)
                    chk.expect(a == b, lambda: f"{form} differs from the name: {c24.diff(b, a)}")
                chk.execd(2)
                chk.outcome(kind)
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for kind, M in MAKERS.items():
        for name in sorted(EXPECT[kind] - {"datasurface"}):
            for form in ["name", "keyword", "class", "instance"]:
                yield f"{kind} {name} {form}", one(kind, name, form)

    def bad(kind):
        def f():
            d = scratch("sel_")
            try:
                M = MAKERS[kind]
                chk.expect(EXPECT[kind] <= set(M.available()), lambda: f"registered {M.available()}")
                kw = need(kind, DEFAULT[kind], d)
                with quiet():
                    c = M.maker(**kw)
                chk.expect(c.component_name == DEFAULT[kind], lambda: f"default {c.component_name}")
                for name in ["nonsense", "", DEFAULT[kind] + " "]:
                    raises(chk, KeyError, lambda name=name: M.maker(name, **kw), f"unknown {kind} {name!r}")
                for v in [5, 2.5, True, ["icosphere"], {"a": 1}, object(), int, ComponentBase]:
                    raises(chk, TypeError, lambda v=v: M.maker(v, **kw), f"{kind} given as {v!r:.40}")
                for k2, M2 in MAKERS.items():
                    if k2 != kind:
                        n2 = DEFAULT[k2]
                        with quiet():
                            inst = M2.maker(n2, **need(k2, n2, d))
                        raises(chk, TypeError, lambda inst=inst: M.maker(inst, **kw), f"{kind} given as an instance of {k2}")
                        raises(chk, TypeError, lambda k2=k2, n2=n2: M.maker(MAKERS[k2]._registry[n2], **kw), f"{kind} given as a class of {k2}")
                        raises(chk, KeyError, lambda n2=n2: M.maker(n2, **kw), f"{kind} given as {n2}")
                with quiet():
                    t = Target.maker("Mars")
                raises(chk, TypeError, lambda: M.maker(t, **kw), f"{kind} given as a target")
                chk.execd(30)
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for kind in MAKERS:
        yield f"{kind} wrong", bad(kind)

    def target():
        with quiet():
            t = Target.maker("Mars", rng_seed=1)
        before = c24.props(t, "target")
        chk.expect(Target.maker(t) is t and c24.props(t, "target") == before, "a target is not used as it is")
        chk.expect(Target.maker().name == "Moon" and Target.maker(None).name == "Moon", "default target")
        for v in [5, 2.5, ["Mars"], {}, object()]:
            raises(chk, TypeError, lambda v=v: Target.maker(v), f"target given as {v!r:.40}")
        raises(chk, Exception, lambda: Target.maker("Nowhere"), "an unknown target without a size")
        for n in Target.maker("Moon")._catalogue:
            chk.expect(Target.maker(n).name == n, lambda: f"{n} is {Target.maker(n).name}")
            chk.execd()

    yield "target", target

    def sim_wrong(comp):
        def f():
            d = scratch("sel_")
            try:
                kw = {"simdir": d, "gridlevel": 1, "ask_overwrite": False, "rng_seed": 1}
                for v in [5, 2.5, ["a"], object()]:
                    raises(chk, TypeError, lambda v=v: Simulation(**{comp: v}, **kw), f"simulation with {comp} {v!r:.30}")
                if comp != "target":
                    raises(chk, KeyError, lambda: Simulation(**{comp: "nonsense"}, **kw), f"simulation with unknown {comp}")
                chk.execd(5)
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for comp in COMPS:
        yield f"simulation with a wrong {comp}", sim_wrong(comp)


def part_defaults(chk):
    """for every target the default components are those documented"""
    from cratermaker.components.projectile.asteroids import AsteroidProjectiles
    from cratermaker.components.projectile.comets import CometProjectiles

    names = [*Target.maker("Moon")._catalogue]

    def expected(n):
        production = "neukum" if n in INNER else "powerlaw"
        version = None if production == "powerlaw" else n if n in ("Moon", "Mars") else "Projectile"
        return production, version

    def case(n, how):
        def f():
            d = scratch("def_")
            try:
                kw = {"radius": 1e6, "mass": 1e22, "transition_scale_type": "ice", "material": "Sand"} if n == "Foo" else {}
                production, version = expected(n)
                if how == "simulation":
                    with quiet():
                        s = Simulation(simdir=d, target=n, gridlevel=1, ask_overwrite=False, rng_seed=2, **kw)
                    p, pr, t = s.production, s.projectile, s.target
                    chk.expect([s.scaling.component_name, s.surface.component_name, s.morphology.component_name, s.counting.component_name] == ["montecarlo", "icosphere", "basicmoon", "depthcount"], "defaults")
                    chk.expect(getattr(s.scaling, "material", None) == t.material if t.material else True, lambda: f"scaling for another material than {t.material}")
                else:
                    with quiet():
                        t = Target.maker(n, **kw) if how == "instance" or kw else n
                        p = Production.maker(target=t, rng_seed=2, simdir=d)
                        pr = Projectile.maker(target=t, rng_seed=2, simdir=d)
                    t = t if not isinstance(t, str) else Target.maker(t)
                chk.expect(p.component_name == production, lambda: f"production {p.component_name}")
                if version:
                    chk.expect(p.version == version, lambda: f"version {p.version}")
                gen = "crater" if production == "powerlaw" or version in ("Moon", "Mars") else "projectile"
                chk.expect(p.generator_type == gen, lambda: f"generator of {p.generator_type}s")
                kind = "asteroids" if n in AsteroidProjectiles._catalogue else "comets" if n in CometProjectiles._catalogue else "generic"
                chk.expect(pr.component_name == kind, lambda: f"projectile {pr.component_name}")
                chk.expect(n not in INNER or kind == "asteroids", "an inner body is not hit by asteroids")
                v = {"asteroids": AsteroidProjectiles._catalogue, "comets": CometProjectiles._catalogue}.get(kind, {}).get(n, 20.0e3)
                v = v if np.isscalar(v) else v.get("mean_velocity", v)
                chk.expect(pr.mean_velocity == v, lambda: f"mean velocity {pr.mean_velocity}, not {v}")
                chk.expect(pr.target.name == n, lambda: f"projectiles at {pr.target.name}")
                chk.execd(2)
                chk.outcome(f"{production} {kind}")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for n in [*names, "Foo"]:
        for how in ["simulation", "name", "instance"]:
            yield f"{n} {how}", case(n, how)
    def unknown_material():
        base = {"target": "Foo", "radius": 1e6, "mass": 1e22, "transition_scale_type": "silicate", "gridlevel": 1, "ask_overwrite": False, "rng_seed": 2, "mean_velocity": 1e4}
        for drop in [None, "K1", "mu", "Ybar", "density"]:
            for scaling in ["montecarlo", "ctem"]:
                d = scratch("def_")
                kw = {k: v for k, v in {"K1": 0.2, "mu": 0.5, "Ybar": 1e6, "density": 2100.0}.items() if k != drop}
                try:
                    if drop:
                        raises(chk, ValueError, lambda kw=kw, d=d, scaling=scaling: Simulation(simdir=d, scaling=scaling, **base, **kw), f"{scaling} for an unknown material without {drop}")
                    else:
                        with quiet():
                            s = Simulation(simdir=d, scaling=scaling, **base, **kw)
                        chk.expect((s.scaling.K1, s.scaling.mu, s.scaling.Ybar, s.target.density) == (0.2, 0.5, 1e6, 2100.0), f"the parameters given for an unknown material with {scaling}")
                    chk.execd()
                finally:
                    shutil.rmtree(d, ignore_errors=True)

    yield "unknown material", unknown_material
    for v in ["moon", "MOON", "Moon", "mars", "projectile", "Projectile"]:
        for p in [None, "neukum", "Neukum"]:

            def version(v=v, p=p):
                with quiet():
                    c = Production.maker(p, version=v, rng_seed=1)
                chk.expect(c.version == v.title() and c.component_name == "neukum", lambda: f"{p} {v} is {c.component_name} {c.version}")
                chk.execd()

            yield f"version {v} of {p}", version
    for n in ["Moon", "Mars", "Venus", "Europa"]:

        def neukum(n=n):
            with quiet():
                c = Production.maker("neukum", target=n, rng_seed=1)
            chk.expect(c.component_name == "neukum" and c.version == (n if n in ("Moon", "Mars") else "Projectile"), lambda: f"{c.version} for {n}")
            chk.execd()

        yield f"neukum on {n}", neukum


def wired(chk, s, when=""):
    for c in COMPS:
        o = getattr(s, c)
        chk.expect(isinstance(o, MAKERS.get(c, Target)), lambda: f"{when}{c} is a {type(o).__name__}")
        chk.expect(o.rng is s.rng, f"{when}{c} has a random generator of its own")
        if c in ("surface", "counting", "morphology"):
            chk.expect(o.simdir.resolve() == s.simdir.resolve(), lambda: f"{when}{c} is in {o.simdir}, not {s.simdir}")
    pairs = {
        "projectile.target": (s.projectile.target, s.target),
        "scaling.target": (s.scaling.target, s.target),
        "surface.target": (s.surface.target, s.target),
        "scaling.projectile": (s.scaling.projectile, s.projectile),
        "counting.surface": (s.counting.surface, s.surface),
        "counting.morphology": (s.counting.morphology, s.morphology),
        "morphology.surface": (s.morphology.surface, s.surface),
        "morphology.counting": (s.morphology.counting, s.counting),
        "morphology.scaling": (s.morphology.scaling, s.scaling),
        "morphology.production": (s.morphology.production, s.production),
    }
    for k, (a, b) in pairs.items():
        chk.expect(a is b, lambda: f"{when}{k} is another object ({type(a).__name__})")
    chk.expect(s.Crater is s.morphology.Crater and s.counting.Crater is s.morphology.Crater and s.production._Crater is s.morphology.Crater, f"{when}the kinds of crater differ")
    chk.expect(s.surface.radius == s.target.radius, f"{when}the radius of the surface")
    chk.state(tuple(getattr(s, c).component_name for c in COMPS if c != "target"))


def forms(d, tname, given=None):
    """label: (component, what makes it); countings and morphologies are made for the surface object that is given, if any"""

    def surf(t):
        s = (given or {}).get("surface")
        return s if isinstance(s, Surface) else Surface.maker("icosphere", target=t, gridlevel=1, **own)

    own = {"simdir": d, "ask_overwrite": False, "rng_seed": 91}
    f = {
        "target name": ("target", lambda t: tname),
        "target object": ("target", lambda t: t),
    }
    for kind in MAKERS:
        for name in sorted(EXPECT[kind] - {"datasurface"}):
            f[f"{kind} {name}"] = (kind, lambda t, kind=kind, name=name: name)
            kw = {**own, **NEED.get(name, {})}
            if kind in ("production", "scaling", "projectile", "surface"):
                f[f"{kind} {name} object"] = (kind, lambda t, kind=kind, name=name, kw=kw: MAKERS[kind].maker(name, target=t, **kw, **({"gridlevel": 1} if name == "icosphere" else {})))
            if kind == "surface":
                f[f"{kind} {name} class"] = (kind, lambda t, name=name: Surface._registry[name])
            if kind == "morphology":
                f[f"{kind} {name} object"] = (kind, lambda t, name=name: Morphology.maker(name, surface=surf(t), **own))
            if kind == "counting":
                f[f"{kind} {name} object"] = (kind, lambda t, name=name: Counting.maker(name, surface=surf(t), **own))
    return f


def part_wiring(chk):
    """in a simulation all components refer to the same objects, however each of them was given, also after it is opened again"""
    labels = list(forms("x", "Moon"))

    def case(ls, tname):
        def f():
            d = scratch("wir_")
            try:
                kw = {"simdir": d, "rng_seed": 8, "ask_overwrite": False, "mean_velocity": 1.5e4}
                if not any("generic" in x for x in ls):
                    kw.pop("mean_velocity")
                given = {}
                fs = forms(d, tname, given)
                with quiet():
                    t = Target.maker(tname, simdir=d, rng_seed=17, ask_overwrite=False)
                    for x in sorted(ls, key=lambda x: not x.startswith("surface")):
                        comp, mk = fs[x]
                        given[comp] = mk(t)
                    surf = given.get("surface")
                    nm = surf if isinstance(surf, str) else getattr(surf, "_component_name", "icosphere") if surf is not None else "icosphere"
                    if not isinstance(surf, Surface):
                        kw.update(NEED.get(nm, {}))
                        if nm == "icosphere":
                            kw["gridlevel"] = 1
                    if "target" not in given:
                        given["target"] = t if any("object" in x for x in ls) else tname
                    s = Simulation(**given, **kw)
                wired(chk, s)
                for comp, g in given.items():
                    o = getattr(s, comp)
                    if isinstance(g, str):
                        chk.expect((o.name if comp == "target" else o.component_name) == g, lambda: f"{comp} {g} is {o.component_name}")
                    elif isinstance(g, type):
                        chk.expect(type(o) is g, lambda: f"{comp} {g.__name__} is {type(o).__name__}")
                    else:
                        chk.expect(o is g, f"the {comp} is not the one that was given")
                with quiet():
                    b = Simulation(simdir=d, ask_overwrite=False)
                wired(chk, b, "opened again: ")
                for c in COMPS:
                    chk.expect(type(getattr(b, c)) is type(getattr(s, c)), lambda: f"opened again {c} is a {type(getattr(b, c)).__name__}")
                    chk.expect(getattr(b, c) is not getattr(s, c), f"opened again the {c} is shared")
                a1, a2 = c24.snap(s), c24.snap(b)
                df = c24.diff(a1, a2, skip={f"{c}.rng_seed" for c in COMPS})
                chk.expect(not df, lambda: f"opened again: {df}")
                chk.execd(2)
                chk.outcome(f"{len(ls)} given")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for r in (1, 2, 3) if chk.thorough else (1, 2):
        for ls in itertools.combinations(labels, r):
            if len({x.split()[0] for x in ls}) < r:
                continue
            if any(x.startswith("surface") and "object" not in x and "icosphere" not in x for x in ls) and any(x.endswith("object") and x.startswith(("counting", "morphology")) for x in ls):
                continue  # two different grids in one directory
            for tname in ["Moon", "Mars"] if r == 1 else ["Mars"] if r == 2 else ["Moon"]:
                yield f"{tname}: {' + '.join(ls)}", case(ls, tname)


def part_morphology(chk):
    """a morphology on its own connects the surface, counting, production and scaling it is given or makes"""

    def case(surface, counting, scaling, production, tname):
        def f():
            d = scratch("mor_")
            try:
                own = {"simdir": d, "ask_overwrite": False, "rng_seed": 12}
                with quiet():
                    t = Target.maker(tname)
                    kw = {}
                    if surface == "object":
                        kw["surface"] = Surface.maker("icosphere", target=t, gridlevel=1, **own)
                    elif surface == "name":
                        kw.update(surface="icosphere", target=t, gridlevel=1)
                    else:
                        kw.update(target=t, gridlevel=1)
                    if counting == "object":
                        kw["counting"] = Counting.maker(surface=kw.get("surface") if surface == "object" else Surface.maker("icosphere", target=t, gridlevel=1, **own), **own)
                        if surface != "object":
                            kw.pop("surface", None)
                    elif counting == "name":
                        kw["counting"] = "depthcount"
                    if scaling == "object":
                        kw["scaling"] = Scaling.maker("ctem", target=t, **own)
                    elif scaling == "name":
                        kw["scaling"] = "ctem"
                    if production == "object":
                        kw["production"] = Production.maker("powerlaw", **own)
                    elif production == "name":
                        kw["production"] = "powerlaw"
                    m = Morphology.maker(**kw, **own)
                for k in ["surface", "counting", "scaling", "production"]:
                    g = kw.get(k)
                    o = getattr(m, k)
                    if g is not None:
                        chk.expect(o.component_name == g if isinstance(g, str) else o is g, f"the {k} is not the one that was given")
                chk.expect(m.counting is not None and m.counting.surface is m.surface and m.counting.morphology is m, "the counting belongs to something else")
                chk.expect(m.surface.target.name == tname, lambda: f"the surface is of {m.surface.target.name}")
                chk.expect(m.scaling.target.name == tname, lambda: f"the scaling is for {m.scaling.target.name}")
                chk.expect(m.scaling.projectile.target.name == tname, lambda: f"the projectiles are for {m.scaling.projectile.target.name}")
                if production is None:
                    chk.expect(m.production.component_name == ("neukum" if tname in INNER else "powerlaw"), lambda: f"production {m.production.component_name}")
                    if tname == "Mars":
                        chk.expect(m.production.version == "Mars", lambda: f"version {m.production.version}")
                chk.expect(m.Crater is m.counting.Crater, "the kinds of crater differ")
                with quiet():
                    c = m.Crater.maker(diameter=0.4 * m.surface.radius, location=(10.0, 20.0))
                chk.expect(c.morphology is m if hasattr(c, "morphology") else True, "a crater of another morphology")
                chk.execd()
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for tup in itertools.product(["object", "name", None], ["object", "name", None], ["object", "name", None], ["object", "name", None], ["Mars", "Europa"]):
        yield str(tup), case(*tup)


SIMS = {
    "moon": {},
    "mars": {"target": "Mars"},
    "europa": {"target": "Europa"},
    "custom": {"target": "Foo", "radius": 3.0e6, "mass": 2e23, "transition_scale_type": "ice", "material": "Sand"},
    "moon changed": {"mass": 3e23, "transition_scale_type": "ice", "material": "Sand", "mean_velocity": 1.1e4, "K1": 0.3, "N_conversion_factor": 1.0},
    "real": {"morphology": "realisticmoon", "dorays": False, "do_counting": False, "do_subpixel_degradation": False},
    "power": {"production": "powerlaw", "slope": -2.4, "projectile": "comets", "save_actions": None},
    "fixed": {"projectile": "generic", "sample": False, "velocity": 9e3, "scaling": "ctem"},
    "action": {"save_actions": [{"plot": {"plot_style": "map", "variable_name": "face_elevation", "show": False, "save": True}}]},
}


def use(s, n):
    with quiet():
        s.scaling.recompute()
        for _ in range(n):
            s.morphology.emplace(diameter=0.5 * s.surface.radius, location=(20.0, 30.0))
    return s


def fingerprint(s):
    d = c24.snap(s)
    d["state"] = repr(s.rng.bit_generator.state)
    d["elevation"] = np.asarray(s.surface.face_elevation).tobytes().hex()[:4000]
    d["craters"] = [str(c) for c in s.counting.emplaced]
    return {k: v for k, v in d.items() if "simdir" not in k}


def make(label, d):
    with quiet():
        return Simulation(simdir=d, gridlevel=1, rng_seed=6, ask_overwrite=False, **SIMS[label])


def alone(label, d, out):
    Path(out).write_text(json.dumps(fingerprint(use(make(label, d), 1))))


def part_independent(chk):
    """a simulation is the same whether or not others have been made and used before and after it in the same process"""

    def case(a, b):
        def f():
            d0 = scratch("ind_")
            try:
                names = [Path(d0) / x for x in "abc"]
                out = Path(d0) / "alone.json"

                code = f"import sys; sys.path.insert(0, {str(HERE)!r}); from mc import core; core.bootstrap(); from checks import c25; c25.alone({b!r}, {str(names[0])!r}, {str(out)!r})"
                subprocess.run([sys.executable, "-c", code], check=True, capture_output=True, timeout=200)
                want = json.loads(out.read_text())
                A = use(make(a, names[1]), 1)
                fa = fingerprint(A)
                B = make(b, names[2])
                A2 = fingerprint(A)
                chk.expect(not c24.diff(fa, A2), lambda: f"making another simulation changes one: {c24.diff(fa, A2)}")
                use(B, 1)
                got = json.loads(json.dumps(fingerprint(B)))
                chk.expect(not c24.diff(want, got), lambda: f"not as when made alone: {c24.diff(want, got)}")
                A3 = fingerprint(A)
                chk.expect(not c24.diff(fa, A3), lambda: f"using another simulation changes one: {c24.diff(fa, A3)}")
                # settings changed on one do not show on the other or on a new one
                with quiet():
                    B.target.mass = 1e24
                    B.scaling.K1 = 0.77
                    B.morphology.ejecta_truncation = 3.3
                    B.production.N_conversion_factor = 1.0
                    B.projectile.mean_velocity = 1234.0
                    B.save_actions = []
                A4 = fingerprint(A)
                chk.expect(not c24.diff(fa, A4), lambda: f"changing another simulation changes one: {c24.diff(fa, A4)}")
                shutil.rmtree(names[2])
                C = json.loads(json.dumps(fingerprint(use(make(b, names[2]), 1))))
                chk.expect(not c24.diff(want, C), lambda: f"a new simulation inherits changes: {c24.diff(want, C)}")
                chk.execd(4)
                chk.outcome("independent")
            finally:
                shutil.rmtree(d0, ignore_errors=True)

        return f

    for a, b in itertools.product(SIMS, SIMS):
        if chk.thorough or a != b and (b in ("moon", "custom", "power", "mars") or a in ("moon changed", "custom", "real")):
            yield f"{a} then {b}", case(a, b)


PARTS = [("selection", part_selection), ("defaults", part_defaults), ("wiring", part_wiring), ("morphology", part_morphology), ("independent", part_independent)]
