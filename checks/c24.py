"""Configuration files: every setting and pair of settings is written, read back and written again."""

import itertools
import shutil
from pathlib import Path

import numpy as np
import yaml
from cratermaker import Counting, Morphology, Production, Projectile, Scaling, Simulation, Surface, Target

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "each of 43 settings of all components, and every pair of settings of different components or of the same component that can be given together; each of 26 changes of attributes after construction on 4 kinds of simulation, and every pair on one; 26 overrides on each of 9 files; 36 stand-alone components",
    "thorough": "the same, triples over a reduced menu of settings, and every pair of changes on all 4 kinds",
}
NOTE = "Oracle: a reflective snapshot of the class and the public settings of every component, before writing and after reading back."
R = 1737.53e3
COMPS = ["target", "production", "projectile", "scaling", "surface", "counting", "morphology"]
# label: (group, keyword arguments, what they must be found as)
S = {
    "plain": ("none", {}, {}),
    "mars": ("target", {"target": "Mars"}, {"target.name": "Mars"}),
    "vesta": ("target", {"target": "Vesta"}, {"target.name": "Vesta"}),
    "europa": ("target", {"target": "Europa"}, {"target.name": "Europa", "target.transition_scale_type": "ice"}),
    "custom": ("target", {"target": "Foo", "radius": 3.0e6, "mass": 2e23, "transition_scale_type": "ice", "material": "Sand"}, {"target.name": "Foo", "target.radius": 3.0e6, "target.mass": 2e23}),
    "radius": ("radius", {"radius": 2.0e6}, {"target.radius": 2.0e6}),
    "diameter": ("radius", {"diameter": 2.6e6}, {"target.radius": 1.3e6}),
    "mass": ("mass", {"mass": 3e23}, {"target.mass": 3e23}),
    "ice": ("tst", {"transition_scale_type": "ice"}, {"target.transition_scale_type": "ice"}),
    "material": ("material", {"material": "Hard Rock"}, {"target.material": "Hard Rock", "scaling.material": "Hard Rock"}),
    "sand": ("material", {"material": "Sand"}, {"scaling.material": "Sand", "scaling.mu": 0.41}),
    "ctem": ("scaling", {"scaling": "ctem"}, {}),
    "K1": ("K1", {"K1": 0.31}, {"scaling.K1": 0.31}),
    "mu": ("mu", {"mu": 0.5}, {"scaling.mu": 0.5}),
    "Ybar": ("Ybar", {"Ybar": 1.5e6}, {"scaling.Ybar": 1.5e6}),
    "Ybar0": ("Ybar", {"Ybar": 0.0}, {"scaling.Ybar": 0.0}),
    "nomc": ("mc", {"monte_carlo_scaling": False}, {"scaling.monte_carlo_scaling": False}),
    "power": ("production", {"production": "powerlaw"}, {}),
    "power2": ("production", {"production": "powerlaw", "N1_coef": 2e-6, "slope": -2.5}, {"production.N1_coef": 2e-6, "production.slope": -2.5}),
    "power3": ("production", {"production": "powerlaw", "generator_type": "projectile"}, {"production.generator_type": "projectile"}),
    "neukum": ("production", {"production": "neukum"}, {}),
    "neukump": ("production", {"production": "neukum", "version": "projectile"}, {"production.version": "Projectile"}),
    "D_factor": ("dcf", {"D_conversion_factor": 1.0}, {"production.D_conversion_factor": 1.0}),
    "N_factor": ("ncf", {"N_conversion_factor": 1e6}, {"production.N_conversion_factor": 1e6}),
    "quasimc": ("quasimc", {"quasimc_file": "QMC"}, {}),
    "real": ("morphology", {"morphology": "realisticmoon"}, {}),
    "rays": ("rays", {"dorays": False}, {"morphology.dorays": False}),
    "trunc": ("trunc", {"ejecta_truncation": 7.5}, {"morphology.ejecta_truncation": 7.5}),
    "nocollapse": ("collapse", {"do_slope_collapse": False}, {"morphology.do_slope_collapse": False}),
    "nosubpixel": ("subpixel", {"do_subpixel_degradation": False}, {"morphology.do_subpixel_degradation": False}),
    "nocount": ("count", {"do_counting": False}, {"morphology.do_counting": False, "sim.do_counting": False}),
    "comets": ("projectile", {"projectile": "comets"}, {}),
    "asteroids": ("projectile", {"projectile": "asteroids"}, {}),
    "generic": ("projectile", {"projectile": "generic", "mean_velocity": 1.5e4}, {"projectile.mean_velocity": 1.5e4}),
    "generic_fixed": ("projectile", {"projectile": "generic", "sample": False, "velocity": 1.2e4, "mean_velocity": 1.3e4, "angle": 30.0, "direction": 77.0}, {"projectile.velocity": 1.2e4, "projectile.angle": 30.0, "projectile.direction": 77.0}),
    "nosample": ("sample", {"sample": False}, {"projectile.sample": False}),
    "gridlevel2": ("surface", {"gridlevel": 2}, {"surface.gridlevel": 2}),
    "arbitrary": ("surface", {"surface": "arbitrary_resolution", "pix": 1.1e6}, {}),
    "hires": ("surface", {"surface": "hireslocal", "pix": 0.3 * R, "local_radius": 0.4 * R, "local_location": (12.0, -34.0)}, {"surface.local_radius": 0.4 * R, "surface.local_location": (12.0, -34.0)}),
    "hires_scale": ("surface", {"surface": "hireslocal", "pix": 0.3 * R, "local_radius": 0.4 * R, "local_location": (170.0, 80.0), "superdomain_scale_factor": 4}, {"surface.superdomain_scale_factor": 4}),
    "no_actions": ("actions", {"save_actions": None}, {"sim.save_actions": []}),
    "own_action": ("actions", {"save_actions": [{"plot": {"plot_style": "map", "variable_name": "face_elevation", "cmap": "gray", "show": False, "save": True}}]}, {"sim.save_actions": [{"plot": {"plot_style": "map", "variable_name": "face_elevation", "cmap": "gray", "show": False, "save": True}}]}),
    "seed": ("seed", {"rng_seed": 77}, {"sim.rng_seed": 77}),
}
# label: (group, attribute, value, ...) set after construction
A = {
    "a_smallest": ("smallest", "sim.smallest_crater", 1.3e6),
    "a_largest": ("largest", "sim.largest_crater", 1.6e6),
    "a_smallest_p": ("smallest", "sim.smallest_projectile", 3.3e5),
    "a_largest_p": ("largest", "sim.largest_projectile", 1.2e5),
    "a_K1": ("K1", "scaling.K1", 0.37),
    "a_mu": ("mu", "scaling.mu", 0.47),
    "a_Ybar": ("Ybar", "scaling.Ybar", 3e6),
    "a_nomc": ("mc", "scaling.monte_carlo_scaling", False),
    "a_material": ("material", "scaling.material", "Dry Soil"),
    "a_density": ("density", "target.density", 1800.0),
    "a_mass": ("mass", "target.mass", 9e22),
    "a_ice": ("tst", "target.transition_scale_type", "ice"),
    "a_tmaterial": ("tmaterial", "target.material", "Sand"),
    "a_version": ("production", "production.version", "Mars"),
    "a_D_factor": ("dcf", "production.D_conversion_factor", 1.0),
    "a_N_factor": ("ncf", "production.N_conversion_factor", 1.0),
    "a_range": ("range", "production.diameter_range", (2e5, 9e5)),
    "a_rays": ("rays", "morphology.dorays", False),
    "a_trunc": ("trunc", "morphology.ejecta_truncation", 5.0),
    "a_nocollapse": ("collapse", "morphology.do_slope_collapse", False),
    "a_nosubpixel": ("subpixel", "morphology.do_subpixel_degradation", False),
    "a_nocount": ("count", "morphology.do_counting", False),
    "a_pdensity": ("pdensity", "projectile.density", 3100.0),
    "a_mean_v": ("mean_v", "projectile.mean_velocity", 1.9e4),
    "a_no_actions": ("actions", "sim.save_actions", []),
    "a_actions": ("actions", "sim.save_actions", [{"plot": {"plot_style": "hillshade", "cmap": "pink", "show": False, "save": True}}]),
}
# what belongs together with what
SCALES = {"K1", "mu", "Ybar", "Ybar0", "nomc"}
VOLATILE = {"rng", "rng_state", "common_args", "catalogue", "material_catalogue", "uxds", "uxgrid", "Crater", "quasimc_craters", "output_dir", "plot_dir", "export_dir", "is_new"}


def plain(v, depth=0):
    """The value as comparable plain data; None for anything else."""
    if isinstance(v, (np.generic,)):
        v = v.item()
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, Path):
        return str(v.resolve())
    if isinstance(v, np.ndarray) and v.size < 50:
        return ["array", *[plain(x) for x in v.ravel().tolist()]]
    if isinstance(v, (list, tuple)) and depth < 5 and len(v) < 50:
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, dict) and depth < 5 and len(v) < 50:
        return {str(k): plain(x, depth + 1) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    return type(v).__name__


SURF = ["radius", "gridlevel", "pix", "pix_mean", "local_radius", "local_location", "superdomain_scale_factor", "n_face", "n_node", "area", "simdir", "component_name", "output_file_prefix"]


def props(obj, kind):
    out = {"class": type(obj).__name__}
    names = SURF if kind == "surface" else [n for n in dir(type(obj)) if not n.startswith("_") and isinstance(getattr(type(obj), n, None), property)]
    for n in names:
        if n in VOLATILE:
            continue
        try:
            v = getattr(obj, n)
        except Exception as e:  # not available for this kind
            v = "! " + type(e).__name__
        out[n] = plain(v)
    return out


def snap(sim):
    d = {}
    st = sim.rng.bit_generator.state
    sim.scaling.recompute()  # as is done before each crater
    sim.rng.bit_generator.state = st
    for c in COMPS:
        for k, v in props(getattr(sim, c), c).items():
            d[f"{c}.{k}"] = v
    for n in ["smallest_crater", "largest_crater", "rng_seed", "save_actions", "ask_overwrite", "do_counting", "interval", "time", "elapsed_time", "elapsed_n1", "n_observed", "n_emplaced", "do_quasimc", "simdir"]:
        d[f"sim.{n}"] = plain(getattr(sim, n))
    if sim.projectile.sample:  # drawn for each crater anew
        for n in ["velocity", "angle", "direction", "location", "vertical_velocity"]:
            d.pop(f"projectile.{n}", None)
    if getattr(sim.scaling, "monte_carlo_scaling", False):
        for n in ["transition_diameter", "simple_enlargement_factor", "final_exp", "complex_enlargement_factor"]:
            d.pop(f"scaling.{n}", None)
    p = sim.production
    d["production.N(2000,1)"] = float(p.function(diameter=2000.0, time_start=1.0))
    d["production.qmc"] = None if not p.quasimc_craters else sorted((c.name, round(float(c.diameter), 6), c.production_sequence) for c in p.quasimc_craters)
    return d


def diff(a, b, skip=()):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        x, y = a.get(k, "<none>"), b.get(k, "<none>")
        if x != y and not (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-12 * max(abs(x), abs(y))):
            out.append(f"{k}: {x} -> {y}")
    return "; ".join(out[:6])


QMC = "name,diameter,location,production_sequence,production_time\n"


def qmc(d):
    from cratermaker import Crater

    f = Path(d) / "big.csv"
    f.write_text("name,final_diameter,longitude,latitude,production_sequence,production_time,production_time_stdev\nImb,1300000.0,-18.0,35.0,1,3900.0,10.0\nOri,1250000.0,-95.0,-20.0,2,3800.0,10.0\n")
    return f


def build(d, kw, **more):
    kw = {"gridlevel": 1, "rng_seed": 5, "ask_overwrite": False, **kw, **more}
    if kw.get("surface") in ("arbitrary_resolution", "hireslocal"):
        kw.pop("gridlevel")
    if kw.get("quasimc_file") == "QMC":
        kw["quasimc_file"] = qmc(d)
    with quiet():
        return Simulation(simdir=d, **kw)


def reopen(d, **kw):
    with quiet():
        return Simulation(simdir=d, ask_overwrite=False, **kw)


def compatible(labels):
    g = [S[x][0] for x in labels]
    if len(set(g)) < len(g):
        return False
    s = set(labels)
    if "ctem" in s and s & SCALES - {"K1", "mu", "Ybar", "Ybar0"}:
        return False  # deterministic by definition
    if "sand" in s and "custom" in s or "material" in s and "custom" in s:
        return False  # given twice
    if {"radius", "diameter", "mass", "ice"} & s and "custom" in s:
        return False
    if s & {"generic_fixed"} and "nosample" in s:
        return False
    if "generic" in s and "nosample" in s:
        return False  # needs a velocity
    if "vesta" in s and s & {"hires", "hires_scale", "quasimc", "arbitrary"}:
        return False  # larger than the body
    if "quasimc" in s and s & {"power3", "neukump"}:
        return False  # the projectile sizes of given craters are drawn
    if "custom" in s and "nosample" in s or "europa" in s and "nosample" in s:
        return False  # generic projectiles need a velocity
    return True


def cfg(d):
    return (Path(d) / "cratermaker.yaml").read_text()


def cdiff(a, b):
    a, b = yaml.safe_load(a), yaml.safe_load(b)
    return "; ".join(f"{k}: {a.get(k)} -> {b.get(k)}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:400]


def cycle(chk, sim, d, want=()):
    a, f = snap(sim), cfg(d)
    st = repr(sim.rng.bit_generator.state)
    for k, v in dict(want).items():
        v = plain(v)
        if isinstance(v, (float, int)) and not isinstance(v, bool) and isinstance(a.get(k), (float, int)):
            chk.expect(abs(a[k] - v) <= 1e-9 * abs(v), lambda: f"{k} given as {v} is {a.get(k)}")
        else:
            chk.expect(a.get(k) == v, lambda: f"{k} given as {v} is {a.get(k)}")
    with quiet():
        for o in (sim, *(getattr(sim, c) for c in COMPS)):
            o.to_config()
        repr(sim)
        sim.to_config(save_to_file=False)
    chk.expect(repr(sim.rng.bit_generator.state) == st, "writing the configuration draws random numbers")
    chk.expect(not diff(a, snap(sim)), lambda: f"writing the configuration changes the simulation: {diff(a, snap(sim))}")
    chk.expect(cfg(d) == f, lambda: f"the configuration was not up to date: {cdiff(f, cfg(d))}")
    b = reopen(d)
    chk.expect(not diff(a, snap(b)), lambda: f"read back: {diff(a, snap(b))}")
    chk.expect(cfg(d) == f, lambda: f"the configuration that was read is written differently: {cdiff(f, cfg(d))}")
    chk.expect(repr(b.rng.bit_generator.state) == st, "the state of the generator is not restored")
    chk.execd(3)
    return a


def part_settings(chk):
    """each setting and pair of settings takes effect, is written, read back equal, and written again equal"""

    def case(labels):
        def f():
            d = scratch("cfg_")
            try:
                kw, want = {}, {}
                for x in labels:
                    kw.update(S[x][1])
                    want.update(S[x][2])
                if len(labels) > 1 and "quasimc" not in labels:
                    want = {k: v for k, v in want.items() if k not in ("scaling.mu", "sim.smallest_crater", "sim.largest_crater")}
                cycle(chk, build(d, kw), d, want)
                chk.outcome(f"{len(labels)} settings")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    one = [(x,) for x in S]
    two = [p for p in itertools.combinations([x for x in S if x != "plain"], 2) if compatible(p)]
    for p in one + two:
        yield "+".join(p), case(p)
    if chk.thorough:
        red = ["mars", "custom", "radius", "material", "ctem", "K1", "nomc", "power3", "neukump", "D_factor", "real", "trunc", "nocount", "comets", "generic", "nosample", "arbitrary", "hires", "own_action"]
        for p in itertools.combinations(red, 3):
            if compatible(p):
                yield "+".join(p), case(p)


def part_changes(chk):
    """each attribute and pair of attributes changed after construction is written and read back equal"""
    bases = {"moon": {}, "vesta": {"target": "Vesta"}, "power": {"production": "powerlaw", "projectile": "generic", "mean_velocity": 1.7e4}, "hires": S["hires"][1]}

    def case(base, labels):
        def f():
            d = scratch("cfg_")
            try:
                sim = build(d, bases[base])
                want = {}
                for x in labels:
                    _, path, v = A[x]
                    o, n = path.split(".")
                    with quiet():
                        setattr(sim if o == "sim" else getattr(sim, o), n, v)
                    if "_p" not in x and not (base == "vesta" and x in ("a_smallest", "a_largest")):
                        want[path] = v
                with quiet():
                    sim.to_config()
                cycle(chk, sim, d, want if len(labels) == 1 else {})
                chk.outcome(f"{len(labels)} changes")
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    def ok(base, labels):
        g = [A[x][0] for x in labels]
        return len(set(g)) == len(g) and not (base == "power" and "a_version" in labels) and not (base == "vesta" and set(labels) & {"a_smallest", "a_largest", "a_version"}) and not (base == "hires" and "a_trunc" in labels and len(labels) > 1)

    for base in bases:
        for x in A:
            if ok(base, (x,)):
                yield f"{base}: {x}", case(base, (x,))
    for base in bases if chk.thorough else ["moon"]:
        for p in itertools.combinations(A, 2):
            if ok(base, p):
                yield f"{base}: {'+'.join(p)}", case(base, p)


OVER = ["K1", "mu", "Ybar", "nomc", "ctem", "D_factor", "N_factor", "rays", "trunc", "nocollapse", "nosubpixel", "nocount", "real", "comets", "asteroids", "generic", "generic_fixed", "power", "power2", "power3", "neukum", "mass", "ice", "no_actions", "own_action", "seed"]
BASES = {
    "plain": {},
    "scaled": {"K1": 0.27, "mu": 0.52, "Ybar": 2e6, "monte_carlo_scaling": False},
    "ctem": {"scaling": "ctem", "K1": 0.29},
    "custom": S["custom"][1],
    "powerlaw": {"production": "powerlaw", "N1_coef": 3e-6, "slope": -2.7, "D_conversion_factor": 1.0},
    "moon": {"morphology": "realisticmoon", "ejecta_truncation": 9.0, "dorays": True, "do_slope_collapse": False, "do_counting": False},
    "generic": {"projectile": "generic", "mean_velocity": 1.8e4, "density": 1900.0},
    "fixed": {"projectile": "generic", "sample": False, "velocity": 1.1e4, "mean_velocity": 1.1e4, "angle": 35.0},
    "hires": S["hires_scale"][1],
}
COMPARG = {"ctem": ("scaling", ["K1", "mu", "Ybar", "monte_carlo_scaling"]), "comets": ("projectile", ["mean_velocity", "density", "sample", "velocity", "angle", "direction"]), "power": ("production", ["N1_coef", "slope", "generator_type", "D_conversion_factor", "N_conversion_factor"]), "real": ("morphology", ["ejecta_truncation", "dorays", "do_slope_collapse", "do_counting"])}
COMPARG |= {"asteroids": COMPARG["comets"], "generic": COMPARG["comets"], "generic_fixed": COMPARG["comets"], "power2": COMPARG["power"], "power3": COMPARG["power"], "neukum": COMPARG["power"]}


def part_overrides(chk):
    """an explicit argument wins over the file, which keeps everything else; the outcome is kept for the next time"""

    def case(base, x):
        def f():
            d, d2 = scratch("cfg_"), scratch("cfg_")
            try:
                build(d, BASES[base])
                kw = dict(S[x][1])
                b = reopen(d, **kw)
                drop = COMPARG.get(x, (None, []))[1]
                fresh = build(d2, {**{k: v for k, v in BASES[base].items() if k not in drop}, **kw})
                sb = snap(b)
                df = diff(snap(fresh), sb, skip={"sim.simdir", *(f"{c}.simdir" for c in COMPS), "surface.radius"} | ({f"{c}.rng_seed" for c in COMPS} | {"sim.rng_seed"} if x == "seed" else set()) | ({"target.density"} if base == "generic" else set()))  # the density was given to both
                chk.expect(not df, lambda: f"not as when made afresh: {df}")
                if x == "seed":
                    chk.expect(b.rng_seed == 77, "the seed is not taken")
                b2 = reopen(d)
                chk.expect(not diff(sb, snap(b2)), lambda: f"then read back: {diff(sb, snap(b2))}")
                chk.execd(4)
                chk.outcome(x)
            finally:
                shutil.rmtree(d, ignore_errors=True)
                shutil.rmtree(d2, ignore_errors=True)

        return f

    for base in BASES:
        for x in OVER:
            if x == "nomc" and base == "ctem" or x in ("mass", "ice") and base == "custom":
                continue
            yield f"{base} < {x}", case(base, x)


def part_components(chk):
    """the configuration of a component made on its own makes an equal one, and writing it changes nothing"""
    makers = {"target": Target, "production": Production, "projectile": Projectile, "scaling": Scaling, "morphology": Morphology, "surface": Surface}
    menu = {
        "target": [("Moon", {}), ("Mars", {}), ("Europa", {"density": 950.0}), ("Foo", {"radius": 1e6, "mass": 1e22, "transition_scale_type": "ice"}), ("Foo", {"diameter": 1e6, "mass": 1e22, "transition_scale_type": "silicate", "material": "Sand"}), ("Moon", {"mass": 1e23, "transition_scale_type": "ice", "material": "Ice"})],
        "production": [("neukum", {}), ("neukum", {"version": "Mars"}), ("neukum", {"version": "projectile"}), ("powerlaw", {}), ("powerlaw", {"generator_type": "projectile"}), ("powerlaw", {"N1_coef": 1e-5, "slope": -3.1}), ("powerlaw", {"slope": 2.1, "D_conversion_factor": 1.0}), ("neukum", {"N_conversion_factor": 1e6, "diameter_range": (1e3, 5e5)})],
        "projectile": [("asteroids", {}), ("comets", {}), ("asteroids", {"density": 3000.0}), ("generic", {"mean_velocity": 1e4}), ("generic", {"sample": False, "velocity": 9e3}), ("generic", {"sample": False, "velocity": 9e3, "angle": 30.0, "direction": 20.0, "location": (5.0, 6.0), "density": 2e3}), ("asteroids", {"sample": False, "angle": 15.0})],
        "scaling": [("montecarlo", {}), ("montecarlo", {"material": "Sand"}), ("montecarlo", {"K1": 0.3, "mu": 0.5, "Ybar": 0.0}), ("montecarlo", {"monte_carlo_scaling": False}), ("ctem", {}), ("ctem", {"material": "Ice", "K1": 11.0})],
        "morphology": [("basicmoon", {"gridlevel": 1}), ("basicmoon", {"gridlevel": 1, "dorays": True, "ejecta_truncation": 4.0}), ("realisticmoon", {"gridlevel": 1, "do_slope_collapse": False, "do_subpixel_degradation": False, "do_counting": False})],
        "surface": [("icosphere", {"gridlevel": 2}), ("arbitrary_resolution", {"pix": 1e6}), ("hireslocal", {"pix": 5e5, "local_radius": 7e5, "local_location": (10.0, 80.0), "superdomain_scale_factor": 3.0})],
    }

    def case(kind, name, kw):
        def f():
            d = scratch("cmp_")
            try:
                with quiet():
                    c = makers[kind].maker(name, simdir=d, rng_seed=4, ask_overwrite=False, **kw)
                if hasattr(c, "recompute"):
                    c.recompute()
                a, st = props(c, kind), repr(c.rng.bit_generator.state)
                for k, v in kw.items():
                    if k in a and k not in ("material", "version", "slope"):
                        chk.expect(a[k] == plain(v), lambda: f"{k} given as {v} is {a[k]}")
                conf = c.to_config(remove_common_args=True)
                full = c.to_config()
                chk.expect(all(full.get(k) == v for k, v in conf.items()), "common arguments are more than removed")
                chk.expect(repr(c.rng.bit_generator.state) == st and not diff(a, props(c, kind)), "writing the configuration changes the component")
                back = yaml.safe_load(yaml.safe_dump(conf))
                chk.expect(not set(back) & {"simdir", "rng", "rng_seed", "rng_state", "ask_overwrite"}, lambda: f"common arguments {list(back)}")
                extra = {"gridlevel": 1} if kind == "morphology" else {}
                with quiet():
                    c2 = makers[kind].maker(name, simdir=d, rng_seed=4, ask_overwrite=False, reset=False, **{**extra, **back})
                st2 = c2.rng.bit_generator.state
                if hasattr(c2, "recompute"):
                    c2.recompute()
                b = props(c2, kind)
                if kind == "projectile" and c.sample:
                    for x in (a, b):
                        for n in ["velocity", "angle", "direction", "location", "vertical_velocity"]:
                            x.pop(n, None)
                if kind == "scaling" and c.monte_carlo_scaling:
                    for x in (a, b):
                        for n in ["transition_diameter", "simple_enlargement_factor", "final_exp", "complex_enlargement_factor"]:
                            x.pop(n, None)
                chk.expect(not diff(a, b), lambda: f"read back: {diff(a, b)}")
                conf2 = c2.to_config(remove_common_args=True)
                chk.expect(conf2 == conf, lambda: f"configuration {conf} became {conf2}")
                chk.execd(2)
                chk.outcome(kind)
            finally:
                shutil.rmtree(d, ignore_errors=True)

        return f

    for kind, lst in menu.items():
        for name, kw in lst:
            yield f"{kind} {name} {kw}", case(kind, name, kw)


PARTS = [("settings", part_settings), ("changes", part_changes), ("overrides", part_overrides), ("components", part_components)]
