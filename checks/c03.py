"""Resuming: every history is interrupted after every save and at every crater, and continued in a new process state."""

import hashlib
import itertools
import json
import shutil
from pathlib import Path

import dask
import numpy as np
import xarray as xr
import yaml
from cratermaker import Simulation

from mc.core import quiet
from mc.world import scratch

dask.config.set(scheduler="synchronous")
BOUNDS = {
    "quick": "22 kinds of simulation x 10 histories of runs, hand-made craters and saves, interrupted at every distinct state of the directory (after every save and every crater), and each continuation interrupted once more; 5 kinds of generator",
    "thorough": "the same with 24 histories, and every chain of interruptions",
}
NOTE = "Oracle: the uninterrupted execution of the same history by the same code: surfaces, crater lists, clocks, configuration, generator and every saved file must be identical."
R = 1737.53e3
KINDS = {
    "plain": {"gridlevel": 1},
    "power": {"gridlevel": 1, "production": "powerlaw"},
    "powerp": {"gridlevel": 2, "production": "powerlaw", "generator_type": "projectile"},
    "neukump": {"gridlevel": 2, "production": "neukum", "version": "projectile"},
    "real": {"gridlevel": 1, "morphology": "realisticmoon"},
    "rays": {"gridlevel": 1, "dorays": True, "ejecta_truncation": 3.0},
    "nocount": {"gridlevel": 1, "do_counting": False},
    "nosub": {"gridlevel": 1, "do_subpixel_degradation": False},
    "ctem": {"gridlevel": 1, "scaling": "ctem"},
    "nomc": {"gridlevel": 1, "monte_carlo_scaling": False, "K1": 0.25},
    "mars": {"gridlevel": 1, "target": "Mars"},
    "comets": {"gridlevel": 1, "projectile": "comets"},
    "fixed": {"gridlevel": 1, "projectile": "generic", "sample": False, "mean_velocity": 1.2e4, "velocity": 1.2e4, "angle": 40.0},
    "custom": {"gridlevel": 1, "target": "Foo", "radius": 1.2e6, "mass": 5e22, "transition_scale_type": "ice", "material": "Ice", "mean_velocity": 9e3},
    "fine": {"gridlevel": 2},
    "counted": {"gridlevel": 3, "save_actions": None},
    "arbitrary": {"surface": "arbitrary_resolution", "pix": 1.0e6},
    "hires": {"surface": "hireslocal", "pix": 0.25 * R, "local_radius": 0.5 * R, "local_location": (12.0, -34.0), "superdomain_scale_factor": 3.0},
    "plots": {"gridlevel": 1, "save_actions": "default"},
    "own plot": {"gridlevel": 1, "save_actions": [{"plot": {"plot_style": "map", "variable_name": "face_elevation", "show": False, "save": True}}]},
    "quasimc": {"gridlevel": 1, "quasimc_file": "exact"},
    "collapse": {"gridlevel": 1, "do_slope_collapse": True, "morphology": "realisticmoon"},
}


def E(f, lon, lat):
    return ("emplace", f, (lon, lat))


S = ("save",)


def run(**kw):
    return ("run", kw)


def rund(start, end, n):
    """By crater density, from that of one age to that of another."""
    return ("run density", start, end, n)


HIST = {
    "density": [rund(3900.0, None, 4)],
    "time": [run(time_start=4000.0, time_end=3700.0, time_interval=100.0)],
    "age": [run(age=4100.0, ninterval=3)],
    "uneven": [run(time_start=4000.0, time_end=3750.0, time_interval=100.0)],
    "two runs": [run(time_start=4100.0, time_end=3900.0, ninterval=2), run(time_start=3900.0, time_end=3700.0, ninterval=2)],
    "density end": [rund(4000.0, 3700.0, 3)],
    "by hand": [S, E(0.9, 10.0, 20.0), S, E(1.2, 40.0, -10.0), E(0.7, 12.0, 22.0), S],
    "run and hand": [run(time_start=4000.0, time_end=3850.0, ninterval=2), E(1.1, 100.0, 50.0), S, run(time_start=3850.0, time_end=3700.0, ninterval=1)],
    "changes": [run(time_start=4000.0, time_end=3900.0), ("set", "scaling.K1", 0.3), ("set", "morphology.ejecta_truncation", 3.0), ("set", "production.diameter_range", (5e5, 2e6)), S, run(time_start=3900.0, time_end=3800.0), ("set", "target.density", 2000.0), ("set", "sim.smallest_crater", 1.0e6), S, E(1.0, 5.0, 5.0), S, run(time_start=3800.0, time_end=3650.0, ninterval=2)],
    "single": [run(time_start=3950.0, time_end=3800.0)],
    # deeper
    "many": [rund(4000.0, None, 8)],
    "hand and run": [E(1.0, 0.0, 0.0), S, run(time_start=4000.0, time_end=3800.0, ninterval=2)],
    "hand hand run": [E(1.0, 0.0, 0.0), E(0.8, 0.0, 0.0), S, E(0.8, 0.0, 90.0), S, run(time_start=4000.0, time_end=3800.0, ninterval=2), E(0.9, 180.0, 0.0), S],
    "three runs": [run(time_start=4100.0, time_end=4000.0), run(time_start=4000.0, time_end=3900.0, ninterval=2), run(time_start=3900.0, time_end=3800.0, time_interval=50.0)],
    "density and time": [rund(4000.0, 3700.0, 2)],
}
QUICK_HIST = list(HIST)[:10]


def build(d, kind, **kw):
    kw = {"rng_seed": 5, "ask_overwrite": False, "save_actions": None, **KINDS[kind], **kw}
    if "quasimc_file" in kw:
        Path(d).mkdir(exist_ok=True)
        f = Path(d).parent / "big.csv"
        f.write_text("name,final_diameter,longitude,latitude,production_sequence,production_time,production_time_stdev\nImb,1300000.0,-18.0,35.0,1,3950.0,0.0\nOri,1250000.0,-95.0,-20.0,2,3820.0,0.0\n")
        kw["quasimc_file"] = f
    with quiet():
        return Simulation(simdir=d, **kw)


def reopen(d):
    with quiet():
        return Simulation(simdir=d, ask_overwrite=False)


def dirhash(d):
    h = hashlib.sha1()
    for f in sorted(Path(d).rglob("*")):
        if f.is_file():
            h.update(str(f.relative_to(d)).encode() + b"\0" + f.read_bytes())
    return h.hexdigest()


def plain(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return "nan"
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.size < 100:
        return [plain(x) for x in np.asarray(v, dtype=object).ravel()]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in sorted(v.items())}
    return None


FIELDS = ["id", "name", "diameter", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle", "projectile_direction", "projectile_density", "location", "morphology_type", "time", "production_population", "measured_diameter", "semimajor_axis", "semiminor_axis", "orientation", "ejecta_region", "floor_depth", "floor_diameter", "rim_height", "ejrim"]


def crater(c):
    return {n: plain(getattr(c, n, None)) for n in FIELDS if n not in ("ejecta_region",)}


def fingerprint(s):
    f = {}
    for n in s.surface.uxds.data_vars:
        v = np.asarray(s.surface.uxds[n].values)
        f[f"surface.{n}"] = hashlib.sha1(np.ascontiguousarray(np.nan_to_num(v, nan=-9e99) if v.dtype.kind == "f" else v).astype(v.dtype.newbyteorder("=")).tobytes()).hexdigest() if not (n == "crater_id" and not v.any()) else "none"
    if f.get("surface.crater_id") == "none":
        del f["surface.crater_id"]  # nothing is tagged: the same as no tags
    f["emplaced"] = [crater(c) for c in s.counting.emplaced]
    f["observed"] = sorted((crater(c) for c in s.counting.observed.values()), key=lambda x: x["id"])
    for n in ["time", "elapsed_time", "elapsed_n1", "interval", "smallest_crater", "largest_crater", "n_observed", "n_emplaced"]:
        f[n] = plain(getattr(s, n))
    f["rng"] = json.dumps(plain(s.rng.bit_generator.state))
    return f


def close(a, b):
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, int):
        return abs(a - b) <= 1e-11 * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b, strict=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return a == b


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, "<none>"), b.get(k, "<none>")
        if close(x, y):
            continue
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                out.append(f"{k}: {len(x)} -> {len(y)}")
                continue
            i = next(i for i in range(len(x)) if not close(x[i], y[i]))
            x, y = x[i], y[i]
            if isinstance(x, dict):
                x, y = ({n: z[n] for n in z if not close(z[n], o.get(n))} for z, o in ((x, y), (y, x)))
            k = f"{k}[{i}]"
        out.append(f"{k}: {str(x)[:160]} -> {str(y)[:160]}")
    return "; ".join(out[:5])


LAZY = {"ejecta_rmax", "emplaceable", "face_index", "measured_rim_height", "measured_floor_depth", "degradation_state"}


def files(d):
    """Every saved file: data sets by value, the configuration without its directory."""
    out = {}
    d = Path(d)
    for f in sorted(d.rglob("*")):
        n = str(f.relative_to(d))
        if f.is_dir() or f.name.startswith("."):
            continue
        if f.suffix == ".nc":  # without what is computed when it is asked for
            with xr.open_dataset(f) as ds:
                ds = ds.load()
            out[n] = {k: [plain(x) for x in np.asarray(v.values, dtype=object).ravel()] for k, v in ds.variables.items()}
            out[n] = {k: v for k, v in out[n].items() if not (k == "crater_id" and not any(v)) and k not in LAZY}
        elif f.suffix == ".yaml":
            c = yaml.safe_load(f.read_text())
            c.pop("simdir", None)
            out[n] = plain(c)
        else:
            out[n] = f.stat().st_size
    return out


def step(s, op, at=None):
    with quiet():
        if op[0] == "run":
            s.run(**op[1])
        elif op[0] == "run density":
            n = [None if t is None else (20.0, float(s.production.function(diameter=20e3, time_start=t)) * s.production.N_conversion_factor) for t in op[1:3]]
            s.run(N_D=n[0], N_D_end=n[1], ninterval=op[3])
        elif op[0] == "emplace":
            s.emplace(diameter=op[1] * s.surface.radius, location=op[2])
        elif op[0] == "set":
            o, n = op[1].split(".")
            setattr(s if o == "sim" else getattr(s, o), n, op[2])
        else:
            s.save()


def play(s, ops, on_state):
    """Runs the operations, calling on_state(operation, saved) after every save and every crater."""
    real = type(s).save
    cur = [0]

    def save(**kw):
        r = real(s, **kw)
        on_state(cur[0], True)
        return r

    object.__setattr__(s, "save", save)
    cls = type(s.counting)
    radd = s.counting.add

    def add(*a, **kw):
        r = radd(*a, **kw)
        on_state(cur[0], False)
        return r

    object.__setattr__(s.counting, "add", add)
    try:
        for i, op in enumerate(ops):
            cur[0] = i
            step(s, op)
    finally:
        object.__delattr__(s, "save")
        object.__delattr__(s.counting, "add")
    return cls


def history(chk, make, ops, depth, name="", chain=False):
    d = scratch("res_")
    try:
        base = d / "base"
        s = make(base)
        snaps = []  # (directory, first operation that is still to be done, fingerprint at the save or None)
        last = [None, 0]

        def snap_of(s, where, store, seen, src):
            def on(i, saved):
                if saved:
                    # operations after op i remain; a run is asked for again, and finishes what is left of it
                    last[1] = i if ops[i][0].startswith("run") else i + 1
                h = dirhash(src)
                chk.state(h)
                if saved and h not in seen or h not in seen:
                    seen.add(h)
                    t = where / f"s{len(store)}"
                    shutil.copytree(src, t)
                    store.append((t, last[1], fingerprint(s) if saved else None))

            return on

        seen = set()
        play(s, ops, snap_of(s, d, snaps, seen, base))
        want, wfiles = fingerprint(s), files(base)
        chk.execd()
        for k, (t, i, fp) in enumerate(snaps):
            work = list(snaps[k : k + 1])
            level = 1
            while work:
                nxt = []
                for t, i, fp in work:
                    b = reopen(t)
                    chk.trans()
                    if fp is not None:
                        df = diff(fp, fingerprint(b))
                        chk.expect(not df, lambda: f"state {k} opened again: {df}")
                    more = []
                    if level < depth:
                        last[0], last[1] = None, i
                        base_ops = ops
                        mine = []
                        on = snap_of(b, d / f"l{k}_{level}_{len(nxt)}_{t.name}", mine, set(), t)

                        def shift(j, saved, on=on, i=i):
                            on(j + i, saved)

                        play(b, base_ops[i:], shift)
                        more = mine
                    else:
                        for op in ops[i:]:
                            step(b, op)
                    chk.execd()
                    df = diff(want, fingerprint(b))
                    chk.expect(not df, lambda: f"interrupted at state {k} (level {level}) and continued: {df}")
                    got = files(t)
                    df = "" if close(wfiles, got) else diff({f"{f}/{v}": x for f in wfiles if isinstance(wfiles[f], dict) for v, x in wfiles[f].items()}, {f"{f}/{v}": x for f in got if isinstance(got[f], dict) for v, x in got[f].items()}) or f"{sorted(set(wfiles) ^ set(got))}"
                    chk.expect(not df, lambda: f"interrupted at state {k} (level {level}) and continued, the files differ: {df}")
                    if more and (chain or level == 1):
                        nxt += more[:-1] if chain else more[len(more) // 2 : len(more) // 2 + 1]
                    shutil.rmtree(t, ignore_errors=True)
                work = nxt
                level += 1
                if level > depth:
                    break
        chk.outcome(f"{len(snaps)} states")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def part_histories(chk):
    """a history interrupted after any save or crater and continued gives what it gives without interruption"""
    for kind, h in itertools.product(KINDS, HIST if chk.thorough else QUICK_HIST):
        if h == "changes" and kind in ("hires",):
            continue  # a changed truncation changes the grid (see C24)
        if kind == "quasimc" and h not in ("time", "age", "single"):
            continue
        if kind == "counted" and h not in ("density", "by hand", "two runs", "changes") and not chk.thorough:
            continue
        yield f"{kind}: {h}", lambda kind=kind, h=h: history(chk, lambda d: build(d, kind), HIST[h], 4 if chk.thorough else 2, chain=chk.thorough)


GEN = ["PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"]


def part_generators(chk):
    """whichever generator a simulation is given, it is resumed in the same state and of the same kind"""
    for g in GEN:
        for how in ["rng", "rng_state"]:

            def case(g=g, how=how):
                def make(d):
                    gen = np.random.Generator(getattr(np.random, g)(99))
                    gen.normal(size=3), gen.integers(0, 10, dtype=np.uint32)
                    kw = {"rng": gen} if how == "rng" else {"rng_state": gen.bit_generator.state}
                    return build(d, "plain", rng_seed=None, **kw)

                history(chk, make, HIST["by hand"], 2)
                history(chk, make, HIST["single"], 2)

            yield f"{g} {how}", case


PARTS = [("histories", part_histories), ("generators", part_generators)]
