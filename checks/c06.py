"""Every short history of a simulation, followed by every kind of reset, among files that it did not write."""

import itertools
import shutil
from pathlib import Path

import dask
import numpy as np
import xarray as xr
import yaml
from cratermaker import Crater, Simulation

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "every sequence of up to 2 of 9 operations (emplace, small craters, run, save, save as the next interval, add data, plot, export, remove a crater) on an icosphere and of up to 1 on a local high resolution surface, followed by 6 kinds of reset, with foreign files in every directory; after each the reset simulation is continued and compared with a new one",
    "thorough": "sequences of up to 3 operations (2 on the high resolution surface), and two resets in a row",
}
NOTE = "Oracle: the set and hashes of all files that the simulation did not write, and a new simulation with the same settings: same files with the same variables and values, same surface, lists and clocks, and the same results when both continue with generators in the same state."
LEVEL = "implementation"
dask.config.set(scheduler="synchronous")
R = 1737400.0
KINDS = {
    "ico": {"gridlevel": 3},
    "hires": {"surface": "hireslocal", "pix": 0.08 * R, "local_radius": 0.5 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10},
}
FOREIGN = {
    "surface": ("readme.txt", "surface_backup.nc", "surface000001.nc.bak", "old_surface000001.nc", "dem.nc", "surface000001_copy.nc"),
    "surface_images": ("holiday.png", "notes.txt", "old_surface_hillshade.png"),
    "counting": ("observed_craters.txt", "craters000001.nc", "my_observed_craters000001.nc", "observed_craters_old.nc", "thesis.pdf"),
    "counting_images": ("cat.png", "figure.svg"),
    "export": ("surface000001.gpkg", "paper.tex"),
    "mine": ("surface000001.nc", "observed_craters000001.nc", "a.png"),
    ".": ("surface000000.nc", "observed_craters000000.nc", "run.py", "surface_hillshade.png", "cratermaker.yaml.bak"),
}


def new(kind, d, **k):
    with quiet():
        return Simulation(simdir=d, ask_overwrite=False, save_actions=None, rng_seed=5, **KINDS[kind], **k)


def _emplace(sim, kind, k):
    sim.emplace([Crater.maker(diameter=(1.6 if kind == "ico" else 1.0) * R, location=(10.0 + 40 * k, 20.0 - 30 * k), time=50.0 - k, rng_seed=1)])


def _small(sim, kind, k):
    sim.emplace([Crater.maker(diameter=0.05 * R, location=(12.0 + k, 15.0), time=40.0 - k, rng_seed=1), Crater.maker(diameter=0.6 * R, location=(-70.0, 15.0 * k), time=41.0 - k, rng_seed=2)])


def _run(sim, kind, k):
    if sim.time is None or sim.time > 0.0:
        sim.run(age=3700.0, ninterval=2)


def _save(sim, kind, k):
    sim.save()


def _next(sim, kind, k):
    sim.interval = sim.interval + 1
    sim.elapsed_time, sim.time, sim.elapsed_n1 = 3.0 + k, 90.0 - k, 1e-5
    sim.save()


def _data(sim, kind, k):
    sim.surface.add_data("temperature", data=100.0 + k, overwrite=True)
    sim.update_elevation(np.cos(np.arange(sim.surface.n_face)) * 30, overwrite=True)
    sim.surface.add_tag(name="mark", tag=3 + k, long_name="mark", n_layer=2)


def _plot(sim, kind, k):
    import matplotlib.pyplot as plt

    sim.surface.plot(save=True, show=False, plot_style="hillshade", interval=0 if k else None)
    plt.close("all")
    d = sim.simdir / "counting_images"
    d.mkdir(exist_ok=True)
    (d / f"{'local_' if kind == 'hires' else ''}surface_craters{k:06d}.png").write_bytes(b"an image drawn by counting.plot")


def _export(sim, kind, k):
    sim.export(driver="OpenCraterTool")


def _remove(sim, kind, k):
    for i in list(sim.counting.observed)[:1]:
        sim.counting.remove(i)


OPS = {"emplace": _emplace, "small": _small, "run": _run, "save": _save, "next": _next, "data": _data, "plot": _plot, "export": _export, "remove": _remove}


def foreign(d):
    for sub, names in FOREIGN.items():
        (d / sub).mkdir(exist_ok=True)
        for n in names:
            (d / sub / n).write_bytes(b"mine " + n.encode())


def files(d):
    return {str(p.relative_to(d)): p for p in sorted(Path(d).rglob("*")) if p.is_file()}


def empty_tags(name, values):
    """Whether these are tags of no crater at all, which mean the same as none."""
    return name == "crater_id" and not np.any(values)


def contents(p):
    if p.suffix == ".yaml":
        return "yaml"
    if p.suffix == ".npz":
        with np.load(p) as z:
            return {k: z[k].tolist() for k in z.files}
    with xr.open_dataset(p) as ds:
        ds.load()
    return {v: (ds[v].dims, ds[v].values.tobytes(), str(ds[v].dtype)) for v in sorted(ds.variables) if v != "grid_topology" and not empty_tags(v, ds[v].values)}


def own(d, ignore):
    return {f: p for f, p in files(d).items() if f not in ignore}


def memory(sim):
    s = sim.surface
    return {
        "variables": {v: (s.uxds[v].dims, np.array(s.uxds[v].values).tobytes(), str(s.uxds[v].dtype)) for v in sorted(s.uxds.data_vars) if not empty_tags(v, s.uxds[v].values)},
        "observed": {i: repr(sorted(c.as_dict(skip_complex_data=True).items(), key=lambda x: x[0])) for i, c in sorted(sim.counting.observed.items())},
        "emplaced": [repr(sorted(c.as_dict(skip_complex_data=True).items(), key=lambda x: x[0])) for c in sim.counting.emplaced],
        "clock": (sim.interval, sim.time, sim.elapsed_time, sim.elapsed_n1),
        "is_new": sim.is_new,
    }


def differ(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def compare(chk, what, a, b):
    for k in b:
        d = differ(a[k], b[k]) if isinstance(b[k], dict) else [] if a[k] == b[k] else [f"{str(a[k])[:200]} instead of {str(b[k])[:200]}"]
        chk.expect(not d, f"{what}: {k} is not that of a new simulation: {d}")


STATE = np.random.default_rng(99).bit_generator.state


def go_on(sim, kind):
    """What a user does next."""
    with quiet():
        sim.rng.bit_generator.state = STATE
        _small(sim, kind, 0)
        sim.run(age=3600.0, ninterval=1)
        _emplace(sim, kind, 1)
        sim.save()


_fresh = {}


def fresh(kind):
    """Files and memory of a new simulation, before and after continuing it."""
    if kind not in _fresh:
        d = scratch("new_")
        sim = new(kind, d)
        a = ({f: contents(p) for f, p in files(d).items()}, memory(sim))
        go_on(sim, kind)
        _fresh[kind] = (a, ({f: contents(p) for f, p in files(d).items()}, memory(sim)))
        shutil.rmtree(d)
    return _fresh[kind]


def _reopen(sim, kind):
    return new(kind, sim.simdir, reset=True)


def _resumed(sim, kind):
    sim.save()
    with quiet():
        sim = Simulation(simdir=sim.simdir, ask_overwrite=False, save_actions=None)
    sim.reset()
    return sim


RESETS = {
    "sim.reset()": lambda sim, kind: sim.reset(),
    "Simulation(reset=True)": _reopen,
    "resumed.reset()": _resumed,
    "surface.reset()": lambda sim, kind: sim.surface.reset(),
    "counting.reset()": lambda sim, kind: sim.counting.reset(),
    "surface.reset(), counting.reset(), sim.reset()": lambda sim, kind: (sim.surface.reset(), sim.counting.reset(), sim.reset()) and None,
}


def histories(chk):
    for kind in KINDS:
        depth = (3 if chk.thorough else 2) if kind == "ico" else (2 if chk.thorough else 1)
        for n in range(depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                for rname, reset in RESETS.items():
                    if n == depth and n > 1 and rname.startswith("surface.reset(), "):
                        continue

                    def case(kind=kind, ops=ops, rname=rname, reset=reset):
                        template = fresh(kind)
                        d = scratch("case_")
                        try:
                            sim = new(kind, d)
                            foreign(d)
                            with quiet():
                                for k, op in enumerate(ops):
                                    OPS[op](sim, kind, k)
                                    chk.trans()
                            ignore = {f"{sub}/{n}".removeprefix("./"): b"mine " + n.encode() for sub, names in FOREIGN.items() for n in names}
                            for f, p in files(d).items():
                                if f.startswith("export/"):
                                    ignore[f] = p.read_bytes()
                            before = {f: p.read_bytes() for f, p in own(d, ignore).items()}
                            mem = memory(sim)
                            what = f"{' '.join(ops) or 'nothing'}, {rname}"
                            with quiet():
                                r = reset(sim, kind)
                                sim = r if isinstance(r, Simulation) else sim
                            chk.execd()
                            after = files(d)
                            for f, v in ignore.items():
                                chk.expect(f in after, f"{what}: {f} was removed although it is not an output of the simulation")
                                chk.expect(after[f].read_bytes() == v, f"{what}: {f} was changed")
                            mine = own(d, ignore)
                            chk.state(kind, ops, rname, sorted(mine))
                            new_files, new_mem = template[0]
                            now = memory(sim)
                            if rname == "counting.reset()":
                                chk.expect(not [f for f in mine if f.startswith("counting")], f"{what}: {[f for f in mine if f.startswith('counting')]} were left")
                                lost = [f for f in before if not f.startswith("counting") and (f not in mine or mine[f].read_bytes() != before[f])]
                                chk.expect(not lost, f"{what}: {lost} removed or changed")
                                chk.expect(not now["observed"] and not now["emplaced"], f"{what}: craters remain")
                                tags = sim.surface.uxds["crater_id"].values if "crater_id" in sim.surface.uxds else np.zeros(1)
                                chk.expect(not tags.any(), f"{what}: tags of craters remain")
                                chk.expect(now["clock"] == mem["clock"], f"{what}: the clock was changed")
                                d1 = [v for v in differ(now["variables"], mem["variables"]) if v != "crater_id"]
                                chk.expect(not d1, f"{what}: {d1} changed")
                                return
                            if rname == "surface.reset()":
                                left = [f for f in mine if f.startswith("surface") and f not in new_files]
                                chk.expect(not left, f"{what}: {left} were left")
                                lost = [f for f in before if f.startswith("counting") and (f not in mine or mine[f].read_bytes() != before[f])]
                                chk.expect(not lost, f"{what}: {lost} removed or changed")
                                chk.expect(now["observed"] == mem["observed"] and now["emplaced"] == mem["emplaced"], f"{what}: the lists of craters changed")
                                compare(chk, what, {"variables": now["variables"]}, {"variables": new_mem["variables"]})
                                return
                            chk.expect(sorted(mine) == sorted(new_files), lambda: f"{what}: left {sorted(set(mine) - set(new_files))}, missing {sorted(set(new_files) - set(mine))}")
                            for f, p in mine.items():
                                dd = differ(contents(p), new_files[f]) if not f.endswith(".yaml") else []
                                chk.expect(not dd, f"{what}: {dd} in {f} is not that of a new simulation")
                            compare(chk, what, now, new_mem)
                            cfg = yaml.safe_load((d / "cratermaker.yaml").read_text())
                            chk.expect(cfg.get("interval", 0) == 0 and cfg.get("time") is None and not cfg.get("elapsed_time") and not cfg.get("elapsed_n1"), f"{what}: the configuration file still has the old clock")
                            go_on(sim, kind)
                            mine = own(d, ignore)
                            what += ", continue"
                            compare(chk, what, memory(sim), template[1][1])
                            chk.expect(sorted(mine) == sorted(template[1][0]), lambda: f"{what}: files {sorted(set(mine) ^ set(template[1][0]))}")
                            for f, p in mine.items():
                                dd = differ(contents(p), template[1][0][f]) if not f.endswith(".yaml") else []
                                chk.expect(not dd, f"{what}: {dd} in {f} is not that of a new simulation")
                            chk.outcome("full reset")
                        finally:
                            shutil.rmtree(d, ignore_errors=True)

                    yield f"{kind} {' '.join(ops)}: {rname}", case


PARTS = [("histories", histories)]
