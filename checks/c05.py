"""Every sequence of answers to every prompt of every operation that removes or replaces files."""

import builtins
import io
import re
import shutil
import sys
from pathlib import Path

import dask
import numpy as np
from cratermaker import Counting, Crater, Simulation, Surface

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "6 reset operations, 7 constructors and 22 exports on simulations (icosphere, local high resolution) with 3 saved intervals, images, exports and foreign files, for prompts on/off by attribute or argument, and every sequence of answers {yes, no, all} to all prompts of the operation (resets: first answer also Y, N, A, empty, other text, interrupt)",
    "thorough": "all drivers and intervals for every surface, and every subset of the export files existing beforehand (up to 4 files)",
}
NOTE = "Oracle: hashes of every file before and after, the text of each prompt (which files were named) and the answer given. A file may differ only if it was named in a prompt answered with yes, or an earlier prompt of the operation was answered with all, or prompts are off."
LEVEL = "implementation"
dask.config.set(scheduler="synchronous")
_t = {}
R = 1737400.0
KINDS = {
    "ico": {"gridlevel": 3},
    "hires": {"surface": "hireslocal", "pix": 0.08 * R, "local_radius": 0.5 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10},
}


class Interrupt(Exception):
    pass


def template(kind):
    """A simulation with three saved intervals, craters, images and files that it did not write."""
    if kind in _t:
        return _t[kind]
    d = scratch("tpl_")
    with quiet():
        sim = Simulation(simdir=d, ask_overwrite=False, rng_seed=1, save_actions=None, **KINDS[kind])
        for k in range(3):
            if k:
                sim.emplace([Crater.maker(diameter=(1.7 if kind == "ico" else 1.0) * R, location=(10.0 + 30 * k, 20.0 - 30 * k))])
                sim.update_elevation(np.sin(np.arange(sim.surface.n_face)) * 100 * k)
            sim.interval = k
            sim.time, sim.elapsed_time, sim.elapsed_n1 = 100.0 - k, float(k), 1e-4 * k
            sim.save()
        assert len(sim.counting.observed) == 2 or kind == "hires", "the template has no observed craters"
    for sub, names in {"surface_images": ("surface_hillshade000001.png", "holiday.png"), "counting_images": ("surface_craters000001.png", "notes.txt"), "surface": ("readme.txt",), "export": ("thesis.pdf",), ".": ("paper.tex",)}.items():
        (d / sub).mkdir(exist_ok=True)
        for n in names:
            (d / sub / n).write_bytes(b"mine")
    _t[kind] = d
    return d


def files(d):
    return {str(p.relative_to(d)): (p.read_bytes() if p.is_file() else None) for p in sorted(Path(d).rglob("*")) if p.is_file()}


class Console:
    """Scripted standard input; remembers what was shown before each answer."""

    def __init__(self, answers, before):
        self.answers, self.before = list(answers), before
        self.asked = []
        self.short = False

    def __enter__(self):
        self.old = (builtins.input, sys.stdout, sys.stderr)
        self.out = io.StringIO()
        sys.stdout, sys.stderr = self.out, io.StringIO()
        builtins.input = self.input
        return self

    def __exit__(self, *a):
        builtins.input, sys.stdout, sys.stderr = self.old
        return False

    def input(self, prompt=""):
        text = self.out.getvalue() + str(prompt)
        self.out.seek(0), self.out.truncate()
        k = len(self.asked)
        if k >= len(self.answers):
            self.short = True
            self.asked.append((text, str(prompt), "n"))
            return "n"
        a = self.answers[k]
        self.asked.append((text, str(prompt), a))
        if a == "^C":
            raise Interrupt
        return a


def objects(sim):
    return [x for x in [sim] + [getattr(sim, c) for c in ("target", "surface", "production", "scaling", "morphology", "projectile", "counting")]]


def memory(sim):
    s = sim.surface
    return (
        {v: (np.array(s.uxds[v].values).tobytes(), str(s.uxds[v].dtype)) for v in s.uxds.data_vars},
        {k: repr(sorted((a, b) for a, b in c.as_dict(skip_complex_data=True).items())) for k, c in sim.counting.observed.items()},
        [c.id for c in sim.counting.emplaced],
        (sim.interval, sim._time, sim._elapsed_time, sim._elapsed_n1),
    )


def open_sim(d):
    with quiet():
        sim = Simulation(simdir=d, ask_overwrite=False, save_actions=None, rng_seed=2)
        for o in objects(sim):
            o.ask_overwrite = True
    return sim


def set_ask(sim, v, name=None):
    """Switch prompts on or off for the object that an operation is called on, and the other way for all others."""
    for o in objects(sim):
        o.ask_overwrite = v if name is None else not v
    if name is not None:
        o = {"sim": sim, "surface": sim.surface, "counting": sim.counting, "production": sim.production, "local": getattr(sim.surface, "local", None)}[name.split(".")[0]]
        o.ask_overwrite = v
    return asking(sim)


def asking(sim):
    return [o.ask_overwrite for o in objects(sim)]


class World:
    """A copy of a template directory and the simulation opened in it, restored for every run."""

    def __init__(self, src):
        self.src, self.d, self.sim = src, scratch("case_"), None

    def fresh(self):
        shutil.rmtree(self.d, ignore_errors=True)
        shutil.copytree(self.src, self.d)
        if self.sim is None or memory(self.sim) != self.mem:
            self.sim = open_sim(self.d)
            self.mem = memory(self.sim)
        return self.sim

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def initial(sim, chk, what):
    chk.expect(not sim.surface.uxds["face_elevation"].values.any() and not sim.surface.uxds["node_elevation"].values.any(), f"{what}: the surface was not reset although the user agreed")


# name: (kind of operation, function(sim), check after agreement)
def _counts(sim, chk, what):
    chk.expect(len(sim.counting.observed) == 0 and len(sim.counting.emplaced) == 0, f"{what}: craters remain although the user agreed")


def _both(sim, chk, what):
    initial(sim, chk, what)
    _counts(sim, chk, what)
    chk.expect(sim.interval == 0 and sim.time is None if sim._time is None else False, f"{what}: the clock was not reset")


RESETS = {
    "sim.reset()": (lambda sim: sim.reset(), _both),
    "surface.reset()": (lambda sim: sim.surface.reset(), initial),
    "counting.reset()": (lambda sim: sim.counting.reset(), _counts),
    "sim.reset(skip surface)": (lambda sim: sim.reset(skip_component="surface"), _counts),
    "sim.reset(skip counting)": (lambda sim: sim.reset(skip_component=["counting"]), initial),
    "production.reset()": (lambda sim: sim.production.reset(), None),
}


def exports(kind, thorough):
    out = {}
    for drv in ("VTK", "GPKG", "GeoTIFF", "ESRI Shapefile"):
        for iv in (None, 0, 1, 2):
            if not thorough and (iv is None and drv != "GeoTIFF" or iv in (0, 1) and drv != "VTK"):
                continue
            out[f"surface.export({drv!r}, {iv})"] = lambda sim, drv=drv, iv=iv, **k: sim.surface.export(driver=drv, interval=iv, **k)
    for drv in ("SCC", "CSV", "VTK"):
        for iv in ((None, 0, 2) if thorough else (0, 2)) if drv == "SCC" else (1, 2):
            out[f"counting.export({drv!r}, {iv})"] = lambda sim, drv=drv, iv=iv, **k: sim.counting.export(driver=drv, interval=iv, **k)
    for drv in ("OpenCraterTool", "VTK"):
        for iv in (-1, 1):
            out[f"sim.export({drv!r}, {iv})"] = lambda sim, drv=drv, iv=iv, **k: sim.export(driver=drv, interval=iv, **k)
    if kind == "hires":
        out["surface.export('GeoTIFF', 2, superdomain)"] = lambda sim, **k: sim.surface.export(driver="GeoTIFF", interval=2, superdomain=True, **k)
        out["local.export_region_polygon"] = lambda sim, **k: sim.surface.local.export_region_polygon(driver="GPKG")
    return out


def current(name, f):
    """Files that hold the present state of the simulation, which sim.export() saves first and sim.reset() last."""
    if name.startswith("sim.reset"):
        return f in ("surface/surface000000.nc", "surface/local_grid.nc") or f.endswith(".yaml")
    return name.startswith("sim.export") and (f in ("surface/surface000002.nc", "counting/observed_craters000002.nc", "counting/emplaced_craters000002.nc") or f.endswith(".yaml"))


def names(text, f):
    """Does this prompt name the file (a shapefile consists of several)?"""
    p = Path(f)
    own = p.with_suffix(".shp").name if p.suffix in (".dbf", ".shx", ".prj", ".cpg") else p.name
    return re.search(r"(?<!\w)" + re.escape(own), text) is not None


def changed(before, after):
    return [f for f in before if after.get(f) != before[f]]


def judge(chk, what, before, after, con, name, ask, atomic):
    """Was every change of an existing file agreed to?"""
    everything = not ask
    named = set()
    refused = False
    refused_files = set()
    for text, prompt, a in con.asked:
        here = {f for f in before if names(text, f)}
        chk.expect(here or "Old run detected" in text, f"{what}: the prompt does not name any existing file: {text[-200:]!r}")
        if a.lower() == "a" or (a.lower() == "y" and "Old run detected" in text):
            everything = True
        elif a.lower() == "y":
            named |= here
        else:
            refused = True
            refused_files |= {f for f in here if names(prompt, f)}
    chk.expect(ask or not con.asked, f"{what}: asked although prompts are disabled")
    diff = [f for f in changed(before, after) if not current(name, f) or (refused and atomic)]
    if not everything:
        bad = [f for f in diff if f not in named]
        chk.expect(not bad, f"{what}: {bad} changed or removed without consent")
    bad = [f for f in diff if f in refused_files and f not in named]
    chk.expect(not bad, f"{what}: {bad} changed or removed although the user refused")
    if atomic and refused:
        chk.expect(not diff, f"{what}: {diff} changed or removed although the operation was cancelled")
    return refused, diff


FIRST = ("y", "n", "a", "Y", "N", "A", "", "maybe", "^C")


def tree(run, first=FIRST, rest=("y", "n", "a"), limit=14):
    """Call run(answers) for every complete sequence of answers; run returns True when it asked for more."""
    stack = [()]
    while stack:
        seq = stack.pop()
        if run(seq) and len(seq) < limit:
            for a in rest if seq else first:
                stack.append((*seq, a))


def resets(chk):
    """Reset operations under every sequence of answers."""
    for kind in KINDS:
        for name, (op, agreed) in RESETS.items():
            for ask in (True, False):

                def case(kind=kind, name=name, op=op, agreed=agreed, ask=ask):
                    src = template(kind)
                    w = World(src)

                    def run(answers):
                        sim = w.fresh()
                        flags = set_ask(sim, ask, name)
                        before, mem = files(w.d), memory(sim)
                        what = f"{name} answered {list(answers)}"
                        with Console(answers, before) as con:
                            try:
                                op(sim)
                                err = None
                            except Interrupt:
                                err = "interrupt"
                            except RuntimeError as e:
                                err = e
                        after = files(w.d)
                        chk.execd()
                        chk.state(kind, name, ask, answers)
                        if con.short:
                            return True
                        chk.trans(len(con.asked))
                        refused, diff = judge(chk, what, before, after, con, name, ask, atomic=True)
                        chk.expect(asking(sim) == flags, f"{what}: the prompt setting was changed")
                        if refused:
                            chk.expect(memory(sim) == mem, f"{what}: the operation was cancelled but the state in memory changed")
                            chk.outcome("refused")
                        else:
                            chk.expect(err is None, f"{what}: raised {err!r}")
                            if agreed:
                                agreed(sim, chk, what)
                            chk.outcome("done")
                        return False

                    try:
                        tree(run)
                    finally:
                        w.close()

                yield f"{kind} {name} ask={ask}", case


def constructors(chk):
    """Objects created on a directory that holds results."""

    def new_sim(d, **k):
        return Simulation(simdir=d, gridlevel=3, save_actions=None, rng_seed=3, **k)

    makers = {
        "Simulation()": lambda d: new_sim(d, ask_overwrite=True),
        "Simulation(reset=True)": lambda d: new_sim(d, ask_overwrite=True, reset=True),
        "Simulation(reset=False)": lambda d: new_sim(d, ask_overwrite=True, reset=False),
        "Simulation(ask_overwrite=False)": lambda d: new_sim(d, ask_overwrite=False),
        "Surface(reset=True)": lambda d: Surface.maker("icosphere", gridlevel=3, simdir=d, reset=True, ask_overwrite=True),
        "Surface(reset=False)": lambda d: Surface.maker("icosphere", gridlevel=3, simdir=d, reset=False, ask_overwrite=True),
        "Surface(reset=True, quiet)": lambda d: Surface.maker("icosphere", gridlevel=3, simdir=d, reset=True, ask_overwrite=False),
    }
    for name, op, firsts in [(n, o, f) for n, o in makers.items() for f in ([("y", "n"), ("a", "Y"), ("N", "A", ""), ("maybe", "^C")] if n == "Simulation(reset=True)" else [FIRST])]:

        def case(name=name, op=op, firsts=firsts):
            src = template("ico")

            def run(answers):
                d = scratch("case_")
                shutil.rmtree(d)
                shutil.copytree(src, d)
                try:
                    before = files(d)
                    what = f"{name} answered {list(answers)}"
                    obj = None
                    with Console(answers, before) as con:
                        try:
                            obj = op(d)
                        except (RuntimeError, Interrupt):
                            pass
                    after = files(d)
                    chk.execd()
                    chk.state(name, answers)
                    if con.short:
                        return True
                    chk.trans(len(con.asked))
                    ask = "ask_overwrite=False" not in name and "quiet" not in name
                    keep = {f: v for f, v in before.items() if not f.endswith(".yaml") and f != "surface/surface000000.nc"}
                    refused, diff = judge(chk, what, before, {f: after.get(f) if f in keep else v for f, v in before.items()}, con, name, ask, atomic="Simulation(reset=True" not in name)
                    if "reset=False" in name or name == "Simulation(ask_overwrite=False)":
                        chk.expect(not con.asked, f"{what}: asked although nothing is to be reset")
                        chk.expect(not diff, f"{what}: {diff} changed although the old state was to be kept")
                    elif ask:
                        chk.expect(con.asked, f"{what}: not asked")
                    yes = [a for *_, a in con.asked if a.lower() in ("y", "a")]
                    if isinstance(obj, Simulation):
                        if "reset=True" in name or yes:
                            initial(obj, chk, what)
                            _counts(obj, chk, what)
                            chk.expect(obj.interval == 0 and obj.time is None, f"{what}: the clock was not reset")
                        else:
                            chk.expect(obj.interval == 2 and obj.time == 98.0 and len(obj.counting.observed) == 2, f"{what}: the old state was not resumed")
                    chk.outcome("refused" if refused else "done")
                    return False
                finally:
                    shutil.rmtree(d, ignore_errors=True)

            tree(run, first=firsts)

        yield f"{name} {firsts}", case


def export(chk):
    """Exports over existing files under every sequence of answers."""
    for kind in KINDS:
        for name, op in exports(kind, chk.thorough).items():
            if kind == "hires" and not chk.thorough and not any(x in name for x in ("superdomain", "polygon", "'GeoTIFF', 2", "'OpenCraterTool', -1", "'GPKG', 2")):
                continue
            for attr, arg in ((True, None), (False, True), (True, False), (False, None)):
                if arg is not None and "polygon" in name or kind == "hires" and arg is False and not chk.thorough:
                    continue

                def case(kind=kind, name=name, op=op, attr=attr, arg=arg):
                    src = template(kind)
                    ask = attr if arg is None else arg
                    kw = {} if arg is None else {"ask_overwrite": arg}
                    # which files does it write?
                    d = scratch("probe_")
                    shutil.rmtree(d)
                    shutil.copytree(src, d)
                    sim = open_sim(d)
                    set_ask(sim, False)
                    before = files(d)
                    with quiet():
                        op(sim)
                    after = files(d)
                    lost = [f for f in changed(before, after) if not current(name, f)]
                    chk.expect(not lost, lambda: f"{name} changed {lost}")
                    new = sorted(set(after) - set(before))
                    chk.outcome("writes nothing" if not new else "writes files")
                    base = d
                    for f in new:
                        (base / f).write_bytes(b"old export " + f.encode())

                    w = World(base)

                    def run(answers):
                        sim = w.fresh()
                        flags = set_ask(sim, attr, name)
                        before, mem = files(w.d), memory(sim)
                        what = f"{name} with {kw or 'ask_overwrite=' + str(attr)} answered {list(answers)}"
                        with Console(answers, before) as con:
                            try:
                                op(sim, **kw)
                            except Interrupt:
                                pass
                        after = files(w.d)
                        chk.execd()
                        chk.state(kind, name, attr, arg, answers)
                        if con.short:
                            return True
                        chk.trans(len(con.asked))
                        refused, diff = judge(chk, what, before, after, con, name, ask, atomic=False)
                        chk.expect(asking(sim) == flags, f"{what}: the prompt setting was changed")
                        chk.expect(memory(sim) == mem, f"{what}: exporting changed the state in memory")
                        agreed = {f for t, _, a in con.asked if a.lower() == "y" for f in new if names(t, f)}
                        if any(a.lower() == "a" for *_, a in con.asked):
                            chk.outcome("all")
                        left = [f for f in agreed if after.get(f, b"").startswith(b"old export")]
                        chk.expect(not left, f"{what}: {left} not replaced although the user agreed")
                        return False

                    try:
                        if chk.thorough:
                            tree(run)
                        elif arg is None:
                            tree(run, first=("y", "n", "a", "^C"))
                        else:
                            tree(run, first=("y", "n"), rest=("y", "n"))
                    finally:
                        shutil.rmtree(base, ignore_errors=True)
                        w.close()

                yield f"{kind} {name} attribute={attr} argument={arg}", case


PARTS = [("resets", resets), ("constructors", constructors), ("export", export)]
