"""The run loop of a simulation, with emplacement and files recorded, against a model of its timeline."""

import itertools
from pathlib import Path

import numpy as np
from cratermaker import Simulation

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "6 productions x up to 9 spans x 13 ways to divide them, given by times, densities and numbers of craters; every sequence of 2 runs out of 11 (the first one complete or cut short in its 1st or 2nd save or population), 5 productions; 45 impossible requests on new and on advanced simulations; 8 spans written to disk; 15 runs with their craters",
    "thorough": "sequences of 3 runs, each complete or cut short",
}
NOTE = "Oracle: interval boundaries computed from the request (equal times, or equal numbers through the simulation's own production function, itself decided by C09); the recorded history is compared with it state by state."
SIMS = {
    "moon": {},
    "power": {"production": "powerlaw"},
    "slow": {"production": "powerlaw", "N1_coef": 1.0e-10, "slope": -2.0},
    "mars": {"target": "Mars"},
    "mercury": {"target": "Mercury", "gridlevel": 2},
    "vesta": {"target": "Vesta", "gridlevel": 2},
}
_sims = {}


class Cut(Exception):
    pass


def build(name, **kw):
    with quiet():
        return Simulation(simdir=scratch("run_"), ask_overwrite=False, save_actions=None, rng_seed=1, **{"gridlevel": 1, **SIMS[name], **kw})


class World:
    """A simulation whose files and craters are recorded instead of made."""

    def __init__(self, name):
        self.sim = s = build(name)
        self.log, self.pops, self.made = [], [], []
        self.cut = None
        self.nsave = self.npop = 0
        self.area = float(s.surface.area)
        p = s.production

        def save(**kw):
            self.log.append((s.interval, s.time, s.elapsed_time, s.elapsed_n1, dict(s.time_variables), kw))
            self.nsave += 1
            if self.cut == ("save", self.nsave):
                raise Cut

        def emplace(craters=None, **kw):
            object.__setattr__(s, "_is_new", False)
            self.made.append(craters)
            return craters

        def sample(**kw):
            self.npop += 1
            if self.cut == ("populate", (self.npop - 1) // len(s.surface.face_bin_indices) + 1):
                raise Cut
            self.pops.append(kw)
            if self.real:
                return type(p).sample(p, **kw)
            return np.array([]), np.array([])

        self.real = False
        object.__setattr__(s, "save", save)
        object.__setattr__(s, "emplace", emplace)
        object.__setattr__(s, "to_config", lambda *a, **k: {})
        object.__setattr__(p, "sample", sample)

    def fresh(self):
        s = self.sim
        for k in ("_time", "_interval", "_elapsed_time", "_elapsed_n1"):
            object.__setattr__(s, k, None)
        object.__setattr__(s, "_is_new", True)
        s.production.rng.bit_generator.state = np.random.default_rng(1).bit_generator.state

    def run(self, cut=None, **kw):
        self.log, self.pops, self.made = [], [], []
        self.nsave = self.npop = 0
        self.cut = cut
        with quiet():
            return self.sim.run(**kw)

    def N(self, t, D=1000.0):
        return float(np.squeeze(self.sim.production.function(diameter=D, time_start=t))) if t > 0 else 0.0

    def clock(self):
        s = self.sim
        return (s._time, s._interval, s._elapsed_time or 0.0, s._elapsed_n1 or 0.0, s._is_new)


def world(name):
    if name not in _sims:
        _sims[name] = World(name)
    return _sims[name]


def close(a, b, rel=1e-9, tol=1e-9):
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))


def boundaries(w, t0, t1, how):
    """Times at which intervals of the span t0 -> t1 end."""
    kind, v = how
    if kind == "time":
        n = int(np.ceil((t0 - t1) / v - 1e-6))
        return [t0 - k * v for k in range(1, n)] + [t1]
    if v == 1:
        return [t1]
    n0, n1 = w.N(t0), w.N(t1)
    out = []
    for k in range(1, v):
        goal = n0 - k * (n0 - n1) / v
        lo, hi = t1, t0
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if w.N(mid) < goal:
                lo = mid
            else:
                hi = mid
        out.append(0.5 * (lo + hi))
    return out + [t1]


def spans_of(w):
    """Recorded populations as (start, end) densities per interval: one call per bin of the mesh."""
    nb = len(w.sim.surface.face_bin_indices)
    return [w.pops[i : i + nb] for i in range(0, len(w.pops), nb)]


def judge(chk, w, before, plan, cut=None):
    """plan: list of (start, end) intervals that must be run; before: clock before the run (None: fresh)."""
    t, n, el, en, new = before
    first = plan[0][0] if plan else None
    if t is None:
        n, el, en = 0, 0.0, 0.0
        t = first
    want = []
    if new:
        want.append((n, t, el, en))
    npop, stop = 0, None
    if cut and cut == ("save", len(want)):
        stop = cut
    for a, b in plan:
        if stop:
            break
        npop += 1
        if cut == ("populate", npop):
            stop = cut
            break
        n, el, en, t = n + 1, el + (a - b), en + (w.N(a) - w.N(b)) * w.sim.production.N_conversion_factor, b
        want.append((n, t, el, en))
        if cut == ("save", len(want)):
            stop = cut
    loose = 2e-4
    got = w.log
    chk.expect([g[0] for g in got] == [x[0] for x in want], lambda: f"saved intervals {[g[0] for g in got]}, expected {[x[0] for x in want]} for {plan}")
    for g, x in zip(got, want):
        chk.expect(close(g[1], x[1], loose, 1e-6), f"state {g[0]} was saved at time {g[1]!r}, expected {x[1]!r}")
        chk.expect(close(g[2], x[2], loose, 1e-6 * max(1.0, x[2]) + 1e-3 * abs(x[1] - g[1])), f"state {g[0]} was saved with elapsed time {g[2]!r}, expected {x[2]!r}")
        chk.expect(close(g[3], x[3], 1e-3, 1e-9), f"state {g[0]} was saved with elapsed N(1) {g[3]!r}, expected {x[3]!r}")
        chk.expect(g[4] == {"time": g[1], "elapsed_time": g[2], "elapsed_n1": g[3]}, "time variables differ from the clock")
    if plan and not stop:
        chk.expect(got[-1][1] == plan[-1][1] or close(got[-1][1], plan[-1][1], 1e-9 if plan[-1][1] == w.exact_end else loose, 0), f"the run ended at {got[-1][1]!r} instead of {plan[-1][1]!r}")
    s = w.sim
    if got:
        c = w.clock()
        chk.expect((c[1], c[0], c[2], c[3]) == got[-1][:4], f"the clock {w.clock()} differs from the state saved last {got[-1][:4]}")
    elif before[0] is not None:
        chk.expect(w.clock()[:4] == before[:4], "the clock advanced without a save")
    # contiguous formation spans
    groups = spans_of(w)
    if cut and cut[0] == "populate" and stop:
        groups = groups[: npop - 1]
    times = [x[1] for x in got]
    chk.expect(len(groups) == len(plan if not stop else groups), f"{len(groups)} populations for {len(plan)} intervals")
    offset = 1 if new else 0
    start = before[0] if before[0] is not None else first
    for i, grp in enumerate(groups):
        a, b = (times[offset + i - 1] if offset + i else start), times[offset + i]
        if offset + i == 0:
            a = start
        tot = 0.0
        for c in grp:
            ar = float(c["area"])
            tot += ar
            for key, tt in (("diameter_number", a), ("diameter_number_end", b)):
                D, N = float(np.squeeze(c[key][0])), float(np.squeeze(c[key][1]))
                chk.expect(close(N / ar, w.N(tt, D), 1e-3, 1e-9 * w.N(start, D)), f"interval {a!r} -> {b!r}: the population has N({D})={N / ar!r} at {'its start' if tt == a else 'its end'}, expected {w.N(tt, D)!r}")
        chk.expect(close(tot, w.area, 1e-9), "the population does not cover the surface")
        if i:
            for c0, c1 in zip(groups[i - 1], grp):
                D0, N0 = c0["diameter_number_end"]
                D1, N1 = c1["diameter_number"]
                if D0 == D1:
                    chk.expect(close(float(N0), float(N1), 1e-3, 1e-9 * w.N(start, float(D0)) * float(c0["area"])), f"gap or overlap between the populations of intervals {i} and {i + 1}: {N0!r} -> {N1!r}")
    for _ in got:
        chk.trans()
    for g in got:
        chk.state("t", g[0], round(g[1], 6), round(g[2], 6))
    return stop


TSPANS = {
    "moon": [(100.0, 0.0), (3900.0, 0.0), (100.0, 40.0), (3900.0, 3700.0), (1.0, 0.0), (2.1, 0.0), (4400.0, 4000.0), (0.3, 0.1), (3000.0, 1.0)],
    "power": [(100.0, 0.0), (100.0, 40.0), (2.1, 0.7), (4000.0, 3999.0)],
    "slow": [(100.0, 0.0), (33.0, 1e-3)],
    "mars": [(3900.0, 3000.0), (10.0, 0.0)],
    "mercury": [(3900.0, 0.0), (1.0, 0.5)],
    "vesta": [(4400.0, 4000.0), (50.0, 0.0)],
}
HOW = [None, ("n", 1), ("n", 2), ("n", 3), ("n", 7)] + [("f", f) for f in (1.0, 0.5, 1 / 3, 0.3, 0.4, 0.7, 0.1, 0.9999)]


def part_spans(chk):
    """every way to give and to divide a span"""

    def case(name, t0, t1, how, form):
        w = world(name)
        s = w.sim
        chk.execd()
        w.fresh()
        kw, split = {}, ("n", 1)
        if how is not None:
            kind, v = how
            if kind == "n":
                kw["ninterval"] = v
                split = ("number", v)
            else:
                kw["time_interval"] = v * (t0 - t1)
                split = ("time", v * (t0 - t1))
        else:
            split = ("number", 1)
        cN, cD = s.production.N_conversion_factor, s.production.D_conversion_factor
        exact = form in ("age", "time", "time0", "np")
        if form == "age":
            kw["age"] = t0
        elif form == "time":
            kw.update(time_start=t0, time_end=t1)
        elif form == "time0":
            kw["time_start"] = t0
        elif form == "np":
            kw.update(time_start=np.float64(t0), time_end=np.float64(t1))
        else:
            D0, D1 = (1000.0, 1000.0) if form[-1] != "x" else (20e3, 5e3)
            a, b = w.N(t0, D0), w.N(t1, D1)
            if form[0] == "d":
                key = {"N_D": (D0 / cD, a * cN)}
                if t1 > 0 or "e" in form:
                    key["N_D_end"] = (D1 / cD, b * cN)
                if form[-1] == "a":
                    key = {k: np.array(v) for k, v in key.items()}
            else:
                key = {"diameter_number": (D0, a * w.area)}
                if t1 > 0 or "e" in form:
                    key["diameter_number_end"] = (D1, b * w.area)
            kw.update(key)
        if not exact and "time_interval" in kw and how[1] == 1.0:
            kw["time_interval"] *= 0.999
            split = ("time", kw["time_interval"])
        before = w.clock()
        w.run(**kw)
        chk.expect(w.log, "nothing was saved")
        start = w.log[0][1]
        if exact:
            chk.expect(start == t0, f"the run starts at {start!r} instead of {t0!r}")
        chk.expect(close(w.N(start), w.N(t0), 1e-3), f"the run starts at {start!r}, where N(1)={w.N(start)!r}, instead of {t0!r} with {w.N(t0)!r}")
        end = t1 if exact or t1 == 0 else w.log[-1][1]
        chk.expect(close(w.N(end), w.N(t1), 1e-3, 1e-9 * w.N(t0)), f"the run ends at {end!r} instead of {t1!r}")
        w.exact_end = t1 if exact or t1 == 0 else None
        bs = boundaries(w, start, end, split)
        judge(chk, w, before, list(zip([start] + bs[:-1], bs)))
        chk.outcome(f"{form}:{'one interval' if len(bs) == 1 else 'divided'}")
        # repeating a finished run changes nothing
        c = w.clock()
        kw2 = dict(kw)
        if exact:
            w.run(**kw2)
            chk.expect(w.clock()[:4] == c[:4] and not w.pops, "repeating a finished run advanced it")

    for name, spans in TSPANS.items():
        for t0, t1 in spans:
            for how in HOW:
                forms = ["time", "np"] + (["age", "time0"] if t1 == 0 else []) + ["d", "de", "dx", "dea", "n", "ne", "nex"]
                if name not in ("moon", "power") and not chk.thorough:
                    forms = ["time", "d"]
                for form in forms:
                    yield (f"{name}|{t0}->{t1}|{how}|{form}", lambda a=(name, t0, t1, how, form): case(*a))


RUNS = [
    {"age": 100.0, "ninterval": 4},
    {"age": 100.0, "time_interval": 30.0},
    {"time_start": 100.0, "time_end": 40.0, "time_interval": 20.0},
    {"time_start": 60.0, "time_end": 0.0, "ninterval": 2},
    {"time_start": 60.0, "time_end": 10.0, "time_interval": 20.0},
    {"age": 150.0, "time_interval": 50.0},
    {"time_end": 20.0},
    {"time_end": 0.0, "ninterval": 3},
    {"time_end": 5.0, "time_interval": 7.0},
    {"time_start": 40.0, "time_end": 10.0},
    {"N_D": 100.0, "ninterval": 3},
]


def part_continue(chk):
    """runs after runs, complete or cut short, never repeat or skip any of the timeline"""

    def case(name, seq):
        w = world(name)
        s = w.sim
        chk.execd()
        w.fresh()
        for i, cut in seq:
            kw = dict(RUNS[i])
            t0, t1 = kw.get("age", kw.get("time_start")), kw.get("time_end", 0.0)
            if "N_D" in kw:
                t0, t1 = kw["N_D"], 0.0
                a = kw["N_D"] = (1.0, w.N(t0) * s.production.N_conversion_factor)
                t0 = float(s.production.age_from_D_N(a[0] * s.production.D_conversion_factor, a[1] / s.production.N_conversion_factor))
                chk.expect(close(w.N(t0), w.N(100.0), 1e-3), "the inversion of the production function is off")
            before = w.clock()
            now = before[0]
            if now is not None and t0 is not None and t0 != now and abs(t0 - now) < 1e-6 * now:
                chk.outcome("starts agree only up to the inversion")
                return
            bad = None
            if t0 is None:
                bad = now is None
                t0 = now
                if not bad and not t0 > t1:
                    bad = True
            elif now is not None and t0 < now:
                bad = True
            if not bad and "time_interval" in kw and kw["time_interval"] > t0 - t1:
                bad = True
            if bad:
                try:
                    w.run(**kw)
                except (ValueError, RuntimeError):
                    chk.expect(w.clock() == before and not w.log and not w.pops, f"a rejected run {kw} changed the simulation")
                    chk.outcome("rejected")
                    continue
                chk.fail(f"the run {kw} was accepted at time {now}")
            how = ("time", kw["time_interval"]) if "time_interval" in kw else ("number", kw.get("ninterval", 1))
            bs = boundaries(w, t0, t1, how)
            now = t0 if now is None else now
            if any(abs(b - now) < 1e-3 * max(now, 1e-3) and b != now for b in bs if b > 0):
                # the present is at a boundary up to the accuracy of the inversion: that boundary has been reached
                bs = [b for b in bs if not abs(b - now) < 1e-3 * now]
            todo = [b for b in bs if b < now]
            plan = list(zip([now] + todo[:-1], todo))
            w.exact_end = t1
            try:
                w.run(cut=cut, **kw)
            except Cut:
                chk.outcome(f"cut in {cut[0]}")
            if before[0] is None and not plan:
                chk.fail("empty plan")
            if before[4] and not w.log:
                chk.fail("the initial state was not saved")
            if plan:
                judge(chk, w, before, plan, cut)
            else:
                chk.expect(not w.pops and w.clock()[:4] == before[:4], f"the finished run {kw} advanced the simulation at {now}")
                chk.outcome("nothing left")

    depth = 3 if chk.thorough else 2
    cuts = [None, ("save", 1), ("save", 2), ("populate", 1), ("populate", 2)]
    for name in ("moon", "power", "slow", "mars", "mercury"):
        for seq in itertools.product(range(len(RUNS)), repeat=depth):
            if name in ("slow", "mars", "mercury") and not chk.thorough and seq[1] not in (0, 1, 7, 8):
                continue
            for cs in itertools.product(cuts, repeat=depth - 1):
                q = [(i, c) for i, c in zip(seq, cs + (None,))]
                yield (f"{name}|" + " ; ".join(f"{RUNS[i]}{c or ''}" for i, c in q), lambda a=(name, q): case(*a))


def bad_requests():
    return [
        {},
        {"age": 0.0},
        {"age": 0, "ninterval": 2},
        {"age": -5.0},
        {"age": float("nan")},
        {"age": float("inf")},
        {"age": [10.0, 5.0]},
        {"age": "ten"},
        {"age": 10.0, "time_start": 10.0},
        {"age": 10.0, "time_end": 5.0},
        {"age": 10.0, "N_D": (300, 0.1)},
        {"age": 10.0, "diameter_number": (300e3, 1)},
        {"age": 10.0, "N_D_end": (300, 0.1)},
        {"age": 10.0, "diameter_number_end": (300e3, 1)},
        {"age": 10.0, "time_interval": 0.0},
        {"age": 10.0, "time_interval": -1.0},
        {"age": 10.0, "time_interval": 11.0},
        {"age": 10.0, "ninterval": 0},
        {"age": 10.0, "ninterval": -1},
        {"age": 10.0, "ninterval": 2.5},
        {"age": 10.0, "ninterval": "2"},
        {"age": 10.0, "ninterval": 2, "time_interval": 5.0},
        {"time_start": 10.0, "time_end": 20.0},
        {"time_start": 10.0, "time_end": 10.0},
        {"time_start": 10.0, "time_end": 10.0, "ninterval": 2},
        {"time_start": 10.0, "time_end": -1.0},
        {"time_start": [10.0], "time_end": 0.0},
        {"time_start": 10.0, "time_end": [0.0]},
        {"time_start": 10.0, "N_D": (300, 0.1)},
        {"time_start": 10.0, "diameter_number": (300e3, 1)},
        {"time_start": 10.0, "N_D_end": (300, 0.01)},
        {"time_start": 5000.0},
        {"time_start": 5000.0, "ninterval": 2},
        {"N_D": (300.0,)},
        {"N_D": 300.0},
        {"N_D": (300.0, 0.1, 3.0)},
        {"N_D": (300.0, -0.1)},
        {"N_D": (300.0, 0.0)},
        {"N_D": (-300.0, 0.1)},
        {"N_D": (300.0, 0.1), "N_D_end": (300.0, 0.2)},
        {"N_D": (300.0, 0.1), "N_D_end": (300.0, 0.1)},
        {"N_D": (300.0, 0.1), "N_D_end": (300.0,)},
        {"N_D": (300.0, 0.1), "diameter_number": (300e3, 1.0)},
        {"N_D_end": (300.0, 0.1)},
        {"diameter_number": (300e3,)},
        {"diameter_number": (300e3, -2.0)},
        {"diameter_number": (300e3, 1.0), "diameter_number_end": (300e3, 2.0)},
        {"N_D": (300.0, 0.01), "time_interval": 1e5},
    ]


def part_rejected(chk):
    """contradictory or impossible requests are rejected with nothing changed"""

    def case(i, advanced):
        kw = bad_requests()[i]
        w = world("moon")
        chk.execd()
        w.fresh()
        if advanced:
            w.run(time_start=9.0, time_end=7.0, ninterval=2)
        before = w.clock()
        try:
            w.run(**kw)
        except (ValueError, TypeError, RuntimeError) as e:
            chk.outcome(type(e).__name__)
        except Exception as e:
            chk.fail(f"{kw}: rejected only by accident, with {type(e).__name__}: {e}")
        else:
            chk.fail(f"{kw} was accepted")
        chk.expect(w.clock() == before, f"{kw} was rejected after the clock was changed from {before} to {w.clock()}")
        chk.expect(not w.log and not w.pops, f"{kw} was rejected after something was saved or formed")
        chk.state("bad", i, advanced)

    for i in range(len(bad_requests())):
        for adv in (False, True):
            yield (f"{bad_requests()[i]}|{'advanced' if adv else 'new'}", lambda a=(i, adv): case(*a))


def part_craters(chk):
    """craters formed in an interval are dated inside it, oldest first"""

    def case(name, kw):
        w = world(name)
        chk.execd()
        w.fresh()
        w.real = True
        s = w.sim
        lim = {}
        try:
            w.run(**kw)
        finally:
            w.real = False
        times = [g[1] for g in w.log]
        n = 0
        ivs = iter(zip(times, times[1:]))
        nb = len(s.surface.face_bin_indices)
        chk.expect(len(w.pops) == nb * (len(times) - 1), "one population per bin and interval")
        # pair emplaced lists with intervals by their order in time
        for cs in w.made:
            ts = [c.time for c in cs]
            chk.expect(ts == sorted(ts, reverse=True), "craters of an interval are not in order of age")
            for a, b in ivs:
                if ts[0] > b * (1 - 1e-3):
                    break
            else:
                chk.fail("craters formed outside of every interval")
            tol = 1e-3 * a
            chk.expect(all(b - tol <= t <= a + tol for t in ts), f"craters of the interval {a} -> {b} are dated {min(ts)} .. {max(ts)}")
            n += len(ts)
            chk.trans(len(ts))
        chk.outcome("craters formed" if n else "none formed")
        chk.state("c", name, n)

    reqs = [
        {"time_start": 4000.0, "time_end": 3700.0, "time_interval": 70.0},
        {"age": 4000.0, "ninterval": 3},
        {"age": 3900.0, "time_interval": 1300.0},
        {"time_start": 4000.0, "time_end": 3500.0},
        {"N_D": (500.0, 0.05), "N_D_end": (500.0, 0.01), "ninterval": 2},
    ]
    for name in ("moon", "mars", "mercury"):
        for i, kw in enumerate(reqs if name == "moon" or chk.thorough else reqs[:1]):
            yield (f"{name}|{kw}", lambda a=(name, kw): case(*a))


def part_disk(chk):
    """the same history on disk: one file per state, each with its own time variables"""
    import xarray as xr

    def case(kw, times):
        chk.execd()
        s = build("moon")
        with quiet():
            s.run(**kw)
        files = sorted(Path(s.surface.output_dir).glob("surface*.nc"))
        chk.expect([f.name for f in files] == [f"surface{i:06d}.nc" for i in range(len(times))], f"files {[f.name for f in files]} for {len(times)} states")
        for i, (f, t) in enumerate(zip(files, times)):
            with xr.open_dataset(f) as ds:
                got = {k: float(np.squeeze(ds[k].values)) for k in ("time", "elapsed_time", "elapsed_n1")}
                chk.expect(int(np.squeeze(ds["interval"].values)) == i, f"{f.name} is labelled {ds['interval'].values}")
            N = lambda t: float(np.squeeze(s.production.function(diameter=1000.0, time_start=t))) if t > 0 else 0.0
            want = {"time": t, "elapsed_time": times[0] - t, "elapsed_n1": (N(times[0]) - N(t)) * s.production.N_conversion_factor}
            for k in want:
                chk.expect(close(got[k], want[k], 1e-3, 1e-6), f"{f.name}: {k}={got[k]!r}, expected {want[k]!r}")
            chk.state("disk", repr(kw), i)
            chk.trans()
        chk.outcome("history on disk")

    for kw, times in [
        ({"age": 100.0, "time_interval": 30.0}, [100.0, 70.0, 40.0, 10.0, 0.0]),
        ({"age": 100.0}, [100.0, 0.0]),
        ({"time_start": 100.0, "time_end": 40.0, "time_interval": 20.0}, [100.0, 80.0, 60.0, 40.0]),
        ({"age": 90.0, "ninterval": 3}, [90.0, 60.0, 30.0, 0.0]),
        ({"time_start": 2.1, "time_end": 0.0, "time_interval": 0.7}, [2.1, 1.4, 0.7, 0.0]),
        ({"age": 11.0, "time_interval": 1.0}, [11.0 - i for i in range(12)]),
        ({"time_start": 100.0, "time_end": 99.0}, [100.0, 99.0]),
        ({"age": 10.0, "time_interval": 9.0}, [10.0, 1.0, 0.0]),
    ]:
        yield (repr(kw), lambda a=(kw, times): case(*a))


PARTS = [("spans", part_spans), ("continue", part_continue), ("rejected", part_rejected), ("craters", part_craters), ("disk", part_disk)]
