"""Quasi-Monte Carlo craters: drawn times, sequence order, exactly-once emplacement, replacement of random craters."""

import itertools
import math
from pathlib import Path

import numpy as np
from cratermaker import Crater, Production, Simulation
from scipy.special import ndtr

from mc.scripted import ScriptedRNG, explore, lattice
from mc.world import scratch

BOUNDS = {
    "quick": "every list of 1 or 2 prescribed craters from 33 kinds of metadata and every ordered triple of 8 sequence kinds x every answer of the generator with up to 2 deviations over 5 quantiles; normal laws on a lattice of 41 quantiles in 5 settings; every merge of up to 2 random x up to 2 prescribed craters from 12 and 9 kinds in 5 spans; every partition of a history at 6 cut points; 4 ways to hand over the craters; runs with every number of intervals up to 5",
    "thorough": "all triples of 17 sequence kinds, 3 deviations, merges of up to 3 random and 3 prescribed craters, partitions at 9 cut points, runs with up to 12 intervals",
}
NOTE = "Oracle: the documented meaning of production_time, production_ND and production_sequence; inversion through the production function itself (decided by C09)."
mk = Crater.maker
U = (0.5, 1e-9, 1 - 1e-9, 0.1, 0.9)  # exactly 0 and 1 are the bounds of truncated laws, whatever the stated value


def prod(rng, setting=(None, {}), **kw):
    return Production.maker(setting[0], **setting[1], rng=rng, **kw)


def N(p, D, t):
    return float(p.function(D * p.D_conversion_factor, float(t))) * p.N_conversion_factor if t > 0 else 0.0


# metadata kinds: (kind, mean, sigma) as a time or as N(20) per 1e6 km2 (Moon)
TIMES = [("t", 3900.0, 0.0), ("t", 3900.0, 10.0), ("t", 3500.0, 0.0), ("t", 3500.0, 50.0), ("t", 1.0, 20.0), ("t", 0.0, 0.0), ("n", 172.0, 0.0), ("n", 172.0, 20.0), ("n", 10.0, 1.0), ("n", 0.0, 0.0), (None, 0.0, 0.0)]


def crater(name, kind, diameter=1e5):
    meta, seq = kind
    kw = {}
    if meta[0] == "t":
        kw["production_time"] = (meta[1], meta[2]) if meta[2] else meta[1]
    elif meta[0] == "n":
        kw["production_ND"] = (20.0, meta[1], meta[2]) if meta[2] else (20.0, meta[1])
    if seq is not None:
        kw["production_sequence"] = seq
    return mk(diameter=diameter, name=name, location=(10.0, 20.0), **kw)


def value(p, meta, t):
    return t if meta[0] == "t" else N(p, 20.0, t)


def verify(chk, p, kinds, out, z_max=6.5):
    times = {c.name: c.time for c in out}
    want = [f"c{i}" for i, k in enumerate(kinds) if k[0][0] is not None or k[1] is not None]
    chk.expect(sorted(c.name for c in out) == want, lambda: f"{kinds}: craters {[c.name for c in out]}, expected {want}")
    seqt = [c.time for c in out]
    chk.expect(all(isinstance(t, float) and math.isfinite(t) and t >= 0 for t in seqt), lambda: f"{kinds}: times {seqt}")
    chk.expect(all(a >= b for a, b in zip(seqt, seqt[1:])), lambda: f"{kinds}: not sorted from old to young: {seqt}")
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            if a[1] is not None and b[1] is not None and a[1] < b[1]:
                chk.expect(times[f"c{i}"] >= times[f"c{j}"] - 1e-6, lambda: f"{kinds}: sequence {a[1]} forms at {times[f'c{i}']}, later sequence {b[1]} at {times[f'c{j}']}")
    # stated values are honoured unless another sequence contradicts them
    groups = {}
    for k in kinds:
        if k[1] is not None:
            groups.setdefault(k[1], []).append(k[0])
    for i, (meta, seq) in enumerate(kinds):
        if meta[0] is None:
            continue
        if seq is not None:
            if len(groups[seq]) > 1 or any(m[0] is None for g in groups.values() for m in g):
                continue
            ext = {s: (min(span1(p, m)[0] for m in g), max(span1(p, m)[1] for m in g)) for s, g in groups.items()}
            order = sorted(ext)
            if any(ext[a][0] <= ext[b][1] for a, b in zip(order, order[1:])):
                continue  # overlapping or contradictory
        t = times[f"c{i}"]
        v = value(p, meta, t)
        tol = z_max * meta[2] + 1e-6 * max(meta[1], 1.0)
        chk.expect(abs(v - meta[1]) <= tol, lambda: f"{kinds}: crater {i} forms at {t} My, value {v}, stated {meta}")
        if seq is None and meta[2] == 0 and meta[0] == "t":
            chk.expect(t == meta[1], lambda: f"stated {meta}, got {t}")


def span1(p, meta):
    lo, hi = max(meta[1] - meta[2], 0.0), meta[1] + meta[2]
    return (N(p, 1.0, lo), N(p, 1.0, hi)) if meta[0] == "t" else (lo * N(p, 1.0, 1000.0) / N(p, 20.0, 1000.0), hi * N(p, 1.0, 1000.0) / N(p, 20.0, 1000.0))


def anchored(kinds):
    s = [k[1] for k in kinds if k[1] is not None]
    return not s or any(k[1] == min(s) and k[0][0] is not None for k in kinds)


def draw(chk, kinds, max_dev):
    cs = [crater(f"c{i}", k, 1e5 + 1e4 * i) for i, k in enumerate(kinds)]

    def run(rng):
        p = prod(rng)
        chk.execd()
        if not anchored(kinds):
            try:
                p.quasimc_craters = cs
            except ValueError:
                chk.outcome("rejected: oldest sequence without a value")
                return
            chk.fail(f"{kinds}: the oldest sequence has no value and is accepted")
        p.quasimc_craters = cs
        out = p.quasimc_craters
        chk.trans(len(rng.points) + 1)
        verify(chk, p, kinds, out)
        chk.expect(all(c.time is None for c in cs), "the craters handed over were changed")
        chk.state(kinds, [round(c.time, 6) for c in out])
        chk.outcome(f"{len(out)} of {len(kinds)} timed")

    explore(run, lambda sc: ScriptedRNG(sc, u_menu=U), max_dev=max_dev, max_points=12)


def part_times(chk):
    """every list of one or two craters over all kinds of metadata, every answer of the generator"""
    kinds = [(m, s) for m in TIMES for s in (None, 0, 3)]
    dev = 3 if chk.thorough else 2
    for k in kinds:
        yield f"{k}", lambda k=k: draw(chk, [k], dev)
    for a in kinds:

        def f(a=a):
            for b in kinds:
                draw(chk, [a, b], dev)

        yield f"{a} x all", f


SEQ8 = [("t", 3900.0, 10.0), ("t", 3900.0, 0.0), ("t", 3500.0, 50.0), ("n", 172.0, 20.0), (None, 0.0, 0.0)]


def part_sequences(chk):
    """every ordered triple of sequence kinds: consistent, tied, overlapping and contradictory"""
    metas = [m for m in TIMES if m != ("t", 0.0, 0.0)] if chk.thorough else SEQ8
    kinds = [(m, s) for m in metas for s in ((0, 1, 7) if chk.thorough else (0, 1))] + [((None, 0.0, 0.0), 7), (("t", 1.0, 20.0), 7)]
    for a, b in itertools.product(kinds, repeat=2):

        def f(a=a, b=b):
            for c in kinds:
                draw(chk, [a, b, c], 2 if chk.thorough else 1)

        yield f"{a} {b} x all", f


SETTINGS = [(None, {}), ("neukum", {"version": "Mars"}), ("neukum", {"version": "Projectile"}), ("powerlaw", {}), (None, {"N_conversion_factor": 1e6, "D_conversion_factor": 1.0})]


def part_law(chk):
    """untagged values follow the normal law stated for them, tagged ones stay within their own sequence"""
    n = 401 if chk.thorough else 41
    us = lattice(n)

    def case(si, kind, form):
        def f():
            setting = SETTINGS[si]
            ref = prod(np.random.default_rng(0), setting)
            if kind == "t":
                mean, sig, kw = 3000.0, 30.0, {"production_time": (3000.0, 30.0)}
            else:
                D = 20e3 / ref.D_conversion_factor
                mean = N(ref, D, 3000.0)
                sig = mean / 20
                kw = {"production_ND": (D, mean, sig)}
            vals = []
            for u in us:
                cs = [mk(diameter=1e5, name="a", **kw)]
                rng = ScriptedRNG(u_menu=(u,))
                if form == "made":
                    p = prod(rng, setting, quasimc_craters=cs)
                else:
                    p = prod(rng, setting)
                    if form == "set":
                        p.quasimc_craters = cs
                    else:
                        p.quasimc_craters.append(cs[0])
                t = p.quasimc_craters[0].time
                chk.execd(), chk.trans()
                vals.append(t if kind == "t" else N(p, D, t))
                chk.state(si, kind, u)
            z = np.sort((np.array(vals) - mean) / sig)
            err = np.abs(ndtr(z) - np.array(us))
            chk.expect(err.max() < 1e-3, lambda: f"quantiles of the drawn values {z} are not those of the stated normal distribution")

        return f

    for si in range(len(SETTINGS)):
        for kind in "tn":
            for form in ("made", "set", "append"):
                yield f"{SETTINGS[si]} {kind} {form}", case(si, kind, form)


def greedy(rd, qd):
    rd, qd, k = sorted(rd), sorted(qd), 0
    for d in rd:
        if k < len(qd) and d >= qd[k]:
            k += 1
    return k


def inside(t, span):
    return span[1] < t <= span[0] or t == span[1] == 0


def part_merge(chk):
    """every small merge: prescribed craters of the span once each, one for one replacement, order"""
    SP = [(4000.0, 0.0), (4000.0, 3000.0), (3000.0, 1000.0), (1000.0, 0.0), (3000.0, 2999.0)]
    qk = [(d, t) for d in (2e4, 1e5, 5e5) for t in (0.0, 3000.0, 1500.5)]
    rk = [(d, t) for d in (1e4, 1e5, 3e5) for t in (None, 3000.0, 2500.0, 0.5)]
    nr, nq = (3, 3) if chk.thorough else (2, 2)

    def case(qs):
        def f():
            p = prod(np.random.default_rng(3))
            p.quasimc_craters = [mk(diameter=d, name=f"q{i}", production_time=t) for i, (d, t) in enumerate(qs)]
            p.diameter_range = (1e3, 1e6)
            for n in range(nr + 1):
                for rs in itertools.combinations_with_replacement(rk, n):
                    rc = [mk(diameter=d, name=f"r{i}", **({} if t is None else {"time": t})) for i, (d, t) in enumerate(rs)]
                    for span in SP:
                        out = p.quasimc_merge(list(rc), time_start=span[0], time_end=span[1])
                        chk.execd(), chk.trans(len(out))
                        where = f"prescribed {qs}, random {rs}, span {span}"
                        names = [c.name for c in out]
                        want_q = [f"q{i}" for i, (d, t) in enumerate(qs) if inside(t, span)]
                        chk.expect(sorted(x for x in names if x[0] == "q") == want_q, lambda: f"{where}: emplaced {names}, expected {want_q}")
                        ts = [c.time for c in out]
                        chk.expect(all(a >= b for a, b in zip(ts, ts[1:])), lambda: f"{where}: not sorted: {ts}")
                        chk.expect(all(span[1] <= t <= span[0] for t in ts), lambda: f"{where}: times {ts}")
                        ok = [f"r{i}" for i, (d, t) in enumerate(rs) if t is None or inside(t, span)]
                        kept = [x for x in names if x[0] == "r"]
                        dia = {f"r{i}": d for i, (d, t) in enumerate(rs)}
                        qd = [qs[int(x[1:])][0] for x in want_q]
                        chk.expect(len(set(kept)) == len(kept) and set(kept) <= set(ok), lambda: f"{where}: {names}")
                        small = [x for x in ok if not qd or dia[x] < min(qd)]
                        chk.expect(set(small) <= set(kept), lambda: f"{where}: a random crater smaller than every prescribed one was dropped: {names}")
                        chk.expect(len(ok) - len(kept) == greedy([dia[x] for x in ok], qd), lambda: f"{where}: {len(ok) - len(kept)} random craters replaced ({names})")
                        for c in out:
                            d0 = dia.get(c.name, None) or qs[int(c.name[1:])][0]
                            t0 = rs[int(c.name[1:])][1] if c.name[0] == "r" else qs[int(c.name[1:])][1]
                            chk.expect(c.diameter == d0 and (t0 is None or c.time == t0), lambda: f"{where}: {c.name} changed to {c.diameter}, {c.time}")
                        chk.state(qs, rs, span, names)

        return f

    for n in range(nq + 1):
        for qs in itertools.combinations_with_replacement(qk, n):
            yield f"prescribed {qs}", case(qs)


def part_partitions(chk):
    """over every partition of the history into consecutive spans, every prescribed crater is emplaced exactly once"""
    cuts = [4000.0, 3900.0, 3000.0, 2999.9999, 1000.0, 1e-9] + ([500.0, 3900.0001, 2.5] if chk.thorough else [])
    qt = [4400.0, 4000.0, 3900.0, 3000.0, 2999.99995, 1000.0, 5e-10, 0.0, 4500.0]

    def case(mask, si):
        def f():
            p = prod(np.random.default_rng(1), SETTINGS[si])
            p.quasimc_craters = [mk(diameter=1e5 * (i + 1), name=f"q{i}", production_time=t) for i, t in enumerate(qt)]
            p.diameter_range = (1e3, 1e6)
            b = [4500.0] + sorted((c for i, c in enumerate(cuts) if mask >> i & 1), reverse=True) + [0.0]
            seen = []
            for s, e in zip(b, b[1:]):
                seen += [c.name for c in p.quasimc_merge([], time_start=s, time_end=e)]
                chk.execd(), chk.trans()
            chk.expect(seen == [c.name for c in p.quasimc_craters], lambda: f"spans {b}: emplaced {seen}")
            chk.state(mask, si)

        return f

    for si in (0, 2, 3):
        for mask in range(1 << len(cuts)):
            yield f"{SETTINGS[si]} cuts {mask:b}", case(mask, si)


LIST = [("A", 9e5, {"production_time": 3900.0}), ("B", 6e5, {"production_time": (3800.0, 5.0)}), ("C", 7e5, {"production_ND": (20.0, 20.0, 1.0)}), ("D", 8e5, {"production_time": 0.0}), ("E", 6.5e5, {})]


def _csv(path):
    rows = ["name,latitude,longitude,diameter,production_time,production_time_stdev,production_D,production_N,production_N_stdev"]
    for i, (n, d, kw) in enumerate(LIST):
        t = kw.get("production_time", ("", ""))
        t = t if isinstance(t, tuple) else (t, 0.0)
        q = kw.get("production_ND", ("", "", ""))
        rows.append(",".join(map(str, (n, 5 * i, 7 * i, d, *t, *q))))
    Path(path).write_text("\n".join(rows) + "\n")
    return path


def _sim(**kw):
    d = scratch("sim_")
    return Simulation(gridlevel=2, simdir=d, ask_overwrite=False, rng_seed=4, save_actions=None, **kw)


def part_sim(chk):
    """every way to hand the craters to a simulation, then runs over every number of intervals: each is emplaced exactly once"""
    forms = ["file", "assign", "append", "assign-after-run"]
    ns = range(1, 13) if chk.thorough else range(1, 6)

    def case(form, n):
        def f():
            cs = lambda s: [s.Crater.maker(name=a, diameter=d, location=(7.0 * i, 5.0 * i), **kw) for i, (a, d, kw) in enumerate(LIST)]  # noqa: E731
            if form == "file":
                s = _sim(quasimc_file=_csv(scratch("q_") / "q.csv"))
            else:
                s = _sim()
                chk.expect(not s.do_quasimc, "quasi-Monte Carlo mode without any crater")
                if form == "assign-after-run":
                    s.populate(time_start=0.001, time_end=0.0005)
                if form == "append":
                    for c in cs(s):
                        s.quasimc_craters.append(c)
                else:
                    s.quasimc_craters = cs(s)
            q = s.quasimc_craters
            chk.expect([c.name for c in q] == ["A", "B", "C", "D"], lambda: f"{form}: {[c.name for c in q]}")
            chk.expect(s.do_quasimc is True, f"{form}: quasi-Monte Carlo mode is off")
            lim = s.production.diameter_range[1]
            chk.expect(lim == 6e5, lambda: f"{form}: largest random crater {lim}, smallest prescribed one is 600 km")
            t0 = {c.name: c.time for c in q}
            s.largest_crater = 6e5
            s.smallest_crater = 4e5
            seen = []
            object.__setattr__(s, "emplace", lambda craters=None, **k: seen.append(list(craters)) or list(craters))
            s.run(age=3950.0, ninterval=n)
            chk.execd(), chk.trans(len(seen))
            flat = [c for x in seen for c in x]
            got = [c.name for c in flat if c.name in t0]
            chk.expect(got == ["A", "B", "C", "D"], lambda: f"{form}, {n} intervals: emplaced {got}")
            chk.expect(all(c.time == t0[c.name] for c in flat if c.name in t0), f"{form}: times were redrawn")
            tt = [c.time for c in flat]
            chk.expect(all(a >= b for a, b in zip(tt, tt[1:])), lambda: f"{form}, {n} intervals: emplaced out of order")
            chk.expect(all(c.diameter <= 6e5 * (1 + 1e-6) for c in flat if c.name not in t0), "a random crater is larger than the limit")
            chk.state(form, n)

        return f

    for form in forms:
        for n in ns:
            yield f"{form}, {n} intervals", case(form, n)


PARTS = [("times", part_times), ("sequences", part_sequences), ("law", part_law), ("merge", part_merge), ("partitions", part_partitions), ("sim", part_sim)]
