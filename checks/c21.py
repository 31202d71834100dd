"""Mass, extent, shape and symmetry of every crater of a menu, on every terrain, and of every way of degrading it."""

import itertools

import dask
import numpy as np
from cratermaker import Crater, Simulation

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "8 morphology settings x 4 terrains x 6 sizes x 3 locations on an icosphere and 5 sizes x 2 locations on a high resolution mesh, each alone and after another crater; every one of the 60 rotations of the icosphere for 5 craters; diffusion and slope collapse of every terrain in every region of a menu, and of a spike on every face; every partition of a time span into up to 4 parts for the degradation",
    "thorough": "three craters in a row, meshes of three resolutions, all rotations for 16 craters, partitions into up to 6 parts",
}
NOTE = "Oracle: the volume under the face elevations before and after, the maximum principle, the profile as a function of distance alone, and the symmetry group of the icosphere."
ASSUMPTIONS = ["The profile formulas themselves (the compiled kernels) are taken from mc/bindings_standin.py."]
LEVEL = "implementation"
dask.config.set(scheduler="synchronous")
R = 1737400.0
_sims = {}
OPTIONS = [{}, {"dorays": True}, {"ejecta_truncation": 1.0}, {"ejecta_truncation": 3.0}, {"do_slope_collapse": False}, {"do_subpixel_degradation": True}, {"dorays": True, "ejecta_truncation": 2.0}, {"ejecta_truncation": 50.0}]
SIZES = {"ico": (0.15, 0.3, 0.6, 1.0, 2.5, 3.5), "hires": (0.015, 0.02, 0.04, 0.08, 0.3)}
PLACES = {"ico": ((0.0, 0.0), (170.0, 80.0), (-179.9, -31.0)), "hires": ((10.0, 20.0), (12.0, 21.0))}


def make(kind, **k):
    key = (kind, tuple(sorted(k.items())))
    if key not in _sims:
        k = {"do_subpixel_degradation": False, **k}
        with quiet():
            if kind == "hires":
                k.update(surface="hireslocal", pix=0.01 * R, local_radius=0.1 * R, local_location=(10.0, 20.0), superdomain_scale_factor=10000)
            else:
                k["gridlevel"] = int(kind[3:] or 3)
            _sims[key] = Simulation(simdir=scratch("sim_"), ask_overwrite=False, save_actions=None, rng_seed=5, **k)
    return _sims[key]


def clear(sim):
    with quiet():
        sim.morphology._init_queue_manager()
        sim.surface.reset()
        sim.counting.reset()
    sim.rng.bit_generator.state = np.random.default_rng(7).bit_generator.state


def lonlat(s):
    return np.radians(np.concatenate([s.face_lon, s.node_lon])), np.radians(np.concatenate([s.face_lat, s.node_lat]))


def terrain(s, k):
    lon, lat = lonlat(s)
    if k == "hills":
        return 3e4 * np.cos(7 * lon) * np.cos(lat)
    if k == "pit":
        return -1e5 * np.exp(-(lon**2 + lat**2) / 0.02)
    if k == "rough":
        return (4e5 if s.n_face > 400 else 3e4) * np.sin(1000 * lon + 77 * lat * lat)
    return np.zeros(lon.size)


TERRAINS = ("flat", "hills", "pit", "rough")


def distance(s, loc):
    lon, lat = lonlat(s)
    x = np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)
    lo, la = np.radians(loc)
    c = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    return 2 * s.radius * np.arcsin(np.clip(np.linalg.norm(x - c, axis=1) / 2, 0, 1))


def snapshot(s):
    th = s.uxds["ejecta_thickness"].values.copy() if "ejecta_thickness" in s.uxds else np.zeros(s.n_face)
    return s.face_elevation.copy(), s.node_elevation.copy(), th


def balance(chk, what, s, before, after, tol=1e-9):
    de = after - before
    chk.expect(bool(np.all(np.isfinite(after))), f"{what}: an elevation is not a number")
    v = float(np.sum(de * s.face_area))
    scale = float(np.sum(np.abs(de) * s.face_area)) + 1e-12 * float(np.sum(np.abs(before) * s.face_area))
    chk.expect(abs(v) <= tol * scale + 1e-300, f"{what}: {v:.6g} m3 of {scale:.6g} moved appeared or vanished")


def form(chk, sim, what, D, loc, k):
    """One more crater."""
    s = sim.surface
    e0, n0, t0 = snapshot(s)
    with quiet():
        c = sim.emplace(Crater.maker(diameter=D * R, location=loc, rng_seed=k + 1))[0]
    chk.execd()
    chk.trans()
    e1, n1, t1 = snapshot(s)
    balance(chk, what, s, e0, e1)
    chk.expect(bool(np.all(np.isfinite(n1)) and np.all(np.isfinite(t1))), f"{what}: a node elevation or ejecta thickness is not a number")
    d = distance(s, loc)
    ring = 2.0 * float(np.max(s.face_size[d[: s.n_face] <= c.ejecta_rmax + np.max(s.face_size)], initial=float(np.min(s.face_size))))
    far = d > c.ejecta_rmax + 2 * ring
    f, n = far[: s.n_face], far[s.n_face :]
    chk.expect(np.array_equal(e0[f], e1[f]) and np.array_equal(t0[f], t1[f]), f"{what}: faces beyond the ejecta changed")
    chk.expect(np.array_equal(n0[n], n1[n]), f"{what}: nodes beyond the ejecta changed")
    return c, not np.array_equal(e0, e1)


def conserve(chk):
    for kind in ("ico", "hires") + (("ico2", "ico4") if chk.thorough else ()):
        base = kind[:3] if kind.startswith("ico") else kind
        for opt in OPTIONS:
            for t in TERRAINS:
                for D, loc in itertools.product(SIZES[base], PLACES[base]):

                    def case(kind=kind, base=base, opt=opt, t=t, D=D, loc=loc):
                        sim = make(kind, **opt)
                        s = sim.surface
                        seconds = [(d2, l2) for d2 in SIZES[base][1::2] for l2 in PLACES[base][:1]]
                        for second in [None, *seconds]:
                            clear(sim)
                            with quiet():
                                s.update_elevation(terrain(s, t), overwrite=True)
                            todo = [(D, loc)] + ([second] if second else [])
                            if second and chk.thorough:
                                todo.append((D, PLACES[base][-1]))
                            what = f"{kind} {opt} {t}:"
                            for k, (d1, l1) in enumerate(todo):
                                what += f" {d1} R at {l1}"
                                c, changed = form(chk, sim, what, d1, l1, k)
                            chk.state(kind, str(opt), t, todo, changed)
                            chk.outcome("formed" if changed else "too small")
                            if second is None and t == "flat" and changed and base == "ico":
                                th = snapshot(s)[2]
                                chk.expect(th.min() >= 0.0, f"{what}: ejecta of {th.min()} m")
                                chk.expect(np.any(th > 0) or not np.any(s.face_elevation), f"{what}: no ejecta")

                    yield f"{kind} {opt} {t} {D} {loc}", case


class NoDiffusion:
    """Formation without the smoothing that follows it."""

    def __init__(self, *types):
        self.types = types

    def __enter__(self):
        self.old = [(t, n, t.__dict__.get(n)) for t in self.types for n in ("apply_diffusion", "slope_collapse")]
        for t, n, _ in self.old:
            setattr(t, n, lambda *a, **k: None)

    def __exit__(self, *a):
        for t, n, f in self.old:
            if f is None:
                delattr(t, n)
            else:
                setattr(t, n, f)


def shape(chk):
    """On level ground the crater is its profile plus the ejecta profile scaled to the excavated volume."""
    for kind in ("ico", "hires"):
        for level in (0.0, 2500.0, -700.0):
            for opt in ({}, {"ejecta_truncation": 3.0}):
                for D, loc in itertools.product(SIZES[kind], PLACES[kind]):

                    def case(kind=kind, level=level, opt=opt, D=D, loc=loc):
                        sim = make(kind, **opt)
                        s = sim.surface
                        clear(sim)
                        n = s.n_face + s.n_node
                        with quiet():
                            s.update_elevation(np.full(n, level), overwrite=True)
                            with NoDiffusion(type(s.extract_region(loc, R))):
                                c = sim.emplace(Crater.maker(diameter=D * R, location=loc, rng_seed=1))[0]
                        chk.execd()
                        got = np.concatenate([s.face_elevation, s.node_elevation]) - level
                        chk.state(kind, level, str(opt), D, loc)
                        if not np.any(got):
                            chk.outcome("too small")
                            return
                        region = s.extract_region(loc, c.ejecta_rmax)
                        f, v = region.face_indices, region.node_indices
                        sel = np.zeros(n, bool)
                        sel[np.arange(s.n_face)[f]] = True
                        sel[s.n_face + np.arange(s.n_node)[v]] = True
                        d = distance(s, loc)
                        bowl = sim.morphology.crater_profile(c, d[sel], np.zeros(sel.sum()))
                        ej = np.maximum(sim.morphology.ejecta_profile(c, d[sel]), 0)
                        A = s.face_area[f]
                        m = A.size
                        ratio = -np.sum(bowl[:m] * A) / np.sum(ej[:m] * A)
                        want = np.zeros(n)
                        want[sel] = bowl + ratio * ej
                        tol = 1e-5 * np.max(np.abs(want))
                        bad = np.abs(got - want) > tol
                        near = np.abs(d - c.radius) < 1e-6 * R
                        bad &= ~near
                        chk.expect(not bad.any(), lambda: f"{kind} level {level} {opt} {D} R at {loc}: {bad.sum()} elevations are not those of the profile, e.g. {got[bad][0]} instead of {want[bad][0]} at {d[bad][0] / c.radius} radii")
                        th = s.uxds["ejecta_thickness"].values
                        bad = np.abs(th - np.where(sel[: s.n_face], _spread(sel, ratio * ej, s.n_face), 0)) > tol
                        chk.expect(not (bad & ~near[: s.n_face]).any(), f"{kind} level {level} {opt} {D} R at {loc}: the ejecta thickness is not that of the profile")

                    yield f"{kind} {level} {opt} {D} {loc}", case


def _spread(sel, x, n):
    out = np.zeros(sel.size)
    out[sel] = x
    return out[:n]


_group = {}


def group(s):
    """The rotations of the icosphere as permutations of faces."""
    if s.n_face not in _group:
        lon, lat = lonlat(s)
        x = np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)[: s.n_face]
        p = x[np.asarray(s.uxgrid.n_nodes_per_face.values) == 5]
        dots = p @ p.T

        def frame(a, b):
            y = np.cross(a, b)
            y /= np.linalg.norm(y)
            return np.stack([np.cross(y, a), y, a], -1)

        pairs = [(i, j) for i in range(12) for j in range(12) if abs(dots[i, j] - 5**-0.5) < 1e-6]
        b0 = frame(p[pairs[0][0]], p[pairs[0][1]])
        out = []
        for i, j in pairs:
            g = frame(p[i], p[j]) @ b0.T
            d = (((x @ g.T)[:, None] - x[None]) ** 2).sum(-1)
            out.append((g, d.argmin(1), float(d.min(1).max())))
        _group[s.n_face] = out
    return _group[s.n_face]


def symmetry(chk):
    """The same crater at every image of its place under the rotations of the mesh."""
    todo = [(0.3, (7.0, 11.0)), (0.6, (33.0, -48.0)), (1.0, (101.0, 67.0)), (1.8, (-33.0, 5.0)), (3.0, (55.0, 80.0))]
    if chk.thorough:
        todo += [(d, (13.0 * k, 9.0 * k - 60)) for k, d in enumerate((0.2, 0.25, 0.4, 0.5, 0.7, 0.8, 0.9, 1.3, 1.5, 2.1, 2.5))]
    for D, loc in todo:
        for kind in ("ico3", "ico2") if D >= 0.6 else ("ico3",):

            def case(D=D, loc=loc, kind=kind):
                sim = make(kind)
                s = sim.surface
                lo, la = np.radians(loc)
                c = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
                ref = None
                for k, (g, perm, err) in enumerate(group(s)):
                    assert err < 1e-18 and len(set(perm.tolist())) == s.n_face
                    x = g @ c
                    at = (float(np.degrees(np.arctan2(x[1], x[0]))), float(np.degrees(np.arcsin(x[2]))))
                    clear(sim)
                    with quiet():
                        cr = Crater.maker(diameter=D * R, location=at, rng_seed=1)
                        sim.emplace(cr)
                    chk.execd()
                    e, _, t = snapshot(s)
                    here = (e[perm], t[perm], len(sim.counting.observed), int(np.count_nonzero(s.uxds["crater_id"].values[perm])) if "crater_id" in s.uxds else 0)
                    chk.state(kind, D, loc, k)
                    if ref is None:
                        ref = here
                        chk.expect(bool(np.any(e)), f"{D} R at {at} on {kind} formed nothing")
                        continue
                    for name, a, b in (("elevation", here[0], ref[0]), ("ejecta", here[1], ref[1])):
                        err = float(np.max(np.abs(a - b)))
                        chk.expect(err <= 1e-5 * np.max(np.abs(b)), f"{D} R on {kind}: the {name} at {at} differs by {err} m from that of the same crater at {loc}")
                    chk.expect(here[2:] == ref[2:], f"{D} R on {kind}: counted {here[2:]} at {at} and {ref[2:]} at {loc}")

            yield f"{kind} {D} {loc}", case


def degrade(chk):
    """Diffusion and slope collapse preserve the volume and create no new extremes."""
    for kind in ("ico", "hires"):
        regions = {"all": None, "small": (PLACES[kind][0], (0.5 if kind == "ico" else 0.05) * R), "cap": (PLACES[kind][1], 1.4 * R), "most": (PLACES[kind][0], 3.0 * R), "few": (PLACES[kind][1], (0.25 if kind == "ico" else 0.015) * R)}
        strengths = (0.0, 1e-6, 1.0, 100.0)
        for t in TERRAINS[1:]:
            for rname, reg in regions.items():
                for op in ("collapse 35", *(["collapse 5"] if kind == "ico" and t != "rough" else []), *(f"diffuse {x} {y}" for x in strengths for y in ("even", "uneven", "some"))):

                    def case(kind=kind, t=t, rname=rname, reg=reg, op=op):
                        sim = make(kind)
                        s = sim.surface
                        clear(sim)
                        with quiet():
                            s.update_elevation(terrain(s, t), overwrite=True)
                            r = s if reg is None else s.extract_region(*reg)
                        smooth(chk, s, r, op, f"{kind} {t} {rname} {op}")
                        chk.state(kind, t, rname, op)

                    yield f"{kind} {t} {rname} {op}", case
    for first in range(0, 642, 20):

        def case(first=first):
            sim = make("ico")
            s = sim.surface
            for i in range(first, min(first + 20, s.n_face)):
                for h in (1e5, -2e5):
                    for op in ("collapse 35", "diffuse 1.0 even"):
                        clear(sim)
                        e = np.zeros(s.n_face + s.n_node)
                        e[i] = h
                        with quiet():
                            s.update_elevation(e, overwrite=True)
                        smooth(chk, s, s, op, f"a spike of {h} m on face {i}, {op}")
                        chk.state("spike", i, h, op)

        yield f"spikes {first}", case


def smooth(chk, s, r, op, what):
    name, x, *how = op.split()
    e0, n0, _ = snapshot(s)
    n = s.n_face if r is s else r.n_face
    f = slice(None) if r is s else r.face_indices
    with quiet():
        if name == "collapse":
            r.slope_collapse(float(x))
        else:
            k = np.full(n, float(x)) * s.face_area[f]
            if how == ["uneven"]:
                k *= np.linspace(0, 1, n)
            if how == ["some"]:
                k[::3] = 0.0
            r.apply_diffusion(k)
    chk.execd()
    e1, n1, _ = snapshot(s)
    balance(chk, what, s, e0, e1)
    tol = 1e-9 * max(1.0, np.max(np.abs(e0)))
    lo, hi = min(e0.min(), e0[f].min()), max(e0.max(), e0[f].max())
    chk.expect(e1.max() <= hi + tol and e1.min() >= lo - tol, f"{what}: elevations {e1.min()}..{e1.max()} beyond {lo}..{hi}")
    var = lambda e: float(np.sum(s.face_area * (e - np.sum(e * s.face_area) / np.sum(s.face_area)) ** 2))
    chk.expect(var(e1) <= var(e0) * (1 + 1e-9) + 1e-6, f"{what}: the relief grew from {var(e0):.6g} to {var(e1):.6g}")
    if name == "diffuse" and float(x) == 0.0:
        chk.expect(np.array_equal(e0, e1), f"{what}: something changed")
    if r is not s:
        inside = np.zeros(s.n_face, bool)
        inside[f] = True
        chk.expect(np.array_equal(e0[~inside], e1[~inside]), f"{what}: faces outside of the region changed")


def spans(chk):
    """Degradation over a stretch of time is the sum of the degradation over its parts."""
    grid = (3900.0, 3700.0, 3000.0, 1500.0, 200.0, 10.0, 0.0)
    for kind in ("ico2", "hires"):
        for n in range(1, (6 if chk.thorough else 4) + 1):
            for cuts in itertools.combinations(grid, n + 1):
                for flush in (False, True):
                    if flush and n == 1:
                        continue

                    def case(kind=kind, cuts=cuts, flush=flush):
                        sim = make(kind, do_subpixel_degradation=True)
                        s, m = sim.surface, sim.morphology

                        def total(ts):
                            clear(sim)
                            got = []
                            s.__dict__.pop("apply_diffusion", None)
                            object.__setattr__(s, "apply_diffusion", lambda k, *a, **kw: got.append(np.array(k)))
                            try:
                                with quiet():
                                    for a, b in itertools.pairwise(ts):
                                        m.compute_subpixel_degradation(time_start=a, time_end=b)
                                        if flush:
                                            m.apply_subpixel_degradation()
                                    m.apply_subpixel_degradation()
                                    m.apply_subpixel_degradation()
                            finally:
                                object.__delattr__(s, "apply_diffusion")
                            return np.sum(got, axis=0), len(got)

                        one, _ = total((cuts[0], cuts[-1]))
                        many, calls = total(cuts)
                        chk.execd()
                        chk.state(kind, cuts, flush, calls)
                        chk.expect(bool(np.all(one > 0)), f"{kind} {cuts}: no degradation")
                        err = float(np.max(np.abs(many / one - 1)))
                        chk.expect(err < 1e-4, f"{kind} {cuts}: degradation of the parts differs by {err:.3g} from that of the whole")

                    yield f"{kind} {cuts} {flush}", case


PARTS = [("conserve", conserve), ("shape", shape), ("symmetry", symmetry), ("degrade", degrade), ("spans", spans)]
