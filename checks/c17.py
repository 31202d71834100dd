"""Histories of edits through every form of selection, against a plain array model of the whole surface."""

import itertools

import numpy as np
from cratermaker import Surface
from cratermaker.components.surface import LocalSurface

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "3 meshes x 11 selections x 27 edits as single operations; every ordered pair of (selection, edit) on the icosphere with the second through 5 selections; triples of 9 edits through 5 selections ending with one region; relaxation (diffusion, collapse, noise) through every selection",
    "thorough": "all pairs on all 3 meshes, all triples of 14 edits through 8 selections",
}
NOTE = "Oracle: one plain array per variable for the whole surface, edited with the selection's indices as they were when it was made; compared bit for bit with every variable after every operation."
R = 1737400.0
MESHES = {
    "ico": ("icosphere", {"gridlevel": 1}),
    "arb": ("arbitrary_resolution", {"pix": 0.6 * R}),
    "hires": ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}),
}
_w = {}


class World:
    """A surface with a varied relief, its selections, and the way back to the start."""

    def __init__(self, name):
        kind, kw = MESHES[name]
        with quiet():
            s = Surface.maker(kind, simdir=scratch("edit_"), ask_overwrite=False, reset=True, rng_seed=1, **kw)
        self.s, self.name = s, name
        f, n = np.arange(s.n_face), np.arange(s.n_node)
        s.update_elevation(np.concatenate([100 * np.sin(1.7 * f) + f, 90 * np.cos(0.9 * n) - n]), overwrite=True)
        s.add_data("fdat", data=0.5 * f, long_name="face data", units="m")
        s.add_data("ndat", data=2.0 - n)
        s.add_data("flag", data=f % 2 == 0, dtype=bool)
        sel = {"all": s}
        for k, (loc, r) in {
            "tiny": ((35.0, -20.0), 0.02),
            "disc": ((12.0, 21.0), 0.5),
            "dateline": ((180.0, 5.0), 0.6),
            "pole": ((77.0, -90.0), 0.7),
            "most": ((-100.0, 40.0), 2.6),
            "globe": ((5.0, 5.0), np.pi),
        }.items():
            sel[k] = s.extract_region(loc, r * s.radius)
        sel = {k: v for k, v in sel.items() if v is not None}
        sel["sub"] = sel["most"].extract_subregion(1.1 * s.radius)
        sel["subglobe"] = sel["globe"].extract_subregion(0.8 * s.radius)
        sel["custom"] = LocalSurface(s, face_indices=np.array([7, 3, 11]))
        sel["slice"] = LocalSurface(s, face_indices=slice(None), node_indices=slice(None), edge_indices=slice(None), location=(0.0, 0.0), region_radius=0.5 * s.radius)
        if name == "hires":
            sel["local"] = s.local
        self.sel = sel
        self.idx = {k: (f[v.face_indices].copy(), n[v.node_indices].copy()) for k, v in sel.items()}
        self.geo = self.geometry()
        self.start = {k: v.values.copy() for k, v in s.uxds.data_vars.items()}
        self.area = np.asarray(s.face_area)
        self.nf = [[int(x) for x in r if x >= 0] for r in np.asarray(s.node_face_connectivity)]

    def geometry(self):
        g = {}
        for k, v in self.sel.items():
            g[k] = [np.array(np.arange(self.s.n_face)[v.face_indices]), np.array(np.arange(self.s.n_node)[v.node_indices]), v.n_face, v.n_node, np.array(v.face_area), np.array(v.face_lon), np.array(v.node_lat)]
            if v is not self.s and v.location is not None:
                g[k] += [v.location, v.region_radius, np.array(v.face_distance), np.array(v.node_distance), np.array(v.face_bearing)]
        return g

    def reset(self):
        ds = self.s._uxds
        for k in list(ds.data_vars):
            if k not in self.start:
                del ds[k]
        for k, v in self.start.items():
            ds[k].data[...] = v

    def model(self):
        return {k: v.copy() for k, v in self.start.items()}


def world(name):
    if name not in _w:
        _w[name] = World(name)
    _w[name].reset()
    return _w[name]


ramp = lambda n, a=1.0: a * (np.arange(n) - n / 3.0)


def weighted(W, m, f):
    """Area weighted mean of the elevation of the faces around each node; None where only part of them is selected."""
    inside = set(f.tolist())
    out = {}
    for n, faces in enumerate(W.nf):
        use = [x for x in faces if x in inside]
        a = W.area[use]
        out[n] = (float((m["face_elevation"][use] * a).sum() / a.sum()) if use else None, len(use) == len(faces))
    return out


# an edit: name -> function(W, region, (f, n) indices, model) that calls the real code and edits the model; returns True when the call has to be rejected
def edit_elev(kind, overwrite):
    def f(W, r, fn, m):
        nf, nn = len(fn[0]), len(fn[1])
        v = {"scalar": 3.25, "one": np.array([2.5]), "faces": ramp(nf), "nodes": ramp(nn, 2.0), "both": ramp(nf + nn, 0.5), "list": list(ramp(nn, 4.0)), "zero": 0, "short": ramp(nf - 1 if nf > 2 else 2), "long": ramp(nf + nn + 1), "empty": np.array([])}[kind]
        if kind in ("short", "long", "empty"):
            if np.size(v) in (1, nf, nn, nf + nn):
                return None
            try:
                r.update_elevation(v, overwrite=overwrite)
            except ValueError:
                return True
            return False
        keep = np.array(v, copy=True)
        r.update_elevation(v, overwrite=overwrite)
        if not np.array_equal(keep, v):
            return "the array given was changed"
        fe, ne = m["face_elevation"], m["node_elevation"]
        put = (lambda a, i, x: a.__setitem__(i, x)) if overwrite else (lambda a, i, x: a.__setitem__(i, a[i] + x))
        if kind in ("scalar", "one", "zero"):
            x = float(np.ravel(v)[0])
            put(fe, fn[0], x), put(ne, fn[1], x)
        elif kind == "faces":
            put(fe, fn[0], v)
            got = W.s.uxds["node_elevation"].values
            w = weighted(W, m, fn[0])
            for n in fn[1]:
                x, full = w[n]
                if full and abs(got[n] - x) > 1e-9 * (1 + abs(x)):
                    return f"node {n} is at {got[n]}, mean of its faces {x}"
                if not full and x is not None:
                    a = W.area[W.nf[n]]
                    y = float((m["face_elevation"][W.nf[n]] * a).sum() / a.sum())
                    if min(abs(got[n] - x), abs(got[n] - y)) > 1e-9 * (1 + abs(x)):
                        return f"border node {n} is at {got[n]}, mean of its faces {x} (selected) or {y} (all)"
            ne[fn[1]] = got[fn[1]]
        elif kind in ("nodes", "list"):
            put(ne, fn[1], np.asarray(v))
        else:
            put(fe, fn[0], v[:nf]), put(ne, fn[1], v[nf:])
        return None

    return f


def edit_data(var, kind, overwrite=False, face=True, positive=False, **kw):
    def f(W, r, fn, m):
        i = fn[0] if face else fn[1]
        o = fn[1] if face else fn[0]
        size = {True: W.s.n_face, False: W.s.n_node}
        v = {"scalar": -1.5, "int": 2, "ramp": ramp(len(i)), "list": list(ramp(len(i))), "other": ramp(len(o)), "bad": ramp(len(i) + len(o)), "huge": ramp(size[face] + 1), "mask": np.arange(len(i)) % 3 == 0}[kind]
        bad = kind in ("bad", "huge") or (kind == "other" and var in m)
        if kind in ("bad", "huge") and np.size(v) in (len(i), len(o)):
            return None
        if kind == "other" and len(i) == len(o):
            return None
        keep = np.array(v, copy=True)
        try:
            r.add_data(var, v, isfacedata=face, overwrite=overwrite, positive_only=positive, **kw)
        except ValueError:
            if bad:
                return True
            raise
        if bad:
            return False
        if not np.array_equal(keep, v):
            return "the array given was changed"
        if kind == "other":
            i, size = o, {True: W.s.n_node, False: W.s.n_face}
        dtype = kw.get("dtype", np.float64)
        if var not in m:
            m[var] = np.full(size[face], kw.get("fill_value", 0.0), dtype=dtype)
            m[var][i] = np.asarray(v, dtype=dtype)
        elif overwrite:
            m[var][i] = np.asarray(v)
        else:
            m[var][i] = m[var][i] + np.asarray(v)
        if positive:
            m[var][i] = np.maximum(0.0, m[var][i])
        return None

    return f


EDITS = {
    "elev+scalar": edit_elev("scalar", False),
    "elev=scalar": edit_elev("scalar", True),
    "elev+faces": edit_elev("faces", False),
    "elev=faces": edit_elev("faces", True),
    "elev+nodes": edit_elev("nodes", False),
    "elev=both": edit_elev("both", True),
    "elev+both": edit_elev("both", False),
    "elev=list": edit_elev("list", True),
    "elev+one": edit_elev("one", False),
    "elev=zero": edit_elev("zero", True),
    "elev!short": edit_elev("short", True),
    "elev!long": edit_elev("long", False),
    "elev!empty": edit_elev("empty", False),
    "fdat+ramp": edit_data("fdat", "ramp"),
    "fdat=list": edit_data("fdat", "list", overwrite=True),
    "fdat+scalar+": edit_data("fdat", "scalar", positive=True),
    "ndat+ramp": edit_data("ndat", "ramp", face=False),
    "ndat=int": edit_data("ndat", "int", overwrite=True, face=False),
    "ndat!faces": edit_data("ndat", "other", face=False, overwrite=True),
    "fdat!nodes": edit_data("fdat", "other"),
    "fdat!bad": edit_data("fdat", "bad"),
    "ndat!huge": edit_data("ndat", "huge", face=False),
    "new=ramp": edit_data("newf", "ramp", fill_value=-7.0),
    "new=scalar": edit_data("newn", "scalar", face=False, fill_value=9.0),
    "new!bad": edit_data("newx", "bad", fill_value=3.0),
    "new=int": edit_data("newi", "int", dtype=np.int64, fill_value=4),
    "flag=mask": edit_data("flag", "mask", overwrite=True, dtype=bool),
}


def compare(chk, W, m, what):
    ds = W.s.uxds
    chk.expect(set(ds.data_vars) == set(m), lambda: f"{what}: variables {sorted(set(ds.data_vars) ^ set(m))} appeared or vanished")
    for k, v in m.items():
        got = ds[k].values
        if not (np.array_equal(got, v) and got.dtype == v.dtype):
            i = np.flatnonzero(got != v) if got.shape == v.shape else "shape"
            chk.fail(f"{what}: {k} differs at {i[:5]}: {got[i][:5]} instead of {v[i][:5]}" if not isinstance(i, str) else f"{what}: {k} has shape {got.shape}, type {got.dtype}")


def views(chk, W, m, what):
    """reading through every selection shows the surface as it is"""
    for k, r in W.sel.items():
        f, n = W.idx[k]
        for name, v in m.items():
            i = f if len(v) == W.s.n_face else n
            got = np.asarray(getattr(r, name))
            if r is W.s:
                i = slice(None)
            chk.expect(np.array_equal(got, v[i]), lambda: f"{what}: {name} read through {k} is not what the surface holds")


def run(chk, W, seq, m=None):
    m = W.model()
    for k, (sel, op) in enumerate(seq):
        before = {a: b.copy() for a, b in m.items()}
        rej = EDITS[op](W, W.sel[sel], W.idx[sel], m)
        what = f"{W.name}: {seq[: k + 1]}"
        chk.execd(), chk.trans()
        chk.state(W.name, {a: b for a, b in m.items()})
        if isinstance(rej, str):
            chk.fail(f"{what}: {rej}")
        chk.expect(rej is not False, lambda: f"{what}: accepted a value that does not fit the selection")
        chk.outcome("rejected" if rej else "accepted")
        compare(chk, W, before if rej else m, what)
    return m


def part_single(chk):
    """every edit through every selection: variables, views through every selection, and the selections themselves"""
    for name in MESHES:
        W = world(name)
        for sel in W.sel:

            def f(name=name, sel=sel):
                for op in EDITS:
                    W = world(name)
                    m = run(chk, W, [(sel, op)])
                    views(chk, W, m, f"{name}: {op} through {sel}")
                    g = W.geometry()
                    for k in g:
                        same = all(np.array_equal(a, b) for a, b in zip(g[k], W.geo[k]))
                        chk.expect(same, lambda: f"{name}: {op} through {sel} changed the selection {k}")

            yield f"{name} {sel}", f


def part_pairs(chk):
    """every ordered pair of edits through every pair of selections"""
    for name in MESHES if chk.thorough else ["ico"]:
        W = world(name)
        for a in W.sel:
            for x in EDITS:

                def f(name=name, a=a, x=x):
                    for b, y in itertools.product(world(name).sel, EDITS):
                        if b not in ("disc", "dateline", "custom", "slice", "sub") and not chk.thorough:
                            continue
                        run(chk, world(name), [(a, x), (b, y)])

                yield f"{name} {a} {x}", f


def part_triples(chk):
    """every sequence of three edits of a smaller alphabet"""
    ops = ["elev+faces", "elev=both", "elev+scalar", "elev!short", "fdat+ramp", "ndat+ramp", "new=ramp", "ndat!faces", "fdat+scalar+"]
    sels = ["all", "disc", "dateline", "sub", "slice"]
    if chk.thorough:
        ops += ["elev=faces", "elev+nodes", "new=scalar", "flag=mask", "fdat=list"]
        sels += ["pole", "most", "custom"]
    alpha = list(itertools.product(sels, ops))
    for a in alpha:

        def f(a=a):
            for b, c in itertools.product(alpha, alpha):
                run(chk, world("ico"), [a, b, c])

        # the quick tier takes every triple whose first two edits go through overlapping selections of different form
        if chk.thorough:
            yield f"{a}", f
        else:

            def g(a=a):
                for b, c in itertools.product(alpha, [x for x in alpha if x[0] == "disc"]):
                    if b[0] != a[0]:
                        run(chk, world("ico"), [a, b, c])

            yield f"{a}", g


def part_relax(chk):
    """diffusion, collapse, noise, interpolation and reading of derived quantities through every selection touch nothing else"""

    def acts(W, k, r, fn):
        nf = len(fn[0])
        size = np.asarray(W.area[fn[0]])
        yield "diffuse scalar", lambda: r.apply_diffusion(1e-3 * float(size.min())), True
        yield "diffuse array", lambda: r.apply_diffusion(1e-3 * float(size.min()) * (np.arange(nf) % 3)), True
        yield "diffuse none", lambda: r.apply_diffusion(0.0), False
        yield "diffuse negative", lambda: r.apply_diffusion(-1.0), ValueError
        yield "diffuse wrong size", lambda: r.apply_diffusion(np.ones(nf + 1)), (ValueError, IndexError)
        yield "collapse", lambda: r.slope_collapse(1e-3), True
        yield "noise", lambda: r.apply_noise(noise_width=5e5, noise_height=10.0), True
        yield "interpolate", lambda: r.interpolate_node_elevation_from_faces(), True
        yield "slope", lambda: r.compute_slope(), False
        yield "cartesian", lambda: (r.elevation_to_cartesian("face"), r.elevation_to_cartesian("node")), False
        if r is not W.s:
            yield "volume", lambda: r.compute_volume(np.asarray(r.face_elevation)), False
            if r.location is not None:
                yield "reference", lambda: (r.get_reference_surface(), r.get_reference_surface(only_faces=True)), False
                yield "desloped", lambda: r.compute_desloped_face_elevation(), False
                yield "gradient", lambda: r.compute_radial_gradient("face_elevation"), False
                yield "subregion", lambda: r.extract_subregion(0.5 * r.region_radius), False

    def case(name, k):
        def f():
            for i in range(20):
                W = world(name)
                r, fn = W.sel[k], W.idx[k]
                todo = list(acts(W, k, r, fn))
                if i >= len(todo):
                    break
                what, call, changes = todo[i]
                m = W.model()
                chk.execd(), chk.trans(), chk.outcome(what)
                try:
                    with quiet():
                        call()
                    ok = True
                except (ValueError, IndexError, TypeError) as e:
                    if changes in (True, False) or not isinstance(e, changes):
                        raise
                    ok = False
                chk.expect(ok or changes not in (True, False), lambda: f"{name} {k}: {what} rejected")
                idle = name == "hires" and r is not W.s and hasattr(r, "local_overlap") and r.local_overlap is None  # no high resolution part: nothing to act on
                chk.expect(idle or not (ok and changes not in (True, False)), lambda: f"{name} {k}: {what} accepted")
                if name == "hires" and k != "all" and ok and changes is True and what not in ("interpolate",) and r is not W.s.local and type(r).__name__.startswith("LocalHiRes"):
                    # these act on the high resolution part of the selection only
                    inner = W.idx["local"]
                    fn = tuple(np.intersect1d(a, b) for a, b in zip(fn, inner))
                out = [np.setdiff1d(np.arange(n), x) for n, x in zip((W.s.n_face, W.s.n_node), fn)]
                for v, old in m.items():
                    got = W.s.uxds[v].values
                    x = out[0] if len(old) == W.s.n_face else out[1]
                    if changes is True and v in ("face_elevation", "node_elevation"):
                        chk.expect(np.array_equal(got[x], old[x]), lambda: f"{name}: {what} through {k} changed {v} outside the selection at {x[got[x] != old[x]][:5]}")
                        if not np.array_equal(got, old):
                            chk.state(name, k, what, got)
                    else:
                        chk.expect(np.array_equal(got, old), lambda: f"{name}: {what} through {k} changed {v}")
                for v in set(W.s.uxds.data_vars) - set(m):
                    got = W.s.uxds[v].values
                    chk.expect(changes is True and v == "ejecta_thickness", lambda: f"{name}: {what} through {k} created {v}")
                    chk.expect(not np.any(got[out[0]]), lambda: f"{name}: {what} through {k} set {v} outside the selection")

        return f

    for name in MESHES:
        W = world(name)
        for k in W.sel:
            if k in ("custom",):
                continue
            yield f"{name} {k}", case(name, k)


def part_fresh(chk):
    """what is derived from the elevation follows it"""

    def case(name, k):
        def f():
            W = world(name)
            r, fn = W.sel[k], W.idx[k]
            for op in ("elev+faces", "elev=faces", "elev=both", "elev+scalar"):
                W.reset()
                r.compute_desloped_face_elevation()
                EDITS[op](W, r, fn, W.model())
                chk.execd(), chk.trans(), chk.state(name, k, op)
                r.compute_desloped_face_elevation()
                other = W.s.extract_region(r.location, r.region_radius)
                other.compute_desloped_face_elevation()
                if other.n_face == r.n_face:
                    chk.expect(np.array_equal(np.asarray(r.desloped_face_elevation), np.asarray(other.desloped_face_elevation)), lambda: f"{name}: after {op} the levelled elevation of {k} is that of before")

        return f

    for name in MESHES:
        for k, r in world(name).sel.items():
            if k in ("disc", "dateline", "pole", "most", "local"):
                yield f"{name} {k}", case(name, k)


PARTS = [("single", part_single), ("pairs", part_pairs), ("triples", part_triples), ("relax", part_relax), ("fresh", part_fresh)]
