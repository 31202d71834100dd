"""Every history of edits, saves and reloads of a surface, and every pair of grid settings in one directory."""

import itertools
import shutil

import dask
import numpy as np
from cratermaker import Surface, Target

from mc.core import quiet
from mc.world import scratch

R = 1737400.0
KINDS = {
    "ico": ("icosphere", {"gridlevel": 1}),
    "arb": ("arbitrary_resolution", {"pix": 0.6 * R}),
    "hires": ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}),
}
BOUNDS = {
    "quick": "all histories of 3 operations out of 8 (3 kinds of edit, 4 kinds of save, reload) and of 4 out of 5 on the icosphere, of 2 on the two other meshes, ending in a save or a reload; 12 kinds of unrelated file in the directory x 4 sets of saved intervals; all ordered pairs of 20 grid settings",
    "thorough": "histories of 4 of the 8 and 5 of the 5 operations (icosphere) and of 3 (other meshes); the unrelated files on all meshes; 2000 ordered triples of grid settings",
}
NOTE = "Oracle: a table interval -> (variables, attributes, time variables) kept by the check; every stored interval is read back after every save and compared bit for bit (NaN, infinities, signed zero and integer types included), alone, together, from the selected region, and from a second surface opened on the directory."
SPECIAL = np.array([np.nan, np.inf, -np.inf, -0.0, 0.0, 5e-324, 1.7976931348623157e308, -1e-300, 0.1, -3.5e3, 1 / 3])
_t = {}
dask.config.set(scheduler="synchronous")


def special(n, k):
    a = SPECIAL[(np.arange(n) * 7 + k) % len(SPECIAL)].copy()
    a[::3] = np.sin(np.arange(n)[::3] * 1.37 + k) * 10.0**k
    return a


def make(kind, d, kw=None, **opt):
    name, kw0 = KINDS[kind] if kind in KINDS else (kind, {})
    with quiet():
        return Surface.maker(name, **{**kw0, **(kw or {})}, simdir=d, ask_overwrite=False, rng_seed=1, **opt)


def template(kind):
    if kind not in _t:
        d = scratch("tpl_")
        make(kind, d, reset=True)
        _t[kind] = d
    return _t[kind]


def bits(a):
    a = np.ascontiguousarray(a)
    return (a.dtype.str, a.shape, a.tobytes())


def snapshot(s):
    return {v: (np.array(s.uxds[v].values, copy=True), dict(s.uxds[v].attrs)) for v in s.uxds.data_vars}


class Run:
    def __init__(self, kind, chk):
        self.kind, self.chk = kind, chk
        self.d = scratch("hist_")
        shutil.rmtree(self.d)
        shutil.copytree(template(kind), self.d)
        self.s = make(kind, self.d, reset=False)
        zero = {"node_elevation": (np.zeros(self.s.n_node), {"units": "m", "long_name": "elevation of nodes"}), "face_elevation": (np.zeros(self.s.n_face), {"units": "m", "long_name": "elevation of faces"})}
        self.mem = {k: zero.get(k, v) for k, v in snapshot(self.s).items()}
        if set(self.mem) - set(zero) - {"is_local_face", "is_local_node"}:
            chk.fail(f"a fresh surface has variables {sorted(self.mem)}")
        self.disk = {0: ({k: v for k, v in zero.items()}, {})}
        self.k = 0
        self.tag = 0

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    # --- operations: each edits the surface and the table
    def op(self, o):
        s, m = self.s, self.mem
        self.k += 1
        k = self.k
        if o == "E":
            f, n = special(s.n_face, k), special(s.n_node, k + 3)
            s.update_elevation(np.concatenate([f, n]), overwrite=True)
            m["face_elevation"] = (f, m["face_elevation"][1])
            m["node_elevation"] = (n, m["node_elevation"][1])
        elif o == "V":
            for name, data, dt, face, attrs in (
                ("dose", special(s.n_face, k), np.float32, True, {"long_name": "dose", "units": "Gy"}),
                ("count", np.arange(s.n_node) * 1000003 - k, np.int64, False, {}),
                ("flag", (np.arange(s.n_face) + k) % 3 == 0, bool, True, {"long_name": "a flag"}),
            ):
                with np.errstate(all="ignore"):
                    s.add_data(name, data=data, isfacedata=face, overwrite=True, dtype=dt, **{a: b for a, b in attrs.items()})
                    m[name] = (np.asarray(data).astype(dt), m[name][1] if name in m else attrs)
        elif o == "T":
            r = s.extract_region((10.0 + 40 * self.tag, 20.0), 0.35 * s.radius, at_least_one_face=True)
            self.tag += 1
            t = 4294967295 - self.tag
            kw = {"tag_superdomain": True} if self.kind == "hires" else {}
            r.add_tag("crater_id", tag=t, long_name="tally", **kw)
            m["crater_id"] = (np.array(s.uxds["crater_id"].values, copy=True), {"long_name": "tally"})
            self.chk.expect((m["crater_id"][0] == t).any(), "the tag was not stored")
        elif o[0] == "S":
            iv = int(o[1:].rstrip("t"))
            tv = {"current_time": 1 / 3 + k, "nskip": k} if o.endswith("t") else None
            if o == "S3t":
                s.extract_region((0.0, 0.0), np.pi * s.radius).surface.save(interval=iv, time_variables=tv, skip_actions=True)
            else:
                s.save(interval=iv, time_variables=tv)
            if "crater_id" in m:  # the layers of a tag may be put in order by a save
                now = np.array(s.uxds["crater_id"].values)
                self.chk.expect(np.array_equal(np.sort(now, axis=1), np.sort(m["crater_id"][0], axis=1)), "saving changed the tags")
                m["crater_id"] = (now.copy(), m["crater_id"][1])
            old = self.disk.get(iv, ({}, {}))
            self.disk[iv] = ({**old[0], **m}, {**old[1], **(tv or {})})
        elif o == "L":
            self.s = make(self.kind, self.d, reset=False)
            last = self.disk[max(self.disk)][0]
            loc = {v: self.mem[v] for v in ("is_local_face", "is_local_node") if v in self.mem}
            self.mem = {**last, **loc}
        self.memory()

    def done(self, every=True):
        self.every = every
        self.stored()

    def memory(self):
        chk, got = self.chk, snapshot(self.s)
        chk.expect(set(got) == set(self.mem), lambda: f"the surface has variables {sorted(got)} instead of {sorted(self.mem)}")
        self.compare(got, self.mem, "in memory")

    def compare(self, got, want, where, strict=True):
        for v, (a, attrs) in want.items():
            self.chk.expect(v in got, lambda: f"{where}: {v} is missing")
            g, ga = got[v]
            if strict:
                self.chk.expect(bits(g) == bits(a), lambda: f"{where}: {v} is {g.dtype} {np.ravel(g)[:4]}… instead of {a.dtype} {np.ravel(a)[:4]}… ({int(np.sum(~((g == a) | ((g != g) & (a != a))))) if g.shape == a.shape else 'shape'} differ)")
            else:
                self.chk.expect(g.shape == a.shape and np.array_equal(np.asarray(g, float), np.asarray(a, float), equal_nan=True), lambda: f"{where}: {v} differs")
            self.chk.expect({k: x for k, x in ga.items() if k in ("units", "long_name")} == attrs, lambda: f"{where}: attributes of {v} are {ga} instead of {attrs}")

    def stored(self):
        chk, s, disk = self.chk, self.s, self.disk
        have = s.get_saved_interval_numbers()
        chk.expect(have is not None and list(have[0]) == sorted(disk), lambda: f"saved intervals are {have} instead of {sorted(disk)}")
        for iv, (vars_, tv) in disk.items():
            u = s.read_saved_output(interval=iv)
            chk.expect("interval" in u.coords and list(np.ravel(u["interval"].values)) == [iv], lambda: f"interval {iv}: read as {u.get('interval')}")
            got = {v: (u[v].isel(interval=0).values if "interval" in u[v].dims else u[v].values, u[v].attrs) for v in u.data_vars}
            self.compare(got, vars_, f"interval {iv}")
            extra = set(got) - set(vars_) - set(tv)
            chk.expect(not extra, lambda: f"interval {iv}: unexpected {sorted(extra)}")
            for k, x in tv.items():
                chk.expect(k in got and float(got[k][0]) == float(x), lambda: f"interval {iv}: {k} is {got.get(k)} instead of {x}")
            t = s.get_time_variables(interval=iv)
            t = t[0] if isinstance(t, tuple) else t
            for k, x in tv.items():
                chk.expect(t is not None and k in t.coords and [float(z) for z in np.ravel(t[k].values)] == [float(x)], lambda: f"time variables of interval {iv}: {k} is not {x}")
        u = s.read_saved_output(interval=-1)
        chk.expect(list(np.ravel(u["interval"].values)) == [max(disk)], "interval -1 is not the last one")
        if self.kind != "ico" or len(disk) < 2 or not self.every:
            return
        reg = s.extract_region((30.0, 10.0), 0.8 * s.radius)
        iv = min(disk)
        u = reg.read_saved_output(interval=iv)
        f = np.arange(s.n_face)[reg.face_indices]
        chk.expect(bits(np.ravel(u["face_elevation"].values)) == bits(disk[iv][0]["face_elevation"][0][f]), "the region reads other elevations than the surface")
        u = s.read_saved_output()
        table = dict(u) if isinstance(u, dict) else {int(i): u.sel(interval=[i]) for i in u["interval"].values}
        chk.expect(sorted(table) == sorted(disk), lambda: f"all intervals: {sorted(table)} instead of {sorted(disk)}")
        for iv, (vars_, tv) in disk.items():
            w = table[iv]
            got = {v: (w[v].isel(interval=0).values if "interval" in w[v].dims else w[v].values, w[v].attrs) for v in w.data_vars}
            self.compare(got, {k: v for k, v in vars_.items()}, f"all intervals, {iv}", strict=False)
        t = s.get_time_variables()
        t = t[0] if isinstance(t, tuple) else t
        names = set().union(*(tv for _, tv in disk.values()))
        if names:
            iv_t = [int(x) for x in np.ravel(t["interval"].values)] if "interval" in t.coords else [int(x) for x in np.ravel(t.values)]
            for iv, (_, tv) in disk.items():
                for k, x in tv.items():
                    chk.expect(iv in iv_t and float(np.ravel(t[k].values)[iv_t.index(iv)]) == float(x), lambda: f"time variables of all intervals: {k} of {iv} is not {x}")


OPS = ["E", "V", "T", "S1t", "S0t", "S10", "S1000000t", "L"]

OPS6 = ["E", "T", "S1t", "S10", "L"]


def states(chk):
    """Histories of edits, saves and reloads."""
    if chk.thorough:
        plan = [("ico", OPS, 4), ("ico", OPS6, 5), ("arb", OPS, 3), ("hires", OPS, 3)]
    else:
        plan = [("ico", OPS, 3), ("ico", OPS6, 4), ("arb", OPS, 2), ("hires", OPS, 2)]
    for kind, ops, depth in plan:
        for seq in itertools.product(ops, repeat=depth):
            if seq[-1][0] not in "SL" or any(a == b and a in "EVL" for a, b in zip(seq, seq[1:])):
                continue
            if sum(a == "L" for a in seq) > 2 or (seq[0] == "L"):
                continue

            def case(kind=kind, seq=seq):
                r = Run(kind, chk)
                try:
                    for o in seq:
                        r.op(o)
                        chk.trans()
                    r.done(seq[-1] != "L" and "V" not in seq[:-2])
                    chk.state(kind, {k: (v, t) for k, (v, t) in r.disk.items()}, r.mem)
                    chk.execd()
                finally:
                    r.close()

            yield f"{kind}: {' '.join(seq)}", case


STRAY = ["surface_backup.nc", "surface.nc.bak", "surface000001.txt", "surface1.5.nc", "surface000001 (copy).nc", "mysurface000009.nc", "grid_old.nc", "surfaces.nc", "surface-000001.nc", "surface000002.nc~", ".surface000003.nc", "local_surface.nc"]


def foreign(chk):
    """Unrelated files beside the saved ones."""
    for kind in KINDS if chk.thorough else ("ico",):
        for name in STRAY:
            for saves in ((), ("S1t",), ("S1t", "E", "S2"), ("S2", "E", "S10", "S1000000t")):

                def case(kind=kind, name=name, saves=saves):
                    r = Run(kind, chk)
                    try:
                        (r.d / "surface" / name).write_bytes(b"not a data file")
                        for o in ("E", *saves, "L"):
                            r.op(o)
                            chk.trans()
                        r.done()
                        chk.expect((r.d / "surface" / name).read_bytes() == b"not a data file", "an unrelated file was changed")
                        chk.state(kind, name, len(saves))
                        chk.execd()
                    finally:
                        r.close()

                yield f"{kind} {name!r}: {' '.join(saves) or '-'}", case


MOON2 = ("Moon", R * 1.01)
GRIDS = [
    ("icosphere", {"gridlevel": 0}, None),
    ("icosphere", {"gridlevel": 1}, None),
    ("icosphere", {"gridlevel": 2}, None),
    ("icosphere", {"gridlevel": 1}, "Mars"),
    ("icosphere", {"gridlevel": 1}, MOON2),
    ("icosphere", {"gridlevel": 1}, ("Luna", R)),
    ("arbitrary_resolution", {"pix": 0.6 * R}, None),
    ("arbitrary_resolution", {"pix": 0.6 * R * (1 + 1e-12)}, None),
    ("arbitrary_resolution", {"pix": 0.7 * R}, None),
    ("arbitrary_resolution", {"pix": 0.7 * R}, "Mercury"),
    ("arbitrary_resolution", {"pix": 0.6 * R}, MOON2),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}, None),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 9}, None),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (20.0, 10.0), "superdomain_scale_factor": 10}, None),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.0, -20.0), "superdomain_scale_factor": 10}, None),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.45 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}, None),
    ("hireslocal", {"pix": 0.14 * R, "local_radius": 0.4 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}, None),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}, MOON2),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4001 * R, "local_location": (10.0, 20.0), "superdomain_scale_factor": 10}, None),
    ("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": (10.001, 20.0), "superdomain_scale_factor": 10}, None),
]
_g = {}


def grid(i, d, **opt):
    name, kw, body = GRIDS[i]
    with quiet():
        if isinstance(body, tuple):
            body = Target.maker(body[0], radius=body[1], mass=7.3e22, material="Soft Rock", transition_scale_type="silicate") if body[0] not in ("Moon",) else Target.maker(body[0], radius=body[1])
        return Surface.maker(name, target=body, simdir=d, ask_overwrite=False, rng_seed=1, **kw, **opt)


def geometry(s):
    g = {k: np.array(getattr(s, k)) for k in ("face_lon", "face_lat", "node_lon", "node_lat", "face_area", "face_size", "face_node_connectivity", "face_x", "node_z")}
    g["radius"], g["pix"] = np.float64(s.radius), np.float64(s.pix)
    if hasattr(type(s), "local"):
        for k in ("face_indices", "node_indices", "edge_indices", "face_distance", "face_area", "node_bearing", "face_lon"):
            g["local." + k] = np.array(getattr(s.local, k))
        g["local.location"], g["local.radius"] = np.array(s.local.location), np.float64(s.local.region_radius)
    return g


def fresh(i):
    if i not in _g:
        d = scratch("fresh_")
        _g[i] = (geometry(grid(i, d, reset=True)), d)
    return _g[i]


def close(a, b, chk, what):
    chk.expect(set(a) == set(b), lambda: f"{what}: geometry has {sorted(a)} instead of {sorted(b)}")
    for k in a:
        chk.expect(a[k].shape == b[k].shape, lambda: f"{what}: {k} has shape {a[k].shape} instead of {b[k].shape}")
        chk.expect(a[k].size == 0 or np.allclose(np.asarray(a[k], float), np.asarray(b[k], float), rtol=1e-9, atol=1e-9 if k not in ("radius", "pix") else 0), lambda: f"{what}: {k} differs from that of a new grid with these settings")
        if k in ("radius", "pix"):
            chk.expect(float(a[k]) == float(b[k]), lambda: f"{what}: {k} is {a[k]} instead of {b[k]}")


def grids(chk):
    """Sequences of grid settings used one after the other in one directory."""
    n = len(GRIDS)
    seqs = [(i, j) for i in range(n) for j in range(n)]
    if chk.thorough:
        seqs += [(i, j, k) for i in range(0, n, 2) for j in range(n) for k in range(0, n, 2)]
    for seq in seqs:

        def case(seq=seq):
            geo, src = fresh(seq[0])
            d = scratch("pair_")
            shutil.rmtree(d)
            shutil.copytree(src, d)
            try:
                prev = seq[0]
                for step, i in enumerate(seq[1:]):
                    s = grid(prev, d, reset=False)
                    mark = special(s.n_face, step)
                    s.add_data("face_elevation", data=mark, overwrite=True)
                    s.save(interval=step + 1)
                    want, _ = fresh(i)
                    s = grid(i, d, reset=False)
                    close(geometry(s), want, chk, "opened again")
                    same = GRIDS[i] == GRIDS[prev]
                    have = s.get_saved_interval_numbers()[0]
                    if same:
                        chk.expect(bits(s.uxds["face_elevation"].values) == bits(mark), "the saved elevations were lost although the grid is the same")
                        chk.expect(step + 1 in have, "the saved interval is gone although the grid is the same")
                    else:
                        chk.expect(s.uxds["face_elevation"].shape == (s.n_face,) and not s.uxds["face_elevation"].values.any(), "data of another grid were kept")
                        chk.expect(list(have) == [0], lambda: f"files of another grid were kept: {have}")
                    s2 = grid(i, d, reset=False)
                    close(geometry(s2), want, chk, "opened a third time")
                    prev = i
                    chk.trans(3)
                chk.state(seq)
                chk.execd()
            finally:
                shutil.rmtree(d, ignore_errors=True)

        yield " -> ".join(str(i) for i in seq), case


PARTS = [("states", states), ("foreign", foreign), ("grids", grids)]
