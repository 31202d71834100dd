"""Meshes: tiling, connectivity, bins, nearest elements; regions and regions of regions against spherical geometry."""

import itertools

import numpy as np
from cratermaker import Surface

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "18 meshes of 3 kinds (12 to 642 faces, 3 bodies, 9 places of the high resolution region), every face, edge and node of each; 34 centres (poles, date line, outside the normal range, face centres, nodes, edge middles) x 11 radii on 7 meshes; 4 chains of nested regions from each",
    "thorough": "meshes up to 2562 faces, 150 centres x 17 radii on 16 meshes",
}
NOTE = "Oracle: exact spherical geometry (vectors, Girard areas) computed independently from the node and face positions."
R = 1737400.0
ICO = [("icosphere", {"gridlevel": g}) for g in (0, 1, 2, 3)] + [("icosphere", {"gridlevel": 1, "target": "Mars"}), ("icosphere", {"gridlevel": 2, "target": "Vesta"})]
ARB = [("arbitrary_resolution", {"pix": f * R}) for f in (1.0, 0.7, 0.3)]
PLACES = [(0.0, 0.0), (0.0, 90.0), (0.0, -90.0), (180.0, 45.0), (-180.0, 0.0), (30.0, -89.0), (200.0, 10.0), (-90.0, 60.0)]
HI = [("hireslocal", {"pix": 0.12 * R, "local_radius": 0.4 * R, "local_location": p, "superdomain_scale_factor": 10}) for p in PLACES] + [("hireslocal", {"pix": 0.3 * R, "local_radius": 0.3 * R, "local_location": (12.0, 34.0), "superdomain_scale_factor": 2})]
BIG = [("icosphere", {"gridlevel": 4}), ("arbitrary_resolution", {"pix": 0.1 * R}), ("hireslocal", {"pix": 0.05 * R, "local_radius": 0.5 * R, "local_location": (179.0, -80.0), "superdomain_scale_factor": 20})]
_cache = {}
FILL = np.iinfo(np.int64).min


def mesh(m):
    k = repr(m)
    if k not in _cache:
        with quiet():
            _cache[k] = Surface.maker(m[0], simdir=scratch("mesh_"), ask_overwrite=False, reset=True, rng_seed=1, **m[1])
    return _cache[k]


def unit(lon, lat):
    lon, lat = np.radians(np.asarray(lon, dtype=float)), np.radians(np.asarray(lat, dtype=float))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1)


def angle(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, axis=-1))


def girard(v):
    """Exact area of a spherical polygon on the unit sphere (fan of triangles, van Oosterom and Strackee)."""
    a, s = v[0], 0.0
    for b, c in zip(v[1:-1], v[2:]):
        s += 2 * np.arctan2(np.dot(a, np.cross(b, c)), 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a))
    return s


def rows(c):
    """Valid entries of each row of a connectivity array."""
    c = np.asarray(c)
    return [[int(x) for x in r if x >= 0] for r in c]


def part_mesh(chk):
    """each mesh tiles its sphere; areas, sizes, neighbours, edges and bins agree with one another"""

    def case(m):
        def f():
            s = mesh(m)
            chk.execd()
            A = 4 * np.pi * s.radius**2
            fn, ff, fe = rows(s.face_node_connectivity), rows(s.face_face_connectivity), rows(s.face_edge_connectivity)
            nf, ef, en = rows(s.node_face_connectivity), rows(s.edge_face_connectivity), rows(s.edge_node_connectivity)
            n, e, v = s.n_face, s.n_edge, s.n_node
            chk.expect(n - e + v == 2, lambda: f"{n} faces, {e} edges, {v} nodes: not a sphere")
            if m[0] == "icosphere":
                g = m[1]["gridlevel"]
                chk.expect((n, v) == (10 * 4**g + 2, 20 * 4**g), lambda: f"{n} faces and {v} nodes at level {g}")
            P, C = unit(s.node_lon, s.node_lat), unit(s.face_lon, s.face_lat)
            area = np.asarray(s.face_area)
            exact = np.abs([girard(P[r]) for r in fn])
            chk.expect(abs(exact.sum() - 4 * np.pi) < 1e-9, lambda: f"faces cover {exact.sum() / 4 / np.pi} of the sphere")
            tol = 0.5 * max(exact) ** 1.5 + 1e-9
            k = int(np.argmax(np.abs(area / s.radius**2 / exact - 1)))
            chk.expect(abs(area[k] / s.radius**2 / exact[k] - 1) < max(tol, 1e-8), lambda: f"face {k}: area {area[k]}, exact {exact[k] * s.radius**2}")
            chk.expect(abs(s.area - area.sum()) <= 1e-9 * A, "area is not the sum of the face areas")
            chk.expect(np.allclose(s.face_size**2, area, rtol=1e-12), "face_size is not the square root of the area")
            chk.expect(np.allclose([s.pix_min, s.pix_max, s.pix_mean, s.pix_std], [s.face_size.min(), s.face_size.max(), s.face_size.mean(), s.face_size.std()]), "pixel statistics")
            chk.expect(np.array_equal(s.face_indices, np.arange(n)[s.face_indices]) or s.face_indices == slice(None), "face_indices")
            for i in range(n):
                chk.trans()
                chk.state(m, "face", i)
                k = len(fn[i])
                chk.expect(k >= 3 and len(set(fn[i])) == k and len(fe[i]) == k and s.n_nodes_per_face[i] == k, lambda: f"face {i}: nodes {fn[i]}, edges {fe[i]}")
                sides = {frozenset(p) for p in zip(fn[i], fn[i][1:] + fn[i][:1])}
                chk.expect({frozenset(en[j]) for j in fe[i]} == sides, lambda: f"face {i}: edges do not join consecutive nodes")
                chk.expect(all(i in ef[j] for j in fe[i]), lambda: f"face {i} is not a face of its edges")
                chk.expect(all(i in nf[j] for j in fn[i]), lambda: f"face {i} is not a face of its nodes")
                nb = {f for j in fe[i] for f in ef[j]} - {i}
                chk.expect(set(ff[i]) == nb, lambda: f"face {i}: neighbours {sorted(ff[i])}, faces across its edges {sorted(nb)}")
            for j in range(e):
                chk.expect(len(set(ef[j])) == 2 and len(set(en[j])) == 2, lambda: f"edge {j}: faces {ef[j]}, nodes {en[j]}")
                chk.expect(all(j in fe[f] for f in ef[j]), lambda: f"edge {j} is not an edge of its faces")
            for j in range(v):
                chk.expect(sorted(nf[j]) == [i for i in nf[j] and sorted(set(nf[j]))] and all(j in fn[i] for i in nf[j]), lambda: f"node {j}: faces {nf[j]}")
            L = angle(P[[a for a, b in en]], P[[b for a, b in en]]) * s.radius
            chk.expect(np.allclose(s.edge_length, L, rtol=1e-6), "edge lengths are not the distances between their nodes")
            D = angle(C[[a for a, b in ef]], C[[b for a, b in ef]]) * s.radius
            chk.expect(np.allclose(s.edge_face_distance, D, rtol=1e-6), "edge-face distances are not the distances between the face centres")
            xyz = np.stack([s.face_x, s.face_y, s.face_z], axis=-1)
            chk.expect(angle(xyz / np.linalg.norm(xyz, axis=1)[:, None], C).max() < 1e-6, "face positions disagree with their longitude and latitude")
            # bins
            b = [list(map(int, x)) for x in s.face_bin_indices]
            chk.expect(sorted(sum(b, [])) == list(range(n)), lambda: f"bins {[len(x) for x in b]} do not partition the {n} faces")
            for i, x in enumerate(b):
                a = area[x]
                chk.expect(a.max() <= 2 * a.min() * (1 + 1e-12), lambda: f"bin {i}: areas from {a.min()} to {a.max()}")
                chk.expect(abs(s.face_bin_area[i] - a.sum()) <= 1e-9 * a.sum(), lambda: f"bin {i}: area {s.face_bin_area[i]}")
                chk.expect(s.face_bin_argmin[i] in x and area[s.face_bin_argmin[i]] == a.min(), lambda: f"bin {i}: smallest face {s.face_bin_argmin[i]}")
                chk.expect(s.face_bin_argmax[i] in x and area[s.face_bin_argmax[i]] == a.max(), lambda: f"bin {i}: largest face {s.face_bin_argmax[i]}")
                chk.expect(np.allclose([s.face_bin_min_areas[i], s.face_bin_max_areas[i], s.face_bin_min_sizes[i], s.face_bin_max_sizes[i]], [a.min(), a.max(), a.min() ** 0.5, a.max() ** 0.5], rtol=1e-12), lambda: f"bin {i}: limits")
            chk.expect(all(area[x].max() < area[y].min() for x, y in zip(b, b[1:])), "bins are not in the order of the areas")
            if m[0] == "hireslocal":
                d = angle(C, unit(*m[1]["local_location"])) * s.radius
                inner = s.face_size[d < 0.8 * m[1]["local_radius"]]
                chk.expect(inner.size > 0 and 0.5 < inner.mean() / m[1]["pix"] < 2, lambda: f"faces in the high resolution region: {inner}, asked for {m[1]['pix']}")
                loc = set(np.flatnonzero(d <= m[1]["local_radius"]))
                ring = {x for i in loc for q in fn[i] for x in nf[q]} | loc
                chk.expect(set(map(int, s.local.face_indices)) == ring, "the local region of the mesh is not the one asked for")
            if m[0] == "arbitrary_resolution":
                chk.expect(0.6 < s.pix_mean / m[1]["pix"] < 1.6, lambda: f"mean face size {s.pix_mean}, asked for {m[1]['pix']}")

        return f

    for m in ICO + ARB + HI + (BIG if chk.thorough else []):
        yield f"{m}", case(m)


def part_bins(chk):
    """bins of every small assignment of areas, including equal areas and exact powers of two"""
    menu = [1.0, 1.5, 2.0, 2.0 * (1 - 2**-53), 3.999, 4.0, 8.0, 0.1, 1 / 3]
    n = 4

    def case(first):
        def f():
            s = mesh(ICO[0])
            keep = s._face_area, s._face_size
            for rest in itertools.product(menu, repeat=n - 1):
                a = np.array((first, *rest)) * 7.0e9
                s._face_area, s._face_size = a, np.sqrt(a)
                for k in ("_face_bin_indices", "_face_bin_area", "_face_bin_argmin", "_face_bin_argmax"):
                    setattr(s, k, None)
                b = [list(map(int, x)) for x in s.face_bin_indices]
                chk.execd(), chk.trans(), chk.state(first, rest)
                chk.expect(sorted(sum(b, [])) == list(range(n)), lambda: f"areas {a}: bins {b}")
                chk.expect(all(len(x) and a[x].max() <= 2 * a[x].min() * (1 + 1e-9) for x in b), lambda: f"areas {a}: bins {b}")
                chk.expect(abs(sum(s.face_bin_area) - a.sum()) <= 1e-12 * a.sum(), lambda: f"areas {a}: bin areas {s.face_bin_area}")
                chk.expect(all(a[x].min() == y for x, y in zip(b, s.face_bin_min_areas)), lambda: f"areas {a}: smallest {s.face_bin_min_areas}")
            s._face_area, s._face_size = keep
            for k in ("_face_bin_indices", "_face_bin_area", "_face_bin_argmin", "_face_bin_argmax"):
                setattr(s, k, None)

        return f

    for x in menu:
        yield f"first {x}", case(x)


def centres(s, thorough):
    out = [(lo, la) for lo in (-180.0, -90.0, 0.0, 179.99, 180.0, 190.0, 359.5) for la in (-60.0, 0.5)]
    out += [(0.0, 90.0), (77.0, 90.0), (0.0, -90.0), (-123.0, -90.0), (10.0, 89.9), (-170.0, -89.9), (45.0, 45.0)]
    step = max(1, s.n_face // (40 if thorough else 5))
    out += [(float(s.face_lon[i]), float(s.face_lat[i])) for i in range(0, s.n_face, step)]
    step = max(1, s.n_node // (40 if thorough else 5))
    out += [(float(s.node_lon[i]), float(s.node_lat[i])) for i in range(0, s.n_node, step)]
    en = np.asarray(s.edge_node_connectivity)
    P = unit(s.node_lon, s.node_lat)
    for i in range(0, s.n_edge, max(1, s.n_edge // (40 if thorough else 3))):
        v = P[en[i]].sum(axis=0)
        out.append((float(np.degrees(np.arctan2(v[1], v[0]))), float(np.degrees(np.arcsin(v[2] / np.linalg.norm(v))))))
    return out


def bearing(c, p):
    """Initial bearing in radians from c to p from tangent vectors."""
    lon, lat = np.radians(c)
    north = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    east = np.array([-np.sin(lon), np.cos(lon), 0.0])
    return np.arctan2(p @ east, p @ north)


def same(a, b):
    return set(map(int, np.atleast_1d(a))) == set(map(int, np.atleast_1d(b)))


def index(x, n):
    return np.arange(n)[x] if isinstance(x, slice) else np.asarray(x)


def check_region(chk, s, r, core, where):
    """A region contains the core faces and those sharing a node with them; everything it reports is the surface's own."""
    fn, nf = rows(s.face_node_connectivity), rows(s.node_face_connectivity)
    fi, ni, ei = index(r.face_indices, s.n_face), index(r.node_indices, s.n_node), index(r.edge_indices, s.n_edge)
    want = {x for i in core for q in fn[i] for x in nf[q]}
    chk.expect(set(map(int, fi)) == want and len(set(map(int, fi))) == len(fi), lambda: f"{where}: faces {sorted(map(int, fi))}, expected {sorted(want)}")
    chk.expect(set(map(int, ni)) == {q for i in want for q in fn[i]} and len(ni) == r.n_node == len(set(map(int, ni))), lambda: f"{where}: nodes {sorted(map(int, ni))}")
    fe = rows(s.face_edge_connectivity)
    chk.expect(set(map(int, ei)) == {q for i in core for q in fe[i]} and len(ei) == r.n_edge, lambda: f"{where}: edges {sorted(map(int, ei))}")
    chk.expect(r.n_face == len(fi), lambda: f"{where}: n_face {r.n_face}")
    return fi, ni, ei


def check_geometry(chk, s, r, c, fi, ni, ei, where):
    C, P, u = unit(s.face_lon, s.face_lat), unit(s.node_lon, s.node_lat), unit(*c)
    for got, vec, what in ((r.face_distance, C[fi], "face distances"), (r.node_distance, P[ni], "node distances")):
        d = angle(vec, u) * s.radius
        chk.expect(got.shape == d.shape and np.all(np.abs(got - d) <= 1e-7 * s.radius), lambda: f"{where}: {what} off by {np.abs(got - d).max()} m")
    for got, vec, what in ((r.face_bearing, C[fi], "face bearings"), (r.node_bearing, P[ni], "node bearings")):
        b = bearing(c, vec)
        off = np.abs((np.radians(got) - b + np.pi) % (2 * np.pi) - np.pi) * np.sin(np.minimum(angle(vec, u), np.pi))
        chk.expect(off.max() < 1e-6, lambda: f"{where}: {what} off by {off.max()} rad")
    for name in ("face_lon", "face_lat", "face_area", "face_size", "face_x", "face_z", "face_elevation", "n_nodes_per_face"):
        chk.expect(np.array_equal(getattr(r, name), np.asarray(getattr(s, name))[fi]), lambda: f"{where}: {name} is not the surface's")
    for name in ("node_lon", "node_lat", "node_x", "node_z", "node_elevation"):
        chk.expect(np.array_equal(getattr(r, name), np.asarray(getattr(s, name))[ni]), lambda: f"{where}: {name} is not the surface's")
    for name in ("edge_length", "edge_face_distance"):
        chk.expect(np.array_equal(getattr(r, name), np.asarray(getattr(s, name))[ei]), lambda: f"{where}: {name} is not the surface's")
    chk.expect(abs(r.area - s.face_area[fi].sum()) <= 1e-9 * r.area, lambda: f"{where}: area {r.area}")
    for name, ri, vi in (("edge_face", ei, fi), ("face_edge", fi, ei), ("face_node", fi, ni), ("face_face", fi, fi), ("node_face", ni, fi), ("edge_node", ei, ni)):
        loc, glo = np.asarray(getattr(r, name + "_connectivity")), np.asarray(getattr(s, name + "_connectivity"))[ri]
        inside = set(map(int, vi))
        chk.expect(loc.shape == glo.shape, lambda: f"{where}: {name} {loc.shape}")
        back = [[int(vi[x]) if x >= 0 else None for x in row] for row in loc]
        want = [[int(x) if x >= 0 and int(x) in inside else None for x in row] for row in glo]
        chk.expect(back == want, lambda: f"{where}: {name} connectivity is not that of the surface")


REG = [ICO[1], ICO[2], ICO[5], ARB[2], HI[0], HI[2], HI[3]]


def part_regions(chk):
    """every region centre and radius on a lattice; nested regions; nearest elements; extents; distance and bearing round trip"""
    fr = (1e-6, 0.02, 0.11, 0.3, 0.5, 1.0, 1.5707, 2.2, 3.0, 3.1414, 3.5) + ((0.05, 0.2, 0.7, 1.2, 1.9, 2.7) if chk.thorough else ())

    def case(m, c0):
        def f():
            s = mesh(m)
            c = ((c0[0] + 180.0) % 360.0 - 180.0, c0[1])
            C, u = unit(s.face_lon, s.face_lat), unit(*c)
            th = angle(C, u)
            chk.expect(abs(th[s.find_nearest_face(c0)] - th.min()) < 1e-8, lambda: f"{c0}: nearest face {s.find_nearest_face(c0)} at {th[s.find_nearest_face(c0)]} rad, nearest is at {th.min()}")
            tn = angle(unit(s.node_lon, s.node_lat), u)
            chk.expect(abs(tn[s.find_nearest_node(c0)] - tn.min()) < 1e-8, lambda: f"{c0}: nearest node")
            fd, nd = s.calculate_face_and_node_distances(c0)
            chk.expect(np.all(np.abs(fd - th * s.radius) < 1e-7 * s.radius) and np.all(np.abs(nd - tn * s.radius) < 1e-7 * s.radius), lambda: f"{c0}: distances over the surface")
            fb, nb = s.calculate_face_and_node_bearings(c0)
            back = np.asarray(s.compute_location_from_distance_bearing(fd, fb, reference_location=c0))
            back = np.array([[x[0], x[1]] for x in back]) if back.dtype.names else back.reshape(-1, 2)
            chk.expect(abs(c[1]) > 89.999 or angle(unit(back[:, 0], back[:, 1]), C).max() < 1e-6, lambda: f"{c0}: distance and bearing of a face do not lead back to it")
            regions = {}
            for x in fr:
                if np.any(np.abs(th - x) < 1e-7):
                    continue  # a tie that rounding may break either way
                where = f"{m[0]} centre {c0} radius {x} R"
                chk.execd(), chk.trans(), chk.state(m, c0, x)
                core = set(map(int, np.flatnonzero(th <= x)))
                r = s.extract_region(c0, x * s.radius)
                if not core:
                    chk.expect(r is None, lambda: f"{where}: a region without any face centre")
                    r1 = s.extract_region(location=c0, region_radius=x * s.radius, at_least_one_face=True)
                    if np.sum(th < th.min() + 1e-8) == 1:
                        check_region(chk, s, r1, {int(np.argmin(th))}, where + " (at least one face)")
                    chk.expect(r1 is not None, lambda: f"{where}: at least one face was asked for")
                    chk.outcome("empty")
                    continue
                chk.expect(r is not None, lambda: f"{where}: nothing found, {len(core)} faces are inside")
                regions[x] = (r, core)
                got = check_region(chk, s, r, core, where)
                check_geometry(chk, s, r, c, *got, where)
                chk.expect(angle(unit(*r.location), u) < 1e-12 and r.region_radius == x * s.radius, lambda: f"{where}: reports {r.location}, {r.region_radius}")
                chk.outcome("whole" if len(core) == s.n_face else "part")
                if x < 1.5:
                    lo, hi, la, lb = r.get_location_extents()
                    b = np.linspace(-180, 180, 181)
                    ring = np.asarray(s.compute_location_from_distance_bearing(np.full(b.shape, x * s.radius), b, reference_location=c0))
                    ring = np.array([[p[0], p[1]] for p in ring]) if ring.dtype.names else ring.reshape(-1, 2)
                    dl = (ring[:, 0] - c[0] + 180) % 360 - 180
                    chk.expect(np.all(ring[:, 1] >= la - 1e-6) and np.all(ring[:, 1] <= lb + 1e-6), lambda: f"{where}: latitudes {la} to {lb} do not hold the region")
                    chk.expect((lo, hi) == (-180.0, 180.0) or (np.all(dl >= lo - c[0] - 1e-6) and np.all(dl <= hi - c[0] + 1e-6)), lambda: f"{where}: longitudes {lo} to {hi} do not hold the region")
                    chk.expect(hi - lo <= 360 and lb - la <= 2 * np.degrees(x) + 1e-6, lambda: f"{where}: extents {lo, hi, la, lb}")
            for x, (r, _) in regions.items():
                for y in (0.11, 0.3, 1.0, 2.2):
                    if x < 1e-3 or x > 3.15 or np.any(np.abs(th - min(x, y)) < 1e-7):
                        continue
                    where = f"{m[0]} centre {c0}: region {y} R of region {x} R"
                    sub = r.extract_subregion(y * s.radius)
                    chk.execd(), chk.trans()
                    core = set(map(int, np.flatnonzero(th <= min(x, y))))
                    if not core:
                        chk.expect(sub is None, lambda: f"{where}: a region without any face centre")
                        continue
                    chk.expect(sub is not None, lambda: f"{where}: nothing found")
                    got = check_region(chk, s, sub, core, where)
                    check_geometry(chk, s, sub, c, *got, where)
                    if y < x:
                        again = sub.extract_subregion(y / 2 * s.radius)
                        direct = s.extract_region(c0, y / 2 * s.radius)
                        if not np.any(np.abs(th - y / 2) < 1e-7):
                            chk.expect((again is None) == (direct is None), lambda: f"{where}, then {y / 2}: {again}, {direct}")
                            if again is not None:
                                chk.expect(all(same(index(getattr(again, k), n), index(getattr(direct, k), n)) for k, n in (("face_indices", s.n_face), ("node_indices", s.n_node), ("edge_indices", s.n_edge))), lambda: f"{where}, then {y / 2}: differs from the region extracted directly")
            if m[0] == "hireslocal":
                for x, (r, _) in regions.items():
                    ov = r.local_overlap
                    fi = index(r.face_indices, s.n_face)
                    mine = set(map(int, fi)) & set(map(int, s.local.face_indices))
                    edges = set(map(int, index(r.edge_indices, s.n_edge))) & set(map(int, s.local.edge_indices))
                    chk.expect((ov is None) == (not mine or not edges), lambda: f"centre {c0} radius {x}: overlap {ov}, shared faces {mine}")  # only the outermost rings touch
                    if ov is not None:
                        chk.expect(set(map(int, ov.face_indices)) == mine, lambda: f"centre {c0} radius {x}: overlap holds {len(ov.face_indices)} faces, shared {len(mine)}")
                        chk.expect(np.array_equal(fi[r.face_mask], ov.face_indices) and np.array_equal(ov.face_distance, r.face_distance[r.face_mask]), lambda: f"centre {c0} radius {x}: masks")

        return f

    for m in (REG + [mm for mm in ICO + ARB + HI + BIG if mm not in REG][:9] if chk.thorough else REG):
        with quiet():
            cs = centres(mesh(m), chk.thorough)
        for c in cs:
            yield f"{m} {c}", case(m, c)


PARTS = [("mesh", part_mesh), ("bins", part_bins), ("regions", part_regions)]
