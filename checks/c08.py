"""Random draws: for every quantile of every underlying draw, sampled values obey their limits and their law."""

import itertools

import numpy as np
from cratermaker import Projectile, Target
from cratermaker.utils import montecarlo_utils as mcu

from mc import world
from mc.scripted import ONE, ScriptedRNG, explore, fair, lattice

BOUNDS = {
    "quick": "quantile lattices of 400 (1-d), 60x60 (2-d), 13x13x13 (3-d) cells plus the end points 0 and 1-2^-53",
    "thorough": "quantile lattices of 4000 (1-d), 200x200 (2-d), 31x31x31 (3-d) cells plus the end points 0 and 1-2^-53",
}
ASSUMPTIONS = [
    "uniform, normal and Poisson draws of the generator are enumerated through their quantiles; numpy's own bit streams are trusted",
]


def lat_n(chk, q, t):
    return lattice(t if chk.thorough else q)


def enum(menu, ndraw, fn):
    """Run fn(rng) for every combination of quantiles for the first ndraw decisions."""
    for combo in itertools.product(range(len(menu)), repeat=ndraw):
        # past the enumerated draws (rejection loops) the answers cycle fairly through the whole menu
        rng = ScriptedRNG(combo, u_menu=menu, default=fair)
        yield fn(rng), rng


def ks(values, cdf):
    """Largest distance between the empirical distribution of values and a reference distribution."""
    v = np.sort(np.asarray(values, dtype=float))
    n = len(v)
    c = np.array([cdf(x) for x in v])
    i = np.arange(n)
    return max(np.max(np.abs(c - i / n)), np.max(np.abs(c - (i + 1) / n)))


def part_angle(chk):
    """impact angle and direction over the quantile lattice: range and distribution law"""

    def angle():
        m = lat_n(chk, 400, 4000)
        vals = []
        for v, rng in enum(m, 1, lambda r: mcu.get_random_impact_angle(rng=r)):
            chk.trans(len(rng.points)), chk.execd()
            chk.expect(np.shape(v) == (1,), f"shape {np.shape(v)}")
            chk.state("angle", round(float(v[0]), 9))
            vals.append(float(v[0]))
        chk.expect(0 <= min(vals) and max(vals) <= 90, f"angles outside 0..90: {min(vals)} {max(vals)}")
        d = ks(vals, lambda x: np.sin(np.deg2rad(x)) ** 2)
        chk.expect(d < 3 / len(m), f"impact angles do not follow sin^2: distance {d}")

    def direction():
        m = lat_n(chk, 400, 4000)
        vals = []
        for v, rng in enum(m, 1, lambda r: mcu.get_random_impact_direction(rng=r)):
            chk.trans(len(rng.points)), chk.execd()
            chk.state("dir", round(float(v[0]), 9))
            vals.append(float(v[0]))
        chk.expect(0 <= min(vals) and max(vals) <= 360, "directions outside 0..360")
        d = ks(vals, lambda x: x / 360.0)
        chk.expect(d < 3 / len(m), f"impact directions are not uniform: distance {d}")

    def ends():
        for f, lo, hi in ((mcu.get_random_impact_angle, 0, 90), (mcu.get_random_impact_direction, 0, 360)):
            for v, rng in enum((0.0, ONE), 1, lambda r, f=f: f(rng=r)):
                chk.execd(), chk.trans()
                chk.expect(np.isfinite(v[0]) and lo <= v[0] <= hi, f"{f.__name__}: {v} at {rng.choices}")

    def sizes():
        for f in (mcu.get_random_impact_angle, mcu.get_random_impact_direction):
            for s in (1, 2, 3, 7, (2, 3), (1, 1), (2, 1, 2)):
                v = f(size=s, rng=ScriptedRNG())
                chk.execd(), chk.trans()
                chk.expect(np.shape(v) == (s if isinstance(s, tuple) else (s,)), f"{f.__name__} size {s} -> {np.shape(v)}")

    yield "angle", angle
    yield "direction", direction
    yield "ends", ends
    yield "sizes", sizes


def part_location(chk):
    """random locations over the 2-d quantile lattice: range, uniformity on the sphere, number of results"""

    def law():
        m = lat_n(chk, 60, 200)
        lon, z = [], []
        for v, rng in enum(m, 2, lambda r: mcu.get_random_location(rng=r)):
            chk.trans(len(rng.points)), chk.execd()
            chk.expect(v.shape == (1,) and v.dtype.names is not None, "result is not one lon/lat record")
            lo, la = float(v["lon"][0]), float(v["lat"][0])
            chk.expect(-180 <= lo <= 180 and -90 <= la <= 90, f"location out of range {lo, la}")
            chk.state("loc", round(lo, 6), round(la, 6))
            lon.append(lo)
            z.append(np.sin(np.deg2rad(la)))
        d1 = ks(lon, lambda x: (x + 180) / 360)
        d2 = ks(z, lambda x: (x + 1) / 2)
        chk.expect(d1 < 3 / len(m), f"longitudes are not uniform: {d1}")
        chk.expect(d2 < 3 / len(m), f"sin(latitude) is not uniform (points not uniform on the sphere): {d2}")
        # joint uniformity on a 6 x 6 equal-area tiling
        h, _, _ = np.histogram2d(lon, z, bins=6, range=[[-180, 180], [-1, 1]])
        chk.expect(h.min() > 0.7 * h.mean() and h.max() < 1.3 * h.mean(), "locations are not jointly uniform on the sphere")

    def ends():
        for v, rng in enum((0.0, 0.5, ONE), 2, lambda r: mcu.get_random_location(rng=r)):
            chk.execd(), chk.trans()
            chk.expect(-180 <= v["lon"][0] <= 180 and -90 <= v["lat"][0] <= 90, f"{v} at {rng.choices}")

    def sizes():
        for s in (1, 2, 5, (2, 2), (3, 1)):
            v = mcu.get_random_location(size=s, rng=np.random.default_rng(3))
            chk.execd(), chk.trans()
            chk.expect(v.shape == (s if isinstance(s, tuple) else (s,)), f"size {s} -> {v.shape}")
            n = v.size
            chk.expect(len({(float(a), float(b)) for a, b in zip(v["lon"].ravel(), v["lat"].ravel())}) == n, "repeated locations")

    yield "law", law
    yield "ends", ends
    yield "sizes", sizes


def sfd_value(u, D, N):
    """Independent inverse of the cumulative distribution: log-log interpolation."""
    order = np.argsort(D)[::-1]
    D, N = np.asarray(D, float)[order], np.asarray(N, float)[order]
    return D, N / N[-1]


def part_size(chk):
    """sizes drawn from every small size-frequency table (2-4 entries, any order, ties) over the quantile lattice"""
    diam = (1.0, 2.0, 10.0, 500.0)
    cums = (1e-6, 0.01, 0.3, 1.0, 7.0)
    tables = []
    for n in (2, 3, 4):
        for ds in itertools.combinations(diam, n):
            for cs in itertools.combinations_with_replacement(sorted(cums, reverse=True), n):
                if cs[0] == cs[-1]:
                    continue
                tables.append((ds, cs))  # ascending diameters, non-increasing cumulative number

    def case(ds, cs, perm):
        def f():
            D = np.array([ds[i] for i in perm])
            C = np.array([cs[i] for i in perm])
            D0, C0 = D.copy(), C.copy()
            m = lattice(200 if chk.thorough else 40)
            vals = []
            for v, rng in enum(m + (0.0, ONE), 1, lambda r: mcu.get_random_size(D, C, rng=r)):
                chk.trans(len(rng.points)), chk.execd()
                chk.expect(np.shape(v) == (1,), f"shape {np.shape(v)}")
                x = float(v[0])
                chk.expect(
                    min(ds) * (1 - 1e-6) <= x <= max(ds) * (1 + 1e-6), lambda: f"size {x} outside {min(ds)}..{max(ds)} for {ds} {cs}"
                )
                if rng.choices[0] < len(m):
                    vals.append(x)
            chk.expect(np.array_equal(D, D0) and np.array_equal(C, C0), "the input tables were modified")
            # law: the fraction of draws larger than D_k equals the (truncated) cumulative fraction
            top, bot = cs[-1], cs[0]
            for d_k, c_k in zip(ds, cs):
                want = (c_k - top) / (bot - top)
                got = np.mean(np.array(vals) > d_k * (1 + 1e-6))
                chk.expect(abs(want - got) < 2.5 / len(m), lambda: f"fraction above {d_k}: {got}, expected {want} for {ds} {cs}")
            # between two table entries the law is a power law (linear in log-log)
            for (d1, c1), (d2, c2) in zip(zip(ds, cs), zip(ds[1:], cs[1:])):
                if c1 == c2:
                    chk.expect(
                        not any(d1 * (1 + 1e-6) < x < d2 * (1 - 1e-6) for x in vals), lambda: f"draws between {d1} and {d2} where no crater exists"
                    )
                    continue
                dm = np.sqrt(d1 * d2)
                cm = np.sqrt(c1 * c2)
                want = (cm - top) / (bot - top)
                got = np.mean(np.array(vals) > dm)
                chk.expect(abs(want - got) < 2.5 / len(m), lambda: f"fraction above {dm}: {got}, expected {want} for {ds} {cs}")
            chk.state(ds, cs, perm)

        return f

    for ds, cs in tables:
        n = len(ds)
        perms = [tuple(range(n)), tuple(range(n))[::-1]]
        if chk.thorough:
            perms = list(itertools.permutations(range(n)))
        elif n == 3:
            perms.append((1, 0, 2))
        for p in perms:
            yield f"{ds} {cs} {p}", case(ds, cs, p)

    def bad(name, *a, **k):
        def f():
            chk.execd(), chk.trans()
            try:
                r = mcu.get_random_size(*a, rng=ScriptedRNG(), **k)
            except (ValueError, TypeError, AttributeError, IndexError):
                chk.outcome("rejected")
                return
            chk.fail(f"{name}: accepted, returned {r}")

        return f

    A = np.array
    for name, a in {
        "scalar": (1.0, 1.0),
        "length mismatch": (A([1.0, 2.0]), A([1.0, 0.5, 0.1])),
        "one entry": (A([1.0]), A([1.0])),
        "2-d": (A([[1.0, 2.0]]), A([[1.0, 0.5]])),
        "negative size": (A([-1.0, 2.0]), A([1.0, 0.5])),
        "zero size": (A([0.0, 2.0]), A([1.0, 0.5])),
        "zero number": (A([1.0, 2.0]), A([1.0, 0.0])),
        "negative number": (A([1.0, 2.0]), A([1.0, -0.5])),
        "not monotonic": (A([1.0, 2.0, 3.0]), A([1.0, 0.2, 0.5])),
        "increasing": (A([1.0, 2.0]), A([0.5, 1.0])),
    }.items():
        yield f"reject {name}", bad(name, *a)
    yield "reject size and mu", bad("size and mu", A([1.0, 2.0]), A([1.0, 0.5]), size=2, mu=2)

    def counts():
        for n in (0, 1, 2, 5):
            r = mcu.get_random_size(A([1.0, 2.0]), A([1.0, 0.5]), size=n, rng=ScriptedRNG())
            chk.execd(), chk.trans()
            chk.expect(np.shape(r) == (n,), f"size {n} -> {np.shape(r)}")
        for k, n in enumerate((1, 0, 2)):
            r = mcu.get_random_size(A([1.0, 2.0]), A([1.0, 0.5]), mu=1.5, rng=ScriptedRNG([k]))
            chk.execd(), chk.trans()
            chk.expect(np.shape(r) == (n,), f"Poisson count {n} -> {np.shape(r)}")

    yield "counts", counts


def part_velocity(chk):
    """impact velocities for every combination of mean / escape velocity and 3-d quantile lattice"""
    pairs = [(v, e) for v in (500.0, 5000.0, 22100.0) for e in (None, 1.0, 100.0, 2380.0, 4999.0, 11200.0, 60000.0) if e != v]

    def case(vm, ve):
        def f():
            m = lattice(31 if chk.thorough else 13)
            vals = []
            fast = ve is None or vm > ve
            for v, rng in enum(m, 3, lambda r: mcu.get_random_velocity(vm, ve, rng=r)):
                chk.trans(len(rng.points)), chk.execd()
                chk.expect(np.shape(v) == (1,), f"shape {np.shape(v)}")
                x = float(v[0])
                chk.expect(np.isfinite(x) and x >= 0, f"velocity {x}")
                if ve is not None and fast:
                    chk.expect(x >= ve * (1 - 1e-12), lambda: f"velocity {x} below the escape velocity {ve} (mean {vm})")
                elif ve is not None:
                    chk.expect(x <= ve, lambda: f"velocity {x} above the escape velocity {ve} (mean {vm})")
                vals.append(x)
            vals = np.array(vals)
            chk.state(vm, ve, round(float(vals.mean()), 3))
            if ve is None:
                chk.expect(abs(vals.mean() / vm - 1) < 0.05, f"mean {vals.mean()} for requested mean {vm}")
                rms = np.sqrt((vals**2).mean())
                chk.expect(abs(rms / (vm * np.sqrt(3 * np.pi / 8)) - 1) < 0.06, f"rms {rms}: not Maxwellian for mean {vm}")
            elif fast:
                enc = np.sqrt(np.maximum(vals**2 - ve**2, 0))
                want = np.sqrt(vm**2 - ve**2)
                chk.expect(abs(enc.mean() / want - 1) < 0.05, f"mean encounter velocity {enc.mean()}, expected {want}")

        return f

    for vm, ve in pairs:
        yield f"mean={vm} escape={ve}", case(vm, ve)

    def sizes():
        for ve in (None, 100.0, 60000.0):
            for s in (1, 2, 5, (2, 2)):
                v = mcu.get_random_velocity(5000.0, ve, size=s, rng=np.random.default_rng(5))
                chk.execd(), chk.trans()
                chk.expect(np.shape(v) == (s if isinstance(s, tuple) else (s,)), f"size {s} -> {np.shape(v)}")

    yield "sizes", sizes


def part_bounded(chk):
    """truncated normal draws for every combination of mean, width and bounds over the quantile lattice"""
    locs, scales = (-5.0, 0.0, 1.0, 1000.0), (0.01, 1.0, 50.0)
    los, his = (None, -3.0, 0.5), (None, 0.25, 3.0)

    def case(loc, sc, lo, hi):
        def f():
            l = loc - sc if lo is None else loc + lo * sc
            h = loc + sc if hi is None else loc + hi * sc
            if l >= h:
                return
            m = lat_n(chk, 100, 1000)
            vals = []
            kw = {}
            if lo is not None:
                kw["lower_bound"] = l
            if hi is not None:
                kw["upper_bound"] = h
            for v, rng in enum(m + (0.0, ONE), 1, lambda r: mcu.bounded_norm(loc, sc, rng=r, **kw)):
                chk.trans(len(rng.points)), chk.execd()
                x = float(np.ravel(v)[0])
                t = 1e-9 * max(abs(l), abs(h), 1)
                chk.expect(l - t <= x <= h + t, lambda: f"{x} outside [{l}, {h}] (mean {loc}, width {sc})")
                if rng.choices[0] < len(m):
                    vals.append(x)
            from scipy.special import ndtr

            a, b = ndtr((l - loc) / sc), ndtr((h - loc) / sc)
            d = ks(vals, lambda x: (ndtr((x - loc) / sc) - a) / (b - a))
            chk.expect(d < 3 / len(m), f"not the truncated normal law: distance {d}")
            chk.state(loc, sc, lo, hi)

        return f

    for c in itertools.product(locs, scales, los, his):
        yield f"{c}", case(*c)


def part_face(chk):
    """a random location on every face of a coarse mesh and on polygons of 3 to 8 corners, every combination of five quantiles for its three draws"""
    s = world.surface(1)
    g = s.uxgrid
    fn = g.face_node_connectivity.values
    xyz = np.column_stack([g.node_x.values, g.node_y.values, g.node_z.values])
    xyz = xyz / np.linalg.norm(xyz, axis=1)[:, None]

    def inside(face, lon, lat):
        lo, la = np.deg2rad(lon), np.deg2rad(lat)
        p = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
        idx = fn[face][fn[face] >= 0]
        v = xyz[idx]
        c = v.mean(axis=0)
        for a, b in zip(v, np.roll(v, -1, axis=0)):
            nrm = np.cross(a, b)
            if np.dot(nrm, p) * np.sign(np.dot(nrm, c)) < -1e-9:
                return False
        return np.dot(p, c) > 0

    def case(face):
        def f():
            menu = (0.0, 0.1, 0.5, 0.9, ONE) if not chk.thorough else tuple(lattice(11)) + (0.0, ONE)
            for combo in itertools.product(range(len(menu)), repeat=3):
                rng = ScriptedRNG(combo, u_menu=menu)
                v = mcu.get_random_location_on_face(g, face, rng=rng)
                chk.trans(len(rng.points)), chk.execd()
                chk.expect(v.shape == (1,), f"shape {v.shape}")
                lon, lat = float(v["lon"][0]), float(v["lat"][0])
                chk.expect(-180 <= lon <= 360 and -90 <= lat <= 90, f"{lon, lat}")
                chk.expect(inside(face, lon, lat), lambda: f"location {lon, lat} drawn for face {face} lies outside it (draws {rng.choices})")
            chk.state(face)

        return f

    for face in range(s.n_face):
        yield f"face={face}", case(face)

    def many():
        allf = np.arange(s.n_face)
        v = mcu.get_random_location_on_face(g, allf, rng=np.random.default_rng(2))
        chk.execd(), chk.trans()
        chk.expect(v.shape == (s.n_face,), f"{v.shape}")
        for i in allf:
            chk.expect(inside(i, float(v["lon"][i]), float(v["lat"][i])), f"face {i}")
        rev = allf[::-1]
        v = mcu.get_random_location_on_face(g, rev, rng=np.random.default_rng(2))
        for k, i in enumerate(rev):
            chk.expect(inside(i, float(v["lon"][k]), float(v["lat"][k])), f"face {i} (reversed order)")

    yield "all faces at once", many

    class Arr:
        def __init__(self, a):
            self.values = a

        def __getitem__(self, k):
            return Arr(self.values[k])

    class Poly:
        """a grid of one face: an n-gon (possibly irregular) about a centre, padded with fill values as in a mixed mesh"""

        def __init__(self, n, centre, radius, squash, width):
            ang = np.linspace(0, 2 * np.pi, n, endpoint=False) + 0.3
            c = np.array([np.cos(centre[1]) * np.cos(centre[0]), np.cos(centre[1]) * np.sin(centre[0]), np.sin(centre[1])])
            a = np.cross(c, [0.3, 0.5, 0.8])
            a /= np.linalg.norm(a)
            b = np.cross(c, a)
            v = c + radius * (np.cos(ang)[:, None] * a + squash * np.sin(ang)[:, None] * b)
            self.xyz = v / np.linalg.norm(v, axis=1)[:, None]
            self.node_x, self.node_y, self.node_z = (Arr(self.xyz[:, k].copy()) for k in range(3))
            conn = np.full((1, width), np.iinfo(np.int64).min)
            conn[0, :n] = np.arange(n)
            self.face_node_connectivity = Arr(conn)

    def poly(n, centre, radius, squash, width):
        def f():
            P = Poly(n, centre, radius, squash, width)
            menu = (0.0, 0.1, 0.35, 0.5, 0.65, 0.9, ONE)
            for combo in itertools.product(range(len(menu)), repeat=3):
                rng = ScriptedRNG(combo, u_menu=menu)
                v = mcu.get_random_location_on_face(P, 0, rng=rng)
                chk.trans(len(rng.points)), chk.execd()
                lo, la = np.deg2rad(float(v["lon"][0])), np.deg2rad(float(v["lat"][0]))
                p = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
                c = P.xyz.mean(axis=0)
                for a, b in zip(P.xyz, np.roll(P.xyz, -1, axis=0)):
                    nrm = np.cross(a, b)
                    chk.expect(np.dot(nrm, p) * np.sign(np.dot(nrm, c)) >= -1e-9 and np.dot(p, c) > 0, lambda: f"location {np.rad2deg(lo), np.rad2deg(la)} lies outside the {n}-gon (draws {[menu[i] for i in combo]})")
            chk.state(n, centre, radius, squash, width)

        return f

    for n in (3, 4, 5, 6, 7, 8):
        for centre in ((0.0, 0.0), (np.pi, 0.1), (1.0, np.pi / 2), (2.0, -1.4)):
            for radius, squash in ((0.01, 1.0), (0.4, 0.3)):
                for width in sorted({n, 8}):
                    yield f"{n}-gon at {centre} radius {radius} squash {squash} width {width}", poly(n, centre, radius, squash, width)


def part_projectile(chk):
    """sampled projectiles: every answer sequence with up to two deviations, every population and target"""
    combos = [(p, t) for p in ("asteroids", "comets", "generic") for t in ("Moon", "Earth", "Ceres", "Europa", "Pluto")]

    def case(pop, tname):
        def f():
            tgt = Target.maker(tname)

            def run(rng):
                p = Projectile.maker(pop, target=tgt, mean_velocity=9000.0, rng=rng)
                chk.execd(), chk.trans(len(rng.points))
                for q in (p, p.new_projectile()):
                    chk.expect(np.isfinite(q.velocity) and q.velocity >= 0, f"velocity {q.velocity}")
                    if q.mean_velocity > tgt.escape_velocity:
                        chk.expect(q.velocity >= tgt.escape_velocity * (1 - 1e-9), f"velocity {q.velocity} below escape velocity")
                    else:
                        chk.expect(q.velocity <= tgt.escape_velocity, f"velocity {q.velocity} above escape velocity")
                    chk.expect(0 <= q.angle <= 90, f"angle {q.angle}")
                    chk.expect(0 <= q.direction <= 360, f"direction {q.direction}")
                    chk.expect(-180 <= q.location[0] <= 180 and -90 <= q.location[1] <= 90, f"location {q.location}")
                    chk.expect(0 <= q.vertical_velocity <= q.velocity * (1 + 1e-12), f"vertical velocity {q.vertical_velocity}")
                    chk.state(pop, tname, round(q.velocity, 3), round(q.angle, 6), round(q.direction, 6))

            explore(run, lambda s: ScriptedRNG(s, default=fair), max_dev=2 if chk.thorough else 1)

        return f

    for p, t in combos:
        yield f"{p} on {t}", case(p, t)


PARTS = [
    ("angle", part_angle),
    ("location", part_location),
    ("size", part_size),
    ("velocity", part_velocity),
    ("bounded", part_bounded),
    ("face", part_face),
    ("projectile", part_projectile),
]
