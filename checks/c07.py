"""Locations: any accepted way of writing a point gives that point of the sphere, in canonical range."""

import itertools

import numpy as np
from cratermaker import Crater, Projectile
from cratermaker.utils.general_utils import normalize_coords, validate_and_normalize_location

BOUNDS = {
    "quick": "lon -900..900 step 15 (+-1e-9, +-1e-14, +1/3), lat -810..810 step 7.5 (+-1e-9), 12 input forms",
    "thorough": "lon -1080..1080 step 5, lat -990..990 step 2.5 (+-1e-9), 12 input forms",
}
ASSUMPTIONS = ["the oracle works on 3-d unit vectors; agreement is required to 1e-7 degrees of arc"]


def vec(lon, lat):
    lon, lat = np.deg2rad(float(lon)), np.deg2rad(float(lat))
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def same(a, b):
    return np.linalg.norm(vec(*a) - vec(*b)) < 1e-8


def ok_range(p):
    return len(p) == 2 and -180.0 <= p[0] < 180.0 and -90.0 <= p[1] <= 90.0 and all(type(float(v)) is float for v in p)


def grid(chk):
    if chk.thorough:
        lons = np.arange(-1080, 1080.1, 5.0)
        lats = np.arange(-990, 990.1, 2.5)
    else:
        lons = np.arange(-900, 900.1, 15.0)
        lats = np.arange(-810, 810.1, 7.5)
    e = (0.0, 1e-9, -1e-9, 1e-14, -1e-14, 1.0 / 3.0)
    return [float(x + d) for x in lons for d in e], [float(x + d) for x in lats for d in e[:3]]


def sd(order, lon, lat, shape=None):
    a = np.zeros(1, dtype=[(n, "f8") for n in order])
    a["lon"], a["lat"] = lon, lat
    return a


FORMS = {
    "tuple": lambda x, y: (x, y),
    "list": lambda x, y: [x, y],
    "array": lambda x, y: np.array([x, y]),
    "array32exact": lambda x, y: (np.float64(x), np.float64(y)),
    "array_1x2": lambda x, y: np.array([[x, y]]),
    "list_of_one": lambda x, y: [(x, y)],
    "dict": lambda x, y: {"lon": x, "lat": y},
    "dict_rev": lambda x, y: {"lat": y, "lon": x},
    "struct_1": lambda x, y: sd(("lon", "lat"), x, y),
    "struct_1_rev": lambda x, y: sd(("lat", "lon"), x, y),
    "struct_void": lambda x, y: sd(("lon", "lat"), x, y)[0],
    "struct_0d": lambda x, y: sd(("lon", "lat"), x, y).reshape(()),
}


def part_coords(chk):
    """every (lon, lat) of the lattice, plain coordinates: range, same point of the sphere, idempotence, periodicity"""
    lons, lats = grid(chk)

    def case(lat):
        def f():
            for lon in lons:
                p = normalize_coords((lon, lat))
                chk.trans()
                chk.execd()
                chk.expect(ok_range(p), lambda: f"normalize {(lon, lat)} -> {p}: outside [-180,180) x [-90,90]")
                chk.expect(same(p, (lon, lat)), lambda: f"normalize {(lon, lat)} -> {p}: a different point of the sphere")
                q = normalize_coords(p)
                chk.expect(tuple(q) == tuple(p) and ok_range(q), lambda: f"normalize is not idempotent: {p} -> {q}")
                chk.state(round(p[0], 6), round(p[1], 6))
            chk.sample(f"lat={lat}: {len(lons)} longitudes")

        return f

    for lat in lats:
        yield f"lat={lat!r}", case(lat)


def part_forms(chk):
    """every input form for a coarse lattice of points, directly, and through craters and projectiles"""
    lons = [-540.0, -270.0, -190.0, -180.0, -95.5, 0.0, 0.25, 90.0, 179.999, 180.0, 181.0, 360.0, 725.0]
    lats = [-450.0, -271.0, -180.0, -95.0, -90.0, -45.0, 0.0, 0.25, 30.0, 90.0, 91.0, 180.0, 271.0, 455.0]

    def case(name, form):
        def f():
            for lon, lat in itertools.product(lons, lats):
                chk.trans()
                chk.execd()
                p = validate_and_normalize_location(form(lon, lat))
                chk.expect(isinstance(p, tuple) and ok_range(p), lambda: f"{name} {(lon, lat)} -> {p}")
                chk.expect(same(p, (lon, lat)), lambda: f"{name} {(lon, lat)} -> {p}: a different point of the sphere")
                chk.state(name, round(p[0], 6), round(p[1], 6))

        return f

    def consumer(name, form):
        def f():
            for lon, lat in itertools.product(lons[::2], lats[::2]):
                chk.execd()
                chk.trans()
                c = Crater.maker(diameter=1.0e4, location=form(lon, lat), rng_seed=1)
                chk.expect(ok_range(c.location) and same(c.location, (lon, lat)), lambda: f"crater at {name} {(lon, lat)} -> {c.location}")
                chk.expect(
                    ok_range(c.measured_location) and same(c.measured_location, (lon, lat)),
                    lambda: f"crater measured at {name} {(lon, lat)} -> {c.measured_location}",
                )
                c.measured_location = form(lat, lon)
                chk.expect(
                    ok_range(c.measured_location) and same(c.measured_location, (lat, lon)),
                    lambda: f"crater re-measured at {name} {(lat, lon)} -> {c.measured_location}",
                )
                chk.expect(same(c.location, (lon, lat)), "measuring moved the crater")
                p = Projectile.maker("asteroids", location=form(lon, lat), rng_seed=1)
                chk.expect(ok_range(p.location) and same(p.location, (lon, lat)), lambda: f"projectile at {name} {(lon, lat)} -> {p.location}")

        return f

    for n, fm in FORMS.items():
        yield f"form={n}", case(n, fm)
    for n in ("tuple", "list", "array", "dict", "struct_1", "struct_1_rev", "struct_void", "array_1x2"):
        yield f"consumer form={n}", consumer(n, FORMS[n])


def part_lonlat(chk):
    """separate longitude/latitude arguments of a crater, all combinations with and without a location"""

    def case(kw, good, want):
        def f():
            chk.execd()
            chk.trans()
            try:
                c = Crater.maker(diameter=1.0e4, rng_seed=3, **kw)
            except ValueError:
                chk.outcome("rejected")
                chk.expect(not good, f"{kw} rejected")
                return
            chk.outcome("accepted")
            chk.expect(good, f"contradictory or incomplete location {kw} accepted as {c.location}")
            if want is not None:
                chk.expect(ok_range(c.location) and same(c.location, want), f"{kw} -> {c.location}")
            chk.state(sorted(kw), c.location)

        return f

    vals = (0.0, 12.5, 200.0, -170.0)
    for lon, lat in itertools.product(vals, (0.0, 45.0, -90.0, 100.0)):
        for use_lon, use_lat, use_loc, use_ploc in itertools.product((0, 1), repeat=4):
            kw = {}
            if use_lon:
                kw["longitude"] = lon
            if use_lat:
                kw["latitude"] = lat
            if use_loc:
                kw["location"] = (lon, lat)
            if use_ploc:
                kw["projectile_location"] = (lon, lat)
            nsep = use_lon + use_lat
            good = nsep != 1 and ((nsep == 2) + use_loc + use_ploc <= 1)
            want = (lon, lat) if (nsep == 2 or use_loc or use_ploc) else None
            yield f"{kw}", case(kw, good, want)


def part_many(chk):
    """sequences of up to three points in list, tuple and array form: each element is normalised, in order"""
    pts = [(0.0, 0.0), (200.0, 10.0), (-30.0, 95.0), (10.0, -271.0)]

    def case(seq):
        def f():
            for form in (list, tuple, np.array, lambda s: [list(p) for p in s], lambda s: [np.array(p) for p in s]):
                chk.execd()
                chk.trans()
                r = validate_and_normalize_location(form(list(seq)))
                if len(seq) == 1:
                    r = [r]
                chk.expect(len(r) == len(seq), f"{seq} -> {r}")
                for a, b in zip(r, seq):
                    chk.expect(ok_range(a) and same(a, b), f"{seq} -> {r}")
            s = validate_and_normalize_location(np.array(list(seq), dtype=[("lon", "f8"), ("lat", "f8")]))
            s = [s] if len(seq) == 1 else s
            chk.expect(len(s) == len(seq) and all(ok_range(a) and same(a, b) for a, b in zip(s, seq)), f"struct {seq} -> {s}")
            chk.state(seq)

        return f

    for n in (1, 2, 3):
        for seq in itertools.product(pts, repeat=n):
            yield f"{seq}", case(seq)
    yield "four", case(tuple(pts))


def part_reject(chk):
    """inputs that are no location are rejected"""
    bad = [5, 5.0, (1.0,), (1.0, 2.0, 3.0), [], (), {"lon": 1.0}, {"lat": 2.0}, {"x": 1, "y": 2}, "abc", np.zeros(3), None]

    def case(b):
        def f():
            chk.execd()
            chk.trans()
            try:
                r = validate_and_normalize_location(b)
            except (ValueError, TypeError, IndexError, KeyError):
                chk.outcome("rejected")
                return
            chk.fail(f"{b!r} accepted as {r}")

        return f

    for b in bad:
        yield f"{b!r}", case(b)


PARTS = [("coords", part_coords), ("forms", part_forms), ("lonlat", part_lonlat), ("many", part_many), ("reject", part_reject)]
