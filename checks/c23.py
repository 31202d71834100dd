"""Every short list of craters through every file format: identifiers, sizes, places, times, names and measurements survive."""

import itertools
import math
import warnings
from dataclasses import fields as dfields

import dask
import numpy as np
from cratermaker import Crater, Simulation
from cratermaker.components.counting import Counting
from cratermaker.components.morphology import MorphologyCrater
from cratermaker.components.morphology.basicmoon import BasicMoonCrater

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "every ordered list of up to 2 of 24 craters (3 crater classes) through data sets, saved files and CSV, as lists and as dictionaries, with repetitions; every list of up to 2 of 10 craters through SCC and VTK; every history of 3 saved intervals with 4 contents each, exported in every format for all, each and relative intervals; written twice",
    "thorough": "lists of up to 3, 5 contents",
}
NOTE = "Oracle: the public values of the craters before they were written."
LEVEL = "implementation"
dask.config.set(scheduler="synchronous")
R = 1737530.0
BASE = dict(diameter=20e3, location=(30.0, -12.5), rng_seed=11)
MENU = {
    "plain": BASE,
    "origin": dict(diameter=1.25e3, location=(0.0, 0.0), time=0.0, rng_seed=1),
    "edge": dict(diameter=3.3e3, location=(-180.0, 90.0), rng_seed=2),
    "east": dict(diameter=1 / 3 * 1e5, location=(179.99999999, -89.5), time=4321.0987654321, rng_seed=3),
    "ellipse": dict(semimajor_axis=20e3, semiminor_axis=7e3, orientation=33.0, location=(-10.0, 45.0), rng_seed=4),
    "ellipse_round": dict(semimajor_axis=20e3, semiminor_axis=7e3, orientation=10.0, location=(-11.0, 45.0), measured_diameter=22e3, rng_seed=5),
    "round_ellipse": dict(diameter=21e3, location=(12.0, 1.0), measured_semimajor_axis=15e3, measured_semiminor_axis=9e3, measured_orientation=77.0, rng_seed=6),
    "round_round": dict(diameter=21e3, location=(13.0, 1.0), measured_diameter=19e3, measured_location=(13.5, 1.25), rng_seed=7),
    "rim": dict(diameter=22e3, location=(14.0, 1.0), measured_rim_height=123.456, measured_floor_depth=-456.789, degradation_state=1234.5, rng_seed=8),
    "zeros": dict(diameter=23e3, location=(15.0, 1.0), measured_rim_height=0.0, measured_floor_depth=0.0, degradation_state=0.0, measured_orientation=0.0, rng_seed=9),
    "name": dict(diameter=24e3, location=(16.0, 1.0), name="Tycho", rng_seed=10),
    "number": dict(diameter=25e3, location=(17.0, 1.0), name="007", rng_seed=11),
    "float": dict(diameter=25.5e3, location=(17.0, 2.0), name="1e5", rng_seed=12),
    "nan": dict(diameter=26e3, location=(18.0, 1.0), name="nan", rng_seed=13),
    "quoted": dict(diameter=26.5e3, location=(18.0, 2.0), name='Crater, "Größe"\nof two lines', rng_seed=14),
    "ptime": dict(diameter=27e3, location=(19.0, 1.0), production_time=3900.0, rng_seed=15),
    "ptime2": dict(diameter=27.5e3, location=(19.0, 2.0), production_time=(3850.0, 25.0), name="Imbrium", rng_seed=16),
    "pND": dict(diameter=28e3, location=(20.0, 1.0), production_ND=(20.0, 55.5), rng_seed=17),
    "pND3": dict(diameter=28.5e3, location=(20.0, 2.0), production_ND=(20.0, 55.5, 4.25), production_sequence=0, rng_seed=18),
    "seq": dict(diameter=29e3, location=(21.0, 1.0), production_sequence=7, name="A", time=100.0, rng_seed=19),
    "projectile": dict(projectile_diameter=1.5e3, projectile_velocity=17.5e3, projectile_angle=37.0, projectile_direction=123.0, location=(22.0, 1.0), rng_seed=20),
    "transient": dict(transient_diameter=30e3, location=(23.0, 1.0), rng_seed=21),
    "all": dict(
        semimajor_axis=31e3, semiminor_axis=30e3, orientation=359.5, location=(24.0, 1.0), time=3800.5, name="Everything", measured_semimajor_axis=29e3, measured_semiminor_axis=28e3,
        measured_orientation=1.5, measured_location=(24.25, 1.125), measured_rim_height=1.0, measured_floor_depth=-2.0, degradation_state=3.0, production_time=(3800.0, 1.0),
        production_ND=(1.0, 2.0, 3.0), production_sequence=4, rng_seed=22,
    ),
    "int": dict(diameter=24500, location=(16, 2), time=100, rng_seed=24),
    "small": dict(diameter=0.012345678901234567, location=(1e-9, -1e-12), time=1e-9, rng_seed=23),
}  # fmt: skip
SCC = ["plain", "origin", "edge", "east", "ellipse", "round_ellipse", "round_round", "name", "all", "small"]
PUBLIC = [
    "id", "semimajor_axis", "semiminor_axis", "radius", "diameter", "orientation", "transient_diameter", "transient_radius", "projectile_diameter", "projectile_radius", "projectile_velocity",
    "projectile_vertical_velocity", "projectile_angle", "projectile_mass", "projectile_density", "projectile_direction", "location", "morphology_type", "time", "name", "measured_diameter",
    "measured_radius", "measured_semimajor_axis", "measured_semiminor_axis", "measured_orientation", "measured_location", "measured_rim_height", "measured_floor_depth", "degradation_state",
    "production_time", "production_ND", "production_sequence",
]  # fmt: skip
SHAPE = ["rim_height", "rim_width", "floor_depth", "floor_diameter", "peak_height", "ejrim", "depth_to_diameter"]
_made = {}


def sim():
    if "sim" not in _made:
        with quiet():
            _made["sim"] = Simulation(simdir=scratch("sim_"), gridlevel=1, ask_overwrite=False, save_actions=None, rng_seed=5)
    return _made["sim"]


CLASSES = {"base": Crater, "moon": BasicMoonCrater}


def craters(names, kind):
    """Fresh craters, so that one check cannot spoil the next."""
    key = kind
    out = []
    for n in names:
        if (n, key) not in _made:
            with quiet():
                _made[n, key] = Crater.maker(**MENU[n])
        c = _made[n, key]
        with quiet():
            c = Crater.maker(crater=c)
            if kind == "moon":
                c = BasicMoonCrater.maker(crater=c, morphology=sim().morphology)
            elif kind == "morphology":
                c = MorphologyCrater.maker(crater=c, morphology=sim().morphology)
        out.append(c)
    return out


def plain(v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, np.ndarray):
        return tuple(plain(x) for x in v.tolist())
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return int(v)
    return float(v)


def values(c):
    names = PUBLIC + (SHAPE if isinstance(c, BasicMoonCrater) else [])
    return {k: plain(getattr(c, k)) for k in names}


def agree(a, b, tol):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b, strict=True))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=tol, abs_tol=0.0)
    return a == b


def compare(chk, what, want, got, tol=1e-14):
    """Two lists of values, as bags: the order of a data set is that of the identifiers."""
    chk.expect(len(got) == len(want), lambda: f"{what}: {len(want)} craters went in, {len(got)} came out")
    key = lambda d: (d["id"], repr(d["name"]))
    for w, g in zip(sorted(want, key=key), sorted(got, key=key), strict=True):
        bad = {k: (w[k], g[k]) for k in w if not agree(w[k], g[k], tol)}
        chk.expect(not bad, lambda bad=bad: f"{what}: " + ", ".join(f"{k} {a!r} became {b!r}" for k, (a, b) in list(bad.items())[:6]))


def lists(names, n):
    for k in range(n + 1):
        yield from itertools.product(names, repeat=k)


def groups(names, n):
    """Lists up to length n, grouped by their first element."""
    yield "none", [()]
    for first in names:
        yield first, [(first, *rest) for k in range(n) for rest in itertools.product(names, repeat=k)]


def through(chk, fmt, names, kind, container):
    cs = craters(names, kind)
    want = [values(c) for c in cs]
    k = sim().counting
    arg = cs if container == "list" else {int(c.id): c for c in cs}
    if container == "dict":
        want = [values(c) for c in arg.values()]
    cls = k.Crater if kind == "moon" else Crater  # reads craters of the simulation's kind
    what = f"{fmt} {kind} {container} {list(names)}"
    with quiet():
        if fmt == "data set":
            ds = Counting.to_xarray(arg)
            copy = ds.copy(deep=True)
            got = cls.from_xarray(ds)
            chk.expect(ds.identical(copy), f"{what}: reading changed the data set")
        elif fmt == "saved":
            k.observed.clear()
            k.emplaced.clear()
            k.observed.update({int(c.id): c for c in cs})
            k.emplaced.extend(cs)
            k.save(interval=3)
            k.observed.clear()
            k.emplaced.clear()
            got = []
            for t in ("observed", "emplaced"):
                f = k.output_dir / f"{t}_{k.output_filename(3)}"
                chk.expect(f.exists() == bool(cs), f"{what}: {t} file {'missing' if cs else 'kept'}")
                g = [values(c) for c in cls.from_file(f)] if cs else []
                compare(chk, f"{what} {t}", list({w["id"]: w for w in want}.values()) if t == "observed" else want, g)
            for f in k.output_dir.glob("*_*.nc"):
                f.unlink()
            got = cs
        elif fmt == "csv":
            k.to_csv_file(craters=arg, interval=3, crater_type="emplaced")
            f = k.export_dir / ("emplaced_" + k.output_filename(3).replace(".nc", ".csv"))
            got = cls.from_file(f)
            again = cls.from_csv_file(f)
            compare(chk, f"{what} read again", want, [values(c) for c in again])
            chk.expect([g["id"] for g in map(values, got)] == [w["id"] for w in want], f"{what}: order changed")
            f.unlink()
    chk.expect([values(c) for c in cs] == [values(c) for c in craters(names, kind)], f"{what}: writing changed the craters")
    for g in got:
        chk.expect(isinstance(g, CLASSES[kind]), f"{what}: came back as a {type(g).__name__}")
    compare(chk, what, want, [values(c) for c in got])
    chk.state(fmt, kind, container, names)
    chk.trans(2)
    chk.execd()


def formats(chk):
    depth = 3 if chk.thorough else 2
    for kind in CLASSES:
        menu = list(MENU) if kind == "base" or chk.thorough else ["plain", "origin", "ellipse", "ellipse_round", "round_ellipse", "rim", "name", "number", "ptime2", "pND3", "projectile", "all"]
        if depth == 3:
            menu = [m for m in menu if m not in ("float", "ptime", "edge", "transient", "zeros", "pND")]
        for fmt in ("data set", "saved", "csv"):
            for first, group in groups(menu, depth):

                def case(group=group, fmt=fmt, kind=kind):
                    for names in group:
                        for container in ("list", "dict"):
                            if container == "dict" and (fmt == "saved" or len(names) > 2):
                                continue
                            through(chk, fmt, names, kind, container)
                    chk.outcome(fmt)

                yield f"{kind} {fmt} {first}", case


def geodesic(lon, lat, lon2, lat2):
    """Distance and bearing on the unit sphere."""
    a, b, c, d = map(math.radians, (lon, lat, lon2, lat2))
    h = math.sin((d - b) / 2) ** 2 + math.cos(b) * math.cos(d) * math.sin((c - a) / 2) ** 2
    y = math.sin(c - a) * math.cos(d)
    x = math.cos(b) * math.sin(d) - math.sin(b) * math.cos(d) * math.cos(c - a)
    return 2 * math.asin(min(1.0, math.sqrt(h))), math.degrees(math.atan2(y, x))


def lonlat(p):
    r = math.sqrt(sum(x * x for x in p))
    return math.degrees(math.atan2(p[1], p[0])), math.degrees(math.asin(p[2] / r)), r


def scc(chk):
    depth = 3 if chk.thorough else 2
    for first, group in groups(SCC, depth):

        def case(group=group):
            k = sim().counting
            for names in group:
                for kind in ("base", "moon"):
                    cs = craters(names, kind)
                    what = f"SCC {kind} {list(names)}"
                    with quiet():
                        k.to_scc_file(craters=cs, interval=4, crater_type="emplaced")
                        (f,) = k.export_dir.glob("*.scc")
                        got = Crater.from_file(f)
                    rows = [[float(x) for x in r.split()] for r in f.read_text().split("crater = {")[1].split("}")[0].splitlines()[1:]]
                    f.unlink()
                    want = [(c.measured_diameter, *c.measured_location) for c in cs]
                    chk.expect([values(c) for c in cs] == [values(c) for c in craters(names, kind)], f"{what}: writing changed the craters")
                    chk.expect(len(got) == len(rows) == len(cs), f"{what}: {len(rows)} rows, {len(got)} craters")
                    for w, g, r in zip(want, got, rows, strict=True):
                        v = (g.diameter, *g.location)
                        chk.expect(agree(w, plain(v), 1e-12), f"{what}: {w} became {v}")
                        chk.expect(agree((w[0] / 1e3, 1.0, *w[1:]), tuple(r[:4]), 1e-12), f"{what}: {w} was written as {r}")
                        chk.expect(agree(g.measured_diameter, g.diameter, 1e-12), f"{what}: measured {g.measured_diameter}, real {g.diameter}")
                    chk.state("scc", kind, names)
                    chk.trans(2)
                    chk.execd()
            chk.outcome("scc")

        yield first, case


def ring(chk, what, points, c, measured):
    pre = "measured_" if measured else ""
    a, b, phi, loc = (getattr(c, pre + n) for n in ("semimajor_axis", "semiminor_axis", "orientation", "location"))
    a, b = a / R, b / R
    tol = 5e-7 + 1e-6 * a
    seen = []
    for p in points:
        lon, lat, _ = lonlat(p)
        d, bearing = geodesic(*loc, lon, lat)
        t = math.radians(bearing - phi)
        r = a * b / math.sqrt((b * math.cos(t)) ** 2 + (a * math.sin(t)) ** 2)
        slack = (a - b) * tol / d * a / b if d > tol else 0
        chk.expect(abs(d - r) < tol + 3 * slack, lambda d=d, r=r: f"{what}: a rim point at distance {d * R:.6g} instead of {r * R:.6g} from the centre")
        seen.append(bearing % 360)
    seen.sort()
    gap = max(y - x for x, y in zip(seen, [*seen[1:], seen[0] + 360], strict=True))
    chk.expect(gap < 15 or a < 1e-4, f"{what}: a gap of {gap} degrees in the rim")


def vtk(chk):
    from vtk import vtkXMLPolyDataReader

    depth = 3 if chk.thorough else 2
    menu = [n for n in SCC if n != "small"]
    for first, group in groups(menu, depth):

        def case(group=group):
            k, s = sim().counting, sim().surface
            for names in group:
                cs = craters(names, "moon")
                for measured in (True, False):
                    for style in ("rings", "points", "spheres", "impacts"):
                        what = f"VTK {style} {'measured' if measured else 'original'} {list(names)}"
                        with quiet():
                            k.to_vtk_file(craters=cs, interval=4, crater_type="observed", crater_style=style, use_measured_properties=measured)
                            (f,) = k.export_dir.glob("*.vtp")
                            reader = vtkXMLPolyDataReader()
                            reader.SetFileName(str(f))
                            reader.Update()
                            data = reader.GetOutput()
                        f.unlink()
                        chk.expect([values(c) for c in cs] == [values(c) for c in craters(names, "moon")], f"{what}: writing changed the craters")
                        if style == "rings":
                            chk.expect(data.GetNumberOfLines() == len(cs), f"{what}: {data.GetNumberOfLines()} rims of {len(cs)} craters")
                            for i, c in enumerate(cs):
                                ps = data.GetCell(i).GetPoints()
                                ring(chk, f"{what} crater {i}", [ps.GetPoint(j) for j in range(ps.GetNumberOfPoints())], c, measured)
                        else:
                            chk.expect(data.GetNumberOfPoints() == len(cs), f"{what}: {data.GetNumberOfPoints()} points of {len(cs)} craters")
                            for i, c in enumerate(cs):
                                lon, lat, r = lonlat(data.GetPoint(i))
                                d, _ = geodesic(*c.location, lon, lat)
                                chk.expect(d < 1e-6, f"{what}: crater {i} drawn at {lon}, {lat} instead of {c.location}")
                                face = s.find_nearest_face(c.location)
                                up = {"points": s.face_size[face] / 2, "spheres": c.projectile_radius, "impacts": c.floor_diameter / 2}[style]
                                z = s.radius + s.face_elevation[face] + up
                                chk.expect(abs(r - z) < 1e-6 * s.radius, f"{what}: crater {i} drawn at radius {r} instead of {z}")
                        chk.state("vtk", style, measured, names)
                        chk.trans(2)
                        chk.execd()
            chk.outcome("vtk")

        yield first, case


CONTENTS = {"none": [], "a": ["plain"], "ab": ["plain", "round_ellipse"], "c": ["name"], "bac": ["round_ellipse", "all", "plain", "name"]}


def intervals(chk):
    """Histories of saved lists, read and exported for all, each and relative intervals."""
    for h in itertools.product([c for c in CONTENTS if chk.thorough or c != "c"], repeat=3):

        def case(h=h):
            k = sim().counting
            for f in [*k.output_dir.glob("*.nc"), *k.export_dir.glob("*")]:
                if f.is_file() and f.name.startswith(("observed", "emplaced")):
                    f.unlink()
            saved = {}
            for n, key in enumerate(h):
                names = CONTENTS[key]
                obs, emp = craters(names, "moon"), craters(names[::-1][:2], "moon")
                k.observed.clear()
                k.emplaced.clear()
                k.observed.update({int(c.id): c for c in obs})
                k.emplaced.extend(emp)
                with quiet():
                    k.save(interval=n, time_variables={"elapsed_time": float(n)})
                saved[n] = {"observed": [values(c) for c in obs], "emplaced": [values(c) for c in emp]}
            k.observed.clear()
            k.emplaced.clear()
            for asked in (None, 0, 1, 2, 7, -1) if chk.thorough else (None, 1, 7, -1):
                with quiet():
                    data = dict(zip(("observed", "emplaced"), k.read_saved_output(interval=asked), strict=True))
                for t, ds in data.items():
                    have = [n for n in saved if saved[n][t]]
                    chk.expect((ds is None) == (not have), f"{h}: reading {asked} gives {ds}")
                    if ds is None:
                        continue
                    for n in (0, 1, 2, 7):
                        with quiet():
                            got = k.Crater.from_xarray(ds, interval=n)
                        want = saved[n][t] if n in saved and (asked in (None, n) or (asked == -1 and n == have[-1])) else []
                        compare(chk, f"{h}: {t} of {n} out of {asked}", want, [values(c) for c in got])
                        chk.trans()
                for ds in data.values():  # (a file must not be rewritten while it is still being read lazily)
                    for d in ds.values() if type(ds) is dict else [ds] * (ds is not None):
                        d.close()
                ds = d = data = None
                for driver in ("CSV", "SCC", "VTK"):
                    ext = driver.lower().replace("vtk", "vtp")
                    with quiet():
                        k.export(interval=asked, driver=driver, ask_overwrite=False)
                    files = {f.name: f for f in k.export_dir.glob(f"*.{ext}")}
                    for t in ("observed", "emplaced"):
                        have = [n for n in saved if saved[n][t]]
                        mine = {int(f.stem[len(t) :].strip("_").removeprefix("craters")): f for name, f in files.items() if name.startswith(t)}
                        need = [n for n in have if asked in (None, n) or (asked == -1 and n == have[-1])]
                        what = f"{h}: {driver} export of {t} for {asked}"
                        chk.expect(set(need) <= set(mine), f"{what}: files for {sorted(mine)}, expected {need}")
                        bad = [n for n in mine if n not in saved and n != asked]
                        chk.expect(not bad or not have, f"{what}: files for {bad}, saved are {sorted(saved)}")
                        for n, f in mine.items():
                            want = saved[n][t] if n in need else []
                            if driver == "CSV":
                                with quiet():
                                    got = k.Crater.from_file(f)
                                compare(chk, f"{what}: {f.name}", want, [values(c) for c in got])
                            elif driver == "SCC":
                                with quiet():
                                    got = Crater.from_file(f)
                                a = sorted((c["measured_diameter"], *c["measured_location"]) for c in want)
                                b = sorted((c.diameter, *plain(c.location)) for c in got)
                                chk.expect(len(a) == len(b) and all(agree(x, y, 1e-12) for x, y in zip(a, b, strict=True)), f"{what}: {f.name} has {b}, expected {a}")
                            chk.trans()
                            f.unlink()
                chk.state(h, asked)
            chk.execd()
            chk.outcome("history")

        yield " ".join(h), case


def fraction(chk):
    """The counted fraction of craters across the border of a local region."""
    radius = 0.12 * R
    for size in (0.001, 0.01, 0.05):
        for bearing in (0, 45, 135, 180, 270):

            def case(size=size, bearing=bearing):
                if "hires" not in _made:
                    with quiet():
                        _made["hires"] = Simulation(
                            simdir=scratch("sim_"), ask_overwrite=False, save_actions=None, rng_seed=5, surface="hireslocal", pix=0.01 * R, local_radius=radius, local_location=(10.0, 20.0), superdomain_scale_factor=1000
                        )
                s = _made["hires"]
                k = s.counting
                cs = []
                for dist in (0.0, 0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 1.6):
                    with quiet():
                        p = s.surface.compute_location_from_distance_bearing(distance=radius * dist, bearing=bearing, reference_location=(10.0, 20.0))
                        p = tuple(float(np.squeeze(x)) for x in p) if isinstance(p, tuple) else tuple(map(float, np.squeeze(p)))
                        cs.append((dist, Crater.maker(diameter=2 * size * R, location=p, rng_seed=1)))
                with quiet():
                    k.to_scc_file(craters=[c for _, c in cs], interval=4, crater_type="observed", ask_overwrite=False)
                    (f,) = k.export_dir.glob("*.scc")
                rows = [[float(x) for x in r.split()] for r in f.read_text().split("crater = {")[1].split("}")[0].splitlines()[1:]]
                f.unlink()
                for (dist, c), row in zip(cs, rows, strict=True):
                    d, r, q = 0.12 * dist, size, 0.12
                    if d + r <= q:
                        want = 1.0
                    elif d - r >= q:
                        want = 0.0
                    else:
                        u = (d * d + r * r - q * q) / (2 * d * r)
                        v = (d * d + q * q - r * r) / (2 * d * q)
                        lens = r * r * math.acos(u) + q * q * math.acos(v) - 0.5 * math.sqrt((-d + r + q) * (d + r - q) * (d - r + q) * (d + r + q))
                        want = lens / (math.pi * r * r)
                    chk.expect(abs(row[1] - want) < 0.03 + (0.15 if size < 0.01 and want not in (0.0, 1.0) else 0.0), f"a crater of radius {r} at {d} in a region of {q}: fraction {row[1]}, expected {want}")
                    chk.trans()
                    chk.state(size, bearing, dist)
                chk.execd()
                chk.outcome("fraction")

            yield f"{size} {bearing}", case


def vector(chk):
    """Geospatial vector files."""
    for driver, ext in (("GPKG", "gpkg"), ("GeoJSON", "geojson"), ("ESRI Shapefile", "shp")):
        for names in (["plain"], ["plain", "name"]):

            def case(driver=driver, ext=ext, names=names):
                k = sim().counting
                if driver.upper() not in k.valid_drivers:
                    return
                cs = craters(names, "moon")
                with quiet():
                    k.to_vector_file(craters=cs, interval=4, crater_type="observed", driver=driver)
                files = list(k.export_dir.glob(f"*.{ext}"))
                for f in files:
                    f.unlink()
                chk.trans()
                chk.execd()
                chk.state(driver, tuple(names))
                chk.expect(files, f"no {driver} file is written")

            yield f"{driver} {' '.join(names)}", case


PARTS = [("vector", vector), ("formats", formats), ("scc", scc), ("vtk", vtk), ("intervals", intervals), ("fraction", fraction)]
