"""NumPy stand-ins for the Rust extension `cratermaker.bindings` (which cannot be compiled offline).

They transcribe the numerical kernels of crates/cratermaker-components (commit d53474e) so that the Python code of
the repository - the code under verification - can run. They are a *trusted assumption* of every check that uses
them and are recorded as such in the evidence. Keyword and positional calls both work; arguments are type-checked in
the way the PyO3 signatures would check them, so that calls the real extension would reject are rejected here too.
"""

import sys
import types

import numpy as np

PI, TAU = np.pi, 2.0 * np.pi
INT_MIN_OK = 0


def _f1(a, name):
    if not isinstance(a, np.ndarray) or a.dtype != np.float64 or a.ndim != 1:
        raise TypeError(f"argument '{name}': expected a 1-d float64 ndarray, got {type(a).__name__} {getattr(a, 'dtype', '')} {getattr(a, 'shape', '')}")
    return a


def _i2(a, name):
    if not isinstance(a, np.ndarray) or a.dtype != np.int64 or a.ndim != 2:
        raise TypeError(f"argument '{name}': expected a 2-d int64 ndarray")
    return a


def positive_mod(x, m):
    return np.fmod(np.fmod(x, m) + m, m)


def _distance(lon1, lat1, lon2, lat2, radius):
    dlon = positive_mod(lon2 - lon1 + PI, TAU) - PI
    dlat = lat2 - lat1
    a = np.sin(dlat / 2.0) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2.0) ** 2
    return radius * 2.0 * np.arcsin(np.sqrt(np.clip(a, 0.0, 1.0)))


def _bearing(lon1, lat1, lon2, lat2):
    dlon = positive_mod(lon2 - lon1 + PI, TAU) - PI
    x = np.sin(dlon) * np.cos(lat2)
    y = np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(dlon)
    return np.arctan2(x, y)


# ---------------------------------------------------------------- surface


def _edge_pairs(region):
    ef = _i2(region.edge_face_connectivity, "edge_face_connectivity")
    n = region.n_face
    ok = (ef[:, 0] >= 0) & (ef[:, 1] >= 0) & (ef[:, 0] < n) & (ef[:, 1] < n)
    return ok, ef[ok, 0], ef[ok, 1]


def _dt_max(face_kappa, region):
    ok, f1, f2 = _edge_pairs(region)
    d = region.edge_face_distance[ok]
    ln = region.edge_length[ok]
    good = d > 0
    f1, f2, d, ln = f1[good], f2[good], d[good], ln[good]
    k = 0.5 * (face_kappa[f1] + face_kappa[f2])
    pos = k > 0
    f1, f2, d, ln, k = f1[pos], f2[pos], d[pos], ln[pos], k[pos]
    inv = np.zeros(region.n_face)
    area = region.face_area
    np.add.at(inv, f1, 2.0 * k * ln / (d * area[f1]))
    np.add.at(inv, f2, 2.0 * k * ln / (d * area[f2]))
    inv = inv[inv > 0]
    return 1.0 / inv.max() if inv.size else np.inf


def apply_diffusion(face_kappa, face_variable, region):
    _f1(face_kappa, "face_kappa"), _f1(face_variable, "face_variable")
    n = region.n_face
    delta = np.zeros(n)
    dt_max = _dt_max(face_kappa, region)
    if not np.isfinite(dt_max) or dt_max <= 0:
        return delta
    nloops = int(np.ceil(1.0 / dt_max))
    fac = 1.0 / nloops / 2.0
    ok, f1, f2 = _edge_pairs(region)
    w = region.edge_length[ok] / region.edge_face_distance[ok] * (face_kappa[f1] + face_kappa[f2])
    area = region.face_area
    for _ in range(nloops):
        h = face_variable + delta
        flux = w * (h[f2] - h[f1])
        dh = np.bincount(f1, flux, n) - np.bincount(f2, flux, n)
        delta += fac * dh / area
    return delta


def _gradients(variable, region):
    n = region.n_face
    ok, f1, f2 = _edge_pairs(region)
    d = region.edge_face_distance[ok]
    ln = region.edge_length[ok]
    good = (d > 0) & (ln > 0)
    f1, f2, d, ln = f1[good], f2[good], d[good], ln[good]
    a = np.concatenate([f1, f2])
    b = np.concatenate([f2, f1])
    d2, l2 = np.concatenate([d, d]), np.concatenate([ln, ln])
    lon, lat = np.deg2rad(region.face_lon), np.deg2rad(region.face_lat)
    th = _bearing(lon[a], lat[a], lon[b], lat[b])
    flux = (variable[b] - variable[a]) * l2 / d2
    gz = np.bincount(a, flux * np.sin(th), n)
    gm = np.bincount(a, flux * np.cos(th), n)
    ws = np.bincount(a, l2, n)
    cnt = np.bincount(a, minlength=n)
    m = (cnt >= 2) & (ws > 0)
    gz = np.where(m, gz / np.where(ws > 0, ws, 1), 0.0)
    gm = np.where(m, gm / np.where(ws > 0, ws, 1), 0.0)
    return gz, gm


def compute_radial_gradient(variable, region):
    _f1(variable, "variable")
    b = np.deg2rad(region.face_bearing)
    gz, gm = _gradients(variable, region)
    return gm * np.cos(b) + gz * np.sin(b)


def compute_slope(region):
    gz, gm = _gradients(np.asarray(region.face_elevation), region)
    return np.hypot(gz, gm)


def slope_collapse(critical_slope, region):
    n = region.n_face
    crit = float(critical_slope) ** 2
    diffmax = _dt_max(np.ones(n), region)
    base = np.array(region.face_elevation)
    delta = np.zeros(n)
    for _ in range(1000):
        h = base + delta
        gz, gm = _gradients(h, region)
        s2 = gz**2 + gm**2
        kappa = np.where(s2 > crit, diffmax * (1.0 + s2 / crit) * 10.0, 0.0)
        if not (kappa > 0).any():
            break
        delta += apply_diffusion(kappa, h, region)
    return delta


def interpolate_node_elevation_from_faces(region):
    nf = _i2(region.node_face_connectivity, "node_face_connectivity")
    ok = nf >= 0
    idx = np.where(ok, nf, 0)
    a = np.where(ok, region.face_area[idx], 0.0)
    s = a.sum(axis=1)
    w = (a * np.where(ok, region.face_elevation[idx], 0.0)).sum(axis=1)
    out = np.zeros(region.n_node)
    out[: len(s)] = np.where(s > 0, w / np.where(s > 0, s, 1.0), 0.0)
    return out


def turbulence_noise(x, y, z, noise_height, noise_width, freq, pers, anchor, seed):
    for a, n in ((x, "x"), (y, "y"), (z, "z")):
        _f1(a, n)
    r = np.zeros(len(x))
    norm = 0.5
    ph = (int(seed) % 1000) * 0.00628
    for i in range(anchor.shape[0]):
        s = freq**i / noise_width
        mag = pers**i
        norm += 0.5 * mag
        ax, ay, az = anchor[i]
        r += mag * np.sin(s * x + ax + ph) * np.sin(s * y + ay + ph) * np.sin(s * z + az + ph)
    return r * noise_height / norm


def compute_edge_distances(edge_connectivity, lon, lat, radius):
    _i2(edge_connectivity, "edge_connectivity"), _f1(lon, "lon"), _f1(lat, "lat")
    o1, o2 = edge_connectivity[:, 0], edge_connectivity[:, 1]
    ok = (o1 >= 0) & (o2 >= 0)
    i1, i2 = np.where(ok, o1, 0), np.where(ok, o2, 0)
    return np.where(ok, _distance(lon[i1], lat[i1], lon[i2], lat[i2], float(radius)), 0.0)


def compute_distances(lon1, lat1, lon2, lat2, radius):
    _f1(lon2, "lon2"), _f1(lat2, "lat2")
    return _distance(float(lon1), float(lat1), lon2, lat2, float(radius))


def compute_bearings(lon1, lat1, lon2, lat2):
    _f1(lon2, "lon2"), _f1(lat2, "lat2")
    return positive_mod(_bearing(float(lon1), float(lat1), lon2, lat2), TAU)


def compute_location_from_distance_bearing(lon1, lat1, distances, bearings, radius):
    _f1(distances, "distances"), _f1(bearings, "bearings")
    d = distances / float(radius)
    s = np.sin(lat1) * np.cos(d) + np.cos(lat1) * np.sin(d) * np.cos(bearings)
    lat2 = np.arcsin(np.clip(s, -1, 1))
    lon2 = lon1 + np.arctan2(np.sin(bearings) * np.sin(d) * np.cos(lat1), np.cos(d) - np.sin(lat1) * np.sin(lat2))
    return np.column_stack([positive_mod(lon2 + PI, TAU) - PI, positive_mod(lat2 + PI, TAU) - PI])


# ---------------------------------------------------------------- morphology


def crater_profile(radial_distances, reference_elevations, diameter, floor_depth, floor_diameter, rim_height, ejrim):
    r, ref = _f1(radial_distances, "radial_distances"), _f1(reference_elevations, "reference_elevations")
    assert len(r) == len(ref)
    A, B = 4.0 / 11.0, -32.0 / 187.0
    fl = floor_diameter / diameter
    radius = diameter / 2.0
    c1 = (floor_depth - rim_height) / (fl - 1.0 + A * (fl**2 - 1.0) + B * (fl**3 - 1.0))
    c0 = rim_height - c1 * (1.0 + A + B)
    inc = r <= radius
    meanref = ref[inc].mean() if inc.any() else ref[np.argmin(r)]
    x = r / radius
    xs = np.where(x > 0, x, 1.0)
    out = np.where(
        x >= 1.0, ref + (rim_height - ejrim) * np.maximum(xs, 1.0) ** -4.2, ref + c0 + c1 * x + A * c1 * x**2 + B * c1 * x**3
    )
    return np.where(inc, np.maximum(out, meanref + floor_depth), out)


def ejecta_profile(radial_distance, crater_diameter, ejrim):
    r = _f1(radial_distance, "radial_distance")
    R = crater_diameter / 2.0
    return np.where(r >= R, ejrim * (np.maximum(r, R) / R) ** -3.0, 0.0)


def ray_intensity(radial_distance, initial_bearing, crater_diameter, seed):
    """Deterministic, seed dependent, zero inside the crater, maximum 1 outside - not the real ray pattern."""
    r, b = _f1(radial_distance, "radial_distance"), _f1(initial_bearing, "initial_bearing")
    seed = int(seed)
    if not 0 <= seed < 2**64:
        raise OverflowError("can't convert to u64")
    if len(r) != len(b):
        raise ValueError("radial_distances and reference_elevations must have same length")
    R = crater_diameter / 2.0
    ph = (seed % 997) * 0.01
    v = np.where(r >= R, (0.05 + np.cos(2.5 * b + ph) ** 8) / np.maximum(r / R, 1.0) ** 0.5, 0.0)
    v = np.where(r > 100.0 * R, 0.0, v)
    mx = v[r >= R].max() if (r >= R).any() else 1.0
    return np.where(r >= R, v / mx if mx != 0 else v * np.nan, v)


# ---------------------------------------------------------------- counting


def measure_rim_height(region, crater):
    d = np.asarray(region.face_distance)
    R = crater.measured_radius
    m = (d > 0.9 * R) & (d < 1.2 * R)
    e = np.asarray(region.face_elevation)
    return float(e[m].mean()) if m.any() else -sys.float_info.max


def measure_floor_depth(region, crater):
    d = np.asarray(region.face_distance)
    m = d < 0.3 * crater.measured_radius
    e = np.asarray(region.face_elevation)
    return float(e[m].mean()) if m.any() else sys.float_info.max


class FitHook:
    """Answer of the rim-fitting kernel; checks replace it to enumerate its answers."""

    answer = None


def fit_rim(surface, crater, tol, nloops, score_quantile, fit_center, fit_ellipse):
    if FitHook.answer is not None:
        return FitHook.answer(surface, crater, tol, nloops, score_quantile, fit_center, fit_ellipse)
    return (
        crater.measured_location,
        crater.measured_semimajor_axis,
        crater.measured_semiminor_axis,
        np.deg2rad(crater.measured_orientation or 0.0),
    )


def score_rim(region, crater, quantile, gradmult, curvmult, heightmult):
    region.add_data("rimscore", np.ones(region.n_face), "Rim Score", "dimensionless", True, True, np.nan)
    return region


def _absent(name):
    def f(*a, **k):
        raise RuntimeError(f"stand-in for {name} not implemented")

    f.__name__ = name
    return f


def install():
    if "cratermaker" in sys.modules and "cratermaker.bindings" not in sys.modules:
        raise RuntimeError("install() must run before cratermaker is imported")
    pkg = types.ModuleType("cratermaker.bindings")
    pkg.__path__ = []
    groups = {
        "surface_bindings": [
            apply_diffusion, compute_radial_gradient, compute_slope, slope_collapse,
            interpolate_node_elevation_from_faces, turbulence_noise, compute_edge_distances, compute_distances,
            compute_bearings, compute_location_from_distance_bearing,
        ],
        "morphology_bindings": [crater_profile, ejecta_profile, ray_intensity],
        "counting_bindings": [
            measure_rim_height, measure_floor_depth, fit_rim, score_rim,
            _absent("fit_one_ellipse"), _absent("fit_one_ellipse_fixed_center"),
        ],
    }
    sys.modules[pkg.__name__] = pkg
    for g, fs in groups.items():
        m = types.ModuleType(f"cratermaker.bindings.{g}")
        for f in fs:
            setattr(m, f.__name__, f)
        setattr(pkg, g, m)
        sys.modules[m.__name__] = m
    return pkg
