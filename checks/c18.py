"""Tag and untag histories on overlapping regions against a multiset of identifiers per face."""

import itertools
import warnings

import numpy as np
from cratermaker import Surface

from mc.core import quiet
from mc.world import scratch

BOUNDS = {
    "quick": "every sequence of 3 operations out of 22 (3 identifiers, 4 overlapping regions and the surface) and of 1 or 2 operations after each of 46 crowded starts (up to 9 identifiers on a face, in every layer pattern of the alphabet); every sequence of 2 on the high resolution mesh, with and without its coarse part; the order of layers never matters",
    "thorough": "sequences of 5 operations, of 2 or 3 after each crowded start and of 3 on the high resolution mesh",
}
NOTE = "Oracle: a multiset of identifiers per face, and its 8 places; states are the layer arrays themselves."
R = 1737400.0
LAYERS = 8
_w = {}


class World:
    def __init__(self, kind):
        with quiet():
            if kind == "ico":
                s = Surface.maker("icosphere", gridlevel=1, simdir=scratch("tag_"), ask_overwrite=False, reset=True, rng_seed=1)
                at = {"A": ((0, 0), 0.45), "B": ((30, 5), 0.45), "C": ((10, 0), 1.2), "D": ((180, -30), 0.4)}
            else:
                s = Surface.maker("hireslocal", pix=0.12 * R, local_radius=0.4 * R, local_location=(10.0, 20.0), superdomain_scale_factor=10, simdir=scratch("tag_"), ask_overwrite=False, reset=True, rng_seed=1)
                at = {"A": ((10, 20), 0.2), "B": ((35, 25), 0.4), "C": ((20, 20), 1.5), "D": ((180, -30), 0.6)}
        self.s, self.kind = s, kind
        self.reg = {k: s.extract_region(c, r * s.radius) for k, (c, r) in at.items()}
        self.reg["S"] = s
        f = np.arange(s.n_face)
        self.idx = {k: f[v.face_indices].tolist() for k, v in self.reg.items()}
        s.add_tag("crater_id", tag=None, long_name="ids")
        self.blank = s.uxds["crater_id"].values.copy()
        self.rest = {k: v.values.copy() for k, v in s.uxds.data_vars.items() if k != "crater_id"}
        self.local = None if kind == "ico" else set(np.asarray(s.local.face_indices).tolist())

    @property
    def arr(self):
        return self.s.uxds["crater_id"].values

    def put(self, a):
        for k in [k for k in self.s.uxds.data_vars if k not in self.rest and k != "crater_id"]:
            del self.s._uxds[k]
        self.s.uxds["crater_id"].data[...] = a


def world(kind):
    if kind not in _w:
        _w[kind] = World(kind)
    return _w[kind]


def model(a):
    """multiset of identifiers of each face"""
    return [tuple(sorted(int(x) for x in r if x)) for r in a]


TAGS = (1, 7, 2**32 - 1)


def alphabet(kind):
    regs = "ABCD" if kind == "ico" else "ABC"
    ops = [("add", t, r) for t in TAGS for r in regs] + [("add", 7, "S")]
    ops += [("del", t, r) for t in TAGS[1:] for r in "AC"] + [("del", t, "S") for t in TAGS[:2]]
    ops += [("zero", None, "S"), ("other", 7, "A"), ("sort", None, "C")]
    if kind != "ico":
        ops += [("addall", t, r) for t in TAGS[:2] for r in "ABCD"] + [("add", 1, "D")]
    return ops


def step(chk, W, op, what):
    """apply one operation to the real surface and check it against the model"""
    kind, t, r = op
    a0 = W.arr.copy()
    before = model(a0)
    reg, faces = W.reg[r], W.idx[r]
    if W.kind != "ico" and kind == "add" and r != "S":
        faces = [f for f in faces if f in W.local]
    full = False
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if kind == "add":
            reg.add_tag("crater_id", tag=t)
        elif kind == "addall":
            reg.add_tag("crater_id", tag=t, tag_superdomain=True)
        elif kind == "del":
            reg.remove_tag("crater_id", t)
        elif kind == "zero":
            reg.add_tag("crater_id", tag=None, long_name="ids")
        elif kind == "other":
            reg.add_tag("other_id", tag=t)
        elif kind == "sort":
            reg.sort_tags("crater_id")
    warned = any("full" in str(w.message) for w in ws)
    chk.execd(), chk.trans()
    after = model(W.arr)
    chk.expect(W.arr.dtype == np.uint32 and W.arr.shape == W.blank.shape, lambda: f"{what}: layers became {W.arr.dtype} {W.arr.shape}")
    want = list(before)
    if kind in ("add", "addall"):
        full = any(len(before[f]) == LAYERS for f in faces)
        chk.expect(warned == full, lambda: f"{what}: {'no ' if full else ''}warning that all layers are full")
        for f in faces:
            want[f] = tuple(sorted(before[f] + (t,)))
    elif kind == "del":
        for f in faces:
            want[f] = tuple(x for x in before[f] if x != t)
    elif kind == "zero":
        want = [()] * len(before)
    chk.outcome(kind + (" full" if full else ""))
    inside = set(faces)
    for f, (x, y) in enumerate(zip(want, after)):
        if full and f in inside:
            # one place of every face of the region is given up, announced by the warning
            chk.expect(t in y and len(y) == min(len(x), LAYERS) or (t in y and len(x) - len(y) == 1), lambda: f"{what}: face {f} carries {y}, before {before[f]}")
            chk.expect(all(y.count(v) <= x.count(v) for v in y), lambda: f"{what}: face {f} carries {y}, before {before[f]}")
        else:
            chk.expect(x == y, lambda: f"{what}: face {f} carries {y}, should carry {x}")
    if kind == "other":
        o = W.s.uxds["other_id"].values
        if W.kind != "ico":
            inside &= W.local
        chk.expect(all((sorted(set(o[f].tolist())) == [0, t]) == (f in inside) for f in range(W.s.n_face)), lambda: f"{what}: other identifiers on the wrong faces")
    for tag in {t for x in want for t in x} | {t}:
        if tag and not full:
            chk.expect(int(np.any(W.arr == tag, axis=1).sum()) == sum(tag in x for x in want), lambda: f"{what}: count of faces of {tag}")
    for k, v in W.rest.items():
        chk.expect(np.array_equal(W.s.uxds[k].values, v), lambda: f"{what}: {k} changed")
    return W.arr


def explore(chk, W, start, depth, what):
    """every sequence of the alphabet from a start, merging equal layer arrays"""
    ops = alphabet(W.kind)
    seen = {start.tobytes()}
    layer = [(start, ())]
    for d in range(depth):
        nxt = []
        for a, hist in layer:
            for op in ops:
                W.put(a)
                b = step(chk, W, op, f"{what} then {hist + (op,)}").copy()
                if b.tobytes() not in seen:
                    seen.add(b.tobytes())
                    chk.state(W.kind, b)
                    nxt.append((b, hist + (op,)))
        layer = nxt
    W.put(W.blank)


def part_sequences(chk):
    """every sequence of operations from an untagged surface"""
    depth = 5 if chk.thorough else 3
    for first in alphabet("ico"):

        def f(first=first):
            W = world("ico")
            W.put(W.blank)
            a = step(chk, W, first, f"{first}").copy()
            chk.state("ico", a)
            explore(chk, W, a, depth - 1, f"{first}")

        yield f"{first}", f


def crowds():
    """starts with many identifiers, as (region, identifier) lists with removals that leave gaps"""
    for n in (5, 7, 8, 9):
        yield f"{n} on C", [("add", 100 + i, "C") for i in range(n)]
        yield f"{n} on C falling", [("add", 200 - i, "C") for i in range(n)]
        yield f"{n} on A and B in turn", [("add", 100 + i, "AB"[i % 2]) for i in range(n)]
    for gaps in itertools.combinations(range(8), 2):
        yield f"8 on C less {gaps}", [("add", 100 + i, "C") for i in range(8)] + [("del", 100 + i, "A") for i in gaps]
    for i, j in ((0, 7), (3, 3), (7, 1)):
        yield f"8 on C, holes {i} {j}", [("add", 100 + k, "C") for k in range(8)] + [("del", 100 + i, "A"), ("del", 100 + j, "B")]
    yield "same twice", [("add", 100 + i // 2, "A") for i in range(6)]
    yield "staggered", [("add", 100 + i, "ACBD"[i % 4]) for i in range(14)]
    yield "surface and regions", [("add", 100 + i, "SA"[i % 2]) for i in range(9)]


def part_crowded(chk):
    """the same from crowded faces: full layers, gaps left by removals"""
    for name, prefix in crowds():
        depth = (2 if "less" in name else 3) if chk.thorough else (2 if name in ("7 on C", "staggered", "8 on C, holes 0 7") else 1)

        def f(name=name, prefix=prefix):
            W = world("ico")
            W.put(W.blank)
            for op in prefix:
                step(chk, W, op, f"{name}: {op}")
            a = W.arr.copy()
            chk.state("ico", a)
            explore(chk, W, a, depth, name)

        yield name, f


def part_hires(chk):
    """the same on a mesh with a high resolution part, where only that part is tagged unless asked otherwise"""
    depth = 3 if chk.thorough else 2
    for first in alphabet("hires"):

        def f(first=first):
            W = world("hires")
            W.put(W.blank)
            a = step(chk, W, first, f"{first}").copy()
            chk.state("hires", a)
            explore(chk, W, a, depth - 1, f"{first}")

        yield f"{first}", f


PARTS = [("sequences", part_sequences), ("crowded", part_crowded), ("hires", part_hires)]
