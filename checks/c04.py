"""Crashes while saving: the process is ended, or a write fails, at every single file operation of every kind of save."""

import ctypes
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import dask
from cratermaker import Simulation

from checks import c03
from mc.core import quiet
from mc.world import scratch

dask.config.set(scheduler="synchronous")
HERE = Path(__file__).resolve().parent.parent
SRC = HERE / "mc" / "crashfs.c"
KILL, TORN, FAIL, FAIL_FROM = 2, 3, 4, 5
NAMES = {KILL: "ended before", TORN: "ended in the middle of", FAIL: "failing", FAIL_FROM: "failing from"}
BOUNDS = {
    "quick": "16 kinds of operation that save (first save, save again at the same and after a new state, runs of new intervals, configuration, creation, opening again, exports), interrupted at every single operation on a file below the directory (open, write, truncate, rename, unlink, mkdir, sync; of a series of writes to one temporary file, which no reader looks at, four): ended before it, ended in the middle of it (writes), failing with a full disk, once and (operations other than writes) from there on",
    "thorough": "the same with 24 kinds of operation; for 8 of them every write, also failing from there on",
}
NOTE = "Oracle: the directory before and after the same operation without interruption, file by file and as reopened. The C library calls of the real process are intercepted (mc/crashfs.c, compiled on each run); each change of a file is seen by it, which is verified against the changed files."
TECHNIQUE = "exhaustive crash-point and write-failure injection into the real code (intercepted system calls), every crash state reopened"



def nothing(d, **kw):
    return None


def fresh(kind):
    return lambda d: c03.build(d, kind)


def after(kind, *ops):
    def f(d):
        s = c03.build(d, kind)
        for op in ops:
            c03.step(s, op)
        return s

    return f


def opened(kind, *ops):
    def f(d):
        after(kind, *ops)(d)
        return c03.reopen(d)

    return f


def save(s, d):
    with quiet():
        s.save()


def big(f=0.9, where=(10.0, 20.0)):
    return ("emplace", f, where)


def run_to(end, start=4000.0, n=1):
    def f(s, d):
        with quiet():
            s.run(time_start=start, time_end=end, ninterval=n)

    return f


def make(kind):
    return lambda s, d: c03.build(d, kind)


def reopen(s, d):
    c03.reopen(d)


def setting(s, d):
    with quiet():
        s.scaling.K1 = 0.31
        s.production.diameter_range = (5e5, 2e6)
        s.to_config()


def export_counting(driver):
    def f(s, d):
        with quiet():
            s.counting.export(driver=driver)

    return f


# name -> (set-up, operation, whether the state as a whole must be the old or the new one)
SCEN = {
    "first save": (fresh("plain"), save, False),
    "save after a crater": (after("plain", ("save",), big()), save, False),
    "save after more craters": (after("plain", big(), ("save",), big(0.7, (200.0, -40.0)), big(0.8, (50.0, 60.0))), save, False),
    "save of nothing new": (after("plain", big(), ("save",)), save, False),
    "save of an opened one": (opened("plain", big(), ("save",)), save, False),
    "save of rays": (after("rays", big(), ("save",), big(0.5, (100.0, 0.0))), save, False),
    "run of the first interval": (fresh("plain"), run_to(4200.0, 4300.0), True),
    "run of a further interval": (after("plain", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4100.0, 4200.0), True),
    "run of two further intervals": (after("plain", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4000.0, 4200.0, 2), True),
    "run of an opened one": (opened("plain", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4100.0, 4200.0), True),
    "creation": (nothing, make("plain"), False),
    "creation of an arbitrary grid": (nothing, make("arbitrary"), False),
    "opening again": (lambda d: after("plain", big(), ("save",))(d) and None, reopen, True),
    "change of settings": (after("plain", big(), ("save",)), setting, False),
    "export to CSV": (after("plain", big(), ("save",)), export_counting("CSV"), True),
    "export to SCC": (after("counted", big(0.1), ("save",)), export_counting("SCC"), True),
    # deeper
    "creation of a local grid": (nothing, make("hires"), False),
    "save of a local grid": (after("hires", big(0.1, (12.0, -34.0)), ("save",), big(0.12, (11.0, -33.0))), save, False),
    "run with quasi-Monte Carlo": (after("real", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4100.0, 4200.0), True),
    "run by projectiles": (after("powerp", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4100.0, 4200.0), True),
    "run without counting": (after("nocount", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4100.0, 4200.0), True),
    "run of a finer grid": (after("fine", ("run", {"time_start": 4300.0, "time_end": 4200.0})), run_to(4100.0, 4200.0), True),
    "save of a finer grid": (after("counted", big(0.1), big(0.2, (50.0, 5.0)), ("save",), big(0.15, (80.0, 40.0))), save, False),
    "run in a directory with other outputs": (after("plain", ("run", {"time_start": 4300.0, "time_end": 4200.0}), ("emplace", 0.6, (1.0, 1.0)), ("save",)), run_to(4100.0, 4200.0), True),
}
QUICK = list(SCEN)[:16]
DEEP = QUICK[:6] + QUICK[10:12]


def tmp(n):
    return Path(n).name.startswith(".")


def content(d):
    """Every file that a reader may look at, by value."""
    out = {}
    for n, v in c03.files(d).items():
        if not tmp(n):
            out[n] = v
    return out


def raw(d):
    return {str(f.relative_to(d)): f.read_bytes() for f in sorted(Path(d).rglob("*")) if f.is_file() and not tmp(f)} if Path(d).exists() else {}


def statehash(d):
    """Of a file under a temporary name, only whether it is empty: its bytes can only matter to a reader that takes it for a valid one, and such a reader is found with the first of them."""
    h = hashlib.sha1()
    for f in sorted(Path(d).rglob("*")) if Path(d).exists() else []:
        h.update(str(f.relative_to(d)).encode() + b"\0" + ((str(f.stat().st_size > 0).encode() if tmp(f) else f.read_bytes()) if f.is_file() else b""))
    return h.hexdigest()


class World:
    def __init__(self, name, lib, base):
        self.name, self.lib = name, lib
        self.setup, self.op, self.whole = SCEN[name]
        self.base = Path(base)
        self.d = self.base / "sim"
        self.old, self.now = self.base / "old", self.base / "now"
        self.sim = self.setup(self.d)
        if self.sim is None and not self.d.exists():
            self.op(None, self.base / "warm")  # compiled once, before forking
            shutil.rmtree(self.base / "warm")
        if not self.d.exists():
            self.d.mkdir()
        self.hollow = not any(self.d.iterdir())
        shutil.copytree(self.d, self.old)
        self.lib.crashfs_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p]
        self.lib.crashfs_count.restype = ctypes.c_long

    def restore(self):
        shutil.rmtree(self.d)
        shutil.copytree(self.old, self.d)

    def child(self, mode, n):
        """Runs the operation in a forked process: how it ended."""
        self.restore()
        sys.stdout.flush(), sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 99
            try:
                self.lib.crashfs_arm(mode, n, str(self.d).encode(), str(self.base / "log").encode() if mode == 1 else None)
                try:
                    self.op(self.sim, self.d)
                    rc = 0
                except BaseException as e:
                    self.lib.crashfs_arm(0, 0, None, None)
                    (self.base / "error").write_text(f"{type(e).__name__}: {e}"[:300])
                    rc = 10
                self.lib.crashfs_arm(0, 0, None, None)
            finally:
                os._exit(rc)
        t0 = time.time()
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.waitstatus_to_exitcode(status)
            if time.time() - t0 > 60:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return "hangs"
            time.sleep(0.002)

    def opened(self, d):
        """Opens a copy of the directory: (fingerprint, simulation)."""
        t = self.base / "open"
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        s = c03.reopen(t)
        with quiet():
            s.surface.read_saved_output()
            s.counting.read_saved_output()
        return c03.fingerprint(s), s, t

    def between(self):
        """The completed saves of the operation itself, in order."""
        self.mids = []
        if self.hollow:
            return
        self.restore()
        real = Simulation.save

        def save(sim, *a, **k):
            r = real(sim, *a, **k)
            t = self.base / f"mid{len(self.mids)}"
            shutil.copytree(self.d, t)
            self.mids.append(t)
            return r

        pid = os.fork()
        if pid == 0:
            Simulation.save = save
            try:
                self.op(self.sim, self.d)
            finally:
                os._exit(len(self.mids))
        n = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        self.mids = [self.base / f"mid{i}" for i in range(n)]

    def learn(self):
        self.between()
        rc = self.child(1, 0)
        if rc != 0:
            raise RuntimeError(f"{self.name}: the operation itself ends with {rc} {(self.base / 'error').read_text() if (self.base / 'error').exists() else ''}")
        shutil.copytree(self.d, self.now)
        self.log = (self.base / "log").read_text().splitlines()
        self.fold = None if self.hollow else self.opened(self.old)[0]
        self.fnew = self.opened(self.now)[0]
        self.cold, self.cnew = content(self.old), content(self.now)
        self.rold, self.rnew = raw(self.old), raw(self.now)
        self.also = [content(m) for m in self.mids]
        self.falso = [self.opened(m)[0] for m in self.mids]
        # the interception sees whatever changes
        changed = {n for n in self.rold.keys() | self.rnew.keys() if self.rold.get(n) != self.rnew.get(n)}
        seen = " ".join(self.log)
        for n in changed:
            if Path(n).name not in seen:
                raise RuntimeError(f"{self.name}: {n} changes without any operation that is intercepted")
        return len(self.log), changed

    def points(self, deep):
        """The operations to interrupt. Of a series of writes to the same temporary file, which nothing reads, the first two, the middle and the last one unless all are asked for."""
        out, i = [], 0
        while i < len(self.log):
            j = i
            while j < len(self.log) and self.log[j] == self.log[i] and self.log[i].startswith("write") and tmp(self.log[i].split(" ", 1)[1]):
                j += 1
            j = max(j, i + 1)
            out += range(i, j) if deep else sorted({i, min(i + 1, j - 1), (i + j) // 2, j - 1})
            i = j
        return [k + 1 for k in out]

    def judge(self, d, done, out):
        """One state of the directory after an interruption."""
        r = raw(d)
        for n in sorted(self.rold.keys() | set(r)):
            if n in self.rold and n not in r:
                if n in self.rnew:
                    out(f"{n} is gone")
                elif done:
                    continue
                continue
            if r[n] == self.rold.get(n) and not (done and n in self.rnew) or r[n] == self.rnew.get(n):
                continue
            if n.startswith("export") or "/export/" in n or n.endswith((".png", ".csv", ".scc", ".vtp", ".vtk", ".vtu")):
                continue  # an export, which is made again from what is saved
            try:
                v = content_of(d, n)
            except Exception as e:
                out(f"{n} cannot be read any more: {type(e).__name__} {str(e)[:80]}")
                continue
            first = self.name == "run of the first interval" and n == "cratermaker.yaml"  # nothing was saved before
            if self.hollow or first or not done and any(c03.close(v, m[n]) for m in self.also if n in m):
                continue
            if n not in self.cold and n not in self.cnew:
                out(f"{n} appears, which is neither in the old nor in the new state")
            elif not (n in self.cold and not done and c03.close(v, self.cold[n]) or n in self.cnew and c03.close(v, self.cnew[n])):
                df = c03.diff(self.cnew.get(n, {}), v) if isinstance(v, dict) else ""
                out(f"{n} is neither what it was nor what it should become: {df[:200]}")
        if done:
            for n in self.rnew:
                if n not in r and not n.startswith("export"):
                    out(f"{n} is missing though no error was reported")
        if self.hollow:  # nothing was there before: what counts is that the same can be made again
            t = self.base / "open"
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
            try:
                self.op(None, t)
                df = c03.diff(self.fnew, c03.fingerprint(c03.reopen(t)))
                if df:
                    out(f"made again, it is another: {df}")
            except BaseException as e:
                out(f"cannot be made again: {type(e).__name__} {str(e)[:150]}")
            return
        try:
            f, s, t = self.opened(d)
        except BaseException as e:
            out(f"cannot be opened any more: {type(e).__name__} {str(e)[:150]}")
            return
        do, dn = c03.diff(self.fold, f), c03.diff(self.fnew, f)
        first = self.name == "run of the first interval"  # nothing was saved before, so there is no state to return to
        if self.whole and not first and do and dn and all(c03.diff(m, f) for m in self.falso):
            out(f"opened again, it is neither in the old state ({do[:150]}) nor in the new one ({dn[:150]})")
        if done and dn:
            out(f"no error was reported, but opened again it is not in the new state: {dn[:200]}")
        if not self.name.startswith("run"):
            # and it can be used
            try:
                with quiet():
                    s.emplace(diameter=0.5 * s.surface.radius, location=(30.0, 40.0))
                    s.save()
                c03.reopen(t)
            except BaseException as e:
                out(f"opened again, it cannot be used: {type(e).__name__} {str(e)[:150]}")
        else:
            # and it can be continued to the same end
            try:
                self.op(s, t)
                df = c03.diff(self.fnew, c03.fingerprint(c03.reopen(t)))
                if df:
                    out(f"continued, it ends in another state: {df[:200]}")
                got = content(t)
                df = "" if c03.close(self.cnew, got) else c03.diff({f"{x}/{y}": z for x in self.cnew if isinstance(self.cnew[x], dict) for y, z in self.cnew[x].items()}, {f"{x}/{y}": z for x in got if isinstance(got[x], dict) for y, z in got[x].items()}) or str(sorted(set(got) ^ set(self.cnew)))
                if df:
                    out(f"continued, the files differ: {df[:200]}")
            except BaseException as e:
                out(f"cannot be continued: {type(e).__name__} {str(e)[:150]}")


def content_of(d, n):
    t = Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        (t / n).parent.mkdir(parents=True, exist_ok=True)
        shutil.copy(Path(d) / n, t / n)
        return c03.files(t)[n]
    finally:
        shutil.rmtree(t)


def worker(name, lib, base, part, parts, deep=False):
    """All interruptions whose number is part modulo parts; prints the findings."""
    import tqdm

    tqdm.tqdm.monitor_interval = 0  # no thread that would be lost in a fork
    w = World(name, ctypes.CDLL(lib), base)
    n, changed = w.learn()
    res = {"points": n, "execs": 0, "states": [], "bad": [], "changed": sorted(changed), "ends": {}}
    judged = set()
    for i, k in enumerate(w.points(deep)):
        if i % parts != part:
            continue
        what = w.log[k - 1]
        for mode in (KILL, TORN, FAIL, FAIL_FROM):
            if mode == TORN and not what.startswith("write") or mode == FAIL_FROM and what.startswith("write") and not deep:
                continue
            msgs = []
            failing = mode in (FAIL, FAIL_FROM)
            rc = w.child(mode, k)
            res["execs"] += 1
            died = isinstance(rc, int) and rc < 0  # the HDF5 library does not survive some failing writes
            kind = f"{NAMES[mode]} {what.split()[0]}"
            end = "ended" if rc == 77 else "died" if died else "error reported" if rc == 10 else "no error" if rc == 0 else str(rc)
            res["ends"][f"{kind}: {end}"] = res["ends"].get(f"{kind}: {end}", 0) + 1
            if not failing and rc != 77 or failing and rc not in (0, 10) and not died:
                msgs.append(f"ends with {rc}")
            for d, done in [(w.d, failing and rc == 0)]:
                h = (statehash(d), done)
                if h in judged:
                    continue
                judged.add(h)
                res["states"].append(h[0])
                w.judge(d, done, msgs.append)
            for m in msgs:
                res["bad"].append([f"{NAMES[mode]} operation {k} of {n} ({what.replace(str(w.d), '')})", m])
    print("RESULT" + json.dumps(res))


CODE = """import sys
sys.path.insert(0, {here!r})
from mc import core; core.bootstrap()
import warnings; warnings.simplefilter("ignore")
from checks import c04
c04.worker({name!r}, {lib!r}, {base!r}, {part}, {parts}, {deep})
"""


def part_crashes(chk):
    """ended or out of room at any file operation: everything saved is still there, old or new, and can be opened"""
    SLOW = {n for n in SCEN if n.startswith(("creation", "run"))}

    def parts_of(name):
        return 8 if chk.thorough else 4 if name in SLOW else 1

    def case(name, part):
        parts = parts_of(name)

        def run():
            base = scratch("cr_")
            try:
                lib = base / "crashfs.so"
                subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", str(lib), str(SRC), "-ldl"], check=True)
                code = CODE.format(here=str(HERE), name=name, lib=str(lib), base=str(base), part=part, parts=parts, deep=chk.thorough and name in DEEP)
                r = subprocess.run([sys.executable, "-B", "-c", code], cwd=base, env={**os.environ, "LD_PRELOAD": str(lib)}, capture_output=True, text=True)
                line = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
                if not line:
                    raise RuntimeError(f"{name}: {r.stderr[-800:]}")
                res = json.loads(line[0][6:])
                chk.execd(res["execs"])
                chk.trans(res["points"])
                for s in res["states"]:
                    chk.state((name, s))
                for e, c in res["ends"].items():
                    chk.outcomes[e] = chk.outcomes.get(e, 0) + c
                seen = set()
                for where, m in res["bad"]:
                    if m not in seen:
                        seen.add(m)
                        chk.soft(f"{name} {part}", f"{name}, {where}: {m}")
            finally:
                shutil.rmtree(base, ignore_errors=True)

        return run

    for name in SCEN if chk.thorough else QUICK:
        for part in range(parts_of(name)):
            yield f"{name} {part}", case(name, part)


PARTS = [("crashes", part_crashes)]
