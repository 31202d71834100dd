"""Common machinery of the bounded exhaustive checks.

A check module (checks/<id>.py) defines ``PARTS``: an ordered list of (name, function) pairs. A part is a generator
function ``part(chk)`` that yields *cases*: (key, callable) pairs that together enumerate a finite space completely.
Every case runs the real code of /repo and compares it with an independent oracle; ``chk`` counts canonical states,
transitions and executions, and collects violations. Cases of one part are distributed over forked workers.
"""

import contextlib
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from multiprocessing import Value
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
CASE_TIMEOUT = 240
MAX_VIOL_PER_PART = 25


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(Exception):
    pass


def digest(obj):
    """Canonical short hash of a (nested) observable state."""
    return hashlib.blake2b(repr(canon(obj)).encode(), digest_size=12).hexdigest()


def canon(o):
    import numpy as np

    if isinstance(o, dict):
        return ("d",) + tuple(sorted((str(k), canon(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return ("l",) + tuple(canon(v) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("s",) + tuple(sorted(repr(canon(v)) for v in o))
    if isinstance(o, np.ndarray):
        a = np.ascontiguousarray(o)
        return ("a", str(a.dtype), a.shape, hashlib.blake2b(a.tobytes(), digest_size=12).hexdigest())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, float) and abs(o) < 1e15 and o == int(o):
        return int(o)
    if isinstance(o, (str, int, float, bool, type(None), bytes)):
        return o
    return repr(o)


class Chk:
    """Counters and violations of one run (or of one worker's share of it)."""

    def __init__(self, prop, tier, seed, part=None, workdir=None):
        self.prop, self.tier, self.seed, self.part, self.workdir = prop, tier, seed, part, workdir
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.cases = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def state(self, *key):
        """Record a visited canonical state; returns True when it is new (in this worker)."""
        d = digest(key)
        new = d not in self.states
        self.states.add(d)
        return new

    def trans(self, n=1):
        self.transitions += n

    def execd(self, n=1):
        self.executions += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def fail(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def soft(self, key, msg):
        """Record a violation without ending the case."""
        self.violations.append({"part": self.part, "key": key, "msg": msg})

    def export(self):
        return {
            "states": self.states,
            "transitions": self.transitions,
            "executions": self.executions,
            "cases": self.cases,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "violations": self.violations,
        }

    def merge(self, d):
        self.states |= d["states"]
        self.transitions += d["transitions"]
        self.executions += d["executions"]
        self.cases += d["cases"]
        for k, v in d["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for s in d["samples"]:
            self.sample(s)
        self.violations.extend(d["violations"])


def from_repo(tb):
    """True when the innermost project frame of a traceback is code under verification."""
    for fr in reversed(traceback.extract_tb(tb)):
        if fr.filename.startswith("/repo/"):
            return True
        if fr.filename.startswith(str(VERIF)) and not fr.filename.endswith("bindings_standin.py"):
            return False
    return False


def _alarm(signum, frame):
    raise CaseTimeout


def run_case(chk, key, fn):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    chk.cases += 1
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except Violation as e:
        chk.violations.append({"part": chk.part, "key": key, "msg": str(e)})
    except CaseTimeout:
        chk.violations.append({"part": chk.part, "key": key, "msg": f"did not finish within {CASE_TIMEOUT} s"})
    except Exception as e:
        tb = sys.exc_info()[2]
        if not from_repo(tb):
            raise
        chk.violations.append(
            {
                "part": chk.part,
                "key": key,
                "msg": f"unexpected {type(e).__name__}: {str(e)[:300]}",
                "trace": "".join(traceback.format_exception(e))[-3000:],
            }
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def name_of(key):
    return str(key)[:150]


_G = {}


def _worker(out, where):
    chk = Chk(_G["prop"], _G["tier"], _G["seed"], _G["part"], None)
    d = Path(tempfile.mkdtemp(dir=_G["scratch"]))
    chk.workdir = d
    cwd = os.getcwd()

    def claim():
        with _G["next"].get_lock():
            _G["next"].value += 1
            return _G["next"].value - 1

    try:
        os.chdir(d)
        mine = claim()
        for k, (key, fn) in enumerate(_G["fn"](chk)):
            if k != mine:
                continue
            mine = claim()
            if _G["only"] is not None and key != _G["only"]:
                continue
            if len(chk.violations) >= MAX_VIOL_PER_PART:
                break
            t0 = time.time()
            where.write_text(json.dumps(key))
            run_case(chk, key, fn)
            if os.environ.get("MC_TIMES") and time.time() - t0 > float(os.environ["MC_TIMES"]):
                print(f"{time.time() - t0:8.1f} s  {name_of(key)}", file=sys.__stderr__)
        res = ("ok", chk.export())
    except BaseException as e:  # reported by the parent as an error of the check
        res = ("err", "".join(traceback.format_exception(e)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    out.write_bytes(pickle.dumps(res))


def run_part(chk, name, fn, scratch, only=None, workers=None):
    workers = getattr(fn, "workers", workers or min(8, os.cpu_count() or 1))
    _G.update(prop=chk.prop, tier=chk.tier, seed=chk.seed, part=name, fn=fn, scratch=scratch, only=only, next=Value("q", 0))
    tmp = Path(tempfile.mkdtemp(dir=scratch))
    n0, started, running, res = len(chk.violations), 0, {}, []

    def start():
        nonlocal started
        out, where = tmp / f"{started}.out", tmp / f"{started}.key"
        started += 1
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _worker(out, where)
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
        running[pid] = (out, where)

    for _ in range(workers):
        start()
    while running:
        pid, st = os.wait()
        if pid not in running:
            continue
        out, where = running.pop(pid)
        if out.exists():
            res.append(pickle.loads(out.read_bytes()))
            continue
        key = json.loads(where.read_text()) if where.exists() else None
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if key is None or sig not in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            for p in running:
                os.kill(p, signal.SIGKILL)
            raise RuntimeError(f"error of the check in part {name}: a worker ended with status {st} in {key}")
        chk.violations.append({"part": name, "key": key, "msg": f"the process was ended by {signal.Signals(sig).name}"})
        if len(chk.violations) - n0 < 8:
            start()  # for the cases that are left
    for kind, r in res:
        if kind == "err":
            raise RuntimeError(f"error of the check in part {name}:\n{r}")
    for _, r in res:
        chk.merge(r)
    return len(chk.violations) - n0


def forked(chk, fn):
    """Run fn() in a child process that starts from this process's present state, so that nothing it does leaks out."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(CASE_TIMEOUT)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            chk.states, chk.transitions, chk.executions, chk.cases, chk.outcomes, chk.samples, chk.violations = set(), 0, 0, 0, {}, [], []
            try:
                fn()
                out = ("ok", None)
            except Violation as e:
                out = ("viol", str(e))
            except BaseException as e:
                tb = sys.exc_info()[2]
                out = ("repo" if from_repo(tb) else "err", f"unexpected {type(e).__name__}: {str(e)[:300]}", "".join(traceback.format_exception(e))[-3000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump((out, chk.export()), f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        pid = None
    finally:
        if pid:
            with contextlib.suppress(Exception):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
    if not data:
        raise Violation(f"the process ended unexpectedly (status {st})")
    out, exp = pickle.loads(data)
    chk.merge(exp)
    if out[0] == "viol":
        raise Violation(out[1])
    if out[0] == "repo":
        raise Violation(out[1] + "\n" + out[2])
    if out[0] == "err":
        raise RuntimeError("error of the check in a child:\n" + out[2])


def workers(n):
    def deco(f):
        f.workers = n
        return f

    return deco


@contextlib.contextmanager
def quiet():
    """Silence everything the code under test prints."""
    o, e = sys.stdout, sys.stderr
    try:
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


def bootstrap():
    """Make /repo importable with the stand-in bindings; (re)write the ignored generated version module if missing."""
    import re

    v = REPO / "cratermaker" / "_version.py"
    m = re.search(r'^version *= *"(.*)"', (REPO / "crates/cratermaker-py/Cargo.toml").read_text(), re.M)
    text = f'__version__ = version = "{m.group(1)}"\n'
    if not v.exists() or v.read_text() != text:
        v.write_text(text)
    sys.path.insert(0, str(REPO))
    from mc import bindings_standin

    bindings_standin.install()
    import cratermaker

    assert str(Path(cratermaker.__file__).resolve()).startswith("/repo/"), cratermaker.__file__


def main(prop, module, argv):
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only_part = only_key = None
    if "--replay" in argv:
        rp = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        only_part, only_key, tier = rp["part"], rp["key"], rp.get("tier", tier)
    if "--part" in argv:
        only_part = argv[argv.index("--part") + 1]
    verbose = "-v" in argv
    t0 = time.time()
    out, err = sys.stdout, sys.stderr
    chk = Chk(prop, tier, seed)
    scratch = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    per_part = {}
    exhaustive = True
    try:
        os.chdir(scratch)
        for name, fn in module.PARTS:
            if only_part is not None and name != only_part:
                continue
            t1 = time.time()
            before = (len(chk.states), chk.transitions, chk.executions, chk.cases)
            if not verbose:
                dn = open(os.devnull, "w")
                sys.stdout = dn
                sys.stderr = dn
            try:
                nviol = run_part(chk, name, fn, scratch, only_key)
            finally:
                sys.stdout, sys.stderr = out, err
            per_part[name] = {
                "cases": chk.cases - before[3],
                "states": len(chk.states) - before[0],
                "transitions": chk.transitions - before[1],
                "executions": chk.executions - before[2],
                "violations": nviol,
                "wall_s": round(time.time() - t1, 2),
                "space": (fn.__doc__ or "").strip(),
            }
            print(f"{prop} {name}: " + ", ".join(f"{k}={v}" for k, v in per_part[name].items() if k != "space"), flush=True)
            if nviol >= MAX_VIOL_PER_PART:
                exhaustive = False
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)

    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    kid = {(k["part"], k["key"]): k for k in known}
    new, seen_known = [], {}
    for v in chk.violations:
        k = kid.get((v["part"], v["key"]))
        if k is not None:
            seen_known[(v["part"], v["key"])] = k
        else:
            new.append(v)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    if only_part is None:
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": getattr(module, "LEVEL", "model_checking"),
            "coverage": {
                "states": len(chk.states),
                "transitions": chk.transitions,
                "traces_validated_against_impl": chk.executions,
                "cases": chk.cases,
                "distinct_outcomes": chk.outcomes,
                "parts": per_part,
                "samples": chk.samples,
                "exhaustive": exhaustive,
                "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        if ev["level"] in ("exploration", "fault_enumeration"):
            ev["coverage"]["evaluations"] = chk.executions
            ev["coverage"]["distinct_nontrivial"] = len(chk.states)
            ev["coverage"]["rule"] = getattr(module, "RULE", "")
        p = VERIF / "evidence" / f"{prop}.json"
        p.parent.mkdir(exist_ok=True)
        p.write_text(json.dumps(ev, indent=1, default=str))
    print(
        f"{prop}: states={len(chk.states)} transitions={chk.transitions} executions={chk.executions} cases={chk.cases} "
        f"violations={len(new)} known={len(seen_known)} wall={time.time() - t0:.1f}s"
    )
    if new:
        new.sort(key=lambda v: len(v["key"]))
        rd = VERIF / "evidence" / "replay"
        rd.mkdir(parents=True, exist_ok=True)
        for i, v in enumerate(new[:10]):
            rp = rd / f"{prop}_{i}.json"
            rp.write_text(json.dumps({"property": prop, "tier": tier, **v}, indent=1, default=str))
            print(f"  [{v['part']}] {v['key']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0
