"""Development aid: plants the bugs described in a spec file, one after another, in /repo (each undone straight afterwards).

python3 tools/plant.py SPEC.py [ID ...] [--no-tests]   a spec file calls bug(id, prop, [(file, old, new), ...], demo, needs, breaks)
python3 tools/plant.py --rerun [ID ...]                 apply the kept patches again and run demo and check only
"""
import json
import os
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
R = Path("/repo")
HEAD = """import os, sys, tempfile, shutil, atexit, warnings
warnings.simplefilter("ignore")
os.environ.update(TQDM_DISABLE="1", MPLBACKEND="Agg")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), HERE]
sys.dont_write_bytecode = True
if os.path.exists(os.path.join(HERE, "bindings_standin.py")):
    import bindings_standin
    bindings_standin.install()
else:
    sys.path.insert(0, "/opt/vp/support")
    import no_rust_bindings
_d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, _d, True)
import cratermaker
os.chdir(_d)
import numpy as np
from cratermaker import *

"""
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    subprocess.check_call(["git", "-C", str(R), "checkout", "-q", "--", "."])


def tests():
    sh("bash", "/opt/vp/test.sh", "/tmp/plant_o.json")
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open("/tmp/plant_o.json"))
    return [t for t in b if t not in o["passed"]]


def demo(d):
    r = sh("bash", str(d / "demo.sh"), cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def check(prop):
    r = sh("python3", "run.py", prop, cwd=V)
    v = [x for x in r.stdout.splitlines() if x.startswith("  [")]
    return r.returncode, (v[0][:200] if v else (r.stderr or r.stdout)[-300:])


def bug(id, prop, edits, demo_py, needs, breaks, standin=False):
    if WANT and id not in WANT:
        return
    clean()
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(HEAD + demo_py)
    (d / "demo.sh").write_text(SH)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    if standin:
        (d / "bindings_standin.py").write_text((V / "mc/bindings_standin.py").read_text())
    rc, out = demo(d)
    if rc:
        print(f"{id}: DEMO FAILS ON CLEAN TREE {out}")
        return
    for f, a, b in edits:
        s = (R / f).read_text()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        (R / f).write_text(s.replace(a, b))
    (d / "patch.diff").write_text(sh("git", "-C", str(R), "diff").stdout)
    try:
        rc, out = demo(d)
        if rc == 0:
            print(f"{id}: DEMO PASSES WITH THE BUG")
            return
        miss = [] if NOTEST else tests()
        if miss:
            print(f"{id}: BREAKS TESTS {miss}")
            return
        rc, msg = check(prop)
        print(f"{id} [{prop}]: {'caught' if rc == 1 else 'MISSED rc=%d' % rc} {msg}", flush=True)
    finally:
        clean()


NOTEST = "--no-tests" in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith("--")]
if "--rerun" in sys.argv:
    for d in sorted((V / "seeded").iterdir()):
        if args and d.name not in args:
            continue
        clean()
        prop = json.loads((d / "meta.json").read_text())["property"]
        rc0, out0 = demo(d)
        r = sh("git", "-C", str(R), "apply", str(d / "patch.diff"))
        try:
            if r.returncode:
                print(f"{d.name}: does not apply: {r.stderr[:200]}")
                continue
            rc1, _ = demo(d)
            rc, msg = check(prop)
            print(f"{d.name} [{prop}]: demo {rc0}/{rc1}; {'caught' if rc == 1 else 'MISSED rc=%d' % rc} {msg}", flush=True)
        finally:
            clean()
else:
    WANT = args[1:]
    assert not sh("git", "-C", str(R), "status", "--porcelain", "-uno").stdout, "dirty"
    exec(open(args[0]).read())
