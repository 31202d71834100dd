"""Small worlds shared by the checks (built once per process, before workers are forked)."""

import os
import tempfile
from pathlib import Path

_cache = {}


def scratch(prefix="w_"):
    return Path(tempfile.mkdtemp(prefix=prefix, dir=os.getcwd()))


def surface(gridlevel=1, fresh=False, **kw):
    """A coarse global surface in its own scratch directory under the current directory."""
    from cratermaker import Surface

    key = (gridlevel, tuple(sorted(kw.items())))
    if not fresh and key in _cache:
        return _cache[key]
    s = Surface.maker("icosphere", gridlevel=gridlevel, simdir=scratch("surf_"), ask_overwrite=False, reset=True, rng_seed=1, **kw)
    if not fresh:
        _cache[key] = s
    return s
