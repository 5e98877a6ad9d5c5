#!/opt/pypyvenv/bin/python
"""check.py PROPERTY [--replay FILE] : run the simulations that decide one property."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/pypyvenv/bin/python"
if sys.implementation.name != "pypy" and os.path.exists(PY):
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
# stale byte code of the code under test must never be used
import importlib._bootstrap_external as _boot  # noqa: E402
_cache_from_source = _boot.cache_from_source
_FRESH = (os.path.abspath(os.environ.get("OA_REPO", "/repo")) + "/", HERE + "/")


def _no_cache(path, *args, **kwargs):
    if os.path.abspath(path).startswith(_FRESH):
        raise NotImplementedError
    return _cache_from_source(path, *args, **kwargs)


_boot.cache_from_source = _no_cache
sys.path.insert(0, HERE)

from sim import driver  # noqa: E402

if __name__ == "__main__":
    try:
        code = driver.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
