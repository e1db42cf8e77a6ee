"""Run a part of a simulated execution in a forked child, so that process-wide state (module caches, global generators) is
the one of a process in which nothing else has happened."""
import os
import pickle
import traceback

from dst import rng as rngmod
from dst.core import HarnessError, NoProgress, Violation, describe_exc, in_simcats


def isolated(fn):
    """fn() evaluated in a child forked now; result, violations and statistics come back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            rngmod.STATS.clear()
            try:
                res = ("ok", fn())
            except Violation as v:
                res = ("viol", (v.cls, v.detail, v.key))
            except NoProgress as e:
                res = ("viol", ("no-progress", f"step budget used up: {e}", "no-progress"))
            except Exception as e:
                if in_simcats(e.__traceback__):
                    res = ("viol", (f"unexpected-{type(e).__name__}", describe_exc(e), describe_exc(e)))
                else:
                    res = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((res, dict(rngmod.STATS))))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise HarnessError(f"isolated child ended with status {status}")
    (kind, val), stats = pickle.loads(data)
    for k, n in stats.items():
        rngmod.stat(k, n)
    if kind == "viol":
        raise Violation(*val)
    if kind == "err":
        raise HarnessError(val)
    return val
