"""Running the real code: imports, worker pool, CPU limits, building inputs."""
import faulthandler
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np                       # noqa: E402
from scipy.sparse import csr_matrix      # noqa: E402

PROCS = 8


class OutOfTime(BaseException):
    """CPU limit of a recorded run (BaseException: the code must not catch it)."""


def _alarm(signum, frame):
    raise OutOfTime()


def adj_of(nb, dtype=int):
    """The map's adjacency matrix.  For about every fourth map it has zeros stored explicitly
    between some areas which are not neighbours (as left behind by adj[i, j] = 0), for another
    fourth some areas are stored as their own neighbours: neither changes who borders on whom."""
    n = len(nb)
    links = {(a, b) for a in range(n) for b in nb[a]}
    kind = sum((a + 1) * (b + 1) for a, b in links) // 2 % 4
    zeros = set()
    if kind == 2:
        zeros = {(a, b) for a in range(n) for b in range(n)
                 if a != b and (a + b + a * b) % 3 != 1 and (a, b) not in links and (b, a) not in links}
    elif kind == 3:
        links |= {(a, a) for a in range(n) if a % 3 != 1}
    at = sorted(links | zeros)
    m = csr_matrix(([1 if c in links else 0 for c in at],
                    ([a for a, _ in at], [b for _, b in at])), shape=(n, n), dtype=dtype)
    assert m.nnz == len(at)
    return m


def sets(nb):
    return [set(s) for s in nb]


def lists(nb):
    return [sorted(s) for s in nb]


class Budget(BaseException):
    """Too many evaluations of an instrumented callback."""


overruns = mp.get_context("fork").Value("i", 0)     # shared with the worker processes


def outcome(fn, cpu=20, count=True):
    """
    Run fn() under a CPU limit.  Returns (kind, value): ("ok", result),
    ("error", "Type: message"), ("timeout", ...).

    Runs that may take long have smaller limits.  Once several runs have exceeded the full
    limit (which is a verdict already) the others get less, so that the check comes to an end.
    """
    full = count and cpu >= 20
    if full and overruns.value >= 8:
        cpu = 1 if overruns.value < 40 else 0.2
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        try:
            res = fn()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return "ok", res
    except (OutOfTime, Budget) as e:
        if full and isinstance(e, OutOfTime):
            with overruns.get_lock():
                overruns.value += 1
        return "timeout", type(e).__name__
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/region/" in fr.filename:
                where = " at {}:{}".format(os.path.basename(fr.filename), fr.name)
                break
        return "error", "{}: {}{}".format(type(e).__name__, str(e)[:200], where)


def children(pid):
    try:
        with open("/proc/{0}/task/{0}/children".format(pid)) as f:
            kids = [int(x) for x in f.read().split()]
    except OSError:
        return []
    return [k for kid in kids for k in children(kid)] + kids


def outcome_wall(fn, wall=30):
    """Like outcome, for code that runs solvers as child processes: kind "slow" after `wall` s."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        kind, res = outcome(fn, cpu=wall, count=False)
    except OutOfTime:
        kind, res = "timeout", ""
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if kind == "timeout":
        kind = "slow"
        for k in children(os.getpid()):      # solvers started by this worker
            try:
                os.kill(k, signal.SIGKILL)
                os.waitpid(k, 0)
            except OSError:
                pass
    return kind, res


def clean(s):
    """Text that is safe in a verdict line."""
    return "".join(c if c.isalnum() or c in " .:,_-()[]{}=<>+*/" else " " for c in str(s))[:160]


def int_labels(labels):
    """Labels as list of ints, or None if they are not integral numbers."""
    try:
        arr = np.asarray(labels, dtype=float)
    except Exception:
        return None
    if arr.ndim != 1 or not np.isfinite(arr).all() or (arr != np.round(arr)).any() \
            or (np.abs(arr) > 10 ** 6).any():
        return None
    return [int(x) for x in arr]


def _init():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter("ignore")
    import tempfile
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    os.chdir(base)


def _call(args):
    fn, job = args
    random.seed(job.get("seed", 0))
    np.random.seed(job.get("seed", 0) % 2 ** 31)
    try:
        return fn(job)
    except (Exception, OutOfTime, Budget):
        return {"machinery": traceback.format_exc()}


def record(fn, jobs, procs=PROCS, chunk=None):
    """Run fn(job) for all jobs in worker processes; a crash is a machinery error."""
    from tlcrun import MachineryError
    jobs = list(jobs)
    if not jobs:
        return []
    ctx = mp.get_context("fork")
    chunk = chunk or max(1, min(20, len(jobs) // (procs * 4)))
    with ctx.Pool(procs, initializer=_init) as pool:
        res = pool.map(_call, [(fn, j) for j in jobs], chunksize=chunk)
    for j, r in zip(jobs, res):
        if isinstance(r, dict) and "machinery" in r:
            raise MachineryError("recorder failed on {}:\n{}".format(
                json.dumps(j, default=str)[:500], r["machinery"]))
    return res
