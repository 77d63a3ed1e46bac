"""Running TLC: batches of cases/traces -> verdicts, and exhaustive models."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar",
                 "/opt/veriftools/tla/CommunityModules-deps.jar"])
JVMS = 8


class MachineryError(RuntimeError):
    """The checking machinery itself failed (never a verdict on the code)."""


class EvaluationError(MachineryError):
    """TLC could not evaluate the specification on a recorded case."""


def scratch():
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="verif-", dir=base)


def check_ints(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return
    if isinstance(x, int):
        if abs(x) >= 2 ** 31:
            raise MachineryError("integer too large for TLC: {}".format(x))
    elif isinstance(x, float):
        raise MachineryError("float in a TLC case")
    elif isinstance(x, dict):
        for v in x.values():
            check_ints(v)
    else:
        for v in x:
            check_ints(v)


STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def java(module, cfg, env=None, workers=1, args=(), mem="1500m", timeout=840, cwd=None):
    work = cwd or scratch()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        cfgpath = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xss64m", "-Xmx" + mem, "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-config", cfgpath,
               "-metadir", os.path.join(work, "meta"), "-workers", str(workers),
               "-noGenerateSpecTE"] + list(args) + [os.path.join(work, module + ".tla")]
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        if cwd is None:
            shutil.rmtree(work, ignore_errors=True)


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    if not m:
        return 0, 0
    return tuple(int(g.replace(",", "")) for g in m.groups())


VERDICT = re.compile(r'^"?V\|(\d+)\|([^|"]*)\|?([^"]*)"?\s*$')


def judge(module, cases, cfg=None, jvms=JVMS, min_chunk=1, mem="1500m", timeout=800,
          weight=None, env=None):
    """
    Let TLC decide every case (list of JSON-able dicts).  Returns a list of
    (clause, detail), one per case, and (transitions, states).
    Any missing or double verdict is a MachineryError.
    """
    if not cases:
        return [], (0, 0)
    check_ints(cases)
    k = max(1, min(jvms, len(cases) // min_chunk))
    if weight is None:
        weight = lambda c: 1
    order = sorted(range(len(cases)), key=lambda i: -weight(cases[i]))
    bins = [[0, []] for _ in range(k)]
    for i in order:
        b = min(bins, key=lambda b: b[0])
        b[0] += weight(cases[i])
        b[1].append(i)
    chunks = [sorted(b[1]) for b in bins if b[1]]
    verdicts = {}
    tot = [0, 0]
    lock = threading.Lock()

    def one(idx):
        """Judge a batch; a case that the specification cannot evaluate is a verdict, too."""
        for _ in range(4):
            try:
                return some(idx)
            except EvaluationError as e:
                err = str(e)
            part = idx
            while len(part) > 1:
                half = part[:len(part) // 2]
                try:
                    some(half)
                    part = part[len(part) // 2:]
                except EvaluationError as e:
                    part, err = half, str(e)
            try:
                some(part)
                raise MachineryError("TLC fails on a batch only:\n" + err)
            except EvaluationError as e:
                with lock:
                    verdicts[part[0]] = ("outside-of-the-specification", str(e))
            idx = [i for i in idx if i != part[0]]
            if not idx:
                return
        with lock:
            for i in idx:
                verdicts.setdefault(i, ("ok", "not judged"))

    def some(idx):
        work = scratch()
        try:
            path = os.path.join(work, "batch.json")
            with open(path, "w") as f:
                json.dump([dict(cases[i], tid=i) for i in idx], f)
            ee = dict(env or {})
            ee["BATCH"] = path
            rc, out = java(module, cfg or module + ".cfg", ee, mem=mem, timeout=timeout)
            got = {}
            for line in out.splitlines():
                m = VERDICT.match(line.strip())
                if m:
                    t = int(m.group(1))
                    if t in got:
                        raise MachineryError("two verdicts for case {}".format(t))
                    got[t] = (m.group(2), m.group(3))
            if rc in (10, 75, 76) and not re.search("StackOverflow|OutOfMemory|ran out of", out):
                lines = [l for l in out.splitlines() if l.startswith(("Error: ", "line "))]
                raise EvaluationError("".join(
                    c if c.isalnum() or c in " .:,=" else " " for c in " ".join(lines))[:200])
            if rc != 0 or set(got) != set(idx):
                keep = os.path.join(ROOT, "work")
                os.makedirs(keep, exist_ok=True)
                with open(os.path.join(keep, module + ".out"), "w") as f:
                    f.write(out)
                shutil.copy(path, os.path.join(keep, module + ".batch.json"))
                missing = sorted(set(idx) - set(got))[:5]
                raise MachineryError("TLC failed on {} (rc {}, missing {}):\n{}".format(
                    module, rc, missing, out[-3000:]))
            g, d = stats(out)
            with lock:
                verdicts.update(got)
                tot[0] += g
                tot[1] += d
        finally:
            shutil.rmtree(work, ignore_errors=True)

    with ThreadPoolExecutor(len(chunks)) as ex:
        list(ex.map(one, chunks))
    return [verdicts[i] for i in range(len(cases))], tuple(tot)


def model(module, cfg=None, workers=4, mem="3g", timeout=400, args=(), env=None):
    """Exhaustively explore a model.  Returns dict(ok, states, transitions, out)."""
    rc, out = java(module, cfg or module + ".cfg", env, workers=workers, args=args,
                   mem=mem, timeout=timeout)
    g, d = stats(out)
    ok = rc == 0 and "No error has been found" in out
    if rc not in (0, 10, 11, 12, 13):
        raise MachineryError("TLC failed on {} (rc {}):\n{}".format(module, rc, out[-3000:]))
    return dict(ok=ok, transitions=g, states=d, out=out)


_INSTANCES = {}


def instances(kind, N, V=0, X=0, T=0):
    """(bases, tables): the instance space that TLC lists for Instances.tla."""
    key = (kind, N, V, X, T)
    if key not in _INSTANCES:
        work = scratch()
        try:
            cfg = os.path.join(work, "Instances.cfg")
            with open(cfg, "w") as f:
                f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind = \"{}\" "
                        "N = {} V = {} X = {} T = {}\n".format(*key))
            out = os.path.join(work, "instances.json")
            rc, text = java("Instances", cfg, {"OUT": out}, cwd=work)
            if rc != 0:
                raise MachineryError("TLC failed on Instances:\n" + text[-2000:])
            got = json.load(open(out))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        _INSTANCES[key] = [b for m in got["bases"] for b in m], got["tables"]
    return _INSTANCES[key]
