"""Run batches of simulated executions, shrink failures, write replay files and evidence."""
import argparse
import collections
import importlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from dst import boot
from dst.core import HarnessError, NoProgress, Rnd, Violation, derive, describe_exc, in_simcats, jdump
from dst import rng as rngmod

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
KNOWN = os.path.join(HERE, "known_findings.txt")
CPU_PER_RUN = 120       # seconds of CPU; a run normally takes well below one second
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Ctx:
    """What a property's execute() gets: statistics and a place to note what was reached."""

    def __init__(self):
        self.stats = collections.Counter()
        self.sig = []
        self.nontrivial = False
        self.notes = []
        self.violations = []

    def stat(self, k, n=1):
        self.stats[k] += n

    def reach(self, *parts):
        self.sig.append(parts)

    def violate(self, cls, detail="", key=""):
        raise Violation(cls, detail, key)

    def soft(self, cls, detail="", key=""):
        """Note a violation and go on (so that one known finding does not hide another failure of the run)."""
        self.violations.append((cls, str(detail)[:600], key))


def load(prop):
    return importlib.import_module("dst.props." + prop.lower())


def scenario_for(mod, prop, seed, i, tier):
    r = Rnd(derive(prop, seed, i))
    sc = mod.generate(r, tier, i)
    sc["run_seed"] = derive(prop, seed, i, "run") % 2 ** 31
    return json.loads(json.dumps(sc))


def execute(mod, sc):
    """One simulated execution; a pure function of the scenario and the code under test."""
    ctx = Ctx()
    rngmod.STATS.clear()
    rngmod.Budget.reset(getattr(mod, "DRAW_BUDGET", 400_000))
    boot.AMBIENT.reset(sc.get("run_seed", 0))
    viol, err = [], None
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.execute(sc, ctx)
    except Violation as v:
        viol.append((v.cls, v.detail, v.key))
    except NoProgress as e:
        viol.append(("no-progress", f"step budget used up: {e}", "no-progress"))
    except HarnessError:
        err = traceback.format_exc()
    except Exception as e:
        if in_simcats(e.__traceback__):
            viol.append((f"unexpected-{type(e).__name__}", describe_exc(e), describe_exc(e)))
        else:
            err = traceback.format_exc()
    ctx.stats.update(rngmod.STATS)
    viol = ctx.violations + viol
    return dict(viol=viol, err=err, stats=dict(ctx.stats), sig=jdump(ctx.sig) if ctx.sig else "", nontrivial=bool(ctx.nontrivial),
                notes=ctx.notes)


# ---------------------------------------------------------------- one fork per run
def _child(fd, fn):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_PER_RUN, CPU_PER_RUN + 5))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        res = fn()
    except BaseException:
        res = dict(viol=[], err="child: " + traceback.format_exc(), stats={}, sig="", nontrivial=False, notes=[])
    try:
        data = pickle.dumps(res)
        with os.fdopen(fd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


def forked(jobs, fns, wall, on_result):
    """Run fns (iterable of (key, callable)) in forked children, at most jobs at a time."""
    it = iter(fns)
    live = {}
    start = time.time()
    done = False
    while True:
        while not done and len(live) < jobs:
            try:
                key, fn = next(it)
            except StopIteration:
                done = True
                break
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in live:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _child(w, fn)
            os.close(w)
            live[r] = [key, pid, b"", time.time()]
        if not live:
            if done:
                return
            continue
        if time.time() - start > wall:
            for fd, (key, pid, _, _) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            raise TimeoutError(f"wall limit of {wall} s reached")
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                live[fd][2] += chunk
                continue
            key, pid, data, _ = live.pop(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            if data and not os.WIFSIGNALED(status):
                res = pickle.loads(data)
            else:
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                if sig == signal.SIGXCPU:
                    res = dict(viol=[("no-progress", f"{CPU_PER_RUN} s of CPU used without finishing", "no-progress")], err=None)
                else:
                    res = dict(viol=[], err=f"child ended with status {status}")
                res.update(stats={}, sig="", nontrivial=False, notes=[])
            on_result(key, res)


def run_isolated(mod, sc, wall=200):
    box = []
    forked(1, [(0, lambda: execute(mod, sc))], wall, lambda k, r: box.append(r))
    return box[0]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == prop:
                    out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if v[0] == k["class"] and v[2] == k["key"]:
            return k
    return None


# ---------------------------------------------------------------- shrinking
def _list_paths(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from _list_paths(x[k], path + (k,))
    elif isinstance(x, list):
        yield path, x
        for i, y in enumerate(x):
            yield from _list_paths(y, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(x, path, value):
    y = json.loads(json.dumps(x))
    if not path:
        return value
    t = y
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = value
    return y


SHRINK_KEYS = {"ops", "faults", "occ", "pot", "resp", "switches", "sessions", "muts", "peaks", "disturb", "actions", "events"}


def generic_shrinks(sc):
    """Smaller scenarios: drop chunks of the operation/fault/schedule lists, then single elements, then simplify."""
    paths = [(p, lst) for p, lst in _list_paths(sc) if p and p[-1] in SHRINK_KEYS and lst]
    paths.sort(key=lambda t: -len(t[1]))
    for p, lst in paths:
        n = len(lst)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield _with(sc, p, lst[:i] + lst[i + size:])
            size //= 2

    def params(x, path=()):
        if isinstance(x, dict):
            if x.get("s") in ("uniform", "normal", "lognormal", "exp") and "range" in x:
                yield path, max(x["range"])
            for k in x:
                yield from params(x[k], path + (k,))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                yield from params(y, path + (i,))
    for path, v in params(sc):
        yield _with(sc, path, v)
    for key in ("deform", "rise", "alpha_dot", "alpha_gate", "offset_mu_sens", "bug", "limits"):
        for path in [p for p in _key_paths(sc, key)]:
            if _get(sc, path):
                yield _with(sc, path, {} if key == "limits" else None)


def _key_paths(x, key, path=()):
    if isinstance(x, dict):
        for k in x:
            if k == key:
                yield path + (k,)
            yield from _key_paths(x[k], key, path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from _key_paths(y, key, path + (i,))


def shrink(mod, sc, cls, seconds=60):
    gen = getattr(mod, "shrinks", generic_shrinks)
    t0 = time.time()
    tried = 0
    best = sc
    improved = True
    seen = {jdump(sc)}
    while improved and time.time() - t0 < seconds:
        improved = False
        for cand in gen(best):
            if time.time() - t0 > seconds:
                break
            j = jdump(cand)
            if j in seen:
                continue
            seen.add(j)
            tried += 1
            try:
                res = run_isolated(mod, cand)
            except TimeoutError:
                continue
            if not res["err"] and any(v[0] == cls for v in res["viol"]):
                best = cand
                improved = True
                break
    return best, tried


# ---------------------------------------------------------------- replay
def replay(path):
    doc = json.load(open(path))
    mod = load(doc["property"])
    res = run_isolated(mod, doc["scenario"])
    if res["err"]:
        print(res["err"], file=sys.stderr)
        return 2
    for v in res["viol"]:
        print(f"VIOLATION property={doc['property']} replay={path}")
        print(f"  {v[0]}: {v[1]}")
    print("replayed", path, "->", [v[0] for v in res["viol"]] or "no violation")
    return 1 if res["viol"] else 0


def fresh_replay(path, cls):
    """Replay in a fresh process; true if the same class of violation comes back."""
    p = subprocess.run([sys.executable, os.path.join(HERE, "dst", "run.py"), "--replay", path], capture_output=True, text=True, timeout=600)
    return p.returncode == 1 and f"  {cls}:" in p.stdout


# ---------------------------------------------------------------- batch
def batch(prop, tier, seed, count=None, jobs=None, digests=None):
    mod = load(prop)
    t0 = time.time()
    n = count or mod.RUNS[tier]
    wall = 780 if tier == "quick" else 5 * 3600
    if digests is None:
        digests = False
    stats = collections.Counter()
    sigs = {}
    nontrivial = 0
    samples, errors, viols = [], [], []
    per_class = collections.Counter()
    log = {}

    def on_result(i, res):
        nonlocal nontrivial
        stats.update(res["stats"])
        if res["err"]:
            errors.append((i, res["err"]))
        if res["nontrivial"]:
            nontrivial += 1
            if res["sig"]:
                sigs[res["sig"]] = sigs.get(res["sig"], 0) + 1
        for v in res["viol"]:
            per_class[v[0]] += 1
            viols.append((i, v))
        if digests:
            log[i] = res

    known = known_findings(prop)
    stop = {"n": 0}

    def fns():
        for i in range(n):
            new = [v for _, v in viols if not is_known(v, known)]
            if len(new) >= 12 or len(errors) >= 20:   # enough to report; do not spend the whole budget on a broken tree
                stop["n"] = i
                return
            yield i, (lambda i=i: execute(mod, scenario_for(mod, prop, seed, i, tier)))
    timeout = None
    try:
        forked(jobs or JOBS, fns(), wall, on_result)
    except TimeoutError as e:
        timeout = str(e)
    viols.sort(key=lambda t: t[0])
    evaluated = stop["n"] or n
    for i in range(min(2, n)):
        samples.append(scenario_for(mod, prop, seed, i, tier))
    return dict(mod=mod, n=evaluated, stats=stats, sigs=sigs, nontrivial=nontrivial, samples=samples, errors=errors, viols=viols,
                wall=time.time() - t0, timeout=timeout, known=known, log=log)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    prop = a.property
    if a.only is not None:
        mod = load(prop)
        sc = scenario_for(mod, prop, a.seed, a.only, a.tier)
        print(json.dumps(sc, indent=1))
        res = execute(mod, sc)
        print(json.dumps({k: res[k] for k in ("viol", "err", "stats", "sig", "nontrivial")}, indent=1))
        if res["err"]:
            print(res["err"])
        return 0
    b = batch(prop, a.tier, a.seed, a.runs, digests=a.digests)
    if a.digests:
        for i in sorted(b["log"]):
            r = b["log"][i]
            print(i, derive(jdump([r["viol"], r["stats"], r["sig"], r["notes"]])))
        return 0
    mod = b["mod"]
    os.makedirs(EVIDENCE, exist_ok=True)
    new = [(i, v) for i, v in b["viols"] if not is_known(v, b["known"])]
    code = 0
    reported = 0
    lines = []
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        classes = []
        for i, v in new:
            if v[0] not in [c for _, c, _ in classes]:
                classes.append((i, v[0], v))
        for i, cls, v in classes[:3]:
            sc = scenario_for(mod, prop, a.seed, i, a.tier)
            path = os.path.join(REPLAYS, f"{prop}-{a.seed}-{i}-{cls}.json".replace("/", "_"))
            doc = dict(property=prop, seed=a.seed, run=i, tier=a.tier, violation=cls, detail=v[1], scenario=sc, shrunk=False)
            if not a.no_shrink and v[0] != "no-progress":
                small, tried = shrink(mod, sc, cls, seconds=45)
                doc.update(scenario=small, shrunk=True, tried=tried, original=sc)
            json.dump(doc, open(path, "w"), indent=1)
            ok = fresh_replay(path, cls)
            if not ok and doc["shrunk"]:
                doc.update(scenario=sc, shrunk=False)
                json.dump(doc, open(path, "w"), indent=1)
                ok = fresh_replay(path, cls)
            lines.append((ok, path, cls, i, v))
        for ok, path, cls, i, v in lines:
            if ok:
                print(f"VIOLATION property={prop} replay={path}")
                print(f"  {cls}: {v[1]}  (run {i}, {sum(1 for _, w in new if w[0] == cls)} runs)")
                reported += 1
                code = 1
        if not reported:
            for ok, path, cls, i, v in lines:
                if getattr(mod, "NONDETERMINISM_IS_VIOLATION", False):
                    print(f"VIOLATION property={prop} replay={path}")
                    print(f"  {cls}: {v[1]} (run {i}; does not repeat exactly: the code draws on entropy the simulator does not own)")
                    code = 1
                else:
                    print(f"HARNESS: violation of run {i} did not replay in a fresh process: {cls}: {v[1]}", file=sys.stderr)
                    code = 2
                    b["errors"].append((i, f"violation {cls} did not replay"))
    hit = collections.Counter()
    for i, v in b["viols"]:
        k = is_known(v, b["known"])
        if k:
            hit[k["id"]] += 1
    for k in b["known"]:
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['id']}; met in {hit[k['id']]} runs of this check]")
    if b["errors"] and code == 0:
        for i, e in b["errors"][:3]:
            print(f"HARNESS ERROR in run {i}: {e}", file=sys.stderr)
        code = 2
    if b["timeout"] and code == 0:
        print("HARNESS: " + b["timeout"], file=sys.stderr)
        code = 2
    stats = b["stats"]
    wall = b["wall"]
    problem = None
    if code == 0 and not a.runs:
        for probe in getattr(mod, "PROBES", []):
            if not stats.get(probe):
                problem = f"probe '{probe}' was never reached: the workload does not exercise the property"
                break
    if problem:
        print("HARNESS: " + problem, file=sys.stderr)
        code = 2
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"), wall_s=round(wall, 2),
              violations=len(new),
              coverage=dict(
                  evaluations=b["n"], distinct_nontrivial=len(b["sigs"]), rule=mod.RULE,
                  samples=[_sample(s) for s in b["samples"]],
                  nontrivial_runs=b["nontrivial"],
                  runs_per_hour=round(b["n"] / max(wall, 1e-9) * 3600),
                  seeds=f"VERIF_SEED={a.seed}, one derived seed per run, runs 0..{b['n'] - 1}",
                  simulated_time=f"{stats.get('pixels', 0)} simulated pixels acquired in {stats.get('op:measure', 0) + stats.get('op:scan', 0)} measurements; SimCATS has no clock, simulated time is counted in pixels and scheduler steps ({stats.get('steps', 0)})",
                  faults={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
                  operations={k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")},
                  probes={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")},
                  other={k: v for k, v in sorted(stats.items()) if k.split(":")[0] not in ("fault", "op", "probe")},
                  distinct_measure=getattr(mod, "DISTINCT", "distinct run signatures"),
                  real_components=getattr(mod, "REAL", "all of simcats"), stub_components=getattr(mod, "STUBS", "none"),
                  known_findings=dict(hit)),
              assumptions=getattr(mod, "ASSUMPTIONS", []))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {a.tier}: {b['n']} runs in {wall:.1f} s, {len(b['sigs'])} distinct non-trivial, {len(new)} new violations, exit {code}")
    return code


def _sample(s):
    t = json.dumps(s)
    return s if len(t) < 6000 else t[:6000] + " ..."
