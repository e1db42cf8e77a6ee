"""C05 Results and arguments are immutable snapshots."""
import numpy as np

from dst import world
from dst.core import Rnd, derive, digest, maxdiff, pubsnap, same, snap_diff
from dst.isolate import isolated
from dst.rng import stat
from dst.session import Session, first_difference, gen_session
from dst.world import CacheCSD, Rngs, gen_default, gen_spec, rng_namer
from simcats import Simulation
from simcats.support_functions import ParameterSamplingInterface

RUNS = {"quick": 700, "thorough": 20000}
LEVEL = "exploration"
RULE = ("A run performs a random session twice from equal states: undisturbed, and with every object the caller can still reach overwritten in between (returned arrays and metadata, "
        "argument arrays, the objects given to the constructor and to setters, generators consumed). Results must be bit-identical, results that were not overwritten must keep their digest "
        "until the end of the session, arguments must be unmodified, and the arrays of a caching ideal-CSD provider must keep their content. "
        "Non-trivial: at least one object was overwritten and a later measurement completed; distinct by operations and kinds of overwritten objects.")
DISTINCT = "operation kinds and kinds of overwritten objects"
REAL = "Simulation, all distortions, samplers, both sensors, peaks, rises, barriers, deformations, geometric ideal CSD, default_configs"
STUBS = "random generators (SimRng, copied like numpy's) in part of the runs; cheap and caching ideal CSD providers in part of the runs"
PROBES = ["fault:overwrite-arrays", "fault:overwrite-metadata", "fault:overwrite-arguments", "fault:overwrite-config", "fault:overwrite-assigned", "probe:kept-result", "probe:cache-provider",
          "probe:cache-distorted", "probe:default-resolution", "op:scan", "op:measure"]
ASSUMPTIONS = ["objects assigned to an attribute of a component inside the simulation (a sampler given to a distortion, a distortion appended to the live list) are shared by design and not overwritten"]


def generate(r, tier, i):
    if r.chance(0.12):
        spec = gen_default(r)
    else:
        spec = gen_spec(r, csd=(("geom", 2), ("steps", 3), ("cache", 4)), sensor=(("generic", 2), ("scan", 3)), samplers=0.4, nmax=3, deform=0.4, none_lists=0.12)
        for d in spec["occ"] or []:
            if "ratio" in d and r.chance(0.6):
                d["ratio"] = 1
    ops, cur = gen_session(r, spec, rng_namer(r, start=1000), n=(3, 8), muts=0.3, rejects=0.05, aborts=0.08, retune=0.05, direct=0.05, samplers=0.3)
    for _ in range(2):
        ops.append(world.gen_scan(r) if cur["sensor"]["t"] == "scan" and r.chance(0.5) else world.gen_measure(r, cur["sensor"]["t"]))
    for o in ops:
        if o["op"] in ("measure", "scan"):
            if isinstance(o["res"], list):
                o["form"] = r.pick(["arr", "arr", "list", "tuple"])
            o["keep"] = r.chance(0.5)
            o["tamper"] = [r.chance(0.7), r.chance(0.7), r.chance(0.7)]
            o["reuse"] = r.chance(0.3)
    if not spec.get("default") and not any(o["op"] == "set" and o["mut"]["m"] == "csd" for o in ops) and spec["csd"]["t"] != "geom" and r.chance(0.15):
        j = [o for o in ops if o["op"] in ("measure", "scan") and isinstance(o["res"], list)]
        for o in j:
            o.update(res=[100, 100], form="default")
            o["default"] = True
    return {"spec": spec, "ops": ops, "rng": r.randrange(10 ** 9), "mode": r.wpick([("copy", 3), ("plain", 2)]), "tamper": r.randrange(10 ** 9), "config": r.chance(0.8)}


# ------------------------------------------------------------------ overwriting what the caller can reach
def scramble(x, r, seen=None, depth=0):
    seen = {} if seen is None else seen
    if id(x) in seen or depth > 9:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.flat:
                scramble(y, r, seen, depth + 1)
        elif x.size and x.flags.writeable:
            x[...] = np.full(x.shape, r.pick([7, 5])).astype(x.dtype) if r.chance(0.5) else (x * 3 + 1).astype(x.dtype)
        return
    if isinstance(x, np.random.Generator):
        x.random(r.randrange(1, 4))
        return
    if isinstance(x, ParameterSamplingInterface):
        x.sample_parameter()
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            scramble(y, r, seen, depth + 1)
        if isinstance(x, list) and x:
            if r.chance(0.3):
                x.append(x[0])
            elif r.chance(0.3):
                del x[:]
        return
    if isinstance(x, dict):
        for y in list(x.values()):
            scramble(y, r, seen, depth + 1)
        if x and r.chance(0.2):
            x.clear()
        return
    if not hasattr(x, "__dict__") or isinstance(x, type) or callable(x):
        return
    names = {n for t in type(x).__mro__ for n, v in vars(t).items() if isinstance(v, property) and not n.startswith("_")}
    names |= {n for n in x.__dict__ if not n.startswith("_")}
    for n in sorted(names):
        try:
            v = getattr(x, n)
            if isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
                setattr(x, n, v * 1.5 + 0.25)
            else:
                scramble(v, r, seen, depth + 1)
        except Exception:
            pass


def play(sc, ctx, tamper):
    r = Rnd(derive("tamper", sc["tamper"]))
    rngs = Rngs(sc["rng"], mode=sc["mode"])
    cfg = world.build_config(sc["spec"], rngs)
    sim = Simulation(**cfg)
    s = Session(sc["spec"], rngs, sim)
    s.used = []
    if tamper and sc["config"]:
        keep = dict(cfg)
        scramble({k: v for k, v in cfg.items() if r.chance(0.7)}, r)
        del keep
        stat("fault:overwrite-config")
    history, kept = [], []
    stash = {}

    def request(sim, op):
        scan = op["op"] == "scan"
        kw = world.scan_args(op) if scan else world.measure_args(op)
        if op.get("reuse"):      # arrays of an earlier call, refilled by the caller
            for k, v in kw.items():
                if isinstance(v, np.ndarray) and k in stash and stash[k].shape == v.shape and stash[k].dtype == v.dtype:
                    stash[k][...] = v
                    kw[k] = stash[k]
        for k, v in kw.items():
            if isinstance(v, np.ndarray):
                stash[k] = v
        before = digest(kw)
        c = sim.ideal_csd_config
        owned = None
        if isinstance(c, CacheCSD):
            if scan:
                if op.get("v"):
                    c.get_csd_data((op["v"][0],) * 2, (op["v"][1],) * 2, 1)
            else:
                c.get_csd_data(kw["sweep_range_g1"], kw["sweep_range_g2"], kw.get("resolution", np.array([100, 100])))
            owned = {k: digest(v) for k, v in c.cache.items()}
            stat("probe:cache-provider")
        request.args = kw
        try:
            out = (sim.measure_sensor_scan if scan else sim.measure)(**kw)
        finally:
            if digest(kw) != before:
                ctx.violate("arguments-modified", f"{op['op']} changed its arguments")
            if owned is not None:
                for k, d in owned.items():
                    if k not in c.cache or digest(c.cache[k]) != d:
                        ctx.violate("provider-modified", f"{op['op']} changed an array kept by the ideal-CSD provider")
        if owned is not None and not scan:
            key = [k for k in c.cache][-1]
            if any(not same(a, b) for a, b in zip(c.cache[key], out[1:3])):
                stat("probe:cache-distorted")
        if isinstance(out[1], np.ndarray) and op.get("default"):
            stat("probe:default-resolution")
        return out
    s.request = request
    for n, op in enumerate(sc["ops"]):
        s.rngs = Rngs((sc["rng"], n), mode=sc["mode"])
        res = s.step(op)
        if res[0] == "ok":
            # the step result holds the live arrays: take digests and plain copies now
            history.append(["ok"] + [np.array(x) for x in res[1:4]] + [res[4]])
            out = s.last
            arrays = [id(x) for x in out[:3]]
            if len(set(arrays)) != 3:
                ctx.violate("results-aliased", f"{op['op']} returns one array object twice")
            if any(np.shares_memory(out[i], out[j]) for i, j in ((0, 1), (0, 2), (1, 2))):
                ctx.violate("results-aliased", f"{op['op']} returns arrays sharing memory")
            if tamper and not op.get("keep"):
                t = op.get("tamper") or [1, 1, 1]
                if t[0]:
                    for x in out[:3]:
                        scramble(x, r)
                    stat("fault:overwrite-arrays")
                if t[1]:
                    scramble(out[3], r)
                    stat("fault:overwrite-metadata")
            else:
                kept.append((n, out, [digest(x) for x in out[:3]], meta_snap(out[3])))
            if tamper and (op.get("tamper") or [1, 1, 1])[2]:
                scramble(list(request.args.values()), r)
                stat("fault:overwrite-arguments")
        else:
            history.append(res)
        if tamper and s.used and r.chance(0.8):
            scramble(s.used, r)
            s.used = []
            stat("fault:overwrite-assigned")
    for n, out, digests, meta in kept:
        for name, x, d in zip(("signal", "first label", "second label"), out, digests):
            if digest(x) != d:
                ctx.violate("result-changed-later", f"{name} returned by operation {n} ({sc['ops'][n]['op']}) changed after it was returned")
        now = meta_snap(out[3])
        if now != meta:
            ctx.violate("result-changed-later", f"metadata returned by operation {n} changed after it was returned: {snap_diff(meta, now)}")
        stat("probe:kept-result")
    return history


def meta_snap(meta):
    from dst.props.c04 import flags
    return [pubsnap(meta, rng=True), repr([flags(meta.get(k)) for k in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")])]


def execute(sc, ctx):
    want = isolated(lambda: play(sc, ctx, False))
    got = isolated(lambda: play(sc, ctx, True))
    for n, (a, b) in enumerate(zip(want, got)):
        d = first_difference(b, a)
        if d:
            ctx.violate("later-result-changed", f"operation {n} ({sc['ops'][n]['op']}) differs after the caller overwrote results, arguments or configuration objects of earlier calls: {d}")
    ctx.reach([o["op"] + (("1" if isinstance(o["res"], int) else "2") if "res" in o else o["mut"]["m"] if "mut" in o else "") for o in sc["ops"]], sc["config"],
              [o.get("tamper") for o in sc["ops"]], sc["spec"]["csd"]["t"])
    ctx.nontrivial = sum(w[0] == "ok" for w in want) >= 2
