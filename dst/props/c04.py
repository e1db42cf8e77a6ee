"""C04 Checkpoints resume the exact trajectory."""
import copy
import pickle

import numpy as np

from dst import world
from dst.core import digest, in_simcats, pubsnap, same, snap_diff
from dst.isolate import isolated
from dst.session import Session, first_difference, gen_session
from dst.world import Rngs, gen_default, gen_spec, rng_namer
from simcats import Simulation

RUNS = {"quick": 900, "thorough": 25000}
LEVEL = "exploration"
RULE = ("A run performs a random session once without interruption and once with crashes: at sampled points the simulation is dropped and rebuilt from the (pickled) metadata of the last "
        "measurement, from a pickle of any protocol, or from a deep copy, part of the time in a newly forked process, also after aborted and rejected calls; original and copy both continue "
        "and must give the uninterrupted results bit for bit. Each returned metadata dictionary is compared with the request, the public parameters before the call and the flags and samples after it. "
        "Non-trivial: at least one checkpoint was followed by a measurement in which random components were configured; distinct by operations, checkpoint kinds and positions.")
DISTINCT = "operation kinds, checkpoint kinds and positions, distortion types"
REAL = "Simulation, all distortions, samplers, both sensors, peaks, rises, barriers, deformations, geometric ideal CSD, numpy Generators in part of the runs"
STUBS = "random generators (SimRng, copied and pickled like numpy's) in part of the runs; ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["fault:restart-metadata", "fault:restart-pickle", "fault:restart-deepcopy", "fault:restart-process", "probe:after-failed-call", "probe:after-mutation", "probe:deformed",
          "probe:metadata-measure", "probe:metadata-scan", "probe:frozen-state", "probe:frozen-replay"]
ASSUMPTIONS = ["generators are not shared between the three distortion stages of one simulation (Simulation separates them when it is built)"]

FIELDS = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2", "ideal_csd_config", "sensor",
          "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")


def generate(r, tier, i):
    if r.chance(0.15):
        spec = gen_default(r)
    else:
        spec = gen_spec(r, csd=(("geom", 2), ("steps", 5), ("cache", 1)), sensor=(("generic", 2), ("scan", 3)), samplers=0.6, nmax=3, deform=0.4, none_lists=0.1)
        for lst in ("occ", "pot", "resp"):
            for d in spec[lst] or []:
                if "ratio" in d and r.chance(0.5):
                    d["ratio"] = r.pick([1, 0.5])
    ops, cur = gen_session(r, spec, rng_namer(r, start=1000), n=(4, 9), muts=0.25, rejects=0.08, aborts=0.14, retune=0.05, direct=0.05, samplers=0.5)
    for _ in range(2):
        ops.append(world.gen_scan(r) if cur["sensor"]["t"] == "scan" and r.chance(0.5) else world.gen_measure(r, cur["sensor"]["t"]))
    events = []
    for k in range(len(ops) - 1):
        if r.chance(0.5):
            o = ops[k]
            if o["op"] in ("measure", "scan") and r.chance(0.6):
                kind = "metadata"
            else:
                kind = r.pick(["pickle", "deepcopy"])
            events.append([k, kind, r.randrange(2, 6), r.chance(0.3), r.randrange(1, 3), r.chance(0.5)])
    return {"spec": spec, "ops": ops, "events": events, "rng": r.randrange(10 ** 9), "mode": r.wpick([("copy", 3), ("plain", 2)]), "kind": r.wpick([("pcg", 2), ("mixed", 1)]),
            "bug": {"binomial": 0.15, "geometric": 0.2, "poisson": 0.2, "uniform": 0.1, "normal": 0.1} if r.chance(0.2) else None}


def new_rngs(sc, n):
    return Rngs((sc["rng"], n), mode=sc["mode"], kind=sc["kind"], bug=sc.get("bug"))


def step(sc, s, n):
    s.rngs = new_rngs(sc, n)
    return s.step(sc["ops"][n])


def flags(dists):
    """Everything a distortion reports about its latest application."""
    out = []
    for d in dists or []:
        row = [type(d).__name__, getattr(d, "activated", "-"), getattr(d, "latest_sigma", "-")]
        for n in ("scale", "lam", "std", "height", "sigma"):
            p = getattr(d, n, None)
            row.append(p.last_sample() if hasattr(p, "last_sample") else "-")
        out.append(row)
    return out


def all_flags(sim):
    return [flags(sim.occupation_distortions), flags(sim.sensor_potential_distortions), flags(sim.sensor_response_distortions)]


def check_metadata(ctx, s, op, before, result_meta):
    scan = op["op"] == "scan"
    ctx.stat("probe:metadata-" + op["op"])
    m = result_meta
    args = world.scan_args(op) if scan else world.measure_args(op)
    names = (("sweep_range_sensor_g1", "sweep_range_sensor_g2", "volt_g1", "volt_g2") if scan else
             ("sweep_range_g1", "sweep_range_g2", "volt_sensor_g1", "volt_sensor_g2"))
    for k in names:
        if k not in m:
            ctx.violate("metadata-incomplete", f"{k} is missing")
        want = args.get(k)
        if (want is None) != (m[k] is None) or want is not None and not np.array_equal(np.asarray(m[k], float), np.asarray(want, float)):
            ctx.violate("metadata-wrong", f"{k} is {m[k]!r}, the request had {want!r}")
    if not np.array_equal(np.atleast_1d(m["resolution"]), np.atleast_1d(args["resolution"])):
        ctx.violate("metadata-wrong", f"resolution is {m['resolution']!r}, the request had {args['resolution']!r}")
    for k in FIELDS:
        if k not in m:
            ctx.violate("metadata-incomplete", f"{k} is missing")
        now = pubsnap(m[k])
        if now != before[k] and not (k == "ideal_csd_config" and now == pubsnap(s.sim.ideal_csd_config)):     # a caching provider may have cached
            ctx.violate("metadata-wrong", f"{k} in the metadata is not the one in effect when measuring: {snap_diff(before[k], now)}")
    for k in FIELDS[-3:]:
        if not same(flags(m[k]), flags(getattr(s.sim, k))):
            ctx.violate("metadata-wrong", f"flags/samples of {k} in the metadata {flags(m[k])} are not those of the measurement {flags(getattr(s.sim, k))}")
        if pubsnap(m[k], rng=True) != pubsnap(getattr(s.sim, k), rng=True):
            ctx.violate("metadata-wrong", f"generators of {k} in the metadata are not in the state after the measurement")


def replay(sim, op):
    """Frozen replay of the occupation distortions on the ideal data of a request."""
    kw = world.measure_args(op)
    a, b, res = kw["sweep_range_g1"], kw["sweep_range_g2"], kw["resolution"]
    gen = sim.ideal_csd_config.get_csd_data
    occ, trans = gen(a, b, res)
    occ, trans = np.array(occ, float), np.array(trans, float)
    out = []
    for d in sim.occupation_distortions or []:
        try:
            occ, trans = d.noise_function(occ, trans, a, b, gen, freeze=True)
            out.append(digest([occ, trans]))
        except Exception as e:
            if not in_simcats(e.__traceback__):
                raise
            out.append(type(e).__name__)
    return out


def restore(blob, kind, op_meta=None):
    if kind == "metadata":
        return Simulation(**{k: blob[k] for k in FIELDS})
    return blob


def execute(sc, ctx):
    n_ops = len(sc["ops"])
    sig = []

    def straight():
        rngs = new_rngs(sc, -1)
        s = Session(sc["spec"], rngs)
        out = []
        for n in range(n_ops):
            op = sc["ops"][n]
            before = {k: pubsnap(getattr(s.sim, k)) for k in FIELDS}
            res = step(sc, s, n)
            if res[0] == "ok":
                check_metadata(ctx, s, op, before, s.last[3])
            out.append((res, all_flags(s.sim)))
        return out, dict(ctx.stats)
    want, stats = isolated(straight)
    for k, v in stats.items():
        if k.startswith("probe:metadata"):
            ctx.stat(k, v)

    def compare(n, res, what):
        d = first_difference(res, want[n][0])
        if d:
            ctx.violate("trajectory-differs", f"operation {n} ({sc['ops'][n]['op']}) {what} differs from the uninterrupted session: {d}")

    def interrupted(start=0, s=None):
        """Continue from operation start, crash and restart where the events say."""
        if s is None:
            s = Session(sc["spec"], new_rngs(sc, -1))
        how = "before any restart"
        followed = False
        n = start
        while n < n_ops:
            res = step(sc, s, n)
            compare(n, res, how)
            for e in sc["events"]:
                if e[0] != n:
                    continue
                kind = e[1]
                if kind == "metadata":
                    if res[0] != "ok":
                        continue
                    data = s.last[3]
                    blob = pickle.dumps(data, protocol=e[2]) if e[5] else data
                    new = restore(pickle.loads(blob) if e[5] else blob, kind)
                elif kind == "pickle":
                    blob = pickle.dumps(s.sim, protocol=e[2])
                    new = pickle.loads(blob)
                else:
                    new = copy.deepcopy(s.sim)
                ctx.stat("fault:restart-" + kind)
                if res[0] in ("aborted", "rejected", "raised"):
                    ctx.stat("probe:after-failed-call")
                if any(o["op"] == "set" for o in sc["ops"][:n + 1]):
                    ctx.stat("probe:after-mutation")
                if s.spec["sensor"].get("deform"):
                    ctx.stat("probe:deformed")
                f = all_flags(new)
                if not same(f, want[n][1]):
                    ctx.violate("checkpoint-incomplete", f"flags and samples after restoring from {kind} at operation {n}: {f}, before: {want[n][1]}")
                last = [o for o in sc["ops"][:n + 1] if o["op"] == "measure"][-1:]
                if last and f[0]:
                    ra, rb = isolated(lambda: (replay(s.sim, last[0]), replay(new, last[0])))
                    ctx.stat("probe:frozen-replay")
                    if ra != rb:
                        ctx.violate("checkpoint-incomplete", f"frozen replay of the occupation distortions after restoring from {kind} at operation {n} differs from that of the original: {rb} vs {ra}")
                old = s
                s = Session(old.spec, None, new)
                how = f"after a restart from {kind} at operation {n}"
                if any(x[1] for x in f[0]):
                    ctx.stat("probe:frozen-state")
                # the dropped simulation lives on for a while: the copy must not notice, and neither must the original
                for m in range(n + 1, min(n_ops, n + 1 + e[4])):
                    compare(m, step(sc, old, m), f"of the original after {kind} was taken at operation {n}")
                if e[3]:
                    ctx.stat("fault:restart-process")

                    def child(s=s, n=n):
                        for m in range(n + 1, n_ops):
                            compare(m, step(sc, s, m), f"in another process after a restart from {kind} at operation {n}")
                    isolated(child)
                followed = followed or any(o["op"] in ("measure", "scan") for o in sc["ops"][n + 1:])
                sig.append([n, kind])
            n += 1
        return followed
    followed = interrupted()
    kinds = [d["t"] for lst in ("occ", "pot", "resp") for d in sc["spec"].get(lst) or []]
    ctx.reach([o["op"] + (("1" if isinstance(o["res"], int) else "2") if "res" in o else o["mut"]["m"] if "mut" in o else "") for o in sc["ops"]], sig, kinds)
    ctx.nontrivial = bool(followed and kinds)
