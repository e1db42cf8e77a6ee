"""C08 Activation flags, ratios and frozen replay are truthful."""
import copy

import numpy as np
from scipy import stats as st
from scipy.ndimage import gaussian_filter1d

from dst import world
from dst.core import digest, maxdiff, same
from dst.props.c07 import Reference
from dst.rng import Budget
from dst.session import LISTS
from dst.world import Rngs, build_list, build_sensor, do_request, gen_spec, rng_namer
from simcats import Simulation
from simcats.support_functions import fermi_filter1d

RUNS = {"quick": 1500, "thorough": 40000}
LEVEL = "exploration"
DRAW_BUDGET = 3_000_000
RULE = ("Five kinds of runs. twin: every measurement of a session is repeated from a copied state with one distortion removed; flag inactive requires bit-identical data, flag active requires different data where the noise "
        "is certain to show (block length forced to one pixel), ratio 0/1 means never/always. freq: hundreds of small measurements of mixed kinds; activations per kind against the ratio (binomial tail 1e-10), no memory "
        "(runs test) and no coupling between distortions (6.5 sigma). frozen: the whole stack of occupation distortions is replayed in frozen mode on the ideal data and must reproduce the measurement bit for bit, repeatedly, "
        "without moving any generator, flag or sample, and without effect on later measurements. report: samplers replaced by the values reported after the measurement must give the same data. blur: the reported width, "
        "converted with the pixel density of the swept gate, reproduces the blurred data. Non-trivial: something was compared; distinct by kind, distortion types, ratios and shapes.")
DISTINCT = "kind of run, distortion types, ratios, request shapes, activation patterns"
REAL = "Simulation, all distortions, samplers, both sensors, geometric ideal CSD in part of the runs"
STUBS = "random generators (SimRng, same streams as numpy, with forced outcomes in part of the runs); ideal CSD replaced by cheap models in most runs"
PROBES = ["probe:inactive-identical", "probe:active-differs", "probe:ratio-0", "probe:ratio-1", "probe:freq", "probe:frozen-active", "probe:frozen-inactive", "probe:frozen-stack", "probe:report", "probe:changed", "probe:blur-1d", "probe:blur-2d",
          "probe:twin-jumps", "probe:twin-prtn", "probe:twin-rrtn", "probe:frozen-outside", "fault:forced-binomial"]
ASSUMPTIONS = ["each distortion and sampler has its own generator", "for sensors with several potentials the flag of a potential distortion describes the latest of them (not judged against data)"]

RANGES = {"scale": (0.001, 0.05), "lam": (0.0005, 0.02), "std": (1e-6, 1e-3), "height": (1e-5, 1e-2), "sigma": (1e-5, 2e-3)}
RARE = (0.01, 0.03, 0.97, 0.99)
PARAMS = ("scale", "lam", "std", "height", "sigma")


def sure(r, d, cheap=True):
    """Change a distortion so that its noise certainly shows whenever it is active (jumps: if no other jumps hide it)."""
    d["sure"] = 1
    d["scale"] = 1e-9
    if d["t"] == "jumps":
        d["lam"] = r.u(1, 1.5, 3) if cheap else r.u(0.05, 0.1, 3)
    else:
        d["height"], d["std"] = (2e-3, 1e-6) if d["t"] == "prtn" else (0.5, 1e-3)
    return d


def generate(r, tier, i):
    kind = ("twin", "frozen", "report", "twin", "blur", "frozen", "freq")[i % 7]
    namer = rng_namer(r, shared=False)
    sc = {"kind": kind, "rng": r.randrange(10 ** 9), "bug": None}
    if kind == "freq":
        scan = r.chance(0.4)
        spec = {"csd": {"t": "steps"}, "limits": {}, "sensor": world.gen_scan_sensor(r, deform=0, rise=0) if scan else world.gen_generic(r), "occ": [], "pot": [], "resp": []}
        ratio = lambda: r.wpick([(0.5, 3), (r.u(0.1, 0.9, 3), 4), (0.03, 1), (0.97, 1), (0, .5), (1, .5)])  # noqa: E731
        for _ in range(r.randrange(1, 4)):
            t = r.pick(["jumps", "prtn", "rrtn"])
            d = {"t": t, "scale": world.gen_param(r, 0.02, 0.05, namer, 0.3), "ratio": ratio(), "rng": namer()}
            if t == "jumps":
                d.update(lam=0.002, axis=r.randrange(2))
            else:
                d.update(std=1e-5, height=1e-4)
            spec[{"jumps": "occ", "prtn": "pot", "rrtn": "resp"}[t]].append(d)
        sc.update(spec=spec, ops=[world.gen_request(r, spec, n2=(2, 4), n1=(2, 5)) for _ in range(r.randrange(1, 4))], order=[r.randrange(3) for _ in range(7)],
                  n=r.pick([300, 500, 700]) if tier == "quick" else r.pick([500, 1500]))
        return sc
    if kind == "blur":
        t = r.pick(["gauss", "fermi"])
        spec = {"csd": {"t": r.wpick([("steps", 4), ("probe", 2), ("geom", 1)])}, "limits": {}, "sensor": world.gen_generic(r), "pot": None, "resp": None,
                "occ": [{"t": t, "sigma": world.gen_param(r, 0.0002, 0.02, namer, 0.5)}]}
        sc.update(spec=spec, ops=[world.gen_measure(r, "generic", n2=(4, 14), n1=(5, 30)) for _ in range(r.randrange(1, 4))])
        return sc
    spec = gen_spec(r, csd=(("geom", 1), ("steps", 3), ("probe", 4)), sensor=(("generic", 4), ("scan", 2)), samplers=0.7 if kind == "report" else 0.4, nmax=3, limits=0, deform=0,
                    none_lists=0.02)
    for lst in ("occ", "pot", "resp"):
        for k, d in enumerate(spec[lst] or []):
            _private(d, namer)
            if "ratio" in d and kind == "twin" and r.chance(0.5) and not (d["t"] == "jumps" and any(x.get("sure") for x in spec[lst])):
                sure(r, d, spec["csd"]["t"] != "geom")
            if d.get("sure") and r.chance(0.3):
                d["ratio"] = r.pick(RARE)
            if "ratio" in d and kind in ("frozen", "report") and r.chance(0.5):
                d["ratio"] = r.wpick([(1, 2), (r.pick(RARE), 1)])
            if kind == "report" and d["t"] in ("prtn", "rrtn") and r.chance(0.5):
                d["scale"] = world.gen_param(r, 0.002, 0.03, namer, 0.7)
    if kind == "twin" and r.chance(0.6) and spec["sensor"]["t"] == "generic":
        spec["sensor"]["peaks"] = None
        spec["sensor"].pop("single", None)
    if kind == "frozen":
        spec["pot"] = spec["resp"] = None
        if not spec["occ"]:
            spec["occ"] = [{"t": "jumps", "scale": world.gen_param(r, 0.005, 0.05, namer, 0.4), "lam": world.gen_param(r, 0.002, 0.03, namer, 0.4), "axis": r.randrange(2), "ratio": 0.7, "rng": namer()}]
    if kind == "frozen" and r.chance(0.3):
        jumps = [d for d in spec["occ"] if d["t"] == "jumps"]
        if jumps:
            r.pick(jumps).update(ratio=r.pick(RARE), scale=r.logu(0.001, 0.02), lam=r.logu(0.005, 0.05))
    ops = []
    for _ in range(r.randrange(2, 6)):
        ops.append(world.gen_measure(r, spec["sensor"]["t"], n2=(3, 8), n1=(4, 14)) if kind == "frozen" or spec["sensor"]["t"] == "generic" or r.chance(0.5) else world.gen_scan(r))
        if r.chance(0.2):
            opts = [(s, k) for s in LISTS for k, d in enumerate(spec.get(s) or []) if "ratio" in d]
            if opts:
                s, k = r.pick(opts)
                ops.append({"op": "ratio", "stage": s, "i": k, "value": r.wpick([(0, 2), (1, 2), (0.5, 2), (r.pick(RARE), 1)])})
        if kind == "report" and r.chance(0.35):
            opts = [(s, k, q) for s in LISTS for k, d in enumerate(spec.get(s) or []) for q in PARAMS if q in d]
            if opts:
                s, k, q = r.pick(opts)
                ops.append({"op": "param", "stage": s, "i": k, "name": q, "value": 0.0 if q in ("sigma", "std", "height", "lam") and r.chance(0.5) else r.logu(*RANGES[q])})
    if kind == "twin" and any("sure" in d for lst in LISTS for d in spec[lst] or []):
        bug = {"binomial": 0.4} if r.chance(0.4) else None  # other forced outcomes could be zero jumps
    else:
        bug = {"binomial": 0.3, "geometric": 0.2, "poisson": 0.1} if r.chance(0.4) else None
    if any(d.get("ratio") in RARE for lst in LISTS for d in spec[lst] or []) and r.chance(0.8):
        bug = dict(bug or {}, binomial=0.6)     # the unlikely outcome now and then
    sc.update(spec=spec, ops=ops, bug=bug)
    return sc


def _private(d, namer):
    """Give the distortion and each of its samplers a generator of its own."""
    if d.get("rng") is not None:
        d["rng"] = namer.private()
    for p in PARAMS:
        if isinstance(d.get(p), dict):
            d[p]["rng"] = namer.private()


def build(sc, mode):
    rngs = Rngs(sc["rng"], mode=mode, bug=sc.get("bug"))
    return world.build_sim(sc["spec"], rngs), rngs


def live(sim):
    return {s: getattr(sim, LISTS[s]) or [] for s in LISTS}


def flags_of(sim):
    return [[getattr(d, "activated", "-") for d in lst] for lst in live(sim).values()]


def reported(d):
    out = [type(d).__name__, getattr(d, "activated", "-"), getattr(d, "latest_sigma", "-")]
    for n in PARAMS:
        p = getattr(d, n, None)
        out.append(p.last_sample() if hasattr(p, "last_sample") else "-")
    return out


def check_ratio(ctx, d, n):
    if not hasattr(d, "ratio"):
        return
    if d.ratio in (0, 1) and d.activated is not None and bool(d.activated) != bool(d.ratio):
        ctx.violate("ratio-01", f"measurement {n}: {type(d).__name__} with ratio {d.ratio} reports activated={d.activated}")
    if d.ratio in (0, 1):
        ctx.stat(f"probe:ratio-{int(d.ratio)}")


def used_stages(op):
    return ("pot", "resp") if op["op"] == "scan" else ("occ", "pot", "resp")


def execute(sc, ctx):
    {"twin": run_twin, "freq": run_freq, "frozen": run_frozen, "report": run_report, "blur": run_blur}[sc["kind"]](sc, ctx)
    ctx.reach(sc["kind"], [[d["t"], d.get("ratio")] for s in LISTS for d in sc["spec"].get(s) or []], [o["op"] + str(np.ndim(o.get("res", 0))) for o in sc["ops"]])


# ------------------------------------------------------------------ twin
def run_twin(sc, ctx):
    sim, _ = build(sc, "copy")
    three = sc["spec"]["sensor"]["t"] == "scan"
    flat = sc["spec"]["sensor"].get("peaks") is None
    for n, op in enumerate(sc["ops"]):
        if op["op"] == "ratio":
            getattr(sim, LISTS[op["stage"]])[op["i"]].ratio = op["value"]
            continue
        ctx.stat("op:" + op["op"])
        before = copy.deepcopy(sim)
        out = do_request(sim, op)
        fl = flags_of(sim)
        for s in used_stages(op):
            for k, d in enumerate(live(sim)[s]):
                if not hasattr(d, "activated"):
                    continue
                if d.activated not in (True, False):
                    ctx.violate("flag", f"measurement {n}: {type(d).__name__}.activated is {d.activated!r} after a measurement")
                check_ratio(ctx, d, n)
                if s == "pot" and three:
                    continue
                twin = copy.deepcopy(before)
                getattr(twin, LISTS[s]).pop(k)
                out2 = do_request(twin, op)
                diff = [x for x, a, b in zip(("signal", "occupations", "lead transitions"), out, out2) if not same(np.asarray(a), np.asarray(b))]
                spec_d = sc["spec"][s][k]
                ctx.stat("probe:twin-" + spec_d["t"])
                ctx.nontrivial = True
                if not d.activated and diff:
                    ctx.violate("inactive-but-applied", f"measurement {n}: {type(d).__name__} reports inactive, but without it {diff} differ: {maxdiff(out[0], out2[0])}")
                if not d.activated:
                    ctx.stat("probe:inactive-identical")
                    continue
                alone = s != "occ" or sum(bool(getattr(x, "activated", False)) for x in live(sim)[s]) == 1
                certain = spec_d.get("sure") and alone and (s == "resp" or s == "pot" and flat or s == "occ" and sc["spec"]["csd"]["t"] == "probe" and _swept(op, spec_d["axis"]))
                if certain:
                    if not diff:
                        ctx.violate("active-but-not-applied", f"measurement {n}: {type(d).__name__} reports active with noise certain to show, but without it the data is identical")
                    ctx.stat("probe:active-differs")
        ctx.reach(fl)


def _swept(op, axis):
    rr = op["r1"] if axis == 1 else op["r2"]
    return rr[0] != rr[1]


# ------------------------------------------------------------------ freq
def run_freq(sc, ctx):
    sim, _ = build(sc, "copy")
    ops = sc["ops"]
    order = sc["order"]
    seq = {(s, k): [] for s in LISTS for k in range(len(sc["spec"][s]))}
    for n in range(sc["n"]):
        op = ops[order[n % len(order)] % len(ops)]
        Budget.spend(1)
        do_request(sim, op)
        for (s, k), lst in seq.items():
            if s in used_stages(op):
                d = live(sim)[s][k]
                lst.append((order[n % len(order)] % len(ops), bool(d.activated)))
    ctx.stat("op:measure", sc["n"])
    ctx.stat("probe:freq", len(seq))
    ctx.nontrivial = True
    for (s, k), lst in seq.items():
        p = sc["spec"][s][k]["ratio"]
        name = f"{sc['spec'][s][k]['t']} with ratio {p}"
        for which in [None] + sorted({w for w, _ in lst}):
            xs = [a for w, a in lst if which is None or w == which]
            c, m = sum(xs), len(xs)
            tail = min(st.binom.cdf(c, m, p), st.binom.sf(c - 1, m, p))
            if tail < 1e-10:
                ctx.violate("frequency", f"{name}: active in {c} of {m} measurements" + ("" if which is None else f" of kind {ops[which]['op']} {ops[which]['res']}"))
        xs = np.array([a for _, a in lst], int)
        runs_test(ctx, xs, name, 1)
        runs_test(ctx, xs[::2], name, 2)
    keys = [q for q in seq if 0 < sc["spec"][q[0]][q[1]]["ratio"] < 1]
    for a in range(len(keys)):
        for b in range(a):
            x, y = [np.array([v for _, v in seq[keys[j]]], float) for j in (a, b)]
            if len(x) != len(y) or min(x.sum(), y.sum(), (1 - x).sum(), (1 - y).sum()) < 30:
                continue
            z = np.corrcoef(x, y)[0, 1] * np.sqrt(len(x))
            if abs(z) > 6.5:
                ctx.violate("not-independent", f"activations of {keys[a]} and {keys[b]} are correlated (z = {z:.1f} over {len(x)} measurements)")


def runs_test(ctx, xs, name, lag):
    n1, n = int(xs.sum()), len(xs)
    n0 = n - n1
    if min(n0, n1) < 30:
        return
    runs = 1 + int((np.diff(xs) != 0).sum())
    mu = 1 + 2 * n1 * n0 / n
    var = (mu - 1) * (mu - 2) / (n - 1)
    z = (runs - mu) / np.sqrt(var)
    if abs(z) > 6.5:
        ctx.violate("not-independent", f"{name}: activations of successive measurements (step {lag}) depend on each other: {runs} runs in {n}, expected {mu:.0f} (z = {z:.1f})")


# ------------------------------------------------------------------ frozen
def run_frozen(sc, ctx):
    sim, rngs = build(sc, "share")
    csd = world.build_csd(sc["spec"]["csd"])
    for n, op in enumerate(sc["ops"]):
        if op["op"] == "ratio":
            getattr(sim, LISTS[op["stage"]])[op["i"]].ratio = op["value"]
            continue
        ctx.stat("op:measure")
        out = do_request(sim, op)
        lst = sim.occupation_distortions or []
        states, rep = rngs.states(), [reported(d) for d in lst]
        for d in lst:
            check_ratio(ctx, d, n)
        r1, r2 = np.array(op["r1"], float), np.array(op["r2"], float)
        res = op["res"] if isinstance(op["res"], int) else np.array(op["res"])
        ref = Reference(csd, None, {"occ": lst})

        def unchanged(what):
            if [reported(d) for d in lst] != rep:
                ctx.violate("frozen-changes-report", f"measurement {n}: {what} changed flags or samples {rep} to {[reported(d) for d in lst]}")
            if rngs.states() != states:
                moved = [k for k, v in rngs.states().items() if v != states[k]]
                ctx.violate("frozen-draws", f"measurement {n}: {what} drew from generators {moved}")
        for t in range(2):
            occ, tr = ref.upto(len(lst))(r1, r2, res)
            for name, a, b in (("occupations", occ, out[1]), ("lead transitions", tr, out[2])):
                if not same(np.asarray(a), np.asarray(b)):
                    ctx.violate("frozen-differs", f"measurement {n}: frozen replay {t + 1} of {[d['t'] for d in sc['spec']['occ']]} on the ideal data does not reproduce the measured {name}: {maxdiff(a, b)}")
            unchanged("the frozen replay")
        act = [getattr(d, "activated", None) for d in lst]
        ctx.stat("probe:frozen-active" if any(act) else "probe:frozen-inactive")
        if len(lst) > 1:
            ctx.stat("probe:frozen-stack")
        # each distortion alone: an inactive one leaves frozen data alone, repeated replays agree, other data can be asked for
        for d in lst:
            o, t = ref.ideal(r1, r2, res)
            got = []
            for _ in range(2):
                a, b = o.copy(), t.copy()
                d.noise_function(a, b, r1, r2, ref.ideal, freeze=True)
                got.append((a, b))
            if digest(got[0]) != digest(got[1]):
                ctx.violate("frozen-not-repeatable", f"measurement {n}: two frozen replays of {type(d).__name__} on equal data differ: {maxdiff(got[0][0], got[1][0])}")
            if getattr(d, "activated", None) is False and not (same(got[0][0], o) and same(got[0][1], t)):
                ctx.violate("frozen-inactive-applied", f"measurement {n}: frozen replay of inactive {type(d).__name__} changed the data")
            shift = 0.37 * abs(r1[1] - r1[0]), 0.41 * abs(r2[1] - r2[0])
            q1, q2 = r1 - shift[0], r2 - shift[1]
            o, t = ref.ideal(q1, q2, res)
            d.noise_function(o, t, q1, q2, ref.ideal, freeze=True)
            ctx.stat("probe:frozen-outside")
            unchanged(f"a frozen replay of {type(d).__name__}")
        # the replays above must not have touched what the next replay gives
        occ, tr = ref.upto(len(lst))(r1, r2, res)
        if not (same(np.asarray(occ), np.asarray(out[1])) and same(np.asarray(tr), np.asarray(out[2]))):
            ctx.violate("frozen-differs", f"measurement {n}: a frozen replay on other data changed the frozen noise: {maxdiff(occ, out[1])}")
        ctx.nontrivial = True
        ctx.reach(act)


# ------------------------------------------------------------------ report
def run_report(sc, ctx):
    sim, _ = build(sc, "copy")
    three = sc["spec"]["sensor"]["t"] == "scan"
    if three:
        sim.sensor_potential_distortions = None
    for n, op in enumerate(sc["ops"]):
        if op["op"] == "ratio":
            if not (three and op["stage"] == "pot"):
                getattr(sim, LISTS[op["stage"]])[op["i"]].ratio = op["value"]
            continue
        if op["op"] == "param":
            if not (three and op["stage"] == "pot"):
                setattr(getattr(sim, LISTS[op["stage"]])[op["i"]], op["name"], op["value"])
                ctx.stat("probe:changed")
            continue
        ctx.stat("op:" + op["op"])
        twin = copy.deepcopy(sim)
        out = do_request(sim, op)
        for s in used_stages(op):
            for d, e in zip(live(sim)[s], live(twin)[s]):
                for p in PARAMS:
                    v = getattr(d, p, None)
                    if not hasattr(v, "last_sample"):
                        continue
                    used = v.last_sample()
                    if hasattr(d, "latest_sigma"):
                        if d.latest_sigma != used:
                            ctx.violate("report-inconsistent", f"measurement {n}: {type(d).__name__}.latest_sigma is {d.latest_sigma}, its sampler reports {used}")
                    if used is not None:
                        setattr(e, p, used)
                        ctx.stat("probe:report")
                        ctx.nontrivial = True
                if hasattr(d, "latest_sigma") and not hasattr(d.sigma, "last_sample") and d.latest_sigma != d.sigma:
                    ctx.violate("report-inconsistent", f"measurement {n}: {type(d).__name__}.latest_sigma is {d.latest_sigma}, configured is {d.sigma}")
        out2 = do_request(twin, op)
        for name, a, b in zip(("signal", "first label", "second label"), out, out2):
            if not same(np.asarray(a), np.asarray(b)):
                ctx.violate("report-not-applied", f"measurement {n} ({op['op']}): the {name} made with the reported parameter values differs: {maxdiff(a, b)}")
        if flags_of(sim) != flags_of(twin):
            ctx.violate("report-not-applied", f"measurement {n}: activations differ with the reported parameter values: {flags_of(sim)} / {flags_of(twin)}")


# ------------------------------------------------------------------ blur
def run_blur(sc, ctx):
    sim, _ = build(sc, "copy")
    csd = world.build_csd(sc["spec"]["csd"])
    filt = gaussian_filter1d if sc["spec"]["occ"][0]["t"] == "gauss" else fermi_filter1d
    for n, op in enumerate(sc["ops"]):
        out = do_request(sim, op)
        sigma = sim.occupation_distortions[0].latest_sigma
        r1, r2 = np.array(op["r1"], float), np.array(op["r2"], float)
        res = op["res"] if isinstance(op["res"], int) else np.array(op["res"])
        o, t = csd.get_csd_data(volt_limits_g1=r1, volt_limits_g2=r2, resolution=res)
        s1, s2 = abs(r1[1] - r1[0]), abs(r2[1] - r2[0])
        ctx.nontrivial = True
        if not same(np.asarray(out[2]), np.asarray(t)):
            ctx.violate("blur-labels", f"measurement {n}: blurring changed the lead transition mask")

        def want(less):
            if o.ndim == 3:
                dens = (o.shape[1] - less) / s1
            else:
                dens = max([(o.shape[0] - less) / s for s in (s1, s2) if s > 0])
            w = np.array(o, float)
            for k in (0, 1):
                w[..., k] = filt(w[..., k], sigma=sigma * dens)
            return w
        ctx.stat("probe:blur-2d" if o.ndim == 3 else "probe:blur-1d")
        best = [want(less) for less in (0, 1)]
        if not any(np.allclose(w, out[1], rtol=1e-9, atol=1e-9) for w in best):
            ctx.violate("blur-width", f"measurement {n} ({op['res']}): blurring with the reported width {sigma} V on the density of the swept gate gives other occupations: {maxdiff(best[0], out[1])}")
