"""C09 Dot jumps displace the measured system rigidly."""
import copy

import numpy as np
from scipy import stats as st

from dst import world
from dst.core import maxdiff
from dst.rng import Budget
from dst.world import CUSTOM, Rngs, build_csd, do_request, gen_param, grid, rng_namer
from simcats.ideal_csd import IdealCSDInterface

RUNS = {"quick": 2000, "thorough": 60000}
LEVEL = "exploration"
DRAW_BUDGET = 3_000_000
RULE = ("Four kinds of runs. decode: the ideal CSD is a stub whose occupations are the voltages, so the displacement of every pixel of every measurement of a session can be read off: it must be a whole number of pixels, "
        "never towards higher voltage, the same for all pixels sharing a coordinate, zero at the low-voltage end and alternate between undisplaced and displaced blocks, jointly for both occupations and the lead transition, "
        "also with jumps along both gates, forced very long/short blocks and forced large displacements. same-axis: two jumps along one gate must compose. system: on models with real charge steps, the geometric ideal CSD "
        "and blurred data, every pixel must show the otherwise distorted system at the displaced voltages. stats: block lengths and heights of many measurements against Binomial/Poisson models set in volts by scale and lam. "
        "Non-trivial: at least one pixel was displaced; distinct by kind, axes, shapes, directions and displacement patterns.")
DISTINCT = "kind of run, axes, request shapes and directions, displacement patterns"
REAL = "Simulation, OccupationDotJumps, transition blurring, samplers, SensorGeneric, geometric ideal CSD in part of the runs"
STUBS = "ideal CSD replaced by models that encode voltages or have steps in most runs; random generators (SimRng, same streams as numpy, with forced outcomes in part of the runs)"
PROBES = ["probe:displaced", "probe:both-axes", "probe:outside", "probe:one-wide", "probe:1d-both", "probe:1d-single", "probe:2d-square", "probe:2d-wide", "probe:reversed", "probe:unswept", "probe:inactive", "probe:same-axis",
          "probe:system-geom", "probe:system-cells", "probe:system-blur", "probe:stats", "probe:share", "probe:scale-below-pixel", "probe:jump-over-255", "fault:forced-poisson", "fault:forced-geometric", "probe:sampled"]
ASSUMPTIONS = ["the pixel density may be counted as n or n-1 pixels per range", "blurred data is compared with blurring on the original or on the displaced sweep (the edges of the sweep differ)"]


class CellCSD(IdealCSDInterface):
    """Integer occupations; occupations and mask are functions of the voltages of the pixel alone."""

    def __init__(self, p1, p2, cross):
        self.p1, self.p2, self.cross = p1, p2, cross

    def args(self, v):
        return (v[..., 0] + self.cross * v[..., 1] + 1.7) / self.p1, (v[..., 1] + self.cross * v[..., 0] + 1.7) / self.p2

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        v = grid(volt_limits_g1, volt_limits_g2, resolution)
        a, b = self.args(v)
        occ = np.stack([np.floor(a), np.floor(b)], -1)
        frac = np.minimum(a - np.floor(a), b - np.floor(b))
        return occ, np.where(frac < 0.15, np.mod(occ.sum(-1), 17) + 1, 0).astype(np.uint8)


CUSTOM["cells"] = lambda d, rngs: CellCSD(d["p1"], d["p2"], d["cross"])


def gen_op(r, big=1, **kw):
    op = world.gen_measure(r, "generic", n2=(2, 12 * big), n1=(2, 40 * big), oned=0.45, reverse=0.45, **kw)
    return op


def gen_jumps(r, namer, axis, samplers=0.4):
    return {"t": "jumps", "axis": axis, "scale": gen_param(r, 0.0008, 0.08, namer, samplers), "lam": gen_param(r, 0.0005, 0.06, namer, samplers), "ratio": r.wpick([(1, 6), (0.5, 2)]), "rng": namer()}


def generate(r, tier, i):
    kind = ("decode", "system", "decode", "stats", "decode", "same-axis", "decode", "system")[i % 8]
    namer = rng_namer(r, shared=False)
    sc = {"kind": kind, "rng": r.randrange(10 ** 9), "bug": None, "sensor": world.gen_generic(r)}
    if kind == "stats":
        n = r.randrange(40, 130) if not r.chance(0.35) else r.randrange(6, 40)
        axis = r.randrange(2)
        op = None
        while op is None or not swept(op, axis) or (isinstance(op["res"], int) and op["r1"][0] != op["r1"][1] and op["r2"][0] != op["r2"][1] and r.chance(0.5)):
            op = gen_op(r)
        if isinstance(op["res"], int):
            op["res"] = n
        else:
            op["res"] = [2, 2]
            op["res"][1 - axis] = n     # res is [g1, g2]; axis 1 is g1
        span = abs(np.subtract(*(op["r1"] if axis == 1 else op["r2"])))
        step = span / n
        both = isinstance(op["res"], int) and swept(op, 0) and swept(op, 1)
        lam = r.u(6, 18) if both else r.u(10, 40)     # a request per displaced pixel in this case
        sc_ = r.u(1.2, 8) if not r.chance(0.2) else r.u(0.05, 0.9)
        if r.chance(0.35):
            # displacements of zero pixels are common: the share of displaced pixels
            lam, sc_ = r.u(0.2, 2), r.u(1.2, 5)
            sc.update(op=op, share=True, n=int(r.u(60, 120)), sub=False,
                      occ=[{"t": "jumps", "axis": axis, "scale": float(sc_ * step), "lam": float(lam * step), "ratio": 1, "rng": namer()}])
            return sc

        def p(mid):
            if r.chance(0.3) and mid > 1:
                w = 0.3 * mid
                return {"s": "uniform", "range": [float((mid - w) * step), float((mid + w) * step)], "rng": namer()}
            return float(mid * step)
        sc.update(op=op, occ=[{"t": "jumps", "axis": axis, "scale": p(max(sc_, 0.05)), "lam": p(lam), "ratio": r.pick([1, 1, 0.7]), "rng": namer()}], sub=sc_ < 1,
                  n=min(int(r.pick([1, 2]) * (1200 if both else 2400) / n) + 2, 400))
        return sc
    if kind == "system":
        csd = r.wpick([("cells", 5), ("geom", 3)])
        c = {"t": "cells", "p1": r.u(0.004, 0.03, 5), "p2": r.u(0.004, 0.03, 5), "cross": r.u(0.05, 0.4, 3)} if csd == "cells" else {"t": "geom", "lut": 300}
        blur = [{"t": r.pick(["gauss", "fermi"]), "sigma": gen_param(r, 0.0001, 0.003, namer, 0.3)}] if r.chance(0.35) else []
        axis = r.randrange(2)
        sc.update(csd=c, occ=blur + [gen_jumps(r, namer, axis)], ops=[gen_op(r) for _ in range(r.randrange(1, 4))])
    elif kind == "same-axis":
        axis = r.randrange(2)
        sc.update(occ=[gen_jumps(r, namer, axis), gen_jumps(r, namer, axis)], ops=[gen_op(r) for _ in range(r.randrange(1, 4))])
    else:
        axes = r.wpick([([0], 3), ([1], 3), ([0, 1], 2), ([1, 0], 2)])
        sc.update(occ=[gen_jumps(r, namer, a) for a in axes], ops=[gen_op(r) for _ in range(r.randrange(2, 7))])
        if r.chance(0.08):
            sc["occ"][0].update(lam=r.u(0.5, 3, 3), ratio=1)
            for op in sc["ops"]:
                if not isinstance(op["res"], int):
                    op["res"][1 - sc["occ"][0]["axis"]] = r.randrange(40, 90)
    if r.chance(0.35):
        sc["bug"] = {"geometric": 0.3, "poisson": 0.2, "binomial": 0.1}
    return sc


def swept(op, axis):
    rr = op["r1"] if axis == 1 else op["r2"]
    return rr[0] != rr[1]


def sim_of(sc, csd, occ):
    rngs = Rngs(sc["rng"], mode="copy", bug=sc["bug"])
    return world.build_sim({"csd": csd, "sensor": sc["sensor"], "occ": occ, "pot": None, "resp": None, "limits": {}}, rngs)


def measure(sim, op):
    out = do_request(sim, op)
    return np.asarray(out[1], float), np.asarray(out[2], float)


def npx(op, axis):
    return op["res"] if isinstance(op["res"], int) else op["res"][0 if axis == 1 else 1]


def step_of(op, axis):
    rr = op["r1"] if axis == 1 else op["r2"]
    return abs(rr[1] - rr[0]) / (npx(op, axis) - 1)


def along(x, op, axis):
    """The values of a per-pixel array along the jump gate from low to high voltage, after checking that they are shared."""
    rr = op["r1"] if axis == 1 else op["r2"]
    if x.ndim == 2:
        x = x if axis == 1 else x.T
        spread = np.ptp(x, axis=0).max()
        x = x[0]
    else:
        spread = 0
    return (x[::-1] if rr[0] > rr[1] else x), spread


def decode(ctx, op, occ, trans, axes, what):
    """Displacements in pixels per jump axis, sorted from low to high voltage, with all structural checks."""
    nom = grid(op["r1"], op["r2"], op["res"])
    out = {}
    if occ.shape != nom.shape or trans.shape != nom.shape[:-1]:
        ctx.violate("shape", f"{what}: shapes {occ.shape} and {trans.shape}, expected {nom.shape}")
    csd = world.ProbeCSD()
    want_t = occ[..., 0] * csd.mix[0] + occ[..., 1] * csd.mix[1]
    if not np.allclose(trans, want_t, rtol=1e-9, atol=1e-9):
        ctx.violate("not-joint", f"{what}: the lead transitions are not displaced jointly with the occupations: {maxdiff(trans, want_t)}")
    for axis in (0, 1):
        k = 0 if axis == 1 else 1
        diff = nom[..., k] - occ[..., k]
        if axis not in axes or not swept(op, axis):
            if np.abs(diff).max() > 1e-12:
                ctx.violate("wrong-gate", f"{what}: voltages of gate {k + 1} displaced by up to {np.abs(diff).max()} V (jumps along {sorted(axes)})")
            if axis in axes:
                ctx.stat("probe:unswept")
            continue
        d = diff / step_of(op, axis)
        n = np.round(d)
        if np.abs(d - n).max() > 1e-5:
            ctx.violate("not-whole-pixels", f"{what}: displacement along gate {k + 1} is {d.flat[np.abs(d - n).argmax()]:.4f} pixels")
        if n.min() < 0:
            ctx.violate("upwards", f"{what}: displaced towards higher voltage of gate {k + 1} by {-n.min():.0f} pixels")
        row, spread = along(n, op, axis)
        if spread:
            ctx.violate("not-rigid", f"{what}: pixels sharing a voltage of gate {k + 1} are displaced differently (spread {spread:.0f} pixels)")
        if row[0] != 0:
            ctx.violate("first-block", f"{what}: the block at the low-voltage end of gate {k + 1} is displaced by {row[0]:.0f} pixels ({row.astype(int).tolist()})")
        chg = np.nonzero(np.diff(row))[0]
        bad = [j for j in chg if row[j] != 0 and row[j + 1] != 0]
        if bad:
            ctx.violate("not-alternating", f"{what}: displaced blocks along gate {k + 1} touch without an undisplaced block in between: {row.astype(int).tolist()}")
        out[axis] = row
        if row.any():
            ctx.stat("probe:displaced")
            ctx.nontrivial = True
            if (np.arange(len(row)) - row < 0).any():
                ctx.stat("probe:outside")
            if row.max() == 1:
                ctx.stat("probe:one-wide")
            if row.max() > 255:
                ctx.stat("probe:jump-over-255")
            ctx.stat("probe:reversed", int((op["r1"] if axis == 1 else op["r2"])[0] > (op["r1"] if axis == 1 else op["r2"])[1]))
            if isinstance(op["res"], int):
                ctx.stat("probe:1d-both" if swept(op, 0) and swept(op, 1) else "probe:1d-single")
            else:
                ctx.stat("probe:2d-square" if op["res"][0] == op["res"][1] else "probe:2d-wide")
    return out


def execute(sc, ctx):
    {"decode": run_decode, "same-axis": run_same, "system": run_system, "stats": run_stats}[sc["kind"]](sc, ctx)


def spend(op, sc):
    Budget.spend(200)


def run_decode(sc, ctx):
    sim = sim_of(sc, {"t": "probe"}, sc["occ"])
    for i, op in enumerate(sc["ops"]):
        ctx.stat("op:measure")
        spend(op, sc)
        occ, trans = measure(sim, op)
        act = {d["axis"] for d, o in zip(sc["occ"], sim.occupation_distortions) if o.activated}
        for d, o in zip(sc["occ"], sim.occupation_distortions):
            if not o.activated:
                ctx.stat("probe:inactive")
        rows = decode(ctx, op, occ, trans, act, f"measurement {i}")
        if len([1 for x in rows.values() if x.any()]) == 2:
            ctx.stat("probe:both-axes")
        if any(isinstance(d[k], dict) for d in sc["occ"] for k in ("scale", "lam")):
            ctx.stat("probe:sampled")
        ctx.reach(op["res"], sorted(rows), [np.diff(x).astype(bool).sum().item() for x in rows.values()])


def run_same(sc, ctx):
    a, b = sc["occ"]
    axis = a["axis"]
    sims = [sim_of(sc, {"t": "probe"}, lst) for lst in ([a, b], [a], [b])]
    for i, op in enumerate(sc["ops"]):
        spend(op, sc)
        outs = [measure(s, op) for s in sims]
        ctx.stat("op:measure")
        if not swept(op, axis):
            decode(ctx, op, *outs[0], {axis}, f"measurement {i}")
            continue
        na, nb = [decode(ctx, op, *o, {axis}, f"measurement {i}").get(axis) for o in outs[1:]]
        k = 0 if axis == 1 else 1
        nom = grid(op["r1"], op["r2"], op["res"])
        d = np.round((nom[..., k] - outs[0][0][..., k]) / step_of(op, axis))
        got, spread = along(d, op, axis)
        if spread:
            ctx.violate("not-rigid", f"measurement {i}: stacked jumps: pixels sharing a voltage are displaced differently")
        single = isinstance(op["res"], int)
        for j in range(len(got)):
            if single:
                want = na[j] + nb[j] if nb[j] == 0 else None
            else:
                src = j - int(nb[j])
                want = nb[j] + na[src] if src >= 0 else None
            if want is not None and got[j] != want:
                ctx.violate("stacked", f"measurement {i}: pixel {j} is displaced by {got[j]:.0f} pixels, the single jumps give {want:.0f} (first {na.astype(int).tolist()}, second {nb.astype(int).tolist()})")
        ctx.stat("probe:same-axis")
        ctx.reach(op["res"], axis, int(na.max()), int(nb.max()))


def run_system(sc, ctx):
    jump = sc["occ"][-1]
    axis = jump["axis"]
    blur = sc["occ"][:-1]
    sim, twin, probe = sim_of(sc, sc["csd"], sc["occ"]), sim_of(sc, sc["csd"], blur), sim_of(sc, {"t": "probe"}, [jump])
    csd = build_csd(sc["csd"])
    for i, op in enumerate(sc["ops"]):
        spend(op, sc)
        ctx.stat("op:measure")
        o, t = measure(sim, op)
        o0, t0 = measure(twin, op)
        po, pt = measure(probe, op)
        act = {axis} if probe.occupation_distortions[0].activated else set()
        rows = decode(ctx, op, po, pt, act, f"measurement {i} (voltages)")
        if not swept(op, axis) or not act:
            rows = {axis: np.zeros(npx(op, axis))}
        row = rows[axis].astype(int)
        rr = op["r1"] if axis == 1 else op["r2"]
        rev = rr[0] > rr[1]
        n = len(row)
        nn = row[::-1] if rev else row          # in sweep order

        def take(x, k):
            return x[k] if x.ndim <= 2 and isinstance(op["res"], int) else (x[:, k] if axis == 1 else x[k])
        shifted = {}
        for k in range(n):
            src = k + nn[k] if rev else k - nn[k]
            step = step_of(op, axis) * nn[k]
            cand = []
            inside = 0 <= src < n
            diag = isinstance(op["res"], int) and swept(op, 0) and swept(op, 1)
            if nn[k] == 0 or inside and not diag:
                cand.append((take(o0, src), take(t0, src)))
            if nn[k] != 0 and (not cand or blur):
                # the otherwise distorted system on the displaced sweep
                if nn[k] not in shifted:
                    q1, q2 = np.array(op["r1"], float), np.array(op["r2"], float)
                    (q1 if axis == 1 else q2)[:] -= step
                    s = np.array(op["res"]) if not isinstance(op["res"], int) else op["res"]
                    if sc["csd"]["t"] == "geom" and not isinstance(op["res"], int):
                        shifted[nn[k]] = None       # the drawn transitions depend on the pixel raster of the request
                    else:
                        a, b = csd.get_csd_data(volt_limits_g1=q1, volt_limits_g2=q2, resolution=s)
                        a, b = np.array(a, float), np.array(b, float)
                        for d in copy.deepcopy(sim.occupation_distortions[:-1]):
                            a, b = d.noise_function(a, b, q1, q2, csd.get_csd_data, freeze=True)
                        shifted[nn[k]] = (a, b)
                if shifted[nn[k]] is None:
                    if not cand:
                        continue
                else:
                    a, b = shifted[nn[k]]
                    cand.append((take(a, k), take(b, k)))
            if blur and nn[k] and not isinstance(op["res"], int) and not inside:
                continue        # blurring of the data next to the sweep depends on how much of it is asked for
            ok = any(close(take(o, k), a, blur) and mask_close(take(t, k), b, sc, op, axis, nn[k], csd, k) for a, b in cand)
            if not ok and not near_step(sc, op, axis, k, nn[k], csd):
                a, b = cand[0]
                ctx.violate("not-the-system", f"measurement {i} ({sc['csd']['t']}): pixel(s) {k} along gate {2 - axis} displaced by {nn[k]} do not show the otherwise distorted system at the displaced voltages: "
                            f"occupations {maxdiff(take(o, k), a)}, transitions {maxdiff(take(t, k), b)}")
        ctx.stat("probe:system-" + ("blur" if blur else sc["csd"]["t"]), int(row.any()))
        ctx.reach(op["res"], axis, rev, sc["csd"]["t"], bool(blur), int(row.max()))


def close(a, b, blur):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9)


def mask_close(a, b, sc, op, axis, n, csd, k):
    if sc["csd"]["t"] == "geom" and isinstance(op["res"], int) and n:
        return True         # a 1D mask marks changes to the neighbouring pixel of the request
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


def near_step(sc, op, axis, k, n, csd):
    """Is a pixel so close to a charge step that rounding of its voltage decides?"""
    if sc["csd"]["t"] != "cells":
        return False
    v = grid(op["r1"], op["r2"], op["res"])
    v[..., 0 if axis == 1 else 1] -= n * step_of(op, axis)
    v = v[k] if isinstance(op["res"], int) else v[:, k] if axis == 1 else v[k]
    for a in csd.args(v):
        for off in (0, 0.15):
            if (np.abs(a - off - np.round(a - off)) < 1e-7).any():
                return True
    return False


def run_share(sc, ctx):
    """With small displacements blocks of height zero occur: they count as displaced blocks, so the next one is undisplaced."""
    op, d = sc["op"], sc["occ"][0]
    axis = d["axis"]
    n = npx(op, axis)
    span = step_of(op, axis) * (n - 1)
    sim = sim_of(sc, {"t": "probe"}, sc["occ"])
    tot = []
    for i in range(sc["n"]):
        Budget.spend(100)
        ctx.stat("op:measure")
        row = decode(ctx, op, *measure(sim, op), {axis}, f"measurement {i}")[axis]
        tot.append((row > 0).sum())
    want = []
    for m in (n, n - 1):        # pixel density
        p = 1 / max(1.0, d["scale"] * m / span)
        q = 1 - np.exp(-d["lam"] * m / span)
        want.append((0.5 * (1 - (1 - 2 * p) ** np.arange(n)) * q).sum())
    mean, err = np.mean(tot), np.std(tot, ddof=1) / np.sqrt(len(tot)) + 0.3 / len(tot)
    ctx.stat("probe:share")
    if not min(want) - 6.5 * err - 0.003 * n <= mean <= max(want) + 6.5 * err + 0.003 * n:
        ctx.violate("share", f"{len(tot)} sweeps of {n} pixels, scale {d['scale']}, lam {d['lam']} on {span:.4f} V: {mean:.3f} +- {err:.3f} pixels are displaced on average, "
                    f"alternating undisplaced and displaced blocks give {want[0]:.3f}")
    ctx.reach("share", op["res"], axis, round(d["lam"] * n / span, 2))


def run_stats(sc, ctx):
    if sc.get("share"):
        return run_share(sc, ctx)
    op, d = sc["op"], sc["occ"][0]
    axis = d["axis"]
    n, span = npx(op, axis), step_of(op, axis) * (npx(op, axis) - 1)
    sim = sim_of(sc, {"t": "probe"}, sc["occ"])
    jump = sim.occupation_distortions[0]
    cnt = {s: dict(trials=0, hits=0, exp=0.0, var=0.0) for s in (0, 1)}
    heights = []        # (height, expected)
    nact = 0
    for i in range(sc["n"]):
        Budget.spend(100)
        ctx.stat("op:measure")
        occ, trans = measure(sim, op)
        if not jump.activated:
            continue
        nact += 1
        row = decode(ctx, op, occ, trans, {axis}, f"measurement {i}")[axis]
        scale = jump.scale.last_sample() if hasattr(jump.scale, "last_sample") else jump.scale
        lam = jump.lam.last_sample() if hasattr(jump.lam, "last_sample") else jump.lam
        p = 1 / max(1.0, scale * n / span)
        on = row > 0
        for s in (0, 1):
            at = np.nonzero(on[:-1] == bool(s))[0]
            c = cnt[s]
            c["trials"] += len(at)
            c["hits"] += int((on[at + 1] != on[at]).sum())
            c["exp"] += len(at) * p
            c["var"] += len(at) * p * (1 - p)
        starts = np.nonzero(on & ~np.r_[False, on[:-1]])[0]
        heights += [(row[j], lam * n / span) for j in starts]
    tol = 1.5 / n
    name = f"{nact} sweeps of {n} pixels, scale {d['scale']}, lam {d['lam']} on {span:.4f} V"
    if sc["sub"] and nact:
        ctx.stat("probe:scale-below-pixel")
    for s in (0, 1):
        c = cnt[s]
        if c["trials"] < 60:
            continue
        ctx.stat("probe:stats")
        dev = abs(c["hits"] - c["exp"])
        if dev > 6.5 * np.sqrt(c["var"] + 1e-9) + tol * c["exp"] + 3:
            ctx.violate("block-length", f"{name}: {'displaced' if s else 'undisplaced'} blocks end {c['hits']} times in {c['trials']} pixels, expected {c['exp']:.1f}")
    if len(heights) > 30:
        h = np.array([x for x, _ in heights])
        e = np.array([x for _, x in heights])
        if abs(h.sum() - e.sum()) > 6.5 * np.sqrt(e.sum()) + tol * e.sum() + 0.01 * len(e):
            ctx.violate("height", f"{name}: mean displacement {h.mean():.3f} pixels over {len(h)} blocks, expected {e.mean():.3f}")
        chi = (((h - e) ** 2) / e).sum()
        # truncated at blocks of height zero, which does not matter for lam >= 6 pixels
        if chi > st.chi2.isf(1e-11, len(h)) * (1 + 2 * tol + e.mean() * tol ** 2) or chi < st.chi2.isf(1 - 1e-11, len(h)) * (1 - 2 * tol):
            ctx.violate("height-spread", f"{name}: displacements of {len(h)} blocks have dispersion {chi / len(h):.3f}, a Poisson law gives 1")
    ctx.reach(op["res"], axis, round(d["scale"] if not isinstance(d["scale"], dict) else -1, 4), nact)
