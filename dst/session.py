"""Sessions: sequences of measurements, parameter changes, retunings, rejected and aborted calls on one simulation.

Every parameter change is applied to the simulation (by assignment or in place) and, in parallel, to the JSON spec, so that
a fresh simulation with the parameters in effect can be built at any point.
"""
import copy
import json

import numpy as np

from dst import world
from dst.core import HarnessError, describe_exc, in_simcats
from dst.fault import EXC, Tracer
from dst.rng import stat
from dst.world import (G1_LIM, G2_LIM, S_LIM, build_barrier, build_csd, build_distortion, build_list, build_param, build_peak,
                       build_sensor, do_request, gen_generic, gen_measure, gen_occ_list, gen_param, gen_pot_list, gen_request,
                       gen_resp_list, gen_scan, gen_scan_sensor, measure_args, rng_namer, runtime_of, scan_args)
from simcats.sensor import SensorRiseGLF

LISTS = {"occ": "occupation_distortions", "pot": "sensor_potential_distortions", "resp": "sensor_response_distortions"}
PEAK = {"mu0": "mu0", "h": "height", "o": "offset"}
BARRIER = {"h": "asymptote_right", "rate": "growth_rate", "asym": "asymmetry", "shape": "shape_factor", "o": "offset",
           "pp": "pinch_off_percentage", "fp": "fully_conductive_percentage"}
RISE = {"h": "asymptote_right", "rate": "growth_rate", "asym": "asymmetry", "shape": "shape_factor", "mu0": "mu0"}
LIMIT = {"g1": "volt_limits_g1", "g2": "volt_limits_g2", "s1": "volt_limits_sensor_g1", "s2": "volt_limits_sensor_g2"}


def build_rise(r):
    return SensorRiseGLF(mu0=r["mu0"], asymptote_left=0, asymptote_right=r["h"], growth_rate=r["rate"], asymmetry=r["asym"],
                         shape_factor=r["shape"], fully_conductive_percentage=r.get("fp", 0.999))


# ------------------------------------------------------------------ parameter changes
def apply_spec(spec, m):
    """The spec after change m."""
    s, m = json.loads(json.dumps([spec, m]))
    k = m["m"]
    sen = s.get("sensor")
    if k == "limit":
        s.setdefault("limits", {})[m["which"]] = m["value"]
    elif k == "sensor":
        s["sensor"] = m["value"]
    elif k == "sattr":
        sen[m["name"]] = m["value"]
    elif k == "sitem":
        if sen[m["name"]] is None:
            sen[m["name"]] = [0, 0, 0] if m["name"] == "offset_mu_sens" else [[0, 0], [0, 0], [0, 0]]
        sen[m["name"]][m["i"]] = m["value"]
    elif k == "offset":
        sen["offset"] = m["value"]
    elif k == "peak":
        sen["peaks"][m["i"]][m["field"]] = m["value"]
    elif k == "peaks":
        sen["peaks"] = m["value"]
        sen.pop("single", None)
    elif k == "barrier":
        if len(sen["barriers"]) == 1:
            sen["barriers"] = [sen["barriers"][0], dict(sen["barriers"][0])]
        sen["barriers"][m["i"]][m["field"]] = m["value"]
    elif k == "barriers":
        sen["barriers"] = m["value"]
    elif k == "rise":
        sen["rise"] = m["value"]
    elif k == "risefield":
        sen["rise"][m["field"]] = m["value"]
    elif k == "deform":
        d = sen["deform"][m["k"]]
        d["angle" if d["t"] == "lin" else "radius"] = m["value"]
    elif k == "deform-del":
        del sen["deform"][m["k"]]
    elif k == "dist":
        s[m["stage"]][m["i"]][m["field"]] = m["value"]
    elif k == "list":
        s[m["stage"]] = m["value"]
    elif k == "append":
        s[m["stage"]].append(m["value"])
    elif k == "pop":
        s[m["stage"]].pop(m["i"])
    elif k == "swap":
        lst = s[m["stage"]]
        lst[m["i"]], lst[m["j"]] = lst[m["j"]], lst[m["i"]]
    elif k == "csd":
        s["csd"] = m["value"]
    elif k == "csdattr":
        s["csd"][m["name"]] = m["value"]
    else:
        raise HarnessError(k)
    return s


def apply_sim(sim, spec, m, rngs, used=None):
    """Apply change m to the simulation; spec is the one before the change.  Objects handed over by assignment go to used."""
    k = m["m"]

    def keep(x):
        if used is not None and x is not None:
            used.append(x)
        return x
    arr = lambda v: keep(None if v is None else np.array(v, dtype=float))  # noqa: E731
    if k == "limit":
        name = LIMIT[m["which"]]
        if m.get("inplace") and m["value"] is not None and getattr(sim, name) is not None:
            getattr(sim, name)[:] = m["value"]
        else:
            setattr(sim, name, arr(m["value"]))
    elif k == "sensor":
        sim.sensor = keep(build_sensor(m["value"]))
    elif k == "sattr":
        if m.get("inplace"):
            getattr(sim.sensor, m["name"])[...] = np.array(m["value"], dtype=float)
        else:
            setattr(sim.sensor, m["name"], arr(m["value"]))
    elif k == "sitem":
        getattr(sim.sensor, m["name"])[m["i"]] = np.array(m["value"], dtype=float)
    elif k == "offset":
        sim.sensor.offset_mu_sens = m["value"]
    elif k == "peak":
        p = sim.sensor.sensor_peak_function[m["i"]]
        f = PEAK.get(m["field"]) or ("gamma" if spec["sensor"]["peaks"][m["i"]]["t"] == "lor" else "sigma")
        setattr(p, f, m["value"])
    elif k == "peaks":
        sim.sensor.sensor_peak_function = keep(None if m["value"] is None else [build_peak(p) for p in m["value"]])
    elif k == "barrier":
        setattr(sim.sensor.barrier_functions[m["i"]], BARRIER[m["field"]], m["value"])
    elif k == "barriers":
        b = [build_barrier(x) for x in m["value"]]
        sim.sensor.barrier_functions = keep(b[0] if len(b) == 1 else tuple(b))
    elif k == "rise":
        sim.sensor.final_rise = keep(None if m["value"] is None else build_rise(m["value"]))
    elif k == "risefield":
        setattr(sim.sensor.final_rise, RISE[m["field"]], m["value"])
    elif k == "deform":
        d = sim.sensor.sensor_peak_deformations[int(m["k"])]
        setattr(d, "angle" if spec["sensor"]["deform"][m["k"]]["t"] == "lin" else "radius", m["value"])
    elif k == "deform-del":
        del sim.sensor.sensor_peak_deformations[int(m["k"])]
    elif k == "dist":
        v = m["value"]
        setattr(getattr(sim, LISTS[m["stage"]])[m["i"]], m["field"],
                rngs.get(v) if m["field"] == "rng" else build_param(v, rngs))
    elif k == "list":
        setattr(sim, LISTS[m["stage"]], keep(build_list(m["value"], rngs)))
    elif k == "append":
        getattr(sim, LISTS[m["stage"]]).append(build_distortion(m["value"], rngs))
    elif k == "pop":
        getattr(sim, LISTS[m["stage"]]).pop(m["i"])
    elif k == "swap":
        lst = getattr(sim, LISTS[m["stage"]])
        lst[m["i"]], lst[m["j"]] = lst[m["j"]], lst[m["i"]]
    elif k == "csd":
        sim.ideal_csd_config = keep(build_csd(m["value"]))
    elif k == "csdattr":
        c = sim.ideal_csd_config
        n, v = m["name"], m["value"]
        if n == "lut":
            c.lut_entries = v
        elif n == "cdf":
            c.cdf_type = v
        elif n == "rot":
            c.rotation = v
        elif n == "tct":
            i, j, f = v[-1]
            c.tct_params[i][j] *= f
        elif n in ("p1", "p2", "cross"):
            setattr(c, n, v)
        else:
            raise HarnessError(n)
    else:
        raise HarnessError(k)


def gen_mut(r, spec, namer, samplers=0.3, allow=None):
    """A random valid parameter change for a simulation with this spec."""
    for _ in range(60):
        m = _gen_mut(r, spec, namer, samplers)
        if m is not None and (allow is None or m["m"] in allow):
            return m
    return {"m": "limit", "which": "g1", "value": None}


def _gen_mut(r, spec, namer, samplers):
    sen = spec["sensor"]
    scan = sen is not None and sen["t"] == "scan"
    k = r.wpick([("limit", 1), ("sensor", 1), ("sattr", 2), ("sitem", 2), ("offset", 1), ("peak", 2), ("peaks", 1), ("barrier", 2), ("barriers", .5),
                 ("rise", 1), ("risefield", 1), ("deform", 1.5), ("deform-del", .7), ("dist", 4), ("list", 1.5), ("append", 1), ("pop", 1),
                 ("swap", .7), ("csd", 1), ("csdattr", 1.5)])
    m = {"m": k}
    if k == "limit":
        w = r.pick(["g1", "g2"] + (["s1", "s2"] if scan else []))
        lim = {"g1": G1_LIM, "g2": G2_LIM}.get(w, S_LIM)
        m.update(which=w, value=r.wpick([(None, 1), (list(lim), 1), ([lim[0] - 0.05, lim[1] + 0.05], 1)]), inplace=r.chance(0.5))
    elif k == "sensor":
        m["value"] = gen_scan_sensor(r) if scan else gen_generic(r)
    elif k in ("sattr", "sitem"):
        names = [n for n in ("alpha_dot", "alpha_gate") + (("alpha_sensor_gate", "offset_mu_sens") if scan else ()) if sen.get(n) is not None or (scan and k == "sitem")]
        if not names:
            return None
        n = r.pick(names)
        cur = sen[n]
        whole = cur is not None and all(isinstance(x, int) for x in np.ravel(np.array(cur, dtype=object)))
        if whole and k == "sitem" and not (scan and len(cur) == 3):
            return None
        if cur is None or whole and k == "sitem":     # the default (integer zeros): adjusted in place to an integer
            cur = [0, 0, 0] if n == "offset_mu_sens" else [[0, 0], [0, 0], [0, 0]]
            i = r.randrange(3)
            cur[i] = r.pick([1, -1]) if n == "offset_mu_sens" else [r.pick([0, 1]), r.pick([1, -1])]
            return {"m": "sitem", "name": n, "i": i, "value": cur[i]}
        new = [_jitter(r, x) for x in cur]
        m["name"] = n
        if k == "sattr":
            m["value"] = new
            full = not (scan and n in ("alpha_dot", "alpha_gate") and not isinstance(cur[0], list))
            m["inplace"] = full and r.chance(0.5) and not whole
        else:
            if scan and n in ("alpha_dot", "alpha_gate") and not isinstance(cur[0], list):
                return None
            i = r.randrange(len(cur))
            m.update(i=i, value=new[i])
    elif k == "offset":
        if scan:
            return None
        m["value"] = r.u(-0.09, -0.07, 5)
    elif k == "peak":
        if not sen["peaks"]:
            return None
        i = r.randrange(len(sen["peaks"]))
        p = sen["peaks"][i]
        f = r.pick(["mu0", "h", "o", "w"])
        m.update(i=i, field=f, value=_jitter(r, p.get(f, 0) or (0 if scan and f == "o" else 0.01)))
    elif k == "peaks":
        src = gen_scan_sensor(r, deform=0)["peaks"] if scan else gen_generic(r)["peaks"]
        if scan and (src is None or r.chance(0.1)):
            src = None if sen["peaks"] else gen_generic(r)["peaks"]
        if scan and src:
            n = len(sen["peaks"] or src)
            src = (src * 14)[:n]
            src = [dict(p, mu0=round(p["mu0"] + 0.0001 * i, 5)) for i, p in enumerate(src)]
        m["value"] = src
    elif k == "barrier":
        if not scan:
            return None
        i = r.randrange(2)
        b = sen["barriers"][i if len(sen["barriers"]) == 2 else 0]
        if b.get("t") == "multi":
            return None
        f = r.pick(["h", "rate", "o", "shape", "pp", "fp"])
        v = {"pp": r.u(0.0005, 0.01, 5), "fp": r.u(0.98, 0.9995, 5)}.get(f)
        m.update(i=i, field=f, value=v if v is not None else _jitter(r, b[f]))
    elif k == "barriers":
        if not scan:
            return None
        m["value"] = gen_scan_sensor(r)["barriers"]
    elif k == "rise":
        if not scan:
            return None
        m["value"] = gen_scan_sensor(r, rise=0.7)["rise"]
    elif k == "risefield":
        if not scan or not sen.get("rise"):
            return None
        f = r.pick(["h", "rate", "mu0"])
        m.update(field=f, value=_jitter(r, sen["rise"][f] or 0.002))
    elif k in ("deform", "deform-del"):
        if not scan or not sen.get("deform"):
            return None
        kk = r.pick(sorted(sen["deform"]))
        m["k"] = kk
        if k == "deform":
            m["value"] = r.u(1.3, 1.85, 4) if sen["deform"][kk]["t"] == "lin" else r.u(0.1, 1.5, 4)
    elif k == "dist":
        opts = [(st, i) for st in ("occ", "pot", "resp") for i in range(len(spec.get(st) or []))]
        if not opts:
            return None
        st, i = r.pick(opts)
        d = spec[st][i]
        fields = {"jumps": ["scale", "lam", "axis", "ratio"], "gauss": ["sigma"], "fermi": ["sigma"], "pink": ["sigma", "fmin"],
                  "prtn": ["scale", "std", "height", "ratio"], "rrtn": ["scale", "std", "height", "ratio"], "white": ["sigma"]}.get(d["t"])
        if not fields:
            return None
        f = r.pick(fields)
        ranges = {("jumps", "scale"): (0.005, 0.08), ("jumps", "lam"): (0.001, 0.03), ("gauss", "sigma"): (1e-4, 4e-3), ("fermi", "sigma"): (1e-4, 4e-3),
                  ("pink", "sigma"): (1e-6, 5e-4), ("prtn", "scale"): (0.06, 0.5), ("prtn", "std"): (1e-6, 1e-4), ("prtn", "height"): (1e-6, 1e-4),
                  ("rrtn", "scale"): (0.06, 0.5), ("rrtn", "std"): (1e-3, 0.05), ("rrtn", "height"): (1e-3, 0.05), ("white", "sigma"): (1e-5, 3e-3)}
        if f == "axis":
            v = 1 - d["axis"]
        elif f == "ratio":
            v = world.gen_ratio(r)
        elif f == "fmin":
            v = r.pick([0, 0.1, 0.02])
        else:
            v = (gen_param if f == "scale" else world.gen_strength)(r, *ranges[(d["t"], f)], namer, samplers)
            if f == "sigma" and r.chance(0.07):
                v = 0.0
        m.update(stage=st, i=i, field=f, value=v)
    elif k in ("list", "append"):
        st = r.pick(["occ", "pot", "resp"])
        gen = {"occ": gen_occ_list, "pot": gen_pot_list, "resp": gen_resp_list}[st]
        new = gen(r, namer, samplers, 2)
        if k == "list":
            m.update(stage=st, value=None if r.chance(0.15) else new)
        else:
            if spec.get(st) is None or len(spec[st]) >= 4 or not new:
                return None
            m.update(stage=st, value=new[0])
    elif k in ("pop", "swap"):
        opts = [st for st in ("occ", "pot", "resp") if len(spec.get(st) or []) >= (1 if k == "pop" else 2)]
        if not opts:
            return None
        st = r.pick(opts)
        n = len(spec[st])
        m.update(stage=st, i=r.randrange(n))
        if k == "swap":
            m["j"] = (m["i"] + 1) % n
    elif k == "csd":
        m["value"] = {"t": "geom"} if r.chance(0.5) else {"t": "steps", "p1": r.u(0.015, 0.04, 4), "p2": r.u(0.015, 0.04, 4), "cross": r.u(0.1, 0.4, 3)}
    elif k == "csdattr":
        c = spec.get("csd")
        if not c:
            return None
        if c["t"] == "geom":
            n = r.pick(["lut", "cdf", "tct", "rot"])
            v = {"lut": r.pick([500, 1000, 2000]), "cdf": r.pick(["sigmoid", "cauchy"]), "rot": round(-0.7853981 + r.u(-0.02, 0.02, 4), 7)}.get(n)
            if n == "tct":
                v = (c.get("tct") or []) + [[r.randrange(6), r.randrange(4), r.u(0.97, 1.03, 4)]]
            m.update(name=n, value=v)
        elif c["t"] in ("steps", "cache"):
            n = r.pick(["p1", "p2", "cross"])
            m.update(name=n, value=r.u(0.015, 0.04, 4) if n != "cross" else r.u(0.1, 0.4, 3))
        else:
            return None
    return m


def _jitter(r, x):
    if isinstance(x, list):
        return [_jitter(r, y) for y in x]
    if x == 0:
        return r.u(-0.002, 0.002, 6)
    return float("%.7g" % (x * r.u(0.9, 1.1, 4)))


# ------------------------------------------------------------------ rejected calls
def gen_reject(r, spec):
    """A request that must be refused."""
    sen = (spec.get("sensor") or {"t": "generic"})["t"]
    scan = sen == "scan" and r.chance(0.5)
    base = gen_scan(r, n2=(3, 6), n1=(3, 8)) if scan else gen_measure(r, sen, n2=(3, 6), n1=(3, 8))
    lim = spec.get("limits") or {}
    opts = ["len", "res3", "res1", "fixed2d", "pair"]
    if scan:
        opts += [w for w in ("out-s1", "out-s2") if lim.get(w[4:])] + [w for w in ("out-g1", "out-g2") if lim.get(w[4:])]
    else:
        opts += [w for w in ("out-g1", "out-g2") if lim.get(w[4:])] * 2 + ([w for w in ("out-s1", "out-s2") if lim.get(w[4:])] if sen == "scan" else [])
    return {"op": "reject", "base": base, "how": r.pick(opts), "side": r.randrange(2), "delta": r.pick([1e-9, 1e-3, 0.5]), "pos": r.randrange(2)}


def reject_call(sim, op, spec):
    """Perform the malformed request; returns the exception or None."""
    base = json.loads(json.dumps(op["base"]))
    scan = base["op"] == "scan"
    how = op["how"]
    two = lambda: (base.update(res=[4, 5], form="arr"), _unfix(base, scan))  # noqa: E731
    kw = None
    if how == "len":
        kw = scan_args(base) if scan else measure_args(base)
        key = ("sweep_range_sensor_g" if scan else "sweep_range_g") + str(op["pos"] + 1)
        kw[key] = kw[key][:1] if op["side"] else np.append(kw[key], kw[key][0])
    elif how == "res3":
        two()
        base["res"] = [4, 5, 3]
    elif how == "res1":
        two()
        base["res"][op["pos"]] = 1 - (op["side"] and 1)
    elif how == "fixed2d":
        two()
        k = "r1" if op["pos"] else "r2"
        base[k] = [base[k][0]] * 2
    elif how == "pair":
        kw = scan_args(base) if scan else measure_args(base)
        names = ("volt_g1", "volt_g2") if scan else ("volt_sensor_g1", "volt_sensor_g2")
        val = (G1_LIM, G2_LIM)[op["pos"]][0] + 0.01 if scan else -0.5
        kw.pop(names[0], None), kw.pop(names[1], None)
        kw[names[op["pos"]]] = val
    else:
        w = how[4:]
        lo, hi = spec["limits"][w]
        bad = lo - op["delta"] if op["side"] else hi + op["delta"]
        swept = w in (("s1", "s2") if scan else ("g1", "g2"))
        i = int(w[1]) - 1
        if swept:
            key = ("r1", "r2")[i]
            base[key] = list(base[key])
            if base[key][0] == base[key][1]:
                base[key] = [bad, bad]
            else:
                base[key][op["pos"]] = bad
        else:
            v = base.get("v") or ([G1_LIM[0], G2_LIM[0]] if scan else [-0.5, -0.5])
            v = list(v)
            v[i] = bad
            base["v"] = v
    kw = kw if kw is not None else (scan_args(base) if scan else measure_args(base))
    try:
        (sim.measure_sensor_scan if scan else sim.measure)(**kw)
    except Exception as e:
        return e
    return None


def _unfix(base, scan):
    lims = ((-0.9, -0.1), (-0.9, -0.1)) if scan else (G1_LIM, G2_LIM)
    for k, lim in zip(("r1", "r2"), lims):
        if base[k][0] == base[k][1]:
            base[k] = [lim[0] + 0.01, lim[1] - 0.01]


# ------------------------------------------------------------------ sessions
def vary(r, op):
    """An earlier request again, as it was or with one part changed (what keeps data between calls is most likely to mix these up)."""
    new = json.loads(json.dumps({k: op[k] for k in ("op", "r1", "r2", "res", "form", "v") if k in op}))
    how = r.wpick([("same", 4), ("range1", 1), ("range2", 1), ("flip", 1), ("res", 1), ("volt", 1), ("transpose", .5)])
    if how in ("range1", "range2"):
        k = "r" + how[-1]
        d = abs(new[k][1] - new[k][0]) * r.u(0.02, 0.2)
        i = 0 if new[k][0] < new[k][1] else 1
        if new[k][0] != new[k][1]:
            new[k][1 - i] = round(new[k][1 - i] - d, 6)
    elif how == "flip":
        k = r.pick(["r1", "r2"])
        new[k].reverse()
    elif how == "res" and isinstance(new["res"], list):
        i = r.randrange(2)
        new["res"][i] = r.pick([2, 3, 5, new["res"][1 - i]])
    elif how == "transpose" and isinstance(new["res"], list):
        new["res"].reverse()
    elif how == "volt" and new.get("v"):
        new["v"][r.randrange(2)] += 0.001
    return new


def gen_session(r, spec, namer, n=(4, 9), muts=0.35, rejects=0.1, aborts=0.12, retune=0.1, direct=0.08, samplers=0.3, small=True, allow=None, again=0.35, pool=None):
    """A list of operations; the spec evolves with the parameter changes.  Requests are partly taken from the earlier ones (pool)."""
    pool = [] if pool is None else pool
    ops = []
    cur = json.loads(json.dumps(spec))
    kw = dict(n2=(3, 7), n1=(3, 10)) if small else {}
    for _ in range(r.randrange(*n)):
        x = r.random()
        sen = (cur.get("sensor") or {"t": "generic"})["t"]

        def req():
            if pool and r.chance(again):
                return vary(r, r.pick(pool))
            o = gen_scan(r, **kw) if sen == "scan" and r.chance(0.5) else gen_measure(r, sen, **kw)
            pool.append(o)
            return o
        if x < muts:
            m = gen_mut(r, cur, namer, samplers, allow)
            cur = apply_spec(cur, m)
            ops.append({"op": "set", "mut": m})
            continue
        x -= muts
        if x < rejects:
            ops.append(gen_reject(r, cur))
            continue
        x -= rejects
        if x < aborts:
            o = req()
            ops.append({"op": "abort", "base": o, "at": int(r.logu(1, 900)), "exc": r.pick(sorted(EXC))})
            if r.chance(again):
                ops.append(json.loads(json.dumps(o)))
            continue
        x -= aborts
        if x < retune and sen == "generic":
            o = gen_measure(r, sen, **kw)
            ops.append({"op": "retune", "r1": o["r1"], "r2": o["r2"], "target": r.u(-0.14, -0.08, 6)})
            continue
        x -= retune
        if x < direct:
            ops.append({"op": "direct", "base": req(), "what": r.pick(["potential", "response", "repr", "frozen"] + (["labels"] * 2 if sen == "scan" else []))})
            continue
        ops.append(req())
    return ops, cur


def direct_call(sim, op):
    """Use components of the simulation directly, as users do between measurements.  Results are not judged here."""
    b = op["base"]
    scan = b["op"] == "scan"
    shape = (b["res"], 2) if isinstance(b["res"], int) else (b["res"][1], b["res"][0], 2)
    occ = np.ones(shape)
    r1, r2 = np.array(b["r1"], float), np.array(b["r2"], float)
    s = sim.sensor
    if op["what"] == "repr":
        repr(sim)
        return
    if op["what"] == "frozen":
        for d in sim.occupation_distortions or []:
            if getattr(d, "activated", False) and not scan:
                try:
                    d.noise_function(occ, np.zeros(shape[:-1]), r1, r2, None, freeze=True)
                except Exception:
                    pass        # not claimed here
        return
    if hasattr(s, "get_sensor_scan_labels"):
        if scan:
            v = b.get("v") or [None, None]
            pot = s.sensor_potential(occ, v[0], v[1], r1, r2)
        else:
            pot = s.sensor_potential(occ, r1, r2, -0.5, -0.5)
        if op["what"] == "response":
            s.sensor_response(pot)
        elif op["what"] == "labels" and scan:
            s.get_sensor_scan_labels(v[0], v[1], r1, r2, pot)
    else:
        pot = s.sensor_potential(occ, r1, r2)
        if op["what"] == "response":
            s.sensor_response(pot)


class Session:
    """One simulation driven by operations."""

    def __init__(self, spec, rngs, sim=None):
        self.spec = json.loads(json.dumps(spec))
        self.rngs = rngs
        self.sim = sim if sim is not None else world.build_sim(spec, rngs)
        self.used = None        # set to a list to collect the objects assigned by "set" operations
        self.request = do_request

    def step(self, op):
        """Perform one operation; returns plain comparable data (results or the kind of exception)."""
        k = op["op"]
        stat("op:" + k)
        if k in ("measure", "scan"):
            stat("pixels", world.pixels(op))
            try:
                out = self.request(self.sim, op)
            except Exception as e:
                if not in_simcats(e.__traceback__):
                    raise
                return ["raised", describe_exc(e)]
            self.last = out
            return ["ok", out[0], out[1], out[2], runtime_of(self.sim, k == "scan")]
        if k == "set":
            try:
                apply_sim(self.sim, self.spec, op["mut"], self.rngs, self.used)
            finally:
                self.spec = apply_spec(self.spec, op["mut"])
            return ["set"]
        if k == "reject":
            e = reject_call(self.sim, op, self.spec)
            return ["rejected", type(e).__name__]
        if k == "abort":
            exc = EXC[op["exc"]]("injected by the simulator")
            t = Tracer(raise_at=op["at"], exc=exc)
            try:
                t.run(lambda: do_request(self.sim, op["base"]))
            except BaseException as e:
                if e is exc:
                    stat("fault:abort-" + op["exc"])
                    return ["aborted", "same"]
                if t.fired is None:
                    return ["raised", describe_exc(e)] if isinstance(e, Exception) and in_simcats(e.__traceback__) else self._reraise(e)
                return ["aborted", type(e).__name__]
            return ["aborted", "finished"]
        if k == "retune":
            from simcats.support_functions import reset_offset_mu_sens
            try:
                reset_offset_mu_sens(self.sim, op["target"], np.array(op["r1"], float), np.array(op["r2"], float))
            except Exception as e:
                if not in_simcats(e.__traceback__):
                    raise
                return ["raised", describe_exc(e)]
            if self.spec["sensor"]:
                self.spec["sensor"]["offset"] = float(self.sim.sensor.offset_mu_sens)
            return ["retuned", float(self.sim.sensor.offset_mu_sens)]
        if k == "direct":
            direct_call(self.sim, op)
            return ["direct"]
        raise HarnessError(k)

    @staticmethod
    def _reraise(e):
        raise e


def first_difference(a, b):
    """Which part of two step results differs."""
    from dst.core import maxdiff, same
    if a[0] != b[0]:
        return f"{a[:2] if a[0] != 'ok' else 'a result'} vs {b[:2] if b[0] != 'ok' else 'a result'}"
    if a[0] == "ok":
        for name, x, y in zip(("signal", "first label", "second label"), a[1:4], b[1:4]):
            if not same(x, y):
                return f"{name}: {maxdiff(x, y)}"
        if not same(a[4], b[4]):
            return f"activation/samples: {a[4]} vs {b[4]}"
        return None
    return None if same(a, b) else f"{a} vs {b}"


__all__ = [n for n in dir() if not n.startswith("__")]
