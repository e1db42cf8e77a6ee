"""C03 An aborted measurement leaves no trace."""
from dst import world
from dst.core import Rnd, Violation, derive, describe_exc, maxdiff, pubsnap, same, snap_diff
from dst.fault import EXC, Interrupt, abort_at, count_lines
from dst.rng import stat
from dst.session import vary
from dst.world import (Rngs, StepCSD, build_sim, do_request, gen_request, gen_spec, pixels, runtime_of)

RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "fault_enumeration"
RULE = ("A run builds a random simulation (distortion stacks, sampled parameters, both sensor types, deformed peaks), executes a session of measurements "
        "of which most are aborted at a sampled line event, random draw or component call, and compares every later result with an undisturbed twin. "
        "Non-trivial: at least one abort fired inside SimCATS and a later measurement completed; distinct by the set of abort sites (file, function, line) and request kinds.")
DISTINCT = "set of (abort site, abort kind) and request kinds of the run"
REAL = "Simulation, all distortions, samplers, both sensors, peak functions, deformations, geometric ideal CSD"
STUBS = "random generators (SimRng: same streams, injectable failures); ideal CSD replaced by a cheap step model in part of the runs; failing stand-ins for component faults"
PROBES = ["fault:abort-interrupt", "fault:abort-memory", "fault:draw-fails", "fault:component-fails", "probe:abort-in-sensor-response", "probe:abort-in-distortion", "probe:deformed"]
ASSUMPTIONS = ["aborts are placed at line events of simcats frames, at random draws and at component calls; inside C code of numpy no abort is placed",
               "after an abort the generators are put into known states, as the property is about everything but their position"]


class CompFault(Exception):
    pass


def _failing_csd(real, box):
    """Wrap the ideal CSD so that it fails when armed (from outside the deep copies)."""
    class FailingCSD(StepCSD):
        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=None):
            box["calls"] += 1
            if box["arm"] is not None and box["calls"] >= box["arm"]:
                box["arm"] = None
                stat("fault:component-fails")
                raise box["exc"]
            return real.get_csd_data(volt_limits_g1, volt_limits_g2, resolution)
    return FailingCSD()


def generate(r, tier, i):
    spec = gen_spec(r, csd=(("geom", 3), ("steps", 5)), sensor=(("generic", 2), ("scan", 3)), deform=0.6, none_lists=0.1)
    for lst in ("occ", "pot", "resp"):
        for d in spec[lst] or []:
            if "ratio" in d and r.chance(0.6):
                d["ratio"] = 1
    ops = []
    for _ in range(r.randrange(2, 6)):
        op = gen_request(r, spec, p_scan=0.6, n2=(3, 6), n1=(3, 9)) if not ops or not r.chance(0.4) else vary(r, r.pick(ops))
        if r.chance(0.75):
            kind = r.wpick([("line", 6), ("draw", 2), ("comp", 1)])
            op["fault"] = {"kind": kind, "frac": r.u(0, 1, 9), "exc": r.pick(sorted(EXC)), "nth": r.randrange(1, 6)}
            if r.chance(0.35):
                op["fault"]["focus"] = r.pick(["sensor", "distortions", "tail", "_simulation"])
        ops.append(op)
        if op.get("fault") and r.chance(0.4):
            ops.append({k: v for k, v in op.items() if k != "fault"})      # the caller tries again
    ops.append(gen_request(r, spec, p_scan=0.5, n2=(3, 6), n1=(3, 9)))
    if r.chance(0.5):
        ops.append(gen_request(r, spec, p_scan=0.5, n2=(3, 6), n1=(3, 9)))
    return {"spec": spec, "ops": ops, "rng": r.randrange(10 ** 9)}


def _attempt(sim, op):
    """A fault-free request: ('ok', results) or ('err', type)."""
    try:
        out = do_request(sim, op)
        return "ok", [out[0], out[1], out[2], runtime_of(sim, op["op"] == "scan")]
    except Exception as e:
        return "err", describe_exc(e)


def execute(sc, ctx):
    spec = sc["spec"]

    def make():
        rngs = Rngs(sc["rng"])
        cfg = world.build_config(spec, rngs)
        box = {"calls": 0, "arm": None, "exc": None}
        if cfg["ideal_csd_config"] is not None:
            cfg["ideal_csd_config"] = _failing_csd(cfg["ideal_csd_config"], box)
        from simcats import Simulation
        return Simulation(**cfg), rngs, box

    sim, rngs, box = make()
    fired = []
    completed_after = False
    for n, op in enumerate(sc["ops"]):
        ctx.stat("op:" + op["op"])
        before = pubsnap(sim)
        if op.get("fault"):
            f = op["fault"]
            rngs.reseed(("f", n))
            # dry run on a twin to know how many abort points this call has
            twin, trngs, tbox = make()
            trngs.reseed(("f", n))
            exc = EXC[f["exc"]]("injected by the simulator")
            got = None
            if f["kind"] == "line":
                lines = []
                from dst.fault import Tracer
                import sys
                t = Tracer(hook=lambda fr: lines.append(fr.f_code.co_filename))
                try:
                    t.run(lambda: do_request(twin, op))
                except Exception:
                    continue        # the request itself fails; C11 judges that
                cand = range(1, len(lines) + 1)
                if f.get("focus") == "tail":
                    cand = [k for k in cand if k > len(lines) * 0.8]
                elif f.get("focus"):
                    cand = [k for k in cand if "/" + f["focus"] in lines[k - 1]] or list(cand)
                k = cand[int(f["frac"] * len(cand)) % len(cand)]
                kind, val, exc, where = abort_at(lambda: do_request(sim, op), k, f["exc"])
                if kind == "finished":
                    if where is not None:
                        ctx.violate("abort-swallowed", f"an injected {f['exc']} at {where} did not reach the caller")
                    continue        # every line from the chosen one on was a clean-up
                if kind == "other":
                    ctx.violate("abort-changed", f"injected {exc!r} at {where} reached the caller as {describe_exc(val)}")
                fired.append(("line", where))
                if where[0].startswith("sensor") and "response" in where[1] or where[1] == "_peak_func":
                    ctx.stat("probe:abort-in-sensor-response")
                if where[0].startswith("distortions"):
                    ctx.stat("probe:abort-in-distortion")
            elif f["kind"] == "draw":
                try:
                    do_request(twin, op)
                except Exception:
                    continue
                used = [(k, g.calls) for k, g in trngs.all.items() if g.calls]
                if not used:
                    continue
                k, calls = used[int(f["frac"] * len(used)) % len(used)]
                g = rngs.all[k]
                g.fail_at = 1 + (f["nth"] - 1) % calls
                g.fail_exc = lambda msg, e=exc: e
                try:
                    do_request(sim, op)
                    ctx.violate("abort-swallowed", f"a {f['exc']} raised by the generator in draw {f['nth']} did not reach the caller")
                except BaseException as e:
                    if isinstance(e, Violation):
                        raise
                    if e is not exc:
                        ctx.violate("abort-changed", f"{exc!r} raised by the generator reached the caller as {describe_exc(e)}")
                fired.append(("draw", sorted(g.kinds)))
            else:
                try:
                    do_request(twin, op)
                except Exception:
                    continue
                if not tbox["calls"]:
                    continue
                box["arm"] = box["calls"] + 1 + (f["nth"] - 1) % tbox["calls"]
                box["exc"] = exc
                try:
                    do_request(sim, op)
                    ctx.violate("abort-swallowed", f"a {f['exc']} raised by the ideal CSD did not reach the caller")
                except BaseException as e:
                    if isinstance(e, Violation):
                        raise
                    if e is not exc:
                        ctx.violate("abort-changed", f"{exc!r} raised by the ideal CSD reached the caller as {describe_exc(e)}")
                fired.append(("comp", op["op"]))
            after = pubsnap(sim)
            if after != before:
                ctx.violate("parameters-changed", f"aborted {op['op']} ({fired[-1]}) changed a public parameter{snap_diff(before, after)}")
            if spec["sensor"].get("deform"):
                ctx.stat("probe:deformed")
            continue
        # a completed request: equal to a twin that never saw the aborted calls
        twin, trngs, _ = make()
        rngs.reseed(("m", n))
        trngs.reseed(("m", n))
        for g in list(rngs.all.values()):
            g.fail_at = None
        a, b = _attempt(sim, op), _attempt(twin, op)
        ctx.stat("pixels", pixels(op))
        if a[0] != b[0]:
            ctx.violate("later-call-differs", f"after aborts {fired[-3:]} request {op['op']} gives {a if a[0] == 'err' else 'a result'}, the undisturbed twin {b if b[0] == 'err' else 'a result'}")
        if a[0] == "ok":
            for name, x, y in zip(("signal", "first label", "second label", "activation/samples"), a[1], b[1]):
                if not same(x, y):
                    ctx.violate("later-call-differs", f"{op['op']} after aborts {fired[-3:]}: {name} differs from the undisturbed twin ({maxdiff(x, y) if name[0] != 'a' else (x, y)})")
            if rngs.states() != trngs.states():
                ctx.violate("later-call-differs", f"{op['op']} after aborts {fired[-3:]} draws a different amount of randomness than the twin")
            completed_after = completed_after or bool(fired)
        elif a[1] != b[1]:
            ctx.violate("later-call-differs", f"after aborts: {a[1]}, twin: {b[1]}")
    for fd in fired:
        ctx.reach(*map(str, fd))
    ctx.reach([o["op"] + ("1" if isinstance(o["res"], int) else "2") for o in sc["ops"]])
    ctx.nontrivial = bool(fired) and completed_after
