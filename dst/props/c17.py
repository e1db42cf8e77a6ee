"""C17 Plot export reports faults and never alters data."""
import builtins
import errno
import hashlib
import os
import pathlib
import shutil
import tempfile

os.environ.setdefault("SOURCE_DATE_EPOCH", "1700000000")

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import numpy as np  # noqa: E402
from matplotlib import axes, figure, image, lines  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402

from dst import world  # noqa: E402
from dst.core import describe_exc, digest  # noqa: E402
from dst.fault import EXC, Tracer  # noqa: E402
from dst.isolate import isolated  # noqa: E402
from dst.rng import stat  # noqa: E402
from simcats.support_functions import plot_csd  # noqa: E402

RUNS = {"quick": 200, "thorough": 6000}
LEVEL = "exploration"
RULE = ("A run plots several data sets (measured, random, with NaN or infinities, integer, boolean, read-only, reversed and strided views; 1D and 2D; all documented options; png, svg, pdf, with and without a file, into a figure of its own or "
        "one prepared by the user) on a simulated display and disk. Calls fail by injected faults: open refused, no space or an interrupt at any write, a failing close, missing directory, a directory in place of the file, unknown "
        "file type, failing draw, layout, colour bar or show calls, exceptions at any line of the plotting functions. Arguments are compared bit by bit after every call; every fault that fired must reach the caller; after "
        "each failure, and at the end, a plot is compared (file bytes and displayed pixels) with the same plot in a process without failures; files of calls that returned must be complete and closed. "
        "Non-trivial: at least one fault fired and one later plot was compared; distinct by data kind, options and the place of the fault.")
DISTINCT = "data kind, options, file type, fault kind and place"
REAL = "plot_csd, _plot_csd_1d, _plot_csd_2d, matplotlib with the Agg, SVG and PDF writers, Pillow"
STUBS = "display (plt.show records the pixels and closes the figures, as a blocking window does), file system seam at open() for the saved file (real files in a scratch directory underneath)"
PROBES = ["probe:1d", "probe:2d", "probe:reversed", "probe:readonly", "probe:view", "probe:nan", "probe:int", "probe:no-file", "probe:png", "probe:svg", "probe:pdf", "probe:own-figure", "probe:user-figure", "probe:later-plot",
          "probe:overwrite", "fault:open-refused", "fault:disk-full", "fault:write-interrupted", "fault:close-fails", "fault:missing-directory", "fault:is-directory", "fault:file-type", "fault:draw-fails", "fault:show-fails",
          "fault:abort-line"]
ASSUMPTIONS = ["the display closes the figures it has shown", "in a figure prepared by the user a failed call may leave traces; the user closes it"]

DISPLAY = []
PLAN = {"file": None, "call": None}
OPEN_FILES = []


# ---------------------------------------------------------------- seams
class FaultFile:
    """A file of the simulated disk."""

    def __init__(self, real, plan):
        self._real, self._plan, self._writes = real, plan, 0
        OPEN_FILES.append(self)

    def write(self, data):
        self._writes += 1
        p = self._plan
        if p and p["at"] in ("full", "interrupt") and self._writes > p["nth"]:
            PLAN["fired"] = True
            if p["at"] == "full":
                stat("fault:disk-full")
                self._real.write(data[: len(data) // 2])
                raise p["exc"]
            stat("fault:write-interrupted")
            raise p["exc"]
        return self._real.write(data)

    def close(self):
        if self._real.closed:
            return
        p = self._plan
        self._real.close()
        if p and p["at"] == "close":
            PLAN["fired"] = True
            stat("fault:close-fails")
            raise p["exc"]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        if n == "fileno" or n.startswith("_"):
            raise AttributeError(n)
        return getattr(self._real, n)

    def __iter__(self):
        return iter(self._real)


def exc_of(f):
    k = f["exc"]
    if k == "nospace":
        return OSError(errno.ENOSPC, "No space left on device")
    if k == "access":
        return PermissionError(errno.EACCES, "Permission denied")
    if k == "io":
        return OSError(errno.EIO, "Input/output error")
    if k == "value":
        return ValueError("injected by the simulator")
    return EXC[k]("injected by the simulator")


class Seams:
    def __init__(self, scratch):
        self.scratch = os.path.realpath(scratch)
        self.old = []

    def patch(self, obj, name, make):
        real = getattr(obj, name)
        self.old.append((obj, name, real))
        setattr(obj, name, make(real))

    def __enter__(self):
        def opener(real):
            def sim_open(file, mode="r", *a, **k):
                inside = isinstance(file, (str, os.PathLike)) and os.path.realpath(os.fspath(file)).startswith(self.scratch + os.sep)
                if not inside or not set(mode) & set("wax+"):
                    return real(file, mode, *a, **k)
                p = PLAN["file"]
                if p and p["at"] == "open":
                    PLAN["fired"] = True
                    stat("fault:open-refused")
                    raise p["exc"]
                return FaultFile(real(file, mode, *a, **k), p)
            return sim_open
        self.patch(builtins, "open", opener)

        def failing(name):
            def make(real):
                def f(*a, **k):
                    p = PLAN["call"]
                    if p and p["at"] == name:
                        p["nth"] -= 1
                        if p["nth"] < 0:
                            PLAN["call"] = None
                            PLAN["fired"] = True
                            stat("fault:draw-fails")
                            raise p["exc"]
                    return real(*a, **k)
                return f
            return make
        for cls, name in ((axes.Axes, "imshow"), (axes.Axes, "plot"), (figure.Figure, "colorbar"), (figure.Figure, "tight_layout"), (figure.Figure, "savefig"), (figure.Figure, "draw"), (image.AxesImage, "draw"),
                          (lines.Line2D, "draw"), (axes.Axes, "set_xticks"), (axes.Axes, "set_yticks"), (axes.Axes, "set_title"), (axes.Axes, "set_xlabel")):
            self.patch(cls, name, failing(name if cls is not image.AxesImage and cls is not lines.Line2D else "artist"))

        def show(real):
            def sim_show(*a, **k):
                p = PLAN["call"]
                if p and p["at"] == "show":
                    PLAN["call"] = None
                    PLAN["fired"] = True
                    stat("fault:show-fails")
                    raise p["exc"]
                for n in plt.get_fignums():
                    fig = plt.figure(n)
                    fig.canvas.draw()
                    DISPLAY.append((fig.get_size_inches().tolist(), hashlib.sha256(bytes(fig.canvas.buffer_rgba())).hexdigest()[:20], len(fig.axes)))
                plt.close("all")
            return sim_show
        self.patch(plt, "show", show)
        return self

    def __exit__(self, *a):
        for obj, name, real in reversed(self.old):
            setattr(obj, name, real)


# ---------------------------------------------------------------- generation
def gen_data(r):
    d = {"dim": r.pick([1, 2, 2]), "kind": r.pick(["random", "random", "measured", "nan", "int", "bool", "const", "inf", "float32"]), "seed": r.randrange(10 ** 6),
         "shape": [r.randrange(2, 30), r.randrange(2, 30)], "view": r.pick([None, None, "reversed", "strided", "transposed", "column"]), "readonly": r.chance(0.25)}
    if d["kind"] in ("nan", "inf") and d["dim"] == 1:
        d["kind"] = "random"        # 1D ticks need finite data
    d["r1"], d["r2"] = world.gen_range(r, (-0.2, -0.05)), world.gen_range(r, (-0.2, -0.05))
    if r.chance(0.5):
        d["r1"].reverse()
    if r.chance(0.5):
        d["r2"].reverse()
    d["limview"] = r.chance(0.2)
    return d


def gen_opts(r):
    o = {}
    if r.chance(0.3):
        o["title"] = r.pick(["CSD", "a $x^2$ b", ""])
    if r.chance(0.3):
        o["sensor_label"] = r.pick(["signal", ""])
    if r.chance(0.3):
        o["gate_labels"] = r.pick([["P1", "P2"], ["P1", "P2", "P3"], ["g", "g"], ["", "B"], [" P1", "P 2 "]])
    if r.chance(0.2):
        o["voltage_unit"] = "mV"
    if r.chance(0.4):
        o["sort_volts"] = r.chance(0.4)
    if r.chance(0.3):
        o["num_xticks"] = r.randrange(2, 7)
    if r.chance(0.3):
        o["num_yticks"] = r.randrange(2, 7)
    return o


def gen_fault(r):
    at = r.wpick([("open", 2), ("full", 3), ("interrupt", 3), ("close", 2), ("missing", 1), ("isdir", 1), ("type", 1), ("line", 3), ("show", 1), ("imshow", 0.5), ("plot", 0.5), ("colorbar", 1), ("tight_layout", 1.5), ("savefig", 1),
                  ("draw", 1), ("artist", 1), ("set_xticks", 0.5), ("set_title", 0.5), ("set_yticks", 0.5), ("set_xlabel", 0.5)])
    f = {"at": at, "nth": r.pick([0, 0, 1, 2, 3, 5, 8, 20]) if at in ("full", "interrupt") else r.pick([0, 0, 0, 1, 2]), "frac": r.random()}
    f["exc"] = {"open": r.pick(["access", "nospace", "io"]), "full": r.pick(["nospace", "io"]), "interrupt": "interrupt", "close": r.pick(["nospace", "io"])}.get(at, r.pick(["memory", "runtime", "interrupt", "io", "value", "timeout"]))
    return f


def generate(r, tier, i):
    data = [gen_data(r) for _ in range(r.randrange(1, 3))]
    ops = []
    for _ in range(r.randrange(3, 7)):
        ops.append({"data": r.randrange(len(data)), "opts": gen_opts(r), "file": r.wpick([("png", 4), ("svg", 2), ("pdf", 2), (None, 1), ("noext", 0.5)]), "fault": gen_fault(r) if r.chance(0.85) else None,
                    "fig": [r.pick([2.5, 3]), r.pick([2, 2.5])] if r.chance(0.15) else None, "again": r.chance(0.25), "pathlib": r.chance(0.2), "name": r.randrange(2)})
    ops.append(dict(ops[-1], fault=None))
    if all(o["fault"] is None for o in ops):
        ops[0]["fault"] = gen_fault(r)
    for o in ops:
        if o["fault"] and o["fault"]["at"] in ("open", "full", "interrupt", "close", "missing", "isdir", "type") and not o["file"]:
            o["file"] = "png"
    return {"data": data, "ops": ops, "size": [r.pick([1.8, 2.2]), r.pick([1.5, 1.8])]}


# ---------------------------------------------------------------- execution
def build(d):
    g = np.random.Generator(np.random.PCG64(d["seed"]))
    n2, n1 = d["shape"]
    shape = (n2, n1) if d["dim"] == 2 else (n1,)
    v = d["view"]
    big = tuple(2 * n for n in shape) if v == "strided" else shape[::-1] if v == "transposed" else shape + (2,) if v == "column" else shape
    k = d["kind"]
    if k == "int":
        base = g.integers(-5, 9, big)
    elif k == "bool":
        base = g.integers(0, 2, big).astype(bool)
    elif k == "const":
        base = np.full(big, 0.25)
        base.flat[0] = 0.5
    elif k == "measured":
        base = np.cumsum(g.normal(0, 1e-3, big), -1) - 0.1
    else:
        base = g.normal(0, 1, big)
        if k == "float32":
            base = base.astype(np.float32)
        if k in ("nan", "inf"):
            base.flat[g.integers(0, base.size, 3)] = np.nan if k == "nan" else np.inf
    if d["dim"] == 1 and k == "bool":
        base = base.astype(int)
    csd = base
    if v == "reversed":
        csd = base[::-1]
    elif v == "strided":
        csd = base[tuple(slice(None, None, 2) for _ in shape)]
    elif v == "transposed":
        csd = base.T
    elif v == "column":
        csd = base[..., 1]
    if d["limview"]:
        both = np.array([d["r1"], d["r2"]], float).T.copy()
        l1, l2 = both[:, 0], both[:, 1]
    else:
        l1, l2 = np.array(d["r1"], float), np.array(d["r2"], float)
    if d["readonly"]:
        for a in (csd, base, l1, l2):
            a.flags.writeable = False
    return base, csd, l1, l2


def snap(arrs):
    return [(a.dtype.str, a.shape, a.strides, a.flags.writeable, np.ascontiguousarray(a).tobytes()) for a in arrs]


def path_of(scratch, op, n):
    f = op["file"]
    if f is None:
        return None
    flt = op["fault"]
    name = os.path.join(scratch, f"plot{op['name']}") + ("" if f == "noext" else "." + f)
    if flt and flt["at"] == "missing":
        name = os.path.join(scratch, "nowhere", "plot.png")
    elif flt and flt["at"] == "isdir":
        name = os.path.join(scratch, f"dir{n}.png")
        os.mkdir(name)
    elif flt and flt["at"] == "type":
        name = os.path.join(scratch, "plot.unknown")
    return pathlib.Path(name) if op["pathlib"] else name


def written(path):
    """The file a save to this path produces."""
    if path is None:
        return None
    p = os.fspath(path)
    for q in (p, p + ".png"):
        if os.path.isfile(q):
            return q
    return None


def complete(ctx, path, where):
    q = written(path)
    if q is None:
        ctx.violate("file-missing", f"{where} returned normally, but there is no file {os.path.basename(os.fspath(path))}")
    with open(q, "rb") as f:
        data = f.read()
    if q.endswith(".png"):
        ok = data[:8] == b"\x89PNG\r\n\x1a\n" and b"IEND\xaeB`\x82" == data[-8:]
        if ok:
            from PIL import Image
            with Image.open(q) as im:
                im.load()
    elif q.endswith(".svg"):
        ok = data.rstrip().endswith(b"</svg>")
    else:
        ok = data[:5] == b"%PDF-" and data.rstrip().endswith(b"%%EOF")
    if not ok:
        ctx.violate("file-incomplete", f"{where} returned normally, but its file of {len(data)} bytes is not complete")
    return hashlib.sha256(data).hexdigest()[:20]


def plot(sc, op, n, scratch, ctx, fault):
    """One call; returns ("ok", what was displayed, file digest) or ("raised", exception, expected)."""
    d = sc["data"][op["data"]]
    base, csd, l1, l2 = build(d)
    opts = {k: (list(v) if isinstance(v, list) else v) for k, v in op["opts"].items()}
    before = snap([base, csd, l1, l2])
    path = path_of(scratch, op if fault else dict(op, fault=None), n)
    if op["fig"]:
        plt.figure(figsize=op["fig"])
    rc = dict(matplotlib.rcParams)
    del DISPLAY[:], OPEN_FILES[:]
    PLAN.update(file=None, call=None, fired=False)
    exc, tracer = None, None
    if fault:
        exc = exc_of(fault)
        if fault["at"] in ("open", "full", "interrupt", "close"):
            PLAN["file"] = dict(fault, exc=exc)
        elif fault["at"] == "line":
            tracer = Tracer(raise_at=1 + int(fault["frac"] * 46), exc=exc)
        elif fault["at"] not in ("missing", "isdir", "type"):
            PLAN["call"] = dict(fault, exc=exc)
    where = f"call {n} ({d['dim']}D, {op['file']}, {op['opts']})"
    res = None
    try:
        call = lambda: plot_csd(csd, l1, l2, save_path=path, **opts)  # noqa: E731
        got = tracer.run(call) if tracer else call()
        res = ("ok", list(DISPLAY), None)
        if got is not None:
            ctx.violate("returned", f"plot_csd returned {type(got).__name__}")
    except BaseException as e:
        if type(e).__name__ in ("Violation", "HarnessError", "NoProgress"):
            raise
        res = ("raised", e, exc)
    finally:
        fired = PLAN["fired"] or (tracer is not None and tracer.fired is not None)
        place = tracer.fired if tracer is not None and tracer.fired else fault and fault["at"]
        PLAN.update(file=None, call=None, fired=False)
    if tracer and tracer.fired:
        stat("fault:abort-line")
    after = snap([base, csd, l1, l2])
    if after != before:
        names = [x for x, a, b in zip(("array", "array", "volt_limits_g1", "volt_limits_g2"), before, after) if a != b]
        ctx.violate("data-changed", f"{where} changed its {' and '.join(sorted(set(names)))}" + (f" (fault {place})" if fault else ""))
    if opts != op["opts"]:
        ctx.violate("data-changed", f"{where} changed its options to {opts}")
    now = dict(matplotlib.rcParams)
    if now != rc:
        ctx.violate("settings-changed", f"{where} changed matplotlib settings {[k for k in rc if now.get(k) != rc[k]][:5]}")
    if fault and fault["at"] in ("missing", "isdir", "type"):
        stat({"missing": "fault:missing-directory", "isdir": "fault:is-directory", "type": "fault:file-type"}[fault["at"]])
        if res[0] == "ok":
            ctx.violate("fault-swallowed", f"{where} returned normally although the file cannot be written ({fault['at']})")
        if not isinstance(res[1], (OSError, ValueError)):
            ctx.violate("fault-replaced", f"{where}: {fault['at']} reached the caller as {describe_exc(res[1])}")
        return "fault", place
    if fired:
        if res[0] == "ok":
            ctx.violate("fault-swallowed", f"{where} returned normally although {describe_exc(exc)} was raised at {place}")
        if res[1] is not exc and not (fault["at"] == "close" and isinstance(res[1], OSError)):
            ctx.violate("fault-replaced", f"{where}: {describe_exc(exc)} at {place} reached the caller as {describe_exc(res[1])}")
        return "fault", place
    if res[0] == "raised":
        ctx.violate("plot-failed", f"{where} raised {describe_exc(res[1])} without a fault", describe_exc(res[1]))
    if any(not f._real.closed for f in OPEN_FILES):
        ctx.violate("file-open", f"{where} returned with its file still open")
    sha = complete(ctx, path, where) if path is not None else None
    if len(res[1]) != 1:
        ctx.violate("display", f"{where} displayed {len(res[1])} figures")
    return "ok", (res[1], sha)


def setup(sc):
    matplotlib.rcdefaults()
    matplotlib.rcParams["figure.figsize"] = sc["size"]
    matplotlib.rcParams["svg.hashsalt"] = "simulator"
    plt.close("all")


def execute(sc, ctx):
    scratch = tempfile.mkdtemp(prefix="c17-")
    try:
        run(sc, ctx, scratch)
    finally:
        plt.close("all")
        shutil.rmtree(scratch, ignore_errors=True)


def run(sc, ctx, scratch):
    setup(sc)
    alone = {}

    def reference(op, n):
        k = digest([op["data"], op["opts"], op["file"] or "", op["fig"] or [], op["name"]])
        if k not in alone:
            sub = os.path.join(scratch, "ref" + k)
            os.mkdir(sub)

            def one():
                setup(sc)
                with Seams(sub):
                    return plot(sc, dict(op, fault=None), n, sub, ctx, None)
            alone[k] = isolated(one)
            shutil.rmtree(sub)
        return alone[k]

    faults, compared, places = 0, 0, []
    with Seams(scratch):
        for n, op in enumerate(sc["ops"]):
            d = sc["data"][op["data"]]
            ctx.stat(f"probe:{d['dim']}d")
            for name, on in (("reversed", d["r1"][0] > d["r1"][1]), ("readonly", d["readonly"]), ("view", d["view"]), ("nan", d["kind"] == "nan"), ("int", d["kind"] == "int"), ("no-file", not op["file"]),
                             (op["file"], op["file"] in ("png", "svg", "pdf")), ("own-figure", not op["fig"]), ("user-figure", op["fig"]), ("overwrite", op["file"] and written(path_of(scratch, dict(op, fault=None), n)))):
                if on:
                    ctx.stat("probe:" + name)
            what, val = plot(sc, op, n, scratch, ctx, op["fault"])
            if what == "fault":
                faults += 1
                places.append(str(val))
                if op["fig"]:
                    plt.close("all")    # the user's own figure
                    continue
                again = dict(op, fault=None, file=op["file"] if op["again"] else None)
                what2, val2 = plot(sc, again, n, scratch, ctx, None)
                op = again
                val = val2
            want = reference(op, n)[1]
            compared += bool(faults)
            if faults:
                ctx.stat("probe:later-plot")
            if val[0] != want[0]:
                ctx.violate("later-plot-differs", f"the figure shown by call {n} is not the one without the failed calls before (faults at {places[-3:]}): {val[0]} instead of {want[0]}")
            if val[1] != want[1]:
                ctx.violate("later-file-differs", f"the file written by call {n} is not the one without the failed calls before (faults at {places[-3:]})")
    ctx.reach([(o["file"], d2["dim"], d2["kind"], d2["view"], sorted(o["opts"])) for o in sc["ops"] for d2 in [sc["data"][o["data"]]]], places)
    ctx.nontrivial = bool(faults and compared)
