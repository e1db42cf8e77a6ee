"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over histories, random outcomes, schedules and faults; "
HOW = {
    "C01": ("replay of whole sessions under disturbed ambient entropy", "Reproducibility of sessions across repetition, processes and global state."),
    "C02": ("interleaved sessions (per operation and per source line) against the same session alone", "Independence of simulations built from the same objects."),
    "C03": ("aborts injected at sampled source lines, draws and component calls against an undisturbed twin", "Atomicity of measurements under aborts."),
    "C04": ("crash and restart from metadata, pickles and copies against an uninterrupted session", "Checkpoints are complete and independent."),
    "C05": ("caller-side mutation of returned and passed objects at sampled points against an unmutated session", "Results and inputs are isolated."),
    "C06": ("the same session with the noise removed, replaced, forced, hostile and failing", "Labels do not depend on measurement noise; noise-free signal equals the sensor's response."),
    "C07": ("recording stub distortions in random stacks against a reference pipeline", "Order, number and arguments of distortion applications."),
    "C08": ("activation forced and sampled, frozen replays, flags against data and frequencies against ratios", "Frequencies are judged with 6 sigma bounds over all runs of a batch entry."),
    "C09": ("ideal CSD stub that encodes voltages in occupations, decoded displacement against the rigid block model", "Statistics with 6 sigma bounds."),
    "C10": ("noise extracted on several signals from equal generator states against block and spectrum models", "Statistics with 6 sigma bounds."),
    "C11": ("all kinds of valid requests with rare random outcomes forced", "Valid measurements complete with finite data of the right shape."),
    "C12": ("sampler histories with extreme and failing draws, copies and checkpoints against a small model", "Samplers stay in range and report truthfully."),
    "C13": ("configuration sampler on owned streams with forced extreme draws and aborts against the documented ranges", "Sampled configurations are valid, in range and independent."),
    "C14": ("request sequences around changing limits against a small validity model, with a draw log and a twin", "Limits hold and rejected calls do nothing."),
    "C15": ("threads interleaved at source lines and aborts at source lines against a snapshot of process state", "Process-wide state is untouched."),
    "C16": ("retuning mixed with other operations and aborts against an arithmetic model of the offset", "Retuning reaches its target."),
    "C17": ("file and drawing faults injected during export against a fresh plot", "Plot export reports faults and leaves data alone."),
    "C18": ("histories of mixed operations against a freshly built twin", "Measurements have no memory."),
}
NA = "a pure function of its arguments: no schedule, clock, I/O, randomness, fault or history for it to depend on, so simulation would only be input generation under another name"

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(HERE, "dst", "props", p.lower() + ".py")
    if os.path.exists(path):
        level = re.search(r'^LEVEL = "(\w+)"', open(path).read(), re.M).group(1)
        t, note = HOW[p]
        checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", technique=TECH + t, level=level,
                           level_note=note + " Bounded by the generated scenarios (sampled, seeded); trusts the Python and numpy runtime and, where stated in the evidence, the stubs."))
    else:
        na.append(dict(property=p, reason=NA if p.startswith("C3") else "check not built yet"))
json.dump(dict(version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all seams are injected arguments, interfaces, patched module attributes and sys.settrace."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
