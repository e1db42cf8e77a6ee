#!/bin/bash
# Nothing to compile: check that the interpreter, its packages and the manifest are in order.
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import json, os
m = json.load(open("MANIFEST.json"))
p = [json.loads(x)["id"] for x in open("properties.jsonl")]
c = [x["property"] for x in m["checks"]]
n = [x["property"] for x in m["not_applicable"]]
assert sorted(c + n) == sorted(p), (c, n, p)
for x in c:
    assert os.path.exists(f"dst/props/{x.lower()}.py"), x
import numpy, scipy, colorednoise, matplotlib  # noqa
print("ready:", len(c), "checks")
P
