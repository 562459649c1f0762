"""writes MANIFEST.json from the property modules that exist"""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, invariants checked during and after each run"
NA = "a fact about one pure numerical function of its arguments: no schedule, time, I/O, failure or multi-party behaviour for it to depend on, so there is nothing for a fault-injecting simulator to decide"


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i.startswith("N"):
            na.append(dict(property=i, reason=NA_REASON.get(i, NA)))
            continue
        try:
            mod = importlib.import_module("sim.props." + i.lower())
        except ModuleNotFoundError:
            na.append(dict(property=i, reason="check not built yet"))
            continue
        checks.append(
            dict(
                property=i,
                quick_cmd=f"bash check.sh {i} quick",
                thorough_cmd=f"bash check.sh {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH,
                level=getattr(mod, "LEVEL", "exploration"),
                level_note=mod.__doc__.strip().split("\n\n")[0].replace("\n", " "),
            )
        )
    out = dict(version=1, setup_cmd="bash sim/build.sh", checks=checks, not_applicable=na, notes="replay a reported violation with: bash replay.sh FILE; see DESIGN.md")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


NA_REASON = {}

if __name__ == "__main__":
    main()
