"""Writes MANIFEST.json from sim/meta.py (claimed checks) and the reasons below."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V / "sim"))
from meta import CHECKS
PURE = "pure function of one text: no concurrency, time, I/O, fault or history for it to depend on, so simulation adds nothing to plain input testing"
NA = {
    "C20": PURE, "C21": PURE, "C22": PURE, "C23": PURE, "C25": PURE,
    "C24": "pure functions of their arguments; re-evaluation under task retry is covered by C11, the computed values themselves depend on no schedule or fault",
}
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference"
m = dict(version=1, setup_cmd="python3 sim/stage.py",
         hooks=dict(guard="none", enable="no hooks: /repo's working tree is built as it is (cargo build of the extension module); every seam is an existing one (loader objects, settings, imported modules, getrandom and libc storage calls)", source_commits=[]),
         checks=[dict(property=p, quick_cmd=f"python3 sim/check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 sim/check.py {p}",
                      technique=CHECKS[p].get("technique", TECH), level=CHECKS[p]["level"],
                      level_note=CHECKS[p].get("note") or ("Seeded search, not exhaustive: holds on every simulated run. " + CHECKS[p]["rule"] + ". Assumes: " + "; ".join(CHECKS[p]["assumptions"]))) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, "no check built yet")) for p in props if p not in CHECKS],
         notes="All checks run through sim/check.py; see DESIGN.md.")
json.dump(m, open(V / "MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(m["checks"]), "claimed")
except ImportError:
    print("written, not validated")
