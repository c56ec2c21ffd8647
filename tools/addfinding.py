"""addfinding.py PROPERTY ID REPLAY 'what fails': lists the violation shown by a replay file as an open finding."""
import json, sys
prop, fid, replay, what = sys.argv[1:]
r = json.load(open(replay))
scn = {k: v for k, v in r["scenario"].items() if k not in ("keep_log", "hashseed", "strict")}
d = json.load(open("/verif/known_findings.json"))
d["findings"] = [f for f in d["findings"] if f["id"] != fid] + [dict(property=prop, status="open", id=fid, what=what, violation_class=r["violation"]["cls"], scenario=scn)]
json.dump(d, open("/verif/known_findings.json", "w"), indent=1)
