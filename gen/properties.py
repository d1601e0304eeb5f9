#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "pkg/scte35/"
P = []

def prop(id, title, statement, over, text, why, files, mech, claim=True, reason="", note="", technique="", level="translation_validation"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claim=claim, reason=reason, note=note, technique=technique, level=level))

VAL = "value-graph translation validation: abstract interpretation of library function and SCTE 35 reference, normal forms compared (no execution, no solver)"
TESTS = "The suite decodes and re-encodes about twenty fixed sections; "
S = L + "splice_info_section.go"
CMDS = [L + f for f in ("splice_null.go", "splice_schedule.go", "splice_insert.go", "time_signal.go", "bandwidth_reservation.go", "private_command.go")]
DESCS = [L + f for f in ("avail_descriptor.go", "dtmf_descriptor.go", "segmentation_descriptor.go", "time_descriptor.go", "audio_descriptor.go", "private_descriptor.go")]

exec(open(os.path.join(ROOT, "gen", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
have = set(subprocess.run([os.path.join(ROOT, "bin", "scte35vg"), "list"], capture_output=True, text=True).stdout.split())
checks, na = [], []
for p in P:
    if p["claim"] and p["id"] in have:
        checks.append(dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="./run.sh " + p["id"],
            technique=p["technique"] or VAL, level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "no check has been built for it yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable:", [n["property"] for n in na])
