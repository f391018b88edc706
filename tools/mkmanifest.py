"""Writes MANIFEST.json: one check per property that has a harness."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}          # property -> reason, for those that stay unclaimed
TODO = "harness not written yet"

TECH = ("symbolic execution of the library source re-read from /repo (bit-vector / IEEE float "
        "terms), assertions decided by z3, counterexamples replayed on the real code")
NOTE = ("decided for every value within the bounds listed per case in the evidence; trusts the "
        "models of numpy, struct, datetime, re, json and crc32c, each path of which is re-run on "
        "the real interpreter and compared")

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(x) for x in f]
for p in props:
    i = p["id"]
    if i not in NA and os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3-vt /verif/check.py {i} quick",
                           thorough_cmd=f"python3-vt /verif/check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH,
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
d = dict(version=1, setup_cmd="python3-vt /verif/tools/selfcheck.py", checks=checks,
         not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "unclaimed")
