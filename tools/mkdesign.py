"""Assembles DESIGN.md from the hand written parts, known_findings.json, seeded/ and evidence/."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(n):
    with open(os.path.join(HERE, n)) as f:
        return f.read()


kf = json.loads(rd("known_findings.json"))
o = [rd("tools/design_head.md"), rd("tools/design_props.md")]
o.append("\n## 6. Defects repaired (`fix:` commits in /repo)\n\nEach was found by a check on the "
         "original tree and replayed on the real code before it was repaired.\n\n"
         "| property | commit | what failed |\n|---|---|---|\n")
for x in kf["fixed"]:
    _, p, c, w = x.split(" ", 3)
    o.append(f"| {p.split('=')[1]} | {c} | {w} |\n")
o.append("\n## 7. Known findings (genuine, not repaired)\n\n")
for x in kf["findings"]:
    o.append(f"* `{x['id']}` ({x['property']}): {x['what']}. The repair would make these tests "
             "fail, which may not be edited. The check asks the solver for a violation outside "
             "the region of this finding, so any other violation is still reported.\n")
seeds = "| change | property | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds += (f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | "
              f"{d['what_it_breaks']} |\n")
o.append("\n" + rd("tools/design_tail.md").replace("SEEDED\n", seeds))
o.append("\n## Cost of the quick tier (from the evidence files)\n\n| property | cases | paths | "
         "obligations | queries | solver s | wall s (8 cores) |\n|---|---|---|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(HERE, "evidence", "*.json"))):
    d = json.load(open(f))
    c = d["coverage"]
    if d["tier"] == "quick":
        o.append(f"| {d['property']} | {len(c['bounds'])} | {c['states']} | {c['obligations']} | "
                 f"{c['queries']} | {c['solver_s']:.0f} | {d['wall_s']:.0f} |\n")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(o))
