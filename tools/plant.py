"""Writes seeded bugs from a spec file: python3 plant.py SPEC.py [ID ...]
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Confirms each in /repo's own tree (applied and undone): tests pass, demo fails, and says whether the
property's quick check reports it."""
import json, os, runpy, subprocess, sys, time
REPO = "/repo"
SEED = "/verif/seeded"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("find", REPO + "/src", "-name", "*.pyc", "-delete")
    sh("git", "-C", REPO, "checkout", "--", ".")


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip(), "repo dirty"
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        with open(d + "/demo.py", "w") as f:
            f.write(b["demo"].strip() + "\n")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd=REPO)
        try:
            ok = True
            for fn, old, new in b["edits"]:
                p = os.path.join(REPO, "src/simplemseed", fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT MATCHES", s.count(old), repr(old[:60]))
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            sh("find", REPO + "/src", "-name", "*.pyc", "-delete")
            if not ok:
                continue
            open(d + "/patch.diff", "w").write(sh("git", "-C", REPO, "diff").stdout)
            r1 = sh("bash", d + "/demo.sh", cwd=REPO)
            t = sh("bash", "/tmp/tst.sh").stdout.strip()
            t0 = time.time()
            c = sh("python3-vt", "check.py", b["prop"], "quick", cwd="/verif")
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{b['id']:28s} {b['prop']} demo clean={r0.returncode} bug={r1.returncode} tests={t} "
                  f"check={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} "
                  f"{time.time() - t0:.0f}s", flush=True)
            if r0.returncode:
                print(r0.stderr[-800:])
            if r1.returncode == 0:
                print("   DEMO DOES NOT FAIL")
        finally:
            clean()


main()
