"""check.py PROPERTY quick|thorough  - decide one property and write its evidence."""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from symx import runner, loader  # noqa: E402


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    only = None
    jobs = None
    verbose = "-v" in sys.argv
    for a in sys.argv[3:]:
        if a.startswith("--case="):
            only = a[7:]
        if a.startswith("--jobs="):
            jobs = int(a[7:])
    mod, cases, results, kf, wall = runner.run_property(prop, tier, jobs, only, verbose)
    real, unresolved, errors, vacuous, incomplete = [], [], [], [], []
    for c, r in zip([cases[r["idx"]] for r in results], results):
        for v in r["violations"]:
            rp = v.get("replay") or {}
            (real if rp.get("failed") else unresolved).append((c, r, v))
        for e in r["errors"]:
            errors.append((c["name"], e))
        for m in r.get("mismatch", []):
            errors.append((c["name"], "model/real difference " + json.dumps(m)[:600]))
        need = set(c.get("must", ["ok"]))
        if not r["violations"] and not need <= set(r["labels"]):
            vacuous.append((c["name"], sorted(need - set(r["labels"])), r["unknown"]))
        if not r["complete"] or r["unknown"]:
            incomplete.append((c["name"], r["unknown"]))
        if verbose:
            s = r["stats"]
            print(f"{c['name']:42s} {r['wall']:7.1f}s paths={s.get('paths')} "
                  f"q={s.get('queries')} solver={s.get('solver_s', 0):.1f} "
                  f"forks={s.get('forks')} merged={s.get('merged')} conc={s.get('concretised')} "
                  f"fb={s.get('fallback')} ab={s.get('aborted')} ok={r['complete']} "
                  f"viol={len(r['violations'])} mism={len(r.get('mismatch', []))} {r['unknown']}")
            for t in r.get("tracebacks", [])[:2]:
                print(t)
    outdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    lines = []
    for n, (c, r, v) in enumerate(real[:10]):
        p = os.path.join(outdir, f"{prop}-{n}.json")
        with open(p, "w") as f:
            json.dump(dict(property=prop, tier=tier, case=c["name"], msg=v["msg"],
                           inputs=v["inputs"], replay=v["replay"]), f, indent=1)
        print(f"  {c['name']}: {v['replay']['failed']}")
        print(f"  inputs: {json.dumps(v['inputs'])[:800]}")
        print(f"  replay: {runner.REALPY} {HERE}/concrete.py {p}")
        lines.append(f"VIOLATION property={prop} replay={p}")
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for c, r, v in unresolved:
        print(f"UNRESOLVED {c['name']}: {v['msg']} (the real code satisfies the property there) "
              f"{json.dumps(v['inputs'])[:300]} {json.dumps(v.get('replay'))[:200]}")
    for n, e in errors:
        print(f"ENGINE {n}: {e}")
    for n, need, unk in vacuous:
        print(f"VACUOUS {n}: never reached {need} {unk}")
    for n, u in incomplete:
        print(f"INCOMPLETE {n}: {u}")
    st = {}
    for r in results:
        for k, x in r["stats"].items():
            st[k] = st.get(k, 0) + x
    funcs = sorted({f for r in results for f in r["functions"]
                    if not f.split(".")[0] in harness_names()})
    cov = dict(
        kind="symbolic execution of the real source, SMT-decided",
        model="none: the property harness calls the code loaded from "
              f"{loader.SRC} at the time of the run",
        functions_encoded=funcs,
        bounds=[dict(case=c["name"], bound=c.get("bound", ""),
                     paths=r["stats"].get("paths", 0), checks=r["stats"].get("checks", 0),
                     complete=r["complete"] and not r["unknown"], wall_s=round(r["wall"], 2))
                for c, r in zip([cases[r["idx"]] for r in results], results)],
        outside=getattr(mod, "OUTSIDE", ""),
        queries=st.get("queries", 0), solver_s=round(st.get("solver_s", 0), 2),
        obligations=st.get("checks", 0),
        unknown_queries=st.get("unknown_queries", 0),
        merged_blocks=st.get("merged", 0), concretised_terms=st.get("concretised", 0),
        foreign_calls_concretised=st.get("fallback", 0),
        counterexamples_unresolved=len(unresolved), incomplete_cases=incomplete,
        solver="z3 " + __import__("z3").get_version_string(),
        states=max(1, st.get("paths", 0)), transitions=max(1, st.get("decisions", 0)),
        model_real_differences=len(errors), cases_not_reaching_their_goal=[v[0] for v in vacuous],
        evidence=f"{st.get('paths', 0)} paths, {st.get('checks', 0)} obligations decided by z3; "
                 "every recorded path re-run on the uninstrumented code",
        traces_validated_against_impl=sum(r.get("npaths_replayed", 0) for r in results),
        exhaustive_within_bounds=not incomplete,
        samples=[p["inputs"] for r in results for p in r["paths"][:1]][:5],
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level=getattr(mod, "LEVEL", "model_checking"), coverage=cov, wall_s=round(wall, 2))
    if only is None:
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)} cases, {st.get('paths', 0)} paths, "
          f"{st.get('checks', 0)} obligations, {st.get('queries', 0)} queries, "
          f"{st.get('solver_s', 0):.1f}s solver, {wall:.1f}s")
    for x in lines:
        print(x)
    if lines:
        return 1
    decided = [c["name"] for c, r in zip([cases[r["idx"]] for r in results], results)
               if r["labels"]]
    if not decided or "--strict" in sys.argv and (errors or unresolved or vacuous):
        print(f"NO VERDICT for {prop}")
        return 3
    return 0


def harness_names():
    return {f[:-3] for f in os.listdir(os.path.join(HERE, "harness")) if f.endswith(".py")}


if __name__ == "__main__":
    sys.exit(main())
