#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's working tree.  Exit 0: it held on everything explored;
exit 1 and a VIOLATION line: broken; exit 2: no answer.
"""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from symex import runner  # noqa: E402
from props import registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only", help="harness names, comma separated")
    ap.add_argument("--all", action="store_true", help="do not stop at a violation")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hs = registry.harnesses(a.property, a.tier)
    if a.only:
        names = a.only.split(",")
        hs = [h for h in hs if any(h.name.startswith(n) for n in names)]
    budget = a.budget or (200 if a.tier == "quick" else 5400)
    r = runner.Runner(
        a.property, hs, a.tier, seed, budget=budget,
        timeout_is_violation=a.property == "C02", max_found=1000 if a.all else 2,
        known=registry.known_ids(a.property),
    )
    r.run(stop_on_found=not a.all)
    if not r.found:
        r.prove_coverage(30 if a.tier == "quick" else 600)
    else:
        r.cover, r.cover_s = {}, 0.0

    # violations: replayed by a fresh interpreter on the unmodified code
    confirmed, refuted, seen = [], [], set()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for f in r.found:
        h = r.hs[f["hi"]]
        if (h.name, f["label"]) in seen or len(confirmed) >= 5:
            continue
        seen.add((h.name, f["label"]))
        path = os.path.join(HERE, "replays", "%s-%d.json" % (a.property, len(seen)))
        with open(path, "w") as fh:
            json.dump(
                dict(
                    property=a.property, module=h.module, fn=h.fn, params=h.params,
                    harness=h.name, values=f["values"], label=f["label"],
                    info=f["info"],
                ),
                fh, indent=1, default=repr,
            )
        ok, out = runner.replay_fresh(path)
        (confirmed if ok else refuted).append((path, f))

    findings = registry.run_findings(a.property)
    tot = {}
    for p in r.per:
        for k, v in p["st"].items():
            tot[k] = tot.get(k, 0) + v
    paths = sum(tot.get(k, 0) for k in (
        "ok", "known", "excluded", "violation", "unsupported", "budget", "diverged"))
    if a.verbose:
        for h, p in zip(r.hs, r.per):
            print(
                "%-28s %6.1fs open=%d cover=%s %s" % (
                    h.name, p["wall"], p["open"], p.get("cover"), dict(p["st"])))
            for k, v in sorted(p["notes"].items(), key=lambda x: -x[1])[:6]:
                print("      %d x %s" % (v, k[:600]))
        print(dict(r.stats))
        if a.all:
            for f in r.found:
                print("   FOUND", r.hs[f["hi"]].name, f["label"], f["info"])
    for e in r.errors[:3]:
        print("ERROR:", e)
    open_ = sum(p["open"] for p in r.per)
    und = {k: tot[k] for k in ("unsupported", "budget", "diverged", "mismatch", "no_model")
           if tot.get(k)}
    samples = []
    for h, p in zip(r.hs, r.per):
        for s in p["samples"][:1]:
            if len(samples) < 12:
                samples.append(dict(harness=h.name, status=s[0], case=s[1]))
    ev = dict(
        property=a.property, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=paths,
            transitions=r.stats["branches"],
            traces_validated_against_impl=tot.get("validated", 0),
            samples=samples,
            exhaustive=not open_ and not und and not r.errors,
            functions_encoded=sorted(r.functions),
            bounds=[dict(
                harness=h.name, bounds=h.bounds, params=h.params,
                paths=sum(v for k, v in p["st"].items() if k in ("ok", "known", "excluded")),
                unexplored_prefixes=p["open"],
                coverage_query=p.get("cover", "not run"),
                cpu_s=round(p["wall"], 2),
            ) for h, p in zip(r.hs, r.per)],
            assertions_checked=tot.get("checks", 0),
            undecided_paths=und,
            excluded_paths=tot.get("excluded", 0),
            solver=dict(
                queries=r.stats["z3_queries"] + sum(r.cover.values()) - r.cover.get("skipped", 0),
                branch_and_model_queries=r.stats["z3_queries"],
                verdict_queries=r.stats["verdict_queries"],
                verdicts_valid_by_construction=r.stats["verdicts_constant"],
                seconds=round(r.stats["z3_s"] + r.cover_s, 3),
                coverage_queries=dict(r.cover),
                coverage_seconds=round(r.cover_s, 3),
            ),
        ),
        assumptions=registry.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
        fh.write("\n")

    for line in findings:
        print(line)
    print(
        "%s %s: %d harnesses, %d paths (%d validated on the unmodified code), "
        "%d assertions, %d solver queries, coverage %s, unexplored %d, undecided %s, %.1fs"
        % (
            a.property, a.tier, len(r.hs), paths, tot.get("validated", 0),
            tot.get("checks", 0), ev["coverage"]["solver"]["queries"], dict(r.cover), open_,
            und or 0, time.time() - t0,
        )
    )
    for path, f in confirmed:
        print("  %s: %s %s" % (
            r.hs[f["hi"]].name, f["label"], json.dumps(f["info"], default=repr)[:800]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    if confirmed:
        return 1
    if refuted:
        print("NOTE: %d counterexamples did not reproduce in a fresh process" % len(refuted))
        return 2
    if tot.get("ok", 0) + tot.get("known", 0) == 0:
        print("NOTE: no path reached the end (nothing was decided)")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
