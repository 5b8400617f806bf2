"""writes MANIFEST.json (run by hand when a check is added)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ("symbolic execution of the real Python sources (instrumented import), every path's property "
        "assertions decided by z3, counterexamples replayed on the plain code")
GAME = ("Holds for every value of the symbolic inputs (stacks, bets, blinds, antes, raise sizes: unbounded "
        "integers; hand strengths; button) on every feasible path of the listed table sizes, street counts and "
        "action letters; evidence lists the cases, bounds and functions. Trusts z3, the instrumentation (cross-checked by replaying "
        "sampled paths on the unmodified code) and, where hands are compared, arbitrary strengths in place of card evaluation.")

NOTES = {c: GAME for c in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12").split()}
NA = {
}
TODO = "check under construction"

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
EXTRA = os.path.join(HERE, "tools", "notes.json")
if os.path.exists(EXTRA):
    NOTES.update(json.load(open(EXTRA)))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES and os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3-vt check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECH,
                           level="model_checking", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
m = dict(version=1, setup_cmd="python3-vt -c \"import z3; print(z3.get_version_string())\"",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks instrument the sources while importing them. All checks take their bounds from "
               "harness/<id>.py and run with 8 worker processes.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
