#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the properties of DESIGN.md from spec.py."""
import json, os, spec
H = os.path.dirname(os.path.abspath(__file__))


def entry(pid, c):
    return dict(id=pid, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["text"]),
                why_tests_cant=c["why"] if c["why"].endswith(".") else c["why"] + ".",
                anchors=dict(files=c["files"], mechanism=[dict(name=n, where=w) for n, w in c["mech"]], hook_needed=None))


props = [entry(p, c) for p, c in spec.CHECKS.items()] + [entry(p, c) for p, c, _ in spec.NOT_APPLICABLE]
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for pid, c in spec.CHECKS.items():
    checks.append(dict(
        property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + pid,
        evidence_file="evidence/%s.json" % pid,
        technique="symbolic execution of the crate's LLVM IR, assertions decided by Z3 (QF_BV), counterexamples replayed natively",
        level="model_checking",
        level_note="Holds for every input within the bounds listed in the evidence file (" + c["text"] + "). Outside: "
        + (c["outside"] or "nothing stated") + ". Trusts rustc's lowering to LLVM IR, the symbolic executor in engine/ "
        "(checked on every run against native runs of sampled paths) and Z3; std's hash values are abstracted."))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, _, r in spec.NOT_APPLICABLE],
         notes="No hooks are needed in /repo: the harness crate uses the public API only. The fix: commits in /repo are listed in known_findings.json.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

D = os.path.join(H, "DESIGN.md")
d = open(D).read()
i, j = d.index("<!-- written by gen.py -->"), d.index("<!-- end -->")
lines = []
for pid, c in spec.CHECKS.items():
    hs = list(dict.fromkeys(x["h"] for x in c["jobs"]))
    q = sum(x["tier"] == "q" for x in c["jobs"])
    lines.append("* **%s %s.** Quantified over %s. %d quick and %d further thorough runs of %s. Outside: %s." % (
        pid, c["title"], c["text"], q, len(c["jobs"]) - q, ", ".join("`%s`" % h for h in hs), c["outside"] or "nothing stated"))
for pid, c, r in spec.NOT_APPLICABLE:
    lines.append("* **%s %s**: not applicable: %s." % (pid, c["title"], r))
open(D, "w").write(d[:i] + "<!-- written by gen.py -->\n" + "\n".join(lines) + "\n" + d[j:])

S = os.path.join(H, "seeded")
if os.path.isdir(S):
    d = open(D).read()
    i, j = d.index("<!-- planted -->"), d.index("<!-- end planted -->")
    lines = []
    for b in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, b, "meta.json")))
        lines.append("* `%s` (%s; needs %s): %s" % (b, m["property"], m["needs"], m["what_it_breaks"]))
    open(D, "w").write(d[:i] + "<!-- planted -->\n" + "\n".join(lines) + "\n" + d[j:])
