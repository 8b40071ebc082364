#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/table.py, and the DESIGN.md property list."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from table import CLAIMED, NOT_APPLICABLE
from about import ABOUT

TECH = "deterministic simulation with fault injection: "
LEVEL_NOTE = ("Seeded search over many simulated runs: a clean batch is evidence over the schedules and faults it "
              "sampled, not proof. Trusted: the simulator, its reference model and the floating-point tolerances "
              "the model is compared under. ")


def prop(p):
    return {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["all"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])],
            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
            "observe_at": p.get("observe", []),
            "hook_needed": None,
        },
    }


with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in CLAIMED + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(prop(p)) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": TECH + p["tech"],
            "level": "exploration",
            "level_note": LEVEL_NOTE + p.get("note", ""),
        }
        for p in CLAIMED
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "No hooks in /repo were needed: every seam used (sensor readings, sample times, model callbacks, "
             "RandomSource, MapLike traits, file text, the allocator) is already a parameter of the public API. "
             "Repairs of genuine defects are unguarded fix: commits, listed in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")

def lit(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


with open(os.path.join(root, "dst/src/about.rs"), "w") as f:
    f.write("//! What each check does, for its evidence. Written by meta/gen.py from meta/about.py.\n\n")
    f.write("pub fn about(id: &str) -> (&'static str, &'static str, &'static str, &'static [&'static str]) {\n    match id {\n")
    for p in CLAIMED:
        a = ABOUT[p["id"]]
        f.write(f'        {lit(p["id"])} => (\n            {lit(a["run"] + " Judged by: " + a["oracle"])},\n            {lit(a["real"])},\n            {lit(a["stub"])},\n            &[{", ".join(map(lit, a["assume"]))}],\n        ),\n')
    f.write('        _ => ("", "", "", &[]),\n    }\n}\n')

part = []
for p in sorted(CLAIMED, key=lambda p: p["id"]):
    a = ABOUT[p["id"]]
    part.append(f"""### {p["id"]} {p["title"]}

- A run: {a["run"]}
- Judged by: {a["oracle"]}
- Real: {a["real"]}. Stands in: {a["stub"]}.
- Why the tests cannot: {p["why"]}
""" + "".join(f"- Trusted: {t}.\n" for t in a["assume"]))
for p in NOT_APPLICABLE:
    part.append(f"""### {p["id"]} {p["title"]} (not applicable)

- {p["reason"]}
""")
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
b, e = "<!-- properties: written by meta/gen.py -->\n", "<!-- end of properties -->"
if b in s:
    s = s[:s.index(b) + len(b)] + "\n" + "\n".join(part) + "\n" + s[s.index(e):]
    rows = ["| change | property | what it needs to show |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(root, "seeded"))):
        m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['needs']} |")
    b, e = "<!-- seeds: written by meta/gen.py -->\n", "<!-- end of seeds -->"
    s = s[:s.index(b) + len(b)] + "\n" + "\n".join(rows) + "\n\n" + s[s.index(e):]
    open(path, "w").write(s)
print(len(CLAIMED), "claimed", len(NOT_APPLICABLE), "not applicable")
