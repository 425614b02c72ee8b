"""Writes properties.jsonl and MANIFEST.json from tools/props.py (only properties that have a check)."""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("props", os.path.join(ROOT, "tools", "props.py"))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")

checks = []
for p in props.PROPERTIES:
    assert os.path.exists(os.path.join(ROOT, "vf", "props", p["id"].lower() + ".py")), p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} quick",
        "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["_technique"],
        "level": p.get("_level", "exploration"),
        "level_note": p["_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": props.NOT_APPLICABLE,
    "notes": "Property-based testing with Hypothesis (unpacked offline by setup.sh). No hooks in /repo. "
             "run.sh --replay <file> re-runs one saved case.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "properties")


def seeded_table():
    d = os.path.join(ROOT, "seeded")
    rows = ["| planted bug | property | needs |", "|---|---|---|"]
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, "meta.json")))
        rows.append(f"| {i} | {m['property']} | {m['needs']} |")
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    a, rest = s.split("<!-- seeded -->", 1)
    _, b = rest.split("<!-- /seeded -->", 1)
    open(p, "w").write(a + "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->" + b)


seeded_table()
