"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, level_note=None, technique=None, state=None, observe=None, claimed=True, level="model_checking", reason=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": tests,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, dict(level_note=level_note, technique=technique, claimed=claimed, level=level, reason=reason)))


exec(open(os.path.join(ROOT, "tools", "properties_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for d, m in P:
    built = os.path.exists(os.path.join(ROOT, "mc", "checks", d["id"].lower() + ".py"))
    if m["claimed"] and built:
        checks.append({
            "property": d["id"],
            "quick_cmd": "./run.sh %s quick" % d["id"],
            "thorough_cmd": "./run.sh %s thorough" % d["id"],
            "technique": m["technique"],
            "level": m["level"],
            "level_note": m["level_note"],
        })
    else:
        na.append({"property": d["id"], "reason": m["reason"] or "check not built yet"})
man = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check enumerates a bounded space of configurations / operation histories completely on the real code of /repo and compares with an independent reference model (mc/ref*.py). See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
