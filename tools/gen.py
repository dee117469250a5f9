"""Writes properties.jsonl and MANIFEST.json (development tool: both files are committed)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=(), state=(), technique=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, note=note, observe=list(observe), state=list(state),
                      technique=technique, na=na))


TECH = "TLA+ specification checked by TLC; its behaviours replayed in the real code, the recorded traces validated by TLC"
U = "lib/mito/utilities/"
T = "lib/mito/topology/"
exec(open(os.path.join(VERIF, "tools", "props.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"],
                   "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"] or TECH,
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
    "notes": "The specifications are TLA+ (spec/*.tla), checked with TLC. No hooks in /repo: every observation is made "
             "through mito's public interface. known_findings.json lists the defects found.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
