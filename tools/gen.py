"""Writes properties.jsonl and MANIFEST.json from the list below (python3 tools/gen.py)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/wax/"
PROPS = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, note, technique=None, state=(), observe=()):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why,
            files=[SRC + f for f in files], mechanism=mechanism, note=note, state=list(state),
            observe=list(observe),
            technique=technique
            or "bounded exhaustive exploration of all input histories on the real code, against a reference model",
        )
    )


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": SRC + w} for n, w in p["mechanism"]],
                "hook_needed": None,
            }
            if p["state"]:
                anchors["state"] = [
                    {"name": n, "meaning": m, "where": SRC + w} for n, m, w in p["state"]
                ]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["quantifier"]},
                        "why_tests_cant": p["why"],
                        "anchors": anchors,
                    }
                )
                + "\n"
            )
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./run.sh {p['id']} quick",
                "thorough_cmd": f"./run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"],
            }
            for p in PROPS
            if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py"))
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "its check is not built yet"}
            for p in PROPS
            if not os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py"))
        ],
        "notes": "No hooks in /repo: every check drives the public interfaces of the library. "
        "KNOWN_FINDINGS.txt lists repaired defects and known findings; DESIGN.md explains bounds and oracles.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
