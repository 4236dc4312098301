"""The listed properties and how each is claimed: `python3 tools/meta.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os
PROPS = []
NA = []
TECH = "TLA+ specification, TLC model checking + replay of model behaviours into the code, trace validation by TLC"


def P(id, title, statement, over, qtext, tests, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files,
                      mech=mech, note=note, observe=observe or []))


from metadata import *  # noqa


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    na = {x["property"] for x in NA}
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "./check.py %s --thorough" % p["id"],
         "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": p["note"]}
        for p in PROPS if p["id"] not in na],
        "not_applicable": NA,
        "notes": "TLA+ (TLC). Each check model-checks its specification, replays the behaviours TLC prints into the code of "
                 "/repo's working tree (compiled into a scratch directory where needed) and lets TLC judge the recorded traces."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    main()
