"""Single source of the property list: generates properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os, importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []      # (id, title, statement, over, text, why, files, mechanism, technique, note)
NA = []         # (id, title, statement, over, text, why, files, mechanism, reason)


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


def record(p):
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}


def main():
    from tools import proplist  # noqa: F401
    ids = [p["id"] for p in PROPS + NA]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in sorted(PROPS + NA, key=lambda p: p["id"]):
            fh.write(json.dumps(record(p), ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa rules tools check.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in sorted(PROPS, key=lambda p: p["id"])],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])],
         "notes": "All checks are static: they parse /repo's current source and interpret it abstractly with /verif/sa; nothing of /repo is imported or executed. No hooks in /repo are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    from tools import props as me
    me.main()
