"""All properties in one place; `python3 lib/props_meta.py` rewrites properties.jsonl and MANIFEST.json.

P(id, title, statement, over, quantifier text, why tests cannot, files, mechanisms[(name, where)], claimed=..., note=...)
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe=(), claimed=True, reason="", note="", state=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=list(observe), claimed=claimed, reason=reason, note=note,
                      state=list(state)))


exec(open(os.path.join(VERIF, "lib", "props_list.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            d["anchors"]["hook_needed"] = None
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        if not p["claimed"]:
            na.append(dict(property=p["id"], reason=p["reason"]))
            continue
        checks.append(dict(
            property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
            technique="TLA+ specification: TLC model checking + trace validation of the real code with TLC",
            level="model_checking",
            level_note=p["note"] or "The TLA+ model is checked exhaustively within the stated constants; the real "
            "code is judged only on the calls the driver makes (model transitions replayed plus seeded random ones)."))
    man = dict(version=1, setup_cmd="bash /opt/vp/build.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the library's public calls already expose the abstract state.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
