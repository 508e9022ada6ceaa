"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static analysis: abstract interpretation of the LLVM IR (relational numeric domain + array logs + event traces)"
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, observe=None):
    """claim: (level, note) or a string: the reason it is not applicable"""
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, observe=observe))


PROOF = ("proof", "every obligation is discharged by the analyser for all entry states, with loops summarised by inferred invariants; "
                  "trusted base: clang's IR, the analyser and its library models")
OTHER = lambda n: ("other", n)

exec(open(os.path.join(V, "tools", "props_list.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if isinstance(p["claim"], str):
            na.append({"property": p["id"], "reason": p["claim"]})
        else:
            lv, note = p["claim"][:2]
            tech = p["claim"][2] if len(p["claim"]) > 2 else AI
            checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                           "technique": tech, "level": lv, "level_note": note})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    print(len(checks), "claimed", len(na), "not applicable")


if __name__ == "__main__":
    main()
