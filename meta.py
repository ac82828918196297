#!/usr/bin/env python3
"""The properties, and what is claimed about them.  `python3 meta.py` writes
properties.jsonl and MANIFEST.json from here."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = []


def P(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    if len(title) > 80:
        raise SystemExit("title too long: " + id)
    p = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over.split(), "text": " ".join(q.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files.split(),
                     "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    PROPS.append((p, technique, " ".join((note or "").split()), na))


ERRTECH = "interprocedural path-sensitive error-propagation dataflow over the Clang CFG"
ERRNOTE = """Every call site of a fallible operation reachable from the named entry points is assumed to
fail, and every Status-returning exit reached from it without a successful retry must carry an error (or
leave by an exception). Complete for the listed operations over all paths of the extracted CFGs; trusted:
the Clang 18 AST/CFG, the abstraction (Status values, integer return codes, correlated booleans), the
list of tolerated sites in jf/rules/errors.py, and known_findings.json."""

exec(open(os.path.join(V, "props.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 -c 'from jf.load import build_tool; build_tool()'",
         "checks": [], "not_applicable": []}
    for p, tech, note, na in PROPS:
        if na:
            m["not_applicable"].append({"property": p["id"], "reason": " ".join(na.split())})
        else:
            m["checks"].append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s" % p["id"],
                "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": tech, "level": "other", "level_note": note})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d claimed" % (len(PROPS), len(m["checks"])))
