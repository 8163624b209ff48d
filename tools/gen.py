#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from meta_*.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import meta_xleash, meta_core  # noqa
V = os.path.dirname(here)
PY = "/opt/venv/bin/python"
NA = []
with open(V + "/properties.jsonl", "w") as fd:
    for p in meta_xleash.P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                 observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        fd.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
have = {f[:3].upper() for f in os.listdir(V + "/checks") if f[0] == "p" and f.endswith(".py")}
checks = [dict(property=p["id"],
               quick_cmd="%s run.py %s" % (PY, p["id"]),
               thorough_cmd="VERIF_TIER=thorough %s run.py %s" % (PY, p["id"]),
               technique=p["technique"], level=p["level"], level_note=p["note"])
          for p in meta_xleash.P if p["id"] in have]
na = [dict(property=p["id"], reason="check not built yet") for p in meta_xleash.P if p["id"] not in have]
json.dump(dict(version=1, setup_cmd="%s run.py --selftest" % PY, checks=checks, not_applicable=na,
               notes="Runtime monitors over the real code imported from /repo; see DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "missing")


def design():
    import ast
    out = [open(here + "/design_head.md").read(), "## The properties\n"]
    for p in meta_xleash.P:
        f = [x for x in os.listdir(V + "/checks") if x.startswith(p["id"].lower() + "_")]
        if not f:
            continue
        tree = ast.parse(open(V + "/checks/" + f[0]).read())
        vals = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "FLOORS"):
                vals[n.targets[0].id] = ast.literal_eval(n.value)
        loads = [ast.unparse(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "WORKLOADS"][0]
        out.append("### %s %s\n\n*%s* (`checks/%s`)\n\n* **Decided by** %s.\n* **Cases**: %s.\n* **Bounds**: workloads as (name, cases in quick, in thorough) %s. %s\n* **Beyond the tests**: %s\n" % (
            p["id"], p["title"], p["text"].rstrip("."), f[0], p["technique"], vals["RULE"],
            " ".join("%s %s/%s;" % t for t in __import__("re").findall(r"\('([\w-]+)', \w+, ([^,]+), ([^)]+?)\)(?=[,\]])", loads)), p["note"], p["why"]))
    out.append(open(here + "/design_tail.md").read())
    out.append("| planted bug | property | caught by its check | needs |\n|---|---|---|---|")
    caught = json.load(open(here + "/caught.json"))
    for b in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % b))
        out.append("| %s | %s | %s | %s |" % (b, m["property"], caught.get(b, "yes, first"), m["needs"]))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")


design()
