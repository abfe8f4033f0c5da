"""writes DESIGN.md from the texts beside it, the laws of the checks and the planted bugs"""
import ast
import glob
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
out = [open(H+"/design_head.md").read().rstrip(), ""]
man = {c.get("property_id") or c.get("property") or c.get("id"): c for c in json.load(open(V+"/MANIFEST.json"))["checks"]}
for line in open(V+"/properties.jsonl"):
    p = json.loads(line)
    out += ["### %s %s" % (p["id"], p["title"]), "", "Beyond tests: %s." % p["why_tests_cant"].rstrip("."), ""]
    c = man[p["id"]]
    out += ["Deciding method: %s.  Bounds: %s." % (str(c.get("technique", "")).rstrip("."), str(c.get("level_note", "")).rstrip(".")), ""]
    for n in ast.parse(open(V+"/pbt/props/%s.py" % p["id"].lower()).read()).body:
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            d = n.decorator_list[0]
            q = [ast.unparse(a) for a in d.args[2:4]]
            out.append("* `%s` (%s): %s." % (n.name, " / ".join(q), " ".join(ast.get_docstring(n).split()).rstrip(".")))
    out.append("")
out.append(open(H+"/design_tail.md").read().rstrip())
out += ["", "| bug | property | needs | breaks | caught by laws |", "|---|---|---|---|---|"]
caught = json.load(open(H+"/caught.json")) if os.path.exists(H+"/caught.json") else {}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "?")))
open(V+"/DESIGN.md", "w").write("\n".join(out)+"\n")
