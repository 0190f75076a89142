"""Regenerates DESIGN.md from DESIGN.head.md, the check modules,
DESIGN.tail.md and catch.txt (results of the last runs on planted bugs)."""
import ast, json, os, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")
WHY = json.load(open(os.path.join(T, "why.json")))
out = [open(os.path.join(T, "DESIGN.head.md")).read()]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    c = {}
    for n in ast.parse(open(os.path.join(
            HERE, "checks", p["id"].lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            c[n.targets[0].id] = n.value
    ev = lambda k: ast.literal_eval(c[k])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(textwrap.fill("*Workload.* " + ev("RULE") + ".", 79) + "\n")
    out.append(textwrap.fill("*Bounds (cases quick/thorough).* " + "; ".join(
        "%s %s/%s" % (e.elts[0].value, ast.unparse(e.elts[2]),
                      ast.unparse(e.elts[3]))
        for e in c["SCENARIOS"].elts) + ".", 79) + "\n")
    w = WHY.get(p["id"])
    if w:
        out.append(textwrap.fill("*Oracle, and reach beyond tests.* " + w, 79)
                   + "\n")
    a = ev("ASSUMPTIONS")
    if a:
        out.append(textwrap.fill("*Not judged / assumed.* " + "; ".join(a)
                                 + ".", 79) + "\n")
out.append(open(os.path.join(T, "DESIGN.tail.md")).read())
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
catch = dict(l.rstrip("\n").split("\t") for l in open(
    os.path.join(T, "catch.txt")))
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s |" % (s, m["needs"].replace("|", "/"),
                                      catch.get(s, "(not run)")))
out.append("\n".join(rows) + "\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
