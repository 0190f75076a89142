"""Regenerates /verif/MANIFEST.json from the check modules present."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "runtime monitoring: reference-model / trace oracles over "
               "generated histories of the real library",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(
                node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append(dict(
        property=pid,
        quick_cmd="bash run.sh %s quick" % pid,
        thorough_cmd="bash run.sh %s thorough" % pid,
        technique=consts.get("TECHNIQUE", TECH["default"]),
        level="exploration",
        level_note=consts.get(
            "NOTE", "Held on every generated execution counted in the "
            "evidence file, nothing beyond; trusts the reference oracle in "
            "checks/%s.py and mon/." % pid.lower()),
    ))
json.dump(dict(
    version=1,
    setup_cmd="bash run.sh --selftest",
    checks=checks, not_applicable=na,
    notes="Pure Python library: no native code and no threads of its own, so "
          "compiler sanitizers have nothing to observe; "
          "every property is decided by monitors over executions of the real "
          "code.  No hooks in /repo are needed (all monitors observe public "
          "behaviour).",
), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
