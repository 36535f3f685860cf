"""Writes /verif/MANIFEST.json from the checks that exist and the notes below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
TECH = {
    "exploration": "bounded-exhaustive exploration of the real code against an independent reference model",
    "model_checking": "explicit-state search over histories of calls to the real code, compared with a reference model in every state",
    "fault_enumeration": "enumeration of every crash point and output fault on the real write path",
}
NA = {}


def main():
    checks, na = [], []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)["id"]
        if not os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
            na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
            continue
        src = open(os.path.join(V, "checks", p.lower() + ".py")).read()
        ns = {}
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "RULE", "NOTE", "TECHNIQUE", "BOUNDS"):
                try:
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        b = ns.get("BOUNDS", {})
        checks.append(dict(property=p, quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % p,
                           thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p,
                           technique=ns.get("TECHNIQUE") or TECH[ns["LEVEL"]], level=ns["LEVEL"],
                           level_note=ns.get("NOTE") or "Exhaustive within these bounds: %s. Nothing is claimed beyond them. Trusts the reference model in lib/spec.py and CPython." % (b.get("quick", "") if isinstance(b, dict) else b)))
    doc = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks: the checks drive nappy's public API on the working tree of /repo. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(doc, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks", len(na), "not claimed")


main()
