import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
TECH = "symbolic execution of the real code with an SMT solver (z3) deciding every assertion for all inputs within the stated bounds"
NOTE = "Bounded: holds for all values of the symbolic inputs within the sizes listed per unit in the evidence file; see DESIGN.md."
man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[], notes="One engine (symx/) runs the repository's own functions on symbolic values and asks z3; each check is checks/<id>.py. known_findings.jsonl lists recorded defects and repairs.")
for p in PROPS:
    for a in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + a), "missing anchor " + a
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
        if p["_na"] or not os.path.exists(V + "/checks/%s.py" % p["id"]):
            man["not_applicable"].append(dict(property=p["id"], reason=p["_na"] or "Check not built yet."))
        else:
            man["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s --tier quick" % p["id"], thorough_cmd="./check.sh %s --tier thorough" % p["id"],
                                      technique=TECH, level="model_checking", level_note=p["_note"] or NOTE))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
table = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    table.append("* **%s** (%s, caught): %s Needs: %s" % (d, m["property"], m["what_it_breaks"].rstrip(".") + ".", m["needs"]))
parts = [open(V + "/tools/design_%s.md" % n).read().strip("\n") for n in ("head", "props", "tail")]
with open(V + "/DESIGN.md", "w") as f:
    f.write(parts[0] + "\n\n## 2. Properties\n\nCosts are quick wall-clock on 8 cores.\n\n" + parts[1] + "\n\n" + parts[2].replace("PLANTED", "\n".join(table)) + "\n")
