#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
DOM, SAX, EVAL, FUNC, LEX, PAR, ITEM, SEQ, OPER, HELP, DECL, ATOI = ["src/dom.rs", "src/sax.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/func.rs", "src/xpath_impl/lexer.rs", "src/xpath_impl/parser.rs",
    "src/xpath_impl/xitem.rs", "src/xpath_impl/xsequence.rs", "src/xpath_impl/oper.rs", "src/xpath_impl/helpers.rs", "src/xpath_impl/xmlitem.rs", "src/xpath_impl/helpers.rs"]
L = []
NA = []


def prop(i, title, statement, over, text, why, files, mech, observe, hook=None, note=""):
    L.append((dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)), note))


exec(open(os.path.join(V, "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p, _ in L]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
NOTE = "Every value within the stated bounds, by symbolic execution of the crate's compiled LLVM IR with z3 deciding each branch and assertion; outside the bounds nothing is claimed. Trusts rustc, the engine's IR semantics (cross-checked by native replay of explored paths on every run), z3 and the reference model in harness/src."
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="cfg(amxml_verif)", enable="RUSTFLAGS='--cfg amxml_verif'", source_commits=hook),
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the compiled crate (LLVM IR) with SMT (z3)",
                      level="model_checking", level_note=(n + " " if n else "") + NOTE) for p, n in L if p["id"] not in [x["property"] for x in NA]],
         not_applicable=NA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
except ImportError:
    os.execvp("python3-vt", ["python3-vt", __file__])
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p, _ in L:
    jsonschema.validate(p, sch)
print(len(L), "properties")
