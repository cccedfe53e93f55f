#!/usr/bin/env python3
"""Writes known_findings.json from the fix: commits of /repo (which property each belongs to) and the open findings below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first words of the commit subject -> property
OF = [
    ("a path takes its steps", "C08"),     ("a carriage return alone", "C02"),     ("the arguments of a built-in function", "C27"), ("the operands of arithmetic", "C27"), ("the largest and smallest", "C17"), ("white space for normalize-space", "C15"), ("string-length, normalize-space and number", "C27"), ("the function given to filter()", "C23"),
    ("start/end tags without", "C01"), ("decode each entity", "C03"), ("serialise a carriage", "C03"), ("a node whose document", "C04"), ("inserting a sibling", "C05"), ("append_child()", "C05"),
    ("an element left open", "C01"), ("integer arithmetic reports", "C11"), ("abs() of the smallest", "C11"), ("round() is exact", "C12"), ("abs/ceiling/floor/round/number report", "C12"),
    ("idiv truncates", "C12"), ("cast/castable reject", "C18"), ("le, ge, <=", "C13"), ("intersect and except", "C08"), ("a predicate that is not", "C10"), ("some/every remove", "C21"),
    ("following and preceding", "C09"), ("position() and last()", "C10"), ("a named function reference or", "C21"), ("calling a function item", "C21"), ("a function is an item", "C24"),
    ("the string value of an element", "C09"), ("the string value of a processing", "C09"), ("translate()", "C15"), ("codepoints-to-string()", "C15"), ("substring()/subsequence()", "C15"),
    ("insert-before()", "C16"), ("index-of()", "C16"), ("max() and min()", "C17"), ("lang()", "C22"), ("an empty XPath", "C20"), ("a double literal", "C20"), ("operator names after", "C20"),
    ("an integer literal out", "C20"), ("string functions take", "C15"), ("is, << and >>", "C08"), ("arithmetic on a node", "C12"), ("a node compared with", "C13"), ("abs/ceiling/floor/round/max/min of", "C12"),
    ("several unary", "C20"), ("a missing operand", "C20"), ("return, in, then", "C20"), (".. may be", "C20"), ("array{} and", "C20"), ("a parenthesized item type", "C24"), ("map keys of different", "C19"),
    ("a reference to an undefined", "C21"), ("an axis step from", "C08"), ("the key of a map", "C19"), ("a colon between", "C19"), ("the name tests", "C22"), ("an unprefixed attribute", "C22"),
    ("calling a map with", "C19"), ("an array index", "C19"), ("two entries", "C19"), ("atomization and comparisons", "C19"), ("the range operator", "C16"), ("only the lexical", "C18"),
    ("a string with an exponent", "C18"), ("white space around the string", "C18"), ("the string value of an infinity", "C18"),
    ("a name after", "C20"), ("* and a colon", "C20"), ("a qualified name has", "C20"), ("an operator name may", "C20"), ("a blank XPath", "C20"), ("names after as", "C20"),
    ("a function item keeps", "C21"), ("function references, arrow", "C21"), ("partial application of something", "C21"), ("a function or a map has no value", "C13"), ("an index of an array is", "C19"), ("the key of a postfix", "C19"),
    ("signatures of one-or-more", "C24"), ("subtypes of element", "C24"), ("the type of a partially", "C24"), ("arguments and results of inline", "C24"), ("sum#1 always", "C24"), ("a path step that mixes", "C08"), ("union, intersect and except of", "C08"),
]
exec(open(os.path.join(V, "tools", "findings_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "findings_more.py")) else None
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [p for k, p in OF if s.startswith(k)]
    assert len(p) == 1, (s, p)
    out.append(dict(id="F" + h, property=p[0], status="fixed", what="fixed: property=%s %s %s" % (p[0], h, s)))
for f in globals().get("KNOWN", []):
    out.append(f)
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
print(len(out), "findings")
