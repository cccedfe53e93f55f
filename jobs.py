"""Which harness runs with which bounds, per property and tier."""
import os, re

HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "src")


def _parse():
    """entry -> {id: (description, required)}, read from the ck!/ck_opt! calls of the harness sources; ids >= 100 sit in shared helpers"""
    desc, shared = {}, {}
    for f in sorted(os.listdir(HARNESS)):
        if not f.endswith(".rs"):
            continue
        cur = None
        for l in open(os.path.join(HARNESS, f)):
            m = re.match(r'pub extern "C-unwind" fn (\w+)', l)
            if m:
                cur = m.group(1)
                desc[cur] = {}
            elif re.match(r"(pub )?(fn|struct|enum|impl|const|static)\b", l):
                cur = None
            for m in re.finditer(r'\b(ck|ck_opt)!\((\d+),\s*"((?:[^"\\]|\\.)*)"', l):
                i = int(m.group(2))
                if i >= 100 or cur is None:
                    shared[i] = m.group(3)
                else:
                    desc[cur][i] = (m.group(3), m.group(1) == "ck")
    return desc, shared


DESC, SHARED = _parse()


def describe_id(entry, i):
    if i in DESC.get(entry, {}):
        return DESC[entry][i][0]
    return SHARED.get(i, "")


def describe(entry, v):
    return describe_id(entry, v["id"]) if v["kind"] == "assert" else v["kind"]


def need(entry):
    return [i for i, (_, r) in DESC.get(entry, {}).items() if r]


P = {}


def j(entry, *params, **kw):
    return dict(entry=entry, params=list(params), **kw)


def jobs(prop, tier):
    return P[prop][tier]()


def assumptions(prop):
    return COMMON + P[prop].get("assume", [])


COMMON = [
    "rustc/LLVM compile the crate the same way for the engine (opt-level 2, fat LTO) and for users; explored paths are replayed natively against a separately built crate on every run",
    "allocation never fails; hashing and formatting code of std is executed as compiled",
]

R = range
LARGE = "a large document: 100 + n nodes below each other, or 200 + n siblings, or an element with many attributes; the last nodes and attributes symbolic"
CUT = "document %d with names of %d and contents of %d bytes, cut off anywhere"
P["C01"] = dict(
    quick=lambda: [j("x_total", c, n, cost=2 ** n, bounds="every ASCII string of %d bytes in lexical context %d" % (n, c)) for c in R(16) for n in R(3)]
    + [j("x_total", c, 3, cost=30, bounds="every ASCII string of 3 bytes in lexical context %d" % c) for c in (0, 1, 3, 5, 8, 9, 13)]
    + [j("x_bad", k, n, bounds="unterminated or malformed construct %d with up to %d bytes over 'ab >-?]/'" % (k, n)) for k in R(19) for n in (3,)]
    + [j("x_cut", n, t, k, bounds=CUT % (k, n, t)) for n, t in ((5, 3), (1, 6)) for k in R(5)]
    + [j("x_end", cost=5, bounds="names of up to 2 bytes over 'ab:'")],
    thorough=lambda: [j("x_total", c, n, cost=4 ** n, bounds="every ASCII string of %d bytes in lexical context %d" % (n, c)) for c in R(16) for n in R(5)]
    + [j("x_bad", k, 5, cost=20, bounds="malformed construct %d with up to 5 bytes over 'ab >-?]/'" % k) for k in R(19)]
    + [j("x_cut", n, t, k, bounds=CUT % (k, n, t)) for n, t in ((5, 3), (1, 6), (2, 2), (9, 1), (12, 12)) for k in R(5)]
    + [j("x_end", cost=5, bounds="names of up to 2 bytes over 'ab:'")],
)
P["C02"] = dict(
    quick=lambda: [j("x_cr", k, n, bounds="every string of %d carriage returns, line feeds and letters" % n) for k in R(6) for n in (2, 3)] + [j("x_doc", 3, 4, 0, 1, cost=20), j("x_doc", 2, 4, 1, 4, cost=20), j("x_doc", 1, 4, 2, 6, cost=3), j("x_doc", 3, 2, 0, 3, cost=10), j("x_doc", 4, 1, 1, 1, cost=10)]
    + [j("x_sax", 3, 4, 1, cost=4), j("x_sax", 4, 4, 0, cost=5)] + [j("x_doc", n, 4, a, 1, cost=4, bounds=LARGE) for n, a in ((107, 0), (211, 1))] + [j("x_sax", n, 4, 1, cost=4, bounds=LARGE) for n in (112, 216)] + [j("x_sax", 201, 1, 9, bounds=LARGE), j("x_doc", 201, 1, 9, 1, bounds=LARGE)] + [j("x_pi", k, n, t) for k in R(4) for n, t in ((1, 2), (2, 1), (3, 0)) if k < 3 or n < 3] + [j("x_pi", 3, 0, 2)] + [j("x_directive", n) for n in R(6)] + [j("x_uni", 2), j("x_uni", 3, cost=20)] + [j("x_content", k, n, 1, cost=3) for k in R(6) for n in (1, 2)] + [j("x_content", k, n, 0, cost=n) for k in R(6) for n in R(3)] + [j("x_content", k, 4, 2, cost=10) for k in R(5)]
    + [j("x_total", c, 2, cost=4, bounds="every ASCII string of 2 bytes in lexical context %d" % c) for c in R(16)],
    thorough=lambda: [j("x_cr", k, n, cost=3) for k in R(6) for n in (1, 4, 5)] + [j("x_doc", 3, 4, 1, 3, cost=90), j("x_doc", 4, 4, 0, 1, cost=90), j("x_doc", 2, 4, 2, 6, cost=30), j("x_doc", 3, 2, 0, 3, cost=10), j("x_doc", 4, 1, 1, 1, cost=10)]
    + [j("x_sax", 4, 4, 1, cost=10), j("x_sax", 5, 4, 0, cost=20)] + [j("x_doc", n, 4, 1, 1, cost=40, bounds=LARGE) for n in (110, 216)] + [j("x_sax", n, 4, 1, cost=9, bounds=LARGE) for n in (120, 240)] + [j("x_sax", 201, 1, 10, bounds=LARGE), j("x_doc", 201, 1, 10, 1, cost=9, bounds=LARGE)] + [j("x_pi", k, n, t) for k in R(4) for n, t in ((0, 3), (1, 3), (2, 3), (3, 2), (4, 0)) if k + n] + [j("x_directive", n) for n in R(9)] + [j("x_content", k, 3, 1, cost=60) for k in R(6)] + [j("x_content", k, 5, 2, cost=60) for k in R(6)] + [j("x_content", k, n, 0, cost=4**n) for k in R(6) for n in R(5)] + [j("x_uni", 2), j("x_uni", 3, cost=30), j("x_uni", 4, cost=60)]
    + [j("x_total", c, 3, cost=20, bounds="every ASCII string of 3 bytes in lexical context %d" % c) for c in R(16)],
)
P["C03"] = dict(
    quick=lambda: [j("x_decode", 0, n, 0, 2) for n in R(4)] + [j("x_decode", 1, n, 1, 2) for n in R(4)] + [j("x_decode", 2, n, 1, 0) for n in R(6)] + [j("x_decode", 3, n, 1, 1) for n in R(5)]
    + [j("x_decode", p, n, q, 3) for p in (0, 4, 5, 6, 7) for q in (1, 2, 3) for n in (1, 2)]
    + [j("x_escape", n, k, cost=n) for n in R(4) for k in (0, 1)] + [j("x_content", k, 2, 1, cost=3) for k in (0, 4, 5)] + [j("x_uni", 2)],
    thorough=lambda: [j("x_decode", 0, n, 0, 2, cost=4 ** n) for n in R(6)] + [j("x_decode", 1, n, 1, 2, cost=4 ** n) for n in R(6)] + [j("x_decode", 2, n, 1, 0) for n in R(9)] + [j("x_decode", 3, n, 1, 1) for n in R(7)]
    + [j("x_decode", p, n, q, 3) for p in R(8) for q in R(4) for n in R(4)]
    + [j("x_escape", n, k, cost=4 ** n) for n in R(6) for k in (0, 1)] + [j("x_uni", 2), j("x_uni", 3, cost=30), j("x_uni", 4, cost=60)],
)
P["C04"] = dict(
    quick=lambda: [j("x_nav", 3, 4, 1, cost=4), j("x_nav", 4, 4, 0, cost=5), j("x_nav", 2, 4, 2), j("x_nav", 5, 1, 0, cost=4), *[j("x_nav", n, 4, a, bounds=LARGE) for n, a in ((110, 0), (212, 0), (201, 9))], j("x_orphan"), j("x_roots", 1), j("x_roots", 2), j("x_roots", 3), j("x_ns", 1, 0), j("x_ns", 1, 1), j("x_ns", 1, 4)] + [j("x_ns", 2, k, cost=4) for k in R(5)] + [j("x_ns", 3, k, cost=40) for k in (0, 1)],
    thorough=lambda: [j("x_nav", 4, 4, 1, cost=20), j("x_nav", 5, 4, 0, cost=30), j("x_nav", 3, 4, 2, cost=20), j("x_nav", 6, 1, 0, cost=10), *[j("x_nav", n, 4, a, cost=4, bounds=LARGE) for n, a in ((112, 1), (120, 0), (220, 1), (240, 0), (201, 10))], j("x_orphan"), j("x_roots", 3), j("x_roots", 4), j("x_roots", 5, cost=30)] + [j("x_ns", d, k, cost=4) for d in (1, 2, 3) for k in R(5)],
)
P["C05"] = dict(
    quick=lambda: [j("x_ops", 1, p, d) for p in (0, 1) for d in (0, 1)] + [j("x_ops", 2, p, 0, cost=40) for p in (0, 1)] + [j("x_move"), j("x_orphan")] + [j("x_attrs", n, 1) for n in (0, 3, 4)] + [j("x_attrs", 3, 2, cost=4)],
    thorough=lambda: [j("x_ops", 2, p, d, cost=40) for p in (0, 1) for d in (0, 1)] + [j("x_move"), j("x_orphan")] + [j("x_attrs", n, 1) for n in R(5)] + [j("x_attrs", n, 2, cost=4) for n in R(5)],
)
P["C06"] = dict(
    quick=lambda: [j("x_pretty", 3, 4, 1, cost=3), j("x_pretty", 4, 4, 0, cost=6), j("x_pretty", 5, 1, 0, cost=3), j("x_pretty", 2, 4, 2)] + [j("x_pretty", n, 4, a, cost=3, bounds=LARGE) for n, a in ((109, 0), (211, 1), (201, 9))],
    thorough=lambda: [j("x_pretty", 4, 4, 1, cost=10), j("x_pretty", 5, 4, 0, cost=20), j("x_pretty", 6, 1, 0, cost=5), j("x_pretty", 3, 4, 2, cost=5)] + [j("x_pretty", n, 4, a, cost=9, bounds=LARGE) for n, a in ((110, 1), (116, 0), (220, 1), (201, 10))],
)
P["C07"] = dict(
    quick=lambda: [j("x_name", 1, f, a) for f in (0, 1) for a in (0, 1)] + [j("x_name", 2, f, a, cost=10) for f in (0, 1) for a in (0, 1)] + [j("x_name", 3, 0, 0, cost=50), j("x_name", 3, 1, 1, cost=60)],
    thorough=lambda: [j("x_name", n, f, a, cost=n * n) for n in (1, 2, 3, 4) for f in (0, 1) for a in (0, 1)],
)
AXN = ["child", "descendant", "descendant-or-self", "parent", "ancestor", "ancestor-or-self", "self", "attribute", "following", "following-sibling", "preceding", "preceding-sibling"]
GENS = ["all documents of up to 3 nodes of 4 kinds, up to 1 attribute each, names over 'ab'", "all documents of up to 4 elements and texts", "all documents of up to 2 nodes, up to 2 attributes each, names over 'ax'",
        "all documents of up to 5 elements", "all documents of up to 4 elements with up to 1 attribute each, names over 'ab'", "all documents of up to 4 nodes of 4 kinds", "all documents of up to 5 elements and texts", "all documents of up to 4 elements, names over 'ab'", "all documents of up to 2 nodes of 4 kinds, up to 1 attribute each",
        "all documents of up to 2 nodes of 4 kinds and an attribute, with prolog, epilog and a second top-level element", "all documents of up to 3 elements with prolog, epilog and a second top-level element",
        "8 elements below each other and a node of 4 kinds anywhere along them, the last names over 'ab'", "10 siblings of 4 kinds and a node of 4 kinds, the last names over 'ab'", "an element with 6 attributes and up to 3 more"]


def g(entry, gen, *params, **kw):
    kw.setdefault("bounds", GENS[gen])
    return j(entry, gen, *params, **kw)


P["C08"] = dict(
    quick=lambda: [g("p_chain", 3, a, cost=3) for a in R(12)] + [g("p_chain", k, a, cost=3) for k, a in ((8, 0), (8, 1), (8, 9), (12, 1), (12, 9), (8, 11))] + [g("p_path", k, a, 0, cost=3) for k in (3,) for a in R(12)] + [g("p_path", 0, a, t, cost=10) for a, t in ((1, 0), (4, 0), (9, 2), (8, 1), (0, 3), (11, 0), (3, 0), (7, 0))] + [g("p_abbr", k, cost=4) for k in (0, 2, 3, 7, 9, 10)] + [g("p_abbr", k, 1, cost=4) for k in (8, 10)] + [g("p_path", 10, a, 0) for a in R(12)] + [g("p_path", k, a, t, cost=3) for k, a, t in ((11, 1, 0), (12, 9, 0), (12, 11, 1), (12, 1, 2), (11, 3, 1))] + [g("p_sets", 10, 1, 1)] + [g("p_sets", 2, 2, 1, cost=3), g("p_sets", 2, 1, 1), g("p_sets", 2, 0, 2), g("p_sets", 2, 2, 0), g("p_sets", 3, 1, 1, cost=2), g("p_sets", 0, 1, 1, cost=3)] + [g("p_step", 8, a, b, c, cost=4) for a, b, c in ((1, 1, 1), (2, 1, 0), (1, 2, 0), (0, 1, 1))] + [j("p_order", 3, 5, bounds="all sequences of 3 out of 5 nodes"), j("p_order", 4, 4, bounds="all sequences of 4 out of 4 nodes")],
    thorough=lambda: [g("p_chain", k, a, cost=9) for k in (0, 1, 2, 3, 7, 8, 9, 10, 11, 12) for a in R(12)] + [g("p_path", k, a, t, cost=10) for k in (0, 1, 2, 3, 4) for a in R(12) for t in (0, 1, 2, 3)] + [g("p_path", k, a, t, cost=3) for k in (9, 10, 11, 12) for a in R(12) for t in R(4)] + [g("p_sets", 11, 1, 1, cost=9), g("p_sets", 12, 1, 1, cost=9)] + [g("p_path", 13, a, 0) for a in R(12)] + [g("p_abbr", k, cost=4) for k in R(13)] + [g("p_abbr", k, 1, cost=9) for k in (1, 2, 3, 7, 8, 9, 10)] + [g("p_sets", 9, 1, 1), g("p_sets", 10, 2, 1)] + [g("p_sets", 2, a, b, cost=9) for a in R(3) for b in R(3)] + [g("p_sets", k, 1, 1, cost=9) for k in R(8)] + [g("p_sets", k, 2, 1, cost=9) for k in (3, 7)] + [g("p_step", 8, a, b, c, cost=9) for a, b, c in ((1, 2, 1), (2, 1, 1), (2, 2, 0))] + [g("p_step", k, 1, 1, 0, cost=9) for k in (0, 2, 3)] + [j("p_order", 4, 5, bounds="all sequences of 4 out of 5 nodes"), j("p_order", 5, 5, bounds="all sequences of 5 out of 5 nodes")],
)
TB = "names of up to 2 (3) letters with every prefix out of four, 24 name and kind tests"
TESTS_ = [j("p_tests", k, n, bounds=TB) for k in R(3) for n in (1, 2)]
P["C09"] = dict(
    quick=lambda: [g("p_axis", k, t, cost=3) for k in (0, 2, 5) for t in R(7)] + [g("p_axis", k, 0, cost=3) for k in (1, 3, 4, 6)] + [g("p_axis", 9, t, cost=2) for t in R(7)] + [g("p_axis", 10, 0)] + [g("p_axis", k, t) for k in (11, 12) for t in (0, 2, 3)] + [g("p_axis", 13, 0)] + [g("p_node_fn", k, f) for k in (11, 12) for f in R(12)] + [g("p_node_fn", 9, f) for f in R(12)] + TESTS_ + [g("p_node_fn", k, f) for k in (0, 1) for f in R(12)],
    thorough=lambda: [g("p_axis", k, t, cost=3) for k in R(14) for t in R(7)] + [g("p_node_fn", k, f) for k in R(14) for f in R(12)] + TESTS_ + [j("p_tests", k, 3, bounds=TB) for k in R(3)],
)
FB = "sequences of up to 3 items around 26 inner expressions, every integer as position"
P["C10"] = dict(
    quick=lambda: [g("p_pred", 3, 0, k, cost=6) for k in R(12)] + [g("p_pred", 0, 0, 0, cost=3), g("p_pred", 0, 2, 0, cost=3), g("p_pred", 2, 0, 8, cost=3), g("p_pred", 7, 2, 4, cost=3), g("p_pred", 7, 2, 3, cost=3), g("p_pred", 10, 0, 0), g("p_pred", 10, 0, 4)] + [g("p_pred", k, t, q, cost=3) for k, t, q in ((12, 0, 0), (12, 0, 3), (11, 0, 3), (12, 2, 4))] + [g("p_filter", 12)] + [g("p_filter", k, cost=5) for k in (2, 3, 4)] + [j("p_focus", k, k + 2, bounds=FB) for k in range(0, 26, 2)] + [g("p_predabbr", 8, q) for q in R(6)] + [g("p_predabbr", 3, 0, cost=2), g("p_predabbr", 2, 1, cost=2)],
    thorough=lambda: [g("p_pred", g_, t, k, cost=6) for g_ in (0, 1, 2, 3, 7) for t in (0, 1, 2) for k in R(12)] + [g("p_pred", g_, 0, k, cost=9) for g_ in (11, 12) for k in R(12)] + [g("p_filter", k, cost=5) for k in (0, 1, 2, 3, 4, 5, 6, 7, 11, 12)] + [j("p_focus", k, k + 2, bounds=FB) for k in range(0, 26, 2)] + [g("p_predabbr", k, q, cost=4) for k in (0, 2, 3, 8, 9, 11, 12) for q in R(6)],
)
P["C11"] = dict(
    quick=lambda: [j("q_int", k, bounds="all pairs of 64-bit integers") for k in R(14)],
    thorough=lambda: [j("q_int", k, bounds="all pairs of 64-bit integers") for k in R(14)],
)
FP = "all finite decimals and all doubles (every 64-bit pattern); integers -3..12 where they meet another type"
P["C12"] = dict(
    quick=lambda: [j("q_float", o, k, k, cost=3, bounds=FP) for o in R(7) for k in (1, 2)] + [j("q_float", o, a, b, cost=3, bounds=FP) for o in R(4) for a, b in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (0, 0))if o < 3 and (a, b) != (0, 0) or o == 3]
    + [j("q_round", f, k, cost=20, bounds=FP) for f in R(3) for k in (1, 2)] + [j("q_mod", a, b, cost=2, bounds="operands out of 10 decimals, 14 doubles, integers -3..12") for a in R(3) for b in R(3)] + [j("q_idiv", 0, 0), j("q_idiv", 1, 1, 0, cost=30), j("q_idiv", 2, 2, 7, cost=60), j("q_idiv", 0, 2, 10)],
    thorough=lambda: [j("q_float", o, k, k, cost=3, bounds=FP) for o in R(7) for k in (1, 2)] + [j("q_float", o, a, b, cost=3, bounds=FP) for o in R(4) for a, b in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (0, 0)) if o < 3 and (a, b) != (0, 0) or o == 3]
    + [j("q_round", f, k, cost=20, bounds=FP) for f in R(3) for k in (1, 2)] + [j("q_mod", a, b, cost=2, bounds="operands out of 10 decimals, 14 doubles, integers -3..12") for a in R(3) for b in R(3)] + [j("q_idiv", 0, 0), j("q_idiv", 1, 1, 0, cost=30), j("q_idiv", 2, 2, 10, cost=60), j("q_idiv", 0, 2, 10)],
)
P["C13"] = dict(
    quick=lambda: [j("q_cmp", a, b, 2, cost=3) for a in R(5) for b in R(5)] + [j("q_gen", a, b, k, k, o) for k in R(5) for o in R(6) for a, b in ((2, 1), (1, 2))] + [j("q_gen", a, b, 0, 0, o) for o in R(6) for a, b in ((4, 1), (1, 5), (3, 3))] + [j("q_gen", 4, 2, 1, 1, o) for o in R(6)] + [j("q_gen", 2, 2, a, b, o, cost=2) for a, b in ((0, 0), (9, 9), (4, 4)) for o in R(6)],
    thorough=lambda: [j("q_cmp", a, b, 3, cost=3) for a in R(5) for b in R(5)] + [j("q_gen", a, b, k, k, o, cost=3) for k in R(5) for o in R(6) for a in R(3) for b in R(3)] + [j("q_gen", 3, 2, a, b, o, cost=2) for a, b in ((0, 0), (9, 9), (4, 4)) for o in R(6)] + [j("q_gen", 2, 2, 0, 2, o, cost=4) for o in R(6)],
)
P["C14"] = dict(
    quick=lambda: [j("q_ebv", k) for k in R(11)] + [j("q_logic")],
    thorough=lambda: [j("q_ebv", k) for k in R(11)] + [j("q_logic")],
)
SB = "all characters 'a', 'b', space and two letters each of 2, 3 and 4 UTF-8 bytes, as chosen by the class mask"
P["C15"] = dict(
    quick=lambda: [j("s_sub", 2, 1, 0, 0, cost=14), j("s_sub", 3, 5, 1, 1), j("s_sub", 2, 9, 0, 1), *[j("s_sub", 2, 1, 1, 0, r, cost=8) for r in (4, 5, 6, 7, 8)], *[j("s_sub", 2, 1, 1, 2, r, cost=9) for r in range(1, 9)],
                   j("s_find", 3, 2, 1, cost=3), j("s_find", 3, 2, 3, cost=6), j("s_find", 2, 1, 9), j("s_find", 5, 2, 1), j("s_find", 5, 3, 1), j("s_find", 6, 1, 1), j("s_cmp", 4, 4, 1), j("s_code", 4, 1), j("s_point", 3), j("s_node", 4), j("s_trim", 4, cost=2), *[j("s_trim", 1, l, bounds="one word with one character of %d bytes, any but the four white space characters" % l) for l in (1, 2, 3, 4)], j("s_case", 5, 0), j("s_translate", 3, 2, 1, 1, cost=5), j("s_translate", 2, 2, 2, 3, cost=9), j("s_translate", 1, 2, 2, 3, cost=3), j("s_translate", 3, 3, 0, 1), j("s_translate", 2, 4, 1, 1), j("s_translate", 2, 3, 3, 1), j("s_translate", 1, 3, 5, 1), j("s_concat", 1, 1), j("s_concat", 1, 3, cost=2),
                   *[j("s_code", n, l) for n, l in ((2, 1), (2, 3), (1, 4), (2, 2))], j("s_point", 1), j("s_point", 2), j("s_case", 2, 0), j("s_case", 1, 1), j("s_cmp", 2, 2, 5), j("s_empty", 0), j("s_trim", 2), j("s_node", 2)],
    thorough=lambda: [j("s_sub", n, c, 0, 0, cost=20) for n, c in ((2, 1), (3, 1), (2, 3), (3, 9))] + [j("s_sub", 4, c, 1, 1, cost=3) for c in (1, 3, 5, 9, 15)] + [j("s_sub", 2, 1, 1, k, r, cost=30) for k in (0, 2) for r in R(9)] + [j("s_sub", 3, 1, 1, k, r, cost=30) for k in (0, 2) for r in (4, 5, 6, 7, 8)]
    + [j("s_find", 4, 2, 1, cost=9), j("s_find", 3, 2, 3, cost=6), j("s_find", 3, 3, 1, cost=6), j("s_find", 2, 2, 15, cost=9), j("s_translate", 3, 2, 1, 1, cost=5), j("s_translate", 3, 2, 2, 1, cost=9), j("s_translate", 2, 2, 2, 3, cost=9), j("s_translate", 2, 3, 2, 1, cost=9), j("s_translate", 1, 2, 2, 15, cost=20), j("s_concat", 2, 1, cost=4), j("s_concat", 1, 15, cost=4)]
    + [j("s_code", n, l, cost=2) for n in (1, 2, 3) for l in (1, 2, 3, 4)] + [j("s_point", n) for n in (1, 2, 3)] + [j("s_case", n, k) for n in (1, 2, 3) for k in (0, 1)] + [j("s_cmp", 3, 3, c, cost=5) for c in (1, 5, 9)] + [j("s_empty", 0), j("s_trim", 2), j("s_trim", 3, cost=3), *[j("s_trim", 2, l, cost=2) for l in (1, 2, 3, 4)], j("s_node", 2), j("s_node", 3)],
)
P["C16"] = dict(
    quick=lambda: [j("t_basic", 0, 0), j("t_basic", 1, 0), j("t_basic", 3, 210, cost=3), j("t_basic", 2, 0), j("t_basic", 8, 210), j("t_basic", 20, 0), j("t_index", 6, 0, 0, 0), j("t_index", 5, 11111, 1, 0), j("t_pos", 2, 1, cost=3), j("t_pos", 3, 2, cost=8), j("t_pos", 7, 3, cost=3), j("t_sub", 7, 1, 1, cost=3), j("t_sub", 6, 0, 1), j("t_none", 2), j("t_sub", 2, 0, 0, cost=12), j("t_sub", 3, 1, 1, cost=3), *[j("t_sub", 2, 1, 0, r, cost=10) for r in (4, 5, 6, 7, 8)], *[j("t_sub", 2, 1, 2, r, cost=10) for r in R(9)],
                   fnodes(4, 2), fnodes(5, 2), j("t_to", 4, cost=7), j("t_to_none", 0), *[j("t_index", *p) for p in ((3, 0, 0, 0), (3, 10, 1, 1), (3, 10, 0, 1), (3, 43, 0, 1), (2, 33, 3, 0), (2, 44, 4, 0), (2, 43, 3, 1), (3, 22, 2, 1), (3, 111, 1, 0), (3, 140, 3, 1))]],
    thorough=lambda: [j("t_basic", n, k, cost=3) for n in (0, 1, 2, 3, 4, 12, 40) for k in (0, 210, 111)] + [j("t_index", 8, 0, 0, 0, cost=3), j("t_index", 6, 111111, 1, 0, cost=2), j("t_pos", 16, 5, cost=9), j("t_sub", 12, 1, 1, cost=3)] + [j("t_pos", n, m, cost=9) for n in R(4) for m in R(3)] + [j("t_none", 2), j("t_sub", 2, 0, 0, cost=12), j("t_sub", 3, 0, 0, cost=20), j("t_sub", 4, 1, 1, cost=3), *[j("t_sub", 2, 1, k, r, cost=40) for k in (0, 2) for r in R(9)], j("t_to", 4, cost=7), j("t_to", 6, cost=9), j("t_to_none", 0), fnodes(5, 2), fnodes(4, 3)]
    + [j("t_index", n, a * 100 + b * 10 + a, p, 1, cost=2) for n in (2, 3) for a in R(5) for b in R(5) for p in R(5)] + [j("t_index", 2, k * 11, k, 0) for k in R(5)],
)
P["C17"] = dict(
    quick=lambda: [j("t_agg_int", n) for n in R(4)] + [j("t_agg_flt", n, k, f, cost=8) for n, k, f in ((2, 3, 0), (2, 4, 0), (2, 3, 1), (3, 3, 1), (3, 4, 2), (2, 4, 1), (2, 3, 3), (2, 4, 3), (1, 4, 0))] + [j("t_agg_misc", 1), j("t_agg_misc", 2), j("t_agg_str", 4, cost=2), j("t_agg_misc", 4, cost=3)] + [j("t_agg_mix", n, f, 1, cost=2) for n in (1, 2) for f in R(4)],
    thorough=lambda: [j("t_agg_int", n) for n in R(6)] + [j("t_agg_flt", n, k, f, cost=8) for n in (1, 2) for k in (3, 4) for f in R(4)] + [j("t_agg_flt", 3, k, f, cost=20) for k in (3, 4) for f in (1, 2)] + [j("t_agg_misc", n) for n in (1, 2, 3)] + [j("t_agg_str", 3, cost=2), j("t_agg_str", 4, cost=4)] + [j("t_agg_mix", n, f, 1, cost=n * n * n) for n in (1, 2, 3) for f in R(4)],
)
P["C18"] = dict(
    quick=lambda: [j("c_num", 3, 0, cost=40), j("c_num", 3, 1, cost=25), j("c_num", 2, 2), j("c_num", 3, 3, cost=8), j("c_word", 0, cost=2), j("c_bool", 2), j("c_bool", 5), j("c_int", 0), j("c_int_str", 0), j("c_int_str", 20), j("c_from_bool", 0), j("c_flt", 1), j("c_flt", 2), j("c_flt_bad", 0), j("c_str", 0), j("c_occ", 0), j("c_node", 1), j("c_node", 2)],
    thorough=lambda: [j("c_num", n, a, cost=40) for n in (2, 3) for a in R(4)] + [j("c_num", 4, a, cost=90) for a in (0, 1, 3)] + [j("c_word", 0, cost=2), j("c_bool", 2), j("c_bool", 3, cost=2), j("c_int", 0), j("c_int_str", 0), j("c_int_str", 20), j("c_from_bool", 0), j("c_flt", 1), j("c_flt", 2), j("c_flt_bad", 0), j("c_str", 0), j("c_occ", 0), j("c_node", 1), j("c_node", 2)],
)
MFLAT = [(1, 2), (1, 3), (3, 1)]
MAPS = [(0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0), (3, 0, 0, 0), (2, 10, 1, 1), (2, 11, 1, 0), (2, 43, 0, 1), (3, 210, 2, 1), (2, 33, 3, 0), (2, 22, 2, 0), (3, 111, 1, 0), (2, 40, 4, 1)]
P["C19"] = dict(
    quick=lambda: [j("m_map", *p, cost=2) for p in MAPS] + [j("m_nest", 0), j("m_cmp")] + [j("m_keys", n, bounds="%d keys out of %d of every kind, every key looked up" % (n, 16 if n == 2 else 8)) for n in (1, 2, 3)] + [j("m_flat", *p, cost=3, bounds="every nesting of arrays and sequences %d deep with up to %d members each" % p) for p in MFLAT] + [j("m_arr", n, c) for n in R(6) for c in R(2)],
    thorough=lambda: [j("m_map", *p, cost=2) for p in MAPS] + [j("m_map", n, a * 100 + b * 10 + a, p, 1, cost=3) for n in (2, 3) for a in R(5) for b in R(5) for p in R(5)] + [j("m_nest", 0), j("m_cmp")] + [j("m_keys", n, bounds="%d keys out of %d of every kind, every key looked up" % (n, 16 if n == 2 else 8)) for n in (1, 2, 3)] + [j("m_flat", *p, cost=3, bounds="every nesting of arrays and sequences %d deep with up to %d members each" % p) for p in MFLAT] + [j("m_arr", n, c) for n in R(6) for c in R(2)],
)
P["C22"] = dict(
    quick=lambda: [j("x_nsq", d, w, cost=5) for d in (1, 2) for w in R(3)] + [j("x_lang", n, m) for n, m in ((1, 1), (2, 1), (2, 2), (3, 2))],
    thorough=lambda: [j("x_nsq", d, w, cost=5) for d in (1, 2, 3) for w in R(3)] + [j("x_lang", n, m) for n, m in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 3))],
)
P["C20"] = dict(
    quick=lambda: [j("l_any", c, n, cost=1 + 3 * n, bounds="all strings of %d ASCII characters in context %d" % (n, c)) for c in R(24) for n in (1, 2)]
    + [j("l_edit", c, n, d, cost=3, bounds="expression %d of the corpus with %d arbitrary ASCII characters in place of %d characters, at every place" % (c, n, d)) for c in R(36) for n, d in ((1, 0), (1, 1), (0, 1))]
    + [j("l_prec", o, k, cost=12 if k == 1 or o == 22 else 2, bounds="operator %d followed by any of 38 operators; operands %s" % (o, ["integers 0-3", "one of three elements or nothing", "booleans"][k])) for o in R(38) for k in ((0, 1) if o in (2, 15, 25, 27, 28, 35) else (0,))]
    + [j("l_scope", k, f, cost=5) for f in R(11) for k in (0, 2)] + [j("l_space", c) for c in R(36)] + [j("l_assoc", k) for k in R(18)] + [j("l_word", u) for u in R(90)]
    + [j("l_lit", *p) for p in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 1, 0), (1, 2, 0), (1, 3, 0), (1, 2, 17), (1, 2, 18), (2, 0))],
    thorough=lambda: [j("l_any", c, n, cost=1 + 30 * (n == 3), bounds="all strings of %d ASCII characters in context %d" % (n, c)) for c in R(24) for n in (1, 2, 3)]
    + [j("l_edit", c, n, d, cost=20 * n, bounds="expression %d of the corpus with %d arbitrary ASCII characters in place of %d characters, at every place" % (c, n, d)) for c in R(36) for n, d in ((1, 0), (1, 1), (0, 1), (0, 2), (1, 2), (2, 0))]
    + [j("l_prec", o, k, cost=12) for o in R(38) for k in R(3)] + [j("l_scope", k, f, cost=12) for f in R(11) for k in R(3)] + [j("l_space", c) for c in R(36)] + [j("l_assoc", k) for k in R(18)] + [j("l_word", u) for u in R(90)]
    + [j("l_lit", *p) for p in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 5), (1, 1, 0), (1, 2, 0), (1, 3, 0), (1, 3, 16), (1, 2, 17), (1, 2, 18), (2, 0))],
)

# shapes of programs, for harness/src/funcs.rs
CODE = {c: i for i, c in enumerate("_ seq sub let let2 for for2 q q2 fn0 fn1 fn2 call0 call1 call2 part1 partA partB part2 arr0 arr1 arrp ref bang pred if array map none lit insp arrins arrn x y dot a b any".split())}
CODE.update({n: 40 + i for i, n in enumerate("count reverse head tail foreach filter boolean exactly1 insert empty look unary all".split())})
def prog(shape, flags=2, cost=4):
    import re
    return j("f_prog", flags, *[CODE[w] for w in re.findall(r"\w+", shape)], cost=cost, bounds="programs of the shape %s; leaves: every name in scope%s, the context item, symbolic integers 0-8; every choice of binder names%s" % (shape, " or undeclared" if flags & 1 else "", "; any: each of 45 productions" if "any" in shape else ""))
FUN = """call1(fn1(any) _)|let(fn1(_) call1(x _))|call1(fn1(fn0(_)) _)|call0(call1(fn1(fn0(seq(_ _))) _))|let(_ let(fn0(_) let(_ call0(y))))|let(_ let(fn0(seq(_ _)) let(_ call0(_))))|let(_ let(fn1(seq(_ _)) for(seq(a b) call1(y _))))
let(fn2(seq(_ _)) call1(partA(x _) _))|call1(partB(fn2(seq(_ _)) _) _)|call1(partA(fn2(seq(_ _)) _) _)|call2(part2(fn2(seq(_ _))) _ _)|call1(part1(fn1(seq(_ _))) _)|call1(part1(part1(fn1(_))) _)|call1(partB(part2(fn2(seq(_ _))) _) _)
call1(call1(fn1(fn1(seq(_ _))) _) _)|let2(_ fn1(seq(_ _)) call1(_ _))|bang(for(seq(a b) fn0(_)) call0(dot))|for(for(seq(a b) fn0(_)) call0(_))|let(_ seq(let(_ _) _))|seq(let(_ _) _)|for(seq(_ seq(_ _)) seq(for(seq(a b) _) _))
arr1(_ fn2(seq(_ _)) _)|call1(arrp(_ fn2(seq(_ _))) _)|arr0(_ fn1(seq(_ _)))|arr0(_ _)|call1(ref _)|call1(part1(ref) _)|call1(insp(_ _) _)|call1(arrins(_ _) _)|let(_ let(insp(x _) let(b call1(_ a))))|let(a let(partA(fn2(seq(_ a)) _) let(_ call1(y _))))
call1(fn1(call1(fn1(seq(_ _)) _)) _)|let(fn1(seq(x x)) let(_ call1(_ _)))|let(fn1(call1(_ a)) call1(_ fn1(_)))|seq(call1(fn1(_) _) _)|call1(fn1(let(_ seq(_ _))) _)|let(_ seq(call1(fn1(_) _) _))|q(seq(a b) call1(fn1(_) _))
call1(array(_ _) lit)|call1(map(_ _) lit)|look(array(_ _) any)|look(map(_ _) _)|call2(array(_ _) _ _)|call1(look(array(fn1(_) ref) lit) _)|foreach(seq(lit lit) array(fn0(_) _))|bang(array(_ _) unary(any))|call2(fn1(_) _ _)|call1(fn2(_) _)|call0(fn1(_))|partA(fn1(_) _)|part1(fn2(_))|call1(partA(fn2(_) _) none)|call2(partA(fn2(_) _) _ _)
insert(_ _ _)|call1(any _)|call0(any)|part1(any)|call1(part1(any) _)|call1(x any)|arr0(any _)|arr0(_ any)|foreach(fn0(_) fn1(call0(_)))|foreach(seq(_ _) ref)|filter(seq(_ _) ref)|filter(seq(_ _) fn1(boolean(_)))|foreach(seq(_ _) partA(fn2(seq(_ _)) _))|foreach(_ partB(fn2(seq(_ _)) _))|foreach(seq(a b) insp(_ _))|let(_ seq(let(seq(_ _) x) x))|let(_ seq(let(none x) x))|let(seq(_ _) seq(for(x x) x))|let(_ seq(let(seq(_ _) seq(let(_ x) x)) x))|let(seq(_ _) seq(call1(fn1(x) seq(_ _)) x))|let(_ seq(q(seq(_ _) _) x))|let(_ seq(for(none x) x))|let(_ seq(call1(fn1(seq(x x)) seq(_ seq(_ _))) x))""".replace("\n", "|").split("|")
FREE = "any|let(_ any)|let(any _)|for(any _)|seq(let(_ _) _)|seq(q(_ _) _)|call1(fn1(_) _)|seq(call1(fn1(_) _) _)|let(fn0(_) let(_ call0(_)))|let(fn1(_) seq(call1(_ _) _))|call1(partA(fn2(seq(_ _)) _) _)".split("|")
IT = """any|for(any _)|for(seq(a b) any)|for(seq(_ _) for(seq(_ _) seq(_ _)))|for2(seq(a b) _ seq(_ _))|for2(_ seq(_ _) seq(_ _))|for2(seq(a b) seq(_ _) _)|q(any _)|q(seq(a b) any)|q2(seq(a b) seq(_ _) _)|q2(_ _ q(seq(_ _) _))|q(seq(_ _) sub(_ _))|q2(seq(a b) seq(_ a) sub(x y))
let(seq(_ _) for(_ seq(_ _)))|let2(_ seq(_ _) seq(_ _))|let2(_ for(seq(_ _) _) _)|if(any _ _)|if(_ any _)|if(_ _ any)|if(sub(a b) _ _)|if(seq(_ _) _ _)|bang(any _)|bang(seq(_ _) any)|bang(seq(_ _) bang(seq(dot _) seq(dot _)))|bang(seq(a b) for(seq(dot _) seq(dot _)))
for(seq(a b) bang(seq(_ _) seq(dot _)))|foreach(seq(a b) fn1(any))|foreach(seq(a b) fn1(foreach(seq(_ _) fn1(seq(_ _)))))|filter(seq(a b) fn1(q(seq(_ _) _)))|filter(seq(a b) fn1(boolean(any)))|filter(seq(_ _) fn1(empty(pred(_ _))))|pred(seq(_ _) any)|pred(any _)|pred(seq(a b) pred(_ _))|pred(seq(a seq(b a)) sub(_ _))
arrn(any)|reverse(any)|exactly1(any)|tail(for(seq(_ _) seq(_ _)))|count(for2(seq(_ _) seq(_ _) seq(_ _)))|insert(for(seq(_ _) _) lit bang(seq(_ _) _))|for(none any)|q(none any)|bang(none any)|seq(for(_ _) let(_ _))|sub(let(_ _) for(_ _))|bang(let(_ seq(_ _)) seq(_ _))|for(pred(seq(_ _) _) seq(_ _))""".replace("\n", "|").split("|")
BIG = {"call1(fn1(any) _)": 27, "let(_ any)": 25, "let(any _)": 25, "for(any _)": 25, "for(seq(a b) any)": 22, "bang(seq(_ _) any)": 33, "pred(seq(_ _) any)": 45, "look(array(_ _) any)": 25, "bang(array(_ _) unary(any))": 60}
YP = "%d parameters; the one at %d with 7 types and 5 arguments; 4 sets of names"
PAR = [(3, 2, 0), (3, 1, 1), (2, 0, 2), (3, 0, 3), (1, 0, 0), (5, 4, 0)]
def yp(n, at, way): return j("y_params", n, at, way, cost=3, bounds=YP % (n, at))
P["C21"] = dict(quick=lambda: [prog(s, 2, BIG.get(s, 4)) for s in FUN] + [prog(s, 3, BIG.get(s, 4)) for s in FREE] + [yp(*p) for p in PAR], thorough=lambda: [yp(n, at, w) for n in (1, 2, 3, 4, 5) for at in R(n) for w in R(4)] + [prog(s, 2, BIG.get(s, 4)) for s in FUN + MORE] + [prog(s, 3, BIG.get(s, 4)) for s in FREE])
def fnodes(n, m): return j("f_nodes", n, m, cost=4, bounds="all sequences of %d nodes out of %d" % (n, m))
P["C23"] = dict(quick=lambda: [prog(s, 2, BIG.get(s, 4)) for s in IT] + [j("f_iter", n, m, k, cost=c) for n, m, k, c in ITER] + [fnodes(n, m) for n, m in ((0, 1), (2, 4), (3, 3))] + [j("p_focus", k, k + 2, bounds=FB) for k in range(0, 26, 2)], thorough=lambda: [prog(s, 2, BIG.get(s, 4)) for s in IT] + [j("f_iter", n, m, k, cost=c) for n, m, k, c in ITER + [(4, 2, 0, 9), (3, 3, 0, 9), (2, 3, 111, 9), (2, 2, 33, 40)]] + [fnodes(n, m) for n, m in ((0, 1), (1, 4), (4, 3), (3, 4), (5, 2))] + [j("p_focus", k, k + 2, bounds=FB) for k in range(0, 26, 2)])
ITER = [(0, 0, 0, 1), (0, 2, 0, 1), (2, 0, 0, 1), (1, 1, 0, 1), (2, 2, 0, 1), (3, 2, 0, 2), (2, 2, 111, 2), (2, 2, 44, 1), (2, 2, 22, 1), (2, 1, 33, 4), (4, 2, 0, 4), (5, 1, 0, 3), (2, 4, 0, 2)]
MORE = "let(any any)|call1(fn1(any) any)|foreach(seq(any _) fn1(_))|foreach(seq(_ _) fn1(any))|call2(fn2(any) _ _)|call1(partA(fn2(any) _) _)|call0(fn0(any))|let(_ call0(fn0(any)))|let(fn1(any) call1(x _))|for(any fn0(_))|bang(any call0(dot))|arr1(_ fn2(any) _)|let2(_ _ any)|call1(call1(fn1(fn1(any)) _) _)|call1(any any)".split("|")

YV = ["no item", "one item of 16 kinds", "two items", "maps of up to 2 entries", "arrays of up to 2 members", "an array in an array", "an array in a map", "maps of 2 entries with keys of different types", "a map in an array", "3 items", "2 arrays", "a map of 1 entry"]
YT = ["an item type or empty-sequence()", "map(K, T)", "array(T)", "function(T) as U", "function() as T", "function(T, U) as item()*", "array(array(T))", "map(K, array(T))", "function(T) as item()*", "function(function(T) as U) as item()*", "function() as function(T) as U", "array(map(K, T))"]
YS = {0: "all 18 item types, names and occurrence indicators", 1: "5 item types with all indicators", 2: "8 sequence types"}
def yset(s): return YS.get(s, "one item type with all names and indicators")
def yi(v, t, s, xs=0, cost=10): return j("y_inst", v, t, s, xs, cost=cost, bounds="value: %s; type: %s over %s" % (YV[v], YT[t], yset(s)))
def yf(k, a, b, s=2, cost=5): return j("y_fun", k, a, s, b, s, cost=cost, bounds="%s; types %s and %s over %s" % (["result types", "argument types", "0 to 3 arguments on each side", "partial applications of a function of 3 arguments"][k], YT[a], YT[b], yset(s)))
def yn(k, p, cost=5): return j("y_named", k, p, 2, cost=cost, bounds="functions %d to %d of 75; %s" % (8 * k, 8 * k + 7, ["their own type", "any result type", "any argument type", "an argument more or less", "all partial applications", "partial applications, any argument type"][p]))
def yc(h, v, t, s=2, cost=5): return j("y_conv", h, v, t, s, cost=cost, bounds="%s; value: %s; type: %s over %s" % (["argument", "result", "argument of a partial application"][h], YV[v], YT[t], yset(s)))
YI = [(0, 1), (0, 2), (0, 3), (0, 4), (0, 6), (0, 7), (0, 11), (1, 1), (1, 2), (1, 3), (1, 4), (4, 2), (5, 2), (5, 6), (5, 1), (11, 1), (11, 3), (10, 2), (10, 1), (8, 2), (8, 0), (9, 0), (9, 2), (3, 4), (4, 4), (4, 0), (5, 3), (3, 0)]
YIM = [(3, 1), (3, 3), (3, 2), (3, 6), (3, 7), (4, 1), (4, 3), (4, 6), (4, 7), (5, 7), (5, 11), (6, 6), (6, 7), (6, 1), (6, 2), (6, 3), (7, 1), (7, 3), (7, 7), (8, 11), (8, 1), (8, 3), (9, 1), (9, 6), (10, 3), (10, 6), (10, 11), (2, 1), (2, 2), (2, 3), (1, 6), (1, 7), (1, 11)]
YQ = [yi(0, 0, 0), *[yi(1, 0, 100 + k, 2, 8) for k in range(18)], *[yi(2, 0, 100 + k, 0, 7) for k in (0, 2, 7, 8, 10, 12)], *[yi(v, t, 2) for v, t in YI],
      *[yf(k, a, b) for k in (0, 1) for a, b in [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (2, 0), (2, 2), (2, 4), (3, 0), (3, 4)]], yf(2, 0, 0, 2, 14), *[yn(k, p) for k in range(10) for p in range(5)], yn(0, 5), yn(1, 5, 18), yn(4, 5), yn(7, 5, 8), yn(8, 5, 8), yn(9, 5),
      *[yc(0, 1, 0, 100 + k, 1) for k in range(10, 17)], *[yc(h, v, 0) for h in (0, 1, 2) for v in (0, 1, 4, 5)], yc(0, 2, 0), yc(0, 9, 0), yc(0, 4, 2, 2, 15), yc(0, 11, 1, 2, 15)]
YM = [*[yi(2, 0, 100 + k, 0, 16) for k in range(18)], *[yi(v, t, 2, 0, 60) for v, t in YIM], *[yf(k, a, b, 2, 60) for k in (0, 1) for a, b in [(2, 1), (2, 3), (3, 1), (3, 2), (3, 3), (9, 9), (10, 10), (1, 8)]], yf(3, 0, 0, 2, 50), *[yn(k, 5, 50) for k in (2, 3, 5, 6)], *[yc(0, v, t, 2, 60) for v in (3, 4, 6) for t in (1, 2, 3, 7)], *[yc(h, v, 0, 2, 30) for h in (1, 2) for v in (2, 9)]]
YK = [j("y_kind", k, cost=3, bounds="%s; 12 type names, 4 names, 6 values of xsi:nil" % w) for k, w in enumerate(("element tests", "attribute tests", "other nodes"))]
P["C24"] = dict(quick=lambda: YQ + YK, thorough=lambda: YQ + YK + YM)
AO = ["append", "insert before", "insert after", "delete", "replace", "set attribute", "delete attribute", "move", "none"]
def ae(g_, a, b, cost=2): return j("a_edit", g_, a, b, cost=cost, bounds="%s; edits: %s, then %s, on any node" % (GENS[g_], AO[a], AO[b]))
AL = [j("a_lit", 0, n, 0, bounds="string literals of %d characters" % n) for n in R(4)] + [j("a_lit", *p, bounds="number literals with %d and %d digits, all digits" % (p[1], p[2]), cost=c) for p, c in [((1, 1, 0), 1), ((1, 2, 0), 1), ((2, 1, 1), 1), ((2, 0, 2), 1), ((2, 2, 0), 1), ((3, 1, 0), 1), ((3, 1, 1), 3), ((3, 0, 2), 3)]] + [j("a_lit", 4, 0, 0)]
P["C25"] = dict(quick=lambda: [g("a_api", 8, p, lo * 4 % 28, cost=4) for p in R(26) for lo in (p, p + 3)] + [g("a_bad", 1, cost=20)] + AL,
                thorough=lambda: [g("a_api", k, p, lo, cost=20) for k in (8, 2, 1, 0) for p in R(26) for lo in range(0, 27, 4)] + [g("a_bad", k, cost=60) for k in (0, 1, 2)] + AL + [j("a_lit", 1, 3, 0, cost=6), j("a_lit", 2, 1, 2, cost=6), j("a_lit", 3, 2, 1, cost=30)])
P["C26"] = dict(quick=lambda: [ae(0, a, 8, 5) for a in R(8)] + [ae(8, a, b) for a in R(8) for b in R(8)] + [ae(7, a, 8, 5) for a in (0, 1, 3, 7)],
                thorough=lambda: [ae(k, a, 8, 10) for k in (0, 1, 2, 3, 7) for a in R(8)] + [ae(8, a, b) for a in R(8) for b in R(8)] + [ae(k, a, b, 60) for k in (2, 1) for a in R(8) for b in R(8)])
AB = "call %d of 78, every argument of shape %d, %s"
AW = ["called directly", "through a partial application", "through a function reference"]
def ya(k, v, w): return j("y_args", k, v, w, bounds=AB % (k, v, AW[w]))
P["C27"] = dict(
    quick=lambda: [ya(k, v, (k + v) % 3) for k in R(52) for v in (0, 1, 2 + k % 2 * 2)] + [ya(k, v, (k + v) % 3) for k in (0, 5, 13, 17, 20, 41, 43, 46, 50) for v in (3, 5, 10)]
    + [ya(k, v, 0) for k in range(52, 78) for v in (0, 1, 2)] + [ya(k, v, 0) for k in (52, 59, 61, 64, 70, 73) for v in (3, 5, 10)]
    + [j("y_focus", k, v, bounds="every value of shape %d" % v) for k in R(12) for v in (0, 1, 4)] + [j("y_node_arg", k, v, bounds="every value of shape %d" % v) for k in R(6) for v in (0, 1, 2, 4)],
    thorough=lambda: [ya(k, v, w) for k in R(52) for v in R(12) for w in R(3)] + [ya(k, v, 0) for k in range(52, 78) for v in R(12)] + [j("y_focus", k, v, cost=3, bounds="every value of shape %d" % v) for k in R(12) for v in R(12)] + [j("y_node_arg", k, v, cost=3, bounds="every value of shape %d" % v) for k in R(6) for v in R(12)],
)
