from common import *
import re

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of (structure, name forms at every position, split rule) on the real query methods, against an independent implementation of the documented split rule"
RULE = ("files of every format, written by the independent encoder, with every name form of the alphabet at every position (all pairs of forms for the first two positions), every header-text variant, and the default rule, "
        "a custom pattern and a callback; every query method at every index is compared with the header items encoded in the file, before and after the data are read. Distinct = distinct answer sets.")
BOUNDS = {"quick": "9 formats x all structures of the small set x 12 name forms (all ordered pairs) x 4 split rules; all quick structures with the standard names",
          "thorough": "all ordered triples of name forms"}
TIMEOUT = 60
# (text, name, units) by the documented rule: the last "(...)" with something in it is the units, the rest is the name
FORMS = [("Pressure (hPa)", "Pressure", "hPa"), ("Wind speed(m/s)", "Wind speed", "m/s"), ("no units at all", "no units at all", None), ("(K)", "", "K"),
         ("T (K) at 2 m", "T at 2 m", "K"), ("Height (old) (km)", "Height (old)", "km"), ("Empty ()", "Empty ()", None), ("Open (bracket", "Open (bracket", None),
         ("Close) bracket", "Close) bracket", None), ("Ratio [ppbv]", "Ratio [ppbv]", None), ("Q; long thing; (g kg-1)", "Q; long thing;", "g kg-1"),
         ("Number 7 (10^-9 mol/mol, x=1)", "Number 7", "10^-9 mol/mol, x=1")]
RULES = ["default", "pattern", "callback", "callback2"]
CHANGES = [("default", "pattern", "default"), ("pattern", "vowel", "pattern"), ("vowel", "default", "pattern"),
           ("callback", "callback")]


def cases(tier):
    smalls = gen.small_structures()
    for s in gen.structures("quick"):
        yield dict(d=dict(s, scal=1, NS=1, NN=2), rules=["default"], pairs=None)
    for s in gen.samples():
        yield dict(d=s, rules=["default"], pairs=None)
    for s in smalls:
        s = dict(s, NV=3, scal=1)
        if s["ffi"] not in spec.RAGGED and s["ffi"] != 1001:
            s["NAUXV"] = 3
        for head in ("std", "vol"):
            for i in range(len(FORMS)):
                yield dict(d=dict(s, head=head), rules=RULES, pairs=i)
                if head == "std":
                    yield dict(d=s, rules=[], changes=CHANGES, pairs=i)
                if tier == "thorough" and head == "std":
                    for k in range(len(FORMS)):
                        yield dict(d=s, rules=RULES, pairs=i, third=k)
    for s in smalls:
        for names, ns, nn in itertools.product(("std", "bare", "brace"), range(0, 4), range(0, 4)):
            yield dict(d=dict(s, names=names, NS=ns, NN=nn, comm="rich"), rules=["default"], pairs=None)


def split_default(t):
    for text, n, u in FORMS:
        if text == t:
            return n, u
    i = None
    for k in range(len(t) - 1, -1, -1):              # last opening bracket with a later closing one and something between
        if t[k] == "(" and ")" in t[k + 2:]:
            i = k
            break
    if i is None:
        return t.strip(), None
    j = t.index(")", i + 2)
    return (t[:i] + " " + t[j + 1:]).strip(), t[i + 1:j]


def cb(text):
    return "<" + text[:5] + ">", text[-3:]


def cb2(text):
    a, _, b = text.partition("(")
    return a, b or ""


PATT = re.compile(r"^(.*?)\[(.+)\](.*)$")
PATT2 = re.compile(r"^(.)(.*?)([aeiou].*)$")


def want_split(rule, t):
    if rule == "default":
        return split_default(t)
    if rule == "pattern":
        m = re.match(r"^([^\[]*)\[([^\]]+)\](.*)$", t)
        return ((m.group(1) + " " + m.group(3)).strip(), m.group(2)) if m else (t.strip(), None)
    if rule == "vowel":                            # first character and the rest from the first vowel on
        k = next((i for i in range(1, len(t)) if t[i] in "aeiou"), None)
        return (t.strip(), None) if k is None else ((t[0] + " " + t[k:]).strip(), t[1:k])
    n, u = (cb if rule == "callback" else cb2)(t)
    return n.strip(), u


def norm(x):
    return re.sub(r"\s+", " ", x) if isinstance(x, str) else x


def check(f, d, rule, nhead):
    def sp(t):
        n, u = want_split(rule, t)
        return norm(n), norm(u)

    def got(t):
        return tuple(norm(x) if isinstance(x, str) else x for x in t)
    want, have = [], []

    def q(name, w, h_):
        want.append((name, w))
        have.append((name, h_))
    vs = [sp(t) + (d["VMISS"][i], d["VSCAL"][i]) for i, t in enumerate(d["VNAME"])]
    xs = [sp(t) for t in d["XNAME"]]
    q("getVariables", vs, [got(x) for x in f.getVariables()])
    q("getVariable", vs, [got(f.getVariable(i)) for i in range(d["NV"])])
    q("getMissingValue", d["VMISS"], [f.getMissingValue(i) for i in range(d["NV"])])
    q("getScaleFactor", d["VSCAL"], [f.getScaleFactor(i) for i in range(d["NV"])])
    q("getIndependentVariables", xs, [got(x) for x in f.getIndependentVariables()])
    q("getIndependentVariable", xs, [got(f.getIndependentVariable(i)) for i in range(d["NIV"])])
    na = d.get("NAUXV") or 0
    sc = list(d.get("ASCAL") or []) + [None] * 99
    aux = [sp(d["ANAME"][a]) + (d["AMISS"][a], sc[a]) for a in range(na)]
    q("getAuxVariables", aux, [got(x) for x in f.getAuxVariables()])
    q("getAuxVariable", aux, [got(f.getAuxVariable(a)) for a in range(na)])
    q("getAuxMissingValue", [a[2] for a in aux], [f.getAuxMissingValue(a) for a in range(na)])
    nr = na - (d.get("NAUXC") or 0)
    q("getAuxScaleFactor", sc[:nr], [f.getAuxScaleFactor(a) for a in range(nr)])
    q("getNumHeaderLines", nhead, f.getNumHeaderLines())
    q("getFFI", d["FFI"], f.getFFI())
    q("getOriginator", d["ONAME"], f.getOriginator())
    q("getOrganisation", d["ORG"], f.getOrganisation())
    q("getOrg", d["ORG"], f.getOrg())
    q("getSource", d["SNAME"], f.getSource())
    q("getMission", d["MNAME"], f.getMission())
    q("getVolumes", [d["IVOL"], d["NVOL"]], list(f.getVolumes()))
    q("getFileDates", [d["DATE"], d["RDATE"]], [list(x) for x in f.getFileDates()])
    q("getNormalComments", [s.strip() for s in d["NCOM"]], [s.strip() for s in f.getNormalComments()])
    q("getSpecialComments", [s.strip() for s in d["SCOM"]], [s.strip() for s in f.getSpecialComments()])
    for (n, w), (_, g) in zip(want, have):
        if w != g:
            return "%s gives %r, the header says %r" % (n, g, w), ""
    return None, repr(have)


def run(case):
    base = gen.build(case["d"])
    combos_ = [None] if case["pairs"] is None else list(range(len(FORMS)))
    n = 0
    sigs = []
    for k in combos_:
        d = copy.deepcopy(base)
        if k is not None:
            i = case["pairs"]
            t = case.get("third", i)
            order = [FORMS[x % len(FORMS)][0] for x in (i, k, t, i + 5, k + 3)]
            for key, off in (("VNAME", 0), ("XNAME", 1), ("ANAME", 2)):
                if key in d:
                    d[key] = [order[(j + off) % 3] for j in range(len(d[key]))]
        t = spec.encode(d)
        put("f.na", t)
        nhead = len(spec.encode_lines(d)[0])
        for rule in case["rules"]:
            n += 1
            f = nappy.openNAFile("f.na", var_and_units_callback=cb if rule == "callback" else cb2 if rule == "callback2" else None)
            if rule == "pattern":
                f.var_and_units_pattern = PATT
            try:
                for when in ("before", "after"):
                    msg, s = check(f, d, rule, nhead)
                    if msg:
                        return dict(fail="%s reading the data, %s rule: %s\n%s" % (when, rule, msg, t[:1500]), n=n, key="%s %s %s" % (case["d"]["ffi"], rule, msg.split(" ")[0]))
                    sigs.append(h(s))
                    f.readData()
            finally:
                f.close()
        for seq in case.get("changes", []):
            n += 1
            f = nappy.openNAFile("f.na", var_and_units_callback=cb if "callback" in seq else None)
            original = f.var_and_units_pattern
            try:
                for i, rule in enumerate(seq):
                    f.var_and_units_pattern = {"pattern": PATT, "vowel": PATT2, "callback": [original, PATT][i % 2]}.get(rule, original)
                    msg, s = check(f, d, rule, nhead)
                    if msg:
                        return dict(fail="rules %s in turn, now %s: %s\n%s" % (seq, rule, msg, t[:1500]), n=n, key="%s %s %s" % (case["d"]["ffi"], rule, msg.split(" ")[0]))
                    sigs.append(h(s))
            finally:
                f.close()
    return dict(n=n, sig=h("".join(sigs)))
