from common import *
from nch import *
from c16 import norm
from c17 import build as dataset, convert, fetch, first_diff, KIND
import c05

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of configuration files and of sequences of them; outputs are compared with those the same call gives when the choice is made by other means (no labels, overrides in the call, a standard attribute name)"
RULE = ("configuration files: every section x items x values within the bound, looked up and compared with the model that was rendered; labels: every single label, all labels, label texts x formats x options; "
        "header items: every subset of the overridable items x texts x datasets x items overridden in the call x entry points; mapped attributes: every header item x attribute names x values x further attributes; "
        "items without text x datasets x entry points; every sequence of directories in which the same relative names are other files; "
        "every sequence of three choices of files (A, B, none, empty name) with a conversion and an annotated write after each. "
        "Oracle: labels are those of the file and everything else is the plain line; the output equals that of the same call with the items given as overrides; an item without text is empty; an attribute mapped to MNAME or SNAME acts as title or source, ORG and ONAME change that header line only; anything else has no effect; each result equals that of the choice alone.")
BOUNDS = {"quick": "2 sections x 2 items from 6 names x 12 values; subsets of 10 items up to size 2 and full x 3 text forms x 5 datasets; 125 sequences", "thorough": "3 sections x 2 items; all 1024 subsets; sequences of four"}
TIMEOUT = 120

NAMES = ["key", "Key", "a&b", "x y", "A.B-c", "é", "a&b&c"]
VALUES = ["v", "", "two words", "__space__", "x__space____space__y", "a&b", "a&b&c", "1.50", "a = b", "a: b; c # d", "%(key)s %d", "Ünï 'q' \"d\""]
NA_TEXT = {"plain": "Local %s", "odd": "%s (a) ; b, c: # 5 %%x & 'y' = {z}", "quoted": "'first' %s \"last\"", "short": "1%.0s"}
HEAD = ["MNAME", "ONAME", "ORG", "SNAME"]
NAKEYS = ["DATE", "RDATE", "ANAME", "MNAME", "ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM"]
NV = dict(plain=2, aux=2, groups=1, split=2, bare=1)
LABELS = ["L", "two words", "a ; b # c", "a: b; c", "x, y (z) & %d", "{curly}", "", "123", "Ünï", "x__space__y", "__space__", "a&b", "100% %s %(key)s", "'q' \"d\"", "L " * 60 + "end"]
GIVEN = [{}, {"DATE": [2013, 2, 1]}]
COUNT = [0]


def cases(tier):
    big = tier == "thorough"
    one = [[]] + [[(n, v)] for n in NAMES for v in VALUES] + [[(n, v), (m, w)] for n, m in itertools.permutations(NAMES, 2) for v in VALUES for w in VALUES]
    small = [[]] + [[(n, v)] for n in NAMES for v in VALUES]
    for i in range(0, len(one), 50):
        yield dict(part="ini", ini=[[("main", x)] for x in one[i:i + 50]])
    for n, m in (("main", "Main"), ("a b", "nc_x")) if big else (("main", "Main"),):
        for x in small:
            yield dict(part="ini", ini=[[(n, x), (m, y)] for y in small])
    for s in gen.small_structures():
        for lab in LABELS:
            yield dict(part="label", d=dict(s, NS=2, NN=2), label=lab)
    for kind in KIND:
        yield dict(part="label", kind=kind)
    for m in range(1024):
        r = bin(m).count("1")
        for k, kind in enumerate(KIND):
            for f, form in enumerate(NA_TEXT):
                if big or r <= 1 or r == 10 or (r <= 2 or m % 7 == 0) and (k + f + m) % 3 == 0:
                    over = [0] + [1 << j for j in range(10) if (m >> j) & 1] if r <= 2 else [0, 0b1101001 & m, 1023 & ~m]
                    for o in sorted(set(over)):
                        yield dict(part="items", m=m, kind=kind, form=form, over=o, api=["na", "csv", "xr"][(m + k + f + o) % 3])
                    if r <= 1 and f == 0:
                        for api in ("na", "csv", "xr"):
                            yield dict(part="items", m=m, kind=kind, form=form, over=0, api=api)
    for att in ("project", "Team", "my attribute", "x.y"):
        for item in ("ONAME", "ORG", "SNAME", "MNAME"):
            for v in ("one", "a (b); c, d: 5", "two\nlines", {"i4": [1, 2]}, {"f8": 2.5}):
                for extra in itertools.product((False, True), repeat=2):
                    yield dict(part="map", att=att, item=item, value=v, extra=list(extra))
    for att, value in list(itertools.product(("project", "title", "source", "institution", "history", "comment", "absent"), ("Some text", "DATE", "NCOM", "SCOM", "FFI", "VNAME", "", "oname"))) + list(
            itertools.product(("title", "source", "institution", "history", "comment", "references", "absent"), HEAD)):
        yield dict(part="nomap", att=att, value=value)
    for seq in itertools.product("AB0E" if big else "AB0", repeat=4 if big else 3):
        for kind in ("plain", "groups", "aux"):
            yield dict(part="seq", seq="".join(seq), kind=kind)
            for given in GIVEN:
                # the caller uses one dictionary of overrides throughout
                if big or len(set(seq)) > 1 and (kind == "plain" or given):
                    yield dict(part="seq", seq="".join(seq), kind=kind, given=given)
    # the same relative names in several directories
    for seq in itertools.product("ABC" if big else "AB", repeat=4 if big else 3):
        yield dict(part="dirs", seq="".join(seq))
    # items without a text
    for it in HEAD:
        for kind in KIND:
            for api in ("na", "csv", "xr"):
                for spell in ("", " ", "    ;"):
                    yield dict(part="blank", item=it, kind=kind, api=api, spell=spell.replace(";", ""))
    for seq in ("E", "EA", "AE", "BE0"):
        yield dict(part="seq", seq=seq, kind="plain")


def fresh():
    COUNT[0] += 1
    return os.path.abspath("cfg%d_%d.ini" % (os.getpid(), COUNT[0]))


SEP = [" = ", " : ", "=", ":", ": ", "\t=\t"]


def render(model, sep=" = "):
    return "".join("[%s]\n%s\n" % (s, "".join(k + sep + v + "\n" for k, v in items)) for s, items in model)


def put_ini(model):
    """Both marks between names and values are those of the configuration files of Python."""
    p = fresh()
    with open(p, "w", encoding="utf-8") as fh:
        fh.write(render(model, SEP[sum(map(ord, repr(model))) % len(SEP)]))
    return p


class using:
    """Environment with the given files."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in ("NAPPY_ANNOTATIONS", "NAPPY_LOCAL_ATTRIBUTES")}
        for k, v in self.kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def local(items, atts=()):
    return put_ini([("nc_attributes", list(atts)), ("na_attributes", list(items))])


def run(case):
    return globals()["run_" + case["part"]](case)


def parsed(model):
    def two(t):
        return tuple(t.split("&")) if "&" in t else t
    return {s: {two(k): two(v.replace("__space__", " ")) for k, v in items} for s, items in model}


def run_ini(case):
    from nappy.utils import parse_config
    import nappy.utils
    for model in case["ini"]:
        p = put_ini(model)
        want = parsed(model)
        for name in ("makeConfigDict", "getConfigDict"):
            try:
                got = getattr(parse_config, name)(p)
            except Exception as e:
                return dict(fail="%s fails on\n%s\n%s" % (name, render(model), tb(e)))
            if got != want:
                return dict(fail="%s gives %r instead of %r for\n%s" % (name, got, want, render(model)))
        got["new"] = {}
        for s in want:
            got[s]["more"] = "x"
            got[s].pop(next(iter(want[s]), None), None)
        again = nappy.utils.getConfigDict(p)
        if again != want:
            return dict(fail="a caller's change of the result is seen by the next look-up: %r instead of %r" % (again, want))
        os.remove(p)
    return dict(n=len(case["ini"]), transitions=3 * len(case["ini"]), sig=h(repr(case["ini"])))


def annotated(nd, **kw):
    write_na("o.na", copy.deepcopy(nd), annotation=True, **kw)
    t = text("o.na")
    os.remove("o.na")
    return t


def run_label(case):
    n = 0
    base = c05.labels()
    if "kind" in case:
        # the conversion of a NetCDF file
        make_nc("i.nc", dataset(case["kind"]))
        new = {k: "Label <%s>" % k for k in base}
        p = put_ini([("annotations", sorted(new.items()))])
        kw = dict(size_limit=2) if case["kind"] == "split" else {}
        for noh in (False, True):
            for api in (nappy.convertNCToNA, nappy.convertNCToCSV):
                with using(NAPPY_ANNOTATIONS=None):
                    names = api("i.nc", "o.na", annotation=True, no_header=noh, **kw)
                    old = fetch(names)
                with using(NAPPY_ANNOTATIONS=p):
                    got = fetch(api("i.nc", "o.na", annotation=True, no_header=noh, **kw))
                n += 2
                if len(old) != len(got):
                    return dict(fail="%d files instead of %d" % (len(got), len(old)))
                for a, b in zip(old, got):
                    msg = replaced(a, b, base, new)
                    if msg:
                        return dict(fail="%s(%s): %s" % (api.__name__, noh, msg))
        return dict(n=n, sig=h(repr(got)))
    d = gen.build(case["d"])
    nd = to_dict(d)
    hd, da = c05.model(d)
    keys = sorted(set(k for k, _, _ in hd + da))
    sig = []
    for delim in ("    ", ",", "\t", ";"):
        write_na("o.na", copy.deepcopy(nd), delimiter=delim)
        plain = lines_of(text("o.na"))
        for changed in [[k] for k in keys] + [list(base)]:
            lab = dict(base, **{k: case["label"] + (k if len(changed) > 1 and case["label"] else "") for k in changed})
            p = put_ini([("annotations", sorted(lab.items()))])
            with using(NAPPY_ANNOTATIONS=p):
                try:
                    t = annotated(nd, delimiter=delim)
                except Exception as e:
                    return dict(fail="writing with labels fails: " + tb(e))
            os.remove(p)
            n += 1
            got = lines_of(t)
            msg = "%d lines instead of %d" % (len(got), len(plain)) if len(got) != len(plain) else c05.check_annotated(got, plain, hd + da, delim, lab)
            if msg:
                return dict(fail="label %r for %s, delimiter %r: %s\n%s" % (case["label"], changed, delim, msg, t[:1200]))
            sig.append(h(t))
    return dict(n=n, sig=sig)


def replaced(a, b, old, new):
    """b is a with the label at the beginning of each line replaced"""
    la, lb = a.split("\n"), b.split("\n")
    if len(la) != len(lb):
        return "%d lines instead of %d" % (len(lb), len(la))
    for x, y in zip(la, lb):
        if x == y == "":
            continue
        ok = [k for k in old if x.startswith(old[k])]
        if not any(y == new[k] + x[len(old[k]):] for k in ok):
            return "line %r became %r" % (x, y)
    return None


def item(key, form, kind, who):
    """(text in the file or value of the call) for a header item"""
    if key == "DATE":
        return "2009 8 7" if who == "L" else [2013, 2, 1]
    if key == "RDATE":
        return "2019 1 31" if who == "L" else "2014 12 11"
    if key in ("VNAME", "ANAME"):
        n = 2 if key == "ANAME" else NV[kind]
        return " ".join("%s%s%d" % (who, key[0].lower(), i) for i in range(n))
    if key in ("SCOM", "NCOM"):
        if form == "odd":
            return who + " first: a = b\nsecond & %s; x" % key
    return (NA_TEXT[form] % key) if who == "L" else "Call %s" % key


def run_items(case):
    kind, form, api = case["kind"], case["form"], case["api"]
    make_nc("i.nc", dataset(kind))
    keys = [k for j, k in enumerate(NAKEYS) if (case["m"] >> j) & 1 and not (k == "ANAME" and kind != "aux")]
    over = {k: item(k, form, kind, "C") for j, k in enumerate(NAKEYS) if (case["over"] >> j) & 1 and not (k == "ANAME" and kind != "aux")}
    loc = {k: item(k, form, kind, "L") for k in keys}
    p = local([(k, v.replace("\n", "\n    ")) for k, v in loc.items()])
    empty = local([])
    try:
        with using(NAPPY_LOCAL_ATTRIBUTES=p):
            got = fetch(convert(api, kind, copy.deepcopy(over), "o.na"))
        with using(NAPPY_LOCAL_ATTRIBUTES=empty):
            want = fetch(convert(api, kind, dict(loc, **over), "o.na"))
            clear = fetch(convert(api, kind, None, "o.na"))
    except Exception as e:
        return dict(fail="fails: %s\n%s" % (tb(e), text(p)))
    if got != want:
        return dict(fail="with local items %s and the call's %s: %r instead of %r" % ((loc, over) + first_diff(got, want)))
    # absolutely: header lines of items on a line of their own
    for i, g in enumerate(got):
        lines = g.split("\n")
        bare = clear[i].split("\n")
        for j, k in ((1, "ONAME"), (2, "ORG"), (3, "SNAME"), (4, "MNAME")):
            e = over.get(k, loc.get(k, bare[j]))
            # one pair of outer quotes is not kept
            if lines[j].strip() not in (e.strip(), e.strip()[1:-1] if form == "quoted" else e.strip()):
                return dict(fail="file %d: %s is %r instead of %r" % (i, k, lines[j], e))
        for k in ("SCOM", "NCOM"):
            for c in over.get(k, loc.get(k, "")).split("\n"):
                if c and c not in [x.strip() for x in lines]:
                    return dict(fail="file %d: no line %r of %s\n%s" % (i, c, k, g[:1500]))
    return dict(n=3, transitions=3, sig=h(repr(got)))


def as_text(v):
    if isinstance(v, dict):
        v = next(iter(v.values()))
        return ", ".join(str(x) for x in v) if isinstance(v, list) else str(v)
    return v


def plain_case(gattrs, p, api=nappy.convertNCToNA):
    ds = dataset("plain")
    ds["gattrs"] = gattrs
    make_nc("i.nc", ds)
    with using(NAPPY_LOCAL_ATTRIBUTES=p):
        return fetch(api("i.nc", "o.na"))[0]


def run_map(case):
    att, it, v = case["att"], case["item"], case["value"]
    p, empty = local([], [(att, it)]), local([])
    before, after = case["extra"]
    g = {}
    if before:
        g["note"] = "n n"
        g["history"] = "made"
    g[att] = v
    if after:
        g["zz"] = "last"
        g["comment"] = "one"
    for api in (nappy.convertNCToNA, nappy.convertNCToCSV):
        got = plain_case(g, p, api)
        std = {"MNAME": "title", "SNAME": "source"}.get(it)
        if std:
            want = plain_case({std if k == att else k: x for k, x in g.items()}, empty, api)
        else:
            lines = plain_case({k: x for k, x in g.items() if k != att}, empty, api).split("\n")
            lines[{"ONAME": 1, "ORG": 2}[it]] = "  ".join(as_text(v).split("\n"))
            want = "\n".join(lines)
        if got != want:
            return dict(fail="%s = %s with %s=%r: %r instead of %r" % ((att, it, att, v) + first_diff([got], [want])))
    return dict(n=2, transitions=4, sig=h(got))


def run_nomap(case):
    p, empty = local([], [(case["att"], case["value"])]), local([])
    g = {"title": "T", "project": "P", "source": "S", "institution": "I", "history": "made", "comment": "one\ntwo", "references": "R"}
    got, want = plain_case(g, p), plain_case(g, empty)
    if got != want:
        return dict(fail="%s = %s changes the output: %r instead of %r" % ((case["att"], case["value"]) + first_diff([got], [want])))
    return dict(n=1, transitions=2, sig=h(got + repr(case)))


def run_dirs(case):
    from nappy.utils import parse_config
    import nappy.utils
    top = os.getcwd()
    base = c05.labels()
    d = gen.build(dict(next(s for s in gen.small_structures() if s["ffi"] == 1001), NS=1, NN=1))
    nd = to_dict(d)
    hd, da = c05.model(d)
    write_na("o.na", copy.deepcopy(nd))
    plain = lines_of(text("o.na"))
    make_nc("i.nc", dataset("plain"))
    root = os.path.join(top, "dirs%d" % COUNT[0])
    COUNT[0] += 1
    lab = {x: {k: "%s %s" % (x, k) for k in base} for x in "ABC"}
    for x in "ABC":
        os.makedirs(os.path.join(root, x, "sub"))
        for n, model in (("ann.ini", [("annotations", sorted(lab[x].items()))]), ("loc.ini", [("nc_attributes", []), ("na_attributes", [("MNAME", "Mission of " + x)])]), ("any.ini", [("main", [("key", x)])])):
            put(os.path.join(root, x, n), render(model))
            put(os.path.join(root, x, "sub", n), render(model).replace("of " + x, "of sub " + x))
    seen = []
    try:
        for step, x in enumerate(case["seq"]):
            os.chdir(os.path.join(root, x))
            with using(NAPPY_ANNOTATIONS="ann.ini", NAPPY_LOCAL_ATTRIBUTES="loc.ini" if step % 2 else os.path.join("sub", "loc.ini")):
                t = annotated(nd)
                got = fetch(nappy.convertNCToNA(os.path.join(top, "i.nc"), "o.na"))[0]
                parts = parse_config.getAnnotationsConfigDict(), nappy.utils.getLocalAttributesConfigDict()["na_attributes"], nappy.utils.getConfigDict("any.ini"), parse_config.getConfigDict(os.path.join("..", "ABC"[step], "any.ini"))
            who = "Mission of " + x if step % 2 else "Mission of sub " + x
            where = "step %d of %s: in directory %s" % (step, case["seq"], x)
            msg = c05.check_annotated(lines_of(t), plain, hd + da, "    ", lab[x])
            if msg:
                return dict(fail="%s: %s" % (where, msg))
            if got.split("\n")[4].strip() != who:
                return dict(fail="%s: mission is %r instead of %r" % (where, got.split("\n")[4], who))
            want = lab[x], {"MNAME": who}, {"main": {"key": x}}, {"main": {"key": "ABC"[step]}}
            if parts != want:
                return dict(fail="%s: look-ups give %r instead of %r" % (where, parts, want))
            seen.append(got)
    finally:
        os.chdir(top)
    return dict(n=len(case["seq"]) * 6, states=len(case["seq"]), transitions=len(case["seq"]), sig=h(repr(case["seq"])))


def run_blank(case):
    """An item without text gives an empty header item, which is what the caller's empty override gives."""
    p = fresh()
    put(p, "[nc_attributes]\n[na_attributes]\n%s =%s\n" % (case["item"], case["spell"]))
    kind, api = case["kind"], case["api"]
    make_nc("i.nc", dataset(kind))
    with using(NAPPY_LOCAL_ATTRIBUTES=local([])):
        want = fetch(convert(api, kind, {case["item"]: ""}, "o.na"))
    with using(NAPPY_LOCAL_ATTRIBUTES=p):
        got = fetch(convert(api, kind, None, "o.na"))
    if got != want:
        return dict(fail="with an empty %s: %r instead of %r" % ((case["item"],) + first_diff(got, want)))
    at = {"ONAME": 1, "ORG": 2, "SNAME": 3, "MNAME": 4}[case["item"]]
    for g in got:
        if g.split("\n")[at].strip(" ,"):
            return dict(fail="with an empty %s the header holds %r" % (case["item"], g.split("\n")[at]))
    return dict(n=2, transitions=2, sig=h(repr(got)))


BADC = "Data held at British Atmospheric Data Centre (BADC), Rutherford Appleton Laboratory, UK."


def run_seq(case):
    import nappy.utils
    from nappy.utils import parse_config
    kind = case["kind"]
    ds = dataset(kind)
    ds["gattrs"]["project"] = "P p"
    make_nc("i.nc", ds)
    base = c05.labels()
    d = gen.build(dict(next(s for s in gen.small_structures() if s["ffi"] == 1001), NS=1, NN=1))
    nd = to_dict(d)
    hd, da = c05.model(d)
    write_na("o.na", copy.deepcopy(nd))
    plain = lines_of(text("o.na"))
    with using(NAPPY_LOCAL_ATTRIBUTES=local([])):
        none = fetch(convert("na", kind, copy.deepcopy(case.get("given")), "o.na"))
    given = copy.deepcopy(case.get("given"))
    lab = {x: {k: "%s %s" % (x, k) for k in base} for x in "AB"}
    ann = {x: put_ini([("annotations", sorted(lab[x].items()))]) for x in "AB"}
    na = {"A": {"ORG": "Org of A", "MNAME": "Mission of A"}, "B": {"SNAME": "Source of B", "SCOM": "Comment of B"}, "0": {"ORG": BADC}, "E": {"ORG": BADC}}
    att = {"A": [("project", "ONAME")], "B": [("project", "ORG")], "0": [], "E": []}
    loc = {x: local(list(na[x].items()), att[x]) for x in "AB"}
    n = 0
    for step, x in enumerate(case["seq"]):
        name = {"A": ann["A"], "B": os.path.relpath(ann["B"]), "0": None, "E": ""}[x]
        lname = {"A": loc["A"], "B": os.path.relpath(loc["B"]), "0": None, "E": ""}[x]
        where = "step %d of %s" % (step, case["seq"])
        with using(NAPPY_ANNOTATIONS=name, NAPPY_LOCAL_ATTRIBUTES=lname):
            t = annotated(nd)
            got = fetch(convert("na", kind, given, "o.na"))
            seen = parse_config.getAnnotationsConfigDict(), nappy.utils.getLocalAttributesConfigDict()
        n += 2
        msg = c05.check_annotated(lines_of(t), plain, hd + da, "    ", lab.get(x, base))
        if msg:
            return dict(fail="%s: %s" % (where, msg))
        for f, g in zip(none, got):
            lf, lg = f.split("\n"), g.split("\n")
            if x == "B":
                # one special comment more
                if "Comment of B" not in [l.strip() for l in lg]:
                    return dict(fail="%s: no special comment\n%s" % (where, g[:1200]))
            want = dict(ONAME=lf[1], ORG=lf[2], SNAME=lf[3], MNAME=lf[4])
            want.update({k: "P p" for _, k in att[x]})
            want.update({k: v for k, v in na[x].items() if k != "SCOM"})
            have = dict(ONAME=lg[1], ORG=lg[2], SNAME=lg[3], MNAME=lg[4])
            if {k: v.strip() for k, v in have.items()} != {k: v.strip() for k, v in want.items()}:
                return dict(fail="%s: header items %r instead of %r" % (where, have, want))
            if x != "B" and len(lg) != len(lf) - (1 if att[x] else 0):
                return dict(fail="%s: %d lines instead of %d" % (where, len(lg), len(lf)))
            if ("project" in "".join(lg)) == bool(att[x]):
                return dict(fail="%s: the mapped attribute %s listed\n%s" % (where, "is also" if att[x] else "is not", g[:1500]))
        if given != case.get("given"):
            return dict(fail="%s: the caller's overrides became %r" % (where, given))
        if seen[0] != lab.get(x, base):
            return dict(fail="%s: annotations %r" % (where, seen[0]))
        if seen[1]["na_attributes"] != na[x]:
            return dict(fail="%s: local items %r instead of %r" % (where, seen[1]["na_attributes"], na[x]))
        # what the caller does with the result is not seen by the next call
        seen[0].clear()
        seen[1]["na_attributes"]["ORG"] = "Changed"
        seen[1]["na_attributes"].pop("SNAME", None)
        seen[1]["nc_attributes"]["title"] = "ORG"
        seen[1]["nc_attributes"].clear()
    return dict(n=n, transitions=n, states=len(case["seq"]), sig=h(case["seq"] + kind))
