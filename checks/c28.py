import os
os.environ["NAPPY_LOCAL_ATTRIBUTES"] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "no_local_attributes.ini")
from common import *
from nch import *
from ncu import NC

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of headers, comments and attribute sets on the real conversions in both directions; attributes are read with the netCDF4 library, headers by the independent decoder"
RULE = ("NASA Ames to NetCDF: every format x header style x number and shape of special and normal comment lines; the documented global attributes must hold exactly the header items and all comment lines, blank ones included, in order. "
        "NetCDF to NASA Ames: every attribute name x value (texts of one and several lines, empty, with separators, numbers and arrays of every type) singly and in pairs, on the file, on data and auxiliary variables and on variables that go to another file; institution, source and title must be the header items, and each other attribute must appear with its whole value in the header of the file of its variable, all counts being right. "
        "Distinct = distinct outputs.")
BOUNDS = {"quick": "comments up to 4 + 4 lines; 58 attribute names x 55 values singly on 4 targets, pairs of 35 names; texts, arrays, comments and attribute lists of 101, 257 and 1001 entries", "thorough": "comments up to 7 + 7 lines; pairs of (name, value) on the file and on variables; 99 to 5001 entries"}
ASSUMES = "run with empty local attributes (NAPPY_LOCAL_ATTRIBUTES), because the packaged ones replace the organisation by design"
TIMEOUT = 60
CONV = (1001, 1010, 1020, 2010, 3010, 4010)
LINES = ["plain line", "", "key = value", "  indented", "History: x", "a: b: c", "==== other ====", "{braces} in it", "12 3.5", "comma, separated", "same", "same", "'quoted'", "ends with colon:",
         "see ==== Normal Comments end ==== for more", "==== Special Comments follow ==== (copied)", "=== Data Section begins on the next line === or not", "no === Additional Global Attributes defined in the source file ===", "follow ====", "====", "page\x0cbreak\x0band\u2028more\x85lines\x1cend"]
GN = ["institution", "source", "title", "history", "comment", "references", "Conventions", "project", "note", "first_valid_date_of_data", "x", "Longer_Name_1", "UPPER", "name", "comments", "Title", "license", "a.b", "version", "file_format_index2", "units", "value", "_station", "__x__", "9th_value", "a-b", "two words", "Gr\u00f6\u00dfe", "a:b", "Institution", "SOURCE", "Comment", "History", "a/b".replace("/", "@"), "_", "creator_name", "date_created", "id", "featureType", "time_coverage_start", "contact", "summary", "keywords", "acknowledgement", "conventions", "reference", "FFI", "NLHEAD", "ONAME", "SCOM", "processing_level", "geospatial_lat_min", "description", "attrs", "data", "dims"]
GV = ["simple", "two words", "line one\nline two", "one\n\nthree", "", "  padded  ", "with: colon", "a = b", "semi; colon, comma", "trailing newline\n", "tab\tinside", "(brackets) and {braces}", "123", "1e5 text", "==== Special Comments follow ==",
      {"i4": 5}, {"f8": 1.5}, {"i2": [1, 2, 3]}, {"f4": [0.5, 0.25]}, {"i8": 12345678901}, {"u1": 255}, {"f8": 1e-7}, {"f4": 0.1}, {"i4": [7]}, "long " * 60 + "end", "crlf one\r\ntwo", "0",
      "one\n----\ntwo\n----\none\n----", "Same\nSame\nSame", "==== a ====\nb\n==== a ====",
      "one\nsee ==== Normal Comments end ==== there\ntwo", "x ==== Special Comments follow ====\nrest\n==== Special Comments end ==== y\nend", "no === Data Section begins on the next line ===\nmore",
      "page\x0cbreak\nand\u2028more\x85lines\x1cend\x0bof it", "one\n\n\nafter two\n\n\n\nafter three\n \n\nend",
      "CF-1.7", "CF-1.8, ACDD-1.3", "https://doi.org/10.5285/abc?x=1#y", "2020-01-01T00:00:00Z", "None", "unknown", "n/a", "nan", "time: mean (interval: 1 hour)", "1", "-", "K", "true", "a 'b' c", "%s and 100%", "C:\\new\\table", "$Id: f.nc 12 $", "<b>x</b> & y", "*", "?"]
BIG = ["lines", "array", "word", "words"]
TARGET = ["g", "v", "a", "o"]
VN = ["note", "comment", "source", "history", "title", "value", "missing", "valid_min", "flag_meanings", "name2", "X", "cell_methods", "institution", "units", "long_name", "standard_name", "_flag", "9x", "a-b", "two words", "gr\u00f6\u00dfe", "Units", "_", "valid_range", "valid_max", "positive", "description", "short_name", "id", "flag_values", "references", "axis", "name", "attrs", "data", "dims", "shape", "size", "encoding", "instrument", "accuracy", "ancillary", "VNAME", "label", "notes", "processing", "height"]

SHARED = [["Same", "Other", "Third", "Fourth"], ["Me", "Me and you", "and", "Me an"], ["A: B; c", "A", "B; c", "(c)"], ["1", "2", "12", "21"]]


def partitions(n):
    """All ways in which n items can be equal to each other (restricted growth strings)."""
    out = [[]]
    for _ in range(n):
        out = [p + [k] for p in out for k in range(max(p, default=-1) + 2)]
    return out


def cases(tier):
    big = tier == "thorough"
    n = 8 if big else 5
    for ffi in CONV:
        for ns, nn in itertools.product(range(n), repeat=2):
            for sh in range(0, len(LINES), 1 if big else 2):
                for head in ("std", "vol", "odd", "brace"):
                    if not big and (ns + nn + sh + len(head)) % 2 and ffi > 1010:
                        continue
                    yield dict(na=ffi, ns=ns, nn=nn, sh=sh, head=head)
        for eq in partitions(4):
            for ns, nn in ((0, 0), (2, 1)):
                for text_ in range(len(SHARED)):
                    yield dict(na=ffi, ns=ns, nn=nn, sh=0, head="std", eq=eq, text=text_)
    for s in gen.samples(CONV):
        yield dict(na=s["ffi"], sample=s["sample"])
    for t in TARGET:
        names = GN if t == "g" else VN
        old = 35 if t == "g" else 23
        for k in range(len(names)):
            for v in range(len(GV)):
                if big or k < old or (k + v) % 3 == 0:
                    yield dict(t=t, at=[[k, v]])
    for t in TARGET:
        names = GN if t == "g" else VN
        for (k, l) in itertools.permutations(range(35 if t == "g" else 23), 2):
            vals = [(2, 15), (6, 3), (6, 6)] if not big else itertools.product((0, 2, 3, 4, 7, 10, 15, 17, 21, 24), (1, 3, 4, 6, 13, 16, 18))
            for a, b in vals:
                yield dict(t=t, at=[[k, a], [l, b]])
    # long texts, arrays and lists of attributes
    for n in (99, 100, 101, 256, 999, 1000, 1001, 5001) if big else (101, 257, 1001):
        for t in TARGET:
            for k in ("title", "history", "comment", "note", "source", "institution"):
                for w in BIG:
                    if k in (GN if t == "g" else VN) and n <= 1001 or w == "lines":
                        yield dict(t=t, at=[[k, [w, n]]])
        for t in TARGET:
            if n < 5000:
                yield dict(t=t, many=n)
        for ffi in CONV:
            for ns, nn in ((n, 0), (0, n), (n, n + 1), (3, n)):
                if big or ns != 3:
                    yield dict(na=ffi, ns=ns, nn=nn, sh=0, head="std")
    for r in (0, 5, 10):
        for t in TARGET:
            names = GN if t == "g" else VN
            yield dict(t=t, at=[[k, (k * 5 + r) % len(GV)] for k in range(len(names))])


# ------------------------------------------------------------------ NASA Ames to NetCDF

def from_na(c):
    if "sample" in c:
        return na_attributes(gen.build(dict(sample=c["sample"])))
    desc = dict(ffi=c["na"], M=2, NV=1, NAUXV=1 if c["na"] != 1001 else 0, NX=[2, 3, 2][:max(0, c["na"] // 1000 - 1)], NXDEF=[2, 3, 2][:max(0, c["na"] // 1000 - 1)], NVPM=2, xkind="u", head=c["head"] if c["head"] != "odd" else "std")
    d = gen.build(desc)
    if c["head"] == "odd":
        d.update(ONAME="O'Neil; J. (PI)", ORG="NERC; Earth, Sea: (UK).", SNAME="WRF = v3.1", MNAME="m", DATE=[1066, 10, 14], RDATE=[2013, 1, 1], IVOL=12, NVOL=100)
    if "eq" in c:
        for k, i in zip(("ONAME", "ORG", "SNAME", "MNAME"), c["eq"]):
            d[k] = SHARED[c["text"]][i]
    L = LINES[c["sh"]:] + LINES[:c["sh"]]
    L += ["line %d of the comments" % i for i in range(c["ns"] + c["nn"] - len(L))]
    d["SCOM"] = L[:c["ns"]]
    d["NCOM"] = L[c["ns"]:c["ns"] + c["nn"]] if c["sh"] % 3 else L[:c["nn"]]
    d["NSCOML"], d["NNCOML"] = len(d["SCOM"]), len(d["NCOM"])
    return na_attributes(d)


def na_attributes(d):
    put("f.na", spec.encode(d))
    nappy.convertNAToNC("f.na", "o.nc", time_warning=False)
    e = spec.decode(text("f.na"))
    at = NC("o.nc").attrs
    p, a, mem = nappy.readXarrayObjectsFromNA("f.na")
    mem = dict(mem)
    for lab, got in (("NetCDF file", at), ("in memory", mem)):
        m = check_globals(e, got, text("f.na"))
        if m:
            return dict(fail="%s: %s\n%s" % (lab, m, text("f.na")[:1500]))
    return dict(n=2, sig=h(repr([(k, at[k]) for k in sorted(at) if k != "history"])))


def check_globals(e, at, t):
    for k, name in (("SNAME", "source"), ("MNAME", "title")):
        if at.get(name) != e[k]:
            return "%s is %r instead of %r" % (name, at.get(name), e[k])
    for k, name in (("IVOL", "file_number_in_set"), ("NVOL", "total_files_in_set"), ("FFI", "file_format_index")):
        if name not in at or np.ravel(at[name]).size != 1 or int(np.ravel(at[name])[0]) != e[k]:
            return "%s is %r instead of %r" % (name, at.get(name), e[k])
    v = at.get("first_valid_date_of_data")
    if v is None or [int(x) for x in np.ravel(v)] != e["DATE"]:
        return "first_valid_date_of_data is %r instead of %r" % (v, e["DATE"])
    v = at.get("no_of_nasa_ames_header_lines")
    if v is None or int(np.ravel(v)[0]) != int(t.split()[0]):
        return "no_of_nasa_ames_header_lines is %r" % v
    inst = at.get("institution", "")
    i, j = inst.find(e["ONAME"]), inst.rfind(e["ORG"])
    if i < 0 or j < 0 or i + len(e["ONAME"]) > j:
        return "institution is %r, ONAME %r, ORG %r" % (inst, e["ONAME"], e["ORG"])
    if "%04d-%02d-%02d" % tuple(e["RDATE"]) not in at.get("history", ""):
        return "history is %r, revision date %s" % (at.get("history"), e["RDATE"])
    exp = [l.rstrip() for l in e["SCOM"]], [l.rstrip() for l in e["NCOM"]]
    got = [l.rstrip() for l in at["comment"].split("\n")] if np.size(at.get("comment", [])) and str(at["comment"]) else []
    want = (["==== Special Comments follow ===="] + exp[0] + ["==== Special Comments end ===="] if exp[0] else []) + (["==== Normal Comments follow ===="] + exp[1] + ["==== Normal Comments end ===="] if exp[1] else [])
    if got != want:
        return "comment is\n%s\n-- instead of --\n%s" % ("\n".join(got), "\n".join(want))
    return None


# ------------------------------------------------------------------ NetCDF to NASA Ames

def build(c):
    at = {}
    names = GN if c["t"] == "g" else VN
    for k, v in c.get("at", []):
        at[k if isinstance(k, str) else names[k]] = long_value(*v) if isinstance(v, list) else GV[v]
    for i in range(c.get("many", 0)):
        at["note_%d" % i] = "value %d" % (i * 7)
    dims = {"t": dict(n=3, coord=[0.0, 1.0, 3.0], attrs={}), "x": dict(n=2, coord=[5.0, 6.0], attrs={}), "s": dict(n=4, coord=[1.0, 2.0, 4.0, 8.0], attrs={})}
    vs = [dict(name="v", dims=["t", "x"], data=counted(6, 100.25), attrs={}), dict(name="a", dims=["t"], data=counted(3, 900.0), attrs={"note0": "z"}), dict(name="o", dims=["s"], data=counted(4, 9000.0), attrs={})]
    for v in vs:
        if v["name"] == c["t"]:
            v["attrs"].update(at)
    return dict(dims=dims, vars=vs, gattrs=dict(at if c["t"] == "g" else {"title": "T"})), at


def long_value(kind, n):
    if kind == "lines":
        return "\n".join("line %d of the text" % i for i in range(n))
    if kind == "array":
        return {"i4": [3 * i + 1 for i in range(n)]}
    return "x" * n + "end" if kind == "word" else " ".join("word%d" % i for i in range(n))


def squash(s):
    return " ".join(str(s).split())


def lines_of_value(v):
    if isinstance(v, dict):
        return None
    return [squash(l) for l in v.replace("\r\n", "\n").split("\n") if l.strip()] or [""]


def numbers(v):
    (dt, x), = v.items()
    return [float(np.dtype(dt).type(i)) for i in (x if isinstance(x, list) else [x])]


def present(name, v, lines):
    """Whether the attribute stands in the header with its whole value."""
    want = lines_of_value(v)
    for i, l in enumerate(lines):
        for pos in range(len(l)):
            if not l.startswith(name, pos) or (pos and (l[pos - 1].isalnum() or l[pos - 1] in "_.")):
                continue
            rest = l[pos + len(name):].strip()
            if rest[:1] not in (":", "="):
                continue
            rest = rest[1:].strip()
            if want is None:
                try:
                    got = [float(x) for x in rest.replace("[", " ").replace("]", " ").replace(",", " ").split()]
                except ValueError:
                    continue
                if same(got, numbers(v), 1e-6):
                    return True
            else:
                if want and v.startswith("\n"):
                    want = [""] + want
                if squash(rest) == want[0] and [squash(x) for x in lines[i + 1:i + len(want)]] == want[1:]:
                    return True
    return False


MAPPED = {"title": ["MNAME"], "source": ["SNAME"], "institution": ["ONAME", "ORG"]}


def to_na(c):
    ds, at = build(c)
    make_nc("i.nc", ds)
    try:
        names = nappy.convertNCToNA("i.nc", "o.na")
    except Exception as e:
        return dict(fail="conversion fails: " + tb(e))
    try:
        files = read_all(names)
    except Exception as e:
        return dict(fail="invalid output: %s\n%s" % (err(e), text(names[0])[:2500]))
    m, found = match_vars(ds, files)
    if m:
        return dict(fail=m)
    for i, f in enumerate(files):
        lines = [l.strip() for l in f.text.split("\n")]
        lines = lines[:int(lines[0].split()[0])]
        if c["t"] != "g" and found[c["t"]][0] != i:
            continue
        for k, v in at.items():
            msg = None
            if c["t"] == "g":
                msg = check_global(k, v, f, lines)
            elif not present(k, v, lines) and not (k == "units" and v == ""):
                msg = "attribute %s = %r of variable %s is not in the header" % (k, v, c["t"])
            if msg:
                return dict(fail="file %d: %s\n%s" % (i, msg, "\n".join(lines)))
    return dict(sig=h("".join(f.text.split("RDATE")[0] for f in files)))


def check_global(k, v, f, lines):
    flat = None if isinstance(v, dict) else squash(v)
    if k in MAPPED:
        for item in MAPPED[k]:
            got = squash(f.d[item])
            if isinstance(v, dict):
                try:
                    ok = same([float(x) for x in got.replace(",", " ").split()], numbers(v), 1e-6)
                except ValueError:
                    ok = False
            else:
                # a trailing {annotation} of a header line is not part of the item
                ok = got == flat or squash(flat.rsplit("{", 1)[0]) == got
            if not ok:
                return "%s is %r, the attribute %s is %r" % (item, f.d[item], k, v)
        return None
    if k == "first_valid_date_of_data":
        return None if present(k, v, lines) or isinstance(v, dict) and f.d["DATE"] == [int(x) for x in numbers(v)] else "attribute %s = %r is lost" % (k, v)
    if k in ("comment", "history"):
        if isinstance(v, dict):
            vals = numbers(v)
            for l in lines:
                try:
                    if same([float(x) for x in l.replace(",", " ").split()], vals, 1e-6):
                        return None
                except ValueError:
                    continue
            return "%s %r is lost" % (k, v)
        want = [l for l in lines_of_value(v) if l and l not in ("==== Special Comments follow ====", "==== Special Comments end ====", "==== Normal Comments follow ====", "==== Normal Comments end ====")]
        it = iter([squash(l) for l in f.d["SCOM"] + f.d["NCOM"]])
        return None if all(any(w == l for l in it) for w in want) else "%s lines %s are not all there in order" % (k, want)
    return None if present(k, v, lines) else "global attribute %s = %r is not in the header" % (k, v)


def run(case):
    return from_na(case) if "na" in case else to_na(case)
