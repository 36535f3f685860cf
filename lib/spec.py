"""Reference model of the NASA Ames format, written from Gaines & Hipskind (1998).

A dataset is a plain dictionary in the naming of the specification, axes listed slowest (unbounded) first, which is the
documented in-memory convention of nappy:
  1001/1010/1020   X flat list, V[n][m], A[a][m]
  2010/3010/4010   X = [unbounded values, slow axis, ..., fast axis]; NX/NXDEF for the bounded axes, slowest first; V[n][m][..][..]
  2110/2160/2310   X = [[x_m, [bounded values]], ...]; V[n][m][i]; A[0] is NX
encode() turns such a dictionary into text, decode() turns text into such a dictionary.  Neither uses nappy.
"""
import re

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)
GRID = (2010, 3010, 4010)
RAGGED = (2110, 2160, 2310)
NIV = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2160: 2, 2310: 2, 3010: 3, 4010: 4}


class SpecError(Exception):
    pass


def num(v, style="plain"):
    """Text of a number."""
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or isinstance(v, int):
        s = str(v)
        if style == "exp":
            return "%.9E" % v
        return s
    if style == "exp":
        return "%.16E" % v
    if float(v) == int(v) and abs(v) < 1e15:
        return str(int(v)) if style == "int" else repr(float(v))
    return repr(float(v))


def flat(v):
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r += flat(x)
        return r
    return [v]


def header_items(d):
    """The header after the first line: list of (kind, name, payload)
    kind: num (tokens on one line), wrap (tokens that may be wrapped), text, comment."""
    f = d["FFI"]
    h = [("text", "ONAME", d["ONAME"]), ("text", "ORG", d["ORG"]), ("text", "SNAME", d["SNAME"]), ("text", "MNAME", d["MNAME"]),
         ("int", "IVOL NVOL", [d["IVOL"], d["NVOL"]]), ("int", "DATE RDATE", list(d["DATE"]) + list(d["RDATE"]))]

    def names(tag, l):
        for s in l:
            h.append(("text", tag, s))

    def vsec():
        h.append(("int", "NV", [d["NV"]]))
        h.append(("wrap", "VSCAL", d["VSCAL"]))
        h.append(("wrap", "VMISS", d["VMISS"]))
        names("VNAME", d["VNAME"])

    def asec():
        h.append(("int", "NAUXV", [d["NAUXV"]]))
        if d["NAUXV"]:
            h.append(("wrap", "ASCAL", d["ASCAL"]))
            h.append(("wrap", "AMISS", d["AMISS"]))
            names("ANAME", d["ANAME"])

    if f in (1001, 1010):
        h.append(("num", "DX", d["DX"]))
        names("XNAME", d["XNAME"])
        vsec()
        if f == 1010:
            asec()
    elif f == 1020:
        h.append(("num", "DX", d["DX"]))
        h.append(("int", "NVPM", [d["NVPM"]]))
        names("XNAME", d["XNAME"])
        vsec()
        asec()
    elif f in GRID:
        h.append(("num", "DX", d["DX"][::-1]))
        h.append(("int", "NX", d["NX"][::-1]))
        h.append(("int", "NXDEF", d["NXDEF"][::-1]))
        for k in range(len(d["NX"]) - 1, -1, -1):          # fastest axis first
            h.append(("wrap", "X", d["X"][k + 1][:d["NXDEF"][k]]))
        names("XNAME", d["XNAME"][::-1])
        vsec()
        asec()
    elif f == 2110:
        h.append(("num", "DX", d["DX"][::-1]))
        names("XNAME", d["XNAME"][::-1])
        vsec()
        asec()
    elif f == 2310:
        h.append(("num", "DX", d["DX"][:1]))
        names("XNAME", d["XNAME"][::-1])
        vsec()
        asec()
    elif f == 2160:
        h.append(("num", "DX", d["DX"]))
        h.append(("int", "LENX", [d["LENX"]]))
        names("XNAME", d["XNAME"][::-1])
        vsec()
        r = d["NAUXV"] - d["NAUXC"]
        h.append(("int", "NAUXV", [d["NAUXV"]]))
        h.append(("int", "NAUXC", [d["NAUXC"]]))
        h.append(("wrap", "ASCAL", d["ASCAL"][:r]))
        h.append(("wrap", "AMISS", d["AMISS"][:r]))
        if d["NAUXC"]:
            h.append(("wrapint", "LENA", d["LENA"][r:]))
            names("AMISS", d["AMISS"][r:])
        names("ANAME", d["ANAME"])
    else:
        raise SpecError("FFI %s" % f)
    h.append(("int", "NSCOML", [d["NSCOML"]]))
    for s in d["SCOM"]:
        h.append(("comment", "SCOM", s))
    h.append(("int", "NNCOML", [d["NNCOML"]]))
    for s in d["NCOM"]:
        h.append(("comment", "NCOM", s))
    return h


def data_records(d):
    """List of ("rec", tokens) / ("text", string) in file order.
    Tokens are pairs (value, missing flag or None) so that writers that format flags specially can be checked."""
    f = d["FFI"]
    out = []
    if f in (1001, 1010, 1020):
        npm = d["NVPM"] if f == 1020 else 1
        A = d.get("A") or []
        for m in range(len(d["X"])):
            aux = [(A[a][m], d["AMISS"][a]) for a in range(len(A))] if f != 1001 else []
            if f == 1001:
                out.append(("rec", [(d["X"][m], None)] + [(d["V"][n][m], d["VMISS"][n]) for n in range(d["NV"])]))
            elif f == 1010:
                out.append(("rec", [(d["X"][m], None)] + aux))
                out.append(("rec", [(d["V"][n][m], d["VMISS"][n]) for n in range(d["NV"])]))
            else:
                out.append(("rec", [(d["X"][m], None)] + aux))
                for n in range(d["NV"]):
                    out.append(("rec", [(v, d["VMISS"][n]) for v in d["V"][n][m * npm:(m + 1) * npm]]))
    elif f in GRID:
        for m in range(len(d["X"][0])):
            out.append(("rec", [(d["X"][0][m], None)] + [(d["A"][a][m], d["AMISS"][a]) for a in range(d["NAUXV"])]))
            for n in range(d["NV"]):
                vals = flat(d["V"][n][m])                # one record per row of the fastest axis
                w = d["NX"][-1]
                for j in range(0, len(vals), w):
                    out.append(("rec", [(v, d["VMISS"][n]) for v in vals[j:j + w]]))
    elif f == 2110:
        for m in range(len(d["X"])):
            out.append(("rec", [(d["X"][m][0], None)] + [(d["A"][a][m], d["AMISS"][a]) for a in range(d["NAUXV"])]))
            for i in range(d["NX"][m]):
                out.append(("rec", [(d["X"][m][1][i], None)] + [(d["V"][n][m][i], d["VMISS"][n]) for n in range(d["NV"])]))
    elif f == 2310:
        for m in range(len(d["X"])):
            out.append(("rec", [(d["X"][m][0], None)] + [(d["A"][a][m], d["AMISS"][a]) for a in range(d["NAUXV"])]))
            if d["NX"][m]:
                for n in range(d["NV"]):
                    out.append(("rec", [(v, d["VMISS"][n]) for v in d["V"][n][m]]))
    elif f == 2160:
        r = d["NAUXV"] - d["NAUXC"]
        for m in range(len(d["X"])):
            out.append(("text", d["X"][m][0]))
            out.append(("rec", [(d["A"][a][m], d["AMISS"][a]) for a in range(r)]))
            for a in range(r, d["NAUXV"]):
                out.append(("text", d["A"][a][m]))
            for i in range(d["NX"][m]):
                out.append(("rec", [(d["X"][m][1][i], None)] + [(d["V"][n][m][i], d["VMISS"][n]) for n in range(d["NV"])]))
    return out


def wrap(tokens, n):
    if isinstance(n, str):                       # break after token i where the (cyclic) pattern has a 1
        parts = [[]]
        for i, t in enumerate(tokens):
            parts[-1].append(t)
            if n[i % len(n)] == "1" and i + 1 < len(tokens):
                parts.append([])
        return parts
    if not n or len(tokens) <= n:
        return [tokens]
    return [tokens[i:i + n] for i in range(0, len(tokens), n)]


LAYOUT = dict(sep="  ", wraph=0, wrapd=0, annot=0, trail="", indent="", endblank=0, noeol=0, ignore=0, style="plain", anntext=None)


def encode_lines(d, layout=None, kinds=False):
    """Returns (header lines, data lines[, kinds of data lines])."""
    L = dict(LAYOUT)
    L.update(layout or {})
    lines = []
    ann = lambda name: "{%s}" % (name if L["anntext"] is None else L["anntext"])
    for kind, name, payload in header_items(d):
        if kind in ("num", "wrap", "int", "wrapint"):
            st = "plain" if kind in ("int", "wrapint") else L["style"]
            toks = [num(v, st) for v in payload]
            parts = wrap(toks, L["wraph"]) if kind in ("wrap", "wrapint") else [toks]
            for k, p in enumerate(parts):
                s = L["indent"] + L["sep"].join(p)
                if L["annot"] == 1 or (L["annot"] == 2 and k == len(parts) - 1):
                    s += "     " + ann(name)
                lines.append(s + L["trail"])
        elif kind == "text":
            lines.append(payload + ("   " + ann(name) if L["annot"] and payload else "") + L["trail"])
        else:
            lines.append(payload + L["trail"])
    top = "%s%d%s%d%s%s" % (L["indent"], len(lines) + 1, L["sep"], d["FFI"], "    " + ann("NLHEAD  FFI") if L["annot"] else "", L["trail"])
    header = ["ignored line %d" % k for k in range(L["ignore"])] + [top] + lines
    data = []
    ks = []
    for j, (kind, payload) in enumerate(data_records(d)):
        if kind == "text":
            data.append(payload + L["trail"])
            ks.append(("text", j, 0))
        else:
            toks = [num(v, L["style"]) for v, _ in payload]
            for k, p in enumerate(wrap(toks, L["wrapd"])):
                data.append(L["indent"] + L["sep"].join(p) + ("   " + ann("rec") if L["annot"] == 2 else "") + L["trail"])
                ks.append(("rec", j, k))
    if kinds:
        return header, data, ks
    return header, data


def encode(d, layout=None):
    L = dict(LAYOUT)
    L.update(layout or {})
    h, b = encode_lines(d, L)
    lines = h + b + ([""] * L["endblank"] if isinstance(L["endblank"], int) else list(L["endblank"]))
    s = "\n".join(lines)
    return s if L["noeol"] else s + "\n"


# ----------------------------------------------------------------------------------------------- decoding

_split = re.compile(r"[\s,]+")


def toks(line):
    line = line.strip().strip(",").strip()
    return _split.split(line) if line else []


class _Cur:
    def __init__(self, lines):
        self.lines = lines
        self.i = 0

    def line(self, what="line"):
        if self.i >= len(self.lines):
            raise SpecError("file ends where %s expected" % what)
        self.i += 1
        return self.lines[self.i - 1].rstrip("\n")

    def text(self, what):
        return self.line(what).strip()

    def nums(self, n, what, conv=float, wrapped=False):
        got = []
        while True:
            got += toks(self.line(what))
            if len(got) >= n or not wrapped:
                break
        if len(got) != n:
            raise SpecError("%s: expected %d items, found %d: %r" % (what, n, len(got), got))
        try:
            return [conv(x) for x in got]
        except ValueError as e:
            raise SpecError("%s: %s" % (what, e))

    @property
    def left(self):
        return self.i < len(self.lines)


def decode(text, strict_records=True):
    """Independent reader of a written file.  Raises SpecError when the text does not follow the specification."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    c = _Cur(lines)
    nlhead, f = c.nums(2, "NLHEAD FFI", int)
    if f not in FFIS:
        raise SpecError("unknown FFI %s" % f)
    d = dict(NLHEAD=nlhead, FFI=f, NIV=NIV[f])
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[k] = c.text(k)
    d["IVOL"], d["NVOL"] = c.nums(2, "IVOL NVOL", int)
    dd = c.nums(6, "DATE RDATE", int)
    d["DATE"], d["RDATE"] = dd[:3], dd[3:]

    def names(n, what):
        return [c.text(what) for _ in range(n)]

    def vsec():
        d["NV"], = c.nums(1, "NV", int)
        d["VSCAL"] = c.nums(d["NV"], "VSCAL", float, True)
        d["VMISS"] = c.nums(d["NV"], "VMISS", float, True)
        d["VNAME"] = names(d["NV"], "VNAME")

    def asec():
        d["NAUXV"], = c.nums(1, "NAUXV", int)
        if d["NAUXV"]:
            d["ASCAL"] = c.nums(d["NAUXV"], "ASCAL", float, True)
            d["AMISS"] = c.nums(d["NAUXV"], "AMISS", float, True)
            d["ANAME"] = names(d["NAUXV"], "ANAME")

    if f in (1001, 1010, 1020):
        d["DX"] = c.nums(1, "DX")
        if f == 1020:
            d["NVPM"], = c.nums(1, "NVPM", int)
        d["XNAME"] = names(1, "XNAME")
        vsec()
        if f != 1001:
            asec()
    elif f in GRID:
        n = NIV[f]
        d["DX"] = c.nums(n, "DX")[::-1]
        d["NX"] = c.nums(n - 1, "NX", int)[::-1]
        d["NXDEF"] = c.nums(n - 1, "NXDEF", int)[::-1]
        ax = []
        for s in range(n - 1):
            nd, nx = d["NXDEF"][::-1][s], d["NX"][::-1][s]
            xs = c.nums(nd, "X", float, True)
            if nd < nx:
                dx = d["DX"][::-1][s]
                xs = [xs[0] + i * dx for i in range(nx)]
            elif nd > nx:
                raise SpecError("NXDEF greater than NX")
            ax.append(xs)
        d["X"] = [[]] + ax[::-1]
        d["XNAME"] = names(n, "XNAME")[::-1]
        vsec()
        asec()
    elif f == 2110:
        d["DX"] = c.nums(2, "DX")[::-1]
        d["XNAME"] = names(2, "XNAME")[::-1]
        vsec()
        asec()
    elif f == 2310:
        d["DX"] = c.nums(1, "DX")
        d["XNAME"] = names(2, "XNAME")[::-1]
        vsec()
        asec()
    elif f == 2160:
        d["DX"] = c.nums(1, "DX")
        d["LENX"], = c.nums(1, "LENX", int)
        d["XNAME"] = names(2, "XNAME")[::-1]
        vsec()
        d["NAUXV"], = c.nums(1, "NAUXV", int)
        d["NAUXC"], = c.nums(1, "NAUXC", int)
        r = d["NAUXV"] - d["NAUXC"]
        d["ASCAL"] = c.nums(r, "ASCAL", float, True)
        d["AMISS"] = c.nums(r, "AMISS", float, True)
        d["LENA"] = [None] * r
        if d["NAUXC"]:
            d["LENA"] = d["LENA"] + c.nums(d["NAUXC"], "LENA", int, True)
            d["AMISS"] = d["AMISS"] + names(d["NAUXC"], "AMISS")
        d["ANAME"] = names(d["NAUXV"], "ANAME")
    d["NSCOML"], = c.nums(1, "NSCOML", int)
    d["SCOM"] = names(d["NSCOML"], "SCOM")
    d["NNCOML"], = c.nums(1, "NNCOML", int)
    d["NCOM"] = names(d["NNCOML"], "NCOM")
    if c.i != nlhead:
        raise SpecError("NLHEAD says %d but the header has %d lines" % (nlhead, c.i))
    if f in GRID or f in RAGGED or f in (1010, 1020):
        d.setdefault("ASCAL", [])
        d.setdefault("AMISS", [])
        d.setdefault("ANAME", [])
    # ---- data
    nv = d["NV"]
    V = [[] for _ in range(nv)]
    A = [[] for _ in range(d.get("NAUXV", 0))]
    X = []
    if f in RAGGED:
        d["NX"] = []
    W = False                                  # nappy's writers put each record on one line
    while c.left:
        if f == 1001:
            r = c.nums(1 + nv, "data record", float, W)
            X.append(r[0])
            for n in range(nv):
                V[n].append(r[1 + n])
        elif f in (1010, 1020):
            r = c.nums(1 + d["NAUXV"], "mark record", float, W)
            X.append(r[0])
            for a in range(d["NAUXV"]):
                A[a].append(r[1 + a])
            if f == 1010:
                r = c.nums(nv, "data record", float, W)
                for n in range(nv):
                    V[n].append(r[n])
            else:
                for n in range(nv):
                    V[n] += c.nums(d["NVPM"], "data record", float, W)
        elif f in GRID:
            r = c.nums(1 + d["NAUXV"], "mark record", float, W)
            X.append(r[0])
            for a in range(d["NAUXV"]):
                A[a].append(r[1 + a])
            size = 1
            for k in d["NX"]:
                size *= k
            for n in range(nv):
                vals = []
                for j in range(0, size, d["NX"][-1]):
                    vals += c.nums(d["NX"][-1], "data record", float, True)
                V[n].append(nest(vals, d["NX"]))
        elif f in (2110, 2310):
            r = c.nums(1 + d["NAUXV"], "mark record", float, W)
            for a in range(d["NAUXV"]):
                A[a].append(r[1 + a])
            nx = 0 if r[1] == d["AMISS"][0] else int(r[1])
            d["NX"].append(nx)
            xs = []
            for n in range(nv):
                V[n].append([])
            if f == 2110:
                for i in range(nx):
                    q = c.nums(1 + nv, "data record", float, W)
                    xs.append(q[0])
                    for n in range(nv):
                        V[n][-1].append(q[1 + n])
            else:
                xs = [r[2] + i * r[3] for i in range(nx)]
                if nx:
                    for n in range(nv):
                        V[n][-1] += c.nums(nx, "data record", float, True)
            X.append([r[0], xs])
        elif f == 2160:
            x = c.text("character mark")
            if not x:
                raise SpecError("blank line in data section")
            nr = d["NAUXV"] - d["NAUXC"]
            r = c.nums(nr, "aux record", float, W)
            for a in range(nr):
                A[a].append(r[a])
            for a in range(nr, d["NAUXV"]):
                A[a].append(c.text("character aux"))
            nx = 0 if r[0] == d["AMISS"][0] else int(r[0])
            d["NX"].append(nx)
            xs = []
            for n in range(nv):
                V[n].append([])
            for i in range(nx):
                q = c.nums(1 + nv, "data record", float, W)
                xs.append(q[0])
                for n in range(nv):
                    V[n][-1].append(q[1 + n])
            X.append([x, xs])
    if f in GRID:
        d["X"][0] = X
    else:
        d["X"] = X
    d["V"] = V
    if f != 1001:
        d["A"] = A
    return d


def nest(vals, dims):
    if len(dims) == 1:
        return list(vals)
    step = len(vals) // dims[0]
    return [nest(vals[i * step:(i + 1) * step], dims[1:]) for i in range(dims[0])]


# ----------------------------------------------------------------------------------------------- comparing

KEYS = {
    1001: "DX XNAME NV VSCAL VMISS VNAME NSCOML SCOM NNCOML NCOM X V",
    1010: "DX XNAME NV VSCAL VMISS VNAME NAUXV ASCAL AMISS ANAME NSCOML SCOM NNCOML NCOM X V A",
    1020: "DX NVPM XNAME NV VSCAL VMISS VNAME NAUXV ASCAL AMISS ANAME NSCOML SCOM NNCOML NCOM X V A",
    2010: "DX NX NXDEF XNAME NV VSCAL VMISS VNAME NAUXV ASCAL AMISS ANAME NSCOML SCOM NNCOML NCOM X V A",
    2110: "DX XNAME NV VSCAL VMISS VNAME NAUXV ASCAL AMISS ANAME NSCOML SCOM NNCOML NCOM X NX V A",
    2310: "XNAME NV VSCAL VMISS VNAME NAUXV ASCAL AMISS ANAME NSCOML SCOM NNCOML NCOM X NX V A",
    2160: "DX LENX XNAME NV VSCAL VMISS VNAME NAUXV NAUXC ASCAL AMISS LENA ANAME NSCOML SCOM NNCOML NCOM X NX V A",
}
KEYS[3010] = KEYS[4010] = KEYS[2010]
COMMON = "FFI NIV ONAME ORG SNAME MNAME IVOL NVOL DATE RDATE"


def keys(ffi):
    return COMMON.split() + KEYS[ffi].split()


def plain(v):
    """Lists and Python numbers only."""
    if isinstance(v, (str, bytes, type(None), bool, int, float)):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "tolist"):
        return plain(v.tolist())
    return v


def grid_axis_values(d, k):
    """Full coordinate values of bounded axis k (slowest first) of a 2010/3010/4010 dataset."""
    xs = plain(d["X"][k + 1])
    nx, nd = d["NX"][k], d["NXDEF"][k]
    if nd < nx:
        return [xs[0] + i * d["DX"][k + 1] for i in range(nx)]
    return xs


def bounded_values(d, m):
    """Bounded axis of a 2110/2160/2310 dataset at mark m."""
    if d["FFI"] == 2310:
        nx = d["NX"][m]
        return [d["A"][1][m] + i * d["A"][2][m] for i in range(nx)]
    return plain(d["X"][m][1])


def diff(a, b, only=None, skip=()):
    """First difference between two datasets, or None.  `a` is the expectation."""
    f = a["FFI"]
    if b.get("FFI") != f:
        return "FFI: expected %r, got %r" % (f, b.get("FFI"))
    for k in (only or keys(f)):
        if k in skip:
            continue
        if k in ("ASCAL", "AMISS", "ANAME", "A") and not a.get("NAUXV") and not b.get("NAUXV"):
            continue
        if k not in a:
            continue
        x = plain(a[k])
        y = plain(b.get(k))
        if k == "X" and f == 2310 and y is not None:
            # only the first bounded value is stored for this format (it is also auxiliary variable 2)
            x = [[p[0]] for p in x]
            try:
                for m, p in enumerate(y):
                    if plain(p[1])[:1] and plain(p[1])[0] != plain(a["A"][1])[m]:
                        return "X(1,m) of mark %d: expected %r, got %r" % (m, a["A"][1][m], p[1])
                y = [[p[0]] for p in y]
            except Exception as e:
                return "X malformed: %r (%s)" % (y, e)
        if k == "X" and f in GRID and y is not None:
            for i in range(len(a["NX"])):
                try:
                    ya = y[i + 1][:a["NXDEF"][i]]
                    if len(y[i + 1]) not in (a["NXDEF"][i], a["NX"][i]) or (len(y[i + 1]) != a["NXDEF"][i] and y[i + 1] != grid_axis_values(a, i)):
                        return "X of bounded axis %d: got %r" % (i, y[i + 1])
                except Exception as e:
                    return "X malformed: %r (%s)" % (y, e)
                if x[i + 1][:a["NXDEF"][i]] != ya:
                    return "X of bounded axis %d: expected %r, got %r" % (i, x[i + 1], y[i + 1])
            x, y = x[0], y[0]
        if x != y:
            return "%s: expected %s, got %s" % (k, short(x), short(y))
    if f == 2310 and "DX" not in skip and (only is None or "DX" in only):
        x, y = plain(a["DX"]), plain(b.get("DX"))
        if not y or x[0] != y[0] or (len(y) > 1 and y[1:] != plain(a["A"][2]) and y != plain(a["DX"])):
            return "DX: expected %r (then increments %r), got %r" % (x[:1], a["A"][2], y)
    return None


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."
