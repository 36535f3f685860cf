from common import *
from nch import make_nc
import c16
import c20
import contextlib
import io
import json
import pickle
import re
import shutil
import subprocess
import sys
import types

import numpy as np

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration of operation histories on the real library: the tree of all sequences of API calls is walked by forking the process at every node; every result is compared with that of the call alone in a new process; library state is fingerprinted and counted"
RULE = ("every sequence of operations from an alphabet of API calls (reading, querying, writing, comparing, configuration look-ups with default and other files, conversions in every direction with and without options, overrides, names only, in-memory calls, commands, and calls that fail part way: missing header items, impossible formats, cut files, unwritable directories) up to the depth bound, in one process; after each call, everything it returned and every argument object it was given is changed in place at all levels. "
        "Each call is also repeated with the same argument objects, and one conversion object is written repeatedly with different options. Oracle: result (values, returned names, bytes of the files written, error) equals that of the same operation in a new process; the input files stay as they were. Distinct = distinct states of the module-level data of the library.")
BOUNDS = {"quick": "all histories of length <=2 over 61 operations, and one in 16 of those of length 3", "thorough": "all histories of length <=2 and half of those of length 3"}
TIMEOUT = 900
MEM = 6 << 30
BASE = {}


# ------------------------------------------------------------------ the alphabet

def structure(ffi):
    for s in gen.small_structures():
        d = gen.build(s)
        if d["FFI"] == ffi:
            return d


def prepare():
    """Input files in the current directory."""
    for ffi in gen_ffis():
        write_na("in%d.na" % ffi, to_dict(structure(ffi)))
    for kind in ("groups", "miss", "aux1010", "d2aux", "time"):
        make_nc(kind + ".nc", c16.build(dict(n=4, kind=kind)))
    t = text("in1001.na")
    put("cut.na", t[:len(t) // 2])
    put("junk.na", "not a NASA Ames file\n")
    put("off.na", "a line\nanother\n" + t)
    put("other.ini", "[main]\nDEBUG = False\ndefault_delimiter = ;\ndefault_float_format = %.2f\n[extra]\nk = v\n")
    put("ann.ini", "[annotations]\n" + "\n".join("%s = MY %s" % (k, k) for k in ANN) + "\n")
    put("loc.ini", "[nc_attributes]\ninstitution = Local I\nproject = MNAME\nnote = SNAME\n[na_attributes]\nORG = Local Org\nSNAME = Local S\n")
    ds = c16.build(dict(n=4, kind="one"))
    ds["gattrs"] = dict(project="The project", note="The note", comment="same\n--\nsame\n--")
    make_nc("proj.nc", ds)
    # two files in which the same names stand for other things
    for k in (0, 1):
        make_nc("role%d.nc" % k, role(k))
    write_na("copy.na", to_dict(structure(1001)))
    put("diff.na", t.replace("1", "2", 1) if False else t[:-3] + "9\n")


ANN = []
API = {}


def role(k):
    """In the second dataset the bounds, auxiliary coordinate, character and scalar variables of the first are data, axes swap places and units and missing values differ."""
    num = lambda n, f, **kw: dict(data=[f + 1.5 * i for i in range(n)], attrs=dict(kw))
    if not k:
        return dict(dims=dict(t=dict(n=3, coord=[0.0, 1.0, 2.0], attrs=dict(bounds="w", units="days since 2001-02-03 00:00:00")), x=dict(n=2, coord=[5.0, 6.0], attrs=dict(units="m")), b=dict(n=2, coord=None)),
                    vars=[dict(name="v", dims=["t", "x"], fill=6.5, mv=6.5, **num(6, 2.0, units="K", coordinates="y", nasa_ames_var_number={"i4": 1})), dict(name="w", dims=["t", "b"], **num(6, 70.0)),
                          dict(name="y", dims=["x"], **num(2, 30.0)), dict(name="z", dims=[], **num(1, 4.0, units="g")), dict(name="u", dims=["t", "x"], **num(6, 90.0, nasa_ames_var_number={"i4": 0}))], gattrs=dict(title="first", note="n"))
    return dict(dims=dict(t=dict(n=2, coord=[7.0, 9.0], attrs=dict(units="km")), x=dict(n=3, coord=[0.0, 2.0, 3.0], attrs=dict(units="hours since 1999-01-01 00:00:00"))),
                vars=[dict(name="w", dims=["x"], **num(3, 10.0, units="s")), dict(name="y", dims=["x"], **num(3, 20.0)), dict(name="z", dims=["x"], **num(3, 40.0, units="kg")),
                      dict(name="v", dims=["x", "t"], **num(6, 2.0, units="degC")), dict(name="u", dims=["x", "t"], **num(6, 100.0))], gattrs=dict(institution="second"))


def gen_ffis():
    return (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)


def ops():
    """name -> function returning (observed value, objects to change afterwards). Output goes to files out*."""
    O = {}

    def op(name):
        def deco(f):
            O[name] = f
            return f
        return deco

    def read(ffi):
        def f():
            with nappy.openNAFile("in%d.na" % ffi) as a:
                q = [a.getNADict(), a.getVariables(), a.getNormalComments(), a.getSpecialComments(), a.getIndependentVariables() if hasattr(a, "getIndependentVariables") else None,
                     a.getNumHeaderLines(), a.getOrg(), a.getMissingValue(0), a.getScaleFactor(0), a.getVolumes(), a.getAuxVariables() if hasattr(a, "getAuxVariables") else None]
            return q, [q]
        return f

    def write(ffi, label, **kw):
        def f():
            d = to_dict(structure(ffi))
            with contextlib.redirect_stdout(io.StringIO()):
                with nappy.openNAFile("out%d.na" % ffi, "w", d) as a:
                    a.write(**kw)
            return None, [d]
        O["write %d %s" % (ffi, label)] = f

    for ffi in gen_ffis():
        O["read %d" % ffi] = read(ffi)
        write(ffi, "plain")
    write(1001, "annotated", annotation=True)
    write(2110, "annotated csv", annotation=True, delimiter=",")
    write(1010, "formatted", delimiter=";", float_format="%.3f")
    write(3010, "no header", no_header=True, float_format="%s")

    @op("write failing")
    def _():
        d = to_dict(structure(1010))
        del d["VSCAL"]
        try:
            with nappy.openNAFile("outf.na", "w", d) as a:
                a.write()
        finally:
            c22_scramble([d])

    @op("write nowhere")
    def _():
        d = to_dict(structure(2010))
        with nappy.openNAFile("nodir/x.na", "w", d) as a:
            a.write()

    @op("write annotated, own annotations")
    def _():
        with environ(NAPPY_ANNOTATIONS=os.path.abspath("ann.ini")):
            d = to_dict(structure(1010))
            with nappy.openNAFile("outo.na", "w", d) as a:
                a.write(annotation=True)
        return None, [d]

    @op("read cut")
    def _():
        nappy.openNAFile("cut.na").readData()

    @op("read junk")
    def _():
        nappy.openNAFile("junk.na")

    @op("read offset")
    def _():
        with nappy.openNAFile("off.na", ignore_header_lines=2) as a:
            q = a.getNADict()
        return q, [q]

    @op("config")
    def _():
        from nappy.utils.parse_config import getConfigDict, getAnnotationsConfigDict, getLocalAttributesConfigDict
        import nappy.utils
        q = [getConfigDict(), getAnnotationsConfigDict(), getLocalAttributesConfigDict(), nappy.utils.getDefault("default_delimiter"), nappy.utils.getVersion(), nappy.utils.getDebug()]
        return q, [q]

    @op("config of another file")
    def _():
        from nappy.utils.parse_config import getConfigDict, makeConfigDict
        q = [makeConfigDict("other.ini"), getConfigDict("other.ini")]
        return q, [q]

    @op("local attributes of another file")
    def _():
        from nappy.utils.parse_config import getLocalAttributesConfigDict
        with environ(NAPPY_LOCAL_ATTRIBUTES=os.path.abspath("loc.ini")):
            q = getLocalAttributesConfigDict()
        return q, [q]

    @op("compare same")
    def _():
        import nappy.utils.compare_na as c
        with contextlib.redirect_stdout(io.StringIO()):
            return [c.compNAFiles("in1001.na", "copy.na"), c.compNAFiles("in1001.na", "copy.na", number_clever=False, body=False)], []

    @op("compare different")
    def _():
        import nappy.utils.compare_na as c
        with contextlib.redirect_stdout(io.StringIO()):
            return [c.compNAFiles("in1001.na", "diff.na"), c.compNAFiles("diff.na", "in1001.na", approx_equal=True)], []

    def api(label, fn, *args, **kw):
        API[label] = (fn, args, kw)

        def f():
            a, k = clone(args), clone(kw)
            r = getattr(nappy, fn)(*a, **k)
            return r, [r, a, k]
        O[label] = f

    api("na->nc", "convertNAToNC", "in1001.na", "out.nc")
    api("na->nc 1020", "convertNAToNC", "in1020.na", "out.nc", time_warning=False)
    api("na->nc rename", "convertNAToNC", "in1010.na", "out.nc", rename_variables={"V1": "new"}, global_attributes=[("institution", "Mine"), ("a", "b")])
    api("na->nc first", "convertNAToNC", "in2010.na", "out.nc", variables=[0], time_units="days since 2000-01-01 00:00:00")
    api("na->nc refused", "convertNAToNC", "in2110.na", "out.nc")
    api("na->csv", "convertNAToCSV", "in3010.na", "out.csv", annotation=True)
    api("nc->na groups", "convertNCToNA", "groups.nc", "out.na")
    api("nc->na overrides", "convertNCToNA", "miss.nc", "out.na", na_items_to_override={"ONAME": "Me", "SCOM": ["s1", "s2"], "NCOM": ["n1"], "DATE": [1999, 1, 2], "VNAME": ["renamed"]}, annotation=True)
    api("nc->na split", "convertNCToNA", "groups.nc", "out.na", size_limit=2, exclude_vars=["g"], delimiter=";", float_format="%.2f", no_header=True)
    api("nc->na names", "convertNCToNA", "groups.nc", "out.na", only_return_file_names=True)
    api("nc->na aux", "convertNCToNA", "aux1010.nc", "out.na", requested_ffi=1010)
    api("nc->na impossible", "convertNCToNA", "groups.nc", "out.na", requested_ffi=4010)
    api("nc->na nowhere", "convertNCToNA", "d2aux.nc", "nodir/out.na")
    api("nc->csv", "convertNCToCSV", "time.nc", "out.csv", var_ids=["v"])
    api("read xr", "readXarrayObjectsFromNA", "in1010.na")
    api("get xr", "getXarrayVariableFromNA", "in4010.na", 0)
    api("get xr unknown", "getXarrayVariableFromNA", "in4010.na", "nosuch")

    @op("nc->na local attributes")
    def _():
        with environ(NAPPY_LOCAL_ATTRIBUTES=os.path.abspath("loc.ini")):
            r = nappy.convertNCToNA("miss.nc", "out.na")
            q = nappy.convertNCToNA("proj.nc", "outp.na")
        return [r, q], [r, q]

    api("nc->na project", "convertNCToNA", "proj.nc", "out.na")

    def converter(label, module, cls, inp, kwargs, steps):
        """One conversion object whose methods are called one after the other, everything returned being changed."""
        def f():
            import importlib
            c = getattr(importlib.import_module(module), cls)(inp, **clone(kwargs))
            q = []
            for m, a, k in steps:
                r = getattr(c, m)(*clone(a), **clone(k))
                q.append(canon(r))
                files = {n: c20.dump(n) if n.endswith(".nc") else text(n) for n in sorted(c16.tree()) if os.path.basename(n).startswith("out")}
                q.append(files)
                c22_scramble([r] if isinstance(r, list) and m != "convert" else [])
            return q, []
        O[label] = f

    api("nc->na role 0", "convertNCToNA", "role0.nc", "out.na")
    api("nc->na role 1", "convertNCToNA", "role1.nc", "out.na")

    def same_path(k):
        """Files of another content under the same name."""
        def f():
            make_nc("out_in.nc", role(k))
            write_na("out_in.na", to_dict(structure((1010, 2010)[k])))
            q = [nappy.convertNCToNA("out_in.nc", "out.na"), nappy.convertNAToNC("out_in.na", "out_b.nc", mode="w", time_warning=False)]
            with nappy.openNAFile("out_in.na") as a:
                q.append(a.getNADict())
            return q, [q]
        O["same path %d" % k] = f

    same_path(0)
    same_path(1)
    N = ("nappy.nc_interface.nc_to_na", "NCToNA")
    over = dict(na_items_to_override=dict(ONAME="Me", NCOM=["n1", "n1"]))
    converter("converter names", *N, "groups.nc", {}, [("constructNAFileNames", ["out.na"], {}), ("constructNAFileNames", ["out.na"], {}), ("constructNAFileNames", ["out.csv"], dict(size_limit=2)), ("constructNAFileNames", ["out.na"], {})])
    converter("converter writes", *N, "miss.nc", over, [("convert", [], {}), ("writeNAFiles", ["out.na"], dict(delimiter=",", float_format="%.2f", annotation=True)), ("writeNAFiles", ["out.na"], {}), ("writeNAFiles", ["out.na"], dict(size_limit=2)), ("writeNAFiles", ["out.na"], {})])

    @op("xr->na")
    def _():
        import xarray as xr
        with xr.open_dataset("d2aux.nc", use_cftime=True, decode_timedelta=False) as ds:
            vs = [ds[v].load() for v in ds.variables]
            at = list(ds.attrs.items())
        r = nappy.convertXarrayObjectsToNA(vs, at, "out.na", na_items_to_override={"ORG": "Xr"})
        return r, [r, vs, at]

    @op("dict->nc")
    def _():
        d = to_dict(structure(1010))
        r = nappy.writeNADictToNC(d, "out.nc")
        return r, [d]

    @op("command")
    def _():
        from nappy.script.nc2csv import nc2csv
        with contextlib.redirect_stdout(io.StringIO()):
            r = nc2csv(["-i", "groups.nc", "-o", "out.csv", "--overwrite-metadata=ONAME,Cmd,MNAME,M", "-e", "w"])
        return r, [r]
    return O


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    os.environ.update(kw)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def clone(x):
    if isinstance(x, (list, tuple)):
        return type(x)(clone(y) for y in x)
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return x


def c22_scramble(objs, seen=None, depth=0):
    """Changes every mutable object in place, innermost first."""
    seen = seen if seen is not None else set()
    for x in list(objs):
        if id(x) in seen or depth > 12:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            c22_scramble(list(x.values()), seen, depth + 1)
            for k in list(x):
                x[k] = "changed" if not isinstance(x[k], (list, dict)) else x[k]
            x["added"] = ["changed"]
        elif isinstance(x, list):
            c22_scramble(x, seen, depth + 1)
            for i, v in enumerate(x):
                if not isinstance(v, (list, dict)):
                    x[i] = "changed"
            x.append("changed")
        elif isinstance(x, (tuple, set)):
            c22_scramble(list(x), seen, depth + 1)
        elif isinstance(x, np.ndarray):
            with contextlib.suppress(Exception):
                x[...] = 77
        elif type(x).__module__.startswith("xarray"):
            with contextlib.suppress(Exception):
                x.attrs.clear()
                x.attrs["changed"] = "changed"
            with contextlib.suppress(Exception):
                x.values[...] = 77
            with contextlib.suppress(Exception):
                x.encoding["changed"] = 1
            with contextlib.suppress(Exception):
                for c in x.coords.values():
                    c.attrs["changed"] = "changed"


def canon(x, depth=0):
    if depth > 12:
        return "..."
    if isinstance(x, dict):
        return ["dict"] + [[repr(k), canon(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [canon(y, depth + 1) for y in x]
    if isinstance(x, np.ndarray):
        return ["array", str(x.dtype), repr(x.tolist())]
    if type(x).__module__.startswith("xarray") and hasattr(x, "dims"):
        return ["xr", str(getattr(x, "name", "")), list(x.dims), canon(dict(x.attrs), depth + 1), canon(np.asarray(x.values), depth + 1),
                [[str(k), canon(np.asarray(c.values)), canon(dict(c.attrs))] for k, c in x.coords.items()]]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(map(repr, x))
    return repr(x)


def norm(t):
    import time
    t = c16.norm(t)
    now = time.time()
    for day in (0, 86400):
        d = time.gmtime(now - day)
        for f in ("%Y %m %d", "%Y, %m, %d"):
            t = t.replace(time.strftime(f, d), "TODAY")
        t = t.replace("%d %d %d" % d[:3], "TODAY").replace("[%d, %d, %d]" % d[:3], "TODAY")
    return t


INPUTS = re.compile(r"^out")


def perform(f):
    """One operation: its observable result as text; then its objects are changed and its output removed."""
    objs = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = f()
        val, objs = r if r is not None else (None, [])
        res = ["ok", canon(val)]
    except Exception as e:
        res = ["error", type(e).__name__, str(e)]
    files = []
    for n in sorted(c16.tree()):
        if os.path.basename(n).startswith("out"):
            if n.endswith(".nc"):
                files.append([n, c20.dump(n)])
            else:
                with open(n, "rb") as fh:
                    files.append([n, fh.read().decode("latin-1")])
            os.remove(n)
    c22_scramble(objs)
    return norm(json.dumps([res, files]))


def inputs():
    out = {}
    for n in sorted(c16.tree()):
        with open(n, "rb") as f:
            out[n] = h(f.read().decode("latin-1"))
    return out


# ------------------------------------------------------------------ library state

def state():
    """Fingerprint of the module-level data of the library and of process-wide settings."""
    parts = []
    for name, m in sorted(sys.modules.items()):
        if not (name == "nappy" or name.startswith("nappy.")) or m is None:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__.startswith("nappy"):
                    parts.append([name, k, [[a, canon(b)] for a, b in sorted(vars(v).items()) if isinstance(b, (list, dict, set, str, int, float, tuple))]])
            elif isinstance(v, types.FunctionType):
                parts.append([name, k, canon(v.__defaults__), canon(v.__dict__)])
            elif not callable(v):
                parts.append([name, k, re.sub(r"0x[0-9a-f]+", "", json.dumps(canon(v)))])
    parts += [os.getcwd(), repr(np.geterr()), sorted((k, v) for k, v in os.environ.items() if k.startswith("NAPPY"))]
    return h(json.dumps(parts))


# ------------------------------------------------------------------ new processes

def fresh(name):
    nappy                       # imported by common
    prepare()
    sys.stdout.write("\nRESULT" + perform(ops()[name]) + "\n")


def setup():
    from concurrent.futures import ThreadPoolExecutor
    names = list(ops())
    here = os.getcwd()
    code = "import sys; sys.path[:0] = %r; sys.dont_write_bytecode = True; import c22; c22.annotations(); c22.fresh(%r)"
    path = [p for p in sys.path if p]

    def one(i):
        d = os.path.join(here, "fresh%d" % i)
        os.mkdir(d)
        p = subprocess.run([sys.executable, "-c", code % (path, names[i])], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        shutil.rmtree(d)
        if "\nRESULT" not in p.stdout:
            return json.dumps(["harness", (p.stdout + p.stderr)[-1500:]])
        return p.stdout.split("\nRESULT", 1)[1].rstrip("\n")
    annotations()
    with ThreadPoolExecutor(8) as ex:
        for n, r in zip(names, ex.map(one, range(len(names)))):
            BASE[n] = r


def annotations():
    """The names of the annotations, from the file shipped with the library (without using the library)."""
    p = os.path.join(os.path.dirname(nappy.__file__), "config", "annotations.ini")
    ANN[:] = re.findall(r"^(\w+)\s*=", open(p).read(), re.M)


def cases(tier):
    names = list(ops())
    big = tier == "thorough"
    for label in API:
        yield dict(again=label)
    for i, a in enumerate(names):
        yield dict(first=a, then=names, depth=1)
        for j, b in enumerate(names):
            if big:
                yield dict(first=a, second=b, third=[c for k, c in enumerate(names) if (i + j + k) % 2 == 0])
            elif (i * 7 + j) % 8 == 0:
                yield dict(first=a, second=b, third=names[(i + j) % 2::2])


# ------------------------------------------------------------------ the tree

def node(table, start, history, plan, seen_states):
    """Runs the operations of plan[0] each in a fork of this state; plan[1:] below each. Returns the merged statistics."""
    out = dict(n=0, states=set(), fail=None)
    for name in plan[0]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = dict(n=1, states=set(), fail=None)
                got = perform(table[name])
                if got != BASE[name]:
                    res["fail"] = "after %s: %r differs from its result in a new process:\n%s\n-- new process --\n%s" % (history, name, *clip(got, BASE[name]))
                else:
                    now = inputs()
                    if now != start:
                        res["fail"] = "after %s, %r: input files changed: %s" % (history, name, sorted(k for k in set(now) | set(start) if now.get(k) != start.get(k)))
                res["states"].add(state())
                if not res["fail"] and len(plan) > 1:
                    sub = node(table, start, history + [name], plan[1:], seen_states)
                    res["n"] += sub["n"]
                    res["states"] |= sub["states"]
                    res["fail"] = sub["fail"]
            except BaseException as e:
                res = dict(n=1, states=set(), fail="after %s, %r: harness: %s" % (history, name, tb(e) if isinstance(e, Exception) else repr(e)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        res = pickle.loads(data) if data else dict(n=1, states=set(), fail="after %s, %r: the process died" % (history, name))
        out["n"] += res["n"]
        out["states"] |= res["states"]
        if res["fail"]:
            out["fail"] = res["fail"]
            return out
    return out


def clip(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    k = max(0, k - 200)
    return a[k:k + 900], b[k:k + 900]


def run(case):
    signal_off()
    table = ops()
    prepare()
    start = inputs()
    if "again" in case:
        return again(case["again"])
    if "then" in case:
        plan = [[case["first"]], case["then"]]
    else:
        plan = [[case["first"]], [case["second"]], case["third"]]
    bad = [n for n in BASE if BASE[n].startswith('["harness"')]
    if bad:
        return dict(fail="no result in a new process: %s %s" % (bad[0], BASE[bad[0]]))
    r = node(table, start, [], plan, None)
    return dict(fail=r["fail"], n=r["n"], transitions=r["n"], states=len(r["states"]), sig=sorted(r["states"]), traces=r["n"])


def again(label):
    """The same argument objects used three times."""
    fn, args, kw = API[label]
    a, k = clone(args), clone(kw)
    for i in range(3):
        got = perform(lambda: (getattr(nappy, fn)(*a, **k), []))
        if got != BASE[label]:
            return dict(fail="%r, call %d with the same arguments, differs from its result in a new process:\n%s\n-- new process --\n%s" % (label, i + 1, *clip(got, BASE[label])))
        if (a, k) != (args, kw):
            return dict(fail="%r changes its arguments to %s %s" % (label, a, k))
    return dict(n=3, transitions=3, sig="again" + h(BASE[label]))


def signal_off():
    import warnings
    warnings.simplefilter("ignore")
