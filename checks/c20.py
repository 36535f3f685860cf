from common import *
from nch import make_nc
import c16
import contextlib
import io
import netCDF4
import runpy
import shutil
import subprocess
import sys

import importlib

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of command lines (every combination of up to k documented options over small argument alphabets) on the real commands, differentially against the API call the documentation gives for them"
RULE = ("nc2na, nc2csv and na2nc x every combination of documented options up to the bound, with every value of the option's alphabet (values that make the API fail included) x order and spelling of the arguments x started as a function call, as a script, as the installed entry point and (sample of the routes) in a process of its own. "
        "Oracle: the API call with the documented meaning, run in an identical directory: same set of files with the same bytes (conversion timestamps masked; NetCDF content compared completely), or both fail and leave the same files; --names-only prints every name and writes nothing; every unknown, surplus, incomplete or missing option leaves the directory untouched. Distinct = distinct outputs.")
BOUNDS = {"quick": "all combinations of at most 2 options (all flags together) on 3 datasets / 3 files, all 4 routes rotated", "thorough": "all combinations of at most 3 options x 5 datasets x 3 in-process routes"}
TIMEOUT = 120

KINDS = ["groups", "miss", "aux1010", "both", "d2aux"]
NC = {
    "-v": ["V", "v\\tg", "*", "v", "v,g", "nosuch", "b", "v, g", "", "v,", "g,v,g"],
    "--ffi": ["1001", "1010", "2010", "77", "0", "-1001"],
    "-f": ["%.3f", "%8.2e", "%g", "", "%s ", "%.2f\\t", "'%g'", "%+.3e"],
    "-d": [",", ";", "\t", "  ", " , ", ", ", "", "\\t", "\t", " \\ ", "%", '"', "\\x2c ", "é"],
    "-l": ["1", "3", "100", "0", "-1", "007"],
    "-e": ["v", "g,w", "nosuch", "", ",v"],
    "--overwrite-metadata": ["ONAME,Me", "ORG,A B,MNAME,", "DATE,x", "SNAME,s1,VNAME,n", "odd", "MNAME,  my mission ,ONAME,007", "ORG,a=b;c", "SNAME,\"q\" $HOME ~ \\n \\t %s %41 é * ?,ORG,'o'", "MNAME,MNAME", "mname,low,ONAME ,x"],
    "--names-only": [None], "--no-header": [None], "--annotated": [None],
    "-o": ["out.na", "sub/o.txt", "noext", "a b.c.na", "$HOME.na", "~x.na", "b\\ta.na", "é.na", "%d.na"],
}
NA = {
    "-m": ["w", "a"],
    "-g": ["foo,bar", "a,b,institution,Mine", "odd", "version,007,level,2", "x, 1.50 ,y,None", "q,\"q\" $HOME ~ \\n %s é,w,[1]"],
    "-r": ["VN1,new", "VN1,n1,VN2,n2", "nosuch,x", "odd", "VN1, new ,VN2,n_7", "VN1,VN1", "VN1,New Name", "vn1,a\\b", "VN1,VN2"],
    "-t": ["seconds since 1999-01-01 00:00:00", "hours since 2003-04-30 10:00:00", "furlongs", "", "'days since 2000-01-01'", " days since 2000-1-1"],
    "-n": [None],
    "-o": ["out.nc", "sub/o.cdf", "there.nc"],
}
NAMES = ["in.na", "in.dat", "dir.na/in", "a.b.na", "x.na.txt"]
ROUTES = ["fun", "script", "entry"]
BAD = {
    "nc2na": [["-x"], ["--unknown"], ["--limit_ffi_1001_rows=2"], ["-q", "1"], ["--ffi"], ["-o"], ["stray"], ["--ffi=abc"], ["-l", "two"], ["-h"], ["--overwrite-metadata=a"], ["--names=1"], ["--delimiter=,"], ["--ffi=1001", "stray", "-e", "v"]],
    "nc2csv": [["-x"], ["--unknown"], ["-q", "1"], ["--ffi"], ["-o"], ["stray"], ["-d", ","], ["-d", ";"], ["-d;"], ["-d,"], ["-h"], ["-l", "two"], ["--delimiter=,"], ["--overwrite-metadata=a,b,c"]],
    "na2nc": [["-x"], ["-q", "1"], ["-o"], ["stray"], ["-h"], ["-g", "a"], ["-r", "a,b,c"], ["--mode=w"], ["-v", "1"], ["-a", "1"], ["-f", "%g"], ["-t"], ["-m"]],
}


def combos_upto(opts, k):
    names = list(opts)
    for r in range(k + 1):
        for c in itertools.combinations(names, r):
            for vals in itertools.product(*[range(len(opts[o])) for o in c]):
                yield [[o, opts[o][v]] for o, v in zip(c, vals)]


def cases(tier):
    big = tier == "thorough"
    k = 3 if big else 2
    i = 0
    for cmd in ("nc2na", "nc2csv", "na2nc"):
        opts = dict(NA if cmd == "na2nc" else NC)
        if cmd == "nc2csv":
            del opts["-d"]
        for b in BAD[cmd] + [None, []]:
            for r in ROUTES + ["process"]:
                yield dict(cmd=cmd, bad=b, route=r, src=0)
        allc = list(combos_upto(opts, k))
        if cmd != "na2nc":
            f = [[x, None] for x in ("--names-only", "--no-header", "--annotated")]
            allc += [f, f + [["-l", "3"]], f[1:] + [["-l", "1"], ["-o", "sub/o.txt"]], f[1:] + [["-f", "%.3f"], ["-e", "v"]]]
        for j, c in enumerate(allc):
            for src in range(5 if big else 3):
                if not big and len(c) == 2 and (j + src) % 3 and not (c[0][0] in ("-o", "-m", "-l") and c[1][0] in ("-o", "-m")):
                    continue
                if big and len(c) == 3 and (j + src) % 5:
                    continue
                i += 1
                if big and len(c) < 3:
                    for r in ROUTES:
                        yield dict(cmd=cmd, opts=c, route=r, src=src, style=i % 4)
                else:
                    yield dict(cmd=cmd, opts=c, route=ROUTES[i % 3], src=src, style=i // 3 % 4)
                if len(c) == 1 and src == 0:
                    yield dict(cmd=cmd, opts=c, route="process", src=src, style=i % 4)


# ------------------------------------------------------------------ inputs

def prepare(case):
    """An identical input tree in the current directory; returns the name of the input."""
    os.makedirs("sub", exist_ok=True)
    if case["cmd"] != "na2nc":
        make_nc("in.nc", c16.build(dict(n=4, kind=KINDS[case["src"]])))
        put("out.na", "older\n")
        return "in.nc"
    ss = [d for d in map(gen.build, gen.small_structures()) if d["FFI"] not in (2110, 2160, 2310)]
    d = ss[(case["src"] * 2) % len(ss)]
    d["XNAME"] = ["Time in seconds (no unit given)"] + list(d["XNAME"][1:]) if case["src"] % 2 == 0 else d["XNAME"]
    d["VNAME"] = ["VN%d (m)" % (i + 1) for i in range(len(d["VNAME"]))]
    name = NAMES[case["src"] % len(NAMES)]
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    write_na(name, to_dict(d))
    with netCDF4.Dataset("there.nc", "w") as ds:
        ds.setncattr("institution", "older")
        ds.createDimension("older_axis", 2)
        ds.createVariable("older", "f8", ("older_axis",))[:] = [1, 2]
    return name


def files():
    out = {}
    for n in sorted(c16.tree()):
        if n.endswith(".nc") or n.endswith(".cdf"):
            try:
                out[n] = dump(n)
                continue
            except Exception:
                pass
        with open(n, "rb") as f:
            out[n] = c16.norm(f.read().decode("latin-1"))
    return out


def dump(n):
    with netCDF4.Dataset(n) as ds:
        ds.set_auto_maskandscale(False)
        att = lambda o: [(k, c16.norm(repr(o.getncattr(k)))) for k in o.ncattrs()]
        return repr((ds.data_model, [(k, len(v), v.isunlimited()) for k, v in ds.dimensions.items()], att(ds),
                     [(k, str(v.dtype), v.dimensions, att(v), v[...].tolist()) for k, v in ds.variables.items()]))


# ------------------------------------------------------------------ the two sides

def pairs(s):
    t = s.split(",")
    if len(t) % 2:
        raise ValueError("odd number of items")
    return list(zip(t[::2], t[1::2]))


def api(case, name):
    kw = {}
    if case["cmd"] == "na2nc":
        kw["time_warning"] = True
        for o, v in case["opts"]:
            if o == "-m":
                kw["mode"] = v
            elif o == "-g":
                kw["global_attributes"] = pairs(v)
            elif o == "-r":
                kw["rename_variables"] = dict(pairs(v))
            elif o == "-t":
                kw["time_units"] = v
            elif o == "-n":
                kw["time_warning"] = False
            elif o == "-o":
                kw["nc_file"] = v
        return nappy.convertNAToNC(name, **kw)
    out = None
    for o, v in case["opts"]:
        if o == "-v":
            kw["var_ids"] = v.split(",")
        elif o == "-e":
            kw["exclude_vars"] = v.split(",")
        elif o == "--ffi":
            kw["requested_ffi"] = int(v)
        elif o == "-f":
            kw["float_format"] = v
        elif o == "-d":
            kw["delimiter"] = v
        elif o == "-l":
            kw["size_limit"] = int(v)
        elif o == "--overwrite-metadata":
            kw["na_items_to_override"] = dict(pairs(v))
        elif o == "--names-only":
            kw["only_return_file_names"] = True
        elif o == "--no-header":
            kw["no_header"] = True
        elif o == "--annotated":
            kw["annotation"] = True
        elif o == "-o":
            out = v
    return (nappy.convertNCToCSV if case["cmd"] == "nc2csv" else nappy.convertNCToNA)(name, out, **kw)


def argv(case, name):
    items = []
    st = case.get("style", 0)
    for o, v in case["opts"]:
        if v is None:
            items.append([o])
        elif o.startswith("--"):
            items.append([o + "=" + v] if st % 2 == 0 else [o, v])
        else:
            items.append([o, v] if st % 2 == 0 or v.startswith(" ") or not v else [o + v])
    inp = ["-i", name] if st < 3 else ["-i" + name]
    if st == 1:
        items.reverse()
    items.insert({0: len(items), 1: 0, 2: len(items) // 2, 3: 0}[st], inp)
    return [x for it in items for x in it]


def start(cmd, args, route):
    """Runs the command; returns (printed text, error)."""
    import nappy.script
    path = os.path.join(os.path.dirname(nappy.script.__file__), cmd + ".py")
    if route == "process":
        p = subprocess.run([sys.executable, path] + args, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(nappy.__file__))))
        return p.stdout, p.stderr if p.returncode else None
    buf, errs = io.StringIO(), None
    old = sys.argv
    with contextlib.redirect_stdout(buf):
        try:
            if route == "fun":
                getattr(importlib.import_module("nappy.script." + cmd), cmd)(list(args))
            elif route == "entry":
                sys.argv = ["/usr/bin/" + cmd] + args
                getattr(importlib.import_module("nappy.script." + cmd), cmd)()
            else:
                sys.argv = [path] + args
                runpy.run_path(path, run_name="__main__")
        except SystemExit as e:
            errs = "exit" if e.code else None
        except Exception as e:
            errs = err(e)
        finally:
            sys.argv = old
    return buf.getvalue(), errs


def run(case):
    for side in ("api", "cli"):
        os.mkdir(side)
    home = os.getcwd()
    os.chdir("cli")
    try:
        name = prepare(case)
        before = files()
        if "opts" not in case:
            bad = case["bad"]
            args = [] if bad == [] else ["-o", "some.out"] if bad is None else (["-i", name] + bad)
            out, e = start(case["cmd"], args, case["route"])
            if files() != before:
                new = {k for k, v in files().items() if before.get(k) != v} | set(before) - set(files())
                return dict(fail="%s %s (%s) changed %s" % (case["cmd"], args, case["route"], sorted(new)))
            return dict(sig=h(case["cmd"] + repr(args)))
        args = argv(case, name)
        out, e = start(case["cmd"], args, case["route"])
        got = files()
        os.chdir(os.path.join(home, "api"))
        prepare(case)
        res, ea = None, None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                res = api(case, name)
            except Exception as x:
                ea = err(x)
        exp = files()
        lab = "%s %s (%s)" % (case["cmd"], args, case["route"])
        if got != exp:
            diff = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))
            return dict(fail="%s: %s differ from the API's: %s\n-- API --\n%s" % (lab, diff, str(got.get(diff[0]))[:900], str(exp.get(diff[0]))[:900]) + "\nfailures: %r, API %r" % (e, ea))
        if ea is None and e is not None:
            return dict(fail="%s failed (%s) but the API call does not" % (lab, e))
        names = [o for o, v in case["opts"]]
        if "--names-only" in names:
            if got != before:
                return dict(fail="%s changed files" % lab)
            gone = [x for x in res or [] if x not in out]
            if gone:
                return dict(fail="%s does not print the names %s" % (lab, gone))
        if ea is not None and got == before and e is None and case["route"] == "fun" and "Successfully" in out:
            return dict(fail="%s reports success but nothing was written" % lab)
        if case["cmd"] == "nc2csv" and ea is None and "--no-header" not in names:
            for k in got:
                if got[k] != before.get(k) and "," not in got[k].split("\n")[0]:
                    return dict(fail="%s: %s is not separated by commas" % (lab, k))
        return dict(n=2, sig=h(repr(sorted(got.items()))), count={"failing_alike": 1 if ea else 0, "files": len(got) - len(before)})
    finally:
        os.chdir(home)
