"""Development tool: mutates nappy systematically and finds the mutants that neither the checks nor the tests notice.

  mutants.py list                 numbers of mutants per file
  mutants.py run OUT [lo hi]      for every mutant a strided part of every check (one process per core); one JSON line per mutant in OUT
  mutants.py show N               the mutant as a diff
Never used by a check; works in copies under /tmp/mut only.
"""
import ast
import difflib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["na_file/na_core.py", "na_file/na_file.py"] + ["na_file/na_file_%d.py" % f for f in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)] + [
    "utils/list_manipulator.py", "utils/text_parser.py", "utils/right_strip.py", "utils/parse_config.py", "utils/common_utils.py", "utils/compare_na.py", "nappy_api.py",
    "nc_interface/na_content_collector.py", "nc_interface/na_to_nc.py", "nc_interface/na_to_xarray.py", "nc_interface/nc_to_na.py", "nc_interface/xarray_objs_to_na_files.py",
    "nc_interface/xarray_to_na.py", "nc_interface/xarray_utils.py", "script/na2nc.py", "script/nc2csv.py", "script/nc2na.py"]
CORE = ["c01", "c02", "c03", "c05", "c09", "c07", "c08", "c10", "c04", "c06", "c11", "c13", "c26", "c12", "c21", "c16", "c28", "c25", "c14", "c15", "c17", "c18", "c19", "c20", "c23", "c27", "c22"]
CONV = ["c11", "c13", "c12", "c28", "c25", "c15", "c14", "c23", "c17", "c18", "c16", "c19", "c26", "c27", "c20", "c22", "c08", "c07", "c21", "c06"]
ORDER = {"na_file": CORE, "utils": CORE, "nc_interface": CONV, "script": ["c20"], "nappy_api.py": CONV}
WORK = os.environ.get("WORK", "/tmp/mut")
BUDGET = float(os.environ.get("BUDGET", "1.6"))


class Gen(ast.NodeVisitor):
    """Collects (start, end, replacement) in byte offsets of the source."""

    def __init__(self, src):
        self.src = src.encode()
        self.lines = [0]
        for l in self.src.split(b"\n"):
            self.lines.append(self.lines[-1] + len(l) + 1)
        self.out = []

    def pos(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.src[a:b].decode()

    def rep(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, n.lineno))

    def generic_visit(self, n):
        t = self.text
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
            for o in sw.get(type(n.ops[0]), []):
                self.rep(n, "%s %s %s" % (t(n.left), o, t(n.comparators[0])), "cmp")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            self.rep(n, "(" + o.join("(%s)" % t(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                self.rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % t(v) for v in rest) + ")", "boolterm")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.rep(n, "(%s)" % t(n.operand), "not")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.rep(n.test, "(not (%s))" % t(n.test), "ifnot")
            self.rep(n.test, "True", "iftrue") if not isinstance(n, ast.While) else None
            self.rep(n.test, "False", "iffalse")
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: None}
            o = sw.get(type(n.op))
            if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                self.rep(n, "%s %s %s" % (t(n.left), o, t(n.right)), "arith")
            if isinstance(n.op, ast.Add):
                self.rep(n, t(n.left), "addl")
                self.rep(n, t(n.right), "addr")
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            if isinstance(n.value, int):
                self.rep(n, str(n.value + 1), "int")
                if n.value:
                    self.rep(n, str(n.value - 1), "int")
            elif isinstance(n.value, str) and n.value and n.lineno == n.end_lineno:
                self.rep(n, '""', "str")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            self.rep(n, str(not n.value), "flag")
        if isinstance(n, ast.Slice):
            if n.lower:
                self.rep(n.lower, "(%s) + 1" % t(n.lower), "slice")
            if n.upper:
                self.rep(n.upper, "(%s) + 1" % t(n.upper), "slice")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in ("strip", "rstrip", "lstrip", "lower", "upper", "copy") and not n.args:
                    self.rep(n, t(f.value), "callid")
                if f.attr == "strip" and not n.args:
                    self.rep(n, t(f.value) + ".lstrip()", "strip")
                    self.rep(n, t(f.value) + ".rstrip()", "strip")
                if f.attr == "deepcopy" and n.args:
                    self.rep(n, t(n.args[0]), "callid")
                    self.rep(n, "copy.copy(%s)" % t(n.args[0]), "shallow")
                if f.attr == "replace" and len(n.args) == 2:
                    self.rep(n, t(f.value), "callid")
            if isinstance(f, ast.Name):
                if f.id in ("sorted", "list", "reversed", "int", "float", "str", "abs", "set", "tuple") and len(n.args) == 1 and not n.keywords:
                    self.rep(n, "(%s)" % t(n.args[0]), "callid")
                if f.id in ("min", "max"):
                    self.rep(f, {"min": "max", "max": "min"}[f.id], "minmax")
                if f.id == "range" and n.args:
                    self.rep(n.args[-1], "(%s) - 1" % t(n.args[-1]), "range")
                    if len(n.args) == 1:
                        self.rep(n.args[0], "1, (%s)" % t(n.args[0]), "range")
            for k in n.keywords:
                if k.arg:
                    rest = [t(a) for a in n.args] + [("%s=%s" % (q.arg, t(q.value)) if q.arg else "**" + t(q.value)) for q in n.keywords if q is not k]
                    self.rep(n, "%s(%s)" % (t(f), ", ".join(rest)), "kw")
        if isinstance(n, (ast.For, ast.comprehension)) and not isinstance(n.iter, ast.Constant):
            self.rep(n.iter, "list(%s)[1:]" % t(n.iter), "iter")
            self.rep(n.iter, "list(%s)[:-1]" % t(n.iter), "iter")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                self.rep(n, "pass", "del")
        if isinstance(n, ast.Return) and n.value is not None:
            self.rep(n.value, "None", "ret")
        super().generic_visit(n)


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, "nappy", f), newline="").read()
        tree = ast.parse(src)
        for n in ast.walk(tree):                       # no docstrings
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                n.body[0] = ast.Pass(lineno=n.body[0].lineno, col_offset=n.body[0].col_offset, end_lineno=n.body[0].lineno, end_col_offset=n.body[0].col_offset)
        g = Gen(src)
        g.visit(tree)
        seen = set()
        for a, b, new, kind, line in sorted(g.out, key=lambda x: (x[4], x[0], x[1])):
            if (a, b, new) in seen or g.src[a:b].decode() == new:
                continue
            seen.add((a, b, new))
            l = g.src[g.lines[line - 1]:g.lines[line]].decode()
            if l.lstrip().startswith(("print(", "import ", "from ", "raise ", "warnings.", "logging")) and kind in ("str", "addl", "addr", "kw"):
                continue
            t = (g.src[:a] + new.encode() + g.src[b:]).decode()
            try:
                compile(t, f, "exec")
            except SyntaxError:
                continue
            out.append((f, line, kind, t))
    return out


def show(m):
    f, line, kind, t = m
    src = open(os.path.join(REPO, "nappy", f), newline="").read()
    return "".join(l for l in difflib.unified_diff(src.splitlines(True), t.splitlines(True), f, f, n=2))


def subset(mod, repo, budget, stride_key):
    """Child process: part of the cases of one check; exit code 0 quiet, 1 violation."""
    import importlib
    import resource
    import runner
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    m = importlib.import_module(mod)
    if hasattr(m, "setup"):
        m.setup()
    t0 = time.time()
    for case in json.load(open(os.path.join(WORK, "cases", mod + ".json"))):
        r = runner.run_one(m, case, min(5, getattr(m, "TIMEOUT", 20)) if mod not in ("c22", "c04", "c06", "c21", "c09", "c10") else 30)
        runner.clean(".")
        if r.get("fail"):
            return r["fail"].split("\n")[0][:200] + " @ " + json.dumps(case, default=str)[:200]
        if time.time() - t0 > budget:
            break
    return None


def prepare():
    """Some cases of each check, spread evenly."""
    code = """
import sys, json, random
sys.dont_write_bytecode = True
sys.path[:0] = [%r + '/checks', %r + '/lib', '/repo']
import importlib
m = importlib.import_module(sys.argv[1])
c = list(m.cases('quick'))
random.Random(7).shuffle(c)
json.dump(c[:%s], open('%s/cases/%%s.json' %% sys.argv[1], 'w'))
""" % (V, V, os.environ.get("CASES", "1500"), WORK)
    os.makedirs(WORK + "/cases", exist_ok=True)
    ps = [subprocess.Popen([sys.executable, "-c", code, c], cwd=WORK) for c in CORE]
    assert not any(p.wait() for p in ps)


def evaluate(n, m, wdir, checks, budget):
    f = m[0]
    pkg = os.path.join(wdir, "nappy")
    for g in FILES:
        shutil.copyfile(os.path.join(REPO, "nappy", g), os.path.join(pkg, g))
    with open(os.path.join(pkg, f), "w", newline="") as fh:
        fh.write(m[3])
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.close(r)
        os.dup2(w, 1)
        os.close(w)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        os.dup2(dn, 2)
        try:
            child(wdir, checks, budget)
        except BaseException as e:
            os.write(1, json.dumps(["import", repr(e)[:200]]).encode() + b"\n")
        os._exit(0)
    os.close(w)
    import select
    end = time.time() + 90 + 8 * budget * len(checks)
    b = b""
    while True:
        ok = select.select([r], [], [], max(0, end - time.time()))[0]
        if not ok:
            b = json.dumps(["timeout", ""]).encode()
            break
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    try:
        return json.loads(b.decode().strip().split("\n")[-1])
    except Exception:
        return ["import", b[-200:].decode()]


def child(wdir, checks, budget):
    os.environ["NAPPY_REPO"] = wdir
    os.environ["TZ"] = "UTC"
    sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "lib"), wdir]
    scratch = os.path.join(wdir, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.mkdir(scratch)
    os.environ["HOME"] = scratch
    import runner
    import common                                         # nappy, xarray
    real = os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    for c in checks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for k in (0, 1, 2):
                os.dup2(dn, k)
            d = os.path.join(scratch, c)
            os.mkdir(d)
            os.chdir(d)
            try:
                x = subset(c, wdir, budget, 0)
                os.write(w, json.dumps(x).encode()[:3000])
            except BaseException as e:
                os.write(w, json.dumps("crash " + repr(e)[:200]).encode())
            os._exit(0)
        os.close(w)
        b = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            b += x
        os.close(r)
        os.waitpid(pid, 0)
        try:
            x = json.loads(b)
        except Exception:
            x = "died"
        if x is not None:
            os.write(real, json.dumps([c, x]).encode() + b"\n")
            return
    os.write(real, json.dumps([None, None]).encode() + b"\n")


def tests(wdir):
    T = wdir + ".t"
    shutil.rmtree(T, ignore_errors=True)
    os.mkdir(T)
    shutil.copytree(REPO + "/tests", T + "/tests", symlinks=True)
    shutil.copytree(REPO + "/example_files", T + "/example_files")
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=wdir, GIT_ALLOW_PROTOCOL="file", GIT_TERMINAL_PROMPT="0",
               NAPPY_AUTO_UPDATE_TEST_DATA="false", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    try:
        o = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + T, "--basetemp=" + T + "/tmp", "-rA", "tests"], cwd=T, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=200).stdout
    except subprocess.TimeoutExpired:
        return False
    import re
    ok = {m.group(1).replace("/", ".").replace(".py::", "::") for m in re.finditer(r"^PASSED (\S+)", o, re.M)}
    b = json.load(open("/opt/vp/BASELINE.json"))
    return all(t in ok for t in (b.get("stable") or b.get("passed")))


def run(out, lo, hi, jobs=8):
    ms = mutants()
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["n"] for l in open(out)}
    todo = [n for n in range(lo, min(hi, len(ms))) if n not in done]
    only = os.environ.get("ONLY")
    if only:
        todo = [n for n in json.load(open(only)) if n not in done]
    import multiprocessing
    import random
    random.Random(1).shuffle(todo)
    q = multiprocessing.Queue()
    for n in todo:
        q.put(n)
    for _ in range(jobs):
        q.put(None)
    lock = multiprocessing.Lock()

    prepare()

    def work(k):
        import numpy, xarray, netCDF4, cftime, pandas, configparser, getopt          # noqa: shared by the mutants, nappy is not
        wdir = WORK + "/w%d" % k
        shutil.rmtree(wdir, ignore_errors=True)
        shutil.copytree(REPO, wdir, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests", "doc", "example_files"))
        kills = {}
        while True:
            n = q.get()
            if n is None:
                break
            m = ms[n]
            order = os.environ["CHECKS"].split() if "CHECKS" in os.environ else ORDER[m[0].split("/")[0]]
            hot = kills.setdefault(m[0], {})
            order = sorted(order, key=lambda c: -hot.get(c, 0)) if sum(hot.values()) > 8 else order
            t0 = time.time()
            r = evaluate(n, m, wdir, order, BUDGET)
            if r[0] in order:
                hot[r[0]] = hot.get(r[0], 0) + 1
            rec = dict(n=n, f=m[0], line=m[1], kind=m[2], by=r[0], what=r[1], t=round(time.time() - t0, 1))
            if r[0] is None:
                rec["tests"] = tests(wdir)
            with lock:
                with open(out, "a") as fh:
                    fh.write(json.dumps(rec) + "\n")
        shutil.rmtree(wdir, ignore_errors=True)

    ps = [multiprocessing.Process(target=work, args=(k,)) for k in range(jobs)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        import collections
        ms = mutants()
        print(len(ms), collections.Counter(m[0] for m in ms))
    elif a[0] == "show":
        ms = mutants()
        for n in a[1:]:
            print("#", n, ms[int(n)][2])
            print(show(ms[int(n)]))
    elif a[0] == "run":
        run(a[1], int(a[2]) if len(a) > 2 else 0, int(a[3]) if len(a) > 3 else 10 ** 9)
