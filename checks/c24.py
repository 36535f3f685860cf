from common import *
import c16
import contextlib
import importlib.util
import pickle
import sys
import threading
import time

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "stateless model checking of the real code: two threads run under a controlled scheduler with a scheduling point at every executed line of the library; all schedules with one preemption (and, at coarser points, two) are enumerated; results are compared with those of the operation run alone"
RULE = ("every pair of operations of the alphabet (read and write of every format with several formatting options and data, annotated writing, configuration look-ups of the default and of other files, class look-up, first uses in a new process and repeated uses) x which thread goes first x every preemption point of it (the other thread then runs to its end, or up to every point of its own after which the first continues). "
        "Oracle: each thread's result (dictionary read, bytes written, configuration returned, error) is the one of the operation alone. Distinct = distinct preempted source lines.")
BOUNDS = {"quick": "all pairs of look-ups and first uses and 36 pairs of readings and writings; 1 preemption at every executed line for look-ups and first uses, at the first two, middle and last executions of every line for reading and writing; 2 preemptions (at the first and last execution of each line) for look-ups", "thorough": "1 preemption at every line for all pairs of 24 operations; 2 preemptions at every function entry and the first and last execution of each line for 45 pairs"}
TIMEOUT = 880

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)


# ------------------------------------------------------------------ controlled scheduler

class Scheduler:
    """Runs two functions in two threads, one at a time. plan: list of (thread, number of points or None)."""

    def __init__(self, fns, plan, root, points=None, record=None):
        self.fns, self.plan, self.root = fns, plan, root
        self.points = points                     # per thread: set of point numbers that count, or None for all
        self.record = record
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.result = [None, None]
        self.raw = [0, 0]
        self.steps = 0                           # all points passed, by both threads
        self.seg = 0
        self.used = 0
        self.free = False
        self.where = []
        self.turn = plan[0][0]

    def wait(self, t):
        last, idle = self.steps, 0
        while not self.sem[t].acquire(timeout=0.02):
            if self.free:
                return
            if self.steps == last:
                idle += 1
                if idle >= 3:                    # the running thread is stuck (on a lock that this one holds): let both go on
                    self.free = True
                    return
            else:
                last, idle = self.steps, 0

    def to(self, t, o, frame):
        """Thread t hands over to thread o."""
        if self.done[o]:
            return
        if frame is not None:
            self.where.append("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        self.turn = o
        self.sem[o].release()
        self.wait(t)

    def point(self, t, frame, event):
        n = self.raw[t]
        self.raw[t] = n + 1
        self.steps += 1
        if self.record is not None:
            self.record.append((frame.f_code.co_filename, frame.f_lineno, event))
            return
        if self.free or self.seg >= len(self.plan):
            return
        tid, quota = self.plan[self.seg]
        if tid != t or quota is None:
            return
        if n >= quota:                           # quota: number of the point before which the thread is preempted
            self.seg += 1
            if self.seg < len(self.plan):
                o = self.plan[self.seg][0]
                if o != t:
                    self.to(t, o, frame)

    def body(self, t):
        root = self.root

        def local(frame, event, arg):
            if event == "line":
                self.point(t, frame, event)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            f = frame
            while f is not None:                 # nothing is preempted during an import, whose lock would be held
                if f.f_code.co_name == "<module>" or f.f_code.co_filename.startswith("<frozen importlib"):
                    return None
                f = f.f_back
            self.point(t, frame, "call")
            return local
        if self.turn != t:
            self.wait(t)
        sys.settrace(glob)
        try:
            self.result[t] = self.fns[t]()
        except Exception as e:
            self.result[t] = "error %s: %s" % (type(e).__name__, e)
        finally:
            sys.settrace(None)
            self.done[t] = True
            o = 1 - t
            while self.seg < len(self.plan) and self.plan[self.seg][0] == t:
                self.seg += 1
            self.turn = o
            self.sem[o].release()

    def run(self):
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fns))]
        for t in ths:
            t.start()
        end = time.time() + 60
        for t in ths:
            t.join(max(0.1, end - time.time()))
        if not all(self.done):
            self.result = ["no end" if not d else r for d, r in zip(self.done, self.result)]
        return self.result


# ------------------------------------------------------------------ operations

def other(d, k):
    """A different dataset of the same format."""
    def shift(x):
        if isinstance(x, list):
            return [shift(y) for y in x]
        return x + 0.125 * (k + 1) if isinstance(x, float) and 1 < abs(x) < 9000 else x
    d["V"] = shift(d["V"])
    d["ONAME"] = "Other %d" % k
    d["NCOM"] = ["comment of %d" % k] * (2 + k)
    d["NNCOML"] = len(d["NCOM"])
    return d


def dataset(ffi, k):
    for s in gen.small_structures():
        d = gen.build(s)
        if d["FFI"] == ffi:
            return to_dict(other(d, k))


WOPT = [dict(), dict(delimiter=",", float_format="%.3f"), dict(annotation=True), dict(annotation=True, delimiter=",", float_format="%g"), dict(no_header=True, float_format="%s")]


def operation(spec, k):
    """spec: [kind, ...]; k: thread number (its own files)."""
    kind = spec[0]
    if kind == "read":
        name = "in%d_%d.na" % (spec[1], k)

        def f():
            with nappy.openNAFile(name) as a:
                return repr((a.getNADict(), a.getVariables(), a.getNumHeaderLines()))
    elif kind == "write":
        d, name = dataset(spec[1], k), "out%d.na" % k

        def f():
            with nappy.openNAFile(name, "w", d) as a:
                a.write(**WOPT[spec[2]])
            with open(name) as g:
                return g.read()
    elif kind == "csv":
        name = "in%d_%d.na" % (spec[1], k)

        def f():
            nappy.convertNAToCSV(name, "out%d.csv" % k, annotation=True)
            with open("out%d.csv" % k) as g:
                return g.read()
    elif kind == "objects":
        # in-memory variables to files of at most three times each
        import numpy as np
        import xarray as xr
        t = xr.DataArray(np.arange(5.0) + 10 * k, dims=["t%d" % k], name="t%d" % k, attrs={"units": "s%d" % k})
        v = xr.DataArray(np.arange(5.0) * 3 + 100 * k, dims=["t%d" % k], coords={"t%d" % k: t}, name="v%d" % k, attrs={"units": "K%d" % k, "note": "of %d" % k})
        name = "obj%d.%s" % (k, spec[1])

        def f():
            fn = nappy.convertXarrayObjectsToNA if spec[1] == "na" else nappy.convertXarrayObjectsToCSV
            done = fn([v], [("source", "Source %d" % k)], name, size_limit=spec[2], annotation=spec[1] == "csv")
            return repr([(n, c16.norm(open(n).read())) for n in done])
    elif kind in ("getConfigDict", "getAnnotationsConfigDict", "getLocalAttributesConfigDict"):
        from nappy.utils import parse_config as pc
        fn = getattr(pc, kind)

        def f():
            return repr([fn(), fn()])
    elif kind == "default":
        from nappy import utils

        def f():
            return repr([utils.getDefault("default_delimiter"), utils.getDefault("comment_override_rule"), utils.getVersion()])
    elif kind == "otherconfig":
        from nappy.utils import parse_config as pc

        def f():
            return repr([pc.getConfigDict(os.path.abspath("other%d.ini" % k)), pc.getConfigDict(os.path.abspath("other%d.ini" % k))])
    elif kind == "class":
        from nappy.utils import common_utils as cu

        def f():
            return repr([cu.getNAFileClass(spec[1]).__name__, cu.readFFI("in%d_%d.na" % (spec[1], k)), cu.chooseFFI(dataset(spec[1], k))])
    elif kind == "module":
        # the configuration module by itself, with nothing loaded yet
        fn = spec[1]

        def f():
            m = COPY[0]
            return repr(getattr(m, fn)())
    else:
        raise ValueError(kind)
    return f


COPY = [None]


def fresh_module():
    from nappy.utils import parse_config as pc
    s = importlib.util.spec_from_file_location("parse_config_copy", pc.__file__)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    COPY[0] = m


LOOK = ["getConfigDict", "getAnnotationsConfigDict", "getLocalAttributesConfigDict"]


def pairs(big):
    """(label, op 0, op 1, new process for every schedule)"""
    for i, a in enumerate(LOOK):
        for b in LOOK[i:]:
            yield ["module", a], ["module", b], "module"
    cold = [["getAnnotationsConfigDict"], ["getLocalAttributesConfigDict"], ["getConfigDict"], ["otherconfig"], ["default"], ["write", 1001, 2], ["class", 2010]]
    for i, a in enumerate(cold):
        for b in cold[i:]:
            yield a, b, "cold"
    n = len(FFIS)
    for i, f in enumerate(FFIS):
        g = FFIS[(i + 4) % n]
        yield ["read", f], ["read", f], "warm"
        yield ["write", f, i % 2], ["write", f, 2 + i % 3], "warm"
        yield ["read", f], ["write", f if i % 2 else g, i % 5], "warm"
        if big or i % 3 == 0:
            yield ["read", f], ["read", g], "warm"
            yield ["write", f, 3], ["write", g, 1], "warm"
            if big or i == 3:
                yield ["csv", f], ["csv", g], "warm"
    yield ["write", 1010, 3], ["getAnnotationsConfigDict"], "warm"
    yield ["read", 1001], ["getConfigDict"], "warm"
    yield ["objects", "na", 2], ["objects", "na", 2], "warm"
    yield ["objects", "csv", None], ["objects", "csv", 2], "warm"
    if big:
        allops = [["read", f] for f in FFIS] + [["write", f, k % 5] for k, f in enumerate(FFIS)] + [["csv", 3010], ["otherconfig"], ["default"], ["getAnnotationsConfigDict"], ["class", 4010]]
        for i, a in enumerate(allops):
            for b in allops[i:]:
                yield a, b, "warm"


def cases(tier):
    big = tier == "thorough"
    seen = set()
    for a, b, kind in pairs(big):
        k = repr((a, b, kind))
        if k in seen:
            continue
        seen.add(k)
        yield dict(a=a, b=b, kind=kind, bound=1) if big or kind != "warm" else dict(a=a, b=b, kind=kind, bound=1, grain="some")
        if kind == "module" or kind == "cold" and (big or a[0] not in ("write",) and b[0] not in ("write",)):
            yield dict(a=a, b=b, kind=kind, bound=2, grain="few")
    if big:
        for a, b, kind in pairs(False):
            if kind == "warm":
                for part in range(4):
                    yield dict(a=a, b=b, kind=kind, bound=2, grain="calls", part=part)


# ------------------------------------------------------------------ exploration

def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
        except BaseException as e:
            out = ("harness", repr(e) + (tb(e) if isinstance(e, Exception) else ""))
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("harness", "the process died")


def solo(case, t, root):
    """Result and points of one operation alone."""
    if case["kind"] == "module":
        fresh_module()
    rec = []
    f = operation(case["a" if t == 0 else "b"], t)
    if case["kind"] == "warm":
        f()
    s = Scheduler([f], [(0, None)], root, record=rec)
    return s.run()[0], rec


def thin(rec, grain):
    """The points at which a preemption is tried."""
    n = len(rec)
    if grain is None:
        return list(range(1, n))
    first, last = {}, {}
    for i, (f, l, e) in enumerate(rec):
        first.setdefault((f, l), i)
        last[f, l] = i
    few = sorted((set(first.values()) | set(last.values())) - {0})
    if grain == "few":
        return few
    if grain == "some":
        occ = {}
        for i, (f, l, e) in enumerate(rec):
            occ.setdefault((f, l), []).append(i)
        return sorted({x for v in occ.values() for x in v[:2] + v[len(v) // 2:len(v) // 2 + 1] + v[-1:]} - {0})
    calls = {}
    for i, (f, l, e) in enumerate(rec):
        if e == "call":
            calls.setdefault((f, l), []).append(i)
    return sorted(({x for v in calls.values() for x in v[:3] + v[-1:]} | set(few[::3])) - {0})


def run(case):
    root = os.path.dirname(os.path.abspath(nappy.__file__)) + os.sep
    for k in (0, 1):
        put("other%d.ini" % k, "[main]\nDEBUG = False\nx = %d\n[s%d]\na&b = c&d\n" % (k, k))
        for op in (case["a"], case["b"]):
            if op[0] in ("read", "csv", "class"):
                name, ffi = "in%d_%d.na" % (op[1], k), op[1]
                in_child(lambda: write_na(name, dataset(ffi, k)) and None)
    base = [in_child(lambda t=t: solo(case, t, root)) for t in (0, 1)]
    for b in base:
        if b[0] == "harness" or b[0] is None:
            return dict(fail="alone: %s" % (b[1],))
        if isinstance(b[0], str) and b[0].startswith("error"):
            return dict(fail="alone: %s" % b[0])
    pts = [thin(b[1], case.get("grain")) for b in base]
    plans = []
    for t in (0, 1):
        o = 1 - t
        if case["bound"] == 1:
            plans += [[(t, i), (o, None), (t, None)] for i in pts[t]]
        else:
            plans += [[(t, i), (o, j), (t, None), (o, None)] for i in pts[t] for j in pts[o]]
    if "part" in case:
        plans = plans[case["part"]::4]
    want = [base[0][0], base[1][0]]

    def one(plan):
        if case["kind"] == "module":
            fresh_module()
        s = Scheduler([operation(case["a"], 0), operation(case["b"], 1)], plan, root)
        res = s.run()
        for t in (0, 1):
            if res[t] != want[t]:
                return ("bad", "thread %d (%s) with thread %d (%s), schedule %s, switches at %s:\n%s\n-- alone --\n%s" % ((t, case["ab"[t]], 1 - t, case["ba"[t]], plan, s.where) + clip(res[t], want[t])), s.steps, s.where[:1])
        return ("ok", None, s.steps, s.where[:1])

    def many(chunk):
        steps, where = 0, set()
        for i, plan in enumerate(chunk):
            st, msg, n, w = one(plan)
            steps += n
            where |= set(w)
            if st == "bad":
                return ("bad", msg, i + 1, steps, where)
        return ("ok", None, len(chunk), steps, where)

    chunks = [[p] for p in plans] if case["kind"] == "cold" else [plans[i:i + 500] for i in range(0, len(plans), 500)]
    n = steps = 0
    where = set()
    for c in chunks:
        r = in_child(lambda: many(c))
        if r[0] == "harness":
            return dict(fail="schedules %s...: %s" % (c[0], r[1]), n=n)
        n += r[2]
        steps += r[3]
        where |= r[4]
        if r[0] == "bad":
            return dict(fail=r[1], n=n, transitions=steps, traces=n)
    return dict(n=n, transitions=steps, states=len(where), traces=n, sig=sorted(where), count={"schedules": n})


def clip(a, b):
    a, b = str(a), str(b)
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    k = max(0, k - 150)
    return a[k:k + 500], b[k:k + 500]
