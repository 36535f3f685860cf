"""Common driver of all checks.

A check module in /verif/checks defines
  ID, LEVEL, RULE
  cases(tier)  -> iterable of JSON-able case descriptors in a fixed order, simplest first (the complete bounded space)
  run(case)    -> None, or a dict with any of
                    fail:   text of the violation (None if the case holds)
                    key:    stable text naming the failing input (for the known-findings file)
                    n:      number of evaluations the case stands for (default 1)
                    sig:    hashable outcome signature; distinct signatures are counted as distinct non-trivial outcomes
                    states, transitions, traces: counters (model checking)
Optional: setup() run once in the parent before forking, TIMEOUT seconds per case, MEM bytes per worker, CONFIG assumptions list.

Forked workers take the cases one by one from a common queue; results are merged in case order, so the first reported violation is the simplest one.
"""
import argparse
import contextlib
import hashlib
import importlib
import itertools
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NAPPY_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

KNOWN = os.path.join(VERIF, "known_findings.txt")
MAXFAIL = 12          # stop after this many unlisted violations


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def known_findings(pid):
    """Entries `finding: property=<id> key=<key> :: <text>` of this property: {key: text}."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid) and "key=" in line:
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def run_one(mod, case, timeout):
    """Runs one case under a time limit; every escape of an exception from run() is a harness error and reported as such."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        r = mod.run(case) or {}
    except CaseTimeout:
        r = dict(fail="no answer within %g s" % timeout)
    except MemoryError:
        r = dict(fail="memory limit exceeded")
    except Exception:
        r = dict(fail="unexpected exception\n" + traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def worker(mod, cases, k, qfd, wfd, timeout, mem, base):
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    err = os.open(os.path.join(base, "stderr.%d" % k), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 2)
    out = os.fdopen(wfd, "wb")
    now = open(os.path.join(base, "now.%d" % k), "wb")
    scratch = os.path.join(base, "w%d" % k)
    os.mkdir(scratch)
    os.chdir(scratch)
    fails = 0
    last = time.time()
    while True:
        b = os.read(qfd, 4)                              # the number of the next case nobody has taken
        if len(b) < 4:
            break
        i = int.from_bytes(b, "little")
        case = cases[i]
        now.seek(0)
        now.write(b)
        now.flush()
        day = time.localtime()[:3]
        r = run_one(mod, case, timeout)
        clean(scratch)
        if r.get("fail") and time.localtime()[:3] != day:
            r = run_one(mod, case, timeout)              # dates in the outputs changed at midnight
            clean(scratch)
        if r.get("fail"):
            fails += 1
        pickle.dump((i, r, case if (r.get("fail") or i < 4) else None), out)
        if r.get("fail") or time.time() - last > 0.5:
            out.flush()
            last = time.time()
        if fails > 60:
            break
    pickle.dump((-1, None, None), out)
    out.flush()
    os._exit(0)


def clean(d):
    for name in os.listdir(d):
        p = os.path.join(d, name)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            with contextlib.suppress(OSError):
                os.unlink(p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--all", action="store_true", help="report every violation (development)")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="nappyverif-")
    os.environ["TZ"] = "UTC"
    os.environ["HOME"] = base
    time.tzset()
    try:
        rc = drive(a, t0, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def drive(a, t0, base):
    os.chdir(base)
    mod = importlib.import_module(a.id.lower())
    pid = mod.ID
    timeout = getattr(mod, "TIMEOUT", 20)
    if hasattr(mod, "setup"):
        mod.setup()
    if a.replay:
        with open(a.replay) as fh:
            rec = json.load(fh)
        os.mkdir("replay")
        os.chdir("replay")
        r = run_one(mod, rec["case"], timeout)
        print(json.dumps(rec["case"], indent=1))
        print("FAIL: " + r["fail"] if r.get("fail") else "holds")
        return 1 if r.get("fail") else 0

    cases = list(mod.cases(a.tier))
    if a.limit:
        cases = cases[:a.limit]
    n = min(a.jobs, max(1, len(cases)))
    pipes = {}
    sys.stdout.flush()
    qr, qw = os.pipe()
    for k in range(n):
        rfd, wfd = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(rfd)
            os.close(qw)
            for fd in pipes:
                os.close(fd)
            try:
                worker(mod, cases, k, qr, wfd, timeout, getattr(mod, "MEM", 3 << 30), base)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(wfd)
        pipes[rfd] = dict(pid=pid_, k=k, buf=open(rfd, "rb", buffering=1 << 16, closefd=False), done=False, last=-1)
    os.close(qr)
    results = []
    known = known_findings(pid)
    # simple sequential draining per worker through threads of select
    import threading
    lock = threading.Lock()
    newfails = [0]
    stop = threading.Event()

    def drain(fd, w):
        try:
            while True:
                i, r, case = pickle.load(w["buf"])
                if i == -1:
                    w["done"] = True
                    return
                w["last"] = i
                with lock:
                    results.append((i, r, case))
                    if r.get("fail"):
                        key = r.get("key") or case_key(case)
                        if key not in known:
                            newfails[0] += 1
                            if newfails[0] >= MAXFAIL and not a.all:
                                stop.set()
        except EOFError:
            return

    def feed():
        try:
            for i in range(0, len(cases), 1024):
                os.write(qw, b"".join(j.to_bytes(4, "little") for j in range(i, min(i + 1024, len(cases)))))
        except BrokenPipeError:
            pass                                          # every worker has ended
        finally:
            os.close(qw)

    threading.Thread(target=feed, daemon=True).start()
    ths = [threading.Thread(target=drain, args=(fd, w), daemon=True) for fd, w in pipes.items()]
    for t in ths:
        t.start()
    while any(t.is_alive() for t in ths):
        for t in ths:
            t.join(0.05)
        if stop.is_set():
            break
    stopped = stop.is_set()
    for fd, w in pipes.items():
        if stopped:
            with contextlib.suppress(ProcessLookupError):
                os.kill(w["pid"], signal.SIGKILL)
        os.waitpid(w["pid"], 0)
        if not stopped and not w["done"]:
            # the worker died on the case it noted last
            i, err = 0, ""
            with contextlib.suppress(OSError):
                i = int.from_bytes(open(os.path.join(base, "now.%d" % w["k"]), "rb").read()[:4], "little")
            with contextlib.suppress(OSError):
                err = open(os.path.join(base, "stderr.%d" % w["k"])).read()[-1500:]
            results.append((i, dict(fail="the process running this case died\n" + err), cases[i] if i < len(cases) else None))
    results.sort(key=lambda t: t[0])

    ev = sum(r.get("n", 1) for _, r, _ in results)
    sigs = set()
    states = trans = traces = 0
    extra = {}
    for i, r, _ in results:
        s = r.get("sig")
        if s is not None:
            for x in (s if isinstance(s, list) else [s]):
                sigs.add(x if isinstance(x, str) else repr(x))
        states += r.get("states", 0)
        trans += r.get("transitions", 0)
        traces += r.get("traces", 0)
        for k, v in (r.get("count") or {}).items():
            extra[k] = extra.get(k, 0) + v
    fails = [(i, r, c) for i, r, c in results if r.get("fail")]
    listed, new = {}, []
    for i, r, c in fails:
        key = r.get("key") or case_key(c)
        if key in known:
            listed.setdefault(key, 0)
            listed[key] += 1
        else:
            new.append((i, r, c, key))
    for key in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key] or key))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    seen = set()
    shown = 0
    for i, r, c, key in new:
        head = r["fail"].split("\n")[0][:160]
        if head in seen and not a.all:
            continue
        seen.add(head)
        path = os.path.join(evdir, "replay_%s_%d.json" % (pid, shown))
        with open(path, "w") as fh:
            json.dump(dict(property=pid, case=c, key=key, fail=r["fail"],
                           how="/opt/venv/bin/python /verif/run.py %s --replay %s" % (pid, path)), fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case: %s" % key[:600])
        print("  " + r["fail"][:1200].replace("\n", "\n  "))
        shown += 1
        if shown >= (10 ** 6 if a.all else 5):
            break
    samples = [c for i, r, c in results if c is not None][:3]
    cov = dict(rule=mod.RULE, samples=samples or [None])
    if mod.LEVEL == "model_checking":
        cov.update(states=states, transitions=trans, traces_validated_against_impl=traces, evaluations=ev, distinct_nontrivial=len(sigs))
    else:
        cov.update(evaluations=ev, distinct_nontrivial=len(sigs))
        if states:
            cov.update(states=states, transitions=trans)
    cov.update(extra)
    cov["cases"] = len(results)
    cov["exhaustive"] = not (stopped or a.limit)
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(a.tier, "") if isinstance(getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", "")
    doc = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=mod.LEVEL, coverage=cov,
               assumptions=getattr(mod, "ASSUMES", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(evdir, "%s.json" % pid), "w") as fh:
        json.dump(doc, fh, indent=1, default=str)
    print("%s %s: %d cases, %d evaluations, %d distinct outcomes%s, %d violation(s), %d known, %.1f s" % (
        pid, a.tier, len(results), ev, len(sigs), (", %d states %d transitions" % (states, trans)) if states else "", len(new), len(listed), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    main()
