import errno
import resource
import signal
from common import *

ID = "C06"
LEVEL = "fault_enumeration"
RULE = ("(a) every sequence of life-cycle operations on a file object up to the depth bound, the process dying without any clean-up right after the last one: another process must find exactly the bytes of the model "
        "(nothing, or what the first successful write means), every refused write must have raised and left the bytes alone; (b) output refused by the operating system from every byte position on (file-size limit) "
        "and on a full device: the call must raise, at every position; (c) the process dying right after each conversion call returned. Distinct = distinct (operations, outcomes, final bytes).")
BOUNDS = {"quick": "depth 3 over 11 operations in write mode (with statements and errors within these included) and 9 in read mode, one dataset per format; all byte positions of one small file per format, +-3 around every 4096 boundary of larger files",
          "thorough": "depth 4; all byte positions of the larger files too"}
NOTE = ("Every operation sequence, death point and output-refusal position within the bounds is executed on the real code with the real file system. "
        "A dying process is modelled by os._exit without any clean-up; loss of power (page cache) is out of scope because nappy does not promise fsync.")
TIMEOUT = 60

WOPS = ["w", "wn", "wc", "wbad", "close", "set", "exit", "del", "xw", "xwbad", "xerr"]
ROPS = ["w", "wn", "read", "dict", "close", "set", "exit", "xw", "xerr"]
OPT = {"w": {}, "wn": dict(no_header=True), "wc": dict(delimiter=",", annotation=True), "wbad": dict(float_format="%q")}
BIG = [dict(ffi=1001, M=13, NV=11, NS=12, NN=11, vals="dig"), dict(ffi=2010, M=13, NX=[14], NXDEF=[14], NV=4, NAUXV=3, NN=12, vals="dig"),
       dict(ffi=4010, M=5, NX=[5, 4, 6], NXDEF=[1, 4, 1], NV=2, NAUXV=1, vals="dig"), dict(ffi=2310, NX=[13, 9, 13, 2, 13], NV=9, NAUXV=5, vals="dig"),
       dict(ffi=2160, NX=[13, 9, 13], NV=9, NAUXV=6, NAUXC=3, vals="dig"), dict(ffi=1020, M=2, NVPM=7, NV=30, NAUXV=3, vals="dig"),
       dict(ffi=1010, M=13, NV=9, NAUXV=4, NN=20, vals="dig"), dict(ffi=2110, NX=[13, 9, 0, 13], NV=9, NAUXV=4, vals="dig"), dict(ffi=3010, M=6, NX=[7, 5], NXDEF=[7, 1], NV=2, NAUXV=2, vals="dig")]


def one(s):
    out = {}
    for d in s:
        out.setdefault(d["ffi"], d)
    return list(out.values())


def cases(tier):
    big = tier == "thorough"
    depth = 4 if big else 3
    smalls = one(gen.small_structures())
    for n in range(1, depth + 1):
        for ops in itertools.product(WOPS, repeat=n):
            for s in (smalls if n <= 2 or big else smalls[:3]):
                yield dict(k="w", d=s, ops=ops)
        for ops in itertools.product(ROPS, repeat=n):
            for s in (smalls if n <= 2 or big else smalls[:3]):
                yield dict(k="r", d=s, ops=ops)
    for s in smalls:
        for o in ("w", "wn", "wc"):
            for api in ("write", "with"):
                yield dict(k="limit", d=s, o=o, api=api, pos="all")
        yield dict(k="limit", d=s, o="w", api="csv", pos="all")
    for s in BIG:
        for o in ("w", "wc", "wn"):
            yield dict(k="limit", d=s, o=o, api="write", pos="all" if big else "near")
        yield dict(k="limit", d=s, o="w", api="csv", pos="all" if big else "near")
    for s in smalls + BIG:
        for api in ("write", "csv"):
            yield dict(k="full", d=s, api=api)
    for s in smalls:
        yield dict(k="die", d=s)


def reference(nd, o):
    write_na("ref.na", copy.deepcopy(nd), **OPT[o])
    return text("ref.na")


def child(fn):
    """Runs fn in a child that dies without clean-up; returns what it returned."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res = fn()
        except BaseException as e:
            res = "ESCAPED " + err(e)
        os.write(w, repr(res).encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    return eval(buf.decode())


def lifecycle(case):
    nd = na_dict(case["d"])
    other = copy.deepcopy(nd)
    other["ONAME"] = "another one"
    ref = {o: reference(nd, o) for o in ("w", "wn", "wc")}
    reference2 = {o: reference(other, o) for o in ("w", "wn", "wc")}
    mode = case["k"]
    if mode == "r":
        put("f.na", ref["w"])

    def fn():
        f = nappy.openNAFile("f.na") if mode == "r" else nappy.openNAFile("f.na", "w", na_dict=copy.deepcopy(nd))
        res = []
        for op in case["ops"]:
            try:
                if op in OPT:
                    f.write(**OPT[op])
                elif op == "close":
                    f.close()
                elif op == "set":
                    f.setNADict(other)
                elif op == "exit":
                    with f:
                        pass
                elif op == "xerr":
                    with f:
                        raise KeyError(op)
                elif op[0] == "x":
                    with f:
                        f.write(**OPT[op[1:]])
                elif op == "read":
                    f.readData()
                elif op == "dict":
                    f.getNADict()
                elif op == "del":
                    f.__del__()
                res.append("ok")
            except Exception as e:
                res.append(type(e).__name__)
            with open("f.na") as fh:
                res.append(fh.read())
        return res
    res = child(fn)
    if isinstance(res, str):
        return dict(fail=res)
    final = text("f.na")
    # the model: (open, started, content)
    opened, started, content, cur, clean = True, mode == "r", ref["w"] if mode == "r" else "", ref, True
    for i, op in enumerate(case["ops"]):
        out, seen = res[2 * i], res[2 * i + 1]
        where = "operation %d (%s) of %s" % (i + 1, op, " ".join(case["ops"]))
        leave = op in ("close", "exit", "del") or op[0] == "x"
        if op == "xerr" and out != "KeyError":
            return dict(fail="%s: an error raised within the with statement came out as %s" % (where, out))
        if op in ("xw", "xwbad"):
            op = op[1:]
        if op in OPT:
            if mode == "r" or started or not opened:
                if out == "ok" and (clean or seen != cur.get(op)):
                    return dict(fail="%s: a write that must be refused was accepted" % where)
            elif op == "wbad":
                if out == "ok":
                    return dict(fail="%s: an impossible float format was accepted" % where)
                started, clean = True, False
            else:
                if out != "ok":
                    return dict(fail="%s: a legitimate write failed: %s" % (where, out))
                started, content = True, cur[op]
        elif out != "ok":
            # repeated closing, reading a closed file object: only file content matters here
            pass
        if leave:
            opened = False
        if op == "set" and mode == "w":
            cur = reference2
        if clean and seen != content:
            return dict(fail="%s: the file holds %d bytes, expected %d\n%s" % (where, len(seen), len(content), seen[:600]))
    if clean and final != content:
        return dict(fail="after the process died the file holds %d bytes, expected %d" % (len(final), len(content)))
    return dict(sig=[h(repr(case["ops"]) + repr(res[::2]) + final)], n=len(case["ops"]))


def limited(case):
    nd = na_dict(case["d"])
    if case["api"] == "csv":
        put("in.na", spec.encode(gen.build(case["d"])))
        go = lambda: nappy.convertNAToCSV("in.na", "out.na")
    elif case["api"] == "with":
        def go():
            with nappy.openNAFile("out.na", "w", na_dict=copy.deepcopy(nd)) as f:
                f.write(**OPT[case["o"]])
    else:
        def go():
            f = nappy.openNAFile("out.na", "w", na_dict=copy.deepcopy(nd))
            f.write(**OPT[case["o"]])
            return f
    keep = go()
    del keep
    full = text("out.na")
    n = len(full)
    if case["pos"] == "all":
        budgets = range(n + 1)
    else:
        budgets = sorted({b for c in range(0, n + 8192, 4096) for b in range(c - 3, c + 4) if 0 <= b <= n} | {n - 1, n, n // 2, n - 100} - set(range(-200, 0)))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    seen = set()
    for b in budgets:
        if os.path.exists("out.na"):
            os.unlink("out.na")
        f = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (b, hard))
        try:
            f = go()
            out = "ok"
        except OSError as e:
            out = "refused" if e.errno == errno.EFBIG else "OSError %s" % e.errno
        except Exception as e:
            out = type(e).__name__
        finally:
            try:
                if f is not None and hasattr(f, "file"):
                    f.close()
            except OSError:
                pass
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        size = os.path.getsize("out.na") if os.path.exists("out.na") else -1
        if b < n and out == "ok":
            return dict(fail="the system refused everything beyond byte %d of %d but no exception was raised (%d bytes stored)" % (b, n, size), n=len(seen) + 1)
        if b >= n and (out != "ok" or text("out.na") != full):
            return dict(fail="with %d bytes allowed a file of %d bytes was not written: %s" % (b, n, out))
        seen.add((b, out))
    return dict(n=len(budgets), sig=[h(repr(case) + repr(x)) for x in seen])


def fulldev(case):
    nd = na_dict(case["d"])
    try:
        if case["api"] == "csv":
            put("in.na", spec.encode(gen.build(case["d"])))
            nappy.convertNAToCSV("in.na", "/dev/full")
        else:
            f = nappy.openNAFile("/dev/full", "w", na_dict=nd)
            f.write()
    except OSError as e:
        return dict(sig=h("full" + repr(case) + str(e.errno)))
    return dict(fail="writing to a full device raised no exception")


def die(case):
    """The process dies right after a conversion call returned."""
    put("in.na", spec.encode(gen.build(case["d"])))
    n = 0
    sigs = []

    def twice(fn, pattern):
        def run(pre):
            os.mkdir(pre)
            def go():
                os.chdir(pre)
                try:
                    return repr(fn())
                except Exception as e:
                    return "E " + err(e)
            return child(go)
        r1 = run("a")
        a = {x: open("a/" + x, "rb").read() for x in sorted(os.listdir("a"))}
        # the same call in this process, which goes on and closes everything in order
        os.mkdir("b")
        cwd = os.getcwd()
        os.chdir("b")
        try:
            r2 = repr(fn())
        except Exception as e:
            r2 = "E " + err(e)
        finally:
            os.chdir(cwd)
        b = {x: open("b/" + x, "rb").read() for x in sorted(os.listdir("b"))}
        import shutil
        shutil.rmtree("a"), shutil.rmtree("b")
        return r1, a, r2, b
    path = os.path.abspath("in.na")
    msgs = []
    for name, fn, text_ in (("convertNAToCSV", lambda: nappy.convertNAToCSV(path, "o.csv"), True),
                            ("convertNAToNC", lambda: nappy.convertNAToNC(path, "o.nc", time_warning=False), False)):
        r1, a, r2, b = twice(fn, "")
        n += 1
        sigs.append(h(repr(a)))
        if r1 != r2:
            msgs.append("%s: %s in a process that dies at once, %s otherwise" % (name, r1, r2))
        elif sorted(a) != sorted(b) or any((a[x] != b[x]) if text_ else (len(a[x]) != len(b[x])) for x in a):
            msgs.append("%s: files differ when the process dies right after the call: %s / %s" % (name, {x: len(a[x]) for x in a}, {x: len(b[x]) for x in b}))
    return dict(fail="; ".join(msgs) or None, n=n, sig=sigs)


def run(case):
    if case["k"] in "wr":
        return lifecycle(case)
    return dict(limit=limited, full=fulldev, die=die)[case["k"]](case)
