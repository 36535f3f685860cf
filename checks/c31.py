import json
import subprocess
import sys
import runner
from common import *
from nch import *
import c17
import c16
import c25

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the configurations of the process environment (every single deviation and every pair) in which the same series of real calls runs as a process of its own; all results are compared"
RULE = ("a fixed series of about 300 calls (reading, writing, both conversions, CSV, in-memory conversion, comparison; files of every format, the project's examples, NetCDF data of every kind, texts beyond ASCII) in a process of its own in every environment within the bounds: "
        "hash seed, time zone, locale and UTF-8 mode, spelling and place of the paths, order of imports and logging, interpreter options, closed or redirected standard streams, missing variables, umask. "
        "Oracle: every call gives the result it gives in the plain environment, apart from today's date and the time of conversion. Distinct = distinct (environment, results).")
BOUNDS = {"quick": "every single deviation from the plain environment and one pair of each two axes", "thorough": "all pairs of deviations; 64 hash seeds"}
TIMEOUT = 300
AXES = dict(seed=["1", "2", "3", "12345", "4294967295"], tz=["Asia/Kolkata", "XYZ+11:30", "America/New_York", "Pacific/Kiritimati"], loc=["C", "POSIX", "none", "utf8=1", "bogus"],
            path=["abs", "dot", "up", "double"], place=["blank dir", "uni", "link", "deep"], log=["1", "2"], opt=["-O", "-OO", "-E", "-B", "-X dev", "-u"], std=["noout", "noerr", "none", "full"], env=["bare", "home"], umask=["0", "077"])
BASE = dict(seed="0", tz="UTC", loc="C.UTF-8", path="rel", place="plain", log="0", opt="", std="", env="", umask="022")


def cases(tier):
    big = tier == "thorough"
    yield dict(BASE)
    for d in deviations(BASE, AXES, 1):
        if d != BASE:
            yield d
    if big:
        for d in deviations(BASE, AXES, 2):
            if sum(d[k] != BASE[k] for k in d) == 2:
                yield d
        for i in range(6, 70):
            yield dict(BASE, seed=str(i))
    else:
        ks = sorted(AXES)
        for i, (a, b) in enumerate(itertools.combinations(ks, 2)):
            yield dict(BASE, **{a: AXES[a][i % len(AXES[a])], b: AXES[b][(i // 3) % len(AXES[b])]})


def inputs(d):
    os.makedirs(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        for i, s in enumerate(gen.small_structures()):
            ds = gen.build(dict(s, NS=2, NN=2))
            if i % 2:
                ds["ORG"] = "Université \u00dc – \u65e5\u672c"
                ds["SCOM"][0] = "température \u00b0C"
            put("f%02d.na" % i, spec.encode(ds))
        for i, s in enumerate(gen.samples((1001, 1010, 1020, 2010, 3010, 4010))):
            put("s%02d.na" % i, spec.encode(gen.build(s)))
        for k in c17.KIND:
            ds = c17.build(k)
            ds["gattrs"].update({"zeta": "z", "alpha": "a", "institution": "\u00dcni \u65e5"})
            for j, v in enumerate(ds["vars"]):
                v["attrs"].update({"b%d" % j: "x", "a": "\u00b0", "c": {"i4": [1, 2]}})
            make_nc("k_%s.nc" % k, ds)
        for k in ("time", "both", "scalar", "d2aux"):
            make_nc("m_%s.nc" % k, c16.build(dict(n=4, kind=k)))
    finally:
        os.chdir(here)


def battery(case, d):
    """results of the series in the environment of the case"""
    inp = d + "/data"
    inputs(inp)
    place = {"plain": inp, "blank dir": d + "/a b", "uni": d + "/d\u00e9\u65e5", "link": d + "/ln", "deep": d + "/x/y.na/z.nc"}[case["place"]]
    if case["place"] == "link":
        os.symlink(inp, place)
    elif place != inp:
        os.makedirs(os.path.dirname(place), exist_ok=True)
        os.rename(inp, place)
    env = {"PATH": os.environ.get("PATH", "")}
    if case["env"] != "bare":
        env.update({k: v for k, v in os.environ.items() if k in ("HOME", "USER", "NAPPY_REPO")})
    if case["env"] == "home":
        env["HOME"] = "/nonexistent"
    if case["tz"]:
        env["TZ"] = case["tz"]
    env["PYTHONHASHSEED"] = case["seed"]
    loc = case["loc"]
    if loc == "utf8=1":
        env["PYTHONUTF8"] = "1"
    elif loc == "bogus":
        env["LC_ALL"] = "xx_YY.UTF-8"
    elif loc != "none":
        env["LC_ALL"] = env["LANG"] = loc
    opts = case["opt"].split()
    if "-E" in opts:
        opts.append("-B")
    else:
        env["PYTHONDONTWRITEBYTECODE"] = "1"
    std = case["std"]
    null = open(os.devnull, "r+b")
    out = d + "/results.json"
    pre = lambda: (os.umask(int(case["umask"], 8)), [os.close(k) for k in {"noout": [1], "noerr": [2], "none": [0, 1, 2]}.get(std, [])])
    sink = open("/dev/full", "wb") if std == "full" else null
    p = subprocess.run([sys.executable] + opts + [os.path.join(os.path.dirname(os.path.abspath(spec.__file__)), "battery.py"), runner.REPO, place, out, case["path"], case["log"]],
                       env=env, cwd=d, stdin=null, stdout=sink, stderr=subprocess.PIPE if std not in ("noerr", "none", "full") else null, preexec_fn=pre, timeout=TIMEOUT)
    sink.close()
    null.close()
    if not os.path.exists(out):
        return None, "the series stops (%d): %s" % (p.returncode, (p.stderr or b"")[-1500:].decode("utf-8", "replace"))
    with open(out) as fh:
        return json.load(fh), None


PLAIN = None


def run(case):
    global PLAIN
    here = os.getcwd()
    if PLAIN is None:
        PLAIN, msg = battery(BASE, here + "/plain")
        if msg:
            return dict(fail="plain environment: " + msg)
    got, msg = battery(case, here + "/env")
    if msg:
        return dict(fail=msg)
    bad = [k for k in sorted(set(PLAIN) | set(got)) if PLAIN.get(k) != got.get(k)]
    if bad:
        k = bad[0]
        a, b = str(PLAIN.get(k)), str(got.get(k))
        i = next((i for i in range(33, min(len(a), len(b))) if a[i] != b[i]), 0)
        return dict(fail="%d calls give other results, first '%s':\n%s\n-- instead of --\n%s" % (len(bad), k, b[max(0, i - 200):i + 300], a[max(0, i - 200):i + 300]))
    return dict(n=len(got), transitions=len(got), sig=h(repr(sorted(case.items()))))
