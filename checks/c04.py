from common import *

ID = "C04"
LEVEL = "exploration"
RULE = ("every sequence of writes of one dictionary over the option alphabet up to the depth bound (all sequences, not a sample), for dictionaries of every format as built by a user, as returned by reading a "
        "file, without a format index, and with its data held in tuples, numpy arrays or numpy scalars; after each write the dictionary must equal a deep copy taken before it and the bytes must equal those of a first write of a fresh copy with the same options. "
        "States = dictionary x position; distinct = distinct output texts.")
BOUNDS = {"quick": "depth 3 over 6 option sets, all formats", "thorough": "depth 4 over 8 option sets"}
TIMEOUT = 60
OPTS = [{}, dict(delimiter=","), dict(no_header=True), dict(annotation=True), dict(float_format="%.3f"), dict(no_header=True, annotation=True, delimiter=","),
        dict(delimiter="\t", float_format="%e"), dict(no_header=True, float_format="%8.2f")]


def cases(tier):
    depth, n = (3, 6) if tier == "quick" else (4, 8)
    structs = gen.small_structures() + [dict(ffi=2010, M=2, NX=[1], NXDEF=[1], NV=1, NAUXV=0), dict(ffi=2110, NX=[1, 2], NV=1, NAUXV=1), dict(ffi=2310, NX=[2], NV=1, NAUXV=3),
                                        dict(ffi=2160, NX=[2, 0], NV=1, NAUXV=1, NAUXC=0), dict(ffi=4010, M=1, NX=[3, 2, 2], NXDEF=[1, 1, 1], NV=2, NAUXV=0)]
    for s in structs + gen.samples():
        for how in ("built", "read", "noffi", "tuples", "arrays", "scalars"):
            for k in range(n):
                yield dict(d=s, how=how, first=k, depth=depth, n=n)


def make(case):
    d = na_dict(case["d"], 3)
    if case["how"] == "read":
        put("in.na", spec.encode(gen.build(case["d"])))
        d = read_na("in.na")
    if case["how"] == "noffi":
        del d["FFI"]
    if case["how"] in ("tuples", "arrays", "scalars"):
        d = contained(d, case["how"])
    return d


def run(case):
    fresh = {}
    for k in range(case["n"]):
        write_na("f.na", make(case), **OPTS[k])
        fresh[k] = text("f.na")
    n = 0
    for tail in itertools.product(range(case["n"]), repeat=case["depth"] - 1):
        seq = (case["first"],) + tail
        d = make(case)
        before = frozen(d)
        for i, k in enumerate(seq):
            n += 1
            try:
                write_na("o.na", d, **OPTS[k])
            except Exception as e:
                return dict(fail="write %d of the sequence %r failed: %s" % (i + 1, [OPTS[j] for j in seq], tb(e)), n=n)
            now = {q: frozen(v) for q, v in d.items() if q in before or q != "FFI"}
            if now != before:
                ks = [q for q in set(now) | set(before) if now.get(q, "?") != before.get(q, "?")]
                return dict(fail="write %r changed the caller's %s: %r -> %r" % (OPTS[k], ks, [before.get(q) for q in ks], [now.get(q) for q in ks]), n=n)
            if text("o.na") != fresh[k]:
                return dict(fail="write %d of the sequence %r differs from a first write\n--- first write\n%s\n--- now\n%s" % (i + 1, [OPTS[j] for j in seq], fresh[k][:700], text("o.na")[:700]), n=n)
    return dict(n=n, states=n + 1, transitions=n, sig=[h(v) for v in fresh.values()])
