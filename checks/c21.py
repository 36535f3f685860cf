from common import *
import contextlib
import io

import nappy.utils.compare_na as cmp

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of pairs of files that differ by every single edit (and pairs of edits) under every option combination; the verdict is compared with an independent item-by-item comparison"
RULE = ("every format x layout of either file (blanks, commas, tabs, semicolons, other float formats) x every edit of either file: each line removed, doubled, emptied, exchanged with the next or moved to the end, lines added at every position (with and without adjusting the header length), each item removed, added, doubled, reformatted without changing its value, changed by 0.3%, 4%, in its sign, to or from zero, in its text or case x header/body/both x by value/strict/approximate. "
        "Oracle: equality exactly if the selected sections have the same number of lines and each line the same items (numbers by value, strictly, or within 1%); the same verdict from compNAFiles, compareNA and the messages of the command. Directories: every combination of four files, at three depths, each the same, in another layout, with another value, in one of them only or absent x options x either order, besides files that are never compared, the paths spelt in 7 ways (relative, absolute, by folders with names of files left out); same exactly if every file is. Distinct = distinct (difference, options, verdict) signatures.")
BOUNDS = {"quick": "9 small files (25-40 lines), all single edits; options rotated over the edits so that each edit meets all of them over the formats", "thorough": "all single edits x all options x layouts; all pairs of edits of 2 files"}
TIMEOUT = 300
LAY = [("    ", None), (",", ","), ("\t", "\t"), (";", ";"), ("  ", "  ")]
PARTS = [dict(), dict(header=False), dict(body=False)]
MODES = [dict(), dict(number_clever=False), dict(approx_equal=True), dict(number_clever=False, approx_equal=True)]


def cases(tier):
    big = tier == "thorough"
    ss = gen.small_structures()
    for s in range(len(ss)):
        for a, b in itertools.product(range(len(LAY)), repeat=2):
            for fmt in ("%.10g", "%.6f"):
                for side in (0, 1):
                    if not big and ((a, b) not in ((0, 0), (0, 1), (1, 0)) and (s + a + b + side) % 5 or fmt == "%.6f" and (s + a + b) % 2):
                        continue
                    yield dict(s=s, a=a, b=b, fmt=fmt, side=side, all=big)
    for st in itertools.product(range(len(STATE)), repeat=len(TREE)):
        yield dict(tree=list(st))
        if big or sum(s != 0 for s in st) <= 2:
            yield dict(tree=list(st), names=2)
    for s in (0, 3) if big else ():
        for i in range(400):
            yield dict(s=s, a=0, b=1 if i % 2 else 0, fmt="%.10g", side=i % 2, pair=i // 2)


# ------------------------------------------------------------------ directories

TREE = ["a.na", "b.txt", "sub/c.na", "sub/deep/d"]
STATE = ["same", "layout", "value", "first only", "second only", "none"]
TREE2 = ["DATA~1.NA", "a.pycs", "sub/csv.na", "sub/x sv n.svm"]                 # names close to those left out
EXTRA = [".hidden", "old.na~", "x_CSV.na", "m.pyc", "svn/e.na"]                  # never compared


def run_tree(case):
    TREE = TREE2 if "names" in case else globals()["TREE"]
    d = [to_dict(gen.build(s)) for s in gen.small_structures()]
    states = [STATE[i] for i in case["tree"]]
    for k in (1, 2):
        os.makedirs("t%d/sub/deep" % k)
        os.makedirs("t%d/svn" % k)
    for i, (name, st) in enumerate(zip(TREE, states)):
        x = d[i * 2 + 1]
        if st not in ("second only", "none"):
            write_na("t1/" + name, copy.deepcopy(x))
        if st not in ("first only", "none"):
            y = copy.deepcopy(x)
            if st == "value":
                y["ORG"] = "Another"
            write_na("t2/" + name, y, float_format="%.8f" if st == "layout" else "%.10g")
    for j, name in enumerate(EXTRA):
        if (sum(case["tree"]) + j) % 2:
            put("t%d/%s" % (1 + (j + case["tree"][0]) % 2, name), "2 1001\nfile %d\n" % j)
    sig, n = [], 0
    for p, m in itertools.product(range(3), range(4)):
        mode = MODES[m]
        verdict = True
        for name, st in zip(TREE, states):
            if st in ("first only", "second only"):
                verdict = False
            elif st != "none":
                verdict = verdict and all(oracle(*[text("t%d/%s" % (k, name)).split("\n")[:-1] for k in (1, 2)], None, None, PARTS[p], mode))
        for a, b in (("t1", "t2"), ("t2", "t1")):
            got = ask(a, b, None, None, PARTS[p], mode, 1, n + sum(case["tree"]))
            n += 1
            if got is not verdict:
                return dict(fail="%s in directories: %r instead of %r, options %s %s" % (dict(zip(TREE, states)), got, verdict, PARTS[p], mode), n=n)
            sig.append(got)
    return dict(n=n, sig=h(repr(case) + repr(sig)))


# ------------------------------------------------------------------ edits

def number(t):
    try:
        return float(t) if "_" not in t else None
    except ValueError:
        return None


def item_edits(t):
    """(what, new text) for one item"""
    x = number(t)
    out = [("add", t + "@SEP@" + "77"), ("empty", "")]
    if x is None:
        return out + [("text", t[:-1] + ("x" if t[-1] != "x" else "y")), ("case", t.swapcase()), ("longer", t + "z")]
    for lab, y in (("0.3%", x * 1.003), ("-0.3%", x * 0.997), ("4%", x * 1.04), ("-4%", x * 0.96), ("sign", -x), ("tiny", x * (1 + 1e-7)), ("zero", 0.0), ("one", x + 1), ("big", x * 1e6)):
        out.append((lab, repr(y) if y != int(y) or abs(y) > 1e15 else str(int(y))))
    out += [("fmt", "%.8e" % x), ("fmt2", "+" + t if t[0] not in "+-" else t), ("fmt3", "0" + t if t[0].isdigit() else t), ("text", t + "x"), ("nan", "nan")]
    return out


def edits(lines, nh, sep):
    """All single edits: (label, lines)."""
    n = len(lines)
    for i in range(n):
        yield "del%d" % i, lines[:i] + lines[i + 1:]
        yield "dup%d" % i, lines[:i + 1] + lines[i:]
        yield "blank%d" % i, lines[:i] + [""] + lines[i + 1:]
        yield "addblank%d" % i, lines[:i] + [""] + lines[i:]
        yield "spaces%d" % i, lines[:i] + [" " + lines[i] + "  "] + lines[i + 1:]
        if i + 1 < n:
            yield "swap%d" % i, lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]
        yield "toend%d" % i, lines[:i] + lines[i + 1:] + [lines[i]]
        if 0 < i < nh:
            for d, new in ((-1, lines[:i] + lines[i + 1:]), (1, lines[:i] + ["added"] + lines[i:])):
                yield "len%+d at %d" % (d, i), [lines[0].replace(str(nh), str(nh + d), 1)] + new[1:]
        cut = sep if sep and sep in lines[i] else None
        items = lines[i].split(cut)
        for k in range(len(items)):
            if i == 0 and k == 0 or not items[k].strip():
                continue
            yield "item%d.%d gone" % (i, k), lines[:i] + [(cut or " ").join(items[:k] + items[k + 1:])] + lines[i + 1:]
            for lab, new in item_edits(items[k].strip()):
                yield "item%d.%d %s" % (i, k, lab), lines[:i] + [(cut or " ").join(items[:k] + [new.replace("@SEP@", sep or " ")] + items[k + 1:])] + lines[i + 1:]
    yield "extra", lines + ["1 2 3"]
    yield "extra blank", lines + [""]
    yield "cut", lines[:nh]
    yield "none", lines


# ------------------------------------------------------------------ independent comparison

def fields(line, sep):
    if sep is None or not sep.strip():
        return [[t] for t in line.split()]
    return [f.split() for f in line.split(sep)]


def equal_items(x, y, mode):
    if x == y:
        return True
    if mode.get("number_clever") is False:
        return False
    a, b = number(x), number(y)
    if a is None or b is None or a != a or b != b:
        return False
    if a == b:
        return True
    if mode.get("approx_equal"):
        d, m = abs(a - b), max(abs(a), abs(b))
        if d > 0.0098 * m and d < 0.0103 * m:
            return None                       # at the tolerance itself
        return d < 0.01 * m
    return False


def equal_lines(x, y, s1, s2, mode):
    x, y = x.strip(), y.strip()
    if x == y:
        return True
    f, g = fields(x, s1), fields(y, s2)
    if s1 != s2:
        f = [[t] for k in f for t in k or [""]]
        g = [[t] for k in g for t in k or [""]]
    if [len(k) for k in f] != [len(k) for k in g]:
        return False
    r = [equal_items(a, b, mode) for k, l in zip(f, g) for a, b in zip(k, l)]
    return False if False in r else None if None in r else True


def oracle(l1, l2, s1, s2, part, mode):
    h1, h2 = [int(l[0].split(s)[0]) for l, s in ((l1, s1), (l2, s2))]
    secs = []
    if part.get("header") is not False:
        secs.append((l1[:h1], l2[:h2]))
    if part.get("body") is not False:
        secs.append((l1[h1:], l2[h2:]))
    out = []
    for a, b in secs:
        r = [equal_lines(x, y, s1, s2, mode) for x, y in zip(a, b)] + [len(a) == len(b)]
        out.append(False if False in r else None if None in r else True)
    return out


PLACE = ["", "./", "../@/", "@@/", "x_CSV.svn~/", ".hidden/", "no.pyc/../"]      # ways to spell the same place


def spelt(p, k):
    pre = PLACE[k % len(PLACE)].replace("@@", os.getcwd()).replace("@", os.path.basename(os.getcwd()))
    top = pre.split("/")[0]
    if top and top[0] != "/" and top not in (".", "..") and not os.path.lexists(top):
        if pre.count("/") == 1:
            os.symlink(".", top)
        else:
            os.mkdir(top)
    return pre + p


def ask(p1, p2, s1, s2, part, mode, via, place=0):
    kw = dict(part, **mode)
    p1, p2 = spelt(p1, place), spelt(p2, place // 2)
    if s1:
        kw["delimiter_1"] = s1
    if s2:
        kw["delimiter_2"] = s2
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if via == 0:
            return cmp.compNAFiles(p1, p2, **kw)
        if via == 1:
            return nappy.compareNA(p1, p2, **kw)
        args = {"header": ["-b"], "body": ["-h"]}.get((list(part) or [""])[0], []) + (["-n"] if "number_clever" in mode else []) + (["-a"] if "approx_equal" in mode else [])
        args += (["-1", s1] if s1 else []) + (["-2", s2] if s2 else [])
        cmp.main(args + [p1, p2])
    t = buf.getvalue()
    want = ([] if "header" in part else ["HEADERS ARE IDENTICAL"]) + ([] if "body" in part else ["BODIES ARE IDENTICAL"])
    return [w in t for w in want]


def run(case):
    if "tree" in case:
        return run_tree(case)
    d = gen.build(gen.small_structures()[case["s"]])
    paths, lines, seps = [], [], []
    for k, lay in enumerate((case["a"], case["b"])):
        p = "f%d.na" % k
        write_na(p, to_dict(d), delimiter=LAY[lay][0], float_format=case["fmt"] if k else "%.10g")
        ls = text(p).split("\n")
        if ls[-1] == "":
            ls.pop()
        paths.append(p)
        lines.append(ls)
        seps.append(LAY[lay][1])
    side = case["side"]
    nh = int(lines[side][0].split(seps[side])[0])
    sig, n = set(), 0
    every = case.get("all")
    if "pair" in case:
        singles = list(edits(lines[side], nh, seps[side]))
        lab0, start = singles[(case["pair"] * 7) % len(singles)]
        if not start or not (start[0].split(seps[side]) or [""])[0].isdigit():
            return dict(n=0)
        todo = [(lab0 + " + " + l, e) for l, e in edits(start, nh, seps[side])]
    else:
        todo = list(edits(lines[side], nh, seps[side]))
    for i, (lab, new) in enumerate(todo):
        if not new or not (new[0].split(seps[side]) or [""])[0].isdigit() or not (new[0].split(seps[side]) or [""])[0].isascii():
            continue
        put(paths[side], "\n".join(new) + "\n")
        two = [new, lines[1]] if side == 0 else [lines[0], new]
        opts = list(itertools.product(range(3), range(4)))
        if not every:
            opts = [opts[(i + case["s"] * 5 + case["a"] + case["b"] + side) % 12], opts[(i * 5 + 7 + case["s"]) % 12]]
        for p, m in opts:
            exp = oracle(two[0], two[1], seps[0], seps[1], PARTS[p], MODES[m])
            if None in exp:
                continue
            via = (i + p + m) % 3
            n += 1
            try:
                got = ask(paths[0], paths[1], seps[0], seps[1], PARTS[p], MODES[m], via, n + case["s"])
            except Exception as e:
                return dict(fail="edit %s, options %s %s: %s" % (lab, PARTS[p], MODES[m], tb(e)), n=n)
            want = exp if via == 2 else all(exp)
            if got != want:
                diff = [(x, y) for x, y in itertools.zip_longest(*two) if x != y][:3]
                return dict(fail="edit %s of file %d, options %s %s delimiters %s: %r instead of %r; %d and %d lines; %s" % (lab, side + 1, PARTS[p], MODES[m], seps, got, want, len(two[0]), len(two[1]), diff), n=n)
            sig.add((lab.split()[0].rstrip("0123456789."), p, m, via, str(got)))
    return dict(n=n, sig=h(repr(sorted(sig)) + repr(case)), count={"verdicts": len(sig)})
