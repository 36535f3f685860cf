"""mkseed.py < spec : makes /verif/seeded/<id>/ from a spec of sections separated by lines '@@ <kind> <arg>':
@@ id S01 / @@ property C01 / @@ needs (text) / @@ breaks (text) / @@ file path (old text, line '====', new text) ... / @@ demo (python source)"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
secs = []
for line in sys.stdin.read().split("\n"):
    if line.startswith("@@ "):
        k, _, a = line[3:].partition(" ")
        secs.append([k, a, []])
    elif secs:
        secs[-1][2].append(line)
g = {k: (a + "\n" + "\n".join(b)).strip() for k, a, b in secs}
d = os.path.join(V, "seeded", g["id"])
w = tempfile.mkdtemp()
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for k, a, b in secs:
        if k != "file":
            continue
        p = os.path.join(w, "r", a.strip())
        t = "\n".join(b).strip("\n")
        old, new = t.split("\n====\n") if "\n====\n" in t else (t.split("\n====")[0], "")
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (a, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.py", "w").write("import atexit, os, shutil, sys, tempfile\nsys.path.insert(0, os.getcwd())\nimport nappy\nW = tempfile.mkdtemp()\natexit.register(shutil.rmtree, W, True)\nos.chdir(W)\n\n" + g["demo"] + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
finally:
    shutil.rmtree(w)
