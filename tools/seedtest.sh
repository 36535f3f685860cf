#!/bin/bash
# seedtest.sh ID [checks...]: tries a planted bug in a scratch copy of /repo: applies, builds, runs the demo both ways, runs the checks.
# (the stable tests are run by vcheck; -t runs them here through a temporary apply in /repo)
id=$1; shift
V=/verif/seeded/$id
W=/tmp/seedcopy.$$
rm -rf "$W"; cp -a ${SRC:-/repo} "$W"
D=/tmp/seeddemo.$$; rm -rf "$D"; cp -a "$V" "$D"; rm -f "$D"/*.diff "$D"/meta.json
(cd "$W" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W timeout 300 bash "$D/demo.sh" >/tmp/demo.out 2>&1); a=$?
(cd "$W" && git apply "$V/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W" "$D"; exit 1; }
(cd "$W" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W timeout 300 bash "$D/demo.sh" >/tmp/demo2.out 2>&1); b=$?
echo "$id: demo clean=$a patched=$b"
[ $a = 0 ] || tail -5 /tmp/demo.out
[ $b != 0 ] || tail -5 /tmp/demo2.out
if [ -z "$NOTESTS" ]; then
T=/tmp/seedtests.$$; rm -rf "$T"; mkdir "$T"; cp -a "$W/tests" "$T/tests"; cp -a "$W/example_files" "$T/"; for f in pytest.ini setup.cfg pyproject.toml; do [ -e "$W/$f" ] && cp "$W/$f" "$T/"; done
(cd "$T" && HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$W GIT_ALLOW_PROTOCOL=file GIT_TERMINAL_PROMPT=0 NAPPY_AUTO_UPDATE_TEST_DATA=false PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir="$T" --basetemp="$T/tmp" -rA tests > "$T/out" 2>&1)
python3 - "$T/out" <<'P'
import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('stable') or b.get('passed')
ok=set()
for l in open(sys.argv[1]):
    m=re.match(r'PASSED (\S+)',l)
    if m: ok.add(m.group(1).replace('/','.').replace('.py::','::'))
miss=[t for t in st if t not in ok]
print('  tests: caught by' if miss else '  tests: pass', miss[:4])
P
rm -rf "$T"
fi
p=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
for c in ${@:-$p}; do
  (cd /verif && NAPPY_REPO=$W timeout 900 /opt/venv/bin/python run.py $c 2>&1 | grep -E "^VIOLATION|^C[0-9]+ |^  " | head -${LINES_:-4})
done
rm -rf "$W" "$D"
