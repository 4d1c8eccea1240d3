"""Planting bugs: seed(id, property, edits, demo, needs, breaks) tries a change in a scratch copy (/tmp/ms),
confirms that it builds, passes the stable tests and is shown by its demonstration, and keeps it under seeded/."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MS = '/tmp/ms'
SH_CC = '''#!/bin/bash
# Compiles demo.cc against the library built from the tree in the current directory and runs it.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -w -I"$R/_build/compat" -I/opt/vp/cmake/include -I"$R" -I"$R/_build/gen" "$D/demo.cc" "$R/_build/libgbdt_lib.a" \\
  -lprotobuf -lgflags -lglog -lfmt -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    if not os.path.isdir(MS):
        sh('cp -a /repo %s && rm -rf %s/_build' % (MS, MS))
        os.makedirs('/tmp/ms-cmake', exist_ok=True)
        sh("cp -a /opt/vp/cmake/. /tmp/ms-cmake/ && sed -i 's|set(REPO /repo)|set(REPO %s)|' /tmp/ms-cmake/CMakeLists.txt" % MS)
        sh('cmake -S /tmp/ms-cmake -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo' % MS)
    sh('git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD' % (MS, MS))


def build():
    r = sh('ninja -C %s/_build' % MS)
    return r.returncode == 0, r.stdout[-3000:]


def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else base.get('stable') or base.get('tests') or base.get('passed')
    bad = []
    for n in sorted(os.listdir(MS + '/_build/tests')):
        r = sh('timeout 100 %s/_build/tests/%s 2>&1' % (MS, n), cwd=MS)
        bad += [n + ':' + x for x in re.findall(r'^\[  FAILED  \] (\S+?)(?: \(|$)', r.stdout, re.M)]
        if r.returncode not in (0, 1):
            bad.append(n + ' exit %d' % r.returncode)
    return sorted({b for b in bad if 'lambdamart' not in b.lower()})


def seed(id, prop, edits, demo, needs, breaks, check=True, extra=None):
    d = os.path.join(VERIF, 'seeded', id)
    fresh()
    os.makedirs(d, exist_ok=True)
    if demo.startswith('#!'):
        open(d + '/demo.sh', 'w').write(demo)
    else:
        open(d + '/demo.sh', 'w').write(SH_CC)
        open(d + '/demo.cc', 'w').write(demo)
    for n, t in (extra or {}).items():
        open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    ok, out = build()
    assert ok, out
    a = sh(d + '/demo.sh', cwd=MS, timeout=300)
    for f, old, new in edits:
        p = MS + '/' + f
        s = open(p).read()
        assert s.count(old) >= 1, (f, old)
        assert s.count(old) == 1, ('ambiguous', f, old)
        open(p, 'w').write(s.replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % MS).stdout)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    ok, out = build()
    if not ok:
        print(id, 'DOES NOT BUILD', out)
        return
    bad = stable()
    t = time.time()
    b = sh(d + '/demo.sh', cwd=MS, timeout=300)
    verdict = 'good' if a.returncode == 0 and b.returncode not in (0, 3) and not bad else 'NOT VALID'
    print(id, prop, verdict, 'clean', a.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '', 'patched', b.returncode, (b.stdout + b.stderr).strip()[-200:], 'tests', bad, flush=True)
    if check and verdict == 'good':
        t = time.time()
        r = sh('%s/bin/check %s' % (VERIF, prop), env=dict(os.environ, VERIF_REPO=MS), timeout=900)
        o = r.stdout + r.stderr
        f = os.path.join(VERIF, 'tools/detections.json')
        db = json.load(open(f)) if os.path.exists(f) else {}
        caught = r.returncode == 1 and 'VIOLATION property=' + prop in o
        old = db.get(id, {})
        db[id] = {'outcome': 'caught by ' + prop + (' (after strengthening it)' if old.get('missed') else '') if caught else 'missed', 'missed': old.get('missed', False) or not caught}
        json.dump(db, open(f, 'w'), indent=1, sort_keys=True)
        print('   check', prop, 'rc', r.returncode, '%.0fs' % (time.time() - t), 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in o else 'MISSED', o.strip().replace('\n', ' | ')[-250:], flush=True)
    fresh()
