"""Plant one bug: seed(id, prop, needs, what, edits, demo[, run check]) -- used interactively while building.
edits: [(path below /repo/library, old text, new text)]; demo: C++ source, exit 0 on the unchanged tree."""
import json, os, re, shutil, subprocess, sys
REPO = os.environ.get('SEED_REPO', '/tmp/wk')          # a copy of /repo (cp -a), never /repo itself
SEEDED = os.environ.get('SEED_DIR', '/verif/seeded')
CHECK = os.environ.get('SEED_CHECK', '/verif/check.py')
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export LC_ALL=C.UTF-8 TZ=UTC
g++ -std=gnu++11 -w -D_GNU_SOURCE -g %s -I . "$here/demo.cpp" _build/libnative_static.a -lpthread -lrt -lm -o "$work/demo" || exit 4
cd "$work" && timeout 60 ./demo %s
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def sub(path, old, new):
    path = REPO + '/library/' + path
    raw = open(path, 'rb').read().decode('utf-8', 'surrogateescape')
    for conv in ((lambda x: x.replace('\n', '\r\n')), (lambda x: x)):
        o = conv(old)
        if raw.count(o) == 1:
            open(path, 'wb').write(raw.replace(o, conv(new)).encode('utf-8', 'surrogateescape')); return True
    lines = old.split('\n')               # else: the same lines with any indentation
    rx = r'[ \t]*\r?\n'.join((r'[ \t]*' if i else '') + re.escape(l.strip()) for i, l in enumerate(lines))
    ms = list(re.finditer(rx, raw))
    if len(ms) == 1:
        n = new.replace('\n', '\r\n') if '\r\n' in raw else new
        open(path, 'wb').write((raw[:ms[0].start()] + n.lstrip() + raw[ms[0].end():]).encode('utf-8', 'surrogateescape')); return True
    print('NOMATCH', len(ms), path, raw.count(old), repr(old[:100])); return False
def clean(): sh('git -C %s checkout -- .' % REPO)
def script(name, *args):
    """build.sh / test.sh of the task, pointed at the copy"""
    t = open('/opt/vp/' + name).read().replace('REPO=/repo', 'REPO=' + REPO)
    p = '/tmp/seed-' + name; open(p, 'w').write(t)
    return sh('bash %s %s' % (p, ' '.join(args)))
def tests():
    if script('build.sh').returncode: return 'does not build'
    script('test.sh', '/tmp/seed-out.json')
    missing = sorted(set(BASE) - set(json.load(open('/tmp/seed-out.json'))['passed']))
    return ' '.join(missing[:8])
def original():
    """every removed line must be one of the original repository"""
    first = sh('git -C %s rev-list --max-parents=0 HEAD' % REPO).stdout.split()[0]
    bad = []; f = None; n = 0; only = True
    for l in sh('git -C %s diff -U0' % REPO).stdout.splitlines():
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
        if l.startswith('-') and not l.startswith('---'): only = False
        if m and f:
            k = int(m.group(2)) if m.group(2) else 1; s = int(m.group(1))
            if not k: continue
            for b in sh('git -C %s blame -l -s -L %d,%d HEAD -- %s' % (REPO, s, s + k - 1, f)).stdout.splitlines():
                if first[:39] not in b.split()[0]: bad.append(b[41:120])
    if only: bad.append('only adds lines')
    return bad
def seed(id, *a, **k):
    done = os.path.exists(os.path.join(SEEDED, id, 'patch.diff'))
    if done: print(id, 'exists'); return True
    if not plant(id, *a, **k): shutil.rmtree(os.path.join(SEEDED, id), ignore_errors=True)
def plant(id, prop, needs, what, edits, demo, flags='', args='', check=True, env=None):
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'copy not clean'
    d = os.path.join(SEEDED, id); os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % (flags, args)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    script('build.sh')
    r = sh(d + '/demo.sh', cwd=REPO)
    if r.returncode: print(id, 'DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-1500:]); return False
    try:
        for e in edits:
            if not sub(*e): return False
        diff = subprocess.run('git -C %s diff' % REPO, shell=True, stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        bad = original()
        if bad: print(id, 'TOUCHES LINES THAT ARE NOT ORIGINAL:', bad[:3]); return False
        t = tests()
        if t: print(id, 'TESTS NOTICE:', t); return False
        r = sh(d + '/demo.sh', cwd=REPO)
        if r.returncode in (0, 4): print(id, 'DEMO DOES NOT FAIL', r.returncode, r.stdout[-800:]); return False
        msg = 'demo rc %d' % r.returncode
        if check:
            c = sh('VERIF_REPO=%s VERIF_OUT=/tmp/seedout VERIF_SEED=1 timeout 900 python3 %s %s' % (REPO, CHECK, prop))
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            msg += '; check rc %d %s' % (c.returncode, 'CAUGHT' if c.returncode == 1 and v else '*** MISSED ***')
            if c.returncode not in (0, 1): msg += c.stdout[-800:]
        print(id, msg, flush=True)
        return True
    finally:
        clean()
