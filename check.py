#!/usr/bin/env python3
"""Build foodtiny/native (from /repo's working tree) with one property's harness and search for a violation.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--seed N] [--cases N] [--build-only]
exit 0: property held on everything explored; 1: VIOLATION line printed; 2: could not build / run.
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
OUTDIR = os.environ.get('VERIF_OUT', HERE)          # evidence/ and replays/ live below
sys.path.insert(0, HERE)
from config import CONFIG, ORDER                    # noqa: E402

COMMON = ['-g1', '-w', '-D_GNU_SOURCE', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-pthread']
FLAVOUR = {
    'asan': ['-O1', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1', '-ftrivial-auto-var-init=pattern'],
}
COV = ['-fsanitize-coverage=trace-pc,trace-cmp']
_hash = {}


def fhash(path):
    if path not in _hash:
        try:
            with open(path, 'rb') as f:
                _hash[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash[path] = 'missing'
    return _hash[path]


def sources():
    out = []
    for ext in ('cpp', 'c'):
        for p in glob.glob(os.path.join(REPO, 'library', '**', '*.' + ext), recursive=True):
            if not p.endswith(('Test.cpp', 'Benchmark.cpp')):
                out.append(p)
    return sorted(out)


def compile_one(job):
    src, obj, cmd = job
    stamp = obj + '.stamp'
    key = hashlib.sha1(' '.join(cmd + [src]).encode()).hexdigest()
    try:
        with open(stamp) as f:
            st = json.load(f)
        if st['key'] == key and os.path.exists(obj) and all(fhash(p) == h for p, h in st['deps'].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + '.d'
    r = subprocess.run(cmd + ['-MMD', '-MF', dep, '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return '%s\n%s' % (src, r.stdout[-4000:])
    with open(dep) as f:
        names = f.read().replace('\\\n', ' ').split(':', 1)[1].split()
    with open(stamp, 'w') as f:
        json.dump({'key': key, 'deps': {p: fhash(p) for p in names}}, f)
    return None


def build(harnesses, flavour, cov, exe):
    """harnesses: names of /verif/harness/<name>.cpp; returns path of the executable"""
    tag = flavour + ('' if cov else '-nocov')
    root = os.path.join(BUILD, tag)
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(root, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    base = FLAVOUR[flavour] + COMMON
    covf = COV if cov else []
    jobs, libobjs, objs = [], [], []
    for name in harnesses:                            # slowest first
        src = os.path.join(HERE, 'harness', name + '.cpp')
        obj = os.path.join(root, 'h', name + '.o')
        jobs.append((src, obj, ['g++', '-std=gnu++11'] + base + covf + ['-I', REPO, '-I', os.path.join(HERE, 'fw'), '-I', os.path.join(HERE, 'harness')]))
        objs.append(obj)
    for name in ('driver',):
        obj = os.path.join(root, 'h', name + '.o')
        jobs.append((os.path.join(HERE, 'fw', name + '.cpp'), obj, ['g++', '-std=gnu++17'] + base))
        objs.append(obj)
    for src in sources():
        obj = os.path.join(root, 'lib', os.path.relpath(src, REPO) + '.o')
        cc = ['g++', '-std=gnu++11'] if src.endswith('.cpp') else ['gcc']
        jobs.append((src, obj, cc + base + covf))
        libobjs.append(obj)
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        print('BUILD FAILED\n' + '\n'.join(errs[:3]))
        sys.exit(2)
    out = os.path.join(root, exe)
    key = hashlib.sha1(('\n'.join(o + fhash(o) for o in objs + libobjs)).encode()).hexdigest()
    try:
        with open(out + '.key') as f:
            if f.read() == key and os.path.exists(out):
                return out
    except OSError:
        pass
    r = subprocess.run(['g++'] + base + objs + libobjs + ['-lpthread', '-lrt', '-lm', '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('LINK FAILED\n' + r.stdout[-4000:])
        sys.exit(2)
    with open(out + '.key', 'w') as f:
        f.write(key)
    return out


def known_findings(pid):
    res = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    res.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return res


def main():
    argv = sys.argv[1:]
    pid = argv.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    replay = None
    cases = None
    build_only = False
    while argv:
        a = argv.pop(0)
        if a == '--tier': tier = argv.pop(0)
        elif a == '--replay': replay = os.path.abspath(argv.pop(0))
        elif a == '--seed': seed = argv.pop(0)
        elif a == '--cases': cases = argv.pop(0)
        elif a == '--build-only': build_only = True
        else: sys.exit('unknown option ' + a)
    seed = str(int(re.sub(r'\D', '', seed) or '1'))
    cfg = CONFIG[pid]
    t0 = time.time()
    flavour = cfg.get('flavour', 'asan')
    cov = cfg.get('cov', True)
    harnesses = cfg.get('harnesses') or [pid.lower()]
    env = dict(os.environ, LC_ALL='C.UTF-8', TZ='UTC')
    # a property may be decided in several passes (different builds or sub-harnesses)
    passes = cfg.get('passes') or [{}]
    stats, bad, replays, lines, buildS = [], False, [], [], 0.0
    replaydir = os.path.join(OUTDIR, 'replays')
    os.makedirs(replaydir, exist_ok=True)
    os.makedirs(os.path.join(OUTDIR, 'evidence'), exist_ok=True)
    known = known_findings(pid)
    allkeys = set(k for p in ORDER for k, _ in known_findings(p))
    if replay:
        with open(replay) as f:
            m = re.search(r'^pass=(\S+)', f.read(), re.M)
        want = m.group(1) if m else None
        sel = [p for p in passes if p.get('name') == want]
        passes = sel or passes[:1]
    for ps in passes:
        c = dict(cfg); c.update(ps)
        tb = time.time()
        exe = build(c.get('harnesses') or [c.get('id', pid).lower()], c.get('flavour', 'asan'), c.get('cov', True), c.get('exe', c.get('id', pid).lower()))
        buildS += time.time() - tb
        if build_only:
            continue
        idx = 0 if tier == 'quick' else 1
        outf = os.path.join(BUILD, '%s-%s-%d.json' % (pid, ps.get('name', 'main'), os.getpid()))
        cmd = [exe, '--id', c.get('id', pid), '--seed', seed, '--cases', cases or str(c['cases'][idx]), '--workers', str(c.get('workers', 8)),
               '--max-seconds', str(c.get('seconds', (150, 700))[idx]), '--shrink-seconds', str(c.get('shrink', 60)), '--tier', tier,
               '--out', outf, '--replay-dir', replaydir, '--cpu', str(c.get('cpu', 10)), '--wall', str(c.get('wall', 60))]
        if allkeys: cmd += ['--known', ','.join(sorted(allkeys))]
        for flag in ('leak', 'leak-only', 'schedules', 'no-grey'):
            if c.get(flag): cmd.append('--' + flag)
        if replay: cmd += ['--replay', replay]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
        if replay:
            print(r.stdout)
            if r.returncode == 1:
                print('VIOLATION property=%s replay=%s' % (pid, replay))
            sys.exit(1 if r.returncode == 1 else 0 if r.returncode == 0 else 2)
        rp = None
        for line in r.stdout.splitlines():
            m = re.match(r'KNOWN (\S+) (fails|holds)', line)
            if m:
                lines.append(m.groups())
            if line.startswith('REPLAYFILE '):
                rp = line[11:]
        if r.returncode not in (0, 1):
            print(r.stdout)
            print('engine ended with %d' % r.returncode)
            sys.exit(2)
        print(r.stdout.rstrip())
        if r.returncode == 1:
            bad = True
            if ps.get('name') and rp:
                with open(rp) as f: txt = f.read()
                with open(rp, 'w') as f: f.write('pass=%s\n%s' % (ps['name'], txt))
            replays.append(rp)
        try:
            with open(outf) as f: st = json.load(f)
            os.unlink(outf)
            st['pass'] = ps.get('name', 'main')
            stats.append(st)
        except (OSError, ValueError) as e:
            print('no statistics: %s' % e)
            sys.exit(2)
        if bad:
            break
    if build_only:
        return
    desc = dict(known)
    for k, state in lines:
        if k in desc and state == 'fails':
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, desc[k]))
        elif k in desc:
            print('note: listed finding %s no longer fails' % k)
    labels = {}
    for s in stats:
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
    samples = [x for s in stats for x in s['samples']][:6] or ['(the search ended before a sample was taken)']
    cov_ = {
        'evaluations': sum(s['evaluations'] for s in stats),
        'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in stats),
        'rule': '; '.join(dict.fromkeys(s['rule'] for s in stats)),
        'samples': samples,
        'labels': labels,
        'coverage_features': max(s['coverage_features'] for s in stats),
        'greybox_corpus': sum(s['corpus'] for s in stats),
        'passes': [{k: s[k] for k in ('pass', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'search_wall_s', 'inconclusive')} for s in stats],
        'build_s': round(buildS, 1),
        'known_findings': sorted(desc),
        'result': 'violation' if bad else 'held',
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': cov_, 'wall_s': round(time.time() - t0, 1)}
    with open(os.path.join(OUTDIR, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, replays[0]))
        sys.exit(1)


main()
