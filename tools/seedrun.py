#!/usr/bin/env python3
"""Run the check of every planted bug against a copy of /repo with the bug in it, and print a table.
usage: seedrun.py COPY_OF_REPO [id...]      (the copy is patched and restored; never /repo itself)"""
import json, os, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
copy = os.path.abspath(sys.argv[1])
assert copy != '/repo'
env = dict(os.environ, VERIF_REPO=copy)
for d in sys.argv[2:] or sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    patch = '%s/seeded/%s/patch.diff' % (here, d)
    t = time.time()
    if subprocess.call(['git', '-C', copy, 'apply', patch]):
        print('| %s | %s | patch does not apply |' % (d, m['property']), flush=True); continue
    try:
        r = subprocess.run([sys.executable, here + '/check.py', m['property']], env=env, capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', copy, 'apply', '-R', patch])
    hit = r.returncode == 1 and 'VIOLATION property=' + m['property'] in r.stdout
    print('| %s | %s | %s | %d s | %s |' % (d, m['property'], 'caught' if hit else 'MISSED (%d)' % r.returncode, time.time() - t, m['needs'].replace('|', '/')), flush=True)
