#!/usr/bin/env python3
"""plant.py [--slot /tmp/slot0] [--props C01,C02] ID...: confirms a planted bug in a scratch copy and runs the check of its property"""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--slot', default='/tmp/slot0')
ap.add_argument('--props')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('ids', nargs='+')
a = ap.parse_args()
subprocess.check_call(['bash', os.path.join(HERE, 'tools/slot.sh'), a.slot])
S = a.slot


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def reset():
    run(['git', 'checkout', '-q', '--', '.'], cwd=S)
    run(['git', 'fetch', '-q', '/repo', 'HEAD'], cwd=S)
    run(['git', 'reset', '-q', '--hard', 'FETCH_HEAD'], cwd=S)


base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in a.ids:
    d = os.path.join(os.environ.get('SEEDED', os.path.join(HERE, 'seeded')), i)
    meta = json.load(open(d + '/meta.json'))
    reset()
    dd = S + '.demo'
    run(['rm', '-rf', dd]); run(['cp', '-a', d, dd])
    msgs = []
    r = run(['bash', dd + '/demo.sh'], cwd=S, timeout=300)
    if r.returncode:
        msgs.append('demo fails on the unchanged tree: ' + r.stdout[-800:])
    r = run(['git', 'apply', d + '/patch.diff'], cwd=S)
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY', r.stdout)
        continue
    if not a.no_tests:
        r = run(['bash', S + '.test.sh', S + '.out.json'], timeout=900)
        try:
            o = json.load(open(S + '.out.json'))
            miss = base - set(o['passed'])
            if miss:
                msgs.append('tests fail: %s' % sorted(miss)[:4])
        except Exception as e:
            msgs.append('tests do not run: %s %s' % (e, r.stdout[-1500:]))
    r = run(['bash', dd + '/demo.sh'], cwd=S, timeout=300)
    if r.returncode == 0:
        msgs.append('demo passes with the patch')
    else:
        msgs.append('demo: ' + r.stdout.strip()[-160:].replace('\n', ' / '))
    for p in (a.props.split(',') if a.props else [meta['property']]):
        e = dict(os.environ, PV_REPO=S, PV_WORK=S + '.work', PV_EVID=S + '.evid')
        r = run(['timeout', '900', 'python3', os.path.join(HERE, 'check.py'), '--property', p], env=e)
        v = [ln for ln in r.stdout.splitlines() if ln.startswith('VIOLATION property=%s ' % p)]
        ln = r.stdout.splitlines()
        first = next((ln[k + 1] for k in range(len(ln) - 1) if ln[k].startswith('VIOLATION')), '')
        msgs.append('%s rc=%d violations=%d %s' % (p, r.returncode, len(v), first[:300] if r.returncode else ''))
        if r.returncode not in (0, 1):
            msgs.append(r.stdout[-1500:])
    print(i, '|', '\n    '.join(msgs), flush=True)
reset()
