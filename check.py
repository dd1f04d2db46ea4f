#!/usr/bin/env python3
"""Decide one property of pomelo by static analysis of /repo's current source.

  check.py --property C01 [--tier quick|thorough] [--seed N]

Exit 0: held on everything analysed.  Exit 1: "VIOLATION property=<id> replay=<path>".
"""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'wit'))
import lib          # noqa: E402
import parts        # noqa: E402

EVID = os.environ.get('PV_EVID') or os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('finding: property=%s key=' % prop):
                rest = ln.split('key=', 1)[1]
                key, _, what = rest.partition(' ')
                out.append((key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    ctx = parts.Ctx(a.property, tier, a.seed)
    try:
        parts.run(ctx)
    except Exception as e:
        ctx.violate('tool', 'the analysis did not complete: %s' % (str(e)[:2000] or type(e).__name__),
                    {'traceback': traceback.format_exc()[-4000:]})
    known = dict(known_findings(a.property))
    fresh, old = [], []
    for v in ctx.violations:
        (old if v['key'] in known else fresh).append(v)
    for v in {v['key']: v for v in old}.values():
        print('KNOWN-FINDING: property=%s %s (%s)' % (a.property, known[v['key']], v['message'][:200]))
    cov = ctx.coverage()
    ev = {'property': a.property, 'tier': tier, 'seed': a.seed, 'level': ctx.level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %s in %.1f s' % (a.property, tier, a.seed, ctx.summary(), time.time() - t0))
    if not fresh:
        return 0
    rd = os.path.join(EVID, 'replay')
    os.makedirs(rd, exist_ok=True)
    seen = set()
    for v in fresh[:20]:
        h = hashlib.sha1((a.property + v['key']).encode()).hexdigest()[:10]
        if h in seen:
            continue
        seen.add(h)
        p = os.path.join(rd, '%s-%s.json' % (a.property, h))
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.property, p))
        print('  [%s] %s' % (v['key'], v['message'][:600]))
    return 1


if __name__ == '__main__':
    sys.exit(main())
