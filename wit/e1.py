"""E1: extract the transition system of every witness parser and check it against the reference."""
import json
import multiprocessing
import os
import resource
import signal
import sys
import time

import lib
from gram import Ref
from mon import Monitor


def wname(g):
    return ('wx_' if g.exact else 'wb_' if getattr(g, 'big', False) else 'w_') + g.name


def body(g):
    return '    pomelo! {\n%s\n    }' % (g.emit() if not hasattr(g, 'source') else g.source)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    signal.signal(signal.SIGALRM, _alarm)


def _one(arg):
    g, path, limit, steps = arg
    t = time.time()
    try:
        signal.alarm(limit)
        ref = getattr(g, 'ref', None) or Ref(g)
        if ref.conflicts:
            return {'name': g.name, 'viol': [], 'bad': 'reference conflicts %r' % (ref.conflicts[:2],)}
        if path is None:
            return {'name': g.name, 'viol': [{'kind': 'unsupported', 'message': 'no transition system was extracted',
                                              'input': [], 'path': []}], 'stats': {}}
        with open(path) as f:
            mo = Monitor(ref, f)
        mo.run()
        if steps:
            mo.check_linear(steps)
        st = {k: (len(v) if isinstance(v, set) else v) for k, v in mo.stats.items()}
        st['nodes'] = len(mo.nodes)
        st['lts_edges'] = sum(len(x) for x in mo.edges.values())
        st['rules_total'] = len(g.prods)
        st['ref_states'] = ref.n
        signal.alarm(0)
        return {'name': g.name, 'viol': mo.viol, 'stats': st, 'hdr': mo.hdr, 'wall': time.time() - t,
                'tokm': token_methods(mo)}
    except Timeout:
        return {'name': g.name, 'viol': [{'kind': 'unsupported', 'message': 'the product did not close in %d s' % limit,
                                          'input': [], 'path': []}], 'stats': {}}
    except MemoryError:
        return {'name': g.name, 'viol': [{'kind': 'unsupported', 'message': 'the product did not close in memory',
                                          'input': [], 'path': []}], 'stats': {}}
    except Exception as e:      # malformed driver output or an event the monitor does not know
        import traceback
        return {'name': g.name, 'viol': [{'kind': 'unsupported', 'message': 'monitor: %s %s' % (type(e).__name__, traceback.format_exc()[-900:]),
                                          'input': [], 'path': []}], 'stats': {}}
    finally:
        signal.alarm(0)


def token_methods(mo):
    """event sequences of the accessors of Token, from the start node of each to its end"""
    out = {}
    for n, (kind, info) in mo.nodes.items():
        if kind != 'T':
            continue
        paths = []
        todo = [(n, [])]
        while todo and len(paths) < 5000:
            x, evs = todo.pop()
            k, i = mo.nodes.get(x, ('?', 0))
            if k in 'PDU':
                paths.append(evs + [[{'P': 'panic', 'D': 'diverge', 'U': 'unsupported'}[k], str(i)]])
                continue
            if k == 'X' or any(ev and ev[0] == 'ret' for e in evs if e and e[0] != 'ren' for ev in e):
                paths.append(evs)
                continue
            for to, e, rn in mo.edges.get(x, ()):
                # undo the renumbering so that all events of a path use the same names
                todo.append((to, evs + [e, ['ren', rn]]))
        flat = []
        for evs in paths:
            flat.append(unren(evs))
        out[info] = flat
    return out


def unren(evs):
    out, back = [], None
    from mon import ren
    fresh = [1000]
    for x in evs:
        if x and x[0] == 'ren':
            nb = {}
            for new, old in enumerate(x[1]):
                nb[new] = back.get(old, old) if back is not None else old
            back = nb
            continue
        if x and isinstance(x[0], str):
            out.append(x)
            continue
        for ev in x:
            if back is None:
                out.append(ev)
            else:
                m = dict(back)

                def name(s):
                    if s not in m:
                        fresh[0] += 1
                        m[s] = fresh[0]
                    return m[s]
                out.append(map_syms(ev, name))
                back = m
    return out


def map_syms(ev, f):
    if ev[0] == 'drop':
        return ['drop', [f(s) if isinstance(s, int) else s for s in ev[1]]]
    if ev[0] in ('fork', 'expand'):
        return [ev[0], f(ev[1])] + [walk(x, f) for x in ev[2:]]
    return [ev[0]] + [walk(x, f) for x in ev[1:]]


def walk(v, f):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], int):
            return ['s', f(v[1])]
        return [walk(x, f) for x in v]
    return v


def header(path):
    hdr = {}
    with open(path) as f:
        for ln in f:
            if ln.startswith('["H"'):
                d = json.loads(ln)
                hdr[d[1]] = d[2]
    return hdr


def run(name, grams, limit=100, timeout=500, ncrates=8, jobs=8, headers=False, raw=(), steps=0):
    # headers: only the facts about the items, without the transition system; raw: control modules
    """returns (results by grammar name, compile errors by grammar name, workspace)"""
    ws = lib.Workspace(name, ncrates=ncrates)
    bym = {wname(g): g for g in grams}
    assert len(bym) == len(grams), 'duplicate grammar names'
    errors = {}
    todo = dict(bym)
    t0 = time.time()
    only = os.path.join(ws.dir, 'only.txt')
    for rnd in range(4):
        ws.write([(m, body(g), len(g.rules) + len(g.terms)) for m, g in sorted(todo.items())] + [(m, b, 1) for m, b in raw])
        with open(only, 'w') as f:
            for m, g in sorted(todo.items()):
                if getattr(g, 'only', None):
                    f.write(' '.join([m] + list(g.only)) + '\n')
        xe = {'PV_ONLY': only}
        if headers:
            xe['PV_FACTS'] = '1'
        bad, other = ws.build(timeout=timeout, clean=(rnd == 0), extra_env=xe)
        if bad is None:
            raise lib.ToolError('the build of the witness crates timed out')
        for m, e in bad.items():
            if m not in bym:
                raise lib.ToolError('control module %s does not build: %s' % (m, e[0]['message']))
            errors[bym[m].name] = e
        if other and not bad:
            raise lib.ToolError('witness crates do not build: ' + '\n'.join(other)[:3000])
        if not bad:
            break
        for m in bad:
            del todo[m]
    else:
        raise lib.ToolError('witness crates keep failing')
    build_s = time.time() - t0
    if headers:
        res = {g.name: {'name': g.name, 'hdr': header(ws.result(m)), 'viol': []} for m, g in todo.items() if ws.result(m)}
        for m, _ in raw:
            res[m] = {'name': m, 'hdr': header(ws.result(m)), 'viol': []}
        return res, errors, {'build_s': round(build_s, 1), 'monitor_s': 0}
    args = [(g, ws.result(m), limit, steps) for m, g in todo.items()]
    args.sort(key=lambda a: -(os.path.getsize(a[1]) if a[1] else 0))
    res = {}
    with multiprocessing.Pool(jobs, _init) as pool:
        # a broken parser can have a product that never closes: three of them say it all
        it = pool.imap_unordered(_one, args)
        late = 0
        try:
            for _ in args:
                r = it.next(timeout=max(1, timeout - (time.time() - t0 - build_s)))
                res[r['name']] = r
                late += any('did not close' in v['message'] for v in r['viol'])
                if late >= 3:
                    break
        except multiprocessing.TimeoutError:
            late = 3
        if late >= 3:
            pool.terminate()
            for g, _, _, _ in args:
                res.setdefault(g.name, {'name': g.name, 'viol': [
                    {'kind': 'unsupported', 'message': 'not analysed: the product of too many grammars did not close',
                     'input': [], 'path': []}], 'stats': {}})
    return res, errors, {'build_s': round(build_s, 1), 'monitor_s': round(time.time() - t0 - build_s, 1)}
