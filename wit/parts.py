"""The parts a check is made of, and what they report."""
import copy
import json
import os
import random
import re
import time

import cases
import corpus
import e1
import e2
import e3
import e4
import families
import lib
import orders
import props
import report
import sizes

QUICK = {'random': 40, 'conflicts': 24, 'mutants': 500}
THOROUGH = {'random': 300, 'conflicts': 200, 'mutants': 5000}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []
        self.cov = {}
        self.samples = []
        self.level = 'other'
        self.assumptions = []
        self.notes = []
        self.n = dict(THOROUGH if tier == 'thorough' else QUICK)

    def violate(self, key, message, detail=None):
        self.violations.append({'property': self.prop, 'key': '%s' % key, 'message': message, 'detail': detail})

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def floor(self, what, have, want):
        if have < want:
            self.violate('floor:' + what, 'only %d %s analysed, at least %d expected' % (have, what, want))

    def coverage(self):
        c = dict(self.cov)
        c['samples'] = self.samples[:6]
        if self.notes:
            c['explanation'] = ' '.join(self.notes)
        if self.level == 'translation_validation':
            c.setdefault('programs', 0)
            c.setdefault('disagreements_checked', 0)
        return c

    def summary(self):
        return ', '.join('%s=%s' % (k, v) for k, v in sorted(self.cov.items()) if isinstance(v, int))


def ensure_driver():
    lib.build_driver()


def hand(tags):
    return [g for g in corpus.HAND if tags is None or g.tags & tags]


def fam(ctx, weights, n):
    out = []
    for k, w in weights.items():
        out += families.choose(k, ctx.seed, w * n, times=6 if ctx.tier == 'thorough' else 24)
    return out


def witness(v):
    o = []
    for t in v.get('path', [])[-14:]:
        o.append('%s -> %s: %s' % (t['node'], t['to'], json.dumps(t['events'])[:700]))
    return o


def part_e1(ctx, grams=None, kinds=None, tokm=None, name=None, floor=None, each=None, limit=100, timeout=500, steps=0):
    """extract the transition systems of the generated parsers and compare them with the reference"""
    k, tags, weights = props.E1[ctx.prop]
    kinds = set(kinds or k) | set(props.ALWAYS)
    if grams is None:
        grams = hand(tags) + fam(ctx, weights, ctx.n['random'])
        if ctx.prop in ('C03', 'C04'):
            grams += signatures(ctx)[0]
    ctx.level = 'translation_validation'
    res, errors, t = e1.run(name or ctx.prop.lower(), grams, limit=limit, timeout=timeout, steps=steps)
    by = {g.name: g for g in grams}
    for n, msgs in sorted(errors.items()):
        m = msgs[0]
        ctx.violate('e1:%s:compile' % n, 'the witness grammar %s is rejected or does not compile: %s'
                    % (n, m['message'][:300]), {'grammar': by[n].text, 'rendered': [x.get('rendered', '')[:1500] for x in msgs[:3]]})
    for n, r in sorted(res.items()):
        if r.get('bad'):
            ctx.violate('e1:%s:reference' % n, r['bad'])
            continue
        g = by[n]
        viol = list(r['viol'])
        viol += api_check(g, r)
        if tokm:
            viol += tokm(ctx, g, r)
        if each:
            each(ctx, g, r)
        for v in viol:
            if v['kind'] in kinds or kinds & set(v.get('also', ())):
                ctx.violate('e1:%s:%s' % (n, v['kind']), 'generated parser of grammar %s: %s%s'
                            % (n, v['message'], (', after the input ' + ' '.join(map(str, v['input']))) if v.get('input') else ''),
                            {'grammar': g.text, 'pomelo': g.emit() if len(g.text) < 4000 else '', 'kind': v['kind'],
                             'input': v.get('input'), 'path': witness(v)})
            else:
                ctx.add(other_disagreements=1)
        s = r.get('stats') or {}
        ctx.add(programs=1, disagreements_checked=s.get('edges', 0), product_states=s.get('states', 0),
                parser_nodes=s.get('nodes', 0), reductions=s.get('reductions', 0), shifts=s.get('shifts', 0),
                syntax_errors=s.get('errors', 0), recoveries=s.get('recoveries', 0), accepts=s.get('accepts', 0),
                expected_lists=s.get('expected_lists', 0), overflow_calls=s.get('overflow_calls', 0),
                fail_calls=s.get('fail_calls', 0), values_dropped=s.get('drops', 0),
                panics_on_failed_parser=s.get('panics_expected', 0), rules=s.get('rules_total', 0),
                ambiguous_edges_skipped=s.get('ambiguous', 0))
    rnd = random.Random(ctx.seed)
    for g in rnd.sample(grams, min(3, len(grams))):
        r = res.get(g.name) or {}
        s = r.get('stats') or {}
        ctx.samples.append({'grammar': g.name, 'text': g.text.strip()[:600], 'parser_nodes': s.get('nodes'),
                            'product_states': s.get('states'), 'edges_compared': s.get('edges')})
    ctx.cov['situations'] = len({f for g in grams if 'random' in g.tags for f in families.features(g, getattr(g, 'ref', None) or e1.Ref(g))})
    ctx.add(hand_grammars=sum(1 for g in grams if 'random' not in g.tags),
            random_grammars=sum(1 for g in grams if 'random' in g.tags))
    ctx.cov['build_s'] = t['build_s']
    ctx.cov['monitor_s'] = t['monitor_s']
    if floor:
        for what, want in floor.items():
            ctx.floor(what, ctx.cov.get(what, 0), want)
    ctx.notes.append('E1: every witness grammar is expanded by the macro of the current tree; a compiler driver '
                     'interprets the MIR of the generated parser abstractly (opaque payloads, full control state, '
                     'unbounded stack as a regular set) to a fixpoint, and the resulting transition system is compared '
                     'edge by edge with an independent LALR(1) reference. One disagreement check is one edge of the '
                     'product. Counted kinds: %s.' % ', '.join(sorted(kinds)))
    ctx.assumptions += ['user code blocks are arbitrary but terminate without unwinding',
                        'witness grammars stand for all grammars: hand-written ones by feature plus seeded random families']
    return lib.Workspace(name or ctx.prop.lower())


def api_check(g, r):
    """headers of the extraction: public interface"""
    out = []
    h = r.get('hdr') or {}

    def bad(msg):
        out.append({'kind': 'api', 'message': msg, 'input': []})
    if not h:
        return out
    want = ['end_of_input', 'new', 'parse'] + (['extra', 'extra_mut', 'into_extra'] if g.extra else [])
    if h.get('methods') != sorted(want):
        bad('public methods of Parser are %s instead of %s' % (h.get('methods'), sorted(want)))
    tok = {k: v for k, v in h.get('token', [])}
    terms = [t for t in g.terms if t != g.wildcard or True]
    if sorted(tok) != sorted(terms):
        bad('variants of Token are %s instead of %s' % (sorted(tok), sorted(terms)))
    else:
        for t in terms:
            ty = g.typ(t)
            own = 'hooks::T<%s>' % ty if ty and not ty.startswith('`') else ty
            if ty and ty.startswith('`'):
                continue
            if g.xtoken:
                x = 'hooks::T<%s>' % g.xtoken
                w = ['(%s, %s)' % (x, own)] if own else [x]
            else:
                w = [own] if own else []
            if tok[t] != w:
                bad('variant %s of Token carries %s instead of %s' % (t, tok[t], w))
    wm = ['extra', 'extra_mut', 'into_extra'] if g.xtoken else []
    if h.get('token_methods') != wm:
        bad('public methods of Token are %s instead of %s' % (h.get('token_methods'), wm))
    if h.get('items') != ['enum Token', 'struct Parser']:
        bad('items visible outside of the module are %s' % h.get('items'))
    if h.get('pub_fields'):
        bad('fields of Parser are visible: %s' % h.get('pub_fields'))
    return out


def tokm_check(ctx, g, r):
    """accessors of Token with %extra_token"""
    out = []

    def bad(msg):
        out.append({'kind': 'tokm', 'message': msg, 'input': []})
    if not g.xtoken:
        return out
    from mon import ren, subst, syms
    seen = {}
    for m, paths in (r.get('tokm') or {}).items():
        for evs in paths:
            v, ret, dropped, t, split = None, None, [], None, False
            if len(g.terms) == 1:       # an enum of one variant is not matched on
                t, v = g.terms[0], ['e', g.terms[0], ['f', 0, ['s', 0]]]
            for ev in evs:
                if ev[0] in ('fork', 'expand') and ev[1] == 0 and not split:
                    split = True
                    t, v = (ev[2], ev[3]) if ev[0] == 'fork' else (ev[2][1], ev[2])
                elif ev[0] == 'expand':
                    v = subst(v, ev[1], ev[2])
                elif ev[0] == 'drop':
                    dropped += ev[1]
                elif ev[0] == 'ret':
                    ret = ev[1]
                elif ev[0] in ('panic', 'diverge', 'unsupported'):
                    ret = ev
            if t is None:
                bad('Token::%s does not depend on the token' % m)
                continue
            if t not in g.terms:
                continue
            pay = v[2] if len(v) > 2 else None
            typed = bool(g.typ(t))
            if typed:
                part = pay[1] if isinstance(pay, list) and pay and pay[0] == 't' else ['f', 0, pay]
                other = syms(pay[2]) if isinstance(pay, list) and pay and pay[0] == 't' else None
            else:
                part, other = pay, []
            want = part if m == 'into_extra' else ['r', part]
            if ret != want:
                bad('Token::%s of %s returns %s instead of %s' % (m, t, json.dumps(ret), json.dumps(want)))
            if m == 'into_extra' and other is not None and sorted(dropped) != sorted(other):
                bad('Token::into_extra of %s drops %s instead of the payload' % (t, dropped))
            if m != 'into_extra' and dropped:
                bad('Token::%s drops a value' % m)
            seen.setdefault(m, set()).add(t)
            ctx.add(token_accessor_paths=1)
    for m in ('extra', 'extra_mut', 'into_extra'):
        if seen.get(m) != set(g.terms):
            bad('Token::%s is not defined for every token: %s' % (m, sorted(seen.get(m, []))))
    return out


_SIG = {}


def signatures(ctx):
    """grammars in which every shape of competition between actions occurs, resolved and unresolved"""
    k = (ctx.seed, ctx.tier)
    if k not in _SIG:
        a, b, n = families.by_signature(ctx.seed, *((400, 6) if ctx.tier == 'thorough' else (64, 2)))
        _SIG[k] = (a, b)
        ctx.cov['resolved_competition_shapes'], ctx.cov['unresolved_competition_shapes'] = n
        ctx.floor('shapes of resolved competitions', n[0], 90)
        ctx.floor('shapes of unresolved conflicts', n[1], 55)
    return _SIG[k]


def ambiguous(ctx, times=1):
    kinds = ['lang', 'prec', 'fallback', 'wildcard', 'class', 'optional', 'error', 'default', 'xtoken']
    if ctx.prop == 'C04':
        kinds = ['prec']
    G = []
    n = ctx.n['conflicts'] * (3 if len(kinds) == 1 else times)
    for k in kinds:
        for i in range(n):
            g = families.make(k, ctx.seed, i, True)
            if g is not None:
                G.append(g)
    return G + list(corpus.CONFLICT) + signatures(ctx)[1]


def part_conflicts(ctx):
    """grammars the reference finds ambiguous must be rejected"""
    G = ambiguous(ctx)
    ws = lib.Workspace(ctx.prop.lower() + 'cf')
    ws.write([(e1.wname(g), e1.body(g), 1) for g in G])
    bad, other = ws.build()
    if bad is None:
        raise lib.ToolError('the build of the conflict witnesses timed out')
    n = 0
    for g in G:
        m = bad.get(e1.wname(g))
        n += 1
        if not m:
            ref = e1.Ref(g)
            c = ref.conflicts[0]
            ctx.violate('cf:%s' % g.name, 'the grammar %s has an unresolved %s conflict on %s but is accepted'
                        % (g.name, {'sr': 'shift/reduce', 'rr': 'reduce/reduce'}[c[2]], 'end of input' if c[1] == '$' else c[1]),
                        {'grammar': g.text})
        elif any('panicked' in x['message'] for x in m):
            ctx.violate('cf:%s:panic' % g.name, 'the macro panics on the ambiguous grammar %s: %s' % (g.name, m[0]['message'][:200]),
                        {'grammar': g.text})
    ctx.add(ambiguous_grammars_rejected=n - len([1 for v in ctx.violations if v['key'].startswith('cf:')]))
    ctx.cov['programs'] = ctx.cov.get('programs', 0) + n
    ctx.cov['disagreements_checked'] = ctx.cov.get('disagreements_checked', 0) + n
    ctx.floor('ambiguous grammars', n, 60)
    ctx.notes.append('Conflicts: grammars for which the reference finds an unresolved LALR(1) conflict must be rejected by the macro.')


def narrow_check(ctx, g, r):
    """conversions to 16 bits in the parser of a small grammar do not grow with it"""
    s, f = r.get('stats') or {}, (r.get('hdr') or {}).get('facts')
    if not f:
        return
    ctx.add(integer_casts=f['casts'])
    if 'ref_states' in s and s['ref_states'] + s['rules_total'] < 230 and len(g.terms) + len({p.lhs for p in g.prods}) < 110:
        ctx.add(small_modules=1)
        for x in f['narrow']:
            if ' as i16' in x or ' as u16' in x:
                ctx.violate('e4:%s:narrow' % g.name, 'the parser of a small grammar narrows to a fixed 16 bits, which does not grow with the grammar: %s' % x,
                            {'grammar': g.text})


def part_sizes(ctx):
    G = sizes.thorough() if ctx.tier == 'thorough' else sizes.quick()
    part_e1(ctx, grams=G, each=narrow_check, limit=400, timeout=3000 if ctx.tier == 'thorough' else 600,
            floor={'programs': 140, 'reductions': 5000, 'small_modules': 15})
    ctx.cov['max_tokens'] = max(len(g.terms) for g in G)
    ctx.cov['max_rules'] = max(len(g.prods) for g in G)
    ctx.cov['max_parser_states'] = max((len(g.prods[1].rhs) if g.name.startswith('sz_seq') else 0) for g in G)
    ctx.notes.append('Grammars with more than 24 tokens are fed every sequence over the first, middle and last tokens and those with codes next to '
                     'a width boundary, instead of all tokens.')


# C28: elementary steps of MIR a table lookup and what surrounds it may take (about 200 are taken)
LOOKUP = 800
# elements in the tables of some grammars whose rows leave holes for each other, with a third to spare; the full
# matrices of states and symbols are five to fifty times as large
CELLS = {'pascal': 290, 'json': 170, 'prec_many': 650, 'sz_nts60': 570, 'sz_last300_prec': 1970, 'sz_last300_error': 1200,
         'sz_both8_8': 425, 'sz_both12_10': 750, 'sz_both16_14': 1330, 'sz_both20_16': 1900, 'sz_both30_20': 3600,
         'sz_trie60_61': 1180, 'sz_trie128_71': 2500, 'sz_seq120': 640, 'sz_flat62_6': 660}


def part_linear(ctx):
    """no endless reductions, a bounded number of steps for each operation on the stack, packed tables"""
    kinds = {k: 1 for k in ('lang', 'prec', 'fallback', 'wildcard', 'class', 'optional', 'default', 'error', 'xtoken', 'mixed', 'limit', 'cstack')}
    G = hand(None) + fam(ctx, kinds, 12 if ctx.tier == 'quick' else 100)
    G += [sizes.both(*x) for x in ((8, 8), (12, 10), (16, 14), (20, 16), (30, 20))]
    G += [sizes.trie(60, 6), sizes.trie(128, 7), sizes.flat(62, 6), sizes.nts(60), sizes.seq(120), sizes.low(300, 3), sizes.wide(1000), sizes.chain(16)]
    G += [sizes.last(300, k) for k in ('fallback', 'wildcard', 'prec', 'error', 'optional', 'xtoken')]
    missing = []

    def compact(ctx, g, r):
        n = ((r.get('hdr') or {}).get('facts') or {}).get('cells', 0)
        s = r.get('stats') or {}
        ctx.cov['longest_run'] = max(ctx.cov.get('longest_run', 0), s.get('cost', 0))
        ctx.cov['steps_of_a_lookup'] = max(ctx.cov.get('steps_of_a_lookup', 0), s.get('lookup', 0))
        ctx.cov['steps_of_an_expected_token'] = max(ctx.cov.get('steps_of_an_expected_token', 0), s.get('lookup_expected', 0))
        ctx.add(table_cells=n)
        if 'cost' in s:
            ctx.add(bounded=1)
        if g.name in CELLS:
            ctx.add(budgets=1)
            if not n:
                missing.append(g.name)
            if n > CELLS[g.name]:
                ctx.violate('e4:%s:cells' % g.name, 'the tables of grammar %s have %d elements, more than the %d that packed rows need' % (g.name, n, CELLS[g.name]),
                            {'grammar': g.text[:3000]})
    part_e1(ctx, grams=G, kinds=('linear',), each=compact, floor={'programs': 250, 'reductions': 4000, 'bounded': 250}, steps=LOOKUP)
    if len(missing) > 3:
        raise lib.ToolError('no tables found in the modules of ' + ' '.join(missing))
    ctx.notes.append('Cost: the reductions that the parser takes are a pushdown system; no run of it from any two adjacent entries may go on without '
                     'consuming the token or uncovering the entry it started over, and every edge of the transition system, which is the work between two operations on the '
                     'stack, takes a bounded number of steps that grows with neither tokens nor states. Operations that walk over the stack are not in the model and stop the analysis.')


ORDER_FREE = ('syn_',)


def part_orders(ctx):
    """declarations in another order, symbols with other names: the same parser, or the same rejection"""
    thorough = ctx.tier == 'thorough'
    base = hand(None) + fam(ctx, {k: 1 for k in ('lang', 'prec', 'fallback', 'wildcard', 'class', 'optional', 'default', 'error', 'xtoken', 'mixed')},
                            40 if thorough else 5)
    G, nr = [], 0
    for i, g in enumerate(base):
        if g.exact and 'limit' in g.tags and not thorough and i % 3:
            continue
        ks = range(6) if thorough else [(i + ctx.seed) % 5, 4] if i % 5 != 4 else [0, 1]
        for k in sorted(set(ks)):
            if not hasattr(g, 'source'):
                G.append(orders.permuted(g, k, ctx.seed))
        for k in (range(3) if thorough else [i % 3]):
            h = orders.renamed(g, k, ctx.seed)
            if h:
                nr += 1
                G.append(h)
    no = len(G) - nr
    pairs = []
    for i, g in enumerate(base):
        if (thorough or i % 6 == ctx.seed % 6 or g.name in ('calc', 'sx')) and not hasattr(g, 'source') and not g.exact:
            G.append(g)
            for h in orders.twins(g):
                pairs.append((g, h))
                G.append(h)
    ws = part_e1(ctx, grams=G, floor={'programs': 250}, limit=200, timeout=1500 if thorough else 500)
    for g, h in pairs:
        a, b = ws.result(e1.wname(g)), ws.result(e1.wname(h))
        if a and b:
            d = orders.same(a, b, e1.wname(g), e1.wname(h))
            ctx.add(identical_parsers=1)
            if d:
                ctx.violate('same:%s' % h.name, 'the parser of grammar %s is another one with %s: %s instead of %s' % (
                    g.name, '%verbose' if h.name.endswith('_v') else 'another %module', d[2][:200], d[1][:200]), {'grammar': g.text, 'pomelo': h.source})
    ctx.floor('pairs of identical parsers', ctx.cov.get('identical_parsers', 0), 50)
    ctx.cov['reordered_grammars'] = no
    ctx.cov['renamed_grammars'] = nr
    # rejection and acceptance of small grammars in every order
    rng = random.Random(ctx.seed)
    cs, want = [], {}
    for c in cases.BAD:
        name, bad = c[0], c[1].replace('⟦', '').replace('⟧', '')
        good = c[2] if len(c) > 2 else None
        if name.startswith(ORDER_FREE) or name.startswith('norules'):
            continue
        for what, text in (('err', bad), ('ok', good)):
            if not text:
                continue
            decls = orders.split(text)
            for j, o in enumerate(orders.all_orders(decls, rng, 24 if thorough else 5)):
                cs.append(cases.gr('ord_%s_%s%d' % (name, what, j), ' '.join(o), what))
    for k in ('lang', 'prec', 'fallback', 'wildcard', 'class', 'optional', 'error', 'default'):
        for i in range(20 if thorough else 5):
            g = families.make(k, ctx.seed, i, True)
            if g is None:
                continue
            decls = [d.strip() for d in g.emit().split('\n') if d.strip() and not d.strip().startswith('%include')]
            decls = [re.sub(r'hooks::\w+', 'hooks', d) for d in decls]
            for j in range(2):
                o = orders.interleave(decls, rng, True)
                cs.append(cases.gr('ordcf_%s_%d_%d' % (k, i, j), '\n'.join(o), 'err', cap=False))
    part_e2(ctx, cs, 'E2: the ill-formed and well-formed grammars of C18, and ambiguous grammars, with their declarations in other orders, '
            'must be rejected and accepted just the same.')
    ctx.floor('programs in other orders', len(cs), 300)


def grams_e4(ctx):
    kinds = {k: 1 for k in ('lang', 'prec', 'fallback', 'wildcard', 'class', 'optional', 'default', 'error', 'limit', 'xtoken', 'cstack', 'api', 'mixed')}
    out = []
    for g in hand(None) + fam(ctx, kinds, ctx.n['random'] // 4):
        out.append(g)
        if ctx.prop == 'C24' and not g.stack_type and not any(k == 'nostack' for k, _ in g.dirs):
            h = copy.copy(g)
            h.name, h.stack_type = 'ns_' + g.name, 'WStack'
            out.append(h)
    return out


def part_e2(ctx, cs, what):
    """witness programs given to the compiler: accepted, or rejected with the right error at the right place"""
    t0 = time.time()
    lab = e2.Lab(ctx.prop.lower())
    n = {'ok': 0, 'err': 0, 'any': 0}
    rejected = 0
    for c, r, msg in lab.run(cs):
        n[c.want] += 1
        rejected += r['rc'] == 1
        if msg:
            ctx.violate('e2:' + c.name, 'the program %s %s' % (c.name, msg), {
                'source': c.src if len(c.src) < 6000 else c.src[:6000], 'expected': c.want, 'marks': [str(m) for m in c.marks],
                'diagnostics': [(d.get('rendered') or d['message'])[:1200] for d in r['diags'][:3]]})
    ctx.add(witness_programs=len(cs), must_compile=n['ok'], must_be_rejected=n['err'], mutated_programs=n['any'],
            rejected_with_location=rejected)
    ctx.cov['e2_s'] = round(time.time() - t0, 1)
    rnd = random.Random(ctx.seed)
    for c in rnd.sample(cs, min(2, len(cs))):
        ctx.samples.append({'program': c.name, 'source': c.src[:500], 'expected': c.want})
    ctx.notes.append(what)
    ctx.assumptions += ['rustc accepts and rejects programs as the language says, and its spans are right']


FLOORS = {
    'C01': {'programs': 200, 'reductions': 20000},
    'C05': {'programs': 60}, 'C06': {'programs': 60}, 'C07': {'programs': 60},
    'C10': {'recoveries': 300}, 'C12': {'overflow_calls': 100},
}


E2 = {
    'C18': (lambda c: cases.c18() + cases.c18_mutants(c.seed, c.n['mutants']),
            'E2: every ill-formed program must be rejected with an error whose first primary span lies in the marked construct, its '
            'corrected twin must compile, and programs made by mutating valid grammars must never make the macro panic, hang, or '
            'emit an error without a place in the source.', 600),
    'C11': (lambda c: cases.c11(), 'E2: programs that take the result twice, through a reference, or build or copy a parser must be '
            'rejected by the type checker, with the error on that use; their twins must compile.', 45),
    'C17': (lambda c: cases.c17(), 'E2: programs that coerce every generated function to exactly its documented type, match every variant, '
            'and use the names, attributes, visibility and generics as written must compile (also in editions 2018 and 2024); the same '
            'with another type, or with a name that must be hidden, must be rejected there.', 400),
    'C21': (lambda c: cases.c21(), 'E2: bounds Send + Sync on Parser and Token are discharged by the type checker for every payload that '
            'has them, and refused otherwise; unsafe code is forbidden.', 25),
    'C24': (lambda c: cases.c24(), 'E2: crates with no_std and neither std nor alloc must compile with every pair of directives.', 200),
    'C25': (lambda c: cases.c25(), 'E2: grammars must compile with a stack type that has only the documented functions, '
            'named by every kind of path.', 100),
    'C30': (lambda c: cases.c30(c.tier != 'quick'), 'E2: the first error for a mistake in a type, bound, attribute, item, pattern or block of the user is on the marked '
            'construct; the code that is added raises no warning.', 400),
}


def run(ctx):
    ensure_driver()
    p = ctx.prop
    if p in E2:
        fn, what, floor = E2[p]
        cs = fn(ctx)
        part_e2(ctx, cs, what)
        ctx.floor('witness programs', len(cs), floor)
    if p in e4.RULE:
        e4.part(ctx, grams_e4(ctx))
    if p == 'C20':
        e3.part(ctx)
        return
    if p == 'C19':
        kinds = {k: 1 for k in ('lang', 'prec', 'fallback', 'wildcard', 'class', 'optional', 'default', 'error', 'xtoken', 'mixed')}
        acc = [g for g in hand(None) if not hasattr(g, 'source')] + fam(ctx, kinds, 24 if ctx.tier == 'quick' else 200) + signatures(ctx)[0]
        report.part(ctx, acc, ambiguous(ctx, 3))
        return
    if p == 'C27':
        part_orders(ctx)
        return
    if p == 'C28':
        part_linear(ctx)
        return
    if p == 'C23':
        part_sizes(ctx)
        return
    if p not in props.E1:
        if p not in E2:
            raise lib.ToolError('no check for property ' + p)
        return
    part_e1(ctx, tokm=tokm_check if p == 'C16' else None, floor=FLOORS.get(p))
    if p in ('C03', 'C04'):
        part_conflicts(ctx)
