"""C19: the description of the automaton that %verbose prints, and that a rejection for conflicts contains."""
import re

import e2
from gram import EOI, Ref

ITEM = re.compile(r'^\s*(?:\((\d+)\)\s+)?(\S+) ::=(.*)$')
ACT = re.compile(r'^\s*(\S+)\s+(shift|reduce|accept|error)\s*(\d+)?\s*(.*)$')


class Malformed(Exception):
    pass


def parse(text):
    """list of (number, items, actions); item: (rule number or None, lhs, rhs words, dot); action: (symbol, verb, number, mark)"""
    out, cur, rest = [], None, []
    for ln in text.splitlines():
        m = re.match(r'^\s*State (\d+):\s*$', ln)
        if m:
            cur = (int(m.group(1)), [], [])
            out.append(cur)
            continue
        if not ln.strip():
            continue
        if re.match(r'^-{20,}$', ln.strip()):
            cur = None
            continue
        if cur is None:
            rest.append(ln)
            continue
        m = ITEM.match(ln)
        if m:
            if cur[2]:
                raise Malformed('an item after the actions of state %d: %s' % (cur[0], ln.strip()))
            w = m.group(3).split()
            if w.count('*') != 1:
                raise Malformed('state %d: an item without one dot: %s' % (cur[0], ln.strip()))
            d = w.index('*')
            w.remove('*')
            cur[1].append((int(m.group(1)) if m.group(1) else None, m.group(2), tuple(w), d))
            continue
        m = ACT.match(ln)
        if m:
            cur[2].append((m.group(1), m.group(2), int(m.group(3)) if m.group(3) else None, m.group(4).strip()))
            continue
        raise Malformed('a line that is neither an item nor an action in state %d: %s' % (cur[0], ln.strip()))
    return out, rest


def words(e):
    return frozenset(e.split('|'))


def check(g, ref, text, verbose):
    """list of messages"""
    bad = []
    states, rest = parse(text)
    if not states:
        return ['no state is described'], 0
    by = {}
    for n, items, acts in states:
        if n in by:
            return ['state %d is described twice' % n], 0
        by[n] = (items, acts)
    # the names of the nonterminals of X?: by their rules
    names = {}
    for items, _ in by.values():
        for _, l, w, d in items:
            if l not in ref.bylhs and l != g.start and len(w) == 1:
                names.setdefault(l, set()).add(words(w[0]))
    opt = {}
    inv = {}
    for o in g.opts:
        e = [p for p in ref.bylhs[o] if p.rhs][0].rhs[0]
        k = frozenset(e) if isinstance(e, tuple) else frozenset([e])
        c = [n for n, s in names.items() if k in s]
        inv.setdefault(k, []).append(o)
        if len(c) == 1 and len(inv[k]) == 1:
            opt[o] = c[0]
    for k, os_ in inv.items():
        if len(os_) > 1:
            return None, 0           # two optionals of the same text

    def rname(e):
        if isinstance(e, tuple):
            return frozenset(e)
        return frozenset([opt.get(e, e)])

    num = {}            # rule of the reference -> number in the report

    def item(it):
        p, d = it
        r = ref.prods[p]
        return (opt.get(r.lhs, r.lhs), tuple(rname(e) for e in r.rhs), d)

    def show(it):
        l, w, d = it
        w = ['|'.join(sorted(x)) for x in w]
        return '%s ::= %s' % (l, ' '.join(w[:d] + ['*'] + w[d:]))

    def ikey(i):
        return (i[0], [sorted(x) for x in i[1]], i[2])

    user = [p for p in ref.prods if not p.lhs.startswith('?')]
    match = {0: 0}
    todo = [0]
    if 0 not in by:
        return ['state 0 is not described'], 0
    cells = 0
    conf = {(s, t) for s, t, *_ in ref.conflicts}
    lost = []
    while (todo or lost) and len(bad) < 6:
        if not todo:
            # reached only by a shift that a non-associative token or a conflict replaced: known by its items
            s = lost.pop()
            if s not in match:
                w = sorted(map(ikey, [item(i) for i in ref.closures[s]]))
                c = [n for n, (items, _) in by.items() if n not in match.values() and sorted(
                    ikey((l, tuple(words(x) for x in r), d)) for _, l, r, d in items) == w]
                if c:
                    match[s] = c[0]
                    todo.append(s)
            continue
        s = todo.pop()
        n = match[s]
        items, acts = by[n]
        got = sorted([(l, tuple(words(x) for x in w), d) for _, l, w, d in items], key=str)
        want = sorted([item(i) for i in ref.closures[s]], key=str)
        key = ikey
        if sorted(map(key, got)) != sorted(map(key, want)):
            gk, wk = list(map(key, got)), list(map(key, want))
            for i in want:
                if gk.count(key(i)) < wk.count(key(i)):
                    bad.append('state %d lacks the item %s' % (n, show(i)))
            for i in got:
                if gk.count(key(i)) > wk.count(key(i)):
                    bad.append('state %d is said to have the item %s' % (n, show(i)))
            continue
        for no, l, w, d in items:
            cells += 1
            if d < len(w):
                if no is not None:
                    bad.append('state %d: the incomplete item %s has the number of a rule' % (n, show((l, tuple(words(x) for x in w), d))))
                continue
            if no is None:
                bad.append('state %d: the complete item of %s does not say its rule' % (n, l))
                continue
            it = (l, tuple(words(x) for x in w), d)
            c = [p for p in ref.prods if item((p.idx, len(p.rhs))) == it]
            ok = [p for p in c if p not in user or p.idx == no]
            if not ok:
                bad.append('state %d: %s is said to be rule %d instead of %s' % (n, show(it), no, [p.idx for p in c]))
            for p in ok:
                if p not in user:
                    if num.setdefault(p.idx, no) != no:
                        bad.append('rule %s has two numbers, %d and %d' % (show(it), num[p.idx], no))
                else:
                    num[p.idx] = no
        # the actions
        perSym = {}
        for sym, verb, k, mark in acts:
            perSym.setdefault(sym, []).append((verb, k, mark))
        A = ref.act[s]
        want_syms = set()
        for x in ref.goto[s]:
            want_syms.add('$' if x == EOI else opt.get(x, x))
        reds = {}
        for (p, d), f in ref.la[s].items():
            if d == len(ref.prods[p].rhs):
                for i, t in enumerate(ref.tnames):
                    if f >> i & 1:
                        reds.setdefault(t, set()).add(p)
        want_syms |= set(reds)
        if s == 0:
            want_syms.add(g.start)
        if set(perSym) != want_syms:
            x = sorted(set(perSym) ^ want_syms)[0]
            bad.append('state %d: %s on %s' % (n, 'an action is described' if x in perSym else 'no action is described', x))
            continue
        back = {v: k for k, v in opt.items()}
        for sym, ls in perSym.items():
            cells += 1
            x = back.get(sym, sym)
            where = 'state %d on %s' % (n, sym)
            if s == 0 and sym == g.start:
                if ls != [('accept', None, '')]:
                    bad.append('%s: %s instead of accept' % (where, ls))
                continue
            shifts = [l for l in ls if l[0] == 'shift']
            rd = [l for l in ls if l[0] == 'reduce']
            live = [l for l in ls if not l[2]]
            marked = [l for l in ls if 'conflict' in l[2].lower()]
            dropped = [l for l in ls if l[2] and l not in marked]
            if any(l[0] == 'accept' for l in ls):
                bad.append('%s: accept' % where)
            to = ref.goto[s].get(x)
            if len(shifts) > 1 or (shifts and to is None):
                bad.append('%s: %d shifts' % (where, len(shifts)))
                continue
            if shifts:
                k = shifts[0][1]
                if k not in by:
                    bad.append('%s: a shift to state %s, which is not described' % (where, k))
                    continue
                if to in match and match[to] != k:
                    bad.append('%s: a shift to state %d instead of %d' % (where, k, match[to]))
                    continue
                if to not in match:
                    if k in match.values():
                        bad.append('%s: a shift to state %d, which is another state' % (where, k))
                        continue
                    match[to] = k
                    todo.append(to)
            elif to is not None:
                lost.append(to)
            want_r = sorted(num.get(p, -1) for p in reds.get(x, ()))
            got_r = sorted(l[1] for l in rd)
            if want_r != got_r:
                bad.append('%s: reductions of the rules %s instead of %s' % (where, got_r, want_r))
                continue
            a = A.get(x) if x == EOI or not ref.isnt(x) else ('s', to)
            if to is not None and not shifts and (g.prec.get(x) or (0, ''))[1] != 'nonassoc' and (a is None or a[0] == 's' or (s, x) in conf):
                bad.append('%s: the shift is not described' % where)
            if (s, x) in conf:
                if not marked:
                    bad.append('%s: the conflict is not marked' % where)
                continue
            if marked:
                bad.append('%s: a conflict that precedence resolves is marked: %s' % (where, marked[0]))
                continue
            if len(live) != 1:
                bad.append('%s: %d actions in force: %s' % (where, len(live), live))
                continue
            w = {'s': ('shift', match.get(to)), 'r': ('reduce', num.get(a[1]) if a and a[0] == 'r' else None), 'e': ('error', None)}[a[0]]
            if live[0][:2] != w:
                bad.append('%s: %s %s instead of %s %s' % (where, live[0][0], live[0][1], w[0], w[1]))
            if any('preced' not in l[2] for l in dropped):
                bad.append('%s: an action out of force is not said to be dropped by precedence: %s' % (where, dropped[0]))
    if not bad and len(by) != len(match):
        # states that only actions dropped by precedence lead to are not described as reachable
        extra = sorted(set(by) - set(match.values()))
        bad.append('%d states are described that nothing leads to: %s' % (len(extra), extra[:5]))
    if not bad and ref.n != len(match):
        bad.append('%d of %d states are described' % (len(match), ref.n))
    if verbose and not bad:
        t = '\n'.join(rest)
        names_ = set(re.findall(r'^\s*\d+:\s*(\S+)\s*$', t, re.M))
        for x in list(ref.toks) + [l for l in ref.bylhs if not l.startswith('?')]:
            if x not in names_:
                bad.append('the list of symbols lacks %s' % x)
    return bad, cells


def case(i, g, verbose):
    return e2.Case('rep%d' % i, 'use pomelo::pomelo;\npomelo! {\n%s%s\n}\n' % ('    %verbose;\n' if verbose else '', g.emit()), 'any')


def part(ctx, accepted, ambiguous):
    """the printed description of every grammar against the reference automaton"""
    lab = e2.Lab(ctx.prop.lower())
    todo = []
    for i, g in enumerate(accepted):
        todo.append((g, True))
        if i % 4 == 0:
            todo.append((g, False))
    for i, g in enumerate(ambiguous):
        todo.append((g, i % 3 == 0))
    n = dict.fromkeys(('described', 'conflict_reports', 'silent', 'cells', 'not_reported', 'skipped', 'marked_cells', 'dropped_cells'), 0)
    for (g, verbose), (c, r, msg) in zip(todo, lab.run([case(i, g, v) for i, (g, v) in enumerate(todo)])):
        ref = Ref(g)

        def bad(what, m):
            ctx.violate('report:%s:%s' % (g.name, what), 'the description of the grammar %s: %s' % (g.name, m), {'grammar': g.text, 'verbose': verbose})
        if r['timeout'] or any('panicked' in d['message'] for d in r['diags']):
            bad('panic', 'the macro panics or does not end')
            continue
        own = [d for d in r['diags'] if not d.get('code')]
        conf = [d for d in own if d['message'].startswith('Parsing conflicts')]
        if ref.conflicts:
            if r['out'].strip():
                bad('output', 'a rejected grammar prints %r' % r['out'][:60])
            if not conf:
                if own and 'cannot be reduced' in own[0]['message']:
                    n['not_reported'] += 1
                else:
                    bad('rejection', 'an ambiguous grammar is not rejected with the list of conflicts')
                continue
            text = conf[0]['message'].split(':', 1)[1]
            n['conflict_reports'] += 1
        else:
            if conf:
                bad('rejection', 'a list of conflicts for a grammar without one')
                continue
            if not verbose:
                n['silent'] += 1
                if r['out'].strip():
                    bad('output', 'without %%verbose the macro prints %r' % r['out'][:60])
                continue
            text = r['out']
        try:
            ms, cells = check(g, ref, text, verbose)
        except Malformed as e:
            ms, cells = [str(e)], 0
        if ms is None:
            n['skipped'] += 1
            continue
        n['described'] += 1
        n['cells'] += cells
        n['marked_cells'] += len({x[:2] for x in ref.conflicts})
        n['dropped_cells'] += len(ref.cells) - len({x[:2] for x in ref.conflicts})
        for i, m in enumerate(ms[:3]):
            bad('%d' % i, m)
    ctx.add(programs=len(todo), disagreements_checked=n['cells'], reports_compared=n['described'], conflict_reports=n['conflict_reports'],
            conflict_cells=n['marked_cells'], resolved_cells=n['dropped_cells'], without_output=n['silent'],
            rejected_before_report=n['not_reported'], skipped=n['skipped'])
    ctx.floor('reports compared', n['described'], 400)
    ctx.floor('conflict reports', n['conflict_reports'], 80)
    ctx.floor('cells decided by precedence', n['dropped_cells'], 400)
    ctx.floor('cells left in conflict', n['marked_cells'], 150)
    ctx.floor('silent expansions', n['silent'], 80)
    ctx.level = 'translation_validation'
    ctx.notes.append('The description that the macro of the current tree prints for every witness grammar, or puts into the error for its conflicts, is parsed '
                     'and walked in step with the reference automaton: items, numbers of complete rules, the actions on every symbol, the marks of conflicts '
                     'and of actions dropped by precedence. One disagreement check is one item or one cell.')
    ctx.assumptions += ['the reference automaton (gram.py) is right', 'the witness grammars represent the rest']
