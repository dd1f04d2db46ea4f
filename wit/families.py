"""Seeded random grammar families.  Every member is a Gram in the mini format of gram.py."""
import heapq
import random
from gram import Gram, Ref

TERMS = ['A', 'B', 'C', 'D', 'F', 'G', 'H', 'J']


def useful(g):
    """all symbols productive and reachable, no rule derives itself in a cycle of unit rules"""
    prod = set()
    ch = True
    rules = g.prods
    isnt = lambda e: not isinstance(e, tuple) and (e[0].islower() or e[0] == '?') and e != 'error'
    while ch:
        ch = False
        for r in rules:
            if r.lhs not in prod and all((not isnt(e)) or e in prod for e in r.rhs):
                prod.add(r.lhs)
                ch = True
    if any(r.lhs not in prod for r in rules):
        return False
    reach, work = {g.start}, [g.start]
    while work:
        x = work.pop()
        for r in rules:
            if r.lhs == x:
                for e in r.rhs:
                    if isnt(e) and e not in reach:
                        reach.add(e)
                        work.append(e)
    lhs = {r.lhs for r in rules}
    return all(r.lhs in reach for r in rules) and reach <= lhs and len(g.terms) > 0


def base(rng, nn, nt, maxlen=4, style=None):
    """random rules: list of (lhs, rhs)"""
    nts = ['n%d' % i for i in range(nn)]
    terms = TERMS[:nt]
    rules = []
    for i, n in enumerate(nts):
        k = rng.choice([1, 2, 2, 3])
        seen = set()
        for j in range(k):
            ln = rng.choice([0, 1, 1, 2, 2, 3, 3, 4][:maxlen * 2])
            rhs = []
            for _ in range(ln):
                if rng.random() < 0.55:
                    rhs.append(rng.choice(terms))
                else:
                    # mostly refer to later nonterminals
                    rhs.append(rng.choice(nts[max(1, i - 1):] or nts[1:] or terms))
            if tuple(rhs) in seen or rhs == [n]:
                continue
            seen.add(tuple(rhs))
            rules.append((n, rhs))
    # something of each nonterminal must be reachable
    for i in range(1, nn):
        if not any(('n%d' % i) in rhs for _, rhs in rules):
            k = rng.randrange(len(rules))
            rules[k][1].insert(rng.randrange(len(rules[k][1]) + 1), 'n%d' % i)
    return nts, terms, rules


def layered(rng):
    """layered expression and statement grammars, as users write them"""
    lv = rng.randint(1, 3)
    ops = ['A', 'B', 'C', 'D', 'F', 'G']
    rng.shuffle(ops)
    rules = [('n0', ['n1'])]
    used = []
    for i in range(1, lv + 1):
        me, nx = 'n%d' % i, 'n%d' % (i + 1)
        rules.append((me, [nx]))
        for _ in range(rng.choice([1, 1, 2])):
            if not ops:
                break
            o = ops.pop()
            used.append(o)
            k = rng.random()
            rules.append((me, [me, o, nx] if k < .6 else [nx, o, me] if k < .8 else [me, o] if k < .9 else [o, me]))
    a = 'n%d' % (lv + 1)
    rules.append((a, ['H']))
    used.append('H')
    if rng.random() < .5:
        rules.append((a, ['J', 'n1', 'K']))
        used += ['J', 'K']
    if rng.random() < .3:
        rules.append((a, ['H', 'J', 'n%d' % (lv + 2), 'K']))
        sep = ops.pop() if ops else 'L'
        used += [x for x in ('J', 'K', sep) if x not in used]
        m = 'n%d' % (lv + 2)
        rules.append((m, [] if rng.random() < .5 else ['n1']))
        rules.append((m, [m, sep, 'n1'] if rng.random() < .6 else [m, 'n1', sep]))
    if rng.random() < .4:
        rules[0] = ('n0', ['l'])
        rules.insert(1, ('l', [] if rng.random() < .6 else ['n1', 'Semi']))
        rules.insert(2, ('l', ['l', 'n1', 'Semi'] if rng.random() < .7 else ['n1', 'Semi', 'l']))
        used.append('Semi')
    return ['n0'], used, rules


def typespec(rng, terms):
    o = []
    for i, t in enumerate(terms):
        if rng.random() < 0.6:
            o.append('%s=%d' % (t, i + 1))
    return '%types ' + ' '.join(o) if o else ''


def text_of(rng, head, rules, tryp=0.15, noalias=0.1):
    out = list(head)
    for lhs, rhs in rules:
        r = [x + ('!' if rng.random() < noalias and not x.endswith('?') else '') for x in rhs]
        out.append('%s : %s%s' % (lhs, ' '.join(r), ' {try}' if rng.random() < tryp else ''))
    return '\n'.join(x for x in out if x)


def exprs(rng):
    """expression grammars with precedence"""
    ops = ['Op%d' % i for i in range(rng.randint(1, 5))]
    head = []
    pool = ops[:]
    rng.shuffle(pool)
    declared = []
    while pool:
        k = min(len(pool), rng.choice([1, 1, 2]))
        grp, pool = pool[:k], pool[k:]
        head.append('%%%s %s' % (rng.choice(['left', 'right', 'nonassoc']), ' '.join(grp)))
        declared += grp
    rules = [('s', ['e'])]
    rules.append(('e', ['Num']))
    unary = []
    for o in ops:
        k = rng.random()
        if k < 0.6:
            rules.append(('e', ['e', o, 'e']))
        elif k < 0.75:
            rules.append(('e', [o, 'e']))
        elif k < 0.9:
            rules.append(('e', ['e', o]))
        else:
            rules.append(('e', ['e', o, 'e']))
            rules.append(('e', [o, 'e'], rng.choice(declared)))
    if rng.random() < 0.5:
        rules.append(('e', ['LP', 'e', 'RP']))
    if rng.random() < 0.3 and len(ops) > 1:
        rules.append(('e', ['e', ops[0], 'e', ops[1], 'e'], rng.choice(declared)))
    if rng.random() < 0.3:
        head.append('%right Then')
        head.append('%right Else')
        rules.append(('e', ['If', 'e', 'Then', 'e'], 'Then') if rng.random() < 0.5 else ('e', ['If', 'e', 'Then', 'e']))
        rules.append(('e', ['If', 'e', 'Then', 'e', 'Else', 'e']))
    rng.shuffle(head)
    head.append('%types Num=1' + (' %s=2' % ops[0] if rng.random() < 0.4 else ''))
    out = list(head)
    for r in rules:
        out.append('%s : %s%s%s' % (r[0], ' '.join(r[1]), ' [%s]' % r[2] if len(r) > 2 else '',
                                    ' {try}' if rng.random() < .15 else ''))
    return '\n'.join(out)


def expose(rng, rules, terms, kind):
    """make the lookaheads of a rule matter: a twin of its nonterminal with the same rules, followed by one of many tokens, takes the default
    reduction away from it"""
    at = [(l, i) for l, r in rules for i, x in enumerate(r) if x[0].islower() and x != 'error' and not x.endswith('?')]
    if not at:
        return []
    l, i = rng.choice(at)
    rhs = rng.choice([r for m, r in rules if m == l and len(r) > i and r[i][0].islower()] or [[]])
    if len(rhs) <= i or rhs[i] == 'error' or rhs[i].endswith('?'):
        return []
    x = rhs[i]
    fresh = ['Z%d' % k for k in range(rng.choice([3, 5, 8]))]
    if kind in ('fallback', 'mixed', 'wildcard') and rng.random() < .7:     # the lookaheads of the twins fall back to each other, or are the wildcard
        fresh = fresh[:rng.randint(0, 2)] + rng.sample(terms, min(len(terms), rng.randint(1, 2)))
    if kind in ('mixed', 'wildcard') and rng.random() < .5:
        fresh.append('W')
    tail = ['zz']
    if 'W' not in fresh and rng.random() < .6:
        tail = ['|'.join(fresh)]
    n = x + 'z'
    if any(m == n for m, _ in rules):
        return []
    more = []
    if tail == ['zz']:
        more = [('zz', [z]) for z in fresh]
    for m, r in list(rules):
        if m == x:
            more.append((n, list(r)))
    more.append((l, rhs[:i] + [n] + tail))
    rules += more
    return fresh


def overlap(rng, rules, terms):
    """a nonterminal that is followed by two compounds with tokens in common, in the same state"""
    at = [(l, r, i) for l, r in rules for i, x in enumerate(r) if x[0].islower() and x != 'error' and not x.endswith('?')]
    if not at:
        return
    l, r, i = rng.choice(at)
    pool = rng.sample(terms, min(len(terms), 2)) + ['L1', 'L2']
    rng.shuffle(pool)
    k = rng.randint(1, len(pool) - 2)
    a, b = pool[:k + 1], pool[k:]
    rng.shuffle(a)
    rng.shuffle(b)
    rules.append((l, r[:i + 1] + ['|'.join(a)] + rng.choice([[], ['M1'], ['M1', 'M2']])))
    rules.append((l, r[:i + 1] + ['|'.join(b)] + rng.choice([['M3'], ['M3', 'M1']])))


def gen_text(kind, rng):
    if kind == 'prec' and rng.random() < 0.7:
        return exprs(rng)
    shuffle = rng.random() < .3
    text = gen_text1(kind, rng, rng.random() < .35 and kind not in ('default', 'conflict'))
    if shuffle:
        a = text.split('\n')
        r = [x for x in a if not x.startswith('%')]
        first = r[0].split(':')[0].strip()
        rng.shuffle(r)
        text = '\n'.join([x for x in a if x.startswith('%')] + ['%start ' + first] + r)
    return text


def gen_text1(kind, rng, exposed):
    nn, nt = rng.randint(2, 5), rng.randint(2, 6)
    if kind == 'conflict':
        nn, nt = rng.randint(2, 4), rng.randint(2, 4)
    nts, terms, rules = base(rng, nn, nt) if rng.random() < 0.6 else layered(rng)
    head = []
    if kind == 'prec':
        pool = terms[:]
        rng.shuffle(pool)
        while pool and rng.random() < 0.85:
            k = min(len(pool), rng.choice([1, 1, 2]))
            head.append('%%%s %s' % (rng.choice(['left', 'right', 'nonassoc']), ' '.join(pool[:k])))
            pool = pool[k:]
    if kind in ('fallback', 'mixed'):
        pool = terms + ['X1', 'X2']
        rng.shuffle(pool)
        done = set()
        order = pool[:]
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(order[:-1])
            later = [x for x in order[order.index(f) + 1:] if x not in done]
            if later:
                ts = rng.sample(later, min(len(later), rng.randint(1, 2)))
                done.update(ts)
                head.append('%%fallback %s %s' % (f, ' '.join(ts)))
        terms = pool
    if kind in ('wildcard', 'mixed'):
        head.append('%wildcard W')
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(len(rules))
            rules[k][1].insert(rng.randrange(len(rules[k][1]) + 1), 'W')
        extra = rng.randint(0, 2)
        if extra:
            head.append('%types ' + ' '.join('Y%d=%d' % (i, 30 + i) for i in range(extra)))
        # the wildcard shows the token it matched only if every token has the same type
    if kind == 'class':
        cls = []
        for i in range(rng.randint(1, 2)):
            mem = rng.sample(terms, rng.randint(1, len(terms)))
            if i and rng.random() < 0.4:
                mem = mem[:2] + ['K0']
            head.append('%%class K%d %s' % (i, ' '.join(mem)))
            cls.append('K%d' % i)
        for lhs, rhs in rules:
            for i, x in enumerate(rhs):
                if x[0].isupper() and rng.random() < 0.4:
                    k = rng.random()
                    if k < 0.5:
                        rhs[i] = rng.choice(cls)
                    else:
                        rhs[i] = '|'.join(rng.sample(terms + cls, min(len(terms) + len(cls), rng.randint(2, 3))))
    if kind in ('optional', 'mixed'):
        for lhs, rhs in rules:
            for i, x in enumerate(rhs):
                if rng.random() < 0.25 and x != 'error' and x != 'W':
                    rhs[i] = x + '?'
    if kind == 'error':
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(rules))
            if rng.random() < 0.5:
                rules.append((rules[k][0], ['error'] + ([rng.choice(terms)] if rng.random() < .7 else [])))
            else:
                rules[k][1].insert(rng.randrange(len(rules[k][1]) + 1), 'error')
        if rng.random() < 0.6:
            head.append('%errtype 8')
        if rng.random() < 0.2:
            head.append('%nosyntax')
        if rng.random() < 0.2:
            head.append('%nofail')
    if kind == 'limit':
        head.append('%%stack %d - exact' % rng.randint(1, 6))
        if rng.random() < 0.3:
            head.append('%nooverflow')
    if kind == 'cstack':
        head.append('%%stack %d WStack' % rng.choice([0, 0, 20]))
    if kind == 'xtoken':
        head.append('%xtoken 9')
    if kind == 'api':
        for f in ('%noextra', '%noerror', '%nosyntax', '%nofail'):
            if rng.random() < 0.5:
                head.append(f)
    if kind == 'default':
        head.append('%default 5')
        return text_of(rng, head, rules, tryp=.1)
    if kind == 'class':
        # members of one class share their type so that they can be bound
        if rng.random() < 0.7:
            head.insert(0, '%types ' + ' '.join('%s=1' % t for t in terms))
        else:
            head.insert(0, typespec(rng, terms))
    elif kind == 'wildcard':
        if rng.random() < 0.3:
            head.insert(0, typespec(rng, terms))
    else:
        head.insert(0, typespec(rng, [t for t in terms]))
    if kind == 'class' and rng.random() < .5:
        overlap(rng, rules, terms)
        if head[0].endswith('=1') and rng.random() < .7:
            head[0] += ' L1=1 L2=1'
        exposed = exposed or rng.random() < .7
    if exposed:
        expose(rng, rules, terms, kind)
    return text_of(rng, head, rules)


def rref(g):
    return Ref(g)


def fallback_ok(g):
    """payloads must have the type of the fallback target"""
    for a, f in g.fallback.items():
        if g.typ(f) and g.typ(a) != g.typ(f):
            return False
    return True


def doubt(g, r):
    for s in range(r.n):
        for x in g.groups.values():
            c = [g.prods[i] for i in x if i in r.reducible[s]]
            if len(c) > 1 and len({(len(p.rhs), p.lhs) for p in c}) > len({len(p.rhs) for p in c}):
                return True
    return False


def make(kind, seed, i, want_conflict=False, tries=4000):
    rng = random.Random('%s/%s/%s/%s' % (kind, seed, i, want_conflict))
    for t in range(tries):
        try:
            text = gen_text(kind, rng)
            g = Gram('r_%s_%s_%d' % (kind if not want_conflict else 'cf_' + kind, seed, i), text)
        except (ValueError, AssertionError, KeyError):
            continue
        if not legal(g, kind):
            continue
        r = Ref(g)
        if r.n > 60:
            continue
        if bool(r.conflicts) != want_conflict:
            continue
        if not want_conflict and i % 3 == 1 and kind != 'api':
            # the same code text for several rules, unless a state could be in doubt which of them it runs
            h = Gram(g.name, text + '\n%shared')
            h.emit()
            if any(len(x) > 1 for x in h.groups.values()) and not doubt(h, r):
                r.g = g = h
        if not want_conflict:
            reduced = set()
            for A in r.act:
                reduced.update(a[1] for a in A.values() if a[0] == 'r')
            if len(reduced) != len(g.prods):
                continue
        g.tags = {'random', kind}
        g.ref = r
        return g
    return None


def features(g, r):
    """what the states of a grammar are like: the situations a generated parser can be in"""
    out = set()
    isred = lambda a: a and a[0] == 'r'
    comp = [e for p in g.prods for e in p.rhs if isinstance(e, tuple)]
    for s in range(r.n):
        A = r.act[s]
        kind = lambda t: A[t][0] if t in A else '-'
        reds = sorted({a[1] for a in A.values() if a[0] == 'r'})
        many = sum(1 for a in A.values() if isred(a))
        shifts = any(a[0] == 's' for a in A.values())
        er = r.error_goto(s) is not None
        w = kind(g.wildcard) if g.wildcard else ''
        eoi = kind('$')
        ker = len(r.kernels[s])
        goto = any(r.isnt(x) and x != 'error' for x in r.goto[s])
        st = (shifts, min(len(reds), 3), any(a[0] == 'e' for a in A.values()), er, w)
        out.add(('state', st, eoi, goto))
        out.add(('kernel', min(ker, 3), min(len(reds), 3), w, er))
        for p in reds:
            n = len(g.prods[p].rhs)
            out.add(('red', min(n, 3), er, shifts, len(reds) > 1, p == 0, g.prods[p].lhs == g.start, g.prods[0].lhs == g.start))
            # may this reduction be a default: is it the one with most tokens
            mine = sum(1 for a in A.values() if a == ('r', p))
            out.add(('share', mine * 2 > many, mine == many, min(mine, 2), w, er))
        for t, f in g.fallback.items():
            chain, x, prev = [], t, None
            while x is not None and len(chain) < 4:
                a = A.get(x)
                chain.append('-' if a is None else a[0] if a != prev else '=')
                prev = a or prev
                x = g.fallback.get(x)
            if set(chain) != {'-'}:
                out.add(('chain', tuple(chain), len(reds), shifts, w))
                out.add(('chain1', tuple(chain), len(reds) > 1, er))
        if w and w != '-':
            own = sorted({('=' if A[t] == A[g.wildcard] else A[t][0]) for t in A if t not in (g.wildcard, '$')})
            out.add(('wild', w, tuple(own), eoi, any(t not in A for t in r.toks if t != g.wildcard)))
        here = []
        for p, d in r.closures[s]:
            rhs = g.prods[p].rhs
            if d < len(rhs) and isinstance(rhs[d], tuple):
                here.append((rhs[d], d + 1 == len(rhs)))
            elif d < len(rhs) and d:
                nx = rhs[d]
                pr = rhs[d - 1]
                if pr == 'error':
                    out.add(('aftererr', 'nt' if r.isnt(nx) else 't', r.isnt(nx) and nx in r.nullable))
        if here:
            sets = [set(e) for e, _ in here]
            share = any(a & b and a != b for i, a in enumerate(sets) for b in sets[:i])
            single = any(not r.isnt(x) and (x,) != x and any(x in e for e in sets) for p, d in r.closures[s] for x in g.prods[p].rhs[d:d + 1]
                         if not isinstance(x, tuple))
            out.add(('comp', min(len(here), 3), share, single, tuple(sorted({x for _, x in here}))))
            out.add(('compred', share, single, min(len(reds), 2)))
        if er:
            t = r.error_goto(s)
            B = r.act[t]
            out.add(('err', min(len({a[1] for a in B.values() if isred(a)}), 2), any(a[0] == 's' for a in B.values()), min(ker, 2), len(reds), w))
        if comp:
            # lookaheads that come from compounds
            out.add(('follow', len(reds), min(many, 4), shifts))
        opt = [p for p in reds if g.prods[p].lhs.startswith('?')]
        if opt:
            out.add(('opt', tuple(sorted(min(len(g.prods[p].rhs), 1) for p in opt)), len(reds) > len(opt), shifts))
    for p in g.prods:
        out.add(('rhs', tuple('c' if isinstance(e, tuple) else 'e' if e == 'error' else 'o' if e[0] == '?' else 'n' if r.isnt(e) else 'w' if e == g.wildcard
                              else 'f' if e in g.fallback.values() else 't' for e in p.rhs)[:4]))
    return sorted(map(repr, out))


def _pool_one(arg):
    g = make(*arg)
    return (g.text, features(g, g.ref)) if g is not None else None


_POOL, SEEN = {}, {}


def choose(kind, seed, n, times=12, jobs=8):
    """n grammars of a family, such that rare situations occur as often as possible"""
    import multiprocessing
    key = (kind, seed, n, times)
    if key in _POOL:
        return _POOL[key]
    with multiprocessing.Pool(jobs) as pool:
        cand = [x for x in pool.map(_pool_one, [(kind, seed, i) for i in range(n * times)], chunksize=8) if x]
    count, out = {}, list(range(min(len(cand), n // 3)))     # some as they come, the others by what they add

    def take(i):
        for f in cand[i][1]:
            count[f] = count.get(f, 0) + 1

    def gain(i):
        return -sum(1.0 / (1 + count.get(f, 0)) ** 2 for f in cand[i][1]) / (20 + len(cand[i][0])) ** .5
    for i in out:
        take(i)
    heap = [(gain(i), i) for i in range(len(out), len(cand))]
    heapq.heapify(heap)
    while heap and len(out) < n:
        _, i = heapq.heappop(heap)
        x = gain(i)
        if heap and x > heap[0][0]:         # it adds less than when it was put there
            heapq.heappush(heap, (x, i))
            continue
        take(i)
        out.append(i)
    grams = []
    for j, i in enumerate(out):
        g = Gram('r_%s_%s_%d' % (kind, seed, j), cand[i][0])
        g.ref = Ref(g)
        g.tags = {'random', kind}
        grams.append(g)
    _POOL[key] = grams
    SEEN[key] = len(count)
    return grams


def legal(g, kind):
    if not useful(g):
        return False
    seen = set()
    for r in g.prods:
        k = (r.lhs, tuple(r.rhs))
        if k in seen:
            return False
        seen.add(k)
        if g.start in r.rhs or ('?' + g.start) in r.rhs:
            return False
        if kind == 'wildcard' or kind == 'mixed':
            pass
    if g.fallback:
        if not fallback_ok(g):
            return False
        if g.wildcard and (g.wildcard in g.fallback or g.wildcard in g.fallback.values()):
            return False
    if g.wildcard:
        if any(g.wildcard in e for r in g.prods for e in r.rhs if isinstance(e, tuple)):
            return False
    for c, m in g.classes.items():
        try:
            g.flat(c)
        except (AssertionError, KeyError):
            return False
    # no cyclic unit derivation (the reference reports those as conflicts anyway)
    return True


# ---------------------------------------------------------------------------
# Grammars chosen by the shapes of the competitions between actions in them
# ---------------------------------------------------------------------------
def skeleton(rng):
    """the rules of a tiny grammar"""
    nn, nt = rng.randint(2, 4), rng.randint(2, 5)
    _, terms, rules = base(rng, nn, nt, 3)
    if rng.random() < .5:       # compete: repeat a right-hand side under another nonterminal
        l, r = rng.choice(rules)
        rules.append((rng.choice(rules)[0] if rng.random() < .5 else 'n%d' % rng.randint(1, nn - 1), list(r)))
    if rng.random() < .25:
        mem = rng.sample(terms, 2)
        for _, rhs in rules:
            for i, x in enumerate(rhs):
                if x[0].isupper() and rng.random() < .4:
                    rhs[i] = '|'.join(rng.sample(terms, 2)) if rng.random() < .6 else '|'.join(mem)
    return terms, rules


def precedences(rng, terms, n):
    """random levels and the overrides of n rules"""
    head, pool = [], terms + ['P', 'Q']
    rng.shuffle(pool)
    while pool and rng.random() < .85:
        k = min(len(pool), rng.choice([1, 1, 2]))
        head.append((rng.choice(['left', 'right', 'nonassoc']), pool[:k]))
        pool = pool[k:]
    q = rng.choice([0, .2, .5])
    return head, [rng.choice(terms + ['P', 'Q']) if rng.random() < q else None for _ in range(n)]


def source(g, p):
    """where the precedence of a rule comes from"""
    r = g.prods[p]
    if r.prec:
        return 'ov' if r.prec in g.prec else 'ov0'
    i = 0
    for e in r.rhs:
        for m in (e if isinstance(e, tuple) else (e,)):
            if m[0].isupper():
                if m in g.prec:
                    return 'c%d' % min(i, 1) if isinstance(e, tuple) else 't%d' % min(i, 1)
                i += 1
    return '-'


def signature(g, ref, cell):
    s, t, shift, ps = cell
    a = g.prec.get(t)
    vals = [g.prods[p].precval for p in ps]
    lv = sorted({v[0] for v in vals + [a] if v is not None})
    rank = lambda v: None if v is None else lv.index(v[0])
    return (shift, a[1] if a and shift else None, rank(a) if shift else None, tuple(rank(v) for v in vals))


def cell_result(ref, cell):
    s, t, shift, ps = cell
    bad = [c for c in ref.conflicts if c[0] == s and c[1] == t]
    if bad:
        return '!' + bad[0][2]
    a = ref.act[s].get(t)
    return a[0] + (str(ps.index(a[1])) if a[0] == 'r' else '') if a else '-'


def _sig_chunk(arg):
    seed, n, nprec = arg
    rng = random.Random(seed)
    out, have = [], {}
    for _ in range(n):
        try:
            terms, rules = skeleton(rng)
            g = Gram('x', '\n'.join('%s : %s' % (l, ' '.join(r)) for l, r in rules))
        except (ValueError, AssertionError, KeyError):
            continue
        if not legal(g, 'prec'):
            continue
        r = Ref(g)
        if not r.cells or len(r.cells) > 12 or r.n > 40:
            continue
        comp = {(c[0], c[1]) for c in r.cells}
        free = {a[1] for s in range(r.n) for t, a in r.act[s].items() if a[0] == 'r' and (s, t) not in comp}
        # the states and lookaheads do not depend on precedences
        for _ in range(nprec):
            head, ov = precedences(rng, terms, len(rules))
            g.prec = {t: (i + 1, a) for i, (a, ts) in enumerate(head) for t in ts}
            for p in g.prods:
                p.prec = ov[p.idx]
                p.precval = g.rule_prec(p)
            r._actions()
            if len(r.conflicts) > 6:
                continue
            if r.conflicts:
                if len(free) < len(g.prods):
                    continue
                at = {(c[0], c[1]) for c in r.conflicts}
                cells = [x for x in r.cells if (x[0], x[1]) in at]
                # every conflict of this grammar is of the same shape
                if len({(signature(g, r, x), cell_result(r, x), tuple(sorted({source(g, p) for p in x[3]}))) for x in cells}) > 1:
                    continue
                cells = cells[:1]
            else:
                if len({a[1] for A in r.act for a in A.values() if a[0] == 'r'}) < len(g.prods):
                    continue
                cells = r.cells
            keys = set()
            for c in cells:
                src = tuple(sorted(set(source(g, p) for p in c[3])))
                res = cell_result(r, c)
                keys.add((signature(g, r, c), res))
                keys.add((c[2], min(len(c[3]), 2), src, res[0]))
            keys = sorted(map(repr, keys))
            if all(have.get(k, 0) > 3 for k in keys):
                continue
            for k in keys:
                have[k] = have.get(k, 0) + 1
            text = ['%%%s %s' % (a, ' '.join(ts)) for a, ts in head]
            text += ['%s : %s%s' % (l, ' '.join(rhs), ' [%s]' % o if o else '') for (l, rhs), o in zip(rules, ov)]
            out.append((bool(r.conflicts), sum(map(len, text)), '\n'.join(text), keys))
    return out


def by_signature(seed, chunks, per, jobs=8, want=None):
    """(resolved, ambiguous): grammars such that every shape of competition seen occurs `per` times"""
    import multiprocessing
    with multiprocessing.Pool(jobs) as pool:
        found = [x for c in pool.imap(_sig_chunk, [('sig/%s/%d' % (seed, i), 600, 40) for i in range(chunks)]) for x in c]
    found.sort(key=lambda x: x[1])      # the smallest first, stable
    out, shapes = ([], []), (set(), set())
    for amb in (False, True):
        n = {}
        for a, _, text, keys in found:
            if a != amb or (want is not None and want != amb):
                continue
            if any(n.get(k, 0) < per for k in keys):
                for k in keys:
                    n[k] = n.get(k, 0) + 1
                g = Gram('sig_%s%s_%d' % ('cf_' if amb else '', seed, len(out[amb])), text)
                g.tags = {'random', 'prec'}
                assert bool(Ref(g).conflicts) == amb, text
                out[amb].append(g)
        shapes[amb].update(n)
    return out[0], out[1], (len(shapes[0]), len(shapes[1]))
