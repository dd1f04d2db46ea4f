"""Witness grammars around the widths of the table encodings."""
from gram import Gram

PLAIN = '%noextra\n%nosyntax\n%nofail\n'


def mk(name, text, big=True):
    g = Gram('sz_' + name, text)
    g.tags = {'size'}
    g.big = big
    # tokens fed to the parser: the ends, and those with codes next to a width boundary
    if len(g.terms) > 24:
        n = len(g.terms)
        g.only = [t for i, t in enumerate(g.terms) if i < 2 or i >= n - 4 or i in (125, 126, 127, 253, 254, 255) or i == n // 2 or t in ('Z', 'A', 'B')]
    return g


def seq(n, two=False):
    """one rule of n tokens: n states in a row"""
    t = PLAIN + '%types A=1 x=2\ns : x\nx : ' + ' '.join(['A!'] * (n - 3) + ['A', 'B', 'A']) + '\n'
    if two:
        t += 'x : B y B\ny :\ny : y A\n'
    return mk('seq%d%s' % (n, 'b' if two else ''), t)


def wide(n, mid=None):
    """n tokens, told apart by a class; others used as fallback target, wildcard, and in ordinary rules"""
    ts = ['T%d' % i for i in range(n)]
    k = n if mid is None else mid
    t = PLAIN + '%types s=1\n' + '%class K ' + ' '.join(ts[:k]) + '\n'
    rest = ts[k:]
    t += 's : l\nl : K\nl : l Z K\n'
    if rest:
        t += 'l : Z m\n'
        for i, r in enumerate(rest[:6]):
            t += 'm : %s\n' % r if i % 2 else 'm : Z %s\n' % r
        for r in rest[6:]:
            t += 'm : Z Z %s\n' % r
    return mk('wide%d_%d' % (n, k), t)


def last(n, kind):
    """the symbols that matter are the last of n tokens"""
    ts = ['T%d' % i for i in range(n)]
    t = '%noextra\n%nofail\n' + '%types T0=1 ' + '%s=1 ' % ts[-1] + '%s=1\n' % ts[-2]
    t += '%class K ' + ' '.join(ts[2:-4]) + '\n'
    if kind == 'fallback':
        t += '%%fallback %s %s\n' % (ts[-1], ts[-2])
        t += 's : l\nl :\nl : l %s\nl : l K %s\nl : l T0 %s\nl : l T1\n' % (ts[-1], ts[-2], ts[-3])
    elif kind == 'fallback1':
        t += '%%fallback T0 %s\n' % ts[-1]
        t += 's : l\nl :\nl : l T0\nl : l K T1 %s\n' % ts[-1]
    elif kind == 'wildcard':
        t = '%noextra\n%nofail\n%nosyntax\n%class K ' + ' '.join(ts[2:-4]) + '\n'
        t += '%wildcard ' + ts[-1] + '\n'
        t += 's : l\nl :\nl : l K\nl : l T0 %s T1\n' % ts[-1]
    elif kind == 'prec':
        t += '%%left %s\n%%right %s\n%%nonassoc %s\n' % (ts[-1], ts[-2], ts[-3])
        t += 's : e\ne : e %s e\ne : e %s e\ne : e %s e\ne : K\n' % (ts[-1], ts[-2], ts[-3])
    elif kind == 'error':
        t += '%errtype 8\n'
        t += 's : l\nl :\nl : l K T1\nl : l error %s\n' % ts[-1]
    elif kind == 'optional':
        t += 's : T1 %s? K %s?\n' % (ts[-1], ts[-2])
    elif kind == 'xtoken':
        t += '%xtoken 9\n'
        t += 's : l\nl : K\nl : l T0 %s\n' % ts[-1]
    if n > 400 and '%nosyntax' not in t:
        t = '%nosyntax\n' + t
    return mk('last%d_%s' % (n, kind), t)


def trie(n, bits, tys=False, stride=1):
    """n rules of n nonterminals, over two tokens"""
    t = PLAIN + '%types A=1 B=2' + (' ' + ' '.join('n%d=%d' % (i, i % 5) for i in range(0, n, 7)) if tys else '') + '\n'
    for i in range(n):
        t += 's : n%d\n' % i
    for i in range(n):
        c = format(i * stride, '0%db' % bits)
        t += 'n%d : %s\n' % (i, ' '.join(('B' if b == '1' else 'A') + ('!' if j else '') for j, b in enumerate(c)))
    return mk('trie%d_%d%s%d' % (n, bits, 't' if tys else '', stride), t)


def flat(n, bits):
    """n rules of one nonterminal, over two tokens"""
    t = PLAIN + '%types A=1 B=2\ns : x\n'
    for i in range(n):
        c = format(i, '0%db' % bits)
        t += 'x : %s\n' % ' '.join(('B' if b == '1' else 'A') + ('!' if j else '') for j, b in enumerate(c))
    return mk('flat%d_%d' % (n, bits), t)


def low(n, k):
    """states whose smallest lookahead is large: negative offsets"""
    ts = ['T%d' % i for i in range(n)]
    t = PLAIN + '%types T0=1\n'
    t += 's : K0 x\n%class K0 ' + ' '.join(ts[:n - k]) + '\n'
    for a in ts[n - k:]:
        t += 'x : %s %s\n' % (a, ts[-1])
    return mk('low%d_%d' % (n, k), t)


def nts(n):
    """many nonterminals in a row; the goto table is wide"""
    t = PLAIN + '%types A=1\ns : ' + ' '.join('n%d' % i for i in range(n)) + '\n'
    for i in range(n):
        t += 'n%d :\n' % i if i % 3 else 'n%d : A\n' % i
    return mk('nts%d' % n, t)


def both(n, m):
    """n states that each take m tokens: a long action table"""
    t = PLAIN + '%types T0=1\ns : ' + ' '.join('p%d' % i for i in range(n)) + '\n'
    for i in range(n):
        for j in range(m):
            t += 'p%d : T%d\n' % (i, (i * 7 + j) % (n + m))
    return mk('both%d_%d' % (n, m), t)


def chain(n):
    """a chain of n fallbacks, entered at every place"""
    ts = ['T%d' % i for i in range(n)]
    t = '%noextra\n%nofail\n%types Z=1\n'
    for a, b in zip(ts[1:], ts):
        t += '%%fallback %s %s\n' % (b, a)
    t += 's : l\nl :\nl : l T0 Z\nl : l Y %s Z\n' % ts[n // 2]
    return mk('chain%d' % n, t, big=False)


def quick():
    G = []
    for n in list(range(116, 132)) + list(range(242, 260)):
        G.append(seq(n, n % 3 == 0))
    for n in list(range(118, 131)) + list(range(246, 260)):
        G.append(wide(n, None if n % 2 else n - 5))
    for k in ('fallback', 'fallback1', 'wildcard', 'prec', 'error', 'optional', 'xtoken'):
        for n in (124, 127, 130, 252, 255, 258, 300):
            G.append(last(n, k))
    for n, b in ((60, 6), (100, 7), (122, 7), (124, 7), (126, 7), (128, 7), (180, 8), (250, 8), (253, 8), (256, 8), (300, 9)):
        G.append(trie(n, b, n % 4 == 0))
    for n, b in ((62, 6), (82, 7), (83, 7), (84, 7), (126, 7), (128, 7), (250, 8), (256, 8)):
        G.append(flat(n, b))
    for k in ('fallback', 'wildcard', 'prec', 'xtoken'):
        G.append(last(1000, k))
    G.append(wide(4000, 3995))
    G.append(last(33000, 'optional'))
    for n in (120, 125, 128, 131, 254, 257, 262, 300):
        G.append(low(n, 3))
    for n in (60, 120, 124, 126, 130, 250, 254, 258):
        G.append(nts(n))
    for n, m in ((8, 8), (12, 10), (16, 14), (20, 16)):
        G.append(both(n, m))
    return G


def thorough():
    G = quick()
    have = {g.name for g in G}
    more = [seq(n, n % 2 == 0) for n in list(range(100, 140)) + list(range(230, 270)) + [500, 520, 1000]]
    more += [wide(n, n - 7) for n in list(range(110, 135)) + list(range(240, 262)) + [510, 513, 700]]
    more += [trie(n, 8, True) for n in range(118, 132)] + [trie(n, 9, True) for n in range(248, 260)] + [trie(512, 9), trie(600, 10)]
    more += [flat(n, 8) for n in range(76, 90)] + [flat(n, 9) for n in (254, 255, 256, 257, 300, 500)]
    more += [low(n, k) for n in (126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 400) for k in (2, 5)]
    more += [nts(n) for n in list(range(118, 130)) + list(range(248, 258)) + [400]]
    more += [both(n, m) for n, m in ((24, 20), (30, 20), (16, 30))]
    for k in ('fallback', 'fallback1', 'wildcard', 'prec', 'error', 'optional', 'xtoken'):
        more += [last(n, k) for n in list(range(120, 132)) + list(range(249, 260))]
    more += [last(33000, k) for k in ('fallback', 'wildcard', 'prec')] + [wide(n, n - 7) for n in (32758, 32761, 32768)]
    for g in more:
        if g.name not in have:
            have.add(g.name)
            G.append(g)
    return G
