"""Product of an extracted parser transition system with the reference semantics.

The transition system (driver output) is the complete abstract behaviour of the generated parser:
every node reachable from Parser::new through the public methods for every token.  The monitor pairs
each of its stack entries with a state of the reference automaton and checks every edge.
"""
import json
from collections import deque
from gram import EOI


class Bad(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind, self.msg = kind, msg


def syms(v, out=None):
    if out is None:
        out = []
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 's' and not isinstance(v[1], list):
            if v[1] not in out:
                out.append(v[1])
        else:
            for x in v:
                syms(x, out)
    return out


def ren(v, m):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 's' and not isinstance(v[1], list):
            return ['s', m.get(v[1], 'dead')]
        return [ren(x, m) for x in v]
    return v


def subst(v, s, w):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 's' and v[1] == s:
            return w
        return [subst(x, s, w) for x in v]
    return v


UNIT = ['t']


class Defer(Exception):
    pass


class Entry:
    """stack entry: gen shape + reference (state, symbol, value)"""
    __slots__ = ('g', 'st', 'sym', 'val')

    def __init__(self, g, st, sym, val):
        self.g, self.st, self.sym, self.val = g, st, sym, val

    def canon(self):
        order = syms(self.g)
        m = {s: '#%d' % i for i, s in enumerate(order)}
        return (json.dumps(ren(self.g, m)), self.st, self.sym, json.dumps(ren(self.val, m)))


def uncanon(key, gshape):
    """rebuild an entry from a pair class and the actual shape of a mat event"""
    order = syms(gshape)
    m = {'#%d' % i: s for i, s in enumerate(order)}
    return Entry(gshape, key[1], key[2], ren(json.loads(key[3]), m))


class M:
    """monitor state"""
    __slots__ = ('status', 'ec', 'extra', 'known', 'below', 'call', 'tok', 'tokval', 'tokst', 'popped', 'pend',
                 'phase', 'res', 'loose', 'doomed', 'exp', 'trysym', 'sync', 'self_gone')

    def copy(self):
        n = M()
        for k in M.__slots__:
            v = getattr(self, k)
            if k in ('known', 'popped'):
                v = [Entry(e.g, e.st, e.sym, e.val) for e in v]
            elif k in ('loose', 'exp'):
                v = list(v)
            setattr(n, k, v)
        return n

    def key(self):
        return json.dumps([self.status, self.ec, self.extra,
                           [[e.g, e.st, e.sym, e.val] for e in self.known], self.below, self.call, self.tok,
                           self.tokval, self.tokst, [[e.g, e.st, e.sym, e.val] for e in self.popped], self.pend,
                           self.phase, self.res, sorted(self.loose, key=str), self.doomed, self.exp, self.trysym,
                           self.sync, self.self_gone])


def initial():
    m = M()
    m.status, m.ec, m.extra, m.known, m.below, m.call = 'new', 0, None, [], 'bottom', None
    m.tok = m.tokval = m.tokst = None
    m.popped, m.pend, m.phase, m.res, m.loose, m.doomed = [], None, 'idle', None, [], False
    m.exp, m.trysym, m.sync, m.self_gone = [], None, None, False
    return m


class Monitor:
    def __init__(self, ref, lts_lines, kinds=None, maxviol=12):
        self.ref, self.g = ref, ref.g
        self.edges = {}
        self.nodes = {}
        self.hdr = {}
        self.K = {}
        self.viol = []
        self.nviol = 0
        self.maxviol = maxviol
        # elementary steps of an edge, [1]: of one on which user code runs through the expected tokens
        self.maxsteps, self.maxedge = [0, 0], [None, None]
        self.taken = {}       # (state, token) -> rules the parser reduces by
        for ln in lts_lines:
            d = json.loads(ln)
            if d[0] == 'N':
                self.nodes[d[1]] = (d[2], d[3])
            elif d[0] == 'E':
                self.edges.setdefault(d[1], []).append((d[2], d[3], d[4]))
                x = any(e[0] == 'hook' and e[1] in ('exp', 'on_syntax') for e in d[3])
                if d[5] > self.maxsteps[x]:
                    self.maxsteps[x], self.maxedge[x] = d[5], (d[1], d[2])
            elif d[0] == 'H':
                self.hdr[d[1]] = d[2]
            elif d[0] == 'K':
                self.K[d[1]] = d[2]
        self.pp = {}          # pair -> set of pred pairs (or None for bottom)
        self.links = {}
        self.waiters = {}
        self.seen = set()
        self.work = deque()
        self.stats = {'edges': 0, 'reductions': 0, 'shifts': 0, 'errors': 0, 'accepts': 0, 'states': 0,
                      'syntax_calls': 0, 'fail_calls': 0, 'overflow_calls': 0, 'drops': 0, 'panics_expected': 0,
                      'rules': set(), 'refstates': set(), 'refacts': set(), 'fallback': 0, 'wildcard': 0,
                      'recoveries': 0, 'default_reductions': 0, 'expected_lists': 0}
        self.unmatched_mats = 0
        self.parent = {}
        self.fatal = set()
        self.learnt = {}      # (position, number) in a stack entry -> symbols seen there
        self.deferred = []
        self.resolving = False

    # ---- pair relation
    def addpred(self, c, p):
        s = self.pp.setdefault(c, set())
        if p in s:
            return
        s.add(p)
        for (node, mk, m) in self.waiters.get(c, ()):
            self.work.append((node, m, mk, p))
        for l in list(self.links.get(c, ())):
            self.addpred(l, p)

    def addlink(self, a, b):
        if a == b:
            return
        s = self.links.setdefault(a, set())
        if b in s:
            return
        s.add(b)
        for p in list(self.pp.get(a, ())):
            self.addpred(b, p)

    def fold(self, m):
        if self.g.exact:
            return
        while m.known:
            e = m.known[0]
            c = e.canon()
            if m.below == 'bottom':
                self.addpred(c, None)
            else:
                self.addlink(m.below, c)
            m.below = c
            if len(m.known) == 1:
                break
            c2 = m.known[1].canon()
            self.addpred(c2, c)
            m.known.pop(0)
            m.below = c2

    # ---- driving
    def run(self):
        start = [n for n, (k, _) in self.nodes.items() if k == '0']
        if len(start) != 1:
            self.report('unsupported', 'no start node', None, None, None)
            return
        self.push_state(start[0], initial(), None)
        while True:
            while self.work and self.nviol < self.maxviol:
                node, m, mk, pred = self.work.popleft()
                try:
                    self.step(node, m, mk, pred)
                except Defer:
                    self.deferred.append((node, m, mk, pred))
            if not self.deferred or self.nviol >= self.maxviol:
                break
            # reductions without code in states where several of them are possible
            before = len(self.seen)
            todo, self.deferred, self.resolving = self.deferred, [], True
            for x in todo:
                try:
                    self.step(*x)
                except Defer:
                    self.deferred.append(x)
            self.resolving = False
            if len(self.seen) == before and not self.work:
                break
        self.stats['ambiguous'] = len(self.deferred)
        self.stats['states'] = len(self.seen)

    def push_state(self, node, m, frm):
        k = (node, m.key())
        if k in self.seen:
            return
        self.seen.add(k)
        self.parent[k] = frm
        kind = self.nodes.get(node, ('?', 0))[0]
        self.work.append((node, m, k, False))
        if kind == 'M':
            b = m.below
            if b == 'bottom':
                # the monitor knows the stack ends here
                pass
            else:
                self.waiters.setdefault(b, []).append((node, k, m))
                for p in list(self.pp.get(b, ())):
                    self.work.append((node, m, k, p))

    def step(self, node, m, mk, pred):
        kind, info = self.nodes.get(node, ('?', 0))
        if kind in 'PDU':
            return
        if kind == 'M' and pred is False:
            if m.below == 'bottom':
                pred = None
            else:
                return
        defer = False
        for to, evs, rn in self.edges.get(node, ()):
            lost = False
            if kind == 'M':
                first = evs[0] if evs else None
                if first and first[0] == 'mat':
                    if pred is None:
                        continue
                    lost = True
                    g = first[2]
                    order = syms(g)
                    cm = {s: '#%d' % i for i, s in enumerate(order)}
                    if json.dumps(ren(g, cm)) != pred[0]:
                        continue
                elif first and first[0] == 'bottom':
                    if pred is not None:
                        continue
            self.stats['edges'] += 1
            n = m.copy()
            if lost:
                # the entries below are over-approximated from here on
                n.doomed = False
            try:
                for i, ev in enumerate(evs):
                    if ev[0] == 'mat':
                        n.known.insert(0, uncanon(pred, ev[2]))
                        n.below = pred
                        continue
                    if ev[0] == 'bottom':
                        n.below = 'bottom'
                        continue
                    self.event(n, ev)
                self.arrive(n, to, rn)
            except Bad as b:
                self.report(b.kind, b.msg, mk, node, (to, evs), ('errpass',) if n.phase == 'err' else ())
                continue
            except Defer:
                defer = True
                continue
            k2, info2 = self.nodes.get(to, ('?', 0))
            if k2 in 'X':
                continue
            if k2 in 'PDU':
                continue
            self.push_state(to, n, (mk, (node, to, evs)))
        if defer:
            raise Defer()

    # ---- cost
    def check_linear(self, steps):
        """every edge is bounded work, and the reductions between two tokens are paid for"""
        chain = 1
        for t in self.ref.toks:
            n, x = 1, t
            while self.g.fallback.get(x) and n < 1000:
                x, n = self.g.fallback[x], n + 1
            chain = max(chain, n)
        for i, what, lim in ((0, 'between two operations on the stack or calls of user code', steps * (3 + chain)),
                             (1, 'to run through the expected tokens', steps * (3 + chain) * (1 + len(self.ref.toks)))):
            if self.maxsteps[i] > lim:
                self.report('linear', '%d elementary steps %s, more than the %d a fixed number of table lookups takes, from node %s to %s'
                            % ((self.maxsteps[i], what, lim) + self.maxedge[i]), None, None, None)
        self.stats['cost'] = self.longest()
        self.stats['maxsteps'] = self.maxsteps[0]
        self.stats['lookup'] = round(self.maxsteps[0] / (3 + chain))
        self.stats['lookup_expected'] = round(self.maxsteps[1] / (3 + chain) / (1 + len(self.ref.toks)))

    def longest(self):
        """the reductions the parser takes, as a pushdown system: the longest run that neither consumes the token nor
        uncovers the entry it started over.  No infinite run: then n tokens cost O(n) reductions, as each run is paid for
        by the token or by the entry uncovered, and n runs can push O(n) entries."""
        best = 0
        gotos = [(p, t) for p in range(self.ref.n) for t in sorted(set(self.ref.goto[p].values()))] + [(None, 0)]
        for p, t in gotos:
            for tok in self.ref.toks + [EOI]:
                todo = [((p, t), 0)]
                while todo:
                    st, n = todo.pop()
                    for i in self.taken.get((st[-1], tok), ()):
                        r = self.ref.prods[i]
                        if len(r.rhs) >= len(st) or st[-1 - len(r.rhs)] is None:
                            continue
                        rest = st[:len(st) - len(r.rhs)]
                        g = self.ref.goto[rest[-1]].get(r.lhs)
                        if g is None:
                            continue
                        if n > 2 * self.ref.n + 100:
                            self.report('linear', 'endless reductions on %s over state %s, the last of them by rule %d (%s)'
                                        % (tok, p, i, self.rule(r)), None, None, None)
                            return n
                        best = max(best, n + 1)
                        todo.append((rest + (g,), n + 1))
        return best

    def note(self, kind, msg):
        raise Bad(kind, msg)

    def report(self, kind, msg, mk, node, edge, also=()):
        key = (kind, msg[:90])
        if key in self.fatal:
            return
        self.fatal.add(key)
        self.nviol += 1
        trace = []
        if edge:
            trace.append({'node': node, 'to': edge[0], 'events': edge[1]})
        k = mk
        while k is not None and len(trace) < 60:
            p = self.parent.get(k)
            if p is None:
                break
            k, (a, b, evs) = p
            trace.append({'node': a, 'to': b, 'events': evs})
        trace.reverse()
        self.viol.append({'kind': kind, 'also': list(also), 'message': msg, 'input': self.tokens_of(trace), 'path': trace})

    @staticmethod
    def tokens_of(trace):
        out = []
        pend = False
        for t in trace:
            for ev in t['events']:
                if ev[0] == 'call':
                    if ev[1] == 'parse':
                        pend = True
                    else:
                        pend = False
                        if ev[1] == 'end_of_input':
                            out.append('<end>')
                        elif ev[1] != 'new':
                            out.append('<%s>' % ev[1])
                elif ev[0] == 'fork' and pend:
                    out.append(ev[2])
                    pend = False
        return out

    # ---- semantics helpers
    def top(self, m):
        if m.known:
            return m.known[-1].st
        if m.below == 'bottom':
            return None
        raise Bad('internal', 'top of unknown stack')

    def topstate(self, m):
        return self.known_state(m)

    def known_state(self, m):
        """reference state before the pops in progress"""
        if m.popped:
            return m.popped[0].st
        if m.known:
            return m.known[-1].st
        if m.below == 'bottom':
            return 'empty'
        # folded top: its class carries the reference state
        return None

    def decide(self, m):
        s = self.known_state(m)
        if s is None or s == 'empty':
            return None, None
        a, how = self.ref.action(s, m.tok)
        return a, how

    def payload(self, m):
        """value carried by the current token as seen by the grammar"""
        v = m.tokval
        if v is None:
            return UNIT
        f = v[2:]
        if not f:
            return UNIT
        return f[0]

    # ---- events
    def event(self, m, ev):
        getattr(self, 'ev_' + ev[0], self.ev_unknown)(m, ev)

    def ev_unknown(self, m, ev):
        raise Bad('unsupported', 'event %r' % (ev,))

    def ev_any(self, m, ev):
        pass

    def ev_expand(self, m, ev):
        # ["expand", sym, shape]
        self.substall(m, ev[1], ev[2])

    def substall(self, m, s, w):
        for e in m.known + m.popped:
            e.g = subst(e.g, s, w)
            e.val = subst(e.val, s, w)
        for k in ('extra', 'tokval', 'pend', 'res'):
            v = getattr(m, k)
            if v is not None:
                setattr(m, k, subst(v, s, w))
        if s in m.loose:
            m.loose.remove(s)
            m.loose.extend(x for x in syms(w))

    def ev_call(self, m, ev):
        name, args = ev[1], ev[2]
        if name == 'new':
            if self.g.extra:
                if len(args) != 1:
                    raise Bad('api', 'Parser::new does not take the extra argument')
                m.extra = args[0]
            else:
                if args:
                    raise Bad('api', 'Parser::new takes arguments without %extra_argument')
                m.extra = UNIT
            m.call, m.phase = 'new', 'new'
            return
        if m.phase != 'idle':
            raise Bad('internal', 'call while %s' % m.phase)
        m.call = name
        m.doomed = False
        m.exp = []
        if name == 'parse':
            m.tok, m.tokval, m.tokst = None, args[1], 'held'
            m.phase = 'run'
            if len(self.ref.toks) == 1 and args[1][:1] == ['s']:
                # an enum with one variant: nothing to tell apart
                m.tok = self.ref.toks[0]
                if not self.symtyped(m.tok):
                    m.tokval = ['e', m.tok]
        elif name == 'end_of_input':
            m.tok, m.tokval, m.tokst = EOI, None, 'none'
            m.phase = 'run'
            m.self_gone = True
        elif name in ('into_extra', '(drop)'):
            m.phase = 'release'
            m.self_gone = True
        elif name in ('extra', 'extra_mut'):
            m.phase = 'access'
        else:
            m.phase = 'other'

    def ev_fork(self, m, ev):
        s, variant, shape = ev[1], ev[2], ev[3]
        if m.tokval == ['s', s] and m.tok is None:
            m.tok = variant
            m.tokval = shape
            if variant not in self.ref.tid:
                raise Bad('api', 'Token has a variant %s that is not a terminal of the grammar' % variant)
            return
        if m.trysym is not None and m.trysym[0] == s:
            what = m.trysym[1]
            m.trysym = None
            if variant == 'Ok':
                v = shape[2] if len(shape) > 2 else UNIT
                if what[0] == 'act':
                    m.pend = [what[1], v]
                else:                      # syntax
                    m.pend = ['error', v]
                    m.phase = 'syntax_ok'
                self.owned(m, v)
            else:
                m.phase, m.res = 'err', shape[2] if len(shape) > 2 else UNIT
                self.owned(m, m.res)
                m.pend = None
            return
        self.substall(m, s, shape)

    def owned(self, m, v):
        pass

    def newentry(self, g, st, sym, val):
        if sorted(map(str, syms(g))) != sorted(map(str, syms(val))):
            raise Bad('value', 'stack entry for %s holds %s, expected the value %s' % (sym, json.dumps(g), json.dumps(val)))
        return Entry(g, st, sym, val)

    def fail_top(self, m):
        raise Bad('internal', 'folded top')

    def resolve_reduce(self, m, p, where):
        """the entries popped so far are the right-hand side of p"""
        n = len(p.rhs)
        if len(m.popped) != n:
            raise Bad('lang', '%s: rule %d (%s) reduced with %d popped entries' % (where, p.idx, self.rule(p), len(m.popped)))
        ents = m.popped[::-1]
        m.popped = []
        return ents

    def rule(self, p):
        return '%s ::= %s' % (p.lhs, ' '.join('|'.join(e) if isinstance(e, tuple) else e for e in p.rhs))

    def check_reduce_legal(self, m, p):
        s = self.known_state(m)
        if s is None:
            self.fail_top(m)
        if s == 'empty':
            raise Bad('lang', 'reduction on an empty stack')
        if m.tok is None:
            a, how = ('r', p.idx) if p.idx in self.ref.reducible[s] else None, None
            if a is None:
                raise Bad('lang', 'rule %d (%s) reduced in a state where it cannot be' % (p.idx, self.rule(p)))
            for t in self.ref.toks + [EOI]:
                self.taken.setdefault((s, t), set()).add(p.idx)
            return
        self.taken.setdefault((s, m.tok), set()).add(p.idx)
        a, how = self.ref.action(s, m.tok)
        if a and a[0] == 'r' and a[1] == p.idx:
            self.stats['refacts'].add((s, m.tok))
            if how != m.tok:
                self.stats['wildcard' if how == self.g.wildcard else 'fallback'] += 1
            self.stats['reductions'] += 1
            self.stats['rules'].add(p.idx)
            return
        if a is None and p.idx in self.ref.reducible[s] and p.lhs != self.g.start:
            m.doomed = True
            self.stats['default_reductions'] += 1
            return
        raise Bad('lang', 'on token %s rule %d (%s) is reduced where the grammar demands %s'
                  % (m.tok, p.idx, self.rule(p), self.act_str(a)))

    def act_str(self, a):
        if a is None:
            return 'a syntax error'
        if a[0] == 's':
            return 'a shift'
        if a[0] == 'e':
            return 'a syntax error (nonassoc)'
        return 'the reduction of rule %d (%s)' % (a[1], self.rule(self.ref.prods[a[1]]))

    def ev_push(self, m, ev):
        g = ev[1]
        if m.phase == 'new':
            m.known.append(Entry(g, 0, '$bottom', UNIT))
            if syms(g):
                raise Bad('custody', 'bottom entry holds a user value')
            self.check_len(m)
            return
        if m.status != 'normal':
            raise Bad('status', 'push on a failed parser')
        if m.phase == 'syntax_ok':
            # shifting error
            s = self.known_state(m)
            t = self.ref.error_goto(s) if s not in (None, 'empty') else None
            if t is None:
                raise Bad('recover', 'error symbol shifted in a state that does not allow it')
            v = m.pend[1]
            m.pend = None
            m.known.append(self.newentry(g, t, 'error', v))
            m.phase = 'recovered'
            self.check_len(m)
            return
        if m.phase != 'run':
            raise Bad('lang', 'stack push in phase %s' % m.phase)
        if m.pend is not None:
            lhs, v = m.pend
            m.pend = None
            self.goto_push(m, g, lhs, v)
            return
        s = self.known_state(m)
        if s is None:
            self.fail_top(m)
        if s == 'empty':
            raise Bad('lang', 'push on an emptied stack')
        a, how = self.ref.action(s, m.tok)
        # silent reduction?
        if a and a[0] == 's' and not m.popped:
            if m.doomed:
                raise Bad('lang', 'token %s accepted after it was an error' % m.tok)
            if m.tokst != 'held':
                raise Bad('lang', 'token %s shifted twice' % m.tok)
            m.known.append(self.newentry(g, a[1], m.tok, self.payload(m)))
            self.check_len(m)
            m.tokst = 'shifted'
            m.phase = 'shifted'
            self.stats['shifts'] += 1
            self.stats['refacts'].add((s, m.tok))
            if how != m.tok:
                self.stats['wildcard' if how == self.g.wildcard else 'fallback'] += 1
            return
        if a and a[0] == 'r':
            p = self.ref.prods[a[1]]
        elif a is None:
            c = [self.ref.prods[i] for i in self.ref.reducible[s]
                 if self.ref.prods[i].hook is None and len(self.ref.prods[i].rhs) == len(m.popped)]
            if not c:
                raise Bad('lang', 'token %s is shifted where it is a syntax error' % m.tok)
            p = self.which(c, g)
        else:
            raise Bad('lang', 'token %s: stack push with %d pops where the grammar demands %s' % (m.tok, len(m.popped), self.act_str(a)))
        if p.hook is not None:
            raise Bad('lang', 'token %s: push without an action call where the grammar demands %s' % (m.tok, self.act_str(a)))
        self.check_reduce_legal(m, p)
        ents = self.resolve_reduce(m, p, 'silent')
        v = self.silent_value(m, p, ents)
        self.goto_push(m, g, p.lhs, v)

    @staticmethod
    def numbers(g):
        return [(i, x) for i, x in enumerate(g[2:]) if isinstance(x, int)] if isinstance(g, list) else []

    def which(self, c, g):
        """the candidate whose left-hand side the pushed entry stands for"""
        if len({p.lhs for p in c}) > 1:
            if not self.resolving:
                raise Defer()
            for i, x in self.numbers(g):
                if all(len(v) == 1 for (j, _), v in self.learnt.items() if j == i) and (i, x) in self.learnt:
                    c = [p for p in c if p.lhs in self.learnt[(i, x)]]
            if not c:
                raise Bad('lang', 'a reduction without code pushes a symbol that cannot be reduced to')
            if len({p.lhs for p in c}) > 1:
                raise Defer()
        return c[0]

    def silent_value(self, m, p, ents):
        if p.mode == 'opt0':
            return ['e', 'None']
        if p.mode == 'opt1':
            if self.symtyped(p.rhs[0]):
                return ['e', 'Some', ents[0].val]
            m.loose.extend(syms(ents[0].val))
            return ['e', 'Some', UNIT]
        typed = [e for e, x in zip(ents, p.rhs) if self.symtyped(x)]
        if self.g.typ(p.lhs):
            assert len(typed) == 1, 'corpus: rule without code'
            v = typed[0].val
        else:
            v = UNIT
        keep = syms(v)
        for e in ents:
            for x in syms(e.val):
                if x not in keep:
                    m.loose.append(x)
        return v

    def symtyped(self, e):
        if isinstance(e, tuple):
            return any(self.symtyped(x) for x in e)
        if e.startswith('?'):
            return True
        if self.g.istok(e) and self.g.xtoken:
            return True
        return bool(self.g.typ(e))

    def goto_push(self, m, g, lhs, v):
        s = self.known_state(m)
        if s is None:
            self.fail_top(m)
        t = self.ref.goto[s].get(lhs) if s != 'empty' else None
        if t is None:
            raise Bad('lang', 'no goto on %s' % lhs)
        m.known.append(self.newentry(g, t, lhs, v))
        for k in self.numbers(g):
            self.learnt.setdefault(k, set()).add(lhs)
        self.stats['refstates'].add(t)
        self.check_len(m)

    def check_len(self, m):
        if self.g.exact and self.g.limit and m.phase != 'new':
            if len(m.known) > self.g.limit:
                raise Bad('overflow', 'the stack grows to %d entries with %%stack_size %d' % (len(m.known), self.g.limit))

    def ev_pop(self, m, ev):
        if m.phase not in ('run',):
            if m.phase in ('release', 'err', 'accepted'):
                # entries released one by one
                if m.known:
                    e = m.known.pop()
                    m.loose.extend(syms(e.val))
                return
            if m.phase == 'failing' and m.known:
                m.loose.extend(syms(m.known.pop().val))
                return
            raise Bad('lang', 'stack pop in phase %s' % m.phase)
        if not m.known:
            raise Bad('internal', 'pop of unknown entry')
        e = m.known.pop()
        if m.pend is not None:
            if m.tok == EOI and m.pend[0] == self.g.start:
                # acceptance: the stack is emptied entry by entry
                m.loose.extend(syms(e.val))
                return
            raise Bad('lang', 'stack pop between an action and the push of its result')
        if m.popped and m.tok == EOI:
            s = self.known_state(m)
            if self.is_error_here(m, s) and len(m.popped) > max([len(self.ref.prods[i].rhs) for i in self.ref.reducible[s]] or [0]):
                # more than any reduction needs: the stack is emptied entry by entry
                m.sync, m.phase = s, 'failing'
                for x in m.popped + [e]:
                    m.loose.extend(syms(x.val))
                m.popped = []
                return
        if m.popped and m.tok is not None and m.tok != EOI and self.g.uses_error:
            s = self.known_state(m)
            if self.is_error_here(m, s) and len(m.popped) > max([len(self.ref.prods[i].rhs) for i in self.ref.reducible[s]] or [0]):
                # more than any reduction needs: the pops are those of error recovery
                self.recovery_pop(m, e)
                return
        m.popped.append(e)

    def ev_popempty(self, m, ev):
        pass

    def ev_clear(self, m, ev):
        ids = ev[1]
        if m.phase not in ('accepted', 'run', 'err', 'failing', 'release', 'recovered'):
            raise Bad('lang', 'stack cleared in phase %s' % m.phase)
        if m.phase == 'run' and m.pend is not None and m.pend[0] == self.g.start:
            pass
        if m.phase == 'run':
            m.sync = self.known_state(m)
        known = [x for e in m.known for x in syms(e.val)]
        for x in ids:
            if x == 'rest':
                continue
            if x not in known:
                raise Bad('custody', 'clearing the stack drops a value it does not hold')
        for x in known:
            if x not in ids:
                raise Bad('custody', 'a value on the stack is not dropped when the stack is cleared')
        if m.below != 'bottom' and 'rest' not in ids:
            raise Bad('custody', 'part of the stack survives clearing')
        m.known = []
        m.below = 'bottom'
        if m.phase == 'run':
            if m.pend is not None and m.pend[0] == self.g.start:
                m.phase = 'accepted'
            else:
                m.phase = 'failing'

    def ev_drop(self, m, ev):
        for x in ev[1]:
            self.stats['drops'] += 1
            if x == 'rest':
                if not m.self_gone:
                    raise Bad('custody', 'the stack is dropped while the parser lives')
                m.known = []
                m.below = 'bottom'
                continue
            if x in m.loose:
                m.loose.remove(x)
                continue
            if m.extra is not None and x in syms(m.extra):
                if m.self_gone and (m.call == '(drop)' or m.phase in ('err', 'release', 'run', 'failing')) and m.call != 'into_extra':
                    m.extra = UNIT
                    continue
                raise Bad('extra', 'the extra argument is dropped in %s' % m.call)
            if any(x in syms(e.val) for e in m.popped):
                # resolved later: mark as dropped
                for e in m.popped:
                    if x in syms(e.val):
                        e.val = subst(e.val, x, ['dropped'])
                continue
            if m.tokst in ('held', 'free') and m.tokval is not None and x in syms(m.tokval):
                m.tokval = subst(m.tokval, x, ['dropped'])
                continue
            if m.self_gone and any(x in syms(e.val) for e in m.known):
                for e in m.known:
                    if x in syms(e.val):
                        e.val = subst(e.val, x, ['dropped'])
                        e.g = subst(e.g, x, ['dropped'])
                continue
            if m.pend is not None and x in syms(m.pend[1]):
                m.pend = [m.pend[0], subst(m.pend[1], x, ['dropped'])]
                continue
            if m.phase == 'err' and x in syms(m.res):
                raise Bad('errpass', 'the error value is dropped instead of being returned')
            raise Bad('custody', 'a value is dropped that the parser does not own at this point (symbol %s)' % x)

    def ev_forget(self, m, ev):
        raise Bad('custody', 'a value is forgotten (mem::forget or ManuallyDrop)')

    # ---- hooks
    def checkextra(self, m, a):
        want = ['r', m.extra]
        if a != want:
            raise Bad('extra', 'user code sees %s as extra instead of %s' % (json.dumps(a), json.dumps(want)))

    def ev_hook(self, m, ev):
        name, gen, args, retv = ev[1], ev[2], ev[3], ev[4]
        f = getattr(self, 'hook_' + name, None)
        if f is None:
            raise Bad('unsupported', 'hook ' + name)
        if m.status != 'normal':
            raise Bad('status', 'user code %s runs on a failed parser' % name)
        f(m, gen, args, retv)

    def hook_act(self, m, gen, args, retv, tr=False):
        r = gen[0]
        if m.phase != 'run':
            raise Bad('lang', 'an action runs in phase %s' % m.phase)
        if m.pend is not None:
            raise Bad('lang', 'an action runs before the result of the previous one is stored')
        p = self.shared_rule(m, self.g.groups.get(r, []), args) if self.g.shared else self.ref.prods[r]
        r = p.idx
        self.checkextra(m, args[0])
        self.check_reduce_legal(m, p)
        ents = self.resolve_reduce(m, p, 'action')
        want = ['t']
        for e, al, x in zip(ents, p.alias, p.rhs):
            if al:
                want.append(e.val)
            else:
                for y in syms(e.val):
                    # dropped marks are already substituted
                    m.loose.append(y)
        if args[1] != want:
            raise Bad('value', 'the action of rule %d (%s) receives %s instead of %s'
                      % (r, self.rule(p), json.dumps(args[1]), json.dumps(want)))
        if (p.mode == 'try') != tr:
            raise Bad('value', 'wrong action code for rule %d' % r)
        if tr:
            m.trysym = [retv[1], ['act', p.lhs]]
        else:
            m.pend = [p.lhs, retv]

    def shared_rule(self, m, group, args):
        """which of the rules with the same code this action stands for"""
        s = self.known_state(m)
        if s is None:
            self.fail_top(m)
        if s == 'empty' or not group:
            raise Bad('lang', 'reduction on an empty stack')
        a = self.ref.action(s, m.tok)[0] if m.tok is not None else None
        if a and a[0] == 'r':
            return self.ref.prods[a[1]]
        c = [self.ref.prods[i] for i in group if i in self.ref.reducible[s] and len(self.ref.prods[i].rhs) == len(m.popped)]
        d = [p for p in c if args[1] == ['t'] + [e.val for e, al in zip(m.popped[::-1], p.alias) if al]]
        return (d or c or [self.ref.prods[group[0]]])[0]

    def hook_act_try(self, m, gen, args, retv):
        self.hook_act(m, gen, args, retv, True)

    def error_ctx(self, m, what):
        """the current token is an error in the state on top (after the pops in progress were recovery pops)"""
        if m.tok is None:
            raise Bad('lang', '%s before the token is known' % what)

    def is_error_here(self, m, s):
        a, how = self.ref.action(s, m.tok)
        return a is None or a[0] == 'e'

    def hook_exp(self, m, gen, args, retv):
        name, tok = args
        if m.phase != 'run' or m.pend is not None:
            raise Bad('lang', 'expected tokens listed in phase %s' % m.phase)
        m.exp.append([name, tok])

    def detect_state(self, m):
        # state where the error was detected: before any recovery pop
        return self.known_state(m)

    def check_expected(self, m):
        s = self.detect_state(m)
        want = self.ref.expected(s)
        got = [x[0] for x in m.exp]
        self.stats['expected_lists'] += 1
        if sorted(want) != sorted(got):
            raise Bad('expected', 'on %s the expected list is %s, but the acceptable tokens are %s' % (m.tok, got, want))
        for n, t in m.exp:
            if self.symtyped(n):
                w = ['e', 'None']
            else:
                w = ['e', 'Some', ['e', n]]
            if t != w:
                raise Bad('expected', 'expected entry %s carries %s instead of %s' % (n, json.dumps(t), json.dumps(w)))

    def hook_on_syntax(self, m, gen, args, retv):
        self.stats['syntax_calls'] += 1
        if m.phase != 'run' or m.pend is not None:
            raise Bad('lang', '%%syntax_error runs in phase %s' % m.phase)
        self.checkextra(m, args[0])
        s = self.detect_state(m)
        if s in (None, 'empty'):
            raise Bad('lang', '%syntax_error runs with an empty stack')
        if m.tok == EOI:
            raise Bad('fail', '%syntax_error runs at the end of input')
        if not self.is_error_here(m, s):
            raise Bad('lang', 'token %s is reported as a syntax error where the grammar demands %s'
                      % (m.tok, self.act_str(self.ref.action(s, m.tok)[0])))
        self.stats['errors'] += 1
        self.check_expected(m)
        if args[1] != ['e', 'Some', m.tokval]:
            raise Bad('syntok', '%%syntax_error receives %s instead of the offending token %s' % (json.dumps(args[1]), json.dumps(m.tokval)))
        m.tokst = 'given'
        if self.g.uses_error:
            self.recovery_pops(m)
            self.recovery_top(m, '%syntax_error')
            self.stats['recoveries'] += 1
        else:
            if m.popped:
                raise Bad('recover', 'stack entries are popped by a syntax error in a grammar without error')
            if m.ec != 0:
                raise Bad('ec', '%%syntax_error runs with %d shifts to go' % m.ec)
        m.trysym = [retv[1], ['syntax']]
        self.set_ec(m)

    def recovery_top(self, m, what):
        t = m.known[-1].st if m.known else None
        if t is None and m.below != 'bottom':
            raise Bad('internal', 'recovery top unknown')
        if t is None or self.ref.error_goto(t) is None:
            raise Bad('recover', '%s runs with no state that can shift error on top' % what)
        if m.known[-1].sym == 'error':
            raise Bad('recover', '%s runs although error is already on top' % what)

    def set_ec(self, m):
        if not self.g.uses_error:
            m.ec = 3

    def recovery_pops(self, m):
        for e in m.popped:
            self.recovery_pop(m, e)
        m.popped = []

    def recovery_pop(self, m, e):
        if e.sym == 'error':
            raise Bad('recover', 'the error symbol is popped by error recovery')
        if self.ref.error_goto(e.st) is not None:
            raise Bad('recover', 'a state that can shift error is popped')
        m.loose.extend(syms(e.val))

    def hook_on_fail(self, m, gen, args, retv):
        self.stats['fail_calls'] += 1
        self.checkextra(m, args[0])
        self.check_fail(m)
        m.phase, m.res = 'err', retv

    def check_fail(self, m):
        if m.phase not in ('run', 'failing') or m.pend is not None:
            raise Bad('lang', '%%parse_fail runs in phase %s' % m.phase)
        if m.phase == 'run':
            pass
        if m.sync is not None:
            s = m.sync
        else:
            s = self.known_state(m)
        if s is None or s == 'empty':
            raise Bad('fail', '%parse_fail runs with an empty stack')
        if not self.is_error_here(m, s):
            raise Bad('lang', '%s is rejected where the grammar demands %s'
                      % ('end of input' if m.tok == EOI else 'token ' + m.tok, self.act_str(self.ref.action(s, m.tok)[0])))
        if m.tok != EOI:
            if not self.g.uses_error:
                raise Bad('fail', '%parse_fail runs on a token error')
            self.recovery_pops(m)
            if m.known or m.below != 'bottom':
                raise Bad('recover', '%parse_fail runs before the whole stack was searched')
        else:
            for e in m.popped:
                m.loose.extend(syms(e.val))
            m.popped = []

    def hook_on_overflow(self, m, gen, args, retv):
        self.stats['overflow_calls'] += 1
        self.checkextra(m, args[0])
        self.check_overflow(m, args[1])
        m.phase, m.res = 'err', retv

    def check_overflow(self, m, tok):
        if not self.g.limit:
            raise Bad('overflow', '%stack_overflow runs without a limit')
        if self.g.exact and len(m.known) < self.g.limit:
            raise Bad('overflow', '%%stack_overflow runs with %d entries and %%stack_size %d' % (len(m.known), self.g.limit))
        if m.phase == 'run' and m.pend is not None:
            if tok is not None and tok != ['e', 'None']:
                raise Bad('ovftok', '%%stack_overflow receives %s for a reduction' % json.dumps(tok))
            if m.pend[0] == self.g.start:
                raise Bad('overflow', '%stack_overflow at acceptance')
            m.loose.extend(syms(m.pend[1]))
            m.pend = None
        elif m.phase == 'syntax_ok':
            if tok is not None and tok != ['e', 'None']:
                raise Bad('ovftok', '%%stack_overflow receives %s for the error symbol' % json.dumps(tok))
            m.loose.extend(syms(m.pend[1]))
            m.pend = None
        elif m.phase == 'run':
            a, how = self.decide(m)
            if m.popped or (a and a[0] == 'r') or a is None:
                # silent reduction
                if a and a[0] == 'r':
                    p = self.ref.prods[a[1]]
                elif a is None:
                    c = [self.ref.prods[i] for i in self.ref.reducible[self.known_state(m)]
                         if self.ref.prods[i].hook is None and len(self.ref.prods[i].rhs) == len(m.popped)]
                    if not c:
                        raise Bad('overflow', '%stack_overflow on an unacceptable token')
                    p = c[0]
                else:
                    raise Bad('lang', 'pops before a shift')
                if p.hook is not None:
                    raise Bad('overflow', '%stack_overflow instead of an action')
                self.check_reduce_legal(m, p)
                ents = self.resolve_reduce(m, p, 'overflow')
                v = self.silent_value(m, p, ents)
                m.loose.extend(syms(v))
                if tok is not None and tok != ['e', 'None']:
                    raise Bad('ovftok', '%%stack_overflow receives %s for a reduction' % json.dumps(tok))
            elif a and a[0] == 's':
                if tok is not None and tok != ['e', 'Some', m.tokval]:
                    raise Bad('ovftok', '%%stack_overflow receives %s instead of the token %s' % (json.dumps(tok), json.dumps(m.tokval)))
                m.tokst = 'given' if tok is not None else 'free'
            else:
                raise Bad('overflow', '%stack_overflow on an unacceptable token')
        else:
            raise Bad('overflow', '%%stack_overflow in phase %s' % m.phase)

    def hook_default(self, m, gen, args, retv):
        """Default::default() of the error type: the default blocks"""
        self.default_error(m, retv)

    def default_error(self, m, retv):
        """an error that no user block made: one of the omitted blocks must be responsible"""
        def syntax(n):
            s = self.known_state(n)
            if n.phase != 'run' or n.pend is not None or s in (None, 'empty') or n.tok == EOI:
                raise Bad('lang', 'default syntax error in phase %s' % n.phase)
            if not self.is_error_here(n, s):
                raise Bad('lang', 'token %s is rejected where the grammar demands %s' % (n.tok, self.act_str(self.ref.action(s, n.tok)[0])))
            self.stats['errors'] += 1
            if self.g.uses_error:
                self.recovery_pops(n)
                self.recovery_top(n, 'the default syntax error')
            elif n.popped:
                raise Bad('recover', 'entries popped before the default syntax error')
            elif n.ec:
                raise Bad('ec', 'default syntax error with %d shifts to go' % n.ec)
            if n.tokst == 'held':
                n.tokst = 'free'
        cands = []
        if not self.g.syntax:
            cands.append(syntax)
        if not self.g.fail:
            cands.append(self.check_fail)
        if self.g.limit and not self.g.overflow:
            cands.append(lambda n: self.check_overflow(n, None))
        first = None
        for c in cands:
            n = m.copy()
            try:
                c(n)
            except Bad as b:
                first = first or b
                continue
            n.phase, n.res = 'err', retv
            for k in M.__slots__:
                setattr(m, k, getattr(n, k))
            return
        raise first or Bad('errpass', 'an error that no user code returned, in phase %s' % m.phase)

    # ---- return
    def ev_ret(self, m, ev):
        v = ev[1]
        c = m.call
        if c == 'new':
            m.status, m.phase, m.call = 'normal', 'idle', None
            return
        if c == 'parse':
            self.ret_parse(m, v)
        elif c == 'end_of_input':
            self.ret_eoi(m, v)
        elif c == 'into_extra':
            if v != m.extra:
                raise Bad('extra', 'into_extra returns %s' % json.dumps(v))
            m.extra = UNIT
        elif c in ('extra', 'extra_mut'):
            if v != ['r', m.extra]:
                raise Bad('extra', '%s returns %s' % (c, json.dumps(v)))
        elif c == '(drop)':
            pass
        else:
            raise Bad('api', 'undocumented public method Parser::%s' % c)
        self.release(m)
        m.phase, m.call = 'idle', None

    def release(self, m):
        for e in m.popped:
            raise Bad('custody', 'popped entry for %s is unaccounted for' % e.sym)
        if m.loose:
            raise Bad('custody', 'a value (symbol %s) is never dropped' % m.loose)
        if m.tokst in ('held', 'free') and m.tokval is not None and syms(m.tokval):
            raise Bad('custody', 'the discarded token is never dropped')
        m.tok = m.tokval = m.tokst = None
        m.exp = []
        m.doomed = False
        m.res = None
        m.trysym = None
        m.sync = None

    OKU = ['e', 'Ok', UNIT]

    def ret_parse(self, m, v):
        if m.status != 'normal':
            raise Bad('status', 'parse returns on a failed parser')
        if m.phase == 'err':
            if v != ['e', 'Err', m.res]:
                raise Bad('errpass', 'parse returns %s instead of Err(%s)' % (json.dumps(v), json.dumps(m.res)))
            m.status = 'failed'
            m.ec = 0
            m.res = None
            return
        if v == self.OKU:
            if m.phase == 'shifted':
                if m.ec > 0:
                    m.ec -= 1
                return
            if m.phase == 'recovered':
                self.set_ec(m)
                return
            if m.phase == 'syntax_ok':
                if self.g.uses_error:
                    raise Bad('recover', 'parse returns after %syntax_error without shifting error')
                if m.pend[1] != UNIT and syms(m.pend[1]):
                    m.loose.extend(syms(m.pend[1]))
                m.pend = None
                self.set_ec(m)
                return
            if m.phase == 'run' and m.pend is None and (not m.popped or self.g.uses_error):
                s = self.known_state(m)
                if s in (None, 'empty') or m.tok is None:
                    raise Bad('lang', 'parse returns Ok without processing the token')
                if not self.is_error_here(m, s):
                    raise Bad('lang', 'token %s is dropped where the grammar demands %s' % (m.tok, self.act_str(self.ref.action(s, m.tok)[0])))
                if self.g.uses_error:
                    self.recovery_pops(m)
                    if not m.known or m.known[-1].sym != 'error':
                        raise Bad('recover', 'token %s is dropped silently although error is not on top' % m.tok)
                elif m.ec == 0:
                    raise Bad('ec', 'token %s is dropped without a call of %%syntax_error' % m.tok)
                self.set_ec(m)
                return
            raise Bad('lang', 'parse returns Ok in phase %s' % m.phase)
        # Err without an error: defaults with unit error type
        if v == ['e', 'Err', UNIT] and not self.g.error:
            self.default_err(m)
            m.status = 'failed'
            m.ec = 0
            return
        raise Bad('errpass', 'parse returns %s in phase %s' % (json.dumps(v), m.phase))

    def default_err(self, m):
        if m.phase == 'err':
            return
        self.default_error(m, UNIT)

    def ret_eoi(self, m, v):
        if m.status != 'normal':
            raise Bad('status', 'end_of_input returns on a failed parser')
        if m.phase == 'err':
            if v != ['e', 'Err', m.res]:
                raise Bad('errpass', 'end_of_input returns %s instead of Err(%s)' % (json.dumps(v), json.dumps(m.res)))
            if m.extra != UNIT and syms(m.extra):
                raise Bad('custody', 'the extra argument is not dropped when end_of_input fails')
            return
        if v[:2] == ['e', 'Ok']:
            if m.phase not in ('run', 'accepted') or m.pend is None or m.pend[0] != self.g.start:
                # start rule without code
                if not self.silent_accept(m):
                    raise Bad('lang', 'end_of_input accepts although the input is not complete')
            val = m.pend[1]
            want = ['t', val, m.extra] if self.g.extra else val
            if v[2:] != [want] and not (want == UNIT and v[2:] == [['t']]):
                raise Bad('result', 'end_of_input returns %s instead of Ok(%s)' % (json.dumps(v), json.dumps(want)))
            if m.known:
                for e in m.known:
                    if syms(e.val):
                        raise Bad('custody', 'values remain on the stack')
            m.pend = None
            m.known = []
            self.stats['accepts'] += 1
            return
        if v == ['e', 'Err', UNIT] and not self.g.error:
            self.default_err(m)
            return
        raise Bad('errpass', 'end_of_input returns %s in phase %s' % (json.dumps(v), m.phase))

    def silent_accept(self, m):
        if m.phase in ('run', 'failing') and m.popped:
            s = self.known_state(m)
            a, how = self.ref.action(s, m.tok)
            if a and a[0] == 'r' and self.ref.prods[a[1]].lhs == self.g.start and self.ref.prods[a[1]].hook is None:
                p = self.ref.prods[a[1]]
                ents = self.resolve_reduce(m, p, 'accept')
                m.pend = [p.lhs, self.silent_value(m, p, ents)]
                return True
        return False

    # ---- arrival at a node
    def arrive(self, m, to, rn):
        kind, info = self.nodes.get(to, ('?', 0))
        if kind == 'P':
            if m.status == 'failed' and m.phase == 'run' and 'Cannot' in str(info):
                self.stats['panics_expected'] += 1
                return
            if m.status == 'failed' and m.phase == 'run':
                self.stats['panics_expected'] += 1
                return
            if m.status == 'failed':
                raise Bad('status', 'panic in %s of a failed parser: %s' % (m.call, info))
            raise Bad('panic', 'panic on %s: %s' % (m.tok if m.call == 'parse' else m.call, info))
        if kind == 'D':
            raise Bad('diverge', 'endless loop on %s: %s' % (m.tok, info))
        if kind == 'U':
            raise Bad('unsupported', str(info))
        if kind == 'X':
            if m.phase == 'idle' or m.call == '(drop)':
                if m.call == '(drop)':
                    self.release(m)
                    if m.extra != UNIT and syms(m.extra):
                        raise Bad('custody', 'dropping the parser does not drop the extra argument')
                if not m.self_gone:
                    raise Bad('status', 'parser vanished')
                for e in m.known:
                    if syms(e.val):
                        raise Bad('custody', 'values of the stack are not dropped with the parser')
                return
            raise Bad('lang', 'parser consumed in phase %s' % m.phase)
        # renaming: rn[new] = old
        mp = {}
        for new, old in enumerate(rn):
            mp[old] = new
        if kind in 'SC':
            self.fold(m)
        self.rename(m, mp)

    def rename(self, m, mp):
        def chk(v, what):
            for s in syms(v):
                if s not in mp:
                    raise Bad('custody', '%s is lost without being dropped' % what)
        for e in m.known:
            chk(e.val, 'the value of %s on the stack' % e.sym)
            e.g, e.val = ren(e.g, mp), ren(e.val, mp)
        for e in m.popped:
            chk(e.val, 'the value of %s popped from the stack' % e.sym)
            e.g, e.val = ren(e.g, mp), ren(e.val, mp)
        if m.extra is not None:
            chk(m.extra, 'the extra argument')
            m.extra = ren(m.extra, mp)
        if m.tokval is not None:
            if m.tokst in ('held', 'free'):
                chk(m.tokval, 'the payload of the token')
            m.tokval = ren(m.tokval, mp)
        if m.pend is not None:
            chk(m.pend[1], 'the result of an action')
            m.pend = [m.pend[0], ren(m.pend[1], mp)]
        if m.res is not None:
            chk(m.res, 'the error value')
            m.res = ren(m.res, mp)
        for x in m.loose:
            if x not in mp:
                raise Bad('custody', 'a value is lost without being dropped')
        m.loose = [mp[x] for x in m.loose]
        if m.trysym is not None:
            if m.trysym[0] not in mp:
                raise Bad('custody', 'the result of user code is ignored')
            m.trysym = [mp[m.trysym[0]], m.trysym[1]]
