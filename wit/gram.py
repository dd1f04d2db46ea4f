"""Grammar model, pomelo text emitter, and an independent LALR(1) reference.

Mini format, one item per line:

  %left A B            precedence (also %right, %nonassoc)
  %fallback F A B
  %wildcard W
  %class k A B         pomelo's %token_class
  %types A=1 b=2 c=-   T<1> for A, T<2> for b, none for c ('opt' forms: a raw Rust type after '=' in backquotes)
  %default n
  %start s
  %stack n [Type] [exact]
  %xtoken n            %extra_token T<n>
  %noextra %noerror %nosyntax %nofail %nooverflow
  %shared              the same code text for all actions with as many values
  %raw TEXT            verbatim pomelo text
  lhs : A b|C k? d! [P] {mode}

Right-hand-side suffixes: '!' no alias, '?' optional.  Modes: act (default), try, none (no code).
Untyped symbols get no alias unless they are optional.
"""
import re
from collections import OrderedDict


class Rule:
    __slots__ = ('idx', 'lhs', 'rhs', 'alias', 'prec', 'mode', 'precval', 'hook', 'opt', 'xalias')

    def __init__(self, lhs, rhs, alias, prec, mode, hook):
        self.lhs, self.rhs, self.alias, self.prec, self.mode, self.hook = lhs, rhs, alias, prec, mode, hook
        self.idx = -1
        self.precval = None
        self.opt = None


class Gram:
    def __init__(self, name, text, **kw):
        self.name = name
        self.text = text
        self.kw = kw
        self.lines = []
        self.types = {}
        self.prec = {}       # terminal -> (level, assoc)
        self.fallback = {}
        self.wildcard = None
        self.classes = OrderedDict()
        self.default = None
        self.start = None
        self.limit = 0
        self.stack_type = None
        self.exact = False
        self.xtoken = None
        self.extra = True
        self.error = True
        self.syntax = True
        self.fail = True
        self.overflow = True
        self.errtype = None
        self.dirs = []       # (kind, payload) in textual order, rules included
        self.rules = []      # written rules
        self.autotype = True
        self.forlang = True
        self.shared = False
        self.groups = {}
        lvl = 0
        for ln in text.strip().splitlines():
            ln = ln.split('//')[0].strip() if '%raw' not in ln else ln.strip()
            if not ln:
                continue
            if ln.startswith('%'):
                p = ln.split()
                d = p[0][1:]
                if d in ('left', 'right', 'nonassoc'):
                    lvl += 1
                    for t in p[1:]:
                        self.prec[t] = (lvl, d)
                    self.dirs.append((d, p[1:]))
                elif d == 'fallback':
                    for t in p[2:]:
                        self.fallback[t] = p[1]
                    self.dirs.append((d, p[1:]))
                elif d == 'wildcard':
                    self.wildcard = p[1]
                    self.dirs.append((d, p[1:]))
                elif d == 'class':
                    self.classes[p[1]] = p[2:]
                    self.dirs.append((d, p[1:]))
                elif d == 'types':
                    for a in p[1:]:
                        s, v = a.split('=')
                        self.types[s] = None if v == '-' else v
                        if v != '-':
                            self.dirs.append(('type', (s, v)))
                elif d == 'default':
                    self.default = p[1]
                    self.dirs.append((d, p[1:]))
                elif d == 'start':
                    self.start = p[1]
                    self.dirs.append((d, p[1:]))
                elif d == 'stack':
                    self.limit = int(p[1])
                    if len(p) > 2 and p[2] != '-':
                        self.stack_type = p[2]
                    self.exact = 'exact' in p
                    self.dirs.append((d, p[1:]))
                elif d == 'nostack':
                    self.limit = 100
                    self.exact = 'exact' in p
                    self.dirs.append((d, []))
                elif d == 'xtoken':
                    self.xtoken = p[1]
                    self.dirs.append((d, p[1:]))
                elif d in ('noextra', 'noerror', 'nosyntax', 'nofail', 'nooverflow', 'noauto'):
                    setattr(self, {'noextra': 'extra', 'noerror': 'error', 'nosyntax': 'syntax', 'nofail': 'fail',
                                   'nooverflow': 'overflow', 'noauto': 'autotype'}[d], False)
                elif d == 'errtype':
                    self.errtype = p[1]
                elif d == 'shared':
                    self.shared = True
                elif d == 'raw':
                    self.dirs.append(('raw', ln[4:].strip()))
                else:
                    raise ValueError(ln)
            else:
                lhs, rest = ln.split(':', 1)
                lhs = lhs.strip()
                mode, prec = 'act', None
                m = re.search(r'\{(\w+)\}\s*$', rest)
                if m:
                    mode = m.group(1)
                    rest = rest[:m.start()]
                m = re.search(r'\[(\w+)\]\s*$', rest)
                if m:
                    prec = m.group(1)
                    rest = rest[:m.start()]
                rhs = rest.split()
                self.rules.append((lhs, rhs, prec, mode))
                self.dirs.append(('rule', len(self.rules) - 1))
        self._build()

    def istok(self, s):
        return s[0].isupper()

    def _build(self):
        # order of nonterminals / terminals
        self.nts = {}
        self.terms = {}

        def seen(s):
            if s in self.classes:
                return
            (self.terms if self.istok(s) else self.nts).setdefault(s)
        for k, v in self.dirs:
            if k in ('left', 'right', 'nonassoc', 'fallback', 'wildcard'):
                for s in v:
                    seen(s)
            elif k == 'class':
                for s in v[1:]:
                    seen(s)
            elif k == 'type':
                seen(v[0])
            elif k == 'rule':
                lhs, rhs, prec, mode = self.rules[v]
                seen(lhs)
                for s in rhs:
                    for m in s.rstrip('?!').split('|'):
                        seen(m)
                if prec:
                    seen(prec)
        self.nts, self.terms = list(self.nts), list(self.terms)
        self.uses_error = any('error' in [m.rstrip('?!') for m in r[1]] for r in self.rules)
        if self.start is None:
            self.start = self.rules[0][0]
        if self.autotype and not self.default:
            n = 200
            for s in self.nts:
                if s != 'error' and s not in self.types and s != 'error':
                    self.types[s] = str(n)
                    n += 1
        if self.errtype:
            self.types['error'] = self.errtype
        # expanded rules
        self.opts = OrderedDict()
        self.prods = []
        for i, (lhs, rhs, prec, mode) in enumerate(self.rules):
            elems, alias = [], []
            for s in rhs:
                noal = s.endswith('!')
                s = s.rstrip('!')
                if s.endswith('?'):
                    base = s[:-1]
                    o = '?' + base
                    self.opts.setdefault(o, base)
                    elems.append(o)
                    alias.append(not noal)
                    continue
                e = self.elem(s)
                elems.append(e)
                t = self.typ(s if not isinstance(e, tuple) else e[0])
                if isinstance(e, tuple) and len({self.typ(x) for x in e}) > 1:
                    alias.append(False)
                else:
                    alias.append(bool(t) and not noal)
            r = Rule(lhs, elems, alias, prec, mode, i if mode in ('act', 'try') else None)
            self.prods.append(r)
        for o, base in self.opts.items():
            r = Rule(o, [], [], None, 'opt0', None)
            self.prods.append(r)
            r = Rule(o, [self.elem(base)], [False], None, 'opt1', None)
            self.prods.append(r)
        for i, r in enumerate(self.prods):
            r.idx = i
            r.precval = self.rule_prec(r)

    def flat(self, m, seen=()):
        if m in self.classes:
            assert m not in seen
            out = {}
            for x in self.classes[m]:
                if x in self.classes:
                    out.update(dict.fromkeys(self.flat(x, seen + (m,))))
                else:
                    out[x] = None
            return list(out)
        return [m]

    def elem(self, s):
        if '|' in s or s in self.classes:
            return tuple(dict.fromkeys(y for m in s.split('|') for y in self.flat(m)))
        return s

    def typ(self, s):
        """own declared type (with %default), without extra token"""
        if s in self.types:
            return self.types[s]
        if s == 'error':
            return None
        if s == self.wildcard and self.default:
            return self.default
        if self.default:
            return self.default
        return None

    def rule_prec(self, r):
        if r.prec:
            return self.prec.get(r.prec)
        for e in r.rhs:
            if isinstance(e, tuple):
                for m in e:
                    if m in self.prec:
                        return self.prec[m]
            elif e in self.prec:
                return self.prec[e]
        return None

    # ---- emission -----------------------------------------------------
    @staticmethod
    def rust_type(t):
        if t.startswith('`'):
            return t.strip('`')
        return 'T<%s>' % t

    def emit(self, module='parser'):
        o = []
        w = o.append
        w('%%module %s;' % module)
        w('%include { #[allow(unused_imports)] use crate::hooks::{self, *}; }')
        if self.extra:
            w('%extra_argument X;')
        if self.error:
            w('%error E;')
        if self.syntax:
            w('%syntax_error { for e in expected { hooks::exp(e.name, e.token); } hooks::on_syntax(extra, token) }')
        if self.fail:
            w('%parse_fail { hooks::on_fail(extra) }')
        has_stack = any(k in ('stack', 'nostack') for k, _ in self.dirs)
        if not has_stack:
            w('%%stack_size 0%s;' % (' ' + self.stack_type if self.stack_type else ''))
        elif self.overflow:
            w('%stack_overflow { hooks::on_overflow(extra, token) }')
        emitted_auto = set(v[0] for k, v in self.dirs if k == 'type')
        for s in self.nts:
            t = self.types.get(s)
            if t and s not in emitted_auto:
                w('%%type %s %s;' % (s, self.rust_type(t)))
        for k, v in self.dirs:
            if k in ('left', 'right', 'nonassoc'):
                w('%%%s %s;' % (k, ' '.join(v)))
            elif k == 'fallback':
                w('%%fallback %s;' % ' '.join(v))
            elif k == 'wildcard':
                w('%%wildcard %s;' % v[0])
            elif k == 'class':
                w('%%token_class %s %s;' % (v[0], ' '.join(v[1:])))
            elif k == 'type':
                w('%%type %s %s;' % (v[0], self.rust_type(v[1])))
            elif k == 'default':
                w('%%default_type %s;' % self.rust_type(v[0]))
            elif k == 'start':
                w('%%start_symbol %s;' % v[0])
            elif k == 'stack':
                w('%%stack_size %s%s;' % (v[0], ' ' + self.stack_type if self.stack_type else ''))
            elif k == 'xtoken':
                w('%%extra_token %s;' % self.rust_type(v[0]))
            elif k == 'raw':
                w(v)
            elif k == 'rule':
                w(self.emit_rule(v))
        return '\n'.join('    ' + x for x in o)

    def emit_rule(self, i):
        lhs, rhs, prec, mode = self.rules[i]
        p = self.prods[i]
        parts, args = [], []
        for j, s in enumerate(rhs):
            base = s.rstrip('!')
            if p.alias[j] and mode in ('act', 'try'):
                al = 'a%d' % (len(args) if self.shared else j)
                if self.xpair(p.rhs[j]):
                    al = '(%sx, %s)' % (al, al)
                args.append(al)
                parts.append('%s(%s)' % (base, al))
            else:
                parts.append(base)
        out = '%s ::= %s' % (lhs, ' '.join(parts))
        if prec:
            out += ' [%s]' % prec
        tup = '(%s%s)' % (', '.join(args), ',' if len(args) == 1 else '')
        n = i
        if self.shared:
            n = 1000 * (mode == 'try') + len(args)
            if i not in self.groups.setdefault(n, []):
                self.groups[n].append(i)
        if mode == 'act':
            out += ' { hooks::act::<%d, _, _, _>(extra, %s) }' % (n, tup)
        elif mode == 'try':
            out += ' { hooks::act_try::<%d, _, _, _, _>(extra, %s)? }' % (n, tup)
        else:
            out += ';' if not out.endswith(';') else ''
        return out

    def xpair(self, e):
        return False


# ---------------------------------------------------------------------------
# LALR(1) reference: LR(0) automaton over terminals (compounds expanded) with
# lookaheads by propagation to a fixpoint.
# ---------------------------------------------------------------------------
EOI = '$'


class Conflict(Exception):
    pass


class Ref:
    def __init__(self, g, canonical=False):
        self.g = g
        self.prods = g.prods
        self.bylhs = {}
        for r in g.prods:
            self.bylhs.setdefault(r.lhs, []).append(r)
        self.toks = [t for t in g.terms]
        self.tid = {EOI: 0}
        for t in self.toks:
            self.tid[t] = len(self.tid)
        self.tnames = [EOI] + self.toks
        self._first()
        self._lr0()
        self._la()
        self._actions()

    def isnt(self, e):
        return not isinstance(e, tuple) and (e in self.bylhs or e == 'error' or e.startswith('?') or not e[0].isupper())

    def mask(self, e):
        if isinstance(e, tuple):
            m = 0
            for x in e:
                m |= 1 << self.tid[x]
            return m
        return 1 << self.tid[e]

    def _first(self):
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for r in self.prods:
                if r.lhs not in self.nullable and all(self.isnt(e) and e in self.nullable for e in r.rhs):
                    self.nullable.add(r.lhs)
                    ch = True
        self.first = {n: 0 for n in self.bylhs}
        self.first['error'] = 0
        ch = True
        while ch:
            ch = False
            for r in self.prods:
                f = self.first[r.lhs]
                for e in r.rhs:
                    if self.isnt(e):
                        f |= self.first.get(e, 0)
                        if e not in self.nullable:
                            break
                    else:
                        f |= self.mask(e)
                        break
                if f != self.first[r.lhs]:
                    self.first[r.lhs] = f
                    ch = True

    def firstseq(self, seq):
        f = 0
        for e in seq:
            if self.isnt(e):
                f |= self.first.get(e, 0)
                if e not in self.nullable:
                    return f, False
            else:
                return f | self.mask(e), False
        return f, True

    def closure0(self, kernel):
        out = list(kernel)
        seen = set(out)
        i = 0
        while i < len(out):
            p, d = out[i]
            i += 1
            r = self.prods[p]
            if d < len(r.rhs) and self.isnt(r.rhs[d]):
                for q in self.bylhs.get(r.rhs[d], ()):
                    it = (q.idx, 0)
                    if it not in seen:
                        seen.add(it)
                        out.append(it)
        return out

    def _lr0(self):
        k0 = frozenset((r.idx, 0) for r in self.bylhs.get(self.g.start, ()))
        self.kernels = [k0]
        ids = {k0: 0}
        self.goto = []       # state -> {symbol: state}
        self.closures = []
        i = 0
        while i < len(self.kernels):
            cl = self.closure0(sorted(self.kernels[i]))
            self.closures.append(cl)
            trans = OrderedDict()
            for (p, d) in cl:
                r = self.prods[p]
                if d < len(r.rhs):
                    e = r.rhs[d]
                    for s in (e if isinstance(e, tuple) else (e,)):
                        trans.setdefault(s, set()).add((p, d + 1))
            gt = {}
            for s, k in trans.items():
                k = frozenset(k)
                if k not in ids:
                    ids[k] = len(self.kernels)
                    self.kernels.append(k)
                gt[s] = ids[k]
            self.goto.append(gt)
            i += 1
        self.n = len(self.kernels)

    def _la(self):
        # lookaheads per (state, item) by propagation over the whole closure
        la = [dict((it, 0) for it in cl) for cl in self.closures]
        for it in self.kernels[0]:
            la[0][it] |= 1
        work = list(range(self.n))
        inw = set(work)
        while work:
            s = work.pop()
            inw.discard(s)
            L = la[s]
            ch = True
            while ch:
                ch = False
                for (p, d) in self.closures[s]:
                    r = self.prods[p]
                    if d < len(r.rhs) and self.isnt(r.rhs[d]):
                        f, n = self.firstseq(r.rhs[d + 1:])
                        if n:
                            f |= L[(p, d)]
                        for q in self.bylhs.get(r.rhs[d], ()):
                            if L[(q.idx, 0)] | f != L[(q.idx, 0)]:
                                L[(q.idx, 0)] |= f
                                ch = True
            for (p, d), f in L.items():
                r = self.prods[p]
                if d < len(r.rhs):
                    e = r.rhs[d]
                    for x in (e if isinstance(e, tuple) else (e,)):
                        t = self.goto[s][x]
                        if la[t][(p, d + 1)] | f != la[t][(p, d + 1)]:
                            la[t][(p, d + 1)] |= f
                            if t not in inw:
                                inw.add(t)
                                work.append(t)
        self.la = la

    def _actions(self):
        """explicit actions per state; ('s',t) ('r',p) ('e',)"""
        g = self.g
        self.act = []
        self.conflicts = []
        self.cells = []      # (state, token, there is a shift, rules) where more than one action competes
        self.reducible = [set() for _ in range(self.n)]
        for s in range(self.n):
            A = {}
            for x, t in self.goto[s].items():
                if not self.isnt(x):
                    A[x] = ('s', t)
            reds = {}
            for (p, d), f in self.la[s].items():
                if d == len(self.prods[p].rhs):
                    i = 0
                    while f >> i:
                        if f >> i & 1:
                            reds.setdefault(self.tnames[i], []).append(p)
                        i += 1
            for t, ps in reds.items():
                # every pair of actions must be decided by precedence, except that
                # what lost already need not be compared with the rest
                left = sorted(ps)
                if t in A or len(left) > 1:
                    self.cells.append((s, t, t in A, left))
                if t in A:
                    a, alive, keep = g.prec.get(t), 'shift', []
                    for p in left:
                        b = self.prods[p].precval
                        if alive == 'lost':
                            keep.append(p)
                        elif a is None or b is None:
                            self.conflicts.append((s, t, 'sr', p))
                        elif a[0] > b[0]:
                            pass
                        elif a[0] < b[0] or a[1] == 'left' and alive == 'shift':
                            alive = 'lost'
                            keep.append(p)
                        elif a[1] == 'nonassoc':
                            alive = 'error'
                    left = keep
                    if alive == 'error':
                        A[t] = ('e',)
                    elif alive == 'lost':
                        del A[t]
                while len(left) > 1:
                    a, b = self.prods[left[0]].precval, self.prods[left[1]].precval
                    if a is None or b is None or a[0] == b[0]:
                        self.conflicts.append((s, t, 'rr', left[0], left[1]))
                        del left[1]
                    elif a[0] > b[0]:
                        del left[1]
                    else:
                        del left[0]
                if left:
                    A[t] = ('r', left[0])
            for t, a in A.items():
                if a[0] == 'r':
                    self.reducible[s].add(a[1])
            self.act.append(A)

    def action(self, s, t):
        """action on token t in state s, with fallback and wildcard; returns (action, how)"""
        A = self.act[s]
        seen = set()
        x = t
        while x is not None and x not in seen:
            if x in A:
                return A[x], x
            seen.add(x)
            x = self.g.fallback.get(x) if t != EOI else None
        w = self.g.wildcard
        if w and t != EOI and w in A:
            return A[w], w
        return None, None

    def expected(self, s):
        out = []
        for t in self.toks:
            a, _ = self.action(s, t)
            if a and a[0] != 'e':
                out.append(t)
        return out

    def error_goto(self, s):
        return self.goto[s].get('error')
