"""The same grammars with their declarations in another order, and with other names."""
import copy
import itertools
import random
import re

from gram import Gram, Ref

TNAMES = ['Token', 'Parser', 'Some', 'None', 'Ok', 'Err', 'Vec', 'YYMinorType', 'YYStackEntry', 'Result', 'Option', 'Default', 'String', 'Iterator',
          'ExpectedTokens', 'Box', 'YYNOCODE', 'Item', 'IntoIterator', 'Drop', 'Z9', 'AA', 'TOKEN', 'ExpectedToken', 'YYWILDCARD']
NNAMES = ['extra', 'token', 'yy', 'yystack', 'expected', 'core', 'std', 'parser', 'i', 'e', 'r', 'default', 'yyres', 'state', 'yyp0', 'new', 'parse',
          'end_of_input', 'token_value', 'z9', 'aa', 'len', 'unit', 'u8', 'str', 'i32']


def split(text):
    """the declarations of a grammar"""
    out, cur, depth, i = [], '', 0, 0
    while i < len(text):
        c = text[i]
        if c == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            cur += text[i:j + 1]
            i = j + 1
            continue
        cur += c
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if depth == 0 and (c == ';' or (c == '}' and not re.match(r'\s*%(token|parser)\b', cur))):
            out.append(cur.strip())
            cur = ''
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def is_rule(d):
    return not d.startswith('%')


def is_prec(d):
    return bool(re.match(r'%(left|right|nonassoc)\b', d))


def interleave(decls, rng, keep_rules):
    """one random order"""
    idx = list(range(len(decls)))
    rng.shuffle(idx)

    def fix(pred):
        pos = [k for k, i in enumerate(idx) if pred(decls[i])]
        for k, i in zip(pos, sorted(idx[k] for k in pos)):
            idx[k] = i
    fix(is_prec)
    if keep_rules:
        fix(is_rule)
    return [decls[i] for i in idx]


def all_orders(decls, rng, limit):
    n = len(decls)
    seen, out = {tuple(decls)}, []
    if n <= 5:
        for p in itertools.permutations(range(n)):
            d = [decls[i] for i in p]
            r = [i for i in p if is_rule(decls[i])]
            q = [i for i in p if is_prec(decls[i])]
            if r == sorted(r) and q == sorted(q) and tuple(d) not in seen:
                seen.add(tuple(d))
                out.append(d)
        rng.shuffle(out)
        return out[:limit]
    for _ in range(limit * 4):
        d = interleave(decls, rng, True)
        if tuple(d) not in seen:
            seen.add(tuple(d))
            out.append(d)
        if len(out) >= limit:
            break
    return out


def permuted(g, k, seed):
    """the grammar with its declarations in another order"""
    rng = random.Random('%s/%s/%s' % (g.name, k, seed))
    h = copy.copy(g)
    h.name = '%s_p%d' % (g.name, k)
    decls = g.emit().split('\n')
    decls = [d.strip() for d in decls if d.strip()]
    keep = k % 2 == 0
    if not keep and not any(d.startswith('%start_symbol') for d in decls):
        decls.append('%%start_symbol %s;' % g.start)
    decls = interleave(decls, rng, keep)
    if k == 2:
        decls.insert(rng.randrange(len(decls) + 1), '%verbose;')
    if k == 3:
        decls = [re.sub(r'^%module .*', '%module zz_9;', d) for d in decls]
    if k == 4:      # the last rules first: the directives come after what they talk about
        decls = [d for d in decls if is_rule(d)] + [d for d in decls if not is_rule(d)]
    h.source = '\n'.join('    ' + d for d in decls)
    return h


def renamed(g, k, seed):
    """the same grammar with other names"""
    if '%raw' in g.text or hasattr(g, 'source') or '`' in g.text:
        return None
    rng = random.Random('%s/n%s/%s' % (g.name, k, seed))
    names = set()
    for ln in g.text.splitlines():
        if re.match(r'\s*%(default|xtoken|errtype|stack|no(extra|error|syntax|fail|overflow|stack))\b', ln):
            continue
        for w in re.findall(r'(?<![%\w{])[A-Za-z]\w*', re.sub(r'\{.*?\}', '', ln.split('//')[0])):
            names.add(w)
    names -= {'error'}
    up = sorted(n for n in names if n[0].isupper())
    lo = sorted(n for n in names if n[0].islower())
    if len(up) > len(TNAMES) or len(lo) > len(NNAMES):
        return None
    m = dict(zip(up, rng.sample(TNAMES, len(up))))
    m.update(zip(lo, rng.sample(NNAMES, len(lo))))
    if k % 3 == 2:      # the alphabetical order turned around, nothing special
        m = {n: 'T%03d' % (999 - i) for i, n in enumerate(up)}
        m.update({n: 't%03d' % (999 - i) for i, n in enumerate(lo)})
    out = []
    for ln in g.text.splitlines():
        if re.match(r'\s*%(default|xtoken|errtype|stack|no(extra|error|syntax|fail|overflow|stack))\b', ln):
            out.append(ln)
            continue
        out.append(re.sub(r'(?<![%\w{=])[A-Za-z]\w*', lambda x: m.get(x.group(0), x.group(0)), ln))
    h = Gram('%s_n%d' % (g.name, k), '\n'.join(out), **g.kw)
    h.tags = set(g.tags)
    for a in ('stack_type',):
        setattr(h, a, getattr(g, a))
    if len(h.prods) != len(g.prods) or len(h.terms) != len(g.terms) or Ref(h).conflicts:
        raise ValueError("renaming of %s is not faithful\n%s" % (g.name, h.text))
    return h


def twins(g):
    """the grammar with %verbose, and in a module of another name: not a bit of the parser may differ"""
    out = []
    src = g.emit()
    for k in ('v', 'm'):
        h = copy.copy(g)
        h.name = '%s_%s' % (g.name, k)
        if k == 'v':
            if '%verbose' in src:
                continue
            h.source = src + '\n    %verbose;'
        elif re.search(r'%module \w+', src):
            h.source = re.sub(r'%module (pub(\([^)]*\))? )?\w+', lambda m: '%%module %szz_9' % (m.group(1) or ''), src)
        else:
            h.source = src + '\n    %module zz_9;'
        out.append(h)
    return out


def same(a, b, an, bn):
    """the first difference of two transition systems, but for the names of the modules"""
    with open(a) as f, open(b) as g:
        for i, (x, y) in enumerate(itertools.zip_longest(f, g, fillvalue='')):
            x, y = re.sub(r'\b%s::\w+' % an, 'M', x), re.sub(r'\b%s::\w+' % bn, 'M', y)
            if x != y and not x.startswith('["H"'):
                return i, x.strip(), y.strip()
    return None
