"""Texts inside JavaScript string literals of an inline script: abstract string functions and
the check that every text they are applied to stays inside its literal and keeps its meaning."""
import re
from itertools import product
from lib import *
from fix import Stop, bad, undec

CRIT = ['\\', '`', '$', '{', '<', '/', '\r', '\n', '"', "'", 'a', '0', ' ']
SPECIAL = ['', '</script>', '</SCRIPT >', '</script/', 'x</script>y', '<\\/script>', '${a}', '\\${a}', 'a\\`b', '````', '$${a}', '`${`', '\\\\`', '\\', '\\\\',
           '\r\n', '&lt;', '&amp;', '\u4e2d', '\u2028', '\x00', 'A', 'E', ' a ', 'abcdefghijklmnopqrstuvwxyz' * 4, '`' * 5, '</script>' * 2, '<', '>', '\t', 'x' * 70000]


# ------------------------------------------------------------------ what a literal means
def cook(y, d):
    """meaning of the literal body y between delimiters d; (text, None) or (None, what goes wrong)"""
    if re.search(r'</script[\s/>]', y, re.I):
        return None, 'it closes the script element'
    out = []
    i = 0
    while i < len(y):
        c = y[i]
        if c == d:
            return None, 'it ends the literal'
        if c == '\\':
            i += 1
            if i >= len(y):
                return None, 'it escapes the closing delimiter'
            e = y[i]
            if e in 'nrtbvf':
                out.append({'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'v': '\v', 'f': '\f'}[e])
            elif e == '0' and not (i + 1 < len(y) and y[i + 1].isdigit()):
                out.append('\0')
            elif e in '0123456789':
                return None, 'it is an octal escape'
            elif e == 'x':
                m = re.match(r'[0-9a-fA-F]{2}', y[i + 1:])
                if not m:
                    return None, 'it is a broken \\x escape'
                out.append(chr(int(m.group(0), 16)))
                i += 2
            elif e == 'u':
                m = re.match(r'([0-9a-fA-F]{4})|\{([0-9a-fA-F]{1,6})\}', y[i + 1:])
                if not m or int(m.group(1) or m.group(2), 16) > 0x10ffff:
                    return None, 'it is a broken \\u escape'
                out.append(chr(int(m.group(1) or m.group(2), 16)))
                i += len(m.group(0))
            elif e == '\r' and y[i + 1:i + 2] == '\n':
                i += 1
            elif e in '\r\n\u2028\u2029':
                pass
            else:
                out.append(e)
        elif d == '`' and c == '$' and y[i + 1:i + 2] == '{':
            return None, 'it starts an interpolation'
        elif c in '\r\n' and d != '`':
            return None, 'it breaks the line inside the literal'
        elif c == '\r':
            out.append('\n')
            if y[i + 1:i + 2] == '\n':
                i += 1
        else:
            out.append(c)
        i += 1
    return ''.join(out), None


# ------------------------------------------------------------------ string functions
class Fn:
    """a function of one text: steps applied in order"""
    def __init__(self, base, steps):
        self.base = base
        self.steps = steps      # ('rep', a, b) | ('hom', {char: str}, default or None=itself) | ('fn', name, callable)

    def __call__(self, x):
        for s in self.steps:
            if s[0] == 'rep':
                x = x.replace(s[1], s[2])
            elif s[0] == 'hom':
                x = ''.join(s[1].get(c, c if s[2] is None else s[2]) for c in x)
            else:
                x = s[2](x)
        return x

    def is_hom(self):
        return all((s[0] == 'rep' and len(s[1]) == 1) or s[0] == 'hom' for s in self.steps)

    def chars(self):
        cs = set()
        for s in self.steps:
            if s[0] == 'rep':
                cs |= set(s[1] + s[2])
            elif s[0] == 'hom':
                cs |= set(s[1])
        return cs


def jsesc(x):
    import json
    return json.dumps(x, ensure_ascii=False)[1:-1]


KNOWN = {
    'trim': lambda s: s.strip(), 'trim_end': lambda s: s.rstrip(), 'trim_start': lambda s: s.lstrip(),
    'to_lowercase': lambda s: s.lower(), 'to_uppercase': lambda s: s.upper(),
    'to_ascii_lowercase': lambda s: s.lower(), 'to_ascii_uppercase': lambda s: s.upper(),
}
STRFN = re.compile(r'(<impl str>|String|str)::(\w+)$')


def strfn(it, st, trace, t):
    """the term as a Fn of an understood base text, or None"""
    if t[0] == 'repfn':
        return homloop(it, t[1])
    t = nvs(it, st, t)
    if t[0] == 'replace' and t[2][0] == 'str' and t[3][0] == 'str' and t[2][1]:
        f = strfn(it, st, trace, t[1])
        return f and Fn(f.base, f.steps + [('rep', t[2][1], t[3][1])])
    if t[0] == 'call':
        m = STRFN.search(t[1])
        if m and m.group(2) in KNOWN:
            f = strfn(it, st, trace, t[2][0])
            return f and Fn(f.base, f.steps + [('fn', m.group(2), KNOWN[m.group(2)])])
        if m and m.group(2) in ('trim_end_matches', 'trim_start_matches', 'trim_matches') and t[2][1][0] in ('str', 'char'):
            f = strfn(it, st, trace, t[2][0])
            b = t[2][1][1] if t[2][1][0] == 'str' else chr(t[2][1][1])
            how = m.group(2)

            def cut(s):
                while b and how != 'trim_end_matches' and s.startswith(b):
                    s = s[len(b):]
                while b and how != 'trim_start_matches' and s.endswith(b):
                    s = s[:-len(b)]
                return s
            return f and Fn(f.base, f.steps + [('fn', how, cut, [b, 'q' + b, b + 'q'])])
        if m and m.group(2) == 'replacen' and t[2][1][0] == 'str' and t[2][2][0] == 'str' and t[2][3][0] == 'int':
            f = strfn(it, st, trace, t[2][0])
            a, b, n = t[2][1][1], t[2][2][1], t[2][3][1]
            return f and Fn(f.base, f.steps + [('fn', 'replacen', lambda s: s.replace(a, b, n), [a * (n + 1)])])
        return None
    if t[0] == 'coll' and t[1] == 'String' and t[2][0] in ('take', 'skip') and t[2][2][0] == 'int' \
            and t[2][1][0] == 'seq' and t[2][1][1][0] == 'op' and t[2][1][1][1] == 'str::chars':
        f = strfn(it, st, trace, t[2][1][1][2][0])
        n, cut = t[2][2][1], t[2][0] == 'take'
        return f and Fn(f.base, f.steps + [('fn', t[2][0], lambda s: s[:n] if cut else s[n:], ['q' * (n + 1)])])
    if t[0] in ('disp', 'at'):
        return strfn(it, st, trace, t[1])
    if t[0] == 'lv' or (t[0] == 'coll' and t[1] == 'String') or t[0] == 'join':
        ps = parts(it, st, trace, t)
        if ps is not None and len(ps) == 1 and ps[0][0] == 'rep' and ps[0][4] is None:
            return homloop(it, ps[0])
        L = loop_of(trace, t)
        if L is not None:
            return unroll(it, st, trace, L, t)
        return None
    if t[0] in ('fld', 'sym', 'elem', 'as'):
        return Fn(t, [])
    return None


def nvs(it, st, t):
    """normalised, but what a call did to a text handed to it is kept"""
    if t[0] == 'hv':
        return t
    return nv(it, st, t)


def loop_of(trace, lv):
    for ctx, e in flat(trace):
        if e[0] == 'loop' and lv in e[1].init:
            return e[1]
    return None


def homloop(it, p):
    _, L, dom, cs, sep = p
    S = dom.seq
    if dom.kind != 'fwd' or S is None or S[0] != 'op' or S[1] != 'str::chars':
        return None
    E = dom.elem
    tab, default = {}, False
    pend = []
    for c, ps in cs:
        if c.kind != 'cont':
            return None
        cf = c.facts(it)
        eqs, other = [], False
        for a, v in conds(c.trace, it, c.st):
            if occurs(a, lambda x: x == E) and a != ('x',):
                if a[0] == 'eq' and E in a[1:] and [x for x in a[1:] if x != E and x[0] in ('char', 'str')]:
                    k = [x for x in a[1:] if x != E][0]
                    if v:
                        eqs.append(k[1] if k[0] == 'str' else chr(k[1]))
                else:
                    other = True
            elif not occurs(a, lambda x: x == ixof(L)):
                other = True
        if other:
            return None
        s = ''
        itself = False
        for q in ps:
            if q[0] == 'c':
                s += q[1]
            elif q[0] == 'hole' and (q[1] == E or q[1] in (('chr', E), ('disp', E), ('disp', ('chr', E)))) and len(ps) == 1:
                itself = True
            else:
                return None
        if eqs:
            for k in eqs:
                tab[k] = k if itself else s
        else:
            if default is not False:
                return None
            default = None if itself else s
    if default is False:
        return None
    sub_ = S[2]
    while isinstance(sub_, tuple) and sub_ and isinstance(sub_[0], tuple):
        sub_ = sub_[0]
    f = strfn(it, None, (), sub_)
    return f and Fn(f.base, f.steps + [('hom', tab, default)])


def unroll(it, st, trace, L, lv):
    """a loop over a constant table, applied to a text"""
    cs = [c for c in cases(it, L) if c.kind != 'panic' and not counted_out(it, L, c)]
    if len(cs) != 1 or cs[0].kind != 'cont' or L.init.get(lv) is None:
        return None
    c = cs[0]
    n = None
    for a, v in conds(c.trace, it, c.st):
        if a[0] == 'ile' and dict(a[1]) == {ixof(L): 1} and v:
            n = a[2] + 1
        else:
            return None
    if n is None or n > 64:
        return None
    upd = nv(it, c.st, c.upd.get(lv, lv))
    cur = strfn(it, st, trace, L.init[lv])
    if cur is None:
        return None
    for k in range(n):
        step = renorm(it, subst(upd, lambda x: ('int', k) if x == ixof(L) else None))
        step = pick(step)
        f = strfn(it, None, (), subst(step, lambda x: ('sym', '#acc') if x == lv else None))
        if f is None or f.base != ('sym', '#acc'):
            return None
        cur = Fn(cur.base, cur.steps + f.steps)
    return cur


def counted_out(it, L, c):
    """the loop over a constant number of items ends"""
    cd = conds(c.trace, it, c.st)
    return c.kind != 'cont' and len(cd) == 1 and cd[0][0][0] == 'ile' and dict(cd[0][0][1]) == {ixof(L): 1} and not cd[0][1]


def pick(t):
    """elements of constant arrays and tuples"""
    def f(x):
        if x[0] == 'elem':
            a, i = pick(x[1]), pick(x[2])
            if a[0] == 'arr' and i[0] == 'int' and i[1] < len(a[1]):
                return a[1][i[1]]
        if x[0] == 'fld':
            a = pick(x[1])
            if a[0] == 'tup' and str(x[2]).isdigit() and int(x[2]) < len(a[1]):
                return pick(a[1][int(x[2])])
        return None
    return subst(t, f)


# ------------------------------------------------------------------ texts as parts
def parts(it, st, trace, t, depth=0):
    """the text t as [('c', char) | ('hole', term, st, trace) | ('rep', Loop, Dom, [(Case, parts)], separator)], or None"""
    if depth > 12:
        return None
    if depth and t[0] == 'sym':
        return [('hole', t, st, trace)]         # the content handed in
    if st is not None and (not depth or occurs(t, lambda x: x[0] == 'ref')):
        t = it.deep(st, t)
    k = t[0]
    if k == 'str':
        return [('c', ch) for ch in t[1]]
    if k == 'cat':
        out = []
        for x in t[1]:
            p = parts(it, st, trace, x, depth + 1)
            if p is None:
                return None
            out += p
        return out
    if k == 'at':
        return parts(it, st, trace, t[1], depth + 1)
    if k in ('disp', 'dbg') and k == 'disp' and t[1][0] in ('str', 'cat', 'lv', 'join', 'coll', 'replace', 'hv'):
        return parts(it, st, trace, t[1], depth + 1)
    if k == 'chr' and t[1][0] == 'char':
        return [('c', chr(t[1][1]))]
    if k == 'char':
        return [('c', chr(t[1]))]
    if k == 'hv':
        b = parts(it, st, trace, t[1], depth + 1)
        if b is None:
            return None
        for ctx, e in flat(trace):
            if e[0] == 'call' and e[3][0] == 'call' and e[3][3] == t[2]:
                return b + [('hole', ('into', nv(it, st, e[3]), t[1]), st, trace)]
        return None
    if k == 'lv':
        L = loop_of(trace, t)
        if L is None:
            return None
        r = rep(it, L, t, depth)
        if r is None:
            return None if False else [('hole', nv(it, st, t), st, trace)]
        i = L.init[t]
        b = parts(it, st, trace, i, depth + 1)
        if b is None:
            return None
        return b + r
    if k == 'coll' and t[1] == 'String' or k == 'join':
        sep = None
        v = t
        if k == 'join':
            v, sep = t[1], t[2]
            if sep[0] != 'str':
                return None
            sep = sep[1]
        s = content(it, st, trace, v)
        if s is None:
            return None
        return seqparts(it, st, trace, s, sep, depth)
    if k == 'new' and t[1] == 'String':
        s = content(it, st, trace, t)
        return None if s is None else seqparts(it, st, trace, s, None, depth)
    return [('hole', nv(it, st, t), st, trace)]


def seqparts(it, st, trace, s, sep, depth):
    out = []
    n = 0
    for x in s.items:
        if x[0] == 'item':
            if n and sep:
                out += [('c', ch) for ch in sep]
            p = parts(it, st, trace, x[1], depth + 1)
            if p is None:
                return None
            out += p
            n += 1
        elif x[0] == 'for':
            cs = []
            for c, q in x[3]:
                if c.kind == 'panic':
                    continue
                ps = seqparts(it, c.st, c.trace, q, None, depth + 1)
                if ps is None:
                    return None
                if sep and len([z for z in q.items]) != 1:
                    return None if len(q.items) else [('mixed', x[1])]
                cs.append((c, ps))
            if n and sep:
                return None
            out.append(('rep', x[1], x[2], cs, sep))
            n += 1
            if sep and x is not s.items[-1]:
                return None
        else:
            return None
    return out


def rep(it, L, lv, depth):
    """an accumulator that every iteration appends to"""
    cs = []
    for c in cases(it, L):
        if c.kind == 'panic':
            continue
        if c.kind != 'cont':
            cs.append((c, []))
            continue
        u = it.deep(c.st, c.upd.get(lv, lv))
        p = appended(it, c, u, lv, depth)
        if p is None:
            return None
        cs.append((c, p))
    return [('rep', L, loop_dom(it, L), cs, None)]


def appended(it, c, u, lv, depth):
    if u == lv:
        return []
    xs = list(u[1]) if u[0] == 'cat' else [u]
    out = []
    h = xs[0]
    if h == lv:
        pass
    elif h[0] == 'hv':
        p = parts_from(it, c, h, lv, depth)
        if p is None:
            return None
        out += p
    else:
        return None
    for x in xs[1:]:
        p = parts(it, c.st, c.trace, x, depth + 1)
        if p is None:
            return None
        out += p
    return out


def parts_from(it, c, h, lv, depth):
    """an accumulator handed to a call that appends to it"""
    b = appended(it, c, h[1], lv, depth)
    if b is None:
        return None
    for ctx, e in flat(c.trace):
        if e[0] == 'call' and e[3][0] == 'call' and e[3][3] == h[2]:
            return b + [('hole', ('into', e[3], h[1]), c.st, c.trace)]
    return None


# ------------------------------------------------------------------ the check
def evalcond(a, base, x):
    """truth of the guard for the text x, None when it does not depend on the text in a known way"""
    def val(t):
        if t == base:
            return x
        if t[0] == 'str':
            return t[1]
        if t[0] == 'int':
            return t[1]
        if t[0] == 'len' and t[1] == base:
            return len(x.encode('utf8', 'surrogatepass'))
        return None
    if a[0] == 'ile':
        s = 0
        for k, co in a[1]:
            v = val(k)
            if not isinstance(v, int):
                return None
            s += v * co
        return s <= a[2]
    if a[0] == 'ieq':
        s = 0
        for k, co in a[1]:
            v = val(k)
            if not isinstance(v, int):
                return None
            s += v * co
        return s == a[2]
    if a[0] == 'eq':
        p, q = val(a[1]), val(a[2])
        return None if p is None or q is None else p == q
    if a[0] == 'call':
        m = STRFN.search(a[1])
        if m and len(a[2]) == 2:
            p, q = val(a[2][0]), val(a[2][1])
            if isinstance(p, str) and isinstance(q, str):
                return {'contains': q in p, 'starts_with': p.startswith(q), 'ends_with': p.endswith(q)}.get(m.group(2))
    if a[0] == 'contains' and len(a) == 3:
        p, q = val(a[1]), val(a[2])
        if isinstance(p, str) and isinstance(q, str):
            return q in p
    return None


def stays(it, st, trace, t, d, guards):
    """text t inside a literal delimited by d: ('ok', base) | ('bad', base, why) | ('undec', why)"""
    f = strfn(it, st, trace, t)
    if f is None:
        for x in subterms(nvs(it, st, t)):
            if x[0] == 'replace' and x[2] == Str('') and x[3][0] == 'str' and x[3][1]:
                return ('bad', x[1], 'puts %r around every character' % x[3][1])
        return ('undec', 'the text is made by %s' % fmt(nvs(it, st, t))[:200])
    if f.is_hom():
        sigma = set(CRIT) | f.chars() | {'\u4e2d', 'q'}
        hs = {c: f(c) for c in sigma}
        why = None
        for c, y in hs.items():
            if cook(y, d) != (c, None):
                why = c
                break
        if why is None:
            ends = {y[-1] for y in hs.values() if y}
            starts = {y[0] for y in hs.values() if y}
            raw_dollar = d == '`' and any(re.search(r'(?<!\\)(\\\\)*\$$', y) for y in hs.values()) and '{' in starts
            lt_ = any('<' in y for y in hs.values()) and any('/' in y and not y.startswith('\\') for y in hs.values())
            zero = any(y.endswith('\\0') for y in hs.values())
            if not raw_dollar and not lt_ and not zero:
                return ('ok', f.base)
    mine = [(a, v) for a, v in guards if occurs(a, lambda x: x == f.base)
            and not occurs(a, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] == 'ix')]
    cands = SPECIAL + [''.join(p) for n in (1, 2, 3) for p in product(CRIT, repeat=n)]
    for s in f.steps:
        if s[0] == 'rep':
            cands += [s[1], s[1] * 2, '\\' + s[1], s[1] + '{', s[1][:1] + s[1], s[1] + s[1][-1:]]
        elif len(s) > 3:
            cands += s[3]
    hit = None
    for x in cands:
        e = [evalcond(a, f.base, x) for a, v in mine]
        if any(b is not None and b != v for b, (a, v) in zip(e, mine)):
            continue
        if None in e:
            continue
        y, w = cook(f(x), d)
        if w is None and y != x:
            w = 'it is shown as %r' % y[:60]
        if w:
            hit = 'the text %r is written as %r: %s' % (x[:60], f(x)[:80], w)
            break
    if hit:
        return ('bad', f.base, hit)
    return ('undec', 'no proof that the text %s stays in its literal' % fmt(f.base))
