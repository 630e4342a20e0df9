"""Herbrand value terms and the small numeric domain the analyser works in.

Terms are nested tuples.  Integer-valued terms are kept in linear normal form,
so that `i < v.len()`, `v.len() > i`, `!(i >= v.len())` are one and the same atom.
"""
from functools import lru_cache

UNIT = ('unit',)
TRUE = ('bool', True)
FALSE = ('bool', False)
NONE = ('adt', 'std::option::Option', 'None', ())


def Int(n):
    return ('int', n)


def Str(s):
    return ('str', s)


def some(v):
    return ('adt', 'std::option::Option', 'Some', (('0', v),))


def ok(v):
    return ('adt', 'std::result::Result', 'Ok', (('0', v),))


def err(v):
    return ('adt', 'std::result::Result', 'Err', (('0', v),))


@lru_cache(maxsize=400000)
def rk(t):
    return repr(t)


# ------------------------------------------------------------------ linear
def lin(t):
    """term -> (dict term->coef, const)"""
    if t[0] == 'int':
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ('int', c)
    if len(d) == 1 and c == 0:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=lambda kv: rk(kv[0]))), c)


def add(a, b, sign=1):
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mklin(d, ca + sign * cb)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a[0] == 'int':
        a, b = b, a
    if b[0] == 'int':
        d, c = lin(a)
        return mklin({k: v * b[1] for k, v in d.items()}, c * b[1])
    return ('op', 'Mul', tuple(sorted((a, b), key=rk)))


def _norm(d):
    """-> (key, sign): key has positive leading coefficient"""
    it = tuple(sorted(d.items(), key=lambda kv: rk(kv[0])))
    if it[0][1] < 0:
        return tuple((k, -v) for k, v in it), -1
    return it, 1


def nonneg(key):
    return all(v > 0 for _, v in key)


def le(a, b):
    """a <= b over the integers -> bool term"""
    d, c = lin(sub(a, b))          # d + c <= 0
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('bool', c <= 0)
    key, s = _norm(d)
    if s > 0:                       # key <= -c
        return ile(key, -c)
    return mknot(ile(key, c - 1))   # -key + c <= 0  <=>  key >= c  <=> not key <= c-1


def ile(key, c):
    if nonneg(key):
        if c < 0:
            return FALSE
        if c == 0 and len(key) == 1 and key[0][1] == 1:
            return ('ieq', key, 0)
    return ('ile', key, c)


def lt(a, b):
    return le(add(a, Int(1)), b)


def ieq(a, b):
    d, c = lin(sub(a, b))
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('bool', c == 0)
    key, s = _norm(d)
    v = -c if s > 0 else c
    if nonneg(key) and v < 0:
        return FALSE
    if len(key) == 1 and key[0][1] > 1:
        if v % key[0][1]:
            return FALSE
        v //= key[0][1]
        key = ((key[0][0], 1),)
    return ('ieq', key, v)


def mknot(t):
    if t[0] == 'bool':
        return ('bool', not t[1])
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def mkand(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE or a == b:
        return a
    return ('and', a, b)


def mkor(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE or a == b:
        return a
    return ('or', a, b)


# ------------------------------------------------------------------ strings
def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            seq = p[1]
        else:
            seq = (p,)
        for q in seq:
            if q[0] == 'char':
                q = ('str', chr(q[1]))
            if q[0] == 'str' and q[1] == '':
                continue
            if q[0] == 'str' and out and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


# ------------------------------------------------------------------ traversal
def subst(t, f):
    """bottom-up rebuild; f(term) -> replacement or None"""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        r = f(t)
        if r is not None:
            return r
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    if n != t and n and n[0] == 'lin':
        acc = Int(n[2])
        for k, v in n[1]:
            acc = add(acc, mul(k, Int(v)))
        return acc
    return n


def occurs(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(occurs(x, pred) for x in t if isinstance(x, tuple))


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def strip(t):
    """drop versions and havoc marks: the location a term was read from"""
    def f(x):
        if x[0] == 'at':
            return strip(x[1])
        if x[0] == 'hv':
            return strip(x[1])
        return None
    return subst(t, f)


def show(t, depth=0):
    """human readable"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if k in ('int', 'bool'):
        return str(t[1])
    if k == 'str':
        return repr(t[1])
    if k == 'char':
        return "'%s'" % chr(t[1])
    if k == 'unit':
        return '()'
    if k == 'sym':
        return t[1]
    if k == 'fld':
        if t[1][0] == 'as':
            return show(t[1]) + ('' if t[2] == '0' else '.' + t[2])
        return show(t[1]) + '.' + t[2]
    if k == 'as':
        return '%s@%s' % (show(t[1]), t[2])
    if k == 'adt':
        n = t[1].split('::')[-1]
        if t[2] and t[2] != n:
            n = n + '::' + t[2]
        return n + '{' + ', '.join('%s: %s' % (f, show(v)) for f, v in t[3]) + '}'
    if k == 'tup' or k == 'arr':
        return ('(%s)' if k == 'tup' else '[%s]') % ', '.join(show(x) for x in t[1])
    if k == 'ref':
        return '&' + show(t[1]) + ''.join('.' + str(p) for p in t[2])
    if k == 'L':
        return 'L%s_%s' % (t[1], t[2])
    if k == 'lin':
        s = ' + '.join((show(a) if c == 1 else '%d*%s' % (c, show(a))) for a, c in t[1])
        return '(%s%s)' % (s, (' + %d' % t[2]) if t[2] else '')
    if k == 'ile':
        return '%s <= %d' % (show(('lin', t[1], 0)), t[2])
    if k == 'ieq':
        return '%s == %d' % (show(('lin', t[1], 0)), t[2])
    if k == 'not':
        return '!(%s)' % show(t[1])
    if k == 'elem':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'ix':
        return 'i%s' % t[1]
    if k == 'lv':
        return 'lv%s<%s>' % (t[1], t[2])
    if k == 'at':
        return show(t[1]) + "'%s" % (t[2],)
    if k == 'cat':
        return ' ++ '.join(show(x) for x in t[1])
    if k == 'new':
        return '%s#%s%s' % (t[1], t[2], '' if t[3] is None else '=' + show(t[3]))
    if k == 'call':
        return '%s(%s)%s' % (t[1].split('::')[-1], ', '.join(show(x) for x in t[2]), '' if t[3] is None else '#%s' % t[3])
    if k == 'clo':
        return 'closure<%s>' % t[1]
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))
