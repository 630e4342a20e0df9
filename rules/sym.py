"""Shared by the rules about the three passes over a grammar file (C07, C08, C21)."""
from lib import *
from fix import Stop, bad, undec, guard, definite
import c06
import jslit

GV = 'tool::visitor::grammar_visitor::'
LV = 'tool::visitor::lexer_rule_visitor::'
TRAIT = ' as tool::syntaxis::syntaxis_visitor::SyntaxisVisitor>::'
SYM = '<' + GV + "SymbolVisitor<'_>" + TRAIT
LIT = '<' + GV + "StringLiteralToTokenVisitor<'_>" + TRAIT
PRO = '<' + GV + "ProductionVisitor<'_>" + TRAIT
LEX = '<' + LV + 'LexerRuleVisitor' + TRAIT
SLV = '<' + LV + 'StringLiteralVisitor' + TRAIT


def fld(x, *ns):
    for n in ns:
        x = ('fld', x, n)
    return x


def cs(t):
    """calls by short name, without identity"""
    def f(x):
        if x[0] == 'call':
            return ('call', short(x[1]), tuple(cs(y) if isinstance(y, tuple) else y for y in x[2]), None)
        return None
    return subst(t, f)


def n_(it, st, t):
    return cs(nv(it, st, t))


def get(name, of):
    return ('call', name, (of,), None)


def pay(t):
    return ('fld', ('as', t, 'Some'), '0')


def text(t):
    return fld(pay(t), 'symbol', 'text')


V = fld(A(0), 'grammar', 'vocabulary')
TOKNAME = text(get('token_ref', A(1)))
RULENAME = text(get('rule_ref', A(1)))
REGLIT = text(get('regular_literal', pay(get('regular', A(1)))))
STRLIT = text(get('string_literal', A(1)))


def maps(r, src):
    """the six views of the vocabulary inside the grammar, by role"""
    ro, fs = c06.roles(r, src)
    if ro is None:
        return None
    return {k: at_base(v, V) for k, v in ro.items()}


def overrides(src, prefix):
    return {k[len(prefix):]: k for k in src.d['fns'] if k.startswith(prefix)}


def base(t):
    """the object a (versioned, partly rewritten) self term stands for"""
    while isinstance(t, tuple) and t and t[0] in ('obj', 'at', 'hv'):
        t = t[1]
    return t


class Eff:
    """what a path does to the visitor and the world, in order"""
    def __init__(self, it, trace, st, loops=False):
        self.ev = []          # (op, target, args, tag, raw event)
        self.prints = []
        self.calls = []
        self.loops = []
        for e in (trace if loops else toplevel(trace)):
            if e[0] == 'mut':
                t = n_(it, st, e[2])
                i = e[2]
                while i[0] in ('at', 'hv'):
                    i = i[1]
                if i[0] == 'new':
                    continue
                self.ev.append((e[1], t, tuple(n_(it, st, x) for x in e[3]), e[4], e))
            elif e[0] == 'write':
                b = base(n_(it, st, e[1]))
                f = e[2] if isinstance(e[2], tuple) else (e[2],)
                t = b
                for x in f:
                    if not isinstance(x, str):
                        undec('writes through %s' % (f,))
                    t = fld(t, x)
                self.ev.append(('write', t, (n_(it, st, e[3]),), None, e))
            elif e[0] in ('print', 'eprint'):
                self.prints.append(e)
            elif e[0] == 'out':
                self.prints.append(e)
            elif e[0] == 'call':
                self.calls.append((short(e[1]), tuple(n_(it, st, x) if isinstance(x, tuple) else x for x in e[2]), e))
            elif e[0] == 'loop':
                self.loops.append(e[1])
                for ctx, x in flat((e,)):
                    if x[0] in ('print', 'eprint'):
                        self.prints.append(x)

    def real(self):
        """changes; inserting what is already there is none"""
        return [x for x in self.ev if not (x[3] == 'present' and x[0] == 'insert')]


def facts(it, p):
    return Facts(p.st, it)


def dec(it, p, atom):
    """truth of an atom (given with short call names) on a path"""
    for a, v in conds(p.trace, it, p.st):
        if cs(a) == atom:
            return v
    return None


def dec_any(it, p, atoms):
    vs = [dec(it, p, a) for a in atoms]
    return True if True in vs else (False if False in vs else None)


# ------------------------------------------------------------------ evaluating text terms on witnesses
def ev(t, env):
    """the text a term stands for, given texts of its leaves; None if not understood"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'str':
        return t[1]
    if k == 'int':
        return t[1]
    if k == 'char':
        return chr(t[1])
    if k in ('disp', 'chr'):
        return ev(t[1], env)
    if k == 'cat':
        out = [ev(x, env) for x in t[1]]
        return None if None in out else ''.join(map(str, out))
    if k == 'len':
        x = ev(t[1], env)
        return None if x is None else len(x.encode())
    if k == 'lin':
        s = t[2]
        for a, c in t[1]:
            x = ev(a, env)
            if not isinstance(x, int):
                return None
            s += c * x
        return s
    if k == 'substr':
        x, lo, hi = (ev(y, env) for y in t[1:4])
        if x is None or lo is None or hi is None:
            return None
        return x.encode()[lo:hi].decode('utf8', 'replace')
    if k == 'replace':
        x, a, b = (ev(y, env) for y in t[1:4])
        if x is None or a is None or b is None:
            return None
        return x.replace(a, b)
    if k == 'rescape':
        x = ev(t[1], env)
        return None if x is None else rescape(x)
    if k in ('op', 'call'):
        n = short(t[1])
        if n in env.get('@fns', {}) and len(t[2]) == 1:
            x = ev(t[2][0], env)
            return None if x is None else env['@fns'][n](x)
        a = [ev(y, env) if isinstance(y, tuple) else None for y in t[2]]
        if None in a:
            return None
        if n in ('trim_matches', 'trim_start_matches', 'trim_end_matches') and len(a) == 2 and a[1]:
            x = a[0]
            if n != 'trim_end_matches':
                while x.startswith(a[1]):
                    x = x[len(a[1]):]
            if n != 'trim_start_matches':
                while x.endswith(a[1]):
                    x = x[:-len(a[1])]
            return x
        if t[0] == 'op' and n == 'pop' and len(a) == 1:
            return a[0][:-1]
        if t[0] == 'op' and n == 'truncate' and len(a) == 2:
            return a[0].encode()[:a[1]].decode('utf8', 'replace')
        if t[0] == 'op' and n in ('insert', 'insert_str') and len(a) == 3 and t[1].startswith('str::'):
            x = a[0].encode()
            return (x[:a[1]] + a[2].encode() + x[a[1]:]).decode('utf8', 'replace')
        if n in ('to_lowercase', 'to_ascii_lowercase'):
            return a[0].lower()
        if n in ('to_uppercase', 'to_ascii_uppercase'):
            return a[0].upper()
        if n == 'trim':
            return a[0].strip()
        if n == 'trim_start':
            return a[0].lstrip()
        if n == 'trim_end':
            return a[0].rstrip()
    return None


def rescape(x):
    return ''.join('\\' + c if c in '\\.+*?()|[]{}^$#&-~' else c for c in x)


def unescape(x):
    """the text a quoted literal (without its quotes) stands for"""
    out = ''
    i = 0
    while i < len(x):
        c = x[i]
        if c == '\\' and i + 1 < len(x):
            d = x[i + 1]
            out += {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', "'": "'"}.get(d, c + d)
            i += 2
        else:
            out += c
            i += 1
    return out


def evcond(a, env):
    k = a[0]
    if k in ('ile', 'ieq'):
        s = 0
        for x, c in a[1]:
            y = ev(x, env)
            if not isinstance(y, int):
                return None
            s += c * y
        return s <= a[2] if k == 'ile' else s == a[2]
    if k == 'eq':
        x, y = ev(a[1], env), ev(a[2], env)
        return None if x is None or y is None else x == y
    if k == 'not':
        x = evcond(a[1], env)
        return None if x is None else not x
    if k in ('call', 'op') and len(a[2]) == 2:
        x, y = (ev(z, env) for z in a[2])
        if isinstance(x, str) and isinstance(y, str):
            return {'contains': y in x, 'starts_with': x.startswith(y), 'ends_with': x.endswith(y)}.get(short(a[1]))
    if k == 'contains':
        x, y = ev(a[1], env), ev(a[2], env)
        if isinstance(x, str) and isinstance(y, str):
            return y in x
    return None


# ------------------------------------------------------------------ text helpers of the visitors
def helpers(src, f):
    """functions turning a text into a text by looking at its characters one by one: kept as named functions"""
    out = []
    for k, fn in src.d['fns'].items():
        if k.startswith('tool::visitor::') and '{' not in k and textfn(fn):
            out.append(k)
    return tuple(sorted(out))


def textfn(fn):
    b = fn.get('body')
    if not b or b.get('argc') != 1:
        return False
    ls = b['locals']
    return ls[0]['ty'] == 'std::string::String' and ls[1]['ty'] in ('&str', '&std::string::String') and looping(b)


def looping(b):
    """the control flow has a cycle"""
    bl = b['blocks']

    def succ(i):
        te = bl[i]['te']
        out = []
        for k, v in te.items():
            if k in ('to', 'other') and isinstance(v, int):
                out.append(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, list) and len(y) == 2 and isinstance(y[1], int):
                        out.append(y[1])
        return out
    done, on = set(), set()

    def dfs(i):
        on.add(i)
        for j in succ(i):
            if j in on or (j not in done and dfs(j)):
                return True
        on.discard(i)
        done.add(i)
        return False
    return dfs(0)


def pattern(it, p, t, lit):
    """the table's pattern: '^(' X ')' with X the text between the delimiters, escaped slashes plain"""
    t0 = n_(it, p.st, t)
    q = jslit.parts(it, p.st, p.trace, t)
    if q is None:
        undec('the pattern is %s' % fmt(t0)[:200])
    pre = ''
    i = 0
    while i < len(q) and q[i][0] == 'c':
        pre += q[i][1]
        i += 1
    suf = ''
    j = len(q)
    while j > i and q[j - 1][0] == 'c':
        j -= 1
        suf = q[j][1] + suf
    mid = q[i:j]
    if len(mid) != 1 or mid[0][0] != 'hole':
        undec('the pattern is %s' % fmt(t0)[:200])
    h = n_(it, p.st, mid[0][1])
    if not pre.startswith('^'):
        definite(it, p.trace, p.st, 'the pattern put into the table does not begin with ^: it also matches later in the text')
    if pre not in ('^(', '^(?:') or suf != ')':
        if pre == '^' and suf == '':
            definite(it, p.trace, p.st, 'the pattern is anchored without a group around it: of x|y only x is anchored')
        if pre in ('^(', '^(?:') and suf.startswith(')'):
            definite(it, p.trace, p.st, 'the pattern ends with %s: more than the text asked for is matched' % suf)
        undec('the pattern is %s…%s' % (pre, suf))
    return h


def rawfield(x, f):
    v = x[4][3][0]
    while v[0] in ('at', 'hv'):
        v = v[1]
    return dict(v[3])[f]
