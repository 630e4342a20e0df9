"""C20: printed grammars, trees and tokens show everything, in order, separated.

Each Display implementation is summarised; everything it writes (directly, in loops, through
accumulated or joined strings) becomes one sequence of fixed characters, values and
repetitions, per path.  A grammar must repeat over all productions; each repetition must show
the left side and then, for every symbol of the right side in order, that symbol under the name
the vocabulary's own map gives it (the number only where there is no name).  A tree must show
its name and then every child in order, a child by its own kind's printing; a token all its
parts in order.  Between two neighbouring values there must always be a character that cannot
be part of a name.
"""
from lib import *
from fix import Stop, bad, undec, guard, definite
from jslit import parts, loop_of
import c18

FLOOR = 1
TECHNIQUE = 'symbolic path summaries of the Display implementations, matched as texts with holes and repetitions'
G = '<tool::grammar::Grammar as std::fmt::Display>::fmt'
RC = '<runtime::ast::rule_context::RuleContext as std::fmt::Display>::fmt'
AC = '<runtime::ast::ast_context::ASTContext as std::fmt::Display>::fmt'
TC = '<runtime::ast::terminal_context::TerminalContext as std::fmt::Display>::fmt'
EC = '<runtime::ast::error_context::ErrorContext as std::fmt::Display>::fmt'
TK = '<runtime::token::Token as std::fmt::Display>::fmt'
PO = '<runtime::token::Position as std::fmt::Display>::fmt'


def fld(x, *ns):
    for n in ns:
        x = ('fld', x, n)
    return x


def run(r, src):
    for f, rule, chk in ((G, 'grammar', grammar), (RC, 'tree', tree), (AC, 'child', child), (TC, 'leaf', leaf), (EC, 'leaf', leaf), (TK, 'token', token), (PO, 'position', position)):
        it, ps = get_paths(r, src, f)
        if ps is None:
            continue
        guard(r, rule, f, lambda: every(it, ps, chk, src))


def every(it, ps, chk, src):
    c18.IT[0] = it
    n = 0
    for p in ps:
        if p.kind != 'ret' or failing(it, p.trace, p.st):
            continue
        v = nv(it, p.st, p.val)
        if v[0] == 'adt' and v[2] == 'Err':
            definite(it, p.trace, p.st, 'printing fails, when %s' % show_conds(p.trace)[:300])
        q = merge(outs(it, p.trace, p.st))
        chk(it, p, q)
        n += 1
    if not n:
        undec('no way through')
    return '%d ways' % n


def failing(it, trace, st):
    """the formatter itself refused"""
    for a, v in conds(trace, it, st):
        if a[0] == 'is' and a[1][0] == 'call' and a[1][1] == 'write' and (a[2] == 'Ok') != v:
            return True
    return False


def outs(it, trace, st, tgt=A(1)):
    out = []
    for e in toplevel(trace):
        if e[0] == 'out':
            t = nv(it, st, e[1])
            if t != tgt:
                undec('writes to %s' % fmt(t)[:80])
            q = parts(it, st, trace, e[2])
            if q is None:
                undec('writes %s' % fmt(nv(it, st, e[2]))[:200])
            out += q
        elif e[0] == 'loop':
            L = e[1]
            if not any(x[0] == 'out' for c, x in flat((e,))):
                if any(x[0] == 'call' and any(occurs(y, lambda z: z == tgt) for y in x[2]) for c, x in flat((e,))):
                    undec('the formatter is handed on at %s' % L.where)
                continue
            cs = []
            for c in cases(it, L):
                if c.kind == 'panic' or failing(it, c.trace, c.st):
                    continue
                cs.append((c, merge(outs(it, c.trace, c.st, tgt))))
            out.append(('rep', L, loop_dom(it, L), cs, None))
        elif e[0] == 'call' and any(occurs(nv(it, st, y), lambda z: z == tgt) for y in e[2]):
            undec('the formatter is handed to %s' % e[1])
    return out


def merge(ps):
    out = []
    for x in ps:
        if x[0] == 'hole':
            t = nv(it_of(x), x[2], x[1]) if False else x[1]
            while t[0] == 'op' and t[1] == 'pad':
                if 'prec' in t[2][1][1] and not (t[2][0][0] == 'disp'):
                    bad('%s is cut off' % fmt(t[2][0])[:80])
                t = t[2][0]
            if t[0] == 'str':
                out += [('c', ch) for ch in t[1]]
                continue
            out.append(('hole', t) + tuple(x[2:]))
        else:
            out.append(x)
    return out


def it_of(x):
    return None


def issep(ch):
    return not (ch.isalnum() or ch == '_')


# ------------------------------------------------------------------ neighbours
class Edge:
    """how a text begins and ends: sep before its first value, any value, sep after its last"""
    def __init__(self, lead, val, trail):
        self.lead, self.val, self.trail = lead, val, trail


def edges(it, ps, where):
    lead = trail = False
    val = False
    for x in ps:
        if x[0] == 'c':
            s = issep(x[1])
            if val:
                trail = trail or s
            else:
                lead = lead or s
            continue
        if x[0] == 'hole':
            if val and not trail:
                bad('%s: %s follows the value before it without anything between' % (where, fmt(x[1])[:100]))
            val, trail = True, False
            if not val:
                lead = lead
            continue
        if x[0] == 'rep':
            L, cs, sep = x[1], x[3], x[4]
            es = [(c, edges(it, q, where)) for c, q in cs if c.kind == 'cont']
            es = [(c, e) for c, e in es if e.val]
            if not es:
                continue
            dep = any(late(it, c, L) and c18.first(c, L) is None for c, e in es)
            fl = undec if dep else bad
            for c, e in es:
                f = c18.first(c, L)
                if f is not False and val and not trail and not e.lead:
                    fl('%s: the first of the values repeated at %s follows the one before it without anything between' % (where, L.where))
            seps = sep is not None and any(issep(ch) for ch in sep)
            mintrail = all(e.trail for c, e in es)
            for c, e in es:
                f = c18.first(c, L)
                if f is not True and not e.lead and not seps and not mintrail:
                    fl('%s: the values repeated at %s follow each other without anything between' % (where, L.where))
            firsts = [e for c, e in es if c18.first(c, L) is not False]
            if not val:
                lead = lead or all(e.lead for e in firsts)
                trail = mintrail
            else:
                trail = trail and mintrail
            val = True
    return Edge(lead, val, trail)


def late(it, c, L):
    """the case depends on how far the loop is"""
    return sum(1 for a, v in conds(c.trace, it, c.st) if a[0] in ('ile', 'ieq') and any(k == ixof(L) for k, co in a[1])) > 1


def holes(ps):
    for x in ps:
        if x[0] == 'hole':
            yield x
        elif x[0] == 'rep':
            for c, q in x[3]:
                yield from holes(q)


def base(S):
    """the collection a derived sequence was made from, if nothing is left out"""
    while True:
        if S[0] in ('sorted', 'hseq', 'copied', 'rev', 'map', 'at'):
            S = S[1]
        elif S[0] == 'coll' and len(S) > 2:
            S = S[2]
        else:
            return S


def chain(S):
    """the steps a derived sequence was made by"""
    out = []
    while S[0] in ('sorted', 'hseq', 'copied', 'rev', 'map', 'at') or S[0] == 'coll' and len(S) > 2:
        out.append(S[0])
        S = S[2] if S[0] == 'coll' else S[1]
    return out


def over(it, x, S, what, order=True):
    """the repetition x runs over all of S, in order"""
    L, dom = x[1], x[2]
    if dom.kind == 'other' or dom.seq is None:
        undec('%s: what the loop at %s ranges over is not understood' % (what, L.where))
    if base(nv(it, None, dom.seq)) != S:
        return None
    ix = ixof(L)
    es = set()
    for t, u, s in L.conts:
        ts = [y for c, e in flat(t) for y in subterms(nvtrace(it, s, e))] + [y for v in u.values() for y in subterms(nv(it, s, v))]
        es |= {y for y in ts if y[0] == 'elem' and base(y[1]) == S and occurs(y[2], lambda z: z == ix)}
    E = dom.elem
    if E not in es and es:
        if len(es) > 1:
            undec('%s: several elements at a time' % what)
        E = es.pop()
    if dom.kind == 'shifted':
        bad('%s: %s' % (what, dom.note))
    if order:
        n = (dom.kind == 'rev') + sum(1 for y in chain(E[1]) if y == 'rev')
        if 'sorted' in chain(E[1]):
            bad('%s: sorted, not in order' % what)
        if n % 2:
            bad('%s: not in order' % what)
    if dom.kind not in ('fwd', 'rev'):
        undec('%s: the loop at %s' % (what, L.where))
    return E


def leaves(it, x, what):
    """a way out of a repetition before its end"""
    for c, q in x[3]:
        if c.kind != 'cont':
            definite(it, c.trace, c.st, '%s: the rest is left out, when %s' % (what, show_conds(c.trace)[:300]))


def is_empty(it, st, S):
    return Facts(st, it).dec(le(('len', S), Int(0))) is True


# ------------------------------------------------------------------ grammars
def grammar(it, p, q):
    P = fld(A(0), 'productions')
    reps = [x for x in q if x[0] == 'rep' and over(it, x, P, 'productions', False)]
    if not reps:
        if is_empty(it, p.st, P):
            return
        lost(it, p, q, P, 'the productions are not printed')
    if len(reps) > 1:
        undec('%d loops over the productions' % len(reps))
    x = reps[0]
    leaves(it, x, 'productions')
    edges(it, q, 'productions')
    for c, ps in x[3]:
        if c.kind == 'cont':
            production(it, c, ps, over(it, x, P, 'productions', False))


def lost(it, p, q, S, msg):
    if any(not understood(h[1]) or occurs(h[1], lambda y: y == S) for h in holes(q)) or any(x[0] == 'rep' for x in q):
        undec(msg + ' in a way the analysis knows')
    definite(it, p.trace, p.st, '%s, when %s' % (msg, show_conds(p.trace)[:300]))


MAPS = {'NonTerminal': 'ni2n', 'Terminal': 'ti2n'}


def named(it, f, h, ident, kind, cs):
    """hole h shows the symbol `ident` of the given kind"""
    t = h[1]
    M = view(MAPS[kind], A(0), 'vocabulary')
    has = f.dec(('contains', M, ident))
    if t == ('mval', M, ident):
        return True
    if t == ('disp', ident) or t == ('dbg', ident):
        if has is False:
            return True
        if has is True:
            bad('a %s is printed by its number though it has a name' % kind.lower())
        if not any(occurs(a, lambda y: y == ident) and not a[0] == 'is' for a, v in cs):
            return False
        return None
    if t[0] == 'mval' and t[1] in [view(m, A(0), 'vocabulary') for m in MAPS.values()] and understood(t):
        return False
    if not occurs(t, lambda y: y == ident) and understood(t):
        return False
    return None


def production(it, c, ps, E):
    f = c.facts(it)
    where = 'production'
    hs = [x for x in ps if x[0] in ('hole', 'rep')]
    left, right = fld(E, 'left'), fld(E, 'right')
    if not hs:
        definite(it, c.trace, c.st, 'a production is not printed, when %s' % show_conds(c.trace)[:300])
    h = hs[0]
    if h[0] != 'hole':
        if over(it, h, right, 'right side'):
            definite(it, c.trace, c.st, 'the left side is not printed first, when %s' % show_conds(c.trace)[:300])
        undec('a production begins with a repetition')
    ok = named(it, f, h, left, 'NonTerminal', conds(c.trace, it, c.st))
    if ok is False:
        definite(it, c.trace, c.st, 'the left side is printed as %s, when %s' % (fmt(h[1])[:100], show_conds(c.trace)[:300]))
    if ok is None:
        undec('the left side is printed as %s' % fmt(h[1])[:100])
    rest = hs[1:]
    reps = [x for x in rest if x[0] == 'rep']
    if any(x[0] == 'hole' for x in rest):
        undec('a production also shows %s' % ', '.join(fmt(x[1])[:60] for x in rest if x[0] == 'hole'))
    if not reps:
        if f.dec(le(('len', right), Int(0))) is True:
            return
        definite(it, c.trace, c.st, 'the right side is not printed, when %s' % show_conds(c.trace)[:300])
    if len(reps) > 1 or not over(it, reps[0], right, 'right side'):
        undec('the right side is printed by other loops')
    x = reps[0]
    leaves(it, x, 'right side')
    R = over(it, x, right, 'right side')
    for c2, q in x[3]:
        if c2.kind != 'cont':
            continue
        symbol(it, c, c2, q, R)


def symbol(it, c, c2, q, R):
    f = c2.facts(it)
    hs = [y for y in q if y[0] in ('hole', 'rep')]
    kinds = [k for k in MAPS if f.dec(('is', R, k)) is not False]
    when = 'when %s' % show_conds(c2.trace)[:300]
    if not hs:
        if any(occurs(a, lambda y: y[0] == 'lv') for a, v in conds(c2.trace, it, c2.st)):
            undec('a symbol may be left out')
        definite(it, c2.trace, c2.st, 'a symbol of the right side is not printed, ' + when)
    if len(hs) != 1 or hs[0][0] != 'hole':
        undec('several values for a symbol')
    if len(kinds) != 1:
        t = hs[0][1]
        if understood(t) and not occurs(t, lambda y: y == R):
            definite(it, c2.trace, c2.st, 'a symbol is printed as %s, %s' % (fmt(t)[:100], when))
        undec('a symbol is printed as %s' % fmt(t)[:100])
    ident = ('fld', ('as', R, kinds[0]), '0')
    ok = None
    for i in (ident, ('pay', R, kinds[0]), ('as', R, kinds[0])):
        ok = named(it, f, hs[0], i, kinds[0], conds(c2.trace, it, c2.st))
        if ok:
            return
        if occurs(hs[0][1], lambda y: y == i):
            break
    if ok is False:
        definite(it, c2.trace, c2.st, 'a %s is printed as %s, %s' % (kinds[0].lower(), fmt(hs[0][1])[:100], when))
    undec('a symbol is printed as %s' % fmt(hs[0][1])[:100])


# ------------------------------------------------------------------ trees
def tree(it, p, q, T=A(0)):
    C = fld(T, 'children')
    N = fld(T, 'rule_name')
    edges(it, q, 'tree')
    hs = [x for x in q if x[0] in ('hole', 'rep')]
    names = [i for i, x in enumerate(hs) if x[0] == 'hole' and x[1] == N]
    if not names:
        lost(it, p, [x for x in q if x[0] == 'hole'], N, "a rule's name is not printed")
    reps = [i for i, x in enumerate(hs) if x[0] == 'rep' and over(it, x, C, 'children')]
    if not reps:
        if is_empty(it, p.st, C):
            return
        for x in hs:
            if x[0] == 'hole' and x[1][0] == 'lv':
                prepended(it, x, C)
        lost(it, p, q, C, 'the children are not printed')
    if len(reps) > 1:
        undec('several loops over the children')
    if names[0] > reps[0]:
        bad("a rule's name comes after its children")
    x = hs[reps[0]]
    leaves(it, x, 'children')
    X = over(it, x, C, 'children')
    for c, ps in x[3]:
        if c.kind != 'cont':
            continue
        f = c.facts(it)
        hh = [y for y in ps if y[0] in ('hole', 'rep')]
        when = 'when %s' % show_conds(c.trace)[:300]
        if not hh:
            if any(occurs(a, lambda y: y[0] == 'lv') for a, v in conds(c.trace, it, c.st)):
                undec('a child may be left out')
            definite(it, c.trace, c.st, 'a child is not printed, ' + when)
        if not any(y[0] == 'hole' and shows(f, y[1], X) for y in hh):
            if all(y[0] == 'hole' and understood(y[1]) and not occurs(y[1], lambda z: z == X) for y in hh):
                definite(it, c.trace, c.st, 'a child is printed as %s, %s' % (' '.join(fmt(y[1])[:60] for y in hh), when))
            undec('a child is printed as %s' % ' '.join(fmt(y[1])[:60] if y[0] == 'hole' else '...' for y in hh))


def prepended(it, x, C):
    """an accumulator every child is put in front of"""
    L = loop_of(x[3], x[1])
    if L is None or not L.conts:
        return
    d = loop_dom(it, L)
    if d.kind != 'fwd' or base(nv(it, None, d.seq)) != C:
        return
    for t, u, s in L.conts:
        v = it.deep(s, u.get(x[1], x[1]))
        if not (v[0] == 'cat' and v[1][-1] == x[1] and any(occurs(nv(it, s, y), lambda z: z == d.elem) for y in v[1][:-1])):
            return
    bad('children: each is put in front of those before it')


def shows(f, t, X):
    if t == ('disp', X):
        return True
    for V in ('Terminal', 'Error', 'Rule'):
        if f.dec(('is', X, V)) is True:
            for b in (('as', X, V), ('fld', ('as', X, V), '0')):
                if t == ('disp', b) or V != 'Rule' and t in (fld(b, 'symbol', 'token_name'), ('disp', fld(b, 'symbol'))):
                    return True
    return False


def child(it, p, q):
    f = Facts(p.st, it)
    X = A(0)
    hh = [y for y in q if y[0] in ('hole', 'rep')]
    if any(y[0] == 'hole' and shows(f, y[1], X) for y in hh):
        return
    V = [k for k in ('Terminal', 'Error', 'Rule') if f.dec(('is', X, k)) is True]
    if V == ['Rule']:
        for R in (('as', X, 'Rule'), ('fld', ('as', X, 'Rule'), '0')):
            if any(occurs(y[1], lambda z: z in (fld(R, 'rule_name'), fld(R, 'children'))) for y in holes(q)):
                return tree(it, p, q, R)
    if all(y[0] == 'hole' and understood(y[1]) for y in hh):
        definite(it, p.trace, p.st, 'a child is printed as %s, when %s' % (' '.join(fmt(y[1])[:60] for y in hh) or 'nothing', show_conds(p.trace)[:300]))
    undec('a child is printed in a way that is not understood')


def leaf(it, p, q):
    N = fld(A(0), 'symbol', 'token_name')
    edges(it, q, 'leaf')
    if any(h[1] in (N, ('disp', fld(A(0), 'symbol'))) for h in holes(q)):
        return
    lost(it, p, q, N, "the token's name is not printed")


# ------------------------------------------------------------------ tokens
def token(it, p, q):
    T = A(0)
    want = [('its number', fld(T, 'token_index')), ('where it starts', fld(T, 'char_start_index')), ('where it stops', fld(T, 'char_stop_index')),
            ('its text', fld(T, 'text')), ('its name', fld(T, 'token_name')), ('its type', fld(T, 'token_type')),
            ('the line it starts in', fld(T, 'start', 'line')), ('the position it starts at', fld(T, 'start', 'char_position')),
            ('the line it stops in', fld(T, 'stop', 'line')), ('the position it stops at', fld(T, 'stop', 'char_position'))]
    ordered(it, p, q, want, {fld(T, k): [fld(T, k, 'line'), fld(T, k, 'char_position')] for k in ('start', 'stop')})


def position(it, p, q):
    T = A(0)
    ordered(it, p, q, [('the line', fld(T, 'line')), ('the position', fld(T, 'char_position'))], {})


def ordered(it, p, q, want, whole):
    edges(it, q, 'text')
    if any(x[0] == 'rep' for x in q):
        undec('values are printed in a loop')
    got = []
    for h in holes(q):
        t = h[1]
        if t[0] == 'disp' or t[0] == 'dbg' and t[1] not in whole and t[1] not in (fld(A(0), 'text'), fld(A(0), 'token_name')):
            t = t[1]
        got += whole.get(t, [t])
    when = 'when %s' % show_conds(p.trace)[:300]
    f = Facts(p.st, it)
    seen = []
    for what, w in want:
        if w in got:
            seen.append((got.index(w), what))
            continue
        if what == 'its text' and f.dec(('eq', w, ('str', ''))) is True or f.dec(le(('len', w), Int(0))) is True:
            continue
        if any(not understood(g) or occurs(g, lambda y: y == w) for g in got):
            undec('%s may be printed as %s' % (what, [fmt(g)[:60] for g in got if not understood(g) or occurs(g, lambda y: y == w)]))
        definite(it, p.trace, p.st, '%s is not printed, %s' % (what, when))
    if seen != sorted(seen):
        definite(it, p.trace, p.st, 'printed in the order %s, %s' % (', '.join(w for _, w in sorted(seen)), when))
