"""C13: the scanner takes the longest match and its tokens tile the input.

For the hand-written and the bundled generated scanner and for instances of the scanner
template: scan() is summarised.  Whenever input remains it must search every pattern, first
to last, in exactly the rest of the input behind the cursor, keeping (length, type) of a
match exactly when it is longer than the best so far; give an error exactly when there is
none; and otherwise a token whose every field is the expected term (text and byte range from
the cursor over the best length, type = index + 2 and its name, start = position, stop =
position advanced over the pieces between newlines), moving cursor, number and position
along by exactly that.  The constructor must start at zero.
"""
from scan import *

FLOOR = 1
INPUT, CUR = F(A(0), 'input'), F(A(0), 'cursor')
LENI = ('len', INPUT)
RX, NAMES = F(A(0), 'regex_list'), F(A(0), 'token_names')
POS = F(A(0), 'position')
REST = ('substr', INPUT, CUR, LENI)


def run(r, src):
    for lx in lexers(r, src):
        if lx.scan not in lx.src.d['fns']:
            r.bad('anchor', lx.scan, 'the scanner has no scan method')
            continue
        guard(r, 'starts-at-zero', lx.new, lambda: constructor(lx))
        it, ps = get_paths(r, lx.src, lx.scan)
        if ps is None:
            continue
        guard(r, 'longest-match', lx.scan, lambda: best(lx, it, ps))
        guard(r, 'token', lx.scan, lambda: token(lx, it, ps))


def constructor(lx):
    it, ps = lx.src.paths(lx.new)
    if isinstance(ps, Exception):
        undec('too complex')
    n = 0
    for p in rets(ps):
        v = nv(it, p.st, p.val)
        if v[0] != 'adt':
            undec('returns %s' % fmt(v))
        d = dict(v[3])
        pos = dict(d['position'][3]) if d['position'][0] == 'adt' else {}
        for f, got, want in (('input', d['input'], A(0)), ('cursor', d['cursor'], Int(0)), ('token_index', d['token_index'], Int(0)),
                             ('position.line', pos.get('line'), Int(0)), ('position.char_position', pos.get('char_position'), Int(0))):
            if got is None:
                undec('%s not understood' % f)
            if cstrip(got) != want:
                (bad if understood(got) else undec)('%s starts as %s' % (f, fmt(got)))
        n += 1
    if not n:
        undec('never returns')
    return 'keeps the input, starts at 0'


def rest_left(f):
    """can this way be taken while input remains?"""
    return f.dec(le(add(sub(CUR, LENI), Int(1)), Int(0))) is not False


def nomatch(t):
    """patterns are tied to the start of what they search (C15, C07): a match starts at 0"""
    def f(x):
        if x[0] == 'mstart':
            return Int(0)
        if x[0] in ('ile', 'ieq') and occurs(x, lambda y: y[0] == 'mstart'):
            acc = Int(0)
            for k, v in x[1]:
                acc = add(acc, mul(subst(k, f), Int(v)))
            return le(acc, Int(x[2])) if x[0] == 'ile' else ieq(acc, Int(x[2]))
        return None
    return subst(t, f)


def search_loop(it, p):
    Ls = [e[1] for e in toplevel(p.trace) if e[0] == 'loop' and mentions(it, e[1])]
    return Ls


def mentions(it, L):
    for t, s in [(t, s) for t, u, s in L.conts]:
        for ctx, e in flat(t):
            if any(x[0] == 'rfind' for x in subterms(nvtrace(it, s, e))):
                return True
    return False


def variables(it, L, p):
    """(LEN, TYPE) of the loop: what receives the match end, and what receives the index"""
    ix = ixof(L)
    ln, ty = set(), set()
    for t, u, s in L.conts:
        for k, v in u.items():
            w = nomatch(nv(it, s, v))
            if w == k or '#pos' in str(k):
                continue
            if w[0] == 'mend':
                ln.add(k)
            elif occurs(w, lambda x: x == ix) and not occurs(w, lambda x: x[0] == 'rfind'):
                ty.add(k)
            else:
                undec('at %s: %s becomes %s' % (L.where, fmt(k), fmt(w)))
    if len(ln) + len(ty) == 1 and len([x for x in L.exits if x[0] != 'panic']) == 1:
        # nothing else is kept, and nothing is searched again behind the loop
        again = any(x[0] == 'rfind' for a, v in conds(p.trace, it, p.st) for x in subterms(a))
        muts = any(e[0] in ('mut', 'store') for t, u, s in L.conts for ctx, e in flat(t))
        if not again and not muts and not occurs(it.deep(p.st, p.val), lambda x: x[0] == 'rfind'):
            bad('at %s: of the best match so far, %s is not kept' % (L.where, 'the type' if ln else 'the length'))
    if len(ln) != 1 or len(ty) != 1:
        undec('at %s: the best match so far is not kept in two plain variables' % L.where)
    return ln.pop(), ty.pop()


def ok_term(t, lvs):
    return understood(subst(t, lambda x: ('sym', 'v') if x in lvs else None))


def gu(it, c, lvs):
    return all(ok_term(a, lvs) for a, v in conds(c.trace, it, c.st))


def best(lx, it, ps):
    n = 0
    seen = set()
    for p in rets(ps):
        f = Facts(p.st, it)
        if not rest_left(f):
            continue
        Ls = search_loop(it, p)
        if not Ls:
            definite(it, p.trace, p.st, 'returns %s without searching although input may remain, when %s' % (fmt(nv(it, p.st, p.val))[:120], show_conds(p.trace)))
        if len(Ls) > 1:
            undec('%d searching loops' % len(Ls))
        L = Ls[0]
        if L.id in seen:
            continue
        seen.add(L.id)
        dom = loop_dom(it, L)
        if dom.seq != RX:
            (bad if dom.seq is not None and dom.kind != 'other' and understood(dom.seq) else undec)('the search at %s ranges over %s' % (L.where, fmt(dom.seq) if dom.seq else dom.note))
        if dom.kind == 'shifted':
            bad('at %s: %s' % (L.where, dom.note))
        if dom.kind not in ('fwd', 'rev'):
            undec('at %s: %s' % (L.where, dom.note))
        LEN, TYPE = variables(it, L, p)
        lvs = {LEN, TYPE}
        idx = dom.elem[2]
        i0, t0 = nv(it, p.st, L.init[LEN]), nv(it, p.st, L.init[TYPE])
        if i0 != Int(0):
            (bad if understood(i0) else undec)('the best length starts as %s' % fmt(i0))
        if t0[0] != 'int' and t0 != Int(0):
            undec('the best type starts as %s' % fmt(t0))
        R = ('rfind', dom.elem, REST, Int(0))
        M = ('fld', ('as', R, 'Some'), '0')
        END = ('mend', M)
        for c in cases(it, L):
            if c.kind == 'panic':
                continue

            def flag(msg, c=c):
                (bad if gu(it, c, lvs) else undec)('at %s: %s, when %s' % (L.where, msg, show_conds(c.trace)))
            for ctx, e in flat(c.trace):
                for x in subterms(nvtrace(it, c.st, e)):
                    if x[0] == 'rfind' and x != R:
                        if x[2] != REST or x[3] != Int(0):
                            (bad if ok_term(x, lvs) else undec)('at %s searches %s from %s instead of the rest behind the cursor' % (L.where, fmt(x[2]), fmt(x[3])))
                        (bad if ok_term(x, lvs) else undec)('at %s searches with %s' % (L.where, fmt(x[1])))
            cf = c.facts(it)
            if c.kind == 'exit':
                flag('the remaining patterns are not tried')
            m = cf.dec(('is', R, 'Some'))
            ul, ut = nomatch(nv(it, c.st, c.upd.get(LEN, LEN))), nomatch(nv(it, c.st, c.upd.get(TYPE, TYPE)))
            moved = ul != LEN or ut != TYPE
            n += 1
            if m is False:
                if moved:
                    flag('the best match changes without a match')
                continue
            lt = decide(cf, c, it, LEN, END, -1)      # LEN <= END - 1
            leq = decide(cf, c, it, LEN, END, 0)       # LEN <= END
            want = lt if dom.kind == 'fwd' else leq
            if m is None:
                flag('whether the pattern matches is not looked at')
            if moved:
                if ul != END:
                    flag('the best length becomes %s' % fmt(ul))
                if ut != add(idx, Int(2)):
                    if ok_term(ut, lvs | {ixof(L)}) and ut[0] != 'lv':
                        flag('the best type becomes %s' % fmt(ut))
                    if ut == TYPE:
                        flag('the best type stays behind')
                    undec('the best type becomes %s' % fmt(ut))
                if dom.kind == 'rev':
                    if leq is not True:
                        flag('a match that may be shorter replaces a longer one')
                    if lt is not True and cf.dec(le(Int(1), END)) is not True and cf.dec(le(Int(1), LEN)) is not True:
                        flag('an empty match is taken')
                elif lt is not True:
                    flag('a match replaces one that may be as long or longer' if leq is True else 'a match may replace a longer one')
            else:
                if lt is not False and dom.kind == 'fwd':
                    flag('a longer match is passed over')
                if dom.kind == 'rev' and lt is not False:
                    flag('a longer match is passed over')
                if dom.kind == 'rev' and leq is not False and cf.dec(le(END, Int(0))) is not True and cf.dec(le(LEN, Int(0))) is not True:
                    flag('an earlier pattern with as long a match is passed over')
    if not n:
        undec('no way through the search')
    return '%d ways through one step of the search' % n


def decide(cf, c, it, LEN, END, k):
    """LEN <= END + k ?  (match starts taken as 0)"""
    at = le(LEN, add(END, Int(k)))
    d = cf.dec(at)
    if d is not None:
        return d
    # conditions that mention the match start
    s = State()
    for a, v in conds(c.trace, it, c.st):
        try:
            s.assume(nomatch(a), v)
        except Exception:
            pass
    return s.decide(at)


def token(lx, it, ps):
    n = 0
    for p in rets(ps):
        f = Facts(p.st, it)
        if not rest_left(f):
            continue
        Ls = search_loop(it, p)
        if len(Ls) != 1:
            undec('%d searching loops' % len(Ls))
        L = Ls[0]
        LEN, TYPE = variables(it, L, p)
        lvs = {LEN, TYPE}

        def flag(msg, *ts, p=p):
            okk = all(ok_term(a, lvs) for a, v in conds(toplevel(p.trace), it, p.st)) and all(ok_term(t, lvs) for t in ts)
            (bad if okk else undec)('%s, when %s' % (msg, show_conds(toplevel(p.trace))))
        none = None
        t0 = nv(it, p.st, L.init[TYPE])
        for q in (f.dec(ieq(TYPE, t0)), f.dec(le(LEN, Int(0)))):
            if q is not None:
                none = q
        if none is None and t0 == Int(0):
            none = f.dec(le(TYPE, Int(1)))
        v = nv(it, p.st, p.val)
        if v[0] != 'adt' or v[2] not in ('Ok', 'Err'):
            undec('returns %s' % fmt(v)[:200])
        wr = final_writes(it, p)
        n += 1
        if v[2] == 'Err':
            if none is not True:
                flag('an error although a pattern matched')
            if wr:
                flag('an error moves %s' % ', '.join(sorted('.'.join(k) for k in wr)))
            continue
        if none is not False:
            flag('a token although no pattern matched (or an empty one)')
        T = dict(v[3])['0']
        if T[0] != 'adt':
            undec('the token is %s' % fmt(T)[:200])
        d = dict(T[3])
        END = add(CUR, LEN)
        TEXT = ('substr', INPUT, CUR, END)
        for fld, want in (('token_type', TYPE), ('token_name', ('elem', NAMES, TYPE)), ('channel', Int(0)), ('text', TEXT),
                          ('token_index', F(A(0), 'token_index')), ('char_start_index', CUR), ('char_stop_index', END)):
            got = nomatch(d[fld])
            if got != want:
                flag('%s is %s instead of %s' % (fld, fmt(got)[:150], fmt(want)[:150]), got)
        if not same_pos(d['start'], POS):
            flag('the token starts at %s' % fmt(d['start'])[:200], d['start'])
        stop = pair(d['stop'])
        if stop is None:
            undec('the token stops at %s' % fmt(d['stop'])[:200])
        advance(it, p, f, stop, TEXT, LEN, flag, lvs)
        want = {('cursor',): END, ('token_index',): add(F(A(0), 'token_index'), Int(1))}
        for k, w in want.items():
            got = nomatch(wr.pop(k, F(A(0), *k)))
            if got != w:
                flag('%s becomes %s instead of %s' % (k[0], fmt(got)[:150], fmt(w)[:150]), got)
        np = wr.pop(('position',), POS)
        np = list(pair(np) or (F(np, 'line'), F(np, 'char_position')))
        for i, k in enumerate(('line', 'char_position')):
            np[i] = wr.pop(('position', k), np[i])
        if tuple(np) != stop:
            flag('scanning goes on at line %s column %s instead of where the token stops' % (fmt(np[0])[:100], fmt(np[1])[:100]), *np)
        for k in wr:
            flag('scanning changes %s' % '.'.join(k))
    if not n:
        undec('no way through')
    return '%d ways' % n


def final_writes(it, p):
    """the scanner's fields after the call, as far as they were written"""
    out = {}
    for e in toplevel(p.trace):
        if e[0] == 'write':
            o = nv(it, p.st, e[1])
            base = o[1] if o[0] == 'obj' else o
            if base == A(0):
                k = tuple(e[2])
                out = {q: w for q, w in out.items() if q[:len(k)] != k}
                out[k] = nv(it, p.st, e[3])
            elif occurs(base, lambda x: x == A(0)):
                out[('?',)] = base
        elif e[0] == 'mut' and nv(it, p.st, e[2])[0] != 'new' and occurs(nv(it, p.st, e[2]), lambda x: x == A(0)):
            out[('?',)] = nv(it, p.st, e[2])
        elif e[0] == 'loop':
            for ctx, x in flat([e]):
                if x[0] == 'write' and occurs(nv(it, p.st, x[1]), lambda y: y == A(0)):
                    out[('?',)] = x[1]
    return out


def pair(t):
    if t[0] == 'adt':
        d = dict(t[3])
        return d['line'], d['char_position']
    if t == POS:
        return F(POS, 'line'), F(POS, 'char_position')
    if t[0] == 'obj' and t[1] == POS:
        d = {k[0] if isinstance(k, tuple) else k: v for k, v in t[2]}
        return d.get('line', F(POS, 'line')), d.get('char_position', F(POS, 'char_position'))
    return None


def same_pos(a, b):
    return a == b or pair(a) == pair(b)


LOSSY = ('str::lines', 'str::split_whitespace', 'str::split_terminator')


def pay(t):
    return ('fld', ('as', t, 'Some'), '0')


NL, TAIL = ('sym', '#newlines'), ('sym', '#tail')     # newlines in the text; length of what is behind the last one


def tells_newline(it, clo):
    """the closure tells a newline from every other character (or byte)"""
    x = ('sym', '#c')
    try:
        outs = it.call_closure(State(), clo, [x])
    except Exception:
        return False
    if len(outs) != 1 or outs[0].kind != 'ret' or outs[0].st.trace:
        return False
    return is_newline(nv(it, outs[0].st, outs[0].val), x)


def is_newline(t, x):
    nls = (Int(10), ('char', 10), ('str', '\n'))
    return t in [ieq(x, Int(10))] + [('eq', x, c) for c in nls] + [('eq', c, x) for c in nls]


def norm(t):
    """string operations under one name, with one-character patterns as strings"""
    def f(x):
        if x[0] == 'call' and '<impl str>::' in x[1]:
            x = ('op', 'str::' + x[1].rsplit('::', 1)[1], x[2])
        if x[0] == 'op' and x[1].startswith('str::') and len(x[2]) == 2:
            a, b = norm(x[2][0]), norm(x[2][1])
            return ('op', x[1], (a, ('str', chr(b[1])) if b[0] == 'char' else b))
        return None
    return subst(t, f)


def lasts(TEXT):
    S = ('str', '\n')
    P, RP = ('op', 'str::split', (TEXT, S)), ('op', 'str::rsplit', (TEXT, S))
    return {('elem', P, sub(('len', P), Int(1))), ('elem', RP, Int(0)), ('fld', pay(('op', 'str::rsplit_once', (TEXT, S))), '1')}


def canon(it, t, TEXT, LEN):
    """positions in terms of the number of newlines and the length of the last line"""
    S = ('str', '\n')
    P, RP = ('op', 'str::split', (TEXT, S)), ('op', 'str::rsplit', (TEXT, S))
    HEAD = ('fld', pay(('op', 'str::rsplit_once', (TEXT, S))), '0')
    last = lasts(TEXT)
    at = sub(sub(LEN, TAIL), Int(1))

    def f(x):
        if x[0] in ('ile', 'ieq'):
            acc = Int(0)
            for k, v in x[1]:
                acc = add(acc, mul(subst(k, f), Int(v)))
            return le(acc, Int(x[2])) if x[0] == 'ile' else ieq(acc, Int(x[2]))
        if x == ('len', TEXT):
            return LEN
        if x in (('len', P), ('len', RP)):
            return add(NL, Int(1))
        if x[0] == 'len' and x[1][0] == 'op' and x[1][1] in ('str::matches', 'str::rmatches', 'str::match_indices') and x[1][2][-1] == S:
            if x[1][2][0] == TEXT:
                return NL
            if x[1][2][0] == HEAD:
                return sub(NL, Int(1))
        if x[0] == 'len' and x[1] == ('op', 'str::split', (HEAD, S)):
            return NL
        if x[0] == 'len' and x[1] in last:
            return TAIL
        if x == ('len', HEAD):
            return at
        if x[0] == 'count' and x[1][0] == 'filter' and x[1][1] in (('seq', ('op', 'str::bytes', (TEXT,))), ('seq', ('op', 'str::chars', (TEXT,)))) \
                and tells_newline(it, x[1][2]):
            return NL
        if x[0] == 'fld' and x[2] == '0' and x[1][0] == 'as' and x[1][2] == 'Some' and rpos(it, x[1][1], TEXT):
            return at
        return None
    return subst(t, f)


def popped(it, p):
    """a vector that only lost elements at its end: its length in terms of what it held"""
    ns = {}
    for e in toplevel(p.trace):
        if e[0] == 'mut':
            o = e[2]
            ns[o] = ns.get(o, 0) + 1 if e[1] == 'pop' and ns.get(o, 0) is not None else None

    def f(x):
        if x[0] == 'len' and x[1][0] == 'new' and ns.get(x[1]) and x[1][3] is not None and x[1][3][:2] == ('copy', x[1][3][1]) \
                and x[1][3][1][:2] == ('coll', 'Vec') and x[1][3][1][2][0] == 'seq':
            return sub(('len', x[1][3][1][2][1]), Int(ns[x[1]]))
        return None
    return lambda t: subst(t, f)


def rpos(it, y, TEXT):
    """the position of the last newline byte"""
    if y == ('op', 'str::rfind', (TEXT, ('str', '\n'))):
        return True
    return y[0] == 'call' and y[1].endswith('rposition') and y[2][0][0] == 'it' and y[2][0][1] == ('seq', ('op', 'str::bytes', (TEXT,))) \
        and y[2][0][2] == Int(0) and tells_newline(it, y[2][1])


def single_line(it, p, f, TEXT):
    """whether the text holds no newline, as far as the path knows"""
    S = ('str', '\n')
    for n in (('len', ('op', 'str::split', (TEXT, S))), ('len', ('op', 'str::rsplit', (TEXT, S)))):
        d = f.dec(le(n, Int(1)))
        if d is not None:
            return d
    for nl in (('op', 'str::contains', (TEXT, S)), ('contains', TEXT, S)):
        c = f.dec(nl)
        if c is not None:
            return not c
    for a, v in conds(toplevel(p.trace), it, p.st):
        a = norm(popped(it, p)(a))
        a, v = (a[1], not v) if a[0] == 'not' else (a, v)
        if a in [('op', 'str::contains', (TEXT, S)), ('contains', TEXT, S)]:
            return not v
        if a[0] == 'is' and a[2] in ('Some', 'None'):
            y = a[1]
            if y in [('op', 'str::' + k, (TEXT, S)) for k in ('find', 'rsplit_once', 'split_once')] or rpos(it, y, TEXT):
                return (not v) if a[2] == 'Some' else v
        d = canon(it, a, TEXT, ('len', TEXT))
        d, v = (d[1], not v) if d[0] == 'not' else (d, v)
        if d[0] in ('ieq', 'ile') and len(d[1]) == 1 and d[1][0][0] == NL:
            c = d[1][0][1]
            sat = [n for n in range(4) if ((c * n == d[2]) if d[0] == 'ieq' else (c * n <= d[2])) == v]
            if sat == [0]:
                return True
            if sat == [1, 2, 3]:
                return False
    return None


def by_characters(it, p, stop, TEXT, flag, lvs):
    """the position carried from character to character"""
    lv = [x for x in stop if x[0] == 'lv']
    if len(lv) != 2 or lv[0][1] != lv[1][1]:
        return False
    Ls = [e[1] for e in toplevel(p.trace) if e[0] == 'loop' and e[1].id == lv[0][1]]
    if len(Ls) != 1:
        return False
    L = Ls[0]
    d = loop_dom(it, L)
    if d.kind != 'fwd' or d.seq not in (('op', 'str::chars', (TEXT,)), ('op', 'str::bytes', (TEXT,))):
        return False
    chars = d.seq[1] == 'str::chars'
    l, c = stop
    init = [nv(it, p.st, L.init[x]) for x in (l, c)]
    for got, want, what in zip(init, (F(POS, 'line'), F(POS, 'char_position')), ('line', 'column')):
        if got != want:
            flag('the %s of the text is counted from %s' % (what, fmt(got)), got)
    for k in cases(it, L):
        if k.kind == 'panic':
            continue

        def flagk(msg, *ts):
            vs = {l, c, ixof(L)} | lvs
            okk = all(ok_term(a, vs) for a, v in conds(k.trace, it, k.st)) and all(ok_term(t, vs) for t in ts)
            (bad if okk else undec)('at %s: %s' % (L.where, msg))
        if k.kind == 'exit':
            flagk('the position is not carried on to the end of the text, when %s' % show_conds(k.trace))
        nl = None
        for a, v in conds(k.trace, it, k.st):
            a, v = (a[1], not v) if a[0] == 'not' else (a, v)
            if is_newline(a, d.elem):
                nl = v
        line, col = (nv(it, k.st, k.upd.get(x, x)) for x in (l, c))
        if nl is None:
            flagk('the position advances to %s, %s at every character' % (fmt(line), fmt(col)), line, col)
        if nl:
            if line != add(l, Int(1)):
                flagk('at a newline the line becomes %s' % fmt(line), line)
            if col != Int(0):
                flagk('at a newline the column becomes %s' % fmt(col), col)
        else:
            if line != l:
                flagk('without a newline the line becomes %s' % fmt(line), line)
            g = sub(col, c)
            if chars and not (g[0] in ('call', 'op', 'len_utf8') and occurs(g, lambda x: x == d.elem) and 'len_utf8' in str(g)):
                if g[0] == 'int' or g[0] == 'lin' or g == c:
                    flagk('behind a character the column becomes %s, however many bytes it has' % fmt(col), col)
                undec('behind a character the column becomes %s' % fmt(col))
            if not chars and g != Int(1):
                flagk('behind a byte the column becomes %s' % fmt(col), col)
    return True


def by_pieces(it, p, stop, TEXT, lvs):
    """the position carried over the pieces between newlines, the first one apart"""
    P = ('op', 'str::split', (TEXT, ('str', '\n')))
    if stop[1][0] != 'lv':
        return False
    c = stop[1]
    Ls = [e[1] for e in toplevel(p.trace) if e[0] == 'loop' and e[1].id == c[1]]
    if len(Ls) != 1 or c not in Ls[0].init:
        return False
    L = Ls[0]
    d = loop_dom(it, L)
    ix = ixof(L)
    if d.kind != 'shifted' or norm(d.seq) != P or norm(d.elem) != ('elem', P, add(ix, Int(1))):
        return False
    line, col = F(POS, 'line'), F(POS, 'char_position')
    vs = lvs | {c, stop[0], ix}

    def flag(msg, *ts, tr=(), st=None):
        okk = all(ok_term(a, vs) for a, v in conds(tr, it, st)) and all(ok_term(t, vs) for t in ts)
        (bad if okk else undec)('at %s: %s' % (L.where, msg))
    c0 = norm(nv(it, p.st, L.init[c]))
    if c0 != add(col, ('len', ('elem', P, Int(0)))):
        flag('behind the first line the column becomes %s' % fmt(c0), c0)
    if stop[0][0] == 'lv' and stop[0] in L.init:
        l0 = nv(it, p.st, L.init[stop[0]])
        if l0 != line:
            flag('the line is counted from %s' % fmt(l0), l0)
    elif stop[0] != add(line, ix):
        flag('the line becomes %s' % fmt(stop[0]), stop[0])
    for k in cases(it, L):
        if k.kind == 'panic':
            continue
        if k.kind == 'exit':
            flag('the position is not carried on to the end of the text, when %s' % show_conds(k.trace), tr=k.trace, st=k.st)
        w = norm(nv(it, k.st, k.upd.get(c, c)))
        if w != ('len', norm(d.elem)):
            flag('behind a further line the column becomes %s' % fmt(w), w, tr=k.trace, st=k.st)
        if stop[0][0] == 'lv':
            w = nv(it, k.st, k.upd.get(stop[0], stop[0]))
            if w != add(stop[0], Int(1)):
                flag('behind a further line the line becomes %s' % fmt(w), w, tr=k.trace, st=k.st)
    return True


def advance(it, p, f, stop, TEXT, LEN, flag, lvs):
    """the position behind the text: lines by its newlines, the column restarting behind the last one"""
    line, col = F(POS, 'line'), F(POS, 'char_position')
    un = popped(it, p)
    cs = [norm(un(a)) for a, v in conds(toplevel(p.trace), it, p.st)]
    stop = tuple(norm(un(t)) for t in stop)
    for t in list(stop) + cs:
        for x in subterms(t):
            if x[0] == 'op' and x[1] in LOSSY and x[2] and x[2][0] == TEXT:
                flag('lines are told apart by %s, which loses a newline at the end of the text' % x[1])
            if x[0] == 'op' and x[1] == 'str::split' and x[2][0] == TEXT and x[2][1] != ('str', '\n'):
                flag('lines are told apart by %s' % fmt(x[2][1]))
    if by_characters(it, p, stop, TEXT, flag, lvs):
        return
    if by_pieces(it, p, stop, TEXT, lvs):
        return
    single = single_line(it, p, f, TEXT)
    raw = stop
    stop = tuple(canon(it, t, TEXT, LEN) for t in stop)
    for x in subterms(stop[1]):
        if x[0] == 'op' and x[1] == 'str::chars' and norm(x[2][0]) in lasts(TEXT) | {TEXT}:
            flag('the column counts characters, where everything else counts bytes')
    for x in list(subterms(stop[1])) + list(subterms(raw[1])):
        if not single and x[0] == 'elem' and x[1][0] == 'op' and x[1][1] == 'str::split' and x[1][2][0] == TEXT and x[2][0] == 'int':
            flag('the column is taken from piece %s of the text, not from the last' % fmt(x[2]))
    strange = [x for t in stop for x in subterms(t) if x[0] in ('op', 'call', 'count', 'rfind', 'find', 'rsplit_once', 'split_once', 'clo')]
    if strange:
        undec('the position is computed with %s' % fmt(strange[0])[:200])
    if single is None:
        if stop[0] == add(line, NL) and occurs(stop[1], lambda x: x[0] in ('ite', 'lv') and x != LEN):
            undec('the column is %s' % fmt(stop[1])[:200])
        if any(occurs(a, lambda x: x == TEXT) and not ok_term(canon(it, a, TEXT, LEN), lvs | {NL, TAIL}) for a in cs):
            undec('how newlines are told is not understood')
        flag('the position advances by %s, %s whether or not the text holds a newline' % (fmt(stop[0])[:120], fmt(stop[1])[:120]), *stop)
    if single:
        one = lambda t: subst(t, lambda x: Int(0) if x == NL else LEN if x == TAIL else None)
        stop = tuple(one(t) for t in stop)
    want = (line, add(col, LEN)) if single else (add(line, NL), TAIL)
    for i, what in enumerate(('line', 'column')):
        if stop[i] != want[i]:
            flag('behind a text %s newline the %s becomes %s' % ('without' if single else 'with a', what, fmt(raw[i])[:150]), stop[i])
