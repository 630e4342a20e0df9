"""C14: end of input and unscannable input are signalled exactly once.

Generated scanners (bundled, and instances of the template): scan() must give the stop token
exactly when the cursor stands at the end of the input, with the empty byte range there, and
leave the cursor beyond the end; behind the end it gives an error; every error leaves the
scanner untouched.  Scanning everything must call scan() until it gives an error, take over
in order every token of the requested channel except those of the whitespace and comment
types (found by name in the scanner's own table), and print the rest of the input when the
cursor has not reached the end.
"""
from scan import *
import c13
from c13 import INPUT, CUR, LENI, POS, final_writes, same_pos, pair

FLOOR = 1
LT, EQ, GT = 'before the end', 'at the end', 'behind the end'


def run(r, src):
    for lx in lexers(r, src):
        it, ps = get_paths(r, lx.src, lx.scan)
        if ps is None:
            continue
        guard(r, 'end', lx.scan, lambda: end(lx, it, ps))
        it, ps = get_paths(r, lx.src, lx.all, (lx.scan,))
        if ps is None:
            continue
        guard(r, 'scan-all', lx.all, lambda: scan_all(lx, it, ps))


def places(f):
    """where the cursor can stand on this way"""
    a = f.dec(le(CUR, LENI))            # not behind
    b = f.dec(lt(CUR, LENI))            # before
    e = f.dec(ieq(CUR, LENI))
    out = {LT, EQ, GT}
    if a is True:
        out -= {GT}
    if a is False:
        out &= {GT}
    if b is True:
        out &= {LT}
    if b is False:
        out -= {LT}
    if e is True:
        out &= {EQ}
    if e is False:
        out -= {EQ}
    return out


def end(lx, it, ps):
    n = 0
    for p in rets(ps):
        f = Facts(p.st, it)
        pl = places(f)
        v = nv(it, p.st, p.val)
        if v[0] != 'adt' or v[2] not in ('Ok', 'Err'):
            undec('returns %s' % fmt(v)[:200])
        wr = final_writes(it, p)
        searched = bool(c13.search_loop(it, p))
        n += 1

        def flag(msg, *ts, p=p):
            lvs = [x for L in c13.search_loop(it, p) for x in L.init]
            okk = all(c13.ok_term(a, lvs) for a, w in conds(toplevel(p.trace), it, p.st)) and all(c13.ok_term(t, lvs) for t in ts)
            (bad if okk else undec)('%s, when %s' % (msg, show_conds(toplevel(p.trace))))
        if v[2] == 'Err':
            if wr:
                flag('an error moves %s' % ', '.join(sorted('.'.join(k) for k in wr)))
            if lx.stop and EQ in pl and not searched:
                flag('an error instead of the stop token at the end of the input')
            if lx.stop and EQ in pl and searched:
                flag('at the end of the input the patterns are tried instead of giving the stop token')
            if LT in pl and not searched:
                flag('an error without trying the patterns although input may remain')
            continue
        if searched:
            if lx.stop and (EQ in pl or GT in pl):
                # at the end only an empty match is possible, which is no token
                if GT in pl:
                    flag('behind the end the patterns are tried')
            continue
        if not lx.stop:
            flag('a token is made up')
        if GT in pl:
            flag('the stop token again behind the end')
        if LT in pl:
            flag('the stop token although input may remain')
        T = dict(v[3])['0']
        if T[0] != 'adt':
            undec('the stop token is %s' % fmt(T)[:200])
        d = dict(T[3])
        for fld, want in (('token_type', [Int(1)]), ('token_name', [('str', '_STOP'), ('elem', F(A(0), 'token_names'), Int(1))]), ('channel', [Int(0)]),
                          ('char_start_index', [CUR, LENI]), ('char_stop_index', [CUR, LENI]), ('token_index', [F(A(0), 'token_index')])):
            if d[fld] not in want:
                flag('the stop token has %s %s' % (fld, fmt(d[fld])[:100]), d[fld])
        for fld in ('start', 'stop'):
            if not same_pos(d[fld], POS):
                flag('the stop token has %s %s' % (fld, fmt(d[fld])[:100]), d[fld])
        cur = wr.pop(('cursor',), CUR)
        fin = sub(sub(cur, CUR), Int(1))
        fin2 = sub(sub(cur, LENI), Int(1))
        if not ((fin[0] == 'int' and fin[1] >= 0) or (fin2[0] == 'int' and fin2[1] >= 0)):
            flag('the cursor becomes %s, so the stop token comes again' % fmt(cur)[:100], cur)
        ti = wr.pop(('token_index',), F(A(0), 'token_index'))
        if ti not in (F(A(0), 'token_index'), add(F(A(0), 'token_index'), Int(1))):
            flag('the running number becomes %s' % fmt(ti)[:100], ti)
        if ('position',) in wr and same_pos(wr[('position',)], POS):
            wr.pop(('position',))
        for k in wr:
            flag('the end of input changes %s' % '.'.join(k))
    if lx.stop and not any(nv(it, p.st, p.val)[2:3] == ('Ok',) and not c13.search_loop(it, p) for p in rets(ps)):
        undec('no stop token is made')
    return '%d ways through scan' % n


def scan_all(lx, it, ps):
    names, pats, d = table(lx)
    skip = {names.index(x) for x in SKIP if x in names}
    n = 0
    done = set()
    for p in rets(ps):
        v = nv(it, p.st, p.val)
        if v[0] != 'new':
            undec('returns %s' % fmt(v)[:200])
        loops = [e[1] for e in toplevel(p.trace) if e[0] == 'loop']
        calls = [e for e in toplevel(p.trace) if e[0] == 'call' and e[1] == lx.scan]
        if not loops:
            (undec if calls else bad)('returns without scanning, when %s' % show_conds(p.trace))
        if len(loops) > 1 or calls:
            undec('%d loops' % len(loops))
        L = loops[0]
        for e in toplevel(p.trace):
            if e[0] == 'mut' and e[1] in ('retain', 'retain_mut') and nv(it, p.st, e[2]) == v:
                undec('the tokens are picked out afterwards by %s' % e[1])
        if L.id not in done:
            done.add(L.id)
            loop(lx, it, L, v, skip, names)
        after(lx, it, p, L, v)
        n += 1
    return '%d ways; skipped: %s' % (n, ', '.join(names[i] for i in sorted(skip)) or 'nothing')


def loop(lx, it, L, RES, skip, names):
    for c in cases(it, L):
        if c.kind == 'panic':
            continue
        calls = [e for e in c.trace if e[0] == 'call' and e[1] == lx.scan]

        def flag(msg, c=c):
            definite(it, c.trace, c.st, 'at %s: %s, when %s' % (L.where, msg, show_conds(c.trace)))
        if len(calls) != 1:
            if not calls and c.kind == 'exit':
                # leaving early, e.g. when the cursor is at the end
                flag('stops before scan gave an error')
            undec('%d scans in one round at %s' % (len(calls), L.where))
        R = nv(it, c.st, calls[0][3])
        f = c.facts(it)
        okk = f.dec(('is', R, 'Ok'))
        if okk is None and f.dec(('is', R, 'Err')) is not None:
            okk = not f.dec(('is', R, 'Err'))
        T = ('fld', ('as', R, 'Ok'), '0')
        ms = [e for e in c.trace if e[0] == 'mut' and nv(it, c.st, e[2]) == RES]
        if c.kind == 'exit':
            if okk is not False:
                flag('stops although scan gave a token' if okk else 'stops whether or not scan gave a token')
            if ms:
                flag('the result is changed after the last token')
            continue
        if okk is not True:
            flag('goes on although scan gave an error')
        push = len(ms) == 1 and ms[0][1] == 'push' and nv(it, c.st, ms[0][3][0]) == T
        if ms and not push:
            if any(e[1] != 'push' for e in ms) or len(ms) > 1:
                flag('the result is changed by %s' % ', '.join(e[1] for e in ms))
            x = nv(it, c.st, ms[0][3][0])
            (bad if understood(x) else undec)('at %s takes over %s instead of the token' % (L.where, fmt(x)[:150]))
        ty, ch = F(T, 'token_type'), f.dec(ieq(F(T, 'channel'), A(1)))
        byname = named(it, c, T, ty)
        if any(v and x not in names for x, v in byname.items()):
            continue          # no token has that name
        isskip = [f.dec(ieq(ty, Int(i))) for i in skip]
        isskip = [byname.get(names[i]) if q is None else q for i, q in zip(skip, isskip)]
        if any(v and names.index(x) not in skip for x, v in byname.items()):
            isskip = [False]
        if True in isskip:
            sk = True
        elif all(x is False for x in isskip):
            sk = False
        else:
            sk = None
        if push:
            if sk is not False:
                flag('a whitespace or comment token is taken over' if sk else 'tokens are taken over without regard to whitespace and comments')
            if ch is not True:
                flag('a token of another channel is taken over' if ch is False else 'tokens are taken over without regard to their channel')
        else:
            if sk is not True and ch is not False:
                flag('a token of the requested channel is dropped')
        for e in toplevel(c.trace):
            if e[0] == 'write' and occurs(nv(it, c.st, e[1]), lambda x: x == A(0)):
                flag('scanning everything changes %s itself' % '.'.join(e[2]))


def named(it, c, T, ty):
    """{name: is the token of that name?} from comparisons of its name (C13: names[type] is its name)"""
    N = [nomem(x) for x in (F(T, 'token_name'), ('elem', F(A(0), 'token_names'), ty))]
    out = {}
    for a, v in conds(c.trace, it, c.st):
        if a[0] == 'eq' and len(a) == 3:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if nomem(x) in N and y[0] == 'str':
                    out[y[1]] = v
    return out


def nomem(x):
    return subst(x, lambda y: A(0) if y[0] == 'lv' else None)


def after(lx, it, p, L, RES):
    i = [k for k, e in enumerate(p.trace) if e[0] == 'loop' and e[1] is L][0]
    tail = p.trace[i + 1:]
    if any(e[0] == 'mut' and nv(it, p.st, e[2]) == RES for e in p.trace):
        definite(it, p.trace, p.st, 'the result is changed besides the scanned tokens')
    f = Facts(p.st, it)
    rest = f.dec(lt(CUR, LENI))
    if rest is False:
        return
    # the cursor is always between characters (C13): no rest to be had means the input is used up
    for e in p.trace:
        if e[0] == 'cond' and e[2] is False:
            a = nv(it, p.st, e[1])
            if a[0] == 'is' and a[1][0] == 'strget' and a[1][1] == ('substr', INPUT, CUR, LENI):
                return
    pr = [e for e in tail if e[0] in ('print', 'eprint')]
    pr += [('print', e[2]) for e in tail if e[0] == 'out'
           and occurs(nv(it, p.st, e[1]), lambda x: x[0] in ('call', 'op') and x[1].split('::')[-1] in ('stdout', 'stderr'))]
    what = ('substr', INPUT, CUR, LENI)
    if not any(occurs(nv(it, p.st, e[1]), lambda x: x == what) for e in pr):
        if any(occurs(nv(it, p.st, x), lambda x: x == what) for e in tail if e[0] in ('call', 'out') for x in (e[2] if e[0] == 'call' else [e[2]]) if isinstance(x, tuple)):
            undec('the rest is passed on in an unknown way')
        if pr:
            undec('prints %s' % fmt(nv(it, p.st, pr[0][1]))[:150])
        cs = [(e[1], e[2]) for e in toplevel(p.trace) if e[0] == 'cond']
        if any(not understood(nv(it, p.st, a)) for a, v in cs):
            undec('when the rest is printed is not understood')
        bad('the unscanned rest is not reported, when %s' % ' and '.join(('' if v else 'not ') + show(nv(it, p.st, a)) for a, v in cs) or 'always')
