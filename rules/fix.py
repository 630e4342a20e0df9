"""Shared machinery for the fixpoint computations (FIRST and FOLLOW sets)."""
from itertools import product
from lib import *

PRODS = F(A(0), 'productions')
def nts():
    return view('ns', A(0), 'vocabulary')



class Stop(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


def bad(msg):
    raise Stop('bad', msg)


def undec(msg):
    raise Stop('undec', msg)


def guard(r, rule, loc, f, note=''):
    try:
        n = f()
        r.ok(rule, loc, n if isinstance(n, str) else note)
        return True
    except Stop as e:
        r.put(e.kind, rule, loc, e.msg)
        return False


def cond_ok(it, trace, st):
    return all(understood(a) for a, v in conds(trace, it, st))


def definite(it, trace, st, msg):
    """a finding on a path whose guards are all understood is a violation"""
    (bad if cond_ok(it, trace, st) else undec)(msg)


# ------------------------------------------------------------------ slices
def slice_dom(it, L):
    """(S, base): the loop visits S[base + ix] for ix = 0, 1, ... while base + ix < len(S)"""
    ix = ixof(L)
    for t, s in [(t, s) for t, u, s in L.conts] + [(t, s) for k, t, v, s in L.exits]:
        for a, v in conds(t, it, s):
            if a[0] == 'ile' and any(k == ix for k, c in a[1]):
                d = dict(a[1])
                lens = [k for k in d if k[0] == 'len']
                if len(lens) != 1:
                    continue
                ln = lens[0]
                c = a[2]
                if d[ix] == 1 and d[ln] == -1:
                    k = -1 - c
                elif d[ix] == -1 and d[ln] == 1:
                    d = {x: -y for x, y in d.items()}
                    k = c
                else:
                    continue
                base = mklin({x: y for x, y in d.items() if x not in (ix, ln)}, k)
                return ln[1], base
    return None, None


# ------------------------------------------------------------------ effects
def norm_tgt(it, st, t):
    return nv(it, st, t)


def ins_events(it, st, trace):
    """inserts on one way through: ('ins', T, value, status), ('all', T, S) for whole-set copies, ('loop', L)"""
    out = []
    for e in trace:
        if e[0] == 'mut' and e[1] == 'insert':
            out.append(('ins', nv(it, st, e[2]), nv(it, st, e[3][0]), e[4], e))
        elif e[0] == 'mut' and e[1] in ('minsert',):
            out.append(('minsert', nv(it, st, e[2]), tuple(nv(it, st, x) for x in e[3]), e[4], e))
        elif e[0] == 'mut':
            out.append(('mut', nv(it, st, e[2]), e[1], None, e))
        elif e[0] == 'loop':
            out.extend(copy_loop(it, e[1]))
    return out


def copy_loop(it, L):
    dom = loop_dom(it, L)
    cs = [c for c in cases(it, L) if c.kind != 'panic']
    if dom.kind not in ('fwd', 'rev') or any(c.kind != 'cont' for c in cs) or not cs:
        return [('loop', L)]
    tg = None
    extra = False
    for c in cs:
        mine = set()
        for x in ins_events(it, c.st, c.trace):
            if x[0] == 'ins' and x[2] == dom.elem:
                mine.add(x[1])
            elif x[0] in ('ins', 'all', 'loop', 'mut', 'minsert'):
                extra = True
        for t, v in c.facts(it).s.facts.items():
            if v is True and t[0] == 'contains' and t[2] == dom.elem:
                mine.add(t[1])
        tg = mine if tg is None else tg & mine
    # a target some case skips without knowing it is there
    if extra or not tg:
        return [('loop', L)]
    return [('all', t, s, L) for t in tg for s in sources(dom.seq)]


def unread(it, L):
    """a loop that adds to sets in a way not understood: definitely wrong when it passes over some elements
    because of what they are"""
    dom = loop_dom(it, L)
    n = capped(it, L)
    if dom.kind == 'shifted' and dom.seq is not None and (dom.seq[0] == 'fld' and dom.seq[2] == 'set' or dom.seq[0] == 'new' and dom.seq[1] == 'HashSet') \
            and any(x[0] == 'ins' for t, u, s in L.conts for x in ins_events(it, s, t)):
        bad('at %s: of %s, %s' % (L.where, fmt(dom.seq)[:100], dom.note))
    if n is not None and dom.kind in ('fwd', 'rev') and understood(dom.seq):
        bad('at %s: only %d elements of %s are looked at' % (L.where, n, fmt(dom.seq)[:100]))
    cs = [c for c in cases(it, L) if c.kind != 'panic']
    if dom.kind in ('fwd', 'rev') and cs and all(c.kind == 'cont' for c in cs):
        fill = [x for c in cs for x in ins_events(it, c.st, c.trace)]
        tg = {x[1] for x in fill if x[0] == 'ins' and x[2] == dom.elem}
        if len(tg) == 1 and all(x[0] == 'ins' and x[2] == dom.elem for x in fill):
            t = list(tg)[0]
            for c in cs:
                if ins_events(it, c.st, c.trace):
                    continue
                why = [(a, v) for a, v in conds(c.trace, it, c.st) if occurs(a, lambda y: y == dom.elem)]
                if why and all(understood(a) and a[0] in ('ieq', 'ile', 'eq')
                               and not occurs(subst(a, lambda x: Int(0) if x == dom.elem else None), lambda y: y[0] in ('contains', 'mval', 'call', 'lv')) for a, v in why):
                    bad('at %s: some elements are not added to %s, when %s' % (L.where, fmt(t)[:100], show_conds(c.trace)))
    undec('the loop at %s is not understood' % L.where)


def sources(S):
    """the sets a sequence is put together from"""
    if S[0] == 'coll':
        x = sources(S[2])
        return x if x != [S[2]] else [S]
    if S[0] == 'chain':
        return [y for x in S[1:] for y in sources(x)]
    if S[0] == 'hseq':
        return [S[1]]
    return [S]


# ------------------------------------------------------------------ symbol loops
class Row:
    """one loop over a (part of a) right-hand side, as seen from an enclosing path"""
    def __init__(self, L, S, base, exhausted):
        self.L, self.S, self.base, self.exhausted = L, S, base, exhausted


def loop_end(it, trace, i, L):
    """how the loop at position i of a raw trace was left: ('end',) or ('exit', trace of the last iteration)"""
    for k, t, v, s in L.exits:
        n = len(t)
        if tuple(trace[i + 1:i + 1 + n]) == tuple(t):
            if is_end(it, L, t, s):
                return ('end', n)
    best = None
    for k, t, v, s in L.exits:
        n = len(t)
        if tuple(trace[i + 1:i + 1 + n]) == tuple(t) and (best is None or n > best):
            best = n
    return ('exit', best) if best is not None else ('?', 0)


def is_end(it, L, t, s):
    ix = ixof(L)
    for a, v in conds(t, it, s):
        if a[0] == 'ile' and any(k == ix for k, c in a[1]):
            d = dict(a[1])
            if any(k[0] == 'len' for k in d):
                return (d[ix] == 1 and not v) or (d[ix] == -1 and v)
    return False


def nullness(cf, M):
    return cf.dec(F(M, 'allow_epsilon'))


def check_row(it, L, S, base, FIRST):
    """the body of a loop over symbols: which sets get FIRST of the symbol, and when it goes on.
    returns the set of targets that every continuing case fills"""
    E = ('elem', S, add(ixof(L), base))
    nt = ('fld', ('as', E, 'NonTerminal'), '0')
    M = ('mval', FIRST, nt)
    tg = None
    n = capped(it, L)
    if n is not None and understood(S):
        bad('at %s: only %d symbols of %s are looked at' % (L.where, n, fmt(S)[:100]))
    for c in cases(it, L):
        if c.kind == 'panic':
            continue
        cf = c.facts(it)
        isnt = cf.dec(('is', E, 'NonTerminal'))
        if c.kind == 'cont':
            if isnt is None:
                definite(it, c.trace, c.st, 'goes on to the next symbol without looking at its kind, when %s' % show_conds(c.trace))
            if isnt is False:
                definite(it, c.trace, c.st, 'goes on behind a terminal, when %s' % show_conds(c.trace))
            nl = nullness(cf, M)
            if nl is None:
                definite(it, c.trace, c.st, 'goes on behind a rule without knowing that it can vanish, when %s' % show_conds(c.trace))
            if nl is False:
                definite(it, c.trace, c.st, 'goes on behind a rule that cannot vanish, when %s' % show_conds(c.trace))
            mine = fills(it, c, E, M)
            tg = mine if tg is None else tg & mine
        else:
            if isnt is True and nullness(cf, M) is not False:
                definite(it, c.trace, c.st, 'stops at a rule that can vanish, when %s' % show_conds(c.trace))
    return tg or set(), E, M


def fills(it, c, E, M):
    mine = set()
    for x in ins_events(it, c.st, c.trace):
        if x[0] == 'all' and x[2] == F(M, 'set'):
            mine.add(x[1])
        elif x[0] in ('all', 'ins') and occurs(x[2], lambda t: t == E):
            definite(it, c.trace, c.st, 'puts %s where the FIRST set of the symbol belongs' % fmt(x[2]))
        elif x[0] == 'loop' and row_touch(it, x[1]):
            d = loop_dom(it, x[1])
            if d.kind == 'shifted' and d.seq == F(M, 'set'):
                bad('at %s: of a FIRST set, %s' % (x[1].where, d.note))
            if d.seq == F(M, 'set') and capped(it, x[1]) is not None:
                bad('at %s: of a FIRST set, only %d elements are taken' % (x[1].where, capped(it, x[1])))
            undec('loop %s not understood' % x[1].where)
    return mine


def row_touch(it, L):
    return any(e[0] == 'mut' for t, u, s in L.conts for ctx, e in flat(t))


# ------------------------------------------------------------------ flags
class Flags:
    """discipline: the flag ends up set if it was set before or something that must be noticed changed,
    and only if it was set before or something changed at all"""
    def __init__(self, it, tracked, field, must=None):
        self.it = it
        self.tracked = tracked      # target term -> bool
        self.must = must or (lambda t: True)    # of these, the changes that must be noticed
        self.field = field          # name of a tracked boolean field or None
        self.done = {}

    def changes(self, L):
        for t, u, s in L.conts:
            if self.has_change(t, s):
                return True
        return False

    def has_change(self, trace, st):
        for e in trace:
            if e[0] == 'mut' and e[1] in ('insert', 'minsert') and self.tracked(nv(self.it, st, e[2])) and e[4] != 'present':
                return True
            if e[0] == 'write' and self.is_field(e, st):
                return True
            if e[0] == 'loop' and self.changes(e[1]):
                return True
        return False

    def must_change(self, L):
        for t, u, s in L.conts:
            for e in t:
                if e[0] == 'mut' and e[1] in ('insert', 'minsert') and e[4] != 'present':
                    T = nv(self.it, s, e[2])
                    if self.tracked(T) and self.must(T):
                        return True
                if e[0] == 'write' and self.is_field(e, s) and self.must(F(self.owner(e, s), self.field)):
                    return True
                if e[0] == 'loop' and self.must_change(e[1]):
                    return True
        return False

    def is_field(self, e, st):
        if self.field is None or self.field not in e[2]:
            return False
        return self.owner(e, st) is not None

    def owner(self, e, st):
        o = nv(self.it, st, e[1])
        if o[0] == 'obj':
            o = o[1]
        return o if self.tracked(F(o, 'set')) else None

    def scan(self, trace, st):
        """what may change on this way: steps [('yes',)|('maybe',)|('set', field atom, new value)], and the changing inner loops"""
        it = self.it
        steps = []
        loops = []
        known = {}
        for e in trace:
            if e[0] == 'cond':
                a, v = nv(it, st, e[1]), e[2]
                if a[0] == 'not':
                    a, v = a[1], not v
                known[a] = v
            elif e[0] == 'loop':
                if self.changes(e[1]):
                    loops.append(e[1])
            elif e[0] == 'mut' and e[1] in ('insert',) and self.tracked(nv(it, st, e[2])):
                T, v = nv(it, st, e[2]), nv(it, st, e[3][0])
                stt = e[4]
                if stt is None and ('contains', T, v) in known:
                    stt = 'present' if known[('contains', T, v)] else 'fresh'
                if stt != 'present':
                    steps.append(('yes' if stt == 'fresh' else 'maybe', self.must(T)))
                known[('contains', T, v)] = True
            elif e[0] == 'write' and self.is_field(e, st):
                steps.append(('set', F(self.owner(e, st), self.field), rv(it, st, e[3])))
        return steps, loops

    def direct(self, steps, st, env, owner):
        """(must, may) under an assignment: something that must be noticed may have changed; something surely changed"""
        must = may = False
        cur = {}
        for x in steps:
            if x[0] == 'yes':
                may = True
                must = must or x[1]
            elif x[0] == 'maybe':
                must = must or x[1]
            else:
                old = cur[x[1]] if x[1] in cur else self.ev(x[1], st, env, owner, 'write')
                new = self.ev(x[2], st, env, owner, 'write')
                if old != new:
                    may = True
                    must = must or self.must(x[1])
                cur[x[1]] = new
        return must, may

    def atoms(self, t):
        if self.field is None:
            return set()
        return {x for x in subterms(t) if x[0] == 'fld' and x[2] == self.field and self.tracked(F(x[1], 'set'))}

    def grown(self, t, loops):
        """a comparison of the sizes a set had before and behind a loop: (the loop, true if the set did not change).
        Sets only ever grow, so equal sizes mean that nothing was added"""
        if t[0] not in ('ieq', 'ile') or len(t[1]) != 2 or any(k[0] != 'len' for k, c in t[1]) or sorted(c for k, c in t[1]) != [-1, 1]:
            return None
        (a, ca), (b, cb) = ((k[1], c) for k, c in t[1])
        S = nv(self.it, None, a)
        if a == b or S != nv(self.it, None, b) or not self.tracked(S):
            return None
        if b[0] == 'at' and b[1] == a:
            a, ca, b, cb = b, cb, a, ca     # a: afterwards
        L = [x for x in loops if a == ('at', b, ('loop', x.id))]
        if not L or self.targets(L[0]) != {S}:
            undec('compares sizes of %s taken at different times' % fmt(S))
        if t[0] == 'ieq' and t[2] == 0 or t[0] == 'ile' and ca == 1 and t[2] == 0:
            return L[0], True
        if t[0] == 'ile' and ca == -1 and t[2] == -1:
            return L[0], False
        undec('compares sizes of %s taken at different times' % fmt(S))

    def targets(self, L):
        out = set()
        for t, u, s in L.conts:
            for e in t:
                if e[0] == 'mut' and self.tracked(nv(self.it, s, e[2])):
                    out.add(nv(self.it, s, e[2]))
                elif e[0] == 'write' and self.is_field(e, s):
                    out.add(None)
                elif e[0] == 'loop':
                    out |= self.targets(e[1])
        return out

    def ev(self, t, st, env, owner, at):
        """truth value of a flag expression under an assignment"""
        if t[0] == 'bool':
            return t[1]
        g = self.grown(t, env['loops']) if 'loops' in env else None
        if g:
            return env[('Y', g[0].id)] != g[1]
        if t[0] == 'not':
            return not self.ev(t[1], st, env, owner, at)
        if t[0] == 'or':
            return self.ev(t[1], st, env, owner, at) or self.ev(t[2], st, env, owner, at)
        if t[0] == 'and':
            return self.ev(t[1], st, env, owner, at) and self.ev(t[2], st, env, owner, at)
        if t in env:
            return env[t]
        if t[0] == 'lv' and t in owner:
            L = owner[t]
            i = L.init[t]
            if not any(u.get(t, t) != t for _, u, _ in L.conts):
                return self.ev(i, st, env, owner, at)
            pol, keeps = self.verify(L, t)
            b = self.ev(i, st, env, owner, at) if keeps else not pol
            c = env.get(('F', L.id), False)
            return (b or c) if pol else (b and not c)
        n = nv(self.it, st, t)
        if n in env:
            return env[n]
        if n != t and n[0] in ('not', 'or', 'and', 'bool'):
            return self.ev(n, st, env, owner, at)
        d = st.decide(t)
        if d is None:
            d = Facts(st, self.it).dec(n)
        if d is None:
            undec('the flag depends on %s (%s)' % (fmt(t), at))
        return d

    def assignments(self, trace, st, extra, uses=()):
        it = self.it
        steps, loops = self.scan(trace, st)
        owner = {}
        for e in trace:
            if e[0] == 'loop':
                for lv in e[1].init:
                    owner[lv] = e[1]
        names = list(extra)
        cs = [(e[1], e[2]) for e in trace if e[0] == 'cond']
        for t in [x[k] for x in steps if x[0] == 'set' for k in (1, 2)] + [nv(it, st, u) for u in uses]:
            for x in sorted(self.atoms(t), key=rk):
                names.append(x)
        for L in {id(x): x for x in owner.values()}.values():
            for i in L.init.values():
                if i is not None:
                    names += passvars(nv(it, st, i))
        names = list(dict.fromkeys(names))
        if len(names) + len(loops) > 12:
            undec('too many loops')
        # per inner loop: (something to notice changed, its flag, something changed)
        lops = [[(False, False, False)] + ([(True, True, True)] if self.must_change(L) else [])
                + ([] if self.only_must(L) else [(False, False, True), (False, True, True)]) for L in loops]
        ncs = [(nv(it, st, a), a, v) for a, v in cs]
        for vals in product(*([(False, True)] * len(names) + lops)):
            env = dict(zip(names, vals))
            env['loops'] = loops
            m2 = y2 = False
            for L, (m, f, y) in zip(loops, vals[len(names):]):
                env[('F', L.id)] = f
                env[('Y', L.id)] = y
                m2, y2 = m2 or m, y2 or y
            okk = True
            for n, a, v in ncs:
                b = a[1] if a[0] == 'not' else a
                g = self.grown(b, loops)
                if g:
                    if (env[('Y', g[0].id)] != g[1]) != (v if a is b else not v):
                        okk = False
                        break
                    continue
                if b[0] == 'lv' and (b in env or b in owner):
                    x = self.ev(b, st, env, owner, 'guard')
                    if x != (v if a is b else not v):
                        okk = False
                        break
                elif n in env and env[n] != v or n[0] == 'not' and n[1] in env and env[n[1]] == v:
                    okk = False
                    break
            if okk:
                m, y = self.direct(steps, st, env, owner)
                yield env, m or m2, y or y2, owner

    def only_must(self, L):
        for t, u, s in L.conts:
            for e in t:
                if e[0] == 'mut' and e[1] in ('insert', 'minsert') and e[4] != 'present':
                    T = nv(self.it, s, e[2])
                    if self.tracked(T) and not self.must(T):
                        return False
                if e[0] == 'write' and self.is_field(e, s) and not self.must(F(self.owner(e, s), self.field)):
                    return False
                if e[0] == 'loop' and not self.only_must(e[1]):
                    return False
        return True

    def verify(self, L, lv):
        """polarity of a disciplined flag of this loop; raises Stop otherwise"""
        k = (L.id, lv)
        if k in self.done:
            return self.done[k]
        err = None
        for pol in (True, False):
            for keeps in (True, False):
                try:
                    self.done[k] = pol, keeps
                    self.verify_pol(L, lv, pol, keeps)
                    return pol, keeps
                except Stop as e:
                    del self.done[k]
                    if err is None:
                        err = e
                    elif err.kind == 'bad' and e.kind == 'undec':
                        err = e
        raise err

    def verify_pol(self, L, lv, pol, keeps):
        """keeps: a set flag stays set; otherwise the loop may forget what was recorded before it (taken into account
        where its result is used), but not what it must notice itself"""
        it = self.it
        before = [(False, False, False), (True, True, True)]
        if not keeps:
            before = [(False, False, False), (False, False, True), (False, True, True)] + ([(True, True, True)] if self.must_change(L) else [])
        for t, u, s in L.conts:
            x = u.get(lv, lv)
            if not cond_ok_flags(it, t, s):
                undec('a guard in %s is not understood' % L.where)
            for env, must, may, owner in self.assignments(t, s, [lv], [x]):
                f0 = env[lv] if pol else not env[lv]
                got = self.ev(x, s, env, owner, L.where)
                if not pol:
                    got = not got
                for m0, f, y0 in before:
                    if f != f0:
                        continue
                    if (m0 or must) and not got:
                        bad('at %s: a change goes unnoticed (or is forgotten), when %s' % (L.where, show_conds(t)))
                    if got and not (y0 or may):
                        bad('at %s: a change is signalled where nothing changed, when %s' % (L.where, show_conds(t)))


def passvars(t):
    """conditions on the number of the pass: either may hold"""
    return [x for x in subterms(t) if x[0] in ('ieq', 'ile') and all(k[0] == 'ix' for k, c in x[1])]


def cond_ok_flags(it, trace, st):
    for a, v in conds(trace, it, st):
        b = a[1] if a[0] == 'not' else a
        if b[0] == 'lv':
            continue
        if not understood(b):
            return False
    return True


def check_passes(fl, W, uses):
    """W: the loop repeating passes; `uses(trace)`: does this way through contain the pass over the productions"""
    it = fl.it
    full_exit = [(t, s) for k, t, v, s in W.exits if k != 'panic']
    if not W.conts:
        bad('at %s: only a single pass is made' % W.where)
    # style 1: the flag is tested before the pass
    flags = [lv for lv, i in W.init.items() if i is not None and i[0] == 'bool']
    for t, s in full_exit:
        if not any(e[0] == 'loop' and fl.changes(e[1]) for e in t):
            # leaves without a pass: only right when the previous pass changed nothing
            dec = [(e[1], e[2]) for e in t if e[0] == 'cond']
            cand = []
            for a, v in dec:
                b, w = (a[1], not v) if a[0] == 'not' else (a, v)
                if b[0] == 'lv' and b in flags:
                    cand.append((b, w))
            if not cand:
                definite(it, t, s, 'at %s: stops repeating although the last pass may have changed something, when %s' % (W.where, show_conds(t)))
            for lv, w in cand:
                # leaves when lv == w
                if W.init[lv] == ('bool', w):
                    bad('at %s: not a single pass is made' % W.where)
                for t2, u2, s2 in W.conts:
                    for env, must, may, owner in fl.assignments(t2, s2, [lv] + passvars(u2.get(lv, lv)), [u2.get(lv, lv)]):
                        if env[lv] == w:
                            continue
                        got = fl.ev(u2.get(lv, lv), s2, env, owner, W.where)
                        if must and got == w:
                            bad('at %s: a pass that changed something is taken for the last one, when %s' % (W.where, show_conds(t2)))
                        if not may and got != w:
                            bad('at %s: a pass is repeated although nothing changed, when %s' % (W.where, show_conds(t2)))
        else:
            for env, must, may, owner in fl.assignments(t, s, []):
                if must:
                    definite_flags(it, t, s, 'at %s: stops after a pass that changed something, when %s' % (W.where, show_conds(t)))
            for t2, u2, s2 in W.conts:
                for env, must, may, owner in fl.assignments(t2, s2, []):
                    if not may:
                        definite_flags(it, t2, s2, 'at %s: a pass is repeated although nothing changed, when %s' % (W.where, show_conds(t2)))
    if not full_exit:
        undec('the repetition at %s has no normal end' % W.where)


def definite_flags(it, t, s, msg):
    (bad if cond_ok_flags(it, t, s) else undec)(msg)


def never_grows(it, p, objs):
    """the sets are made, and nothing on the way out adds to them more than what they start with"""
    n = 0
    for ctx, e in flat(p.trace):
        if e[0] == 'call' and any(occurs(nv(it, p.st, a), lambda x: x in objs) for a in e[2]) or e[0] in ('closure', 'havoc'):
            return False
        if e[0] == 'write':
            return False
        if e[0] == 'mut':
            t = nv(it, p.st, e[2])
            if e[1] == 'minsert' and t in objs and len(e[3]) == 2:
                v = e[3][1]
                if not (v[0] == 'new' and v[3] == ('empty',) or v[0] == 'adt' and all(x[0] in ('bool', 'new', 'int') for f, x in v[3])):
                    return False
                n += 1
            elif e[1] == 'insert' and t[0] == 'mval' and t[1] in objs and e[3][0][0] == 'int':
                continue
            else:
                return False
    return n > 0
