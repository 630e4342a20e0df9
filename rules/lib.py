"""Shared vocabulary of the rules: reading path summaries.

A rule states, for a summarised function, which effects/results must occur under
which guards.  It reports
  ok     the obligation is discharged on every path,
  bad    some path definitely breaks it (all terms on that path are understood),
  undec  the code has a shape the rule does not understand: no verdict.
Only `bad` makes a check fail; a missing public anchor is `bad` too (fail closed).
"""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.setrecursionlimit(20000)
from terms import *
from interp import *
import models
from models import consume, put

OPAQUE = {'lv', 'undef', 'agg', 'op', 'const', 'static', 'hv', 'count', 'indirect'}


HOOKS = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hooks.txt')).read().split())


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []           # (rule, where, status, detail)
        self.samples = []
        self.unknown = {}
        self.nfun = set()
        self.nloops = 0
        self.npaths = 0

    def ok(self, rule, where, detail=''):
        self.obs.append((rule, where, 'ok', detail))

    def bad(self, rule, where, detail):
        if ('bad', rule, where) not in [(o[2], o[0], o[1]) for o in self.obs]:
            self.obs.append((rule, where, 'bad', detail))

    def undec(self, rule, where, detail):
        self.obs.append((rule, where, 'undec', detail))

    def put(self, status, rule, where, detail=''):
        getattr(self, {'ok': 'ok', 'bad': 'bad', 'undec': 'undec'}[status])(rule, where, detail)

    def sub(self):
        """a child report whose verdicts are merged afterwards"""
        return Report(self.prop)

    def verdicts(self):
        return [o[2] for o in self.obs]


class Sources:
    """lazily built interpreters and cached path summaries of one dump"""
    def __init__(self, dump):
        self.d = dump
        self.its = {}
        self.cache = {}

    def it(self, opaque=()):
        k = tuple(sorted(opaque))
        if k not in self.its:
            self.its[k] = Interp(self.d, opaque=opaque)
            self.its[k].hooks = HOOKS
        return self.its[k]

    def find(self, suffix):
        """full names of functions ending in ::suffix"""
        return [k for k in self.d['fns'] if k == suffix or k.endswith('::' + suffix)]

    def paths(self, name, opaque=()):
        k = (name, tuple(sorted(opaque)))
        if k not in self.cache:
            it = self.it(opaque)
            it.npaths0 = it.npaths
            try:
                self.cache[k] = (it, analyse(it, name))
            except Budget as e:
                self.cache[k] = (it, e)
            except RecursionError as e:
                self.cache[k] = (it, e)
        return self.cache[k]


def where(name):
    return name


# ------------------------------------------------------------------ terms
FOREIGN = re.compile(r'<?(std|core|alloc)::(vec|slice|iter|collections|option|result|array)::|(insert|remove|clear|truncate|drain|retain|dedup|swap_remove|resize|splice|dedup_by_key|split_off|take|swap|fill|pop|remove_entry|pop_back|push_front)$')


def understood(t):
    """no part of the term is an abstraction of something the analysis lost"""
    def bad(x):
        k = x[0]
        if k in OPAQUE:
            if k == 'op' and x[1] in ('str::split', 'str::lines', 'str::chars', 'str::char_indices', 'str::bytes', 'str::matches'):
                return False
            return True
        if k in ('ieq', 'ile') and len({y for y, c in x[1]}) != len(x[1]):
            return True     # values of different times that look alike without their time
        if k == 'call' and (x[1] in ('closure', 'indirect') or FOREIGN.match(x[1])):
            return True
        return False
    return not occurs(t, bad)


def short(n):
    return n.split('::')[-1]


VALUES = {'coll', 'sorted', 'arr', 'slice'}


def nv(it, st, v, n=0):
    """normalised value: references followed, versions dropped, unchanged copies identified"""
    v = it.deep(st, v) if st is not None else v

    def f(x):
        k = x[0]
        if k == 'hv':
            b = x[1]
            while b[0] in ('at', 'hv'):
                b = b[1]
            if b[0] in VALUES:
                return ('hv', nv1(b), x[2])     # no longer the value it was computed to be
        if k == 'at' or k == 'hv':
            return nv1(x[1])
        if k == 'lv' and x in it.alias:
            return nv1(it.alias[x])
        if k == 'new':
            if x[3] is not None and x[3][0] == 'copy' and (st is None or x not in st.ver):
                return nv1(x[3][1])
            return None
        if k == 'coll' and x[1] == 'Vec' and x[2][0] == 'seq' and x[2][1][0] in ('fld', 'call', 'sym', 'elem', 'new', 'at'):
            return nv1(x[2][1])
        if k == 'ref':
            if x[1][0] == 'H':
                t = x[1][1]
                for p in x[2]:
                    t = it.project(st or State(), t, p)
                return nv1(t)
            if st is not None:
                y = it.val(st, x)
                if y != x:
                    return nv1(y)
            return None
        if k == 'adt':
            return ('adt', short(x[1]), x[2], tuple((a, nv1(b)) for a, b in x[3]))
        if k == 'disp' and x[1][0] in ('str', 'cat'):
            return nv1(x[1])
        return None

    def nv1(t):
        return subst(t, f)
    return nv1(v)


BOOLK = {'not', 'and', 'or', 'ile', 'ieq', 'is', 'contains', 'eq'}


def rv(it, st, v):
    """normalised value; a condition the path has already decided becomes its truth value"""
    d = it.deep(st, v)
    if d[0] in BOOLK:
        b = st.decide(d)
        if b is None:
            b = Facts(st, it).dec(nv(it, st, d))
        if b is not None:
            return ('bool', b)
    return nv(it, st, d)


def callt(t, name=None):
    """call term -> (short name, args) or None"""
    if t[0] == 'call' and (name is None or short(t[1]) == name):
        return short(t[1]), t[2]
    return None


def cstrip(t):
    """strip versions and call identities"""
    def f(x):
        if x[0] in ('at', 'hv'):
            return cstrip(x[1])
        if x[0] == 'call':
            return ('call', x[1], cstrip(x[2]), None)
        if x[0] == 'new' and x[3] is not None and x[3][0] == 'copy':
            return cstrip(x[3][1])
        return None
    return subst(t, f)


# ------------------------------------------------------------------ facts
class Facts:
    """what a path knows, with container versions dropped"""
    def __init__(self, st, it=None, trace=()):
        self.s = State()
        self.conflict = set()
        s = self.s
        n = (lambda t: nv(it, st, t)) if it is not None else strip
        prim = set()
        own = set()             # what holds only because the path itself inserted it
        if it is not None:
            asked = {e[1] for e in trace if e[0] == 'cond'}
            own = {('contains', n(e[2]), n(e[3][0])) for e in trace if e[0] == 'mut' and e[1] in ('insert', 'minsert', 'remove') and e[3]}
        for t, v in st.facts.items():
            k = n(t)
            orig = not occurs(t, lambda x: x[0] in ('at', 'hv'))
            if not orig and k in own and t not in asked:
                continue
            if k in s.facts and s.facts[k] != v:
                if k in prim:
                    continue            # what held on entry wins over what held after an update
                if not orig:
                    self.conflict.add(k)
            if orig:
                prim.add(k)
                self.conflict.discard(k)
            s.facts[k] = v
        for t in self.conflict:
            s.facts.pop(t, None)
        for key, (lo, hi) in st.iv.items():
            k = n(key) if it is None else tuple((n(a), c) for a, c in key)
            k = tuple(sorted(k, key=lambda kv: rk(kv[0])))
            l2, h2 = s.iv.get(k, (None, None))
            lo = l2 if lo is None else (lo if l2 is None else max(lo, l2))
            hi = h2 if hi is None else (hi if h2 is None else min(hi, h2))
            s.iv[k] = (lo, hi)
        for key, c in st.neq.items():
            k = tuple(sorted(((n(a), co) for a, co in key), key=lambda kv: rk(kv[0])))
            s.neq[k] = frozenset(set(s.neq.get(k, ())) | set(c))
        for t, vs in st.variants.items():
            k = n(t)
            s.variants[k] = vs & s.variants[k] if k in s.variants else vs

    def dec(self, atom):
        return self.s.decide(atom)


def conds(trace, it=None, st=None):
    out = []
    for e in trace:
        if e[0] == 'cond':
            out.append((nv(it, st, e[1]) if it is not None else strip(e[1]), e[2]))
    return out


def show_conds(trace):
    cs = [('' if v else 'not ') + show(strip(a)) for a, v in conds(trace)]
    return ' and '.join(cs) or 'always'


def flat(trace):
    """all events including those in loops, with the chain of enclosing (Loop, case)"""
    def go(tr, ctx):
        for e in tr:
            yield ctx, e
            if e[0] == 'loop':
                L = e[1]
                for i, (t, u, s) in enumerate(L.conts):
                    yield from go(t, ctx + ((L, 'cont', i),))
                for i, (k, t, v, s) in enumerate(L.exits):
                    yield from go(t, ctx + ((L, 'exit', i),))
    yield from go(trace, ())


def toplevel(trace):
    """events outside loops: the events of the iteration that leaves a loop belong to the loop"""
    out = []
    i = 0
    while i < len(trace):
        e = trace[i]
        out.append(e)
        i += 1
        if e[0] == 'loop':
            best = 0
            for k, t, v, s in e[1].exits:
                n = len(t)
                if n > best and tuple(trace[i:i + n]) == tuple(t):
                    best = n
            i += best
    return tuple(out)


# ------------------------------------------------------------------ loops
class Dom:
    """what a loop ranges over"""
    def __init__(self, kind, seq=None, elem=None, note=''):
        self.kind = kind     # fwd | rev | shifted | partial | other
        self.seq = seq
        self.elem = elem
        self.note = note


def ixof(L):
    return ('ix', L.id)


def lin_of(atom):
    return dict(atom[1])


def loop_dom(it, L):
    """(Dom) of a counting loop: bound `ix + k < len(S)` and accesses S[ix+k]"""
    ix = ixof(L)
    bounds = []
    cases = [(t, s) for t, u, s in L.conts] + [(t, s) for k, t, v, s in L.exits]
    for t, s in cases:
        first = None
        for a, v in conds(t, it, s):
            if a[0] == 'ile' and any(k == ix for k, c in a[1]):
                d = dict(a[1])
                lens = [k for k in d if k[0] == 'len']
                if len(d) == 2 and len(lens) == 1 and d[ix] == 1 and d[lens[0]] == -1:
                    first = (lens[0][1], a[2])
                    break
            if a[0] == 'ile' and len(a[1]) == 2:
                # len - ix <= c  i.e. not (ix < len - c)
                d = dict(a[1])
                if ix in d:
                    lens = [k for k in d if k[0] == 'len']
                    if lens and d[ix] == -1 and d[lens[0]] == 1:
                        first = (lens[0][1], -a[2] - 1)
                        break
        if first is not None:
            bounds.append(first)
    if not bounds:
        return Dom('other', note='no counting bound')
    if len(set(bounds)) > 1:
        seqs = {b[0] for b in bounds}
        if len(seqs) > 1:
            return Dom('other', note='several bounds')
    S, c = bounds[0]
    k = -1 - c            # ix + k < len(S)
    n = ('len', S)
    idxs = set()
    for t, s in cases:
        for ctx, e in flat(t):
            for x in subterms(nvtrace(it, s, e)):
                if x[0] == 'elem' and x[1] == S and occurs(x[2], lambda y: y == ix):
                    idxs.add(x[2])
    if not idxs:
        for t, u, s in L.conts:
            for k2, v in u.items():
                for x in subterms(nv(it, s, v)):
                    if x[0] == 'elem' and x[1] == S and occurs(x[2], lambda y: y == ix):
                        idxs.add(x[2])
    fw = add(ix, Int(k))
    if k == 0:
        if not idxs or ix in idxs:
            return Dom('fwd', S, ('elem', S, ix))
        r = sub(sub(n, Int(1)), ix)
        if r in idxs:
            return Dom('rev', S, ('elem', S, r))
    if k > 0 and fw in idxs:
        return Dom('shifted', S, ('elem', S, fw), 'the first %d element(s) are left out' % k)
    if k < 0:
        # ix < len + |k|
        return Dom('other', S, note='bound beyond the end')
    if k > 0 and ix in idxs:
        return Dom('shifted', S, ('elem', S, ix), 'the last %d element(s) are left out' % k)
    return Dom('other', S, note='unusual index')


def capped(it, L):
    """the number of rounds after which the loop ends whatever it ranges over, or None"""
    ix = ixof(L)
    for k, t, v, s in L.exits:
        cs_ = conds(t, it, s)
        if not all(a[0] == 'ile' and all(x == ix or x[0] == 'len' for x, n in a[1]) for a, b in cs_):
            continue
        for a, b in cs_:
            if b is False and a[1] == ((ix, 1),):
                return a[2] + 1
    return None


def cut_from(S):
    """(root, note) of a sequence from which a fixed number of elements is left out"""
    note = None
    while True:
        if S[0] == 'coll':
            S = S[2]
        elif S[0] in ('rev', 'copied', 'hseq', 'seq'):
            S = S[1]
        elif S[0] in ('take', 'skip') and S[2][0] == 'int':
            if S[0] == 'take' or S[2][1] > 0:
                note = 'only %s %d elements are looked at' % ('the first' if S[0] == 'take' else 'those behind the first', S[2][1])
            S = S[1]
        else:
            return S, note


def nvtrace(it, st, e):
    if e[0] in ('cond',):
        return (e[0], nv(it, st, e[1]))
    out = []
    for x in e[1:]:
        out.append(nv(it, st, x) if isinstance(x, tuple) and x and isinstance(x[0], str) and e[0] != 'loop'
                   else (tuple(nv(it, st, y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) and e[0] != 'loop' else x))
    return (e[0],) + tuple(out)


class Case:
    """one way through a loop body or function"""
    def __init__(self, kind, trace, st, val=None, upd=None):
        self.kind = kind       # cont | exit | end(normal exhaustion) | ret | panic
        self.trace = trace
        self.st = st
        self.val = val
        self.upd = upd or {}
        self._f = None

    def facts(self, it):
        if self._f is None:
            self._f = Facts(self.st, it, self.trace)
        return self._f


def cases(it, L, dom=None):
    """iteration cases of a loop; exhaustion exits are dropped"""
    out = []
    ix = ixof(L)
    for t, u, s in L.conts:
        out.append(Case('cont', t, s, None, u))
    for k, t, v, s in L.exits:
        if k == 'panic':
            out.append(Case('panic', t, s, v))
        elif is_exhaust(it, L, t, s):
            continue
        else:
            if isinstance(v, tuple) and v and v[0] == 'user':
                v = v[1]
            out.append(Case('exit', t, s, v))
    return out


def is_exhaust(it, L, t, s):
    """the exit taken when the counting bound fails"""
    ix = ixof(L)
    for a, v in conds(t, it, s):
        if a[0] == 'ile' and any(k == ix for k, c in a[1]):
            d = dict(a[1])
            if any(k[0] == 'len' for k in d):
                neg = (d[ix] == 1 and not v) or (d[ix] == -1 and v)
                return neg
    return False


# ------------------------------------------------------------------ contents
class Seq:
    """content of a container: items in order; ('item', term, op, ev) | ('for', L, dom, [(Case, Seq)]) | ('other', ev)"""
    def __init__(self, items):
        self.items = items


def inside(e, ident):
    """the event changes an element of the list"""
    if e[0] not in ('mut', 'write') or ident[0] != 'new' or ident[1] not in ('Vec', 'VecDeque'):
        return False
    t = strip(e[2] if e[0] == 'mut' else e[1])
    if t[0] == 'obj':
        t = strip(t[1])
    w = strip(ident)
    while t[0] in ('elem', 'fld', 'as'):
        if t[0] == 'elem' and t[1] == w:
            return True
        t = t[1]
    return False


def touches(it, trace, ident):
    for ctx, e in flat(trace):
        if e[0] == 'mut' and same_ident(e[2], ident) or inside(e, ident):
            return True
        if e[0] == 'deep' and same_ident(e[1], ident):
            return True
    return False


def same_ident(a, b):
    return a == b or strip(a) == strip(b)


def content(it, st, trace, v):
    """Seq describing value v (a freshly built collection) at the end of trace, or None"""
    v = it.val(st, v) if st is not None else v
    while v[0] == 'at':
        v = v[1]
    if v[0] == 'coll':
        return coll_content(it, st, trace, v)
    if v[0] == 'arr':
        return Seq([('item', nv(it, st, x), 'push', None) for x in v[1]])
    if v[0] == 'sorted':
        return None
    if v[0] != 'new':
        return None
    items = events_on(it, trace, v)
    if v[3] is not None and v[3][0] == 'arr':
        items = [('item', nv(it, st, x), 'push', None) for x in v[3][1]] + items
    elif v[3] is not None and v[3][0] == 'copy':
        pre = content(it, st, trace, v[3][1])
        if pre is None:
            pre = Seq([('all', nv(it, st, v[3][1]))])
        items = list(pre.items) + items
    elif v[3] is not None and v[3][0] != 'empty':
        return None
    return fuse(it, st, trace, Seq(items))


def events_on(it, trace, v):
    items = []
    for e in trace:
        if e[0] == 'mut' and same_ident(e[2], v):
            if e[1] in ('push', 'insert', 'minsert'):
                items.append(('item', e[3][0] if e[1] != 'minsert' else ('tup', e[3]), e[1], e))
            else:
                items.append(('other', e))
        elif inside(e, v):
            items.append(('other', e if e[0] == 'mut' else ('mut', 'write', e[1], e[3:4])))
        elif e[0] == 'loop':
            L = e[1]
            used = any(touches(it, t, v) for t, u, s in L.conts) or any(touches(it, t, v) for k, t, x, s in L.exits if not is_exhaust(it, L, t, s))
            own = [y for t, u, s in L.conts for ctx, y in flat(t) if inside(y, v)] if used else ()
            if own and same_ident(loop_dom(it, L).seq or UNIT, v):
                y = own[0]
                items.append(('other', y if y[0] == 'mut' else ('mut', 'write', y[1], y[3:4])))
            elif used:
                cs = [(c, Seq(events_on(it, c.trace, v))) for c in cases(it, L)]
                items.append(('for', L, loop_dom(it, L), cs))
    return items


def coll_content(it, st, trace, v):
    tmp = st.copy()
    tmp.trace = ()
    n = ('new', v[1] if v[1] in ('Vec', 'HashSet', 'HashMap', 'BTreeMap', 'BTreeSet') else 'Vec', it.fresh(), ('empty',))

    def body(s, x):
        put(it, s, n, x, '')
        return [Out('cont', s)]
    own = [x[1].split('::{closure')[0] for x in subterms(v[2]) if x[0] == 'clo']
    tmp.stack = tuple(tmp.stack) + tuple(n for n in own if n not in tmp.stack)     # a recursive call of the enclosing function stays a call
    outs = consume(it, tmp, v[2], Int(0), body, 'collect')
    outs = [o for o in outs if o.kind == 'done']
    if len(outs) != 1:
        # several normal ends (e.g. chain over options): take the common loop structure if equal
        if not outs:
            return None
        if len({tuple(id(e[1]) for e in o.st.trace if e[0] == 'loop') for o in outs}) != 1:
            return None
    return fuse(it, st, trace, Seq(events_on(it, outs[0].st.trace, n)))


def fuse(it, st, trace, seq, depth=0):
    """a loop over a collection built earlier on the same path becomes the loop that built it"""
    if depth > 4:
        return seq
    out = []
    for x in seq.items:
        if x[0] == 'for' and x[2].kind == 'fwd' and x[2].seq is not None and x[2].seq[0] in ('new',) and st is not None:
            inner = content(it, st, trace, x[2].seq)
            cs = x[3]
            if inner is not None and all(c.kind == 'cont' for c, s in cs):
                r = subst_seq(it, inner, x[2].elem, cs)
                if r is not None:
                    out.extend(r)
                    continue
        out.append(x)
    return Seq(out)


def subst_seq(it, inner, elem, cs):
    res = []
    for y in inner.items:
        if y[0] == 'item':
            # the body applied to this one item
            if len(cs) != 1:
                return None
            c, s = cs[0]
            for z in s.items:
                if z[0] != 'item':
                    return None
                res.append(('item', subst(nv(it, c.st, z[1]), lambda t: y[1] if t == elem else None), z[2], z[3]))
        elif y[0] == 'for':
            ncs = []
            for ic, iseq in y[3]:
                if not iseq.items:
                    ncs.append((ic, iseq))
                    continue
                if len(iseq.items) != 1 or iseq.items[0][0] != 'item':
                    return None
                t0 = nv(it, ic.st, iseq.items[0][1])
                for c, s in cs:
                    st2 = ic.st.copy()
                    ok_ = True
                    extra = ()
                    for a, v in conds(c.trace, it, c.st):
                        if occurs(a, lambda q: q[0] == 'ix') and occurs(a, lambda q: q[0] == 'len' and q[1] == elem[1]):
                            continue
                        a2 = renorm(it, subst(a, lambda t: t0 if t == elem else None))
                        d = Facts(st2, it).dec(a2)
                        if d is None:
                            st2.assume(a2, v)
                            extra += (('cond', a2, v),)
                        elif d != v:
                            ok_ = False
                            break
                    if not ok_:
                        continue
                    its = []
                    for z in s.items:
                        if z[0] != 'item':
                            return None
                        its.append(('item', renorm(it, subst(nv(it, c.st, z[1]), lambda t: t0 if t == elem else None)), z[2], z[3]))
                    ncs.append((Case(ic.kind, ic.trace + extra, st2, ic.val, ic.upd), Seq(its)))
            res.append(('for', y[1], y[2], ncs))
        else:
            return None
    return res


def renorm(it, t):
    """re-simplify variant tests and payloads after substitution"""
    def f(x):
        if x[0] == 'is':
            return it.is_(renorm(it, x[1]), x[2])
        if x[0] == 'fld' and x[1][0] == 'as':
            return it.payload(renorm(it, x[1][1]), x[1][2], x[2])
        if x[0] == 'fld':
            return it.fld(renorm(it, x[1]), x[2])
        return None
    return subst(t, f)


# ------------------------------------------------------------------ case tables
def check_cases(r, rule, loc, it, cs, atoms, expect, observe, feasible=lambda a: True, allow=None):
    """every case must show what `expect` says for every assignment of the atoms it admits"""
    names = list(atoms)
    n = 0
    for c in cs:
        f = c.facts(it)
        base = {k: f.dec(atoms[k]) for k in names}
        free = [k for k in names if base[k] is None]
        obs = observe(c)
        for m in range(1 << len(free)):
            a = dict(base)
            for i, k in enumerate(free):
                a[k] = bool(m >> i & 1)
            if not feasible(a):
                continue
            n += 1
            exp = expect(a)
            if exp is None:
                continue
            if obs != exp:
                msg = 'when %s: expected %s, found %s' % (show_conds(c.trace), fmt(exp), fmt(obs))
                und = all(understood(x) for x, v in conds(c.trace, it, c.st)) and understood_obs(obs)
                if und:
                    r.bad(rule, loc, msg)
                else:
                    r.undec(rule, loc, msg)
                return n
    r.ok(rule, loc, '%d guard assignments over {%s}' % (n, ', '.join(names)))
    return n


def understood_obs(o):
    if isinstance(o, tuple) and o and isinstance(o[0], str):
        return understood(o)
    if isinstance(o, (list, tuple)):
        return all(understood_obs(x) for x in o)
    return True


def fmt(x):
    if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and x and isinstance(x[0], str)):
        return '[' + ', '.join(fmt(y) for y in x) + ']'
    if isinstance(x, tuple):
        s = show(x)
        return s if len(s) < 200 else s[:200] + '…'
    return str(x)


def get_paths(r, src, name, opaque=()):
    """paths of a function, or None with a report"""
    if name not in src.d['fns']:
        r.bad('anchor', name, 'the operation no longer exists')
        return None, None
    it, ps = src.paths(name, opaque)
    if isinstance(ps, Exception):
        r.undec('budget', name, 'not analysed: %s' % ps)
        return it, None
    r.nfun |= it.nfun
    r.nloops = max(r.nloops, it.nloops)
    r.npaths += len(ps)
    return it, ps


def no_panic(r, loc, ps, it, rule='no-panic'):
    for p in ps:
        if p.kind == 'panic':
            msg = 'panics (%s at %s) when %s' % (p.val[0], p.val[2], show_conds(p.trace))
            if all(understood(a) for a, v in conds(p.trace, it, p.st)):
                r.bad(rule, loc, msg)
            else:
                r.undec(rule, loc, msg)
            return False
    for p in ps:
        seen = [nv(it, p.st, e[1]) for ctx, e in flat(p.trace) if e[0] == 'cond']
        for ctx, e in flat(p.trace):
            if e[0] != 'under':
                continue
            a = nv(it, p.st, e[1])
            if a == FALSE or Facts(p.st, it).dec(a) is False:
                continue
            parts = [k for k, c in a[1]] if a[0] == 'ile' else [a]
            related = [c for c in seen if any(occurs(c, lambda x: x == k or (k[0] == 'len' and x == k[1])) for k in parts)]
            msg = 'a difference of counts may go below zero (%s) when %s' % (fmt(a), show_conds(p.trace)[:200])
            if not related and all(understood(k) for k in parts):
                r.bad(rule, loc, msg)
            else:
                r.undec(rule, loc, msg)
            return False
    r.ok(rule, loc, '%d paths, none ends in a panic' % len(ps))
    return True


def rets(ps):
    return [p for p in ps if p.kind == 'ret']


def mutations(trace):
    """names of observable effects other than building fresh collections"""
    out = []
    for ctx, e in flat(trace):
        if e[0] in ('write', 'print', 'eprint', 'out'):
            out.append(e)
        elif e[0] == 'mut':
            i = e[2]
            while i[0] in ('at',):
                i = i[1]
            if i[0] != 'new':
                out.append(e)
    return out


def A(i):
    return ('sym', 'a%d' % i)


VIEWS = {}


def at_base(t, base):
    """a field of A(0) as the same field of base"""
    return base if t == A(0) else ('fld', at_base(t[1], base), t[2])


def view(role, *base):
    """the vocabulary's view of that role inside base; undecided if the views are not recognised"""
    if role not in VIEWS:
        undec('the views of the vocabulary are not recognised')
    return at_base(VIEWS[role], F(*base))


def F(t, *fs):
    for f in fs:
        t = ('fld', t, f)
    return t
