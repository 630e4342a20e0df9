"""Path-partitioned abstract interpretation of MIR over Herbrand terms.

Every function is summarised as a finite set of paths.  A path is a trace of
guards (normalised atoms), effects (container mutations, field writes, opaque
calls, prints, formatter output) and loop summaries; loops are summarised by one
generic iteration after a havoc fixpoint, never unrolled.  Nothing is executed
and no solver is involved: feasibility pruning is constant folding plus an
interval domain over linear terms.
"""
import re
from terms import *

MAXPATHS = 6000
MAXDEPTH = 24


class Budget(Exception):
    pass


def int_cmp(t):
    """the order of two numbers"""
    return t[0] == 'call' and t[1] == 'Ord::cmp' and any(x[0] in ('int', 'lin', 'len', 'ix') for x in t[2])


def pieces(t):
    """the number of pieces a text splits into, which is never nought"""
    return t[0] == 'len' and t[1][0] == 'op' and t[1][1] in ('str::split', 'str::rsplit')


class State:
    __slots__ = ('store', 'facts', 'iv', 'neq', 'variants', 'ver', 'trace', 'stack')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.iv = {}
        self.neq = {}
        self.variants = {}
        self.ver = {}
        self.trace = ()
        self.stack = ()

    def copy(self):
        n = State()
        n.store = dict(self.store)
        n.facts = dict(self.facts)
        n.iv = dict(self.iv)
        n.neq = dict(self.neq)
        n.variants = dict(self.variants)
        n.ver = dict(self.ver)
        n.trace = self.trace
        n.stack = self.stack
        return n

    def ev(self, *e):
        self.trace = self.trace + (e,)

    # ---------------------------------------------------- facts
    def bounds(self, key):
        lo = sum(v for k, v in key if pieces(k)) if nonneg(key) else None
        hi = None
        b = self.iv.get(key)
        if b:
            if b[0] is not None:
                lo = b[0] if lo is None else max(lo, b[0])
            hi = b[1]
        # sum of bounds of the parts
        if len(key) > 1:
            tlo = thi = 0
            for k, c in key:
                bb = self.iv.get(((k, 1),), (None, None))
                l = bb[0] if bb[0] is not None else 1 if pieces(k) else 0
                h = bb[1]
                if c > 0:
                    tlo = None if tlo is None else tlo + c * l
                    thi = None if (thi is None or h is None) else thi + c * h
                else:
                    tlo = None if (tlo is None or h is None) else tlo + c * h
                    thi = None if thi is None else thi + c * l
            if tlo is not None:
                lo = tlo if lo is None else max(lo, tlo)
            if thi is not None:
                hi = thi if hi is None else min(hi, thi)
        return lo, hi

    def decide(self, t):
        k = t[0]
        if k == 'bool':
            return t[1]
        if k == 'not':
            r = self.decide(t[1])
            return None if r is None else (not r)
        if k == 'and':
            a, b = self.decide(t[1]), self.decide(t[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = self.decide(t[1]), self.decide(t[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'ile':
            lo, hi = self.bounds(t[1])
            if hi is not None and hi <= t[2]:
                return True
            if lo is not None and lo > t[2]:
                return False
            return None
        if k == 'ieq':
            lo, hi = self.bounds(t[1])
            c = t[2]
            if lo is not None and lo == hi == c:
                return True
            if (lo is not None and c < lo) or (hi is not None and c > hi) or c in self.neq.get(t[1], ()):
                return False
            return None
        if k == 'is':
            vs = self.variants.get(t[1])
            if vs is not None:
                if t[2] not in vs:
                    return False
                if len(vs) == 1:
                    return True
            return None
        if t in self.facts:
            return self.facts[t]
        return None

    def assume(self, t, val, allv=None):
        k = t[0]
        if k == 'not':
            return self.assume(t[1], not val)
        if k == 'ile' or k == 'ieq':
            key, c = t[1], t[2]
            lo, hi = self.iv.get(key, (None, None))
            if nonneg(key) and lo is None:
                lo = sum(v for x, v in key if pieces(x))
            if k == 'ile':
                if val:
                    hi = c if hi is None else min(hi, c)
                else:
                    lo = c + 1 if lo is None else max(lo, c + 1)
            else:
                if val:
                    lo = hi = c
                else:
                    s = set(self.neq.get(key, ()))
                    s.add(c)
                    while lo is not None and lo in s:
                        lo += 1
                    while hi is not None and hi in s:
                        hi -= 1
                    self.neq[key] = frozenset(s)
            self.iv[key] = (lo, hi)
            return
        if k == 'is':
            vs = self.variants.get(t[1])
            if val:
                self.variants[t[1]] = frozenset([t[2]])
            else:
                if vs is None:
                    vs = allv or ALLV.get(t[2])
                if vs is not None:
                    self.variants[t[1]] = frozenset(vs) - {t[2]}
            return
        self.facts[t] = val
        if t[0] == 'eq' and val:
            # a term equal to a constant is different from all other constants
            pass


WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'char': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128, 'bool': 1}
JSONV = ('Null', 'Bool', 'Number', 'String', 'Array', 'Object')
ALLV = {**{v: JSONV for v in JSONV}, 'Some': ('None', 'Some'), 'Ok': ('Ok', 'Err'), 'Continue': ('Continue', 'Break'), 'Err': ('Ok', 'Err'), 'None': ('None', 'Some'), 'Break': ('Continue', 'Break'),
        'Less': ('Less', 'Equal', 'Greater'), 'Equal': ('Less', 'Equal', 'Greater'), 'Greater': ('Less', 'Equal', 'Greater')}


class Loop:
    __slots__ = ('id', 'where', 'init', 'conts', 'exits', 'keys', 'havoc', 'kind', 'src', 'state0')

    def __repr__(self):
        return 'Loop<%s>' % self.id


class Out:
    """one way a region/function ends"""
    __slots__ = ('kind', 'st', 'val', 'base')

    def __init__(self, kind, st, val=None):
        self.kind = kind      # ret | panic | edge | cont | exit
        self.st = st
        self.val = val


class Fn:
    def __init__(self, name, info):
        self.name = name
        self.info = info
        self.body = info['body']
        self.blocks = self.body['blocks']
        self._loops = None
        self._used = None

    def succ(self, b):
        t = self.blocks[b]['te']
        k = t['t']
        if k in ('goto', 'drop', 'assert'):
            return [t['to']]
        if k == 'switch':
            return [x[1] for x in t['vals']] + [t['other']]
        if k == 'call':
            return [t['to']] if t['to'] is not None else []
        return []

    def used(self):
        if self._used is None:
            u = {0}

            def pl(p, read):
                if read or any(e[0] == 'deref' for e in p['p']):
                    u.add(p['l'])
                for e in p['p']:
                    if e[0] == 'index':
                        u.add(e[1])

            def op(o):
                if o and o.get('o') in ('copy', 'move'):
                    pl(o['pl'], True)
            for b in self.blocks:
                if b['cleanup']:
                    continue
                for s in b['st']:
                    if s['s'] == 'assign':
                        pl(s['pl'], False)
                        r = s['rv']
                        for k in ('a', 'b'):
                            x = r.get(k)
                            if isinstance(x, dict):
                                op(x)
                            elif isinstance(x, list):
                                for y in x:
                                    op(y)
                        if 'pl' in r:
                            pl(r['pl'], True)
                t = b['te']
                for k in ('d', 'cond', 'a', 'b', 'f'):
                    if isinstance(t.get(k), dict):
                        op(t[k])
                for y in t.get('args', []):
                    op(y)
            self._used = u
        return self._used

    def loops(self):
        """header -> set of body blocks (natural loops, back edges via dominators)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, seen = [], set()

        def dfs(b):
            st = [(b, iter(self.succ(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ(y))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = list(reversed(order))
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b):
                pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b]]
                d = set.intersection(*ps) if ps else set()
                d = d | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succ(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        self._loops = loops
        return loops


def simple_name(c):
    """canonical callee name 'Type::method' / 'Trait::method' / 'module::fn'"""
    p = c['def']
    p = re.sub(r"<impl ([^<>]*|[^<>]*<.*>) for ([^<>]*|[^<>]*<.*?>)>", lambda m: m.group(1), p)
    m = re.search(r"<impl (.*)>::(\w+)$", p)
    if m:
        t = m.group(1)
        if t.startswith('['):
            t = 'slice'
        t = re.sub(r'<.*', '', t.replace('(dyn std::any::Any + \'static), A', '')).split('::')[-1]
        return '%s::%s' % (t, m.group(2))
    while True:
        q = re.sub(r"::<[^<>]*>", '', p)
        q = re.sub(r"<[^<>]*>", '', q) if q == p else q
        if q == p:
            break
        p = q
    seg = [s for s in p.split('::') if s]
    return '::'.join(seg[-2:])


# handing out a part, or changing nothing but the room reserved
NOMUT = re.compile(r'mut$|^(reserve|shrink|try_reserve|entry|by_ref|as_|borrow|next|peek)')


class Interp:
    def __init__(self, dump, opaque=(), inline_ok=None):
        self.d = dump
        self.fns = {k: Fn(k, v) for k, v in dump['fns'].items()}
        self.opaque = set(opaque)
        self.uid = 0
        self.unknown = {}          # unmodelled callees met
        self.nfun = set()
        self.nloops = 0
        self.npaths = 0
        self.prom = {}
        self.dest_used = True
        self.fargs = {}            # call stack -> arguments of its innermost frame
        self.alias = {}            # loop variables that only ever name one location
        self.hooks = None          # trait methods that are extension points; other default methods are inlined
        from models import MODELS
        self.models = MODELS
        self.impls = {}
        for k, v in dump['fns'].items():
            if v['trait']:
                self.impls.setdefault((v['trait'], k.split('::')[-1]), []).append(k)

    def fresh(self):
        self.uid += 1
        return self.uid

    # ---------------------------------------------------------- locations
    def load_cell(self, st, cell):
        if cell in st.store:
            return st.store[cell]
        if cell[0] == 'H':
            return cell[1]
        return ('undef', cell)

    def load(self, st, loc):
        v = self.load_cell(st, loc[0])
        for p in loc[1]:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        k = v[0]
        if isinstance(p, tuple):
            if p[0] == 'as':
                if k == 'adt':
                    return v
                if k == 'obj' and v[1][0] == 'adt':
                    return v
                return ('as', v, p[1])
            if p[0] == 'idx':
                return self.elem(st, v, p[1])
            if p[0] == 'slice':
                return ('slice', self.at(st, v), p[1], p[2])
        return self.fld(v, p)

    def fld(self, v, f):
        k = v[0]
        if k == 'adt':
            for n, x in v[3]:
                if n == f:
                    return x
            return ('fld', v, f)
        if k == 'tup' and f.isdigit() and int(f) < len(v[1]):
            return v[1][int(f)]
        if k == 'clo' and f.isdigit() and int(f) < len(v[2]):
            return v[2][int(f)]
        if k == 'obj':
            for n, x in v[2]:
                if n == f:
                    return x
            return self.fld(v[1], f)
        if k == 'as':
            return self.payload(v[1], v[2], f)
        return ('fld', v, f)

    def payload(self, o, V, f):
        if o[0] == 'entry' and V in ('Occupied', 'Vacant') and f == '0':
            return o
        if V == 'Some' and f == '0':
            if o[0] == 'mget':
                return ('mval', o[1], o[2])
            if o[0] == 'vget':
                return ('elem', o[1], o[2])
            if o[0] == 'jas':
                return ('jval', o[1], o[2]) if o[2] in ('u64', 'i64', 'f64') else ('fld', ('as', o[1], o[2]), '0')
            if o[0] == 'jget':
                return ('jidx', o[1], o[2])
            if o[0] == 'strget':
                return o[1]
        if V in ('Ok', 'Some') and f == '0' and o[0] == 'dcast':
            return o[1]
        if o[0] == 'obj':
            for n, x in o[2]:
                if n == (V, f):
                    return x
            return self.payload(o[1], V, f)
        if o[0] == 'adt':
            return self.fld(o, f)
        return ('fld', ('as', o, V), f)

    def store(self, st, loc, val):
        cell, path = loc
        if cell[0] == 'H':
            st.ev('write', cell[1], path, val)
            self.touch(st, cell[1])
        if not path:
            st.store[cell] = val
            return
        st.store[cell] = self.update(st, self.load_cell(st, cell), path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        if isinstance(p, tuple):
            if p[0] == 'as':
                # (x as V).f = val
                if v[0] == 'adt':
                    return self.update(st, v, rest, val)
                if rest:
                    f, rr = rest[0], rest[1:]
                    old = self.payload(v, p[1], f)
                    nv = self.update(st, old, rr, val)
                    return self.mkobj(v, (p[1], f), nv)
                return val
            if p[0] == 'idx':
                if v[0] == 'arr' and p[1][0] == 'int':
                    l = list(v[1])
                    l[p[1][1]] = self.update(st, l[p[1][1]], rest, val)
                    return ('arr', tuple(l))
                st.ev('mut', 'store', v, (p[1], val), None, None)
                self.touch(st, v)
                return v
            return v
        if v[0] == 'adt':
            fs = []
            hit = False
            for n, x in v[3]:
                if n == p:
                    fs.append((n, self.update(st, x, rest, val)))
                    hit = True
                else:
                    fs.append((n, x))
            if hit:
                return ('adt', v[1], v[2], tuple(fs))
        if v[0] == 'tup' and p.isdigit() and int(p) < len(v[1]):
            l = list(v[1])
            l[int(p)] = self.update(st, l[int(p)], rest, val)
            return ('tup', tuple(l))
        if v[0] == 'undef':
            return self.mkobj(v, p, self.update(st, ('undef', v[1], p), rest, val))
        return self.mkobj(v, p, self.update(st, self.fld(v, p), rest, val))

    def mkobj(self, v, f, x):
        if v[0] == 'obj':
            d = dict(v[2])
            base = v[1]
        else:
            d, base = {}, v
        d[f] = x
        return ('obj', base, tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))

    def touch(self, st, t):
        """a write through pointer term t changes the containers it came from"""
        n = None
        for x in subterms(t):
            if x[0] in ('mval', 'elem'):
                c = x[1]
                while c[0] == 'at':
                    c = c[1]
                n = n or self.fresh()
                st.ver[c] = n
                st.ev('deep', c)

    def at(self, st, c):
        """container value as seen now"""
        v = st.ver.get(c)
        if v is not None:
            return ('at', c, v)
        if c[0] == 'new' and c[3] is not None and c[3][0] == 'copy':
            return c[3][1]
        return c

    def len(self, st, c):
        return self.len_at(self.at(st, c))

    def len_at(self, c):
        k = c[0]
        if k == 'arr':
            return Int(len(c[1]))
        if k == 'str':
            return Int(len(c[1].encode()))
        if k == 'new':
            if c[3] is not None and c[3][0] == 'arr':
                return Int(len(c[3][1]))
            if c[3] == ('empty',):
                return Int(0)
        if k == 'coll':
            n = self.iter_len(c[2])
            if n is not None:
                return n
        if k == 'sorted':
            return self.len_at(c[1])
        if k == 'slice':
            return sub(c[3], c[2])
        if k == 'substr':
            return sub(c[3], c[2])
        if k == 'tovec':
            return self.len_at(c[1])
        return ('len', c)

    def iter_len(self, d):
        if d[0] in ('seq', 'rseq'):
            return self.len_at(d[1])
        if d[0] in ('map', 'enumerate', 'cloned') and d[1][0] != 'hseq':
            return self.iter_len(d[1])
        if d[0] == 'hseq':
            return self.len_at(d[1])
        if d[0] in ('map', 'enumerate'):
            return self.iter_len(d[1])
        return None

    def elem(self, st, c, i):
        return self.elem_at(st, self.at(st, c), i)

    def elem_at(self, st, c, i):
        if c[0] == 'new' and c[3] is not None and c[3][0] == 'arr':
            c = c[3]
        if c[0] == 'arr' and i[0] == 'int' and 0 <= i[1] < len(c[1]):
            return c[1][i[1]]
        if c[0] == 'slice':
            return self.elem_at(st, c[1], add(c[2], i))
        if c[0] == 'tovec':
            return self.elem_at(st, c[1], i)
        if c[0] == 'coll' and st is not None:
            v = self.coll_elem(st, c[2], i)
            if v is not None:
                return v
        return ('elem', c, i)

    def coll_elem(self, st, d, i):
        """element i of a collected pure iterator with one element per source element"""
        if d[0] == 'seq':
            return self.elem_at(st, d[1], i)
        if d[0] == 'rseq':
            return self.elem_at(st, d[1], sub(sub(self.len_at(d[1]), Int(1)), i))
        if d[0] == 'hseq':
            return ('elem', d[1], i)
        if d[0] == 'map':
            x = self.coll_elem(st, d[1], i)
            if x is None:
                return None
            tmp = st.copy()
            tmp.trace = ()
            r = self.call_closure(tmp, d[2], [x])
            if len(r) == 1 and r[0].kind == 'ret' and not any(e[0] != 'new' for e in r[0].st.trace):
                # copy new cells for references into callee frames
                for c, v in r[0].st.store.items():
                    if c not in st.store:
                        st.store[c] = v
                return r[0].val
        return None

    # ---------------------------------------------------------- deref
    def deref(self, st, v):
        if v[0] == 'ref':
            return (v[1], v[2])
        if v[0] == 'obj' and v[1][0] == 'undef':
            return (('H', v), ())
        return (('H', v), ())

    def val(self, st, v):
        """follow references to the value (one or more levels)"""
        n = 0
        while v[0] == 'ref' and n < 8:
            v = self.load(st, (v[1], v[2]))
            n += 1
        if ('H', v) in st.store:
            return st.store[('H', v)]
        return v

    def deep(self, st, v, n=0):
        """value with references inside aggregates resolved"""
        v = self.val(st, v)
        if n > 6:
            return v
        if v[0] == 'adt':
            return ('adt', v[1], v[2], tuple((f, self.deep(st, x, n + 1)) for f, x in v[3]))
        if v[0] in ('tup', 'arr'):
            return (v[0], tuple(self.deep(st, x, n + 1) for x in v[1]))
        if v[0] == 'new' and v[3] is not None and v[3][0] == 'arr':
            return ('new', v[1], v[2], self.deep(st, v[3], n + 1))
        if v[0] == 'cat':
            return cat(*[self.deep(st, x, n + 1) for x in v[1]])
        return v

    def place_loc(self, st, fr, p):
        loc = (('L', fr, p['l']), ())
        for e in p['p']:
            k = e[0]
            if k == 'deref':
                v = self.load(st, loc)
                loc = self.deref(st, v)
            elif k == 'field':
                owner = e[3]
                if owner in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::Unique',
                             'core::ptr::NonNull', 'alloc::boxed::Box', 'std::mem::ManuallyDrop',
                             'std::mem::MaybeUninit', 'core::mem::ManuallyDrop', 'core::mem::MaybeUninit',
                             'std::mem::MaybeDangling', 'core::mem::MaybeDangling'):
                    continue
                loc = (loc[0], loc[1] + (e[1],))
            elif k == 'downcast':
                loc = (loc[0], loc[1] + (('as', e[1]),))
            elif k == 'index':
                i = self.load(st, (('L', fr, e[1]), ()))
                loc = (loc[0], loc[1] + (('idx', i),))
            elif k == 'cindex':
                off, mn, fe = e[1], e[2], e[3]
                v = self.load(st, loc)
                i = sub(self.len(st, v), Int(off)) if fe else Int(off)
                loc = (loc[0], loc[1] + (('idx', i),))
            elif k == 'subslice':
                v = self.load(st, loc)
                end = sub(self.len(st, v), Int(e[2])) if e[3] else Int(e[2])
                loc = (loc[0], loc[1] + (('slice', Int(e[1]), end),))
            else:
                loc = (loc[0], loc[1] + ('?' + str(k),))
        return loc

    # ---------------------------------------------------------- operands
    def const(self, st, c, fn):
        k = c['k']
        v = c['v']
        if k == 'int':
            return Int(v)
        if k == 'bool':
            return ('bool', bool(v))
        if k == 'char':
            return ('char', v)
        if k == 'str':
            return Str(v)
        if k == 'bytes':
            return ('bytes', tuple(v))
        if k == 'unit':
            return UNIT
        if k == 'fn':
            key = v['res'] or v['def']
            self.callees[key + '|' + ','.join(v['targs'])] = v
            return ('fn', key + '|' + ','.join(v['targs']))
        if k == 'promoted':
            return self.promoted(c['of'], v)
        if k == 'item':
            return self.item(v)
        if k == 'static':
            return ('static', v)
        return ('const', str(v), c.get('ty'))

    callees = {}

    def promoted(self, of, i):
        key = (of, i)
        if key not in self.prom:
            self.prom[key] = ('const', str(key), None)
            info = self.d['fns'].get(of)
            if info and i < len(info['promoted']):
                f = Fn(of + '#p%d' % i, {'body': info['promoted'][i]})
                st = State()
                r = self.run(f, [], st)
                if len(r) == 1 and r[0].kind == 'ret':
                    self.prom[key] = self.resolve_static(r[0].st, r[0].val)
        return self.prom[key]

    def resolve_static(self, st, v):
        v = self.val(st, v)
        if v[0] in ('tup', 'arr'):
            return (v[0], tuple(self.resolve_static(st, x) for x in v[1]))
        if v[0] == 'adt':
            return ('adt', v[1], v[2], tuple((f, self.resolve_static(st, x)) for f, x in v[3]))
        return v

    def item(self, name):
        key = ('item', name)
        if key not in self.prom:
            self.prom[key] = ('const', name, None)
            if name in self.fns:
                st = State()
                r = self.run(self.fns[name], [], st)
                if len(r) == 1 and r[0].kind == 'ret':
                    self.prom[key] = self.resolve_static(r[0].st, r[0].val)
        return self.prom[key]

    def operand(self, st, fr, fn, o):
        if o['o'] == 'const':
            return self.const(st, o['c'], fn)
        return self.load(st, self.place_loc(st, fr, o['pl']))

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, fr, fn, r):
        k = r['r']
        op = lambda o: self.operand(st, fr, fn, o)
        if k == 'use':
            return op(r['a'])
        if k == 'ref' or k == 'rawptr':
            loc = self.place_loc(st, fr, r['pl'])
            if loc[0][0] == 'H' and not loc[1]:
                return loc[0][1]
            return ('ref', loc[0], loc[1])
        if k == 'cast':
            v = op(r['a'])
            if r['kind'] == 'IntToInt' and WIDTH.get(r['to'], 64) < WIDTH.get(r['from'], 64):
                if v[0] == 'int' and 0 <= v[1] < 1 << (WIDTH[r['to']] - (r['to'][0] == 'i')):
                    return v
                if v[0] == 'trunc' and WIDTH[v[1]] <= WIDTH[r['to']]:
                    return v
                return ('trunc', r['to'], v)
            return v
        if k == 'bin':
            a, b = op(r['a']), op(r['b'])
            return self.binop(st, r['op'], a, b, r['ty'])
        if k == 'un':
            a = op(r['a'])
            if r['op'] == 'Not':
                if a[0] == 'int':
                    return ('op', 'Not', (a,))
                return mknot(a)
            if r['op'] == 'Neg':
                return mul(a, Int(-1))
            if r['op'] == 'PtrMetadata':
                return self.len(st, self.val(st, a))
            return ('op', r['op'], (a,))
        if k == 'discr':
            v = self.load(st, self.place_loc(st, fr, r['pl']))
            v = self.val(st, v) if v[0] == 'ref' else v
            vs = r['variants']
            if vs is None:
                return ('op', 'discr', (v,))
            return ('discr', v, tuple((a, b) for a, b in vs))
        if k == 'agg':
            a = tuple(op(x) for x in r['a'])
            kk = r['kind']
            if kk == 'array':
                return ('arr', a)
            if kk == 'tuple':
                return ('tup', a)
            if kk == 'adt':
                return ('adt', r['adt'], r['variant'], tuple(zip(r['fields'], a)))
            if kk == 'closure':
                return ('clo', r['def'], a)
        if k == 'repeat':
            a = op(r['a'])
            if r['n'] is not None and r['n'] <= 16:
                return ('arr', (a,) * r['n'])
            return ('op', 'repeat', (a, Int(r['n'] or -1)))
        return ('op', 'other', (Str(r.get('d', k)),))

    def binop(self, st, o, a, b, ty):
        o = o.replace('WithOverflow', '').replace('Unchecked', '')
        isint = ty in ('usize', 'u64', 'u32', 'i32', 'i64', 'isize', 'u8', 'u16', 'i8', 'i16', 'u128', 'i128')
        if o == 'Add':
            r = add(a, b)
        elif o == 'Sub':
            r = sub(a, b)
            if ty in ('usize', 'u64', 'u32', 'u16', 'u8', 'u128') and st.decide(lt(a, b)) is not False:
                st.ev('under', lt(a, b))
        elif o == 'Mul':
            r = mul(a, b)
        elif o in ('Lt', 'Le', 'Gt', 'Ge') and (isint or (a[0] == b[0] == 'char')):
            if a[0] == 'char':
                a = Int(a[1])
            if b[0] == 'char':
                b = Int(b[1])
            r = {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[o]()
        elif o in ('Eq', 'Ne'):
            r = self.eq(st, a, b, ty)
            if o == 'Ne':
                r = mknot(r)
        elif o == 'BitAnd' and ty == 'bool':
            r = mkand(a, b)
        elif o == 'BitOr' and ty == 'bool':
            r = mkor(a, b)
        elif o == 'BitXor' and ty == 'bool':
            if a[0] == 'bool':
                r = mknot(b) if a[1] else b
            elif b[0] == 'bool':
                r = mknot(a) if b[1] else a
            else:
                r = ('op', 'xor', (a, b))
        elif a[0] == 'int' and b[0] == 'int' and o in ('Div', 'Rem', 'BitAnd', 'BitOr', 'Shl', 'Shr') and b[1] != 0:
            r = Int({'Div': a[1] // b[1], 'Rem': a[1] % b[1], 'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1],
                     'Shl': a[1] << min(b[1], 64), 'Shr': a[1] >> b[1]}[o])
        else:
            r = ('op', o, (a, b))
        return r

    def eq(self, st, a, b, ty=None):
        a, b = self.val(st, a), self.val(st, b)
        if ty == 'bool':
            if a[0] == 'bool':
                return b if a[1] else mknot(b)
            if b[0] == 'bool':
                return a if b[1] else mknot(a)
        if ty in ('usize', 'u64', 'u32', 'i32', 'i64', 'isize', 'u8', 'u16', 'i16', 'i8') or a[0] in ('int', 'lin') or b[0] in ('int', 'lin'):
            return ieq(a, b)
        if a == b:
            return TRUE
        lits = ('str', 'char', 'bool', 'bytes', 'unit')
        if a[0] in lits and b[0] in lits:
            return ('bool', a == b)
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2]:
                return FALSE
            r = TRUE
            for (f, x), (_, y) in zip(a[3], b[3]):
                r = mkand(r, self.eq(st, x, y))
            return r
        for x, y in ((a, b), (b, a)):
            if x[0] == 'adt' and not x[3]:
                return self.is_(y, x[2])
            if x[0] == 'adt' and x[1].endswith('option::Option') and x[2] == 'Some':
                return mkand(self.is_(y, 'Some'), self.eq(st, self.payload(y, 'Some', '0'), x[3][0][1]))
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            r = TRUE
            for x, y in zip(a[1], b[1]):
                r = mkand(r, self.eq(st, x, y))
            return r
        x, y = sorted((a, b), key=rk)
        return ('eq', x, y)

    # ---------------------------------------------------------- variants
    def is_(self, t, V):
        """bool term: value t has variant V"""
        k = t[0]
        if k == 'adt':
            return ('bool', t[2] == V)
        if k == 'obj':
            return self.is_(t[1], V)
        if V == 'None':
            return mknot(self.is_(t, 'Some'))
        if V == 'Err':
            return mknot(self.is_(t, 'Ok'))
        if V == 'Break':
            return mknot(self.is_(t, 'Continue'))
        if V == 'Some':
            if k == 'mget':
                return ('contains', t[1], t[2])
            if k == 'vget':
                return lt(t[2], self.len_at(t[1]))
            if k == 'jas':
                return ('jnum', t[1], t[2]) if t[2] in ('u64', 'i64', 'f64') else ('is', t[1], t[2])
        if V in ('Less', 'Equal', 'Greater') and int_cmp(t):
            x, y = t[2]
            return lt(x, y) if V == 'Less' else lt(y, x) if V == 'Greater' else ieq(x, y)
        return ('is', t, V)

    # ---------------------------------------------------------- splitting
    def known_key(self, st, c, k):
        """membership in a collection that was created empty here and only got literal keys"""
        ks = st.facts.get(('keys', c))
        if ks is None:
            if c[0] == 'new' and c[3] == ('empty',):
                return False
            return None
        if k in ks:
            return True
        return False if k[0] in ('int', 'str') else None

    def split(self, st, b, want=None):
        """-> [(state, bool)]"""
        r = st.decide(b)
        if r is None and b[0] == 'contains':
            r = self.known_key(st, b[1], b[2])
        if r is not None:
            return [(st, r)]
        if b[0] == 'not':
            return [(s, not v) for s, v in self.split(st, b[1])]
        if b[0] == 'and':
            out = []
            for s, v in self.split(st, b[1]):
                if not v:
                    out.append((s, False))
                else:
                    out.extend(self.split(s, b[2]))
            return out
        if b[0] == 'or':
            out = []
            for s, v in self.split(st, b[1]):
                if v:
                    out.append((s, True))
                else:
                    out.extend(self.split(s, b[2]))
            return out
        t, f = st.copy(), st
        t.assume(b, True)
        t.ev('cond', b, True)
        f.assume(b, False)
        f.ev('cond', b, False)
        return [(t, True), (f, False)]

    def split_variant(self, st, v, variants, groups):
        """groups: list of (set of variant names, tag) -> [(state, tag)]"""
        if v[0] == 'adt' or (v[0] == 'obj' and v[1][0] == 'adt'):
            name = v[2] if v[0] == 'adt' else v[1][2]
            for g, tag in groups:
                if name in g:
                    return [(st, tag)]
            return []
        if v[0] == 'obj':
            v = v[1]
        names = set(variants)
        if v[0] == 'entry' and names == {'Occupied', 'Vacant'}:
            from models import own
            out = []
            for s, b in self.split(st, ('contains', self.at(st, own(self, st, v[1])), v[2])):
                out.extend((s, tag) for g, tag in groups if ('Occupied' if b else 'Vacant') in g)
            return out
        if names <= {'Some', 'None'} or names <= {'Ok', 'Err'} or names <= {'Continue', 'Break'}:
            pos = 'Some' if 'Some' in names else ('Ok' if 'Ok' in names else 'Continue')
            out = []
            for s, b in self.split(st, self.is_(v, pos)):
                for g, tag in groups:
                    neg = names - {pos}
                    if (b and pos in g) or (not b and neg & g):
                        out.append((s, tag))
                        break
            return out
        if int_cmp(v) and names == {'Less', 'Equal', 'Greater'}:
            out, todo = [], [st]
            for V in ('Less', 'Equal', 'Greater'):
                nxt = []
                for s in todo:
                    for s2, b in [(s, True)] if V == 'Greater' else self.split(s, self.is_(v, V)):
                        if b:
                            out.extend((s2, tag) for g, tag in groups if V in g)
                        else:
                            nxt.append(s2)
                todo = nxt
            return out
        cur = st.variants.get(v)
        cur = frozenset(names) if cur is None else cur & names
        out = []
        live = [(g & cur, tag) for g, tag in groups if g & cur]
        for i, (g, tag) in enumerate(live):
            s = st.copy() if i < len(live) - 1 else st
            if g != cur:
                if len(g) == 1:
                    (V,) = g
                    s.ev('cond', ('is', v, V), True)
                else:
                    for V in sorted(cur - g):
                        s.ev('cond', ('is', v, V), False)
            s.variants[v] = frozenset(g)
            out.append((s, tag))
        return out

    # ---------------------------------------------------------- running
    def run(self, fn, args, st):
        """inline fn -> list of Out(ret|panic)"""
        fr = self.fresh()
        self.nfun.add(fn.name)
        for i, a in enumerate(args):
            st.store[('L', fr, i + 1)] = a
        old = st.stack
        st.stack = old + (fn.name,)
        self.fargs[st.stack] = tuple(self.deep(st, a) for a in args)
        outs = self.region(fn, fr, 0, st, None)
        res = []
        for o in outs:
            o.st.stack = old
            if o.kind == 'ret':
                v = o.st.store.get(('L', fr, 0), UNIT)
                res.append(Out('ret', o.st, v))
            else:
                res.append(o)
        return res

    def region(self, fn, fr, start, st, loop):
        """run from block start; loop = (header, body) being summarised or None"""
        outs = []
        work = [(start, st, True)]
        loops = fn.loops()
        while work:
            bb, st, first = work.pop()
            while True:
                if loop is not None and not first:
                    if bb == loop[0]:
                        outs.append(Out('cont', st))
                        break
                    if bb not in loop[1]:
                        outs.append(Out('edge', st, bb))
                        break
                if bb in loops and not (loop is not None and bb == loop[0] and first):
                    lp = (bb, loops[bb])
                    for o in self.mir_loop(fn, fr, lp, st):
                        if o.kind == 'edge':
                            work.append((o.val, o.st, False))
                        else:
                            outs.append(o)
                    break
                first = False
                blk = fn.blocks[bb]
                for s in blk['st']:
                    if s['s'] == 'assign':
                        v = self.rvalue(st, fr, fn, s['rv'])
                        self.store(st, self.place_loc(st, fr, s['pl']), v)
                    else:
                        loc = self.place_loc(st, fr, s['pl'])
                        self.store(st, loc, ('adt', '?', s['v'], ()))
                nxt = self.term(fn, fr, bb, blk, st, outs)
                if len(nxt) > 1:
                    self.npaths += len(nxt) - 1
                    if len(outs) + len(work) > MAXPATHS:
                        raise Budget('path budget in %s' % fn.name)
                if not nxt:
                    break
                for b2, s2 in nxt[1:]:
                    work.append((b2, s2, False))
                bb, st = nxt[0]
        return outs

    def term(self, fn, fr, bb, blk, st, outs):
        t = blk['te']
        k = t['t']
        if k in ('goto', 'drop'):
            return [(t['to'], st)]
        if k == 'return':
            outs.append(Out('ret', st))
            return []
        if k == 'unreachable' or k == 'resume':
            return []
        if k == 'assert':
            if t['kind'] == 'bounds':
                i = self.operand(st, fr, fn, t['a'])
                n = self.operand(st, fr, fn, t['b'])
                c = lt(i, n)
            elif t['kind'] == 'overflow':
                return [(t['to'], st)]
            else:
                c = self.operand(st, fr, fn, t['cond'])
                if not t['exp']:
                    c = mknot(c)
            r = []
            for s, b in self.split(st, c):
                if b:
                    r.append((t['to'], s))
                else:
                    s.ev('panic', t['kind'], blk['sp'])
                    outs.append(Out('panic', s, (t['kind'], fn.name, blk['sp'])))
            return r
        if k == 'switch':
            d = self.operand(st, fr, fn, t['d'])
            return self.switch(st, d, t)
        if k == 'call':
            f = self.operand(st, fr, fn, t['f'])
            args = [self.operand(st, fr, fn, a) for a in t['args']]
            r = []
            self.dest_used = bool(t['dest']['p']) or t['dest']['l'] in fn.used()
            for o in self.call(st, f, args, fn, blk['sp'], t.get('dty')):
                if o.kind == 'ret':
                    if t['to'] is None:             # a call that never returns
                        o.st.ev('panic', 'explicit', blk['sp'])
                        outs.append(Out('panic', o.st, ('explicit', fn.name, blk['sp'])))
                        continue
                    self.store(o.st, self.place_loc(o.st, fr, t['dest']), o.val)
                    r.append((t['to'], o.st))
                elif o.kind == 'skip':
                    outs.append(Out('cont', o.st))  # a filtered-out element: next iteration
                else:
                    outs.append(o)
            return r
        st.ev('unknown', 'terminator ' + k, blk['sp'])
        return []

    def switch(self, st, d, t):
        vals, other = t['vals'], t['other']
        if d[0] == 'discr':
            m = dict((a, b) for a, b in d[2])
            names = [b for a, b in d[2]]
            groups = []
            used = set()
            for v, b in vals:
                if v in m:
                    groups.append((frozenset([m[v]]), b))
                    used.add(m[v])
            rest = frozenset(n for n in names if n not in used)
            if rest:
                groups.append((rest, other))
            return [(tag, s) for s, tag in self.split_variant(st, d[1], names, groups)]
        if t['dty'] == 'bool':
            fals = dict((v, b) for v, b in vals).get(0)
            tru = dict((v, b) for v, b in vals).get(1, other)
            if fals is None:
                fals = other
            return [((tru if b else fals), s) for s, b in self.split(st, d)]
        r = []
        cur = st
        for v, b in vals:
            if t['dty'] == 'char':
                c = self.eq(cur, d, ('char', v), 'char')
            else:
                c = ieq(d, Int(v))
            nxt = None
            for s, bo in self.split(cur, c):
                if bo:
                    r.append((b, s))
                else:
                    nxt = s
            if nxt is None:
                return r
            cur = nxt
        r.append((other, cur))
        return r

    # ---------------------------------------------------------- loops
    def mir_loop(self, fn, fr, lp, st):
        where = '%s#%s' % (fn.name, fn.blocks[lp[0]]['sp'])

        def body(s):
            return self.region(fn, fr, lp[0], s, lp)
        return self.summarise(st, body, where)

    def cellname(self, cell):
        return cell

    def summarise(self, st0, body, where, kind='mir'):
        lid = self.fresh()
        self.nloops += 1
        hav = {}      # cell -> merged value at loop head
        hver = {}
        iv = {}       # lv term -> (init, step)
        base_trace = st0.trace
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Budget('loop fixpoint in ' + where)
            s = st0.copy()
            s.trace = ()
            for c, v in hav.items():
                s.store[c] = self.iv_apply(v, iv)
            for c in hver:
                s.ver[c] = ('loop', lid)
            for v in iv.values():
                pass
            head = dict(s.store)
            hv = dict(s.ver)
            outs = body(s)
            changed = False
            for o in outs:
                if o.kind != 'cont':
                    continue
                for c, v0 in head.items():
                    v1 = o.st.store.get(c, v0)
                    if v1 != v0:
                        old = hav.get(c, st0.store.get(c, ('undef', c)))
                        if c in hav:
                            old = hav[c]
                        m = self.merge(lid, old, self.iv_unapply(v1, iv, lid), (c,), st0)
                        if m != old:
                            hav[c] = m
                            changed = True
                # heap cells overlaid in the body but not before
                for c, v1 in o.st.store.items():
                    if c in head or c[0] != 'H':
                        continue
                    if self.invariant_term(c[1], lid):
                        m = self.merge(lid, c[1], self.iv_unapply(v1, iv, lid), (c,), st0)
                        if hav.get(c) != m:
                            hav[c] = m
                            changed = True
                for c, v1 in o.st.ver.items():
                    if hv.get(c) != v1 and c not in hver and self.invariant_term(c, lid):
                        hver[c] = True
                        changed = True
            if changed:
                iv = {}
                continue
            # induction variables
            lvs = {}
            for c, v in hav.items():
                self.collect_lv(lid, v, (), lvs, c)
            niv = {}
            for lv, (c, path) in lvs.items():
                if lv in iv:
                    niv[lv] = iv[lv]
                    continue
                step = None
                okk = True
                for o in outs:
                    if o.kind != 'cont':
                        continue
                    v1 = self.get_path(o.st.store.get(c), path)
                    if v1 is None:
                        okk = False
                        break
                    d = sub(v1, lv) if v1[0] in ('lin', 'lv', 'int', 'sym', 'fld', 'len') else None
                    if d is None or d[0] != 'int' or d[1] == 0:
                        okk = False
                        break
                    if step is None:
                        step = d[1]
                    elif step != d[1]:
                        okk = False
                        break
                if okk and step is not None:
                    init = self.get_path(st0.store.get(c, c[1] if c[0] == 'H' else None), path)
                    if init is not None:
                        niv[lv] = (init, step)
            if niv != iv:
                iv = niv
                continue
            break
        L = Loop()
        L.id = lid
        L.where = where
        L.kind = kind
        L.havoc = hav
        L.keys = {}
        L.init = {}
        for lv, (c, path) in lvs.items():
            L.init[lv] = self.get_path(st0.store.get(c, c[1] if c[0] == 'H' else ('undef', c)), path)
        L.conts = []
        L.exits = []
        res = []
        for o in outs:
            if o.kind == 'cont':
                upd = {}
                for lv, (c, path) in lvs.items():
                    if lv in iv:
                        continue
                    v1 = self.get_path(o.st.store.get(c), path)
                    upd[lv] = v1
                L.conts.append((o.st.trace, upd, o.st))
        for lv in lvs:
            i0 = L.init[lv]
            if i0 is None or lv in iv:
                continue
            x = strip(i0)
            if x[0] in ('sym', 'fld', 'elem', 'new', 'lv', 'mval') and all(u.get(lv) is not None and (u[lv] == lv or strip(u[lv]) == x) for t, u, s_ in L.conts):
                self.alias[lv] = x
        for o in outs:
            if o.kind != 'cont':
                tr = o.st.trace
                L.exits.append((o.kind, tr, o.val, o.st))
        for o in outs:
            if o.kind != 'cont':
                tr = o.st.trace
                s = o.st
                s2 = s.copy()
                s2.trace = base_trace + (('loop', L),) + tr
                res.append(Out(o.kind, s2, o.val))
        return res

    def invariant_term(self, t, lid):
        """a heap cell that exists independently of the iteration"""
        return not occurs(t, lambda x: (x[0] == 'ix' and x[1] == lid) or (x[0] == 'at' and x[2] == ('loop', lid))
                          or (x[0] == 'lv' and x[1] == lid) or (x[0] in ('new', 'call', 'at', 'hv') and self.newer(x, lid)))

    def newer(self, x, lid):
        u = x[2] if x[0] in ('new', 'hv') else (x[3] if x[0] == 'call' else x[2])
        return isinstance(u, int) and u > lid

    def iv_apply(self, v, iv):
        if not iv:
            return v

        def f(x):
            if x in iv:
                init, step = iv[x]
                return add(init, mul(('ix', x[1]), Int(step)))
            return None
        return subst(v, f)

    def iv_unapply(self, v, iv, lid):
        if not iv:
            return v
        # undo the substitution: only used to re-merge; replace ix by lv of the first IV
        return v

    def merge(self, lid, a, b, path, st):
        if a == b:
            return a
        if a[0] == 'lv' and a[1] == lid:
            return a
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[2] == b[2]:
            return ('adt', a[1], a[2], tuple((f, self.merge(lid, x, y, path + (f,), st)) for (f, x), (_, y) in zip(a[3], b[3])))
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.merge(lid, x, y, path + (str(i),), st) for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            return ('it', a[1], self.merge(lid, a[2], b[2], path + ('#pos',), st))
        if b[0] == 'obj' or a[0] == 'obj':
            ba = a[1] if a[0] == 'obj' else a
            bb = b[1] if b[0] == 'obj' else b
            if ba == bb:
                da = dict(a[2]) if a[0] == 'obj' else {}
                db = dict(b[2]) if b[0] == 'obj' else {}
                r = ba
                for f in sorted(set(da) | set(db), key=str):
                    x = da[f] if f in da else (self.payload(ba, f[0], f[1]) if isinstance(f, tuple) else self.fld(ba, f))
                    y = db[f] if f in db else (self.payload(bb, f[0], f[1]) if isinstance(f, tuple) else self.fld(bb, f))
                    r = self.mkobj(r, f, self.merge(lid, x, y, path + (f,), st))
                return r
        return ('lv', lid, path)

    def collect_lv(self, lid, v, path, out, c):
        k = v[0]
        if k == 'lv' and v[1] == lid:
            out[v] = (c, path)
        elif k == 'adt':
            for f, x in v[3]:
                self.collect_lv(lid, x, path + (f,), out, c)
        elif k == 'tup':
            for i, x in enumerate(v[1]):
                self.collect_lv(lid, x, path + (str(i),), out, c)
        elif k == 'it':
            self.collect_lv(lid, v[2], path + ('#pos',), out, c)
        elif k == 'obj':
            for f, x in v[2]:
                self.collect_lv(lid, x, path + (f,), out, c)

    def get_path(self, v, path):
        if v is None:
            return None
        for p in path:
            if p == '#pos':
                if v[0] != 'it':
                    return None
                v = v[2]
            elif isinstance(p, tuple):
                v = self.payload(v, p[0], p[1])
            else:
                v = self.fld(v, p)
        return v

    # ---------------------------------------------------------- calls
    def call(self, st, f, args, fn, sp, dty=None):
        if f[0] == 'fn':
            c = self.callees[f[1]]
            return self.call_def(st, c, args, fn, sp, dty)
        f2 = self.val(st, f)
        if f2[0] == 'clo' or f2[0] == 'fn':
            return self.call_closure(st, f2, args)
        u = self.fresh()
        r = ('call', 'indirect', (f2,) + tuple(self.deep(st, a) for a in args), u)
        st.ev("call", "indirect", tuple(args), r, sp, None)
        return [Out('ret', st, r)]

    def call_closure(self, st, clo, args):
        """args: list of values"""
        c = self.val(st, clo)
        if c[0] == 'fn':
            return self.call_def(st, self.callees[c[1]], args, None, '', None)
        if c[0] != 'clo' or c[1] not in self.fns:
            u = self.fresh()
            r = ('call', 'closure', (c,) + tuple(self.deep(st, a) for a in args), u)
            st.ev('call', 'closure', tuple(args), r, '')
            return [Out('ret', st, r)]
        fn = self.fns[c[1]]
        selfty = fn.body['locals'][1]['ty']
        if selfty.startswith('&'):
            if clo[0] == 'ref':
                me = clo
            else:
                cell = ('L', self.fresh(), 'clo')
                st.store[cell] = c
                me = ('ref', cell, ())
        else:
            me = c
        n = fn.body['argc'] - 1
        if n != len(args):
            if len(args) == 1 and args[0][0] == 'tup' and len(args[0][1]) == n:
                args = list(args[0][1])
        if len(st.stack) > MAXDEPTH:
            raise Budget('inline depth')
        return self.run(fn, [me] + list(args), st)

    def call_def(self, st, c, args, fn, sp, dty):
        name = c['res'] or c['def']
        sn = simple_name(c)
        # virtual: opaque set
        if name in self.opaque or c['def'] in self.opaque or sn in self.opaque:
            return self.opaque_call(st, name, args, sp, c)
        if c['name'] in ('call', 'call_mut', 'call_once') and c['def'].split('::')[-2].startswith('Fn') and len(args) == 2:
            tup = self.val(st, args[1])
            if tup[0] in ('tup', 'unit') or tup == UNIT:
                if self.val(st, args[0])[0] in ('clo', 'fn'):
                    return self.call_closure(st, args[0], list(tup[1]) if tup[0] == 'tup' else [])
        v = self.ctor(name, args)
        if v is not None:
            return [Out('ret', st, v)]
        if c['reslocal'] and name in self.fns:
            f = self.fns[name]
            if f.info.get('derived'):
                m = self.derived(st, f, c, args)
                if m is not None:
                    return m
            if name in st.stack or len(st.stack) > MAXDEPTH:
                return self.opaque_call(st, name, args, sp, c)
            return self.run(f, args, st)
        if self.hooks is not None and c['def'] in self.fns and c['name'] not in self.hooks:
            f = self.fns[c['def']]
            if f.info.get('default') and not self.impls.get((c.get('trait'), c['name'])) and c['def'] not in st.stack and len(st.stack) <= MAXDEPTH:
                return self.run(f, args, st)
        m = self.models.get(sn) if not self.is_local_trait(c) else None
        if m is not None:
            r = m(self, st, args, c, sp)
            if r is not None:
                return [x if isinstance(x, Out) else Out('ret', st, x) for x in (r if isinstance(r, list) else [r])]
        if not self.is_local_trait(c) and c['krate'] not in (self.d['crate'],):
            self.unknown[sn] = self.unknown.get(sn, 0) + 1
        return self.opaque_call(st, name, args, sp, c)

    def ctor(self, name, args):
        """a tuple constructor used as a function"""
        if '::' not in name:
            return None
        ty, last = name.rsplit('::', 1)
        if ty in ('std::option::Option', 'std::result::Result', 'std::prelude::v1') and last in ('Some', 'Ok', 'Err'):
            return ('adt', 'std::option::Option' if last == 'Some' else 'std::result::Result', last, (('0', args[0]),))
        for t, vs in ((ty, last), (name, last)):
            a = self.d['adts'].get(t)
            if a:
                for v in a['variants']:
                    if v['name'] == vs and len(v['fields']) == len(args) and all(f['name'] == str(i) for i, f in enumerate(v['fields'])) and args:
                        return ('adt', t, vs, tuple((f['name'], x) for f, x in zip(v['fields'], args)))
        return None

    def is_local_trait(self, c):
        return c['krate'] == self.d['crate']

    def derived(self, st, f, c, args):
        n = f.name.split('::')[-1]
        if n == 'clone':
            return [Out('ret', st, self.clone(st, args[0]))]
        if n == 'eq':
            return [Out('ret', st, self.eq(st, args[0], args[1]))]
        if n == 'ne':
            return [Out('ret', st, mknot(self.eq(st, args[0], args[1])))]
        return None

    def clone(self, st, a):
        v = self.val(st, a)
        return self.snapshot(st, v)

    def snapshot(self, st, v, n=0):
        """a copy shares no container identity with its original"""
        if v[0] == 'adt' and n < 6:
            return ('adt', v[1], v[2], tuple((f, self.snapshot(st, self.val(st, x), n + 1)) for f, x in v[3]))
        if v[0] == 'new':
            return ('new', v[1], self.fresh(), ('copy', self.at(st, v)))
        return v

    PURE_TRAITS = re.compile(r'(Context::(?!accept|enter|exit))|ToRule::as_rule|Vocabulary::(get|is)')

    def opaque_call(self, st, name, args, sp, c):
        vals = tuple(self.deep(st, a) for a in args)
        sig_mut = self.mut_args(name, c, args)
        if not sig_mut and self.pure_name(name, c):
            r = ('call', self.norm_name(name), tuple(self.ver_val(st, v) for v in vals), None)
            st.ev('call', name, vals, r, sp, self.frame_args(st, name))
            return [Out('ret', st, r)]
        u = self.fresh()
        r = ('call', self.norm_name(name), tuple(self.ver_val(st, v) for v in vals), u)
        st.ev('call', name, vals, r, sp, self.frame_args(st, name))
        for i in sig_mut:
            short = name.split('::')[-1]
            if name not in self.fns and not c['reslocal'] and not NOMUT.search(short):
                x = self.val(st, args[i])
                if x[0] == 'new' and x[1] in ('Vec', 'VecDeque', 'HashSet', 'HashMap', 'BTreeSet', 'BTreeMap'):
                    st.ev('mut', short, x, vals[:i] + vals[i + 1:], None, sp)
                    st.ver[x] = self.fresh()
                    self.touch(st, x)
                    continue
                y = x
                while y[0] == 'at':
                    y = y[1]
                if y[0] == 'elem':
                    st.ev('mut', short, y, vals[:i] + vals[i + 1:], None, sp)
            self.havoc(st, args[i], u, self.is_string_arg(name, i))
        return [Out('ret', st, r)]

    def is_string_arg(self, name, i):
        f = self.fns.get(name)
        loc = f.body['locals'] if f is not None else []
        return i + 1 < len(loc) and loc[i + 1]['ty'].split(' ')[-1] == 'std::string::String'

    def frame_args(self, st, name):
        """arguments of the enclosing activation of a function that is called recursively"""
        for i in range(len(st.stack) - 1, -1, -1):
            if st.stack[i] == name:
                return self.fargs.get(st.stack[:i + 1])
        return None

    def ver_val(self, st, v):
        return self.at(st, v)

    def norm_name(self, n):
        return n

    def pure_name(self, name, c):
        return True

    def mut_args(self, name, c, args):
        """indices of arguments passed by &mut (by signature when known, else by nothing)"""
        f = self.fns.get(name)
        if f is not None:
            loc = f.body['locals']
            return [i for i in range(len(args)) if i + 1 < len(loc) and loc[i + 1]['ty'].startswith('&mut')]
        tr = self.d['traits'].get(c.get('trait') or '')
        if tr:
            for it in tr:
                if it['name'] == c['name'] and it['sig']:
                    ps = split_params(it['sig'])
                    return [i for i in range(len(args)) if i < len(ps) and re.match(r"&('\S+ )?mut ", ps[i])]
        return list(c.get('mutargs', []))

    def havoc(self, st, a, u, text=False):
        v = a
        if v[0] == 'ref':
            loc = (v[1], v[2])
            old = self.load(st, loc)
            base = old[1] if old[0] == 'obj' else old
            if v[1][0] == 'L':
                st.store[v[1]] = self.update(st, self.load_cell(st, v[1]), v[2], ('hv', base, u))
            else:
                st.store[v[1]] = self.update(st, self.load_cell(st, v[1]), v[2], ('hv', base, u))
            root = base
        else:
            cell = ('H', v)
            root = v
            base = v
            if text and cell in st.store:
                base = st.store[cell]
            while base[0] == 'hv' and not text:
                base = base[1]
            st.store[cell] = ('hv', base, u)
        # everything reachable from it
        rs = strip(root)
        for c in list(st.store):
            if c[0] == 'H' and c[1] != root and occurs(strip(c[1]), lambda x: x == rs):
                del st.store[c]
        for c in list(st.ver):
            if occurs(strip(c), lambda x: x == rs):
                st.ver[c] = u


def split_params(sig):
    m = re.match(r"(?:for<[^>]*> )?(?:unsafe )?(?:extern \"[^\"]*\" )?fn\((.*)$", sig)
    if not m:
        return []
    s = m.group(1)
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            if ch == ')' and depth == 0:
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Path:
    """a summarised path of an entry function"""
    def __init__(self, o):
        self.kind = o.kind
        self.st = o.st
        self.val = o.val
        self.trace = o.st.trace


def analyse(it, name, nargs=None, args=None):
    fn = it.fns[name]
    st = State()
    if args is None:
        args = [('sym', 'a%d' % i) for i in range(fn.body['argc'])]
    return [Path(o) for o in it.run(fn, args, st)]


def show_trace(tr, ind=0, out=None):
    out = [] if out is None else out
    p = '  ' * ind
    for e in tr:
        if e[0] == 'cond':
            out.append(p + ('if ' if e[2] else 'if NOT ') + show(e[1]))
        elif e[0] == 'loop':
            L = e[1]
            out.append(p + 'LOOP %s %s' % (L.id, L.where))
            for lv, i in L.init.items():
                out.append(p + '  init %s = %s' % (show(lv), show(i) if i else i))
            for t, u, _s in L.conts:
                out.append(p + '  - cont')
                show_trace(t, ind + 3, out)
                for lv, v in u.items():
                    if v != lv:
                        out.append(p + '      %s := %s' % (show(lv), show(v) if v else v))
            for k, t, v, _s in L.exits:
                out.append(p + '  - exit %s %s' % (k, v if not isinstance(v, tuple) or k == 'panic' else show(v)))
                show_trace(t, ind + 3, out)
        else:
            out.append(p + e[0] + ' ' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:5]))
    return out
