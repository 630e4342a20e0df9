"""C18: drawings show every node and text cannot break out of them.

draw and new are summarised together with everything they call, the recursive writer once
more on its own.  The script text handed to the page is read as JavaScript with the tree's
texts as holes: it must be one object literal per node whose name is the node's name and whose
text or children are the node's text or one element per child, in order.  Every text in a
literal must pass through an escape that, as a function of arbitrary text, keeps it inside the
literal and keeps its meaning (proved character by character; a counterexample text is shown
otherwise).  The template must print that script inside its script element, unfiltered and
with auto-escaping off, and every way through draw that returns must have written the whole
rendered page to the given file, replacing what was there.
"""
import os
import re
from lib import *
from fix import Stop, bad, undec, guard, definite
import tera
from jslit import parts, stays, nvs

FLOOR = 1
DRAW = 'tool::gui::ast_drawer::ASTDrawer::draw'
NEW = 'tool::gui::ast_drawer::ASTDrawer::new'


def run(r, src):
    it, ps = get_paths(r, src, DRAW)
    if ps is None:
        return
    it2, ps2 = get_paths(r, src, NEW)
    page = {}
    guard(r, 'page', DRAW, lambda: template(src, it, rets(ps), it2, rets(ps2 or []), page))
    guard(r, 'written', DRAW, lambda: written(it, rets(ps)))
    todo, done = [], set()
    notes = []
    guard(r, 'every-node', DRAW, lambda: drawn(it, rets(ps), page, todo, notes))
    while todo:
        f, pos, into = todo.pop()
        if (f, pos, into) in done:
            continue
        done.add((f, pos, into))
        it3, ps3 = get_paths(r, src, f)
        if ps3 is None:
            continue
        guard(r, 'every-node', f, lambda: recursive(it3, rets(ps3), pos, into, todo, notes))
    seen = set()
    for st, d in sorted(set(notes)):
        if st == 'ok':
            r.ok('escaped', d)
        elif (st, d[0]) not in seen:
            seen.add((st, d[0]))
            r.put(st, 'escaped', d[0], d[1])


# ------------------------------------------------------------------ the page
def calls(p, pat):
    return [e for e in p.trace if e[0] == 'call' and re.search(pat, e[1])]


def globof(it, ps):
    """the template directory and the extensions that are auto-escaped"""
    if not ps:
        undec('no way through new')
    res = set()
    for p in ps:
        g = calls(p, r'tera::Tera::new$')
        if len(g) != 1 or nv(it, p.st, g[0][2][0])[0] != 'str':
            undec('the templates are not loaded by one Tera::new with a constant pattern')
        pat = nv(it, p.st, g[0][2][0])[1]
        ext = ('.html', '.htm', '.xml')
        for e in calls(p, r'Tera::autoescape_on$'):
            s = content(it, p.st, p.trace, it.deep(p.st, e[2][1]))
            v = nv(it, p.st, e[2][1])
            if v[0] == 'arr':
                xs = [nv(it, p.st, x) for x in v[1]]
            elif s is not None and all(x[0] in ('item', 'all') for x in s.items):
                xs = []
                for x in s.items:
                    y = nv(it, p.st, x[1])
                    xs += list(y[1]) if x[0] == 'all' and y[0] == 'arr' else [y]
            else:
                undec('the auto-escaped extensions are %s' % fmt(v)[:100])
            if any(x[0] != 'str' for x in xs):
                undec('the auto-escaped extensions are %s' % fmt(v)[:100])
            ext = tuple(x[1] for x in xs)
        res.add((pat, ext))
    if len(res) != 1:
        undec('the templates are loaded in several ways')
    return res.pop()


LOSSY = {'lower', 'upper', 'truncate', 'escape', 'title', 'capitalize', 'striptags', 'addslashes', 'escape_xml', 'linebreaksbr', 'slugify',
         'wordcount', 'length', 'first', 'last', 'reverse', 'urlencode', 'default_'}


def flatten(nodes, under=()):
    for n in nodes:
        if n[0] == 'text':
            yield ('text', n[1], under)
        elif n[0] == 'expr':
            yield ('expr', n[1], under)
        elif n[0] == 'if':
            for i, (c, b) in enumerate(n[1]):
                yield from flatten(b, under + (('if', c),))
            if n[2]:
                yield from flatten(n[2], under + (('else', n[1]),))
        elif n[0] == 'for':
            yield from flatten(n[3], under + (('for', n[2]),))
        else:
            yield ('other', n, under)


def root(e):
    fs = []
    while e[0] == 'filter':
        fs.append(e[1])
        e = e[2]
    return e, fs


def template(src, it, ps, it2, ps2, page):
    pat, ext = globof(it2, ps2)
    names = set()
    for p in ps:
        rs = calls(p, r'Tera::render(_to)?$')
        if len(rs) != 1:
            if not rs:
                definite(it, p.trace, p.st, 'nothing is rendered, when %s' % show_conds(p.trace)[:300])
            undec('rendered %d times' % len(rs))
        n = nv(it, p.st, rs[0][2][1])
        if n[0] != 'str':
            undec('the template is %s' % fmt(n)[:100])
        names.add(n[1])
    if len(names) != 1:
        undec('several templates')
    name = names.pop()
    if '*' not in pat:
        undec('the templates are %s' % pat)
    base = pat[:pat.index('*')]
    f = os.path.join(src.repo, base, name)
    page['file'] = base + name
    if not os.path.exists(f):
        bad('there is no template %s below %s' % (name, base))
    tailpat = pat[pat.rindex('*') + 1:]
    if not name.endswith(tailpat):
        bad('the template %s is not among %s' % (name, pat))
    try:
        ns = tera.parse(open(f, encoding='utf8').read())
    except tera.Unsupported as e:
        (bad if e.malformed else undec)('%s: %s' % (page['file'], e))
    flat_ = list(flatten(ns))
    if any(x[0] == 'other' for x in flat_):
        undec('%s sets or includes things' % page['file'])
    esc = any(name.endswith(x) for x in ext)
    # where the script element is
    pos, inside = 0, False
    exprs = []
    before, after = None, None
    buf = ''
    for kind, x, under in flat_:
        if kind == 'text':
            for m in re.finditer(r'<script\b[^>]*>|</script\s*>', x, re.I):
                inside = not m.group(0).startswith('</')
            buf += x
        else:
            exprs.append((x, under, inside, len(buf)))
    page['exprs'] = exprs
    page['text'] = buf
    page['escaped'] = esc
    # the script variable: what is printed inside the script element
    ins = {}
    for p in ps:
        d = {}
        for e in calls(p, r'tera::Context::insert$'):
            k = nv(it, p.st, e[2][1])
            if k[0] != 'str':
                undec('a page variable is called %s' % fmt(k)[:60])
            d[k[1]] = (e[2][2], p)
        if calls(p, r'Context::(extend|from_serialize|from_value|try_insert)$'):
            undec('page variables are set in another way')
        for x, under, inn, o in exprs:
            e, fs = root(x)
            if e[0] == 'var' and e[1][0] not in d and not any(f[0] == 'default' if isinstance(f, tuple) else f == 'default' for f in fs):
                definite(it, p.trace, p.st, 'the page prints %s, which is not given to it: rendering fails' % '.'.join(e[1]))
        ins[p] = d
    page['ins'] = ins
    script = [(x, u, o) for x, u, inn, o in exprs if inn]
    if not script:
        bad('%s prints nothing inside its script element' % page['file'])
    out = []
    for x, u, o in script:
        e, fs = root(x)
        if e[0] != 'var' or len(e[1]) != 1:
            undec('the script prints %s' % (x,))
        out.append((e[1][0], fs, u, o))
    page['script'] = out
    return '%s, %d expressions' % (page['file'], len(exprs))


# ------------------------------------------------------------------ the file
WRAP = r'(BufWriter|LineWriter)(::<.*>)?::(new|with_capacity)$'


def written(it, ps):
    n = 0
    for p in ps:
        n += 1
        rs = calls(p, r'Tera::render(_to)?$')
        if len(rs) != 1:
            undec('rendered %d times' % len(rs))
        fa = Facts(p.st, it)
        R = ('fld', ('as', nv(it, p.st, rs[0][3]), 'Ok'), '0')
        writes = []
        for e in p.trace:
            if e[0] == 'loop' and any(x[0] == 'out' or (x[0] == 'call' and re.search(r'io::Write::|fs::', x[1])) for c, x in flat((e,))):
                undec('the file is written in a loop')
            if e[0] == 'out':
                writes.append((nv(it, p.st, e[1]), nv(it, p.st, e[2]), 'write!', e))
            elif e[0] == 'call':
                m = re.search(r'Write::(write|write_all|write_fmt)$', e[1])
                if m:
                    writes.append((nv(it, p.st, e[2][0]), nv(it, p.st, e[2][1]), m.group(1), e))
                elif re.search(r'fs::write$', e[1]):
                    writes.append((nv(it, p.st, e[2][0]), nv(it, p.st, e[2][1]), 'fs', e))
                elif e[1].endswith('Tera::render_to'):
                    writes.append((nv(it, p.st, e[2][3]), R, 'render_to', e))
        at = lambda e: ' (%s)' % e[-1] if isinstance(e[-1], str) else ''
        if not writes:
            definite(it, p.trace, p.st, 'returns without writing the page, when %s' % show_conds(p.trace)[:300])
        for W, X, how, e in writes:
            if how == 'write':
                bad('writes the page with a single write, which may write only part of it')
        if len(writes) > 1:
            whole = [w for w in writes if w[1] == R]
            if not whole:
                undec('the page is written in %d pieces' % len(writes))
            undec('%d writes' % len(writes))
        W, X, how, e = writes[0]
        if X != R:
            if X[0] == 'cat' or not understood(X):
                undec('writes %s' % fmt(X)[:150])
            if X[0] == 'slice' and X[1] == R and X[2] == ('int', 0) and X[3] == ('len', R):
                pass
            elif X[0] in ('slice', 'substr') or X[0] in ('str', 'sym'):
                definite(it, p.trace, p.st, 'writes %s instead of the whole page' % fmt(X)[:150])
            else:
                undec('writes %s' % fmt(X)[:150])
        target(it, p, W, how, fa)
        if how not in ('render_to',):
            res = [c for c in p.trace if c[0] == 'cond' and occurs(nv(it, p.st, c[1]), lambda t: t == R) and nv(it, p.st, c[1])[0] == 'is']
        rok = [a for a, v in conds(p.trace, it, p.st) if a[0] == 'is' and a[2] == 'Ok' and v]
        if how == 'fs' or how == 'write_all' or how == 'render_to':
            res = nv(it, p.st, e[3])
            d = fa.dec(('is', res, 'Ok'))
            if d is not True:
                definite(it, p.trace, p.st, 'returns normally although writing the page %s' % ('failed' if d is False else 'may have failed'))
    if not n:
        undec('no way through')
    return '%d ways' % n


def target(it, p, W, how, fa):
    """W is the file named by a3, emptied first"""
    a3 = A(3)
    n = 0
    while n < 6:
        n += 1
        if W == a3:
            if how == 'fs':
                return
            undec('writes to %s' % fmt(W))
        if W[0] == 'fld' and W[1][0] == 'as' and W[1][2] == 'Ok':
            W = W[1][1]
            continue
        if W[0] == 'call':
            if re.search(WRAP, W[1]):
                W = W[2][-1]
                continue
            if re.search(r'fs::File::create(_new)?$', W[1]):
                W = W[2][0]
                if W != a3:
                    (bad if understood(W) else undec)('writes to the file %s' % fmt(W)[:100])
                return
            if re.search(r'OpenOptions::open$', W[1]):
                opts = {}
                x = W[2][0]
                for e in p.trace:
                    if e[0] == 'call' and 'OpenOptions::' in e[1] and len(e[2]) == 2 and not e[1].endswith('open'):
                        opts[e[1].split('::')[-1]] = nv(it, p.st, e[2][1])
                t = ('bool', True)
                if opts.get('append') == t:
                    bad('appends the page to what is in the file')
                if opts.get('truncate') != t and opts.get('create_new') != t:
                    if any(v[0] != 'bool' for v in opts.values()):
                        undec('opened with %s' % opts)
                    bad('the file is opened without emptying it: the rest of a longer old file stays behind the page')
                if W[2][1] != a3:
                    (bad if understood(W[2][1]) else undec)('writes to the file %s' % fmt(W[2][1])[:100])
                return
        break
    if how == 'fs':
        (bad if understood(W) else undec)('writes to the file %s' % fmt(W)[:100])
    undec('writes to %s' % fmt(W)[:150])


# ------------------------------------------------------------------ JavaScript with holes
class JS:
    def __init__(self, ps, where):
        self.p = ps
        self.i = 0
        self.w = where

    def peek(self):
        while self.i < len(self.p) and self.p[self.i][0] == 'c' and self.p[self.i][1].isspace():
            self.i += 1
        return self.p[self.i] if self.i < len(self.p) else ('end',)

    def ch(self):
        t = self.peek()
        return t[1] if t[0] == 'c' else None

    def eat(self, c):
        if self.ch() == c:
            self.i += 1
            return True
        return False

    def near(self):
        s = ''
        for t in self.p[max(0, self.i - 12):self.i + 12]:
            s += t[1] if t[0] == 'c' else '…'
        return s

    def fail(self, what):
        if any(t[0] == 'hole' and t[1][0] in OPAQUE for t in self.p):
            undec('the script is not understood near %r' % self.near())
        bad('the script is not valid near %r: %s' % (self.near(), what))

    def word(self):
        self.peek()
        s = ''
        while self.i < len(self.p) and self.p[self.i][0] == 'c' and (self.p[self.i][1].isalnum() or self.p[self.i][1] in '_$.-'):
            s += self.p[self.i][1]
            self.i += 1
        return s

    def value(self):
        t = self.peek()
        if t[0] == 'c':
            c = t[1]
            if c == '{':
                self.i += 1
                return self.obj()
            if c == '[':
                self.i += 1
                return self.arr()
            if c in '`"\'':
                return self.lit()
            if c.isalnum() or c in '_-':
                w = self.word()
                if self.ch() in ('(', '+', '*', '/', '?', '<', '>', '=', '|', '&') or self.peek()[0] == 'hole':
                    undec('an expression near %r' % self.near())
                return ('word', w)
            if c in '(+!~':
                undec('an expression near %r' % self.near())
            self.fail('a value is expected')
        if t[0] == 'hole':
            self.i += 1
            return ('hole', t)
        if t[0] == 'rep' and t[2].kind in ('fwd', 'rev') and t[2].seq is not None and understood(t[2].seq) and t[2].seq[0] == 'fld' \
                and any(any(x == ('c', '{') for x in ps) for c, ps in t[3]):
            self.fail('no list is opened around the elements')
        if t[0] in ('rep', 'mixed'):
            undec('a repeated piece where a value is expected')
        self.fail('a value is missing')

    def lit(self):
        d = self.ch()
        self.i += 1
        out = []
        s = ''
        while self.i < len(self.p):
            t = self.p[self.i]
            self.i += 1
            if t[0] == 'c':
                if t[1] == '\\':
                    n = self.p[self.i] if self.i < len(self.p) else ('end',)
                    if n[0] != 'c':
                        self.fail('a backslash before a text')
                    s += t[1] + n[1]
                    self.i += 1
                    continue
                if t[1] == d:
                    if s:
                        out.append(('s', s))
                    return ('lit', d, out)
                if d == '`' and t[1] == '$' and self.i < len(self.p) and self.p[self.i] == ('c', '{'):
                    undec('an interpolation near %r' % self.near())
                if d != '`' and t[1] in '\r\n':
                    self.fail('the line ends inside a literal')
                s += t[1]
            elif t[0] == 'hole':
                if s:
                    out.append(('s', s))
                    s = ''
                out.append(t)
            elif t[0] == 'rep' and t[4] is None:
                if s:
                    out.append(('s', s))
                    s = ''
                out.append(('hole', ('repfn', t), None, ()))
            else:
                undec('a repeated piece inside a literal near %r' % self.near())
        self.fail('a literal does not end')

    def obj(self):
        d = {}
        while True:
            if self.eat('}'):
                return ('obj', d)
            t = self.peek()
            if t[0] == 'c' and t[1] in '`"\'':
                k = self.lit()
                if t[1] == '`':
                    self.fail('a template literal as a key')
                if any(x[0] != 's' for x in k[2]):
                    undec('a computed key')
                k = ''.join(x[1] for x in k[2])
            elif t[0] == 'c' and (t[1].isalnum() or t[1] in '_$'):
                k = self.word()
            elif t[0] == 'c' and t[1] in '[.':
                undec('a computed key near %r' % self.near())
            else:
                if t[0] in ('hole', 'rep', 'mixed'):
                    undec('a key is made of %s' % (fmt(t[1])[:80] if t[0] == 'hole' else 'repeated pieces'))
                self.fail('a key is expected')
            if not self.eat(':'):
                self.fail('a colon is expected after %s' % k)
            if k in d:
                undec('the key %s twice' % k)
            d[k] = self.value()
            if self.eat(','):
                continue
            if self.ch() == '}':
                continue
            if self.peek()[0] in ('hole', 'rep', 'mixed'):
                undec('%s is followed by %s' % (k, self.peek()[0]))
            self.fail('a comma or } is expected after %s' % k)

    def arr(self):
        out = []
        need = False            # a comma is due before the next element
        while True:
            t = self.peek()
            if t == ('c', ']'):
                self.i += 1
                return ('arr', out)
            if t == ('c', ','):
                self.i += 1
                if not need:
                    self.fail('a comma without an element')
                need = False
                continue
            if t[0] == 'rep':
                self.i += 1
                if need:
                    undec('elements before a repeated piece')
                out.append(self.rep(t))
                need = False if t[4] is None else True
                if t[4] is None:
                    # each element brings its comma or none does
                    need = out[-1][4]
                continue
            if t[0] == 'mixed':
                bad('at %s: some children get no element of their own' % t[1].where)
            if need:
                self.fail('two elements without a comma')
            out.append(('one', self.value()))
            need = True

    def rep(self, t):
        _, L, dom, cs, sep = t
        if sep is not None and sep.strip() != ',':
            self.fail('elements are joined with %r' % sep)
        res = []
        kinds = set()
        for c, ps in cs:
            if c.kind != 'cont':
                res.append((c, None, None))
                continue
            if not ps:
                res.append((c, (), None))
                continue
            j = JS(ps, self.w)
            lead = j.eat(',')
            vs = [j.value()]
            trail = j.eat(',')
            while j.peek()[0] != 'end' and trail:
                vs.append(j.value())
                trail = j.eat(',')
            if j.peek()[0] != 'end':
                j.fail('more than one value for a child')
            kinds.add((lead, trail))
            res.append((c, tuple(vs), (lead, trail)))
        if sep is not None:
            if any(a or b for a, b in kinds):
                self.fail('doubled commas between elements')
            return ('rep', L, dom, res, True)
        if kinds <= {(False, True)}:
            return ('rep', L, dom, res, False)
        if kinds == {(True, False)}:
            self.fail('a comma before the first element')
        if kinds == {(False, False)}:
            bad('at %s: the elements of two children follow each other without a comma' % L.where)
        if (True, True) in kinds:
            self.fail('doubled commas between elements')
        if kinds == {(False, False), (True, False)}:
            if all(first(c, L) is (k == (False, False)) for c, v, k in res if k is not None):
                return ('rep', L, dom, res, True)
            if any(first(c, L) is (k != (False, False)) for c, v, k in res if k is not None):
                bad('at %s: the comma is put before the first element and left out between the others' % L.where)
            for c, v, k in res:
                if k == (False, False) and first(c, L) is None and not any(occurs(a, lambda x: x[0] == 'lv') for a, w in conds(c.trace, IT[0], c.st)):
                    definite(IT[0], c.trace, c.st, 'at %s: no comma separates a child from the one before it, when %s' % (L.where, show_conds(c.trace)[:300]))
        if kinds == {(False, False), (False, True)}:
            bare = [c for c, v, k in res if k == (False, False)]
            if all(not lastdep(c, L) for c in bare):
                flag(IT[0], bare[0].trace, bare[0].st, 'at %s: a child is followed by no comma' % L.where, L)
        undec('at %s: commas depend on conditions' % L.where)


def first(c, L):
    """does the case cover the first iteration only (True), later ones only (False)?"""
    cf = c.facts(IT[0])
    ix = ixof(L)
    d = cf.dec(le(ix, Int(0)))
    if d is not None:
        return d
    for a, v in conds(c.trace, IT[0], c.st):
        # a flag or a text that only starts out like this
        neg = a[0] == 'not'
        g = a[1] if neg else a
        if g[0] == 'lv' and L.init.get(g, ('x',))[0] == 'bool':
            i = L.init[g][1]
            if all(u.get(g) == ('bool', not i) or (u.get(g) == g and Facts(s, IT[0]).dec(g) is (not i)) for t, u, s in L.conts):
                return (v != neg) == i
        if a[0] == 'ile' and len(a[1]) == 1 and a[1][0][0][0] == 'len' and a[1][0][0][1][0] == 'lv' and a[1][0][1] == 1:
            i = L.init.get(a[1][0][0][1])
            if i is not None and i[0] == 'str' and len(i[1]) == a[2]:
                return v
        if a[0] == 'eq' and a[1][0] == 'lv' and a[2] == L.init.get(a[1]) or a[0] == 'eq' and a[2][0] == 'lv' and a[1] == L.init.get(a[2]):
            return v
    return None


IT = [None]


def lastdep(c, L):
    """does the case depend on how far the loop is (first or last element)?"""
    n = 0
    for a, v in conds(c.trace, IT[0], c.st):
        if occurs(a, lambda x: x == ixof(L)) and a[0] != 'is':
            n += 1
    return n > 1


# ------------------------------------------------------------------ what is drawn
def drawn(it, ps, page, todo, notes):
    IT[0] = it
    if 'script' not in page:
        undec('the page is not understood')
    n = 0
    for p in ps:
        hits = []
        for v, fs, under, off in page['script']:
            if v not in page['ins'].get(p, {}):
                undec('%s is not given' % v)
            term = page['ins'][p][v][0]
            q = parts(it, p.st, p.trace, term)
            t = nv(it, p.st, term)
            if t == A(2) and not fs:
                bad('the given name is printed inside the script as it is')
            if q is None:
                undec('%s is %s' % (v, fmt(t)[:150]))
            hits.append((v, fs, under, off, q))
        if len(hits) != 1:
            undec('the script prints %d values' % len(hits))
        v, fs, under, off, q = hits[0]
        for f in fs:
            f = f[0] if isinstance(f, tuple) else f
            if f in LOSSY:
                bad('%s prints the script through the filter %s' % (page['file'], f))
            if f != 'safe':
                undec('the script is printed through the filter %s' % f)
        if page['escaped'] and 'safe' not in [f[0] if isinstance(f, tuple) else f for f in fs]:
            bad('%s prints the script HTML-escaped: texts are changed' % page['file'])
        for k, c in under:
            e = root(c)[0] if k == 'if' else None
            if k == 'if' and e == ('var', (v,)):
                continue
            (bad if k == 'if' else undec)('%s prints the script only under a condition' % page['file'])
        text = page['text']
        pre = text[:off]
        m = list(re.finditer(r'<script\b[^>]*>', pre, re.I))[-1]
        pre = pre[m.end():]
        post = text[off:]
        j = JS([('c', c) for c in pre if pre.strip()] + list(q) + [('c', c) for c in post[:post.find('\n')]], DRAW)
        kw = j.word()
        if kw not in ('const', 'let', 'var'):
            undec('the script begins with %r' % j.near())
        name = j.word()
        if not j.eat('='):
            j.fail('= is expected')
        val = j.value()
        j.eat(';')
        if not re.search(r'\b%s\b' % re.escape(name), post):
            bad('%s never uses %s' % (page['file'], name))
        node(it, p, val, A(1), todo, notes)
        n += 1
    return '%d ways' % n


def recursive(it, ps, pos, into, todo, notes):
    IT[0] = it
    n = 0
    for p in ps:
        if into is None:
            q = parts(it, p.st, p.trace, p.val)
        else:
            a = A(into)
            v = p.st.store.get(('H', a))
            if v is None:
                definite(it, p.trace, p.st, 'nothing is written for the node, when %s' % show_conds(p.trace)[:300])
            q = parts(it, p.st, p.trace, v)
            if q and q[0][0] == 'hole' and q[0][1] == a:
                q = q[1:]
            else:
                undec('the text so far is not kept')
        if q is None:
            undec('returns %s' % fmt(nv(it, p.st, p.val))[:150])
        j = JS(q, 'node')
        val = j.value()
        trail = j.eat(',')
        if j.peek()[0] != 'end' or trail:
            undec('more than one value')
        node(it, p, val, A(pos), todo, notes)
        n += 1
    if not n:
        undec('no way through')
    return '%d ways' % n


def flag(it, trace, st, msg, L=None):
    if L is not None:
        # how long the text has become is up to the tree
        own = {k for k, v in L.init.items() if v is not None and v[0] in ('str', 'cat')}
        if all(understood(subst(a, lambda x: ('sym', 'text') if x in own else None)) for a, v in conds(trace, it, st)):
            bad(msg + ', when ' + show_conds(trace)[:300])
    definite(it, trace, st, msg + ', when ' + show_conds(trace)[:300])


def text_is(it, st, trace, v, want, what, notes, guards):
    """the literal v holds exactly the text want"""
    if v[0] == 'hole':
        undec('%s is %s' % (what, fmt(v[1][1])[:100]))
    if v[0] != 'lit':
        flag(it, trace, st, '%s is not a text' % what)
    d, xs = v[1], v[2]
    hs = [x for x in xs if x[0] == 'hole']
    if len(xs) != 1 or len(hs) != 1:
        if not hs:
            flag(it, trace, st, '%s is the constant %r' % (what, ''.join(x[1] for x in xs)))
        for h in hs:
            note(it, h, d, notes, guards)
        undec('%s is made of several pieces' % what)
    b = note(it, hs[0], d, notes, guards)
    if b is not None and b != want:
        if understood(b):
            flag(it, trace, st, '%s is %s, expected %s' % (what, fmt(b)[:100], fmt(want)[:100]))
        undec('%s is %s' % (what, fmt(b)[:100]))


def numeric(t):
    return t[0] == 'disp' and t[1][0] == 'fld' and t[1][2] in ('rule_index', 'token_type', 'start', 'stop', 'token_index', 'line', 'column') or t[0] in ('int', 'disp') and t[1] and t[0] == 'int'


def note(it, h, d, notes, guards):
    _, t, st, trace = h
    if numeric(t):
        return t
    v = stays(it, st, trace, t, d, guards)
    if v[0] == 'ok':
        notes.append(('ok', fmt(v[1])[:120]))
        return v[1]
    if v[0] == 'bad':
        notes.append(('bad', (fmt(v[1])[:120], v[2])))
        return v[1]
    notes.append(('undec', (fmt(t)[:120], v[1])))
    return None


def others(it, d, keys, notes, guards):
    """every further text of the object must be escaped as well"""
    for k, v in d.items():
        if k in keys:
            continue
        walk(it, v, notes, guards)


def walk(it, v, notes, guards):
    if v[0] == 'lit':
        for x in v[2]:
            if x[0] == 'hole':
                note(it, x, v[1], notes, guards)
    elif v[0] == 'obj':
        for x in v[1].values():
            walk(it, x, notes, guards)
    elif v[0] == 'arr':
        for x in v[1]:
            if x[0] == 'one':
                walk(it, x[1], notes, guards)
            else:
                undec('a further list')
    elif v[0] == 'hole' and not numeric(v[1][1]) and not (v[1][1][0] == 'dbg'):
        undec('a further value is %s' % fmt(v[1][1])[:100])


def node(it, c, v, S, todo, notes):
    """v draws the rule node S; c has the facts"""
    st, trace = c.st, c.trace
    fa = Facts(st, it)
    guards = conds(trace, it, st)
    if v[0] == 'hole':
        t = v[1][1]
        if call_on(it, t, S, todo):
            return
        undec('a node is drawn as %s' % fmt(t)[:120])
    if v[0] != 'obj':
        flag(it, trace, st, 'a node is not drawn as an object')
    d = v[1]
    for k in ('name', 'children'):
        if k not in d:
            flag(it, trace, st, 'a node has no %s' % k)
    text_is(it, st, trace, d['name'], F(S, 'rule_name'), 'the name of a node', notes, guards)
    others(it, d, ('name', 'children'), notes, guards)
    kids = d['children']
    LIST = F(S, 'children')
    if kids[0] == 'hole':
        t = kids[1][1]
        undec('the children are %s' % fmt(t)[:120])
    if kids[0] != 'arr':
        flag(it, trace, st, 'the children are not a list')
    if len(kids[1]) != 1 or kids[1][0][0] != 'rep':
        n = len(kids[1])
        if all(x[0] == 'one' for x in kids[1]):
            if fa.dec(ieq(('len', LIST), Int(n))) is not True:
                flag(it, trace, st, 'a node is drawn with %d children' % n)
            if n:
                undec('children drawn one by one')
            return
        undec('the children are drawn in pieces')
    _, L, dom, cs, _s = kids[1][0]
    if dom.seq != LIST:
        (bad if dom.seq is not None and understood(dom.seq) else undec)('the children are drawn from %s' % (fmt(dom.seq)[:100] if dom.seq else dom.note))
    if dom.kind != 'fwd':
        (undec if dom.kind == 'other' else bad)('at %s: %s' % (L.where, dom.note or 'the children are not drawn in order'))
    E = dom.elem
    for k, vs, sep in cs:
        if k.kind != 'cont':
            flag(it, k.trace, k.st, 'at %s: stops drawing children' % L.where, L)
        kf = k.facts(it)
        if len(vs) != 1:
            flag(it, k.trace, k.st, 'at %s: a child is drawn %s' % (L.where, '%d times' % len(vs) if vs else 'not at all'), L)
        child(it, k, kf, vs[0], E, todo, notes, 'at %s: ' % L.where)


def child(it, k, kf, v, E, todo, notes, at):
    guards = conds(k.trace, it, k.st)
    V = [x for x in ('Terminal', 'Rule', 'Error') if kf.dec(('is', E, x)) is True]
    if v[0] == 'hole':
        t = v[1][1]
        C = ('fld', ('as', E, 'Rule'), '0')
        if call_on(it, t, C, todo):
            if V != ['Rule']:
                undec(at + 'which child is drawn is not known')
            return
        if t[0] == 'call' or t[0] == 'into':
            if call_on(it, t, E, todo, probe=True):
                undec(at + 'a child is drawn by %s' % fmt(t)[:120])
            args = (t[2] if t[0] == 'call' else t[1][2])
            if V == ['Rule'] and all(understood(strip(a)) for a in args if a[0] not in ('lv', 'hv')):
                flag(it, k.trace, k.st, at + 'a child is drawn as %s' % fmt(t)[:150])
        undec(at + 'a child is drawn as %s' % fmt(t)[:150])
    if len(V) != 1:
        undec(at + 'the kind of the child is not known')
    if v[0] != 'obj':
        flag(it, k.trace, k.st, at + 'a child is not drawn as an object')
    if V == ['Rule']:
        sub_ = Case('ret', k.trace, k.st)
        node(it, sub_, v, ('fld', ('as', E, 'Rule'), '0'), todo, notes)
        return
    d = v[1]
    S = F(('fld', ('as', E, V[0]), '0'), 'symbol')
    for x in ('name', 'text'):
        if x not in d:
            flag(it, k.trace, k.st, at + 'a %s is drawn without its %s' % (V[0].lower(), x))
    text_is(it, k.st, k.trace, d['name'], F(S, 'token_name'), at + 'the name of a %s' % V[0].lower(), notes, guards)
    text_is(it, k.st, k.trace, d['text'], F(S, 'text'), at + 'the text of a %s' % V[0].lower(), notes, guards)
    others(it, d, ('name', 'text'), notes, guards)


def call_on(it, t, S, todo, probe=False):
    """is t the text a call makes for (or adds for) the node S?"""
    into = None
    if t[0] == 'into':
        c = t[1]
        acc = t[2]
        args = c[2]
    elif t[0] == 'call':
        c = t
        args = t[2]
    else:
        return False
    pos = [i for i, a in enumerate(args) if nv(it, None, a) == S]
    if len(pos) != 1:
        return False
    if t[0] == 'into':
        oth = [i for i in range(len(args)) if i != pos[0]]
        if len(oth) != 1:
            return False
        into = oth[0]
    if c[1] not in it.fns:
        return False
    if not probe:
        todo.append((c[1], pos[0], into))
    return True
