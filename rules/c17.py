"""C17: loading a tree from JSON is faithful or an error, never a panic.

from_str and from_reader are summarised together with everything they call, the recursive
function once more on its own.  Every way that returns a node must have found an array of
children, an unsigned index and a string name in exactly the fields so called, return those,
and hold one child per array element, in order: a terminal made of the element's own type,
name and text (or a constant placeholder when there is no text) when it has no children, and
otherwise the node the recursive call gave for that element.  Every way that returns an error
must have found one of these missing or of another type, malformed JSON, or an erroneous
child.  No way may end in a panic.
"""
from lib import *
from fix import Stop, bad, undec, guard, definite

FLOOR = 1
ENTRIES = {'tool::serde_ast::from_str': 'serde_json::from_str', 'tool::serde_ast::from_reader': 'serde_json::from_reader'}


def run(r, src):
    todo, done = [], set()
    for f, parse in ENTRIES.items():
        it, ps = get_paths(r, src, f)
        if ps is None:
            continue
        no_panic(r, f, ps, it)
        guard(r, 'parses-the-input', f, lambda: entry(r, src, it, f, ps, parse, todo))
    while todo:
        f = todo.pop()
        if f in done or f in ENTRIES:
            continue
        done.add(f)
        if f not in src.d['fns']:
            r.undec('rule', f, 'not analysed')
            continue
        it, ps = get_paths(r, src, f)
        if ps is None:
            continue
        no_panic(r, f, ps, it)
        guard(r, 'faithful-or-error', f, lambda: rule(it, f, rets(ps), subject(src, f), todo))


def subject(src, f):
    return A(0)


def entry(r, src, it, f, ps, parse, todo):
    n = 0
    for p in rets(ps):
        calls = [e for e in toplevel(p.trace) if e[0] == 'call' and e[1].startswith('serde_json::')]
        if len(calls) != 1:
            if not calls:
                definite(it, p.trace, p.st, 'returns %s without parsing, when %s' % (fmt(nv(it, p.st, p.val))[:100], show_conds(p.trace)))
            if any('Deserializer' in c[1] and short(c[1]).startswith('from_') for c in calls) and any(short(c[1]) == 'deserialize' for c in calls) \
                    and not any(e[0] == 'call' and short(e[1]) in ('end', 'byte_offset', 'into_iter') for ctx, e in flat(p.trace)):
                bad('takes the first of several JSON texts: what follows it is not looked at')
            every = [e for ctx, e in flat(p.trace) if e[0] == 'call']
            if len([e for e in every if 'StreamDeserializer' in e[1]]) == 1 and not any(e[0] == 'loop' for e in toplevel(p.trace)[:toplevel(p.trace).index(calls[-1])]) \
                    and not any(e[1].endswith(('::end', '::byte_offset')) for e in every):
                bad('takes the first of several JSON texts: what follows it is not looked at')
            undec('%d calls of the JSON parser' % len(calls))
        c = calls[0]
        if c[1] not in ('serde_json::from_str', 'serde_json::from_reader', 'serde_json::from_slice'):
            undec('parses with %s' % c[1])
        a = nv(it, p.st, c[2][0])
        if a != A(0):
            cut = a[0] == 'call' and short(a[1]) in ('take', 'chain') and a[1].split('::')[-2:-1] == ['Read']
            cut = cut or a[0] in ('call', 'op') and short(a[1]) in ('trim_end_matches', 'trim_start_matches', 'trim_matches')
            (bad if understood(a) and a[0] != 'call' or cut else undec)('parses %s instead of the input' % fmt(a))
        R = nv(it, p.st, c[3])
        fa = Facts(p.st, it)
        okk = fa.dec(('is', R, 'Ok'))
        V = ('fld', ('as', R, 'Ok'), '0')
        v = nv(it, p.st, p.val)
        n += 1
        if okk is None:
            definite(it, p.trace, p.st, 'does not look at whether the text was JSON: returns %s' % fmt(v)[:120])
        if okk is False:
            if not is_err(v):
                definite(it, p.trace, p.st, 'malformed JSON gives %s' % fmt(v)[:120])
            continue
        one(it, f, p, V, todo)
    if not n:
        undec('no way through')
    return '%d ways' % n


def is_err(v):
    return v[0] == 'adt' and v[2] == 'Err'


def rule(it, f, ps, V, todo):
    n = 0
    for p in ps:
        one(it, f, p, V, todo)
        n += 1
    if not n:
        undec('no way through')
    return '%d ways' % n


def key(V, k):
    return ('jidx', V, ('str', k))


def not_object(fa, V):
    """V has no members at all"""
    return fa.dec(('is', V, 'Object')) is False or any(fa.dec(('is', V, x)) is True for x in ('Null', 'String', 'Array', 'Bool', 'Number'))


def typed(fa, V, k, kind):
    """does V[k] have the type?  True, False or None"""
    x = key(V, k)
    if not_object(fa, V) or fa.dec(('is', ('jget', V, ('str', k)), 'Some')) is False:
        return False
    d = fa.dec(('jnum', x, kind) if kind == 'u64' else ('is', x, kind))
    if d is None:
        for other in ('Null', 'String', 'Array', 'Object', 'Bool', 'Number'):
            if other != kind and not (kind == 'u64' and other == 'Number') and fa.dec(('is', x, other)) is True:
                return False
    return d


def null(fa, V, k):
    x = key(V, k)
    if not_object(fa, V) or fa.dec(('is', ('jget', V, ('str', k)), 'Some')) is False:
        return True
    d = fa.dec(('is', x, 'Null'))
    if d is None:
        for other in ('String', 'Array', 'Object', 'Bool', 'Number'):
            if fa.dec(('is', x, other)) is True:
                return False
    return d


NEED = (('children', 'Array'), ('rule_index', 'u64'), ('rule_name', 'String'))
TNEED = (('token_type', 'u64'), ('token_name', 'String'))


def value(V, k, kind):
    return ('jval', key(V, k), 'u64') if kind == 'u64' else ('fld', ('as', key(V, k), kind), '0')


def one(it, f, p, V, todo):
    """one way of reading the rule object V"""
    fa = Facts(p.st, it)
    v = nv(it, p.st, p.val)
    if v[0] == 'call' and len(v[2]) == 1 and v[2][0] == V:
        todo.append(v[1])
        return

    def flag(msg, *ts):
        if all(understood(t) for t in ts):
            definite(it, p.trace, p.st, msg + ', when ' + show_conds(p.trace))
        undec(msg)
    have = {k: typed(fa, V, k, kind) for k, kind in NEED}
    loops = [e[1] for e in p.trace if e[0] == 'loop']
    if v[0] != 'adt' or v[2] not in ('Ok', 'Err'):
        undec('returns %s' % fmt(v)[:200])
    if v[2] == 'Err':
        if False in have.values():
            return
        e = dict(v[3]).get('0')
        # an error that a recursive call on the whole object gave
        for L in loops:
            if child_error(it, p, fa, V, L, todo):
                return
        if failed_call(it, p.trace, p.st, fa, V, todo):
            return
        flag('a well-formed object gives an error')
        return
    for k, kind in NEED:
        if have[k] is None:
            flag('a node is made without looking whether %s is there and of type %s' % (k, kind))
        if have[k] is False:
            flag('a node is made although %s is missing or of another type' % k)
    N = dict(v[3])['0']
    if N[0] == 'fld' and N[1][0] == 'as' and N[1][2] == 'Ok' and N[1][1][0] == 'call' and N[1][1][2] == (V,):
        todo.append(N[1][1][1])
        return
    if N[0] != 'adt':
        undec('the node is %s' % fmt(N)[:200])
    d = dict(N[3])
    for k, kind in NEED[1:]:
        if d[k] != value(V, k, kind):
            flag('%s is %s' % (k, fmt(d[k])[:150]), d[k])
    kids = content(it, p.st, p.trace, dict(dict(raw(it, p)[3])['0'][3])['children'] if raw(it, p) else d['children'])
    if kids is None:
        undec('the children are %s' % fmt(d['children'])[:200])
    LIST = value(V, 'children', 'Array')
    fors = [x for x in kids.items if x[0] == 'for']
    if len(fors) != 1 or len(kids.items) != 1:
        if not kids.items or all(x[0] == 'item' for x in kids.items):
            n = len(kids.items)
            if fa.dec(ieq(('len', LIST), Int(n))) is not True:
                flag('a node has %d children whatever the array holds' % n)
        undec('the children are not made by one loop')
    L, dom, cs = fors[0][1], fors[0][2], fors[0][3]
    if dom.seq != LIST:
        (bad if dom.seq is not None and understood(dom.seq) else undec)('the children are made from %s' % (fmt(dom.seq) if dom.seq else dom.note))
    if dom.kind != 'fwd':
        (undec if dom.kind == 'other' else bad)('at %s: %s' % (L.where, dom.note or 'the children are not read in order'))
    for c, seq in cs:
        if c.kind == 'panic':
            continue
        cf = c.facts(it)
        C = dom.elem
        if c.kind == 'exit':
            # only an error may end the loop early; whether the error is returned is looked at on the way that takes it
            reason = error_reason(it, c, cf, C, todo)
            if reason is None:
                definite(it, c.trace, c.st, 'at %s: stops reading children, when %s' % (L.where, show_conds(c.trace)))
            if path_takes(it, p, c):
                bad('at %s: an erroneous child (%s) ends the loop but the node is returned' % (L.where, reason))
            continue
        child(it, c, seq, C, cf, L, todo)


def raw(it, p):
    v = it.deep(p.st, p.val)
    return v if v[0] == 'adt' else None


def path_takes(it, p, c):
    """does the way p leave the loop by the exit c?"""
    n = len(c.trace)
    for i in range(len(p.trace)):
        if n and tuple(p.trace[i:i + n]) == tuple(c.trace):
            return True
    return False


def failed_call(it, trace, st, fa, V, todo):
    for e in trace:
        if e[0] == 'call' and len(e[2]) == 1 and nv(it, st, e[2][0]) == V and fa.dec(('is', nv(it, st, e[3]), 'Ok')) is False:
            todo.append(e[1])
            return True
    return False


def error_reason(it, c, cf, C, todo):
    nl = null(cf, C, 'children')
    if nl is not True:
        if failed_call(it, c.trace, c.st, cf, C, todo):
            return 'an erroneous rule'
        for k, kind in NEED:
            if nl is False and typed(cf, C, k, kind) is False:
                return 'no %s' % k
    if nl is not False:
        for k, kind in TNEED:
            if typed(cf, C, k, kind) is False:
                return 'no %s' % k
    return None


def child_error(it, p, fa, V, L, todo):
    dom = loop_dom(it, L)
    if dom.elem is None:
        undec('at %s: the loop is not understood' % L.where)
    for c in cases(it, L):
        if c.kind == 'exit' and path_takes(it, p, c):
            return error_reason(it, c, c.facts(it), dom.elem, todo) is not None
    return False


def child(it, c, seq, C, cf, L, todo):
    at = 'at %s: ' % L.where

    def flag(msg, *ts):
        if all(understood(t) for t in ts):
            definite(it, c.trace, c.st, at + msg + ', when ' + show_conds(c.trace))
        undec(at + msg)
    d = loop_dom(it, L)
    if d.kind == 'fwd' and any(x[0] == 'other' and x[1][1] == 'insert_at' and nv(it, c.st, x[1][3][0]) == Int(0) for x in seq.items):
        flag('a child is put in front of those before it')
    if any(x[0] != 'item' or x[2] != 'push' for x in seq.items):
        undec(at + 'children are not simply appended')
    if len(seq.items) != 1:
        flag('an element gives %d children' % len(seq.items))
    x = nv(it, c.st, seq.items[0][1])
    nl = null(cf, C, 'children')
    if x[0] != 'adt' or short(x[1]) != 'ASTContext':
        undec(at + 'the child is %s' % fmt(x)[:150])
    y = dict(x[3])['0']
    if x[2] == 'Rule':
        if nl is True:
            flag('an element without children becomes a node')
        if y[0] == 'fld' and y[1][0] == 'as' and y[1][2] == 'Ok' and y[1][1][0] == 'call':
            K = y[1][1]
            if K[2] != (C,):
                flag('the child is read from %s' % fmt(K[2])[:150], *K[2])
            todo.append(K[1])
            return
        undec(at + 'the child is %s' % fmt(y)[:150])
    if x[2] == 'Error':
        flag('an element becomes an error node')
    if nl is not True:
        flag('an element with children becomes a terminal' if nl is False else 'an element becomes a terminal whether or not it has children')
    S = y
    if S[0] == 'adt':
        S = dict(S[3]).get('symbol', S)
    if S[0] != 'adt':
        undec(at + 'the token is %s' % fmt(S)[:150])
    d = dict(S[3])
    for k, kind in TNEED:
        h = typed(cf, C, k, kind)
        if h is not True:
            flag('a token is made %s' % ('although %s is missing or of another type' % k if h is False else 'without looking whether %s is there and of type %s' % (k, kind)))
        if d[k] != value(C, k, kind):
            flag('%s is %s' % (k, fmt(d[k])[:150]), d[k])
    h = typed(cf, C, 'text', 'String')
    if h is True:
        if d['text'] != value(C, 'text', 'String'):
            flag('the text is %s' % fmt(d['text'])[:150], d['text'])
    elif h is False:
        if d['text'][0] != 'str':
            flag('without a text the text is %s' % fmt(d['text'])[:150], d['text'])
    else:
        if d['text'] != value(C, 'text', 'String') and d['text'][0] not in ('ite', 'lv'):
            flag('the text is %s whether or not there is one' % fmt(d['text'])[:150], d['text'])
        undec(at + 'the text is %s' % fmt(d['text'])[:150])
