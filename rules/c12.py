"""C12: the LL(1) parser's tree is the derivation of the tokens it consumed.

For both table-driven parsers: the recursive descent behind parse() is analysed with
symbolic cursor and rule.  It must look up (rule, type of the token at the cursor), build a
node with that rule's id and name, and in one pass over the production's symbols: for a rule
recurse at the current cursor, continue at the cursor it gives back, and add its node, or,
exactly when the rule has no name, all its children in order; for a terminal add the token
at the cursor as one leaf and step one token on, printing whenever the types differ.
By induction the leaves are the consumed tokens in order.
"""
from lib import *
from fix import Stop, bad, undec, guard, definite

FAMS = {
    'tool::parser::ll1_parser::LL1Parser::': (('grammar', 'vocabulary'), ('tokens', 'table', 'grammar')),
    'tool::v1::syntaxis_parser::SyntaxisParser::': (('vocabulary',), ('tokens', 'table', 'vocabulary')),
}
FLOOR = 2
CASE = ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim')


def run(r, src):
    for pre, (vp, fields) in FAMS.items():
        constructor(r, src, pre, fields)
        parser(r, src, pre, vp)


def constructor(r, src, pre, fields):
    name = pre + 'new'
    it, ps = get_paths(r, src, name)
    for p in ps or []:
        v = nv(it, p.st, p.val) if p.kind == 'ret' else ('panic',)
        if v[0] != 'adt':
            r.undec('constructor', name, 'returns %s' % fmt(v))
            continue
        d = dict(v[3])
        for i, f in enumerate(fields):
            if d.get(f) != A(i):
                (r.bad if d.get(f) is not None and understood(d[f]) else r.undec)('constructor', name, 'field %s becomes %s' % (f, fmt(d.get(f))))
                break
        else:
            r.ok('constructor', name, 'keeps %s' % ', '.join(fields))


def parser(r, src, pre, vp):
    name = pre + 'parse'
    it, ps = get_paths(r, src, name)
    if ps is None:
        return
    rec = None
    for p in ps:
        for ctx, e in flat(p.trace):
            if e[0] == 'call' and len(e) > 5 and e[5] is not None:
                rec = e[1]
    if rec is None:
        r.undec('descent', name, 'no recursive descent found')
        return
    it, ps = get_paths(r, src, rec)
    if ps is None:
        return
    body = src.d['fns'][rec]['body']
    n = body['argc']
    VOC = F(A(0), *vp)
    TB, TK = F(A(0), 'table'), F(A(0), 'tokens')
    roles = None
    for p in ps:
        for a, v in conds(toplevel(p.trace), it, p.st):
            if a[0] == 'contains' and a[1] == TB:
                roles = roles or find_roles(a[2], TK, n)
    if roles is None:
        if any(a[0] == 'contains' and a[1] == TB and understood(a[2]) for p in ps for a, v in conds(toplevel(p.trace), it, p.st)):
            r.bad('lookup', rec, 'the table is not consulted for (rule, type of the token at the cursor)')
        else:
            r.undec('lookup', rec, 'the table lookup is not understood')
        return
    cur, rule = roles
    r.ok('lookup', rec, 'production = table[(a%d, tokens[a%d].token_type)]' % (rule, cur))
    # start
    it2, ps2 = get_paths(r, src, name, (rec,))
    for p in rets(ps2 or []):
        calls = [e for e in p.trace if e[0] == 'call' and e[1] == rec]
        if len(calls) != 1:
            r.undec('start', name, '%d calls' % len(calls))
            continue
        args = [nv(it2, p.st, x) for x in calls[0][2]]
        v = cstrip(nv(it2, p.st, p.val))
        if args[cur] != Int(0) or args[rule] != Int(0):
            (r.bad if understood(args[cur]) and understood(args[rule]) else r.undec)('start', name, 'starts at token %s with rule %s' % (fmt(args[cur]), fmt(args[rule])))
        elif v[0] == 'fld' and v[2] == '0' and v[1][0] == 'call':
            r.ok('start', name, 'starts at the first token with the start rule and hands out the tree')
        else:
            r.undec('start', name, 'returns %s' % fmt(v))
    guard(r, 'derivation', rec, lambda: derivation(it, rets(ps), rec, cur, rule, VOC, TB, TK))


def find_roles(key, TK, n):
    if key[0] != 'tup' or len(key[1]) != 2:
        return None
    a, b = key[1]
    for j in range(1, n):
        for i in range(1, n):
            if i != j and a == A(i) and b == F(('elem', TK, A(j)), 'token_type'):
                return j, i
    return None


def derivation(it, rs, rec, cur, rule, VOC, TB, TK):
    names = view('ni2n', VOC)
    n = 0
    for p in rs:
        v = nv(it, p.st, p.val)
        if v[0] != 'tup' or len(v[1]) != 2 or v[1][0][0] != 'adt':
            undec('returns %s' % fmt(v))
        node, fin = v[1]
        d = dict(node[3])
        f = Facts(p.st, it)
        key = ('tup', (A(rule), F(('elem', TK, A(cur)), 'token_type')))
        P = ('mval', TB, key)
        # an entry found under (rule, token) is a production of that rule (C11)
        for k in ('rule_index', 'rule_name'):
            d[k] = subst(d[k], lambda t: A(rule) if t == F(P, 'left') else None)
        if d['rule_index'] != A(rule):
            definite(it, p.trace, p.st, 'the node carries rule %s' % fmt(d['rule_index']))
        named = f.dec(('contains', names, A(rule)))
        if named is None:
            named = f.dec(('contains', names, F(P, 'left')))
        want = [('mval', names, A(rule))] if named is True else [('disp', A(rule)), A(rule)] if named is False else []
        if d['rule_name'] not in want:
            if named is None and d['rule_name'][0] == 'call' and short(d['rule_name'][1]) in CASE and understood(d['rule_name']) and all(understood(a) for a, v in conds(p.trace, it, p.st)):
                bad('the node is called %s' % fmt(d['rule_name']))
            if named is None and d['rule_name'][0] == 'call':
                undec('the name is %s' % fmt(d['rule_name']))
            definite(it, p.trace, p.st, 'the node is called %s' % fmt(d['rule_name']))
        if f.dec(('contains', TB, key)) is not True:
            definite(it, p.trace, p.st, 'goes on without a table entry, when %s' % show_conds(p.trace))
        KIDS = d['children']
        loops = [e[1] for e in toplevel(p.trace) if e[0] == 'loop']
        if KIDS[0] != 'new' or (KIDS[3] is not None and KIDS[3] != ('empty',)):
            undec('children are %s' % fmt(KIDS))
        if any(e[0] == 'mut' and nv(it, p.st, e[2]) == KIDS for e in toplevel(p.trace)):
            definite(it, p.trace, p.st, 'children are changed besides the loop over the symbols')
        if len(loops) != 1:
            if not loops and f.dec(ieq(('len', F(P, 'right')), Int(0))) is True and fin == A(cur):
                continue
            if not loops:
                definite(it, p.trace, p.st, 'the symbols of the production are not processed, when %s' % show_conds(p.trace))
            undec('%d loops' % len(loops))
        L = loops[0]
        dom = loop_dom(it, L)
        if dom.seq != F(P, 'right'):
            (bad if dom.seq is not None and understood(dom.seq) and dom.kind != 'other' else undec)('the loop at %s is over %s' % (L.where, fmt(dom.seq) if dom.seq else dom.note))
        if dom.kind != 'fwd':
            (undec if dom.kind == 'other' else bad)('at %s: the symbols are not processed from the first to the last' % L.where)
        # the cursor variable
        cands = [lv for lv, i in L.init.items() if i is not None and nv(it, p.st, i) == A(cur)]
        if fin not in cands:
            if fin == A(cur) and not cands:
                bad('the cursor never moves')
            (bad if understood(fin) else undec)('hands back cursor %s' % fmt(fin))
        C = fin
        for c in cases(it, L):
            if c.kind == 'panic':
                continue
            symbol(it, L, c, dom.elem, C, rec, cur, rule, KIDS, names, TK)
            n += 1
    return '%d ways through the treatment of one symbol' % n


def gu(it, c, C):
    """guards understood, the cursor itself aside"""
    for a, v in conds(c.trace, it, c.st):
        if not understood(subst(a, lambda t: ('sym', 'cursor') if t == C else None)):
            return False
    return True


def symbol(it, L, c, E, C, rec, cur, rule, KIDS, names, TK):
    f = c.facts(it)

    def flag(msg, *terms):
        okk = gu(it, c, C) and all(understood(subst(t, lambda q: ('sym', 'cursor') if q == C else None)) for t in terms)
        (bad if okk else undec)('at %s: %s, when %s' % (L.where, msg, show_conds(c.trace)))
    if c.kind == 'exit':
        flag('the remaining symbols are dropped')
    isnt = f.dec(('is', E, 'NonTerminal'))
    adds = []
    for e in toplevel(c.trace):
        if e[0] == 'mut' and nv(it, c.st, e[2]) == KIDS:
            if e[1] != 'push':
                flag('children are changed by %s' % e[1])
            adds.append(('one', nv(it, c.st, e[3][0])))
        elif e[0] == 'loop':
            Q = e[1]
            if not any(touches(it, t, KIDS) for t, u, s in Q.conts):
                continue
            d = loop_dom(it, Q)
            cs = [k for k in cases(it, Q) if k.kind != 'panic']
            mss = [[x for x in k.trace if x[0] == 'mut' and nv(it, k.st, x[2]) == KIDS] for k in cs]
            if d.elem is not None and cs and all(len(ms) == 1 and ms[0][1] == 'insert_at' and nv(it, k.st, ms[0][3][0]) == Int(0) for k, ms in zip(cs, mss)):
                flag('the children of a helper rule are put in front of what is already there')
            for k in cs:
                ms = [x for x in k.trace if x[0] == 'mut' and nv(it, k.st, x[2]) == KIDS]
                if k.kind != 'cont' or len(ms) != 1 or ms[0][1] != 'push' or nv(it, k.st, ms[0][3][0]) != d.elem:
                    if d.elem is not None and (k.kind == 'exit' or not ms) and gu(it, k, C):
                        flag('not all children of a helper rule are taken over')
                    undec('the loop at %s is not understood' % Q.where)
            adds.append(('all', d.seq, d.kind))
    upd = nv(it, c.st, c.upd.get(C, C))
    if isnt is None:
        flag('the kind of the symbol is not looked at')
    if isnt:
        ID = ('fld', ('as', E, 'NonTerminal'), '0')
        calls = [e for e in toplevel(c.trace) if e[0] == 'call' and e[1] == rec]
        if len(calls) != 1:
            flag('%d descents for one rule' % len(calls))
        args = [nv(it, c.st, x) for x in calls[0][2]]
        if args[cur] != C:
            flag('descends at token %s' % fmt(args[cur]), args[cur])
        if args[rule] != ID:
            flag('descends into rule %s' % fmt(args[rule]), args[rule])
        R = nv(it, c.st, calls[0][3])
        if upd != F(R, '1'):
            flag('continues at %s instead of behind what the rule consumed' % fmt(upd), upd)
        named = f.dec(('contains', names, ID))
        if named is None:
            flag('whether the rule has a name is not looked at')
        if named:
            if adds != [('one', ('adt', 'ASTContext', 'Rule', (('0', F(R, '0')),)))]:
                flag('a named rule does not become one child: %s' % fmt([a[1] for a in adds]), *[a[1] for a in adds if a[1]])
        else:
            if adds != [('all', F(F(R, '0'), 'children'), 'fwd')]:
                if adds and adds[0][0] == 'all' and adds[0][2] == 'other':
                    undec('how the children of a helper rule are taken over is not understood')
                flag('the children of a helper rule are not taken over, all and in order: %s' % fmt([a[1] for a in adds if a[1]]), *[a[1] for a in adds if a[1]])
    else:
        TT = ('fld', ('as', E, 'Terminal'), '0')
        tok = ('elem', TK, C)
        if upd != add(C, Int(1)):
            flag('continues at %s instead of the next token' % fmt(upd), upd)
        leaf = lambda k, t: ('adt', 'ASTContext', k, (('0', ('adt', t, t, (('symbol', tok),))),))
        same = f.dec(ieq(TT, F(tok, 'token_type')))
        okl = [leaf('Terminal', 'TerminalContext')]
        if same is False:
            okl.append(leaf('Error', 'ErrorContext'))
        got = [a[1] for a in adds]
        if len(adds) != 1 or adds[0][0] != 'one' or not any(eqadt(got[0], x) for x in okl):
            flag('a consumed token does not become one leaf: %s' % fmt(got), *[g for g in got if g])
        if same is not True and not any(e[0] in ('print', 'eprint') for e in c.trace):
            flag('a token of another type than the production asks for is taken without a report')


def eqadt(a, b):
    if a == b:
        return True
    if a[0] != 'adt' or b[0] != 'adt' or a[1] != b[1] or (a[1] == 'ASTContext' and a[2] != b[2]) or len(a[3]) != len(b[3]):
        return False
    return all(eqadt(x[1], y[1]) and x[0] == y[0] for x, y in zip(a[3], b[3]))
