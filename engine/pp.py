"""Pretty printer for dumped MIR (debug aid)."""
import json, sys
def place(p):
    s = '_%d' % p['l']
    for e in p['p']:
        if e[0] == 'deref': s = '(*%s)' % s
        elif e[0] == 'field': s += '.' + e[1]
        elif e[0] == 'downcast': s = '(%s as %s)' % (s, e[1])
        elif e[0] == 'index': s += '[_%d]' % e[1]
        else: s += str(e)
    return s
def const(c):
    if c['k'] == 'fn':
        v = c['v']; return 'fn:' + (v['res'] or v['def']) + ('{L}' if v['reslocal'] else '') + (' <%s>' % ','.join(v['targs']))
    return '%s:%r%s' % (c['k'], c['v'], (' item=' + c['item']) if 'item' in c else '')
def op(o):
    if o['o'] == 'const': return const(o['c'])
    return ('' if o['o'] == 'copy' else 'move ') + place(o['pl'])
def rv(r):
    k = r['r']
    if k == 'use': return op(r['a'])
    if k == 'ref': return ('&mut ' if r['mut'] else '&') + place(r['pl'])
    if k == 'cast': return '%s as[%s] %s' % (op(r['a']), r['kind'], r['to'])
    if k == 'bin': return '%s(%s, %s)' % (r['op'], op(r['a']), op(r['b']))
    if k == 'un': return '%s(%s)' % (r['op'], op(r['a']))
    if k == 'discr': return 'discr(%s) %s' % (place(r['pl']), r['variants'])
    if k == 'agg': return '%s %s %s (%s)' % (r['kind'], r.get('adt', r.get('def', '')), r.get('variant', ''), ', '.join(op(a) for a in r['a']))
    return json.dumps(r)
def body(b, out=sys.stdout):
    for i, l in enumerate(b['locals']):
        if l['name'] or i <= b['argc']: print('  let _%d: %s  // %s' % (i, l['ty'], l['name']), file=out)
    for i, bl in enumerate(b['blocks']):
        if bl['cleanup']: continue
        print(' bb%d: // %s' % (i, bl['sp']), file=out)
        for s in bl['st']:
            if s['s'] == 'assign': print('   %s = %s' % (place(s['pl']), rv(s['rv'])), file=out)
            else: print('   ', s, file=out)
        t = bl['te']; k = t['t']
        if k == 'goto': x = 'goto %d' % t['to']
        elif k == 'switch': x = 'switch %s %s else %d' % (op(t['d']), t['vals'], t['other'])
        elif k == 'call': x = '%s = %s(%s) -> %s' % (place(t['dest']), op(t['f']), ', '.join(op(a) for a in t['args']), t['to'])
        elif k == 'drop': x = 'drop %s -> %d' % (place(t['pl']), t['to'])
        elif k == 'assert': x = 'assert %s == %s (%s) -> %d' % (op(t['cond']), t['exp'], t['kind'], t['to'])
        else: x = json.dumps(t)
        print('   ' + x, file=out)
if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for f in d['fns']:
        if sys.argv[2] in f:
            print('fn', f, d['fns'][f]['vis']); body(d['fns'][f]['body'])
            for i, p in enumerate(d['fns'][f]['promoted']): print('  promoted', i); body(p)
