import json,sys
sys.setrecursionlimit(10000)
from interp import *
d=json.load(open('/tmp/dump/syntaxis-Rlib.json'))
it=Interp(d)
for f in it.fns:
    if f.endswith(sys.argv[1]):
        print('==',f)
        for p in analyse(it,f):
            print(' PATH',p.kind, (show(it.deep(p.st,p.val)) if p.kind=='ret' else p.val))
            print('\n'.join('    '+x for x in show_trace(p.trace)))
            for c,v in p.st.store.items():
                if c[0]=='H': print('    final',show(c[1]),'=',show(v))
print(it.unknown)
