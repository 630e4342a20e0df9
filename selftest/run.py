"""selftest: apply each edit of selftest/*.mut to a scratch copy of /repo and run the rules on it.

Format of a .mut file: blocks
  === id | PROP[,PROP] | bug|same
  --- path
  <<<<
  old text
  ====
  new text
  >>>>
`bug`: every listed property must report a violation; `same`: the listed properties
(or all, with `*`) must stay quiet.   usage: run.py [substring ...]
VERIF_W is the scratch folder; SHARD=k/n takes every n-th edit from the k-th on (one VERIF_W per shard).
"""
import sys, os, re, json, shutil, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('VERIF_W', '/tmp/selftest')
ALL = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(V + '/rules/c[0-9][0-9].py'))]


def parse():
    out = []
    for f in sorted(glob.glob(V + '/selftest/*.mut')):
        cur = None
        lines = open(f).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('=== '):
                a = [x.strip() for x in l[4:].split('|')]
                cur = {'id': a[0], 'props': a[1].split(','), 'kind': a[2], 'edits': [], 'file': f}
                out.append(cur)
            elif l.startswith('--- '):
                path = l[4:].strip()
            elif l == '<<<<':
                old = []
                i += 1
                while lines[i] != '====':
                    old.append(lines[i]); i += 1
                new = []
                i += 1
                while lines[i] != '>>>>':
                    new.append(lines[i]); i += 1
                cur['edits'].append((path, '\n'.join(old), '\n'.join(new)))
            i += 1
    return out


def main():
    sel = sys.argv[1:]
    ms = [m for m in parse() if not sel or any(s in m['id'] or s in m['props'] or s == m['kind'] for s in sel)]
    if os.environ.get('SHARD'):
        k, n = map(int, os.environ['SHARD'].split('/'))
        ms = ms[k::n]
    os.makedirs(W, exist_ok=True)
    repo = W + '/repo'
    if os.path.exists(repo):
        shutil.rmtree(repo)
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=W + '/cache')
    res = []
    for m in ms:
        okk = True
        for path, old, new in m['edits']:
            p = os.path.join(repo, path)
            s = open(p).read()
            if old not in s:
                print('??? %s: old text not found in %s: %r' % (m['id'], path, old[:80])); okk = False; break
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        if okk:
            d = subprocess.run(['bash', V + '/engine/dump.sh', W + '/dump'], env=env, capture_output=True, text=True)
            if d.returncode:
                print('!!! %s does not build\n%s' % (m['id'], d.stderr[-1500:]))
            else:
                props = ALL if m['props'] == ['*'] else m['props']
                if os.environ.get('VERIF_ONLY'):
                    props = [p for p in props if p in os.environ['VERIF_ONLY'].split(',')]
                for pr in props:
                    q = subprocess.run(['python3', V + '/rules/main.py', pr, 'quick', W + '/dump'], env=env, capture_output=True, text=True)
                    v = 'VIOLATION' in q.stdout
                    und = 'undecided: [' in q.stdout
                    good = (v == (m['kind'] == 'bug'))
                    tag = 'ok  ' if good else ('MISS' if m['kind'] == 'bug' else 'FALSE')
                    if q.returncode not in (0, 1):
                        tag = 'CRASH'
                    if not (m['props'] == ['*'] and good and not und):
                        print('%s %-28s %s %s%s' % (tag, m['id'], pr, m['kind'], ' (undecided)' if und else ''))
                    if not good or (os.environ.get('SHOW') ):
                        print('\n'.join('      ' + l[:int(os.environ.get('W', 400))] for l in (q.stdout + q.stderr[-800:]).split('\n') if l.strip()))
                    elif und and m['kind'] == 'same':
                        print('\n'.join('      ' + l[:200] for l in q.stdout.split('\n') if 'undecided: [' in l))
                    sys.stdout.flush()
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    shutil.rmtree(repo)


main()
