"""rx.ask(requests): questions about patterns, answered by /verif/rx (built on first use)"""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tool():
    d = os.path.join(V, 'rx')
    exe = os.path.join(d, 'target', 'release', 'rx')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(d + '/src/main.rs'):
        os.makedirs(os.path.join(V, '.cache'), exist_ok=True)
        subprocess.run(['flock', os.path.join(V, '.cache', 'lock'), 'cargo', 'build', '--release', '--offline', '-q'], cwd=d, check=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, 'target')))
    return exe


def ask(reqs):
    p = subprocess.run([tool()], input=json.dumps(reqs), stdout=subprocess.PIPE, text=True, check=True)
    return json.loads(p.stdout)
