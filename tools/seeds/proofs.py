"""Runs only the verifier on patched copies: proofs.py [-d DIR] [-c CONFIG] [id]..."""
import os, queue, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
S, C = '/tmp/seeds/refs', 'default'
args = sys.argv[1:]
while args and args[0] in ('-d', '-c'):
    if args[0] == '-d': S = args[1]
    else: C = args[1]
    args = args[2:]
ids = args or sorted(os.listdir(S))
N = 2
q = queue.Queue()
for i in range(N): q.put(i)
def one(b):
    w = q.get()
    try:
        repo, build = f'/tmp/seeds/p{w}', f'/tmp/seeds/pb{w}'
        if not os.path.exists(repo): subprocess.run(['cp', '-a', '/repo', repo])
        if not os.path.exists(build): subprocess.run(['cp', '-a', ROOT + '/build', build])
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        r = subprocess.run(['git', '-C', repo, 'apply', f'{S}/{b}/patch.diff'], capture_output=True, text=True)
        if r.returncode: return b, 'apply ' + r.stderr
        r = subprocess.run(['python3', ROOT + '/tools/verify.py', C], capture_output=True, text=True, env=dict(os.environ, OPENTYPE_REPO=repo, OPENTYPE_BUILD=build))
        return b, "\n".join(l[:400] for l in r.stdout.split("\n") if l and l[0] not in "[d" or l.startswith("default"))[:3000] + r.stderr[-600:]
    finally:
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        q.put(w)
with ThreadPoolExecutor(N) as ex:
    for b, t in ex.map(one, ids): print('==', b, t, flush=True)
