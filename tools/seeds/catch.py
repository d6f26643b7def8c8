"""Runs checks on patched copies of the repository: catch.py [-p PROPERTY]... [bug]..."""
import json, os, queue, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
S = ROOT + '/seeded'
args = sys.argv[1:]
props = []
N = 3
while args and args[0] in ('-p', '-n', '-d'):
    if args[0] == '-p': props.append(args[1])
    elif args[0] == '-d': S = args[1]
    else: N = int(args[1])
    args = args[2:]
bugs = args or sorted(os.listdir(S))
q = queue.Queue()
for i in range(N): q.put(i)
def one(b):
    w = q.get()
    try:
        repo, build, ev = f'/tmp/seeds/r{w}', f'/tmp/seeds/b{w}', f'/tmp/seeds/e{w}'
        if not os.path.exists(repo): subprocess.run(['cp', '-a', '/repo', repo])
        if not os.path.exists(build): subprocess.run(['cp', '-a', os.environ.get('OPENTYPE_BUILD', ROOT + '/build'), build])
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        r = subprocess.run(['git', '-C', repo, 'apply', f'{S}/{b}/patch.diff'], capture_output=True, text=True)
        if r.returncode: return b, '', 'apply ' + r.stderr[:200]
        out = []
        for p in props or [json.load(open(f'{S}/{b}/meta.json'))['property']]:
            t = time.time()
            r = subprocess.run(['python3', ROOT + '/check.py', p, 'quick'], capture_output=True, text=True, cwd=ROOT,
                               env=dict(os.environ, OPENTYPE_REPO=repo, OPENTYPE_BUILD=build, OPENTYPE_EVIDENCE=ev))
            ev_ = json.load(open(f'{ev}/{p}.json'))['coverage'] if os.path.exists(f'{ev}/{p}.json') else {}
            und = {k: v for c in ev_.get('configurations', []) for k, v in c['undischarged'].items()}
            obl = [l for l in r.stdout.split('\n') if l.startswith('failed obligation')]
            out.append((p, r.returncode, round(time.time() - t), (r.stdout.strip().split('\n') or [''])[-1][-90:], [o[:170] for o in obl[:2]], {k: v[:100] for k, v in list(und.items())[:3]}, r.stderr[-500:], [n[:300] for n in ev_.get('notes', [])]))
        return b, out
    finally:
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        q.put(w)
with ThreadPoolExecutor(N) as ex:
    for x in ex.map(one, bugs):
        print(x[0], flush=True)
        for o in x[1] or [x[2]]: print('   ', *([o] if isinstance(o, str) else o), flush=True)
