"""What the harness alone finds of planted bugs, without a proof that points anywhere: alone.py [-d DIR] [bug]..."""
import json, os, queue, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = ROOT + '/seeded'
args = sys.argv[1:]
if args and args[0] == '-d': S, args = args[1], args[2:]
N = 2
q = queue.Queue()
for i in range(N): q.put(i)
def one(b):
    i = q.get()
    w, build = f'/tmp/seeds/m{i}', f'/tmp/seeds/mb{i}'
    try:
        if not os.path.exists(w): subprocess.run(['cp', '-a', '/repo', w])
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'])
        subprocess.run(['git', '-C', w, 'apply', f'{S}/{b}/patch.diff'], check=True)
        code = f'''
import sys; sys.path.insert(0, {ROOT + "/tools"!r}); sys.path.insert(0, {ROOT!r})
import harness, check, json, time, pipeline
c = check.Check({json.load(open(f"{S}/{b}/meta.json"))["property"]!r}, "quick")
for k in pipeline.CONFIGS:
    b, more = harness.build(k)
    if b: c.binaries[k] = b
    else: print("BUILD", more[-300:])
for seconds, seed in ((7, 0), (40, 1), (30, 2)):
    t = time.time()
    h = c.explore(seconds, seed=seed)
    if h: print("HIT", seconds, round(time.time() - t), h["config"], h["failure"].get("type"), h["failure"]["what"], str(h["failure"]["got"])[:60]); break
else: print("MISS", c.prop, c.notes)
'''
        r = subprocess.run(['nice', '-n', '15', 'python3', '-c', code], capture_output=True, text=True, env=dict(os.environ, OPENTYPE_REPO=w, OPENTYPE_BUILD=build, OPENTYPE_EVIDENCE='/tmp/seeds/me%d' % i))
        return b, (r.stdout.strip().replace('\n', ' | ') + r.stderr[-300:])[:400]
    finally: q.put(i)
with ThreadPoolExecutor(N) as ex:
    for b, t in ex.map(one, args or sorted(os.listdir(S))): print(b, t, flush=True)
