"""Mutants of the crate by operators on its source, and which of them the harness alone finds.
mutate.py list | mutate.py make (compile and test each; keeps those that the tests let pass in /tmp/seeds/mutants)
mutate.py harness [id]... (the harness of both configurations on each)"""
import json, os, queue, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ROOT + '/tools')
OUT = '/tmp/seeds/mutants'
SRC = '/repo/src'
OPS = [
    ('count8', r'take_given\((this\.\w+) as usize\)', r'take_given(\1 as u8 as usize)'),
    ('count12', r'take_given\((this\.\w+) as usize\)', r'take_given((\1 & 0x0FFF) as usize)'),
    ('near', r'jump_take!\(tape, position, (this\.\w+)\)', r'jump_take!(tape, position, (\1 & 0x7FFF))'),
    ('absolute', r'jump_take!\(tape, position, (this\.\w+)\)', r'jump_take!(tape, position & !1, \1)'),
    ('nullable', r'jump_take!\(tape, position, (this\.\w+)\)', r'{ let value: Result<Option<_>> = jump_take_maybe!(tape, position, \1); value.map(Option::unwrap_or_default) }'),
    ('list8', r'jump_take!\(tape, position, (this\.\w+), (this\.\w+)\)', r'jump_take!(tape, position, (\1 as u8), \2)'),
    ('listfar', r'jump_take!\(tape, position, (this\.\w+), (this\.\w+)\)', r'jump_take!(tape, position, \1, i => (\2[i] & 0x7FFF))'),
    ('listmaybe', r'jump_take_maybe!\(tape, position, (this\.\w+), (this\.\w+)\)', r'jump_take_maybe!(tape, position, \1, i => (\2[i] & 0xFFFE))'),
    ('maybe', r'jump_take_maybe!\((@unwrap )?tape, position, ((?:this\.)?\w+)\)', r'jump_take_maybe!(\1tape, position, (\2 & 0xFFFE))'),
    ('given8', r'\(0\.\.(this\.\w+)\)', r'(0..\1 as u8)'),
    ('range8', r'\(0\.\.(count|class2_count)\)', r'(0..\1 & 0x00FFu16)'),
    ('arm', r'\n( +)(\d) => (\w+)', r'\n\g<1>\2 | 0x010\2 => \3'),
    ('free', r' = \{ (\d) \}', r''),
    ('zero', r'== 0\b', r'<= 1'),
    ('less', r'> (\d)\b', r'> \1 + 1'),
    ('swallow', r'\(tape\.take\(\)\?\)', r'(tape.take().unwrap_or_default())'),
    ('peek', r'tape\.peek::<u16>\(\)\?', r'tape.peek::<(u16, u16)>()?.0'),
    ('bit', r'0b0000_0000_(\d{4})_(\d{4}) =>', r'0b1000_0000_\1_\2 =>'),
]
def mutants():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f); rel = os.path.relpath(p, '/repo')
            s = open(p).read()
            body = s
            for name, pat, sub in OPS:
                for k, m in enumerate(re.finditer(pat, body)):
                    new = s[:m.start()] + m.expand(sub) + s[m.end():]
                    id = f"{name}-{os.path.splitext(rel)[0].replace('src/', '').replace('tables/', '').replace('layout/', '').replace('/', '_')}-{s[:m.start()].count(chr(10)) + 1}"
                    out.append((id, rel, new))
    return out
def tree(i):
    w = f'/tmp/seeds/m{i}'
    if not os.path.exists(w): subprocess.run(['cp', '-a', '/repo', w])
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'])
    return w
def make():
    ms = mutants()
    q = queue.Queue()
    for i in range(4): q.put(i)
    def one(m):
        i = q.get()
        try:
            w = tree(i)
            open(f'{w}/{m[1]}', 'w').write(m[2])
            r = subprocess.run(['cargo', 'test', '--offline', '-q', '--no-fail-fast', '--lib', '--tests'], cwd=w, capture_output=True, text=True)
            if 'could not compile' in r.stderr: return m[0], 'compile'
            fails = {l.strip() for l in r.stdout.split('\n') if re.match(r'    \w+(::\w+)+$', l)} - {'noto_color_emoji::read'}
            if fails: return m[0], 'killed'
            r = subprocess.run(['cargo', 'check', '--offline', '-q', '--all-features'], cwd=w, capture_output=True, text=True)
            if r.returncode: return m[0], 'compile'
            os.makedirs(f'{OUT}/{m[0]}', exist_ok=True)
            open(f'{OUT}/{m[0]}/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
            return m[0], 'alive'
        finally: q.put(i)
    from collections import Counter
    c = Counter()
    with ThreadPoolExecutor(4) as ex:
        for id, what in ex.map(one, ms): c[(id.split('-')[0], what)] += 1
    print(c)
N = int(os.environ.get('MUT_JOBS', '4'))
def harness_all(ids):
    q = queue.Queue()
    for i in range(N): q.put(i)
    def one(id):
        i = q.get()
        try:
            w = tree(i)
            subprocess.run(['git', '-C', w, 'apply', f'{OUT}/{id}/patch.diff'])
            b = f'/tmp/seeds/mb{i}'
            code = f'''
import sys; sys.path.insert(0, {ROOT + "/tools"!r}); sys.path.insert(0, {ROOT!r})
import harness, check, json, time
hit = []
for c in ("default",):
    t = time.time()
    b, more = harness.build(c)
    if not b: print("BUILD", more[-300:]); continue
    names = {os.environ.get("MUT_TYPES", "all")!r}
    ms = 7000
    if names == "focus":
        f = open({OUT!r} + "/" + {id!r} + "/patch.diff").read().split("+++ b/src/")[1].split(".rs")[0].replace("/mod", "").replace("/", "::")
        names = ",".join(sorted({{n for n, o, s in harness.roots(None) if n.startswith(f + "::") and "::" not in n[len(f) + 2:].split("<")[0]}})) or "all"
        ms = 25000
    for mode, aspect, ns, ms in (("read", "decode", names, ms), ("items", "", "C09,C21,C22", 1500), ("fonts", "", "C04", 1500)):
        r = check.harness_run(b, c, mode, ns, aspect, ms, 1)
        if r.get("failed"): hit.append((mode, r["note"][:200])); continue
        if r.get("failure"): hit.append((mode, r["failure"].get("type"), r["failure"]["what"], str(r["failure"]["got"])[:60]))
print("HIT" if hit else "MISS", hit)
'''
            r = subprocess.run(['python3', '-c', code], capture_output=True, text=True, env=dict(os.environ, OPENTYPE_REPO=w, OPENTYPE_BUILD=b, OPENTYPE_EVIDENCE='/tmp/seeds/me%d' % i))
            return id, (r.stdout.strip().split('\n')[-1] + r.stderr[-300:])[:300]
        finally: q.put(i)
    with ThreadPoolExecutor(N) as ex:
        for id, t in ex.map(one, ids): print(id, t, flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for m in mutants(): print(m[0])
    elif sys.argv[1] == 'make': make()
    else: harness_all(sys.argv[2:] or sorted(os.listdir(OUT)))
