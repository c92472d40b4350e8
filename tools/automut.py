#!/usr/bin/env python3
# automut.py SEED MOD REST: small changes (one operator, constant or statement) at every place of the sources, in an order decided by
# SEED; worker REST of MOD. Those that compile and pass the tests are given to the quick checks of the properties of their file;
# prints caught or MISSED. Runs inside a private mount namespace with copies of /repo and /verif; nothing else changes.
import sys, os, subprocess, json, time, re, random
if os.environ.get('MUT_INSIDE') is None:
    W = os.environ.get('W', '/tmp/automut')
    os.makedirs(W + '/verif', exist_ok=True); os.makedirs(W + '/repo', exist_ok=True)
    subprocess.check_call(f'rsync -a --delete --exclude /.git --exclude /seeded --exclude /evidence --exclude /replays --exclude /target /verif/ {W}/verif/; [ -d {W}/verif/target ] || cp -a /verif/target {W}/verif/; rsync -a --delete --exclude /target /repo/ {W}/repo/; mkdir -p {W}/verif/evidence {W}/verif/replays', shell=True)
    os.environ['MUT_INSIDE'] = W
    os.execvp('unshare', ['unshare', '-m', 'python3'] + sys.argv)
W = os.environ['MUT_INSIDE']
subprocess.check_call(f'mount --bind {W}/repo /repo && mount --bind {W}/verif /verif', shell=True)
seed, mod, rest = map(int, sys.argv[1:4])
FILES = {'src/core/marshaller.rs': 'C03 C04 C12', 'src/core/nsm.rs': 'C01 C02', 'src/core/data_source.rs': 'C11', 'src/core/util.rs': 'C22 C03', 'src/core/value.rs': 'C11',
         'src/core/types/mod.rs': 'C10 C09', 'src/sql/schema.rs': 'C15', 'src/sql/symbols.rs': 'C15', 'src/sql/types.rs': 'C16 C18', 'src/sql/ast/typing.rs': 'C16 C18 C17',
         'src/storage/mod.rs': 'C20 C19 C21', 'src/storage/utils.rs': 'C21 C22'}
for f in os.listdir('/repo/src/core/json'): FILES['src/core/json/' + f] = 'C07 C06 C08 C05'
only = os.environ.get('FILES')
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \| ', ' & '), (r' & ', ' | '),
       (r' << ', ' >> '), (r' >> ', ' << '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])(\d+)(?=(?:usize|u8|u16|u32|u64)?\b(?!\.))', lambda m: str(int(m[1]) + 1)), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
       (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\.\.=', '..'), (r'(?<=[\w)\]])\.\.(?=[\w(])', '..='), (r'(?<=[ (])!(?=[a-z(])', ''), (r' \* ', ' + '), (r'\bu32\b', 'u16'), (r'\busize\b', 'u16')]
M = []
for f, props in FILES.items():
    if only and only not in f: continue
    lines = open('/repo/' + f).read().split('\n')
    skip = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]'): break
        if s.startswith('//') or s.startswith('use ') or 'verif' in l or 'assert' in l or 'panic!' in l or not s: continue
        if f.endswith('storage/mod.rs') and i < 640 and not (200 < i < 262 or 395 < i < 420): continue
        code = l.split('//')[0]
        # outside string literals
        plain = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + '\x01' * (len(m[0]) - 2) + '"', code)
        for a, b in OPS:
            for m in re.finditer(a, plain):
                M.append((f, i, code[:m.start()] + (b(m) if callable(b) else b) + code[m.end():], props))
        if s.endswith(';') and not re.match(r'(let|return|break|continue|use|type|const|pub|struct|fn|extern)\b', s): M.append((f, i, code[:len(code) - len(code.lstrip())] + '{}', props))
        if re.match(r'(return|break|continue)\b.*;$', s): M.append((f, i, code[:len(code) - len(code.lstrip())] + '{}', props))
random.Random(seed).shuffle(M)
print(len(M), 'changes', flush=True)
def sh(c, t=900):
    try: p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t + 60); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return -1, ''
sh('git -C /repo checkout -q -- .')
res = f'/tmp/automut-res{os.getpid()}.json'
for n, (f, i, new, props) in enumerate(M):
    if n % mod != rest: continue
    src = open('/repo/' + f).read(); lines = src.split('\n'); old = lines[i]; lines[i] = new
    open('/repo/' + f, 'w').write('\n'.join(lines))
    tag = f'#{n} {f}:{i + 1} `{old.strip()[:110]}` -> `{new.strip()[:110]}`'
    try:
        if os.path.exists(res): os.remove(res)
        rc, out = sh(f'cd /repo && timeout 120 bash /opt/vp/build.sh && timeout 120 bash /opt/vp/test.sh {res}', 250)
        try: r = json.load(open(res)); ok = not r.get('failed') and len(r.get('passed', [])) >= 25
        except Exception: ok = False
        if not ok: print('-', end='', flush=True); continue
        v = None
        for p in props.split():
            rc, out = sh(f'timeout 600 bash /verif/check.sh {p} quick')
            if rc == 1 and 'VIOLATION' in out: v = p; break
        print(f'\ncaught {v} {tag}' if v else f'\nMISSED rc={rc} {tag}', flush=True)
    finally:
        open('/repo/' + f, 'w').write(src)
