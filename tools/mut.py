#!/usr/bin/env python3
# mut.py SPECFILE [id...]: SPECFILE defines M = [(id, prop[s], [(file, old, new)...])]. Runs inside a private namespace.
import sys, os, subprocess, json, time
if os.environ.get('MUT_INSIDE') is None:
    W = os.environ.get('W', '/tmp/mutw')
    os.makedirs(W + '/verif', exist_ok=True); os.makedirs(W + '/repo', exist_ok=True)
    subprocess.check_call(f'rsync -a --delete --exclude /.git --exclude /seeded --exclude /evidence --exclude /replays --exclude /target /verif/ {W}/verif/; [ -d {W}/verif/target ] || cp -a /verif/target {W}/verif/; rsync -a --delete --exclude /target /repo/ {W}/repo/; mkdir -p {W}/verif/evidence {W}/verif/replays', shell=True)
    os.environ['MUT_INSIDE'] = W
    os.execvp('unshare', ['unshare', '-m', 'python3'] + sys.argv)
W = os.environ['MUT_INSIDE']
subprocess.check_call(f'mount --bind {W}/repo /repo && mount --bind {W}/verif /verif', shell=True)
ns = {}; exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
def sh(c, t=900):
    p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t + 60); return p.returncode, p.stdout + p.stderr
for m in ns['M']:
    id, props, edits = m[:3]
    if want and id not in want: continue
    sh('git -C /repo checkout -q -- .')
    ok = True
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read()
        k = s.count(old)
        if k != 1: print(f'{id}: pattern occurs {k} times in {f}: {old[:60]!r}', flush=True); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    rc, out = sh(f'cd /repo && bash /opt/vp/test.sh /tmp/mut/res{os.getpid()}.json')
    try:
        r = json.load(open(f'/tmp/mut/res{os.getpid()}.json'))
        failed = r.get('failed', [])
        passed = r.get('passed', [])
    except Exception as e: failed = ['?']; passed = []
    if failed or len(passed) < 25: print(f'{id}: TESTS FAIL {failed[:3]} passed={len(passed)} {out[-600:] if not passed else ""}', flush=True); continue
    for prop in props.split():
        t0 = time.time()
        try: rc, out = sh(f'timeout 900 bash /verif/check.sh {prop} {os.environ.get("TIER","quick")}')
        except subprocess.TimeoutExpired: rc, out = -1, ''
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        i = [k for k, l in enumerate(out.splitlines()) if l.startswith('VIOLATION')]
        ctx = out.splitlines()[max(0, i[0] - 3):i[0]] if i else out.splitlines()[-2:]
        print(f'{id} {prop} {"caught" if rc == 1 and v else "MISSED rc=%d" % rc} {time.time()-t0:.0f}s | ' + ' / '.join(x[:160] for x in ctx), flush=True)
sh('git -C /repo checkout -q -- .')
