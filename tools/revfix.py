#!/usr/bin/env python3
# revfix.py [commit...]: takes back each repair of known_findings.txt in turn (git revert, where it still applies) in a private copy and runs
# the quick check of its property, which has to report it.
import sys, os, subprocess, re
if os.environ.get('MUT_INSIDE') is None:
    W = os.environ.get('W', '/tmp/revfix')
    os.makedirs(W + '/verif', exist_ok=True); os.makedirs(W + '/repo', exist_ok=True)
    subprocess.check_call(f'rsync -a --delete --exclude /.git --exclude /seeded --exclude /evidence --exclude /replays --exclude /target /verif/ {W}/verif/; [ -d {W}/verif/target ] || cp -a /verif/target {W}/verif/; rsync -a --delete --exclude /target /repo/ {W}/repo/; mkdir -p {W}/verif/evidence {W}/verif/replays', shell=True)
    os.environ['MUT_INSIDE'] = W
    os.execvp('unshare', ['unshare', '-m', 'python3'] + sys.argv)
W = os.environ['MUT_INSIDE']
subprocess.check_call(f'mount --bind {W}/repo /repo && mount --bind {W}/verif /verif', shell=True)
def sh(c):
    p = subprocess.run(c, shell=True, capture_output=True, text=True); return p.returncode, p.stdout + p.stderr
head = sh('git -C /repo rev-parse HEAD')[1].strip()
for l in open('/verif/known_findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]): continue
    sh(f'git -C /repo reset -q --hard {head}')
    rc, out = sh(f'git -C /repo -c user.name=x -c user.email=x@x revert -n {m[2]}')
    if rc: sh('git -C /repo revert --quit; git -C /repo reset -q --hard ' + head); print(m[1], m[2], 'does not revert:', m[3][:60], flush=True); continue
    rc, out = sh(f'timeout 900 bash /verif/check.sh {m[1]} quick')
    v = [x for x in out.splitlines() if x.startswith('VIOLATION')]
    print(m[1], m[2], 'reported' if rc == 1 and v else f'NOT REPORTED rc={rc} {out[-200:]!r}', m[3][:60], flush=True)
