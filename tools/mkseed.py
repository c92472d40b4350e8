#!/usr/bin/env python3
"""Plants a bug: mkseed.py SPEC.py...   (each SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo_file, demo)

Works in a scratch copy of /repo, confirms that the change compiles, passes the stable tests, and that the demonstration
passes without and fails with it, and writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, textwrap
S = '/tmp/seed/repo'
RUN = 'timeout 250 cargo test --offline --lib verif_demo -- --test-threads 4 > "$D/log" 2>&1'
# with the simulated medium below the buffer pool
RUN_CFG = """touch "$D/mark"
cargo rustc --offline --lib --profile test -- --cfg cathlamet_verif > "$D/log" 2>&1 || { tail -n 40 "$D/log"; exit 3; }
B="$(find target/debug/deps -maxdepth 1 -type f -executable -name 'cathlamet-*' -newer "$D/mark" | head -n 1)"
timeout 60 "$B" verif_demo --test-threads 4 > "$D/log" 2>&1"""
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0', CARGO_TARGET_DIR=S + '/target')
ENV.pop('RUSTFLAGS', None)
DEMO = r'''#!/bin/bash
# Runs the tests of demo.rs inside a scratch copy of the library (they use its private parts). Exit 0: all pass.
H="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS
D="$(mktemp -d /tmp/demo.XXXXXXXX)"
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/repo/target/debug"
cp -a Cargo.toml Cargo.lock build.rs src "$D/repo/" || exit 3
for d in deps build .fingerprint; do [ -d target/debug/$d ] && cp -a target/debug/$d "$D/repo/target/debug/"; done
cat "$H/demo.rs" >> "$D/repo/@FILE@"
cd "$D/repo" || exit 3
export CARGO_TARGET_DIR="$D/repo/target"
@RUN@
rc=$?
tail -n 40 "$D/log"
grep -q 'running [1-9]' "$D/log" || [ $rc -ne 0 ] || exit 3
exit $rc
'''
def sh(*a, **k): return subprocess.run(a, cwd=S, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset():
    if not os.path.isdir(S):
        os.makedirs('/tmp/seed', exist_ok=True); subprocess.check_call(['cp', '-a', '/repo', S])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    sh('git', 'fetch', '-q', '/repo', 'HEAD'); r = sh('git', 'checkout', '-qf', head); assert r.returncode == 0, r.stdout
def build(): return sh('cargo', 'test', '--workspace', '--no-run', '--offline')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok = True
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g)
    reset()
    d = '/tmp/seed/out/' + g['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO.replace('@FILE@', g['demo_file']).replace('@RUN@', RUN_CFG if g.get('demo_cfg') else RUN)); os.chmod(d + '/demo.sh', 0o755)
    demo = textwrap.dedent(g['demo']).strip('\n')
    open(d + '/demo.rs', 'w').write('\n#[cfg(test)]\n#[allow(unused_imports, dead_code, unused_must_use)]\nmod verif_demo {\n    use super::*;\n' + textwrap.indent(demo, '    ') + '\n}\n')
    json.dump({'property': g['prop'], 'needs': ' '.join(g['needs'].split()), 'what_it_breaks': ' '.join(g['breaks'].split())}, open(d + '/meta.json', 'w'), indent=1)
    def bad(*m):
        global ok; ok = False; print('FAIL', g['id'], *m)
    r = build()
    if r.returncode: bad('base build', r.stdout[-2000:]); continue
    r = sh(d + '/demo.sh')
    if r.returncode: bad('demo fails on the unchanged tree', r.stdout[-3000:]); continue
    for f, old, new in g['edits']:
        t = open(f'{S}/{f}').read()
        if t.count(old) != 1: bad('edit matches', t.count(old), 'times:', old[:80]); break
        open(f'{S}/{f}', 'w').write(t.replace(old, new))
    else:
        r = build()
        if r.returncode: bad('build', '\n'.join(l for l in r.stdout.splitlines() if 'error' in l or '-->' in l)[-2000:]); continue
        files = sorted({f for f, _, _ in g['edits']})
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', S, 'diff', '--'] + files, text=True))
        r = sh('cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8')
        failed = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED')]
        if failed or r.returncode: bad('tests', failed, r.stdout[-1500:]); continue
        r = sh(d + '/demo.sh')
        if r.returncode == 0: bad('demo passes with the change', r.stdout[-1500:]); continue
        if r.returncode == 3 or 'error: could not compile' in r.stdout: bad('demo does not run', r.stdout[-2500:]); continue
        t = '/verif/seeded/' + g['id']; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
        print('OK', g['id'], '|', [l for l in r.stdout.splitlines() if 'panicked' in l or l.startswith('assert') or 'test result' in l][:2])
    sh('git', 'checkout', '-q', '--', '.')
sys.exit(0 if ok else 1)
