#!/bin/bash
# bugtable.sh: runs the quick check of its property against each planted bug and rewrites the table at the end of DESIGN.md.
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -n "$1" ] || SHOW=1 bash "$V/tools/trybug.sh" $(ls "$V/seeded") >"${OUT:=/tmp/bugtable.out}" 2>&1
python3 - "$V" "${1:-$OUT}" <<'P'
import sys, re, json
V, out = sys.argv[1:]
rows, text = {}, open(out).read()
cur = None
for l in text.splitlines():
    m = re.match(r'^(\S+) (C\d\d) rc=(-?\d+) (\d+)s \d+$', l)
    if m: cur = m[1]; rows[cur] = [m[2], m[3], m[4], '']; continue
    m = re.match(r'^SUITE (\S+)', l)
    if m and cur and not rows[cur][3]: rows[cur][3] = m[1]
t = ['| change | property | what it breaks | reported by suite |', '|---|---|---|---|']
for k in sorted(rows):
    meta = json.load(open(f'{V}/seeded/{k}/meta.json'))
    r = rows[k]
    t.append(f"| {k} | {r[0]} | {meta['what_it_breaks']} | {(r[3] or '?') if r[1] == '1' else 'missed'} |")
s = open(V + '/DESIGN.md').read()
s = s[:s.index('<!-- bugs -->')] + '<!-- bugs -->\n' + '\n'.join(t) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
P
