#!/bin/bash
# Builds .build/simtool from /repo's working tree. What is stale is decided by content, not by time stamps.
cd "$(dirname "$0")" || exit 2
R=${REPO:-/repo}
mkdir -p .build
exec 9>.build/lock
flock 9
python3 - "$R" <<'P' || exit 2
import hashlib, json, os, sys
R = sys.argv[1]
sums, hdr = {}, hashlib.sha256()
roots = [(os.path.join(R, 'src', d), '.build/repo/' + d) for d in ('tool1cd', 'ctool1cd')] + [('sim', '.build/sim')]
for root, out in roots:
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.cpp'):
                sums[os.path.join(out, os.path.relpath(p, root))[:-4] + '.o'] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
            elif f.endswith(('.h', '.hpp')):
                hdr.update(p.encode() + b'\0' + open(p, 'rb').read())
hdr.update(open('Makefile', 'rb').read())
sums['headers'] = hdr.hexdigest()
try: old = json.load(open('.build/sums'))
except Exception: old = {}
for o, h in sums.items():
    if o != 'headers' and os.path.exists(o) and (old.get(o) != h or old.get('headers') != sums['headers']):
        os.remove(o)
if old != sums and os.path.exists('.build/simtool'): os.remove('.build/simtool')
json.dump(sums, open('.build/sums', 'w'))
P
make -s -j8 REPO="$R" >.build/log 2>&1 || { tail -30 .build/log >&2; echo "build failed" >&2; exit 2; }
