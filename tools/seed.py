#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.go and a patch.

usage: seed.py [ID...]     patches are read from $PATCHES (default /tmp/mut)/<id>.diff
                           if there, else the one in seeded/ is kept"""
import json, os, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), 'seeded')
patches = os.environ.get('PATCHES', '/tmp/mut')
S = json.load(open(os.path.join(here, 'seeds', 'seeds.json')))
for sid, s in S.items():
    if sys.argv[1:] and sid not in sys.argv[1:]:
        continue
    d = os.path.join(out, sid)
    os.makedirs(d, exist_ok=True)
    pf = os.path.join(patches, sid + '.diff')
    if os.path.exists(pf):
        shutil.copy(pf, os.path.join(d, 'patch.diff'))
    name = os.path.basename(s['pkg'])
    def put(src, dst, mode=0o644):
        t = open(os.path.join(here, 'seeds', src)).read().replace('@PKG@', s['pkg']).replace('@NAME@', name)
        p = os.path.join(d, dst)
        open(p, 'w').write(t)
        os.chmod(p, mode)
    put('demo.sh', 'demo.sh', 0o755)
    put(s.get('test', sid) + '.go', 'demo_test.go')
    for l in s.get('libs', []):
        put('lib_%s_test.go' % l, 'lib_%s_test.go' % l)
    json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
