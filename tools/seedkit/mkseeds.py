#!/usr/bin/env python3
"""mkseeds.py SPEC.py [ID...]: makes /verif/seeded/<id> from a spec of S(id, property, file, [(old, new)...], needs, breaks, demo source, flags)."""
import sys, os, subprocess, json, shutil
V = '/verif'; R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[2:]
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; p = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_out.json')
    try: d = json.load(open('/tmp/seed_out.json'))['passed']
    except Exception: return 'no results ' + p.stdout[-800:]
    m = [x for x in b if x not in set(d)]
    return '' if not m else 'fails %d: %s' % (len(m), m[:3])
def S(id, prop, file, edits, needs, breaks, demo, flags='', also=()):
    if only and id not in only: return
    if sh('git -C /repo status --porcelain -uno').stdout.strip(): sys.exit('repo dirty')
    if isinstance(edits, tuple): edits = [edits]
    try: os.remove('/tmp/seed_out.json')
    except OSError: pass
    D = V + '/seeded/' + id; os.makedirs(D, exist_ok=True)
    open(D + '/demo.cc', 'w').write(demo); shutil.copy(V + '/tools/seedkit/mk.py', D + '/mk.py')
    open(D + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/mk.py" demo.cc %s\n' % flags)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + '/meta.json', 'w'), indent=1)
    try:
        c = sh('cd /repo && bash %s/demo.sh' % D)
        if c.returncode: print(id, 'DEMO FAILS ON CLEAN TREE', c.stdout[-1500:]); return
        for e in edits:
            f, o, n = (file,) + e if len(e) == 2 else e
            s = open(R + '/' + f, newline='').read(); crlf = '\r\n' in s
            if crlf: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
            if s.count(o) != 1: print(id, 'old text found', s.count(o), 'times'); return
            open(R + '/' + f, 'w', newline='').write(s.replace(o, n))
        open(D + '/patch.diff', 'w', newline='').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout.decode('utf-8', 'surrogateescape'))
        c = sh('cd /repo && bash %s/demo.sh' % D); t = stable(); k = sh('cd /verif && VERIF_TIER=quick timeout 900 bin/check ' + prop)
        also_r = [(x, sh('cd /verif && timeout 900 bin/check ' + x).returncode) for x in also]
        print(id, prop, 'demo', 'ok' if c.returncode == 1 else 'BAD %d %s' % (c.returncode, c.stdout[-500:]), '| tests', t or 'pass', '| check', 'CAUGHT' if k.returncode == 1 and 'VIOLATION' in k.stdout else 'MISSED %d' % k.returncode, ' | '.join(k.stdout.strip().split('\n')[-3:])[:260], also_r, flush=True)
    finally: sh('git -C /repo checkout -q -- .')
exec(open(sys.argv[1]).read())
