#!/usr/bin/env python3
"""mk.py demo.cc: builds demo.cc with the sources of the current directory it includes (a header brings the .cpp of the same name) and runs it."""
import sys, os, re, subprocess, tempfile, concurrent.futures, shutil
R = os.getcwd(); D = os.path.dirname(os.path.abspath(__file__)); main = os.path.join(D, sys.argv[1])
INC = [R, R + '/core', R + '/aspects', R + '/ms-utils', R + '/gunns-ts-models']
OMIT = ['/cuda/', 'TS_hs_msg.cpp', 'TsHsSqlitePlugin.cpp', 'TsHsConsolePlugin.cpp', 'TsHsMsgStdFilter.cpp', 'TsHsStdMngr.cpp', 'TsHsTextPlugin.cpp', 'TsMemoryManager.cpp', 'TS_timer.c', 'TS_conversions.c', 'TS_sgmt_conversion.c']
seen, todo, srcs = set(), [main], [main]
while todo:
    f = todo.pop()
    if f in seen: continue
    seen.add(f)
    for i in re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', open(f, errors='replace').read(), re.M):
        for d in [os.path.dirname(f)] + INC:
            p = os.path.normpath(os.path.join(d, i))
            if os.path.isfile(p):
                todo.append(p)
                for e in ('.cpp', '.c'):
                    q = os.path.splitext(p)[0] + e
                    if os.path.isfile(q) and not any(x in q for x in OMIT) and q not in srcs: srcs.append(q); todo.append(q)
                break
T = tempfile.mkdtemp()
try:
    def cc(a):
        k, s = a; o = '%s/%d.o' % (T, k)
        p = subprocess.run(['gcc' if s.endswith('.c') else 'g++', '-Dno_TRICK_ENV=1', '-w', '-O0'] + ([] if s.endswith('.c') else ['-std=gnu++17']) + (['-fno-access-control'] if s == main else []) + sys.argv[2:] + ['-I' + i for i in INC] + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o if p.returncode == 0 else p.stdout
    with concurrent.futures.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, enumerate(srcs)))
    for o in objs:
        if not o.endswith('.o') or '\n' in o: print(o); sys.exit(77)
    p = subprocess.run(['g++', '-o', T + '/demo'] + objs + ['-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: print(p.stdout); sys.exit(77)
    sys.exit(subprocess.run(['timeout', '60', T + '/demo']).returncode != 0)
finally: shutil.rmtree(T, ignore_errors=True)
