#!/usr/bin/env python3
"""mk.py spec.py...: build seeded/<id>/ from a spec and try it in a private copy of /repo."""
import sys, os, subprocess, json, shutil, glob
from concurrent.futures import ThreadPoolExecutor
R = '/tmp/seedrun'
SH = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
. /opt/vp/env.sh 2>/dev/null
cd "$W" || exit 2
I=""
for d in . dense ellpack csr ellblock distributed2d; do I="$I -I/repo/src/C-interface/$d"; done
%s
'''
SER = '''gcc -w -g -std=gnu99 -fopenmp $I %(cf)s "$D/demo.c" /repo/_build/src/libbml.a -lopenblas -lm -o demo || exit 2
%(env)s timeout 200 %(run)s ./demo
'''
MPI = '''export GCOV_PREFIX="$W/gcov"
mpicc -w -g -std=gnu99 -DBML_USE_MPI -DDO_MPI --coverage $I %(cf)s "$D/demo.c" /repo/_build_mpi/src/libbml.a -lscalapack-openmpi -lopenblas -lm -o demo || exit 2
%(env)s timeout 200 mpiexec -n %(np)d ./demo
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include "bml.h"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(path):
    ns = {}
    exec(open(path).read(), ns)
    id = ns['id']
    out = []
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    wt = R + '/' + id
    sh('mkdir -p %s; cp -a /repo %s' % (R, wt))
    try:
        for f, a, b in ns['edits']:
            p = wt + '/' + f
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                return '%s: edit anchor found %d times in %s: %r' % (id, n, f, a[:60])
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git -C %s diff' % wt).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.c', 'w').write(PRE + ns['demo'])
        o = dict(cf=ns.get('cf', ''), env=ns.get('env', ''), run=ns.get('run', ''), np=ns.get('np', 2))
        t = (MPI if ns.get('mpi') else SER) % o
        open(d + '/demo.sh', 'w').write(ns.get('sh', SH % t))
        os.chmod(d + '/demo.sh', 0o755)
        demo = 'cp -r %s %s.demo && cd /repo && bash %s.demo/demo.sh' % (d, wt, wt)
        ns_ = "unshare -Urm sh -c 'mount --bind %s /repo; %%s'" % wt
        r = sh('cp -r %s %s.demo; cd /repo && bash %s.demo/demo.sh' % (d, wt, wt))
        out.append('demo on base: %d%s' % (r.returncode, '' if r.returncode == 0 else ' !!!\n' + r.stdout[-1500:]))
        r = sh(ns_ % 'bash /opt/vp/build.sh')
        if r.returncode:
            return '%s: build failed\n%s' % (id, r.stdout[-2000:])
        if '-Wno' not in r.stdout and 'warning: ' in r.stdout and 'mktemp' not in r.stdout:
            out.append('warnings: ' + '\n'.join(l for l in r.stdout.splitlines() if 'warning' in l)[:400])
        r = sh(ns_ % ('cd /repo && bash %s.demo/demo.sh' % wt))
        out.append('demo with bug: %d%s\n      %s' % (r.returncode, ' !!! NOT DETECTED' if r.returncode == 0 else '', r.stdout.strip()[-300:]))
        if '--notest' not in sys.argv:
            r = sh(ns_ % ('bash /opt/vp/test.sh %s.json' % wt))
            try:
                fl = json.load(open(wt + '.json'))['failed']
            except Exception:
                fl = '?'
            out.append('tests: ' + r.stdout.strip().splitlines()[-1] + ' ' + str(fl)[:300])
        checks = ns['prop'] if '--all' not in sys.argv else ' '.join(sorted(os.path.basename(x)[:-3].upper() for x in glob.glob('/verif/engine/checks/c[0-9]*.py')))
        sh('mkdir -p %s.v; cd /verif && cp -r check engine include spec known-findings.txt tools %s.v/' % (wt, wt))
        if os.path.exists('/verif/engine/checks/%s.py' % ns['prop'].lower()) or '--all' in sys.argv:
            env = {k: v for k, v in os.environ.items() if k != 'VERIF_EXTRACT'}
            for c in checks.split():
                r = subprocess.run(ns_ % ('cd %s.v && ./check %s' % (wt, c)), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                if c == ns['prop'] or r.returncode != 0:
                    out.append('check %s: %d %s' % (c, r.returncode, '' if r.returncode == 1 else '!!! MISSED') + '\n      ' + r.stdout.strip()[-500:])
        return '== %s (%s)\n   ' % (id, ns['prop']) + '\n   '.join(out)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        for s in ('.demo', '.v'):
            shutil.rmtree(wt + s, ignore_errors=True)
        try:
            os.unlink(wt + '.json')
        except OSError:
            pass


with ThreadPoolExecutor(3) as ex:
    for s in ex.map(one, [a for a in sys.argv[1:] if not a.startswith('--')]):
        print(s, flush=True)
