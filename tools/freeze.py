"""Rewrite spec/effects/<ID>.json from the current source (after reviewing the change!).  Usage: freeze.py ID..."""
import sys, os, json
sys.path[:0] = [os.path.join(os.path.dirname(__file__), '..', 'engine')]
import core, frozen, build, fortran
if 'C09' in sys.argv:
    g = fortran.summaries(fortran.load(os.path.join(build.SRC, 'Fortran-interface')))
    json.dump(g, open(frozen.spec_path('C09'), 'w'), indent=0, sort_keys=True)
    print('C09', len(g), sum(map(len, g.values())))
    sys.argv.remove('C09')
progs = core.load() if sys.argv[1:] else {}
for pid in sys.argv[1:]:
    s = {c: frozen.summaries(progs[c], pid) for c in 'AB' if c in progs}
    ab = {n: v for n, v in s['A'].items() if s['B'].get(n) == v}
    out = {'AB': ab, 'A': {n: v for n, v in s['A'].items() if n not in ab},
           'B': {n: v for n, v in s['B'].items() if n not in ab}}
    os.makedirs(os.path.dirname(frozen.spec_path(pid)), exist_ok=True)
    json.dump(out, open(frozen.spec_path(pid), 'w'), indent=0, sort_keys=True)
    print(pid, {c: (len(v), sum(map(len, v.values()))) for c, v in out.items()})
    s = {c: frozen.deep(progs[c], pid) for c in 'AB' if c in progs}
    ab = {f: {h: d for h, d in v.items() if s['B'].get(f, {}).get(h) == d} for f, v in s['A'].items()}
    out = {'AB': {f: v for f, v in ab.items() if v}}
    for c in 'AB':
        out[c] = {f: v for f, v in ((f, {h: d for h, d in v.items() if h not in ab.get(f, {})}) for f, v in s[c].items()) if v}
    json.dump(out, open(frozen.spec_path(pid).replace('.json', '.deep.json'), 'w'), indent=0, sort_keys=True)
    print(pid, 'deep', {c: sum(map(len, v.values())) for c, v in out.items()})
