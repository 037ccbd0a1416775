#!/usr/bin/env python3
"""Regenerate engine/spec/mods.json from the current tree.  The result is reviewed by hand before it is committed;
no check runs this."""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import core, modref, build
PREC = re.compile(r'_(single|double)_(real|complex)\b')
t = {}
for c, P in core.load().items():
    M = modref.ModRef(P)
    for f in P.top():
        if not any('*' in p[2] or ']' in p[2] for p in f.params):
            continue
        g = t.setdefault(PREC.sub('', f.name), {'params': [p[0] for p in f.params], 'mods': set(), 'ret': set()})
        g['mods'] |= M.mods[f]
        g['ret'] |= M.ret[f]
with open(os.path.join(build.VERIF, 'spec', 'mods.json'), 'w') as fh:
    fh.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps({'params': v['params'], 'mods': sorted(v['mods'],key=str), 'ret': sorted(v['ret'],key=str)}))
                               for k, v in sorted(t.items())) + '\n}\n')
