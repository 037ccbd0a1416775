"""C03: a function modifies only the operands the reviewed table (spec/mods.json) lets it modify.

modref.ModRef over-approximates, for every function, the parameters through which memory may be
written: direct stores through any pointer derived from the parameter, stores by callees, and
external routines (table in modref.EXT).  A parameter modified without being listed is reported."""
import os, re, json
from core import show
from report import Report, Broken
import modref, build

SPEC = os.path.join(build.VERIF, 'spec', 'mods.json')
PREC = re.compile(r'_(single|double)_(real|complex)\b')


def table():
    return json.load(open(SPEC))


def run(progs):
    R = Report('C03', 'interprocedural modification analysis: for each function the set of pointer parameters whose memory may be '
               'written (by the function or anything it calls) is contained in the reviewed set spec/mods.json')
    T = table()
    for cfgname, P in progs.items():
        M = modref.ModRef(P)
        hit = set()
        for f in P.fns.values():
            g = PREC.sub('', f.name)
            t = T.get(g)
            if t is None or len(t['params']) != len(f.params) or f.static:
                R.count('functions_through_their_callers')
                continue
            hit.add(g)
            ptr = [i for i, p in enumerate(f.params) if '*' in p[2] or ']' in p[2]]
            R.count('functions')
            R.count('pointer_operands', len(ptr))
            R.count('read_only_operands', len([i for i in ptr if i not in t['mods']]))
            for i in sorted(x for x in M.mods[f] if not isinstance(x, str)):
                if i in t['mods']:
                    continue
                w = M.where[f].get(i)
                R.viol('%s:%d' % (g, i), '%s (src/%s:%d): operand `%s` is read-only but may be written by `%s` '
                       '[configuration %s]' % (f.name, f.file, w.line if w is not None else f.line, f.params[i][0],
                                               show(w)[:120] if w is not None else '?', cfgname))
            if len(R.samples) < 12 and len(ptr) > 1 and M.mods[f]:
                R.sample('%s: writes %s, reads %s' % (f.name, [f.params[i][0] for i in ptr if i in M.mods[f]],
                                                      [f.params[i][0] for i in ptr if i not in M.mods[f]]))
        R.count('call_sites_resolved', sum(len(M.data[f][2]) for f in P.fns.values()))
        if cfgname == 'B' and len(hit) < 0.9 * len(T):
            raise Broken('only %d of %d reviewed functions found' % (len(hit), len(T)))
    R.floor('functions', 1500)
    R.floor('read_only_operands', 1500)
    R.assume = ['external routines write exactly the arguments listed in modref.EXT',
                'spec/mods.json states what each operation is documented to update',
                'memory is reached only through pointers derived from the arguments (no integer-to-pointer casts)']
    return R
