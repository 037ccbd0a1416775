"""C05: matrices never share storage.

Two facts per function, from modref.ModRef: the parameters a returned pointer may point into (or
whose pointers the returned object may hold), and the pairs (i, j) such that an object reached from
parameter j may hold pointers into memory of parameter i.  Only the element accessors listed in
spec/mods.json return a pointer into their operand, and no function links two operands."""
import os, re, json
from core import show, walk
from ownership import strip
from report import Report, Broken
import modref, build
from c03 import table, PREC


def run(progs):
    R = Report('C05', 'interprocedural points-to analysis of parameters: no returned object holds or points into memory of an operand '
               '(except the accessors listed in spec/mods.json), no operand is made to hold pointers into another operand or into '
               'static storage')
    T = table()
    for cfgname, P in progs.items():
        M = modref.ModRef(P)
        for f in P.fns.values():
            g = PREC.sub('', f.name)
            t = T.get(g)
            if t is not None and len(t['params']) != len(f.params):
                t = None
            par = [p[0] for p in f.params]
            nm = lambda i: i if isinstance(i, str) else '`%s`' % par[i]
            asg, writes, calls, rets, _ = M.data[f]
            R.count('pointer_assignments', sum(1 for _, e in asg if '*' in e.ty))
            if f.static or g not in T:
                R.count('functions_through_their_callers')
                continue
            R.count('functions')
            if f.ret.endswith('*'):
                R.count('returned_objects')
            allowed = t['ret'] if t is not None else []
            anystatic = any(isinstance(x, str) for x in allowed)
            for i in sorted(M.ret[f], key=str):
                if i in allowed or isinstance(i, str) and anystatic:
                    R.count('reviewed_accessor_results')
                    continue
                R.viol('returns:%s:%s' % (g, i if not isinstance(i, str) else 'static'),
                       '%s (src/%s:%d): the returned object shares memory with %s [configuration %s]' %
                       (f.name, f.file, f.line, nm(i), cfgname))
            for i, j in sorted(M.links[f], key=str):
                R.viol('links:%s:%s:%d' % (g, i if not isinstance(i, str) else 'static', j),
                       '%s (src/%s:%d): %s is made to hold a pointer into memory of %s [configuration %s]' %
                       (f.name, f.file, f.line, nm(j), nm(i), cfgname))
            if len(R.samples) < 12 and f.ret.endswith('*') and f.params and 'copy' in f.name:
                R.sample('%s: result holds no memory of %s' % (f.name, ', '.join(par)))
    R.floor('functions', 1500)
    R.floor('returned_objects', 400)
    R.floor('pointer_assignments', 3000)
    R.floor('reviewed_accessor_results', 20)
    R.assume = ['pointers are copied only by assignment, initialisation, structure assignment and memcpy of pointer arrays',
                'MPI handles are values, not storage of a matrix']
    return R
