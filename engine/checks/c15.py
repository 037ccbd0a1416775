"""C15: the element and row accessors reject an index outside the matrix before it addresses storage.

For each public accessor and each row or column index it takes, every use of the index must be reached only where it
is provably at least zero and below the matrix dimension: in the accessor itself, or in each function it hands the
index to (followed into the format and element-type variants), in a difference-bound analysis of each function."""
from core import walk, kids, show, N
from ownership import strip
from report import Report, Broken
from sym import Poly, ZERO, Atom, strip_int
from zone import Zone
from cfg import fatal_call
import modref, re, c06

ACCESSORS = {'bml_get_element': (1, 2), 'bml_get_row': (1,), 'bml_set_element': (1, 2), 'bml_set_element_new': (1, 2), 'bml_set_row': (1,)}
DIM = {'N', 'N_'}


class IdxZone(Zone):
    def trackable(self, a):
        return dimension(self, a) or super().trackable(a)

    def events(self, n, out):
        # the dimension of a matrix does not change here
        super().events(n, out)


def dimension(Z, a):
    n = strip(a.node) if a.node is not None else None
    while n is not None and n.k == 'cast':
        n = strip(n.c[0])
    if n is not None and n.k == 'call' and n.a and re.match(r'bml_get_N(_\w+)?$', n.a[0]):
        return True
    return a.key.startswith('<') and bool(a.mem) and a.mem[0].fields() and a.mem[0].fields()[-1] in DIM and len(a.mem[0].fields()) == 1


class Checker:
    def __init__(self, P, M, acc, rep):
        self.P, self.M, self.acc, self.rep, self.memo = P, M, acc, rep, {}

    def validated(self, f, j, depth=0):
        """[] if every use of parameter j of f is validated, else [message]"""
        k = (f.name, f.main, j)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        if depth > 6:
            return []
        Z = IdxZone(self.P, f, self.M, self.acc, (), lambda z, a: [])
        S = Z.S
        pid, pname = f.params[j][1], f.params[j][0]
        p = Poly.atom(S.varatom(N('ref', 0, 'int', (pname, pid, 'parm'), [])))
        dims, uses = {}, []
        for b in Z.cfg.live:
            if b.ast is None or b.kind in ('fatal', 'omp', 'ompend'):
                continue
            for x in walk(b.ast):
                if x.k in ('call', 'mem', 'ref') and (x.k != 'ref' or S.single(x) is not None):
                    if not (x.ty.startswith('int') or x.ty == ''):
                        continue
                    for a in S.poly(x).atoms():
                        base = a
                        if dimension(Z, a):
                            dims[a.key] = a
            if b.kind == 'branch':
                e = strip(b.ast)
                if self.compares(Z, e, p):
                    continue
            for u in self.use(b.ast, pid):
                uses.append((b, u))
        qs = [p] + [Poly.atom(a) for a in dims.values()]
        Z.prepare(qs)
        Z.run()
        bad = []
        for b, u in uses:
            D = Z.within(b, u)
            if D is None:
                continue
            self.rep.count('index_uses')
            if Z.le(D, ZERO, p, 0) and any(Z.le(D, p, Poly.atom(a), -1) for a in dims.values()):
                self.rep.count('uses_guarded')
                continue
            if u.k == 'call' and u.a:
                g = self.P.lookup(u.a[0], f)
                if g is not None:
                    js = [i for i, a in enumerate(u.c[1:]) if strip_int(a).k == 'ref' and strip_int(a).a[1] == pid]
                    direct = len(js) == sum(1 for y in walk(u) if y.k == 'ref' and y.a[1] == pid)
                    if js and direct:
                        for i in js:
                            if i < len(g.params):
                                self.rep.count('uses_followed')
                                bad += self.validated(g, i, depth + 1)
                        continue
            bad.append('%s (%s:%d): `%s` uses index `%s` before it is known to be within the matrix' % (f.name, f.main, u.line, show(u)[:80], pname))
        self.memo[k] = bad[:4]
        return self.memo[k]

    def compares(self, Z, e, p):
        """A condition that only compares the index."""
        if e.k == 'bin' and e.a in ('&&', '||'):
            return self.compares(Z, strip(e.c[0]), p) and self.compares(Z, strip(e.c[1]), p)
        if e.k == 'un' and e.a == '!':
            return self.compares(Z, strip(e.c[0]), p)
        if e.k == 'bin' and e.a in ('<', '<=', '>', '>=', '==', '!='):
            return not any(y.k in ('idx',) for y in walk(e)) and not any(y.k == 'un' and y.a == '*' for y in walk(e))
        return False

    def use(self, n, pid):
        """Outermost calls, or expressions, in which the parameter occurs."""
        out = []

        def go(x):
            if x.k == 'call':
                if fatal_call(x) or x.a and x.a[0] in ('bml_log_real', 'bml_log', '__assert_fail'):
                    return
                if any(strip_int(a).k == 'ref' and strip_int(a).a[1] == pid for a in x.c[1:]):
                    out.append(x)
                    return
            if x.k == 'ref' and x.a[1] == pid:
                out.append(x)
                return
            if x.k == 'decl':
                for v in x.a:
                    if v.init is not None:
                        go(v.init)
                return
            if x.k == 'bin' and x.a in ('<', '<=', '>', '>=', '==', '!=') and not any(y.k == 'idx' for y in walk(x)):
                return
            for c in kids(x):
                go(c)
        go(n)
        return out


def run(progs):
    rep = Report('C15', __doc__.strip())
    for cfg, P in progs.items():
        M = modref.ModRef(P)
        acc = c06.Access(P, M)
        C = Checker(P, M, acc, rep)
        entries = [(n, js) for n, js in ACCESSORS.items()]
        fmt = r'(?:_(?:dense|ellpack|csr|ellblock|distributed2d)(?:_(?:single|double)_(?:real|complex))?)'
        for g in list(P.fns.values()):
            m = re.match(r'(bml_(?:get|set)_(?:element_new|element|row))%s$' % fmt, g.name)
            if m:
                entries.append((g.name, ACCESSORS[m.group(1)]))
            elif re.match(r'bml_get_csr(?:_(?:single|double)_(?:real|complex))?$', g.name):
                entries.append((g.name, (1, 2)))
        for name, js in entries:
            f = P.lookup(name, None)
            if f is None:
                raise Broken('accessor %s not found' % name)
            for j in js:
                rep.count('indices')
                for m in C.validated(f, j):
                    rep.viol('%s' % (re.sub(r':\d+\)', ')', re.sub(r'_(single|double)_(real|complex)', '', m)))[:120], m)
    rep.floor('indices', 80)
    rep.floor('index_uses', 80)
    return rep
