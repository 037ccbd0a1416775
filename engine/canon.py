"""Names-independent text of an expression of a helper-expanded function: parameters by position, locals by their
single definition, matrix metadata read through a field or its accessor alike."""
import re
from core import N, kids, show
from ownership import strip, isptr
from sym import Sym, Poly, ZERO, strip_int, isarr

META = {'N': 'N', 'N_': 'N', 'M': 'M', 'NZMAX_': 'M', 'matrix_type': 'type', 'matrix_precision': 'precision',
        'distribution_mode': 'mode', 'NB': 'NB', 'MB': 'MB'}
ACC = re.compile(r'^bml_get_(N|M|type|precision|distribution_mode)(?:_(?:dense|ellpack|csr|ellblock|distributed2d))?$')
ACCN = {'distribution_mode': 'mode'}


class Canon:
    def __init__(self, P, f, M, S=None):
        self.P, self.f, self.M = P, f, M
        self.S = S or Sym(P, f, None, M)
        self.depth = 0
        self.this = None            # root of the object called `this`

    def poly(self, q):
        if not q.t:
            return '0'
        out = []
        for m, c in q.t.items():
            s = '*'.join(sorted(self.atom(a) for a in m))
            out.append(s if c == 1 and s else '%d%s' % (c, '*' + s if s else ''))
        return '+'.join(sorted(out))

    def atom(self, a):
        return self.node(a.node) if a.node is not None else '?' + a.key

    def expr(self, n):
        """Canonical text of n."""
        n = strip(n)
        if self.depth > 25:
            return '?deep'
        self.depth += 1
        try:
            if isptr(n.ty) or isarr(n.ty):
                if n.k == 'str':
                    return repr(n.a)
                ps = self.S.val(n)
                return '|'.join(sorted(set(self.path(p) for p in ps)))
            if n.ty.startswith(('float', 'double', '_Complex')) or n.k in ('float', 'flt'):
                return self.node(n)
            return self.poly(self.S.poly(n))
        finally:
            self.depth -= 1

    def path(self, p, value=True):
        r = p.root
        if r[0] == 'null':
            return 'NULL'
        if r[0] == 'func':
            return r[1]
        sels = list(p.sels)
        if self.this is not None and r[:2] == self.this:
            s = 'this'
        elif r[0] == 'parm':
            s = '$%d' % self.S.params[r[1]]
        elif r[0] == 'static':
            s = 'static ' + r[1]
        elif r[0] == 'alloc':
            s = 'new'
        elif r[0] == 'call':
            s = self.call(p.node) if p.node is not None else r[2]
        elif r[0] == 'var':
            v = self.S.vars.get(r[1])
            s = 'local(%s)' % (v.ty if v is not None else '?')
        else:
            s = '?'
        # a pointer to the start of the object is the object
        i = 0
        out = s
        while i < len(sels):
            k, v = sels[i]
            if k == 'i':
                if not (v == ZERO):
                    out += '[%s]' % self.poly(v)
                elif i + 1 == len(sels):
                    pass
            else:
                out = '%s.%s' % (out, v) if not (v in META and i + 1 == len(sels) and not value) else '%s(%s)' % (META[v], out)
            i += 1
        return out

    def call(self, n):
        nm = n.a[0] if n.a else '?'
        m = ACC.match(nm)
        if m and len(n.c) == 2:
            return '%s(%s)' % (ACCN.get(m.group(1), m.group(1)), self.expr(n.c[1]))
        if len(n.c) > 14:
            return nm + '(...)'
        return '%s(%s)' % (nm, ', '.join(self.expr(x) for x in n.c[1:]))

    def node(self, n):
        n = strip(n)
        while n.k == 'cast':
            n = strip(n.c[0])
        k = n.k
        S = self.S
        if self.depth > 25:
            return '?deep'
        self.depth += 1
        try:
            if k == 'ref':
                d = S.single(n)
                if d is not None and n.a[1] not in S.busy:
                    S.busy.add(n.a[1])
                    r = self.expr(d)
                    S.busy.discard(n.a[1])
                    return r
                if n.a[1] in S.params and not S.defs.get(n.a[1]):
                    return '$%d' % S.params[n.a[1]]
                if n.a[2] in ('global', 'slocal', 'func'):
                    return n.a[0]
                return self.accum(n) or self.handed(n) or 'var(%s)' % n.ty
            if k == 'mem' or k == 'idx' or k == 'un' and n.a == '*':
                ps = S.lval(n)
                return '|'.join(sorted(set(self.path(p, False) for p in ps)))
            if k == 'call':
                return self.call(n)
            if k in ('int', 'float', 'flt', 'chr'):
                return str(n.a)
            if k == 'enum':
                return n.a[0]
            if k == 'str':
                return repr(n.a)
            if k == 'sizeof':
                return 'sizeof(%s)' % (n.a[0] if isinstance(n.a, (tuple, list)) else n.a)
            if k == 'bin':
                a, b = self.expr(n.c[0]), self.expr(n.c[1])
                if n.a in ('+', '*', '==', '!=', '&&', '||') and b < a:
                    a, b = b, a
                if n.a in ('>', '>='):
                    return '(%s%s%s)' % (b, '<' if n.a == '>' else '<=', a)
                return '(%s%s%s)' % (a, n.a, b)
            if k == 'un':
                return '(%s%s)' % (n.a, self.expr(n.c[0]))
            if k == 'cond':
                return '(%s?%s:%s)' % tuple(self.expr(x) for x in n.c[:3])
            return '%s(%s)' % (k, ','.join(self.expr(x) for x in kids(n)))
        finally:
            self.depth -= 1

    def handed(self, n):
        """A local that is only ever set by one call it is handed to by address."""
        from core import walk
        i = n.a[1]
        if any(d is not None for d in self.S.defs.get(i, ())):
            return None
        by = set()
        for x in walk(self.S.body):
            if x.k == 'call':
                for a in x.c[1:]:
                    a = strip(a)
                    if a.k == 'un' and a.a == '&' and strip(a.c[0]).k == 'ref' and strip(a.c[0]).a[1] == i:
                        by.add(x.a[0] if x.a else '?')
            elif x.k == 'asg' and strip(x.c[0]).k == 'ref' and strip(x.c[0]).a[1] == i:
                return None
        return 'set by ' + by.pop() if len(by) == 1 and '?' not in by else None

    def accum(self, n):
        """A local that starts at a constant and only sums the elements of one array."""
        ds = self.S.defs.get(n.a[1], [])
        from core import walk
        inc = [x for x in walk(self.S.body) if x.k == 'asg' and strip(x.c[0]).k == 'ref' and strip(x.c[0]).a[1] == n.a[1] and x.a == '+=']
        oth = [d for d in ds if d is not None]
        if len(inc) == 1 and len(oth) == 1 and len(ds) == 2 and strip_int(oth[0]).k == 'int':
            e = strip_int(inc[0].c[1])
            if e.k == 'idx':
                ps = self.S.val(e.c[0])
                return 'sum(%s)' % '|'.join(self.path(p) for p in ps)
        return None
