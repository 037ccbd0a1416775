"""C12: results keep the precision and the complexity of the elements.

Precision: no value in code compiled for double precision elements, and no scalar handed through the dispatchers, is ever converted to
a single precision type or held in one, and no value is converted to an integer and back.  Complexity: in code compiled for complex
elements, a value that lost an imaginary part (real part, modulus, conversion to real) that is not known to be zero never becomes an
element of a matrix."""
import re
from core import walk, kids, show, N
from ownership import strip
from sym import Sym
from report import Report
from c11 import plain, pointee, STORAGE, PREC, variant

SINGLE = ('float', '_Complex float')
LOSSY = re.compile(r'^(creal|cabs|cimag|carg)f?l?$')
LITERAL = ('float', 'imag', 'int', 'flt', 'char')
# operations whose returned arrays are real quantities by definition: sums of moduli, eigenvalue bounds
REALRESULT = re.compile(r'^bml_(accumulate_offdiag|gershgorin|gershgorin_partial|multiply_x2|multiply_AA|multiply|diagonalize)')


def literal(e):
    e = strip(e)
    if e.k in ('un', 'paren', 'cast'):
        return literal(e.c[0])
    if e.k == 'bin':
        return literal(e.c[0]) and literal(e.c[1])
    return e.k not in ('ref', 'mem', 'idx', 'call', 'un', 'cond', 'asg', 'stmtexpr', 'sizeof')


CACHE = {}


class Fun:
    def __init__(self, P, f, rep):
        self.P, self.f, self.rep = P, f, rep
        self.prec, self.kind = variant(f)
        self.S = Sym(P, f, None, None)
        self.defs = None

    def viol(self, x, why):
        t = re.sub(r'\b(float|double)\b', 'T', show(x))
        self.rep.viol('%s:%s' % (PREC.sub('', self.f.name), PREC.sub('', t)[:80]),
                      '%s (%s:%d): `%s` %s' % (self.f.name, self.f.main, x.line, show(x)[:100], why))

    # ---- precision
    def precision(self):
        rep = self.rep
        for x in walk(self.f.body):
            if x.k == 'decl' and self.prec == 'double':
                for v in x.a:
                    if re.sub(r'[\s*]|\[\d*\]|const', '', v.ty) in ('float', '_Complexfloat'):
                        self.viol(N('ref', x.line, v.ty, [v.name, 0, 'var'], []), 'is a single precision variable in code for double precision elements')
            if x.k != 'cast':
                continue
            kind = x.a[0]
            src, dst = plain(x.c[0].ty), plain(x.ty)
            if kind == 'FloatingToIntegral' and dst != '_Bool':
                rep.count('conversions_to_integers')
                if self.prec and not literal(x.c[0]) and not self.whole(x):
                    self.viol(x, 'is cut to an integer')
                continue
            if not (kind.startswith('Floating') or kind == 'IntegralToFloating'):
                continue
            rep.count('floating_conversions')
            if literal(x.c[0]):
                continue
            if self.prec == 'double' and (src in SINGLE or dst in SINGLE):
                self.viol(x, 'passes through single precision (%s to %s)' % (src, dst))
            elif self.prec is None and dst in SINGLE and src not in SINGLE and kind != 'IntegralToFloating':
                self.viol(x, 'is converted to single precision (%s to %s)' % (src, dst))

    def whole(self, x):
        """A conversion used as a size or index, of a value that is not an element (sizes scaled by a factor)."""
        return not any(y.k in ('idx', 'mem', 'ref') and plain(y.ty) in ('float', 'double', '_Complex float', '_Complex double')
                       for y in walk(x.c[0]))

    # ---- complexity
    def collect(self):
        """Assigned expressions per local variable, elements of local arrays included."""
        self.defs, self.loc = {}, {}
        for x in walk(self.f.body):
            if x.k == 'decl':
                for v in x.a:
                    self.loc[v.id] = v
                    if v.init is not None:
                        for c in (v.init.c if v.init.k == 'init' else [v.init]):
                            self.defs.setdefault(v.id, []).append(c)
            elif x.k == 'asg':
                b = self.base(x.c[0])
                if b is not None:
                    self.defs.setdefault(b, []).append(x.c[1])

    def base(self, l):
        l = strip(l)
        while l.k in ('idx', 'paren') or (l.k == 'un' and l.a == '*') or (l.k == 'bin' and l.a in ('+', '-')):
            l = strip(l.c[0])
        return l.a[1] if l.k == 'ref' and l.a[1] in self.loc else None

    def real(self, e, seen=()):
        """The value is real whatever its type."""
        if not plain(e.ty).startswith('_Complex'):
            return True
        if e.k == 'cast':
            return e.a[0] == 'FloatingRealToComplex' or self.real(e.c[0], seen)
        if e.k in ('paren',) or (e.k == 'un' and e.a in ('-', '+')):
            return self.real(e.c[0], seen)
        if e.k == 'bin' and e.a in ('+', '-', '*', '/'):
            return self.real(e.c[0], seen) and self.real(e.c[1], seen)
        if e.k == 'cond':
            return self.real(e.c[1], seen) and self.real(e.c[2], seen)
        if e.k == 'ref':
            if e.a[1] in seen:
                return True
            d = self.defs.get(e.a[1])
            return bool(d) and e.a[1] in self.loc and pointee(self.loc[e.a[1]].ty) is None and all(self.real(c, seen + (e.a[1],)) for c in d)
        return False

    def lossy(self, e, seen=()):
        """Why the value is what is left of a complex number: the conversion that dropped the imaginary part; None otherwise."""
        if e is None or plain(e.ty).startswith(('int', 'long', 'unsigned', '_Bool')) or plain(e.ty) == 'char':
            return None
        if e.k == 'call':
            if e.a and LOSSY.match(e.a[0]) and not self.real(e.c[1] if len(e.c) > 1 else e.c[0], ()):
                return e
            if e.a and re.match(r'(fabs|sqrt|pow|csqrt|conj|exp)f?$', e.a[0]):
                return self.lossy(e.c[1], seen)
            if e.a and self.returns_lossy(e.a[0]) and not all(self.real(c) for c in e.c[1:] if plain(c.ty).startswith('_Complex')):
                return e
            return None
        if e.k == 'un' and e.a in ('__real', '__imag'):
            return e if not self.real(e.c[0]) else None
        if e.k == 'cast':
            if e.a[0] == 'FloatingComplexToReal' and not self.real(e.c[0]):
                return e
            return self.lossy(e.c[0], seen)
        if e.k == 'paren' or (e.k == 'un' and e.a in ('-', '+')):
            return self.lossy(e.c[0], seen)
        if e.k == 'bin' and e.a in ('+', '-', '*', '/'):
            p = self.parts(e)
            if p is not None and p[0] & p[1]:
                return None
            a, b = self.lossy(e.c[0], seen), self.lossy(e.c[1], seen)
            if e.a in ('*', '/'):
                # the modulus as a factor of a complex value loses nothing
                if (a is not None and self.full(e.c[1])) or (b is not None and self.full(e.c[0])):
                    return None
            return a if a is not None else b
        if e.k == 'cond':
            a = self.lossy(e.c[1], seen)
            return a if a is not None else self.lossy(e.c[2], seen)
        if e.k in ('ref', 'idx') or (e.k == 'un' and e.a == '*'):
            b = self.base(e)
            if b is None or b in seen:
                return None
            for d in self.defs.get(b, ()):
                if plain(d.ty).endswith('*'):
                    continue
                r = self.lossy(d, seen + (b,))
                if r is not None:
                    return r
        if e.k == 'asg':
            return self.lossy(e.c[1], seen)
        return None

    def returns_lossy(self, name):
        """A function of the library whose scalar result is what is left of a complex argument."""
        if name in CACHE:
            return CACHE[name]
        CACHE[name] = False
        g = self.P.lookup(name, self.f)
        if g is not None and g.body is not None and any(plain(v[2]).startswith('_Complex') and pointee(v[2]) is None for v in g.params):
            F = Fun(self.P, g, self.rep)
            F.collect()
            for x in walk(g.body):
                if x.k == 'return' and x.c and x.c[0] is not None and F.lossy(x.c[0]) is not None:
                    CACHE[name] = True
        return CACHE[name]

    def parts(self, e):
        """(operands whose real part, operands whose imaginary part) occur in e."""
        re_, im = set(), set()
        for y in walk(e):
            if y.k == 'call' and y.a and re.match(r'c(real|imag)f?l?$', y.a[0]):
                (re_ if 'real' in y.a[0] else im).add(show(strip(y.c[1])))
        return (re_, im) if re_ and im else None

    def full(self, e):
        return plain(e.ty).startswith('_Complex') and not self.real(e) and self.lossy(e) is None

    def sink(self, l, depth=0):
        """The lvalue is an element of a matrix or of a buffer of the caller."""
        l = strip(l)
        if depth > 8:
            return False
        if l.k in ('idx',) or (l.k == 'un' and l.a == '*') or l.k == 'paren':
            return self.sink(l.c[0], depth + 1)
        if l.k == 'bin':
            return self.sink(l.c[0], depth + 1) or (l.a == '+' and self.sink(l.c[1], depth + 1))
        if l.k == 'mem':
            return l.a[0] in STORAGE
        if l.k == 'un' and l.a == '&':
            return self.sink(l.c[0], depth + 1)
        if l.k == 'call':
            return bool(l.a) and bool(re.search(r'get_column_entries|bml_get_', l.a[0]))
        if l.k == 'ref':
            if l.a[1] in self.S.params:
                return pointee(l.ty) is not None
            d = self.S.single(l)
            return d is not None and pointee(l.ty) is not None and self.sink(d, depth + 1)
        return False

    def complexity(self):
        rep = self.rep
        self.collect()
        owner = REALRESULT.match(PREC.sub('', self.f.name)) is not None
        for x in walk(self.f.body):
            if x.k == 'asg' and plain(strip(x.c[0]).ty).startswith('_Complex') and strip(x.c[0]).k in ('idx', 'un'):
                if self.sink(x.c[0]):
                    rep.count('complex_elements_stored')
                    r = self.lossy(x.c[1])
                    if r is not None:
                        self.viol(x, 'stores in an element a value that lost its imaginary part in `%s`' % show(r)[:60])
            elif x.k == 'call' and x.a and re.search(r'set_(row|element|diagonal)|scale|_add', x.a[0]):
                for a in x.c[1:]:
                    a = strip(a)
                    if a.k == 'un' and a.a == '&' and plain(strip(a.c[0]).ty).startswith('_Complex'):
                        a = a.c[0]
                    elif not (plain(a.ty).startswith('_Complex') and (pointee(a.ty) or 1)):
                        continue
                    rep.count('complex_arguments')
                    r = self.lossy(a)
                    if r is not None:
                        self.viol(x, 'hands on as an element a value that lost its imaginary part in `%s`' % show(r)[:60])
            elif x.k == 'return' and x.c and x.c[0] is not None and not owner:
                b = strip(x.c[0])
                if b.k == 'ref' and pointee(b.ty) in ('_Complex float', '_Complex double') and b.a[1] in self.loc:
                    rep.count('complex_arrays_returned')
                    for d in self.defs.get(b.a[1], ()):
                        r = None if plain(d.ty).endswith('*') else self.lossy(d)
                        if r is not None:
                            self.viol(x, 'returns elements that lost their imaginary part in `%s`' % show(r)[:60])
                            break

    def run(self):
        self.rep.count('functions')
        self.precision()
        if self.kind == 'complex':
            self.complexity()


def run(progs):
    rep = Report('C12', __doc__.strip())
    for cfg, P in progs.items():
        CACHE.clear()
        for f in P.fns.values():
            Fun(P, f, rep).run()
    rep.floor('floating_conversions', 1500)
    rep.floor('complex_elements_stored', 200)
    rep.assume.append('norms, traces, sums of squares, eigenvalue bounds, thresholds and printed values are real by definition')
    return rep
