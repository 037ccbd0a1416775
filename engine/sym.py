"""Symbolic index polynomials and object paths of one helper-expanded function body.

A path names a storage location: a root (parameter, variable, allocation, static object) and a sequence of
selectors, ('f', field) or ('i', polynomial).  The location a pointer variable with one definition points to is
the location its definition points to; a pointer with several definitions stands for all of them."""
from core import walk, kids, show, N
from ownership import strip, isptr

ALLOCS = {'malloc', 'calloc', 'bml_allocate_memory', 'bml_noinit_allocate_memory', 'strdup', 'bml_reallocate_memory', 'realloc'}


def isarr(ty):
    return ty.rstrip().endswith(']')


class Atom:
    __slots__ = ('key', 'deps', 'mem', 'node')

    def __init__(self, key, deps, mem, node):
        self.key, self.deps, self.mem, self.node = key, frozenset(deps), tuple(mem), node

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return self.key


class Poly:
    """Integer polynomial: {sorted tuple of atoms: coefficient}."""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}

    @staticmethod
    def const(k):
        return Poly({(): k})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def isconst(self):
        return all(m == () for m in self.t)

    def value(self):
        return self.t.get((), 0) if self.isconst() else None

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def split(self, a):
        """self = a*S + r with a not in r -> (S, r); None if a occurs squared."""
        s, r = {}, {}
        for m, c in self.t.items():
            k = m.count(a)
            if k == 0:
                r[m] = c
            elif k == 1:
                l = list(m)
                l.remove(a)
                s[tuple(l)] = c
            else:
                return None
        return Poly(s), Poly(r)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), [a.key for a in x[0]])):
            s = '*'.join(a.key for a in m)
            out.append(s if c == 1 and s else '%d%s' % (c, '*' + s if s else ''))
        return ' + '.join(out)


class Path:
    __slots__ = ('root', 'sels', 'node')

    def __init__(self, root, sels=(), node=None):
        self.root, self.sels, self.node = root, tuple(sels), node

    def field(self, f):
        return Path(self.root, self.sels + (('f', f),), self.node)

    def index(self, p):
        return Path(self.root, self.sels + (('i', p),), self.node)

    def shift(self, p):
        if self.sels and self.sels[-1][0] == 'i':
            return Path(self.root, self.sels[:-1] + (('i', self.sels[-1][1] + p),), self.node)
        return self.index(p)

    @property
    def key(self):
        return (self.root[:2], self.sels)

    def fields(self):
        return tuple(s[1] for s in self.sels if s[0] == 'f')

    def __repr__(self):
        s = self.root[2] if len(self.root) > 2 else str(self.root[1])
        for k, v in self.sels:
            s += '.%s' % v if k == 'f' else '[%r]' % v
        return s


ZERO, ONE = Poly(), Poly.const(1)


class Sym:
    def __init__(self, P, f, body=None, M=None):
        self.P, self.f, self.M = P, f, M
        self.body = body if body is not None else P.nf(f)
        self.defs, self.vars, self.addr, self.inc = {}, {}, set(), set()
        self.params = {p[1]: i for i, p in enumerate(f.params)}
        self.pname = {p[1]: p[0] for p in f.params}
        self.loopvar = {}
        for x in walk(self.body):
            if x.k == 'decl':
                for v in x.a:
                    self.vars[v.id] = v
                    if v.init is not None and v.storage == 'auto':
                        self.defs.setdefault(v.id, []).append(v.init)
            elif x.k == 'asg' and x.c[0].k == 'ref':
                if x.a == '=':
                    self.defs.setdefault(x.c[0].a[1], []).append(x.c[1])
                else:
                    self.inc.add(x.c[0].a[1])
                    self.defs.setdefault(x.c[0].a[1], []).append(None)
            elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')) and strip(x.c[0]).k == 'ref':
                i = strip(x.c[0]).a[1]
                self.inc.add(i)
                self.defs.setdefault(i, []).append(None)
            elif x.k == 'un' and x.a == '&' and strip(x.c[0]).k == 'ref':
                self.addr.add(strip(x.c[0]).a[1])
        self.busy = set()
        self.memo = {}
        self.fstore = {}
        for x in walk(self.body):
            if x.k == 'asg' and strip(x.c[0]).k == 'mem' or x.k == 'un' and (x.a == '&' or x.a[:3] in ('pre', 'pos')) and strip(x.c[0]).k == 'mem':
                m = strip(x.c[0])
                b = strip(m.c[0])
                if not m.a[1] and b.k == 'ref':
                    self.fstore.setdefault((b.a[1], m.a[0]), []).append(x.c[1] if x.k == 'asg' and x.a == '=' else None)

    # ---- single definitions
    def single(self, n):
        """The expression variable reference n always equals, or None."""
        i = n.a[1]
        if n.a[2] != 'var' or i in self.params or i in self.addr or i in self.inc:
            return None
        d = self.defs.get(i, ())
        return d[0] if len(d) == 1 and d[0] is not None else None

    # ---- integers
    def poly(self, n):
        n = strip_int(n)
        k = n.k
        if k == 'int':
            return Poly.const(n.a)
        if k == 'enum' and len(n.a) > 1 and isinstance(n.a[1], int):
            return Poly.const(n.a[1])
        if k == 'sizeof' and len(n.a) > 1 and isinstance(n.a[1], int):
            return Poly.const(n.a[1])
        if k == 'ref':
            d = self.single(n)
            if d is not None and n.a[1] not in self.busy:
                self.busy.add(n.a[1])
                r = self.poly(d)
                self.busy.discard(n.a[1])
                return r
            return Poly.atom(self.varatom(n))
        if k == 'bin' and n.a in ('+', '-', '*'):
            a, b = self.poly(n.c[0]), self.poly(n.c[1])
            return a + b if n.a == '+' else a - b if n.a == '-' else a * b
        if k == 'un' and n.a == '-':
            return self.poly(n.c[0]).neg()
        if k == 'un' and n.a == '+':
            return self.poly(n.c[0])
        if k == 'asg' and n.a == '=':
            return self.poly(n.c[1])
        if k == 'mem':
            v = self.member(n)
            if v is not None:
                return v
        if k == 'un' and (n.a.startswith('post') or n.a.startswith('pre')):
            return self.poly(n.c[0])
        return Poly.atom(self.opaque(n))

    def member(self, n):
        """Value of a field whose only value is known: a local aggregate's initialiser, or what a constructor stored."""
        b = strip(n.c[0])
        if not n.a[1] and b.k == 'ref' and b.a[2] == 'var' and b.a[1] not in self.params:
            i = b.a[1]
            if i in self.addr and not self.readonly_addr(i):
                return None
            ds = self.fstore.get((i, n.a[0]), [])
            v = self.vars.get(i)
            init = v.init if v is not None else None
            if len(self.defs.get(i, ())) > (init is not None):
                return None
            if init is None and len(ds) == 1 and ds[0] is not None:
                return self.poly(ds[0])
            if init is not None and len(ds) == 1 and ds[0] is not None and self.outright(ds[0]):
                return self.poly(ds[0])
            if not ds and init is not None and strip(init).k == 'init':
                fs = self.P.recs.get(b.ty.replace('struct ', '').strip())
                if fs:
                    for k, (nm, _) in enumerate(fs):
                        if nm == n.a[0] and k < len(strip(init).c):
                            e = strip(init).c[k]
                            return self.poly(e) if e is not None and e.k != 'zero' else ZERO
            return None
        if n.a[1] and self.M is not None:
            ps = self.val(n.c[0])
            if len(ps) == 1 and ps[0].root[0] == 'call' and ps[0].sels == (('i', ZERO),):
                return self.ctor(ps[0].node, n.a[0])
        return None

    def outright(self, e):
        """Is e stored by a statement of the function's own block?"""
        st = [self.body]
        while st:
            x = st.pop()
            if x is None:
                continue
            if x.k in ('block', 'splice'):
                st += x.c
            elif x.k == 'asg' and x.c[1] is e:
                return True
        return False

    def readonly_addr(self, i):
        return False

    def ctor(self, call, field):
        """Value of a scalar field of the object a constructor call returns, in terms of this function."""
        if call is None or call.k != 'call' or not call.a or call.a[0] in ALLOCS:
            return None
        g = self.P.lookup(call.a[0], self.f)
        if g is None:
            return None
        q = ctor_field(self.P, self.M, g, field)
        if q is None:
            return None
        args, paths = {}, {}
        for j, p in enumerate(g.params):
            if j + 1 >= len(call.c):
                return None
            a = call.c[1 + j]
            if '*' in p[2] or isarr(p[2]):
                paths[p[1]] = self.val(a)
            elif p[2].startswith('struct') or p[2].replace('struct ', '') in self.P.recs:
                paths[p[1]] = self.lval(a)
                args[('struct', p[1])] = a
            elif not p[2].startswith(('double', 'float', '_Complex')):
                args[p[1]] = self.poly(a)
        r = Poly()
        for m, c in q.t.items():
            t = Poly.const(c)
            for a in m:
                n = strip(a.node) if a.node is not None else None
                if n is not None and n.k == 'mem' and not n.a[1] and strip(n.c[0]).k == 'ref' and ('struct', strip(n.c[0]).a[1]) in args:
                    t = t * self.poly(N('mem', call.line, n.ty, n.a, [args[('struct', strip(n.c[0]).a[1])]]))
                elif n is not None and n.k == 'ref' and n.a[1] in args or a.key.startswith('<') and a.mem and a.mem[0].root[0] == 'parm':
                    t = t * subst_atom(a, args, paths, call)
                else:
                    return None
            r = r + t
        return r

    def varatom(self, n):
        i = n.a[1]
        nm = n.a[0] if n.a[2] in ('parm', 'global', 'slocal') or i in self.params else '%s#%s' % (n.a[0], i)
        return Atom(nm, {i}, (), n)

    def opaque(self, n):
        """Atom for an expression that is not polynomial."""
        n0 = n
        if n.k in ('idx', 'mem') or n.k == 'un' and n.a == '*':
            ps = self.lval(n)
            if len(ps) == 1:
                p = ps[0]
                return Atom('<%r>' % p, self.path_deps(p), [p] + self.path_mem(p), n)
            deps, mem = set(), []
            for p in ps:
                deps |= self.path_deps(p)
                mem += [p] + self.path_mem(p)
            return Atom('<%s>' % '|'.join(repr(p) for p in ps), deps, mem, n)
        deps, mem, parts = set(), [], []
        for c in kids(n):
            if c.k in ('type',):
                continue
            if isptr(c.ty) or isarr(c.ty):
                ps = self.val(c)
                for p in ps:
                    deps |= self.path_deps(p)
                    mem += [p] + self.path_mem(p)
                parts.append('|'.join(repr(p) for p in ps))
            else:
                q = self.poly(c)
                for a in q.atoms():
                    deps |= a.deps
                    mem += a.mem
                parts.append(repr(q))
        op = n.a[0] if n.k == 'call' and n.a else n.a if isinstance(n.a, str) else n.k
        return Atom('(%s %s)' % (op, ' '.join(parts)), deps, mem, n0)

    def path_deps(self, p):
        s = set()
        if p.root[0] in ('var', 'parm', 'ptr'):
            s.add(p.root[1])
        for k, v in p.sels:
            if k == 'i':
                for a in v.atoms():
                    s |= a.deps
        return s

    def path_mem(self, p):
        m = []
        for k, v in p.sels:
            if k == 'i':
                for a in v.atoms():
                    m += a.mem
        return m

    # ---- storage
    def lval(self, n):
        """Paths of the storage the lvalue n designates."""
        n = strip(n)
        if n.k == 'ref':
            kind = 'static' if n.a[2] in ('global', 'slocal') else 'parm' if n.a[1] in self.params else 'var'
            return [Path((kind, n.a[1] if kind != 'static' else n.a[0], n.a[0]), (), n)]
        if n.k == 'mem':
            if n.a[1]:
                return [p.field(n.a[0]) for p in self.val(n.c[0])]
            return [p.field(n.a[0]) for p in self.lval(n.c[0])]
        if n.k == 'idx':
            a, b = n.c[0], n.c[1]
            if not (isptr(strip(a).ty) or isarr(strip(a).ty)) and (isptr(strip(b).ty) or isarr(strip(b).ty)):
                a, b = b, a
            k = self.poly(b)
            return [p.shift(k) for p in self.val(a)]
        if n.k == 'un' and n.a == '*':
            return self.val(n.c[0])
        if n.k == 'un' and n.a in ('__real', '__imag', '__extension__'):
            return self.lval(n.c[0])
        if n.k == 'cond':
            return self.lval(n.c[1]) + self.lval(n.c[2])
        return [Path(('expr', id(n), show(n)[:40]), (), n)]

    def val(self, n):
        """Locations the pointer expression n points to."""
        n = strip(n)
        k = n.k
        if k == 'ref':
            i = n.a[1]
            if n.a[2] == 'func':
                return [Path(('func', n.a[0], n.a[0]), (), n)]
            if isarr(n.ty):
                kind = 'static' if n.a[2] in ('global', 'slocal') else 'parm' if i in self.params else 'var'
                return [Path((kind, i if kind != 'static' else n.a[0], n.a[0]), (('i', ZERO),), n)]
            if n.a[2] in ('global', 'slocal'):
                return [Path(('static', n.a[0], n.a[0]), (('i', ZERO),), n)]
            ds = self.defs.get(i, [])
            own = [Path(('parm' if i in self.params else 'var', i, n.a[0]), (('i', ZERO),), n)] if i in self.params else []
            if not ds or i in self.busy or i in self.addr:
                return own or [Path(('var', i, n.a[0]), (('i', ZERO),), n)]
            if i in self.memo:
                return self.memo[i]
            self.busy.add(i)
            out = list(own)
            for d in ds:
                if d is None:
                    continue
                if strip(d).k == 'int':
                    continue
                for p in self.val(d):
                    if p.root[:2] == ('var', i):
                        continue
                    out.append(p)
            self.busy.discard(i)
            if i in self.inc:
                out = [p.shift(Poly.atom(Atom('@%s#%s' % (n.a[0], i), {i}, (), n))) for p in out]
            seen, res = set(), []
            for p in out:
                if p.key not in seen:
                    seen.add(p.key)
                    res.append(p)
            if not res or len(res) > 8:
                res = [Path(('var', i, n.a[0]), (('i', ZERO),), n)]
            if not self.busy:
                self.memo[i] = res
            return res
        if k in ('mem', 'idx') or k == 'un' and n.a == '*':
            return [p.index(ZERO) for p in self.lval(n)]
        if k == 'un' and n.a == '&':
            return self.lval(n.c[0])
        if k == 'un' and (n.a.startswith('post') or n.a.startswith('pre')):
            return self.val(n.c[0])
        if k == 'bin' and n.a in ('+', '-'):
            a, b = n.c[0], n.c[1]
            if not isptr(strip(a).ty) and not isarr(strip(a).ty):
                a, b = b, a
            q = self.poly(b)
            if n.a == '-':
                q = q.neg()
            return [p.shift(q) for p in self.val(a)]
        if k == 'cond':
            return self.val(n.c[1]) + self.val(n.c[2])
        if k == 'asg':
            return self.val(n.c[1])
        if k == 'call':
            nm = n.a[0] if n.a else '?'
            g = self.P.lookup(nm, self.f) if self.M is not None and nm not in ALLOCS else None
            if g is not None and self.M.ret[g]:
                out = []
                for j in self.M.ret[g]:
                    if isinstance(j, str):
                        out.append(Path(('static', j, j), (('i', ZERO),), n))
                    elif j + 1 < len(n.c):
                        a = Poly.atom(Atom('%s()#%d' % (nm, id(n)), {('call', id(n))}, (), n))
                        out += [p.shift(a) for p in self.val(n.c[1 + j])]
                if out:
                    return out
            return [Path(('alloc' if nm in ALLOCS else 'call', id(n), nm + '()'), (('i', ZERO),), n)]
        if k == 'int':
            return [Path(('null', 0, 'NULL'), (('i', ZERO),), n)]
        return [Path(('expr', id(n), show(n)[:40]), (('i', ZERO),), n)]


def strip_int(n):
    n = strip(n)
    while n.k == 'cast':
        n = strip(n)
    return n


# ---------------------------------------------------------------- substitution of arguments for parameters
def subst_poly(q, args, paths, node):
    r = Poly()
    for m, c in q.t.items():
        t = Poly.const(c)
        for a in m:
            t = t * subst_atom(a, args, paths, node)
        r = r + t
    return r


def subst_atom(a, args, paths, node):
    n = a.node
    if n is not None and strip(n).k == 'ref' and strip(n).a[1] in args:
        return args[strip(n).a[1]]
    if a.key.startswith('<') and len(a.mem) >= 1:
        ps = subst_path(a.mem[0], args, paths, node)
        if len(ps) == 1:
            p = ps[0]
            return Poly.atom(Atom('<%r>' % p, pdeps(p), [p], node))
    return Poly.atom(Atom('%s@%s' % (a.key, id(node)), {('callee', id(node), d) for d in a.deps} or {('callee', id(node))}, (), node))


def pdeps(p):
    s = {p.root[1]}
    for k, v in p.sels:
        if k == 'i':
            for a in v.atoms():
                s |= a.deps
    return s


def subst_path(p, args, paths, node):
    sels = [(k, subst_poly(v, args, paths, node)) if k == 'i' else (k, v) for k, v in p.sels]
    if p.root[0] != 'parm':
        return [Path(p.root, sels, node)]
    if p.root[1] not in paths:
        return [Path(('expr', (id(node), p.root[1]), p.root[2]), sels, node)]
    out = []
    for b in paths[p.root[1]]:
        q = Path(b.root, b.sels, node)
        rest = sels
        if rest and rest[0][0] == 'i':
            q = q.shift(rest[0][1])
            rest = rest[1:]
        out.append(Path(q.root, q.sels + tuple(rest), node))
    return out


_ctor = {}


def ctor_field(P, M, g, field, depth=0):
    """The polynomial over g's parameters that g stores in `field` of the object it returns, or None."""
    k = (id(P), g, field)
    if k in _ctor:
        return _ctor[k]
    _ctor[k] = None
    if depth > 6:
        return None
    S = Sym(P, g, None, M)
    rets = [x.c[0] for x in walk(S.body) if x.k == 'return' and x.c and x.c[0] is not None]
    out = []
    for r in rets:
        ps = [p for p in S.val(r) if p.root[0] != 'null']
        if len(ps) != 1 or ps[0].sels != (('i', ZERO),):
            return None
        p = ps[0]
        if p.root[0] == 'call':
            q = S.ctor(p.node, field)
            st = [x for x in walk(S.body) if x.k in ('asg', 'un') and strip(x.c[0]).k == 'mem' and strip(x.c[0]).a[0] == field
                  and x.a not in ('&', '*') and any(t.root[:2] == p.root[:2] for t in S.lval(x.c[0]))]
            if st:
                q = None
        elif p.root[0] == 'alloc':
            vals = []
            for x in walk(S.body):
                if x.k == 'asg' and strip(x.c[0]).k == 'mem' and strip(x.c[0]).a[0] == field:
                    t = S.lval(x.c[0])
                    if len(t) == 1 and t[0].root[:2] == p.root[:2] and len(t[0].sels) == 2:
                        vals.append(S.poly(x.c[1]) if x.a == '=' else None)
            q = vals[0] if vals and all(v is not None and v == vals[0] for v in vals) else None
        else:
            q = None
        out.append(q)
    if not out or any(q is None or q != out[0] for q in out):
        return None
    q = out[0]
    for a in q.atoms():
        n = strip(a.node) if a.node is not None else None
        if not (n is not None and n.k == 'ref' and n.a[1] in S.params and len(S.defs.get(n.a[1], ())) == 0 or
                a.key.startswith('<') and a.mem and a.mem[0].root[0] == 'parm'):
            return None
    _ctor[k] = q
    return q
