"""C13: nothing is read before it was written.

Definite assignment on all paths of every function (helpers expanded): scalar variables, fields of local structures, OpenMP private
copies, and the elements of scratch arrays and of memory requested without clearing.  An element counts as written when the whole
buffer was filled on the path (clearing call, copy, or a loop over all its elements), when the same element was written, when a mark
that is only ever set together with the element says so, or when its position comes from a list of positions that were written."""
import re
from core import walk, kids, show, N
from cfg import CFG
from ownership import strip
from sym import Sym
from report import Report
from c11 import plain, pointee, PREC

CLEARED = {'calloc', 'bml_allocate_memory'}
RAW = {'malloc', 'bml_noinit_allocate_memory'}
# constructors of matrices whose elements are left unset
NOINIT = re.compile(r'^bml_noinit_(rectangular_)?matrix(_dense|_distributed2d|$)')
# calls that touch a matrix without giving all its elements a value
PARTIAL = re.compile(r'get_|deallocate|free|print|write|set_element|set_row|set_diagonal|add_identity|assign_submatrix|domain|threshold|scale_inplace')
COUNTS = {'nnz', 'nnzb', 'NNZ_'}
FILL = {'memset': 2, 'memcpy': 2, 'memmove': 2}
# library routines that only read the scalars passed by address (the vectors and matrices they update are pointers already)
READS = re.compile(r'^[sdcz](d|s)?(gemm|gemv|scal|axpy|nrm2|asum|dot|dotu|dotc|copy|swap|symm|syrk|ger)_?$')


def lv(e):
    e = strip(e)
    while e.k == 'paren':
        e = strip(e.c[0])
    return e


ELEMENTARY = {'int', 'float', 'double', '_Complex float', '_Complex double', 'float _Complex', 'double _Complex', 'long', 'unsigned long', 'char'}


class Fun:
    def __init__(self, P, f, rep):
        self.P, self.f, self.rep = P, f, rep
        self.body = P.nf(f)
        self.S = Sym(P, f, self.body, None)
        self.V = {}
        for x in walk(self.body):
            if x.k == 'decl':
                for v in x.a:
                    if v.storage not in ('static', 'extern'):
                        self.V[v.id] = v
        self.size = {}
        self.buf = {}
        for i, v in self.V.items():
            if v.ty.endswith(']'):
                if v.init is None:
                    m = re.search(r'\[(\d*)\]$', v.ty)
                    self.buf[i] = 'array'
                    if v.vla is not None:
                        self.size[i] = repr(self.S.poly(v.vla))
                    elif m and m.group(1):
                        self.size[i] = m.group(1)
            elif pointee(v.ty):
                for d in self.S.defs.get(i, ()):
                    c = strip(d) if d is not None else None
                    if c is not None and c.k == 'call' and c.a and c.a[0] in RAW:
                        self.buf[i] = 'memory'
                        if 'memory' not in self.defs_kind(i):
                            self.size[i] = self.bytes(c.c[1])
                    elif c is not None and c.k == 'call' and c.a and NOINIT.search(c.a[0]):
                        self.buf[i] = 'matrix'
        self.stores = {}
        self.par = {}
        self.links(self.body, None)
        for x in walk(self.body):
            if x.k == 'asg':
                l = lv(x.c[0])
                if l.k == 'idx':
                    b = self.base(l.c[0])
                    if b is None and lv(l.c[0]).k == 'ref':
                        b = lv(l.c[0]).a[1]
                    if b is not None:
                        self.stores.setdefault(b, []).append((l.c[1], x))
        self.memo = {}
        self.inputs = set()
        for x in walk(self.body):
            if x.k == 'call' and x.a and READS.match(x.a[0]):
                for a in x.c[1:]:
                    a = strip(a)
                    if a.k == 'un' and a.a == '&' and lv(a.c[0]).k == 'ref':
                        self.inputs.add(id(a))
        self.polys = {}
        self.fills = {}
        for x in walk(self.body):
            if x.k == 'for':
                self.fills[id(x)] = self.filled(x)
        self.flag = self.flags()

    def defs_kind(self, i):
        """More than one definition makes the size unknown."""
        d = [x for x in self.S.defs.get(i, ()) if x is None or strip(x).k not in ('int',)]
        return ('memory',) if len(d) > 1 else ()

    def bytes(self, e):
        """Element count of a byte count, as far as it can be read."""
        z = [y for y in walk(e) if y.k == 'sizeof']
        if len(z) != 1:
            return None
        n = self.S.poly(e)
        return ('bytes', z[0], repr(n))

    def links(self, n, p):
        self.par[id(n)] = p
        for c in kids(n):
            self.links(c, n)

    # ---- names
    def base(self, e, depth=0):
        """The local buffer a pointer expression points to the start of; None otherwise."""
        e = lv(e)
        if e.k == 'ref':
            i = e.a[1]
            if i in self.buf and self.buf[i] != 'matrix':
                return i
            if i in self.V and pointee(e.ty) and depth < 5:
                d = self.S.single(e)
                if d is not None:
                    return self.base(d, depth + 1)
        if e.k == 'mem' and e.a[0] == 'matrix' and e.a[1]:
            o = lv(e.c[0])
            if o.k == 'ref' and self.buf.get(o.a[1]) == 'matrix':
                return o.a[1]
        if e.k == 'un' and e.a == '&':
            x = lv(e.c[0])
            if x.k == 'idx' and lv(x.c[1]).k == 'int' and lv(x.c[1]).a == 0:
                return self.base(x.c[0], depth)
        return None

    def elementary(self, b):
        return re.sub(r'\b(const|restrict)\b', '', pointee(self.V[b].ty)).strip() in ELEMENTARY

    def inner(self, e, depth=0):
        """The local buffer a pointer expression points into."""
        e = lv(e)
        if e.k == 'bin' and e.a in ('+', '-'):
            return self.inner(e.c[0], depth) if pointee(e.c[0].ty) else self.inner(e.c[1], depth)
        if e.k == 'un' and e.a == '&':
            x = lv(e.c[0])
            if x.k == 'idx':
                return self.inner(x.c[0], depth)
            return None
        if e.k == 'ref' and e.a[1] in self.V and e.a[1] not in self.buf and pointee(e.ty) and depth < 5:
            for d in self.S.defs.get(e.a[1], ()):
                if d is not None:
                    r = self.inner(d, depth + 1)
                    if r is not None:
                        return r
            return None
        return self.base(e)

    def idx(self, e):
        k = id(e)
        if k not in self.memo:
            deps = set()
            st = [e]
            seen = set()
            while st:
                for y in walk(st.pop()):
                    if y.k == 'ref' and y.a[1] not in seen:
                        seen.add(y.a[1])
                        deps.add(y.a[1])
                        if y.a[2] == 'var':
                            d = self.S.single(y)
                            if d is not None:
                                st.append(d)
            self.memo[k] = (repr(self.S.poly(e)), frozenset(deps), e)
        return self.memo[k][0], self.memo[k][1]

    # ---- loops that fill a buffer
    def counted(self, n):
        init, c, inc, body = n.c
        v = None
        if init is None or c is None or inc is None:
            return None
        if init.k == 'decl' and len(init.a) == 1 and init.a[0].init is not None:
            v, s = init.a[0].id, init.a[0].init
        elif init.k == 'asg' and lv(init.c[0]).k == 'ref':
            v, s = lv(init.c[0]).a[1], init.c[1]
        else:
            return None
        s = lv(s)
        c = lv(c)
        if c.k != 'bin' or c.a not in ('<', '<=', '!=') or lv(c.c[0]).k != 'ref' or lv(c.c[0]).a[1] != v:
            return None
        if not (inc.k == 'un' and 'inc' in inc.a or inc.k == 'un' and '++' in inc.a or inc.k == 'asg' and inc.a == '+='):
            return None
        return v, c, s

    def filled(self, n):
        """Buffers every element of which (as far as the loop's bound says) is written when the loop ends."""
        h = self.counted(n)
        if h is None or any(x.k in ('break', 'return', 'goto') for x in self.own(n.c[3])):
            return frozenset()
        v, c, s = h
        out = set()
        self.sure(n.c[3], v, [h], out)
        return frozenset(out)

    def range(self, h, off=0):
        v, c, s = h
        k = self.S.poly(N('int', 0, 'int', off, []))
        n = self.S.poly(c.c[1]) + k
        if c.a == '<=':
            n = n + self.S.poly(N('int', 0, 'int', 1, []))
        self.polys[repr(n)] = n
        return repr(self.S.poly(s) + k), repr(n)


    def covers(self, b, rng):
        if rng[0] != '0':
            return False
        z = self.size.get(b)
        if z is None:
            return True
        if isinstance(z, tuple):
            return rng[1] in self.polys and repr(self.polys[rng[1]] * self.S.poly(z[1])) == z[2]
        return z == rng[1]

    def own(self, n):
        """Nodes of a loop body, not descending into inner loops' breaks."""
        st = [n]
        while st:
            x = st.pop()
            if x is None:
                continue
            yield x
            if x.k in ('for', 'while', 'do', 'switch'):
                st += [y for y in walk(x) if y.k in ('return', 'goto')]
                continue
            st += list(kids(x))

    def sure(self, s, v, nest, out):
        if s is None:
            return
        if s.k in ('block', 'splice'):
            for x in s.c:
                if x is None:
                    continue
                if x.k in ('if', 'switch') and any(y.k in ('continue', 'leave') for y in walk(x)):
                    return
                self.sure(x, v, nest, out)
        elif s.k == 'omp':
            if s.c and s.c[0] is not None:
                self.sure(s.c[0], v, nest, out)
        elif s.k == 'for':
            h = self.counted(s)
            if h is not None and not any(x.k in ('break', 'return', 'goto') for x in self.own(s.c[3])):
                self.sure(s.c[3], v, nest + [h], out)
        elif s.k == 'if':
            if s.c[2] is not None:
                a, b = set(), set()
                self.sure(s.c[1], v, nest, a)
                self.sure(s.c[2], v, nest, b)
                out |= a & b
        elif s.k == 'inl':
            self.sure(s.c[0], v, nest, out)
        else:
            for l, x in self.written(s):
                b = self.base(l.c[0])
                if b is None:
                    continue
                r, deps = self.idx(l.c[1])
                if v not in deps and not any(h[0] in deps and v in self.idx(h[2])[1] for h in nest[1:]):
                    continue
                off = self.S.poly(l.c[1]) - self.S.poly(lv(nest[0][1].c[0]))
                off = off.value() if off.isconst() else None
                if off is not None:
                    rng = self.range(nest[0], off)
                    if rng is not None and not self.covers(b, rng):
                        self.rep.count('filled_in_part')
                        out.add(('r', b) + rng)
                        continue
                elif any(not self.start(h, nest[:k], l.c[1]) for k, h in enumerate(nest) if h[0] in deps):
                    continue
                out.add(('f', b))

    def start(self, h, outer, ix):
        """The loop begins at the first element: at zero, at the rank's first row, or where the previous part of a partition ended."""
        s = h[2]
        if s.k == 'int':
            return s.a == 0
        if any(y.k == 'mem' and y.a[0] == 'localRowMin' or y.k == 'ref' and 'localRowMin' in show(y) for y in walk(s)):
            return True
        ix = lv(ix)
        return ix.k == 'ref' and ix.a[1] == h[0] and any(y.k == 'idx' for y in walk(s)) and any(o[0] in self.idx(s)[1] for o in outer)

    def recurrence(self, b, ix, s):
        """x[k-1] inside a loop that writes x[k] in every round, k from 1, when x[0] was written before."""
        for lp in self.cur.loops:
            h = self.counted(lp) if lp.k == 'for' else None
            if h is None or h[2].k != 'int':
                continue
            back = N('int', 0, 'int', h[2].a, [])
            if repr(self.S.poly(ix) + self.S.poly(back)) != repr(self.S.poly(lv(h[1].c[0]))):
                continue
            if not any(x[0] == 'r' and x[1] == b and x[2] == '1' for x in self.fills.get(id(lp), ())):
                continue
            if any(x[0] == 'e' and x[1] == b and x[2] == '0' for x in s):
                return True
        return False

    def flags(self):
        """Variables that are only set to something other than zero after a buffer was filled in the same block."""
        out = {}
        for i, v in self.V.items():
            if pointee(v.ty) or v.ty.endswith(']') or v.init is None or not (lv(v.init).k == 'int' and lv(v.init).a == 0):
                continue
            got = None
            for x in walk(self.body):
                if x.k == 'un' and ('&' == x.a or 'inc' in str(x.a) or '++' in str(x.a) or 'dec' in str(x.a)) and lv(x.c[0]).k == 'ref' and lv(x.c[0]).a[1] == i:
                    got = set()
                    break
                if x.k != 'asg' or lv(x.c[0]).k != 'ref' or lv(x.c[0]).a[1] != i:
                    continue
                have = set()
                for y in self.siblings(x):
                    if y is x:
                        break
                    if y is not None and y.k == 'for':
                        have |= {z[1] for z in self.fills.get(id(y), ()) if z[0] == 'f'}
                got = have if got is None else got & have
            if got:
                out[i] = got
        return out

    def written(self, s):
        """Element stores executed whenever statement s is."""
        if s.k == 'asg':
            l = lv(s.c[0])
            if l.k == 'idx':
                yield l, s
            elif l.k == 'un' and l.a == '*':
                p = lv(l.c[0])
                if p.k == 'bin' and p.a == '+' and pointee(p.c[0].ty):
                    yield N('idx', l.line, l.ty, None, [p.c[0], p.c[1]]), s
            yield from self.written(s.c[1])
        elif s.k == 'call':
            for a in s.c[1:]:
                a = lv(a)
                if a.k == 'un' and a.a == '&' and lv(a.c[0]).k == 'idx':
                    yield lv(a.c[0]), s
        elif s.k == 'cast':
            yield from self.written(s.c[0])
        elif s.k == 'decl':
            for v in s.a:
                if v.init is not None:
                    yield from self.written(v.init)

    # ---- marks and lists
    def siblings(self, x):
        """Statements executed together with statement x: the block it stands in."""
        s = x
        while self.par.get(id(s)) is not None and self.par[id(s)].k not in ('block', 'splice'):
            p = self.par[id(s)]
            if p.k in ('if', 'for', 'while', 'do', 'switch'):
                return [s]
            s = p
        p = self.par.get(id(s))
        return p.c if p is not None else [s]

    def together(self, stmts, b, r):
        for s in stmts:
            if s is None:
                continue
            if s.k == 'asg' or s.k == 'cast':
                for l, _ in self.written(s):
                    if self.base(l.c[0]) == b and self.idx(l.c[1])[0] == r:
                        return True
            if s.k == 'call' and s.a and s.a[0] in FILL:
                a = lv(s.c[1])
                if a.k == 'idx' and self.base(a.c[0]) == b and self.idx(a.c[1])[0] == r:
                    return True
            if s.k == 'if' and s.c[2] is not None:
                if all(self.together(z.c if z.k == 'block' else [z], b, r) for z in s.c[1:]):
                    return True
        return False

    def marked(self, ix):
        """Buffers whose element e is written whenever the mark ix[e] is set to something other than zero."""
        k = ('m', ix)
        if k not in self.memo:
            out = None
            for e, x in self.stores.get(ix, ()):
                v = lv(x.c[1])
                if x.a == '=' and v.k == 'int' and v.a == 0:
                    continue
                r = self.idx(e)[0]
                sib = self.siblings(x)
                got = {b for b in self.buf if b != ix and self.together(sib, b, r)}
                out = got if out is None else out & got
            self.memo[k] = out or set()
        return self.memo[k]

    def listed(self, jx):
        """Buffers whose element jx[c] is written for every entry of the list jx."""
        k = ('l', jx)
        if k not in self.memo:
            out = None
            for e, x in self.stores.get(jx, ()):
                v = lv(x.c[1])
                if x.a == '=' and v.k == 'int' and v.a == 0:
                    continue
                r = self.idx(x.c[1])[0]
                sib = self.siblings(x)
                got = {b for b in self.buf if b != jx and self.together(sib, b, r)}
                for m in self.stores:
                    # the entry's mark was found set
                    pass
                out = got if out is None else out & got
            self.memo[k] = out or set()
        return self.memo[k]

    def counters(self, b):
        """Variables c such that every store to b goes to position c (lists that are only appended to)."""
        k = ('c', b)
        if k not in self.memo:
            out = None
            for e, x in self.stores.get(b, ()):
                y = lv(e)
                v = lv(x.c[1])
                if x.a == '=' and v.k == 'int' and v.a == 0 and out is None and len(self.stores[b]) > 1 and y.k != 'ref':
                    continue
                z = lv(y.c[0]) if y.k == 'un' and ('post' in y.a or 'pre' in y.a) else y
                got = {z.a[1]} if z.k == 'ref' else set()
                out = got if out is None else out & got
            self.memo[k] = out or set()
        return self.memo[k]

    def bounds(self, e, loops):
        """Variables that bound the position e from above in the enclosing loops (e < c)."""
        e = lv(e)
        out = set()
        if e.k != 'ref':
            return out
        for n in loops:
            c = n.c[1] if n.k == 'for' else n.c[0] if n.k == 'while' else None
            for y in walk(c) if c is not None else ():
                if y.k == 'bin' and y.a == '<' and lv(y.c[0]).k == 'ref' and lv(y.c[0]).a[1] == e.a[1] and lv(y.c[1]).k == 'ref':
                    out.add(lv(y.c[1]).a[1])
                    d = self.S.single(lv(y.c[1]))
                    if d is not None and lv(d).k == 'ref':
                        out.add(lv(d).a[1])
        return out

    # ---- dataflow
    def kill(self, s, v):
        s -= {x for x in s if x[0] == 'e' and v in x[3]}

    def events(self, n, s, rd, loops):
        """Apply the effects of evaluating n to the facts s (in place); rd(kind, key, node, s) for reads."""
        k = n.k
        if k == 'decl':
            for v in n.a:
                if v.vla is not None:
                    self.events(v.vla, s, rd, loops)
                self.kill(s, v.id)
                if v.init is not None:
                    self.events(v.init, s, rd, loops)
                    self.define(v.id, v.init, s)
                else:
                    s.discard(('s', v.id))
                    s -= {x for x in s if x[0] in 'fer' and x[1] == v.id}
            return
        if k == 'asg':
            l = lv(n.c[0])
            self.events(n.c[1], s, rd, loops)
            if l.k == 'ref':
                if n.a != '=':
                    rd('s', l.a[1], l, s)
                self.kill(s, l.a[1])
                self.define(l.a[1], n.c[1] if n.a == '=' else None, s)
                return
            b = l
            while b.k == 'mem' and not b.a[1]:
                b = lv(b.c[0])
            if b is not l and b.k == 'ref':
                s.add(('s', b.a[1]))
                return
            if l.k == 'un' and l.a == '*' and n.a == '=' and pointee(l.ty):
                b = self.base(n.c[1])
                if b is not None and self.buf[b] == 'memory' and self.elementary(b):
                    rd('x', b, n, s)
            if l.k == 'idx':
                b = self.base(l.c[0])
                self.events(l.c[1], s, rd, loops)
                if b is not None:
                    r, deps = self.idx(l.c[1])
                    if n.a != '=':
                        rd('e', b, l, s)
                    s.add(('e', b, r, deps))
                    return
                self.events(l.c[0], s, rd, loops)
                return
            self.events(l, s, rd, loops)
            return
        if k == 'un' and n.a == '&' and id(n) in self.inputs:
            self.events(n.c[0], s, rd, loops)
            return
        if k == 'un' and n.a == '&':
            e = lv(n.c[0])
            while e.k == 'mem' and not e.a[1]:
                e = lv(e.c[0])
            if e.k == 'ref':
                s.add(('s', e.a[1]))
                return
            if e.k == 'idx':
                self.events(e.c[1], s, rd, loops)
                b = self.base(e.c[0])
                if b is not None:
                    r, deps = self.idx(e.c[1])
                    s.add(('e', b, r, deps))
                    return
                self.events(e.c[0], s, rd, loops)
                return
            self.events(n.c[0], s, rd, loops)
            return
        if k == 'un' and ('post' in n.a or 'pre' in n.a):
            e = lv(n.c[0])
            self.events(n.c[0], s, rd, loops)
            if e.k == 'ref':
                self.kill(s, e.a[1])
            return
        if k == 'sizeof':
            return
        if k == 'ref':
            rd('s', n.a[1], n, s)
            return
        if k == 'idx':
            self.events(n.c[1], s, rd, loops)
            b = self.base(n.c[0])
            if b is not None:
                rd('e', b, n, s)
                return
            self.events(n.c[0], s, rd, loops)
            return
        if k == 'call':
            for c in n.c:
                if c is not None:
                    self.events(c, s, rd, loops)
            for i, a in enumerate(n.c[1:]):
                b = self.inner(a) if pointee(a.ty) or a.ty.endswith(']') else None
                o = lv(a)
                if o.k == 'mem' and o.a[1]:
                    o = lv(o.c[0])
                if o.k == 'ref' and self.buf.get(o.a[1]) == 'matrix' and n.a and (b is None or b == o.a[1]) and n.a[0] not in FILL:
                    if not PARTIAL.search(n.a[0]):
                        s.add(('f', o.a[1]))
                    continue
                if b is None:
                    continue
                nm = n.a[0] if n.a else ''
                if nm in ('free', 'bml_free_memory'):
                    continue
                if nm in FILL and i == 0:
                    if self.base(a) == b and self.whole(b, n.c[1 + FILL[nm]]):
                        s.add(('f', b))
                    continue
                if nm in FILL and i == 1 or not self.writes(n, i):
                    rd('b', b, n, s)
                    continue
                s.add(('f', b))
            return
        if k == 'return' and n.c and n.c[0] is not None:
            e = lv(n.c[0])
            self.events(n.c[0], s, rd, loops)
            if e.k == 'ref' and self.buf.get(e.a[1]) == 'matrix':
                rd('o', e.a[1], n, s)
            elif self.base(e) is not None and self.buf[self.base(e)] == 'memory' and self.elementary(self.base(e)):
                rd('x', self.base(e), n, s)
            elif e.k == 'call' and e.a and NOINIT.search(e.a[0]):
                rd('n', e.a[0], n, s)
            return
        if k == 'cond' or (k == 'bin' and n.a in ('&&', '||')):
            self.events(n.c[0], s, rd, loops)
            for c in n.c[1:]:
                t = set(s)
                self.events(c, t, rd, loops)
            return
        for c in kids(n):
            self.events(c, s, rd, loops)

    def whole(self, b, cnt):
        """The byte count covers the buffer, as far as both sizes can be read."""
        v = self.V[b]
        if b in self.size:
            want = [y for y in walk(cnt) if y.k == 'sizeof']
            n = repr(self.S.poly(cnt))
            es = pointee(plain(v.ty)) if not v.ty.endswith(']') else v.ty[:v.ty.rindex('[')].strip()
            if want and v.vla is not None:
                tot = repr(self.S.poly(N('bin', 0, 'int', '*', [v.vla, want[0]])))
                if tot != n:
                    self.rep.count('partly_cleared')
                    return False
        elif self.buf.get(b) == 'memory':
            for d in self.S.defs.get(b, ()):
                c = strip(d) if d is not None else None
                if c is not None and c.k == 'call' and c.a and c.a[0] in RAW and repr(self.S.poly(c.c[1])) != repr(self.S.poly(cnt)):
                    self.rep.count('partly_cleared')
                    return False
        return True

    def writes(self, call, i):
        """The callee may write through its i-th argument."""
        if not call.a:
            return True
        tys = call.a[3] if len(call.a) > 3 else ()
        if i < len(tys):
            return not re.match(r'const\b', tys[i].strip())
        return call.a[0] not in ('printf', 'fprintf')

    def define(self, i, e, s):
        s.add(('s', i))
        if i in self.buf:
            s -= {x for x in s if x[0] in 'fer' and x[1] == i}
            c = strip(e) if e is not None else None
            if c is None or not (c.k == 'call' and c.a and (c.a[0] in RAW or NOINIT.search(c.a[0]))):
                s.add(('f', i))

    def edge(self, b, lab, t, s):
        """Facts a branch adds."""
        if b.kind != 'branch' or lab not in (True, False):
            return s
        e = lv(b.ast)
        add = None
        z, lb = e, lab
        while z.k == 'un' and z.a == '!':
            z, lb = lv(z.c[0]), not lb
        if z.k == 'bin' and z.a in ('==', '!=') and lv(z.c[1]).k == 'int' and lv(z.c[1]).a == 0:
            z, lb = lv(z.c[0]), lb if z.a == '!=' else not lb
        if z.k == 'ref' and lb and z.a[1] in self.flag:
            s = s | {('f', y) for y in self.flag[z.a[1]]}
        if e.k == 'bin' and e.a in ('==', '!=', '>'):
            l, r = lv(e.c[0]), lv(e.c[1])
            if r.k == 'int' and l.k == 'idx':
                zero = r.a == 0
                if e.a == '==':
                    add = l if (zero and lab is False) or (not zero and lab is True) else None
                else:
                    add = l if zero and lab is True else None
            elif l.k == 'idx' and e.a == '==' and lab is True:
                add = l
            elif l.k == 'idx' and e.a == '!=' and lab is False:
                add = l
        elif e.k == 'idx' and lab is True:
            add = e
        if add is not None:
            m = self.base(add.c[0])
            if m is None:
                d = lv(add.c[0])
                m = d.a[1] if d.k == 'ref' and d.a[1] in self.V else None
            if m is not None:
                r, deps = self.idx(add.c[1])
                s = s | {('e', y, r, deps) for y in self.marked(m)}
        return s

    def run(self):
        rep = self.rep
        rep.count('functions')
        G = CFG(self.body)
        order = G.rpo()
        IN = {b.id: None for b in G.live}
        IN[G.entry.id] = frozenset()
        none = lambda *a: None

        def step(b, s, rd=none):
            s = set(s)
            if b.kind == 'omp':
                for nm, o, l in b.ast.a['clauses']:
                    if nm in ('private', 'lastprivate'):
                        for x in l:
                            if x.k == 'ref':
                                s -= {y for y in s if y[1] == x.a[1]}
            elif b.ast is not None and b.kind != 'ompend':
                self.events(b.ast, s, rd, b.loops)
            return frozenset(s)
        OUT = {}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b is not G.entry:
                    ps = []
                    for p, lab in b.pred:
                        if p.id not in OUT:
                            continue
                        s = self.edge(p, lab, b, OUT[p.id])
                        for n in p.loops:
                            if n not in b.loops and n.k == 'for':
                                s = s | self.fills.get(id(n), frozenset())
                        ps.append(s)
                    if not ps:
                        continue
                    n = frozenset.intersection(*ps)
                    if n != IN[b.id]:
                        IN[b.id] = n
                    elif b.id in OUT:
                        continue
                o = step(b, IN[b.id])
                if OUT.get(b.id) != o:
                    OUT[b.id] = o
                    ch = True
        bad = {}

        def rd(kind, key, n, s, loops=()):
            if kind == 's':
                v = self.V.get(key)
                if v is None or v.ty.endswith(']'):
                    return
                rep.count('variable_reads')
                if ('s', key) not in s:
                    bad.setdefault(('s', key), n)
                return
            if kind == 'n' or kind == 'o':
                if 'noinit' in self.f.name:
                    return
                rep.count('new_matrices_returned')
                if kind == 'n' or ('f', key) not in s:
                    bad.setdefault((kind, key), n)
                return
            if key not in self.buf:
                return
            if kind == 'x':
                if 'noinit' in self.f.name:
                    return
                rep.count('arrays_handed_out')
                if ('f', key) not in s:
                    bad.setdefault((kind, key), n)
                return
            rep.count('element_reads')
            if ('f', key) in s:
                return
            if kind == 'b':
                if not (self.stores.get(key) or any(x[0] == 'e' and x[1] == key for x in s)):
                    bad.setdefault(('b', key), n)
                return
            r, deps = self.idx(n.c[1])
            if any(x[0] == 'e' and x[1] == key and x[2] == r for x in s):
                return
            # position taken from a list of written positions
            e = lv(n.c[1])
            for _ in range(4):
                if e.k == 'ref' and e.a[2] == 'var':
                    d = self.S.single(e)
                    if d is None:
                        break
                    e = lv(d)
            if e.k == 'idx':
                j = self.base(e.c[0])
                if j is None:
                    d = lv(e.c[0])
                    j = d.a[1] if d.k == 'ref' else None
                if j is not None and key in self.listed(j):
                    rep.count('reads_through_lists')
                    return
            i = lv(n.c[1])
            for lp in self.cur.loops:
                h = self.counted(lp) if lp.k == 'for' else None
                if h is not None and repr(self.S.poly(i)) == repr(self.S.poly(lv(h[1].c[0]))) and ('r', key) + self.range(h) in s:
                    rep.count('reads_in_filled_range')
                    return
            if any(x[0] == 'r' and x[1] == key and x[2] == '1' and self.covers(key, ('0', x[3])) for x in s) and any(x[0] == 'e' and x[1] == key and x[2] == '0' for x in s):
                return
            if self.recurrence(key, n.c[1], s):
                rep.count('recurrences')
                return
            if self.counters(key) & self.bounds(n.c[1], self.cur.loops):
                rep.count('reads_below_counts')
                return
            bad.setdefault(('e', key), n)
        for b in G.live:
            if IN[b.id] is not None:
                self.cur = b
                step(b, IN[b.id], rd)
        nm = PREC.sub('', self.f.name)
        for (kind, key), n in sorted(bad.items(), key=lambda z: z[1].line):
            v = self.V[key].name if key in self.V else key
            rep.viol('%s:%s' % (nm, v), '%s (%s:%d): `%s` is read in `%s` but not written on every path before' % (
                self.f.name, self.f.main, n.line, v, show(n)[:80]))


    def storage(self):
        """Counts are never left unset, dense elements only by the constructors that say so."""
        for x in walk(self.body):
            if x.k != 'asg' or x.a != '=':
                continue
            l, r = lv(x.c[0]), strip(x.c[1])
            if l.k != 'mem' or l.a[0] not in COUNTS | {'matrix'} or r.k != 'call' or not r.a:
                continue
            if r.a[0] in RAW | CLEARED:
                self.rep.count('storage_requested')
            if r.a[0] not in RAW:
                continue
            if any(y.k == 'call' and y.a and y.a[0] in FILL and show(lv(y.c[1])) == show(l) for y in walk(self.body)):
                continue
            if l.a[0] == 'matrix' and 'noinit' in self.f.name:
                continue
            self.rep.viol('%s:%s' % (PREC.sub('', self.f.name), l.a[0]), '%s (%s:%d): `%s` is left unset by `%s`' % (
                self.f.name, self.f.main, x.line, show(l), show(r)[:80]))


def run(progs):
    rep = Report('C13', __doc__.strip())
    for cfg, P in progs.items():
        for f in P.top():
            F = Fun(P, f, rep)
            F.run()
            F.storage()
    rep.floor('variable_reads', 20000)
    rep.floor('element_reads', 700)
    rep.floor('storage_requested', 15)
    rep.floor('new_matrices_returned', 6)
    rep.floor('arrays_handed_out', 6)
    return rep
