"""C07: a sparse row never holds more entries than it has room for.

For every store into a row's index or value storage the position inside the row must be provably below the row's
capacity, and for every store into a row count the new count must be provably at most the capacity, in a
difference-bound analysis of the whole function (guards, loop bounds, counters that grow together).  Capacity: M
(ELLPACK), MB (ELLBLOCK), alloc_size_ (CSR), the latter bounded by the size of the buffers actually allocated."""
from core import walk, kids, show, N, dump
from ownership import strip, isptr
from cfg import fatal_call
from report import Report, Broken
from sym import Sym, Poly, Path, Atom, ZERO, ALLOCS, isarr, strip_int
from zone import Zone, linear, intty
import modref, re, c06

PREC = re.compile(r'_(single|double)_(real|complex)$')
STORE = {'index': 'M', 'value': 'M', 'indexb': 'MB', 'ptr_value': 'MB', 'cols_': 'alloc_size_', 'vals_': 'alloc_size_'}
COUNT = {'nnz': 'M', 'nnzb': 'MB', 'NNZ_': 'alloc_size_'}
TRACK = set(COUNT) | {'alloc_size_'}
BUF = {'cols_', 'vals_'}
MINCAP = {'M': 1, 'MB': 1, 'alloc_size_': 4}


def prefix(p, field):
    """The object whose `field` path p goes through (last occurrence)."""
    for k in range(len(p.sels) - 1, -1, -1):
        if p.sels[k] == ('f', field):
            return Path(p.root, p.sels[:k], p.node), p.sels[k + 1:]
    return None, None


def fieldatom(S, p, f):
    q = p.field(f)
    return Atom('<%r>' % q, S.path_deps(q), [q] + S.path_mem(q), None)


def capacity(S, pre, f):
    if pre.root[0] == 'call' and pre.sels == (('i', ZERO),):
        c = S.ctor(pre.node, f)
        if c is not None:
            return c
        if pre.node is not None and pre.node.a and pre.node.a[0] == 'bml_copy_new':
            ps = S.val(pre.node.c[1])
            if len(ps) == 1:
                return Poly.atom(fieldatom(S, ps[0], f))
    if pre.root[0] == 'alloc' and pre.sels == (('i', ZERO),):
        vals = [x.c[1] for x in walk(S.body) if x.k == 'asg' and x.a == '=' and strip(x.c[0]).k == 'mem' and strip(x.c[0]).a[0] == f
                and any(t.root[:2] == pre.root[:2] for t in S.lval(x.c[0]))]
        if len(vals) == 1 and f not in TRACK:
            return S.poly(vals[0])
    return Poly.atom(fieldatom(S, pre, f))


def fullwidth(S, pre, f):
    """The capacity of every row is the number of columns: distinct columns always fit."""
    n = {'M': 'N', 'MB': 'NB'}.get(STORE.get(f) or COUNT.get(f))
    return n is not None and capacity(S, pre, n) == capacity(S, pre, STORE.get(f) or COUNT.get(f))


def bufatom(pre, f):
    q = pre.field(f)
    return Atom('#%r' % q, set(), [q], None)


def zeroed(P, f, name, field, depth=0):
    """The constructor `name` returns an object whose array `field` is all zero."""
    g = P.lookup(name, f)
    if g is None or depth > 5:
        return False
    body = P.nf(g)
    st = [x for x in walk(body) if x.k == 'asg' and strip(x.c[0]).k == 'mem' and strip(x.c[0]).a[0] == field]
    wr = [x for x in walk(body) if x.k in ('asg', 'un') and (x.k == 'asg' or '++' in x.a or '--' in x.a) and strip(x.c[0]).k == 'idx'
          and strip(strip(x.c[0]).c[0]).k == 'mem' and strip(strip(x.c[0]).c[0]).a[0] == field]
    if wr:
        return False
    if st:
        for x in st:
            e = strip(x.c[1])
            while e.k == 'cast':
                e = strip(e.c[0])
            if e.k != 'call' or not e.a or e.a[0] not in ('bml_allocate_memory', 'calloc'):
                return False
        return True
    rets = [strip(x.c[0]) for x in walk(body) if x.k == 'return' and x.c and x.c[0] is not None]
    S = Sym(P, g, None, None) if rets else None
    for r in rets:
        ps = [p for p in S.val(r) if p.root[0] != 'null']
        if len(ps) != 1 or ps[0].root[0] != 'call' or not zeroed(P, g, ps[0].node.a[0], field, depth + 1):
            return False
    return bool(rets)


def rowmin(S, pre):
    """Lower bounds of the capacity of a CSR row a constructor made, as polynomials of this function."""
    if pre.root[0] != 'call' or pre.node is None or not pre.node.a:
        return []
    call = pre.node
    g = S.P.lookup(call.a[0], S.f)
    if g is None:
        return []
    arg = lambda G, c, e: _arg(S, G, c, e)
    if pre.sels == (('i', ZERO),):
        return [q for q in (_arg(S, g, call, e) for e in rowsize(S, g)) if q is not None]
    if len(pre.sels) == 4 and pre.sels[1] == ('f', 'data_') and pre.sels[3] == ('i', ZERO):
        G = Sym(S.P, g, None, S.M)
        vals = [strip(x.c[1]) for x in walk(G.body) if x.k == 'asg' and x.a == '=' and strip(x.c[0]).k == 'idx'
                and strip(strip(x.c[0]).c[0]).k == 'mem' and strip(strip(x.c[0]).c[0]).a[0] == 'data_']
        if len(vals) != 1 or vals[0].k != 'call' or not vals[0].a:
            return []
        h = S.P.lookup(vals[0].a[0], g)
        if h is None or any(x.k == 'asg' and strip(x.c[0]).k == 'idx' and strip(strip(x.c[0]).c[0]).k == 'mem'
                            and strip(strip(x.c[0]).c[0]).a[0] == 'data_' for x in walk(S.body)):
            return []
        out = []
        for e in rowsize(S, h):
            if isinstance(e, int):
                out.append(Poly.const(e))
                continue
            for j, p in enumerate(h.params):
                if p[1] == e[1]:
                    a = strip_int(vals[0].c[1 + j])
                    if a.k == 'mem' and a.a[0] == 'NZMAX_':
                        q = S.ctor(call, 'NZMAX_')
                    elif a.k == 'ref':
                        q = _arg(S, g, call, ('parm', a.a[1]))
                    else:
                        q = None
                    if q is not None:
                        out.append(q)
        return out
    return []


def _arg(S, g, call, e):
    if isinstance(e, int):
        return Poly.const(e)
    for j, p in enumerate(g.params):
        if p[1] == e[1] and j + 1 < len(call.c):
            return S.poly(call.c[1 + j])
    return None


def rowsize(S, g):
    """What the capacity stored by row constructor g is at least: constants and ('parm', id)."""
    memo = S.P.__dict__.setdefault('_rowsize', {})
    if (g.name, g.main) not in memo:
        memo[(g.name, g.main)] = _rowsize(S, g)
    return memo[(g.name, g.main)]


def _rowsize(S, g):
    if not hasattr(S.P, '_rowacc'):
        S.P._rowacc = c06.Access(S.P, S.M)
    Z = Zone(S.P, g, S.M, S.P._rowacc, set(), lambda Z, a: [])
    st = [(b, x) for b in Z.cfg.live if b.ast is not None and b.kind not in ('omp', 'ompend') for x in walk(b.ast)
          if x.k == 'asg' and x.a == '=' and strip(x.c[0]).k == 'mem' and strip(x.c[0]).a[0] == 'alloc_size_']
    if len(st) != 1:
        return []
    b, x = st[0]
    q = Z.S.poly(x.c[1])
    ps = []
    for p in g.params:
        n = N('ref', 0, p[2], (p[0], p[1], 'parm'), [])
        if intty(p[2]) and not Z.S.defs.get(p[1]):
            ps.append((p[1], Z.S.poly(n)))
    Z.prepare([q] + [r for _, r in ps])
    Z.run()
    D = Z.within(b, x)
    if D is None:
        return []
    out = [('parm', i) for i, r in ps if Z.le(D, r, q)]
    low = Z.bound(D, q.neg()) if q.t else 0
    if low < 0:
        out.append(int(-low))
    return out


class CapZone(Zone):
    buffers = BUF
    grows = ('alloc_size_',)

    def freshzero(self, k, key):
        if not hasattr(self, '_fz'):
            self._fz = {}
        if (k, key) not in self._fz:
            self._fz[(k, key)] = self._freshzero(self.atoms[k], key)
        return self._fz[(k, key)]

    def _freshzero(self, a, key):
        S = self.S
        p = a.mem[0]
        if p.root[0] != 'call' or len(p.sels) != 3 or p.sels[1][1] not in COUNT or p.sels[2][0] != 'i':
            return False
        f = p.sels[1][1]
        at = list(p.sels[2][1].atoms())
        if len(at) != 1 or at[0].key != key or len(p.sels[2][1].t) != 1 or p.node is None or not p.node.a:
            return False
        # every entry is written only in the iteration that owns it
        i = strip(at[0].node).a[1]
        loops = [x for x in walk(S.body) if x.k == 'for' and x.c[0] is not None
                 and (x.c[0].k == 'decl' and [v.id for v in x.c[0].a] == [i] or strip(x.c[0]).k == 'asg' and strip(strip(x.c[0]).c[0]).k == 'ref'
                      and strip(strip(x.c[0]).c[0]).a[1] == i)]
        if len(loops) != 1:
            return False
        L = loops[0]
        inc = strip(L.c[2]) if L.c[2] is not None else None
        if inc is None or inc.k != 'un' or '++' not in inc.a:
            return False
        for x in walk(S.body):
            if x.k == 'asg' or x.k == 'un' and ('++' in x.a or '--' in x.a):
                l = strip(x.c[0])
                if l.k == 'ref':
                    if l.a[1] == i and strip(x) is not inc and not (L.c[0].k != 'decl' and strip(L.c[0]) is x):
                        return False
                    continue
                for q in S.lval(l):
                    if q.root[:2] == p.root[:2] and f in q.fields() and repr(q) != repr(p):
                        return False
        return zeroed(self.P, self.f, p.node.a[0], f)

    def bufsize(self, p, e):
        e = strip(e)
        while e.k == 'cast':
            e = strip(e.c[0])
        if e.k != 'call' or not e.a or e.a[0] not in ALLOCS:
            return None
        if e.a[0] in ('bml_reallocate_memory', 'realloc'):
            q = self.S.poly(e.c[2])
        elif e.a[0] == 'calloc':
            q = self.S.poly(e.c[1]) * self.S.poly(e.c[2])
        else:
            q = self.S.poly(e.c[1])
        cs = {abs(c) for c in q.t.values()}
        if not cs:
            return None
        from math import gcd
        g = 0
        for c in cs:
            g = gcd(g, c)
        if g % 4:
            return None
        return Poly({m: c // g for m, c in q.t.items()})


def axioms(Z, a):
    out = []
    S = Z.S
    if a.key in getattr(Z, 'capkeys', ()):
        out.append((ZERO, Poly.atom(a), -1))
    n = strip(a.node) if a.node is not None else None
    if n is not None and n.k == 'cond' and '@' not in a.key:
        out += minmax(Z, n, Poly.atom(a))
    if a.key.startswith('<') and a.key.endswith('>') and a.mem:
        p = a.mem[0]
        f = p.fields()[-1] if p.fields() else None
        if f in COUNT:
            pre, _ = prefix(p, f)
            x = Poly.atom(a)
            out.append((x, capacity(S, pre, COUNT[f]), 0))
            out.append((ZERO, x, 0))
        elif f in MINCAP:
            out.append((ZERO, Poly.atom(a), -MINCAP[f]))
            if f == 'alloc_size_':
                pre, _ = prefix(p, f)
                for q in rowmin(S, pre):
                    out.append((q, Poly.atom(a), 0))
                for b in BUF:
                    out.append((Poly.atom(a), Poly.atom(bufatom(pre, b)), 0))
    elif a.key.startswith('#') and a.mem:
        pre, _ = prefix(a.mem[0], a.mem[0].fields()[-1])
        out.append((capacity(S, pre, 'alloc_size_'), Poly.atom(a), 0))
    return out


def minmax(Z, n, x):
    """c ? a : b written as a maximum or minimum."""
    c = strip(n.c[0])
    if c.k != 'bin' or c.a not in ('<', '<=', '>', '>='):
        return []
    l, r, a, b = (Z.S.poly(e) for e in (c.c[0], c.c[1], n.c[1], n.c[2]))
    if (l, r) == (b, a):
        l, r, up = r, l, c.a in ('<', '<=')
    elif (l, r) == (a, b):
        up = c.a in ('>', '>=')
    else:
        return []
    return [(a, x, 0), (b, x, 0)] if up else [(x, a, 0), (x, b, 0)]


def const(e):
    e = strip(e)
    while e.k == 'cast':
        e = strip(e.c[0])
    return float(e.a) if e.k in ('float', 'int') else 0


class Ob:
    def __init__(self, kind, node, text, lhs, rhs, k, line, what, expr):
        self.expr = expr
        self.kind, self.node, self.text, self.lhs, self.rhs, self.k, self.line, self.what = kind, node, text, lhs, rhs, k, line, what


BULK = {'memcpy': (0, 2, 'bytes'), 'memmove': (0, 2, 'bytes'), 'memset': (0, 2, 'bytes'),
        'MPI_Recv': (0, 1, 'count'), 'MPI_Irecv': (0, 1, 'count'), 'MPI_Bcast': (0, 1, 'count')}


def same(a, b):
    """The same expression, with nothing in it that changes between the two readings."""
    if a.k != b.k or a.k in ('call', 'asg') or a.k == 'un' and ('++' in a.a or '--' in a.a):
        return False
    if a.k == 'ref':
        return a.a[1] == b.a[1]
    if a.k in ('paren', 'cast') or a.k == 'idx' or a.k == 'bin' or a.k == 'un' or a.k == 'mem' or a.k == 'int':
        ka, kb = list(kids(a)), list(kids(b))
        return a.a == b.a and len(ka) == len(kb) and all(same(i, j) for i, j in zip(ka, kb))
    return False


def position(S, p, f, st):
    """(capacity, position in the row) for a store at selectors st after field f."""
    pre, rest = prefix(p, f)
    cap = capacity(S, pre, STORE[f])
    q = rest[0][1]
    if f in BUF:
        return pre, cap, q, True
    if len(cap.t) == 1 and cap.atoms():
        (m, c), = cap.t.items()
        if len(m) == 1 and c == 1:
            sp = q.split(m[0])
            if sp is not None and sp[0].t:
                return pre, cap, sp[1], True
    # another stride
    for mono in sorted(q.t, key=len, reverse=True):
        if len(mono) >= 2:
            for a in mono:
                if re.search(r'\.(M|MB|NB|N)>$', a.key) or a.key in ('M', 'MB', 'B_M'):
                    sp = q.split(a)
                    if sp is not None:
                        return pre, cap, sp[1], False
    return pre, cap, q, not q.t


def obligations(Z, rep):
    S, out = Z.S, []
    for b in Z.cfg.live:
        if b.ast is None or b.kind in ('fatal', 'ompend', 'omp'):
            continue
        for x in walk(b.ast):
            if x.k == 'asg' or x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')):
                l = strip(x.c[0])
                if l.k == 'ref':
                    continue
                for p in S.lval(l):
                    fs = p.fields()
                    if not fs:
                        continue
                    f = fs[-1]
                    if f in STORE and (x.k == 'un' or x.a != '=' or any(same(y, l) for y in walk(x.c[1]))):
                        rep.count('updates_in_place')
                        continue
                    last = p.sels[-1]
                    if f in STORE and last[0] == 'i' and len(p.sels) >= 2 and p.sels[-2] == ('f', f):
                        if p.root[0] in ('alloc',) and f not in BUF:
                            continue
                        pre, cap, s, own = position(S, p, f, p.sels)
                        if fullwidth(S, pre, f):
                            rep.count('full_width_rows')
                            continue
                        out.append(Ob('store', b, show(x)[:90], s, cap, -1, x.line, f, x))
                        if any(c < 0 for c in s.t.values()):
                            out.append(Ob('low', b, show(x)[:90], ZERO, s, 0, x.line, f, x))
                        if f in BUF:
                            out.append(Ob('store', b, show(x)[:90], s, Poly.atom(bufatom(pre, f)), -1, x.line, f, x))
                    elif f in COUNT and (last == ('f', f) or last[0] == 'i' and p.sels[-2] == ('f', f)):
                        pre, _ = prefix(p, f)
                        if fullwidth(S, pre, f):
                            rep.count('full_width_rows')
                            continue
                        a = S.opaque(l)
                        if a.key.endswith('>') and last[0] != 'f' or last == ('f', f) and intty(l.ty):
                            out.append(Ob('count', b, show(x)[:90], Poly.atom(a), capacity(S, pre, COUNT[f]), 0, x.line, f, x))
                    elif f == 'alloc_size_' and last == ('f', f):
                        pre, _ = prefix(p, f)
                        a = Poly.atom(S.opaque(l))
                        for bf in sorted(BUF):
                            out.append(Ob('count', b, show(x)[:90], a, Poly.atom(bufatom(pre, bf)), 0, x.line, f, x))
                        out.append(Ob('count', b, show(x)[:90], Poly.const(MINCAP[f]), a, 0, x.line, f, x))
                        if pre.root[0] != 'alloc' and x.k == 'asg' and x.a == '=':
                            out.append(Ob('grow', b, show(x)[:90], a, S.poly(x.c[1]), 0, x.line, f, x))
                        elif pre.root[0] != 'alloc' and not (x.k == 'un' and '++' in x.a) and not (
                                x.k == 'asg' and x.a == '*=' and const(x.c[1]) >= 1) and not (x.k == 'asg' and x.a == '+='):
                            out.append(Ob('grow', b, show(x)[:90], a + Poly.const(1), a, 0, x.line, f, x))
                    elif f in BUF and last == ('f', f) and x.k == 'asg':
                        pre, _ = prefix(p, f)
                        out.append(Ob('count', b, show(x)[:90], capacity(S, pre, 'alloc_size_'), Poly.atom(bufatom(pre, f)), 0, x.line, f, x))
            elif x.k == 'call' and x.a and x.a[0] in BULK and len(x.c) > 3:
                d, cnt, kind = BULK[x.a[0]]
                n = S.poly(x.c[1 + cnt])
                if kind == 'bytes':
                    from math import gcd
                    g = 0
                    for c in n.t.values():
                        g = gcd(g, abs(c))
                    if g and g % 4 == 0:
                        n = Poly({m: c // g for m, c in n.t.items()})
                    elif n.t:
                        continue
                for p in S.val(x.c[1 + d]):
                    fs = p.fields()
                    if not fs or fs[-1] not in STORE or p.sels[-2:-1] != (('f', fs[-1]),) or p.sels[-1][0] != 'i':
                        continue
                    f = fs[-1]
                    pre, cap, s, own = position(S, p, f, p.sels)
                    if p.sels[-1][1] == ZERO and f not in BUF:
                        # whole array: rows times capacity
                        whole = [capacity(S, pre, r) * cap for r in ('N', 'NB')]
                        if n in whole:
                            rep.count('whole_array_transfers')
                            continue
                    out.append(Ob('bulk', b, show(x)[:90], s + n, cap, 0, x.line, f, x))
    return out


def discharged(Z, o, stores):
    """A count that was just stored is within capacity before the function goes on with it."""
    seen, st = set(), [t for t, lab in o.node.succ]
    # state right after the node
    D = Z.transfer(o.node, Z.at(o.node).copy())
    if Z.le(D, o.lhs, o.rhs, o.k):
        return True
    for t, lab in o.node.succ:
        pass
    while st:
        b = st.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        D = Z.at(b)
        if D is None or b.kind == 'fatal':
            continue
        if Z.le(D, o.lhs, o.rhs, o.k):
            continue
        if b.id in stores.get(repr(o.lhs), ()) and b is not o.node:
            continue
        if b is Z.cfg.exit or b.kind in ('return', 'omp', 'ompend') or b is o.node:
            return False
        st += [t for t, _ in b.succ]
    return True


def params_only(S, q):
    ids = set()
    for a in q.atoms():
        n = strip(a.node) if a.node is not None else None
        if n is not None and n.k == 'ref' and n.a[1] in S.params and not S.defs.get(n.a[1]) and a.key == n.a[0]:
            ids.add(S.params[n.a[1]])
        elif a.key.startswith('<') and a.mem and a.mem[0].root[0] == 'parm':
            pass
        else:
            return None
    return ids


def norm(txt):
    txt = re.sub(r'_(single|double)_(real|complex)', '', txt)
    return re.sub(r'\b(float|double|_Complex|complex)\b', 'T', txt)


def guarded(Z, o):
    """The node is reached only through a test that says lhs <= rhs."""
    b, n = o.node, 0
    pred = {}
    for x in Z.cfg.live:
        for t, lab in x.succ:
            pred.setdefault(t.id, []).append((x, lab))
    while n < 40:
        ps = pred.get(b.id, [])
        if len(ps) != 1:
            return False
        b, lab = ps[0]
        if lab is True or lab is False:
            for q, k in Z.constraints(b.ast, lab):
                if k != 'ne' and q == o.lhs - o.rhs and k <= 0:
                    return True
        n += 1
    return False


UNDECIDED = re.compile(r'^bml_banded_matrix_')   # needs a relation between three quantities (row, column, bandwidth)


def analyse(P, M, acc, f, rep):
    bad, Z = attempt(P, M, acc, f, rep, False)
    if bad:
        less, Z2 = attempt(P, M, acc, f, Report('C07', ''), True)
        keys = {(o.kind, o.text, o.line) for o in less}
        bad = [o for o in bad if (o.kind, o.text, o.line) in keys]
    return bad, Z


def attempt(P, M, acc, f, rep, counters):
    Z = CapZone(P, f, M, acc, TRACK, axioms)
    Z.counters = counters
    obs = obligations(Z, rep)
    if not obs:
        return [], Z
    qs = []
    for o in obs:
        qs += [o.lhs, o.rhs]
    Z.capkeys = {a.key for o in obs if o.kind in ('store', 'count') and o.what not in BUF for a in o.rhs.atoms() if len(o.rhs.t) == 1}
    Z.prepare(qs)
    Z.run()
    bad = []
    stores = {}
    for o in obs:
        if o.kind == 'count' and '++' not in o.text and '--' not in o.text:
            stores.setdefault(repr(o.lhs), set()).add(o.node.id)
    for o in obs:
        D = Z.within(o.node, o.expr)
        if D is None:
            continue
        rep.count({'store': 'row_positions', 'low': 'row_positions', 'grow': 'row_growth', 'count': 'row_counts', 'bulk': 'bulk_transfers'}[o.kind])
        if o.kind == 'grow' and guarded(Z, o):
            continue
        if not (discharged(Z, o, stores) if o.kind == 'count' else Z.le(D, o.lhs, o.rhs, o.k)):
            bad.append(o)
    return bad, Z


def fmt(o):
    if o.kind == 'count' and o.what == 'alloc_size_':
        return 'the capacity recorded by `%s` is not known to match the buffers (%r vs %r)' % (o.text, o.lhs, o.rhs)
    if o.kind == 'count':
        return 'the count stored by `%s` is not known to be at most the capacity %r' % (o.text, o.rhs)
    if o.kind == 'low':
        return 'the position %r of `%s` is not known to be non-negative' % (o.rhs, o.text)
    if o.kind == 'grow':
        return 'the capacity stored by `%s` is not known to be at least the present one' % o.text
    if o.kind == 'bulk':
        return '`%s` moves up to position %r, not known to be within the capacity %r' % (o.text, o.lhs, o.rhs)
    return 'the position %r of `%s` is not known to be below the capacity %r' % (o.lhs, o.text, o.rhs)


def run(progs):
    rep = Report('C07', __doc__.strip())
    done = {}
    for cfg, P in progs.items():
        M = modref.ModRef(P)
        acc = c06.Access(P, M)
        for f in [f for f in P.top() if re.search(r'/(ellpack|ellblock|csr)/', f.main)]:
            h = norm(dump(P.nf(f)))
            if h in done:
                rep.count('functions_same_as_another_element_type')
                continue
            done[h] = True
            bad, Z = analyse(P, M, acc, f, rep)
            rep.count('functions')
            for o in bad:
                if UNDECIDED.match(f.name):
                    rep.count('undecided_positions')
                    continue
                ids = params_only(Z.S, o.lhs) if o.kind == 'store' else None
                l = linear(o.lhs)
                if ids and l is not None and l[1] is None and l[0] is not None and not l[0].key.startswith('<') and len(ids) == 1 \
                        and len(o.rhs.atoms()) == 1 and list(o.rhs.atoms())[0].mem:
                    rep.count('positions_chosen_by_callers')
                    continue
                rep.viol('%s:%s:%s' % (o.kind, PREC.sub('', f.name), norm(o.text)), '%s (%s:%d): %s' % (f.name, f.main, o.line, fmt(o)))
    rep.floor('row_positions', 100)
    return rep
