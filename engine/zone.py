"""Difference-bound (zone) abstract interpretation of one function.

Facts have the form u - v <= c over integer terms (locals, parameters, selected structure fields).  A local with
one definition stands for its definition, with the mutable terms frozen at the point of definition (ghosts)."""
from core import walk, kids, show, N
from ownership import strip, isptr
from cfg import CFG, fatal_call
from sym import Sym, Poly, Path, Atom, ZERO, isarr, strip_int

INF = float('inf')
STABLE = {'N', 'M', 'NB', 'MB', 'N_', 'NZMAX_', 'matrix_type', 'matrix_precision', 'distribution_mode', 'N_rows', 'N_cols', 'N_nz_max',
          'totalProcs', 'totalRows', 'totalCols', 'globalRowMin', 'globalRowMax', 'NR', 'n'}


def intty(t):
    t = t.replace('const', '').strip()
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'long long', 'unsigned long long', 'short', 'char', 'unsigned char',
                 'int32_t', 'int64_t', '_Bool') or t.startswith('enum')


class ZSym(Sym):
    """Index polynomials with single-definition locals replaced by their definition at its point."""

    def __init__(self, *a, **k):
        self.ghosts = {}
        super().__init__(*a, **k)
        self.inloop = set()
        for x in walk(self.body):
            if x.k in ('for', 'while', 'do'):
                for y in walk(x):
                    if y.k == 'decl':
                        self.inloop |= {v.id for v in y.a}
                    elif y.k == 'asg' and strip(y.c[0]).k == 'ref':
                        self.inloop.add(strip(y.c[0]).a[1])
        self.ghostkeys = {}

    def stable(self, a):
        if a.key in self.ghostkeys:
            return self.ghostkeys[a.key] not in self.inloop
        n = strip(a.node) if a.node is not None else None
        if n is not None and n.k == 'ref' and a.key.find('@') < 0:
            i = n.a[1]
            return i in self.params and not self.defs.get(i) and i not in self.addr
        if a.key.startswith('<') and a.mem:
            p = a.mem[0]
            fs = p.fields()
            if fs and fs[-1] in STABLE:
                return all(self.stable(b) for k, v in p.sels if k == 'i' for b in v.atoms())
        return False

    def poly(self, n):
        m = strip_int(n)
        if m.k == 'bin' and m.a == '*' and m.ty in ('double', 'float'):
            return Poly.atom(self.opaque(m))
        if m.k == 'un' and m.a.startswith('pre') and m.a[3:] in ('++', '--'):
            return self.poly(m.c[0]) + Poly.const(1 if '++' in m.a else -1)
        if m.k == 'ref':
            d = self.single(m)
            i = m.a[1]
            if d is not None and i not in self.busy and intty(m.ty):
                self.busy.add(i)
                q = self.poly(d)
                self.busy.discard(i)
                if len(q.atoms()) > 6:
                    return Poly.atom(self.varatom(m))
                r = Poly()
                gs = self.ghosts.setdefault(i, {})
                for mono, c in q.t.items():
                    t = Poly.const(c)
                    for a in mono:
                        if self.stable(a):
                            t = t * Poly.atom(a)
                        else:
                            g = Atom('%s@%s#%s' % (a.key, m.a[0], i), set(), (), a.node)
                            gs[g.key] = (g, a)
                            self.ghostkeys[g.key] = i
                            t = t * Poly.atom(g)
                    r = r + t
                return r
        return super().poly(n)


def linear(q):
    """q = u - v + c with at most one positive and one negative unit term -> (u, v, c) or None."""
    u = v = None
    c = 0
    for m, k in q.t.items():
        if m == ():
            c = k
        elif len(m) == 1 and k == 1 and u is None:
            u = m[0]
        elif len(m) == 1 and k == -1 and v is None:
            v = m[0]
        else:
            return None
    return u, v, c


class DBM:
    __slots__ = ('m', 'n')

    def __init__(self, n, m=None):
        self.n = n
        self.m = m if m is not None else [[0 if i == j else INF for j in range(n)] for i in range(n)]

    def copy(self):
        return DBM(self.n, [r[:] for r in self.m])

    def add(self, i, j, c):
        """x_i - x_j <= c, keeping closure; False if inconsistent."""
        m = self.m
        if i == j:
            return c >= 0
        if c >= m[i][j]:
            return True
        if m[j][i] + c < 0:
            return False
        n = self.n
        mj = m[j]
        for a in range(n):
            ai = m[a][i]
            if ai == INF:
                continue
            ai += c
            ra = m[a]
            for b in range(n):
                t = ai + mj[b]
                if t < ra[b]:
                    ra[b] = t
        return True

    def havoc(self, i):
        for a in range(self.n):
            if a != i:
                self.m[a][i] = INF
                self.m[i][a] = INF

    def shift(self, i, c):
        for a in range(self.n):
            if a != i:
                self.m[i][a] += c
                self.m[a][i] -= c

    def close(self):
        m, n = self.m, self.n
        for k in range(n):
            mk = m[k]
            for i in range(n):
                ik = m[i][k]
                if ik == INF:
                    continue
                ri = m[i]
                for j in range(n):
                    t = ik + mk[j]
                    if t < ri[j]:
                        ri[j] = t


def const1(e):
    e = strip(e)
    while e.k == 'cast':
        e = strip(e.c[0])
    return e.k == 'int' and str(e.a) == '1'


class Zone:
    """fields: {count field: capacity field}; axioms(zone, atom) -> [(u poly, v poly, c)] for u - v <= c."""

    grows = ()

    def __init__(self, P, f, M, acc, tracked, axioms, body=None, entry=()):
        self.P, self.f, self.M, self.acc = P, f, M, acc
        self.S = ZSym(P, f, body, M)
        self.cfg = CFG(self.S.body)
        self.tracked, self.axioms, self.entryfacts = tracked, axioms, list(entry)
        self.idx = {'0': 0}
        self.atoms = {}
        self.ev = {}
        self.want = set()
        self.queries = {}
        self.killed = {}

    # ---------------------------------------------------------------- events
    def trackable(self, a):
        """Atoms the analysis follows: local scalars, parameters, ghosts and tracked fields."""
        if '@' in a.key:
            return True
        n = strip(a.node) if a.node is not None else None
        if a.key.startswith('<'):
            p = a.mem[0] if a.mem else None
            return p is not None and bool(p.fields()) and (p.fields()[-1] in self.tracked or p.fields()[-1] in STABLE)
        if a.key.startswith('#'):
            return True
        return n is not None and n.k == 'ref'

    def events(self, n, out):
        """Side effects of expression n in evaluation order."""
        k = n.k
        if k == 'decl':
            for v in n.a:
                if v.init is not None and v.storage == 'auto':
                    self.events(v.init, out)
                    if intty(v.ty):
                        self.setvar(v.id, v.name, v.init, out)
                elif v.storage == 'auto' and intty(v.ty):
                    out.append(('havoc', self.vkey(v.id, v.name)))
            return
        if k == 'asg':
            self.events(n.c[1], out)
            l = strip(n.c[0])
            for c in kids(l):
                self.events(c, out)
            self.store(l, n, out)
            return
        if k == 'un' and (n.a.startswith('pre') or n.a.startswith('post')):
            l = strip(n.c[0])
            for c in kids(l):
                self.events(c, out)
            d = 1 if '++' in n.a else -1
            if l.k == 'ref':
                out.append(('shift', self.vkey(l.a[1], l.a[0]), d))
            else:
                self.memwrite(l, ('shift', d), out, n)
            return
        if k == 'un' and n.a == '&':
            l = strip(n.c[0])
            for c in kids(l):
                self.events(c, out)
            return
        if k == 'call':
            for c in n.c[1:]:
                self.events(c, out)
            if fatal_call(n):
                return
            w = []
            self.acc.call(self.S, n, w, 0)
            first = len(out)
            for p, wr, sub, _ in w:
                if not wr:
                    continue
                if p.root[0] in ('var', 'parm') and not p.fields() and (not p.sels or len(p.sels) == 1):
                    out.append(('havoc', self.vkey(p.root[1], p.root[2])))
                self.kill(p, sub, out)
            # object invariants hold when the call returns
            ks = [e for e in out[first:] if e[0] in ('kill', 'killsub')]
            if len(ks) > 1:
                out.append(('inv', ks))
            return
        if k == 'cond':
            self.events(n.c[0], out)
            for c in n.c[1:]:
                t = []
                self.events(c, t)
                for e in t:
                    if e[0] in ('set', 'shift', 'havoc'):
                        out.append(('havoc', e[1]))
                    else:
                        out.append(e)
            return
        for c in kids(n):
            self.events(c, out)

    def vkey(self, i, name):
        nm = name if i in self.S.params else '%s#%s' % (name, i)
        return nm

    def setvar(self, i, name, e, out, op='='):
        key = self.vkey(i, name)
        if op == '=':
            r = N('ref', 0, 'int', (name, i, 'var'), [])
            if i not in self.S.params and self.S.single(r) is not None and intty('int'):
                self.S.poly(r)
                gs = self.S.ghosts.get(i)
                if gs is not None and key not in [a.key for a in self.S.poly(r).atoms()]:
                    out.append(('ghost', i))
                    for t, d in self.stepped(e):
                        for g, a in gs.values():
                            if a.key == t.key:
                                out.append(('shift', g.key, -d))
                    x = strip_int(e)
                    if x.k == 'cond':
                        out.append(('ghostcond', i, x))
                    return
            x = strip_int(e)
            if x.k == 'cond':
                out.append(('setcond', key, x))
            else:
                out.append(('set', key, self.after(e)))
        elif op in ('+=', '-='):
            q = self.S.poly(e)
            if op == '-=':
                q = q.neg()
            out.append(('set', key, Poly.atom(Atom(key, {i}, (), N('ref', 0, 'int', (name, i, 'var'), []))) + q))
        else:
            out.append(('havoc', key))

    def stepped(self, e):
        """The terms e counts up or down, and by how much."""
        out = []
        for y in walk(e):
            if y.k == 'un' and y.a[-2:] in ('++', '--'):
                l = strip(y.c[0])
                q = Poly.atom(self.S.varatom(l)) if l.k == 'ref' else Poly.atom(self.S.opaque(l))
                out.append((list(q.atoms())[0], 1 if '++' in y.a else -1))
        return out

    def after(self, e):
        """The value of e in terms of the state its own side effects leave."""
        q = self.S.poly(e)
        for t, d in self.stepped(e):
            q = q - Poly.const(q.t.get((t,), 0) * d)
        return q

    def store(self, l, n, out):
        if l.k == 'ref':
            if l.a[2] in ('global', 'slocal'):
                return
            if intty(l.ty):
                self.setvar(l.a[1], l.a[0], n.c[1], out, n.a)
            return
        if n.a == '=':
            self.memwrite(l, ('set', n.c[1]), out, n)
        elif n.a in ('+=', '-='):
            q = self.S.poly(n.c[1])
            self.memwrite(l, ('add', q if n.a == '+=' else q.neg()), out, n)
        elif n.a == '*=':
            self.memwrite(l, ('mul', n.c[1]), out, n)
        else:
            self.memwrite(l, ('havoc',), out, n)

    def memwrite(self, l, what, out, node):
        ps = self.S.lval(l)
        for p in ps:
            fs = p.fields()
            if not fs:
                continue
            same = None
            if what[0] == 'set' and intty(l.ty):
                q = self.S.poly(what[1])
                if len(q.t) == 1 and q.atoms() and list(q.t) == [(list(q.atoms())[0],)] and list(q.t.values()) == [1]:
                    same = list(q.atoms())[0].key
            self.kill(p, l.ty.startswith('struct') and not isptr(l.ty), out, exact=len(ps) == 1, same=same)
        if len(ps) == 1 and ps[0].fields() and ps[0].fields()[-1] in self.tracked:
            a = self.S.opaque(l)
            out.append(('mem', a, what, node))
        for p in ps:
            if p.fields() and p.fields()[-1] in getattr(self, 'buffers', ()) and p.sels[-1] == ('f', p.fields()[-1]) and what[0] == 'set':
                out.append(('buf', p, what[1], node))

    def kill(self, p, sub, out, exact=False, same=None):
        """same: key of the term whose value is stored (that term keeps its value even if it is what is overwritten)"""
        fs = p.fields()
        if fs and fs[-1] in self.tracked:
            out.append(('kill', p, exact, same))
        elif sub or not fs:
            out.append(('killsub', p))

    # ---------------------------------------------------------------- preparation
    def prepare(self, queries):
        """queries: polynomials whose terms must be followed."""
        cfg = self.cfg
        conds = []
        for b in cfg.live:
            evs = []
            if b.kind == 'omp':
                from c06 import clause_ids
                for i, r in clause_ids(b.ast, 'private').items():
                    evs.append(('havoc', self.vkey(i, r.a[0])))
                self.ev[b.id] = evs
                continue
            if b.kind in ('ompend', 'loop', 'entry', 'exit', 'fatal') or b.ast is None:
                self.ev[b.id] = evs
                continue
            self.events(b.ast, evs)
            self.ev[b.id] = evs
            if b.kind == 'branch':
                for lab in (True, False):
                    conds += self.constraints(b.ast, lab)
        # terms related to the queries
        rel = {}

        def need(q):
            for a in q.atoms():
                if self.trackable(a) and a.key not in rel:
                    rel[a.key] = a
                    todo.append(a)
        todo = []
        for q in queries:
            need(q)
        # a count that grows in a loop moves with the loop's own counter
        steps = []
        kinds = ('idx', 'mem', 'ref') if self.counters else ('idx', 'mem')
        for x in walk(self.S.body):
            if x.k in ('for', 'while') and x.c[1 if x.k == 'for' else 0] is not None:
                cs = [q for q, c in self.constraints(x.c[1 if x.k == 'for' else 0], True)]
                for y in walk(x.c[-1]):
                    if (y.k == 'un' and '++' in y.a and strip(y.c[0]).k in kinds
                            or y.k == 'asg' and y.a == '+=' and strip(y.c[0]).k in kinds and const1(y.c[1])):
                        t = strip(y.c[0])
                        steps.append((self.vkey(t.a[1], t.a[0]) if t.k == 'ref' else self.S.opaque(t).key, cs))
        sets, gdefs = {}, {}
        for b in cfg.live:
            for e in self.ev[b.id]:
                if e[0] == 'set':
                    sets.setdefault(e[1], []).append(e[2])
                elif e[0] == 'setcond':
                    for x in e[2].c[1:]:
                        sets.setdefault(e[1], []).append(self.S.poly(x))
                    for c in self.cond_polys(e[2].c[0]):
                        sets.setdefault(e[1], []).append(c)
                elif e[0] == 'mem' and e[2][0] == 'set':
                    sets.setdefault(e[1].key, []).append(self.S.poly(e[2][1]))
                elif e[0] == 'mem' and e[2][0] == 'add':
                    sets.setdefault(e[1].key, []).append(e[2][1])
                elif e[0] == 'ghost':
                    for g, a in self.S.ghosts.get(e[1], {}).values():
                        gdefs.setdefault(g.key, []).append(Poly.atom(a))
                        m = self.multiple(a)
                        if m is not None:
                            gdefs[g.key].append(m[0])
                elif e[0] == 'ghostcond':
                    for g, a in self.S.ghosts.get(e[1], {}).values():
                        for x in e[2].c[1:]:
                            gdefs.setdefault(g.key, []).append(self.S.poly(x))
                        for c in self.cond_polys(e[2].c[0]):
                            gdefs.setdefault(g.key, []).append(c)
        while todo:
            a = todo.pop()
            for q in sets.get(a.key, ()):
                if linear(q) is not None:
                    need(q)
            for q in gdefs.get(a.key, ()):
                need(q)
            for u, v, c in self.axioms(self, a):
                need(u)
                need(v)
            if not todo:
                for k, qs in steps:
                    if k in rel:
                        for q in qs:
                            need(q)
                for q, c in conds:
                    ats = [x for x in q.atoms() if self.trackable(x)]
                    if len(ats) == 2 and len(ats) == len(q.atoms()) and (ats[0].key in rel) != (ats[1].key in rel):
                        need(q)
        for u, v, c in self.entryfacts:
            need(u)
            need(v)
        self.atoms = rel
        for k in rel:
            self.idx[k] = len(self.idx)
        self.n = len(self.idx)

    def cond_polys(self, e):
        return [q for q, c in self.constraints(e, True)]

    def constraints(self, e, lab):
        """[(poly, k)]: poly <= k holds when e evaluates to lab; 'ne' marks disequality."""
        e = strip(e)
        if e.k == 'un' and e.a == '!':
            return self.constraints(e.c[0], not lab)
        if e.k == 'bin' and e.a in ('&&', '||') and (e.a == '&&') == lab:
            return self.constraints(e.c[0], lab) + self.constraints(e.c[1], lab)
        if e.k == 'ref':
            d = self.answer(e)
            return [] if d is None else self.constraints(d, lab)
        if e.k != 'bin' or e.a not in ('<', '<=', '>', '>=', '==', '!='):
            return []
        l, r = strip_int(e.c[0]), strip_int(e.c[1])
        if not (self.intlike(l) and self.intlike(r)):
            return []
        d = self.S.poly(l) - self.S.poly(r)
        op = e.a
        if not lab:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
        if op == '<':
            return [(d, -1)]
        if op == '<=':
            return [(d, 0)]
        if op == '>':
            return [(d.neg(), -1)]
        if op == '>=':
            return [(d.neg(), 0)]
        if op == '==':
            return [(d, 0), (d.neg(), 0)]
        return [(d, 'ne')]

    def answer(self, e):
        """The condition a local holds the answer to, when what it asked about has not changed since."""
        S = self.S
        d = S.single(e)
        if d is None:
            return None
        d = strip_int(d)
        if not (d.k == 'bin' and d.a in ('<', '<=', '>', '>=', '==', '!=', '&&', '||') or d.k == 'un' and d.a == '!' or d.k == 'ref'):
            return None
        for x in walk(d):
            if x.k == 'ref':
                i = x.a[1]
                if x.a[2] in ('global', 'slocal'):
                    return None
                if x.a[2] != 'func' and S.single(x) is None and (i not in S.params or i in S.addr or i in S.inc or S.defs.get(i)):
                    return None
            elif x.k == 'mem' and (x.a[0] if isinstance(x.a, (list, tuple)) else x.a) not in STABLE:
                return None
            elif x.k == 'idx' or x.k == 'un' and x.a == '*' or x.k == 'asg' or x.k == 'call' and not (x.a and x.a[0].startswith('bml_get_')):
                return None
        return d

    def intlike(self, n):
        return intty(n.ty) or n.ty.startswith('enum') or n.k in ('int', 'enum') or not ('*' in n.ty or n.ty.startswith(('double', 'float', '_Complex', 'struct')))

    # ---------------------------------------------------------------- transfer
    def ix(self, a):
        return 0 if a is None else self.idx.get(a.key)

    def assume(self, D, q, k):
        """q <= k"""
        if k == 'ne':
            l = linear(q)
            if l is None:
                return True
            u, v, c = l
            i, j = self.ix(u), self.ix(v)
            if i is None or j is None or i == j:
                return True
            if D.m[i][j] == -c:
                return D.add(i, j, -c - 1)
            if D.m[j][i] == c:
                return D.add(j, i, c - 1)
            return True
        l = linear(q)
        if l is None:
            return True
        u, v, c = l
        i, j = self.ix(u), self.ix(v)
        if i is None or j is None:
            return True
        return D.add(i, j, k - c)

    def axiom(self, D, key):
        a = self.atoms.get(key)
        if a is None:
            return
        for u, v, c in self.axioms(self, a):
            self.assume(D, u - v, c)

    def setpoly(self, D, i, key, q):
        l = linear(q)
        if l is not None:
            u, v, c = l
            if v is None:
                j = self.ix(u)
                if j == i:
                    D.shift(i, c)
                    return
                if j is not None:
                    D.havoc(i)
                    D.add(i, j, c)
                    D.add(j, i, -c)
                    return
        # bounds of a sum of terms
        hi, lo = self.bound(D, q), self.bound(D, q.neg())
        up = []
        if l is not None and l[1] is not None:
            u, v, c = l
            iu, iv = self.ix(u), self.ix(v)
            if iu is not None and iv is not None and iv != i and iu != i:
                # key = u - v + c
                lov = D.m[0][iv]       # -v <= lov
                if lov < INF:
                    up.append((iu, c + lov))
        D.havoc(i)
        if hi < INF:
            D.add(i, 0, hi)
        if lo < INF:
            D.add(0, i, lo)
        for j, c in up:
            D.add(i, j, c)

    def bound(self, D, q):
        """Upper bound of q as a constant."""
        l = linear(q)
        if l is not None:
            i, j = self.ix(l[0]), self.ix(l[1])
            if i is None or j is None:
                return INF
            return (0 if i == j else D.m[i][j]) + l[2]
        t = 0
        for m, c in q.t.items():
            if m == ():
                t += c
                continue
            if len(m) != 1:
                return INF
            i = self.ix(m[0])
            if i is None:
                return INF
            b = D.m[i][0] if c > 0 else D.m[0][i]
            if b == INF:
                return INF
            t += abs(c) * b
        return t

    def transfer(self, b, D):
        for e in self.ev[b.id]:
            t = e[0]
            if t == 'havoc':
                i = self.idx.get(e[1])
                if i is not None:
                    D.havoc(i)
                    self.axiom(D, e[1])
                self.dep(D, e[1])
            elif t == 'shift':
                i = self.idx.get(e[1])
                if i is not None:
                    D.shift(i, e[2])
                self.dep(D, e[1])
            elif t == 'set':
                i = self.idx.get(e[1])
                if i is not None:
                    self.setpoly(D, i, e[1], e[2])
                self.dep(D, e[1])
            elif t == 'setcond':
                i = self.idx.get(e[1])
                if i is not None:
                    D = self.condset(D, i, e[1], e[2])
                self.dep(D, e[1])
            elif t == 'ghost':
                for g, a in self.S.ghosts.get(e[1], {}).values():
                    i = self.idx.get(g.key)
                    if i is not None:
                        j = self.idx.get(a.key)
                        D.havoc(i)
                        if j is not None:
                            D.add(i, j, 0)
                            D.add(j, i, 0)
                        else:
                            self.axiom(D, g.key)
                            m = self.multiple(a)
                            if m is not None:
                                l = linear(m[0])
                                if l is not None and l[1] is None and self.ix(l[0]) is not None:
                                    low = -self.bound(D, m[0].neg())
                                    grow = int((m[1] - 1) * low) if 0 < low < INF else 0
                                    D.add(self.ix(l[0]), i, -l[2] - grow)
                        for k, a in self.atoms.items():
                            if a.mem and a.mem[0].root[0] == 'call' and '@' not in k and k[0] == '<':
                                self.axiom(D, k)
            elif t == 'ghostcond':
                for g, a in self.S.ghosts.get(e[1], {}).values():
                    i = self.idx.get(g.key)
                    if i is not None and len(self.S.ghosts[e[1]]) == 1:
                        D = self.condset(D, i, g.key, e[2])
            elif t == 'kill':
                self.memkill(D, e[1], e[2], e[3])
            elif t == 'inv':
                for x in e[1]:
                    if x[0] == 'kill':
                        self.memkill(D, x[1], x[2], x[3], havoc=False)
                    else:
                        self.subkill(D, x[1], havoc=False)
            elif t == 'killsub':
                self.subkill(D, e[1])
            elif t == 'mem':
                i = self.idx.get(e[1].key)
                if i is None:
                    continue
                w = e[2]
                if w[0] == 'shift':
                    D.shift(i, w[1])
                elif w[0] == 'set':
                    x = strip_int(w[1])
                    if x.k == 'cond':
                        D = self.condset(D, i, e[1].key, x)
                    else:
                        self.setpoly(D, i, e[1].key, self.after(w[1]))
                elif w[0] == 'add':
                    self.setpoly(D, i, e[1].key, Poly.atom(e[1]) + w[1])
                elif w[0] == 'mul':
                    c = strip(w[1])
                    while c.k == 'cast':
                        c = c.c[0]
                    if c.k in ('float', 'int') and float(c.a) >= 1:
                        lb = -D.m[0][i]
                        grow = int((float(c.a) - 1) * lb) if lb > -INF and lb > 0 else 0
                        old = [D.m[j][i] for j in range(D.n)]
                        D.havoc(i)
                        for j, o in enumerate(old):
                            if j != i and o < INF:
                                D.add(j, i, o - grow)      # x_j - old <= o, new >= old + grow
                    else:
                        D.havoc(i)
                else:
                    D.havoc(i)
            elif t == 'buf':
                key = '#' + repr(e[1])
                i = self.idx.get(key)
                if i is not None:
                    q = self.bufsize(e[1], e[2])
                    D.havoc(i)
                    if q is not None:
                        self.setpoly(D, i, key, q)
        return D

    def multiple(self, a):
        """(p, c): the term is p * c, cut down to an integer, with a constant c of at least 1."""
        n = strip(a.node) if a.node is not None else None
        while n is not None and n.k == 'cast':
            n = strip(n.c[0])
        if n is None or n.k != 'bin' or n.a != '*':
            return None
        for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
            y = strip(y)
            while y.k == 'cast':
                y = strip(y.c[0])
            if y.k in ('float', 'int') and float(y.a) >= 1:
                x = strip(x)
                while x.k == 'cast':
                    x = strip(x.c[0])
                if intty(x.ty):
                    return self.S.poly(x), float(y.a)
        return None

    def bufsize(self, p, e):
        return None

    def condset(self, D, i, key, x):
        outs = []
        for lab, arm in ((True, x.c[1]), (False, x.c[2])):
            d = D.copy()
            ok = True
            for q, k in self.constraints(x.c[0], lab):
                ok = ok and self.assume(d, q, k)
            if ok:
                y = strip_int(arm)
                if y.k == 'cond':
                    d = self.condset(d, i, key, y)
                else:
                    self.setpoly(d, i, key, self.S.poly(arm))
                outs.append(d)
        if not outs:
            return D
        r = outs[0]
        for o in outs[1:]:
            r = join(r, o)
        return r

    def dep(self, D, key):
        """A scalar changed: forget fields indexed by it."""
        gone = []
        for k, a in self.atoms.items():
            if k != key and a.key.startswith('<') and '@' not in a.key.split('>')[-1] and a.mem:
                p = a.mem[0]
                for kk, v in p.sels:
                    if kk == 'i' and any(b.key == key or key in b.key for b in v.atoms()):
                        D.havoc(self.idx[k])
                        gone.append(k)
                        break
        for k in gone:
            self.axiom(D, k)
            if self.freshzero(k, key):
                i = self.idx[k]
                D.add(i, 0, 0)
                D.add(0, i, 0)

    counters = False     # follow the loop of a local counter as well

    def freshzero(self, k, key):
        return False

    def memkill(self, D, p, exact, same=None, havoc=True):
        f = p.fields()[-1]
        for k, a in self.atoms.items():
            if k == same:
                continue
            if not (a.key.startswith('<') and a.key.endswith('>') and a.mem):
                continue
            q = a.mem[0]
            if exact and q.key == p.key:
                continue
            if q.fields() and q.fields()[-1] == f and not self.apart(p, q):
                if havoc:
                    self.forget(D, self.idx[k], f)
                self.axiom(D, k)

    def forget(self, D, i, f):
        """The field changed; a field that only grows keeps its lower bounds."""
        if f not in self.grows:
            return D.havoc(i)
        for a in range(D.n):
            if a != i:
                D.m[i][a] = INF

    def subkill(self, D, p, havoc=True):
        for k, a in self.atoms.items():
            if not (a.key.startswith('<') and a.key.endswith('>') and a.mem):
                continue
            q = a.mem[0]
            if q.root[:2] == p.root[:2] and len(q.sels) >= len(p.sels) and q.fields()[:len(p.fields())] == p.fields() and not (q.fields() and q.fields()[-1] in STABLE):
                if havoc:
                    self.forget(D, self.idx[k], q.fields()[-1] if q.fields() else None)
                self.axiom(D, k)

    def apart(self, p, q):
        if p.root[:2] == q.root[:2]:
            if p.fields() == q.fields():
                for (k1, v1), (k2, v2) in zip(p.sels, q.sels):
                    if k1 == 'i' and k2 == 'i':
                        d = (v1 - v2).value()
                        if d is not None and d != 0:
                            return True
                        if d is None:
                            return False
            return False
        return p.root[0] in ('alloc', 'call') or q.root[0] in ('alloc', 'call')

    # ---------------------------------------------------------------- fixpoint
    def run(self):
        cfg = self.cfg
        order = {b.id: k for k, b in enumerate(cfg.rpo())}
        nodes = {b.id: b for b in cfg.live}
        D = DBM(self.n)
        for k in self.atoms:
            self.axiom(D, k)
        for u, v, c in self.entryfacts:
            self.assume(D, u - v, c)
        self.state = {cfg.entry.id: D}
        visits = {}
        import heapq
        work = [(order[cfg.entry.id], cfg.entry.id)]
        inw = {cfg.entry.id}
        steps = 0
        while work:
            _, bid = heapq.heappop(work)
            inw.discard(bid)
            b = nodes[bid]
            steps += 1
            if steps > 20000:
                raise RuntimeError('zone analysis did not converge in ' + self.f.name)
            S = self.state[bid].copy()
            if b.kind == 'loop':
                S.close()
            S = self.transfer(b, S)
            if b.kind == 'fatal':
                continue
            for t, lab in b.succ:
                d = S
                if lab is True or lab is False:
                    d = S.copy()
                    ok = True
                    cs = self.constraints(b.ast, lab)
                    for q, k in cs:
                        ok = ok and self.assume(d, q, k)
                    if not ok:
                        continue
                old = self.state.get(t.id)
                if old is None:
                    self.state[t.id] = d.copy()
                    ch = True
                else:
                    v = visits.get(t.id, 0)
                    ch = False
                    om, dm = old.m, d.m
                    for i in range(self.n):
                        ro, rd = om[i], dm[i]
                        for j in range(self.n):
                            if rd[j] > ro[j]:
                                ro[j] = INF if t.kind == 'loop' and v > 4 else rd[j]
                                ch = True
                    if ch:
                        visits[t.id] = v + 1
                if ch and t.id not in inw and t.id in order:
                    inw.add(t.id)
                    heapq.heappush(work, (order[t.id], t.id))
        return self

    def at(self, b):
        D = self.state.get(b.id)
        if D is None:
            return None
        if b.kind == 'loop':
            D = D.copy()
            D.close()
        return D

    def within(self, b, x):
        """The state in which part x of node b is evaluated: inside an arm of ?: or behind && and ||, the condition is known."""
        D = self.at(b)
        if D is None:
            return None
        path = []

        def go(n):
            if n is x:
                return True
            for j, c in enumerate(kids(n)):
                if go(c):
                    if n.k == 'cond' and c is not n.c[0]:
                        path.append((n.c[0], c is n.c[1]))
                    elif n.k == 'bin' and n.a in ('&&', '||') and c is not n.c[0]:
                        path.append((n.c[0], n.a == '&&'))
                    return True
            return False
        if not go(b.ast) or not path:
            return D
        top = strip(b.ast)
        for y in walk(b.ast):
            if y.k == 'un' and ('++' in y.a or '--' in y.a) or y.k == 'asg' and y is not top or y.k == 'call' and not self.pure(y):
                return D
        D = D.copy()
        for c, lab in path:
            for q, k in self.constraints(c, lab):
                if not self.assume(D, q, k):
                    return None
        return D

    def pure(self, call):
        w = []
        self.acc.call(self.S, call, w, 0)
        return not any(t[1] for t in w)

    def le(self, D, p, q, k=0):
        """Is p - q <= k known?"""
        d = p - q
        v = d.value()
        if v is not None:
            return v <= k
        return self.bound(D, d) <= k


def join(a, b):
    return DBM(a.n, [[x if x > y else y for x, y in zip(r, s)] for r, s in zip(a.m, b.m)])
