"""C06: OpenMP regions are free of data races.

Every memory access in a parallel region is resolved to a path (sym.Path).  Two accesses to the same object in
different iterations, one of them a write, must be told apart by an index selector of the form i*S + r (i the
distributed loop variable, S invariant and equal in both), by distinct fields or constants, or both be made under
the lock of the row they address (or the same critical section).  Scalars written must be private, or reduction
variables updated with the declared operator only."""
from core import walk, kids, show, N
from ownership import strip, isptr
from cfg import CFG, uncond, fatal_call, is_assert
from report import Report, Broken
from sym import Sym, Poly, Path, Atom, isarr, subst_poly, subst_path
import modref, re, carry

PREC = re.compile(r'_(single|double)_(real|complex)$')
UNSAFE = {'rand', 'srand', 'random', 'srandom', 'drand48', 'erand48', 'srand48', 'strtok', 'localtime', 'gmtime', 'asctime', 'ctime',
          'setenv', 'putenv', 'setlocale', 'lgamma', 'signal'}
PURE = {'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_wtime'}
# index lists that name each row once by contract: (function, parameter position)
DISTINCT = {'bml_reorder': None, 'bml_submatrix2matrix': None}


class Acc:
    __slots__ = ('path', 'w', 'sub', 'prot', 'node', 'loops', 'atomic', 'ws')

    def __init__(self, path, w, sub, node, loops=(), prot=frozenset(), ws=None):
        self.path, self.w, self.sub, self.node, self.loops, self.prot, self.ws = path, w, sub, node, loops, prot, ws

    def __repr__(self):
        return '%s%s %r%s%s @%d' % ('W' if self.w else 'R', '*' if self.sub else '', self.path,
                                    ' prot=%s' % sorted(self.prot) if self.prot else '', '', self.node.line)


class Access:
    """Accesses of expressions, callees expanded to accesses through their parameters."""

    def __init__(self, P, M):
        self.P, self.M = P, M
        self.summ, self.busy = {}, set()

    def expr(self, S, n, out, depth=0):
        """Append (path, write, subtree, node) of everything evaluating n touches."""
        k = n.k
        if k == 'asg':
            self.lv(S, n.c[0], out, depth)
            ps = S.lval(n.c[0])
            for p in ps:
                out.append((p, True, n.c[0].ty.startswith('struct') and not isptr(n.c[0].ty), n))
                if n.a != '=':
                    out.append((p, False, False, n))
            self.expr(S, n.c[1], out, depth)
            return
        if k == 'un' and (n.a.startswith('pre') or n.a.startswith('post')):
            self.lv(S, n.c[0], out, depth)
            for p in S.lval(n.c[0]):
                out.append((p, True, False, n))
                out.append((p, False, False, n))
            return
        if k == 'un' and n.a == '&':
            self.lv(S, n.c[0], out, depth)
            return
        if k == 'ref':
            if n.a[2] == 'func' or isarr(n.ty):
                return
            for p in S.lval(n):
                out.append((p, False, False, n))
            return
        if k in ('mem', 'idx') or k == 'un' and n.a == '*':
            self.lv(S, n, out, depth)
            if not isarr(n.ty):
                for p in S.lval(n):
                    out.append((p, False, n.ty.startswith('struct') and not isptr(n.ty), n))
            return
        if k == 'call':
            self.call(S, n, out, depth)
            return
        if k == 'decl':
            for v in n.a:
                if v.vla is not None:
                    self.expr(S, v.vla, out, depth)
                if v.init is not None and v.storage == 'auto':
                    self.expr(S, v.init, out, depth)
            return
        if k == 'return' and (not n.c or n.c[0] is None):
            return
        for c in kids(n):
            self.expr(S, c, out, depth)

    def lv(self, S, n, out, depth):
        """Reads needed to form the address of lvalue n."""
        n = strip(n)
        if n.k == 'ref':
            return
        if n.k == 'mem':
            if n.a[1]:
                self.expr(S, n.c[0], out, depth)
            else:
                self.lv(S, n.c[0], out, depth)
            return
        if n.k == 'idx':
            for c in n.c:
                if isarr(strip(c).ty):
                    self.lv(S, c, out, depth)
                else:
                    self.expr(S, c, out, depth)
            return
        for c in kids(n):
            self.expr(S, c, out, depth)

    def call(self, S, n, out, depth):
        for a in n.c[1:]:
            self.expr(S, a, out, depth)
        nm = n.a[0] if n.a else None
        if nm is not None and fatal_call(n):
            return
        if nm in ('bml_log', 'bml_log_location', 'omp_set_lock', 'omp_unset_lock'):
            return
        if nm is None:
            gs = [g for g in self.M.callees(n, S.f) if not isinstance(g, str)]
        else:
            g = self.P.lookup(nm, S.f)
            gs = [g] if g is not None else []
        for g in gs:
            s = self.summary(g, depth + 1)
            if s is None:
                for j, a in enumerate(n.c[1:]):
                    if isptr(strip(a).ty) or isarr(strip(a).ty) or '*' in strip(a).ty:
                        for p in S.val(a):
                            out.append((p, j in self.M.mods[g], True, n))
                continue
            args, paths = {}, {}
            for j, p in enumerate(g.params):
                if j + 1 >= len(n.c):
                    continue
                a = n.c[1 + j]
                if '*' in p[2] or isarr(p[2]):
                    paths[p[1]] = S.val(a)
                elif not p[2].startswith(('double', 'float', '_Complex', 'struct')):
                    args[p[1]] = S.poly(a)
            for path, w, sub in s:
                for q in subst_path(path, args, paths, n):
                    # the local block of a distributed matrix: not reached with a matrix of one of the shared-memory formats
                    if 'distributed2d' not in S.f.name and any(a.key.startswith('bml_get_local_matrix()') for k, v in q.sels if k == 'i' for a in v.atoms()):
                        continue
                    out.append((q, w, sub, n))
        if not gs and nm is not None:
            ms = modref.ext_mods(nm, len(n.c) - 1)
            for j, a in enumerate(n.c[1:]):
                a0 = strip(a)
                if isptr(a0.ty) or isarr(a0.ty):
                    for p in S.val(a):
                        out.append((p, j in ms, True, n))

    def summary(self, g, depth):
        """Distinct accesses of function g through its parameters and to static storage."""
        if g in self.summ:
            return self.summ[g]
        if g in self.busy or depth > 5:
            return None
        self.busy.add(g)
        S = Sym(self.P, g, None, self.M)
        out = []
        for x in stmts(S.body):
            if any(fatal_call(y) for y in uncond(x)):
                continue
            self.expr(S, x, out, depth)
        res, seen = [], set()
        ok = True
        for p, w, sub, n in out:
            if p.root[0] not in ('parm', 'static'):
                continue
            if p.root[0] == 'parm' and len(p.sels) == 0:
                continue
            if p.root[0] == 'static' and p.root[1] in ('stderr', 'stdout'):
                continue
            k = (p.key, w, sub)
            if k not in seen:
                seen.add(k)
                res.append((p, w, sub))
        self.busy.discard(g)
        if len(res) > 400:
            ok = False
        self.summ[g] = res if ok else None
        return self.summ[g]


def stmts(n):
    """Expression statements, conditions and declarations of a body."""
    if n is None:
        return
    k = n.k
    if k in ('block', 'splice', 'label', 'case', 'default', 'inl', 'omp'):
        for c in n.c:
            yield from stmts(c)
    elif k == 'if':
        yield n.c[0]
        yield from stmts(n.c[1])
        yield from stmts(n.c[2])
    elif k == 'for':
        for c in n.c:
            yield from stmts(c)
    elif k in ('while', 'switch'):
        yield n.c[0]
        yield from stmts(n.c[1])
    elif k == 'do':
        yield from stmts(n.c[0])
        yield n.c[1]
    elif k in ('null', 'break', 'continue', 'leave', 'goto'):
        return
    else:
        yield n


# ---------------------------------------------------------------- regions
def regions(body):
    """Outermost OpenMP directives that create concurrency."""
    out = []

    def go(n):
        if n is None:
            return
        if n.k == 'omp' and (n.a['dir'].startswith('parallel') or 'simd' in n.a['dir'] or n.a['dir'].startswith(('target', 'teams', 'task'))):
            out.append(n)
            return
        for c in (kids(n) if n.k != 'decl' else ()):
            go(c)
    go(body)
    return out


def clause_ids(d, *names):
    s = {}
    for n, o, l in d.a['clauses']:
        if n in names:
            for x in l:
                x = strip(x)
                if x.k == 'ref':
                    s[x.a[1]] = x
    return s


def first_for(n):
    while n is not None and n.k in ('block', 'splice', 'inl'):
        c = [x for x in n.c if x is not None and x.k != 'null']
        n = c[0] if c else None
    return n if n is not None and n.k == 'for' else None


def induction(n):
    """(variable id, reference) of a for loop."""
    init = n.c[0]
    if init is not None and init.k == 'decl' and len(init.a) == 1:
        return init.a[0].id, init.a[0].init
    if init is not None and init.k == 'asg' and strip(init.c[0]).k == 'ref':
        return strip(init.c[0]).a[1], init.c[1]
    return None, None


class Region:
    def __init__(self, C, S, d):
        self.C, self.S, self.d = C, S, d
        self.private, self.red = {}, {}
        self.iv = set()
        self.loops = []
        body = d.c[0]
        inner = [d]
        for x in walk(body):
            if x.k == 'omp':
                inner.append(x)
        for x in inner:
            self.private.update(clause_ids(x, 'private', 'firstprivate', 'lastprivate', 'linear', 'copyin'))
            for n, o, l in x.a['clauses']:
                if n == 'reduction':
                    for r in l:
                        self.red[strip(r).a[1]] = (o, strip(r).a[0])
            if 'for' in x.a['dir'].split() or 'simd' in x.a['dir'].split():
                ncol = 1
                for n, o, l in x.a['clauses']:
                    if n == 'collapse' and l:
                        ncol = strip(l[0]).a if strip(l[0]).k == 'int' else 1
                L = first_for(x.c[0])
                if L is None:
                    continue
                ivs = []
                while L is not None and ncol > 0:
                    i, ini = induction(L)
                    ivs.append((i, L))
                    self.iv.add(i)
                    L = first_for(L.c[3])
                    ncol -= 1
                self.loops.append((x, ivs))
        self.declared = set()
        self.decl_t = {}
        for x in walk(body):
            if x.k == 'decl':
                for v in x.a:
                    if v.storage == 'auto':
                        self.declared.add(v.id)
        self.local = self.declared | set(self.private) | self.iv | set(self.red)
        self.allocs = {id(x) for x in walk(body) if x.k == 'call'}
        self.written = set()        # variables assigned in the region
        for x in walk(body):
            if x.k == 'asg' and strip(x.c[0]).k == 'ref':
                self.written.add(strip(x.c[0]).a[1])
            elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')) and strip(x.c[0]).k == 'ref':
                self.written.add(strip(x.c[0]).a[1])
        self.vary = self.written | self.declared | self.iv
        self.collect()

    def collect(self):
        """Accesses with lock protection, from a forward must-analysis of held locks."""
        g = CFG(self.d.c[0])
        S = self.S
        held = {g.entry: frozenset()}
        order = g.rpo()
        ch = True
        hold = {}

        def upd(b, s):
            if b.ast is None or b.kind in ('omp', 'ompend'):
                return s
            for x in walk(b.ast):
                if x.k == 'call' and x.a:
                    if x.a[0] in ('omp_set_lock', 'omp_set_nest_lock'):
                        s = s | {lock_key(S.val(x.c[1]))}
                    elif x.a[0] in ('omp_unset_lock', 'omp_unset_nest_lock'):
                        s = s - {lock_key(S.val(x.c[1]))}
            return s
        while ch:
            ch = False
            for b in order:
                ins = [upd(p, held[p]) for p, _ in b.pred if p in held]
                if b is g.entry:
                    i = frozenset()
                elif ins:
                    i = frozenset.intersection(*ins)
                else:
                    continue
                if held.get(b) != i:
                    held[b] = i
                    ch = True
        self.acc = []
        self.calls = []
        self.unbalanced = held.get(g.exit, frozenset())
        for b in g.live:
            if b.ast is None or b.kind in ('omp', 'ompend', 'fatal'):
                continue
            out = []
            self.C.expr(S, b.ast, out)
            prot = held.get(b, frozenset())
            ex = set()
            ws = None
            for o in b.omp:
                t = o.a['dir']
                if t == 'critical':
                    ex.add(('critical', o.a.get('name', '')))
                elif t in ('single', 'master', 'masked'):
                    ex.add(('single', id(o)))
                elif t == 'atomic':
                    ex.add(('atomic', ''))
                if 'for' in t.split():
                    ws = o
            if 'for' in self.d.a['dir'].split() or 'simd' in self.d.a['dir'].split():
                ws = self.d
            for p, w, sub, n in [(q, w, sub, n) for p, w, sub, n in out for q in self.pointees(p)]:
                e = set(ex)
                if ('atomic', '') in e and not w and not any(n is y or y is n for y in [b.ast]) and b.ast.k == 'asg' and n is not b.ast:
                    e.discard(('atomic', ''))
                self.acc.append(Acc(p, w, sub, n, b.loops, prot | frozenset(e), ws))
            for x in walk(b.ast):
                if x.k == 'call':
                    self.calls.append((x, b))

    def pointees(self, p):
        """What an element of a private array of pointers points to: everything stored in that array."""
        r = p.root
        if r[0] == 'var' and r[1] in self.local and len(p.sels) >= 2 and p.sels[0][0] == 'i' and p.sels[1][0] == 'i' and \
                isarr(self.S.vars[r[1]].ty if r[1] in self.S.vars else ''):
            out = []
            for x in walk(self.S.body):
                if x.k == 'asg' and x.a == '=' and strip(x.c[0]).k == 'idx' and strip(strip(x.c[0]).c[0]).k == 'ref' and \
                        strip(strip(x.c[0]).c[0]).a[1] == r[1]:
                    for v in self.S.val(x.c[1]):
                        if v.root[0] == 'null':
                            continue
                        out.append(Path(v.root, v.shift(p.sels[1][1]).sels + p.sels[2:], p.node))
            if out:
                return out
            return [Path(('unknown', r[1], r[2]), p.sels, p.node)]
        return [p]

    def is_private(self, p):
        """Storage only this iteration (thread) can reach."""
        r = p.root
        if r[0] == 'var' or r[0] == 'parm':
            if r[1] in self.local:
                if r[1] in self.red:
                    return True
                # a pointer variable itself (no selectors) is private; what it points to is not,
                # unless it is an array whose elements are the variable
                if not p.sels:
                    return True
                if any(k == 'f' for k, v in p.sels) and p.sels[0][0] == 'f':
                    return True
                v = self.S.vars.get(r[1])
                ty = v.ty if v is not None else next((q[2] for q in self.S.f.params if q[1] == r[1]), '')
                if isarr(ty):
                    return True
                return False
            return False
        if r[0] in ('alloc', 'call'):
            return r[1] in self.allocs and not (r[0] == 'call' and isinstance(r[1], int) and False)
        if r[0] in ('func', 'null', 'callee'):
            return True
        return False

    def invariant(self, q):
        for a in q.atoms():
            if a.deps & self.vary:
                return False
            if any(isinstance(d, tuple) for d in a.deps):
                return False
            for m in a.mem:
                if self.memory_written(m):
                    return False
        return True

    def memory_written(self, m):
        for a in self.acc:
            if a.w and a.path.root[:2] == m.root[:2] and a.path.fields() == m.fields():
                if a.path.sels and m.sels:
                    return True
                if a.path.sels == m.sels:
                    return True
        return False

    def injective(self, a, iv):
        """Atom a takes a different value in every iteration."""
        n = strip(a.node)
        if n.k == 'ref' and n.a[1] == iv:
            return True
        if a.key.startswith('<') and len(a.mem) >= 1 and re.sub(r'_(dense|ellpack|csr|ellblock|distributed2d)$', '', PREC.sub('', self.S.f.name)) in DISTINCT:
            m = a.mem[0]
            if m.root[0] == 'parm' and len(m.sels) == 1 and m.sels[0][1] == Poly.atom(self.ivatom(iv, m.sels[0][1])):
                return not self.memory_written(m)
        return False

    def ivatom(self, iv, q):
        for a in q.atoms():
            n = strip(a.node)
            if n.k == 'ref' and n.a[1] == iv:
                return a
        return Atom('?', (), (), None)

    def part(self, q, ivs):
        """The part of index q that tells iterations apart: (kind, S, offset) or None."""
        for iv in ivs:
            for a in sorted(q.atoms()):
                if not self.injective(a, iv):
                    continue
                sp = q.split(a)
                if sp is None:
                    continue
                s, r = sp
                if not s.t or not self.invariant(s):
                    continue
                if any(strip(x.node).k == 'ref' and strip(x.node).a[1] == iv for x in r.atoms()):
                    continue
                if s.isconst():
                    if self.invariant(r):
                        return (a.key, s, r)
                    # column-major: everything else is a multiple of an invariant size
                    if abs(s.value()) == 1 and all(any(self.inv_atom(x) for x in m) for m in r.t):
                        return (a.key, s, 'cols')
                    continue
                # row-major: the rest stays within one row
                off = Poly({m: c for m, c in r.t.items() if divides(s, m)})
                rest = Poly({m: c for m, c in r.t.items() if not divides(s, m)})
                if not self.invariant(off):
                    continue
                return (a.key, s, off)
            seg = self.segment(q, iv)
            if seg is not None:
                return ('segment', seg, None)
        return None

    def segment(self, q, iv):
        """Index that runs through the iteration's own segment X[i] .. X[i+1] of an offset array: the array."""
        vs = [a for a in q.atoms() if a.deps & self.vary]
        if len(vs) != 1 or list(q.t.get((vs[0],), 0) for _ in (0,)) != [1]:
            return None
        n = strip(vs[0].node)
        starts = []
        if n.k == 'ref' and n.a[1] in self.local and n.a[1] not in self.iv:
            for d in self.S.defs.get(n.a[1], ()):
                if d is None:
                    continue
                starts.append(self.S.poly(d))
        elif vs[0].key.startswith('<'):
            starts.append(Poly.atom(vs[0]))
        keys = set()
        for p in starts:
            ok = False
            for a in p.atoms():
                if a.key.startswith('<') and a.mem and p.t.get((a,)) == 1 and (p - Poly.atom(a)).isconst():
                    m = a.mem[0]
                    if m.sels and m.sels[-1][0] == 'i' and self.part_plain(m.sels[-1][1], iv) and not self.memory_written(m) and \
                            (m.sels[-1][1] - Poly.atom(self.ivatom(iv, m.sels[-1][1]))) == Poly():
                        keys.add((repr(Path(m.root, m.sels[:-1])), (p - Poly.atom(a)).value()))
                        ok = True
            if not ok:
                return None
        return keys.pop() if len(keys) == 1 else None

    def inv_atom(self, a):
        return not a.deps & self.vary and not any(isinstance(d, tuple) for d in a.deps) and \
            not any(self.memory_written(m) for m in a.mem)

    def part_plain(self, q, iv):
        return any(strip(a.node).k == 'ref' and strip(a.node).a[1] == iv for a in q.atoms())

    def separated(self, x, y):
        """Can x (a write) in one iteration and y in another never touch the same location?"""
        ivs = [i for _, l in self.loops for i, _ in l] or []
        if x.prot & y.prot & SINGLES(x.prot & y.prot):
            return True
        n = min(len(x.path.sels), len(y.path.sels))
        for d in range(n):
            (k1, v1), (k2, v2) = x.path.sels[d], y.path.sels[d]
            if k1 != k2:
                return False
            if k1 == 'f':
                if v1 != v2:
                    return True
                continue
            if v1.isconst() and v2.isconst():
                if v1.value() != v2.value():
                    return True
                continue
            p1, p2 = self.part(v1, ivs), self.part(v2, ivs)
            if p1 is not None and p2 is not None and p1 == p2:
                return True
            if self.thread_part(v1) and self.thread_part(v1) == self.thread_part(v2):
                return True
            if self.locked(v1, x.prot) and self.locked(v2, y.prot):
                return True
            if self.triangle(x, y, v1, v2, ivs):
                return True
        if len(x.path.sels) == len(y.path.sels):
            return False
        # one is a prefix of the other: they overlap only when the shorter denotes the whole subtree
        if len(x.path.sels) < len(y.path.sels):
            return not x.sub
        return not y.sub

    def thread_part(self, q):
        """q = thread*S + r with r inside the thread's own slice."""
        for a in q.atoms():
            n = strip(a.node)
            if n.k == 'call' and n.a and n.a[0] == 'omp_get_thread_num':
                sp = q.split(a)
                if not sp or not sp[0].t or not self.invariant(sp[0]):
                    continue
                s, r = sp
                off = Poly({m: c for m, c in r.t.items() if divides(s, m)})
                if s.isconst() and r.t or not self.invariant(off):
                    continue
                return (repr(s), repr(off))
        return None

    def locked(self, q, prot):
        """Index q lies in the row whose lock is held."""
        for l in prot:
            if not isinstance(l, tuple) or l[0] != 'lock':
                continue
            k = l[2]
            if q == k:
                return True
            # q = k*S + r
            if len(k.t) == 1 and list(k.t.values())[0] == 1 and len(list(k.t)[0]) == 1:
                a = list(k.t)[0][0]
                sp = q.split(a)
                if sp and sp[0].t and not sp[0].isconst() and self.invariant(sp[0]):
                    return True
        return False

    def triangle(self, x, y, v1, v2, ivs):
        """(i,j) and (j,i) with j always on one side of i: unordered pairs belong to one iteration."""
        for _, l in self.loops:
            for iv, L in l[:1]:
                for jv, lo, hi in self.inner_bounds(x, iv):
                    f1, f2 = self.ij(v1, iv, jv), self.ij(v2, iv, jv)
                    if f1 and f2 and f1[2] == f2[2]:
                        # the same inner loop variable must carry both accesses
                        return True
        return False

    def ij(self, q, iv, jv):
        """q = i*S + j or j*S + i with S invariant."""
        at = {}
        for a in q.atoms():
            n = strip(a.node)
            if n.k == 'ref' and n.a[1] in (iv, jv):
                at[n.a[1]] = a
        if iv not in at or jv not in at:
            return None
        for r, c in ((iv, jv), (jv, iv)):
            sp = q.split(at[r])
            if sp and not sp[0].isconst() and self.invariant(sp[0]) and sp[1] == Poly.atom(at[c]):
                return (r, c, repr(sp[0]))
        return None

    def inner_bounds(self, x, iv):
        """Inner loop variables that stay strictly on one side of the distributed variable."""
        for L in x.loops:
            j, ini = induction(L)
            if j is None or j == iv or ini is None:
                continue
            lo = self.S.poly(ini)
            cond = L.c[1]
            inc = L.c[2]
            up = inc is not None and inc.k == 'un' and inc.a.endswith('++')
            if not up:
                continue
            ia = [a for a in lo.atoms() if strip(a.node).k == 'ref' and strip(a.node).a[1] == iv]
            if ia:
                r = lo - Poly.atom(ia[0])
                if r.isconst() and r.value() >= 0:
                    yield j, lo, None
                    continue
            if cond is not None and cond.k == 'bin' and cond.a in ('<', '<=') and strip(cond.c[0]).k == 'ref' and strip(cond.c[0]).a[1] == j:
                hi = self.S.poly(cond.c[1])
                r = [a for a in hi.atoms() if strip(a.node).k == 'ref' and strip(a.node).a[1] == iv]
                if r and (hi - Poly.atom(r[0])).isconst() and (hi - Poly.atom(r[0])).value() <= 0:
                    yield j, None, hi


def carried(R, f, reg, where, base):
    """Private variables do not transport values from one iteration to the next."""
    for x, ivs in reg.loops:
        L = ivs[-1][1]
        body = L.c[3]
        inl = {v.id for y in walk(body) if y.k == 'decl' for v in y.a}

        def scratch(p):
            if p.root[0] == 'var' and p.root[1] in reg.local and p.root[1] not in inl and len(p.sels) == 1:
                return p.root[:2] + (p.root[2],)
            if p.root[0] in ('alloc', 'call') and p.root[1] not in reg.allocs and p.sels and p.sels[0][0] == 'i' and \
                    reg.thread_part(p.sels[0][1]):
                return p.root[:2] + ('scratch',)
            return None
        sc = lambda p: next((k for k in (scratch(q) for q in reg.pointees(p)) if k is not None), None)
        C = carry.Carry(reg.S, body, ivs[0][0], sc, reg.C)
        R.count('scratch_arrays', len({e[1] for es in C.ev.values() for e in es}))
        for kind, k, n in C.findings():
            R.viol('carry:%s:%s' % (base, kind), '%s: scratch `%s` %s in an iteration (`%s`) keeps that value for the next iteration of the same thread; '
                   'the result depends on the schedule' % (where % n.line, k[2], 'marked' if kind == 'mark' else 'accumulated', show(n)[:80]))
        # scalars
        g = CFG(body)
        for v, ref in reg.private.items():
            if v in reg.iv or isarr(ref.ty):
                continue
            wr, rd = set(), []
            for b in g.live:
                if b.ast is None or b.kind in ('omp', 'ompend'):
                    continue
                d = [y for y in walk(b.ast) if y.k == 'asg' and y.a == '=' and strip(y.c[0]).k == 'ref' and strip(y.c[0]).a[1] == v]
                dl = {id(strip(y.c[0])) for y in d}
                us = [y for y in walk(b.ast) if y.k == 'ref' and y.a[1] == v and id(y) not in dl]
                if us:
                    rd.append((b, us[0], bool(d)))
                if d:
                    wr.add(b.id)
                if any(y.k == 'un' and y.a.startswith(('pre', 'post')) and uses(y, v) or y.k == 'asg' and y.a != '=' and
                       strip(y.c[0]).k == 'ref' and strip(y.c[0]).a[1] == v for y in walk(b.ast)):
                    wr.add(b.id)
            R.count('private_scalars')
            if not wr:
                continue
            for b, u, same in rd:
                if g.reaches(g.entry, b, wr - {b.id}) and not first_use_guard(g, v):
                    R.viol('carry:%s:scalar' % base, '%s: private `%s` is read before this iteration assigns it (`%s`); it holds the value of '
                           'another iteration of the same thread' % (where % u.line, ref.a[0], show(b.ast)[:80]))
                    break


def first_use_guard(g, v):
    """Set-once flag: only assigned a non-zero constant under a test of itself."""
    for b in g.live:
        if b.ast is None or b.kind in ('omp', 'ompend'):
            continue
        for y in walk(b.ast):
            if y.k == 'asg' and strip(y.c[0]).k == 'ref' and strip(y.c[0]).a[1] == v and strip(y.c[1]).k != 'int':
                return False
            if y.k == 'ref' and y.a[1] == v and b.kind != 'branch' and not (b.ast.k == 'asg'):
                return False
    return True


def SINGLES(s):
    return frozenset(x for x in s if x[0] in ('critical', 'atomic', 'single'))


def lock_key(ps):
    p = ps[0]
    idx = p.sels[-1][1] if p.sels and p.sels[-1][0] == 'i' else Poly()
    return ('lock', repr(Path(p.root, p.sels[:-1])), idx)


def divides(s, m):
    """Monomial m contains every factor of some monomial of s."""
    for t in s.t:
        l = list(m)
        ok = True
        for a in t:
            if a in l:
                l.remove(a)
            else:
                ok = False
                break
        if ok and t:
            return True
    return False


REDOK = {'operator+': {'+=', '-=', '++', '--'}, 'operator-': {'-=', '+='}, 'operator*': {'*='}, 'operator|': {'|='}, 'operator&': {'&='},
         'operator||': set(), 'operator&&': set(), 'operator^': {'^='}, 'max': set(), 'min': set()}


def reduction(R, f, reg, where, cfgname):
    """Reduction variables are only combined with their operator."""
    for v, (op, name) in reg.red.items():
        ok = True
        for bad, x in red_bad(reg.d.c[0], v, op):
            R.viol('reduction:%s:%s' % (PREC.sub('', f.name), name), '%s: reduction variable `%s` (%s) is %s: `%s`; the result depends on the number of '
                   'threads' % (where % x.line, name, op.replace('operator', ''), bad, show(x)[:80]))
        R.count('reductions')


def red_bad(body, v, op):
    ok = set()

    def isv(n):
        n = strip(n)
        return n.k == 'ref' and n.a[1] == v

    for x in walk(body):
        if x.k == 'asg' and isv(x.c[0]):
            good = False
            e = strip(x.c[1])
            if x.a in REDOK.get(op, ()):
                good = True
            elif x.a == '=':
                o = op.replace('operator', '')
                if op in ('max', 'min'):
                    good = minmax(e, v, op) or guarded(body, x, v, op)
                elif e.k == 'bin' and (e.a == o or o == '+' and e.a == '-'):
                    good = chain(e, v, o)
                elif op == 'operator+' and e.k == 'int' and 'int' in x.ty:
                    good = all(y.k != 'asg' or not isv(y.c[0]) or y.a == '=' and strip(y.c[1]).k == 'int' and strip(y.c[1]).a == e.a
                               for y in walk(body))          # a flag: only "was it set" survives
                elif op == 'operator||' and e.k == 'int':
                    good = e.a == 1
                elif op == 'operator&&' and e.k == 'int':
                    good = e.a == 0
            if not good:
                yield 'assigned otherwise', x
            for y in walk(x):
                if isv(y):
                    ok.add(id(strip(y)))
            if any(isv(y) for y in walk(x.c[1])) and x.a != '=':
                yield 'used in its own update', x
        elif x.k == 'un' and (x.a.startswith('post') or x.a.startswith('pre')) and isv(x.c[0]):
            if x.a[4 if x.a.startswith('post') else 3:] not in REDOK.get(op, ()):
                yield 'incremented', x
            ok.add(id(strip(x.c[0])))
        elif x.k == 'if' and op in ('max', 'min'):
            for y in walk(x.c[0]):
                if isv(y):
                    ok.add(id(strip(y)))
        elif x.k == 'omp':
            for n, o, l in x.a['clauses']:
                for y in l:
                    for z in walk(y):
                        ok.add(id(z))
    for x in walk(body):
        if x.k == 'ref' and x.a[1] == v and id(x) not in ok:
            yield 'read inside the region', x


def chain(e, v, o):
    """v + a + b ... with v exactly once, added."""
    e = strip(e)
    if e.k == 'ref':
        return e.a[1] == v
    if e.k == 'bin' and e.a == o:
        a, b = uses(e.c[0], v), uses(e.c[1], v)
        return (chain(e.c[0], v, o) and not b) or (not a and chain(e.c[1], v, o))
    if e.k == 'bin' and o == '+' and e.a == '-':
        return chain(e.c[0], v, o) and not uses(e.c[1], v)
    return False


def uses(e, v):
    return any(x.k == 'ref' and x.a[1] == v for x in walk(e))


def minmax(e, v, op):
    """v = (a > v) ? a : v, MAX(v, a), fmax(v, a)."""
    if e.k == 'call' and e.a and e.a[0] in (('fmax', 'fmaxf') if op == 'max' else ('fmin', 'fminf')):
        return sum(uses(x, v) for x in e.c[1:]) == 1
    if e.k != 'cond':
        return False
    c, a, b = strip(e.c[0]), strip(e.c[1]), strip(e.c[2])
    if c.k != 'bin' or c.a not in ('<', '>', '<=', '>='):
        return False
    return pick(c, a, b) == op and (a.k == 'ref' and a.a[1] == v or b.k == 'ref' and b.a[1] == v)


def pick(c, a, b):
    """Does (c ? a : b) choose the larger or the smaller of the compared values?"""
    l, r = show(strip(c.c[0])), show(strip(c.c[1]))
    gt = c.a in ('>', '>=')
    if l == show(a) and r == show(b):
        return 'max' if gt else 'min'
    if l == show(b) and r == show(a):
        return 'min' if gt else 'max'
    return None


def guarded(body, x, v, op):
    """if (e > v) v = e;"""
    for n in walk(body):
        if n.k == 'if' and n.c[2] is None and any(y is x for y in walk(n.c[1])):
            c = strip(n.c[0])
            if c.k == 'bin' and c.a in ('<', '>', '<=', '>='):
                k = pick(c, strip(x.c[1]), strip(x.c[0]))
                if k == op:
                    return True
    return False


def statics_written(P):
    """Functions that (transitively) write static storage or call a routine with hidden global state."""
    direct = {}
    for f in P.fns.values():
        for x in walk(f.body):
            if x.k == 'call' and x.a and x.a[0] in UNSAFE:
                direct.setdefault(f.name, 'calls %s' % x.a[0])
            t = None
            if x.k == 'asg':
                t = x.c[0]
            elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')):
                t = x.c[0]
            if t is not None:
                t = strip(t)
                while t.k in ('mem', 'idx') and not (t.k == 'mem' and t.a[1]):
                    t = strip(t.c[0])
                if t.k == 'ref' and t.a[2] in ('global', 'slocal'):
                    direct.setdefault(f.name, 'writes static `%s`' % t.a[0])
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.name in direct or f.name in ('bml_log', 'bml_log_location', 'bml_log_real'):
                continue
            for x in walk(f.body):
                if x.k == 'call' and x.a and x.a[0] in direct and not fatal_call(x) and \
                        x.a[0] not in ('bml_log', 'bml_log_location', 'bml_log_real'):
                    direct[f.name] = direct[x.a[0]] if x.a[0] in UNSAFE else 'calls %s, which %s' % (x.a[0], direct[x.a[0]])
                    ch = True
                    break
    return direct


def run(progs):
    R = Report('C06', 'every pair of accesses to one object in different iterations of a parallel loop, one of them a write, is told apart '
               'by the distributed loop variable, a row lock, a critical section or privacy; reductions use their operator; no hidden '
               'global state is used in a region')
    for cfgname, P in progs.items():
        if not any(True for f in P.top()):
            raise Broken('no functions')
        M = None
        hidden = None
        for f in P.top():
            body = P.nf(f)
            ds = regions(body)
            if not ds:
                continue
            if M is None:
                M = modref.ModRef(P)
                hidden = statics_written(P)
                C = Access(P, M)
            S = Sym(P, f, body, M)
            where = '%s (src/%s:%%d)' % (f.name, f.file)
            base = PREC.sub('', f.name)
            for d in ds:
                R.count('regions')
                reg = Region(C, S, d)
                reduction(R, f, reg, where, cfgname)
                if reg.unbalanced:
                    R.viol('lock:' + base, '%s: a lock is still held at the end of the iteration' % (where % d.line))
                for x, b in reg.calls:
                    R.count('calls_in_regions')
                    nm = x.a[0] if x.a else None
                    if nm in UNSAFE or nm in hidden and not fatal_call(x) and nm not in ('bml_log', 'bml_log_location'):
                        R.viol('hidden:%s:%s' % (base, nm), '%s: parallel region calls %s, which %s' %
                               (where % x.line, nm, hidden.get(nm, 'uses hidden global state')))
                carried(R, f, reg, where, base)
                sh = [a for a in reg.acc if not reg.is_private(a.path)]
                R.count('accesses', len(reg.acc))
                R.count('shared_accesses', len(sh))
                ws = [a for a in sh if a.w]
                R.count('shared_writes', len(ws))
                byroot = {}
                for a in sh:
                    byroot.setdefault(a.path.root[:2], []).append(a)
                done = set()
                for w in ws:
                    if any(k[0] == 'atomic' for k in w.prot if isinstance(k, tuple)) and False:
                        continue
                    for a in byroot[w.path.root[:2]]:
                        if a.ws is not w.ws and a.ws is not None and w.ws is not None and not nowait(w.ws) and not nowait(a.ws):
                            continue
                        key = (w.path.key, a.path.key, w.prot, a.prot)
                        if key in done:
                            continue
                        done.add(key)
                        R.count('access_pairs')
                        if not reg.separated(w, a):
                            if not w.path.sels:
                                R.viol('scalar:%s:%s' % (base, w.path.root[2]), '%s: `%s` is shared by all threads and written in the parallel region: '
                                       '`%s` [configuration %s]' % (where % w.node.line, w.path.root[2], show(w.node)[:80], cfgname))
                            else:
                                R.viol('race:%s:%s' % (base, '.'.join((w.path.root[2],) + w.path.fields())),
                                       '%s: write %r `%s` and %s %r (line %d) `%s` of different iterations may touch the same location '
                                       '[configuration %s]' % (where % w.node.line, w.path, show(w.node)[:80], 'write' if a.w else 'read', a.path,
                                                               a.node.line, show(a.node)[:60], cfgname))
    R.floor('regions', 100)
    R.floor('shared_writes', 200)
    R.floor('reductions', 30)
    return R


def nowait(d):
    return any(n == 'nowait' for n, o, l in d.a['clauses'])
