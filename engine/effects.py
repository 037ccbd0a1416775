"""Effect summary of one (helper-expanded) function: every externally visible action, the condition under which it
happens and the values it uses, written in terms of the parameters only.

Values are numbered (global value numbering): locals, temporaries, helper boundaries, the order of independent actions, the
polarity of conditions and early returns do not show; loops are walked once with the variables they change turned
into names that depend only on their start and step."""
import hashlib, re
from core import walk, kids, N
from cfg import fatal_call, is_assert
from peval import flat_cases
from canon import META, ACC, ACCN
import search, loops

FREE = {'free', 'bml_free_memory', 'bml_deallocate', 'bml_free_ptr', 'bml_log', 'bml_log_location', 'printf', 'fflush'}
PUREX = {'sqrt', 'sqrtf', 'fabs', 'fabsf', 'pow', 'powf', 'fmax', 'fmin', 'creal', 'crealf', 'cimag', 'cimagf', 'cabs', 'cabsf', 'abs',
         'conj', 'conjf', 'csqrt', 'csqrtf', 'floor', 'ceil', 'strlen', 'strcmp', 'omp_get_max_threads', 'omp_get_thread_num',
         'omp_get_num_threads', 'MPI_Type_size'}
MINV, MAXV = {'fmin', 'fminf'}, {'fmax', 'fmaxf'}


def dig(s):
    return hashlib.md5(s.encode()).hexdigest()[:8]


def kind(ty):
    t = ty.replace('const ', '').strip()
    if t in ('float', 'double'):
        return t
    if t.startswith('_Complex'):
        return 'c' + t.split()[1]
    if t.endswith('*') or t.endswith(']') or t.startswith('struct'):
        return 'p'
    return 'i'


WIDE = {'cdouble': '_Complex double', 'cfloat': '_Complex float', 'double': 'double', 'float': 'float'}


# calls that only hand back one value: the position of the argument it is handed back through
# arguments which a library function only writes
OUTONLY = {'MPI_Cart_shift': (3, 4), 'MPI_Get_count': (2,), 'MPI_Cart_create': (5,), 'MPI_Comm_split': (3,), 'MPI_Comm_dup': (1,)}
ONEOUT = {'MPI_Comm_rank': 1, 'MPI_Comm_size': 1, 'MPI_Get_address': 1, 'MPI_Type_size': 1}


class State:
    __slots__ = ('env', 'mem', 'ver', 'pc')

    def __init__(self, env, mem, ver, pc):
        self.env, self.mem, self.ver, self.pc = env, mem, ver, pc

    def copy(self):
        return State(dict(self.env), {k: dict(v) for k, v in self.mem.items()}, dict(self.ver), list(self.pc))


class Eff:
    __slots__ = ('pc', 'text', 'reads', 'writes', 'comm', 'sub', 'call', 'cell', 'val', 'terms', 'loads', 'out', 'own', 'time')

    def __init__(self, pc, text, reads, writes, comm=False, sub=None, call=None, terms=()):
        self.pc, self.text, self.reads, self.writes, self.comm, self.sub, self.call = tuple(pc), text, reads, writes, comm, sub, call
        self.cell = self.val = None
        self.terms = tuple(terms)
        self.loads = set()
        self.out = self.own = None
        self.time = None

    def retext(self, E):
        g = ' & '.join(sorted(E.pr(l) for l in self.out))
        self.text = (('[%s] ' % g) if g else '') + self.own
        if self.sub:
            self.text += ' {' + dig('\n'.join(flatten(self.sub))) + '}'


def summarise(P, f, M):
    """Canonical summary: objects made by identical calls are told apart by how they are used, not by their order."""
    E = Effects(P, f, M)
    dup = sorted({(d, c) for d, c in E.made if (d, 2) in E.made})
    if not dup:
        return E
    lines = E.summary()
    sig = {}
    for d, c in dup:
        q = []
        for l in lines:
            names = set(re.findall(d + r"'*", l))
            if d + "'" * (c - 1) in names:
                q.append(re.sub(d + r"('*)", lambda m: '*' if len(m.group(1)) == c - 1 else '?', l))
        sig[d, c] = q
    perm = {}
    for d in {d for d, _ in dup}:
        for r, k in enumerate(sorted([k for k in dup if k[0] == d], key=lambda k: (not sig[k], sig[k], k[1]))):
            perm[k] = r + 1
    return Effects(P, f, M, perm)


class Effects:
    cap = 240

    def __init__(self, P, f, M, perm=None):
        self.P, self.f, self.M = P, f, M
        self.perm = perm or {}
        self.made = []
        self.lab = {}               # local object -> label
        self.odepth = {}
        self.body = loops.collapse(search.canon(loops.unguard(P.nf(f))))
        self.tripreads = {}
        self.cells = {}
        self.celltype = {}
        self.slow = set()
        self.entry = {}
        self.memo = {}
        self.valreads = {}
        self.seen = []
        self.bounds = {}
        self.bools = set()
        self.phimemo = {}
        self.depth = 0
        self.count = {}
        self.effs = []
        self.rets = []
        self.makers = {}
        self.facts = set()
        self.calls = []
        self.leaves = {}
        self.nodecl = {}
        env = {p[1]: ('p', i) for i, p in enumerate(f.params)}
        self.locals = {}
        S = State(env, {}, {}, [])
        for i, p in enumerate(f.params):
            r = self.rec(p[2])
            if r is not None:
                S.mem['loc%d' % p[1]] = {'.' + x: ('ld', ('p', i), (('f', x),), '') for x, _ in r}
                self.lab[p[1]] = '$%d' % i
        end = self.block(self.body, S)
        self.end = end

    def rec(self, ty):
        """Fields when ty is a structure held by value."""
        t = ty.replace('const ', '').strip()
        if t.startswith('struct '):
            t = t[7:]
        return self.P.recs.get(t)

    # ------------------------------------------------------------ printing
    def pr(self, t):
        k = id(t)
        r = self.memo.get(k)
        if r is not None and r[0] is t:
            return r[1]
        s = self.pr1(t)
        if len(s) > self.cap:
            s = '<%s>' % dig(s)
        self.memo[k] = (t, s)
        return s

    def pr1(self, t):
        if not isinstance(t, tuple):
            return str(t)
        h = t[0]
        if h == 'k':
            return str(t[1])
        if h == 'p':
            return '$%d' % t[1]
        if h == 'str':
            return repr(t[1])
        if h in ('glob', 'fn'):
            return t[1]
        if h == 'ld':
            return self.prpath(self.pr(t[1]), t[2]) + ('@' + t[3] if t[3] else '')
        if h == 'loc':
            return self.label(t[1])
        if h == 'addr':
            return '&' + self.prpath(self.pr(t[1]), t[2])
        if h == 'meta':
            return '%s(%s)' % (t[1], self.pr(t[2])) + ('@' + t[3] if t[3] else '')
        if h == 'sum':
            return '(' + ' + '.join(sorted(self.pr(x) for x in t[1:])) + ')'
        if h == 'prod':
            return '(' + ' * '.join(sorted(self.pr(x) for x in t[1:])) + ')'
        if h == 'op':
            if t[1] in ('&&', '||'):
                return '(' + (' %s ' % t[1]).join(sorted(set(self.pr(x) for x in self.flat(t, t[1])))) + ')'
            a = [self.pr(x) for x in t[2:]]
            if t[1] in ('+', '*', '==', '&&', '||', 'max', 'min', '!='):
                a.sort()
            if t[1] in ('max', 'min'):
                return '%s(%s)' % (t[1], ', '.join(a))
            if len(a) == 1:
                return '%s%s' % (t[1], a[0])
            return '(' + (' %s ' % t[1]).join(a) + ')'
        if h == 'ite':
            return '{%s ? %s : %s}' % tuple(self.pr(x) for x in t[1:])
        if h == 'cast':
            return '%s(%s)' % (t[1], self.pr(t[2]))
        if h == 'call':
            return '%s(%s)' % (t[1], ', '.join(self.pr(x) for x in t[2:]))
        if h == 'it':
            return 'it%d' % t[1]
        if h == 'phi':
            return 'phi%d(%s)%s' % (t[1], self.pr(t[2]), "'" * t[3])
        return '%s<%s>' % (h, ', '.join(self.pr(x) for x in t[1:]))

    def flat(self, t, o):
        if t[0] == 'op' and t[1] == o:
            return [y for x in t[2:] for y in self.flat(x, o)]
        return [t]

    def prpath(self, base, path):
        s = base
        for k, v in path:
            s += '.' + v if k == 'f' else '[%s]' % self.pr(v)
        return s

    # ------------------------------------------------------------ terms
    def const(self, v):
        return ('k', v)

    def add(self, a, b, sub=False):
        la, lb = self.lin(a), self.lin(b)
        d = dict(la)
        for k, (t, c) in lb.items():
            c = -c if sub else c
            o = d.get(k, (t, 0))[1] + c
            if o:
                d[k] = (t, o)
            else:
                d.pop(k, None)
        return self.unlin(d)

    def lin(self, t):
        if t[0] == 'k' and isinstance(t[1], int):
            return {'': (None, t[1])} if t[1] else {}
        if t[0] == 'sum':
            d = {}
            for x in t[1:]:
                for k, (y, c) in self.lin(x).items():
                    o = d.get(k, (y, 0))[1] + c
                    d[k] = (y, o)
            return d
        if t[0] == 'prod' and t[1][0] == 'k':
            r = t[2] if len(t) == 3 else ('prod',) + t[2:]
            return {self.pr(r): (r, t[1][1])}
        return {self.pr(t): (t, 1)}

    def unlin(self, d):
        out = []
        for k in sorted(d):
            t, c = d[k]
            if t is None:
                out.append(('k', c))
            elif c == 1:
                out.append(t)
            else:
                out.append(('prod', ('k', c)) + (t[1:] if t[0] == 'prod' else (t,)))
        if not out:
            return ('k', 0)
        return out[0] if len(out) == 1 else ('sum',) + tuple(out)

    def mul(self, a, b):
        la, lb = self.lin(a), self.lin(b)
        if len(la) * len(lb) > 12:
            fs = sorted([a, b], key=self.pr)
            return ('prod',) + tuple(fs)
        r = ('k', 0)
        for x, c in la.values():
            for y, e in lb.values():
                fs = []
                for z in (x, y):
                    if z is not None:
                        fs += list(z[1:]) if z[0] == 'prod' else [z]
                fs.sort(key=self.pr)
                k = c * e
                t = ('k', k) if not fs else (fs[0] if len(fs) == 1 else ('prod',) + tuple(fs)) if k == 1 else ('prod', ('k', k)) + tuple(fs)
                r = self.add(r, t)
        return r

    def isint(self, t):
        """Could the term be an integer (not a pointer or a floating value)?"""
        return not (t[0] in ('addr', 'addrv', 'new', 'str', 'fn', 'uninit') or t[0] == 'k' and not isinstance(t[1], int)
                    or t[0] == 'cast' and t[1] != 'int')

    def cast(self, a, b, t):
        """The value t of kind a as kind b."""
        if a == b:
            return t
        if t[0] == 'ite':
            return self.ite(t[1], self.cast(a, b, t[2]), self.cast(a, b, t[3]))
        if b == 'i':
            try:
                x = float(str(t[1])[1:]) if t[0] == 'k' and not isinstance(t[1], int) else None
            except ValueError:
                x = None
            return ('cast', 'int', t) if x is None or x != int(x) else ('k', int(x))
        if t[0] == 'k':
            return ('k', 'f%r' % float(t[1])) if isinstance(t[1], int) else t
        if a == 'i':
            return t
        if t[0] == 'cast' and len(t) == 4 and wider(t[3], t[1]) == t[1]:
            # the inner conversion kept every value
            return self.cast(t[3], b, t[2])
        return ('cast', b, t, a)

    def equal(self, t, pc):
        """The integer t, without the trip counts the conditions pc make equal to their bounds."""
        for l in flatlits(pc):
            for x, r in self.full(l):
                q = self.lin(t).get(self.pr(x))
                if q is not None:
                    t = self.add(t, self.mul(('k', q[1]), self.add(r, x, True)))
        return t

    def full(self, l):
        """(trip count, bound) where the literal says that the search went all the way."""
        if l[0] == 'op' and l[1] == '<' and l[2] == ('k', 0):
            for x, c in self.lin(l[3]).values():
                if c == 1 and x is not None and x[0] == 'trip' and x[1] in self.bounds:
                    r = self.bounds[x[1]]
                    if self.add(l[3], self.add(x, r, True), True) == ('k', 1):
                        return [(x, r)]
        return []

    def place(self, l, S, pc=None):
        pc = S.pc if pc is None else pc
        if l[0] == 'v' or not l[2] or l[2][-1][0] != 'i' or not pc:
            return l
        i = l[2][-1][1]
        if i[0] == 'k':
            # the element of the iteration with this number
            for c in flatlits(pc):
                if c[0] == 'op' and c[1] == '==' and c[2] == ('k', 0):
                    d = self.lin(c[3])
                    k = d.pop('', (None, 0))[1]
                    if len(d) == 1:
                        (x, q), = d.values()
                        if x[0] == 'it' and abs(q) == 1 and i[1] == -q * k:
                            return (l[0], l[1], l[2][:-1] + (('i', x),))
        if not self.bounds:
            return l
        return (l[0], l[1], l[2][:-1] + (('i', self.equal(l[2][-1][1], pc)),))

    def counts(self, t):
        """Is the term a number of entries or rows?"""
        if t[0] == 'ld':
            f = next((v for k, v in t[2] if k == 'f'), None)
            if f is None and t[1][0] == 'ld':
                f = next((v for k, v in t[1][2] if k == 'f'), None)
            return f in ('nnz', 'nnzb', 'NNZ_', 'NB')
        return t[0] in ('ld', 'meta') and self.nonneg(t)

    def nonneg(self, t):
        """Is the integer surely not negative?"""
        for x, c in self.lin(t).values():
            if c < 0:
                return False
            if x is not None and not all(y[0] in ('it', 'trip') or y[0] == 'meta' and y[1] in ('N', 'M') or y[0] == 'k' and isinstance(y[1], int) and y[1] >= 0
                                         for y in (x[1:] if x[0] == 'prod' else (x,))):
                return False
        return True

    def cmp(self, o, a, b):
        d = self.add(b, a, True)
        if o == '<=':
            o, d = '<', self.add(d, ('k', 1))
        if d[0] == 'k':
            return ('k', int({'<': 0 < d[1], '==': d[1] == 0, '!=': d[1] != 0}[o]))
        if self.bools:
            l = self.lin(d)
            q = [(x, c) for x, c in l.values() if x is not None and c]
            if len(q) == 1 and self.pr(q[0][0]) in self.bools:
                x, c = q[0]
                z = l['' ][1] if '' in l else 0
                t0, t1 = [{'<': 0 < w, '==': w == 0, '!=': w != 0}[o] for w in (z, z + c)]
                if t0 == t1:
                    return ('k', int(t0))
                return ('op', '!=' if t1 else '==', ('k', 0), min(x, self.mul(('k', -1), x), key=self.pr))
        # a choice between numbers compared with a number is the condition of the choice
        m = [(x, c) for x, c in self.lin(d).values() if x is not None and x[0] == 'ite']
        if len(m) == 1:
            x, c = m[0]
            rest = self.add(d, self.mul(('k', c), x), True)
            r1, r2 = [self.cmp(o, ('k', 0), self.add(rest, self.mul(('k', c), y))) for y in x[2:]]
            if r1[0] == 'k' and r2[0] == 'k':
                return r1 if r1[1] == r2[1] else x[1] if r1[1] else self.neg(x[1])
            if r1[0] == 'k':
                return ('op', '||', x[1], r2) if r1[1] else ('op', '&&', self.neg(x[1]), r2)
            if r2[0] == 'k':
                return ('op', '||', self.neg(x[1]), r1) if r2[1] else ('op', '&&', x[1], r1)
        if self.nonneg(self.add(d, ('k', -1))):
            return ('k', int(o in ('<', '!=')))
        e = self.mul(('k', -1), d)
        if o in ('==', '!=') and self.nonneg(self.add(e, ('k', -1))):
            return ('k', int(o == '!='))
        if o == '<' and self.nonneg(e):
            return ('k', 0)
        if o in ('==', '!=') and self.bounds:
            # a search that stops at its bound at the latest: at the bound means not before it
            for x, c in self.lin(d).values():
                if x is not None and x[0] == 'trip' and x[1] in self.bounds:
                    r = self.add(self.bounds[x[1]], x, True)
                    if r in (d, e):
                        return self.cmp('<', ('k', 0), r) if o == '!=' else self.cmp('<=', r, ('k', 0))
        if o == '<' and d[0] == 'it':
            return self.cmp('!=', ('k', 0), d)
        if o == '<':
            q = self.add(('k', 1), d, True)
            if q[0] == 'it':
                return self.cmp('==', ('k', 0), q)
            return ('op', '<', ('k', 0), d)
        e = self.mul(('k', -1), d)
        return ('op', o, ('k', 0), min(d, e, key=self.pr))

    def neg(self, c):
        if c[0] == 'op' and c[1] == '<' and c[2] == ('k', 0) and self.isint(c[3]):
            return self.cmp('<', ('k', 0), self.add(('k', 1), c[3], True))
        if c[0] == 'op':
            if c[1] == '!':
                return c[2]
            if c[1] == '==':
                return ('op', '!=') + c[2:]
            if c[1] == '!=':
                return ('op', '==') + c[2:]
            if c[1] == '<' and len(c) == 4:
                return ('op', '<=', c[3], c[2])
            if c[1] == '<=':
                return ('op', '<', c[3], c[2])
            if c[1] == '&&':
                return ('op', '||', self.neg(c[2]), self.neg(c[3]))
            if c[1] == '||':
                return ('op', '&&', self.neg(c[2]), self.neg(c[3]))
        if c[0] == 'k' and isinstance(c[1], int):
            return ('k', 0 if c[1] else 1)
        return ('op', '!', c)

    def ite(self, c, a, b):
        if self.pr(a) == self.pr(b):
            return a
        if c[0] == 'k':
            return a if c[1] else b
        # what a loop computes, chosen when the loop is entered at all
        for x, y, g in ((a, b, c), (b, a, None)):
            if not self.entry:
                break
            if x[0] == 'op' and x[1] == '+' and self.pr(y) in (self.pr(x[2]), self.pr(x[3])):
                x = x[3] if self.pr(y) == self.pr(x[2]) else x[2]
                y = ('k', 'f0.0')
            e = self.entry.get(self.pr(x))
            if e is not None and e[1] == self.pr(y) and e[0] == self.pr(g if g is not None else self.neg(c)):
                return a if g is not None else b
        t = self.tree(('ite', c, a, b))
        if t is not None:
            if t[0] != 'ite':
                return t
            if len(t[1]) > 2:
                return self.cases(t[1])
            (g, a), (_, b) = t[1]
            c = conj0(g)
            if c[0] == 'k':
                return a if c[1] else b
        for _ in range(6):
            pa, pb = self.pr(a), self.pr(b)
            if a[0] == 'ite' and self.pr(a[3]) == pb:
                c, a = ('op', '&&', c, a[1]), a[2]
            elif a[0] == 'ite' and self.pr(a[2]) == pb:
                c, a = ('op', '&&', c, self.neg(a[1])), a[3]
            elif b[0] == 'ite' and self.pr(b[2]) == pa:
                c, b = ('op', '||', c, b[1]), b[3]
            elif b[0] == 'ite' and self.pr(b[3]) == pa:
                c, b = ('op', '||', c, self.neg(b[1])), b[2]
            else:
                break
        if c[0] == 'op' and c[1] in ('&&', '||'):
            c = self.conj([c])
            if c[0] == 'k':
                return a if c[1] else b
        n = self.neg(c)
        if n[0] == 'op' and n[1] in ('&&', '||'):
            n = self.conj([n])
        if self.pr(n) < self.pr(c):
            c, a, b = n, b, a
        if c[0] == 'op' and c[1] == '<' and c[2] == ('k', 0) and self.isint(a) and self.isint(b):
            q = self.pr(c[3])
            for k in (0, 1):
                if q == self.pr(self.add(self.add(b, a, True), ('k', k))):
                    return ('op', 'min', a, b)
                if q == self.pr(self.add(self.add(a, b, True), ('k', k))):
                    return ('op', 'max', a, b)
        if c[0] == 'op' and c[1] in ('<', '<=') and len(c) == 4:
            x, y, pa, pb = self.pr(c[2]), self.pr(c[3]), self.pr(a), self.pr(b)
            if (x, y) == (pb, pa):
                return ('op', 'max', a, b)
            if (x, y) == (pa, pb):
                return ('op', 'min', a, b)
        if self.isint(a) and self.isint(b):
            # what both have in common stands outside; the second alternative has no constant part
            la, lb = self.lin(a), self.lin(b)
            r = {k: v for k, v in la.items() if k and lb.get(k, (0, 0))[1] == v[1]}
            if '' in lb:
                r[''] = lb['']
            if r:
                r = self.unlin(r)
                return self.add(r, self.ite(c, self.add(a, r, True), self.add(b, r, True)))
        return ('ite', c, a, b)

    def branch(self, x):
        """x as a choice: (condition, value, value), or None."""
        if x[0] == 'ite':
            return x[1:]
        if x[0] in ('sum', 'prod') and self.isint(x):
            l = self.lin(x)
            its = [(k, t, n) for k, (t, n) in l.items() if t is not None and t[0] == 'ite']
            if len(its) == 1:
                k, t, n = its[0]
                r = self.unlin({q: v for q, v in l.items() if q != k})
                return t[1], self.add(r, self.mul(('k', n), t[2])), self.add(r, self.mul(('k', n), t[3]))
        return None

    def choices(self, t):
        """The values a choice of numbers can take."""
        if not self.isint(t):
            return None
        m = [(x, c) for x, c in self.lin(t).values() if x is not None and x[0] == 'ite']
        if len(m) != 1:
            return [t]
        x, c = m[0]
        rest = self.add(t, self.mul(('k', c), x), True)
        out = []
        for y in x[2:]:
            r = self.choices(self.add(rest, self.mul(('k', c), y)))
            if r is None or len(r) > 16:
                return None
            out += r
        return out

    def remap(self, t, m, other):
        x = [(x, c) for x, c in self.lin(t).values() if x is not None and x[0] == 'ite']
        if len(x) != 1:
            return m.get(self.pr(t), other)
        x, c = x[0]
        rest = self.add(t, self.mul(('k', c), x), True)
        return self.ite(x[1], *[self.remap(self.add(rest, self.mul(('k', c), y)), m, other) for y in x[2:]])

    def tree(self, t):
        """A choice made of choices: the values by text, each with the condition it is chosen under."""
        if self.branch(t[2]) is None and self.branch(t[3]) is None:
            return None
        leaves, todo = {}, [(t, ())]
        while todo:
            x, p = todo.pop()
            q = self.branch(x)
            if q is not None:
                todo += [(q[1], p + (q[0],)), (q[2], p + (self.neg(q[0]),))]
            else:
                leaves.setdefault(self.pr(x), (x, []))[1].append(p)
            if len(todo) + len(leaves) > 8:
                return None
        gs = []
        for k in sorted(leaves):
            x, ps = leaves[k]
            d = None
            for p in ps:
                c = conj0(p)
                d = c if d is None else ('op', '||', d, c)
            if len(atoms_of(self, d)) > GUARDMAX:
                return None
            g = guard(self, [d])
            if g is not None:
                gs.append((g, x))
        return ('ite', gs) if len(gs) > 1 else gs[0][1]

    def cases(self, gs):
        r = None
        if all(self.isint(x) for _, x in gs):
            ls = [self.lin(x) for _, x in gs]
            r = {k: v for k, v in ls[0].items() if k and all(l.get(k, (0, 0))[1] == v[1] for l in ls)}
            c = [l['']  for l in ls if '' in l]
            if len(c) == len(ls):
                r[''] = min(c, key=lambda v: v[1])
            r = self.unlin(r) if r else None
        if r is not None:
            gs = [(g, self.add(x, r, True)) for g, x in gs]
            gs.sort(key=lambda q: self.pr(q[1]))
        out = gs[-1][1]
        for g, x in reversed(gs[:-1]):
            out = ('ite', conj0(g), x, out)
        return out if r is None else self.add(r, out)

    def known(self, c):
        """The condition, given what has been refused before."""
        if not self.facts or c[0] == 'k':
            return c
        if c[0] == 'op' and c[1] in ('&&', '||'):
            a, b = self.known(c[2]), self.known(c[3])
            for x, y in ((a, b), (b, a)):
                if x[0] == 'k':
                    return y if bool(x[1]) == (c[1] == '&&') else x
            return c if a is c[2] and b is c[3] else ('op', c[1], a, b)
        if self.pr(c) in self.facts:
            return ('k', 1)
        if self.pr(self.neg(c)) in self.facts:
            return ('k', 0)
        return c

    def truth(self, t, ty):
        return self.known(self.truth1(t, ty))

    def truth1(self, t, ty):
        """A value used as a condition."""
        if t[0] == 'op' and (t[1] in ('<', '<=', '==', '!=', '&&', '||', '!')):
            return t
        if t[0] == 'k':
            return ('k', 1 if t[1] else 0)
        if kind(ty) == 'i' and self.isint(t):
            return self.cmp('!=', t, ('k', 0))
        return ('op', '!=', t, ('k', 0))

    # ------------------------------------------------------------ memory
    def cell_of_ptr(self, p, S, idx=None):
        """Location a pointer value addresses."""
        if p[0] == 'addrv':
            return ('v', p[1])
        if p[0] == 'addr':
            return ('c', p[1], p[2])
        return ('c', p, ())

    def static(self, n):
        """The name of a module variable; a static local goes by its type and what it starts as."""
        if n.a[2] != 'slocal':
            return n.a[0]
        if not hasattr(self, 'statics'):
            self.statics = {}
            set_ = {x.c[0].a[1] for x in walk(self.f.body) if x.k in ('asg', 'un') and x.c[0].k == 'ref' and x.a not in ('&', '*', '!', '-')}
            for x in walk(self.f.body):
                for v in x.a if x.k == 'decl' else ():
                    if v.storage == 'static' and v.init is not None and v.id not in set_:
                        self.statics[v.id] = 'static %s %s' % (v.ty, v.init)
        return self.statics.get(n.a[1], n.a[0])

    def lv(self, n, S):
        k = n.k
        if k == 'cast':
            return self.lv(n.c[0], S)
        if k == 'ref':
            if n.a[2] in ('global', 'slocal'):
                return ('c', ('glob', self.static(n)), ())
            if self.rec(n.ty) is not None:
                return ('c', ('loc', n.a[1]), ())
            if kind(n.ty) == 'p' and (n.ty.rstrip().endswith(']') or n.ty.startswith('struct') and not n.ty.rstrip().endswith('*')):
                return ('c', ('loc', n.a[1]), ())
            return ('v', n.a[1])
        if k == 'mem':
            if n.a[1]:
                l = self.cell_of_ptr(self.ev(n.c[0], S), S)
            else:
                l = self.lv(n.c[0], S)
            if l[0] == 'v':
                return l
            p = l[2]
            if n.a[1] and p and p[-1] == ('i', ('k', 0)):
                p = p[:-1]
            return ('c', l[1], p + (('f', n.a[0]),))
        if k == 'idx':
            b = self.ev(n.c[0], S)
            i = self.ev(n.c[1], S)
            return self.shift(self.cell_of_ptr(b, S), i)
        if k == 'un' and n.a == '*':
            return self.shift(self.cell_of_ptr(self.ev(n.c[0], S), S), ('k', 0))
        if k == 'complit':
            return ('c', ('tmp', id(n)), ())
        return ('c', ('unknown', k), ())

    def shift(self, l, i):
        if l[0] == 'v':
            return l
        p = l[2]
        if p and p[-1][0] == 'i':
            return ('c', l[1], p[:-1] + (('i', self.add(p[-1][1], i)),))
        return ('c', l[1], p + (('i', i),))

    def prcell(self, l):
        return self.prpath(self.pr(l[1]), l[2])

    def label(self, i):
        if i not in self.lab:
            self.lab[i] = 'local'
        return self.lab[i]

    def newlocal(self, v, dim=None):
        """Name a local object by its element type and, among equals, by how it is used."""
        self.odepth[v.id] = self.depth
        if v.id in self.lab:
            return
        ty = 'local ' + v.ty.split('[')[0].strip()
        if dim is not None:
            # how much was asked for is part of it
            d = self.pr(dim)
            if self.depth == 0 or 'phi' not in d:
                ty += ' ' + dig(d)
        c = self.count[ty] = self.count.get(ty, 0) + 1
        c = self.perm.get((ty, c), c)
        self.made.append((ty, c))
        self.lab[v.id] = ty + "'" * (c - 1)

    def ckey(self, l):
        return self.prpath('', l[2])

    def objs(self, t, out):
        """Objects whose content the value t depends on through its access path."""
        if isinstance(t, tuple):
            if t[0] == 'ld':
                self.objs(t[1], out)
            elif t[0] == 'meta':
                self.objs(t[2], out)
            elif t[0] == 'addr':
                self.objs(t[1], out)
                return
            out.add(self.okey(t))

    def okey(self, t):
        return 'loc%d' % t[1] if t[0] == 'loc' else self.pr(t)

    def look(self, places):
        """Places are looked at now."""
        self.seen.append((len(self.seen), places))

    def unseen(self, a, b):
        """Nothing looks at what store a wrote before store b."""
        return a.time is not None and b.time is not None and not any(hit(p, a.writes) for t, p in self.seen[a.time:b.time])

    def version(self, obj, path, S):
        ok = self.okey(obj)
        fld = next((v for k, v in path if k == 'f'), '')
        vs = [S.ver.get((ok, '')), S.ver.get((ok, fld))] if fld else [S.ver.get((ok, ''))]
        vs = [v for v in vs if v]
        return vs[-1] if vs else ''

    def load(self, l, S, ty):
        if l[0] == 'v':
            v = S.env.get(l[1])
            return self.under(v, S.pc) if v is not None else ('uninit',)
        l = self.place(l, S)
        obj, path = l[1], l[2]
        m = S.mem.get(self.okey(obj), {})
        key = self.ckey(l)
        if key in m:
            return m[key]
        v = self.version(obj, path, S)
        if obj[0] == 'loc' and not v:
            return ('uninit', key)
        if obj[0] == 'glob' and not path:
            return ('glob', obj[1])
        fld = next((v for k, v in path if k == 'f'), '')
        self.look({self.okey(obj) + ('.' + fld if fld else '')})
        if len(path) == 1 and path[0][0] == 'f' and path[0][1] in META:
            return self.meta(META[path[0][1]], obj, v)
        return ('ld', obj, path, v)

    def meta(self, m, obj, v):
        """The dimensions of a matrix; those of a new one are the ones it was made with (C21)."""
        if obj[0] == 'new' and not v and m in ('N', 'M'):
            nm, args = self.makers.get(obj[2].rstrip("'"), ('', ()))
            k = MAKE.match(nm)
            if k and (k.group(2), m) not in (('dense', 'M'), ('ellblock', 'N')):
                if args[0][0] == 'agg':
                    return args[0][1 if m == 'N' else 3]
                if k.group(1) == 'zero' and len(args) == 3:
                    return args[0 if m == 'N' else 1]
        return ('meta', m, obj, v)

    def under(self, v, pc):
        """The value where the conditions pc hold."""
        if not pc or v[0] not in ('ite', 'sum'):
            return v
        if v[0] == 'sum':
            if not any(x[0] == 'ite' for x in v[1:]):
                return v
            r = ('k', 0)
            for x in v[1:]:
                r = self.add(r, self.under(x, pc))
            return r
        c = v[1]
        for l in flatlits(pc):
            if self.pr(l) == self.pr(c) or implies(self, l, c):
                return self.under(v[2], pc)
            n = self.neg(c)
            if self.pr(l) == self.pr(n) or implies(self, l, n):
                return self.under(v[3], pc)
        return v

    def store(self, l, val, S, n):
        if l[0] == 'v':
            S.env[l[1]] = val
            return
        l = self.place(l, S)
        ok = self.okey(l[1])
        key = self.ckey(l)
        m = S.mem.setdefault(ok, {})
        if val[0] == 'agg' and l[1][0] == 'loc' and not l[2]:
            r = self.rec(n.ty)
            if r is not None:
                for (x, _), y in zip(r, val[1:]):
                    m['.' + x] = y
                return
        fld = next((v for k, v in l[2] if k == 'f'), '')
        if any(k == 'i' and v[0] != 'k' for k, v in l[2]):
            for x in list(m):
                if ('.' + fld) in x or not fld:
                    del m[x]
        else:
            for x in list(m):
                if x != key and (x.startswith(key)):
                    del m[x]
        m[key] = val
        self.cells[ok, key] = l
        self.celltype[ok, key] = n.ty
        txt = '%s := %s' % (self.prcell(l), self.pr(val))
        if l[1][0] == 'loc':
            if l[2] and l[2][-1][0] == 'i' and l[2][-1][1][0] != 'k':
                S.ver[(ok, '')] = dig(txt + S.ver.get((ok, ''), ''))
            if self.depth <= self.odepth.get(l[1][1], 0):
                return
        else:
            S.ver[(ok, fld)] = dig(txt + S.ver.get((ok, fld), ''))
        e = Eff(S.pc, txt, set(), {ok + '.' + fld if fld else ok}, terms=[val, ('ld',) + l[1:] + ('',)])
        e.cell, e.val = self.prcell(l), val
        e.time = len(self.seen)
        e.loads = self.readset(list(S.pc) + [val] + [v for k, v in l[2] if k == 'i'] + [l[1]])
        self.effs.append(e)

    def readset(self, ts):
        """Places whose content the terms were computed from."""
        out, seen, st = set(), set(), list(ts)
        while st:
            t = st.pop()
            if not isinstance(t, tuple) or id(t) in seen:
                continue
            seen.add(id(t))
            if t and t[0] == 'ld' and len(t) == 4:
                fld = next((v for k, v in t[2] if k == 'f'), '')
                out.add(self.okey(t[1]) + ('.' + fld if fld else ''))
            elif t and t[0] == 'meta':
                ok = self.okey(t[2])
                out.update(ok + '.' + x for x in META if META[x] == t[1])
            elif t and t[0] == 'val':
                out |= self.valreads.get(t[1:], set())
            elif t and t[0] in ('trip', 'loopval', 'reduce'):
                out |= self.tripreads.get(t[-1], set())
            elif t and t[0] == 'addr' and t[1][0] == 'loc':
                out.add(self.okey(t[1]))
            st.extend(t)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, S):
        k = n.k
        if k == 'int' or k == 'chr':
            return ('k', n.a)
        if k == 'enum':
            return ('k', n.a[1])
        if k == 'float':
            try:
                x = float(n.a)
                return ('k', 'f%r' % x)
            except ValueError:
                return ('k', 'f' + str(n.a))
        if k == 'imag':
            return ('op', 'i', self.ev(n.c[0], S))
        if k == 'str':
            return ('str', re.sub(r'^.*/repo.*/', '', n.a) if '/' in n.a else n.a)
        if k == 'sizeof':
            return ('k', n.a[1]) if n.a[1] is not None else ('op', 'sizeof ' + n.a[0])
        if k == 'ref':
            if n.a[2] == 'func':
                return ('fn', n.a[0])
            if n.ty.rstrip().endswith(']'):
                return ('addr', ('glob', self.static(n)) if n.a[2] in ('global', 'slocal') else ('loc', n.a[1]), ())
            l = self.lv(n, S)
            if l[0] == 'c' and l[1][0] == 'loc' and self.rec(n.ty) is not None:
                m = S.mem.get(self.okey(l[1]), {})
                return ('agg',) + tuple(m.get('.' + x, ('uninit',)) for x, _ in self.rec(n.ty))
            return self.load(l, S, n.ty)
        if k in ('mem', 'idx') or k == 'un' and n.a == '*':
            l = self.lv(n, S)
            if n.ty.rstrip().endswith(']'):
                return ('addr', l[1], l[2]) if l[0] == 'c' else ('addrv', l[1])
            return self.load(l, S, n.ty)
        if k == 'cast':
            t = self.ev(n.c[0], S)
            a, b = kind(n.c[0].ty), kind(n.ty)
            if a == b or 'p' in (a, b) or n.ty == 'void':
                return t
            return self.cast(a, b, t)
        if k == 'un':
            if n.a == '&':
                l = self.lv(n.c[0], S)
                if l[0] == 'v':
                    return ('addrv', l[1])
                p = l[2]
                if p == (('i', ('k', 0)),) and l[1][0] != 'loc':
                    return l[1]
                return ('addr', l[1], p)
            if n.a.startswith('pre') or n.a.startswith('post'):
                l = self.lv(n.c[0], S)
                old = self.load(l, S, n.ty)
                one = ('k', 1)
                if n.ty.rstrip().endswith('*'):
                    c = self.shift(self.cell_of_ptr(old, S), ('k', 1 if '++' in n.a else -1))
                    new = ('addr', c[1], c[2]) if c[0] == 'c' else old
                else:
                    new = self.add(old, one, '--' in n.a)
                self.store(l, new, S, n)
                return old if n.a.startswith('post') else new
            t = self.ev(n.c[0], S)
            if n.a == '!':
                return self.neg(self.truth(t, n.c[0].ty))
            if n.a == '-':
                if kind(n.ty) == 'i':
                    return self.mul(('k', -1), t)
                if t[0] == 'k' and str(t[1]).startswith('f'):
                    try:
                        return ('k', 'f%r' % -float(t[1][1:]))
                    except ValueError:
                        pass
            if n.a == '+':
                return t
            return ('op', n.a, t)
        if k == 'bin':
            if n.a == ',':
                self.ev(n.c[0], S)
                return self.ev(n.c[1], S)
            a, b = self.ev(n.c[0], S), self.ev(n.c[1], S)
            return self.binop(n.a, a, b, n.c[0].ty, n.c[1].ty, n.ty, S)
        if k == 'asg':
            v = self.ev(n.c[1], S)
            l = self.lv(n.c[0], S)
            if n.a != '=':
                old = self.load(l, S, n.c[0].ty)
                a, b = kind(n.c[1].ty), kind(n.c[0].ty)
                w = wider(a, b)
                if w is not None and b != 'i':
                    v = self.cast(w, b, self.binop(n.a[:-1], self.cast(b, w, old), self.cast(a, w, v), n.c[0].ty, n.c[1].ty, WIDE.get(w, n.ty), S))
                else:
                    v = self.binop(n.a[:-1], old, v, n.c[0].ty, n.c[1].ty, n.ty, S)
                    if a != b and 'p' not in (a, b) and a != 'i':
                        v = self.cast(a, b, v) if b == 'i' else ('cast', b, v)
            self.store(l, v, S, n)
            return v
        if k == 'cond':
            c = self.truth(self.ev(n.c[0], S), n.c[0].ty)
            S1, S2 = S.copy(), S.copy()
            S1.pc.append(c)
            S2.pc.append(self.neg(c))
            a = self.ev(n.c[1], S1)
            b = self.ev(n.c[2], S2)
            self.mergeinto(S, [(S1, c), (S2, None)])
            return self.ite(c, a, b)
        if k == 'call':
            return self.call(n, S)
        if k == 'init' and self.rec(n.ty) is not None:
            return ('agg',) + tuple(self.ev(x, S) if x is not None else ('k', 0) for x in n.c)
        if k == 'init' or k == 'complit':
            return ('op', 'init') + tuple(self.ev(x, S) for x in kids(n))
        if k == 'zero':
            return ('k', 0)
        if k == 'stmtexpr':
            self.block(n.c[0], S)
            return ('op', 'stmtexpr')
        for x in kids(n):
            self.ev(x, S)
        return ('unknown', k)

    def binop(self, o, a, b, ta, tb, ty, S):
        pa = ta.rstrip().endswith('*') or ta.rstrip().endswith(']')
        pb = tb.rstrip().endswith('*') or tb.rstrip().endswith(']')
        if (pa or pb) and o in ('+', '-') and not (pa and pb):
            p, i = (a, b) if pa else (b, a)
            if o == '-':
                i = self.mul(('k', -1), i)
            c = self.shift(self.cell_of_ptr(p, S), i)
            return ('addr', c[1], c[2]) if c[0] == 'c' else p
        if kind(ty) == 'i' and not pa and not pb and kind(ta) == 'i' and kind(tb) == 'i':
            if o == '+':
                return self.add(a, b)
            if o == '-':
                return self.add(a, b, True)
            if o == '*':
                return self.mul(a, b)
        if o == '>':
            o, a, b = '<', b, a
        elif o == '>=':
            o, a, b = '<=', b, a
        if o in ('&&', '||'):
            a, b = self.truth(a, ta), self.truth(b, tb)
        if o in ('<', '<=') and a[0] == 'k' and b[0] == 'k' and isinstance(a[1], int) and isinstance(b[1], int):
            return ('k', int(a[1] < b[1] if o == '<' else a[1] <= b[1]))
        if o in ('==', '!=') and self.pr(a) == self.pr(b):
            return ('k', int(o == '=='))
        if o in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'ite' and y == ('k', 0) and (x[2] == y and self.stored(x[3]) or x[3] == y and self.stored(x[2])):
                    # the block that was found, or none
                    return x[1] if (x[2] == y) == (o == '==') else self.neg(x[1])
        if o in ('<', '<=', '==', '!=') and kind(ta) == 'i' and kind(tb) == 'i' and self.isint(a) and self.isint(b):
            return self.cmp(o, a, b)
        if o in ('+', '-', '*', '/') and kind(ty) in ('cfloat', 'cdouble'):
            # a real operand
            q = [x[0] == 'cast' and len(x) == 4 and x[1] == kind(ty) and x[3] in ('float', 'double') for x in (a, b)]
            if q == [True, False]:
                a = self.cast(a[3], kind(ty)[1:], a[2])
            elif q == [False, True]:
                b = self.cast(b[3], kind(ty)[1:], b[2])
        return ('op', o, a, b)

    # ------------------------------------------------------------ calls
    def stored(self, t):
        """A block of a stored row: never NULL."""
        while t[0] == 'ld' and len(t) == 4:
            if any(k == 'f' and v == 'ptr_value' for k, v in t[2]):
                return True
            t = t[1]
        return False

    def argtext(self, t, S, deep=True):
        if t[0] == 'addrv':
            v = S.env.get(t[1])
            return '&' + (self.pr(v) if v is not None else '_')
        if t[0] == 'addr' and t[1][0] == 'loc':
            m = S.mem.get('loc%d' % t[1][1], {})
            v = S.ver.get(('loc%d' % t[1][1], ''), '')
            s = ', '.join('%s=%s' % (k, self.pr(m[k])) for k in sorted(m))
            return '&%s{%s}%s%s' % (self.label(t[1][1]), s if len(s) < 300 else dig(s), '@' + v if v else '', self.prpath('', t[2]))
        return self.pr(t)

    def call(self, n, S):
        args = [self.ev(x, S) for x in n.c[1:]]
        nm = n.a[0] if n.a else None
        if nm is None:
            x = n.c[0]
            while x is not None and (x.k == 'cast' or x.k == 'un' and x.a == '*'):
                x = x.c[0]
            tab = S.mem.get('loc%d' % x.c[0].a[1], {}) if x is not None and x.k == 'idx' and x.c[0].k == 'ref' else {}
            if tab and all(v[0] == 'fn' for v in tab.values()):
                # an entry of a table of functions written out here
                nm = '{%s}[%s]' % (','.join(v[1] for _, v in sorted(tab.items())), self.pr(self.ev(x.c[1], S)))
            else:
                fp = self.ev(n.c[0], S) if n.c[0] is not None else ('unknown', 'fp')
                nm = '*' + self.pr(fp)
        if nm in FREE and not (nm == 'printf' and 'print' in self.f.name):
            return ('k', 0)
        m = ACC.match(nm)
        if m and len(args) == 1:
            a = args[0]
            return self.meta(ACCN.get(m.group(1), m.group(1)), a, self.version(a, (('f', {'N': 'N', 'M': 'M', 'type': 'matrix_type',
                    'precision': 'matrix_precision', 'distribution_mode': 'distribution_mode'}[m.group(1)]),), S))
        if nm == 'bml_get_local_matrix' or nm == 'bml_get_local_matrix_distributed2d':
            return self.load(('c', args[0], (('f', 'matrix'),)), S, 'void *')
        if nm in MAXV or nm in MINV:
            return ('op', 'max' if nm in MAXV else 'min', args[0], args[1])
        if nm in ('abs', 'fabs', 'fabsf', 'cabs', 'cabsf'):
            return ('op', 'abs', args[0])
        if nm in ('creal', 'crealf'):
            return ('op', 'real', args[0])
        if nm == 'pow' and args[1] == ('k', 'f2.0'):
            return ('op', '*', args[0], args[0])
        if nm in ('memcpy', 'memset', 'memmove') and len(args) == 3 and self.fill(nm, n, args, S):
            return args[0]
        if nm in ONEOUT and len(args) == ONEOUT[nm] + 1:
            # a question about something outside: its answer is a value
            j = ONEOUT[nm]
            r = ('val', '%s(%s)' % (nm, ', '.join(self.argtext(a, S) for a in args[:j])), '')
            self.valreads.setdefault(r[1:], set()).update(self.readset(args[:j]))
            ty = n.c[1 + j].ty.strip()
            ty = ty[:-1].strip() if ty.endswith('*') else ty.split('[')[0].strip()
            self.store(self.cell_of_ptr(args[j], S), r, S, N('null', 0, ty, None, []))
            return ('k', 0)
        g = self.P.lookup(nm, self.f)
        import modref
        if g is not None and len(g.params) == len(args):
            b = accessor(g)
            if b is not None:
                old = {p[1]: S.env.get(p[1]) for p in g.params}
                S.env.update({p[1]: a for p, a in zip(g.params, args)})
                v = self.ev(b, S)
                for i, o in old.items():
                    S.env.pop(i) if o is None else S.env.__setitem__(i, o)
                return v
        if g is not None:
            mods = {j for j in self.M.mods[g] if not isinstance(j, str)}
            comm = self.comm(g) or self.sets(g)
            fresh = g.ret.rstrip().endswith('*') and not self.M.ret[g]
        else:
            mods = modref.ext_mods(nm, len(args))
            if not n.a:
                # one of a table of functions: what any of them changes
                mods = {j for h in self.M.callees(n, self.f) for j in (self.M.mods[h] if h in self.M.mods else ()) if not isinstance(j, str)}
            comm = nm.startswith('MPI_') and nm not in ('MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Type_size', 'MPI_Cart_coords', 'MPI_Cart_shift') \
                or nm.startswith('f') and nm in ('fprintf', 'fscanf', 'fopen', 'fclose', 'fgets', 'fputs') or nm.startswith('Cblacs') or nm == 'printf'
            fresh = n.ty.rstrip().endswith('*')
        pure = OUTONLY.get(nm, ())
        texts = ['&_' if j in pure and a[0] == 'addrv' else self.argtext(a, S) for j, a in enumerate(args)]
        t = '%s(%s)' % (nm, ', '.join(texts))
        if not mods and not comm and not fresh:
            # a value
            vs = []
            rd = set()
            for j, a in enumerate(args):
                if n.c[1 + j].ty.rstrip().endswith('*') or a[0] in ('addr', 'addrv'):
                    o = set()
                    self.objs(a, o)
                    rd |= o
                    vs += sorted(S.ver[(x, y)] for (x, y) in S.ver if x in o)
            r = ('val', t, ','.join(vs))
            self.valreads.setdefault(r[1:], set()).update(rd | self.readset(args))
            self.look(rd)
            return r
        # the content an argument object has before the call
        vs = []
        reads, writes = set(), set()
        for j, a in enumerate(args):
            if kind(n.c[1 + j].ty) != 'p' and a[0] not in ('addr', 'addrv'):
                continue
            o = set()
            if j in pure and a[0] == 'addrv':
                writes.add('v%d' % a[1])
                continue
            if a[0] == 'addrv':
                o = {'v%d' % a[1]}
            elif a[0] == 'addr':
                o = {self.okey(a[1])}
            elif a[0] not in ('k', 'str', 'fn'):
                o = {self.okey(a)}
            (writes if j in mods else reads).update(o)
            vs += sorted(S.ver[(x, y)] for (x, y) in S.ver if x in o)
        self.look(reads | writes)
        d = dig(t + '|' + ','.join(vs))
        c = self.count[d] = self.count.get(d, 0) + 1
        if fresh:
            c = self.perm.get((d, c), c)
            self.made.append((d, c))
            self.makers[d] = nm, args
            d = d + ("'" * (c - 1))
        if mods or comm:
            e = Eff(S.pc, t, reads, writes, comm, call=nm, terms=args)
            e.loads = self.readset(list(S.pc) + args)
            self.effs.append(e)
        for j in mods:
            if j >= len(args):
                continue
            a = args[j]
            if a[0] == 'addrv':
                S.env[a[1]] = ('out', j, d)
            elif a[0] == 'addr':
                ok = self.okey(a[1])
                fld = next((v for k, v in a[2] if k == 'f'), '')
                S.mem[ok] = {x: y for x, y in S.mem.get(ok, {}).items() if fld and not x.startswith('.' + fld)}
                S.ver[(ok, fld)] = '%d:%s' % (j, d)
            elif a[0] not in ('k', 'str', 'fn'):
                ok = self.okey(a)
                S.mem.pop(ok, None)
                for q in [q for q in S.ver if q[0] == ok]:
                    del S.ver[q]
                S.ver[(ok, '')] = '%d:%s' % (j, d)
        if fresh:
            return ('new', t if len(t) < 90 else nm, d)
        return ('res', nm, d)

    def fill(self, nm, n, args, S):
        """memset to zero and memcpy as the loop they stand for."""
        def elem(x):
            while True:
                t = x.ty.strip()
                t = t[:-1] if t.endswith('*') else t.split('[')[0] if t.endswith(']') else ''
                t = t.replace('const', '').strip()
                if SIZES.get(t) or x.k != 'cast':
                    return t if SIZES.get(t) else None
                x = x.c[0]
        t = elem(n.c[1])
        if t is None or nm != 'memset' and elem(n.c[2]) != t or nm == 'memset' and args[1] != ('k', 0) and args[1] != ('k', 'f0.0'):
            return False
        cnt = ('k', 0)
        for x, c in self.lin(args[2]).values():
            if c % SIZES[t]:
                return False
            cnt = self.add(cnt, ('k', c // SIZES[t]) if x is None else self.mul(('k', c // SIZES[t]), x))
        ln = n.line
        ids = ['fill%d_%d' % (id(n), q) for q in range(4)]
        S.env[ids[1]], S.env[ids[2]], S.env[ids[3]] = args[0], args[1], cnt
        ref = lambda q, ty: N('ref', ln, ty, ['fill', ids[q], 'var'], [])
        i = lambda: ref(0, 'int')
        v = N('idx', ln, t, None, [ref(2, t + ' *'), i()]) if nm != 'memset' else N('int', ln, 'int', 0, []) if kind(t) == 'i' else N('float', ln, t, '0.0', [])
        S.env[ids[0]] = ('k', 0)
        f = N('for', ln, '', None, [None, N('bin', ln, 'int', '<', [i(), ref(3, 'int')]), N('un', ln, 'int', 'post++', [i()]),
                                    N('asg', ln, t, '=', [N('idx', ln, t, None, [ref(1, t + ' *'), i()]), v])])
        self.loop(f, S)
        for q in ids:
            S.env.pop(q, None)
        return True

    def comm(self, g, seen=None):
        k = ('comm', g)
        c = self.P.__dict__.setdefault('_comm', {})
        if g in c:
            return c[g]
        c[g] = False
        r = False
        for x in walk(g.body):
            if x.k == 'call' and x.a:
                nm = x.a[0]
                if nm.startswith('MPI_') and nm not in ('MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Abort') or nm in ('fopen', 'fprintf', 'fscanf', 'rand', 'srand') \
                        or nm.startswith('Cblacs'):
                    r = True
                    break
                if nm == 'printf' and 'print' in g.name:
                    r = True
                    break
                if nm in FREE:
                    continue
                h = self.P.lookup(nm, g)
                if h is not None and self.comm(h):
                    r = True
                    break
        c[g] = r
        return r

    def sets(self, g):
        """A function that is called for what it leaves in the module's variables (it returns nothing)."""
        c = self.P.__dict__.setdefault('_sets', {})
        if g not in c:
            c[g] = g.ret.strip() == 'void' and any(
                x.k == 'asg' and modvar(x.c[0]) for x in walk(g.body))
        return c[g]

    # ------------------------------------------------------------ statements
    def mergeinto(self, S, alts):
        """S := merge of [(state, condition term relative to S.pc or None for 'otherwise')...]"""
        if len(alts) == 1:
            T = alts[0][0]
            S.env, S.mem, S.ver = T.env, T.mem, T.ver
            return
        T, _ = alts[-1]
        env, mem, ver = dict(T.env), T.mem, dict(T.ver)
        V = State(env, mem, ver, T.pc)
        for U, c in reversed(alts[:-1]):
            for v in set(U.env) & set(env):
                if U.env[v] is not env[v]:
                    env[v] = self.ite(c, U.env[v], env[v])
            for v in set(U.env) - set(env):
                env[v] = ('ite', c, U.env[v], ('uninit',))
            nm = {}
            for o in set(U.mem) | set(mem):
                a, b = U.mem.get(o, {}), mem.get(o, {})
                r = {}
                for x in set(a) & set(b):
                    r[x] = a[x] if a[x] is b[x] else self.ite(c, a[x], b[x])
                nm[o] = r
                for x in set(a) ^ set(b):
                    if o.startswith('loc') or (o, x) in self.cells:
                        def before(U, q):
                            l = self.cells.get((o, x))
                            v = self.version(l[1], l[2], U) if l is not None else ''
                            if not o.startswith('loc') and len(l[2]) == 1 and l[2][0][0] == 'f' and l[2][0][1] in META:
                                return self.meta(META[l[2][0][1]], l[1], v)
                            return ('ld', l[1], l[2], v) if v or not o.startswith('loc') else ('uninit',)
                        r[x] = self.ite(c, a[x] if x in a else before(U, a), b[x] if x in b else before(V, b))
            mem = nm
            for q in set(U.ver) | set(ver):
                a, b = U.ver.get(q, ''), ver.get(q, '')
                if a != b:
                    ver[q] = dig(self.pr(self.ite(c, ('k', a), ('k', b))))
        S.env, S.mem, S.ver = env, mem, ver

    def conj(self, lits):
        t = None
        if len(lits) > 1:
            lits = simpl(self, lits)
        if len(lits) > 1 or lits and lits[0][0] == 'op' and lits[0][1] in ('&&', '||'):
            g = guard(self, lits)
            if g is None:
                return ('k', 0)
            lits = g
        for l in lits:
            t = l if t is None else ('op', '&&', t, l)
        return t if t is not None else ('k', 1)

    def join(self, S, states, base):
        """Rejoin states that left at different points; their conditions beyond the first `base` literals choose."""
        alts = []
        for i, T in enumerate(states):
            c = None if i == len(states) - 1 else self.conj(T.pc[base:])
            alts.append((T, c))
        self.mergeinto(S, alts)
        return S

    def block(self, n, S):
        """Execute a statement; False when control does not go on."""
        if n is None:
            return True
        k = n.k
        if k in ('block', 'splice'):
            for s in n.c:
                if not self.block(s, S):
                    return False
            return True
        if k == 'null':
            return True
        if k == 'decl':
            for v in n.a:
                dim = self.ev(v.vla, S) if v.vla is not None else None
                if v.ty.rstrip().endswith(']') or v.ty.startswith('struct') and not v.ty.rstrip().endswith('*'):
                    self.newlocal(v, dim)
                r = self.rec(v.ty)
                if r is not None:
                    t = self.ev(v.init, S) if v.init is not None else None
                    S.mem['loc%d' % v.id] = {'.' + x: y for (x, _), y in zip(r, t[1:])} if t is not None and t[0] == 'agg' else {}
                    continue
                if v.init is not None:
                    arr = v.ty.rstrip().endswith(']')
                    if arr or v.init.k == 'init':
                        ok = 'loc%d' % v.id
                        m = S.mem[ok] = {}
                        if v.init.k == 'init':
                            for i, x in enumerate(v.init.c):
                                if x is not None:
                                    m['[%d]' % i if arr else '#%d' % i] = self.ev(x, S)
                        else:
                            m['[0]'] = self.ev(v.init, S)
                    else:
                        S.env[v.id] = self.ev(v.init, S)
                else:
                    S.env.pop(v.id, None)
                    S.mem.pop('loc%d' % v.id, None)
                    for q in [q for q in S.ver if q[0] == 'loc%d' % v.id]:
                        del S.ver[q]
            return True
        if k == 'if':
            return self.if_(n, S)
        if k in ('for', 'while', 'do'):
            return self.loop(n, S)
        if k == 'switch':
            return self.switch(n, S)
        if k == 'return':
            v = self.ev(n.c[0], S) if n.c and n.c[0] is not None else None
            todo = [(list(S.pc), v)]
            while todo:
                pc, v = todo.pop()
                if v is not None and v[0] == 'ite' and len(todo) < 6:
                    todo += [(pc, v[3]), (pc + [v[1]], v[2])]
                    continue
                vt = self.argtext(v, S) if v is not None else None
                vs = ''
                if v is not None and kind(n.c[0].ty) == 'p':
                    o = self.okey(v) if v[0] not in ('addr', 'addrv') else self.okey(v[1]) if v[0] == 'addr' else ''
                    vs = ','.join(sorted(S.ver[q] for q in S.ver if q[0] == o and not q[1]))
                self.rets.append((pc, v, vt, vs))
            return False
        if k in ('break', 'continue'):
            if k == 'break':
                self.brk[-1]['break'].append(S.copy())
                return False
            j = next((x for x in reversed(self.brk) if x.get('loop')), None)
            if j is not None:
                j['continue'].append(S.copy())
            return False
        if k == 'inl':
            lab = n.a['label']
            base = len(S.pc)
            self.leaves[lab] = []
            T = S.copy()
            ok = self.block(n.c[0], T)
            outs = self.leaves.pop(lab) + ([T] if ok else [])
            if not outs:
                return False
            self.join(S, outs, base)
            return True
        if k == 'leave':
            self.leaves[n.a].append(S.copy())
            return False
        if k == 'omp':
            return self.block(n.c[0], S) if n.c else True
        if k == 'label':
            return self.block(n.c[0], S)
        if k == 'goto':
            self.effs.append(Eff(S.pc, 'goto ' + str(n.a), set(), set(), True))
            return False
        if is_assert(n):
            return True
        fat = fatal_call(n)
        if n.k == 'cond' or fat:
            if fat:
                self.refuse(S.pc)
                return False
        self.ev(n, S)
        return True

    def if_(self, n, S):
        c = self.truth(self.ev(n.c[0], S), n.c[0].ty)
        if c == ('k', 0):
            return self.block(n.c[2], S)
        if c == ('k', 1):
            return self.block(n.c[1], S)
        base = len(S.pc)
        S1, S2 = S.copy(), S.copy()
        S1.pc.append(c)
        S2.pc.append(self.neg(c))
        f1, r1 = self.fatal(n.c[1]), None
        f2 = n.c[2] is not None and self.fatal(n.c[2])
        if f1:
            self.refuse(S1.pc)
            a1 = False
            S2.pc = list(S.pc)
            if not S.pc and not self.depth and not f2:
                self.facts |= {self.pr(l) for l in flatlits([self.neg(c)])}
        else:
            a1 = None
        if f2:
            self.refuse(S2.pc)
            q = eqk(self, c)
            if q is None or not any((eqk(self, ('op', '==') + l[2:]) or (0,))[0] == q[0] for l in flatlits(S.pc) if l[0] == 'op' and l[1] == '!='):
                S1.pc = list(S.pc)
        if not f1:
            a1 = self.block(n.c[1], S1)
        a2 = True
        if f2:
            a2 = False
        elif n.c[2] is not None:
            a2 = self.block(n.c[2], S2)
        if a1 and a2:
            x1, x2 = S1.pc[base + 1:], S2.pc[base + 1:]
            S.pc = S.pc[:base]
            self.mergeinto(S, [(S1, self.conj([c] + x1)), (S2, None)])
            if x1 or x2:
                S.pc.append(('op', '||', self.conj([c] + x1), self.conj([self.neg(c)] + x2)))
            return True
        if a1:
            if f2:
                S1.pc = S.pc[:base] + [l for l in S1.pc[base:] if l is not c]
            S.env, S.mem, S.ver, S.pc = S1.env, S1.mem, S1.ver, S1.pc
            return True
        if a2:
            S.env, S.mem, S.ver, S.pc = S2.env, S2.mem, S2.ver, S2.pc
            return True
        return False

    def refuse(self, pc):
        """The program stops with a message."""
        if any(self.fresh(l) for l in flatlits(pc)):
            return      # out of memory
        e = Eff(pc, 'refuse', set(), set(), terms=[l for l in pc])
        e.loads = self.readset(list(pc))
        self.effs.append(e)

    def fresh(self, l):
        """Is the literal a test of new memory for NULL?"""
        return l[0] == 'op' and l[1] in ('==', '!=', '!') and any(isinstance(x, tuple) and x and x[0] == 'new' for y in l[2:] if isinstance(y, tuple)
                                                                for x in [y] + ([z for z in y if isinstance(z, tuple)] if y[0] in ('sum', 'prod') else []))

    def fatal(self, n):
        """Does the statement end the program on every path?"""
        if n is None:
            return False
        if n.k in ('block', 'splice'):
            return any(self.fatal(x) for x in n.c if x is not None)
        return fatal_call(n)

    def switch(self, n, S):
        v = self.ev(n.c[0], S)
        base = len(S.pc)
        fr = {'break': []}
        self.brk.append(fr)
        items = flat_cases(n.c[1])
        vals = sorted(s.a for s in items if s.k == 'case')
        cur, pend = None, []
        hasdef = any(s.k == 'default' for s in items)

        def start(labels):
            T = S.copy()
            if 'other' in labels:
                for x in vals:
                    if x not in labels:
                        T.pc.append(self.cmp('!=', v, ('k', x)))
            else:
                c = None
                for x in sorted(labels):
                    q = self.cmp('==', v, ('k', x))
                    c = q if c is None else ('op', '||', c, q)
                T.pc.append(c)
            return T
        for s in items:
            if s.k == 'case':
                pend.append(s.a)
                continue
            if s.k == 'default':
                pend.append('other')
                continue
            if pend:
                T = start(pend)
                if cur is not None:
                    lits = [self.conj(cur.pc[base:]), self.conj(T.pc[base:])]
                    U = S.copy()
                    self.join(U, [cur, T], base)
                    U.pc.append(('op', '||', lits[0], lits[1]))
                    cur = U
                else:
                    cur = T
                pend = []
            if cur is not None:
                if self.fatal(s):
                    self.refuse(cur.pc)
                    cur = None
                elif not self.block(s, cur):
                    cur = None
        outs = fr['break'] + ([cur] if cur is not None else [])
        if pend:
            outs.append(start(pend))
        if not hasdef:
            outs.append(start(['other']))
        self.brk.pop()
        if not outs:
            return False
        self.join(S, outs, base)
        return True

    @property
    def brk(self):
        return self.__dict__.setdefault('_brk', [])

    def fixed(self, t, d, touched):
        """A whole number made of what the loop at depth d leaves alone (numbers, arguments, dimensions of a matrix)."""
        if not self.isint(t) or self.within(t, d):
            return False
        for r in self.readset([t]):
            o, _, f = r.rpartition('.')
            if not o or f not in META or f in touched.get(o, ()):
                return False
        return True

    def within(self, t, d):
        """Does the term change with the iterations of the loop at depth d?"""
        st, seen = [t], set()
        while st:
            t = st.pop()
            if not isinstance(t, tuple) or id(t) in seen:
                continue
            seen.add(id(t))
            if t and t[0] in ('it', 'phi') and t[1] == d:
                return True
            st += t
        return False

    def walkptr(self, p, i, S):
        c = self.shift(self.cell_of_ptr(p, S), i)
        return ('addr', c[1], c[2])

    def loop(self, n, S):
        init = None
        if n.k == 'for':
            init, c, inc, body = n.c
        elif n.k == 'while':
            (c, body), inc = n.c, None
        else:
            (body, c), inc = n.c, None
        if init is not None:
            self.block(init, S)
        base = len(S.pc)
        inner = [x for x in (c, inc, body) if x is not None]
        declared = {v.id for y in inner for x in walk(y) if x.k == 'decl' for v in x.a}
        mod, ints = [], {}
        for y in inner:
            for x in walk(y):
                i = None
                if x.k == 'asg' or x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')) or x.k == 'un' and x.a == '&':
                    r = x.c[0]
                    while r.k == 'cast':
                        r = r.c[0]
                    if r.k == 'ref' and r.a[2] in ('var', 'parm'):
                        i = r.a[1]
                if i is not None and i in S.env and i not in mod and i not in declared:
                    mod.append(i)
                    ints[i] = kind(r.ty) == 'i' and self.isint(S.env[i])
        self.depth += 1
        d = self.depth
        def name(i, r):
            # an integer is named relative to its start
            p = ('phi', d, ('k', 0), r)
            if i in flags:
                self.bools.add(self.pr(p))
                p = self.mul(('k', flags[i]), p)
            return self.add(S.env[i], p) if ints[i] else ('phi', d, S.env[i], r)

        def flag(i):
            # a variable that is only ever set to one other value: a yes or no, whatever the two values
            if not ints[i] or not (S.env[i][0] == 'k' and isinstance(S.env[i][1], int)) or bvals[i]:
                return None
            v = set()
            for x in self.choices(nexts[i]) or ():
                if x != names[i]:
                    v.add(x[1] - S.env[i][1] if x[0] == 'k' and isinstance(x[1], int) else None)
            return v.pop() if len(v) == 1 and None not in v and v != {0} else None

        def step(i):
            nx = nexts[i]
            if i in flags and flags[i] != 1:
                return self.remap(nx, {self.pr(names[i]): phi(i)}, ('k', 1))
            return self.add(nx, S.env[i], True) if ints[i] and self.isint(nx) else nx
        flags, before = {}, set(self.bools)
        names = {i: name(i, 0) for i in mod}
        touched = {}
        skip = False

        def changed(Vs):
            r = {}
            for V in Vs:
                for q, w in V.ver.items():
                    if S.ver.get(q) != w:
                        r.setdefault(q[0], set()).add(q[1])
            return r
        def phi(i):
            n = names[i]
            return n if n[0] == 'phi' else next((x for x, c in self.lin(n).values() if x is not None and x[0] == 'phi' and x[1] == d and x[2] == ('k', 0)), n)

        def drop(r):
            for ok_, fl_, key_, l_ in prom.values():
                if ok_ in r:
                    r[ok_].discard(fl_)
                    if not r[ok_]:
                        del r[ok_]
            return r

        def rank(nexts):
            grp = {}
            for i in mod:
                grp.setdefault('int' if ints[i] else self.pr(S.env[i]), []).append(i)
            for g in grp.values():
                g.sort(key=lambda i: self.pr(self.add(nexts[i], S.env[i], True) if ints[i] and self.isint(nexts[i]) else nexts[i]))
                for r, i in enumerate(g):
                    names[i] = name(i, r)
        prom, tried, rnd = {}, 0, -1
        while rnd < 2:
            rnd += 1
            if rnd == 1 and skip:
                continue
            cnt = dict(self.count)
            T = S.copy()
            for i in names:
                if i in prom:
                    T.mem.setdefault(prom[i][0], {})[prom[i][2]] = names[i]
                else:
                    T.env[i] = names[i]
            made = len(self.made)
            nseen = len(self.seen)
            for ok, flds in touched.items():
                for x in list(T.mem.get(ok, {})):
                    if '' in flds or any(x.startswith('.' + fl) for fl in flds):
                        del T.mem[ok][x]
                for fl in flds:
                    T.ver[(ok, fl)] = 'L' + dig(T.ver.get((ok, fl), '') + str(d))
            saved, self.effs = self.effs, []
            nret = len(self.rets)
            fr = {'break': [], 'continue': [], 'conds': [], 'loop': True}
            self.brk.append(fr)
            ct = ('k', 1)
            if n.k != 'do' and c is not None:
                ct = self.truth(self.ev(c, T), c.ty)
            T.pc = []
            b2 = 0
            ok = self.block(body, T)
            outs = fr['continue'] + ([T] if ok else [])
            alive = bool(outs)
            if alive:
                U = T.copy()
                U.pc = []
                self.join(U, outs, 0)
                U.pc = []
                if inc is not None:
                    self.ev(inc, U)
                if n.k == 'do' and c is not None:
                    ct = self.truth(self.ev(c, U), c.ty)
            else:
                U = T
            self.brk.pop()
            effs, self.effs = self.effs, saved
            for V in [U] + fr['break']:
                for i, (ok_, fl_, key_, l_) in prom.items():
                    V.env[i] = V.mem.get(ok_, {}).get(key_, ('uninit',))
            nexts = {i: U.env.get(i, ('uninit',)) for i in mod}
            fr['conds'] = [list(B.pc) for B in fr['break']]
            bvals = {i: ['%s: %s' % (self.pr(self.conj(B.pc)), self.pr(B.env.get(i, ('uninit',)))) for B in fr['break'] if B.env.get(i) is not names[i]] for i in mod}
            if rnd == 1:
                touched = drop(changed([U]))
                rank(nexts)
            if rnd == 0 and tried == 0 and alive and not fr['break'] and len(self.rets) == nret and \
                    any(e.cell is not None and not self.within(e.terms[1][1:3], d) for e in effs):
                # once more, knowing what the loop changes
                tried = 1
                touched = changed([U])
                self.rets[nret:] = []
                self.count = cnt
                del self.made[made:]
                del self.seen[nseen:]
                rnd = -1
                continue
            if rnd == 0 and tried == 1:
                tried = 2
                for ok_, fl_, key_, l_ in self.promotable(effs, [ct] + [nexts[i] for i in mod], d, touched):
                    i = 'cell ' + self.prcell(l_)
                    prom[i] = (ok_, fl_, key_, l_)
                    S.env[i] = self.load(l_, S, self.celltype[ok_, key_])
                    ints[i] = kind(self.celltype[ok_, key_]) == 'i' and self.isint(S.env[i])
                    mod.append(i)
                    names[i] = name(i, 0)
                if prom:
                    touched = drop(changed([U]))
                    self.rets[nret:] = []
                    self.count = cnt
                    del self.made[made:]
                    del self.seen[nseen:]
                    rnd = -1
                    continue
            if rnd == 0:
                # pointers and counters the loop leaves alone keep their value; name the rest by start and step
                ch = {i for i in mod if nexts[i] is not names[i] or bvals[i]}
                for i in mod:
                    if i not in ch:
                        names[i] = S.env[i]
                touched = drop(changed([U]))
                mod = [i for i in mod if i in ch]
                steps = {}
                for i in mod:
                    if phi(i)[0] == 'phi' and not bvals[i]:
                        df = self.add(nexts[i], names[i], True) if self.isint(nexts[i]) else None
                        if df is not None and (df[0] == 'k' and isinstance(df[1], int) or self.fixed(df, d, touched)) and self.isint(S.env[i]):
                            steps[i] = df
                            names[i] = self.add(S.env[i], self.mul(df, ('it', d)))
                            continue
                        # a pointer that walks over an array
                        t, st = nexts[i], 0
                        if t[0] == 'addr' and t[1] is names[i] and len(t[2]) == 1 and t[2][0][0] == 'i' and t[2][0][1][0] == 'k' and S.env[i][0] != 'addrv':
                            steps[i] = ('ptr', t[2][0][1][1])
                            names[i] = self.walkptr(S.env[i], self.mul(('k', steps[i][1]), ('it', d)), S)
                mod = [i for i in mod if i not in steps]
                for i in mod:
                    w = flag(i)
                    if w is not None:
                        flags[i] = w
                        names[i] = name(i, 0)
            if rnd == 0 and not any(w != 1 for w in flags.values()) and not any(x[0] == 'ptr' for x in steps.values()) and len({'int' if ints[i] else self.pr(S.env[i]) for i in mod}) == len(mod):
                skip = True
            if rnd < 2:
                self.rets[nret:] = []
                self.count = cnt
                del self.made[made:]
                del self.seen[nseen:]
        if prom:
            cells = {i[5:] for i in prom}
            effs = [e for e in effs if e.cell not in cells]
        # the loop header: condition and the steps of the variables it depends on
        def deps(t, out, seen=None):
            seen = set() if seen is None else seen
            if isinstance(t, tuple):
                if id(t) in seen:
                    return
                seen.add(id(t))
                if t and t[0] == 'phi' and t[1] == d:
                    if self.pr(t) not in out:
                        out[self.pr(t)] = None
                        for i in mod:
                            if phi(i) == t:
                                nx = step(i)
                                out[self.pr(t)] = nx
                                deps(nx, out, seen)
                    return
                for x in t:
                    if isinstance(x, tuple):
                        deps(x, out, seen)
        hd = {}
        deps(ct, hd)
        bc = sorted(self.pr(self.conj(p)) for p in fr['conds'])
        for p in fr['conds']:
            for l in p:
                deps(l, hd)

        def header(h):
            return '%s %s; %s%s' % ('do' if n.k == 'do' else 'for', self.pr(ct), ', '.join('%s -> %s' % (a, self.pr(b)) for a, b in sorted(h.items()) if b is not None),
                                    ' stop if ' + ' or '.join(bc) if bc else '')
        head0 = header(hd)
        for i in mod:
            nx = nexts[i]
            if ints[i] and self.isint(nx):
                df = self.add(nx, names[i], True)
                q = [x for x, c in self.lin(df).values() if x is not None]
                if len(q) == 1 and q[0][0] == 'ite' and all(self.pr(self.add(df, self.add(x, q[0], True))) in ('0', '1') for x in q[0][2:]):
                    self.slow.add(self.pr(phi(i)))
        effs = [x for x in normal(self, effs) if x.text is not None or x.sub]
        self.depth -= 1
        # independent actions of the body are loops of their own
        if fr['break'] or len(self.rets) > nret or n.k == 'do':
            comps = [effs] if effs else []
        else:
            comps = components(effs)
        lds = []
        for comp in comps:
            hc = dict(hd)
            for e in comp:
                for t in e.terms + e.pc:
                    deps(t, hc)
            ws = set().union(*[e.writes for e in comp])
            rs = set().union(*[e.reads for e in comp])
            txt = 'loop(%s)' % header(hc)
            # conditions every action shares and the loop does not change are tested outside
            allw = set().union(*[e.writes for e in effs])
            inv = [l for l in comp[0].out if all(any(self.pr(l) == self.pr(m) for m in e.out) for e in comp) and not self.within(l, d)
                   and not hit(self.readset([l]), allw)]
            if inv and not ('break' in hc):
                ks = {self.pr(l) for l in inv}
                for e in comp:
                    e.out = [l for l in e.out if self.pr(l) not in ks]
                    e.retext(self)
            L = Eff(list(S.pc) + inv, txt, rs, ws, any(e.comm for e in comp), sub=comp, terms=[ct] + [t for e in comp for t in e.terms + e.pc])
            L.loads = set().union(*[e.loads for e in comp]) | self.readset([ct])
            self.effs.append(L)
            lds.append((ws, dig(txt + '\n'.join(flatten(comp)))))
        ld = dig(head0 + ' '.join(sorted(x for _, x in lds)))
        trip = ('trip', ('k', dig(head0)))
        rds = self.readset([ct] + [l for p in fr['conds'] for l in p])
        self.tripreads[trip[-1]] = rds
        if n.k != 'do':
            for l in flatlits([ct]):
                if l[0] == 'op' and l[1] == '<' and l[2] == ('k', 0):
                    q = [(x, k) for x, k in self.lin(l[3]).values() if x is not None and x[0] == 'it' and x[1] == d]
                    if q and q[0][1] == -1:
                        r = self.add(l[3], q[0][0])
                        if self.counts(r) and not self.within(r, d) and not hit(self.readset([r]), set().union(*[e.writes for e in effs]) if effs else set()):
                            self.bounds[trip[-1]] = r
                            if ct is l and not fr['break'] and len(self.rets) == nret:
                                trip = r
        for i, df in steps.items():
            if df[0] == 'ptr':
                S.env[i] = self.walkptr(S.env[i], self.mul(('k', df[1]), trip), S)
                continue
            S.env[i] = self.add(S.env[i], self.mul(df, trip))
        clean = not fr['break'] and len(self.rets) == nret and n.k != 'do'
        for i in mod:
            if nexts[i] == names[i] and not bvals[i]:
                continue
            if clean:
                v = self.reduction(names[i], nexts[i], S.env[i], d, ct, hd, deps, header)
                if v is not None:
                    S.env[i] = v
                    continue
            h2 = dict(hd)
            deps(phi(i), h2)
            h2['break'] = ('k', ' '.join(sorted(bvals[i])))
            v = ('loopval', phi(i), ('k', dig(head0 + '|' + ';'.join('%s->%s' % (a, self.pr(b) if b is not None else '') for a, b in sorted(h2.items())))))
            self.tripreads[v[-1]] = rds | self.readset([b for b in h2.values() if b is not None])
            if i in flags:
                self.bools.add(self.pr(v))
                v = self.mul(('k', flags[i]), v)
            S.env[i] = self.add(S.env[i], v) if ints[i] else v
        for okk, flds in drop(changed([U] + fr['break'])).items():
            for x in list(S.mem.get(okk, {})):
                if '' in flds or any(x.startswith('.' + fl) for fl in flds):
                    del S.mem[okk][x]
            for fl in flds:
                q = {okk + '.' + fl if fl else okk}
                own = sorted(x for w, x in lds if hit(w, q))
                S.ver[(okk, fl)] = 'L' + (dig(' '.join(own)) if own else ld)
        for i in range(nret, len(self.rets)):
            pc, v, vt, vs = self.rets[i]
            self.rets[i] = (S.pc + [('op', 'in loop', ('k', head0))] + pc, v, vt, vs)
        for i, (ok_, fl_, key_, l_) in prom.items():
            v = S.env.pop(i)
            self.store(l_, v, S, N('null', 0, self.celltype[ok_, key_], None, []))
        self.bools -= {self.pr(phi(i)) for i in flags if self.pr(phi(i)) not in before}
        # variables declared in the loop do not survive
        return True

    def ahead(self, x):
        """Is x the lead of the loop counter over a variable that grows by at most one per iteration?"""
        for y, c in self.lin(x).values():
            if y is not None and y[0] == 'phi' and c == -1 and self.pr(y) in self.slow:
                return self.pr(x) == self.pr(self.add(self.add(('it', y[1]), y[2]), y, True))
        return False

    def changes(self, t, touched):
        """Does the value use a place among those touched?"""
        places = {o + '.' + f if f else o for o, fs in touched.items() for f in fs}
        todo, vis = [t], set()
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple) or id(t) in vis:
                continue
            vis.add(id(t))
            if t and t[0] == 'ld' and len(t) == 4:
                fs = touched.get(self.okey(t[1]), ())
                if fs and ('' in fs or next((v for k, v in t[2] if k == 'f'), '') in fs or not any(k == 'f' for k, v in t[2])):
                    return True
            elif t and t[0] in ('val', 'trip', 'loopval', 'reduce', 'meta') and hit(self.readset([t]), places):
                return True
            todo.extend(t)
        return False

    def promotable(self, effs, terms, d, touched):
        """Places the loop at depth d updates in every iteration and uses only by one name that does not change."""
        out = []
        seen = {}
        for e in effs:
            if e.cell is None or e.terms[1][0] != 'ld':
                continue
            l = ('c',) + e.terms[1][1:3]
            ok, fld = self.okey(l[1]), next((v for k, v in l[2] if k == 'f'), '')
            seen.setdefault((ok, fld), {})[e.cell] = l
        for (ok, fld), cells in sorted(seen.items()):
            if len(cells) != 1:
                continue
            (cell, l), = cells.items()
            place = {ok + '.' + fld if fld else ok}
            if self.within(l[1], d) or self.within(l[2], d) or any(self.changes(t, touched) for t in [l[1]] + [v for k, v in l[2] if k == 'i']):
                continue
            good = True
            todo, vis = list(terms) + [t for e in effs for t in e.terms + e.pc], set()
            for e in effs:
                if e.cell != cell and (hit(e.reads | e.writes, place)):
                    good = False
            while todo and good:
                t = todo.pop()
                if not isinstance(t, tuple) or id(t) in vis:
                    continue
                vis.add(id(t))
                if t and t[0] == 'ld' and len(t) == 4:
                    o2, f2 = self.okey(t[1]), next((v for k, v in t[2] if k == 'f'), '')
                    if self.okey(t) != ok and hit({o2 + '.' + f2 if f2 else o2}, place) and self.prpath(self.pr(t[1]), t[2]) != cell:
                        good = False
                elif t and t[0] in ('val', 'trip', 'loopval', 'reduce', 'meta'):
                    if hit(self.readset([t]), place):
                        good = False
                elif t and t[0] == 'addr' and hit({self.okey(t[1])}, place):
                    good = False
                todo.extend(t)
            if good:
                out.append((ok, fld, self.ckey(l), l))
        return out

    def at0(self, t, d):
        """The condition in the first iteration of the loop at depth d."""
        if t == ('it', d):
            return ('k', 0)
        if not isinstance(t, tuple) or not self.within(t, d):
            return t
        if t[0] == 'sum':
            r = ('k', 0)
            for x in t[1:]:
                r = self.add(r, self.at0(x, d))
            return r
        if t[0] == 'prod':
            r = ('k', 1)
            for x in t[1:]:
                r = self.mul(r, self.at0(x, d))
            return r
        return tuple(self.at0(x, d) if isinstance(x, tuple) else x for x in t)

    def incr(self, t, p):
        """What t adds to p; None when t is not p plus something that does not depend on p."""
        if t == p:
            return ('k', 'f0.0')
        if t[0] == 'op' and t[1] == '+' and len(t) == 4:
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if self.holds(x, p) and not self.holds(y, p):
                    z = self.incr(x, p)
                    return None if z is None else y if z == ('k', 'f0.0') else ('op', '+', z, y)
            return None
        if t[0] == 'ite' and not self.holds(t[1], p):
            a, b = self.incr(t[2], p), self.incr(t[3], p)
            return None if a is None or b is None else self.ite(t[1], a, b)
        return None

    def holds(self, t, p):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            if x == p:
                return True
            seen.add(id(x))
            st += x
        return False

    def reduction(self, p, nx, init, d, ct, hd, deps, header):
        """A sum that the loop accumulates: start plus the sum of what each iteration adds."""
        if p[0] != 'phi' or self.holds(ct, p):
            return None
        t = self.incr(nx, p)
        if t is None:
            return None
        h2 = dict(hd)
        deps(t, h2)
        key = ('k', dig(header(h2) + '|+' + self.pr(t)))
        r = ('reduce', key)
        self.tripreads[key] = self.readset([ct, t])
        e = flatlits([self.at0(ct, d)])
        if len(e) == 1:
            self.entry[self.pr(r)] = (self.pr(e[0]), 'f0.0')
        return r if init == ('k', 'f0.0') or init == ('k', 0) else ('op', '+', init, r)

    # ------------------------------------------------------------ result
    def summary(self):
        out = flatten(normal(self, [e for e in self.effs]))
        val = None
        for pc, v, vt, vs in reversed(self.rets):
            t = ('val', (vt or '') + ('@' + vs if vs else ''), '') if v is not None else ('void',)
            if val is None:
                val = t
            else:
                val = self.ite(self.conj(pc), t, val)
        if val is not None and val[0] != 'void':
            out.append('return ' + self.pr(val))
        return out


SIZES = {'int': 4, 'float': 4, 'double': 8, '_Complex float': 8, '_Complex double': 16}
ORDER = {'float': {'float', 'double', 'cfloat', 'cdouble'}, 'double': {'double', 'cdouble'}, 'cfloat': {'cfloat', 'cdouble'}, 'cdouble': {'cdouble'}}


MAKE = re.compile(r'bml_(noinit|zero)_matrix_(dense|ellpack|csr|ellblock)_(?:single|double)_(?:real|complex)$')


def modvar(l):
    """A module variable or an element of what it holds."""
    while l.k == 'cast' or l.k == 'idx' or l.k == 'mem' and not l.a[1]:
        l = l.c[0]
    return l.k == 'ref' and l.a[2] == 'global'


def accessor(g):
    """What a function that only hands out a field returns."""
    if '_acc' not in g.__dict__:
        import inline
        g._acc = None
        b = inline.single_return(g) if g.body is not None and g.body.c else None
        if b is not None and inline.pure(b) and any(x.k == 'mem' for x in walk(b)) and \
                all(x.k in ('mem', 'ref', 'cast') and (x.k != 'ref' or x.a[2] == 'parm') for x in walk(b)):
            g._acc = b
    return g._acc


def wider(a, b):
    """The kind both convert to without loss, when one of them holds every value of the other."""
    if b in ORDER.get(a, ()):
        return b
    if a in ORDER.get(b, ()):
        return a
    if {a, b} == {'double', 'cfloat'}:
        return 'cdouble'
    return None


def exclusive(E, a, b):
    """Guards that cannot hold together."""
    if not a or not b:
        return False
    la, lb = flatlits(a), flatlits(b)
    if len({E.pr(l) for l in la + lb}) <= 4 and guard(E, la + lb) is None:
        return True
    kb = {E.pr(l): l for l in flatlits(b)}
    ka = {E.pr(l): l for l in flatlits(a)}
    for k1, k2 in ((ka, kb), (kb, ka)):
        for l in k1.values():
            if l[0] == 'op' and l[1] == '||' and all(all(E.pr(E.neg(y)) in k2 for y in E.flat(x, '&&')[:1]) for x in E.flat(l, '||')):
                return True
    for l in ka.values():
        if E.pr(E.neg(l)) in kb:
            return True
        q = eqk(E, l)
        if q is not None:
            for m in kb.values():
                r = eqk(E, m)
                if r is not None and r[0] == q[0] and r[1] != q[1]:
                    return True
    return False


def eqk(E, l):
    """(text, k) when the literal says that text == k."""
    if l[0] == 'op' and l[1] == '==' and l[2] == ('k', 0):
        d = E.lin(l[3])
        c = d.pop('', (None, 0))[1]
        if d:
            return E.pr(E.unlin(d)), c
    return None


def flatlits(pc):
    out, st = [], list(pc)
    while st:
        l = st.pop()
        if l[0] == 'op' and l[1] == '&&':
            st += l[2:]
        elif l != ('k', 1):
            out.append(l)
    return out


def atoms(E, t, out):
    """Formula over atoms: ('&', ..), ('|', ..), ('!', x) or an atom's number; out maps the atom's text to (number, term)."""
    if t[0] == 'k':
        return ('&',) if t[1] else ('|',)
    if t[0] == 'op' and t[1] in ('&&', '||') and len(t) == 4:
        return ('&' if t[1] == '&&' else '|', atoms(E, t[2], out), atoms(E, t[3], out))
    n = E.neg(t)
    s, m = E.pr(t), E.pr(n)
    if m < s or m == s:
        return ('!', out.setdefault(m, (len(out), n))[0])
    return out.setdefault(s, (len(out), t))[0]


def value(f, bits):
    if isinstance(f, int):
        return bits >> f & 1
    if f[0] == '!':
        return not value(f[1], bits)
    if f[0] == '&':
        return all(value(x, bits) for x in f[1:])
    return any(value(x, bits) for x in f[1:])


def implies(E, a, b):
    """Does the integer literal a surely imply b?"""
    if a[0] != 'op' or b[0] != 'op' or len(a) != 4 or len(b) != 4 or a[2] != ('k', 0) or b[2] != ('k', 0) or not E.isint(a[3]) or not E.isint(b[3]):
        return False
    x, y = a[3], b[3]
    o, p = a[1], b[1]
    if o == '<' and p == '<':
        return E.nonneg(E.add(y, x, True))
    if o == '<' and p == '!=':
        return E.nonneg(E.add(y, x, True)) or E.nonneg(E.add(E.mul(('k', -1), y), x, True))
    if o == '==' and p in ('!=', '<', '=='):
        for m in (1, -1):
            d = E.add(y, E.mul(('k', m), x))
            if d[0] == 'k':
                return d[1] != 0 if p == '!=' else d[1] > 0 if p == '<' else d[1] == 0
            if p == '<' and E.nonneg(E.add(d, ('k', -1))):
                return True
    return False


GUARDMAX = 7


def atoms_of(E, t):
    out = {}
    atoms(E, t, out)
    return out


def guard(E, lits):
    """Canonical form of a conjunction of conditions: the prime implicants, common literals apart.  None: never true."""
    if not lits or len(lits) == 1 and not (lits[0][0] == 'op' and lits[0][1] in ('&&', '||')):
        return list(lits)
    memo = E.__dict__.setdefault('_guards', {})
    key = tuple(sorted(E.pr(l) for l in lits))
    if key in memo:
        return memo[key][1]
    r = guard1(E, lits)
    memo[key] = (lits, r)
    return r


def guard1(E, lits):
    out = {}
    f = ('&',) + tuple(atoms(E, l, out) for l in lits)
    n = len(out)
    if n > GUARDMAX:
        return list(lits)
    # renumber by text
    order = sorted(out)
    num = {out[s][0]: i for i, s in enumerate(order)}
    terms = [out[s][1] for s in order]

    def ren(x):
        return num[x] if isinstance(x, int) else (x[0],) + tuple(ren(y) for y in x[1:])
    f = ren(f)
    lit = {(i, v): terms[i] if v else E.neg(terms[i]) for i in range(n) for v in (0, 1)}
    bad = []
    for i in range(n):
        for j in range(i):
            for v in (0, 1):
                for w in (0, 1):
                    if implies(E, lit[i, v], lit[j, w]) or implies(E, lit[j, 1 - w], lit[i, 1 - v]):
                        bad.append((i, v, j, 1 - w))
    dc = {b for b in range(1 << n) if any(b >> i & 1 == v and b >> j & 1 == w for i, v, j, w in bad)}
    on = {b for b in range(1 << n) if b not in dc and value(f, b)}
    if not on:
        return None
    if len(on) + len(dc) == 1 << n:
        return []
    # prime implicants: (mask of fixed bits, their values)
    cur = {((1 << n) - 1, b) for b in on | dc}
    primes = set()
    while cur:
        nxt, used = set(), set()
        for m, b in cur:
            for i in range(n):
                if m >> i & 1 and (m, b ^ 1 << i) in cur:
                    used.add((m, b))
                    nxt.add((m & ~(1 << i), b & ~(1 << i)))
        primes |= cur - used
        cur = nxt
    cover = {(m, b): {x for x in on if x & m == b} for m, b in primes}
    primes = sorted(((m, b) for m, b in primes if cover[m, b]), key=lambda q: (-len(cover[q]), bin(q[0]).count('1'), sorted(lit[i, q[1] >> i & 1] and order[i] for i in range(n) if q[0] >> i & 1), q[1]))
    keep = []
    for q in primes:
        if not any(cover[q] <= cover[r] for r in keep):
            keep.append(q)
    primes = keep
    prods = [{(i, b >> i & 1) for i in range(n) if m >> i & 1} for m, b in primes]
    common = set.intersection(*prods)
    res = [lit[q] for q in sorted(common)]
    if len(prods) > 1 or prods[0] - common:
        alts = []
        for p in prods:
            t = None
            for q in sorted(p - common):
                t = lit[q] if t is None else ('op', '&&', t, lit[q])
            alts.append(t)
        alts.sort(key=E.pr)
        t = alts[0]
        for a in alts[1:]:
            t = ('op', '||', t, a)
        res.append(t)
    return res


def simpl(E, pc):
    """The conjunction without literals the others imply."""
    ls = {E.pr(l): l for l in flatlits(pc)}
    if E.bounds and any(E.full(l) for l in ls.values()):
        fs = [l for l in ls.values() if E.full(l)]
        new = []
        for l in ls.values():
            if l not in fs and l[0] == 'op' and l[1] in ('<', '==', '!=') and l[2] == ('k', 0) and len(l) == 4:
                l = E.cmp(l[1], ('k', 0), E.equal(l[3], fs))
            new.append(l)
        ls = {E.pr(l): l for l in flatlits(new)}
    eq = {}
    for l in ls.values():
        q = eqk(E, l)
        if q is not None:
            eq[q[0]] = q[1]
    out = []
    for k, l in ls.items():
        if l[0] == 'op' and l[1] == '!=':
            q = eqk(E, ('op', '==') + l[2:])
            if q is not None and q[0] in eq and eq[q[0]] != q[1]:
                continue
        if l[0] == 'op' and l[1] == '||' and any(E.pr(x) in ls for x in E.flat(l, '||')):
            continue
        out.append(l)
    return out


def conj0(lits):
    t = ('k', 1)
    for l in lits:
        t = l if t == ('k', 1) else ('op', '&&', t, l)
    return t


def selfcopy(E, e):
    """A copy of an element onto itself changes nothing: the test that the places differ is not part of the effect."""
    if e.cell is None or e.val is None or e.val[0] != 'ld' or len(e.terms) < 2:
        return e
    l, v = e.terms[1], e.val
    if l[0] != 'ld' or E.okey(l[1]) != E.okey(v[1]) or len(l[2]) != len(v[2]) or not l[2] or E.prpath('', l[2][:-1]) != E.prpath('', v[2][:-1]) \
            or l[2][-1][0] != 'i' or v[2][-1][0] != 'i':
        return e
    d = E.add(v[2][-1][1], l[2][-1][1], True)
    ds = {E.pr(d), E.pr(E.mul(('k', -1), d))}
    lits = flatlits(e.pc)
    keep = []
    for x in lits:
        if x[0] == 'op' and len(x) == 4 and x[2] == ('k', 0) and E.pr(x[3]) in ds:
            if x[1] == '!=':
                continue
            if x[1] == '<' and E.ahead(x[3]):
                continue
        keep.append(x)
    if len(keep) == len(lits):
        return e
    m = Eff(keep, e.text, e.reads, e.writes, e.comm, e.sub, e.call, e.terms)
    m.cell, m.val, m.loads = e.cell, e.val, e.loads
    return m


def after(E, effs, i, j):
    """The i-th action and those that have to follow it, of those before the j-th; None if the j-th has to follow one of them."""
    late = [effs[i]]
    for k in range(i + 1, j):
        if any(conflict(E, x, effs[k]) for x in late):
            late.append(effs[k])
    return None if any(conflict(E, x, effs[j]) for x in late[1:]) else late


def lean(E, pc):
    """The literals of a path condition, without those the others imply."""
    g = guard(E, simpl(E, pc)) if len(pc) > 1 and E.bounds else None
    return flatlits(g if g is not None else pc)


def pairs(E, effs):
    """Stores to one place under complementary conditions: one store of the chosen value."""
    effs = [selfcopy(E, e) for e in effs]
    again = True
    while again:
        again = False
        for i, a in enumerate(effs):
            if a.text is None:
                continue
            for j in range(i + 1, len(effs)):
                b = effs[j]
                if a.text == b.text and (not a.sub and not b.sub or a.sub and b.sub and flatten(a.sub) == flatten(b.sub)) and exclusive(E, a.pc, b.pc):
                    late = after(E, effs, i, j)
                    if late is None:
                        continue
                    g = guard(E, [('op', '||', conj0(a.pc), conj0(b.pc))])
                    m = Eff(g if g is not None else b.pc, a.text, a.reads | b.reads, a.writes | b.writes, a.comm or b.comm, b.sub, b.call, a.terms + b.terms)
                    m.cell, m.val, m.loads = b.cell, b.val, a.loads | b.loads
                    effs[i:j + 1] = [x for x in effs[i:j] if x not in late] + [m] + late[1:]
                    again = True
                    break
            if again:
                break
        if again:
            continue
        for i, a in enumerate(effs):
            if a.cell is None:
                continue
            looked = False
            for j in range(i + 1, len(effs)):
                b = effs[j]
                if b.cell == a.cell and not hit(b.reads, a.writes) and (not looked and not hit(b.loads, a.writes) or E.unseen(a, b)):
                    # the second store replaces the first, or does so under a further condition
                    la, lb = {E.pr(l): l for l in flatlits(a.pc)}, {E.pr(l): l for l in flatlits(b.pc)}
                    if set(lb) <= set(la):
                        del effs[i]
                        again = True
                        break
                    if set(la) <= set(lb):
                        g = E.conj([l for k, l in lb.items() if k not in la])
                        v = E.ite(g, b.val, a.val)
                        m = Eff(a.pc, '%s := %s' % (a.cell, E.pr(v)), a.reads | b.reads, a.writes, terms=a.terms + b.terms + (g,))
                        m.cell, m.val = a.cell, v
                        m.loads = a.loads | b.loads
                        effs[j] = m
                        del effs[i]
                        again = True
                        break
                if not exclusive(E, a.pc, b.pc) and (hit(b.writes, a.writes) or hit(b.reads, a.writes)):
                    break
                if not exclusive(E, a.pc, b.pc) and hit(b.loads, a.writes):
                    looked = True
            if again:
                break
            for j in range(i + 1, len(effs)):
                b = effs[j]
                if b.cell is None or not exclusive(E, a.pc, b.pc):
                    continue
                if b.cell != a.cell:
                    # what a search that went all the way stores at its bound and what it stores before, at its count
                    if not E.bounds:
                        continue
                    if E.prcell(E.place(('c',) + a.terms[1][1:3], None, b.pc)) == b.cell:
                        cell, loc = a.cell, a.terms[1]
                    elif E.prcell(E.place(('c',) + b.terms[1][1:3], None, a.pc)) == a.cell:
                        cell, loc = b.cell, b.terms[1]
                    else:
                        continue
                else:
                    cell, loc = a.cell, a.terms[1]
                la, lb = {E.pr(l): l for l in lean(E, a.pc)}, {E.pr(l): l for l in lean(E, b.pc)}
                da, db = [l for k, l in la.items() if k not in lb], [l for k, l in lb.items() if k not in la]
                if len(da) != 1 or len(db) != 1 or E.pr(E.neg(da[0])) != E.pr(db[0]):
                    continue
                late = after(E, effs, i, j)
                if late is None:
                    continue
                pc = [l for k, l in la.items() if k in lb]
                v = E.ite(da[0], a.val, b.val)
                m = Eff(pc, '%s := %s' % (cell, E.pr(v)), a.reads | b.reads, a.writes, terms=(v, loc) + a.terms + b.terms + (da[0],))
                m.cell, m.val = cell, v
                m.loads = a.loads | b.loads
                effs[i:j + 1] = [x for x in effs[i:j] if x not in late] + [m] + late[1:]
                again = True
                break
            if again:
                break
    return effs


def apart(E, a, b):
    """Stores to different elements of one array."""
    if a.cell is None or b.cell is None or len(a.terms) < 2 or len(b.terms) < 2:
        return False
    l, m = a.terms[1], b.terms[1]
    if l[0] != 'ld' or m[0] != 'ld' or E.okey(l[1]) != E.okey(m[1]) or len(l[2]) != len(m[2]) or not l[2] \
            or E.prpath('', l[2][:-1]) != E.prpath('', m[2][:-1]) or l[2][-1][0] != 'i' or m[2][-1][0] != 'i':
        return False
    d = E.add(l[2][-1][1], m[2][-1][1], True)
    if d[0] == 'k':
        return d[1] != 0
    i, j = E.pr(l[2][-1][1]), E.pr(m[2][-1][1])
    if a.val is not None and b.val is not None and E.pr(a.val).replace('[%s]' % i, '[%s]' % j) == E.pr(b.val).replace('[%s]' % i, '[%s]' % j):
        return True     # where the elements are one, so are the values
    k = E.pr(E.cmp('!=', d, ('k', 0)))
    return any(E.pr(x) == k for x in flatlits(a.pc)) or any(E.pr(x) == k for x in flatlits(b.pc))


def depends(E, a, b):
    return a.comm and b.comm or (hit(a.writes, b.writes) and not apart(E, a, b) or hit(a.writes, b.reads) or hit(a.reads, b.writes)) and not exclusive(E, a.pc, b.pc)


def conflict(E, a, b):
    return (a.comm and b.comm or hit(a.writes, b.writes | b.reads) or hit(a.reads, b.writes)) and not exclusive(E, a.pc, b.pc)


def components(effs):
    """Groups of actions that do not touch each other's data, in any iteration."""
    grp = [[e] for e in effs]
    i = 0
    while i < len(grp):
        for j in range(i + 1, len(grp)):
            if any(a.comm and b.comm or hit(a.writes, b.writes) or hit(a.writes, b.reads | b.loads) or hit(a.reads | a.loads, b.writes) for a in grp[i] for b in grp[j]):
                grp[i] = [e for e in effs if e in grp[i] or e in grp[j]]
                del grp[j]
                i = -1
                break
        i += 1
    return grp


def refusals(E, effs):
    """All ways to stop with a message, as one action."""
    rs = [e for e in effs if e.text == 'refuse' and not e.sub]
    if not rs:
        return effs
    cl = {}
    for e in rs:
        alts = [[]]
        for l in flatlits(e.pc):
            ds, st = [], [l]
            while st:
                x = st.pop()
                if x[0] == 'op' and x[1] == '||' and len(x) == 4:
                    st += x[2:]
                else:
                    ds.append(x)
            alts = [a + [x] for a in alts for x in ds]
            if len(alts) > 200:
                alts = [flatlits(e.pc)]
                break
        for a in alts:
            g = guard(E, simpl(E, [y for x in a for y in flatlits([x])]))
            if g is not None:
                cl['&'.join(sorted(E.pr(x) for x in g))] = g
    sets = {k: {E.pr(x) for x in g} for k, g in cl.items()}
    cl = {k: g for k, g in cl.items() if not any(sets[j] < sets[k] for j in sets)}
    names = {}
    for g in cl.values():
        for l in g:
            names[min(E.pr(l), E.pr(E.neg(l)))] = l
    out = list(cl.values())
    if len(out) > 1 and len(names) <= GUARDMAX:
        t = None
        for k in sorted(cl):
            c = conj0(cl[k])
            t = c if t is None else ('op', '||', t, c)
        g = guard(E, [t])
        if g is None:
            out = []
        else:
            out = [g]
    res = []
    for g in out:
        m = Eff(g, 'refuse', set(), set(), terms=list(g))
        m.loads = E.readset(list(g))
        res.append(m)
    def doomed(e):
        # what is done on the way to stopping leaves no trace
        g = guard(E, simpl(E, flatlits(e.pc)))
        if g is None:
            return False
        s = {E.pr(x) for x in g}
        return any(k <= s for k in sets.values())
    return res + [e for e in effs if not (e.text == 'refuse' and not e.sub) and not doomed(e)]


def normal(E, effs):
    """Effects in a canonical order: independent ones sorted by text."""
    effs = refusals(E, effs)
    effs = pairs(E, [e for e in effs if e.text is not None or e.sub])
    fs = []
    for e in effs:
        f = Eff(e.pc, e.text, e.reads, e.writes, e.comm, e.sub, e.call, e.terms)
        f.loads, f.own, f.cell, f.val = e.loads, e.text, e.cell, e.val
        f.out = simpl(E, e.pc)
        g = guard(E, f.out)
        if g is None:
            continue
        f.out = g
        f.retext(E)
        fs.append(f)
    effs = fs
    keys = [f.text for f in fs]
    n = len(effs)
    dep = [set() for _ in range(n)]
    for j in range(n):
        for i in range(j):
            if depends(E, effs[i], effs[j]):
                dep[j].add(i)
    done, out = set(), []
    while len(out) < n:
        ready = [i for i in range(n) if i not in done and dep[i] <= done]
        i = min(ready, key=lambda i: keys[i])
        done.add(i)
        out.append(fs[i])
    return out


def hit(a, b):
    for x in a:
        for y in b:
            if x == y or x.startswith(y + '.') or y.startswith(x + '.'):
                return True
    return False


def flatten(effs, ind=0):
    out = []
    for e in effs:
        out.append('  ' * ind + e.text)
        if e.sub:
            out += flatten(e.sub, ind + 1)
    return out


