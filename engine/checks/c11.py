"""C11: element sizes match the data they describe.

Every expression that turns a number of elements into a number of bytes (allocation, copy, clear, sort), every message
datatype, every step on an untyped pointer and every change of a pointer's element type is compared, in the resolved
types of every element-type variant, with the type of the elements stored there."""
import re
from core import walk, kids, show, N
from ownership import strip
from sym import Sym
from report import Report

PREC = re.compile(r'_(single|double)_(real|complex)\b')
ELEM = {('single', 'real'): 'float', ('double', 'real'): 'double', ('single', 'complex'): '_Complex float', ('double', 'complex'): '_Complex double'}
SIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'long': 8, 'unsigned long': 8,
        'double': 8, '_Complex float': 8, '_Complex double': 16, 'long long': 8, 'unsigned long long': 8}
STORAGE = {'value', 'matrix', 'vals_', 'ptr_value', 'memory_pool', 'memory_pool_ptr'}
# function: (buffers, byte count, element counts that multiply it)
BYTES = {'memcpy': ((0, 1), (2,)), 'memmove': ((0, 1), (2,)), 'memset': ((0,), (2,)), 'qsort': ((0,), (2,)), 'bsearch': ((1,), (3,))}
ALLOC = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,), 'bml_allocate_memory': (0,), 'bml_noinit_allocate_memory': (0,),
         'bml_reallocate_memory': (1,)}
MPIBUF = {'MPI_Send': ((0, 2),), 'MPI_Recv': ((0, 2),), 'MPI_Isend': ((0, 2),), 'MPI_Irecv': ((0, 2),), 'MPI_Bcast': ((0, 2),),
          'MPI_Allreduce': ((0, 3), (1, 3)), 'MPI_Reduce': ((0, 3), (1, 3)), 'MPI_Allgather': ((0, 2), (3, 5)), 'MPI_Allgatherv': ((0, 2), (3, 6)),
          'MPI_Gather': ((0, 2), (3, 5)), 'MPI_Scatter': ((0, 2), (3, 5)), 'MPI_Sendrecv': ((0, 2), (5, 7))}
MPITYPE = {'ompi_mpi_int': 4, 'ompi_mpi_float': 4, 'ompi_mpi_double': 8, 'ompi_mpi_char': 1, 'ompi_mpi_byte': 1, 'ompi_mpi_c_float_complex': 8,
           'ompi_mpi_c_complex': 8, 'ompi_mpi_c_double_complex': 16, 'ompi_mpi_cplex': 8, 'ompi_mpi_dblcplex': 16, 'ompi_mpi_long': 8,
           'ompi_mpi_unsigned': 4, 'ompi_mpi_complex': 8}


def plain(t):
    return re.sub(r'\b(const|volatile|restrict|__restrict)\b', '', t).replace('struct ', '').strip().replace('  ', ' ')


def size(t):
    """Size of a type, or its name when it is a structure."""
    t = plain(t)
    if t.endswith('*'):
        return 8
    m = re.match(r'(.*?)\s*\[\d*\]$', t)
    return SIZE.get(t, t)


def pointee(t):
    t = plain(t)
    m = re.match(r'(.*?)\s*\[[^\[\]]*\]$', t)
    if m:
        return m.group(1).strip()
    return t[:-1].strip() if t.endswith('*') else None


def variant(f):
    """(precision, kind) of the elements a function is compiled for."""
    m = PREC.search(f.name)
    if m:
        return m.groups()
    t = tuple((f.tag or '').lower().split('_'))
    return t if t in ELEM else (None, None)


class Fun:
    def __init__(self, P, f, rep):
        self.P, self.f, self.rep = P, f, rep
        self.S = Sym(P, f, None, None)
        self.T = ELEM.get(variant(f))
        self.bad = []

    def single(self, e):
        d = self.S.single(e)
        return d

    def elem(self, e, depth=0):
        """Type of the elements the pointer e addresses; None when the source does not say."""
        e = strip(e)
        t = plain(e.ty)
        p = pointee(t)
        if p is not None and p != 'void':
            if e.k == 'un' and e.a == '&':
                return p
            return p
        if depth > 6:
            return None
        if e.k == 'un' and e.a == '&':
            return plain(strip(e.c[0]).ty)
        if e.k == 'bin' and e.a in ('+', '-'):
            for c in e.c:
                if pointee(c.ty):
                    return self.elem(c, depth + 1)
        if e.k == 'cond':
            r = {self.elem(c, depth + 1) for c in e.c[1:]} - {None}
            return r.pop() if len(r) == 1 else None
        if e.k == 'idx':
            b = strip(e.c[0])
            if b.k == 'mem' and b.a[0] in STORAGE:
                return self.T
        if e.k == 'mem' and e.a[0] in STORAGE:
            return self.T if e.a[0] not in ('ptr_value',) else 'void *'
        if e.k == 'ref':
            d = self.single(e)
            if d is not None:
                return self.elem(d, depth + 1)
        return None

    def sizes(self, e, depth=0):
        """sizeof factors of a byte count: [(size, type)] per term of the sum, or None."""
        e = strip(e)
        if e.k == 'sizeof':
            return [[(e.a[1], plain(e.a[0]))]]
        if e.k == 'bin' and e.a == '*':
            a, b = self.sizes(e.c[0], depth), self.sizes(e.c[1], depth)
            return [x + y for x in a for y in b]
        if e.k == 'bin' and e.a in ('+', '-'):
            return self.sizes(e.c[0], depth) + self.sizes(e.c[1], depth)
        if e.k == 'cond':
            return self.sizes(e.c[1], depth) + self.sizes(e.c[2], depth)
        if e.k == 'ref' and depth < 6:
            d = self.single(e)
            if d is not None:
                return self.sizes(d, depth + 1)
        return [[]]

    def key(self, x):
        t = re.sub(r'\b(float|double|_Complex|complex)\b', 'T', show(x))
        return '%s:%s' % (PREC.sub('', self.f.name), PREC.sub('', re.sub(r'(T ?)+', 'T', t))[:90])

    def viol(self, x, why):
        self.rep.viol(self.key(x), '%s (%s:%d): `%s` %s' % (self.f.name, self.f.main, x.line, show(x)[:110], why))

    def agree(self, x, e, args, what):
        """The byte count of call x (the product of args) is a number of elements of type e."""
        rep = self.rep
        if e is None:
            rep.count('untyped_buffers')
            return
        want = size(e)
        prod = [[]]
        for a in args:
            prod = [p + q for p in prod for q in self.sizes(a)]
        for fs in prod:
            rep.count('byte_counts')
            if not fs:
                if want == 1:
                    continue
                v = strip(args[-1])
                if v.k == 'ref' and v.a[1] in self.S.params and self.single(v) is None:
                    rep.count('counts_chosen_by_callers')
                    continue
                if v.k == 'int' and v.a == 0:
                    continue
                self.viol(x, 'counts bytes without the size of the %s elements of %s' % (e, what))
                return
            got = [size(t) for _, t in fs]
            if got.count(want) != 1 or len(got) != 1:
                self.viol(x, 'counts elements of %s; %s holds elements of type %s' % (' times '.join(t for _, t in fs), what, e))
                return

    def run(self):
        rep, P, f = self.rep, self.P, self.f
        rep.count('functions')
        par = {}
        body = f.body

        def up(n):
            for c in kids(n):
                par[id(c)] = n
                up(c)
            if n.k == 'decl':
                for v in n.a:
                    if v.init is not None:
                        par[id(v.init)] = v
                        up(v.init)
        up(body)
        for x in walk(body):
            if x.k == 'call' and x.a:
                nm = x.a[0]
                a = x.c[1:]
                if nm in BYTES:
                    bufs, cnt = BYTES[nm]
                    for b in bufs:
                        self.agree(x, self.elem(a[b]), [a[i] for i in cnt], '`%s`' % show(strip(a[b]))[:50])
                elif nm in ALLOC:
                    t, y = None, x
                    while True:
                        p = par.get(id(y))
                        if p is None:
                            break
                        if not isinstance(p, N):
                            t = p.ty
                            break
                        if p.k in ('cast', 'paren'):
                            if p.k == 'cast' and pointee(p.ty) not in (None, 'void'):
                                t = p.ty
                            y = p
                            continue
                        if p.k == 'asg':
                            l = strip(p.c[0])
                            e = self.elem(l) if pointee(l.ty) == 'void' and l.k in ('mem', 'idx') else pointee(l.ty)
                            t = None if e is None or e == 'void' else e + ' *'
                        break
                    e = pointee(t) if t is not None else None
                    self.agree(x, None if e == 'void' else e, [a[i] for i in ALLOC[nm]], 'the buffer')
                elif nm in MPIBUF:
                    for b, d in MPIBUF[nm]:
                        self.message(x, a[b], a[d], a[d - 1])
                elif nm == 'MPI_Type_create_struct':
                    self.composed(x)
            elif x.k == 'bin' and x.a in ('+', '-') and pointee(x.ty) == 'void':
                rep.count('untyped_steps')
                o = [c for c in x.c if pointee(c.ty) is None]
                if o and any(not fs for fs in self.sizes(o[0])):
                    self.viol(x, 'steps by bytes, not by elements')
            elif x.k == 'bin' and x.a in ('+', '-') and pointee(x.ty) in SIZE and SIZE[pointee(x.ty)] == 1:
                b = [c for c in x.c if pointee(c.ty)]
                o = [c for c in x.c if pointee(c.ty) is None]
                e = self.elem(b[0]) if b else None
                if e not in (None, 'void') and size(e) != 1 and o:
                    self.agree(x, e, o, 'the buffer')
            elif x.k == 'idx' and pointee(x.c[0].ty) == 'void':
                self.viol(x, 'indexes bytes, not elements')
            elif x.k == 'cast' and x.a and x.a[1]:
                p = pointee(x.ty)
                if p is None or p == 'void' or p.startswith('ompi_'):
                    continue
                e = self.elem(x.c[0])
                if e is None or e == 'void':
                    rep.count('casts_of_untyped_pointers')
                    continue
                rep.count('pointer_conversions')
                if size(p) != size(e) and 1 not in (size(p), size(e)):
                    self.viol(x, 'treats elements of type %s as elements of type %s' % (e, p))
            # elements addressed through a scalar's address
        return self

    def slots(self, arr, what):
        """{index: expression} stored in a local array (or the scalar whose address is passed), None when not readable."""
        arr = strip(arr)
        if arr.k == 'un' and arr.a == '&':
            arr = strip(arr.c[0])
        if arr.k != 'ref':
            return None
        out = {}
        for x in walk(self.f.body):
            if x.k == 'decl':
                for v in x.a:
                    if v.id == arr.a[1] and v.init is not None:
                        for i, c in enumerate(v.init.c if v.init.k == 'init' else [v.init]):
                            out.setdefault(i, []).append(c)
            elif x.k == 'asg' and x.a == '=':
                l = strip(x.c[0])
                if l.k == 'ref' and l.a[1] == arr.a[1]:
                    out.setdefault(0, []).append(x.c[1])
                elif l.k == 'idx' and strip(l.c[0]).k == 'ref' and strip(l.c[0]).a[1] == arr.a[1]:
                    i = strip(l.c[1])
                    if i.k != 'int':
                        return None
                    out.setdefault(i.a, []).append(x.c[1])
            elif x.k == 'call' and x.a and x.a[0] == 'MPI_Get_address' and what == 'addr':
                t = strip(x.c[2])
                t = strip(t.c[0]) if t.k == 'un' and t.a == '&' else t
                if t.k == 'idx' and strip(t.c[0]).k == 'ref' and strip(t.c[0]).a[1] == arr.a[1] and strip(t.c[1]).k == 'int':
                    out.setdefault(strip(t.c[1]).a, []).append(x.c[1])
                elif t.k == 'ref' and t.a[1] == arr.a[1]:
                    out.setdefault(0, []).append(x.c[1])
        return out

    def composed(self, x):
        """Each part of a composed message type has the type of the buffer its displacement is taken from."""
        a = x.c[1:]
        types, displ = self.slots(a[3], 'type'), self.slots(a[2], 'addr')
        addr = {}
        for y in walk(self.f.body):
            if y.k == 'call' and y.a and y.a[0] == 'MPI_Get_address':
                t = strip(y.c[2])
                t = strip(t.c[0]) if t.k == 'un' and t.a == '&' else t
                if t.k == 'ref':
                    addr.setdefault(t.a[1], []).append(y.c[1])
        if not types or not displ:
            self.rep.count('composed_types_not_read')
            return
        for i, ts in sorted(types.items()):
            bufs = []
            for e in displ.get(i, ()):
                e = strip(e)
                if pointee(e.ty) is not None:
                    bufs.append(e)
                for y in walk(e):
                    if y.k == 'ref' and y.a[1] in addr:
                        bufs += [b for b in addr[y.a[1]] if isinstance(size(self.elem(b) or 'void'), int)]
            for b in bufs:
                for t in ts:
                    self.message(x, b, t)

    def message(self, x, b, d, n=None):
        rep = self.rep
        d = strip(d)
        if d.k == 'un' and d.a == '&':
            d = strip(d.c[0])
        if d.k == 'ref' and d.a[0] not in MPITYPE:
            v = self.single(d)
            if v is not None:
                return self.message(x, b, v, n)
        e = self.elem(b)
        if strip(b).k == 'int':
            rep.count('messages_in_place')
            return
        if d.k != 'ref' or d.a[0] not in MPITYPE or e is None:
            rep.count('messages_of_composed_types')
            return
        rep.count('messages')
        if d.a[0] == 'ompi_mpi_byte' and n is not None and not pointee(n.ty):
            self.agree(x, e, [n], '`%s`' % show(strip(b))[:50])
        elif size(e) != MPITYPE[d.a[0]]:
            self.viol(x, 'sends elements of type %s as %s' % (e, d.a[0]))


def run(progs):
    rep = Report('C11', __doc__.strip())
    for cfg, P in progs.items():
        for f in P.fns.values():
            Fun(P, f, rep).run()
    rep.floor('byte_counts', 600)
    rep.floor('pointer_conversions', 800)
    rep.floor('messages', 100)
    rep.assume.append('untyped storage of a matrix (value, matrix, vals_, ptr_value) holds elements of the type named in the function working on it')
    return rep
