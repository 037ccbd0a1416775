"""Interprocedural modification summaries: which pointer parameters' memory a function may write, and which
parameters the returned pointer may point into."""
from core import walk, kids
from ownership import strip
from cfg import CFG

ALLARGS = 'all'
EXT = {
    'memcpy': {0}, 'memset': {0}, 'memmove': {0}, 'strncpy': {0}, 'strcpy': {0}, 'snprintf': {0}, 'sprintf': {0}, 'strcat': {0},
    'fgets': {0}, 'fread': {0}, 'qsort': {0}, 'free': {0}, 'realloc': {0}, 'posix_memalign': {0},
    'omp_init_lock': {0}, 'omp_set_lock': set(), 'omp_unset_lock': set(), 'omp_destroy_lock': {0},
    'MPI_Recv': {0, 6}, 'MPI_Irecv': {0, 6}, 'MPI_Isend': {6}, 'MPI_Bcast': {0}, 'MPI_Allreduce': {1}, 'MPI_Reduce': {1},
    'MPI_Allgather': {3}, 'MPI_Allgatherv': {3}, 'MPI_Gather': {3}, 'MPI_Scatter': {3}, 'MPI_Alltoall': {3},
    'MPI_Comm_rank': {1}, 'MPI_Comm_size': {1}, 'MPI_Comm_split': {3}, 'MPI_Comm_dup': {1}, 'MPI_Cart_create': {5}, 'MPI_Cart_coords': {3},
    'MPI_Cart_shift': {3, 4}, 'MPI_Wait': {0, 1}, 'MPI_Waitall': {1, 2}, 'MPI_Get_address': {1}, 'MPI_Type_create_struct': {4},
    'MPI_Type_commit': {0}, 'MPI_Type_free': {0}, 'MPI_Comm_free': {0}, 'MPI_Sendrecv': {5, 11}, 'MPI_Sendrecv_replace': {0},
    'Cblacs_gridinit': {0}, 'Cblacs_gridinfo': {1, 2, 3, 4},
}
RETALIAS = {'memcpy': {0}, 'memset': {0}, 'realloc': {0}, 'strncpy': {0}, 'memmove': {0}}


def ext_mods(nm, nargs):
    if nm in EXT:
        return EXT[nm]
    if nm in ('fscanf', 'sscanf', 'scanf'):
        return set(range(2 if nm != 'scanf' else 1, nargs))
    if nm.endswith('_'):
        b = nm.rstrip('_')
        p = b.startswith('p')
        s = b[2:] if p else b[1:]
        t = {'gemm': {11}, 'axpy': {4}, 'scal': {2}, 'getrf': {2, 4, 5}, 'getri': {1, 4, 6}, 'lacpy': {5}, 'copy': {3},
             'syev': {3, 5, 6, 8}, 'syevd': {3, 5, 6, 8, 10}, 'heevr': {4, 11, 12, 13, 15, 16, 18, 20, 22}}.get(s)
        if p and s in ('syevd', 'heevd'):
            return {3, 7, 8} | set(range(12, nargs))
        if t is not None:
            return t
    return set()


def handle(ty):
    """Opaque MPI handles: copied like numbers."""
    return 'ompi_' in ty or 'MPI_' in ty


def isarr(ty):
    return ty.rstrip().endswith(']')


def webs(f):
    """Pointer locals assigned more than once: reference -> name of the definition web it belongs to."""
    n = {}
    addr = set()
    for p in f.params:
        if '*' in p[2]:
            n[p[1]] = 1
    for x in walk(f.body):
        if x.k == 'decl':
            for v in x.a:
                if v.init is not None and v.ty.endswith('*') and v.storage == 'auto':
                    n[v.id] = n.get(v.id, 0) + 1
        elif x.k == 'asg' and x.a == '=' and x.c[0].k == 'ref' and x.c[0].ty.endswith('*') and x.c[0].a[2] in ('var', 'param'):
            n[x.c[0].a[1]] = n.get(x.c[0].a[1], 0) + 1
        elif x.k == 'un' and x.a == '&' and strip(x.c[0]).k == 'ref':
            addr.add(strip(x.c[0]).a[1])
    multi = {i for i, k in n.items() if k > 1 and i not in addr}
    if not multi:
        return {}
    cfg = CFG(f.body)
    out = {}
    parent = {}

    def find(a):
        while parent.get(a, a) != a:
            a = parent[a]
        return a

    def defs_uses(b):
        d, u = [], []
        if b.ast is None or b.kind in ('omp', 'ompend'):
            return d, u
        for x in walk(b.ast):
            if x.k == 'decl':
                for v in x.a:
                    if v.id in multi:
                        d.append((v.id, ('d', v.id, id(x))))
            elif x.k == 'asg' and x.a == '=' and x.c[0].k == 'ref' and x.c[0].a[1] in multi:
                d.append((x.c[0].a[1], id(x.c[0])))
        dd = {k for _, k in d}
        for x in walk(b.ast):
            if x.k == 'ref' and x.a[1] in multi and id(x) not in dd:
                u.append(x)
        return d, u
    du = {b: defs_uses(b) for b in cfg.live}
    inn = {b: {} for b in cfg.live}
    inn[cfg.entry] = {p[1]: frozenset([('p', p[1])]) for p in f.params if p[1] in multi}
    work = [cfg.entry]
    seen = set()
    while work:
        b = work.pop()
        seen.add(b)
        o = dict(inn[b])
        for v, k in du[b][0]:
            o[v] = frozenset([k])
        for s, _ in b.succ:
            if s not in inn:
                continue
            ch = s not in seen
            t = inn[s]
            for v, ks in o.items():
                w = t.get(v, frozenset()) | ks
                if w != t.get(v):
                    t[v] = w
                    ch = True
            if ch:
                work.append(s)
    for b in cfg.live:
        d, u = du[b]
        for x in u:
            ks = sorted(inn[b].get(x.a[1], frozenset()) | {k for v, k in d if v == x.a[1]}, key=str)
            for k in ks[1:]:
                parent[find(ks[0])] = find(k)
            if ks:
                out[id(x)] = ks[0]
        for v, k in d:
            out.setdefault(k, k)
    res = {}
    for r, k in out.items():
        w = find(k)
        res[r] = w if not (isinstance(w, tuple) and w[0] == 'p') else w[1]
    # the web holding the parameter keeps the parameter's own id
    pw = {find(('p', p[1])): p[1] for p in f.params if p[1] in multi}
    for r in res:
        w = find(out[r])
        res[r] = pw.get(w, ('web', str(w)))
    return res


class ModRef:
    def __init__(self, P):
        self.P = P
        self.mods, self.ret, self.where, self.links = {}, {}, {}, {}
        self.data, self.web = {}, {}
        for f in P.fns.values():
            self.data[f] = self.collect(f)
            self.mods[f] = set()
            self.ret[f] = set()
            self.links[f] = set()
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if self.step(f):
                    ch = True

    def collect(self, f):
        asg, writes, calls, rets, funcs = [], [], [], [], []
        self.web.update(webs(f))
        for x in walk(f.body):
            if x.k == 'decl':
                for v in x.a:
                    if v.init is not None:
                        asg.append((self.web.get(('d', v.id, id(x)), v.id), v.init))
            elif x.k == 'asg':
                if x.c[0].k == 'ref':
                    asg.append((self.key(x.c[0]), x.c[1]))
                else:
                    writes.append((x.c[0], x))
                    b = self.objbase(x.c[0])
                    if b is not None:              # element of a local aggregate
                        asg.append((b, x.c[1]))
                    elif '*' in x.c[0].ty or x.c[0].ty.startswith('struct'):         # pointer stored into an object reached through a variable
                        b = self.ptrbase(x.c[0])
                        if b is not None:
                            asg.append((b, x.c[1]))
            elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')):
                if x.c[0].k != 'ref':
                    writes.append((x.c[0], x))
            elif x.k == 'call':
                calls.append(x)
            elif x.k == 'return' and x.c and x.c[0] is not None:
                rets.append(x.c[0])
            elif x.k == 'ref' and x.a[2] == 'func':
                funcs.append(x.a[0])
        direct = {c.a[0] for c in calls if c.a}
        indirect = [n for n in funcs if n not in direct]
        return asg, writes, calls, rets, indirect

    def objbase(self, n):
        """Local variable whose own storage the lvalue lies in, or None when it goes through a pointer."""
        n = strip(n)
        while True:
            if n.k == 'ref':
                return n.a[1] if n.a[2] == 'var' else None
            if n.k == 'mem':
                if n.a[1]:
                    return None
                n = strip(n.c[0])
            elif n.k == 'idx':
                b = strip(n.c[0])
                if not isarr(b.ty):
                    return None
                n = b
            else:
                return None

    def key(self, n):
        return self.web.get(id(n), n.a[1])

    def ptrbase(self, n):
        """The variable through which the lvalue is reached."""
        n = strip(n)
        while n.k in ('mem', 'idx') or n.k == 'un' and n.a in ('*', '&') or n.k == 'bin':
            n = strip(n.c[0])
        return self.key(n) if n.k == 'ref' and n.a[2] != 'func' else None

    def env(self, f):
        asg = self.data[f][0]
        par = {p[1]: i for i, p in enumerate(f.params)}
        env = {i: {j} for i, j in par.items()}
        ch = True
        while ch:
            ch = False
            for i, e in asg:
                r = self.roots(e, env, f)
                if not r <= env.get(i, set()):
                    env[i] = env.get(i, set()) | r
                    ch = True
            for c in self.data[f][2]:
                for g in self.callees(c, f):
                    if isinstance(g, str):
                        ls = [(1, 0)] if g in ('memcpy', 'memmove') and len(c.c) > 2 and self.holds_pointers(c.c[2]) else []
                    else:
                        ls = self.links[g]
                    for a, b in ls:
                        if not isinstance(a, str) and a + 1 >= len(c.c) or b + 1 >= len(c.c):
                            continue
                        v = self.ptrbase(c.c[1 + b])
                        r = {a} if isinstance(a, str) else self.roots(c.c[1 + a], env, f)
                        if v is not None and not r <= env.get(v, set()):
                            env[v] = env.get(v, set()) | r
                            ch = True
        return env

    def holds_pointers(self, n):
        """Does the pointer expression address memory that itself stores pointers?"""
        t = strip(n).ty.rstrip()
        t = t[:-1].rstrip() if t.endswith('*') else t.split('[')[0].rstrip()
        if t.endswith('*'):
            return True
        if t.startswith('struct '):
            return any('*' in fl[1] for fl in self.P.recs.get(t[7:], []))
        return False

    def roots(self, n, env, f):
        n = strip(n)
        if n is None:
            return set()
        k = n.k
        if k == 'ref':
            if n.a[2] in ('global', 'slocal'):
                return {'static ' + n.a[0]} if (n.ty.endswith('*') or isarr(n.ty) or n.ty.startswith('struct')) and \
                    not handle(n.ty) else set()
            return env.get(self.key(n), set())
        if k in ('mem', 'idx'):
            if not (n.ty.endswith('*') or isarr(n.ty) or '*' in n.ty):
                # a scalar read: no pointer
                if not n.ty.startswith('struct'):
                    return set()
            return self.roots(n.c[0], env, f)
        if k == 'un':
            if n.a == '*':
                return self.roots(n.c[0], env, f)
            if n.a == '&':
                return self.lroots(n.c[0], env, f)
            return set()
        if k == 'bin':
            if not (n.ty.endswith('*') or isarr(n.ty)):
                return set()
            if n.a in ('+', '-'):
                # only the pointer operand of pointer arithmetic points anywhere
                return set().union(*[self.roots(x, env, f) for x in n.c if x.ty.endswith('*') or isarr(x.ty)])
            return self.roots(n.c[0], env, f) | self.roots(n.c[1], env, f)
        if k == 'cond':
            return self.roots(n.c[1], env, f) | self.roots(n.c[2], env, f)
        if k == 'asg':
            return self.roots(n.c[1], env, f)
        if k == 'call':
            if not n.ty.endswith('*'):
                return set()
            r = set()
            for ps in self.callees(n, f):
                rr = self.ret[ps] if not isinstance(ps, str) else RETALIAS.get(ps, set())
                for j in rr:
                    if isinstance(j, str):
                        r.add(j)
                    elif j + 1 < len(n.c):
                        r |= self.roots(n.c[1 + j], env, f)
            return r
        r = set()
        if k == 'init' or k == 'initlist' or k not in ('int', 'float', 'str', 'enum', 'sizeof', 'imag'):
            for c in kids(n):
                r |= self.roots(c, env, f)
        return r

    def lroots(self, n, env, f):
        """Roots of the address of lvalue n."""
        n = strip(n)
        if n.k == 'ref':
            if n.a[2] in ('global', 'slocal'):
                return {'static ' + n.a[0]} if not handle(n.ty) else set()
            return env.get(self.key(n), set())
        if n.k == 'mem':
            return self.roots(n.c[0], env, f) if n.a[1] else self.lroots(n.c[0], env, f)
        if n.k in ('idx',):
            return self.roots(n.c[0], env, f)
        if n.k == 'un' and n.a == '*':
            return self.roots(n.c[0], env, f)
        return set()

    def callees(self, c, f):
        if c.a:
            g = self.P.lookup(c.a[0], f)
            return [g] if g is not None else [c.a[0]]
        out = []
        for nm in self.data[f][4]:
            g = self.P.lookup(nm, f)
            if g is not None and len(g.params) == len(c.c) - 1:
                out.append(g)
        return out

    def step(self, f):
        asg, writes, calls, rets, ind = self.data[f]
        env = self.env(f)
        m, r = set(), set()
        wh = self.where.setdefault(f, {})

        def add(s, x):
            for i in s:
                if i not in wh:
                    wh[i] = x
            m.update(s)
        for lv, x in writes:
            if self.objbase(lv) is not None:
                continue
            add(self.lroots(lv, env, f), x)
        for c in calls:
            for g in self.callees(c, f):
                ms = ext_mods(g, len(c.c) - 1) if isinstance(g, str) else self.mods[g]
                for j in ms:
                    if not isinstance(j, str) and j + 1 < len(c.c):
                        add(self.roots(c.c[1 + j], env, f), c)
        for e in rets:
            if f.ret.endswith('*'):
                r |= self.roots(e, env, f)
        old = (len(self.mods[f]), len(self.ret[f]), len(self.links[f]))
        self.mods[f] |= m
        self.ret[f] |= r
        for j, p in enumerate(f.params):
            self.links[f] |= {(i, j) for i in env.get(p[1], ()) if i != j}
        return (len(self.mods[f]), len(self.ret[f]), len(self.links[f])) != old
