"""C21: every function that creates a matrix describes it completely.

For each function that returns a new matrix, a must-analysis over its paths computes, for every descriptive field of
the returned object, the set of values it may hold on return, following constructors and functions that fill the
object in.  The values, written in terms of the arguments, must be those of the reviewed table spec/ctor.json."""
import os, re, json
from core import walk, kids, show, N
from ownership import strip, isptr
from report import Report, Broken
from sym import Sym, ZERO, ALLOCS, isarr
from canon import Canon, META
from cfg import CFG
import modref, build

FIELDS = {
    'bml_matrix_dense_t': ['matrix_type', 'matrix_precision', 'distribution_mode', 'N', 'ld', 'domain', 'domain2'],
    'bml_matrix_ellpack_t': ['matrix_type', 'matrix_precision', 'distribution_mode', 'N', 'M', 'domain', 'domain2'],
    'bml_matrix_ellblock_t': ['matrix_type', 'matrix_precision', 'distribution_mode', 'N', 'M', 'NB', 'MB'],
    'bml_matrix_csr_t': ['matrix_type', 'matrix_precision', 'distribution_mode', 'N_', 'NZMAX_'],
    'bml_matrix_distributed2d_t': ['matrix_type', 'matrix_precision', 'N', 'M', 'n', 'comm', 'row_comm', 'col_comm', 'ntasks', 'nprows',
                                   'npcols', 'myprow', 'mypcol', 'mpitask', 'matrix'],
    'bml_domain_t': ['totalProcs', 'totalRows', 'totalCols', 'globalRowMin', 'globalRowMax', 'globalRowExtent'],
}
ACCESSOR = re.compile(r'^bml_get_(N|M|type|precision|distribution_mode)_(dense|ellpack|ellblock|csr|distributed2d)$')
SUFF = re.compile(r'_(single_real|double_real|single_complex|double_complex)$')
PRECV = {'single_real': '1', 'double_real': '2', 'single_complex': '3', 'double_complex': '4'}
TYPEV = {'dense': '1', 'ellpack': '2', 'ellblock': '3', 'csr': '4', 'distributed2d': '5'}


def rec_of(ty):
    m = re.match(r'(?:const )?(?:struct )?(bml_(?:matrix_\w+|domain)_t) \*', ty)
    return m.group(1) if m and m.group(1) in FIELDS else None


class Ctor:
    def __init__(self, P, M):
        self.P, self.M, self.memo, self.info = P, M, {}, {}

    def get(self, f):
        if f not in self.info:
            S = Sym(self.P, f, None, self.M)
            self.info[f] = (S, Canon(self.P, f, self.M, S), CFG(S.body))
        return self.info[f]

    def returned(self, f, rec, depth=0):
        """field -> set of canonical values of the object f returns"""
        k = ('ret', f)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {x: {'?rec'} for x in FIELDS[rec]}
        S, C, G = self.get(f)
        out = {x: set() for x in FIELDS[rec]}
        n = 0
        roots = {}
        for b in G.live:
            if b.ast is not None and b.kind == 'return' or b.ast is not None and b.ast.k == 'return':
                e = b.ast.c[0] if b.ast.k == 'return' else b.ast
                if e is None:
                    continue
                for p in S.val(e):
                    if p.root[0] == 'null':
                        continue
                    n += 1
                    if p.root[0] in ('call', 'alloc') and p.sels == (('i', ZERO),):
                        roots.setdefault(p.root[:2], p.root)
                        st = self.flow(f, p.root[:2], rec, depth)
                        for x in out:
                            out[x] |= self.after(f, b, st, p.root[:2], rec, depth).get(x, set())
                    else:
                        for x in out:
                            out[x].add('?' + C.path(p))
        # which object is returned depends on the path: unassigned states of objects not made on the path drop out
        if len(roots) > 1:
            for x in out:
                if len(out[x]) > 1:
                    out[x].discard('UNMADE')
        # dispatch on precision or type
        for fld, vals in (('matrix_precision', set(PRECV.values())), ('matrix_type', set(TYPEV.values()))):
            if fld in out and len(out[fld] & vals) > 1:
                sw = [x for x in walk(S.body) if x.k == 'switch']
                if sw:
                    out[fld] = (out[fld] - vals) | {C.expr(sw[0].c[0])}
        if not n:
            out = None
        self.memo[k] = out
        return out

    def fills(self, g, j, rec, depth):
        """field -> set of values parameter j's object holds after g ('KEEP' where unchanged)"""
        k = ('fill', g, j)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {x: {'KEEP'} for x in FIELDS[rec]}
        if not self.touches(g, j, rec):
            return self.memo[k]
        S, C, G = self.get(g)
        root = ('parm', g.params[j][1])
        st = self.flow(g, root, rec, depth, {x: frozenset(['KEEP']) for x in FIELDS[rec]})
        s = st.get(G.exit.id)
        if s is not None:
            self.memo[k] = {x: set(v) for x, v in s.items()}
        return self.memo[k]

    def touches(self, g, j, rec, depth=0):
        """May g store to a descriptive field of the object parameter j points to?"""
        k = ('touch', g, j)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        if depth > 8 or j >= len(g.params) or not isptr(g.params[j][2]):
            return False
        S = self.get(g)[0]
        pid = g.params[j][1]
        r = False
        for x in walk(S.body):
            if x.k == 'asg' or x.k == 'un' and x.a == '&':
                m = strip(x.c[0])
                if m.k == 'mem' and m.a[0] in FIELDS[rec]:
                    if any(p.root[:2] == ('parm', pid) and len(p.sels) == 2 and p.sels[0] == ('i', ZERO) for p in S.lval(m)):
                        r = True
                        break
            if x.k == 'call' and x.a:
                h = self.P.lookup(x.a[0], g)
                if h is None:
                    continue
                for i, a in enumerate(x.c[1:]):
                    if isptr(strip(a).ty) and any(p.root[:2] == ('parm', pid) and p.sels == (('i', ZERO),) for p in S.val(a)):
                        if self.touches(h, i, rec, depth + 1):
                            r = True
                            break
                if r:
                    break
        self.memo[k] = r
        return r

    def inst(self, vals, call, C):
        """Values in terms of a callee's parameters -> in terms of the caller."""
        args = call.c[1:]

        def one(v):
            def rep(m):
                j, fld = int(m.group(1)), m.group(2)
                if j >= len(args):
                    return '?arg'
                a = args[j]
                if fld and not isptr(strip(a).ty):
                    return C.expr(N('mem', call.line, 'int', (fld[1:], False), [a]))
                r = C.expr(a)
                return '(%s)%s' % (r, fld or '') if '+' in r and v.strip() != m.group(0) else r + (fld or '')
            r = re.sub(r'\$(\d+)(\.(?:N_rows|N_cols|N_nz_max))?', rep, v)
            return fold(r)
        return {one(v) for v in vals}

    def apply(self, f, b, s, root, rec, depth):
        """State after block b."""
        S, C, G = self.get(f)
        a = b.ast
        if a is None or b.kind in ('omp', 'ompend'):
            return s
        s = dict(s)
        for x in order(a):
            if x.k == 'call' and x.a:
                if root == ('alloc', id(x)):
                    s = {y: frozenset(['UNSET']) for y in s}
                    continue
                g = self.P.lookup(x.a[0], f)
                if root == ('call', id(x)):
                    r = self.returned(g, rec, depth + 1) if g is not None and depth < 8 else None
                    for y in s:
                        s[y] = frozenset(self.inst(r[y], x, C)) if r is not None else frozenset(['?' + x.a[0]])
                    continue
                for j, e in enumerate(x.c[1:]):
                    e = strip(e)
                    if e.k == 'un' and e.a == '&' and strip(e.c[0]).k == 'mem':
                        for p in S.lval(e.c[0]):
                            if p.root[:2] == root and len(p.sels) == 2 and p.sels[1][1] in s:
                                s[p.sels[1][1]] = frozenset(['set by ' + x.a[0]])
                        continue
                    if not isptr(e.ty):
                        continue
                    ps = S.val(e)
                    if any(p.root[:2] == root and p.sels == (('i', ZERO),) for p in ps):
                        if g is not None and depth < 8:
                            r = self.fills(g, j, rec, depth + 1)
                            for y in s:
                                new = set()
                                for v in r[y]:
                                    if v == 'KEEP':
                                        new |= s[y]
                                    else:
                                        new |= self.inst({v}, x, C)
                                s[y] = frozenset(new)
                    elif x.a[0] == 'bml_copy_domain' and j == 1 and len(ps) == 1 and ps[0].root[:2] == root and ps[0].fields()[-1:] and ps[0].fields()[-1] in s:
                        s[ps[0].fields()[-1]] = frozenset(['copy of ' + C.expr(x.c[1])])
            elif x.k == 'asg' or x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')):
                m = strip(x.c[0])
                if m.k == 'mem' and m.a[0] in s:
                    for p in S.lval(m):
                        if p.root[:2] == root and len(p.sels) == 2 and p.sels[1] == ('f', m.a[0]):
                            C.this = root
                            v = C.expr(x.c[1]) if x.k == 'asg' and x.a == '=' else '?updated'
                            C.this = None
                            s[m.a[0]] = frozenset(self.resolve(v, s))
        return s

    def resolve(self, v, s):
        """Fields of the object itself replaced by the values they hold."""
        vs = {v}
        for y in s:
            for tok in ['this.' + y] + (['%s(this)' % META[y]] if y in META else []):
                if any(tok in w for w in vs):
                    vs = {re.sub(re.escape(tok) + r'(?!\w)', lambda m: z, w) for w in vs for z in (s[y] if len(s[y]) == 1 else [tok])}
        return {'+'.join(t for t in w.split('+') if t not in ('0', '-1*0')) or '0' if re.match(r'^[\w$.*+-]+$', w) else w for w in vs}

    def flow(self, f, root, rec, depth, init=None):
        k = ('flow', f, root)
        if k in self.memo:
            return self.memo[k]
        S, C, G = self.get(f)
        st = {G.entry.id: init or {x: frozenset(['UNMADE']) for x in FIELDS[rec]}}
        for b in G.rpo() * 3:
            if b is not G.entry:
                ins = []
                for p, _ in b.pred:
                    if p.id in st and p.kind != 'fatal':
                        ins.append(self.out(f, p, st[p.id], root, rec, depth))
                if not ins:
                    continue
                st[b.id] = {x: frozenset().union(*[i[x] for i in ins]) for x in ins[0]}
        self.memo[k] = st
        return st

    def out(self, f, b, s, root, rec, depth):
        k = ('out', f, root, b.id, tuple(sorted((x, v) for x, v in s.items())) if False else frozenset(s.items()))
        if k not in self.memo:
            self.memo[k] = self.apply(f, b, s, root, rec, depth)
        return self.memo[k]

    def after(self, f, b, st, root, rec, depth):
        if b.id not in st:
            return {}
        return self.out(f, b, st[b.id], root, rec, depth)


def order(n):
    """Nodes in evaluation order: operands before the operation."""
    for c in kids(n):
        yield from order(c)
    yield n


def fold(r):
    """Metadata of a parameter read through a constructor chain."""
    return r


def norm(f, rec, fld, vals):
    m = SUFF.search(f.name)
    same = {i for i, p in enumerate(f.params) if rec_of(p[2]) == rec}
    out = set()
    for v in vals:
        if fld == 'matrix_precision' and m and v == PRECV[m.group(1)]:
            v = 'ELEMENT TYPE'
        if fld == 'matrix_precision':
            v = re.sub(r'^precision\(\$(\d+)\.matrix\)$', r'precision($\1)', v)
            k = re.match(r'^precision\(\$(\d+)\)$', v)
            if k and m and int(k.group(1)) in same:
                v = 'ELEMENT TYPE'
        if fld == 'matrix_type':
            k = re.match(r'^type\(\$(\d+)\)$', v)
            t = re.match(r'bml_matrix_(\w+)_t', rec)
            if t and (v == TYPEV[t.group(1)] or k and int(k.group(1)) in same):
                v = 'FORMAT'
        if fld == 'matrix':
            v = re.sub(r'\(.*', '', v)
        out.add(re.sub(r'_(single|double)_(real|complex)\b', '', v))
    return sorted(out)


def collect(P):
    M = modref.ModRef(P)
    K = Ctor(P, M)
    for f in sorted(P.top(), key=lambda f: f.name):
        rec = rec_of(f.ret or '')
        if rec is None:
            continue
        r = K.returned(f, rec)
        if r is None:
            continue
        yield f, rec, {x: norm(f, rec, x, v) for x, v in r.items()}


def accessors(P):
    M = modref.ModRef(P)
    for f in sorted(P.top(), key=lambda f: f.name):
        if ACCESSOR.match(f.name):
            C = Canon(P, f, M)
            v = {C.expr(x.c[0]) for x in walk(C.S.body) if x.k == 'return' and x.c and x.c[0] is not None}
            yield f, sorted(v)


def domain_copy(P, R, cfg):
    f = P.lookup('bml_copy_domain', None)
    if f is None:
        raise Broken('bml_copy_domain not found')
    C = Canon(P, f, modref.ModRef(P))
    G = CFG(C.S.body)
    dom = G.dominators()
    got = set()
    for b in G.live:
        if b.ast is None:
            continue
        for x in walk(b.ast):
            if x.k == 'call' and x.a and x.a[0] in ('memcpy', 'memmove') and b.id in dom[G.exit.id]:
                d, s, n = [C.expr(a) for a in x.c[1:4]]
                m = re.match(r'^\$1\.(\w+)$', d)
                if m and s == '$0.' + m.group(1) and n in ('4*bml_getNRanks()', '4*$0.totalProcs', '4*$1.totalProcs'):
                    got.add(m.group(1))
            if x.k == 'asg' and x.a == '=' and strip(x.c[0]).k == 'idx' and b.loops:
                m = re.match(r'^\$1\.(\w+)\[(.*)\]$', C.node(x.c[0]))
                if m and C.expr(x.c[1]) == '$0.%s[%s]' % m.groups():
                    got.add(m.group(1))
    for name, ty in P.recs['bml_domain_t']:
        if '*' in ty:
            R.count('domain_arrays')
            if name not in got:
                R.viol('bml_copy_domain:' + name, 'bml_copy_domain (src/%s:%d): array `%s` of the domain is not copied for every rank [configuration %s]' %
                       (f.file, f.line, name, cfg))


def spec():
    with open(os.path.join(build.VERIF, 'spec', 'ctor.json')) as fh:
        return json.load(fh)


def run(progs):
    R = Report('C21', __doc__.strip())
    T = spec()
    for cfg, P in progs.items():
        for f, rec, vals in collect(P):
            base = SUFF.sub('', f.name)
            t = T.get(base + ('#typed' if SUFF.search(f.name) else ''))
            if t is None:
                R.count('constructors_not_in_table')
                continue
            R.count('constructors')
            for x in FIELDS[rec]:
                if x not in t:
                    continue
                R.count('fields')
                if vals[x] != t[x]:
                    R.viol('%s:%s' % (base, x), '%s (src/%s:%d): field `%s` of the matrix it returns is %s; expected %s [configuration %s]' %
                           (f.name, f.file, f.line, x, ' or '.join(vals[x]) or 'never set', ' or '.join(t[x]), cfg))
            if len(R.samples) < 12:
                R.sample('%s: %s' % (f.name, vals))
        for f, v in accessors(P):
            if f.name in T:
                R.count('accessors')
                if v != T[f.name]:
                    R.viol(f.name, '%s (src/%s:%d) returns %s; expected %s [configuration %s]' % (f.name, f.file, f.line, ' or '.join(v), ' or '.join(T[f.name]), cfg))
        domain_copy(P, R, cfg)
    R.floor('constructors', 300)
    R.floor('accessors', 30)
    R.floor('domain_arrays', 10)
    R.floor('fields', 1500)
    return R
