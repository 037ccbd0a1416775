"""C16: every access to a matrix's row storage uses that matrix's own row stride and stays within that row's own count.

Index expressions are polynomials over locals, parameters and structure fields.  An access to the index or value
array of a matrix X must be q * M(X) + r with X's own capacity (ELLPACK M, ELLBLOCK MB): a capacity of another matrix
counts only where the function established that the two are equal.  A read at position r of row q must be provably
below the count of that same row of that same matrix, in a difference-bound analysis of the whole function."""
from core import walk, kids, show, N, dump
from ownership import strip, isptr
from report import Report
from sym import Sym, Poly, Path, Atom, ZERO
from zone import Zone, linear, intty
from c07 import STORE, COUNT, TRACK, PREC, prefix, capacity, fullwidth, CapZone, axioms, norm, params_only
import modref, re, c06

CNT = {'index': 'nnz', 'value': 'nnz', 'indexb': 'nnzb', 'ptr_value': 'nnzb', 'cols_': 'NNZ_', 'vals_': 'NNZ_'}
STRIDE = re.compile(r'\.(M|MB)>$')


def accesses(Z):
    """(node, expression, path, field, is write)"""
    S, out = Z.S, []
    for b in Z.cfg.live:
        if b.ast is None or b.kind in ('fatal', 'ompend', 'omp'):
            continue
        wr = set()
        for x in walk(b.ast):
            if x.k == 'asg' and x.a == '=' or x.k == 'un' and x.a == '&':
                wr.add(id(strip(x.c[0])))
        for x in walk(b.ast):
            if x.k == 'idx' or x.k == 'un' and x.a == '*':
                for p in S.lval(x):
                    fs = p.fields()
                    if fs and fs[-1] in CNT and p.sels[-1][0] == 'i' and p.sels[-2:-1] == (('f', fs[-1]),):
                        out.append((b, x, p, fs[-1], id(x) in wr))
    return out


def strides(q):
    """Atoms that multiply something in index polynomial q and are row capacities."""
    return {a for m in q.t if len(m) >= 2 for a in m if STRIDE.search(a.key)}


def modified(n):
    out = set()
    for x in walk(n):
        if x.k == 'asg' or x.k == 'un' and ('++' in x.a or '--' in x.a or x.a == '&'):
            l = strip(x.c[0])
            if l.k == 'ref':
                out.add(l.a[1])
    return out


def frozen(S):
    """For each local: the variables that keep their value from its definition to its last use."""
    home = {}

    def go(n, block):
        if n.k in ('block', 'comp', 'compound'):
            block = n
        if n.k == 'decl':
            for v in n.a:
                home[v.id] = block
        for c in kids(n):
            go(c, block)
    go(S.body, S.body)
    mods, out = {}, {}
    for i, b in home.items():
        if id(b) not in mods:
            mods[id(b)] = modified(b)
        out[i] = mods[id(b)]
    return out


def unghost(S, q, fz):
    r = Poly()
    for m, c in q.t.items():
        t = Poly.const(c)
        for a in m:
            if a.key in S.ghostkeys:
                i = S.ghostkeys[a.key]
                g = S.ghosts.get(i, {}).get(a.key)
                n = strip(a.node) if a.node is not None else None
                if g is not None and i in fz and g[1].key in S.ghostkeys and S.ghostkeys[g[1].key] not in fz[i]:
                    t = t * Poly.atom(g[1])
                    continue
                if g is not None and n is not None and n.k == 'ref' and i in fz and n.a[1] not in fz[i]:
                    a = g[1]
            t = t * Poly.atom(a)
        r = r + t
    return r


class CntZone(CapZone):
    grows = ('alloc_size_', 'nnz', 'nnzb', 'NNZ_')      # through another name, a count is only ever taken to grow


def run(progs):
    rep = Report('C16', __doc__.strip())
    done = set()
    for cfg, P in progs.items():
        M = modref.ModRef(P)
        acc = c06.Access(P, M)
        for f in P.top():
            if not re.search(r'/(ellpack|ellblock|csr)/', f.main):
                continue
            h = norm(dump(P.nf(f)))
            if h in done:
                rep.count('functions_same_as_another_element_type')
                continue
            done.add(h)
            function(P, M, acc, f, rep)
    rep.floor('accesses', 300)
    return rep


def diagonal(Z, b, row):
    """Node b is reached only where the row block was found equal to something (the column block)."""
    seen, st = set(), [Z.cfg.entry]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        for t, lab in n.succ:
            if lab in (True, False) and n.ast is not None:
                c = Z.constraints(n.ast, lab)
                eq = [q for q, k in c if k == 0]
                if any(q.neg() in eq and any(a in row.atoms() for a in q.atoms()) for q in eq):
                    continue
            st.append(t)
    return b.id not in seen


def blocks(Z, f, rep, fz, written):
    """Inside a block the rows are as long as the block has columns: the size of its column block, not of its row block."""
    S = Z.S
    for x in walk(S.body):
        if x.k == 'asg' and strip(x.c[0]).k == 'idx' and isptr(x.c[0].ty) and any(p.fields()[-1:] == ('ptr_value',) for p in S.lval(x.c[0])) \
                and any(p.fields()[-1:] == ('ptr_value',) and p.root[0] != 'null' for p in S.val(x.c[1])):
            rep.count('functions_moving_blocks')
            return
    for b in Z.cfg.live:
        if b.ast is None or b.kind in ('fatal', 'ompend', 'omp'):
            continue
        for x in walk(b.ast):
            if x.k != 'idx':
                continue
            for p in S.lval(x):
                if len(p.sels) < 3 or p.sels[-3] != ('f', 'ptr_value') or p.sels[-1][0] != 'i':
                    continue
                slot = Path(p.root, p.sels[:-1], p.node)
                q, r = unghost(S, p.sels[-2][1], fz), unghost(S, p.sels[-1][1], fz)
                pre, _ = prefix(p, 'ptr_value')
                cap = capacity(S, pre, 'MB')
                if len(cap.t) != 1 or len(cap.atoms()) != 1:
                    continue
                sp = q.split(list(cap.atoms())[0])
                if sp is None or not sp[0].t:
                    continue
                row = repr(sp[0])
                for m in r.t:
                    fs = [a for a in m if re.match(r'<.*\.bsize\[', a.key)]
                    if len(m) != 2 or len(fs) != 1:
                        continue
                    rep.count('block_strides')
                    a = fs[0]
                    v = [t for t in m if t is not a][0]
                    k = a.key
                    k = re.sub(r'>@\w+#\d+$', '>', k)
                    col = k[k.index('.bsize[') + 7:-2]
                    if col != row or (v,) in r.t or repr(slot) in written:
                        continue
                    if diagonal(Z, b, sp[0]):
                        rep.count('diagonal_blocks')
                        continue
                    rep.viol('block:%s:%s' % (PREC.sub('', f.name), norm(show(x))[:80]),
                             '%s (%s:%d): `%s` strides through a block by the size of its block row %s instead of its block column'
                             % (f.name, f.main, x.line, show(x)[:90], row))


class Quiet:
    """A report that forgets (for a second pass over the same function)."""

    def count(self, *a):
        pass

    viol = count


def function(P, M, acc, f, rep):
    bad = attempt(P, M, acc, f, rep, False)
    if any(k.startswith('count:') for k, _ in bad):
        again = {k for k, _ in attempt(P, M, acc, f, Quiet(), True)}
        bad = [b for b in bad if b[0] in again]
    for k, text in bad:
        rep.viol(k, text)


def attempt(P, M, acc, f, rep, counters):
    Z = CntZone(P, f, M, acc, TRACK, axioms)
    Z.counters = counters
    S = Z.S
    bad = []
    acs = accesses(Z)
    if not acs:
        return bad
    rep.count('functions')
    todo, qs = [], []
    written = {repr(p) for b, x, p, fld, w in acs if w}
    fz = frozen(S)
    for b, x, p, fld, w in acs:
        pre, rest = prefix(p, fld)
        q = unghost(S, rest[0][1], fz)
        name = PREC.sub('', f.name)
        rep.count('accesses')
        if fld in ('cols_', 'vals_'):
            s, cnt = q, Poly.atom(Atom('<%r>' % pre.field('NNZ_'), S.path_deps(pre), [pre.field('NNZ_')] + S.path_mem(pre), None))
            if not w and repr(p) not in written:
                todo.append((b, x, s, cnt, None, fld))
            continue
        cap = capacity(S, pre, STORE[fld])
        sa = strides(q)
        capa = cap.atoms()
        for a in sa:
            if a not in capa:
                todo.append((b, x, Poly.atom(a), cap, 'stride', fld))
        if len(cap.t) == 1 and len(capa) == 1:
            a = list(capa)[0]
            sp = q.split(a)
            if sp is not None and sp[0].t and not w and repr(p) not in written and p.root[0] not in ('call', 'alloc'):
                row, s = sp
                np = pre.field(CNT[fld])
                np = Path(np.root, np.sels + (('i', row),), np.node)
                cnt = Poly.atom(Atom('<%r>' % np, S.path_deps(np), [np] + S.path_mem(np), None))
                todo.append((b, x, s, cnt, None, fld))
    blocks(Z, f, rep, fz, written)
    for t in todo:
        qs += [t[2], t[3]]
    Z.capkeys = ()
    Z.prepare(qs)
    Z.run()
    for b, x, s, cnt, kind, fld in todo:
        D = Z.within(b, x)
        if D is None:
            continue
        if kind == 'stride':
            rep.count('foreign_strides')
            if Z.le(D, s, cnt, 0) and Z.le(D, cnt, s, 0):
                continue
            bad.append(('stride:%s:%s' % (PREC.sub('', f.name), norm(show(x))[:80]),
                     '%s (%s:%d): `%s` addresses its matrix with row stride %r, whose own capacity is %r' % (f.name, f.main, x.line, show(x)[:90], s, cnt)))
        else:
            rep.count('reads')
            if Z.le(D, s, cnt, -1):
                continue
            if params_only(S, s):
                rep.count('positions_chosen_by_callers')
                continue
            if any(a.key.startswith('<') and '@' not in a.key and not (a.mem and a.mem[0].fields() and a.mem[0].fields()[-1] in COUNT) for a in s.atoms()):
                rep.count('positions_looked_up')
                continue
            bad.append(('count:%s:%s' % (PREC.sub('', f.name), norm(show(x))[:80]),
                     '%s (%s:%d): `%s` reads position %r, not known to be below the count %r of that row' % (f.name, f.main, x.line, show(x)[:90], s, cnt)))
    return bad
