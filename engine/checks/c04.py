"""C04: heap objects and handles are released exactly once, on every path.

Rules (over the helper-expanded control-flow graphs):
 typestate   every locally acquired object is, on every path to a return, either released
             once or handed over; no use and no second release after a release
 fields      a deallocator releases every owned field of its structure on every path
 overwrite   an owned field that may already hold an object is not overwritten by a new one
 pairing     locks and MPI datatypes held in locals are released on every path
 slots       a block slot of an ellblock matrix that may be occupied is not overwritten;
             a slot whose block was freed is reset before it can be reached again
"""
import re
from core import walk, kids, show
from cfg import CFG
from ownership import Summaries, Analysis, strip, isptr, base_var, nulltest
from report import Report, Broken

# structure -> (deallocator, owned fields); '[]' = every element is owned too
OWNED = {
    'bml_matrix_dense_t': (r'bml_deallocate_dense_\w+$', ['matrix', 'domain', 'domain2']),
    'bml_matrix_ellpack_t': (r'bml_deallocate_ellpack_\w+$', ['value', 'index', 'nnz', 'domain', 'domain2']),
    'bml_matrix_ellblock_t': (r'bml_deallocate_ellblock$', ['ptr_value', 'ptr_value[]', 'indexb', 'nnzb', 'bsize']),
    'bml_matrix_csr_t': (r'bml_deallocate_csr$', ['data_', 'data_[]']),
    'csr_sparse_row_t': (r'csr_deallocate_row$', ['cols_', 'vals_']),
    'csr_row_index_hash_t': (r'csr_deallocate_table$', ['Slots_', 'slot_storage_']),
    'bml_matrix_distributed2d_t': (r'bml_deallocate_distributed2d$', ['matrix', 'row_comm', 'col_comm']),
    'bml_domain_t': (r'bml_deallocate_domain$',
                     ['localRowMin', 'localRowMax', 'localRowExtent', 'localElements', 'localDispl']),
}
# receive buffers live from the start of a non-blocking receive to its completion
TRANSIENT = {('bml_matrix_ellblock_t', 'buffer'): r'bml_mpi_irecv_complete_ellblock_\w+$',
             ('bml_matrix_csr_t', 'nnz_buffer'): r'bml_mpi_irecv_complete_csr_\w+$',
             ('bml_matrix_csr_t', 'cols_buffer'): r'bml_mpi_irecv_complete_csr_\w+$',
             ('bml_matrix_csr_t', 'buffer'): r'bml_mpi_irecv_complete_csr_\w+$'}
# functions that complete a receive whose start already cleared the matrix
COMPLETES = re.compile(r'bml_mpi_irecv_complete_ellblock_')
PREC = re.compile(r'_(single|double)_(real|complex)\b')


def gen(s):
    return PREC.sub('', s)


def recname(ty):
    m = re.match(r'(?:struct )?(\w+) \*$', ty.strip())
    return m.group(1) if m else None


def canon_rec(P, ty):
    n = recname(ty)
    return n


class Alias:
    """Local pointers that always equal x->f for one x, f."""

    def __init__(self, body):
        defs = {}
        for x in walk(body):
            if x.k == 'decl':
                for v in x.a:
                    if v.init is not None and isptr(v.ty):
                        defs.setdefault(v.id, []).append(v.init)
            elif x.k == 'asg' and x.c[0].k == 'ref':
                defs.setdefault(x.c[0].a[1], []).append(x.c[1] if x.a == '=' else None)
        self.m = {}
        self.ints = {}
        for x in walk(body):
            if x.k == 'decl':
                for v in x.a:
                    if v.init is not None and not isptr(v.ty):
                        self.ints[v.id] = v.init
        for i, ds in defs.items():
            if len(ds) == 1 and ds[0] is not None:
                self.m[i] = strip(ds[0])

    def path(self, n, depth=6):
        """(base variable id, field, element?, structure) of an access path x->f or x->f[i]."""
        n = strip(n)
        if n is None or not depth:
            return None
        if n.k == 'mem' and n.a[1]:
            b = strip(n.c[0])
            if b.k == 'ref':
                return (b.a[1], n.a[0], False, recname(b.ty))
            return (None, n.a[0], False, recname(b.ty))
        if n.k == 'idx' or (n.k == 'un' and n.a == '*'):
            p = self.path(n.c[0], depth - 1)
            if p is not None and not p[2]:
                return (p[0], p[1], True, p[3])
            return None
        if n.k == 'ref' and n.a[1] in self.m:
            return self.path(self.m[n.a[1]], depth - 1)
        return None


def frees_in(n, S):
    """Argument expressions released by calls inside n."""
    for x in walk(n):
        if x.k != 'call' or not x.a:
            continue
        nm = x.a[0]
        if nm in ('MPI_Comm_free', 'MPI_Type_free'):
            yield x.c[1].c[0] if x.c[1].k == 'un' else x.c[1], x
            continue
        for j, a in enumerate(x.c[1:]):
            a0 = strip(a)
            if j in S.frees.get(nm, ()):
                yield a0, x
            elif j in S.dfrees.get(nm, ()) and a0.k == 'un' and a0.a == '&':
                yield strip(a0.c[0]), x


def outer_heads(cfg, b, within=()):
    """Loop heads around b (outermost first)."""
    return [x for x in cfg.live if x.kind == 'loop' and b.loops[:len(x.loops)] == x.loops]


def nodes(cfg):
    for b in cfg.live:
        if b.ast is not None and b.kind not in ('omp', 'ompend'):
            yield b


def blockers(cfg, fnodes, al, key):
    """Nodes every release-respecting path must pass: the releases, loops made of them, null tests of the field."""
    av = {b.id for b in fnodes}
    for b in fnodes:
        av |= {h.id for h in outer_heads(cfg, b)}
    for b in nodes(cfg):
        if b.kind == 'branch':
            e = strip(b.ast)
            c = e if not (e.k == 'bin' and e.a in ('==', '!=')) else strip(e.c[0]) if strip(e.c[1]).k == 'int' else strip(e.c[1])
            p = al.path(c)
            if p is not None and (p[1] + ('[]' if p[2] else '')) in (key, key.replace('[]', '')):
                if any(cfg.reaches(b, f, set()) for f in fnodes):
                    av.add(b.id)
    return av


def run(progs):
    R = Report('C04', 'typestate analysis (allocated / handed over / released) of every heap object over the control-flow '
               'graph of every function with correlated conditions; deallocators release every owned field on all '
               'paths; owned fields and block slots are not overwritten while occupied; locks and MPI handles are paired')
    for cfgname, P in progs.items():
        S = Summaries(P)
        for k in ('bml_deallocate', 'bml_free_ptr'):
            if 0 not in S.dfrees.get(k, ()):
                raise Broken('%s is no longer recognised as releasing its argument' % k)
        owned_seen = set()
        for f in P.top():
            R.count('functions')
            try:
                a = Analysis(P, f, S)
                reps = a.run()
            except RuntimeError:
                R.count('functions_too_many_states')
                continue
            R.count('allocation_sites', len(a.sites))
            R.count('release_events', a.frees)
            if a.sites and len(R.samples) < 8:
                R.sample('%s: %s' % (f.name, ', '.join('%s at line %d' % (s[1], s[0]) for s in a.sites.values())))
            for k, (kind, site, line, extra) in reps.items():
                what = 'object from %s (line %d)' % (site[1].split('#')[0], site[0]) if site else 'object'
                text = {'leak': 'is never released', 'double-free': 'is released twice',
                        'use-after-free': 'is used after its release'}[kind]
                R.viol(gen(k), '%s (src/%s:%d): %s %s%s [configuration %s]' %
                       (f.name, f.file, line, what, text, ' (%s)' % extra if extra else '', cfgname))
            structural(P, f, S, R, cfgname, owned_seen)
            stale(P, f, S, R, cfgname)
        for rec, (rx, fields) in OWNED.items():
            if rec == 'bml_matrix_distributed2d_t' and not any(k.startswith('bml_deallocate_distributed2d') for k in P.fns):
                continue
            fs = [f for f in P.fns.values() if re.match(rx, f.name)]
            if not fs:
                raise Broken('no deallocator for ' + rec)
            extra = sorted(fl for r, fl in owned_seen if r == rec and fl not in fields and (r, fl) not in TRANSIENT)
            for f in fs:
                body = P.nf(f)
                cfg, al = CFG(body), Alias(body)
                for fld in fields + extra:
                    R.count('owned_field_obligations')
                    fn = [b for b in nodes(cfg) for a0, _ in frees_in(b.ast, S)
                          if (lambda p: p is not None and p[1] + ('[]' if p[2] else '') == fld)(al.path(a0))]
                    if not fn or cfg.reaches(cfg.entry, cfg.exit, blockers(cfg, fn, al, fld)):
                        R.viol('field:%s:%s' % (rec, fld), '%s (src/%s:%d) does not release field %s of %s on every path '
                               '[configuration %s]' % (f.name, f.file, f.line, fld, rec, cfgname))
                # the structure itself
                par = f.params[0][1]
                fn = [b for b in nodes(cfg) for a0, _ in frees_in(b.ast, S) if a0.k == 'ref' and a0.a[1] == par]
                R.count('owned_field_obligations')
                if not fn or cfg.reaches(cfg.entry, cfg.exit, {b.id for b in fn}):
                    R.viol('struct:' + rec, '%s (src/%s:%d) does not release the structure on every path' %
                           (f.name, f.file, f.line))
        for (rec, fld), rx in TRANSIENT.items():
            fs = [f for f in P.fns.values() if re.match(rx, f.name)]
            if cfgname in ('B', 'AB') and not fs:
                raise Broken('no completion function for %s.%s' % (rec, fld))
            for f in fs:
                body = P.nf(f)
                cfg, al = CFG(body), Alias(body)
                R.count('owned_field_obligations')
                fn = [b for b in nodes(cfg) for a0, _ in frees_in(b.ast, S)
                      if (lambda p: p is not None and p[1] == fld and not p[2])(al.path(a0))]
                if not fn or cfg.reaches(cfg.entry, cfg.exit, {b.id for b in fn}):
                    R.viol('field:%s:%s' % (rec, fld), '%s (src/%s:%d) does not release the receive buffer %s' %
                           (f.name, f.file, f.line, fld))
    R.floor('functions', 2500)
    R.floor('allocation_sites', 2400)
    R.floor('slot_stores', 40)
    R.floor('handle_pairs', 16)
    R.floor('slot_resets', 8)
    R.floor('owned_field_obligations', 90)
    R.assume = ['allocation helpers never return NULL (they report a fatal error)',
                'collective exports hand the dense array to rank 0 only (documented)']
    return R


def structural(P, f, S, R, cfgname, owned_seen):
    body = P.nf(f)
    al = None
    need = False
    for x in walk(body):
        if x.k == 'asg' and x.a == '=' and x.c[0].k in ('mem', 'idx', 'un') and isptr(x.c[0].ty):
            need = True
        elif x.k == 'call' and x.a and (x.a[0] in ('omp_init_lock', 'MPI_Comm_split', 'MPI_Comm_dup') or
                                        x.a[0].startswith('bml_mpi_type_create_struct_')):
            need = True
        elif x.k == 'call' and x.a and x.a[0] in S.frees:
            need = True
    if not need:
        return
    al = Alias(body)
    cfg = CFG(body)
    par = {p[1] for p in f.params}
    raw, made = {}, {}
    for b in nodes(cfg):
        tgt = []
        if b.kind == 'decl':
            tgt = [(v.id, v.init) for v in b.ast.a if v.init is not None]
        else:
            tgt = [(x.c[0].a[1], x.c[1]) for x in walk(b.ast) if x.k == 'asg' and x.a == '=' and x.c[0].k == 'ref']
        for i, e in tgt:
            e = strip(e)
            if e.k == 'call' and e.a:
                (raw if e.a[0] in ('malloc', 'calloc', 'bml_allocate_memory', 'bml_noinit_allocate_memory') else made)\
                    .setdefault(i, []).append(b)
    fresh_at, free_at = [], {}
    for b in nodes(cfg):
        for a0, call in frees_in(b.ast, S):
            p = al.path(a0)
            if p is not None:
                free_at.setdefault((p[0], p[1], p[2]), []).append(b)
        for x in walk(b.ast):
            if x.k == 'asg' and x.a == '=' and x.c[0].k in ('mem', 'idx', 'un'):
                e = strip(x.c[1])
                if e.k == 'call' and e.a and e.a[0] in S.fresh:
                    p = al.path(x.c[0])
                    if p is not None:
                        fresh_at.append((b, x, p, e.a[0]))
            elif x.k == 'call' and x.a and x.a[0] in ('MPI_Comm_split', 'MPI_Comm_dup'):
                t = strip(x.c[-1])
                if t.k == 'un' and t.a == '&':
                    p = al.path(t.c[0])
                    if p is not None and p[3]:
                        owned_seen.add((p[3], p[1]))
    moved = {}
    for b in nodes(cfg):
        srcs = []
        if b.kind == 'decl':
            srcs = [v.init for v in b.ast.a if v.init is not None and isptr(v.ty)]
        else:
            srcs = [x.c[1] for x in walk(b.ast) if x.k == 'asg' and x.a == '=' and x.c[0].k == 'ref' and isptr(x.ty)]
            if b.kind == 'return' and b.ast.c and b.ast.c[0] is not None:
                srcs.append(b.ast.c[0])
        for e in srcs:
            p = al.path(e)
            if p is not None and not p[2]:
                moved.setdefault((p[0], p[1]), []).append(b)
    for b, x, p, callee in fresh_at:
        base, fld, elem, rec = p
        if rec is None:
            continue
        R.count('owned_stores')
        if not elem:
            owned_seen.add((rec, fld))
            if (rec, fld) in TRANSIENT or base is None:
                continue
            if base in raw and base not in made and base not in par:
                continue
            if callee in ('bml_reallocate_memory', 'realloc'):
                continue
            starts = made.get(base) or ([cfg.entry] if base in par else [])
            av = {y.id for y in free_at.get((base, fld, False), ())} | {y.id for y in moved.get((base, fld), ())}
            for st in starts:
                if st is not b and cfg.reaches(st, b, av):
                    R.viol('overwrite:%s:%s' % (gen(f.name), fld), '%s (src/%s:%d): field %s still owns an object when it is '
                           'overwritten by the result of %s' % (f.name, f.file, x.line, fld, callee))
        elif rec == 'bml_matrix_ellblock_t' and base in par and not COMPLETES.match(f.name):
            R.count('slot_stores')
            if not slot_ok(P, f, cfg, al, b, x, base):
                R.viol('slot:%s' % gen(f.name), '%s (src/%s:%d): block slot %s of an existing matrix is overwritten without '
                       'releasing the block it may hold' % (f.name, f.file, x.line, show(x.c[0])))
    # freed slots are reset
    for (base, fld, elem), bs in free_at.items():
        if not elem or (base, fld, False) in free_at or base is None:
            continue
        resets = set()
        for b in nodes(cfg):
            for x in walk(b.ast):
                if x.k == 'asg' and x.a == '=' and x.c[0].k in ('idx', 'un'):
                    p = al.path(x.c[0])
                    if p is not None and p[:3] == (base, fld, True):
                        resets.add(b.id)
        for b in bs:
            R.count('slot_resets')
            av = set(resets)
            for r in [y for y in cfg.live if y.id in resets]:
                if r.loops[:len(b.loops)] == b.loops:
                    continue
            if cfg.reaches(b, cfg.exit, av):
                R.viol('dangling:%s:%s' % (gen(f.name), fld), '%s (src/%s:%d): %s[...] keeps pointing to a released object' %
                       (f.name, f.file, b.line, fld))
    # locks and datatypes in locals
    acq, rel = {}, {}
    for b in nodes(cfg):
        for x in walk(b.ast):
            if x.k != 'call' or not x.a:
                continue
            nm = x.a[0]
            if nm == 'omp_init_lock':
                acq.setdefault(('lock', base_var(amp(x.c[1]))), []).append(b)
            elif nm == 'omp_destroy_lock':
                rel.setdefault(('lock', base_var(amp(x.c[1]))), []).append(b)
            elif nm.startswith('bml_mpi_type_create_struct_') and len(x.c) > 2:
                acq.setdefault(('datatype', base_var(amp(x.c[2]))), []).append(b)
            elif nm == 'MPI_Type_free':
                rel.setdefault(('datatype', base_var(amp(x.c[1]))), []).append(b)
    for key, bs in acq.items():
        if key[1] is None or key[1] in par:
            continue
        rb = rel.get(key, [])
        av = {r.id for r in rb}
        for r in rb:
            av |= {h.id for h in outer_heads(cfg, r)}
        for b in bs:
            R.count('handle_pairs')
            # a loop that acquires is not one that releases
            av2 = av - {h.id for h in outer_heads(cfg, b)}
            if cfg.reaches(b, cfg.exit, av2):
                R.viol('pair:%s:%s' % (gen(f.name), key[0]), '%s (src/%s:%d): %s acquired here is not released on every path' %
                       (f.name, f.file, b.line, key[0]))


def amp(n):
    n = strip(n)
    if n.k == 'un' and n.a == '&':
        return strip(n.c[0])
    return n


def slot_ok(P, f, cfg, al, b, x, base):
    dom = cfg.dominators()[b.id]
    byid = {y.id: y for y in cfg.live}
    tgt = x.c[0]
    key = show(tgt)
    # cleared before
    for i in dom:
        y = byid[i]
        if y.ast is None or y.kind in ('omp', 'ompend'):
            continue
        for c in walk(y.ast):
            if c.k == 'call' and c.a and c.a[0].startswith('bml_clear_ellblock') and len(c.c) > 1:
                a = strip(c.c[1])
                if a.k == 'ref' and a.a[1] == base:
                    return True
    # guarded by a null test of the slot
    for i in dom:
        y = byid[i]
        if y.kind == 'branch':
            e = strip(y.ast)
            if e.k == 'bin' and e.a in ('==', '!=') and show(strip(e.c[0])) == key:
                want = e.a == '=='
                other = [s for s, lab in y.succ if lab is not want]
                if all(s is not b and not reach_without(cfg, s, b, y) for s in other):
                    return True
            elif show(e) == key or (e.k == 'un' and e.a == '!'):
                pass
    # the row's block count is known to be zero: every slot of the row has been released
    for i in dom:
        y = byid[i]
        e = strip(y.ast) if y.ast is not None and y.kind not in ('omp', 'ompend') else None
        if e is not None and e.k == 'bin' and e.a in ('>', '!=', '==', '<=') and len({lab for _, lab in y.succ}) == 2 \
                and strip(e.c[1]).k == 'int' and show(strip(e.c[1])) == '0' and uses_count(al, e.c[0], base, {}, cfg):
            full = e.a in ('>', '!=')
            if all(s is not b and not reach_without(cfg, s, b, y) for s, lab in y.succ if lab is full):
                return True
    # appended behind the last occupied slot: the index is computed from the row's block count
    return uses_count(al, tgt.c[1] if tgt.k == 'idx' else tgt, base, {}, cfg) or callers_fresh(P, f, base)


def reach_without(cfg, s, b, y):
    return s is b or cfg.reaches(s, b, {y.id})


def uses_count(al, e, base, seen, cfg):
    for z in walk(e):
        if z.k == 'idx' or z.k == 'mem':
            p = al.path(z)
            if p is not None and p[0] == base and p[1] == 'nnzb' and p[2]:
                return True
        if z.k == 'ref' and z.a[1] in al.ints and z.a[1] not in seen:
            seen[z.a[1]] = 1
            if uses_count(al, al.ints[z.a[1]], base, seen, cfg):
                return True
    return False


def callers_fresh(P, f, base, depth=3):
    """Every caller passes a matrix it has just created."""
    pos = [i for i, p in enumerate(f.params) if p[1] == base][0]
    n = 0
    for g in P.top():
        body = P.nf(g)
        for x in walk(body):
            if x.k == 'call' and x.a and x.a[0] == f.name:
                n += 1
                a = strip(x.c[1 + pos])
                if a.k == 'ref' and a.a[2] == 'parm' and depth and g.file.split('/')[1] == 'ellblock':
                    if not callers_fresh(P, g, a.a[1], depth - 1) and called(P, g):
                        return False
                    continue
                if a.k != 'ref' or a.a[2] != 'var':
                    return False
                al = Alias(body)
                d = al.m.get(a.a[1])
                if d is None or d.k != 'call' or not d.a or not re.match(r'bml_(block|zero|noinit)_matrix_ellblock', d.a[0]):
                    return False
    return n > 0


def called(P, g):
    return any(x.k == 'call' and x.a and x.a[0] == g.name for h in P.top() if h is not g for x in walk(P.nf(h)))


def stale(P, f, S, R, cfgname):
    """Pointers the function did not allocate itself: no use of a pointer or field whose object has been released."""
    body = P.nf(f)
    if not any(x.k == 'call' and x.a and (x.a[0] in S.frees or x.a[0] in S.dfrees) for x in walk(body)):
        return
    cfg, al = CFG(body), Alias(body)

    def place(n):
        n = strip(n)
        if n.k == 'ref' and n.a[2] in ('var', 'parm'):
            return ('v', n.a[1])
        p = al.path(n) if n.k == 'mem' else None
        if p is not None and p[0] is not None and not p[2]:
            return ('f', p[0], p[1])
        return None

    def killed(b):
        """places given a new value, places released, uses [(place, node)] of node b"""
        new, rel, use = set(), set(), []
        released_at = set()
        for a0, call in frees_in(b.ast, S):
            p = place(a0)
            if p is None:
                continue
            R.count('releases_followed')
            rel.add(p)
            released_at.add(id(strip(a0)))
            if p[0] == 'v':
                q = al.path(a0)
                if q is not None and q[0] is not None and not q[2]:
                    rel.add(('f', q[0], q[1]))
            else:
                rel |= {('v', i) for i in al.m if (lambda q: q is not None and q[:3] == (p[1], p[2], False))(
                    al.path(al.m[i]))}
        if b.kind == 'decl':
            new |= {('v', v.id) for v in b.ast.a}
        for x in walk(b.ast):
            if x.k == 'asg' and x.a == '=':
                p = place(x.c[0])
                if p is not None:
                    new.add(p)
            if x.k == 'call' and x.a:
                for j, a in enumerate(x.c[1:]):
                    a0 = strip(a)
                    if a0.k == 'un' and a0.a == '&':
                        p = place(a0.c[0])
                        if p is not None and (x.a[0] == 'bml_free_ptr' or x.a[0] == 'bml_deallocate' or j not in S.dfrees.get(x.a[0], ())):
                            new.add(p)
                    elif isptr(a.ty):
                        p = place(a)
                        if p is not None:
                            use.append((p, x))
            if x.k == 'idx' or x.k == 'un' and x.a == '*' or x.k == 'mem' and x.a[1]:
                p = place(x.c[0])
                if p is not None:
                    use.append((p, x))
        return new, rel, use
    info = {b: killed(b) for b in nodes(cfg)}
    state = {b: None for b in cfg.live}
    state[cfg.entry] = frozenset()
    work = [cfg.entry]
    while work:
        b = work.pop()
        s = state[b]
        if b in info:
            new, rel, use = info[b]
            s = (s | rel) - new
        for t, lab in b.succ:
            if t not in state:
                continue
            u = s if state[t] is None else state[t] | s
            if u != state[t]:
                state[t] = u
                work.append(t)
    names = {p[1]: p[0] for p in f.params}
    for x in walk(body):
        if x.k == 'decl':
            names.update({v.id: v.name for v in x.a})
    for b, (new, rel, use) in info.items():
        if not state[b]:
            continue
        for p, x in use:
            if p in state[b]:
                pos = [i for i, q in enumerate(f.params) if q[1] == p[1]]
                R.viol('stale:%s:%s' % (gen(f.name), p[2] if p[0] == 'f' else 'operand %d' % pos[0] if pos else 'local'),
                       '%s (src/%s:%d): `%s` uses %s%s after its object was released on some path [configuration %s]' %
                       (f.name, f.file, x.line, show(x)[:80], names.get(p[1], '?'), '->' + p[2] if p[0] == 'f' else '', cfgname))
