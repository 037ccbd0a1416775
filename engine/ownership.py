"""Typestate of heap objects: allocated -> (handed over | freed), on every path.

A disjunctive forward analysis over the CFG.  Abstract state: which allocation site
each local pointer holds, the status of each site (owned / freed / handed over), and
the outcome of conditions that occur more than once (so that `if (c) p = alloc()`
followed by `if (c) free(p)` is understood)."""
from core import walk, kids, show, N
from cfg import CFG, explore, uncond

ALLOC = {'malloc', 'calloc', 'strdup', 'bml_allocate_memory', 'bml_noinit_allocate_memory', 'backtrace_symbols',
         'aligned_alloc'}
REALLOC = {'realloc': 0, 'bml_reallocate_memory': 0}
FREE = {'free': 0, 'bml_free_memory': 0}
OPEN = {'fopen': 'fclose', 'popen': 'pclose', 'fdopen': 'fclose', 'tmpfile': 'fclose'}
CLOSE = {'fclose': 0, 'pclose': 0}


def strip(n):
    while n is not None and n.k == 'cast':
        n = n.c[0]
    return n


def isptr(ty):
    return ty.endswith('*')


class Summaries:
    """Per function: which pointer parameters it frees or stores away, and whether it returns a fresh object."""

    def __init__(self, P):
        self.P = P
        self.frees = {}       # name -> set of freed parameter positions
        self.dfrees = {}      # name -> positions whose pointee pointer is freed
        self.retains = {}
        self.retalias = {}
        self.fresh = set(ALLOC) | set(REALLOC) | set(OPEN)
        for k, v in list(FREE.items()) + list(CLOSE.items()) + list(REALLOC.items()):
            self.frees[k] = {v}
        # pass 1: syntactic facts
        fns = [f for f in P.fns.values()]
        self.info = {}
        for f in fns:
            self.info[f.name] = self.facts(f)
        ch = True
        while ch:
            ch = False
            for f in fns:
                par = {p[1]: i for i, p in enumerate(f.params)}
                alias, calls, rets, stores = self.info[f.name]
                fr, df, rt = self.frees.setdefault(f.name, set()), self.dfrees.setdefault(f.name, set()), \
                    self.retains.setdefault(f.name, set())
                n0 = (len(fr), len(df), len(rt))
                for name, args in calls:
                    for j, a in enumerate(args):
                        a = strip(a)
                        if a is None:
                            continue
                        hit = j in self.frees.get(name, ())
                        if a.k == 'ref' and hit:
                            for i in self.roots(a, alias, par):
                                fr.add(i)
                        if a.k == 'un' and a.a == '*' and hit:
                            for i in self.roots(strip(a.c[0]), alias, par):
                                df.add(i)
                        if j in self.dfrees.get(name, ()) and a.k == 'ref':
                            for i in self.roots(a, alias, par):
                                df.add(i)
                        if j in self.retains.get(name, ()) and a.k == 'ref':
                            for i in self.roots(a, alias, par):
                                rt.add(i)
                for s in stores:
                    for i in self.roots(s, alias, par):
                        rt.add(i)
                if (len(fr), len(df), len(rt)) != n0:
                    ch = True
                if f.name not in self.fresh and isptr(f.ret) and rets and f.name not in ('bml_get_local_matrix',):
                    if self.isfresh(f, rets, alias):
                        self.fresh.add(f.name)
                        ch = True
        self.unknown = set()

    def facts(self, f):
        alias, calls, rets, stores = {}, [], [], []
        for x in walk(f.body):
            if x.k == 'decl':
                for v in x.a:
                    if v.init is not None and isptr(v.ty):
                        alias.setdefault(v.id, []).append(strip(v.init))
            elif x.k == 'asg' and x.a == '=':
                t = x.c[0]
                if t.k == 'ref' and t.a[2] in ('var', 'parm') and isptr(t.ty):
                    alias.setdefault(t.a[1], []).append(strip(x.c[1]))
                elif isptr(x.ty):
                    s = strip(x.c[1])
                    if s.k == 'ref':
                        stores.append(s)
            elif x.k == 'call' and x.a:
                calls.append((x.a[0], x.c[1:]))
            elif x.k == 'return' and x.c and x.c[0] is not None:
                rets.append(strip(x.c[0]))
        return alias, calls, rets, stores

    def roots(self, n, alias, par, depth=4):
        n = strip(n)
        if n is None or n.k != 'ref':
            return set()
        if n.a[1] in par and n.a[2] == 'parm':
            s = {par[n.a[1]]}
        else:
            s = set()
        if depth:
            ds = alias.get(n.a[1], ())
            if n.a[2] == 'parm' or all(r is not None and r.k == 'ref' for r in ds):
                for r in ds:
                    if r is not None and r.k == 'ref' and r is not n:
                        s |= self.roots(r, alias, par, depth - 1)
        return s

    def isfresh(self, f, rets, alias):
        ok = False
        for r in rets:
            v = self.fr(r, alias, 5, set())
            if v is False:
                return False
            ok = ok or v is True
        return ok

    def fr(self, r, alias, d, seen):
        """True fresh, None null, False other."""
        if r is None:
            return False
        r = strip(r)
        if r.k == 'int' and r.a == 0:
            return None
        if r.k == 'call' and r.a:
            return True if r.a[0] in self.fresh else False
        if r.k == 'ref' and r.a[2] == 'var' and d:
            if r.a[1] in seen:
                return None
            vs = alias.get(r.a[1], [])
            if not vs:
                return False
            out = None
            for x in vs:
                v = self.fr(x, alias, d - 1, seen | {r.a[1]})
                if v is False:
                    return False
                out = out or v
            return out
        if r.k == 'cond':
            a, b = self.fr(r.c[1], alias, d, seen), self.fr(r.c[2], alias, d, seen)
            return False if a is False or b is False else (a or b)
        return False


class St:
    """Immutable abstract state."""
    __slots__ = ('v', 'o', 'd', 'h')

    def __init__(self, v, o, d):
        self.v, self.o, self.d = v, o, d          # dicts
        self.h = hash((frozenset(v.items()), frozenset(o.items()), frozenset(d.items())))

    def __hash__(self):
        return self.h

    def __eq__(self, x):
        return self.h == x.h and self.v == x.v and self.o == x.o and self.d == x.d

    def put(self, v=None, o=None, d=None):
        return St(v if v is not None else self.v, o if o is not None else self.o, d if d is not None else self.d)


def condkey(e):
    """Stable text of a side-effect-free condition over locals and parameters."""
    ids = set()
    for x in walk(e):
        if x.k == 'call' and x.a and x.a[0] in GETTERS:
            continue
        if x.k in ('call', 'asg', 'stmtexpr') or (x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post'))):
            return None, ids, False
        if x.k == 'ref' and x.a[2] in ('var', 'parm'):
            ids.add(x.a[1])
    e = strip(e)
    neg = e.k == 'bin' and e.a == '!='
    if neg:
        e = N('bin', e.line, e.ty, '==', e.c)
    return keytext(e), ids, neg


def keytext(e):
    if e.k == 'ref':
        return '%s.%s' % (e.a[0], e.a[1])
    if e.k == 'cast':
        return keytext(e.c[0])
    if e.k == 'call':
        return show(e)
    a = e.a if not isinstance(e.a, (list, tuple)) else e.a[0]
    return '%s:%s(%s)' % (e.k, a, ','.join(keytext(x) for x in e.c if x is not None))


class Analysis:
    def __init__(self, P, f, S, resource=None):
        self.P, self.f, self.S = P, f, S
        self.cfg = CFG(P.nf(f))
        self.reports = {}
        self.sites = {}
        self.uses = 0
        self.frees = 0
        body = P.nf(f)
        self.local = set()
        self.arrays = set()
        self.kinds = {}
        for x in walk(body):
            if x.k == 'decl':
                for v in x.a:
                    if v.storage == 'auto':
                        self.local.add(v.id)
                        if v.ty.endswith(']'):
                            self.arrays.add(v.id)
        self.param = {p[1] for p in f.params}
        cnt = {}
        self.ckeys = {}
        for b in self.cfg.live:
            if b.kind in ('branch', 'switch'):
                k, ids, neg = condkey(b.ast)
                if k is not None:
                    self.ckeys[b.id] = (k, ids, neg)
                    cnt[k] = cnt.get(k, 0) + 1
        self.ckeys = {i: kv for i, kv in self.ckeys.items() if cnt[kv[0]] > 1}
        # arrays handed on whole, with what is in them
        self.outward = set()
        for x in walk(body):
            r = None
            if x.k == 'asg' and x.a == '=' and (x.c[0].k != 'ref' or x.c[0].a[2] not in ('var', 'parm')):
                r = strip(x.c[1])
            elif x.k == 'return' and x.c and x.c[0] is not None:
                r = strip(x.c[0])
            if r is not None and r.k == 'ref':
                self.outward.add(r.a[1])
        # fields holding collections freed in loops: array variable -> loop heads that free its elements
        self.elem_free = {}
        for b in self.cfg.live:
            if b.ast is None or b.kind in ('omp', 'ompend'):
                continue
            for x in walk(b.ast):
                if x.k == 'call' and x.a and x.a[0] in S.frees:
                    for j in S.frees[x.a[0]]:
                        if j + 1 < len(x.c):
                            a = strip(x.c[j + 1])
                            if a is not None and a.k in ('idx', 'un'):
                                r = base_var(a)
                                if r is not None:
                                    self.elem_free.setdefault(r, []).append(b)

    def rep(self, kind, obj, b, extra=''):
        site = self.sites.get(obj)
        key = '%s:%s:%s' % (kind, self.f.name, site[1] if site else obj)
        self.reports.setdefault(key, (kind, site, b.line if b is not None else self.f.end, extra))

    # value of a pointer expression: object id, 'null', or None (borrowed/unknown)
    def val(self, n, s, b, new):
        n = strip(n)
        if n is None:
            return None
        if n.k == 'int' and n.a == 0:
            return 'null'
        if n.k == 'ref':
            return s.v.get(n.a[1])
        if n.k == 'call' and n.a and n.a[0] in self.S.fresh:
            return new.get(id(n))
        if n.k == 'asg' and n.a == '=' and n.c[0].k == 'ref':
            return s.v.get(n.c[0].a[1])
        if n.k == 'bin' and n.a in ('+', '-') and isptr(n.ty):
            for x in n.c:
                if isptr(x.ty):
                    return self.val(x, s, b, new)
        if n.k == 'un' and n.a == '&' and n.c[0].k == 'idx':
            return self.val(n.c[0].c[0], s, b, new)
        if n.k == 'cond':
            a, c = self.val(n.c[1], s, b, new), self.val(n.c[2], s, b, new)
            if a is not None and a.startswith('L') and (c == 'null' or c is not None and id(strip(n.c[2])) in new):
                return a                 # one object per evaluation: named after the first arm
            if a == 'null' and c is not None:
                return c
            return a if a == c else None
        return None

    def unref(self, s, obj, exc=None):
        return not any(o == obj and v != exc for v, o in s.v.items())

    def lose(self, s, var, b, why):
        """var stops holding its object."""
        o = s.v.get(var)
        if o is not None and o != 'null' and s.o.get(o) == 'own' and self.unref(s, o, var):
            self.rep('leak', o, b, why)
            no = dict(s.o)
            no[o] = 'lost'
            s = s.put(o=no)
        return s

    def setvar(self, s, var, val, b):
        s = self.lose(s, var, b, 'overwritten')
        nv = dict(s.v)
        if val is None:
            nv.pop(var, None)
        else:
            nv[var] = val
        d = s.d
        if d:
            d = {k: v for k, v in d.items() if var not in self.kids_of.get(k, ())}
        return s.put(v=nv, d=d)

    def status(self, s, o, st):
        if o is None or o == 'null' or o not in s.o:
            return s
        no = dict(s.o)
        no[o] = st
        return s.put(o=no)

    def exprs(self, n, s, b, top=False):
        """Evaluate n for its effects; returns (state, created objects by call identity)."""
        new = {}
        s = self.ev(n, s, b, new)
        # a fresh result nobody keeps
        if top:
            r = strip(n)
            if r is not None and r.k == 'call' and id(r) in new and s.o.get(new[id(r)]) == 'own' and self.unref(s, new[id(r)]):
                self.rep('leak', new[id(r)], b, 'result discarded')
                s = self.status(s, new[id(r)], 'lost')
        return s, new

    def ev(self, n, s, b, new):
        k = n.k
        if k == 'asg':
            t = n.c[0]
            if t.k != 'ref':
                s = self.use(t, s, b, new)
            s = self.ev(n.c[1], s, b, new)
            if n.a == '=':
                if t.k == 'ref' and t.a[2] in ('var', 'parm'):
                    if isptr(t.ty):
                        v = self.val(n.c[1], s, b, new)
                        s = self.setvar(s, t.a[1], v, b)
                    elif s.d:
                        s = self.drop(s, t.a[1])
                else:
                    if t.k == 'ref' or isptr(n.ty):
                        v = self.val(n.c[1], s, b, new) if not interior(n.c[1]) else None
                        if v not in (None, 'null') and s.o.get(v) == 'own':
                            r = base_var(t) if t.k == 'idx' else None
                            if r is not None and (r in self.arrays or s.v.get(r) not in (None, 'null') and r not in self.outward) and r in self.local:
                                s = self.status(s, v, 'coll:%d' % r)
                                if r not in self.elem_free:
                                    self.rep('leak', v, b, 'stored in a local array whose elements are never freed')
                                else:
                                    self.coll.append((v, b, r))
                            else:
                                s = self.status(s, v, 'esc')
            elif t.k == 'ref':
                s = self.drop(s, t.a[1])
            return s
        if k == 'un' and (n.a.startswith('pre') or n.a.startswith('post')):
            t = n.c[0]
            if t.k == 'ref':
                return self.drop(s, t.a[1])
            return self.use(t, s, b, new)
        if k == 'call':
            for x in n.c:
                if x is not None:
                    s = self.ev(x, s, b, new)
            if n.a is None:
                return s
            name = n.a[0]
            args = n.c[1:]
            if name == 'posix_memalign' and args:
                a = strip(args[0])
                if a.k == 'un' and a.a == '&' and a.c[0].k == 'ref':
                    o = self.fresh(n, b)
                    s = self.mk(s, o, b)
                    return self.setvar(s, a.c[0].a[1], o, b)
                return s
            fr, df, rt = self.S.frees.get(name, ()), self.S.dfrees.get(name, ()), self.S.retains.get(name, ())
            for j, a in enumerate(args):
                a0 = strip(a)
                if j in fr:
                    v = self.val(a, s, b, new)
                    self.frees += 1
                    if v not in (None, 'null'):
                        st = s.o.get(v)
                        if st == 'freed':
                            self.rep('double-free', v, b)
                        s = self.status(s, v, 'freed')
                elif j in df and a0.k == 'un' and a0.a == '&' and a0.c[0].k == 'ref':
                    v = s.v.get(a0.c[0].a[1])
                    self.frees += 1
                    if v not in (None, 'null'):
                        if s.o.get(v) == 'freed':
                            self.rep('double-free', v, b)
                        s = self.status(s, v, 'freed')
                        if name == 'bml_deallocate':
                            s = self.setvar(s, a0.c[0].a[1], 'null', b)
                elif isptr(a.ty):
                    v = self.val(a, s, b, new)
                    if v not in (None, 'null'):
                        self.uses += 1
                        if s.o.get(v) == 'freed':
                            self.rep('use-after-free', v, b, 'passed to ' + name)
                        if j in rt and s.o.get(v) == 'own':
                            s = self.status(s, v, 'esc')
            if name in self.S.fresh:
                o = self.fresh(n, b)
                s = self.mk(s, o, b)
                new[id(n)] = o
            return s
        if k == 'cond':
            for x in n.c:
                s = self.ev(x, s, b, new)
            y, z = strip(n.c[1]), strip(n.c[2])
            if id(y) in new and id(z) in new:      # only one of the two calls happens
                s = self.status(s, new[id(z)], 'esc')
            return s
        if k in ('idx', 'mem') or (k == 'un' and n.a == '*'):
            return self.use(n, s, b, new)
        if k == 'un' and n.a == '&' and n.c[0].k == 'ref':
            return s
        for x in kids(n):
            s = self.ev(x, s, b, new)
        return s

    def fresh(self, call, b):
        o = 'L%d' % id(call)
        if o not in self.sites:
            n = sum(1 for x in self.sites.values() if x[1].split('#')[0] == call.a[0])
            self.sites[o] = (call.line, call.a[0] + ('#%d' % n if n else ''), None)
        return o

    def mk(self, s, o, b):
        st = s.o.get(o)
        no = dict(s.o)
        if st == 'own':
            # previous object of this site: still held by some other variable?
            holders = [v for v, x in s.v.items() if x == o]
            if not holders:
                self.rep('leak', o, b, 'lost before the next allocation')
            nv = {v: x for v, x in s.v.items() if x != o}
            self.pending = (o, holders)
            no[o] = 'own'
            # the variable being overwritten is handled by setvar; keep holders until then
            return s.put(o=no)
        nv = {v: x for v, x in s.v.items() if x != o}
        no[o] = 'own'
        return s.put(v=nv, o=no)

    def use(self, n, s, b, new):
        """n is a memory access path."""
        k = n.k
        base = n.c[0]
        if k == 'idx':
            s = self.ev(n.c[1], s, b, new)
        if k == 'mem' and not n.a[1]:
            return self.use(base, s, b, new) if base.k in ('idx', 'mem') or (base.k == 'un' and base.a == '*') else self.ev(base, s, b, new)
        bb = strip(base)
        v = self.val(bb, s, b, new) if bb.k in ('ref', 'bin') else None
        if v not in (None, 'null'):
            self.uses += 1
            if s.o.get(v) == 'freed':
                self.rep('use-after-free', v, b, show(n))
        return self.ev(base, s, b, new)

    def drop(self, s, var):
        if s.d and any(var in self.kids_of.get(k, ()) for k in s.d):
            return s.put(d={k: v for k, v in s.d.items() if var not in self.kids_of.get(k, ())})
        return s

    def run(self):
        self.kids_of = {k: ids for k, ids, _ in self.ckeys.values()}
        self.coll = []
        cfg = self.cfg

        def transfer(b, s):
            n = b.ast
            if b.kind in ('entry', 'exit', 'loop', 'omp', 'ompend'):
                return [s]
            if b.kind == 'fatal':
                return []
            if b.kind == 'decl':
                for v in n.a:
                    if v.init is not None:
                        s, new = self.exprs(v.init, s, b)
                        if isptr(v.ty):
                            s = self.setvar(s, v.id, self.val(v.init, s, b, new), b)
                        else:
                            s = self.drop(s, v.id)
                    else:
                        if isptr(v.ty):
                            s = self.setvar(s, v.id, None, b)
                return [s]
            if b.kind == 'return':
                e = n.c[0] if n.c else None
                if e is not None:
                    s, new = self.exprs(e, s, b)
                    v = self.val(e, s, b, new)
                    if v not in (None, 'null'):
                        if s.o.get(v) == 'freed':
                            self.rep('use-after-free', v, b, 'returned')
                        elif s.o.get(v) == 'own':
                            s = self.status(s, v, 'esc')
                    elif e.k not in ('ref', 'int'):
                        pass
                return [s]
            s, new = self.exprs(n, s, b, top=b.kind == 'expr')
            return [s]

        def edge(b, lab, s):
            if b.kind == 'branch':
                e = b.ast
                if lab is False and rank0(e):
                    # collective export hands the array to rank 0 only
                    no = {o: ('null' if st == 'own' and self.sites[o][1].startswith('bml_export_to_dense') else st)
                          for o, st in s.o.items()}
                    if no != s.o:
                        s = s.put(o=no)
                r = nulltest(e)
                if r is not None:
                    var, nullwhen = r
                    v = s.v.get(var)
                    if v == 'null' and lab != nullwhen:
                        return None
                    if v is not None and v != 'null' and s.o.get(v) in ('own', 'freed', 'esc') and lab == nullwhen:
                        # allocation helpers never return NULL (they report a fatal error); fopen may
                        if self.sites.get(v, (0, '', 0))[1].split('#')[0] in OPEN or \
                                self.sites[v][1].split('#')[0] in ('malloc', 'calloc', 'realloc'):
                            nv = dict(s.v)
                            nv[var] = 'null'
                            no = dict(s.o)
                            no[v] = 'null'
                            return s.put(v=nv, o=no)
                        return None
            ck = self.ckeys.get(b.id)
            if ck is not None:
                k = ck[0]
                if ck[2] and isinstance(lab, bool):
                    lab = not lab
                prev = s.d.get(k)
                if b.kind == 'switch' and isinstance(lab, tuple):
                    pass
                if prev is not None and prev != lab:
                    return None
                if prev is None:
                    d = dict(s.d)
                    d[k] = lab
                    s = s.put(d=d)
            return s

        seen = explore(cfg, St({}, {}, {}), transfer, edge)
        for s in seen.get(cfg.exit.id, ()):
            for o, st in s.o.items():
                if st == 'own':
                    self.rep('leak', o, None, 'still owned at a return')
        for o, b, r in self.coll:
            heads = set()
            for fb in self.elem_free.get(r, ()):
                heads.add(fb.id)
                for x in cfg.live:
                    if x.kind == 'loop' and fb.loops and len(x.loops) <= len(fb.loops) and fb.loops[:len(x.loops)] == x.loops and \
                            (not b.loops or x.loops != b.loops[:len(x.loops)]):
                        heads.add(x.id)
            if cfg.reaches(b, cfg.exit, heads):
                self.rep('leak', o, b, 'array elements not freed on some path')
        return self.reports


def rank0(e):
    e = strip(e)
    return e.k == 'bin' and e.a == '==' and any(x.k == 'call' and x.a and x.a[0] == 'bml_getMyRank' for x in walk(e)) and \
        any(x.k == 'int' and x.a == 0 for x in walk(e))


def interior(n):
    """&p[i], p + k: points into an object it does not own."""
    n = strip(n)
    return n.k == 'bin' or (n.k == 'un' and n.a == '&')


GETTERS = {'bml_get_type', 'bml_get_precision', 'bml_get_N', 'bml_get_M', 'bml_getMyRank', 'bml_getNRanks',
           'bml_get_distribution_mode', 'bml_get_deep_type'}


def nulltest(e):
    """(variable, truth value under which it is NULL) for p == NULL, p != NULL, p."""
    e = strip(e)
    if e.k == 'ref' and isptr(e.ty):
        return e.a[1], False
    if e.k == 'bin' and e.a in ('==', '!='):
        a, b = strip(e.c[0]), strip(e.c[1])
        if b.k == 'ref':
            a, b = b, a
        if a.k == 'ref' and isptr(a.ty) and b.k == 'int' and b.a == 0:
            return a.a[1], e.a == '=='
    return None


def base_var(n):
    """Variable at the bottom of x[i], *x, x[i][j]."""
    n = strip(n)
    while n is not None and (n.k == 'idx' or (n.k == 'un' and n.a == '*') or n.k == 'cast' or (n.k == 'bin' and n.a in '+-')):
        n = n.c[0]
    return n.a[1] if n is not None and n.k == 'ref' and n.a[2] in ('var', 'parm') else None
