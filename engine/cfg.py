"""Control-flow graph of one (helper-expanded) function body."""
from core import N, kids, walk, show


class B:
    __slots__ = ('id', 'kind', 'ast', 'succ', 'pred', 'loops', 'omp', 'src')

    def __init__(self, id, kind, ast, loops, omp):
        self.id, self.kind, self.ast, self.loops, self.omp = id, kind, ast, loops, omp
        self.succ, self.pred = [], []

    def __repr__(self):
        return '#%d %s %s' % (self.id, self.kind, show(self.ast) if self.ast is not None else '')

    @property
    def line(self):
        return self.ast.line if self.ast is not None else 0


NORETURN = {'exit', 'abort', '_exit', '__assert_fail', 'MPI_Abort'}


def fatal_call(n):
    if n.k != 'call' or not n.a:
        return False
    if n.a[0] in NORETURN or n.a[1]:
        return True
    if n.a[0] in ('bml_log', 'bml_log_location') and len(n.c) > 1:
        x = n.c[1]
        while x.k == 'cast':
            x = x.c[0]
        return x.k == 'enum' and x.a[0] == 'BML_LOG_ERROR'
    return False


def is_assert(n):
    """assert(x): a conditional whose failing side does not return."""
    if n.k == 'cast':
        return is_assert(n.c[0])
    return n.k == 'cond' and any(fatal_call(x) for y in n.c[1:] for x in walk(y))


class CFG:
    def __init__(self, body):
        self.nodes = []
        self.loops, self.ompst = (), ()
        self.entry = self.new('entry', None)
        self.exit = self.new('exit', None)
        self.brk, self.cont, self.leave = [[]], [[]], {}   # a loop body on its own: leaving it ends it
        self.labels, self.gotos = {}, []
        out = self.st(body, [(self.entry, None)])
        out = out + self.cont[0] + self.brk[0]
        self.fall = out
        self.join(out, self.exit)
        for b, lab in self.gotos:
            if lab in self.labels:
                self.edge(b, self.labels[lab], None)
        self.prune()

    def new(self, kind, ast):
        b = B(len(self.nodes), kind, ast, self.loops, self.ompst)
        self.nodes.append(b)
        return b

    def edge(self, a, b, lab):
        a.succ.append((b, lab))
        b.pred.append((a, lab))

    def join(self, outs, b):
        for a, lab in outs:
            self.edge(a, b, lab)

    def cond(self, e, ins):
        """-> (true exits, false exits)"""
        if e.k == 'un' and e.a == '!':
            t, f = self.cond(e.c[0], ins)
            return f, t
        if e.k == 'bin' and e.a == '&&':
            t, f = self.cond(e.c[0], ins)
            t2, f2 = self.cond(e.c[1], t)
            return t2, f + f2
        if e.k == 'bin' and e.a == '||':
            t, f = self.cond(e.c[0], ins)
            t2, f2 = self.cond(e.c[1], f)
            return t + t2, f2
        if e.k == 'int':
            b = self.new('expr', e)
            self.join(ins, b)
            return ([(b, None)], []) if e.a else ([], [(b, None)])
        b = self.new('branch', e)
        self.join(ins, b)
        return [(b, True)], [(b, False)]

    def simple(self, n, ins, kind='expr'):
        if is_assert(n):
            c = n
            while c.k == 'cast':
                c = c.c[0]
            tf = any(fatal_call(x) for x in walk(c.c[2]))
            t, f = self.cond(c.c[0], ins)
            return t if tf else f
        b = self.new(kind, n)
        self.join(ins, b)
        dead = any(fatal_call(x) for x in uncond(n))
        if dead:
            b.kind = 'fatal'
            return []
        return [(b, None)]

    def st(self, n, ins):
        if n is None or (not ins and not has_label(n)):
            return ins
        k = n.k
        if k in ('block', 'splice'):
            for s in n.c:
                ins = self.st(s, ins)
            return ins
        if k == 'null':
            return ins
        if k == 'decl':
            return self.simple(n, ins, 'decl')
        if k == 'if':
            t, f = self.cond(n.c[0], ins)
            o = self.st(n.c[1], t)
            return o + (self.st(n.c[2], f) if n.c[2] is not None else f)
        if k in ('for', 'while', 'do'):
            if k == 'for':
                init, c, inc, body = n.c
                if init is not None:
                    ins = self.st(init, ins)
            elif k == 'while':
                (c, body), inc = n.c, None
            else:
                (body, c), inc = n.c, None
            old = self.loops
            self.loops = old + (n,)
            self.brk.append([])
            self.cont.append([])
            head = self.new('loop', None)
            head.ast = None
            self.join(ins, head)
            if k != 'do':
                if c is not None:
                    t, f = self.cond(c, [(head, None)])
                else:
                    t, f = [(head, None)], []
                o = self.st(body, t) + self.cont.pop()
                if inc is not None and o:
                    o = self.st(inc, o)
                self.join(o, head)
            else:
                o = self.st(body, [(head, None)]) + self.cont.pop()
                t, f = self.cond(c, o) if o else ([], [])
                self.join(t, head)
            self.loops = old
            return f + self.brk.pop()
        if k == 'switch':
            b = self.new('switch', n.c[0])
            self.join(ins, b)
            self.brk.append([])
            from peval import flat_cases
            items = flat_cases(n.c[1])
            cur = []
            vals = [s.a for s in items if s.k == 'case']
            for s in items:
                if s.k == 'case':
                    cur = cur + [(b, ('case', s.a))]
                elif s.k == 'default':
                    cur = cur + [(b, ('default', tuple(vals)))]
                else:
                    cur = self.st(s, cur)
            if not any(s.k == 'default' for s in items):
                cur = cur + [(b, ('default', tuple(vals)))]
            return cur + self.brk.pop()
        if k == 'break':
            self.brk[-1] += ins
            return []
        if k == 'continue':
            self.cont[-1] += ins
            return []
        if k == 'return':
            b = self.new('return', n)
            self.join(ins, b)
            self.edge(b, self.exit, None)
            return []
        if k == 'inl':
            self.leave[n.a['label']] = []
            o = self.st(n.c[0], ins)
            return o + self.leave.pop(n.a['label'])
        if k == 'leave':
            self.leave[n.a] += ins
            return []
        if k == 'omp':
            b = self.new('omp', n)
            self.join(ins, b)
            old = self.ompst
            self.ompst = old + (n,)
            o = self.st(n.c[0], [(b, None)]) if n.c and n.c[0] is not None else [(b, None)]
            self.ompst = old
            e = self.new('ompend', n)
            self.join(o, e)
            return [(e, None)]
        if k == 'label':
            b = self.new('expr', N('null', n.line, '', None, []))
            self.labels[n.a] = b
            self.join(ins, b)
            return self.st(n.c[0], [(b, None)])
        if k == 'goto':
            for a, lab in ins:
                b = self.new('expr', N('null', n.line, '', None, []))
                self.edge(a, b, lab)
                self.gotos.append((b, n.a))
            return []
        return self.simple(n, ins)

    def prune(self):
        seen, st = set(), [self.entry]
        while st:
            b = st.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            st += [s for s, _ in b.succ]
        self.live = [b for b in self.nodes if b.id in seen]
        for b in self.live:
            b.pred = [(p, l) for p, l in b.pred if p.id in seen]

    # dominance over live nodes
    def dominators(self):
        order = self.rpo()
        dom = {self.entry.id: {self.entry.id}}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b is self.entry:
                    continue
                ps = [dom[p.id] for p, _ in b.pred if p.id in dom]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b.id}
                if dom.get(b.id) != d:
                    dom[b.id] = d
                    ch = True
        return dom

    def rpo(self):
        seen, out = set(), []

        def go(b):
            st = [(b, iter(b.succ))]
            seen.add(b.id)
            while st:
                x, it = st[-1]
                for s, _ in it:
                    if s.id not in seen:
                        seen.add(s.id)
                        st.append((s, iter(s.succ)))
                        break
                else:
                    out.append(x)
                    st.pop()
        go(self.entry)
        return out[::-1]

    def reaches(self, a, b, avoid=()):
        """Is b reachable from a (a's successors on) without passing a node in avoid?"""
        seen, st = set(), [s for s, _ in a.succ]
        while st:
            x = st.pop()
            if x.id in seen or x.id in avoid:
                continue
            if x is b:
                return True
            seen.add(x.id)
            st += [s for s, _ in x.succ]
        return False


def uncond(n):
    """Sub-expressions evaluated whenever n is."""
    yield n
    if n.k == 'cond':
        yield from uncond(n.c[0])
        return
    if n.k == 'bin' and n.a in ('&&', '||'):
        yield from uncond(n.c[0])
        return
    for x in kids(n):
        yield from uncond(x)


def has_label(n):
    return any(x.k in ('label', 'case', 'default') for x in walk(n))


def explore(cfg, init, transfer, edge=None, cap=60000):
    """Disjunctive forward analysis: every (node, abstract state) pair reachable.
    transfer(node, state) -> iterable of states; edge(node, label, state) -> state or None.
    Returns {node id: set of states on entry}."""
    seen = {}
    st = [(cfg.entry, init)]
    seen[cfg.entry.id] = {init}
    n = 0
    while st:
        b, s = st.pop()
        n += 1
        if n > cap:
            raise RuntimeError('state explosion')
        for s2 in transfer(b, s):
            for t, lab in b.succ:
                s3 = edge(b, lab, s2) if edge is not None and lab is not None else s2
                if s3 is None:
                    continue
                q = seen.setdefault(t.id, set())
                if s3 not in q:
                    q.add(s3)
                    st.append((t, s3))
    return seen
