"""Expansion of helper functions into their callers, on the syntax tree.

A helper is a static function, or a function that does not exist on the reviewed
tree.  Expanding them makes every rule see what the code does rather than how it
is split into functions."""
from core import N, Var, kids, walk, _fresh

MAXDEPTH = 6


def _ref(v, line):
    return N('ref', line, v.ty, [v.name, v.id, 'var'], [])


def clone(n):
    """Copy that keeps all variable ids."""
    if n is None:
        return None
    if n.k == 'decl':
        vs = []
        for v in n.a:
            x = Var()
            x.name, x.ty, x.storage, x.line, x.id = v.name, v.ty, v.storage, v.line, v.id
            x.vla, x.init = clone(v.vla), clone(v.init)
            vs.append(x)
        return N('decl', n.line, n.ty, vs, [], n.src)
    a = n.a
    if n.k == 'omp':
        a = dict(a)
        a['clauses'] = [[x, o, [clone(e) for e in l]] for x, o, l in a['clauses']]
    return N(n.k, n.line, n.ty, a, [clone(x) for x in n.c], n.src)


PURE = {'ref', 'int', 'float', 'imag', 'enum', 'mem', 'idx', 'bin', 'cast', 'sizeof', 'cond', 'str'}


def pure(n):
    for x in walk(n):
        if x.k == 'un':
            if x.a.startswith('pre') or x.a.startswith('post'):
                return False
        elif x.k not in PURE:
            return False
    return True


def subst(n, m):
    """Clone n, replacing references to variable ids in m by expressions."""
    if n is None:
        return None
    if n.k == 'ref' and n.a[1] in m and n.a[2] in ('parm', 'var'):
        return clone(m[n.a[1]])
    return N(n.k, n.line, n.ty, n.a, [subst(x, m) for x in n.c], n.src)


def single_return(f):
    """The expression e when f's body is just `return e;` (pure or with calls)."""
    st = [s for s in (f.body.c if f.body.k == 'block' else [f.body]) if s is not None and s.k != 'null']
    if len(st) == 1 and st[0].k == 'return' and st[0].c and st[0].c[0] is not None:
        return st[0].c[0]
    return None


class Expander:
    def __init__(self, prog, fn):
        self.p, self.fn = prog, fn
        self.stack = [fn.name]
        self.frm = [fn]

    def helper(self, call):
        if call.k != 'call' or call.a is None:
            return None
        f = self.p.lookup(call.a[0], self.frm[-1])
        if f is None or f._raw is None and f._body is None:
            return None
        if not (self.p.is_helper(f) or f.name in self.p.also) or f.name in self.stack or len(self.stack) > MAXDEPTH or f.variadic:
            return None
        if len(call.c) - 1 != len(f.params):
            return None
        return f

    def has_helper(self, n):
        return any(self.helper(x) is not None for x in walk(n) if x.k == 'call')

    # --- statements
    def stmt(self, n):
        if n is None:
            return None
        k = n.k
        if k == 'block':
            out = []
            for s in n.c:
                out.append(self.stmt(s))
            return N(k, n.line, n.ty, n.a, out, n.src)
        if k == 'omp':
            a = n.a
            return N(k, n.line, n.ty, a, [self.stmt(x) for x in n.c], n.src)
        if k == 'for':
            init, cond, inc, body = n.c
            pre, init2 = self.hoist_stmt(init)
            if (cond is not None and self.needs_hoist(cond)) or (inc is not None and self.needs_hoist(inc)):
                cpre, c2 = self.expr(cond) if cond is not None else ([], None)
                ipre, i2 = self.expr(inc) if inc is not None else ([], None)
                inner = cpre[:]
                if c2 is not None:
                    inner.append(N('if', n.line, '', None,
                                   [c2, N('null', n.line, '', None, []), N('break', n.line, '', None, [])]))
                # the increment runs at the end; `continue` keeps its meaning through the for form
                incb = N('block', n.line, '', None, ipre + ([i2] if i2 is not None else []))
                b = N('block', n.line, '', None, inner + [self.stmt(body)])
                r = N('for', n.line, '', None, [init2, None, incb, b], n.src)
            else:
                r = N('for', n.line, '', None, [init2, self.se(cond), self.se(inc), self.stmt(body)], n.src)
            return self.wrap(pre, r)
        if k == 'while':
            cond, body = n.c
            if self.needs_hoist(cond):
                cpre, c2 = self.expr(cond)
                b = N('block', n.line, '', None, cpre + [
                    N('if', n.line, '', None, [c2, N('null', n.line, '', None, []), N('break', n.line, '', None, [])]),
                    self.stmt(body)])
                return N('while', n.line, '', None, [N('int', n.line, 'int', 1, []), b], n.src)
            return N('while', n.line, '', None, [self.se(cond), self.stmt(body)], n.src)
        if k == 'do':
            body, cond = n.c
            return N('do', n.line, '', None, [self.stmt(body), self.se(cond)], n.src)
        if k == 'if':
            pre, c = self.expr(n.c[0])
            return self.wrap(pre, N('if', n.line, '', None, [c, self.stmt(n.c[1]), self.stmt(n.c[2])], n.src))
        if k == 'switch':
            pre, c = self.expr(n.c[0])
            return self.wrap(pre, N('switch', n.line, '', None, [c, self.stmt(n.c[1])], n.src))
        if k in ('case', 'default', 'label'):
            return N(k, n.line, n.ty, n.a, [self.stmt(x) for x in n.c], n.src)
        if k == 'return' and n.c and n.c[0] is not None:
            pre, e = self.expr(n.c[0])
            return self.wrap(pre, N(k, n.line, n.ty, n.a, [e], n.src))
        if k == 'decl':
            if not self.has_helper(n):
                return n
            pre, vs = [], []
            for v in n.a:
                x = Var()
                x.name, x.ty, x.storage, x.line, x.id, x.vla = v.name, v.ty, v.storage, v.line, v.id, v.vla
                x.init = v.init
                if v.init is not None:
                    q, x.init = self.expr(v.init)
                    pre += q
                vs.append(x)
            # splice, so that the declared names stay in scope
            return N('splice', n.line, '', None, pre + [N('decl', n.line, n.ty, vs, [], n.src)], n.src)
        if k in ('break', 'continue', 'null', 'goto', 'leave'):
            return n
        # expression statement
        if n.k == 'call' and self.helper(n) is not None:
            f = self.helper(n)
            pre, blk, _ = self.expand_call(n, f, want=False)
            return self.wrap(pre, blk)
        pre, e = self.expr(n)
        return self.wrap(pre, e)

    def wrap(self, pre, s):
        if not pre:
            return s
        return N('splice', s.line if s is not None else 0, '', None, pre + ([s] if s is not None else []))

    def hoist_stmt(self, n):
        if n is None:
            return [], None
        if n.k == 'decl':
            r = self.stmt(n)
            if r.k == 'splice':
                return r.c[:-1], r.c[-1]
            return [], r
        return self.expr(n)

    def se(self, e):
        if e is None:
            return None
        pre, r = self.expr(e)
        return r if not pre else e

    def needs_hoist(self, e):
        if not self.has_helper(e):
            return False
        pre, _ = self.expr(e)
        return bool(pre)

    # --- expressions: returns (statements to run first, replacement)
    def expr(self, n):
        if n is None or not self.has_helper(n):
            return [], n
        if n.k == 'bin' and n.a in ('&&', '||'):
            p1, a = self.expr(n.c[0])
            p2, b = self.expr(n.c[1])
            return p1 + p2, N(n.k, n.line, n.ty, n.a, [a, b], n.src)
        pre, cs = [], []
        for x in n.c:
            q, y = self.expr(x)
            pre += q
            cs.append(y)
        m = N(n.k, n.line, n.ty, n.a, cs, n.src)
        f = self.helper(m)
        if f is None:
            return pre, m
        e = single_return(f)
        if e is not None and all(pure(x) for x in cs[1:]):
            self.stack.append(f.name)
            self.frm.append(f)
            q, e2 = self.expr(subst(e, {p[1]: _castto(x, p[2]) for p, x in zip(f.params, cs[1:])}))
            self.stack.pop()
            self.frm.pop()
            return pre + q, e2
        q, blk, ref = self.expand_call(m, f, want=True)
        return pre + q + [blk], ref

    def expand_call(self, call, f, want):
        pre, args = [], []
        for x in call.c[1:]:
            q, y = self.expr(x)
            pre += q
            args.append(y)
        m, decls = {}, []
        written = assigned_ids(f.body)
        for p, x in zip(f.params, args):
            if x.k in ('ref', 'int', 'enum') and p[1] not in written and x.k != 'ref':
                m[p[1]] = x
                continue
            if x.k == 'ref' and p[1] not in written and x.a[2] in ('var', 'parm') and x.a[1] not in written:
                m[p[1]] = _KeepRef(x)
                continue
            v = Var()
            v.name, v.id, v.ty, v.storage, v.line, v.vla = p[0], next(_fresh), p[2], 'auto', call.line, None
            v.init = _castto(x, p[2])
            decls.append(N('decl', call.line, '', [v], []))
            m[p[1]] = v.id
        src = f.file
        body = copy_renamed(f.body, m, src)
        self.stack.append(f.name)
        self.frm.append(f)
        body = self.stmt(body)
        self.stack.pop()
        self.frm.pop()
        ret = None
        if f.ret != 'void':
            ret = Var()
            ret.name, ret.id, ret.ty, ret.storage, ret.line, ret.vla, ret.init = \
                '__ret_' + f.name, next(_fresh), f.ret, 'auto', call.line, None, None
        lab = next(_fresh)
        body = _leave(body, lab, ret)
        blk = N('inl', call.line, '', {'fn': f.name, 'label': lab}, [N('block', call.line, '', None, decls + [body])], src)
        if ret is not None and want:
            pre = pre + [N('decl', call.line, '', [ret], [])]
            return pre, blk, _ref(ret, call.line)
        if ret is not None:
            pre = pre + [N('decl', call.line, '', [ret], [])]
        return pre, blk, None


class _KeepRef:
    def __init__(self, n):
        self.n = n


def copy_renamed(n, m, src):
    if n is None:
        return None
    if n.k == 'decl':
        vs = []
        for v in n.a:
            x = Var()
            x.name, x.ty, x.storage, x.line = v.name, v.ty, v.storage, v.line
            x.id = m.setdefault(v.id, next(_fresh)) if v.storage == 'auto' else v.id
            x.vla = copy_renamed(v.vla, m, src)
            x.init = copy_renamed(v.init, m, src)
            vs.append(x)
        return N('decl', n.line, n.ty, vs, [], src)
    a = n.a
    if n.k == 'ref' and a[2] in ('var', 'parm'):
        r = m.get(a[1])
        if r is None and a[2] == 'var':
            r = m.setdefault(a[1], next(_fresh))
        if isinstance(r, _KeepRef):
            return clone(r.n)
        if isinstance(r, N):
            return clone(r)
        if r is not None:
            return N('ref', n.line, n.ty, [a[0], r, 'var'], [], src)
        return N('ref', n.line, n.ty, list(a), [], src)
    if n.k == 'omp':
        a = dict(a)
        a['clauses'] = [[x, o, [copy_renamed(e, m, src) for e in l]] for x, o, l in a['clauses']]
    return N(n.k, n.line, n.ty, a, [copy_renamed(x, m, src) for x in n.c], src)


def _castto(x, ty):
    if x.ty == ty or x.k in ('int',) or ty.endswith('*'):
        return x
    return x


def assigned_ids(body):
    s = set()
    for x in walk(body):
        t = None
        if x.k == 'asg':
            t = x.c[0]
        elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post') or x.a == '&'):
            t = x.c[0]
        while t is not None and t.k == 'cast':
            t = t.c[0]
        if t is not None and t.k == 'ref':
            s.add(t.a[1])
    return s


def _leave(n, lab, ret):
    """Turn `return e` into an assignment to the result and a jump out."""
    if n is None:
        return None
    if n.k == 'return':
        out = []
        if n.c and n.c[0] is not None:
            if ret is not None:
                out.append(N('asg', n.line, ret.ty, '=', [_ref(ret, n.line), n.c[0]], n.src))
            else:
                out.append(n.c[0])
        out.append(N('leave', n.line, '', lab, [], n.src))
        return N('block', n.line, '', None, out, n.src)
    if n.k in ('block', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'label', 'omp', 'inl', 'splice'):
        return N(n.k, n.line, n.ty, n.a, [_leave(x, lab, ret) for x in n.c], n.src)
    return n


def flatten(n):
    """Splice statement lists into the enclosing block."""
    if n is None:
        return None
    if n.k == 'block':
        out = []

        def add(s):
            if s is None:
                return
            if s.k == 'splice':
                for y in s.c:
                    add(y)
            else:
                out.append(flatten(s))
        for s in n.c:
            add(s)
        return N('block', n.line, n.ty, n.a, out, n.src)
    if n.k == 'splice':
        return flatten(N('block', n.line, '', None, n.c, n.src))
    if n.k in ('if', 'for', 'while', 'do', 'switch', 'case', 'default', 'label', 'omp', 'inl'):
        return N(n.k, n.line, n.ty, n.a, [flatten(x) for x in n.c], n.src)
    return n


def choice(n):
    """return c ? a : b   is   if (c) return a; else return b, and so is a returned truth value."""
    if n is None or not isinstance(n, N):
        return n
    if n.k == 'return' and n.c and n.c[0] is not None:
        e, ts = n.c[0], []
        while e.k == 'cast' and e.ty == n.c[0].ty:
            e = e.c[0]
        if e.k == 'cond':
            a = choice(N('return', n.line, n.ty, n.a, [e.c[1]], n.src))
            b = choice(N('return', n.line, n.ty, n.a, [e.c[2]], n.src))
            return N('if', n.line, '', None, [e.c[0], a, b], n.src)
        if (e.k == 'bin' and e.a in ('==', '!=', '<', '>', '<=', '>=', '&&', '||') or e.k == 'un' and e.a == '!') \
                and n.c[0].ty in ('int', '_Bool', 'bool'):
            # a truth value is one or zero
            a, b = (N('return', n.line, n.ty, n.a, [N('int', n.line, 'int', v, [])], n.src) for v in (1, 0))
            return N('if', n.line, '', None, [e, a, b], n.src)
        return n
    if n.k in ('block', 'splice', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'label', 'omp', 'inl'):
        c = [choice(x) for x in n.c]
        if any(x is not y for x, y in zip(c, n.c)):
            return N(n.k, n.line, n.ty, n.a, c, n.src)
    return n


# library functions and the arguments they only write
OUTS = {'MPI_Cart_shift': (3, 4), 'MPI_Get_count': (2,), 'MPI_Comm_rank': (1,), 'MPI_Comm_size': (1,),
        'MPI_Get_address': (1,), 'MPI_Type_size': (1,)}


def regions(body):
    """A variable that is asked for afresh (&v handed to a function that only writes it) in
    several places, each use being ruled by one of them, is that many variables."""
    asked = {}                      # variable -> [(block, position)]

    def outs(s):
        if s is None or s.k != 'call' or s.a is None or s.a[0] not in OUTS:
            return
        for j in OUTS[s.a[0]]:
            e = s.c[1 + j] if 1 + j < len(s.c) else None
            while e is not None and e.k == 'cast':
                e = e.c[0]
            if e is not None and e.k == 'un' and e.a == '&' and e.c[0].k == 'ref' and e.c[0].a[2] == 'var':
                yield e.c[0]
    for b in walk(body):
        if b.k == 'block':
            for i, s in enumerate(b.c):
                for r in outs(s):
                    asked.setdefault(r.a[1], []).append((b, i))
    decls = {v.id: v for x in walk(body) if x.k == 'decl' for v in x.a}
    for vid, defs in asked.items():
        v = decls.get(vid)
        if len(defs) < 2 or v is None or v.init is not None or v.storage == 'static':
            continue
        total = sum(1 for x in walk(body) if x.k == 'ref' and x.a[1] == vid)
        spans, seen = [], []
        for b, i in defs:
            j = min([q for c, q in defs if c is b and q > i] or [len(b.c)])
            m = [x for s in b.c[i:j] if s is not None for x in walk(s) if x.k == 'ref' and x.a[1] == vid]
            seen += map(id, m)
            spans.append((b, i, j, m))
        if len(seen) != total or len(set(seen)) != total:
            continue
        yield v, spans


def apart(body):
    if not any(x.k == 'call' and x.a is not None and x.a[0] in OUTS for x in walk(body)):
        return body
    todo = list(regions(body))
    if not todo:
        return body
    body = clone(body)
    for v, spans in list(regions(body)):
        for b, i, j, m in spans[1:]:
            x = Var()
            x.name, x.ty, x.storage, x.line, x.vla, x.init = v.name, v.ty, v.storage, v.line, None, None
            x.id = next(_fresh)
            for r in m:
                r.a = [r.a[0], x.id, r.a[2]]
            for y in walk(body):
                if y.k == 'decl' and v in y.a:
                    y.a.append(x)
                    break
    return body


def expand(prog, fn):
    e = Expander(prog, fn)
    import walkptr, loops
    return apart(choice(loops.rebase(loops.prefix(walkptr.normal(flatten(e.stmt(fn.body)) if e.has_helper(fn.body) else fn.body)))))
