"""Loops over a stretch of an array, in one form.

    for (v = e; v < e + n; v++) S[v]                                becomes   for (v = 0; v < n; v++) S[e + v]
    for (i = 0; i < a; i++) for (j = 0; j < b; j++) S[i * b + j]    becomes   for (k = 0; k < a * b; k++) S[k]"""
from core import N, walk
from search import peel, pure, written, STMT, copyvar, ids
from inline import subst, _ref, Var
from canon import META
import inline

SIMPLE = ('ref', 'int', 'bin', 'cast', 'mem')


def same(a, b):
    a, b = peel(a), peel(b)
    if a.k != b.k or len(a.c) != len(b.c):
        return False
    if a.k == 'ref':
        return a.a[1] == b.a[1]
    return a.a == b.a and all(same(x, y) for x, y in zip(a.c, b.c))


def minus(l, e):
    """n when l is written e + n."""
    l = peel(l)
    if l.k == 'bin' and l.a == '+':
        for x, y in ((l.c[0], l.c[1]), (l.c[1], l.c[0])):
            if same(x, e):
                return y
            z = minus(x, e)
            if z is not None:
                return N('bin', l.line, l.ty, '+', [z, y])
    return None


def step1(inc, v):
    inc = peel(inc) if inc is not None else None
    if inc is None:
        return False
    if inc.k == 'un' and inc.a in ('pre++', 'post++'):
        return peel(inc.c[0]).k == 'ref' and peel(inc.c[0]).a[1] == v
    return inc.k == 'asg' and inc.a == '+=' and peel(inc.c[0]).k == 'ref' and peel(inc.c[0]).a[1] == v and peel(inc.c[1]).k == 'int' and peel(inc.c[1]).a == 1


def counter(n):
    """(variable, start, limit) of a loop that counts up by one to a limit with its own counter."""
    init, c, inc, body = n.c
    if init is None or init.k != 'decl' or len(init.a) != 1 or c is None:
        return None
    v = init.a[0]
    if v.init is None or v.ty.replace('const', '').strip() not in ('int', 'size_t', 'long', 'unsigned long', 'unsigned int'):
        return None
    c = peel(c)
    if c.k != 'bin' or c.a not in ('<', '>') or not step1(inc, v.id):
        return None
    x, l = (c.c[0], c.c[1]) if c.a == '<' else (c.c[1], c.c[0])
    if peel(x).k != 'ref' or peel(x).a[1] != v.id or v.id in ids(l) or changed(body, {v.id}):
        return None
    return v, v.init, l


def changed(body, vs):
    if written(body, vs):
        return True
    return any(x.k == 'un' and x.a == '&' and peel(x.c[0]).k == 'ref' and peel(x.c[0]).a[1] in vs for x in walk(body))


def elem(ty):
    return any(w in ty for w in ('float', 'double')) and '*' not in ty


def steady(e, body):
    """Nothing e is made of changes in body."""
    if pure(e) and all(x.k != 'asg' and not (x.k == 'un' and x.a[:2] in ('pr', 'po')) and x.k != 'call' or x.k in ('asg', 'un') and peel(x.c[0]).k == 'ref'
                       or x.k == 'call' and reader(x) for x in walk(body)):
        return not changed(body, ids(e))
    # whole numbers kept in memory stay the same when only elements are stored
    floats = pure(e) and all(x.k != 'asg' and not (x.k == 'un' and x.a[:2] in ('pr', 'po')) and x.k != 'call' or x.k == 'call' and reader(x)
                             or x.k in ('asg', 'un') and (peel(x.c[0]).k == 'ref' or elem(peel(x.c[0]).ty)) for x in walk(body))
    for x in walk(e):
        if floats and x.k == 'idx' and x.ty.replace('const', '').strip() == 'int':
            continue
        if x.k not in SIMPLE or x.k == 'mem' and (x.a[0] if isinstance(x.a, (list, tuple)) else x.a) not in META:
            return False
    return not changed(body, ids(e))


def sub(n, m):
    """subst, through declarations too."""
    if n is None or not isinstance(n, N):
        return n
    if n.k == 'decl':
        vs = []
        for v in n.a:
            w = copyvar(v)
            w.init = sub(v.init, m) if v.init is not None else None
            w.vla = sub(v.vla, m) if v.vla is not None else None
            vs.append(w)
        return N('decl', n.line, n.ty, vs, n.c, n.src)
    if n.k == 'ref' and n.a[1] in m and n.a[2] in ('parm', 'var'):
        return inline.clone(m[n.a[1]])
    return N(n.k, n.line, n.ty, n.a, [sub(x, m) for x in n.c], n.src)


def rebase(n):
    if n is None or not isinstance(n, N) or n.k not in STMT:
        return n
    n = N(n.k, n.line, n.ty, n.a, [rebase(x) for x in n.c], n.src)
    if n.k != 'for':
        return n
    q = counter(n)
    if q is None:
        return n
    v, e, l = q
    e = peel(e)
    if e.k == 'int' or not steady(e, n.c[3]):
        return n
    cnt = minus(l, e)
    if cnt is None or not pure(cnt):
        return n
    w = copyvar(v)
    w.init = N('int', n.line, 'int', 0, [])
    r = N('ref', n.line, 'int', [v.name, v.id, 'var'], [])
    body = sub(n.c[3], {v.id: N('bin', n.line, 'int', '+', [e, r])})
    return N('for', n.line, n.ty, n.a, [N('decl', n.line, '', [w], []), N('bin', n.line, 'int', '<', [r, cnt]), n.c[2], body], n.src)


def only(b):
    """The single statement of a block, and the omp directive around it is looked through."""
    while b is not None and b.k in ('block', 'splice', 'omp'):
        l = [x for x in b.c if x is not None and x.k != 'null']
        if len(l) != 1:
            return None
        b = l[0]
    return b


def collapse(n):
    if n is None or not isinstance(n, N) or n.k not in STMT:
        return n
    n = N(n.k, n.line, n.ty, n.a, [collapse(x) for x in n.c], n.src)
    if n.k != 'for':
        return n
    o = counter(n)
    y = only(n.c[3]) if o else None
    if o and y is None:
        # names for parts of the row: put in their place
        l = [x for x in n.c[3].c if x is not None and x.k != 'null'] if n.c[3].k == 'block' else []
        if len(l) > 1 and l[-1].k == 'for' and all(x.k == 'decl' and all(d.init is not None and d.vla is None and d.storage == 'auto' and not d.ty.endswith(']')
                                                                            for d in x.a) for x in l[:-1]):
            m = {}
            for x in l[:-1]:
                for d in x.a:
                    m[d.id] = sub(d.init, m)
            if all(steady(e, l[-1]) for e in m.values()) and not changed(l[-1], set(m)):
                y = sub(l[-1], m)
    i = counter(y) if y is not None and y.k == 'for' else None
    if i is None:
        return n
    (v, v0, a), (w, w0, b), body = o, i, y.c[3]
    z = rowwise(n, y, o, i)
    if z is not None:
        return z
    if peel(w0).k != 'int' or peel(w0).a != 0 or not pure(v0) or not steady(a, body) or not steady(b, body) or v.id in ids(b) \
            or any(x.k in ('break', 'leave', 'label', 'goto') for x in walk(body)):
        return n
    k = copyvar(v)
    k.id, k.name = next(inline._fresh), v.name + w.name
    r = N('ref', n.line, 'int', [k.name, k.id, 'var'], [])
    B = peel(b)

    def terms(e):
        e = peel(e)
        if e.k == 'bin' and e.a == '+':
            return terms(e.c[0]) + terms(e.c[1])
        return [e]

    def go(x):
        if x is None or not isinstance(x, N):
            return x
        if x.k == 'idx' and v.id in ids(x.c[0]) and peel(x.c[0]).k == 'bin' and peel(x.c[0]).a == '+':
            b0 = peel(x.c[0])
            for s in (0, 1):
                if v.id not in ids(b0.c[s]):
                    return go(N('idx', x.line, x.ty, x.a, [b0.c[s], N('bin', x.line, 'int', '+', [b0.c[1 - s], x.c[1]])], x.src))
        if x.k == 'bin' and x.a == '+':
            t = terms(x)
            p = [z for z in t if z.k == 'bin' and z.a == '*' and any(peel(z.c[s]).k == 'ref' and peel(z.c[s]).a[1] == v.id and same(z.c[1 - s], B) for s in (0, 1))]
            q = [z for z in t if z.k == 'ref' and z.a[1] == w.id]
            if len(p) == 1 and len(q) == 1:
                out = r
                for z in t:
                    if z is not p[0] and z is not q[0]:
                        out = N('bin', x.line, x.ty, '+', [out, go(z)])
                return out
        if x.k == 'decl':
            vs = []
            for d in x.a:
                c = copyvar(d)
                c.init = go(d.init) if d.init is not None else None
                c.vla = go(d.vla) if d.vla is not None else None
                vs.append(c)
            return N('decl', x.line, x.ty, vs, x.c, x.src)
        return N(x.k, x.line, x.ty, x.a, [go(z) for z in x.c], x.src)
    nb = go(body)
    if ids(nb) & {v.id, w.id}:
        return n
    k.init = v0 if peel(v0).k == 'int' and peel(v0).a == 0 else N('bin', n.line, 'int', '*', [v0, b])
    return N('for', n.line, n.ty, n.a, [N('decl', n.line, '', [k], []),
             N('bin', n.line, 'int', '<', [r, N('bin', n.line, 'int', '*', [a, b])]),
             N('un', n.line, 'int', 'post++', [r]), nb], n.src)


def reader(e):
    """An expression that only reads: pure but for the look-up of an element."""
    if pure(e):
        return True
    return all(pure(x) or not x.c or x.k == 'call' and x.a is not None and x.a[0].startswith('bml_get_element') and all(pure(z) for z in x.c[1:])
               or x.k in ('cast', 'idx', 'bin') or x.k == 'un' and x.a in ('*', '-', '!') for x in walk(e))


def prefix(body):
    """s = e; for (k = 0; k < n; k++) { X[k] = s; s += g(k); }   becomes   X[0] = e; for (k = 1; k < n; k++) X[k] = X[k - 1] + g(k - 1)
    for a sum that is used for nothing else."""
    if not any(x.k == 'for' for x in walk(body)):
        return body
    count, defs = {}, {}
    for x in walk(body):
        if x.k == 'ref' and x.a[2] == 'var':
            count[x.a[1]] = count.get(x.a[1], 0) + 1
        if x.k == 'decl':
            for v in x.a:
                defs[v.id] = v

    def summing(f):
        """(sum, X[k] = s, increment, counter) of a loop of the kind"""
        o = counter(f)
        if o is None or peel(o[1]).k != 'int' or peel(o[1]).a != 0:
            return None
        l = [x for x in f.c[3].c if x is not None and x.k != 'null'] if f.c[3].k == 'block' else []
        if len(l) != 2 or any(x.k != 'asg' for x in l) or l[0].a != '=':
            return None
        x, g = l
        t, r = peel(x.c[0]), peel(x.c[1])
        u = peel(g.c[0])
        if t.k != 'idx' or r.k != 'ref' or u.k != 'ref' or r.a[1] != u.a[1] or r.a[2] != 'var':
            return None
        s = r.a[1]
        d = defs.get(s)
        if d is None or d.storage != 'auto' or d.ty.strip() != 'int':
            return None
        if g.a == '+=':
            e = g.c[1]
        elif g.a == '=' and peel(g.c[1]).k == 'bin' and peel(g.c[1]).a == '+' and any(peel(z).k == 'ref' and peel(z).a[1] == s for z in peel(g.c[1]).c):
            q = peel(g.c[1]).c
            e = q[1] if peel(q[0]).k == 'ref' and peel(q[0]).a[1] == s else q[0]
        else:
            return None
        i = peel(t.c[1])
        if i.k != 'ref' or i.a[1] != o[0].id or not pure(e) or s in ids(e) or s in ids(t.c[0]) or not pure(t.c[0]) or not pure(o[2]) or s in ids(o[2]) \
                or peel(t.c[0]).k == 'ref' and peel(t.c[0]).a[1] in ids(e):
            return None
        return s, t, e, o

    def go(n):
        if n is None or not isinstance(n, N) or n.k not in STMT:
            return n
        if n.k != 'block':
            return N(n.k, n.line, n.ty, n.a, [go(x) for x in n.c], n.src)
        l = [go(x) for x in n.c]
        for j, f in enumerate(l):
            q = summing(f) if f is not None and f.k == 'for' else None
            if q is None:
                continue
            s, t, e, (v, v0, a) = q
            own = sum(1 for x in walk(f) if x.k == 'ref' and x.a[1] == s)
            e0 = at = None
            if own == count.get(s) and any(d is defs[s] for x in l[:j] if x is not None and x.k == 'decl' for d in x.a):
                e0 = defs[s].init
            elif own + 1 == count.get(s) and defs[s].init is None:
                for i, x in enumerate(l[:j]):
                    if x is not None and x.k == 'asg' and x.a == '=' and peel(x.c[0]).k == 'ref' and peel(x.c[0]).a[1] == s:
                        e0, at = x.c[1], i
            if e0 is None or peel(e0).k != 'int':
                continue
            one = N('int', f.line, 'int', 1, [])
            k = N('ref', f.line, 'int', [v.name, v.id, 'var'], [])
            less = N('bin', f.line, 'int', '-', [k, one])
            w = copyvar(v)
            w.init = one
            x0 = N('asg', f.line, 'int', '=', [N('idx', t.line, t.ty, t.a, [t.c[0], N('int', f.line, 'int', 0, [])], t.src), e0])
            xk = N('asg', f.line, 'int', '=', [t, N('bin', f.line, 'int', '+', [N('idx', t.line, t.ty, t.a, [t.c[0], less], t.src), sub(e, {v.id: less})])])
            l[j] = N('splice', f.line, '', None, [x0, N('for', f.line, f.ty, f.a, [N('decl', f.line, '', [w], [])] + f.c[1:3] +
                                                            [N('block', f.line, '', None, [xk])], f.src)])
            if at is not None:
                l[at] = N('null', f.line, '', None, [])
        return N('block', n.line, n.ty, n.a, l, n.src)
    out = go(body)
    return inline.flatten(out)


def rowwise(n, y, o, i):
    """for i for j a[j * n + i] = e   becomes   for j for i: the array is filled in the order it is laid out."""
    (v, v0, a), (w, w0, b), body = o, i, y.c[3]
    x = only(body) if body.k in ('block', 'splice') else body
    if x is None and body.k == 'block':
        # values named before they are stored: put in their place
        l = [z for z in body.c if z is not None and z.k != 'null']
        if l and l[-1].k == 'asg' and all(z.k == 'decl' and all(d.init is not None and d.vla is None and d.storage == 'auto' and not d.ty.endswith(']')
                                                                and reader(d.init) for d in z.a) for z in l[:-1]):
            m = {}
            for z in l[:-1]:
                for d in z.a:
                    m[d.id] = sub(d.init, m)
            x = sub(l[-1], m)
    if x is None or x.k != 'asg' or x.a != '=' or not reader(x.c[1]) or not all(pure(e) for e in (v0, w0, a, b)):
        return None
    w1 = N('asg', x.line, x.ty, '=', [x.c[0], N('int', x.line, 'int', 0, [])])      # reading the value changes nothing
    if v.id in ids(w0) | ids(b) or w.id in ids(v0) | ids(a) or not steady(a, w1) or not steady(b, w1):
        return None
    l = peel(x.c[0])
    if l.k != 'idx':
        return None

    def terms(e):
        e = peel(e)
        if e.k == 'bin' and e.a == '+':
            return terms(e.c[0]) + terms(e.c[1])
        return [e]
    t = terms(l.c[1])
    base = peel(l.c[0])
    while base.k == 'bin' and base.a == '+':
        p = [z for z in base.c if z.ty.endswith('*')]
        if len(p) != 1:
            return None
        t += terms(base.c[1] if p[0] is base.c[0] else base.c[0])
        base = peel(p[0])
    if base.k != 'ref' or base.a[1] in ids(x.c[1]) or any(not pure(z) for z in t):
        return None
    one = [z for z in t if z.k == 'ref' and z.a[1] == v.id]
    far = [z for z in t if w.id in ids(z)]
    if len(one) != 1 or len(far) != 1 or far[0].k != 'bin' or far[0].a != '*' or sum(v.id in ids(z) for z in t) != 1:
        return None
    s = [peel(z) for z in far[0].c]
    if sum(z.k == 'ref' and z.a[1] == w.id for z in s) != 1 or any(w.id in ids(z) and z.k != 'ref' for z in s) or any(z.k == 'int' for z in s):
        return None
    return N('for', n.line, n.ty, n.a, y.c[:3] + [N('for', y.line, y.ty, y.a, n.c[:3] + [x], y.src)], n.src)


def unguard(n):
    """if (n > 0) for (i = 0; i < n; i++) S   becomes the loop."""
    if n is None or not isinstance(n, N) or n.k not in STMT:
        return n
    n = N(n.k, n.line, n.ty, n.a, [unguard(x) for x in n.c], n.src)
    if n.k == 'if' and n.c[2] is None:
        f = only(n.c[1])
        q = counter(f) if f is not None and f.k == 'for' else None
        if q is not None and peel(q[1]).k == 'int' and peel(q[1]).a == 0:
            c = peel(n.c[0])
            if c.k == 'bin' and c.a in ('<', '>'):
                x, l = (c.c[0], c.c[1]) if c.a == '<' else (c.c[1], c.c[0])
                if peel(x).k == 'int' and peel(x).a == 0 and same(l, q[2]) and pure(l):
                    return n.c[1]
    return n
