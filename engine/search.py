"""Loops that look for the first element with a property, in one form.

    for (init; c; inc) { if (cond) { X; break; } R }   becomes   init; for (; c && !cond; inc) { R }  if (c) { X }

whichever way the leaving is written (break, return, a continue that skips it, an else branch)."""
from core import N, walk, kids
from inline import clone, subst
import inline

CALLS = {'conj', 'conjf', 'fmin', 'fmax', 'fminf', 'fmaxf', 'sqrtl', 'fabs', 'fabsf', 'cabs', 'cabsf', 'abs', 'creal', 'crealf', 'cimag', 'cimagf', 'sqrt', 'sqrtf'}
EXIT = ('break', 'return', 'leave')


def pure(n):
    for x in walk(n):
        if x.k == 'un':
            if x.a.startswith('pre') or x.a.startswith('post'):
                return False
        elif x.k == 'call':
            if not x.a or x.a[0] not in CALLS:
                return False
        elif x.k not in inline.PURE:
            return False
    return True


def stmts(n):
    if n is None:
        return []
    if n.k in ('block', 'splice'):
        return [y for x in n.c for y in stmts(x) if y is not None and y.k != 'null']
    return [n]


def block(l, line):
    return N('block', line, '', None, l)


def no(e):
    if e.k == 'un' and e.a == '!':
        return e.c[0]
    return N('un', e.line, 'int', '!', [e])


def both(a, b):
    return N('bin', a.line, 'int', '&&', [a, b])


def jumps(n, kinds):
    """Does n hold a jump of these kinds that belongs to the loop n is the body of?"""
    if n is None:
        return False
    if n.k in kinds:
        return True
    if n.k in ('for', 'while', 'do'):
        return False
    if n.k == 'switch':
        kinds = tuple(x for x in kinds if x != 'break')
    return any(jumps(x, kinds) for x in n.c if isinstance(x, N))


def ends(l):
    return bool(l) and l[-1].k in EXIT


def written(body, ids):
    return bool(inline.assigned_ids(body) & ids)


def split(l):
    """(declarations, condition, what happens on leaving, the rest) of a loop body, or None."""
    decls, i = [], 0
    while i < len(l) and l[i].k == 'decl':
        for v in l[i].a:
            if v.vla is not None or v.init is None or not pure(v.init) or v.ty.rstrip().endswith(']') or v.storage != 'auto':
                return None
        decls.append(l[i])
        i += 1
    if i >= len(l) or l[i].k != 'if':
        return None
    g, t, e = l[i].c[0], stmts(l[i].c[1]), stmts(l[i].c[2])
    rest = l[i + 1:]
    if not pure(g):
        return None
    if not e and len(t) == 1 and t[0].k == 'continue':
        g, t, rest = no(g), rest, []
    elif not t and len(e) == 1 and e[0].k == 'continue':
        t, e, rest = rest, [], []
    elif e and ends(e) and not ends(t):
        g, t, rest, e = no(g), e, t + rest, []
    elif e and ends(t):
        rest, e = e + rest, []
    if e:
        return None
    if not ends(t):
        r = split(t)
        if r is None or r[3]:
            return None
        d2, g2, x, _ = r
        m = {v.id: v.init for d in d2 for v in d.a}
        return decls, both(g, resolve(g2, m)), d2 + x, rest
    return decls, g, t, rest


def resolve(e, m):
    for _ in range(len(m)):
        e = subst(e, m)
    return e


def scalar(v):
    return v.storage == 'auto' and v.vla is None and not v.ty.rstrip().endswith(']') and 'volatile' not in v.ty


def peel(e):
    while e is not None and e.k == 'cast':
        e = e.c[0]
    return e


def target(s):
    """The local a statement only updates: (id, value)."""
    if s.k == 'cast':
        s = peel(s)
    if s.k == 'asg' and peel(s.c[0]).k == 'ref':
        return peel(s.c[0]).a[1], s.c[1]
    if s.k == 'un' and (s.a.startswith('pre') or s.a.startswith('post')) and peel(s.c[0]).k == 'ref':
        return peel(s.c[0]).a[1], None
    return None


def clauses(n):
    s = set()
    for x in walk(n):
        if x.k == 'omp':
            for _, _, l in x.a['clauses']:
                for e in l:
                    if isinstance(e, N):
                        s |= {y.a[1] for y in walk(e) if y.k == 'ref'}
    return s


STMT = ('block', 'splice', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'label', 'omp', 'inl')


def dead(n):
    """Locals that are only ever written, with the statements that do."""
    own, up, held = {}, {}, clauses(n)
    tops = []

    def go(x, stmt):
        if x is None:
            return
        if x.k == 'decl':
            for v in x.a:
                own[v.id] = v
                if v.init is not None:
                    refs(v.init)
                if v.vla is not None:
                    refs(v.vla)
            return
        if x.k in STMT:
            hd = {'for': (1,), 'if': (0,), 'while': (0,), 'do': (1,), 'switch': (0,), 'case': ()}.get(x.k, ())
            for i, y in enumerate(x.c):
                if y is None:
                    continue
                if i in hd or x.k == 'case' and y.k not in STMT and i == 0:
                    refs(y)
                else:
                    go(y, True)
            return
        t = target(x)
        if t is not None and (t[1] is None or pure(t[1])):
            if t[1] is not None:
                refs(t[1], t[0])
            return
        if x.k == 'cast' and x.ty == 'void' and peel(x).k == 'ref':
            return
        refs(x)

    def refs(e, me=None):
        for y in walk(e):
            if y.k == 'ref' and y.a[1] != me:
                read.add(y.a[1])
    read = set()
    while True:
        own.clear()
        read.clear()
        read |= held
        go(n, True)
        gone = {i for i, v in own.items() if i not in read and scalar(v) and (v.init is None or pure(v.init))}
        if not gone:
            return n
        n = drop(n, gone)


def drop(x, gone):
    if x is None:
        return None
    if x.k == 'decl':
        a = [v for v in x.a if v.id not in gone]
        if len(a) == len(x.a):
            return x
        return N('decl', x.line, x.ty, a, x.c, x.src) if a else N('null', x.line, '', None, [], x.src)
    if x.k in STMT:
        return N(x.k, x.line, x.ty, x.a, [drop(y, gone) if isinstance(y, N) else y for y in x.c], x.src)
    t = target(x)
    if t is not None and t[0] in gone or x.k == 'cast' and x.ty == 'void' and peel(x).k == 'ref' and peel(x).a[1] in gone:
        return N('null', x.line, '', None, [], x.src)
    return x


def ids(n):
    return {y.a[1] for y in walk(n) if y.k == 'ref'} | clauses(n)


def settle(n):
    """Declarations next to, and with, the first value."""
    if n is None or n.k not in STMT:
        return n
    if n.k in ('block', 'splice'):
        l = []
        for x in n.c:
            l += [y for y in (x.c if x is not None and x.k == 'splice' else [x]) if y is not None and y.k != 'null']
        out = []
        for x in l:
            if x.k == 'decl' and len(x.a) > 1:
                out += [N('decl', x.line, x.ty, [v], x.c, x.src) for v in x.a]
            else:
                out.append(x)
        i = 0
        while i < len(out):
            x = out[i]
            i += 1
            if x.k != 'decl' or not scalar(x.a[0]) or x.a[0].init is not None and not pure(x.a[0].init):
                continue
            v = x.a[0]
            us = [j for j in range(i, len(out)) if v.id in ids(out[j])]
            if not us:
                continue
            y = out[us[0]]
            if y.k == 'asg' and y.a == '=' and peel(y.c[0]).k == 'ref' and peel(y.c[0]).a[1] == v.id and v.id not in ids(y.c[1]):
                w = copyvar(v)
                w.init = y.c[1]
                out[us[0]] = N('decl', y.line, x.ty, [w], x.c, x.src)
                del out[i - 1]
                i -= 1
            elif len(us) == 1 and y.k in ('for', 'while') and y.c[-1] is not None and first(y, v.id):
                b = y.c[-1]
                c = list(y.c)
                w = copyvar(v)
                w.init = None       # whatever it was, the loop does not look at it
                c[-1] = N('block', b.line, '', None, [N('decl', x.line, x.ty, [w], x.c, x.src)] + stmts(b))
                out[us[0]] = N(y.k, y.line, y.ty, y.a, c, y.src)
                del out[i - 1]
                i -= 1
        return N(n.k, n.line, n.ty, n.a, [settle(x) for x in out], n.src)
    return N(n.k, n.line, n.ty, n.a, [settle(x) if isinstance(x, N) else x for x in n.c], n.src)


def first(y, v):
    """Every pass of loop y gives v a value before it looks at it."""
    if any(x is not None and v in ids(x) for x in y.c[:-1]):
        return False
    for x in stmts(y.c[-1]):
        if v in ids(x):
            if x.k == 'asg' and x.a == '=' and peel(x.c[0]).k == 'ref' and peel(x.c[0]).a[1] == v and v not in ids(x.c[1]):
                return True
            return x.k in ('for', 'while') and first(x, v) and not any(v in ids(z) for z in stmts(y.c[-1]) if z is not x)
    return False


def copyvar(v):
    import copy
    return copy.copy(v)


def canon(n):
    return unleave(rewrite(sentinel(settle(dead(n)))))


def conjuncts(c):
    c = peel(c)
    return conjuncts(c.c[0]) + conjuncts(c.c[1]) if c.k == 'bin' and c.a == '&&' else [c]


def number(e):
    e = peel(e)
    if e is not None and e.k == 'un' and e.a == '-' and peel(e.c[0]).k == 'int':
        return -peel(e.c[0]).a
    return e.a if e is not None and e.k == 'int' else None


def unset(q):
    """The variable a condition asks to be still negative."""
    if q.k == 'bin' and len(q.c) == 2 and peel(q.c[0]).k == 'ref' and (q.a, number(q.c[1])) in (('<', 0), ('==', -1), ('<=', -1)):
        return peel(q.c[0]).a
    return None


def sentinel(n):
    """int v = -1; for (i = 0; v < 0 && c; i++) if (g) v = i;   leaves when v is set."""
    if n is None or not isinstance(n, N) or n.k not in STMT:
        return n
    n = N(n.k, n.line, n.ty, n.a, [sentinel(x) for x in n.c], n.src)
    if n.k not in ('block', 'splice'):
        return n
    l = n.c
    for j, x in enumerate(l):
        if x is None or x.k != 'for' or x.c[1] is None or x.c[0] is None or x.c[0].k != 'decl' or len(x.c[0].a) != 1:
            continue
        cs = conjuncts(x.c[1])
        i = x.c[0].a[0]
        for q in cs:
            v = unset(q)
            if v is None or len(cs) < 2 or v[1] == i.id or number(i.init) is None or number(i.init) < 0:
                continue
            before = None
            for y in l[:j]:
                if y is not None and y.k == 'decl' and any(d.id == v[1] for d in y.a):
                    before = [number(d.init) for d in y.a if d.id == v[1]][0]
                elif y is not None and target(y) is not None and target(y)[0] == v[1]:
                    before = number(target(y)[1]) if y.k == 'asg' and y.a == '=' else None
                elif y is not None and v[1] in ids(y):
                    before = None
            if before is None or before >= 0 or v[1] in inline.assigned_ids(x.c[2]):
                continue
            b = stmts(x.c[3])
            if not b or b[-1].k != 'if' or b[-1].c[2] is not None or any(v[1] in ids(y) for y in b[:-1]) or v[1] in ids(b[-1].c[0]):
                continue
            t = stmts(b[-1].c[1])
            if not t or target(t[-1]) is None or target(t[-1])[0] != v[1] or t[-1].k != 'asg' or t[-1].a != '=' or any(v[1] in ids(y) for y in t[:-1]):
                continue
            e = peel(t[-1].c[1])
            if e.k != 'ref' or e.a[1] != i.id or i.id in inline.assigned_ids(x.c[3]) or jumps(x.c[3], ('continue',)):
                continue
            c = None
            for z in cs:
                if z is not q:
                    c = z if c is None else both(c, z)
            w = N('if', b[-1].line, '', None, [b[-1].c[0], block(t + [N('break', x.line, '', None, [])], x.line), None], b[-1].src)
            l[j] = N('for', x.line, x.ty, x.a, [x.c[0], c, x.c[2], block(b[:-1] + [w], x.line)], x.src)
            break
    return n


def unleave(n):
    """A helper that returns from within a loop: the loop stops, then the helper returns."""
    if n is None or not isinstance(n, N) or n.k not in STMT:
        return n
    n = N(n.k, n.line, n.ty, n.a, [unleave(x) for x in n.c], n.src)
    if n.k not in ('for', 'while', 'do'):
        return n
    b = n.c[0] if n.k == 'do' else n.c[-1]
    own = {x.a['label'] for x in walk(b) if x.k == 'inl'}
    labs = sorted({x.a for x in walk(b) if x.k == 'leave'} - own)
    if not labs:
        return n
    pre, post, flags = [], [], {}
    for l in labs:
        v = inline.Var()
        v.name, v.id, v.ty, v.storage, v.line, v.vla = '__left', next(inline._fresh), 'int', 'auto', n.line, None
        v.init = N('int', n.line, 'int', 0, [])
        flags[l] = v
        pre.append(N('decl', n.line, '', [v], []))
        post.append(N('if', n.line, '', None, [inline._ref(v, n.line), N('leave', n.line, '', l, []), None]))

    def go(x, sw):
        if x is None or not isinstance(x, N):
            return x
        if x.k == 'leave' and x.a in flags and not sw:
            v = flags[x.a]
            return N('block', x.line, '', None, [N('asg', x.line, 'int', '=', [inline._ref(v, x.line), N('int', x.line, 'int', 1, [])]),
                                                 N('break', x.line, '', None, [])])
        if x.k not in STMT or x.k in ('for', 'while', 'do'):
            return x
        return N(x.k, x.line, x.ty, x.a, [go(y, sw or x.k == 'switch') for y in x.c], x.src)
    c = list(n.c)
    c[0 if n.k == 'do' else -1] = go(b, False)
    return N('splice', n.line, '', None, pre + [N(n.k, n.line, n.ty, n.a, c, n.src)] + post)


def rewrite(n):
    if n is None or not isinstance(n, N):
        return n
    if n.k not in ('block', 'splice', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'label', 'omp', 'inl'):
        return n
    n = N(n.k, n.line, n.ty, n.a, [rewrite(x) for x in n.c], n.src)
    if n.k == 'for':
        init, c, inc, body = n.c
    elif n.k == 'while':
        (c, body), init, inc = n.c, None, None
    else:
        return n
    if c is not None and not pure(c):
        return n
    r = split(stmts(body))
    if r is None:
        return n
    decls, g, x, rest = r
    ids = {v.id for d in decls for v in d.a}
    b = block(rest, n.line)
    if any(jumps(y, ('break',)) for y in rest) or any(jumps(y, ('break', 'continue')) for y in x[:-1]) or written(b, ids) or written(block(x, n.line), ids):
        return n
    if any(y.k in ('label', 'goto', 'case') for y in walk(b)) or any(y.k in ('label', 'goto') for y in walk(block(x, n.line))):
        return n
    m = {v.id: v.init for d in decls for v in d.a}
    g = resolve(g, m)
    if not pure(g):
        return n
    cond = no(g) if c is None or c.k == 'int' and c.a else both(c, no(g))
    if x[-1].k == 'break':
        x = x[:-1]
    out = [init] if init is not None else []
    out.append(N('for', n.line, '', None, [None, cond, inc, block([clone(d) for d in decls] + rest, n.line)], n.src))
    if x:
        t = block([clone(d) for d in decls] + x, n.line)
        out.append(t if c is None or c.k == 'int' and c.a else N('if', n.line, '', None, [clone(c), t, None], n.src))
    return N('splice', n.line, '', None, out, n.src)
