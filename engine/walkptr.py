"""Pointers that walk along an array, as an array and an index.

    T *p = base; ... *p++ ... p < end      becomes   T *p = base; int k = 0; ... p[k++] ... k < n     (end = base + n)"""
from core import N, Var, walk, _fresh, show
import inline
import search
from search import peel, STMT


def isptr(v):
    return v.storage == 'auto' and v.vla is None and v.ty.rstrip().endswith('*') and 'volatile' not in v.ty


def uses(body):
    """What is done to each local: declarations, steps, other assignments, addresses."""
    decl, step, other = {}, {}, set()
    for x in walk(body):
        if x.k == 'decl':
            for v in x.a:
                if isptr(v):
                    decl[v.id] = v
        elif x.k == 'asg':
            t = peel(x.c[0])
            if t.k == 'ref':
                if x.a in ('+=', '-='):
                    step.setdefault(t.a[1], []).append(x)
                else:
                    other.add(t.a[1])
        elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post') or x.a == '&'):
            t = peel(x.c[0])
            if t.k == 'ref':
                if x.a == '&':
                    other.add(t.a[1])
                else:
                    step.setdefault(t.a[1], []).append(x)
    return decl, step, other


def same(a, b):
    return show(peel(a)) == show(peel(b)) and {x.a[1] for x in walk(a) if x.k == 'ref'} == {x.a[1] for x in walk(b) if x.k == 'ref'}


def offset(e, base):
    """n when e is base + n, or None."""
    e = peel(e)
    if base is None:
        return None
    if same(e, base):
        return N('int', e.line, 'int', 0, [])
    if e.k == 'un' and e.a == '&' and peel(e.c[0]).k == 'idx':
        i = peel(e.c[0])
        if same(i.c[0], base):
            return i.c[1]
        return None
    if e.k == 'bin' and e.a == '+':
        for x, y in ((e.c[0], e.c[1]), (e.c[1], e.c[0])):
            if same(x, base):
                return y
    return None


def fresh(body, w, i, steps):
    """w has its first value still where i is declared."""
    for b in walk(body):
        if b.k in ('block', 'splice'):
            on = False
            for x in b.c:
                if x is None:
                    continue
                if x.k == 'decl':
                    ids = [v.id for v in x.a]
                    if i in ids:
                        return on or w in ids and ids.index(w) < ids.index(i)
                    on = on or w in ids
                elif on and any(y is z for y in walk(x) for z in steps):
                    on = False
    return False


def normal(body):
    decl, step, other = uses(body)
    walks = {i for i in decl if i in step and i not in other and decl[i].init is not None and search.pure(decl[i].init)
             and not any(y.k == 'ref' and y.a[1] in step for y in walk(decl[i].init))}
    if not walks:
        return body
    walks -= search.clauses(body)
    changed = set()
    for x in walk(body):
        if x.k == 'asg' and peel(x.c[0]).k == 'ref':
            changed.add(peel(x.c[0]).a[1])
        elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post') or x.a == '&') and peel(x.c[0]).k == 'ref':
            changed.add(peel(x.c[0]).a[1])
    key, ends = {}, {}
    for i in walks:
        key[i] = next(_fresh)
    # ends: pointers set once to a walker's start plus something
    for i, v in decl.items():
        if i in walks or i in step or i in other or v.init is None or not search.pure(v.init):
            continue
        for w in walks:
            b = decl[w].init
            if any(y.k == 'ref' and y.a[1] in changed for y in walk(b)):
                b = None
            n = offset(v.init, b)
            if n is None:
                n = offset(v.init, N('ref', v.line, v.ty, [decl[w].name, w, 'var'], []))
                if n is not None and not fresh(body, w, i, step[w]):
                    n = N('bin', v.line, 'int', '+', [N('ref', v.line, 'int', [decl[w].name + '_k', key[w], 'var'], []), n])
            if n is not None and not any(y.k == 'ref' and y.a[1] in walks for y in walk(n)):
                ends.setdefault(i, (next(_fresh), n, w))
    def k(i, line):
        return N('ref', line, 'int', [decl[i].name + '_k', key[i], 'var'], [])

    def limit(e, w):
        """e as a number of elements from walker w's start."""
        p = peel(e)
        if p.k == 'ref' and p.a[1] in ends and ends[p.a[1]][2] == w:
            return N('ref', p.line, 'int', [p.a[0] + '_n', ends[p.a[1]][0], 'var'], [])
        b = decl[w].init
        if any(y.k == 'ref' and y.a[1] in changed for y in walk(b)) or not search.pure(e):
            return None
        return offset(e, b)

    def walker(e):
        e = peel(e)
        return e.a[1] if e.k == 'ref' and e.a[1] in walks else None

    def go(n):
        if n is None or not isinstance(n, N):
            return n
        if n.k == 'decl':
            out = []
            vs = []
            for v in n.a:
                if v.init is not None:
                    w = search.copyvar(v)
                    w.init = go(v.init)
                    v = w
                vs.append(v)
            nd = N('decl', n.line, n.ty, vs, n.c, n.src)
            for v in vs:
                if v.id in walks:
                    out.append(N('decl', n.line, '', [newvar(v.name + '_k', key[v.id], N('int', n.line, 'int', 0, []), v)], []))
                elif v.id in ends:
                    out.append(N('decl', n.line, '', [newvar(v.name + '_n', ends[v.id][0], go(ends[v.id][1]), v)], []))
            return N('splice', n.line, '', None, [nd] + out, n.src) if out else nd
        if n.k == 'for' and n.c[0] is not None and n.c[0].k == 'decl' and any(v.id in walks or v.id in ends for v in n.c[0].a):
            return N('block', n.line, '', None, [go(n.c[0]), N('for', n.line, n.ty, n.a, [None] + [go(x) for x in n.c[1:]], n.src)], n.src)
        if n.k == 'un' and (n.a.startswith('pre') or n.a.startswith('post')):
            w = walker(n.c[0])
            if w is not None:
                s = N('un', n.line, 'int', n.a, [k(w, n.line)], n.src)
                return s if n in tops else N('bin', n.line, n.ty, '+', [strip1(n.c[0]), s], n.src)
        if n.k == 'asg' and n.a in ('+=', '-=') and walker(n.c[0]) is not None:
            w = walker(n.c[0])
            s = N('asg', n.line, 'int', n.a, [k(w, n.line), go(n.c[1])], n.src)
            return s if n in tops else N('bin', n.line, n.ty, '+', [strip1(n.c[0]), s], n.src)
        if n.k == 'un' and n.a == '*':
            e = peel(n.c[0])
            if e.k == 'un' and (e.a.startswith('pre') or e.a.startswith('post')) and walker(e.c[0]) is not None:
                w = walker(e.c[0])
                return N('idx', n.line, n.ty, None, [strip1(e.c[0]), N('un', n.line, 'int', e.a, [k(w, n.line)])], n.src)
            w = walker(e)
            if w is not None:
                return N('idx', n.line, n.ty, None, [e, k(w, n.line)], n.src)
        if n.k == 'idx':
            w = walker(n.c[0])
            if w is not None:
                return N('idx', n.line, n.ty, n.a, [strip1(n.c[0]), N('bin', n.line, 'int', '+', [k(w, n.line), go(n.c[1])])], n.src)
        if n.k == 'bin' and n.a in ('<', '<=', '>', '>=', '==', '!=', '-'):
            for a, b, sw in ((n.c[0], n.c[1], False), (n.c[1], n.c[0], True)):
                w = walker(a)
                if w is not None:
                    l = limit(b, w)
                    if l is not None:
                        x = [k(w, n.line), l]
                        return N('bin', n.line, 'int', n.a, x[::-1] if sw else x, n.src)
        w = walker(n) if n.k == 'ref' else None
        if w is not None:
            return N('bin', n.line, n.ty, '+', [n, k(w, n.line)], n.src)
        return N(n.k, n.line, n.ty, n.a, [go(x) for x in n.c], n.src)

    def strip1(e):
        return peel(e)

    tops = Ids()

    def mark(n):
        if n is None or n.k == 'decl':
            return
        if n.k == 'for':
            for x in (n.c[0], n.c[2]):
                if x is not None and x.k != 'decl':
                    tops.add(peel(x))
            mark(n.c[3])
            return
        hd = {'if': (0,), 'while': (0,), 'do': (1,), 'switch': (0,)}.get(n.k, ())
        if n.k in STMT:
            for i, x in enumerate(n.c):
                if i not in hd and x is not None:
                    mark(x)
        else:
            tops.add(peel(n))
    mark(body)
    return inline.flatten(go(body))


class Ids:
    def __init__(self):
        self.s = set()

    def add(self, n):
        self.s.add(id(n))

    def __contains__(self, n):
        return id(n) in self.s


def newvar(name, i, init, like):
    v = Var()
    v.name, v.id, v.ty, v.storage, v.line, v.vla, v.init = name, i, 'int', 'auto', like.line, None, init
    return v
