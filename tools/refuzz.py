"""Self-test of the effect summaries: apply behaviour-preserving rewrites to every function and compare.
usage: refuzz.py CFG [TRANSFORM-REGEX [FUNCTION-REGEX]]   (VERIF_EXTRACT = an extraction)"""
import sys, re, os
W = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [W + '/engine', W + '/engine/checks']
import core, modref, effects
from core import N, Var, walk, kids, _fresh
from inline import clone, assigned_ids

PUREK = {'ref', 'int', 'float', 'enum', 'mem', 'idx', 'bin', 'cast', 'sizeof', 'str', 'chr', 'imag'}


def pure(n):
    return all(x.k in PUREK or x.k == 'un' and x.a in ('-', '!', '*', '&', '+') for x in walk(n))


def mk(k, a, c, ty=''):
    return N(k, 0, ty, a, c)


def blk(*s):
    return mk('block', None, list(s))


def no(c):
    return mk('un', '!', [c], 'int')


def var(ty, init=None, name='t'):
    v = Var()
    v.name, v.id, v.ty, v.storage, v.line, v.vla, v.init = name, next(_fresh), ty, 'auto', 0, None, init
    return v


def ref(v):
    return N('ref', 0, v.ty, [v.name, v.id, 'var'], [])


def tmap(n, fn):
    """Bottom-up rebuild."""
    if n is None:
        return None
    if n.k == 'decl':
        for v in n.a:
            v.init = tmap(v.init, fn)
        return fn(n)
    n = N(n.k, n.line, n.ty, n.a, [tmap(x, fn) for x in n.c], n.src)
    return fn(n)


def has(n, *ks):
    return n is not None and any(x.k in ks for x in walk(n))


def loopjump(n, k, top=True):
    """Does n contain a break/continue that belongs to the loop around it?"""
    if n is None:
        return False
    if n.k == k:
        return True
    if n.k in ('for', 'while', 'do') or n.k == 'switch' and k == 'break':
        return False
    return any(loopjump(x, k) for x in kids(n))


def swapif(n):
    if n.k == 'if' and n.c[2] is not None:
        return mk('if', None, [no(n.c[0]), n.c[2], n.c[1]])
    return n


def for2while(n):
    if n.k == 'for' and not loopjump(n.c[3], 'continue'):
        b = [n.c[3]] + ([n.c[2]] if n.c[2] is not None else [])
        w = mk('while', None, [n.c[1] or mk('int', 1, [], 'int'), blk(*b)])
        return blk(*([n.c[0]] if n.c[0] is not None else []), w)
    return n


def andsplit(n):
    if n.k == 'if' and n.c[2] is None and n.c[0].k == 'bin' and n.c[0].a == '&&':
        return mk('if', None, [n.c[0].c[0], blk(mk('if', None, [n.c[0].c[1], n.c[1], None])), None])
    return n


def andjoin(n):
    if n.k == 'if' and n.c[2] is None:
        b = n.c[1]
        while b is not None and b.k == 'block' and len(b.c) == 1:
            b = b.c[0]
        if b is not None and b.k == 'if' and b.c[2] is None:
            return mk('if', None, [mk('bin', '&&', [n.c[0], b.c[0]], 'int'), b.c[1], None])
    return n


def compound(n):
    if n.k == 'asg' and n.a != '=' and pure(n.c[0]):
        l, r = n.c
        if l.ty == r.ty or r.ty == 'int':
            return mk('asg', '=', [l, mk('bin', n.a[:-1], [clone(l), r], l.ty)], n.ty)
    return n


def uncompound(n):
    if n.k == 'asg' and n.a == '=' and n.c[1].k == 'bin' and n.c[1].a in ('+', '-', '*') and pure(n.c[0]) and core.show(n.c[0]) == core.show(n.c[1].c[0]) \
            and n.c[0].ty == n.c[1].c[1].ty:
        return mk('asg', n.c[1].a + '=', [n.c[0], n.c[1].c[1]], n.ty)
    return n


def stmts(n, fn):
    """Rebuild statement lists: fn(stmt) -> list of statements."""
    def go(x):
        if x.k == 'block':
            out = []
            for s in x.c:
                out += fn(s) if s is not None else []
            return mk('block', None, out)
        return x
    return tmap(n, go)


def temp(n):
    def f(s):
        if s.k == 'asg' and s.c[1].k != 'asg' and s.c[1].ty and not s.c[1].ty.startswith('struct') and s.c[1].ty != 'void' and not s.c[1].ty.endswith(']') \
                and s.c[1].k not in ('int', 'float'):
            v = var(s.c[1].ty, s.c[1])
            return [mk('decl', [v], []), mk('asg', s.a, [s.c[0], ref(v)], s.ty)]
        if s.k == 'return' and s.c and s.c[0] is not None and not s.c[0].ty.startswith('struct'):
            v = var(s.c[0].ty, s.c[0])
            return [mk('decl', [v], []), mk('return', None, [ref(v)])]
        return [s]
    return stmts(n, f)


def tempidx(n):
    """Index expressions get a name first."""
    def f(s):
        if s.k not in ('asg', 'call'):
            return [s]
        pre = []

        def g(x):
            if x.k == 'idx' and x.c[1].k in ('bin', 'idx') and pure(x.c[1]):
                v = var(x.c[1].ty, x.c[1])
                pre.append(mk('decl', [v], []))
                return mk('idx', None, [x.c[0], ref(v)], x.ty)
            return x
        r = tmap(s, g)
        return pre + [r]
    return stmts(n, f)


def cmpflip(n):
    m = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
    if n.k == 'bin' and n.a in m:
        return mk('bin', m[n.a], [n.c[1], n.c[0]], n.ty)
    return n


def cmpneg(n):
    m = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}
    if n.k == 'bin' and n.a in m and n.c[0].ty == 'int' and n.c[1].ty == 'int':
        return no(mk('bin', m[n.a], n.c, n.ty))
    return n


def cmple(n):
    if n.k == 'bin' and n.a == '<' and n.c[0].ty == 'int' and n.c[1].ty == 'int':
        return mk('bin', '<=', [n.c[0], mk('bin', '-', [n.c[1], mk('int', 1, [], 'int')], 'int')], n.ty)
    return n


def contguard(n):
    if n.k in ('for', 'while'):
        i = 3 if n.k == 'for' else 1
        b = n.c[i]
        while b is not None and b.k == 'block' and len(b.c) == 1:
            b = b.c[0]
        if b is not None and b.k == 'block' and b.c and b.c[-1] is not None and b.c[-1].k == 'if' and b.c[-1].c[2] is None:
            s = b.c[-1]
            c = list(n.c)
            c[i] = blk(*b.c[:-1], mk('if', None, [no(s.c[0]), mk('continue', None, []), None]), s.c[1])
            return mk(n.k, None, c)
        if b is not None and b.k == 'if' and b.c[2] is None:
            c = list(n.c)
            c[i] = blk(mk('if', None, [no(b.c[0]), mk('continue', None, []), None]), b.c[1])
            return mk(n.k, None, c)
    return n


def elsereturn(n):
    if n.k == 'block':
        for i, s in enumerate(n.c):
            if s is not None and s.k == 'if' and s.c[2] is None and i + 1 < len(n.c):
                t = s.c[1]
                while t is not None and t.k == 'block' and t.c:
                    t = t.c[-1]
                if t is not None and t.k in ('return', 'continue', 'break') and not any(x is not None and x.k in ('case', 'default') for x in n.c):
                    return blk(*n.c[:i], mk('if', None, [s.c[0], s.c[1], blk(*n.c[i + 1:])]))
    return n


def ptrform(n):
    if n.k == 'idx':
        return mk('un', '*', [mk('bin', '+', n.c, n.c[0].ty if not n.c[0].ty.endswith(']') else n.ty + ' *')], n.ty)
    return n


def condif(n):
    if n.k == 'asg' and n.a == '=' and n.c[1].k == 'cond' and pure(n.c[0]):
        c = n.c[1]
        return mk('if', None, [c.c[0], blk(mk('asg', '=', [n.c[0], c.c[1]], n.ty)), blk(mk('asg', '=', [clone(n.c[0]), c.c[2]], n.ty))])
    return n


def ifcond(n):
    if n.k == 'if' and n.c[2] is not None:
        def one(b):
            while b is not None and b.k == 'block' and len(b.c) == 1:
                b = b.c[0]
            return b
        a, b = one(n.c[1]), one(n.c[2])
        if a is not None and b is not None and a.k == 'asg' and b.k == 'asg' and a.a == b.a == '=' and core.show(a.c[0]) == core.show(b.c[0]) and pure(a.c[0]):
            return mk('asg', '=', [a.c[0], mk('cond', None, [n.c[0], a.c[1], b.c[1]], a.c[0].ty)], a.ty)
    return n


def shiftloop(n):
    """for (i = a; i < b; i++) -> for (k = 0; k < b - a; k++) { i = a + k; ... }"""
    if n.k == 'for' and n.c[0] is not None and n.c[0].k == 'decl' and len(n.c[0].a) == 1 and n.c[1] is not None and n.c[1].k == 'bin' and n.c[1].a == '<' \
            and n.c[2] is not None and n.c[2].k == 'un' and '++' in n.c[2].a:
        v = n.c[0].a[0]
        if v.ty == 'int' and v.id not in assigned_ids(n.c[3]) and n.c[1].c[0].k in ('ref', 'cast') and pure(v.init) and pure(n.c[1].c[1]):
            k = var('int', mk('int', 0, [], 'int'), 'k')
            d = var('int', mk('bin', '+', [clone(v.init), ref(k)], 'int'), v.name)
            d.id = v.id
            return mk('for', None, [mk('decl', [k], []), mk('bin', '<', [ref(k), mk('bin', '-', [n.c[1].c[1], clone(v.init)], 'int')], 'int'),
                                    mk('un', 'pre++', [ref(k)], 'int'), blk(mk('decl', [d], []), n.c[3])])
    return n


def hoistbound(n):
    if n.k == 'for' and n.c[1] is not None and n.c[1].k == 'bin' and n.c[1].a in ('<', '<=') and pure(n.c[1].c[1]) and n.c[1].c[1].ty == 'int':
        e = n.c[1].c[1]
        if all(x.k in ('ref', 'int', 'cast', 'bin') for x in walk(e)):
            w = {core.show(x.c[0]) for x in walk(n.c[3]) if x.k in ('asg', 'un')}
            if not any(x.k == 'ref' and x.a[0] in w for x in walk(e)):
                v = var('int', e)
                return blk(mk('decl', [v], []), mk('for', None, [n.c[0], mk('bin', n.c[1].a, [n.c[1].c[0], ref(v)], 'int'), n.c[2], n.c[3]]))
    return n


def commute(n):
    if n.k == 'bin' and n.a in ('+', '*') and not n.ty.endswith('*') and not any(x.ty.endswith('*') or x.ty.endswith(']') for x in n.c):
        return mk('bin', n.a, [n.c[1], n.c[0]], n.ty)
    return n


def splitdecl(n):
    """Declarations of loop bodies move in front of the loop."""
    if n.k in ('for', 'while'):
        i = 3 if n.k == 'for' else 1
        b = n.c[i]
        if b is not None and b.k == 'block':
            pre, out = [], []
            for s in b.c:
                if s is not None and s.k == 'decl' and all(v.init is not None and v.vla is None and v.init.k != 'init' and not v.ty.endswith(']') for v in s.a):
                    for v in s.a:
                        w = var(v.ty, None, v.name)
                        w.id = v.id
                        pre.append(mk('decl', [w], []))
                        out.append(mk('asg', '=', [ref(w), v.init], v.ty))
                else:
                    out.append(s)
            if pre:
                c = list(n.c)
                c[i] = blk(*out)
                return blk(*pre, mk(n.k, None, c))
    return n


def effectfree(s):
    return s.k == 'decl' and all(v.init is not None and pure(v.init) and v.vla is None for v in s.a)


def reorder(n):
    if n.k == 'block':
        c = list(n.c)
        i = 0
        while i + 1 < len(c):
            a, b = c[i], c[i + 1]
            if a is not None and b is not None and effectfree(a) and effectfree(b):
                ids = {v.id for v in a.a}
                if not any(x.k == 'ref' and x.a[1] in ids for x in walk(b)):
                    c[i], c[i + 1] = b, a
                    i += 1
            i += 1
        return blk(*c)
    return n


def simple(s):
    return s is not None and s.k == 'asg' and pure(s.c[0]) and pure(s.c[1])


def reorderasg(n):
    """Stores through different fields or to different locals."""
    if n.k == 'block':
        c = list(n.c)
        i = 0
        while i + 1 < len(c):
            a, b = c[i], c[i + 1]
            if simple(a) and simple(b):
                def ids(x):
                    return {('v', y.a[1]) if y.k == 'ref' else ('f', y.a[0]) for y in walk(x) if y.k in ('ref', 'mem')}
                la, lb = a.c[0], b.c[0]
                def tgt(l):
                    return ('v', l.a[1]) if l.k == 'ref' else ('f', l.a[0]) if l.k == 'mem' else ('v', l.c[0].a[1]) if l.k == 'idx' and l.c[0].k == 'ref' else None
                ta, tb = tgt(la), tgt(lb)
                if ta and tb and ta != tb and ta not in ids(b) and tb not in ids(a) and not (la.k == 'idx' and lb.k == 'idx' and False):
                    c[i], c[i + 1] = b, a
                    i += 1
            i += 1
        return blk(*c)
    return n


def sw2if(n):
    if n.k == 'switch' and pure(n.c[0]) and n.c[1].k == 'block':
        from peval import flat_cases
        items = flat_cases(n.c[1])
        groups, cur, labs = [], None, []
        for s in items:
            if s.k in ('case', 'default'):
                if cur is not None and cur and cur[-1].k not in ('break', 'return', 'continue'):
                    return n
                if cur is None or cur:
                    cur = []
                    labs = []
                    groups.append((labs, cur))
                labs.append(s)
            else:
                cur.append(s)
        r = None
        dflt = None
        for labs, body in groups:
            if any(loopjump(x, 'break') for x in body[:-1]):
                return n
            if any(l.k == 'default' for l in labs):
                dflt = blk(*[x for x in body if x.k != 'break'])
        r = dflt
        for labs, body in reversed(groups):
            if any(l.k == 'default' for l in labs):
                continue
            if any(not isinstance(l.a, int) for l in labs):
                return n
            c = None
            for l in labs:
                e = mk('bin', '==', [clone(n.c[0]), mk('int', l.a, [], 'int')], 'int')
                c = e if c is None else mk('bin', '||', [c, e], 'int')
            r = mk('if', None, [c, blk(*[x for x in body if x.k != 'break']), r])
        return r or n
    return n


def rowptr(n):
    """a[i*s + j] through a pointer to the row."""
    def f(s):
        if s.k != 'asg':
            return [s]
        pre = []

        def g(x):
            if x.k == 'idx' and x.c[0].k == 'ref' and x.c[0].ty.endswith('*') and x.c[1].k == 'bin' and x.c[1].a == '+' and pure(x.c[1]):
                v = var(x.c[0].ty, mk('bin', '+', [x.c[0], x.c[1].c[0]], x.c[0].ty))
                pre.append(mk('decl', [v], []))
                return mk('idx', None, [ref(v), x.c[1].c[1]], x.ty)
            return x
        return pre + [tmap(s, g)]
    return stmts(n, f)


def cellptr(n):
    """a[e] op= v through a pointer to the cell."""
    def f(s):
        if s.k == 'asg' and s.c[0].k == 'idx' and pure(s.c[0]):
            v = var(s.c[0].ty + ' *', mk('un', '&', [s.c[0]], s.c[0].ty + ' *'))
            return [mk('decl', [v], []), mk('asg', s.a, [mk('un', '*', [ref(v)], s.c[0].ty), s.c[1]], s.ty)]
        return [s]
    return stmts(n, f)


def fission(n):
    """Loops whose body is two or more stores to different arrays with no local state."""
    if n.k == 'for' and n.c[0] is not None and n.c[0].k == 'decl':
        b = n.c[3]
        if b is not None and b.k == 'block' and len(b.c) > 1 and all(simple(s) and s.c[0].k == 'idx' and s.c[0].c[0].k == 'ref' for s in b.c):
            t = [s.c[0].c[0].a[1] for s in b.c]
            if len(set(t)) == len(t) and not any(x.k == 'ref' and x.a[1] in t for s in b.c for x in list(walk(s.c[1])) + list(walk(s.c[0].c[1]))):
                return blk(*[mk('for', None, [clone(n.c[0]), clone(n.c[1]), clone(n.c[2]), blk(s)]) for s in b.c])
    return n


def fieldalias(n):
    """Parameter matrix fields get a local name at the top."""
    return n


def noop(n):
    def f(s):
        if s.k in ('for', 'if', 'call'):
            v = var('int', mk('int', 0, [], 'int'))
            return [mk('decl', [v], []), mk('un', 'post++', [ref(v)], 'int'), s]
        return [s]
    return stmts(n, f)


def early(n):
    """if (c) { A } at the end of a void function -> if (!c) return; A"""
    return n


def countdown(n):
    return n


def ptrwalk(n):
    """for (i...) a[i] = ... -> *p++ over the target."""
    if n.k == 'for' and n.c[0] is not None and n.c[0].k == 'decl' and len(n.c[0].a) == 1 and n.c[2] is not None and n.c[2].k == 'un' and '++' in n.c[2].a:
        v = n.c[0].a[0]
        b = n.c[3]
        while b is not None and b.k == 'block' and len(b.c) == 1:
            b = b.c[0]
        if b is not None and b.k == 'asg' and b.c[0].k == 'idx' and b.c[0].c[0].k == 'ref' and b.c[0].c[0].ty.endswith('*') and b.c[0].c[1].k in ('ref',) and b.c[0].c[1].a[1] == v.id:
            a = b.c[0].c[0]
            if not any(x.k == 'ref' and x.a[1] == a.a[1] for x in walk(b.c[1])):
                p = var(a.ty, mk('bin', '+', [clone(a), clone(v.init)], a.ty), 'p')
                return blk(mk('decl', [p], []), mk('for', None, [n.c[0], n.c[1], n.c[2], blk(
                    mk('asg', b.a, [mk('un', '*', [mk('un', 'post++', [ref(p)], p.ty)], b.c[0].ty), b.c[1]], b.ty))]))
    return n


def single(n):
    """Function-level: all returns through one variable is what the inliner does already."""
    return n


def unswitch(n):
    """for { if (inv) A else B } with an invariant condition over parameters -> if (inv) for A else for B."""
    if n.k == 'for' and n.c[0] is not None and n.c[0].k == 'decl':
        b = n.c[3]
        while b is not None and b.k == 'block' and len(b.c) == 1:
            b = b.c[0]
        if b is not None and b.k == 'if' and all(x.k in ('ref', 'int', 'enum', 'bin', 'cast', 'float') for x in walk(b.c[0])):
            w = {core.show(x.c[0]) for x in walk(n) if x.k in ('asg', 'un')} | {v.name for x in walk(n) if x.k == 'decl' for v in x.a}
            if not any(x.k == 'ref' and x.a[0] in w for x in walk(b.c[0])):
                mkf = lambda body: mk('for', None, [clone(n.c[0]), clone(n.c[1]), clone(n.c[2]), body])
                return mk('if', None, [b.c[0], mkf(b.c[1]), mkf(b.c[2]) if b.c[2] is not None else None])
    return n


def defstore(n):
    """if (c) x = a; else x = b;  ->  x = b; if (c) x = a;"""
    if n.k == 'if' and n.c[2] is not None and pure(n.c[0]):
        def one(b):
            while b is not None and b.k == 'block' and len(b.c) == 1:
                b = b.c[0]
            return b
        a, b = one(n.c[1]), one(n.c[2])
        if simple(a) and simple(b) and a.a == b.a == '=' and core.show(a.c[0]) == core.show(b.c[0]):
            l = a.c[0]
            root = l
            while root.k in ('idx', 'mem', 'cast', 'un'):
                root = root.c[0]
            if root.k == 'ref' and not any(x.k == 'ref' and x.a[1] == root.a[1] for x in list(walk(n.c[0])) + list(walk(a.c[1]))):
                return blk(b, mk('if', None, [n.c[0], a, None]))
    return n


LOCAL = {unswitch.__name__: unswitch, defstore.__name__: defstore}
LOCAL |= {f.__name__: f for f in (swapif, for2while, andsplit, andjoin, compound, uncompound, cmpflip, cmpneg, cmple, contguard, elsereturn, ptrform, condif, ifcond,
                                 shiftloop, hoistbound, commute, splitdecl, reorder, reorderasg, sw2if, fission, ptrwalk)}
WHOLE = {f.__name__: f for f in (temp, tempidx, rowptr, cellptr, noop)}


def main():
    cfg = sys.argv[1]
    rt = re.compile(sys.argv[2] if len(sys.argv) > 2 else '.')
    rf = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    verbose = len(sys.argv) > 4
    P = core.load()[cfg]
    M = modref.ModRef(P)
    base = {}
    tot = {}
    for name in sorted(P.fns):
        f = P.fns[name]
        if P.is_helper(f) or not rf.search(name):
            continue
        body = P.nf(f)
        try:
            base = effects.summarise(P, f, M).summary()
        except Exception as e:
            print('EXC', name, e)
            continue
        sh = core.dump(body)
        for t in list(LOCAL) + list(WHOLE):
            if not rt.search(t):
                continue
            nb = tmap(clone(body), LOCAL[t]) if t in LOCAL else WHOLE[t](clone(body))
            if core.dump(nb) == sh:
                continue
            f._nf = nb
            st = tot.setdefault(t, [0, 0, []])
            st[0] += 1
            try:
                s = effects.summarise(P, f, M).summary()
            except Exception as e:
                import traceback
                print('EXC', t, name, repr(e)[:100])
                traceback.print_exc()
                f._nf = body
                continue
            if s != base:
                st[1] += 1
                st[2].append(name)
                if verbose and st[1] < 3:
                    print('##', t, name)
                    import difflib
                    print('\n'.join(difflib.unified_diff(base, s, lineterm="", n=0))[:1500])
            f._nf = body
    for t, (n, b, l) in tot.items():
        print('%-12s %5d applied %4d differ  %s' % (t, n, b, ' '.join(sorted({re.sub(r'_(single|double)_(real|complex)', '', x) for x in l})[:8])))


if __name__ == '__main__':
    main()
