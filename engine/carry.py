"""Scratch arrays reused by successive iterations of a loop must not carry values from one iteration to the next.

Marks (integer scratch compared with a constant in a branch) must be back in their initial state at the end of every
iteration that sets them, or be cleared before they are tested, or hold a stamp of the iteration they belong to.
Accumulators must be initialised before the first accumulation of an iteration or be cleared at its end."""
from core import walk, kids, show, N
from ownership import strip, isptr
from cfg import CFG
from sym import Poly, isarr


def lval_of(x):
    return strip(x.c[0])


def zero(n):
    n = strip(n)
    return n.k == 'int' and n.a == 0 or n.k == 'float' and float(n.a) == 0.0


def tested(c):
    """Operands a condition compares with something, or tests for truth."""
    c = strip(c)
    if c.k == 'un' and c.a == '!':
        return tested(c.c[0])
    if c.k == 'bin' and c.a in ('==', '!=', '<', '>', '<=', '>='):
        return [strip(c.c[0]), strip(c.c[1])]
    return [c]


class Carry:
    def __init__(self, S, body, iv, scratch, acc):
        """scratch: path -> key of the scratch object or None; acc: Access (effects of calls)."""
        self.S, self.iv, self.scratch, self.acc = S, iv, scratch, acc
        self.g = CFG(body)
        self.ev = {}
        for b in self.g.live:
            if b.ast is None or b.kind in ('omp', 'ompend'):
                continue
            e = self.events(b)
            if e:
                self.ev[b] = e

    def key(self, ps):
        ks = {self.scratch(p) for p in ps}
        return ks.pop() if len(ks) == 1 else None

    def events(self, b):
        """[(kind, key, index, node)], kind in init/reset/mark/stamp/acc/test/stamptest."""
        S, out = self.S, []
        for x in walk(b.ast):
            if x.k == 'asg':
                lv = lval_of(x)
                if lv.k == 'ref':
                    continue
                ps = S.lval(lv)
                k = self.key(ps)
                if k is None:
                    continue
                idx = ps[0].sels[-1][1] if ps[0].sels and ps[0].sels[-1][0] == 'i' else Poly()
                self_ref = x.a != '=' or any(self.key(S.lval(y)) == k for y in walk(x.c[1])
                                             if y.k in ('idx', 'un') and (y.k == 'idx' or y.a == '*'))
                if self_ref:
                    out.append(('acc', k, idx, x))
                elif zero(x.c[1]):
                    out.append(('reset', k, idx, x))
                elif self.is_stamp(x.c[1]):
                    out.append(('stamp', k, idx, x))
                else:
                    out.append(('mark', k, idx, x))
            elif x.k == 'call' and x.a and x.a[0] in ('memset', 'memcpy', 'memmove'):
                ps = S.val(x.c[1])
                k = self.key(ps)
                if k is not None:
                    out.append(('reset' if x.a[0] == 'memset' and zero(x.c[2]) else 'mark', k, 'all', x))
            elif x.k == 'call':
                for p, w, sub, n in self.effects(x):
                    k = self.scratch(p)
                    if w and k is not None:
                        out.append(('acc', k, None, x))
        if b.kind == 'branch':
            for x in tested(b.ast):
                if x.k == 'idx' and not any(t in x.ty for t in ('double', 'float', '_Complex')):
                    k = self.key(S.lval(x))
                    if k is not None:
                        out.append(('stamptest' if self.stamp_cmp(b.ast, x) else 'test', k, None, b.ast))
        return out

    def effects(self, x):
        out = []
        self.acc.call(self.S, x, out, 0)
        return out

    def is_stamp(self, n):
        q = self.S.poly(n)
        a = [z for z in q.atoms() if strip(z.node).k == 'ref' and strip(z.node).a[1] == self.iv]
        return len(a) == 1 and (q - Poly.atom(a[0])).isconst()

    def stamp_cmp(self, c, x):
        c = strip(c)
        if c.k == 'bin' and c.a in ('==', '!='):
            for i, j in ((0, 1), (1, 0)):
                if strip(c.c[i]) is x or strip(c.c[i]) is strip(x):
                    return self.is_stamp(c.c[j])
        return False

    def findings(self):
        """[(kind, key, node)]"""
        res = []
        keys = {e[1] for es in self.ev.values() for e in es}
        for k in sorted(keys, key=str):
            es = [(b, e) for b, l in self.ev.items() for e in l if e[1] == k]
            tests = [(b, e) for b, e in es if e[0] == 'test']
            marks = [(b, e) for b, e in es if e[0] in ('mark', 'stamp', 'acc')]
            resets = {b.id for b, e in es if e[0] == 'reset'}
            full = {b.id for b, e in es if e[0] == 'reset' and e[2] == 'all'} | self.loop_heads(k)
            if tests and marks:
                if all(not self.reach_entry(t, full) for t, _ in tests):
                    continue
                for m, e in marks:
                    if not self.reset_after(m, k, full):
                        res.append(('mark', k, e[3]))
                        break
                continue
            accs = [(b, e) for b, e in es if e[0] == 'acc']
            inits = {b.id for b, e in es if e[0] in ('reset', 'mark', 'stamp')}
            for a, e in accs:
                if not self.uninit(a, k, inits):
                    continue
                if self.reset_after(a, k, full):
                    continue
                res.append(('acc', k, e[3]))
                break
        return res

    def reach_entry(self, t, av):
        return self.g.reaches(self.g.entry, t, av)

    def uninit(self, a, k, inits):
        """Can the accumulation run in an iteration that has neither initialised k nor found it marked?"""
        g = self.g
        heads = self.loop_heads(k, ('reset', 'mark', 'stamp'))
        seen, st = set(), [g.entry]
        while st:
            b = st.pop()
            if b.id in seen or b.id in inits or b.id in heads and b is not a:
                continue
            seen.add(b.id)
            if b is a:
                return True
            guard = b.kind == 'branch' and any(e[0] in ('test', 'stamptest') and e[1] != k for e in self.ev.get(b, ()))
            for s, lab in b.succ:
                if guard and self.marked_side(b, lab):
                    continue
                st.append(s)
        return False

    def marked_side(self, b, lab):
        c = strip(b.ast)
        if c.k == 'un' and c.a == '!':
            return lab is False
        if c.k == 'bin' and c.a in ('==', '!='):
            z = zero(c.c[0]) or zero(c.c[1])
            eq = c.a == '=='
            if z:
                return lab is (not eq)
            return lab is eq         # compared with the stamp
        if c.k == 'bin' and c.a in ('>', '<'):
            return lab is True
        return lab is True

    def loop_heads(self, k, kinds=('reset',)):
        """Heads of loops every iteration of which resets k."""
        out = set()
        g = self.g
        loops = {}
        for b in g.live:
            for L in b.loops:
                loops.setdefault(id(L), []).append(b)
        for bs in loops.values():
            head = [b for b in bs if b.kind == 'loop' and len(b.loops) == min(len(c.loops) for c in bs)]
            if not head:
                continue
            h = head[0]
            rs = {b.id for b in bs for e in self.ev.get(b, ()) if e[1] == k and e[0] in kinds}
            if not rs:
                continue
            ins = {b.id for b in bs}
            # can the loop go round without a reset?
            seen, st, bad = set(), [], False
            for s, _ in h.succ:
                st.append(s)
            while st:
                b = st.pop()
                if b is h:
                    bad = True
                    break
                if b.id in seen or b.id in rs or b.id not in ins:
                    continue
                seen.add(b.id)
                st += [s for s, _ in b.succ]
            if not bad:
                out.add(h.id)
        return out

    def reset_after(self, m, k, full):
        """Every way from m to the end of the iteration passes a complete reset of k."""
        g = self.g
        # loops containing m do not count as resetting what m sets
        av = set(full)
        for b in g.live:
            if b.id in av and b.kind == 'loop' and b.loops and m.loops[:len(b.loops)] == b.loops:
                av.discard(b.id)
        return not g.reaches(m, g.exit, av)
