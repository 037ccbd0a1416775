"""Path enumeration with constant propagation over the syntax tree.

Used for code whose control depends on a few discrete tags (matrix type, element
type, ordering, distribution, triangle...).  Every branch whose condition folds to
a constant is followed one way; every other branch is followed both ways; loop
bodies are taken zero times and once with the variables they assign unknown."""
from core import N, kids, walk, show
from inline import assigned_ids

MAXPATHS = 4000


class Path:
    __slots__ = ('env', 'ev', 'ret', 'end')

    def __init__(self, env, ev):
        self.env, self.ev, self.ret, self.end = env, ev, None, None

    def fork(self):
        return Path(dict(self.env), list(self.ev))


UNK = ('?',)


class PE:
    """assume(node, pe, path) -> constant or None for calls / members / refs."""

    def __init__(self, assume, fatal=None):
        self.assume = assume
        self.fatal = fatal or is_fatal

    # -- expressions -> value tuple; may append events
    def ev(self, n, p):
        if n is None:
            return UNK
        k = n.k
        if k == 'int':
            return ('c', n.a)
        if k == 'enum':
            return ('c', n.a[1])
        if k == 'float':
            return ('f', n.a)
        if k == 'str':
            return ('s', n.a)
        v = self.assume(n, self, p)
        if v is not None and k != 'call':
            return ('c', v)
        if k == 'ref':
            if n.a[2] in ('var', 'parm', 'slocal'):
                return p.env.get(n.a[1], ('p', n.a[0]) if n.a[2] == 'parm' else ('v', n.a[0]))
            return ('g', n.a[0])
        if k == 'cast':
            x = self.ev(n.c[0], p)
            return x
        if k == 'call':
            args = tuple(self.ev(x, p) for x in n.c[1:])
            v = self.assume(n, self, p)
            if v is not None:
                return ('c', v)
            name = n.a[0] if n.a else '*'
            p.ev.append((name, args, n))
            for x in n.c[1:]:          # address-taken locals become unknown
                y = x
                while y.k == 'cast':
                    y = y.c[0]
                if y.k == 'un' and y.a == '&' and y.c[0].k == 'ref':
                    p.env[y.c[0].a[1]] = ('out', len(p.ev) - 1, y.c[0].a[0])
            return ('r', len(p.ev) - 1, name)
        if k == 'asg':
            v = self.ev(n.c[1], p)
            t = n.c[0]
            if n.a != '=':
                v = UNK
            if t.k == 'ref':
                p.env[t.a[1]] = v
            else:
                tv = self.lv(t, p)
                p.ev.append(('=', (tv, v), n))
            return v
        if k == 'un':
            if n.a.startswith('pre') or n.a.startswith('post'):
                t = n.c[0]
                if t.k == 'ref':
                    p.env[t.a[1]] = UNK
                else:
                    p.ev.append(('=', (self.lv(t, p), UNK), n))
                return UNK
            if n.a == '&':
                return ('&', self.lv(n.c[0], p))
            x = self.ev(n.c[0], p)
            if x[0] == 'c':
                if n.a == '-':
                    return ('c', -x[1])
                if n.a == '!':
                    return ('c', int(not x[1]))
                if n.a == '~':
                    return ('c', ~x[1])
            if n.a == '*' and x[0] == '&':
                return x[1]
            return ('u', n.a, x)
        if k == 'bin':
            if n.a in ('&&', '||'):
                a = self.ev(n.c[0], p)
                if a[0] == 'c':
                    if n.a == '&&' and not a[1]:
                        return ('c', 0)
                    if n.a == '||' and a[1]:
                        return ('c', 1)
                    b = self.ev(n.c[1], p)
                    return ('c', int(bool(b[1]))) if b[0] == 'c' else b
                b = self.ev(n.c[1], p)
                if b[0] == 'c':
                    if n.a == '&&' and not b[1]:
                        return ('c', 0)
                    if n.a == '||' and b[1]:
                        return ('c', 1)
                return ('b', n.a, a, b)
            a, b = self.ev(n.c[0], p), self.ev(n.c[1], p)
            if a[0] == 'c' and b[0] == 'c':
                r = fold(n.a, a[1], b[1])
                if r is not None:
                    return ('c', r)
            return ('b', n.a, a, b)
        if k == 'cond':
            c = self.ev(n.c[0], p)
            if c[0] == 'c':
                return self.ev(n.c[1] if c[1] else n.c[2], p)
            r = []
            for x in n.c[1:3]:
                m = len(p.ev)
                r.append(self.ev(x, p))
                if any(e[0] not in ('=', 'if', 'case') and self.fatal(e) for e in p.ev[m:]):
                    del p.ev[m:]           # assert(): only the passing side continues
            return ('?:', c, r[0], r[1])
        if k == 'sizeof':
            return ('sz', n.a[0])
        if k in ('mem', 'idx'):
            return self.lv(n, p)
        return ('x', k) + tuple(self.ev(x, p) for x in kids(n) if x.k not in ('block',))

    def lv(self, n, p):
        k = n.k
        if k == 'ref':
            if n.a[2] in ('var', 'parm', 'slocal'):
                v = p.env.get(n.a[1])
                return ('lv', n.a[0]) if v is None or v[0] != '&' else v
            return ('g', n.a[0])
        if k == 'mem':
            b = self.ev(n.c[0], p) if n.a[1] else self.lv(n.c[0], p)
            return ('m', b, n.a[0])
        if k == 'idx':
            return ('i', self.ev(n.c[0], p), self.ev(n.c[1], p))
        if k == 'un' and n.a == '*':
            x = self.ev(n.c[0], p)
            return x[1] if x[0] == '&' else ('u', '*', x)
        if k == 'cast':
            return self.lv(n.c[0], p)
        return self.ev(n, p)

    # -- statements: list of live paths in, live paths out; finished paths collected
    def run(self, body, env=None):
        self.done = []
        live = self.st(body, [Path(dict(env or {}), [])])
        for p in live:
            if p.end not in (None,):
                pass
            p.end = 'fall'
            self.done.append(p)
        return self.done

    def st(self, n, ps):
        """ps: paths with end None.  Paths with end 'break'/'continue' bubble up."""
        if n is None or not ps:
            return ps
        if len(ps) > MAXPATHS:
            raise RuntimeError('too many paths')
        k = n.k
        if k in ('block', 'splice'):
            out = []
            cur = ps
            for s in n.c:
                nxt = self.st(s, cur)
                cur = []
                for p in nxt:
                    (cur if p.end is None else out).append(p)
                if not cur:
                    break
            return cur + out
        if k == 'inl':
            r = self.st(n.c[0], ps)
            for p in r:
                if p.end == ('leave', n.a['label']):
                    p.end = None
            return r
        if k == 'leave':
            for p in ps:
                p.end = ('leave', n.a)
            return ps
        if k == 'decl':
            for p in ps:
                for v in n.a:
                    p.env[v.id] = self.ev(v.init, p) if v.init is not None else ('undef', v.name)
            return self.kill(ps)
        if k in ('null',):
            return ps
        if k == 'if':
            out = []
            for p in ps:
                c = self.ev(n.c[0], p)
                if p.end == 'dead':
                    self.finish(p)
                    continue
                if c[0] == 'c':
                    out += self.st(n.c[1] if c[1] else n.c[2], [p])
                else:
                    q = p.fork()
                    p.ev.append(('if', (c, True), n))
                    q.ev.append(('if', (c, False), n))
                    out += self.st(n.c[1], [p])
                    out += self.st(n.c[2], [q]) if n.c[2] is not None else [q]
            return out
        if k == 'switch':
            out = []
            items = flat_cases(n.c[1])
            for p in ps:
                c = self.ev(n.c[0], p)
                if c[0] == 'c':
                    starts = [i for i, s in enumerate(items) if s.k == 'case' and s.a == c[1]]
                    if not starts:
                        starts = [i for i, s in enumerate(items) if s.k == 'default']
                    if not starts:
                        out.append(p)
                        continue
                    out += self.swrun(items, starts[0], p)
                else:
                    st = [i for i, s in enumerate(items) if s.k in ('case', 'default')]
                    for i in st:
                        q = p.fork()
                        q.ev.append(('case', (c, items[i].a if items[i].k == 'case' else 'default'), n))
                        out += self.swrun(items, i, q)
                    if not any(s.k == 'default' for s in items):
                        q = p.fork()
                        out.append(q)
            return out
        if k in ('case', 'default', 'label'):
            return self.st(n.c[0], ps)
        if k in ('for', 'while', 'do'):
            if k == 'for':
                init, cond, inc, body = n.c
                ps = self.st(init, ps) if init is not None else ps
            elif k == 'while':
                cond, body = n.c
                inc = None
            else:
                body, cond = n.c
                inc = None
            asg = set()
            for x in (cond, inc, body):
                if x is not None:
                    asg |= assigned_ids(x)
            out = []
            for p in ps:
                if p.end is not None:
                    out.append(p)
                    continue
                first = UNK
                if k != 'do' and cond is not None:
                    q = p.fork()
                    first = self.ev(cond, q)
                if first == ('c', 0):
                    out.append(p)
                    continue
                if first[0] != 'c' and k != 'do':
                    z = p.fork()
                    out.append(z)          # zero iterations
                for i in asg:
                    p.env[i] = UNK
                if cond is not None and k != 'do':
                    self.ev(cond, p)
                for q in self.st(body, [p]):
                    if q.end in ('break', 'continue'):
                        q.end = None
                    if q.end is None:
                        if inc is not None:
                            r = self.st(inc, [q])
                            out += r
                        else:
                            out.append(q)
                        for i in asg:
                            q.env[i] = UNK
                    else:
                        out.append(q)
            return out
        if k == 'omp':
            return self.st(n.c[0], ps) if n.c and n.c[0] is not None else ps
        if k == 'return':
            for p in ps:
                p.ret = self.ev(n.c[0], p) if n.c and n.c[0] is not None else None
                if p.end != 'dead':
                    p.end = 'return'
                self.finish(p)
            return []
        if k in ('break', 'continue'):
            for p in ps:
                p.end = k
            return ps
        if k == 'goto':
            raise RuntimeError('goto')
        # expression statement
        for p in ps:
            self.ev(n, p)
        return self.kill(ps)

    def kill(self, ps):
        out = []
        for p in ps:
            if p.ev and p.ev[-1][0] not in ('=', 'if', 'case') and any(self.fatal(e) for e in p.ev[-3:]):
                p.end = 'fatal'
                self.finish(p)
            else:
                out.append(p)
        return out

    def finish(self, p):
        self.done.append(p)

    def swrun(self, items, i, p):
        ps = [p]
        out = []
        for s in items[i:]:
            r = self.st(s.c[0] if s.k in ('case', 'default') else s, ps)
            ps = []
            for q in r:
                if q.end == 'break':
                    q.end = None
                    out.append(q)
                elif q.end is None:
                    ps.append(q)
                else:
                    out.append(q)
            if not ps:
                break
        return out + ps


def flat_cases(body):
    """case a: case b: stmt  ->  a flat list of case markers and statements."""
    out = []
    for s in (body.c if body.k == 'block' else [body]):
        while s is not None and s.k in ('case', 'default'):
            out.append(N(s.k, s.line, s.ty, s.a, [None], s.src))
            s = s.c[0]
        if s is not None:
            out.append(s)
    return out


def fold(op, a, b):
    try:
        return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b),
                '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b,
                '*': lambda: a * b, '/': lambda: a // b if b and a >= 0 and b > 0 else None,
                '%': lambda: a % b if b > 0 and a >= 0 else None,
                '&': lambda: a & b, '|': lambda: a | b}.get(op, lambda: None)()
    except Exception:
        return None


def is_fatal(e):
    """LOG_ERROR, exit, abort."""
    name, args = e[0], e[1]
    if name in ('bml_log_location', 'bml_log') and args and args[0] == ('c', 3):
        return True
    return name in ('exit', 'abort', '_exit', '__assert_fail', 'MPI_Abort')
