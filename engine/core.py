"""Program model: typed syntax trees for every function the build compiles."""
import json, os, tempfile, shutil, itertools, sys
import build

sys.setrecursionlimit(100000)
_fresh = itertools.count(10_000_000)


class Var:
    __slots__ = ('name', 'id', 'ty', 'storage', 'init', 'line', 'vla')


class N:
    """A syntax-tree node: kind, line, canonical type, attribute, children."""
    __slots__ = ('k', 'line', 'ty', 'a', 'c', 'src')

    def __init__(self, k, line, ty, a, c, src=None):
        self.k, self.line, self.ty, self.a, self.c, self.src = k, line, ty, a, c, src

    def __repr__(self):
        return show(self)


def conv(r):
    if r is None:
        return None
    k, line, ty, a, c = r
    if k == 'decl':
        vs = []
        for v in a:
            x = Var()
            x.name, x.id, x.ty, x.storage, i, x.line, vl = v
            x.init, x.vla = conv(i), conv(vl)
            vs.append(x)
        return N(k, line, ty, vs, [])
    if k == 'omp':
        a['clauses'] = [[n, o, [conv(x) for x in l]] for n, o, l in a['clauses']]
    if k == 'call' and a is not None:
        a = tuple(a)
    return N(k, line, ty, a, [conv(x) for x in c])


def kids(n):
    """Children, declaration initialisers included."""
    if n.k == 'decl':
        for v in n.a:
            if v.vla is not None:
                yield v.vla
            if v.init is not None:
                yield v.init
        return
    for x in n.c:
        if x is not None:
            yield x


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))


class Fn:
    def __init__(self, d):
        self.name, self.main, self.line, self.end = d['name'], os.path.normpath(d['main']), d['line'], d['end']
        self.file = os.path.normpath(d['file'])
        self.tag, self.static, self.noreturn, self.variadic = d['tag'], d['static'], d['noreturn'], d['variadic']
        self.ret = d['ret']
        self.params = d['params']       # [name,id,canonical type,spelled type]
        self._raw = d.get('body')
        self._body = None
        self._nf = None

    @property
    def body(self):
        if self._body is None:
            self._body = conv(self._raw)
            self._raw = None
        return self._body

    def __repr__(self):
        return '<%s>' % self.name


class Program:
    def __init__(self, cfg, paths):
        self.cfg = cfg
        self.fns, self.protos, self.recs, self.enums = {}, {}, {}, {}
        self.gvars, self.tus = [], []
        self.dups = []
        for p in paths:
            with open(p) as fh:
                for line in fh:
                    d = json.loads(line)
                    k = d['k']
                    if k == 'fn':
                        f = Fn(d)
                        key = f.name if not f.static else f.name + '@' + f.main + '@' + f.tag
                        if key in self.fns and not f.static:
                            if f.file == self.fns[key].file and f.line == self.fns[key].line:
                                continue      # definition in a header
                            self.dups.append((f, self.fns[key]))
                        self.fns[key] = f
                    elif k == 'proto':
                        self.protos.setdefault(d['name'], Fn(d))
                    elif k == 'rec':
                        self.recs[d['name']] = d['fields']
                    elif k == 'enum':
                        self.enums[d['name']] = d['vals']
                    elif k == 'gvar':
                        d['file'] = os.path.normpath(d['file'])
                        self.gvars.append(d)
                    elif k == 'tu':
                        self.tus.append(d)
        self.baseline = set(open(os.path.join(build.VERIF, 'engine', 'baseline_fns.txt')).read().split()) \
            if os.path.exists(os.path.join(build.VERIF, 'engine', 'baseline_fns.txt')) else set(f for f in self.fns)

    def lookup(self, name, frm=None):
        """Definition a direct call to `name` in function `frm` resolves to."""
        if frm is not None:
            f = self.fns.get(name + '@' + frm.main + '@' + frm.tag)
            if f is not None:
                return f
        return self.fns.get(name)

    def is_helper(self, f):
        """Functions the reviewed tree does not know: analysed inside their callers."""
        return f.static or f.name not in self.baseline

    also = frozenset()       # functions to expand as well, for the time being

    def top(self):
        """Functions analysed as units (helpers are analysed inline)."""
        return [f for f in self.fns.values() if not self.is_helper(f)]

    def nf(self, f):
        """Body with helper calls expanded."""
        if f._nf is None:
            import inline
            f._nf = inline.expand(self, f)
        return f._nf


_progs = {}


def load(tier='quick'):
    if tier in _progs:
        return _progs[tier]
    if os.environ.get('VERIF_EXTRACT'):       # development only: reuse an extraction
        d = os.environ['VERIF_EXTRACT']
        import glob
        res = {c: sorted(glob.glob(d + '/' + c + '.*.jsonl')) for c in ('A', 'B')}
        _progs[tier] = {c: Program(c, ps) for c, ps in res.items()}
        return _progs[tier]
    d = tempfile.mkdtemp(prefix='bmlx')
    try:
        res = build.extract(tier, d)
        _progs[tier] = {c: Program(c, ps) for c, ps in res.items()}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return _progs[tier]


# ---------------------------------------------------------------- printing
def show(n):
    if n is None:
        return ''
    k, a, c = n.k, n.a, n.c
    if k == 'ref':
        return a[0]
    if k == 'enum':
        return a[0]
    if k in ('int', 'float'):
        return str(a)
    if k == 'imag':
        return show(c[0]) + 'i'
    if k == 'str':
        return json.dumps(a)
    if k in ('bin', 'asg'):
        return '%s %s %s' % (par(c[0]), a, par(c[1]))
    if k == 'un':
        if a.startswith('post'):
            return par(c[0]) + a[4:]
        if a.startswith('pre'):
            return a[3:] + par(c[0])
        return a + par(c[0])
    if k == 'idx':
        return '%s[%s]' % (par(c[0]), show(c[1]))
    if k == 'mem':
        return '%s%s%s' % (par(c[0]), '->' if a[1] else '.', a[0])
    if k == 'call':
        return '%s(%s)' % (a[0] if a else par(c[0]), ', '.join(show(x) for x in c[1:]))
    if k == 'cast':
        return '(%s)%s' % (n.ty, par(c[0])) if a[1] else show(c[0])
    if k == 'cond':
        return '%s ? %s : %s' % (par(c[0]), par(c[1]), par(c[2]))
    if k == 'sizeof':
        return 'sizeof(%s)' % a[0]
    if k == 'decl':
        return '; '.join('%s %s%s' % (v.ty, v.name, ' = ' + show(v.init) if v.init is not None else '') for v in a)
    if k == 'return':
        return 'return ' + (show(c[0]) if c and c[0] is not None else '')
    return '<%s%s>' % (k, ''.join(' ' + show(x) for x in c if x is not None)[:60])


def par(n):
    s = show(n)
    return '(' + s + ')' if n is not None and n.k in ('bin', 'asg', 'cond', 'cast') and ' ' in s else s


def dump(n, ind=0):
    """Structured pretty-print (for reports and debugging)."""
    p = '  ' * ind
    if n is None:
        return p + ';\n'
    k = n.k
    if k == 'block':
        return ''.join(dump(x, ind) for x in n.c)
    if k == 'if':
        s = p + '%d: if (%s)\n' % (n.line, show(n.c[0])) + dump(n.c[1], ind + 1)
        if n.c[2] is not None:
            s += p + 'else\n' + dump(n.c[2], ind + 1)
        return s
    if k == 'for':
        return p + '%d: for (%s; %s; %s)\n' % (n.line, show(n.c[0]), show(n.c[1]), show(n.c[2])) + dump(n.c[3], ind + 1)
    if k == 'while':
        return p + '%d: while (%s)\n' % (n.line, show(n.c[0])) + dump(n.c[1], ind + 1)
    if k == 'do':
        return p + '%d: do\n' % n.line + dump(n.c[0], ind + 1) + p + 'while (%s)\n' % show(n.c[1])
    if k == 'switch':
        return p + '%d: switch (%s)\n' % (n.line, show(n.c[0])) + dump(n.c[1], ind + 1)
    if k in ('case', 'default', 'label'):
        return p + '%s %s:\n' % (k, n.a) + dump(n.c[0], ind + 1)
    if k == 'omp':
        return p + '#omp %s %s\n' % (n.a['dir'], [(c[0], c[1], [show(x) for x in c[2]]) for c in n.a['clauses']]) + \
            dump(n.c[0], ind + 1)
    if k == 'inl':
        return p + '{inlined %s\n' % n.a['fn'] + dump(n.c[0], ind + 1) + p + '}\n'
    return p + '%d: %s\n' % (n.line, show(n))
