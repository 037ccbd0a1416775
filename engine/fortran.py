"""A small Fortran front end for the wrappers in src/Fortran-interface: modules, bind(C)
interfaces, procedures; and an effect summary of what each public procedure does (the C
functions it calls, with which arguments; what it assigns; what it returns)."""
import os, re, glob, hashlib

TYPED = {'single_real': ('real(C_FLOAT)', 'C_FLOAT', 'BML_ELEMENT_REAL'),
         'double_real': ('real(C_DOUBLE)', 'C_DOUBLE', 'BML_ELEMENT_REAL'),
         'single_complex': ('complex(C_FLOAT_COMPLEX)', 'C_FLOAT_COMPLEX', 'BML_ELEMENT_COMPLEX'),
         'double_complex': ('complex(C_DOUBLE_COMPLEX)', 'C_DOUBLE_COMPLEX', 'BML_ELEMENT_COMPLEX')}
TOK = re.compile(r"""\s*(?:('(?:[^']|'')*'|"(?:[^"]|"")*")|(\.[a-z]+\.)|(\d+\.\d*(?:[ed][+-]?\d+)?(?:_\w+)?|\d+[ed][+-]?\d+(?:_\w+)?|\d+(?:_\w+)?)|([a-z]\w*)|(=>|==|/=|<=|>=|//|\*\*|\(/|/\)|::|[-+*/<>=(),:%\[\]]))""", re.I)


class FErr(Exception):
    pass


# ---------------------------------------------------------------- source lines
def cpp(text, defs):
    out, stack = [], [True]
    for i, l in enumerate(text.split('\n'), 1):
        s = l.strip()
        if s.startswith('#'):
            m = re.match(r'#\s*(ifdef|ifndef|if|elif|else|endif|include|define|undef)\b\s*(.*)', s)
            if not m:
                continue
            k, r = m.groups()
            if k == 'ifdef':
                stack.append(r.split()[0] in defs)
            elif k == 'ifndef':
                stack.append(r.split()[0] not in defs)
            elif k == 'if':
                stack.append(cond(r, defs))
            elif k == 'elif':
                stack[-1] = (not stack[-1]) and cond(r, defs)
            elif k == 'else':
                stack[-1] = not stack[-1]
            elif k == 'endif':
                stack.pop()
            continue
        if all(stack):
            out.append((i, l))
    return out


def cond(r, defs):
    e = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda m: str(m.group(1) in defs), r)
    e = e.replace('&&', ' and ').replace('||', ' or ').replace('!', ' not ')
    try:
        return bool(eval(re.sub(r'\b(?!True|False|and|or|not)[A-Za-z_]\w*', '0', e)))
    except Exception:
        return False


def strip_comment(l):
    q = None
    for i, c in enumerate(l):
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '!':
            return l[:i]
    return l


def statements(text, defs):
    """[(line, statement)] with comments removed and continuation lines joined"""
    out, cur, start = [], '', None
    for i, l in cpp(text, defs):
        l = strip_comment(l).strip()
        if not l:
            continue
        if cur:
            if l.startswith('&'):
                l = l[1:].lstrip()
        else:
            start = i
        if l.endswith('&'):
            cur += l[:-1].rstrip() + ' '
            continue
        cur += l
        for part in split_top(cur, ';'):
            if part.strip():
                out.append((start, lower(part.strip())))
        cur = ''
    return out


def split_top(s, sep):
    out, d, q, cur = [], 0, None, ''
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c in '([':
            d += 1
        elif c in ')]':
            d -= 1
        elif c == sep and d == 0:
            out.append(cur)
            cur = ''
            continue
        cur += c
    out.append(cur)
    return out


def lower(s):
    return ''.join(p if p[:1] in '\'"' else p.lower() for p in re.split(r"('(?:[^']|'')*'|\"(?:[^\"]|\"\")*\")", s))


# ---------------------------------------------------------------- expressions
# ('num',t) ('str',t) ('name',n) ('call',base,[args]) ('member',e,n) ('bin',op,a,b) ('un',op,a) ('kw',n,e) ('arr',[..]) ('range',a,b)
class P:
    def __init__(self, s):
        self.t = []
        i = 0
        while i < len(s):
            m = TOK.match(s, i)
            if not m or m.end() == i:
                if not s[i:].strip():
                    break
                raise FErr('token %r' % s[i:i + 30])
            k = next(j for j in range(1, 6) if m.group(j))
            self.t.append((k, m.group(k)))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self, x=None):
        v = self.peek()
        if x is not None and v != x:
            raise FErr('expected %r, found %r' % (x, v))
        self.i += 1
        return v

    LEV = [('.eqv.', '.neqv.'), ('.or.',), ('.and.',), None, ('==', '/=', '<', '<=', '>', '>=', '.eq.', '.ne.', '.lt.', '.le.', '.gt.', '.ge.'),
           ('//',), ('+', '-'), ('*', '/'), ('**',)]
    CAN = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}

    def expr(self, l=0):
        if l == len(self.LEV):
            return self.primary()
        if l == 3:
            if self.peek() == '.not.':
                self.take()
                return ('un', '.not.', self.expr(3))
            return self.expr(4)
        if l == 6 and self.peek() in ('+', '-'):
            op = self.take()
            a = ('un', op, self.expr(7)) if op == '-' else self.expr(7)
        else:
            a = self.expr(l + 1)
        while self.peek() in self.LEV[l] and self.kind() in (2, 5):
            op = self.take()
            a = ('bin', self.CAN.get(op, op), a, self.expr(l + 1))
        return a

    def args(self, close):
        out = []
        while self.peek() != close:
            if self.kind() == 4 and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == '=':
                n = self.take()
                self.take('=')
                out.append(('kw', n, self.expr()))
            elif self.peek() == ':':
                self.take()
                hi = None if self.peek() in (',', close) else self.expr()
                out.append(('range', None, hi))
            elif self.peek() == '*' and self.t[self.i + 1][1] in (',', close):
                self.take()
                out.append(('name', '*'))
            else:
                e = self.expr()
                if self.peek() == ':':
                    self.take()
                    hi = None if self.peek() in (',', close) else self.expr()
                    e = ('range', e, hi)
                out.append(e)
            if self.peek() == ',':
                self.take()
        self.take(close)
        return out

    def primary(self):
        k, v = self.kind(), self.peek()
        if v == '(':
            self.take()
            e = self.expr()
            if self.peek() == ',':          # complex constant
                self.take()
                f = self.expr()
                self.take(')')
                return ('call', ('name', 'cmplx'), [e, f])
            self.take(')')
            return e
        if v in ('[', '(/'):
            self.take()
            return ('arr', self.args(']' if v == '[' else '/)'))
        self.take()
        if k == 1:
            return ('str', v[1:-1])
        if k == 2 and v in ('.true.', '.false.'):
            return ('num', v)
        if k == 3:
            return ('num', v)
        if k == 4:
            e = ('name', v)
            while self.peek() in ('(', '%'):
                if self.take() == '(':
                    e = ('call', e, self.args(')'))
                else:
                    e = ('member', e, self.take())
            return e
        if v in ('-', '+'):
            return ('un', v, self.primary())
        raise FErr('unexpected %r' % v)


def parse_expr(s):
    p = P(s)
    e = p.expr()
    if p.peek() is not None:
        raise FErr('trailing %r in %r' % (p.peek(), s))
    return e


# ---------------------------------------------------------------- modules
class Proc:
    pass


class Module:
    pass


PROC = re.compile(r'((?:(?:pure|elemental|recursive|impure|integer|logical|real|complex|character|double precision|type)(?:\s*\([^()]*(?:\([^()]*\))?[^()]*\))?\s+)*)(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*(.*)$')
DECL = re.compile(r'^(integer|real|complex|logical|character|double\s+precision|type\s*\(|class\s*\(|procedure\s*\()')


def canon_type(t):
    t = re.sub(r'\s+', '', t)
    t = {'doubleprecision': 'real(c_double)', 'integer': 'integer(c_int)', 'real': 'real(c_float)',
         'integer(kind=c_int)': 'integer(c_int)', 'logical': 'logical'}.get(t, t)
    t = re.sub(r'\(kind=', '(', t)
    t = t.replace('class(', 'type(')
    t = re.sub(r'^integer\(4\)$', 'integer(c_int)', t)
    if t.startswith('character'):
        return 'character'
    return t


def parse_decl(s):
    """type declaration -> (type, attrs, [(name, dims, init)])"""
    m = re.match(r'^(double\s+precision|[a-z]+(?:\s*\((?:[^()]|\([^()]*\))*\))?)\s*(.*)$', s)
    ty, rest = m.groups()
    attrs = []
    if '::' in rest:
        a, rest = rest.split('::', 1)
        attrs = [x.strip() for x in split_top(a, ',') if x.strip()]
    names = []
    for e in split_top(rest, ','):
        m = re.match(r'^\s*(\w+)\s*(\(.*?\))?\s*(?:\*\s*\d+)?\s*(?:=>?\s*(.*))?$', e)
        if not m:
            raise FErr('declaration %r' % s)
        names.append((m.group(1), m.group(2), m.group(3)))
    for a in attrs:
        m = re.match(r'dimension\s*(\(.*\))', a)
        if m:
            names = [(n, d or m.group(1), i) for n, d, i in names]
    return canon_type(ty), [a for a in attrs if not a.startswith('dimension')], names


def end_is(s, kw):
    return re.match(r'end\s*%s\b' % kw, s) or s == 'end'


class Parser:
    def __init__(self, st, file):
        self.st, self.i, self.file = st, 0, file

    def cur(self):
        return self.st[self.i][1] if self.i < len(self.st) else None

    def module(self):
        M = Module()
        M.uses, M.params, M.public, M.private_default, M.generic, M.procs, M.binds, M.types, M.file = [], {}, set(), False, {}, {}, {}, {}, self.file
        M.vars = {}
        M.privnames = set()
        m = re.match(r'module\s+(\w+)$', self.cur())
        if not m:
            raise FErr('%s: not a module: %r' % (self.file, self.cur()))
        M.name = m.group(1)
        self.i += 1
        while not re.match(r'end\s*module\b', self.cur()):
            s = self.cur()
            self.i += 1
            if s.startswith('use'):
                m = re.match(r'use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)', s)
                M.uses.append(m.group(1))
            elif s in ('implicit none', 'contains', 'save'):
                pass
            elif re.match(r'private\b', s):
                if '::' in s or ' ' in s.strip():
                    M.privnames |= set(x.strip() for x in re.sub(r'private\s*(::)?', '', s).split(','))
                else:
                    M.private_default = True
            elif re.match(r'public\b', s):
                M.public |= set(x.strip() for x in re.sub(r'public\s*(::)?', '', s).split(',') if x.strip())
            elif re.match(r'(abstract\s+)?interface\b', s):
                self.interface(M, s)
            elif re.match(r'type\s*(?:,[^:]*)?(?:::)?\s*\w+$', s) and not s.startswith('type('):
                n = re.match(r'.*?(\w+)$', s).group(1)
                M.types[n] = []
                while not re.match(r'end\s*type', self.cur()):
                    M.types[n].append(self.cur())
                    self.i += 1
                self.i += 1
            elif PROC.match(s) and not re.match(r'end', s):
                p = self.proc(s, self.st[self.i - 1][0])
                p.module = M.name
                p.muses = M.uses
                M.procs[p.name] = p
            elif DECL.match(s):
                ty, at, names = parse_decl(s)
                for n, d, init in names:
                    if 'parameter' in at:
                        M.params[n] = parse_expr(init)
                    else:
                        M.vars[n] = ty
            elif re.match(r'parameter\s*\(', s):
                for e in split_top(s[s.index('(') + 1:-1], ','):
                    n, v = e.split('=', 1)
                    M.params[n.strip()] = parse_expr(v)
            elif re.match(r'include\b', s):
                pass
            else:
                raise FErr('%s: statement %r' % (self.file, s))
        return M

    def interface(self, M, s):
        m = re.match(r'interface\s+(\w+)', s)
        name = m.group(1) if m else None
        while not re.match(r'end\s*interface', self.cur()):
            t = self.cur()
            self.i += 1
            if re.match(r'(module\s+)?procedure\b', t):
                for n in re.sub(r'(module\s+)?procedure\s*(::)?', '', t).split(','):
                    M.generic.setdefault(name, []).append(n.strip())
            elif PROC.match(t):
                p = self.proc(t, self.st[self.i - 1][0])
                M.binds[p.name] = p
                if name:
                    M.generic.setdefault(name, []).append(p.name)
            else:
                raise FErr('%s: interface statement %r' % (self.file, t))
        self.i += 1

    def proc(self, s, line):
        m = PROC.match(s)
        p = Proc()
        pre, p.kind, p.name, args, suffix = m.groups()
        p.args = [x.strip() for x in (args or '').split(',') if x.strip()]
        p.file, p.line = self.file, line
        m = re.search(r'bind\s*\(\s*c\s*(?:,\s*name\s*=\s*[\'"]([^\'"]*)[\'"])?\s*\)', suffix)
        p.bind = (m.group(1) or p.name) if m else None
        m = re.search(r'result\s*\(\s*(\w+)\s*\)', suffix)
        p.result = m.group(1) if m else (p.name if p.kind == 'function' else None)
        p.decl, p.params, p.uses, p.contains = {}, {}, [], {}
        pre = re.sub(r'\b(pure|elemental|recursive|impure)\b', '', pre or '').strip()
        if pre:
            p.decl[p.result] = (canon_type(pre), [], None)
        p.body = []
        p.begin = None
        p.body = self.block(p, lambda t: re.match(r'end\s*%s\b' % p.kind, t) or t == 'end' or t == 'contains')
        if self.cur() == 'contains':
            self.i += 1
            while not (re.match(r'end\s*%s\b' % p.kind, self.cur()) or self.cur() == 'end'):
                t = self.cur()
                self.i += 1
                q = self.proc(t, self.st[self.i - 1][0])
                q.module = None
                q.muses = []
                p.contains[q.name] = q
        self.i += 1
        return p

    def block(self, p, stop):
        out = []
        while not stop(self.cur()):
            line, s = self.st[self.i]
            self.i += 1
            m = re.match(r'(\w+)\s*:\s*(if|do|select|associate|block)\b', s)
            if m:
                s = s[s.index(':') + 1:].strip()
            if re.match(r'(use|import|implicit|external|intrinsic|save)\b', s) and '=' not in s.split('(')[0]:
                m = re.match(r'use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)', s)
                if m:
                    p.uses.append(m.group(1))
            elif DECL.match(s) and not re.match(r'^(real|integer|logical)\s*\(.*\)\s*=', s) and (('::' in s) or not re.match(r'^\w+\s*=', s)) and not out:
                ty, at, names = parse_decl(s)
                for n, d, init in names:
                    if 'parameter' in at:
                        p.params[n] = parse_expr(init)
                    else:
                        p.decl[n] = (ty, at, d)
                        if init is not None:
                            out_init = ('assign', line, ('name', n), parse_expr(init))
                            p.inits = getattr(p, 'inits', []) + [out_init]
            elif re.match(r'if\s*\(', s):
                c, rest = self.paren(s[2:].strip())
                if rest == 'then':
                    out.append(self.ifblock(p, line, parse_expr(c)))
                else:
                    out.append(('if', line, parse_expr(c), [self.simple(rest, line)], []))
            elif re.match(r'select\s*case\s*\(', s):
                sel, _ = self.paren(re.sub(r'^select\s*case\s*', '', s))
                cases = []
                while not re.match(r'end\s*select', self.cur()):
                    t = self.cur()
                    self.i += 1
                    t = t[4:].strip()
                    vals = None if t.startswith('default') else P(t[1:]).args(')')
                    cases.append((vals, self.block(p, lambda u: re.match(r'(case\b|end\s*select)', u))))
                self.i += 1
                out.append(('select', line, parse_expr(sel), cases))
            elif re.match(r'associate\s*\(', s):
                c, _ = self.paren(s[len('associate'):].strip())
                bl = [x.split('=>') for x in split_top(c, ',')]
                body = self.block(p, lambda u: re.match(r'end\s*associate', u))
                self.i += 1
                out.append(('associate', line, [(a.strip(), parse_expr(b)) for a, b in bl], body))
            elif re.match(r'do\b', s):
                m = re.match(r'do\s+(\w+)\s*=\s*(.*)$', s)
                w = re.match(r'do\s+while\s*(\(.*\))$', s)
                body = self.block(p, lambda u: re.match(r'end\s*do', u))
                self.i += 1
                if m:
                    out.append(('do', line, m.group(1), [parse_expr(x) for x in split_top(m.group(2), ',')], body))
                else:
                    out.append(('dowhile', line, parse_expr(w.group(1)) if w else None, body))
            elif re.match(r'block$', s):
                body = self.block(p, lambda u: re.match(r'end\s*block', u))
                self.i += 1
                out.extend(body)
            else:
                out.append(self.simple(s, line))
        return out

    def paren(self, s):
        d, q = 0, None
        for i, c in enumerate(s):
            if q:
                q = None if c == q else q
            elif c in '\'"':
                q = c
            elif c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return s[1:i], s[i + 1:].strip()
        raise FErr('parentheses in %r' % s)

    def ifblock(self, p, line, c):
        stop = lambda u: re.match(r'(else\b|elseif\b|end\s*if\b)', u)
        a = self.block(p, stop)
        t = self.cur()
        l2 = self.st[self.i][0]
        self.i += 1
        m = re.match(r'else\s*if\s*\(', t)
        if m:
            c2, _ = self.paren(re.sub(r'^else\s*if\s*', '', t))
            return ('if', line, c, a, [self.ifblock(p, l2, parse_expr(c2))])
        b = []
        if t.startswith('else'):
            b = self.block(p, lambda u: re.match(r'end\s*if\b', u))
            self.i += 1
        return ('if', line, c, a, b)

    def simple(self, s, line):
        m = re.match(r'call\s+(.*)$', s)
        if m:
            e = parse_expr(m.group(1))
            if e[0] != 'call':
                e = ('call', e, [])
            return ('call', line, e)
        if re.match(r'(error\s+)?stop\b', s):
            return ('stop', line)
        if re.match(r'(print|write|read|flush|open|close)\b', s) and not re.match(r'\w+\s*=', s):
            return ('io', line, s)
        if s in ('return', 'cycle', 'exit', 'continue'):
            return (s, line)
        m = re.match(r'(allocate|deallocate|nullify)\s*\(', s)
        if m:
            return (m.group(1), line, P(s[s.index('(') + 1:]).args(')'))
        # assignment
        d, q = 0, None
        for i, c in enumerate(s):
            if q:
                q = None if c == q else q
            elif c in '\'"':
                q = c
            elif c in '([':
                d += 1
            elif c in ')]':
                d -= 1
            elif c == '=' and d == 0:
                if s[i + 1] == '>':
                    return ('assign', line, parse_expr(s[:i]), parse_expr(s[i + 2:]))
                if s[i + 1] == '=' or s[i - 1] in '/<>=':
                    continue
                return ('assign', line, parse_expr(s[:i]), parse_expr(s[i + 1:]))
        raise FErr('%s:%d: statement %r' % (self.file, line, s))


def load(src, defs=('BML_COMPLEX', 'BML_USE_MPI')):
    mods = {}
    files = sorted(glob.glob(os.path.join(src, '*.F90')))
    for f in files:
        text = open(f, errors='replace').read()
        b = os.path.basename(f)
        inst = [text]
        if 'typed_m' in b and b != 'bml_typed_m.F90':
            inst = [text.replace('MATRIX_TYPE', t).replace('REAL_TYPE', r).replace('REAL_KIND', k).replace('REAL_NAME', n)
                    for t, (r, k, n) in TYPED.items()]
        for t in inst:
            st = statements(t, defs)
            ps = Parser(st, 'src/Fortran-interface/' + b)
            while ps.cur() is not None:
                M = ps.module()
                ps.i += 1
                mods[M.name] = M
    return mods


# ---------------------------------------------------------------- effect summaries
OPAQUE = {'get_matrix_id', 'get_element_id', 'get_dmode_id', 'bml_f_c_string', 'bml_msg', 'bml_error', 'bml_warning', 'bml_debug'}


class World:
    def __init__(self, mods):
        self.mods = mods
        self.procs, self.binds, self.params, self.generic = {}, {}, {}, {}
        for M in mods.values():
            for n, p in M.procs.items():
                self.procs.setdefault(n, p)
            self.binds.update(M.binds)
            self.params.update(M.params)
            for g, l in M.generic.items():
                self.generic.setdefault(g, []).extend(x for x in l if x not in self.generic.get(g, []))

    def public(self):
        """{key: proc} where key names the generic or procedure and the types of its arguments"""
        out = {}
        for M in self.mods.values():
            names = set(M.public)
            if not M.private_default:
                names |= (set(M.procs) | set(M.generic)) - M.privnames
            for n in sorted(names):
                for s in M.generic.get(n, [n]):
                    p = M.procs.get(s)
                    if p is not None:
                        out['%s(%s)' % (n, ', '.join(argtype(p, a) for a in p.args))] = p
        return out


def argtype(p, a):
    ty, at, d = p.decl.get(a, ('?', [], None))
    rank = '' if not d else '(%s)' % ','.join(':' * 1 for _ in split_top(d[1:-1], ','))
    return ty + rank + ('?' if 'optional' in at else '')


# Decision diagrams: a value is a text, or ('D', subject, ((constant, value), ...), otherwise).  Canonical for a fixed order of
# subjects, so the same function of the arguments always has the same form.
NIL = '\0'


def node(var, kids, other):
    kids = tuple(sorted((c, k) for c, k in dict(kids).items() if k != other))
    return ('D', var, kids, other) if kids else other


def top(*ds):
    vs = [d[1] for d in ds if not isinstance(d, str)]
    return min(vs) if vs else None


def cofactor(d, var, c):
    if isinstance(d, str) or d[1] != var:
        return d
    return dict(d[2]).get(c, d[3])


def apply(f, *ds):
    memo = {}

    def go(*ds):
        if ds in memo:
            return memo[ds]
        v = top(*ds)
        if v is None:
            r = f(*ds)
        else:
            cs = set()
            for d in ds:
                if not isinstance(d, str) and d[1] == v:
                    cs |= {c for c, _ in d[2]}
            # a leaf may itself be a choice: fold it in
            kids = {c: go(*(cofactor(d, v, c) for d in ds)) for c in cs}
            r = build_node(v, kids, go(*(cofactor(d, v, None) for d in ds)))
        memo[ds] = r
        return r
    return go(*ds)


def build_node(v, kids, other):
    """node, keeping the order of subjects when a child has an earlier subject"""
    low = top(other, *kids.values())
    if low is None or low > v:
        return node(v, kids, other)
    if low == v:
        kids = {c: cofactor(k, v, c) for c, k in kids.items()}
        return build_node(v, kids, cofactor(other, v, None))
    cs = set()
    for d in [other] + list(kids.values()):
        if not isinstance(d, str) and d[1] == low:
            cs |= {c for c, _ in d[2]}
    return node(low, {c: build_node(v, {k: cofactor(x, low, c) for k, x in kids.items()}, cofactor(other, low, c)) for c in cs},
                build_node(v, {k: cofactor(x, low, None) for k, x in kids.items()}, cofactor(other, low, None)))


def ite(c, a, b):
    return apply(lambda c, a, b: a if c == 'true' else b, c, a, b)


def conj(a, b):
    return ite(a, b, 'false')


def neg(a):
    return ite(a, 'false', 'true')


def truth(d):
    """a value used as a condition"""
    return apply(lambda x: x if x in ('true', 'false') else node(x, {'true': 'true'}, 'false'), d)


def restrict(d, care):
    """d where care holds; simplest form elsewhere"""
    def drop(d):
        if isinstance(d, str):
            return d
        kids = {c: drop(k) for c, k in d[2]}
        other = drop(d[3])
        live = [k for k in list(kids.values()) + [other] if k != NIL]
        if not live:
            return NIL
        if other == NIL:
            if all(k == live[0] for k in live):
                return live[0]
            return node(d[1], {c: k for c, k in kids.items() if k != NIL}, NIL)
        return build_node(d[1], {c: (other if k == NIL else k) for c, k in kids.items()}, other)
    if care == 'true':
        return d
    return drop(ite(care, d, NIL))


def paths(d, pre=()):
    if isinstance(d, str):
        yield list(pre), d
        return
    for c, k in d[2]:
        yield from paths(k, pre + ((d[1] if c == 'true' else '%s == %s' % (d[1], c)),))
    cs = [c for c, _ in d[2]]
    yield from paths(d[3], pre + (('!(%s)' % d[1] if cs == ['true'] else '%s not in {%s}' % (d[1], ', '.join(cs))),))


def show(d):
    if isinstance(d, str):
        return d
    return '{%s}' % ' ; '.join('%s ? %s' % (' && '.join(c), v) for c, v in paths(d) if v != NIL)


def show_guard(d):
    if d == 'true':
        return ''
    return '[%s] ' % ' || '.join(' && '.join(c) for c, v in paths(d) if v == 'true')


class Frame:
    def __init__(self, p, parent=None):
        self.p, self.parent, self.val, self.alias, self.absent, self.ret = p, parent, {}, {}, {}, 'false'


class Sym:
    """the effects of a procedure, statement by statement"""
    ids = 0

    def __init__(self, W, opaque=OPAQUE):
        self.W, self.opaque = W, opaque
        self.eff = []            # (loops, guard, text)
        self.calls = []
        self.mem = {}            # components: place -> value
        self.order = []          # places assigned, first assignment first
        self.stopped = 'false'
        self.depth = 0

    def run(self, p):
        fr = Frame(p)
        self.topfr = fr
        for k, a in enumerate(p.args):
            fr.val[a] = '$%d' % k
            if 'optional' in p.decl.get(a, ('', [], None))[1]:
                fr.absent[a] = neg(truth('present($%d)' % k))
        self.proc(fr, 'true')
        care = neg(self.stopped)
        lines = []               # [loops, text, guard, care]
        for l, g, t, s in self.eff:
            if conj(g, neg(s)) == 'false' or restrict(g, care) == 'false':
                continue         # never reached, or text printed before stopping
            for leaf in sorted(set(v for _, v in paths(ite(g, t, NIL))) - {NIL}):
                h = apply(lambda x: 'true' if x == leaf else 'false', t)
                h = conj(g, h)
                for x in lines:
                    if x[0] == l and x[1] == leaf and conj(x[2], h) == 'false':
                        x[2] = ite(x[2], 'true', h)
                        break
                else:
                    lines.append([l, leaf, h, neg(s)])
        swap = True
        while swap:              # effects that exclude each other have no order
            swap = False
            for i in range(len(lines) - 1):
                x, y = lines[i], lines[i + 1]
                if x[1] > y[1] and conj(x[2], y[2]) == 'false':
                    lines[i], lines[i + 1] = y, x
                    swap = True
        out = []
        if self.stopped != 'false':
            out.append(show_guard(self.stopped) + 'stop')
        out += [l + show_guard(restrict(h, c)) + x for l, x, h, c in lines if conj(h, c) != 'false']
        for pl in sorted(self.order):
            v = restrict(self.mem[pl], care)
            if v not in (NIL, pl):
                out.append('%s := %s' % (pl, show(v)))
        if p.kind == 'function':
            v = restrict(fr.val.get(p.result, 'unset'), care)
            if v != NIL:
                out.append('return ' + show(v))
        return out

    def proc(self, fr, g):
        p = fr.p
        if self.depth > 12:
            raise FErr('recursion in %s' % p.name)
        for n, e in p.params.items():
            fr.val['#' + n] = self.ev(e, fr, g)
        for st in getattr(p, 'inits', []):
            self.stmt(st, fr, g, ())
        self.body(p.body, fr, g, ())

    def emit(self, g, loops, s):
        self.eff.append((''.join('[loop %s] ' % x for x in loops), g, s, self.stopped))

    def live(self, fr, g):
        return conj(g, neg(fr.ret))

    def care(self, fr, g):
        return conj(self.live(fr, g), neg(self.stopped))

    # -- statements
    def body(self, b, fr, g, loops):
        for st in b:
            self.stmt(st, fr, g, loops)

    def put(self, n, v, fr, g, loops):
        """assign a variable"""
        g = self.live(fr, g)
        while n in fr.alias:
            t = fr.alias[n]
            if t[0] == 'place':
                return self.putplace(t[1], v, g)
            fr, n = t[1], t[2]
        p = fr.p
        if fr is self.topfr and n in p.args:
            pl = fr.val.get('&' + n, '$%d' % p.args.index(n))
            if p.decl.get(n, ('', [], None))[2] or loops:
                self.emit(g, loops, apply(lambda x: '%s := %s' % (pl, x), v))
            else:
                self.putplace(pl, v, g)
            return
        if n in p.decl or n == p.result or n in p.args:
            fr.val[n] = ite(g, v, fr.val.get(n, 'unset<%s>' % p.decl.get(n, ('?',))[0]))
        else:
            self.emit(g, loops, apply(lambda x: 'module %s := %s' % (n, x), v))

    def putplace(self, pl, v, g):
        if pl not in self.mem:
            self.order.append(pl)
        self.mem[pl] = ite(g, v, self.mem.get(pl, pl))

    def text(self, v, fr, g):
        return show(restrict(v, self.care(fr, g)))

    def evs(self, args, fr, g, keep=lambda x: True):
        """the arguments, joined by commas"""
        return apply(lambda *x: ', '.join(y for y in x if keep(y)), *[self.ev(a, fr, g) for a in args]) if args else ''

    def stmt(self, st, fr, g, loops):
        k = st[0]
        p = fr.p
        if k == 'assign':
            v = self.ev(st[3], fr, g)
            t = st[2]
            if t[0] == 'name':
                self.put(t[1], v, fr, g, loops)
            elif t[0] == 'member' and not loops:
                self.putplace(self.place(t, fr, g), v, self.live(fr, g))
            else:
                pl = self.place(t, fr, g)
                self.emit(self.live(fr, g), loops, apply(lambda x: '%s := %s' % (pl, x), v))
        elif k == 'call':
            self.loops = loops
            self.call(st[2], fr, g, stmt=True, loops=loops)
        elif k == 'if':
            c = truth(self.ev(st[2], fr, g))
            self.body(st[3], fr, conj(g, c), loops)
            self.body(st[4], fr, conj(g, neg(c)), loops)
        elif k == 'select':
            s = self.ev(st[2], fr, g)
            conds, dflt = [], None
            for vals, body in st[3]:
                if vals is None:
                    dflt = body
                    continue
                c = 'false'
                for v in vals:
                    if v[0] == 'range':
                        x = 'true'
                        if v[1]:
                            x = conj(x, neg(self.less(s, self.ev(v[1], fr, g))))
                        if v[2]:
                            x = conj(x, neg(self.less(self.ev(v[2], fr, g), s)))
                    else:
                        x = self.equal(s, self.ev(v, fr, g))
                    c = ite(c, 'true', x)
                conds.append((c, body))
            rest = 'true'
            for c, body in conds:
                rest = conj(rest, neg(c))
            for c, body in conds:
                self.body(body, fr, conj(g, c), loops)
            if dflt:
                self.body(dflt, fr, conj(g, rest), loops)
        elif k == 'associate':
            save = {}
            for n, e in st[2]:
                save[n] = (fr.val.get(n), fr.alias.get(n))
                fr.val.pop(n, None)
                fr.alias.pop(n, None)
                if e[0] == 'name' and (e[1] in p.decl or e[1] in p.args):
                    fr.alias[n] = ('var', fr, e[1])
                elif e[0] == 'member':
                    fr.alias[n] = ('place', self.place(e, fr, g))
                else:
                    fr.val[n] = self.ev(e, fr, g)
            self.body(st[3], fr, g, loops)
            for n, (v, a) in save.items():
                fr.val.pop(n, None)
                fr.alias.pop(n, None)
                if v is not None:
                    fr.val[n] = v
                if a is not None:
                    fr.alias[n] = a
        elif k in ('do', 'dowhile'):
            if k == 'do':
                h = 'i=' + ','.join(self.text(self.ev(e, fr, g), fr, g) for e in st[3])
                fr.val[st[2]] = 'it%d' % (len(loops) + 1)
                b = st[4]
            else:
                h = 'while'
                b = st[3]
            mods = [n for n in assigned(b) if n in fr.val and n not in p.args]
            for n in mods:
                fr.val[n] = 'carried<%s>' % show(fr.val[n])
            self.body(b, fr, g, loops + (h,))
            for n in mods:
                fr.val[n] = 'after<%s>' % show(fr.val[n])
        elif k == 'io':
            s = st[2]
            m = re.match(r'(print|write)\b', s)
            items = []
            if m and m.group(1) == 'write':
                i = s.index('(')
                _, rest = Parser.paren(None, s[i:])
                unit = split_top(_, ',')[0].strip()
                items = [parse_expr(x) for x in split_top(rest, ',') if x.strip()]
                if unit != '*' and unit in p.decl:
                    self.put(unit, apply(lambda x: 'text(%s)' % x, self.evs(items, fr, g)), fr, g, loops)
                    return
            elif m:
                items = [parse_expr(x) for x in split_top(s[5:], ',')[1:]]
            items = self.evs(items, fr, g, lambda x: '"' not in x) if m else ''
            self.emit(self.live(fr, g), loops, apply(lambda x: 'output(%s)' % x, items))
        elif k == 'stop':
            h = self.live(fr, g)
            self.stopped = ite(self.stopped, 'true', h)
        elif k == 'return':
            fr.ret = ite(fr.ret, 'true', g)
        elif k in ('allocate', 'deallocate', 'nullify'):
            for e in st[2]:
                if e[0] != 'kw':
                    if e[0] == 'call':
                        t = '%s(%s)' % (self.place(e[1], fr, g), ', '.join(self.text(self.ev(x, fr, g), fr, g) for x in e[2]))
                    else:
                        t = self.place(e, fr, g)
                    self.emit(self.live(fr, g), loops, '%s %s' % (k, t))
        elif k == 'continue':
            pass
        elif k in ('cycle', 'exit'):
            self.emit(self.live(fr, g), loops, k)
        else:
            raise FErr('statement %s' % k)

    # -- expressions
    def place(self, e, fr, g):
        if e[0] == 'name':
            n = e[1]
            while n in fr.alias:
                t = fr.alias[n]
                if t[0] == 'place':
                    return t[1]
                fr, n = t[1], t[2]
            if fr is self.topfr and n in fr.p.args:
                return '$%d' % fr.p.args.index(n)
            v = fr.val.get(n)
            if n in fr.p.args and isinstance(v, str):
                return v
            return n
        if e[0] == 'member':
            return self.place(e[1], fr, g) + '%' + e[2]
        if e[0] == 'call':
            return '%s[%s]' % (self.place(e[1], fr, g), ', '.join(self.text(self.ev(x, fr, g), fr, g) for x in e[2]))
        raise FErr('assignment target')

    def known(self, n, fr):
        return n in fr.val or n in fr.alias

    def get(self, n, fr, g):
        while n in fr.alias:
            t = fr.alias[n]
            if t[0] == 'place':
                return self.mem.get(t[1], t[1])
            fr, n = t[1], t[2]
        if fr is self.topfr and n in fr.p.args:
            pl = '$%d' % fr.p.args.index(n)
            return self.mem.get(pl, pl)
        if n in fr.val:
            return fr.val[n]
        if '#' + n in fr.val:
            return fr.val['#' + n]
        p = fr.p
        if n in self.W.params and n not in p.decl:
            return self.ev(self.W.params[n], Frame(p), g)
        if n in p.decl or n == p.result:
            return 'unset<%s>' % p.decl.get(n, ('?',))[0]
        return n

    def ev(self, e, fr, g):
        p = fr.p
        k = e[0]
        if k == 'num':
            t = e[1]
            if t in ('.true.', '.false.'):
                return t[1:-1]
            t = re.sub(r'_\w+$', '', t)
            try:
                f = float(t.replace('d', 'e'))
                return '%d' % f if f == int(f) else repr(f)
            except ValueError:
                return t
        if k == 'str':
            return '"%s"' % e[1].rstrip() if e[1].strip() else '" "' if e[1] else '""'
        if k == 'name':
            return self.get(e[1], fr, g)
        if k == 'member':
            lv = self.place(e, fr, g)
            return self.mem.get(lv, lv)
        if k == 'kw':
            return self.lift(lambda x: '%s=%s' % (e[1], x), fr, g, self.ev(e[2], fr, g))
        if k == 'arr':
            return apply(lambda x: '[%s]' % x, self.evs(e[1], fr, g))
        if k == 'range':
            return apply(lambda x, y: '%s:%s' % (x, y), self.ev(e[1], fr, g) if e[1] else '', self.ev(e[2], fr, g) if e[2] else '')
        if k == 'un':
            v = self.ev(e[2], fr, g)
            if e[1] == '.not.':
                return neg(truth(v))
            return apply(lambda x: lin([('', x, -1)]), v)
        if k == 'bin':
            return self.binop(e[1], self.ev(e[2], fr, g), self.ev(e[3], fr, g))
        if k == 'call':
            return self.call(e, fr, g)
        raise FErr('expression %s' % k)

    def lift(self, f, fr, g, *vs):
        return apply(f, *vs)

    CONST = re.compile(r'^(-?\d[\w.]*|"[^"]*"|c_\w+|kind\(.*\)|true|false)$')

    def equal(self, a, b):
        def f(x, y):
            x, y = (re.sub(r'^trim\((.*)\)$', r'\1', z) for z in (x, y))
            if x == y:
                return 'true'
            cx, cy = self.CONST.match(x), self.CONST.match(y)
            if cx and cy and not (x[0] == 'c' or y[0] == 'c' or x[0] == 'k' or y[0] == 'k'):
                return 'false'
            if cy:
                return node(x, {y: 'true'}, 'false')
            if cx:
                return node(y, {x: 'true'}, 'false')
            return node('%s == %s' % tuple(sorted([x, y])), {'true': 'true'}, 'false')
        return apply(f, a, b)

    def less(self, a, b):
        def f(x, y):
            if x == y:
                return 'false'
            if re.match(r'^-?\d+$', x) and re.match(r'^-?\d+$', y):
                return 'true' if int(x) < int(y) else 'false'
            return node('%s < %s' % (x, y), {'true': 'true'}, 'false')
        return apply(f, a, b)

    def binop(self, op, a, b):
        if op == '+':
            return apply(lambda x, y: lin([('', x, 1), ('', y, 1)]), a, b)
        if op == '-':
            return apply(lambda x, y: lin([('', x, 1), ('', y, -1)]), a, b)
        if op == '*':
            return apply(lambda x, y: '(%s)' % ' * '.join(sorted([x, y])), a, b)
        if op == '==':
            return self.equal(a, b)
        if op == '/=':
            return neg(self.equal(a, b))
        if op in ('.eqv.', '.neqv.'):
            a, b = truth(a), truth(b)
            r = ite(a, b, neg(b))
            return r if op == '.eqv.' else neg(r)
        if op == '<':
            return self.less(a, b)
        if op == '>':
            return self.less(b, a)
        if op == '<=':
            return neg(self.less(b, a))
        if op == '>=':
            return neg(self.less(a, b))
        if op == '.and.':
            return conj(truth(a), truth(b))
        if op == '.or.':
            return ite(truth(a), 'true', truth(b))
        return apply(lambda x, y: '(%s %s %s)' % (x, op, y), a, b)

    def dummy_shape(self, n, fr):
        while n in fr.alias:
            t = fr.alias[n]
            if t[0] == 'place':
                return False
            if n in fr.p.args:
                break
            fr, n = t[1], t[2]
        d = fr.p.decl.get(n)
        return bool(d and d[2] and ':' in d[2] and n in fr.p.args and not {'allocatable', 'pointer'} & set(d[1]))

    def call(self, e, fr, g, stmt=False, loops=()):
        p = fr.p
        base, args = e[1], e[2]
        if base[0] != 'name':
            return apply(lambda x, y: '%s[%s]' % (x, y), self.ev(base, fr, g), self.evs(args, fr, g))
        n = base[1]
        if self.known(n, fr) or n in p.decl and n != p.name:
            return apply(lambda b, ix: b if whole(b, ix) else 'first(%s)' % b if first_element(b, ix) else '%s[%s]' % (b, ix),
                         self.ev(base, fr, g), self.evs(args, fr, g))
        if n == 'present':
            a = args[0][1]
            while a in fr.alias and a not in fr.absent:
                t = fr.alias[a]
                if t[0] == 'place':
                    return 'true'
                fr, a = t[1], t[2]
            return neg(fr.absent[a]) if a in fr.absent else 'true'
        if n == 'c_loc':
            return apply(lambda v: '&' + re.sub(r'^first\((.*)\)$', r'\1', v), self.ev(args[0], fr, g))
        if n == 'c_f_pointer':
            ptr = self.ev(args[0], fr, g)
            sh = self.ev(args[2], fr, g) if len(args) > 2 else ''
            t, q, f2 = args[1][1], p, fr
            while t in f2.alias and f2.alias[t][0] == 'var':
                f2, t = f2.alias[t][1], f2.alias[t][2]
            ty = f2.p.decl.get(t, ('?',))[0]
            self.put(args[1][1], apply(lambda x, y: 'array<%s>(%s, %s)' % (ty, x, y), ptr, sh), fr, g, loops)
            return
        if n == 'merge':
            c = truth(self.ev(args[2], fr, g))
            return ite(c, self.ev(args[0], fr, g), self.ev(args[1], fr, g))
        if n in ('int', 'size', 'lbound', 'ubound', 'trim', 'adjustl', 'real', 'cmplx', 'dble', 'kind', 'len', 'len_trim',
                 'associated', 'c_associated', 'allocated', 'max', 'min', 'abs', 'shape'):
            vals = [self.ev(a, fr, g) for a in args]
            if n == 'int':
                return vals[0]
            if n == 'lbound' and args[0][0] == 'name' and len(args) > 1 and self.dummy_shape(args[0][1], fr):
                return '1'
            if n == 'ubound' and args[0][0] == 'name' and len(args) > 1 and self.dummy_shape(args[0][1], fr):
                n = 'size'
            if n in ('size', 'lbound', 'ubound'):
                vals = [apply(lambda x: re.sub(r'^dim=', '', x), v) for v in vals[:2] if not (isinstance(v, str) and v.startswith('kind='))]
            if n == 'kind' and args[0][0] == 'num':
                return 'kind(%s)' % args[0][1]

            def f(*vs):
                if n == 'trim' and vs[0].startswith('"'):
                    return vs[0]
                if n in ('c_associated', 'associated') and len(vs) == 1:
                    return node('associated(%s)' % vs[0], {'true': 'true'}, 'false') if vs[0] != 'c_null_ptr' else 'false'
                return '%s(%s)' % (n, ', '.join(vs))
            return apply(f, *vals)
        cands = self.W.generic.get(n)
        q = None
        local = p.contains.get(n)
        if local is not None:
            q = local
        elif n in self.W.binds:
            return self.ccall(self.W.binds[n], args, fr, g, stmt, loops)
        elif cands and len(cands) == 1:
            q = self.W.procs.get(cands[0]) or (self.W.binds.get(cands[0]))
        elif cands:
            q = self.resolve(cands, args, fr)
        else:
            q = self.W.procs.get(n)
        if q is None:
            v = apply(lambda x: '%s(%s)' % (n, x), self.evs(args, fr, g))
            if stmt:
                self.emit(self.live(fr, g), loops, v)
                return
            return v
        if q.bind:
            return self.ccall(q, args, fr, g, stmt, loops)
        if n in self.opaque or q.name in self.opaque:
            if stmt:
                self.emit(self.live(fr, g), loops, apply(lambda x: '%s(%s)' % (q.name, x), self.evs(args, fr, g, lambda x: '"' not in x)))
                return
            return apply(lambda x: '%s(%s)' % (q.name, x), self.evs(args, fr, g))
        return self.inline(q, args, fr, g, loops)

    def decl_of(self, n, fr):
        while n in fr.alias and fr.alias[n][0] == 'var' and n not in fr.p.decl:
            fr, n = fr.alias[n][1], fr.alias[n][2]
        return fr.p.decl.get(n)

    def resolve(self, cands, args, fr):
        ok = []
        for c in cands:
            q = self.W.procs.get(c)
            if q is None or len(args) > len(q.args):
                continue
            good = True
            for i, a in enumerate(args):
                d = q.decl.get(a[1] if a[0] == 'kw' else q.args[i])
                x = a[2] if a[0] == 'kw' else a
                if d is None:
                    good = False
                    continue
                y = self.decl_of(x[1], fr) if x[0] == 'name' else None
                if y:
                    r = lambda z: len(split_top(z, ',')) if z else 0
                    if d[0] != y[0] or r(d[2]) != r(y[2]):
                        good = False
            for i, a in enumerate(q.args):
                if i >= len(args) and 'optional' not in q.decl.get(a, ('', [], ''))[1] and not any(x[0] == 'kw' and x[1] == a for x in args):
                    good = False
            if good:
                ok.append(q)
        return ok[0] if len(ok) == 1 else None

    def bindargs(self, q, args):
        out = {}
        for i, a in enumerate(args):
            if a[0] == 'kw':
                out[a[1]] = a[2]
            else:
                if i >= len(q.args):
                    raise FErr('too many arguments for %s' % q.name)
                out[q.args[i]] = a
        return out

    def ccall(self, q, args, fr, g, stmt, loops):
        b = self.bindargs(q, args)
        vs = []
        for a in q.args:
            if a not in b:
                vs.append('absent')
                continue
            ty, at, d = q.decl.get(a, ('?', [], None))
            if 'value' in at:
                vs.append(self.ev(b[a], fr, g))
            elif b[a][0] == 'member':
                vs.append('ref ' + self.place(b[a], fr, g))
            elif b[a][0] == 'name' and self.alias_place(b[a][1], fr):
                vs.append('ref ' + self.alias_place(b[a][1], fr))
            else:
                vs.append(apply(lambda x: 'ref ' + x, self.ev(b[a], fr, g)))
        s = apply(lambda *x: '%s(%s)' % (q.bind, ', '.join(x)), *vs) if vs else q.bind + '()'
        h = self.live(fr, g)
        if stmt:
            self.emit(h, loops, s)
            return
        # a function: its call is an effect, its value is named after it
        if re.match(r'bml_get_|bml_get(NRanks|MyRank)$', q.bind) and not re.match(r'bml_get_(row|diagonal|element_?$)', q.bind):
            return s
        k = 1 + max([0] + [n for x, y, n in self.calls if x == q.bind and restrict(conj(y, h), neg(self.stopped)) not in ('false', NIL)])
        self.calls.append((q.bind, h, k))
        v = apply(lambda x: x if k == 1 else '%s#%d' % (x, k), s)
        self.emit(h, loops, apply(lambda x: 'call ' + x, v))
        return v

    def alias_place(self, n, fr):
        while n in fr.alias:
            t = fr.alias[n]
            if t[0] == 'place':
                return t[1]
            fr, n = t[1], t[2]
        return None

    def inline(self, q, args, fr, g, loops):
        b = self.bindargs(q, args)
        h = self.live(fr, g)
        sub = Frame(q, fr)
        for a in q.args:
            opt = 'optional' in q.decl.get(a, ('', [], None))[1]
            if a not in b:
                sub.absent[a] = 'true'
                sub.val[a] = 'absent'
                continue
            x = b[a]
            if opt:
                sub.absent[a] = 'false'
                if x[0] == 'name':
                    f2, n2 = fr, x[1]
                    while n2 in f2.alias and n2 not in f2.absent and f2.alias[n2][0] == 'var':
                        f2, n2 = f2.alias[n2][1], f2.alias[n2][2]
                    if n2 in f2.absent:
                        sub.absent[a] = f2.absent[n2]
            if x[0] == 'name' and (x[1] in fr.p.decl or x[1] in fr.p.args or x[1] in fr.alias or x[1] == fr.p.result):
                sub.alias[a] = ('var', fr, x[1])
            elif x[0] == 'member':
                sub.alias[a] = ('place', self.place(x, fr, g))
            else:
                sub.val[a] = self.ev(x, fr, g)
        self.depth += 1
        p = q
        for nme, ex in p.params.items():
            sub.val['#' + nme] = self.ev(ex, sub, h)
        for st in getattr(p, 'inits', []):
            self.stmt(st, sub, h, loops)
        self.body(p.body, sub, h, loops)
        self.depth -= 1
        if q.kind == 'function':
            return restrict(sub.val.get(q.result, 'unset'), conj(h, neg(self.stopped))) if sub.val.get(q.result) is not None else 'unset'
        return None


def assigned(b):
    out = set()
    for st in b:
        if st[0] == 'assign' and st[2][0] == 'name':
            out.add(st[2][1])
        elif st[0] == 'if':
            out |= assigned(st[3]) | assigned(st[4])
        elif st[0] == 'select':
            for _, x in st[3]:
                out |= assigned(x)
        elif st[0] in ('associate', 'dowhile'):
            out |= assigned(st[3])
        elif st[0] == 'do':
            out |= assigned(st[4])
    return out


def whole(b, ix):
    """A section that is all of an array whose shape is known."""
    m = re.match(r'^array<.*, \[([^\[\]]*(?:\[[^\[\]]*\])?[^\[\]]*)\]\)$', b)
    if not m:
        return False
    d, x = (([z.strip() for z in split_top(t, ',')]) for t in (m.group(1), ix))
    return len(d) == len(x) and all(i in (':', '1:', ':' + n, '1:' + n) for i, n in zip(x, d))


def first_element(b, ix):
    parts = split_top(ix, ',')
    for i, x in enumerate(parts, 1):
        x = x.strip()
        if x not in ('lbound(%s, %d)' % (b, i), '1') and not (len(parts) == 1 and x == 'lbound(%s)' % b):
            return False
    return True


def lin(parts):
    """sum of terms -> canonical text"""
    co, const = {}, 0
    work = list(parts)
    while work:
        _, v, s = work.pop()
        if re.match(r'^-?\d+$', v):
            const += s * int(v)
            continue
        m = re.match(r'^\{sum (.*)\}$', v)
        if m:
            for t in m.group(1).split(' | '):
                c, x = t.split(' ', 1)
                if x == '1':
                    const += s * int(c)
                else:
                    co[x] = co.get(x, 0) + s * int(c)
            continue
        co[v] = co.get(v, 0) + s
    co = {k: c for k, c in co.items() if c}
    if not co:
        return str(const)
    if len(co) == 1 and const == 0 and list(co.values()) == [1]:
        return list(co)[0]
    t = ['%d %s' % (c, k) for k, c in sorted(co.items())] + (['%d 1' % const] if const else [])
    return '{sum %s}' % ' | '.join(t)


def summaries(mods):
    W = World(mods)
    out = {}
    for key, p in W.public().items():
        out[key] = Sym(W, OPAQUE - {p.name}).run(p)
    return out


if __name__ == '__main__':
    import sys
    mods = load(sys.argv[1])
    W = World(mods)
    print(len(mods), 'modules', len(W.binds), 'C interfaces', len(W.public()), 'public procedures')
    for k, v in summaries(mods).items():
        if len(sys.argv) > 2 and not re.search(sys.argv[2], k):
            continue
        print(k)
        for x in v:
            print('    ' + x)
