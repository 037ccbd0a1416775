"""C14: failures reported by LAPACK, the allocator, file opening and parsing end the operation.

For every call that reports a failure, the control-flow graph is explored from the call
with each failing value assumed; branches that depend on the value are followed one way,
all others both ways.  Reaching a normal exit (or using the unopened file) is a violation."""
import re
from core import walk, show
from cfg import CFG
from ownership import strip
from report import Report, Broken
from c18 import SSPEC, formats
import peval

LAPACK = re.compile(r'^p?[sdcz](getrf|getri|syev|syevd|syevr|heev|heevd|heevr|potrf|potri|gesv|stedc|sytrd|gesvd)_$')
PREC = re.compile(r'_(single|double)_(real|complex)\b')
ALLOCATORS = {'bml_allocate_memory', 'bml_noinit_allocate_memory', 'bml_reallocate_memory'}


class Sim:
    def __init__(self, call, val):
        self.call, self.val = call, val

    def ev(self, n, env):
        if n is None:
            return None
        if n is self.call:
            for a in n.c[1:]:
                self.ev(a, env)
            return self.val
        k = n.k
        if k == 'int':
            return n.a
        if k == 'enum':
            return n.a[1]
        if k == 'cast':
            return self.ev(n.c[0], env)
        if k == 'ref':
            return env.get(n.a[1])
        if k == 'asg':
            v = self.ev(n.c[1], env)
            t = n.c[0]
            if t.k == 'ref':
                if n.a == '=' and v is not None:
                    env[t.a[1]] = v
                else:
                    env.pop(t.a[1], None)
            return v if n.a == '=' else None
        if k == 'bin':
            a, b = self.ev(n.c[0], env), self.ev(n.c[1], env)
            if n.a == '&&':
                return 0 if a == 0 or b == 0 else (1 if a is not None and b is not None else None)
            if n.a == '||':
                return 1 if a or b else (0 if a == 0 and b == 0 else None)
            if a is None or b is None:
                return None
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b),
                        '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b,
                        '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b}[n.a]()
            except KeyError:
                return None
        if k == 'un':
            if n.a.startswith('pre') or n.a.startswith('post'):
                if n.c[0].k == 'ref':
                    env.pop(n.c[0].a[1], None)
                return None
            if n.a == '&':
                return None
            v = self.ev(n.c[0], env)
            if v is None:
                return None
            return {'!': int(not v), '-': -v}.get(n.a)
        if k == 'cond':
            c = self.ev(n.c[0], env)
            if c is None:
                return None
            return self.ev(n.c[1] if c else n.c[2], env)
        if k == 'call':
            for a in n.c[1:]:
                self.ev(a, env)
                a = strip(a)
                if a.k == 'un' and a.a == '&' and strip(a.c[0]).k == 'ref':
                    env.pop(strip(a.c[0]).a[1], None)
            return None
        for x in n.c:
            if x is not None:
                self.ev(x, env)
        return None


def explore(cfg, start, call, val, out=None, use=None, start_env=None):
    """Returns a node showing the failure is ignored, or None."""
    sim = Sim(call, val)
    seen = set()
    work = [(start, tuple(sorted((start_env or {}).items())), True)]
    steps = 0
    while work:
        b, et, first = work.pop()
        if (b.id, et, first) in seen:
            continue
        seen.add((b.id, et, first))
        steps += 1
        if steps > 20000:
            return None
        env = dict(et)
        if b is cfg.exit:
            return b
        v = None
        if b.ast is not None and b.kind not in ('omp', 'ompend'):
            if not first and any(x is call for x in walk(b.ast)):
                continue                       # next execution of the call: a new obligation
            if not first and use is not None and use(b, env):
                return b
            if b.kind == 'decl':
                for d in b.ast.a:
                    w = sim.ev(d.init, env) if d.init is not None else None
                    if w is not None:
                        env[d.id] = w
                    else:
                        env.pop(d.id, None)
            else:
                v = sim.ev(b.ast, env)
            if first and out is not None:
                env[out] = val
        e2 = tuple(sorted(env.items()))
        for s, lab in b.succ:
            if b.kind == 'branch' and v is not None and lab is not None and lab is not bool(v):
                continue
            if b.kind == 'switch' and v is not None and lab is not None:
                if lab[0] == 'case' and lab[1] != v or lab[0] == 'default' and v in lab[1]:
                    continue
            work.append((s, e2, False))
    return None


def run(progs):
    R = Report('C14', 'each call that reports a failure is followed through the control-flow graph with the failing value assumed: no normal '
               'exit and no use of the missing object may be reachable; the fatal log level must not return')
    for cfgname, P in progs.items():
        fatal_log(P, R)
        for f in P.top():
            body = P.nf(f)
            calls = [x for x in walk(body) if x.k == 'call' and x.a]
            if not any(LAPACK.match(x.a[0]) or x.a[0] in ('fopen', 'fscanf', 'sscanf', 'popen', 'posix_memalign') or
                       f.name in ALLOCATORS for x in calls):
                continue
            cfg = CFG(body)
            nodes = [b for b in cfg.live if b.ast is not None and b.kind not in ('omp', 'ompend')]
            for b in nodes:
                for x in walk(b.ast):
                    if x.k != 'call' or not x.a:
                        continue
                    nm = x.a[0]
                    where = '%s (src/%s:%d)' % (f.name, f.file, x.line)
                    key = '%s:%s' % (PREC.sub('', f.name), re.sub(r'^(p?)[sdcz](?=ge|sy|he)', r'\1', nm))
                    if LAPACK.match(nm):
                        R.count('lapack_calls')
                        o = strip(x.c[-1])
                        out = strip(o.c[0]).a[1] if o.k == 'un' and o.a == '&' and strip(o.c[0]).k == 'ref' else None
                        if out is None:
                            R.viol('status:' + key, '%s: status of %s cannot be followed' % (where, nm))
                            continue
                        if R.counts['lapack_calls'] < 8:
                            R.sample('%s: %s with info = 1, -1' % (where, nm))
                        vals = [1, -1] if not re.search(r'(syev|heev)', nm) else [1, -1]
                        for v in vals:
                            if explore(cfg, b, x, v, out=out) is not None:
                                R.viol('status:%s' % key, '%s: a failure of %s (info = %d) still reaches the normal return '
                                       '[configuration %s]' % (where, nm, v, cfgname))
                    elif nm in ('fopen', 'popen'):
                        R.count('opens')
                        tgt = None
                        if b.kind == 'decl':
                            for d in b.ast.a:
                                if d.init is not None and any(y is x for y in walk(d.init)):
                                    tgt = d.id
                        for y in walk(b.ast):
                            if y.k == 'asg' and y.c[0].k == 'ref' and any(z is x for z in walk(y.c[1])):
                                tgt = y.c[0].a[1]

                        def use(bb, env, tgt=tgt):
                            return tgt is not None and env.get(tgt) == 0 and any(
                                y.k == 'call' and y.a and any(strip(z).k == 'ref' and strip(z).a[1] == tgt for z in y.c[1:])
                                for y in walk(bb.ast))
                        r = explore(cfg, b, x, 0, use=use)
                        if r is not None:
                            R.viol('open:%s' % key, '%s: the file is used (line %d) although %s failed [configuration %s]' %
                                   (where, r.line, nm, cfgname))
                    elif nm in ('fscanf', 'sscanf'):
                        R.count('parsed_inputs')
                        fs = formats(x.c[2], body) or []
                        n = sum(1 for s in fs[:1] for m in SSPEC.finditer(s) if m.group('conv') != '%' and not m.group('star'))
                        for v in [-1] + list(range(n)):
                            if explore(cfg, b, x, v) is not None:
                                R.viol('parse:%s:%s' % (key, re.sub(r'\s+', ' ', fs[0]) if fs else ''),
                                       '%s: %s reading "%s" may return %d of %d items and the operation goes on '
                                       '[configuration %s]' % (where, nm, fs[0].strip() if fs else '?', v, n, cfgname))
                                break
                    elif nm == 'posix_memalign' or (f.name in ALLOCATORS and nm in ('malloc', 'calloc', 'realloc', 'aligned_alloc')):
                        R.count('allocation_requests')
                        v = 12 if nm == 'posix_memalign' else 0
                        if explore(cfg, b, x, v) is not None:
                            R.viol('alloc:%s' % key, '%s: a failed %s still returns to the caller [configuration %s]' %
                                   (where, nm, cfgname))
    R.floor('lapack_calls', 15)
    R.floor('opens', 50)
    R.floor('parsed_inputs', 60)
    R.floor('allocation_requests', 4)
    R.floor('fatal_log_paths', 2)
    R.assume = ['MPI uses its default error handler, which aborts on failure',
                'scratch arrays obtained by plain malloc/calloc inside operations are out of scope (a failure faults on first use)']
    return R


def fatal_log(P, R):
    """bml_log(BML_LOG_ERROR, ...) does not return."""
    top = max(v for n, v in P.enums['bml_log_level_t']) if isinstance(P.enums.get('bml_log_level_t'), list) else 3
    inits = {}
    for g in P.gvars:
        if g['file'].endswith('bml_logger.c') and g.get('init') is not None:
            inits[g['name']] = g['init']
    f = P.fns.get('bml_log_real')
    if f is None:
        raise Broken('bml_log_real vanished')
    par = f.params[0][1]

    def assume(n, pe, p):
        if n.k == 'ref' and n.a[1] == par:
            return 3
        if n.k == 'ref' and n.a[2] == 'global' and n.ty.endswith('bml_log_level_t'):
            return 3             # the highest level that can be configured
        return None
    ps = peval.PE(assume).run(P.nf(f))
    R.count('fatal_log_paths', len(ps))
    for p in ps:
        if p.end != 'fatal':
            R.viol('fatal:bml_log_real', 'bml_log_real (src/%s:%d): logging at the error level can return' % (f.file, f.line))
    for nm in ('bml_log', 'bml_log_location'):
        g = P.fns.get(nm)
        if g is None:
            raise Broken(nm + ' vanished')
        cfg = CFG(P.nf(g))
        av = set()
        for b in cfg.live:
            if b.ast is None:
                continue
            for x in walk(b.ast):
                if x.k == 'call' and x.a and x.a[0] == 'bml_log_real':
                    a = strip(x.c[1])
                    if a.k == 'ref' and a.a[1] == g.params[0][1]:
                        av.add(b.id)
        R.count('fatal_log_paths')
        if cfg.reaches(cfg.entry, cfg.exit, av):
            R.viol('fatal:' + nm, '%s (src/%s:%d): an error message may be dropped and the operation continue' % (nm, g.file, g.line))
