"""C19: no hidden mutable state."""
import re
from core import walk, show, kids
from cfg import CFG
from ownership import strip
from report import Report, Broken
import modref

# process-wide settings: (name, functions that may write them, functions that may use them, lazily recomputing function)
GROUPS = [
    ('MPI rank and communicator', {'bml_initParallel'},
     r'bml_getMyRank$|bml_getNRanks$|bml_printRank$|bml_initParallel$|bml_shutdownParallel$|bml_barrierParallel$|'
     r'bml_(sum|min|max)RealReduce$|bml_allGatherVParallel_\w+$'),
    ('default block partition', {'bml_set_block_sizes', 'bml_get_block_sizes'},
     r'bml_(set|get)_block_sizes$|bml_get_[nm]b$'),
    ('distributed2d communicator', {'bml_setcomm_distributed2d'}, r'bml_setcomm_distributed2d$|bml_setup_distributed2d$'),
]
LAZY_KEY = {'bml_get_block_sizes': ['N']}       # arguments the lazily computed default is a function of
# users of the default block partition: constructors only
DEFAULTS = {n: r'bml_(zero|noinit|banded|random|identity|block)_matrix_ellblock_\w+$|bml_convert_ellblock_\w+$'
            for n in ('bml_get_block_sizes', 'bml_get_nb', 'bml_get_mb')}
SETDEF = {'bml_set_block_sizes': r'bml_block_matrix_ellblock_\w+$', 'bml_setcomm_distributed2d': r'bml_initParallel$',
          'bml_initParallel': r'bml_initParallelF$|bml_init\w*$', 'bml_initParallelF': r'bml_init\w*$'}
RANDOM = {'rand', 'random', 'drand48', 'lrand48', 'rand_r', 'erand48'}
RAND_OK = r'bml_(random|banded)_matrix_\w+$'
SEED = {'srand': r'bml_setcomm_distributed2d$', 'srandom': r'$^', 'srand48': r'$^'}
# process-wide or time-dependent inputs no operation may consult
BANNED = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getenv', 'setenv', 'putenv', 'unsetenv', 'strtok',
          'asctime', 'ctime', 'localtime', 'gmtime', 'setlocale', 'feenableexcept', 'fesetround', 'signal', 'atexit',
          'omp_set_num_threads', 'omp_set_dynamic', 'omp_set_schedule', 'omp_set_nested', 'chdir', 'umask', 'tmpnam'}
PREC = re.compile(r'_(single|double)_(real|complex)\b')


def base(n):
    n = strip(n)
    while n is not None and n.k in ('idx', 'mem') or (n is not None and n.k == 'un' and n.a == '*'):
        n = strip(n.c[0])
    return n


def is_static(r):
    return r is not None and r.k == 'ref' and r.a[2] in ('slocal', 'global')


def writes(body):
    """(reference, node) for every write to an object reached from a static variable."""
    for x in walk(body):
        if x.k == 'asg':
            b = base(x.c[0])
            if is_static(b):
                yield b, x
        elif x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')):
            b = base(x.c[0])
            if is_static(b):
                yield b, x


def static_ptr_aliases(body):
    """locals that point into static storage"""
    m = {}
    for x in walk(body):
        prs = []
        if x.k == 'decl':
            prs = [(v.id, v.init) for v in x.a if v.init is not None and (v.ty.endswith('*'))]
        elif x.k == 'asg' and x.a == '=' and x.c[0].k == 'ref' and x.c[0].ty.endswith('*'):
            prs = [(x.c[0].a[1], x.c[1])]
        for i, e in prs:
            e = strip(e)
            if e.k == 'un' and e.a == '&':
                e = base(e.c[0])
            elif e.k == 'bin':
                e = base(e.c[0])
            elif e.k in ('idx', 'mem'):
                continue
            if is_static(e):
                m[i] = e
    return m


def run(progs):
    R = Report('C19', 'every object of static storage duration is constant, never written, or one of the reviewed process-wide '
               'settings written only by its setter and read only by its users; lazily computed defaults are recomputed when the '
               'arguments they depend on change; random numbers and process state are confined')
    for cfgname, P in progs.items():
        info = {}
        for g in P.gvars:
            if g.get('def'):
                info.setdefault((g['name'], g['file']), g)
        names = {n for n, _ in info}
        lib = {n for n in names}
        R.count('static_objects', len(info))
        pending, uses = [], []
        for f in P.top():
            body = P.nf(f)
            al = static_ptr_aliases(body)
            where = '%s (src/%s:%%d)' % (f.name, f.file)
            ws = []
            for r, x in writes(body):
                ws.append((r, x, 'written'))
            for x in walk(body):
                if x.k == 'asg' and x.c[0].k != 'ref':
                    b = base(x.c[0])
                    if b is not None and b.k == 'ref' and b.a[1] in al:
                        ws.append((al[b.a[1]], x, 'written through a pointer'))
                if x.k == 'un' and (x.a.startswith('pre') or x.a.startswith('post')) and strip(x.c[0]).k != 'ref':
                    b = base(x.c[0])
                    if b is not None and b.k == 'ref' and b.a[1] in al:
                        ws.append((al[b.a[1]], x, 'written through a pointer'))
                if x.k == 'call' and x.a:
                    for a in x.c[1:]:
                        a0 = strip(a)
                        r = None
                        if a0.k == 'un' and a0.a == '&':
                            r = base(a0.c[0])
                        elif a0.ty.endswith(']') or re.search(r'\[\d*\]$', a0.ty):
                            r = base(a0)
                        elif a0.k == 'ref' and is_static(a0) and a0.ty.endswith('*') and \
                                x.a[0] in ('memset', 'memcpy', 'memmove', 'free', 'bml_free_memory', 'realloc', 'snprintf', 'sprintf'):
                            r = a0 if x.c[1] is a else None
                            if x.a[0] in ('free', 'bml_free_memory'):
                                r = None
                        if is_static(r) and r.a[0] in lib and 'const' not in a.ty:
                            if x.a[0] in ('memcpy', 'memmove') and x.c[1] is not a:
                                continue
                            ws.append((r, x, 'passed by reference to %s' % x.a[0]))
                        if a0.k == 'ref' and a0.a[1] in al and x.a[0] in ('memset', 'memcpy', 'memmove') and x.c[1] is a:
                            ws.append((al[a0.a[1]], x, 'written through a pointer'))
            for r, x, how in ws:
                v = r.a[0]
                if v not in lib and v in ('stderr', 'stdout', 'errno'):
                    continue
                if v not in lib and v.startswith('ompi_'):
                    continue
                R.count('writes_to_static')
                pending.append((f, v, x, how, r.a[2]))
            for x in walk(body):
                if x.k == 'ref' and x.a[2] in ('slocal', 'global') and x.a[0] in lib:
                    R.count('uses_of_static')
                    uses.append((f, x.a[0], x, x.a[2]))
                if x.k == 'call' and x.a:
                    nm = x.a[0]
                    key = '%s:%s' % (PREC.sub('', f.name), nm)
                    if nm in RANDOM:
                        R.count('random_calls')
                        if not re.match(RAND_OK, f.name):
                            R.viol('rand:' + key, '%s: calls %s; the result depends on and changes the global random state' %
                                   (where % x.line, nm))
                    elif nm in SEED:
                        R.count('seed_calls')
                        if not re.match(SEED[nm], f.name):
                            R.viol('rand:' + key, '%s: reseeds the global random state' % (where % x.line))
                    elif nm in BANNED:
                        R.viol('env:' + key, '%s: calls %s; the result depends on or changes process state' % (where % x.line, nm))
                    elif nm in DEFAULTS:
                        R.count('default_partition_uses')
                        if not re.match(DEFAULTS[nm], f.name):
                            R.viol('default:' + key, '%s: uses the process-wide default partition (%s) although its '
                                   'operands carry their own' % (where % x.line, nm))
                    elif nm in SETDEF:
                        R.count('setter_calls')
                        if not re.match(SETDEF[nm], f.name):
                            R.viol('setter:' + key, '%s: changes a process-wide setting by calling %s' % (where % x.line, nm))
            if f.name in LAZY_KEY:
                lazy(P, f, body, R, where)
            if any(x.k == 'call' and x.a and x.a[0] in ('bml_get_nb', 'bml_get_mb') for x in walk(body)):
                order(P, f, body, R, where)
        group = {}
        for f, v, x, how, kind in pending:
            for i, (gn, writers, readers) in enumerate(GROUPS):
                if f.name in writers and kind == 'global':
                    group.setdefault((v, f.file), i)
        for f, v, x, how, kind in pending:
            i = group.get((v, f.file))
            if i is None or f.name not in GROUPS[i][1]:
                R.viol('write:%s:%s' % (PREC.sub('', f.name), v), '%s (src/%s:%d): static object `%s` is %s here; it would carry '
                       'over into later calls [configuration %s]' % (f.name, f.file, x.line, v, how, cfgname))
        for f, v, x, kind in uses:
            i = group.get((v, f.file)) if (v, f.file) in group else \
                next((j for (w, fl), j in group.items() if w == v and (v, f.file) not in info), None)
            if i is not None and not re.match(GROUPS[i][2], f.name):
                R.viol('read:%s:%s' % (PREC.sub('', f.name), v), '%s (src/%s:%d): depends on the process-wide setting `%s` (%s)' %
                       (f.name, f.file, x.line, v, GROUPS[i][0]))
        M = modref.ModRef(P)
        seen = {(f.name, v) for f, v, x, how, kind in pending}
        for f in P.fns.values():
            for r in sorted(x for x in M.mods[f] if isinstance(x, str)):
                v = r.split(' ', 1)[1]
                R.count('static_objects_modified_through_pointers')
                if v not in lib or (f.name, v) in seen or any(f.name in w for _, w, _ in GROUPS):
                    continue
                w = M.where[f].get(r)
                if w is not None and w.k == 'call' and w.a and w.a[0] in ('free', 'bml_free_memory'):
                    continue
                R.viol('through:%s:%s' % (PREC.sub('', f.name), v), '%s (src/%s:%d): `%s` writes into static object `%s` through '
                       'a pointer to it; it would carry over into later calls [configuration %s]' %
                       (f.name, f.file, w.line if w is not None else f.line, show(w)[:80] if w is not None else '?', v, cfgname))
        R.count('settings', len(group))
        if not any(f.name == 'bml_get_block_sizes' for f in P.fns.values()):
            raise Broken('bml_get_block_sizes vanished')
    R.floor('static_objects', 20)
    R.floor('settings', 12)
    R.floor('writes_to_static', 20)
    R.floor('uses_of_static', 100)
    R.floor('random_calls', 30)
    R.floor('default_partition_uses', 50)
    return R


def lazy(P, f, body, R, where):
    """The guard of a lazily computed default mentions the arguments it depends on."""
    par = {p[0]: p[1] for p in f.params}
    cfg = CFG(body)
    cmp = {}
    for b in cfg.live:
        if b.kind != 'branch':
            continue
        e = strip(b.ast)
        if e.k == 'bin' and e.a in ('==', '!='):
            for i, j in ((0, 1), (1, 0)):
                a = strip(e.c[i])
                if a.k == 'ref':
                    cmp.setdefault(a.a[1], []).append((b, e.c[j]))
    for name in LAZY_KEY[f.name]:
        R.count('lazy_defaults')
        ok = False
        for b, other in cmp.get(par.get(name, -1), ()):
            if from_static(body, other, set()):
                ok = True
        if not ok:
            R.viol('lazy:%s:%s' % (f.name, name), '%s: the default computed from argument `%s` by an earlier call is reused '
                   'without comparing it with this call\'s `%s`' % (where % f.line, name, name))


def from_static(body, e, seen):
    for z in walk(e):
        if is_static(z):
            return True
        if z.k == 'ref' and z.a[1] not in seen:
            seen.add(z.a[1])
            for x in walk(body):
                if x.k == 'decl':
                    for v in x.a:
                        if v.id == z.a[1] and v.init is not None and from_static(body, v.init, seen):
                            return True
                elif x.k == 'asg' and x.c[0].k == 'ref' and x.c[0].a[1] == z.a[1]:
                    if from_static(body, x.c[1], seen):
                        return True
    return False


def order(P, f, body, R, where):
    """bml_get_nb/mb are only meaningful after bml_get_block_sizes for this size."""
    cfg = CFG(body)
    has = {}
    for b in cfg.live:
        if b.ast is None or b.kind in ('omp', 'ompend'):
            continue
        has[b.id] = {x.a[0] for x in walk(b.ast) if x.k == 'call' and x.a}
    av = {i for i, s in has.items() if 'bml_get_block_sizes' in s}
    for b in cfg.live:
        s = has.get(b.id, ())
        if 'bml_get_nb' in s or 'bml_get_mb' in s:
            R.count('default_partition_orders')
            if b.id in av:
                R.viol('order:' + PREC.sub('', f.name), '%s: the default number of blocks is read in the same expression that '
                       'computes the partition (unspecified order)' % (where % b.line))
            elif b.kind == 'branch':
                continue       # "is a default set" test
            elif cfg.reaches(cfg.entry, b, av):
                R.viol('order:' + PREC.sub('', f.name), '%s: the default number of blocks is read before the partition for '
                       'this size is computed' % (where % b.line))
