"""C09: a Fortran call does what the C call of the same name does.

Decided from the Fortran sources (engine/fortran.py) and the C prototypes:
 bind      every bind(C) interface agrees with the C function: arity, passing convention, kinds, result;
 constant  the integers Fortran passes for formats, element types, modes and orders are the C enumerators;
 wrapper   the effect summary of every public procedure is the reviewed one (spec/effects/C09.json);
 array     an array whose address goes to C is contiguous."""
import os, re, json
import build, fortran, frozen
from report import Report, Broken

SRC = os.path.join(build.SRC, 'Fortran-interface')
SPEC = os.path.join(build.VERIF, 'spec', 'effects', 'C09.json')
SCALAR = {'integer(c_int)': 'int', 'integer(c_size_t)': 'size_t', 'integer(c_long)': 'long',
          'real(c_float)': 'float', 'real(c_double)': 'double',
          'complex(c_float_complex)': '_Complex float', 'complex(c_double_complex)': '_Complex double',
          'logical(c_bool)': '_Bool', 'character': 'char'}
FID = {   # constants on the Fortran side -> the C enumerator of the same meaning
    'bml_matrix_type_uninitialized_enum_id': 'type_uninitialized', 'bml_matrix_type_dense_enum_id': 'dense',
    'bml_matrix_type_ellpack_enum_id': 'ellpack', 'bml_matrix_type_ellblock_enum_id': 'ellblock',
    'bml_matrix_type_csr_enum_id': 'csr',
    'bml_matrix_precision_uninitialized_id': 'precision_uninitialized',
    'bml_matrix_precision_single_real_enum_id': 'single_real', 'bml_matrix_precision_double_real_enum_id': 'double_real',
    'bml_matrix_precision_single_complex_enum_id': 'single_complex',
    'bml_matrix_precision_double_complex_enum_id': 'double_complex',
    'bml_dense_column_major': 'dense_column_major',
    'bml_distribution_mode_sequential_enum_id': 'sequential',
    'bml_distribution_mode_distributed_enum_id': 'distributed',
    'bml_distribution_mode_graph_distributed_enum_id': 'graph_distributed'}
CENUM = {'type_uninitialized': 0, 'dense': 1, 'ellpack': 2, 'ellblock': 3, 'csr': 4, 'distributed2d': 5,
         'precision_uninitialized': 0, 'single_real': 1, 'double_real': 2, 'single_complex': 3, 'double_complex': 4,
         'dense_row_major': 0, 'dense_column_major': 1, 'sequential': 0, 'distributed': 1, 'graph_distributed': 2}


def cnorm(t):
    t = re.sub(r'\b(const|struct|restrict|volatile)\b', '', t).replace(' *', '*').strip()
    t = re.sub(r'\s+', ' ', t)
    t = {'unsigned int': 'int', 'float _Complex': '_Complex float', 'double _Complex': '_Complex double'}.get(t, t)
    return t


def is_enum(t):
    return bool(re.match(r'(enum )?bml_\w+_t$', t))


def arg_ok(decl, c):
    """None when the Fortran argument and the C parameter (canonical type) agree, else why not"""
    ty, at, dims = decl
    c = cnorm(c)
    ptr = c.endswith('*')
    base = c[:-1].strip() if ptr else c
    if ty == 'type(c_ptr)' or ty == 'type(c_funptr)':
        if 'value' in at:
            return None if ptr else 'a pointer is passed where C takes %s' % c
        return None if base.endswith('*') or base == 'void' and ptr else \
            'the address of a pointer is passed where C takes %s' % c
    s = SCALAR.get(ty)
    if s is None:
        return 'type %s has no C counterpart' % ty
    if 'value' in at and not dims:
        if ptr:
            return 'a value is passed where C takes %s' % c
        return None if c == s or s == 'int' and is_enum(c) else '%s is passed where C takes %s' % (ty, c)
    if not ptr:
        return 'an address is passed where C takes %s' % c
    return None if base == s or base == 'void' or s == 'int' and is_enum(base) else \
        'the address of %s is passed where C takes %s' % (ty, c)


def ret_ok(p, c):
    c = cnorm(c)
    if p.kind == 'subroutine':
        # a result nobody reads may be dropped, unless it is storage the caller must release
        return None if not c.endswith('*') else 'the returned %s is dropped' % c
    ty, at, dims = p.decl.get(p.result, ('?', [], None))
    if ty == 'type(c_ptr)':
        return None if c.endswith('*') else 'a pointer is expected where C returns %s' % c
    s = SCALAR.get(ty)
    return None if c == s or s == 'int' and is_enum(c) else '%s is expected where C returns %s' % (ty, c)


def walk_expr(e):
    if isinstance(e, tuple):
        if len(e) == 3 and e[0] == 'call' and isinstance(e[1], tuple):
            yield e
        for x in e[1:]:
            yield from walk_expr(x)
    elif isinstance(e, list):
        for x in e:
            yield from walk_expr(x)


def root(e):
    while e[0] in ('call', 'member'):
        if e[0] == 'member':
            return None
        e = e[1]
    return e[1] if e[0] == 'name' else None


def run(progs):
    R = Report('C09', 'Fortran front end over src/Fortran-interface: bind(C) interfaces against the C prototypes '
               '(arity, by value or by address, kind, result); identifiers against the C enumerators; the effect '
               'summary of every public procedure (C calls, argument origins, assignments, results, conditions) '
               'against the reviewed one; arrays whose address is taken must be contiguous')
    try:
        mods = fortran.load(SRC)
    except fortran.FErr as e:
        raise Broken('Fortran front end: %s' % e)
    W = fortran.World(mods)
    binds = dict(W.binds)
    for M in mods.values():
        for p in M.procs.values():
            if p.bind:
                binds[p.name] = p
    P = progs.get('B') or progs['A']
    Q = progs.get('A') or P
    # bind
    used = {c[1][1] for M in mods.values() for p in M.procs.values() for c in walk_expr(p.body) if c[1][0] == 'name'}
    for n, p in sorted(binds.items()):
        if p.name in {x for M in mods.values() for x in M.procs}:
            continue
        R.count('interfaces')
        where = '%s (%s:%d)' % (p.bind, p.file, p.line)
        f = P.fns.get(p.bind) or Q.fns.get(p.bind)
        if f is None and n not in used:
            R.count('interfaces_nobody_calls')
            continue
        if f is None:
            R.viol('bind:%s:missing' % p.bind, '%s: no C function of that name' % where)
            continue
        if len(p.args) != len(f.params):
            R.viol('bind:%s:arity' % p.bind, '%s: %d arguments, the C function (src/%s:%d) takes %d'
                   % (where, len(p.args), f.file, f.line, len(f.params)))
            continue
        for k, a in enumerate(p.args):
            R.count('arguments')
            d = p.decl.get(a)
            if d is None:
                raise Broken('%s: argument %s is not declared' % (where, a))
            why = arg_ok(d, f.params[k][2])
            if why and is_enum(cnorm(f.params[k][3])):
                why = arg_ok(d, 'int')
            if why:
                R.viol('bind:%s:%d' % (p.bind, k), '%s: argument %d (%s): %s (src/%s:%d)'
                       % (where, k + 1, a, why, f.file, f.line))
        why = ret_ok(p, f.ret)
        if why:
            R.viol('bind:%s:result' % p.bind, '%s: %s (src/%s:%d)' % (where, why, f.file, f.line))
        else:
            R.sample('%s: %d arguments and the result agree with src/%s' % (p.bind, len(p.args), f.file))
    # constants
    text = open(os.path.join(build.SRC, 'C-interface', 'bml_types.h')).read()
    text = re.sub(r'/\*.*?\*/|//[^\n]*', '', text, flags=re.S)
    enum = {}
    for m in re.finditer(r'enum\s*\w*\s*\{([^}]*)\}', text):
        v = 0
        for x in m.group(1).split(','):
            x = x.strip()
            if not x:
                continue
            if '=' in x:
                x, y = [s.strip() for s in x.split('=')]
                v = int(y, 0)
            enum[x] = v
            v += 1
    for k, v in CENUM.items():
        if k not in enum:
            raise Broken('bml_types.h: no enumerator %s' % k)
    for fn, c in sorted(FID.items()):
        R.count('constants')
        e = W.params.get(fn)
        if e is None:
            # renamed: the wrapper summaries below still fix the numbers passed
            continue
        try:
            v = int(e[1])
        except (ValueError, TypeError):
            continue
        if v != enum[c]:
            R.viol('constant:%s' % fn, '%s is %d, but %s is %d in bml_types.h' % (fn, v, c, enum[c]))
    for k, v in CENUM.items():
        if enum[k] != v:
            R.viol('constant:%s' % k, '%s is %d in bml_types.h, the Fortran decoders take it for %d' % (k, enum[k], v))
    # wrapper
    spec = json.load(open(SPEC))
    try:
        got = fortran.summaries(mods)
    except fortran.FErr as e:
        raise Broken('Fortran front end: %s' % e)
    pub = W.public()
    for n, want in sorted(spec.items()):
        R.count('procedures')
        R.count('effects', len(want))
        if n not in got:
            R.viol('wrapper:%s:missing' % n, '%s: no public procedure takes these arguments' % n)
            continue
        if want != got[n]:
            w, g = frozen.diff(want, got[n])
            p = pub[n]
            R.viol('wrapper:' + n, '%s (%s:%d): reviewed effects\n    %s\n  but the source now does\n    %s'
                   % (n, p.file, p.line, '\n    '.join(map(frozen.cut, w)) or '(nothing more)',
                      '\n    '.join(map(frozen.cut, g)) or '(nothing)'))
        else:
            R.sample('%s: %s' % (n, want[0] if want else 'no effect'))
    # array
    for M in mods.values():
        for p in M.procs.values():
            if True:
                for c in walk_expr(p.body):
                    if c[1][0] != 'name':
                        continue
                    cand = []
                    if c[1][1] == 'c_loc':
                        cand = c[2][:1]
                    elif c[1][1] in binds:
                        q = binds[c[1][1]]
                        cand = []
                        for i, a in enumerate(c[2]):
                            nm, x = (a[1], a[2]) if a[0] == 'kw' else (q.args[i] if i < len(q.args) else None, a)
                            d = q.decl.get(nm)
                            if d and 'value' not in d[1] and d[2] and ':' not in d[2]:
                                continue        # an explicit-shape dummy makes the compiler copy
                            if d and 'value' not in d[1]:
                                cand.append(x)
                    for x in cand:
                        v = root(x)
                        d = p.decl.get(v) if v else None
                        if not d or not d[2]:
                            continue
                        R.count('arrays')
                        if ':' in d[2] and v in p.args and not {'allocatable', 'contiguous'} & set(d[1]):
                            R.viol('array:%s:%s:%s' % (M.name, p.name, v), '%s (%s:%d): the address of %s goes to C, '
                                   'but the array may be a section with gaps' % (p.name, p.file, p.line, v))
    R.floor('interfaces', 70)
    R.floor('arguments', 200)
    R.floor('procedures', 100)
    R.floor('effects', 200)
    R.floor('arrays', 10)
    R.floor('constants', 10)
    R.assume = ['the reviewed summaries in spec/effects/C09.json describe the intended behaviour',
                'the Fortran compiler implements the interoperability rules of the standard']
    return R
