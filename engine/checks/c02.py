"""C02: every operation runs the instantiation of the matrix's own element type."""
import json, os, re
import build, core, peval
from core import walk
from disp import PRECS, PTOK, signature
from report import Report, Broken

SPEC = os.path.join(build.VERIF, 'spec', 'precision.json')
LET = {'single_real': 's', 'double_real': 'd', 'single_complex': 'c', 'double_complex': 'z'}
BLAS = re.compile(r'^(p?)([sdcz])(gemm|scal|axpy|getrf|getri|lacpy|copy|dot|nrm2|syev|syevd|syevr|heev|heevd|heevr)_$')


def own(f):
    m = PTOK.search(f.name)
    return m.group(1) if m else (f.tag.lower() or None)


def dispatchers(P):
    out = []
    for f in P.top():
        if f.tag or own(f) or not re.match(r'C-interface/\w+/', f.file):
            continue
        if any(x.k == 'call' and x.a and PTOK.search(x.a[0]) for x in walk(P.nf(f))):
            out.append(f)
    return sorted(out, key=lambda f: f.name)


def has_param(f):
    return any(p[2] == 'bml_matrix_precision_t' for p in f.params)


def paths(P, f, p, q):
    """Element type requested (parameter) = p, element type of the operands = q."""
    def assume(n, pe, pa):
        if n.k == 'call' and n.a and n.a[0].startswith('bml_get_precision'):
            return q
        if n.k == 'ref' and n.ty == 'bml_matrix_precision_t' and n.a[2] == 'parm':
            return p
        if n.k == 'mem' and n.ty == 'bml_matrix_precision_t':
            return q
        return None
    return peval.PE(assume).run(P.nf(f))


def keep(n):
    return bool(PTOK.search(n))


def gen(sig, p):
    """Replace the element type by PREC; None when another one is called."""
    calls, end, ret = sig
    t = PRECS[p]
    out = []
    for name, args in calls:
        if PTOK.search(name).group(1) != t:
            return None
        out.append([PTOK.sub('_PREC', name), ['PREC' if a == '#%d' % p else a for a in args]])
    if ret is not None:
        ret = ret.replace(t, 'PREC')
    return [out, end, ret]


def table(P):
    out = {}
    for f in dispatchers(P):
        p = 1
        out[f.name] = sorted([s for s in (gen(signature(x, keep), p) for x in paths(P, f, p, p)) if s and s[1] != 'fatal'], key=repr)
    return out


def shape(n, tag):
    """Structure of an expression tree with the element type factored out."""
    if n is None:
        return None
    a = n.a
    if n.k == 'decl':
        return ('decl', tuple((v.ty, shape(v.init, tag)) for v in a))
    if n.k == 'call' and a:
        a = PTOK.sub('', a[0])
    if n.k == 'ref':
        a = a[0]
    return (n.k, n.ty, str(a), tuple(shape(x, tag) for x in n.c))


def same_code(P, a, b):
    fa, fb = P.fns.get(a), P.fns.get(b)
    return fa is not None and fb is not None and shape(P.nf(fa), '') == shape(P.nf(fb), '')


def run(progs):
    R = Report('C02', 'partial evaluation of every element-type dispatcher for all requested types (and, for conversions, '
               'all requested x source types); resolved-callee rule inside each typed instantiation: a typed function calls '
               'only typed functions and BLAS/LAPACK routines of its own element type')
    spec = json.load(open(SPEC))
    for cfg, P in progs.items():
        ref = spec['B' if cfg in ('B', 'AB') else 'A']
        ds = {f.name: f for f in dispatchers(P)}
        for name in ref:
            if name not in P.fns:
                raise Broken('dispatcher %s vanished' % name)
            if name not in ds:
                R.viol(name + ':none', '%s (src/%s:%d) no longer forwards to any typed implementation'
                       % (name, P.fns[name].file, P.fns[name].line))
        for name, f in ds.items():
            for p in PRECS:
                for q in (PRECS if has_param(f) else [p]):
                    R.count('dispatch_rows')
                    got = set()
                    live = []
                    for x in paths(P, f, p, q):
                        s = signature(x, keep)
                        if s[1] == 'fatal':
                            continue
                        for c in s[0]:
                            t = PTOK.search(c[0]).group(1)
                            R.count('typed_calls')
                            if t != PRECS[p] and not same_code(P, c[0], PTOK.sub('_' + PRECS[p], c[0])):
                                R.viol('%s:%s' % (name, PRECS[p]), '%s (src/%s:%d): for %s it runs %s [configuration %s]'
                                       % (name, f.file, f.line, PRECS[p], c[0], cfg))
                            elif t != PRECS[p]:
                                s = (tuple((PTOK.sub('_' + PRECS[p], y[0]), y[1]) for y in s[0]), s[1],
                                     s[2].replace(t, PRECS[p]) if s[2] else s[2])
                        g = gen(s, p)
                        if g is not None:
                            live.append(json.dumps(g))
                    live = sorted(set(live))
                    want = sorted(set(json.dumps(s) for s in ref.get(name, []))) if name in ref else live
                    if live != want and not any(k.startswith('%s:%s' % (name, PRECS[p])) for k in R.findings):
                        bad = [x for x in live if x not in want]
                        mis = [x for x in want if x not in live]
                        R.viol('%s:%s' % (name, PRECS[p]), '%s (src/%s:%d) for %s: has %s instead of %s [configuration %s]'
                               % (name, f.file, f.line, PRECS[p], bad or 'no forwarding path', mis, cfg))
                    elif name in ref:
                        R.sample('%s %s -> %s' % (name, PRECS[p], '; '.join(live)[:140]), 6)
        # inside the instantiations
        for f in P.fns.values():
            t = own(f)
            if not t or not f.file.startswith(('C-interface/', 'internal-blas/')):
                continue
            R.count('typed_functions')
            for x in walk(f.body):
                if x.k == 'call' and x.a:
                    m = PTOK.search(x.a[0])
                    b = BLAS.match(x.a[0])
                    if m:
                        R.count('typed_calls')
                        if m.group(1) != t and not same_code(P, x.a[0], PTOK.sub('_' + t, x.a[0])):
                            R.viol('%s>%s' % (f.name, x.a[0]), '%s (src/%s:%d), the %s instantiation, calls %s'
                                   % (f.name, f.file, x.line, t, x.a[0]))
                    if b:
                        R.count('blas_calls')
                        R.sample('%s line %d: %s' % (f.name, x.line, x.a[0]))
                        if b.group(2) != LET[t]:
                            R.viol('%s>%s' % (f.name, x.a[0]), '%s (src/%s:%d), the %s instantiation, calls %s'
                                   % (f.name, f.file, x.line, t, x.a[0]))
                elif x.k == 'enum' and x.a[0] in LET:
                    R.count('precision_constants')
                    if f.tag and x.a[0] != t:
                        R.viol('%s=%s' % (f.name, x.a[0]), '%s (src/%s:%d), the %s instantiation, uses the constant %s'
                               % (f.name, f.file, x.line, t, x.a[0]))
    R.floor('dispatch_rows', 1000)
    R.floor('typed_functions', 2000)
    R.floor('blas_calls', 60)
    R.assume = ['operands of one operation have the same element type (documented contract)']
    return R
