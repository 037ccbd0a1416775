"""Comparison of canonical effect summaries with reviewed ones (spec/<family>.json).

A family is a set of functions chosen by the source file they live in.  For every function of the family the canonical
effect summary (engine/effects.py) is computed from the current source and must be the reviewed one.  A summary lists
what the function returns, stores, calls and reports, under which condition and over which range, as a function of its
arguments and of the storage it reads; it does not depend on names of locals, statement order between independent
statements, extracted helpers, loop form or the like."""
import os, re, json, hashlib
from core import walk
from report import Report, Broken
import modref, build, effects

FMT = r'(?:_(dense|ellpack|ellblock|csr|distributed2d))?(?:_typed)?\.c$'


def family(f):
    """Family of a function: by file, then by name."""
    if '/distributed2d/' in f.file:
        return 'C20'
    b = os.path.basename(f.file)
    m = re.match(r'(?:bml_)?(.*?)' + FMT, b)
    stem, fmt, n = (m.group(1), m.group(2), f.name) if m else (b, None, f.name)
    if n in ('bml_sumRealReduce', 'bml_minRealReduce', 'bml_maxRealReduce', 'bml_initParallel', 'bml_barrierParallel'):
        return 'C20'
    if n.startswith('csr_') or n.startswith('hash_'):
        return 'C29'
    if n.startswith('bml_reorder'):
        return 'C27'
    if stem in ('gemm', 'diagonalize', 'inverse') or n == 'bml_multiply_dense' or \
            (stem == 'multiply' and fmt == 'dense'):
        return 'C22'
    if stem in ('trace', 'norm', 'introspection'):
        return 'C23'
    if stem == 'normalize':
        return 'C24' if re.match(r'bml_normalize', n) else 'C23'
    if stem == 'utilities' and re.match(r'bml_(norm_inf|sum_)', n):
        return 'C23'
    if stem in ('add', 'scale', 'threshold', 'element_multiply'):
        return 'C24'
    if stem in ('copy', 'convert', 'export', 'import', 'getters'):
        return 'C25'
    if stem == 'multiply':
        return 'C26'
    if stem in ('transpose', 'transpose_triangle', 'adjungate_triangle', 'submatrix'):
        return 'C27'
    if stem == 'allocate':
        return 'C28'
    if stem == 'setters':
        return 'C29'
    if stem in ('utilities', 'logger', 'elemental', 'init', 'shutdown'):
        return 'C30'
    if stem == 'parallel':
        return 'C31'
    return None


SKIP = {'bml_version'}       # the text of the version is not behaviour


def subjects(P, pid):
    return [P.fns[n] for n in sorted(P.fns)
            if not P.is_helper(P.fns[n]) and n not in SKIP and family(P.fns[n]) == pid]


def summaries(P, pid):
    M = modref.ModRef(P)
    return {f.name: effects.summarise(P, f, M).summary() for f in subjects(P, pid)}


def callees(P, f):
    """Functions of the program f calls that are small enough to have been written out in it."""
    out = set()
    for x in walk(P.nf(f)):
        if x.k == 'call' and x.a:
            g = P.lookup(x.a[0], f)
            if g is not None and g is not f and not P.is_helper(g) and not g.variadic and len(g.params) == len(x.c) - 1 and g.body is not None:
                if sum(1 for y in walk(g.body) if y.k in ('asg', 'call', 'if', 'for', 'while', 'return', 'decl')) <= 40:
                    out.add(g.name)
    return out


def written_out(P, f, M, hs):
    """Summary of f with the functions hs expanded in it."""
    keep, f._nf = f._nf, None
    P.also = frozenset(hs)
    try:
        return effects.summarise(P, f, M).summary()
    except Exception:
        return None         # too much for the analysis in this form
    finally:
        P.also = frozenset()
        f._nf = keep


def digest(s):
    return hashlib.sha1(json.dumps(s).encode()).hexdigest()[:12]


def deep(P, pid):
    """{function: {callee: digest of the summary with the callee written out}}"""
    M = modref.ModRef(P)
    out = {}
    for f in subjects(P, pid):
        if '_typed' not in f.main + f.file:
            continue
        for h in sorted(callees(P, f)):
            s = written_out(P, f, M, [h])
            if s is not None:
                out.setdefault(f.name, {})[h] = digest(s)
    return out


def otherwise(P, f, M, want, more):
    """Does f do what is wanted, with a call replaced by what the callee does, or the other way round?"""
    have = callees(P, f)
    text = '\n'.join(want)
    new = sorted(h for h in have if not re.search(r'\b%s\b' % h, text))
    tries = [[h] for h in new] + ([new] if len(new) > 1 else [])
    for t in tries[:8]:
        if written_out(P, f, M, t) == want:
            return True
    for h, d in sorted(more.get(f.name, {}).items()):
        for t in ([h], [h] + new):
            s = written_out(P, f, M, t)
            if s is not None and digest(s) == d:
                return True
    return False


def spec_path(pid):
    return os.path.join(build.VERIF, 'spec', 'effects', pid + '.json')


def load_spec(pid):
    """{config: {function: summary}}; a function whose summary is the same in both builds is stored under 'AB'."""
    s = json.load(open(spec_path(pid)))
    return {c: dict(list(s.get('AB', {}).items()) + list(s.get(c, {}).items())) for c in 'AB'}


def load_deep(pid):
    p = spec_path(pid).replace('.json', '.deep.json')
    s = json.load(open(p)) if os.path.exists(p) else {}
    return {c: {f: dict(list(s.get('AB', {}).get(f, {}).items()) + list(s.get(c, {}).get(f, {}).items()))
                for f in set(s.get('AB', {})) | set(s.get(c, {}))} for c in 'AB'}


def diff(want, got):
    w, g = list(want), list(got)
    for l in list(w):
        if l in g:
            g.remove(l)
            w.remove(l)
    if not w and not g:
        i = [a == b for a, b in zip(want, got)].index(False)
        return ['(order) ' + want[i]], ['(order) ' + got[i]]
    return w, g


def cut(s):
    return s if len(s) < 600 else s[:600] + ' ...'


def check(pid, progs, rule, floors, known=()):
    """known: [(function, what is wrong with it)], kept in known-findings.txt under the key '<function>:known'."""
    R = Report(pid, rule)
    spec = load_spec(pid)
    more = load_deep(pid)
    done = {}
    for cfg in 'AB':
        P = progs.get(cfg)
        if P is None or not spec[cfg]:
            continue
        got = summaries(P, pid)
        M = modref.ModRef(P)
        for n in sorted(spec[cfg]):
            want = spec[cfg][n]
            if n not in got:
                R.viol(n + ':missing', '%s: the function is gone' % n)
                continue
            if done.get(n) == (want, got[n]):
                R.count('same_in_both_builds')
                continue
            done[n] = (want, got[n])
            R.count('functions')
            R.count('effects', len(want))
            if want != got[n] and not otherwise(P, P.fns[n], M, want, more.get(cfg, {})):
                w, g = diff(want, got[n])
                f = P.fns[n]
                R.viol(n, '%s (%s:%d): reviewed effects\n    %s\n  but the source now does\n    %s' %
                       (n, f.file, f.line, '\n    '.join(map(cut, w)) or '(nothing more)',
                        '\n    '.join(map(cut, g)) or '(nothing)'))
            elif want:
                R.sample('%s: %s' % (n, want[0][:300]))
        for n, why in known:
            v = [x for x in got if x == n or x.startswith(n + '_') and x[len(n) + 1:].split('_')[0] in ('single', 'double')]
            if any(got[x] == spec[cfg].get(x) for x in v):
                R.viol(n + ':known', '%s: %s' % (n, why))
    for k, v in floors.items():
        R.floor(k, v)
    R.assume = ['the reviewed summaries in spec/effects/%s.json describe the intended behaviour' % pid,
                'arguments of one call that name different matrices do not share storage']
    return R
