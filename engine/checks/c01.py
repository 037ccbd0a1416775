"""C01: every operation reaches the implementation of the matrix's own format.

For each public function that dispatches on the storage format, partial evaluation
with the format fixed enumerates all paths.  Compared with the reviewed table
spec/dispatch.json: the format-level function called, which argument lands in which
position, and what is returned."""
import json, os, re
import build, core, peval
from core import walk
from disp import TYPES, TTOK, signature, norm
from report import Report, Broken

SPEC = os.path.join(build.VERIF, 'spec', 'dispatch.json')
# not reached on purpose: ellblock matrices carry no domain; the precision of a distributed
# matrix is read from its local block
UNREACHED = {'bml_save_domain_ellblock', 'bml_restore_domain_ellblock', 'bml_get_precision_distributed2d'}
FREE = {'bml_print_bml_matrix'}      # formatted output: only the format rule applies


def dispatchers(P):
    out = []
    for f in P.top():
        if not re.match(r'C-interface/bml_\w+\.c$', f.file):
            continue
        body = P.nf(f)
        if any(x.k == 'call' and x.a and TTOK.search(x.a[0]) for x in walk(body)):
            out.append(f)
    return sorted(out, key=lambda f: f.name)


def modes(f):
    return (0, 1, 2) if any('bml_distribution_mode_t' in p[2] for p in f.params) else (None,)


def paths(P, f, t, mode):
    def assume(n, pe, p):
        if n.k == 'call' and n.a and n.a[0] == 'bml_get_type':
            # only the operands' own format is fixed
            return t
        if n.k == 'ref' and n.ty == 'bml_matrix_type_t' and n.a[2] in ('parm',):
            return t
        if mode is not None and n.k == 'ref' and n.ty == 'bml_distribution_mode_t' and n.a[2] == 'parm':
            return mode
        return None
    return peval.PE(assume).run(P.nf(f))


def table(P):
    """{dispatcher: {type[/mode]: [sorted signatures]}}"""
    names = {f.name for f in dispatchers(P)}

    def keep(n):
        if n in ('bml_get_type', 'bml_get_precision', 'bml_get_N', 'bml_get_M'):
            return False
        return bool(TTOK.search(n)) or n in names
    out = {}
    for f in dispatchers(P):
        row = {}
        for t, tn in TYPES.items():
            if t == 5 and P.cfg == 'A':
                continue
            for m in modes(f):
                sigs = set()
                for p in paths(P, f, t, m):
                    sigs.add(signature(p, keep))
                row[tn + ('' if m is None else '/%d' % m)] = sigs
        out[f.name] = row
    return out


def enc(sigs):
    return sorted([[list(map(lambda c: [c[0], list(c[1])], s[0])), s[1], s[2]] for s in sigs], key=repr)


def run(progs):
    R = Report('C01', 'partial evaluation of every format dispatcher with the format fixed (and the '
               'distribution mode enumerated); per (function, format) all paths are compared with the reviewed '
               'dispatch table: callee, argument origins by position, returned value; plus the header-layout '
               'rule for the format tag and the rule that a format-level callee belongs to the fixed format')
    spec = json.load(open(SPEC))
    for cfg, P in progs.items():
        ref = spec['B' if cfg in ('B', 'AB') else 'A']
        tab = table(P)
        for name, row in ref.items():
            f = P.fns.get(name)
            if f is None:
                raise Broken('dispatcher %s vanished' % name)
            cur = tab.get(name)
            if cur is None:
                R.viol('%s:none' % name, '%s (src/%s:%d) no longer forwards to any format implementation'
                       % (name, f.file, f.line))
                continue
            for key, want in row.items():
                R.count('dispatch_rows')
                got = enc(cur[key])
                tn = key.split('/')[0]
                gl = [s for s in got if s[1] != 'fatal']
                wl = [s for s in want if s[1] != 'fatal']
                for s in got:
                    R.count('paths')
                if name in FREE:
                    for s in got:
                        for c in s[0]:
                            m = TTOK.search(c[0])
                            if m and m.group(1) != tn and c[0] not in ('bml_export_to_dense', 'bml_print_dense_matrix', 'bml_print_dense_vector'):
                                R.viol('%s:%s' % (name, key), '%s (src/%s:%d): for a %s matrix calls %s'
                                       % (name, f.file, f.line, tn, c[0]))
                    continue
                if gl != wl or (not gl) != (not wl) or (not wl and got != want and not got):
                    bad = [s for s in gl if s not in wl]
                    mis = [s for s in wl if s not in gl]
                    R.viol('%s:%s' % (name, key),
                           '%s (src/%s:%d), %s matrix%s: %s%s [configuration %s]' % (
                               name, f.file, f.line, tn,
                               '' if '/' not in key else ' (distribution mode %s)' % key.split('/')[1],
                               'does ' + '; '.join(map(fmt, bad)) if bad else '',
                               ' instead of ' + '; '.join(map(fmt, mis)) if mis else '', cfg))
                else:
                    R.sample('%s %s -> %s' % (name, key, '; '.join(map(fmt, got))[:160]))
        for name, row in tab.items():
            if name in ref:
                continue
            f = P.fns[name]
            for key, sigs in row.items():
                R.count('dispatch_rows')
                for s in sigs:
                    for c in s[0]:
                        m = TTOK.search(c[0])
                        if m and m.group(1) in TYPES.values() and m.group(1) != key.split('/')[0] and c[0] in P.fns \
                                and P.fns[c[0]].file.split('/')[1] in TYPES.values() and not (key.endswith('/1') and m.group(1) == 'distributed2d'):
                            R.viol('%s:%s' % (name, key), '%s (src/%s:%d): for a %s matrix calls %s' %
                                   (name, f.file, f.line, key, c[0]))
        # nothing that is implemented stays unreachable: bml_X_<format> is what bml_X reaches for that format
        reached = {c[0] for row in tab.values() for sigs in row.values() for x in sigs for c in x[0]}
        for g in P.top():
            m = re.match(r'C-interface/(\w+)/bml_\w+_\1\.c$', g.file)
            if not m or not g.name.endswith('_' + m.group(1)) or g.name[:-len(m.group(1)) - 1] not in tab:
                continue
            R.count('implementations')
            if g.name in reached or g.name in UNREACHED or all(
                    x.a and x.a[0] in ('bml_log', 'bml_log_location') for x in walk(P.nf(g)) if x.k == 'call'):
                continue
            R.viol('%s:orphan' % g.name, '%s (src/%s:%d) is implemented but %s never reaches it'
                   % (g.name, g.file, g.line, g.name[:-len(m.group(1)) - 1]))
        # the format tag is the first member of every matrix structure
        for rec, fields in P.recs.items():
            m = re.match(r'bml_matrix_(dense|ellpack|ellblock|csr|distributed2d)_t$', rec)
            if not m:
                continue
            R.count('tag_layouts')
            if not fields or fields[0] != ['matrix_type', 'bml_matrix_type_t']:
                R.viol('layout:' + rec, 'structure %s does not start with the format tag' % rec)
    R.floor('dispatch_rows', 700)
    R.floor('tag_layouts', 8)
    R.floor('implementations', 250)
    R.assume = ['operands of one operation have the same format (documented contract)']
    return R


def fmt(s):
    c = ', '.join('%s(%s)' % (x[0], ', '.join(x[1])) for x in s[0]) or 'no call'
    return '%s [%s%s]' % (c, s[1], '' if s[2] is None else ' ' + s[2])


if __name__ == '__main__':
    pass
