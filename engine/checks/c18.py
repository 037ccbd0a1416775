"""C18: every formatted output or input call passes matching arguments."""
import re
from core import walk, show
from cfg import CFG
from report import Report, Broken
from ownership import strip, base_var

# function -> (position of the format, position of the first variable argument)
PRINTF = {'printf': (0, 1), 'fprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'dprintf': (1, 2),
          'bml_log': (1, 2), 'bml_log_location': (3, 4)}
SCANF = {'scanf': (0, 1), 'fscanf': (1, 2), 'sscanf': (1, 2)}
SPEC = re.compile(r"%(?P<flags>[-+ #0']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d*))?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<conv>[a-zA-Z%\[])")
SSPEC = re.compile(r"%(?P<star>\*)?(?P<width>\d+)?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<conv>[a-zA-Z%\[])")
PREC = re.compile(r'_(single|double)_(real|complex)\b')

SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
         'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}


def isize(P, ty):
    ty = re.sub(r'\b(const|volatile)\b ?', '', ty).strip()
    if ty in SIZES:
        return SIZES[ty]
    if ty.startswith('enum') or ty in P.enums or re.match(r'bml_\w+_t$', ty):
        return 4
    return None


LEN = {None: 4, 'hh': 4, 'h': 4, 'l': 8, 'll': 8, 'j': 8, 'z': 8, 't': 8}
SLEN = {None: 4, 'hh': 1, 'h': 2, 'l': 8, 'll': 8, 'j': 8, 'z': 8, 't': 8}


def argty(a):
    """Type after the default promotions (casts to void* and friends included)."""
    return re.sub(r'\b(const|volatile|restrict)\b ?', '', a.ty).strip()


def want_print(P, spec, ty):
    c, l = spec['conv'], spec['len']
    if c in 'diuoxX':
        s = isize(P, ty)
        return s is not None and max(s, 4) == LEN.get(l, 0)
    if c == 'c':
        return isize(P, ty) is not None and isize(P, ty) <= 4
    if c in 'eEfFgGaA':
        return ty == ('long double' if l == 'L' else 'double')
    if c == 's':
        return ty in ('char *',) or re.match(r'char\[\d*\]$', ty) is not None
    if c == 'p':
        return ty.endswith('*') or ty.endswith(']')
    return False


def want_scan(P, spec, ty):
    c, l = spec['conv'], spec['len']
    m = re.match(r'(.*?) ?(\*|\[\d*\])$', ty)
    if not m:
        return False
    e = m.group(1).strip()
    if c in 'diuoxX':
        return isize(P, e) == SLEN.get(l, 0)
    if c in 'eEfFgGaA':
        return e == {'l': 'double', None: 'float', 'L': 'long double'}.get(l)
    if c in 'sc[':
        return e in ('char', 'unsigned char')
    return False


def formats(n, body, depth=3):
    """All literal strings a format expression may denote, or None."""
    n = strip(n)
    if n.k == 'str':
        return [n.a]
    if n.k == 'cond':
        a, b = formats(n.c[1], body, depth), formats(n.c[2], body, depth)
        return a + b if a is not None and b is not None else None
    if n.k == 'ref' and n.a[2] in ('var', 'slocal') and depth:
        out = []
        for x in walk(body):
            e = None
            if x.k == 'decl':
                for v in x.a:
                    if v.id == n.a[1] and v.init is not None:
                        e = v.init
            elif x.k == 'asg' and x.c[0].k == 'ref' and x.c[0].a[1] == n.a[1]:
                e = x.c[1]
            if e is not None:
                r = formats(e, body, depth - 1)
                if r is None:
                    return None
                out += r
        return out or None
    return None


def decls(body):
    d = {}
    for x in walk(body):
        if x.k == 'decl':
            for v in x.a:
                d[v.id] = v
    return d


def run(progs):
    R = Report('C18', 'each literal format is parsed; the number of conversions must equal the number of variable arguments and every '
               'promoted argument type must be the one its conversion reads; %s input needs a width that fits its buffer')
    for cfgname, P in progs.items():
        for f in P.top():
            body = P.nf(f)
            dd = None
            fmtparams = {p[1] for p in f.params if p[2].replace('const ', '') == 'char *'}
            for x in walk(body):
                if x.k != 'call' or not x.a:
                    continue
                nm = x.a[0]
                tab = PRINTF.get(nm) or SCANF.get(nm)
                if tab is None:
                    continue
                R.count('calls')
                args = x.c[1:]
                fe = strip(args[tab[0]])
                key = '%s:%s' % (PREC.sub('', f.name), nm)
                if fe.k == 'ref' and fe.a[1] in fmtparams:
                    R.count('forwarded_formats')
                    continue
                fs = formats(fe, body)
                if fs is None:
                    R.viol('nonliteral:' + key, '%s (src/%s:%d): the format of %s is not a literal' % (f.name, f.file, x.line, nm))
                    continue
                for s in fs:
                    scan = nm in SCANF
                    specs = []
                    for m in (SSPEC if scan else SPEC).finditer(s):
                        g = m.groupdict()
                        if g['conv'] == '%':
                            continue
                        if scan and g.get('star'):
                            continue
                        if not scan and g['width'] == '*':
                            specs.append({'conv': 'd', 'len': None})
                        if not scan and g['prec'] == '*':
                            specs.append({'conv': 'd', 'len': None})
                        specs.append(g)
                    va = args[tab[1]:]
                    where = '%s (src/%s:%d): %s("%s", ...)' % (f.name, f.file, x.line, nm, s.replace('\n', '\\n'))
                    k = key + ':' + re.sub(r'\s+', ' ', s)[:60]
                    R.count('conversions', len(specs))
                    if len(specs) != len(va):
                        R.viol('count:' + k, '%s has %d conversions but %d arguments [configuration %s]' %
                               (where, len(specs), len(va), cfgname))
                        continue
                    for i, (g, a) in enumerate(zip(specs, va)):
                        ty = argty(a)
                        if not (want_scan if scan else want_print)(P, g, ty):
                            R.viol('type:%s:%d' % (k, i), '%s: argument %d `%s` has type %s but the conversion is %%%s%s '
                                   '[configuration %s]' % (where, i + 1, show(a), ty, g['len'] or '', g['conv'], cfgname))
                        elif scan and g['conv'] in 's[':
                            if dd is None:
                                dd = decls(body)
                            b = strip(a)
                            v = dd.get(b.a[1]) if b.k == 'ref' else None
                            m = re.search(r'\[(\d+)\]$', v.ty) if v is not None else None
                            size = int(m.group(1)) if m else None
                            R.count('input_buffers')
                            if g['width'] is None or (size is not None and int(g['width']) >= size):
                                R.viol('width:%s:%d' % (k, i), '%s: %%%s input into `%s` (%s) is not limited to the buffer' %
                                       (where, g['conv'], show(a), v.ty if v is not None else ty))
                if len(R.samples) < 10:
                    R.sample('%s line %d: %s %r' % (f.name, x.line, nm, fs[0]))
    R.floor('calls', 700)
    R.floor('conversions', 400)
    return R
