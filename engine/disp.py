"""Shared by the two dispatch checks."""
import re
import peval

TYPES = {1: 'dense', 2: 'ellpack', 3: 'ellblock', 4: 'csr', 5: 'distributed2d'}
PRECS = {1: 'single_real', 2: 'double_real', 3: 'single_complex', 4: 'double_complex'}
TTOK = re.compile(r'_(dense|ellpack|ellblock|csr|distributed2d)(?=_|$)')
PTOK = re.compile(r'_(single_real|double_real|single_complex|double_complex)$')


def norm(v, evs):
    """Value -> stable text; call results by callee name."""
    if v is None:
        return 'none'
    if not isinstance(v, tuple):
        return str(v)
    t = v[0]
    if t == 'p':
        return v[1]
    if t == 'r':
        return 'result(%s)' % v[2]
    if t == 'c':
        return '#%s' % v[1]
    if t == 'out':
        return 'out(%s)' % v[2]
    if t == '?':
        return '?'
    return '(' + ' '.join(norm(x, evs) if isinstance(x, tuple) else str(x) for x in v) + ')'


def signature(path, keep):
    """Calls the path makes (those selected by keep), with arguments by origin, and what it returns."""
    calls = []
    for i, e in enumerate(path.ev):
        if e[0] not in ('=', 'if', 'case') and keep(e[0]):
            calls.append((e[0], tuple(norm(a, path.ev) for a in e[1])))
    ret = norm(path.ret, path.ev) if path.ret is not None else None
    return (tuple(calls), path.end, ret)
