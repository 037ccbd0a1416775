"""Self-test of the effect summaries: small behaviour-changing edits must show. usage: mutfuzz.py CFG SEED [FUNCTION-REGEX]"""
import sys, re, os, random
W = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [W + '/engine', W + '/engine/checks', W + '/tools']
import core, modref, effects
from core import N, walk, kids
from inline import clone
from cfg import is_assert, fatal_call

FREE = effects.FREE


def sites(body):
    out = []

    def go(n, par, i, dead):
        if n is None:
            return
        if is_assert(n) or n.k == 'call' and n.a and n.a[0] in FREE or n.k == 'omp' and False:
            return
        if n.k == 'bin' and n.a in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', '&&', '||'):
            out.append(('op', n))
        if n.k == 'int' and not n.ty.startswith('x'):
            out.append(('const', n))
        if n.k == 'asg' and n.a in ('+=', '-=', '*='):
            out.append(('asg', n))
        if n.k == 'if' and not fatal_any(n.c[1]):
            out.append(('neg', n))
        if n.k == 'block':
            for j, s in enumerate(n.c):
                if s is not None and s.k in ('asg', 'call', 'un', 'if', 'for') and not is_assert(s) and not (s.k == 'call' and s.a and s.a[0] in FREE) and not fatal_call(s) \
                        and not (s.k == 'if' and fatal_any(s)):
                    out.append(('drop', n, j))
        if n.k == 'call' and n.a and n.a[0] not in FREE and len(n.c) > 2:
            for j in range(1, len(n.c) - 1):
                if n.c[j].ty == n.c[j + 1].ty and core.show(n.c[j]) != core.show(n.c[j + 1]):
                    out.append(('swap', n, j))
        if n.k == 'mem' and n.a[0] in ('N', 'M', 'N_', 'NZMAX_', 'NB', 'MB'):
            out.append(('field', n))
        if n.k == 'decl':
            for v in n.a:
                if v.init is not None:
                    go(v.init, n, 0, dead)
            return
        for j, x in enumerate(n.c):
            go(x, n, j, dead)
    go(body, None, 0, False)
    return out


def fatal_any(n):
    return n is not None and any(x.k == 'call' and x.a and x.a[0] == 'bml_log_location' for x in walk(n))


OPS = {'+': '-', '-': '+', '*': '+', '/': '*', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '&&': '||', '||': '&&'}


def mutate(s):
    n = s[1]
    if s[0] == 'op':
        d = core.show(n)
        n.a = OPS[n.a]
        return '%d: %s -> %s' % (n.line, d, core.show(n))
    if s[0] == 'const':
        n.a = n.a + 1 if isinstance(n.a, int) else n.a
        return '%d: const +1 -> %s' % (n.line, n.a)
    if s[0] == 'asg':
        n.a = '='
        return '%d: %s' % (n.line, core.show(n))
    if s[0] == 'neg':
        n.c[0] = N('un', 0, 'int', '!', [n.c[0]])
        return '%d: neg %s' % (n.line, core.show(n.c[0]))
    if s[0] == 'drop':
        x = n.c[s[2]]
        n.c[s[2]] = None
        n.c = [y for y in n.c if y is not None]
        return '%d: drop %s' % (x.line, core.show(x)[:100])
    if s[0] == 'swap':
        j = s[2]
        n.c[j], n.c[j + 1] = n.c[j + 1], n.c[j]
        return '%d: swap %s' % (n.line, core.show(n)[:100])
    if s[0] == 'field':
        n.a = list(n.a)
        n.a[0] = {'N': 'M', 'M': 'N', 'N_': 'NZMAX_', 'NZMAX_': 'N_', 'NB': 'MB', 'MB': 'NB'}[n.a[0]]
        return '%d: field %s' % (n.line, core.show(n))


def main():
    cfg = sys.argv[1]
    rnd = random.Random(int(sys.argv[2]))
    rf = re.compile(sys.argv[3] if len(sys.argv) > 3 else 'double_real$')
    P = core.load()[cfg]
    M = modref.ModRef(P)
    tot, kill = {}, {}
    for name in sorted(P.fns):
        f = P.fns[name]
        if P.is_helper(f) or not rf.search(name):
            continue
        body = P.nf(f)
        base = effects.summarise(P, f, M).summary()
        for _ in range(3):
            nb = clone(body)
            ss = sites(nb)
            if not ss:
                continue
            s = rnd.choice(ss)
            d = mutate(s)
            f._nf = nb
            try:
                r = effects.summarise(P, f, M).summary()
            except Exception as e:
                r = None
            f._nf = body
            tot[s[0]] = tot.get(s[0], 0) + 1
            if r != base:
                kill[s[0]] = kill.get(s[0], 0) + 1
            else:
                print('SURVIVE', name, s[0], d)
    print({k: '%d/%d' % (kill.get(k, 0), tot[k]) for k in tot})


if __name__ == '__main__':
    main()
