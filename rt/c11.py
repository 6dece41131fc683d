# -*- coding: utf-8 -*-
"""C11: history independence."""
from .base import *
from . import expr, nums
from uncertainties import ufloat, UFloat


def snap(w, x):
    known = {id(v): k for k, v in w.vars.items()}
    return (x.nominal_value, {known.get(id(v), 'unknown'): d for v, d in x.derivatives.items()},
            float(x.std_dev), {known.get(id(v), 'unknown'): float(c) for v, c in x.error_components().items()})


def eqd(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def eqsnap(a, b):
    return same(a[0], b[0]) and eqd(a[1], b[1]) and same(a[2], b[2]) and eqd(a[3], b[3])


def check(case):
    _, prog, reads, reads2 = case
    # world A: builds everything, reads only at the end; world B: interleaved observations
    a = expr.World()
    for st in prog:
        a.step(st)
    b = expr.World()
    snaps = {}
    nset = 0
    for k, st in enumerate(prog):
        b.step(st)
        for (at, what, i, j, mode) in reads:
            if at == k and b.real:
                i %= len(b.real)
                j %= len(b.real)
                expr.observe(what, b.real[i], b.real[j])
                if mode:
                    s = snap(b, b.real[i])
                    if i in snaps and not eqsnap(snaps[i], s):
                        return 'object %d changed after step %d: %r, then %r' % (i, k, snaps[i], s)
                    snaps[i] = s
    for (at, what, i, j, mode) in reads2:
        i %= len(b.real)
        j %= len(b.real)
        before = snap(b, b.real[i])
        jb = snap(b, b.real[j])
        expr.observe(what, b.real[i], b.real[j])
        if not eqsnap(before, snap(b, b.real[i])) or not eqsnap(jb, snap(b, b.real[j])):
            return '%s changed an object' % what
    for i, s in snaps.items():
        if not eqsnap(s, snap(b, b.real[i])):
            return 'object %d changed: %r, then %r' % (i, s, snap(b, b.real[i]))
    for i in range(len(a.real)):
        e = a.verify(i)
        if e:
            return 'evaluated at the end: ' + e
        e = b.verify(i)
        if e:
            return 'evaluated along the way: ' + e
    for i in range(len(a.real)):
        sa, sb = snap(a, a.real[i]), snap(b, b.real[i])
        if {k for k, v in sa[1].items() if v} != {k for k, v in sb[1].items() if v}:
            # rounding may leave or cancel a residue
            nd = a.nodes[i]
            for k in set(sa[1]) | set(sb[1]):
                if abs(sa[1].get(k, 0.) - sb[1].get(k, 0.)) > 1e-10 * nd.a.get(k, 0.) + nd.e.get(k, 0.):
                    return 'variables of object %d depend on the evaluation order' % i
    for n in range(2):
        for i in range(len(b.real)):
            s = snap(b, b.real[i])
            x = b.real[i]
            ops = [lambda: x + x, lambda: x - 1, lambda: 2 * x, lambda: -x, lambda: x == x]
            ops[(i + n) % 5]()
            if not eqsnap(s, snap(b, x)):
                return 'using object %d changed it' % i


FIXED = []


def gen(r):
    prog = expr.program(r, r.choice([4, 8, 12]))
    m = len(prog)
    reads = [(r.randrange(m), r.choice(expr.OBS), r.randrange(40), r.randrange(40), r.random() < .5)
             for _ in range(r.randint(0, 12))]
    reads2 = [(0, r.choice(expr.OBS), r.randrange(40), r.randrange(40), True) for _ in range(r.randint(0, 6))]
    return ('hist', prog, reads, reads2)
