# -*- coding: utf-8 -*-
"""C14: automatic precision (PDG rule) and the contracts of the functions that choose the last digit."""
from .fmtspec import *


def first_digit(E):
    coll.setup(E)
    fmtmod.Scale(E)
    v = E.real('v')
    r = run(E, core.first_digit, v)
    if not E.ensure('no exception', r[0] == 'ok', show(r)):
        return
    n = E.iterm(r[1])
    if E.decide(v.t == 0):
        E.ensure('0 for 0', n == 0)
        E.cover('zero')
        return
    a = z3.If(v.t >= 0, v.t, -v.t)
    E.ensure('10**n <= |v|', E.scale.pow10(n) <= a)
    E.ensure('|v| < 10**(n+1)', a < E.scale.pow10(n + 1))
    E.ensure('n is the exponent of the first digit', n == fd_of(E, v.t))
    E.cover('value')


def limit(E):
    coll.setup(E)
    sc = fmtmod.Scale(E)
    contracts(E)
    del E.contracts[core.signif_dgt_to_limit]
    v = E.real('v')
    E.assume(v.t >= 0)
    n = E.integer('n')
    E.assume(n.t >= 1)
    r = run(E, core.signif_dgt_to_limit, v, n)
    if not E.ensure('no exception', r[0] == 'ok', show(r)):
        return
    l = E.iterm(r[1])
    E.ensure('the documented limit', l == limit_of(E, v.t, n.t))
    k = sc.rhe(v.t, -l)
    if E.decide(v.t == 0):
        E.ensure('0: n digits', l == 1 - n.t)
        return
    E.ensure('at most n digits', k < sc.pint(n.t))
    E.ensure('at least n digits', k >= sc.pint(n.t - 1))
    E.cover('value')


def pdg(E):
    coll.setup(E)
    sc = fmtmod.Scale(E)
    contracts(E)
    del E.contracts[core.PDG_precision]
    s = E.real('std_dev')
    E.assume(s.t > 0)
    r = run(E, core.PDG_precision, s)
    if not E.ensure('no exception', r[0] == 'ok', show(r)):
        return
    k, eff = r[1]
    f = fd_of(E, s.t)
    d3 = z3.ToInt(sc.sc(s.t, 2 - f))
    E.ensure('three digits', z3.And(d3 >= 100, d3 <= 999))
    k2 = E.iterm(k)
    E.ensure('100-354: 2 digits', z3.Implies(d3 <= 354, z3.And(k2 == 2, E.term(eff) == s.t)))
    E.ensure('355-949: 1 digit', z3.Implies(z3.And(d3 >= 355, d3 <= 949), z3.And(k2 == 1, E.term(eff) == s.t)))
    E.ensure('950-999: rounded to 1000, 2 digits', z3.Implies(d3 >= 950, z3.And(k2 == 2, E.term(eff) == sc.pow10(f + 1))))
    kk, ee = pdg_of(E, s.t)
    E.ensure('contract of PDG_precision', z3.And(k2 == kk, E.term(eff) == ee))
    E.ensure('canonical form', z3.BoolVal(sc.of(E.term(eff))[0].eq(sc.of(ee)[0])), inv=True)
    E.cover('value')


def auto(typ, mode):
    def h(E):
        coll.setup(E)
        sc = fmtmod.Scale(E)
        contracts(E)
        D = check_format(E, 'fin', 'pos', mode, typ, {}, '')
        if D is None:
            return
        b, e = sc.of(D.eff)
        K = sc.rhe(b, e - D.L)
        k = D.k
        E.ensure('the last digit of the uncertainty is displayed', D.d >= (D.ce if D.ce is not None else 0) - D.L)
        E.ensure('significant digits (at most)', K < sc.pint(k))
        E.ensure('significant digits (at least)', K >= sc.pint(k - 1))
        if D.ce is not None:
            E.ensure('nothing is displayed beyond the last significant digit', D.d == D.ce - D.L)
        elif not E.decide(D.L > 0):
            E.ensure('nothing is displayed beyond the last significant digit', D.d == -D.L)
    return h


UNITS = {
    'contract of first_digit': (first_digit, {'covers': ('value', 'zero')}),
    'contract of signif_dgt_to_limit': (limit, {'covers': ('value',)}),
    'contract of PDG_precision': (pdg, {'covers': ('value',)}),
}
for _t in ('', 'e', 'E', 'f', 'F', 'g', 'G', '%'):
    for _m in ('', 'u'):
        UNITS['automatic precision, format %r' % (_m + _t)] = (auto(_t, _m), {'covers': ('text',)})
