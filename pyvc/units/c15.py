# -*- coding: utf-8 -*-
"""C15: displayed digits of format(x, [.prec][u]type)."""
from .fmtspec import *


def plain_format(nk, sk, mode, typ, thorough=False):
    def h(E):
        coll.setup(E)
        sc = fmtmod.Scale(E)
        contracts(E)
        D = check_format(E, nk, sk, mode, typ, {}, '')
        if D is None:
            return
        if D.control:
            b, e = sc.of(D.eff)
            K = sc.rhe(b, e - D.L)
            E.ensure('the last significant digit of the uncertainty is displayed',
                     D.d >= (D.ce if D.ce is not None else 0) - D.L)
            E.ensure('significant digits of the uncertainty (at most)', K < sc.pint(D.k))
            E.ensure('significant digits of the uncertainty (at least)', K >= sc.pint(D.k - 1))
        if D.ce is not None:
            lo = 1 if typ == '' and sk == '0' else 0
            E.ensure('decimals under the exponent', D.d == z3.If(D.ce - D.L >= lo, D.ce - D.L, lo))
            if D.k is not None:
                E.ensure('the exponent is not below the last digit', D.ce >= D.L)
    return h


UNITS = {}
for _t in ('', 'e', 'E', 'f', 'F', 'g', 'G', '%'):
    for _m in ('', 'u', 'p', 'pu'):
        for _n in NOMS:
            for _s in STDS:
                if _t in ('E', 'F', 'G') and _n in ('inf', '-inf') and _s in ('nan', 'inf'):
                    continue
                UNITS['format %r, nominal %s, std_dev %s' % (
                    {'': '', 'u': 'u', 'p': '.<p>', 'pu': '.<p>u'}[_m] + _t, _n, _s)] = (
                    plain_format(_n, _s, _m, _t), {'covers': ('text',), 'thorough': _t in ('E', 'F', 'G') and (_n, _s) not in (
                        ('fin', 'pos'), ('nan', 'pos'), ('fin', 'nan')) or 'u' in _m and _s != 'pos' or _n == 'inf'})
