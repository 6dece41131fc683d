# -*- coding: utf-8 -*-
"""C11: frame conditions: no reading operation changes a quantity (relative to an arbitrary variable v0).

For every operation: nominal value, linear part (coefficient of v0), stored standard deviation and tag of the operands,
of an unrelated quantity, of a quantity sharing the same linear part and of a quantity computed from the operand are
unchanged, whatever the state of evaluation.  (The frame conditions of the operators, of the umath functions and of
wrapped functions are obligations of the units of C03, C04 and C06.)
"""
from .common import *
import uncertainties

P = progs
SPECS = ['', '.2u', '.3f', '.2e', 'S', 'P', '10.1f', '%']
UNARY = {'n': P.get_n, 'nominal_value': P.get_nominal_value, 's': P.get_s, 'std_dev': P.get_std_dev, 'derivatives': P.get_derivatives,
         'error_components': P.error_components, 'bool': P.to_bool, 'truth test': P.test, 'str': P.do_str, 'repr': P.do_repr,
         'copy': P.do_copy, 'deepcopy': P.do_deepcopy, '__getstate__': P.do_getstate, 'helpers': P.helpers,
         'covariance_matrix': P.do_cov1, 'negation': P.neg, 'abs': P.absolute}
BINARY = {'<': P.lt, '<=': P.le, '>': P.gt, '>=': P.ge, '==': P.eq, '!=': P.ne, 'x - y': P.diff_parts, 'covariance_matrix of 2': P.do_cov,
          'in a list': P.in_list, '+=': P.iadd, '*=': P.imul}


def text_contracts(E):
    """The formatting helpers receive numbers and strings only: they cannot reach a quantity."""
    # digit positions only select the branch of __format__: each branch is taken with sampled positions
    E.contracts[core.first_digit] = lambda E, a, k: (-7, 0)[E.choose(2, 'digit')]
    E.contracts[core.signif_dgt_to_limit] = lambda E, a, k: -3
    E.contracts[core.PDG_precision] = lambda E, a, k: (2, SFloat(E.fresh('std')))
    from ..strings import SStr, Tok
    E.contracts[core.format_num] = lambda E, a, k: SStr(Tok('raw', 'text'))
    E.assumptions['first_digit, signif_dgt_to_limit, PDG_precision and format_num only receive numbers and strings'] = 1


def world(E, x, y=None):
    """Quantities that share something with x."""
    lc = object.__getattribute__(x, '_linear_part')
    al = object.__new__(core.AffineScalarFunc)
    object.__setattr__(al, '_nominal_value', E.real('alias'))
    object.__setattr__(al, '_linear_part', lc)
    d = object.__new__(core.AffineScalarFunc)
    object.__setattr__(d, '_nominal_value', E.real('dependent'))
    l2 = object.__new__(core.LinearCombination)
    c = E.real('c')
    object.__setattr__(l2, 'linear_combo', [(c, lc)])
    object.__setattr__(d, '_linear_part', l2)
    E.keep.extend([al, d, l2])
    other = coll.new_asf(E, 'other')
    return Frame(E, *([x, al, d, other, E.v0] + ([y] if y is not None else [])))


def operation(prog, kinds, spec=None):
    def h(E):
        coll.setup(E)
        std_contract(E) if prog not in (P.get_s, P.get_std_dev, P.error_components, P.get_derivatives) else None
        text_contracts(E)
        expand = prog in (P.do_cov, P.do_cov1)
        if expand:
            expand_contract(E)
        if prog not in (P.do_deepcopy, P.do_cov, P.do_cov1):
            E.sum_nonfinite = True
        xs = [operand(E, 'xy'[i], k)[0] for i, k in enumerate(kinds)]
        fr = world(E, *xs)
        r = run(E, prog, *(xs + ([spec] if spec is not None else [])))
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.cover('value')
        fr.check()
        d = run(E, P.get_derivatives, xs[0])
        if d[0] == 'ok':
            E.ensure('same derivatives afterwards', coll.den_of(E, d[1]) == fr.rec[0][3])
    return h


def nested(E, name):
    """A quantity whose linear part is a list of lists of (arbitrary) expanded parts."""
    def lc(content):
        l = object.__new__(core.LinearCombination)
        object.__setattr__(l, 'linear_combo', content)
        E.keep.append(l)
        return l
    a, b = coll.new_lc(E, name + '.a', 'exp'), coll.new_lc(E, name + '.b', 'exp')
    x = object.__new__(core.AffineScalarFunc)
    E.keep.append(x)
    object.__setattr__(x, '_nominal_value', E.real(name))
    inner = lc([(E.real('k1'), a), (E.real('k2'), E.v0._linear_part), (E.real('k3'), b)])
    object.__setattr__(x, '_linear_part', lc([(E.real('k4'), inner), (E.real('k5'), a)]))
    return x


def deepcopy_unit(kind):
    def h(E):
        coll.setup(E)
        x = coll.new_asf(E, 'x', 'exp') if kind == 'expanded' else nested(E, 'x')
        fr = world(E, x)
        r = run(E, P.do_deepcopy, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.cover('value')
        fr.check()
    return h


def lookup_unit(kind):
    """Looking up the derivative with respect to a variable (KeyError if the quantity does not depend on it) adds nothing."""
    def h(E):
        coll.setup(E)
        x = operand(E, 'x', kind)[0]
        fr = world(E, x)
        r = run(E, P.lookup, x, E.v0)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            b, f, a, c = r[1]
            E.ensure('found if and only if present', b is f, show(r))
            E.ensure('same set of variables afterwards', a is b and c is b, show(r))
            E.cover('present' if b else 'absent')
        fr.check()
    return h


UNITS = {}
for _k in ('asf', 'var'):
    UNITS['derivative look-up in %s' % _k] = (lookup_unit(_k), {'covers': ('present', 'absent') if _k == 'asf' else ('absent',)})
UNITS['deepcopy of asf (expanded)'] = (deepcopy_unit('expanded'), {'covers': ('value',)})
UNITS['deepcopy of asf (two levels of terms)'] = (deepcopy_unit('nested'), {'covers': ('value',)})
for _n, _p in UNARY.items():
    for _k in ('asf', 'var'):
        if (_n, _k) == ('deepcopy', 'asf'):
            continue
        UNITS['%s of %s' % (_n, _k)] = (operation(_p, (_k,)), {'covers': ('value',)})
UNITS['hash of var'] = (operation(P.do_hash, ('var',)), {'covers': ('value',)})
for _s in SPECS:
    UNITS['format %r' % _s] = (operation(P.do_format, ('asf',), _s), {'covers': ('value',), 'FEAS_TIMEOUT': 100})
for _n, _p in BINARY.items():
    for _k in (('asf', 'asf'), ('var', 'asf')):
        UNITS['%s of %s, %s' % ((_n,) + _k)] = (operation(_p, _k), {'covers': ('value',)})
