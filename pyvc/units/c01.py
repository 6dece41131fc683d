# -*- coding: utf-8 -*-
"""C01: contract of LinearCombination.expand() and of the derivatives property; chain rule of computations.

Everything is relative to an arbitrary variable v0.  The contracts of C03 / C04 / C06 give, for each operation, a
linear part  sum_i d_i * lin(operand_i); the contract of expand() (any nesting, any number of terms) preserves the
coefficient of v0.  The chain rule for every computation follows by induction on the computation; the programs below
are instances discharged directly.
"""
from .common import *


def expansion(how):
    """derivatives / expand() give the coefficient den(linear part)(v0), for any nesting and length."""
    def h(E):
        coll.setup(E)
        x = coll.new_asf(E, 'x', None if how != 'expand' else 'unexp')
        lc = object.__getattribute__(x, '_linear_part')
        d0 = coll.den(E, lc)
        y = coll.new_asf(E, 'y')
        fr = Frame(E, x, y, E.v0)
        if how == 'expand':
            r = run(E, progs.expand, lc)
        else:
            r = run(E, {'once': progs.get_derivatives, 'twice': progs.get_derivatives_twice}[how], x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            c = coll.slot(lc, 'linear_combo')
            E.ensure('expanded into a dict', isinstance(c, dict), show(c))
            E.ensure('coefficient of an arbitrary variable', coll.den_of(E, c) == d0)
            if how != 'expand':
                E.ensure('derivatives is a dict', isinstance(r[1], dict), show(r[1]))
                E.ensure('derivative with respect to an arbitrary variable', coll.den_of(E, r[1]) == d0)
            E.cover('value')
        fr.check()
    return h


def variable_derivatives(E):
    """A variable has derivative 1 with respect to itself, and no other."""
    coll.setup(E)
    v = coll.new_variable(E, 'v')
    for x, want in ((E.v0, 1), (v, 0)):
        r = run(E, progs.get_derivatives, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.ensure('derivative', coll.den_of(E, r[1]) == want)
    E.cover('value')


def constant_derivatives(E):
    coll.setup(E)
    c = run(E, core.to_affine_scalar, (E.real('c'), E.integer('i'))[E.choose(2, 'kind')])
    if E.ensure('no exception', c[0] == 'ok', show(c)):
        r = run(E, progs.get_derivatives, c[1])
        E.ensure('no derivative', r[0] == 'ok' and isinstance(r[1], dict) and len(r[1]) == 0, show(r))
        E.cover('value')


def absolute(E, t):
    return z3.If(t >= 0, t, -t)


PROGS = {  # name -> (program, value, derivative with respect to v0, precondition)
    'x - x': (progs.c_sub_self, lambda x, y: 0 * x, lambda x, y, a, b: real(0), None),
    '2*x - x - x': (progs.c_cancel, lambda x, y: 0 * x, lambda x, y, a, b: real(0), None),
    'x*x': (progs.c_square, lambda x, y: x * x, lambda x, y, a, b: 2 * x * a, None),
    'x/x': (progs.c_ratio, lambda x, y: real(1), lambda x, y, a, b: real(0), lambda x, y: x != 0),
    '(x+y)*(x-y)': (progs.c_diff_squares, lambda x, y: x * x - y * y, lambda x, y, a, b: 2 * x * a - 2 * y * b, None),
    '((x+y)-x)-y': (progs.c_nested, lambda x, y: real(0), lambda x, y, a, b: real(0), None),
    'shared subexpression': (progs.c_shared, lambda x, y: 2 * (x + y) - (x + y) * (x + y), lambda x, y, a, b: (2 - 2 * (x + y)) * (a + b), None),
    'chain of operations': (progs.c_chain, lambda x, y: -3 * y, lambda x, y, a, b: -3 * b, None),
    '|x*y| + x': (progs.c_abs, lambda x, y: z3.If(x * y >= 0, x * y, -(x * y)) + x,
                  lambda x, y, a, b: z3.If(x * y >= 0, y * a + x * b, -(y * a + x * b)) + a, lambda x, y: x * y != 0),
    'x**2 - y**3': (progs.c_pow, lambda x, y: x * x - y * y * y, lambda x, y, a, b: 2 * x * a - 3 * y * y * b, None),
    '(x-y)/(1+x*x)': (progs.c_quot, lambda x, y: (x - y) / (1 + x * x),
                      lambda x, y, a, b: ((a - b) * (1 + x * x) - (x - y) * 2 * x * a) / ((1 + x * x) * (1 + x * x)), None),
    'derivatives read in between': (progs.c_derivs_first, lambda x, y: (x + y) * x - (x + y),
                                    lambda x, y, a, b: (a + b) * x + (x + y) * a - a - b, None),
    'components read in between': (progs.c_reads_between, lambda x, y: 2 * x * y * x * y,
                                   lambda x, y, a, b: 4 * x * y * (y * a + x * b), None),
}


def computation(name, kx, ky):
    prog, val, der, pre = PROGS[name]

    def h(E):
        coll.setup(E)
        if 'asf' in (kx, ky):
            expand_contract(E)

        def mk(n, k):
            if k == 'v0':
                return E.v0, E.v0._nominal_value
            x = (coll.new_variable if k == 'var' else lambda E, n: coll.new_asf(E, n, 'exp'))(E, n)
            return x, x._nominal_value
        x, nx = mk('x', kx)
        y, ny = mk('y', ky)
        if pre is not None:
            E.assume(pre(nx.t, ny.t))
        a = coll.den(E, object.__getattribute__(x, '_linear_part'))
        b = coll.den(E, object.__getattribute__(y, '_linear_part'))
        r = run(E, prog, x, y)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.ensure('type', isinstance(r[1], core.AffineScalarFunc), show(r[1]))
            E.ensure('nominal value', E.term(object.__getattribute__(r[1], '_nominal_value')) == val(nx.t, ny.t))
            d = run(E, progs.get_derivatives, r[1])
            if E.ensure('no exception', d[0] == 'ok', show(d)):
                E.ensure('chain rule', coll.den_of(E, d[1]) == der(nx.t, ny.t, a, b))
            E.cover('value')
    return h


UNITS = {'expand(), any nesting': (expansion('expand'), {'covers': ('value',)}),
         'derivatives': (expansion('once'), {'covers': ('value',)}),
         'derivatives twice': (expansion('twice'), {'covers': ('value',)}),
         'derivatives of a variable': (variable_derivatives, {'covers': ('value',)}),
         'derivatives of a constant': (constant_derivatives, {'covers': ('value',)})}
for _n in PROGS:
    for _k in (('v0', 'var'), ('var', 'v0'), ('v0', 'v0'), ('asf', 'asf')):
        UNITS['%s (%s, %s)' % ((_n,) + _k)] = (computation(_n, *_k), {'covers': ('value',)})
