# -*- coding: utf-8 -*-
"""C03: contracts of the operator methods of AffineScalarFunc (created by wrap()).

For every operand kind (arbitrary variable, arbitrary computed quantity -- evaluated or not --, float, int)
on each side:  the result has nominal value  float(x) op float(y)  (or the same exception class), its linear
part is  dx * lin(x) + dy * lin(y)  with the mathematical partial derivatives dx, dy, and the operands are
unchanged.
"""
from .common import *

OPS = ['+', '-', '*', '/', '//', '%', '**']
INPLACE = {'+': progs.iadd, '-': progs.isub, '*': progs.imul, '/': progs.itruediv, '//': progs.ifloordiv, '%': progs.imod,
           '**': progs.ipow}
UNSPEC = object()


def spec(E, op, x, y):
    """Partial derivatives (terms, NaN, or UNSPEC) at finite (x, y) where x op y is defined; may fork."""
    one, zero = real(1), real(0)
    if op == '+':
        return one, one
    if op == '-':
        return one, -one
    if op == '*':
        return y, x
    if op == '/':
        return one / y, -x / (y * y)
    if op == '//':
        return zero, zero
    if op == '%':
        return one, -z3.ToReal(z3.ToInt(x / y))
    # power
    if E.decide(y == 0):
        dx = zero
    elif E.decide(x == 0):
        # x**y near 0: derivative of x**n for an integer n, undefined for y < 1, one-sided (unspecified) otherwise
        if E.decide(z3.IsInt(y)):
            dx = one if E.decide(y == 1) else zero
        else:
            dx = NAN if E.decide(y < 1) else UNSPEC
    else:
        dx = y * E.float_pow(x, y - 1).t
    if E.decide(x > 0):
        dy = E.fn('log', x) * E.float_pow(x, y).t
    elif E.decide(x == 0) and E.decide(y > 0):
        dy = zero
    else:
        dy = NAN
    return dx, dy


def check_result(E, res, nom, parts):
    """parts: list of (linear combination, expected coefficient)."""
    if not E.ensure('type of the result', isinstance(res, core.AffineScalarFunc), show(res)):
        return
    same_num(E, 'nominal value', object.__getattribute__(res, '_nominal_value'), nom)
    E.ensure('nominal value is a float', E.type_of(object.__getattribute__(res, '_nominal_value')) is float)
    cs = coefficients(E, res)
    ids = set(id(lc) for lc, d in parts)
    for k in cs:
        E.ensure('no other dependence', k in ids or E.decide(E.term(cs[k]) == 0), 'coefficient %r' % (cs[k],))
    for i, (lc, d) in enumerate(parts):
        if d is UNSPEC:
            continue
        got = cs.get(id(lc), 0.)
        if is_nan(d):
            E.ensure('derivative %d is NaN where undefined' % i, is_nan(got), 'got %r' % (got,))
        else:
            if not is_num(got) or (isinstance(got, float) and not finite_const(got)):
                E.ensure('derivative %d' % i, False, 'got %r' % (got,))
            else:
                E.ensure('derivative %d' % i, E.term(got) == d)


def binary(op, lk, rk, how='plain'):
    def h(E):
        coll.setup(E)
        x, nx, lx = operand(E, 'x', lk)
        y, ny, ly = (x, nx, lx) if rk == 'same' else operand(E, 'y', rk)
        fr = Frame(E, x, y)
        # what floats give
        try:
            want = ('ok', E.float_slot(float, '__%s__' % ops.BINOPS[op][0], (E.to_float(nx), ny), {}))
            if want[1] is NotImplemented:
                raise Unsupported('float operator')
        except Exception as e:
            want = ('exc', e)
        got = run(E, INPLACE[op], x, y) if how == 'inplace' else run(E, E.binop, op, x, y) if False else op_run(E, op, x, y)
        if want[0] == 'ok' and isinstance(want[1], SComplex):
            E.cover('complex')
            E.ensure('complex powers raise ValueError', got[0] == 'exc' and type(got[1]) is ValueError, show(got))
        elif want[0] == 'exc':
            E.cover('exception')
            E.ensure('same exception as floats', got[0] == 'exc' and type(got[1]) is type(want[1]), '%s instead of %s' % (show(got), show(want)))
        elif E.ensure('no exception', got[0] == 'ok', show(got)):
            E.cover('value')
            parts = []
            if all(isinstance(n, SNum) for n in (nx, ny)):
                dx, dy = spec(E, op, E.term(nx), E.term(ny))
                if rk == 'same':
                    if dx is UNSPEC or dy is UNSPEC:
                        d = UNSPEC
                    elif is_nan(dx) or is_nan(dy):
                        d = NAN
                    else:
                        d = dx + dy
                    parts = [(lx, d)]
                else:
                    parts = [(lx, dx)] if lx is not None else []
                    parts += [(ly, dy)] if ly is not None else []
            check_result(E, got[1], want[1], parts)
        fr.check()
    return h


def op_run(E, op, x, y):
    try:
        return ('ok', E.binop(op, x, y))
    except Exception as e:
        return ('exc', e)


def unary(name):
    prog = {'neg': progs.neg, 'pos': progs.pos, 'abs': progs.absolute, 'trunc': progs.trunc}[name]

    def h(E):
        coll.setup(E)
        kind = ('var', 'asf')[E.choose(2, 'kind')]
        x, nx, lx = operand(E, 'x', kind)
        fr = Frame(E, x)
        t = nx.t
        got = run(E, prog, x)
        if E.ensure('no exception', got[0] == 'ok', show(got)):
            if name == 'neg':
                nom, d = SFloat(-t), real(-1)
            elif name == 'pos':
                nom, d = nx, real(1)
            elif name == 'abs':
                nom = SFloat(z3.If(t >= 0, t, -t))
                d = UNSPEC if E.decide(t == 0) else z3.If(t > 0, real(1), real(-1))
            else:
                nom, d = SFloat(z3.If(t >= 0, z3.ToReal(z3.ToInt(t)), -z3.ToReal(z3.ToInt(-t)))), real(0)
            check_result(E, got[1], nom, [(lx, d)])
            E.cover('value')
        fr.check()
    return h


UNITS = {}
for _op in OPS:
    for _l, _r in (('var', 'asf'), ('asf', 'var'), ('asf', 'asf'), ('var', 'var'), ('asf', 'float'), ('float', 'asf'), ('asf', 'int'),
                   ('int', 'asf'), ('asf', 'same'), ('var', 'float'), ('int', 'var')):
        if _l in ('float', 'int') or _r in ('float', 'int', 'same') or (_l, _r) == ('asf', 'asf') or _op in '+-**':
            UNITS['%s %s %s' % (_l, _op, _r)] = (binary(_op, _l, _r), {'covers': ('value',)})
    for _r in ('asf', 'float'):
        UNITS['asf %s= %s' % (_op, _r)] = (binary(_op, 'asf', _r, 'inplace'), {'covers': ('value',)})
for _n in ('neg', 'pos', 'abs', 'trunc'):
    UNITS[_n] = (unary(_n), {'covers': ('value',)})
