# -*- coding: utf-8 -*-
"""C02: contracts of error_components(), std_dev, nominal_value(), std_dev(), std_score() and the std_dev setter.

Relative to one arbitrary variable v0 (hence for all variables), for quantities with any number of variables.
"""
from .common import *
import uncertainties

READERS = ('n', 'nominal_value', 'helper')


def comp(E, x):
    """The component of v0 according to the specification (term)."""
    d = coll.den(E, object.__getattribute__(x, '_linear_part'))
    s = E.term(object.__getattribute__(E.v0, '_std_dev'))
    p = d * s
    return z3.If(p >= 0, p, -p)


def check_components(E, x, ec, want):
    E.ensure('error_components() is a dict', isinstance(ec, dict), show(ec))
    got = coll.den_of(E, ec)
    E.ensure('component of an arbitrary variable is |derivative| * std_dev', got == want)


def components(kind):
    def h(E):
        coll.setup(E)
        x, nx, lx = make(E, kind)
        want = comp(E, x)
        fr = Frame_(E, x)
        ec = run(E, progs.error_components, x)
        if E.ensure('no exception', ec[0] == 'ok', show(ec)):
            check_components(E, x, ec[1], want)
            E.cover('value')
        fr.check('unchanged by error_components()')
    return h


def Frame_(E, *o):
    return Frame(E, *(list(o) + [E.v0]))


def make(E, kind):
    if kind == 'v0':
        return E.v0, E.v0._nominal_value, E.v0._linear_part
    return operand(E, 'x', kind)


def with_derivative(E, d):
    """A quantity with any variables, whose derivative with respect to v0 is d (any float)."""
    x = coll.new_asf(E, 'x', 'exp')
    lc = object.__getattribute__(x, '_linear_part')
    del E.abstract[id(lc)]
    m = {}
    E.keep.append(m)
    E.side[id(m)] = coll.MapSide('x', True, d)
    object.__setattr__(lc, 'linear_combo', m)
    return x


def zero_std(nonfinite):
    """A variable of zero standard deviation contributes exactly 0, even where the derivative is NaN or infinite."""
    def h(E):
        coll.setup(E)
        object.__setattr__(E.v0, '_std_dev', core.CallableStdDev(0.))
        x = with_derivative(E, nonfinite)
        ec = run(E, progs.error_components, x)
        if E.ensure('no exception', ec[0] == 'ok', show(ec)):
            s = E.side.get(id(ec[1]))
            v = s.val0 if s is not None else ec[1].get(E.v0, 0)
            E.ensure('exactly 0', is_num(v) and not isinstance(v, Sym) and v == 0, repr(v))
        n = len(E.sums)
        r = run(E, progs.get_std_dev, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            check_sum(E, n, r[1], rv(0))
            E.cover('value')
    return h


def nonfinite_component(how):
    """Component of a variable with a NaN or infinite standard deviation, or derivative."""
    def h(E):
        coll.setup(E)
        inf = float('inf')
        if how == 'std_dev':
            s = (NAN, inf)[E.choose(2, 'std')]
            d = (E.real('d'), 0., NAN, inf, -inf)[E.choose(5, 'derivative')]
        else:
            s = E.real('s')
            E.assume(s.t > 0)
            d = (NAN, inf, -inf)[E.choose(3, 'derivative')]
        object.__setattr__(E.v0, '_std_dev', core.CallableStdDev(s) if not isinstance(s, Sym) else s)
        zero = E.decide(d.t == 0) if isinstance(d, Sym) else d == 0
        want = NAN if s != s or d != d or zero else inf
        x = with_derivative(E, d)
        ec = run(E, progs.error_components, x)
        if E.ensure('no exception', ec[0] == 'ok', show(ec)):
            t = E.side.get(id(ec[1]))
            v = t.val0 if t is not None else ec[1].get(E.v0, 0)
            E.ensure('component |derivative| * std_dev', is_num(v) and not isinstance(v, Sym) and same_const(float(v), want), repr(v))
            E.cover('value')
    return h


def reread(how):
    """A new standard deviation changes the std_dev of a quantity whose std_dev was read before."""
    def h(E):
        coll.setup(E)
        x, nx, lx = make(E, 'asf')
        get = {'s': progs.get_s, 'std_dev': progs.get_std_dev}[how]
        r = run(E, get, x)
        s = E.real('new')
        E.assume(s.t >= 0)
        r = run(E, progs.set_std_dev, E.v0, s)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            p = coll.den(E, object.__getattribute__(x, '_linear_part')) * s.t
            n = len(E.sums)
            r = run(E, get, x)
            if E.ensure('no exception', r[0] == 'ok', show(r)):
                check_sum(E, n, r[1], p * p)
                E.cover('value')
    return h


def check_sum(E, n, res, want):
    """res is the square root of a sum over all variables whose term at v0 is want."""
    if len(E.sums) == n:
        # no other variable than v0 on this path
        E.ensure('square root of the term of the only variable', z3.And(E.term(res) >= 0, E.term(res) * E.term(res) == want))
        return
    if not E.ensure('a sum over the variables', len(E.sums) == n + 1, '%d sums' % (len(E.sums) - n)):
        return
    rec = E.sums[-1]
    if not rec['v0'] and not rec['u']:
        return
    t0 = coll.ZERO
    for v in rec['v0']:
        t0 = t0 + E.term(v)
    E.ensure('term of an arbitrary variable', t0 == want)
    S = rec['result']
    if isinstance(S, SNum):
        E.ensure('square root of the sum', z3.And(E.term(res) >= 0, E.term(res) * E.term(res) == E.term(S)))
    else:
        E.ensure('square root of the sum', same_const(float(res), math.sqrt(S)), '%r %r' % (res, S))


def quadrature(kind, how):
    def h(E):
        E.sum_nonfinite = True
        coll.setup(E)
        x, nx, lx = make(E, kind)
        want = comp(E, x)
        fr = Frame_(E, x)
        n = len(E.sums)
        r = run(E, {'s': progs.get_s, 'std_dev': progs.get_std_dev, 'helper': uncertainties.std_dev}[how], x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.ensure('float', issubclass(E.type_of(r[1]), float), show(r[1]))
            check_sum(E, n, r[1], want * want)
            E.cover('value')
        fr.check('unchanged by std_dev')
    return h


def var_std(how):
    """std_dev of a variable is the assigned one (any value, NaN and infinity included)."""
    def h(E):
        coll.setup(E)
        k = E.choose(3, 'std')
        s = [E.real('s'), NAN, float('inf')][k]
        if isinstance(s, SFloat):
            E.assume(s.t >= 0)
        f = Frame_(E)
        r = run(E, progs.set_std_dev, E.v0, s)
        E.ensure('no exception', r[0] == 'ok', show(r))
        r = run(E, {'s': progs.get_s, 'std_dev': progs.get_std_dev, 'helper': uncertainties.std_dev}[how], E.v0)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            same_num(E, 'assigned value', r[1] if isinstance(r[1], Sym) else float(r[1]), s)
            E.cover('value')
    return h


def nominal(how):
    def h(E):
        coll.setup(E)
        x, nx, lx = operand(E, 'x', ('asf', 'var', 'float', 'int')[E.choose(4, 'kind') if how == 'helper' else E.choose(2, 'kind')])
        fr = Frame_(E, x)
        r = run(E, {'n': progs.get_n, 'nominal_value': progs.get_nominal_value, 'helper': uncertainties.nominal_value}[how], x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            same_num(E, 'nominal value', r[1], nx)
            E.ensure('type', E.type_of(r[1]) is E.type_of(nx), show(r[1]))
            E.cover('value')
        fr.check()
    return h


def helper_std_plain(E):
    coll.setup(E)
    for v in (E.real('x'), E.integer('i'), NAN, 'text', None, Opaque('object')):
        r = run(E, uncertainties.std_dev, v)
        E.ensure('0.0 for a plain object', r[0] == 'ok' and type(r[1]) is float and r[1] == 0., show(r))
        r = run(E, uncertainties.nominal_value, v)
        E.ensure('unchanged plain object', r[0] == 'ok' and r[1] is v, show(r))
    E.cover('value')


def update(kind):
    """A new standard deviation is used at once by quantities that were already evaluated."""
    def h(E):
        coll.setup(E)
        x, nx, lx = make(E, kind)
        r = run(E, progs.get_derivatives, x)
        r = run(E, progs.error_components, x)
        s = E.real('new')
        E.assume(s.t >= 0)
        r = run(E, progs.set_std_dev, E.v0, s)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            d = coll.den(E, object.__getattribute__(x, '_linear_part'))
            p = d * s.t
            ec = run(E, progs.error_components, x)
            if E.ensure('no exception', ec[0] == 'ok', show(ec)):
                check_components(E, x, ec[1], z3.If(p >= 0, p, -p))
            E.cover('value')
    return h


def score(kind, vk):
    def h(E):
        coll.setup(E)
        std_contract(E)
        x, nx, lx = operand(E, 'x', kind)
        v, nv, lv = operand(E, 'v', vk)
        fr = Frame_(E, x)
        r = run(E, progs.std_score, x, v)
        rec = E.std_reads[-1][1] if E.std_reads else object.__getattribute__(x, '_std_dev')
        if isinstance(rec, SNum) and E.decide(rec.t == 0):
            E.ensure('ValueError for a zero std_dev', r[0] == 'exc' and type(r[1]) is ValueError, show(r))
            E.cover('zero')
        elif E.ensure('no exception', r[0] == 'ok', show(r)):
            if isinstance(rec, SNum):
                same_num(E, 'score', r[1], SFloat((E.term(nv) - nx.t) / rec.t))
            elif rec != rec:
                E.ensure('NaN', is_nan(r[1]), show(r))
            else:
                same_num(E, 'score', r[1], 0.)
            E.cover('value')
        fr.check()
    return h


UNITS = {}
for _k in ('asf', 'var', 'v0'):
    UNITS['error_components of %s' % _k] = (components(_k), {'covers': ('value',)})
    UNITS['update %s' % _k] = (update(_k), {'covers': ('value',)})
for _x in (NAN, float('inf'), float('-inf')):
    UNITS['zero std_dev, derivative %r' % _x] = (zero_std(_x), {'covers': ('value',)})
for _h in ('std_dev', 'derivative'):
    UNITS['non-finite %s, component' % _h] = (nonfinite_component(_h), {'covers': ('value',)})
for _h in ('s', 'std_dev'):
    UNITS['%s read before and after an assignment' % _h] = (reread(_h), {'covers': ('value',)})
for _h in ('s', 'std_dev', 'helper'):
    UNITS['quadrature %s' % _h] = (quadrature('asf', _h), {'covers': ('value',)})
    UNITS['std_dev of a variable, %s' % _h] = (var_std(_h), {'covers': ('value',)})
for _h in READERS:
    UNITS['nominal value %s' % _h] = (nominal(_h), {'covers': ('value',)})
UNITS['helpers on plain objects'] = (helper_std_plain, {'covers': ('value',)})
for _k in ('asf', 'var'):
    for _v in ('float', 'int'):
        UNITS['std_score %s %s' % (_k, _v)] = (score(_k, _v), {'covers': ('value', 'zero')})
