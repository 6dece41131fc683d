# -*- coding: utf-8 -*-
"""C12: contracts of ufloat(), ufloat_fromstr() and its obsolete forms, Variable, the std_dev setter, set_std_dev()."""
from .common import *
from ..strings import SStr, Tok
import uncertainties

P = progs
VALUES = ('real', 'int', 'bool', 'nan', 'inf', '-inf', 'object')
STDS = ('real', 'int', 'bool', 'nan', 'inf', '-inf', 'zero')


def value(E, name, kind):
    """(argument, number it denotes)."""
    if kind == 'real':
        x = E.real(name)
        return x, x
    if kind == 'int':
        x = E.integer(name)
        return x, SFloat(E.term(x))
    if kind == 'bool':
        return True, 1.
    if kind == 'zero':
        return 0., 0.
    if kind == 'object':
        # any object that float() can convert
        x = E.real(name)
        return Opaque(name, attrs={'float': lambda E: SFloat(x.t), 'closed': True}), x
    return float(kind), float(kind)


def negative(E, s):
    if isinstance(s, Sym):
        return E.decide(E.term(s) < 0)
    return s < 0


def check_variable(E, x, n, s, tag, mark):
    if not E.ensure('a Variable', type(x) is core.Variable, show(x)):
        return
    E.ensure('a new object', id(x) in E.births and E.births[id(x)] >= mark, show(x))
    nv = object.__getattribute__(x, '_nominal_value')
    E.ensure('nominal value is a float', E.type_of(nv) is float, show(nv))
    same_num(E, 'nominal value', nv, n)
    sd = object.__getattribute__(x, '_std_dev')
    E.ensure('standard deviation is a float', issubclass(E.type_of(sd), float), show(sd))
    same_num(E, 'standard deviation', sd if isinstance(sd, Sym) else float(sd), s)
    E.ensure('tag', object.__getattribute__(x, 'tag') is tag, show(object.__getattribute__(x, 'tag')))
    E.ensure('independent of every other variable', coll.den(E, object.__getattribute__(x, '_linear_part')) == coll.ZERO)
    d = run(E, P.get_derivatives, x)
    if E.ensure('derivatives', d[0] == 'ok' and isinstance(d[1], dict), show(d)):
        c = d[1]
        E.ensure('depends on itself only, with derivative 1', len(c) == 1 and list(c)[0] is x and type(c[x]) is float and c[x] == 1., show(c))
    r = run(E, P.get_nominal_value, x)
    same_num(E, 'x.nominal_value', r[1] if r[0] == 'ok' else None, n)
    r = run(E, P.get_std_dev, x)
    same_num(E, 'x.std_dev', r[1] if r[0] == 'ok' and isinstance(r[1], Sym) else float(r[1]), s)


def create(prog, vk, sk, withtag, warns=False):
    def h(E):
        coll.setup(E)
        v, n = value(E, 'v', vk)
        s, sn = value(E, 's', sk)
        tag = Opaque('tag')
        other = coll.new_asf(E, 'other')
        fr = Frame(E, E.v0, other)
        mark = len(E.births)
        r = run(E, prog, v, s, tag)
        if negative(E, sn):
            E.ensure('negative standard deviation rejected', r[0] == 'exc' and type(r[1]) is core.NegativeStdDev, show(r))
            E.cover('rejected')
        elif E.ensure('no exception', r[0] == 'ok', show(r)):
            check_variable(E, r[1], n, sn, tag if withtag else None, mark)
            E.cover('value')
        E.ensure('warning for the obsolete forms only', bool(E.warned) == (warns and r[0] == 'ok'), '%d' % len(E.warned))
        fr.check('other quantities unchanged')
    return h


def two(prog):
    """Two creations give distinct, mutually independent variables."""
    def h(E):
        coll.setup(E)
        a = run(E, prog, E.real('v'), 0.5, None)
        b = run(E, prog, E.real('v'), 0.5, None)
        if E.ensure('no exception', a[0] == b[0] == 'ok', show(a) + show(b)):
            a, b = a[1], b[1]
            E.ensure('distinct', a is not b)
            da, db = run(E, P.get_derivatives, a)[1], run(E, P.get_derivatives, b)[1]
            E.ensure('independent', not any(k is b for k in da) and not any(k is a for k in db) and da is not db)
            ha, hb = run(E, P.do_hash, a), run(E, P.do_hash, b)
            E.ensure('hash identifies the variable', ha == ('ok', id(a)) and hb == ('ok', id(b)), show((ha, hb)))
            E.cover('value')
    return h


def text(prog, withtag, warns):
    """Strings: the parser is used through its contract (C17): two numbers, or ValueError."""
    def h(E):
        coll.setup(E)
        t = SStr(Tok('raw', 'text'))
        E.str_hook = lambda E, me, name, args, kw: (me if name == 'strip' and not args else NotImplemented)
        tag = Opaque('tag', cls=str, attrs={'closed': True})
        plain = E.choose(2, 'float() accepts the text')
        vn, vs = E.any_float('n'), E.any_float('s')
        state = {}

        def float_of_str(E, s):
            if plain:
                return vn
            raise ValueError('could not convert string to float')
        E.float_of_str = float_of_str
        bad = E.choose(2, 'invalid')

        def parser(E, args, kw):
            state['arg'] = args[0]
            if bad:
                raise ValueError('invalid')
            return (vn, vs)
        E.contracts[core.str_to_number_with_uncert] = parser
        fr = Frame(E, E.v0)
        mark = len(E.births)
        r = run(E, prog, t, tag)
        E.ensure('the text itself is parsed', state.get('arg') is t or state.get('arg') == t, show(state))
        if bad:
            E.ensure('ValueError', r[0] == 'exc' and isinstance(r[1], ValueError), show(r))
            E.cover('invalid')
        elif negative(E, vs):
            E.ensure('negative standard deviation rejected', r[0] == 'exc' and type(r[1]) is core.NegativeStdDev, show(r))
            E.cover('rejected')
        elif E.ensure('no exception', r[0] == 'ok', show(r)):
            check_variable(E, r[1], vn, vs, tag if withtag else None, mark)
            E.cover('value')
        E.ensure('warning for the obsolete forms only', bool(E.warned) == (warns and r[0] == 'ok'), '%d' % len(E.warned))
        fr.check('other quantities unchanged')
    return h


def assign(prog, sk, warns=False):
    def h(E):
        coll.setup(E)
        x = coll.new_variable(E, 'x')
        tag = Opaque('tag')
        object.__setattr__(x, 'tag', tag)
        s, sn = value(E, 's', sk)
        dep = coll.new_asf(E, 'dep')
        fr = Frame(E, x, E.v0, dep)
        r = run(E, prog, x, s)
        if negative(E, sn):
            E.ensure('negative standard deviation rejected', r[0] == 'exc' and type(r[1]) is core.NegativeStdDev, show(r))
            fr.check('unchanged after a rejected assignment')
            E.cover('rejected')
            return
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            r = run(E, P.get_std_dev, x)
            if E.ensure('std_dev', r[0] == 'ok', show(r)):
                same_num(E, 'assigned value', r[1] if isinstance(r[1], Sym) else float(r[1]), sn)
                E.ensure('a float', issubclass(E.type_of(r[1]), float), show(r))
            fr.rec[0][2].pop('_std_dev')
            E.cover('value')
        E.ensure('warning for the obsolete form only', bool(E.warned) == warns, '%d' % len(E.warned))
        fr.check('everything else unchanged')
    return h


def refused(prog, kind):
    def h(E):
        coll.setup(E)
        x = operand(E, 'x', kind)[0]
        fr = Frame(E, x, E.v0)
        r = run(E, prog, x, E.real('new'))
        E.ensure('AttributeError', r[0] == 'exc' and isinstance(r[1], AttributeError), show(r))
        E.cover('value')
        fr.check()
    return h


def conversion(prog, kind):
    def h(E):
        coll.setup(E)
        x = operand(E, 'x', kind)[0]
        fr = Frame(E, x, E.v0)
        r = run(E, prog, x)
        E.ensure('TypeError', r[0] == 'exc' and isinstance(r[1], TypeError), show(r))
        E.cover('value')
        fr.check()
    return h


def old_call(E):
    """x.std_dev() (obsolete) gives the same number, with a warning."""
    coll.setup(E)
    x = coll.new_variable(E, 'x')
    s = object.__getattribute__(x, '_std_dev')
    r = run(E, P.call_std, x)
    if E.ensure('no exception', r[0] == 'ok', show(r)):
        same_num(E, 'same number', r[1], s)
        E.ensure('warning', bool(E.warned))
        E.cover('value')


def retag(E):
    coll.setup(E)
    x = coll.new_variable(E, 'x')
    t = Opaque('tag')
    fr = Frame(E, x, E.v0)
    fr.rec[0][2].pop('tag')
    r = run(E, P.set_tag, x, t)
    E.ensure('tag assigned', r[0] == 'ok' and object.__getattribute__(x, 'tag') is t, show(r))
    fr.check()
    E.cover('value')


UNITS = {}
NEW = (('new_pos', False), ('new_postag', True), ('new_kw', True), ('new_kwtag', True), ('new_cls', True), ('new_clskw', True))
OLD = (('old_tuple', False), ('old_tuple_tag', True), ('old_tuple_kw', True))


def cov(sk):
    return {'-inf': ('rejected',)}.get(sk, ('value', 'rejected') if sk in ('real', 'int') else ('value',))


for _p, _t in NEW:
    for _v in VALUES:
        for _s in STDS:
            if _p in ('new_postag', 'new_cls') or _v == 'real' or _s == 'real':
                UNITS['%s %s %s' % (_p, _v, _s)] = (create(getattr(P, _p), _v, _s, _t), {'covers': cov(_s)})
for _p, _t in OLD:
    for _v in VALUES:
        for _s in STDS:
            if _p == 'old_tuple_tag' or _v == 'real':
                UNITS['%s %s %s' % (_p, _v, _s)] = (create(getattr(P, _p), _v, _s, _t, True), {'covers': cov(_s)})
for _p in ('new_pos', 'new_cls'):
    UNITS['two creations, %s' % _p] = (two(getattr(P, _p)), {'covers': ('value',)})
for _p, _t in (('old_str', False), ('old_str_tag', True), ('old_str_kw', True), ('from_str', False), ('from_str_tag', True), ('from_str_kw', True)):
    UNITS['%s of text' % _p] = (text(getattr(P, _p), _t, _p.startswith('old')), {'covers': ('value', 'rejected', 'invalid')})
for _p in ('set_std_dev', 'setattr_std_dev', 'old_set_std_dev'):
    for _s in STDS:
        UNITS['%s %s' % (_p, _s)] = (assign(getattr(P, _p), _s, _p.startswith('old')), {'covers': cov(_s)})
for _p in ('set_nominal', 'set_n'):
    for _k in ('var', 'asf'):
        UNITS['%s of %s' % (_p, _k)] = (refused(getattr(P, _p), _k), {'covers': ('value',)})
UNITS['set_std_dev of a computed quantity'] = (refused(P.set_std_dev, 'asf'), {'covers': ('value',)})
for _p in ('to_int', 'to_float', 'to_complex'):
    for _k in ('var', 'asf'):
        UNITS['%s of %s' % (_p, _k)] = (conversion(getattr(P, _p), _k), {'covers': ('value',)})
UNITS['obsolete std_dev()'] = (old_call, {'covers': ('value',)})
UNITS['tag of a variable'] = (retag, {'covers': ('value',)})
