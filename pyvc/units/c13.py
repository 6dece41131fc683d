# -*- coding: utf-8 -*-
"""C13: contracts of __copy__, __deepcopy__, __getstate__, __setstate__ under the standard copy module (executed) and the
pickle module (contract in pyvc/pickling.py)."""
from .common import *
from .. import pickling
from .c11 import nested
import uncertainties

P = progs
Variable, ASF = core.Variable, core.AffineScalarFunc
KINDS = ('asf', 'expanded', 'nested', 'constant', 'var', 'v0')


def tagged(v, name='tag'):
    object.__setattr__(v, 'tag', Opaque(name))
    return v


def make(E, kind, name='x'):
    if kind == 'v0':
        return E.v0
    if kind == 'var':
        return tagged(coll.new_variable(E, name), name + '.tag')
    if kind == 'asf':
        return coll.new_asf(E, name)
    if kind == 'expanded':
        return coll.new_asf(E, name, 'exp')
    if kind == 'unexpanded':
        return coll.new_asf(E, name, 'unexp')
    if kind == 'constant':
        x = coll.new_asf(E, name, 'exp')
        l = object.__new__(core.LinearCombination)
        object.__setattr__(l, 'linear_combo', {})
        object.__setattr__(x, '_linear_part', l)
        E.keep.append(l)
        return x
    if kind == 'nested':
        return nested(E, name)
    raise ValueError(kind)


def lin(x):
    return object.__getattribute__(x, '_linear_part')


def same_fields(E, label, y, x, cls=None):
    """Same type, nominal value and, for variables, standard deviation and tag."""
    if not E.ensure(label + ': type', type(y) is (cls or type(x)), show(y)):
        return False
    if not E.ensure(label + ': linear part', isinstance(lin(y), core.LinearCombination) and coll.complete(E, lin(y)), 'incomplete'):
        return False
    same_num(E, label + ': nominal value', slot(y, '_nominal_value'), slot(x, '_nominal_value'))
    if isinstance(x, Variable):
        a, b = slot(y, '_std_dev'), slot(x, '_std_dev')
        if not E.ensure(label + ': standard deviation', is_num(a) and issubclass(E.type_of(a), float), show(a)):
            return False
        same_num(E, label + ': standard deviation', a, b)
        E.ensure(label + ': tag', slot(y, 'tag') is slot(x, 'tag'), show(slot(y, 'tag')))
    return True


def slot(o, n):
    return coll.slot(o, n)


def own(E, label, v):
    """A variable depends on itself only, with derivative 1."""
    d = run(E, P.get_derivatives, v)
    if E.ensure(label + ': derivatives', d[0] == 'ok' and isinstance(d[1], dict) and id(d[1]) not in E.side, show(d)):
        ks = list(d[1])
        E.ensure(label + ': depends on itself only', len(ks) == 1 and ks[0] is v and same_const(float(d[1][ks[0]]), 1.), '%d variables' % len(ks))


def variables_of(E, lc, seen=None):
    """Variables met in a linear combination (keys of its concrete dicts, known keys of its symbolic maps and lists)."""
    out = []
    ids = {}
    for o in E.keep:
        if isinstance(o, Variable):
            ids[id(o)] = o

    def go(lc):
        c = slot(lc, 'linear_combo')
        s = E.side.get(id(c))
        if c is None:
            return
        if isinstance(s, coll.MapSide):
            out.extend(ids.get(k) for k, r in s.memo.items() if r[0])
        elif isinstance(s, coll.LinSide):
            out.extend(ids.get(k) for k in s.at)
        elif isinstance(c, dict):
            out.extend(c)
        else:
            for f, e in c:
                go(e)
    go(lc)
    return out


def copy_computed(kind):
    """copy.copy of a computed quantity: same dependence on the same variables."""
    def h(E):
        coll.setup(E)
        x = make(E, kind)
        want = coll.den(E, lin(x))
        fr = Frame(E, x, E.v0)
        r = run(E, P.do_copy, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            y = r[1]
            if same_fields(E, 'copy', y, x, ASF):
                E.ensure('same dependence on every variable', coll.den(E, lin(y)) == want)
                E.ensure('another object', y is not x)
            # the copy is not affected by uses of the original
            run(E, P.get_derivatives, x)
            E.ensure('still the same dependence after the original was used', coll.den(E, lin(y)) == want)
            run(E, P.get_derivatives, y)
            E.ensure('original unaffected by uses of the copy', coll.den(E, lin(x)) == want)
            E.cover('value')
        fr.check('original unchanged')
    return h


def copy_variable(prog, kind):
    def h(E):
        coll.setup(E)
        tagged(E.v0, 'v0.tag')
        x = make(E, kind)
        fr = Frame(E, x, E.v0)
        mark = len(E.births)
        r = run(E, prog, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            y = r[1]
            if same_fields(E, 'copy', y, x, Variable):
                E.ensure('a new variable', y is not x and y is not E.v0 and E.births.get(id(y), -1) >= mark)
                E.ensure('independent of the original', coll.den(E, lin(y)) == coll.ZERO)
                own(E, 'copy', y)
                own(E, 'original', x)
            E.cover('value')
        fr.check('original unchanged')
    return h


def deepcopy_computed(kind):
    """New variables (same values, standard deviations, tags) with the same coefficients."""
    def h(E):
        coll.setup(E)
        tagged(E.v0, 'v0.tag')
        x = make(E, kind)
        before = coll.den(E, lin(x))
        fr = Frame(E, x, E.v0)
        mark = len(E.births)
        r = run(E, P.do_deepcopy, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            y = r[1]
            if same_fields(E, 'deep copy', y, x, ASF):
                E.ensure('independent of the variables of the original', coll.den(E, lin(y)) == coll.ZERO)
                new = []
                for v in variables_of(E, lin(y)):
                    if not any(v is w for w in new):
                        new.append(v)
                old = [E.v0] + [k for k, k2, a, b, d in E.copies if isinstance(k, Variable) and k is not E.v0]
                twins = 0
                for v in new:
                    if not E.ensure('variables of the copy are new', type(v) is Variable and E.births.get(id(v), -1) >= mark, show(v)):
                        continue
                    src = [o for o in old if slot(v, 'tag') is slot(o, 'tag')]
                    if E.ensure('same tag as a variable of the original', len(src) == 1, show(v)):
                        same_fields(E, 'variable of the copy', v, src[0])
                        if src[0] is E.v0:
                            twins += 1
                            E.ensure('same coefficient', coll.den_at(E, lin(y), v) == before)
                        own(E, 'variable of the copy', v)
                E.ensure('one new variable per variable', twins <= 1)
                if twins == 0:
                    E.ensure('no variable is lost', before == coll.ZERO)
            E.cover('value')
        fr.check('original unchanged')
    return h


def pickled(kinds, protocol):
    """Quantities pickled together (with an arbitrary variable v0): same values, correlations kept, all variables new."""
    def h(E):
        coll.setup(E)
        tagged(E.v0, 'v0.tag')
        xs = [make(E, k, 'xyz'[i]) for i, k in enumerate(kinds)]
        before = [coll.den(E, lin(x)) for x in xs]
        fr = Frame(E, *(xs + [E.v0]))
        mark = len(E.births)
        try:
            ys = pickling.roundtrip(E, tuple(xs) + (E.v0,), protocol)
        except EN.EngineSignal:
            raise
        except Exception as e:
            interp.guard(e)
            E.ensure('no exception', False, show(e))
            return
        w = ys[-1]
        if same_fields(E, 'variable', w, E.v0, Variable):
            E.ensure('a new variable', w is not E.v0)
            own(E, 'variable', w)
            for x, y, d in zip(xs, ys, before):
                if same_fields(E, 'quantity', y, x):
                    if x is E.v0:
                        E.ensure('the same object', y is w)
                        continue
                    E.ensure('another object', y is not x)
                    E.ensure('independent of the variables of the originals', coll.den(E, lin(y)) == coll.ZERO)
                    E.ensure('same derivative with respect to the unpickled variable', coll.den_at(E, lin(y), w) == d)
                    if isinstance(x, Variable):
                        own(E, 'unpickled variable', y)
            for i in range(len(xs)):
                for j in range(i):
                    E.ensure('identity is kept', (ys[i] is ys[j]) == (xs[i] is xs[j]))
            E.cover('value')
        fr.check('originals unchanged')
    return h


ATTRS = {'SubDict': ('extra', 'other', 'x1'), 'SubSlots': ('extra', 'other'), 'SubStr': ('extra',), 'SubPrivate': ('extra',),
         'SubBoth': ('extra', 'other', 'third', 'free'), 'AffSlots': ('extra', 'other'), 'AffDict': ('extra', 'zz')}


def subclass(name, protocol, given):
    """Instance attributes of user subclasses (in slots or in the instance dictionary)."""
    def h(E):
        coll.setup(E)
        cls = getattr(P, name)
        base = coll.new_variable(E, 'x') if issubclass(cls, Variable) else coll.new_asf(E, 'x')
        x = object.__new__(cls)
        E.keep.append(x)
        for n in ('_nominal_value', '_linear_part', '_std_dev', 'tag'):
            try:
                object.__setattr__(x, n, object.__getattribute__(base, n))
            except AttributeError:
                pass
        if issubclass(cls, Variable):
            object.__setattr__(lin(x), 'linear_combo', {x: 1.})
            tagged(x)
        attrs = {}
        for i, a in enumerate(ATTRS[name]):
            if given >> (i % 2) & 1:
                attrs[a] = Opaque('value of ' + a)
                object.__setattr__(x, a, attrs[a])
        want = coll.den(E, lin(x))
        fr = Frame(E, x, E.v0)
        try:
            if protocol == 'copy':
                y = E.call(P.do_copy, (x,), {})
                w = E.v0
            else:
                y, w = pickling.roundtrip(E, (x, E.v0), protocol)
        except EN.EngineSignal:
            raise
        except Exception as e:
            interp.guard(e)
            E.ensure('no exception', False, show(e))
            return
        if same_fields(E, 'copy', y, x):
            for a in ATTRS[name]:
                try:
                    v = object.__getattribute__(y, a)
                except AttributeError:
                    v = None
                E.ensure('attribute ' + a, v is attrs.get(a), show(v))
            E.ensure('same dependence', (coll.den(E, lin(y)) if protocol == 'copy' else coll.den_at(E, lin(y), w)) == want)
            if issubclass(cls, Variable):
                own(E, 'copy', y)
            E.cover('value')
        for a in ATTRS[name]:
            try:
                v = object.__getattribute__(x, a)
            except AttributeError:
                v = None
            E.ensure('attribute of the original', v is attrs.get(a), show(v))
        fr.check('original unchanged')
    return h


UNITS = {}
C = {'covers': ('value',)}
for _k in ('asf', 'expanded', 'unexpanded', 'nested', 'constant'):
    UNITS['copy of %s' % _k] = (copy_computed(_k), C)
    if _k != 'asf':
        UNITS['deepcopy of %s' % _k] = (deepcopy_computed(_k), C)
for _k in ('var', 'v0'):
    for _p in ('do_copy', 'do_deepcopy'):
        UNITS['%s of %s' % (_p, _k)] = (copy_variable(getattr(P, _p), _k), C)
for _pr in range(6):
    for _k in (('expanded',), ('unexpanded',), ('nested',), ('constant',), ('var',), ('v0',), ('var', 'v0'), ('expanded', 'var'), ('expanded', 'expanded'),
               ('nested', 'unexpanded')):
        UNITS['pickle %s, protocol %d' % (', '.join(_k), _pr)] = (pickled(_k, _pr), C)
for _n in ATTRS:
    for _g in (1, 2, 3, 0):
        for _pr in (0, 2, 5) + (('copy',) if _n.startswith('Aff') else ()):
            UNITS['attributes of %s (%d), %s' % (_n, _g, _pr)] = (subclass(_n, _pr, _g), C)
