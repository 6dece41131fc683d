# -*- coding: utf-8 -*-
"""C12: creation of variables, validation, attributes, obsolete forms."""
from fractions import Fraction
from .base import *
from . import nums
import numpy
import uncertainties
from uncertainties import ufloat, UFloat
from uncertainties.core import NegativeStdDev, Variable


def num(v):
    if isinstance(v, tuple):
        if v[0] == 'frac':
            return Fraction(v[1], v[2])
        if v[0] == 'np':
            return getattr(numpy, v[1])(v[2])
    return v


def state(x):
    return (x.nominal_value, float(x.std_dev), x.tag, [(id(v), d) for v, d in x.derivatives.items()])


def same_state(a, b):
    return same(a[0], b[0]) and same(a[1], b[1]) and (a[2] is b[2] or a[2] == b[2]) and a[3] == b[3]


def verify(x, n, s, tag):
    if not isinstance(x, Variable):
        return 'not a Variable: %r' % (x,)
    if type(x.nominal_value) is not float or not same(x.nominal_value, n):
        return 'nominal value %r instead of %r' % (x.nominal_value, n)
    if not isinstance(x.std_dev, float) or not same(x.std_dev, s):
        return 'standard deviation %r instead of %r' % (x.std_dev, s)
    if x.tag is not tag and x.tag != tag:
        return 'tag %r instead of %r' % (x.tag, tag)
    d = x.derivatives
    if len(d) != 1 or list(d)[0] is not x or d[x] != 1:
        return 'derivatives %r' % (d,)
    if s == s and not close(x.error_components()[x], abs(s)):
        return 'error component'
    if s and math.isfinite(s) and not 1e-150 < s < 1e150:
        return
    f = x * 1
    if s == s and not close(f.std_dev, abs(s), 1e-12):
        return 'std_dev of x*1: %r' % f.std_dev


def obsolete(call, n, s, tag):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        x = call()
    if not w:
        return 'no warning for an obsolete form'
    return verify(x, n, s, tag)


def check(case):
    live = []
    st = []
    others = [ufloat(1., .1), ufloat(2., .5)]
    other_states = [state(o) for o in others]
    for step in case:
        k = step[0]
        if k == 'new':
            _, form, v, s, tag = step
            v, s = num(v), num(s)
            try:
                n = float(v)
            except OverflowError:
                try:
                    ufloat(v, s)
                except OverflowError:
                    continue
                return 'float() raises OverflowError but ufloat does not'
            fs = float(s)
            args = {'p': lambda: ufloat(v, s), 'pt': lambda: ufloat(v, s, tag), 'kw': lambda: ufloat(nominal_value=v, std_dev=s, tag=tag),
                    'kt': lambda: ufloat(v, std_dev=s, tag=tag), 'cls': lambda: Variable(v, s, tag),
                    'ckw': lambda: Variable(v, s, tag=tag)}
            t = None if form == 'p' else tag
            if fs < 0:
                try:
                    args[form]()
                except NegativeStdDev:
                    continue
                except Exception as e:
                    return 'negative standard deviation: %s' % type(e).__name__
                return 'ufloat(%r, %r) is accepted' % (v, s)
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                x = args[form]()
            e = verify(x, n, fs, t)
            if e:
                return '%s (%r): %s' % (form, step, e)
            live.append(x)
            st.append(state(x))
        elif k == 'old':
            _, form, v, s, tag = step
            if isinstance(num(v), tuple):
                continue
            v, s = num(v), num(s)
            n, fs = float(v), float(s)
            if form == 'str' and not (math.isfinite(n) and math.isfinite(fs)):
                form = 'tup'
            if fs < 0:
                for call in (lambda: ufloat((v, s)), lambda: ufloat((v, s), tag)):
                    try:
                        call()
                    except NegativeStdDev:
                        continue
                    except Exception as e:
                        return 'negative standard deviation (tuple): %s' % type(e).__name__
                    return 'ufloat((%r, %r)) is accepted' % (v, s)
                continue
            text = '%r+/-%r' % (n, fs)
            calls = {'tup': [(lambda: ufloat((v, s)), None), (lambda: ufloat((v, s), tag), tag), (lambda: ufloat((v, s), tag=tag), tag)],
                     'str': [(lambda: ufloat(text), None), (lambda: ufloat(text, tag), tag), (lambda: ufloat(text, tag=tag), tag)]}[form]
            for call, t in calls:
                e = obsolete(call, n, fs, t)
                if e:
                    return 'obsolete form %s (%r): %s' % (form, step, e)
            live.append(uncertainties.ufloat_fromstr(text, tag) if form == 'str' else ufloat(v, s, tag))
            if form == 'str':
                e = verify(live[-1], n, fs, tag)
                if e:
                    return 'ufloat_fromstr(%r): %s' % (text, e)
            st.append(state(live[-1]))
        elif k == 'set' and live:
            _, i, s, how = step
            i %= len(live)
            x = live[i]
            s = num(s)

            def assign():
                if how == 'attr':
                    x.std_dev = s
                elif how == 'setattr':
                    setattr(x, 'std_dev', s)
                else:
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        x.set_std_dev(s)
                        if not w:
                            raise AssertionError('set_std_dev() does not warn')
            if float(s) < 0:
                try:
                    assign()
                except NegativeStdDev:
                    pass
                except AssertionError as e:
                    return str(e)
                else:
                    return 'negative standard deviation %r assigned' % s
            else:
                assign()
                st[i] = (st[i][0], float(s)) + st[i][2:]
        elif k == 'tag' and live:
            i = step[1] % len(live)
            live[i].tag = step[2]
            st[i] = st[i][:2] + (step[2],) + st[i][3:]
        elif k == 'bad' and live:
            x = live[step[1] % len(live)]
            for obj in (x, x * 2):
                for f in (int, float, complex):
                    try:
                        f(obj)
                    except TypeError:
                        continue
                    return '%s() does not raise TypeError' % f.__name__
                for name in ('nominal_value', 'n'):
                    try:
                        setattr(obj, name, 3.)
                    except AttributeError:
                        continue
                    return '%s can be assigned' % name
            try:
                (x * 2).std_dev = 1.
            except AttributeError:
                pass
            else:
                return 'std_dev of a computed quantity can be assigned'
        for i, (x, s) in enumerate(zip(live, st)):
            if not same_state(state(x), s):
                return 'variable %d: %r instead of %r' % (i, state(x), s)
        if [state(o) for o in others] != other_states:
            return 'other variables changed'
    ids = {id(x) for x in live}
    if len(ids) != len(live):
        return 'two creations gave the same object'
    allv = live[-6:] + others
    for a in range(len(allv)):
        for b in range(len(allv)):
            x, y = allv[a], allv[b]
            if a != b:
                d = (x + y).derivatives
                if set(map(id, d)) != {id(x), id(y)} or d[x] != 1 or d[y] != 1:
                    return 'variables are not independent: %r' % (d,)
                if x.std_dev < 1e150 and y.std_dev < 1e150 and uncertainties.covariance_matrix([x, y])[0][1] != 0:
                    return 'covariance between distinct variables'


TAGS = [None, 'a', u'\xe9', 3, (1, 2), '', 0]
VALS = [0., -0., 1, -3, 2.5, True, nan, inf, -inf, 1e300, 10 ** 30, ('frac', 1, 3), ('np', 'float64', 1.25), ('np', 'int64', 7),
        ('np', 'float32', .5)]
SDS = [0, 0., -0., 1, .5, True, nan, inf, -inf, -1, -1e-300, 1e-300, 1e300, -.5, ('frac', 1, 7), ('frac', -1, 7), ('np', 'float64', .25),
       ('np', 'float64', -.25), ('np', 'float64', nan), ('np', 'int32', 4), -nan]
FORMS = ['p', 'pt', 'kw', 'kt', 'cls', 'ckw']
FIXED = [[('new', f, v, s, t)] for f in FORMS for v in VALS[::3] for s in SDS for t in TAGS[:2]] + \
        [[('new', 'pt', v, s, t), ('bad', 0)] for v in VALS for s in (.5, 0) for t in TAGS] + \
        [[('old', f, v, s, t)] for f in ('tup', 'str') for v in (1., -2.5, nan, inf) for s in (0., .1, nan, inf, -1.) for t in TAGS] + \
        [[('new', 'p', 1., s, None), ('set', 0, s2, h), ('set', 0, s3, h)] for s in (.5, nan) for s2 in SDS for s3 in (-1., .25)
         for h in ('attr', 'old')]


def gen(r):
    def val():
        return r.choice(VALS) if r.random() < .4 else nums.wide(r)

    def sdv():
        q = r.random()
        return r.choice(SDS) if q < .4 else (-1 if q < .5 else 1) * nums.sd(r)
    out = []
    for _ in range(r.randint(1, 10)):
        k = r.random()
        if k < .45 or not out:
            out.append(('new', r.choice(FORMS), val(), sdv(), r.choice(TAGS)))
        elif k < .55:
            out.append(('old', r.choice(['tup', 'str']), val(), sdv(), r.choice(TAGS)))
        elif k < .85:
            out.append(('set', r.randrange(20), sdv(), r.choice(['attr', 'setattr', 'old'])))
        elif k < .92:
            out.append(('tag', r.randrange(20), r.choice(TAGS)))
        else:
            out.append(('bad', r.randrange(20)))
    return out
