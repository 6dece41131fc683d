# -*- coding: utf-8 -*-
"""C16: layout options."""
import re
from .base import *
from . import fmtoracle as o, fmtgen
import uncertainties
from uncertainties import ufloat


def valid(spec):
    """[fill][align][sign][0][width][,][.prec][u][type][options]: hand-written recogniser."""
    def tail(s):
        for chars in ('+- ', '0'):
            if s[:1] and s[:1] in chars:
                s = s[1:]
        while s[:1] and s[0].isdecimal():
            s = s[1:]
        if s[:1] == ',':
            s = s[1:]
        if s[:1] == '.':
            s = s[1:]
            if not s[:1].isdecimal():
                return False
            while s[:1] and s[0].isdecimal():
                s = s[1:]
        if s[:1] == 'u':
            s = s[1:]
        if s[:1] and s[0] in 'eEfFgG%':
            s = s[1:]
        return not s.strip('PSLp') if s else True
    cands = [spec]
    if spec and spec[0] in '<>=^':
        cands.append(spec[1:])
    if spec and spec[0] not in '{}':
        cands.append(spec[1:])
        if len(spec) > 1 and spec[1] in '<>=^':
            cands.append(spec[2:])
    return any(tail(c) for c in cands)


def check(case):
    if case[0] == 'invalid':
        _, nom, sd, spec = case
        x = ufloat(nom, sd)
        if valid(spec) and not re.search(r'\.0+u', spec):
            raise Skip
        try:
            t = format(x, spec)
        except ValueError:
            return
        return 'the invalid format %r gives %r' % (spec, t)
    if case[0] == 'repr':
        _, nom, sd, tag = case
        x = ufloat(nom, sd, tag)
        exp = '%r+/-%s' % (nom, repr(sd) if sd else '0')
        for y in (x, ufloat(nom, sd) if o.finite(sd) and sd > 1e150 else x + 0, ufloat(nom, sd)):
            if not same(y.nominal_value, nom) or not same(float(y.std_dev), sd) or math.copysign(1, y.nominal_value) != math.copysign(1, nom):
                continue
            e2 = '< %s = %s >' % (tag, exp) if (y is x and tag is not None) else exp
            if repr(y) != e2:
                return 'repr() is %r instead of %r' % (repr(y), e2)
        if str(x) != format(x, '') or '%s' % x != str(x) or x.format('') != str(x):
            return 'str() is %r, format() is %r' % (str(x), format(x, ''))
        return
    nom, sd, (prec, u, typ), lay = case
    if fmtgen.bad(nom, sd):
        raise Skip
    fill, align, sign, zero, width, comma, opts = lay
    cs = fmtgen.cspec(prec, u, typ)
    x = ufloat(nom, sd)
    core = format(x, cs)
    c = o.Core(core)
    spec = fill + align + sign + zero + width + comma + cs + opts
    exp = o.expected_layout(c, nom, sd, fill, align, sign, zero, width, comma, opts, typ)
    t = format(x, spec)
    if exp is not None and exp != t:
        return '%r formatted with %r gives %r instead of %r' % ((nom, sd), spec, t, exp)
    if 'S' in opts and not o.finite(nom) and o.finite(sd) and sd and not comma and 'L' not in opts and not zero and fill in ('', ' '):
        e = o.check_shorthand_nonfinite(t, sd, typ == '%')
        if e:
            return '%r formatted with %r: %s' % ((nom, sd), spec, e)
    if x.format(spec) != t or ('{:%s}' % spec).format(x) != t:
        return 'x.format() and format() differ'


BADSPECS = ['q', '.', '.f3', 'S.2f', '.2fX', '.2uu', '10.2.3f', 'fe', '%%', 'n', 'd', '.2ufS3', '{<10f', '}>5', '.-2f', '+-f', '1,2', ',,', 'PSLpx', '.0uf',
            '.0u', '.0ue', 'PS.1', 'uf.2', ' .3f ', 'abc', '.2 f', 'i', 'x', '.3b', '#f', '__f', '.2f\n', '\n', 'e\n', '10\n', '.1\nf', 'kq', '5q', 'zz5', '>>>5f', '.3fs', 'fl', 's', 'r']
FIXED = [('invalid', n, s, b) for b in BADSPECS for n, s in ((1.5, .1),)] + \
        [('repr', n, s, t) for n in (1., -0., nan, -inf, 1e-300, .1 + .2, 1e22, 123456789.123) for s in (0., .1, nan, inf, 1e-17, 2 / 3.)
         for t in (None, 'a', u'\xe9', '', 0, 'x y')] + \
        [(n, s, (p, u, t), ('', '', sg, z, w, '', op)) for n, s in ((3.1415, .01), (-1.5e9, 2.5e7), (0., 0.), (nan, .1), (1., nan), (inf, 1.), (.2, 10.2))
         for p, u, t in ((None, False, ''), (2, True, 'e'), (1, False, 'f'), (None, False, '%'))
         for sg in ('', '+') for z, w in (('', ''), ('', '20'), ('0', '15')) for op in ('', 'S', 'P', 'L', 'p', 'SL', 'PS', 'Lp', 'Pp', 'Sp', 'PL')]


def gen(r):
    k = r.random()
    if k < .06:
        spec = list(r.choice(['.2uS', '10.3fP', '*<12e', '+.1f', '%', '', 'g', '015.2eL']))
        for _ in range(r.randint(1, 3)):
            spec.insert(r.randrange(len(spec) + 1), r.choice('hijkmn?;@`~_&\n.5,uPfe%0+'))
        return ('invalid', fmtgen.rf(r, False), 1., ''.join(spec))
    if k < .15:
        nom, sd = fmtgen.pair(r)
        return ('repr', nom, sd, r.choice([None, None, 'a', 'b c', 5]))
    return fmtgen.pair(r) + (fmtgen.core_args(r), fmtgen.layout_args(r))
