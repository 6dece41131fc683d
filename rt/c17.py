# -*- coding: utf-8 -*-
"""C17: parsing of numbers with uncertainty."""
from fractions import Fraction as Fr
from .base import *
import uncertainties
from uncertainties import ufloat, ufloat_fromstr
from uncertainties.core import NegativeStdDev

SUP = u'⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹'
TO = dict(zip(u'+-0123456789', SUP))
FROM = {ord(v): k for k, v in TO.items()}
NONFIN = ('nan', 'NAN', 'inf', 'INF')


class No(Exception):
    pass


def integer(t):
    try:
        return int(t.translate(FROM))
    except ValueError:
        raise No


def real(t):
    """Python float syntax: Fraction, or a non-finite float."""
    try:
        f = float(t)
    except ValueError:
        raise No
    if f != f or t.strip().lower().lstrip('+-') in ('inf', 'infinity'):
        return f
    u = t.strip().replace('_', '')
    low = u.lower()
    mant, _, e = low.partition('e')
    if e and abs(int(e)) > 5000:
        raise Skip
    sign = -1 if mant.startswith('-') else 1
    mant = mant.lstrip('+-')
    i, _, d = mant.partition('.')
    return sign * Fr(int((i + d) or '0')) / 10 ** len(d) * Fr(10) ** int(e or 0)


def mul(v, e):
    if abs(e) > 250:
        raise Skip
    v = v * Fr(10) ** e if isinstance(v, Fr) else v
    if isinstance(v, Fr) and v and not Fr(1, 10 ** 290) < abs(v) < Fr(10) ** 290:
        raise Skip
    return v


def number(t):
    try:
        return real(t)
    except No:
        pass
    if u'×' not in t:
        raise No
    a, _, b = t.partition(u'×')
    b = b.lstrip()
    if not b.startswith('10'):
        raise No
    return mul(real(a), integer(b[2:]))


def decimal(t):
    if t in NONFIN:
        return
    if not t or t == '.' or t.count('.') > 1 or not t.replace('.', '').isdecimal():
        raise No


def shorthand(t):
    sign = 1
    if t[:1] in ('+', '-'):
        sign = -1 if t[0] == '-' else 1
        t = t[1:]
    # exponent
    e = 0
    i = t.find(u'×')
    if i >= 0:
        r = t[i + 1:].lstrip()
        if not r.startswith('10'):
            raise No
        e = integer(r[2:])
        t = t[:i].rstrip()
    else:
        for c in 'eE':
            i = t.find(c)
            if i >= 0:
                e = integer(t[i + 1:])
                t = t[:i]
                break
    main, p, rest = t.partition('(')
    decimal(main)
    if p:
        if not rest.endswith(')'):
            raise No
        unc = rest[:-1]
        decimal(unc)
    else:
        unc = None
    value = float(main) * sign if main in NONFIN else sign * real(main)
    dec = len(main.partition('.')[2])
    if unc is None:
        if main in NONFIN:
            raise Skip
        s = Fr(1, 10 ** dec)
    elif unc in NONFIN:
        s = float(unc)
    elif '.' in unc:
        s = real(unc)
    else:
        s = Fr(int(unc), 10 ** dec)
    return mul(value, e), mul(s, e)


def core(t):
    for sep in ('+/-', u'±'):
        if sep in t:
            i = max(t.rfind('+/-'), t.rfind(u'±'))
            l = 3 if t[i] == '+' else 1
            return number(t[:i]), number(t[i + l:])
    return shorthand(t)


def parse(t):
    t = t.strip()
    if t.startswith('(') and t.endswith(')'):
        cands = [t[1:-1], t]
    else:
        cands = [t]
    err = No
    for c in cands:
        try:
            return core(c)
        except No:
            pass
        if c.startswith('('):
            # factored exponent
            i = c.rfind(')')
            r = c[i + 1:]
            try:
                if r[:1] in ('e', 'E') and r:
                    e = integer(r[1:])
                else:
                    r = r.lstrip()
                    if not r.startswith(u'×'):
                        raise No
                    r = r[1:].lstrip()
                    if not r.startswith('10'):
                        raise No
                    e = integer(r[2:])
                n, s = core(c[1:i])
                return mul(n, e), mul(s, e)
            except No:
                pass
    raise No


def matches(got, exp):
    if isinstance(exp, float):
        return same(got, exp)
    if not math.isfinite(got):
        return abs(exp) > Fr(10) ** 307
    return abs(Fr(got) - exp) <= abs(exp) * Fr(1, 10 ** 14) + Fr(1, 10 ** 300)


def check(case):
    kind, text, tag = case
    try:
        n, s = parse(text)
    except No:
        if kind == 'valid':
            return 'generator: %r is not accepted by the reference grammar' % text
        for call in (lambda: ufloat_fromstr(text), lambda: ufloat(text)):
            try:
                x = call()
            except (ValueError, NegativeStdDev):
                continue
            except OverflowError:
                continue
            return '%r is accepted as %r, %r' % (text, x.nominal_value, x.std_dev)
        return
    if any(isinstance(v, Fr) and v != 0 and not Fr(1, 10 ** 290) < abs(v) < Fr(10) ** 290 for v in (n, s)):
        raise Skip
    for call in (lambda: ufloat_fromstr(text, tag), lambda: ufloat(text, tag)):
        try:
            x = call()
        except (ValueError, NegativeStdDev, OverflowError) as e:
            if kind == 'valid' and not s < 0:
                return '%r is not parsed: %r' % (text, e)
            continue
        if s < 0:
            return 'negative standard deviation: %r accepted' % text
        if not matches(x.nominal_value, n) or not matches(float(x.std_dev), s):
            return '%r is parsed as %r, %r' % (text, x.nominal_value, float(x.std_dev))
        if x.tag != tag:
            return 'tag %r instead of %r' % (x.tag, tag)
        if type(x.nominal_value) is not float or list(x.derivatives) != [x]:
            return 'not a new variable'


DOC = u'''12.3e10+/-5e3|(-3.1415 +/- 0.0001)e+02|12.3e10 ± 5e3|(12.3 ± 5.0) × 10⁻¹²|12.3 ± 5e3|(-3.1415 +/- 1e-4)e+200|(1e-20 +/- 3)e100|0.29|31.|-31.|31|-3.1e10|-1.23(3.4)|-1.34(5)|1(6)|3(4.2)|-9(2)|1234567(1.2)|12.345(15)|-12.3456(78)e-6|12.3(0.4)e-5|169.0(7)|169.1(15)|.123(4)|.1(.4)|12.3(nan)|12.3(NAN)|3±nan|1.23(3)|1.23(3.)|nan(3)|-inf(2.5)|(1.2(3))e-3|1.2(3)×10⁻³|1.2(3) × 10³|(1.2 ± 3)×10⁻³|1e5±2e-3|inf+/-nan|NAN±INF|-inf+/-0.1|(3.1+/-0.2)|(3.1(2))|(1.2(3) × 10⁵)|1.5(inf)|+1.2(3)E5|+3+/-+2|1.2(3)E-2|5.(2)|.5(2)'''.split('|')
BAD = u'''|abc|1.2.3|1+/-|+/-1|1(2|1)2(|1.2(3)e|1.2(3)×10|1.2(3)x10|1.2(3))|((1.2(3)|1.2(-3)|1.2(3e1)|1.2(3)(4)|1.2(3)e1.5|--1|1 2|1+-2|1+/2|(1+/-2)e|(1+/-2)f3|(1+/-2)×10|(1+/-2)10|e5|.|()|(.)|1()|1(.)|nan()|1±2±|±|1.2(3)e1 2|1.2(3)\ne5|1+/-2\nx|1+/-2 x|x 1+/-2|1(2)x|x1(2)|1(2) 3|1,2(3)|1.2[3]|1.2{3}|$1|1.2(3)%|(1+/-2)%|1/2|1 (2)|1( 2)|-nan(x)|Nan(1)|iNf(1)|1.2(Nan)|(1+/-2)e+|(1+/-2)e5.0|1⁵|10⁻³|1.2(3)×⁻³|(1.2(3))e-3x|(1.2)(3)|1.2+/-3(4)|1(2)+/-3|1.2(3)+4|0x10(2)|1.2(0x3)|1e5(3)|one+/-two|1+/-two|one+/-2|(1+/-2|1+/-2)'''.split('|')
FIXED = [('valid', t, tag) for t in DOC for tag in (None, 'a')] + [('valid', '  %s\t' % t, None) for t in DOC] + [('other', t, None) for t in BAD] + \
        [('other', '(%s)' % t, None) for t in BAD] + [('other', t + '\n', None) for t in BAD]


def digits(r, n=4):
    return ''.join(r.choice('0123456789') for _ in range(r.randint(1, n)))


def dec(r):
    k = r.random()
    if k < .07:
        return r.choice(NONFIN)
    if k < .3:
        return digits(r, 6)
    if k < .8:
        return digits(r) + '.' + digits(r, 6)
    return r.choice([digits(r) + '.', '.' + digits(r)])


def exponent(r):
    e = r.choice([r.randint(-12, 12), r.randint(-12, 12), r.randint(-90, 90)])
    t = '%d' % e
    if e >= 0 and r.random() < .4:
        t = '+' + t
    if r.random() < .3:
        t = t[:1] + '0' + t[1:] if t[0] in '+-' else '0' + t
    if r.random() < .5:
        return r.choice('eE') + t
    return r.choice([u'×10', u' × 10', u'× 10', u'  ×10']) + ''.join(TO[c] for c in t)


def num(r, signed=True, nonfin=True):
    d = dec(r)
    s = r.choice(['', '', '', '-', '+']) if signed else ''
    if d in NONFIN:
        return s + d
    return s + d + (exponent(r) if r.random() < .35 else '')


def valid(r):
    if r.random() < .5:
        m = dec(r)
        t = r.choice(['', '', '-', '+']) + m
        if r.random() < .85 or m in NONFIN:
            t += '(%s)' % (digits(r, 3) if r.random() < .5 else dec(r))
        if r.random() < .4:
            t += exponent(r)
    else:
        sp = r.choice(['', '', ' ', '  '])
        t = num(r) + sp + r.choice(['+/-', u'±']) + r.choice(['', sp]) + num(r, False)
    k = r.random()
    if k < .3:
        t = '(' + t + ')' + exponent(r)
    elif k < .4:
        t = '(' + t + ')'
    if r.random() < .1 and t.startswith('(') and not t.endswith(')'):
        t = '(' + t + ')'
    if r.random() < .2:
        t = r.choice([' ', '\t', '\n', '  ', '']) + t + r.choice([' ', '\n', '', '  '])
    return t


def gen(r):
    t = valid(r)
    if r.random() < .6:
        return ('valid', t, r.choice([None, 'a', u'é', '']))
    t = list(t)
    for _ in range(r.randint(1, 2)):
        k = r.random()
        if k < .4 and t:
            del t[r.randrange(len(t))]
        elif k < .8:
            t.insert(r.randrange(len(t) + 1), r.choice(u'0.()+-/±eE×1x \nninf⁻³,%'))
        elif len(t) > 1:
            i = r.randrange(len(t) - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
    return ('other', ''.join(t), r.choice([None, 'a']))
