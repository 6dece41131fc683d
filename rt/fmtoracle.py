# -*- coding: utf-8 -*-
"""Independent oracle for the formatting properties (C14, C15, C16, C18).

Everything here is derived from the documentation (user guide, __format__ and
format_num docstrings, PDG rule), uses exact rational / decimal arithmetic, and
calls the code under test only through format()/repr().
"""
import math, re
from decimal import Decimal, localcontext
from fractions import Fraction as Fr

NUM = r'[-+ ]?(?:\d[\d,]*(?:\.\d*)?(?:[eE][-+]\d+)?|nan|NAN|inf|INF)'
CORE_EXP = re.compile(r'\((%s)\+/-(%s)\)([eE])([+-]\d{2,})$' % (NUM, NUM))
CORE_PCT = re.compile(r'\((%s)\+/-(%s)\)%%$' % (NUM, NUM))
CORE_NO = re.compile(r'(%s)\+/-(%s)$' % (NUM, NUM))

TO_SUP = str.maketrans('+-0123456789', '⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹')


def finite(x):
    return not (math.isnan(x) or math.isinf(x))


def lead(x):
    """Exact position of the first digit of the positive rational x."""
    x = Fr(x)
    if x == 0:
        return 0
    n = len(str(x.numerator)) - len(str(x.denominator))
    for k in (n + 1, n, n - 1):
        if x >= Fr(10) ** k:
            return k
    raise AssertionError


def pdg(sd):
    """(number of digits, effective std dev as Fraction) -- exact PDG rule."""
    s = Fr(sd)
    e = lead(s)
    digits = int(s / Fr(10) ** (e - 2))
    assert 100 <= digits <= 999
    if digits <= 354:
        return 2, s
    if digits <= 949:
        return 1, s
    return 2, Fr(10) ** (e + 1)


def round_pos(x, limit):
    """x rounded (half even) at 10**limit: exact Fraction."""
    q = Fr(x) / Fr(10) ** limit
    return Fr(round(q)) * Fr(10) ** limit


def limit_for(x, n):
    """Position of the last digit for n significant digits of x (rounding considered)."""
    e = lead(x)
    lim = e - n + 1
    if lead(round_pos(x, lim)) > e:
        lim += 1
    return lim


class Core(object):
    """Parsed core display: texts, exponent (or None), percent."""

    def __init__(self, text):
        self.text = text
        m = CORE_EXP.match(text)
        self.pct = False
        self.exp = None
        self.exp_letter = None
        if m:
            self.n, self.u, self.exp_letter = m.group(1), m.group(2), m.group(3)
            self.exp = int(m.group(4))
            return
        m = CORE_PCT.match(text)
        if m:
            self.n, self.u = m.groups()
            self.pct = True
            return
        m = CORE_NO.match(text)
        if not m:
            raise ValueError('unparsable core text %r' % text)
        self.n, self.u = m.groups()


def decimals(txt):
    return len(txt.split('.')[1]) if '.' in txt else 0


def ulp_tol(x):
    """Tolerance for the double rounding through float mantissas: a few ulps."""
    return abs(Fr(x)) * Fr(1, 2 ** 50) + Fr(5e-324)


def check_round(txt, exp, true, what):
    """The displayed numeral txt*10**exp is the true rational correctly rounded at its last digit."""
    t = txt
    if 'e' in t or 'E' in t:
        return None  # float exponent inside a part: checked by value elsewhere
    d = decimals(t)
    disp = Fr(t) * Fr(10) ** (exp or 0)
    unit = Fr(10) ** ((exp or 0) - d)
    if abs(disp - true) > unit / 2 + ulp_tol(true):
        return '%s displayed as %s (exponent %s), off by %s last-digit units' % (
            what, t, exp, float((disp - true) / unit))
    return None


def check_digits(nom, sd, prec, u, typ, text):
    """C15 (and C14 when prec is None): text is format(x, core spec), no layout option.

    Returns an error message or None."""
    try:
        c = Core(text)
    except ValueError as e:
        return str(e)
    pct = typ == '%'
    if c.pct != pct:
        return 'percent sign missing or unexpected in %r' % text
    if pct:
        fac = 100
        # the exact products may overflow/round; keep the rational values
    else:
        fac = 1
    nfin, sfin = finite(nom), finite(sd)
    if pct:
        if nfin and not finite(nom * 100.):
            return None  # overflow: nothing claimed
        if sfin and not finite(sd * 100.):
            return None
    upper = typ in 'EFG' and typ != ''
    # --- non finite parts
    def nonfin(v):
        t = 'nan' if math.isnan(v) else ('-inf' if v < 0 else 'inf')
        return t.upper() if upper else t
    if not nfin and c.n != nonfin(nom):
        return 'nominal value displayed as %r' % c.n
    if not sfin and c.u != nonfin(sd):
        return 'uncertainty displayed as %r' % c.u
    if sd == 0 and c.u != '0':
        return 'zero uncertainty displayed as %r' % c.u
    N = abs(Fr(nom)) * fac if nfin else None
    S = Fr(sd) * fac if sfin else None
    reals = [v for v in (N, S) if v is not None]
    control = (sfin and sd != 0 and (u or (prec is None and nfin)))
    ref = max(reals) if reals else None
    eff = S
    pdgup = False
    alts = []
    if control:
        if prec is not None:
            cands = [(prec, S)]
        else:
            cands = [pdg(S)]
            # the three leading digits are obtained by float division: accept either
            # rule within a relative 1e-14 of a boundary
            for f in (Fr(10 ** 14 - 1, 10 ** 14), Fr(10 ** 14 + 1, 10 ** 14)):
                (k, s) = pdg(S * f)
                cands.append((k, S if s == S * f else s))
        for k, eff_ in cands:
            for f in (Fr(1), Fr(10 ** 15 - 1, 10 ** 15), Fr(10 ** 15 + 1, 10 ** 15)):
                alts.append((eff_, limit_for(eff_ * f, k)))
    else:
        p = prec if prec is not None else (12 if typ == '' else 6)
        if typ in ('f', 'F', '%'):
            alts = [(S, -p)]
        elif ref is None:
            alts = [(S, None)]
        else:
            k = p + 1 if typ in ('e', 'E') else (p or 1)
            if ref == 0:
                alts = [(S, -k + 1)]
            else:
                alts = [(S, limit_for(ref * f, k)) for f in
                        (Fr(1), Fr(10 ** 15 - 1, 10 ** 15), Fr(10 ** 15 + 1, 10 ** 15))]
    errs = []
    seen = set()
    for (eff, lim) in alts:
        if (eff, lim) in seen:
            continue
        seen.add((eff, lim))
        e = _check_alt(c, nom, sd, N, S, eff, lim, ref, typ, prec, control, nfin, sfin, upper)
        if e is None:
            return None
        errs.append(e)
    return errs[0]


def _check_alt(c, nom, sd, N, S, eff, lim, ref, typ, prec, control, nfin, sfin, upper):
    # --- exponent
    if typ in ('f', 'F', '%') or ref is None:
        exps = [None]
    else:
        exps = []
        for f in (Fr(1), Fr(10 ** 15 - 1, 10 ** 15), Fr(10 ** 15 + 1, 10 ** 15)):
            for r in {ref, max(ref, eff or 0)}:
                ce = lead(abs(round_pos(r * f, lim)))
                if typ in ('e', 'E'):
                    exps.append(ce)
                else:
                    exps.append(None if -4 <= ce < ce - lim + 1 else ce)
    if c.exp not in exps:
        return 'exponent is %r, expected %r in %r' % (c.exp, exps[0], c.text)
    if c.exp is not None:
        for t, v in ((c.n, nom), (c.u, sd)):
            if finite(v) and 'e' in t.lower():
                return 'a part of %r has an exponent of its own' % c.text
        if (c.exp_letter == 'E') != upper:
            return 'exponent letter %r' % c.exp_letter
        if lead(1) != 0:
            return 'internal'
    ex = c.exp or 0
    d = None if lim is None else max(ex - lim, 0)
    special_err = sd == 0 or not sfin
    gtype = typ in ('', 'g', 'G')
    msgs = []
    # --- uncertainty part
    if sfin and sd != 0:
        if not nfin and gtype:
            # displayed with the float rules
            v = eff / Fr(10) ** ex
            m = _float_like(c.u, v, prec, typ, 'uncertainty', relaxed=True)
            if m:
                return m
        else:
            if decimals(c.u) != d:
                return 'uncertainty %s has %d decimals, expected %d' % (c.u, decimals(c.u), d)
            m = check_round(c.u, ex, eff, 'uncertainty')
            if m:
                return m
    # --- nominal part
    if nfin:
        val = N if math.copysign(1, nom) > 0 else -N
        if special_err and gtype:
            m = _float_like(c.n.lstrip('-') if N == 0 else c.n, val / Fr(10) ** ex, prec, typ, 'nominal value')
            if m:
                return m
        else:
            if decimals(c.n) != d:
                return 'nominal value %s has %d decimals, expected %d' % (c.n, decimals(c.n), d)
            m = check_round(c.n, ex, val, 'nominal value')
            if m:
                return m
        if c.n.startswith('-') != (math.copysign(1, nom) < 0):
            return 'sign of the nominal value in %r' % c.n
    return None


def _float_like(txt, v, prec, typ, what, relaxed=False):
    """txt displays the rational v as format(float(v), '.<prec><typ>') does, up to float rounding of v."""
    cand = set()
    fv = float(v)
    spec = ('.%d' % prec if prec is not None else '') + typ
    for x in (fv, math.nextafter(fv, math.inf), math.nextafter(fv, -math.inf),
              fv * (1 + 4e-16), fv * (1 - 4e-16)):
        cand.add(format(x, spec))
        if prec is not None and typ == '':
            # no exponent may appear inside a part: the g form is the documented spirit
            cand.add(format(x, spec + 'g'))
    if txt in cand:
        return None
    if relaxed:
        try:
            if prec is None and abs(float(txt) - fv) <= abs(fv) * 1e-15:
                return None
        except ValueError:
            pass
    return '%s displayed as %r, the float format gives %r' % (what, txt, format(fv, spec))


# ---------------------------------------------------------------------------
# Layout (C16): expected text from the core texts and the layout options
# ---------------------------------------------------------------------------

def _num_fmt(txt, sign, zero, width, comma):
    """Applies sign / zero padding / comma to a numeral text, as Python does for numbers."""
    low = txt.lower()
    if low.lstrip('+-') in ('nan', 'inf'):
        r = format(float(low), '%s%s%sf' % (sign, '0%d' % width if zero else '', comma))
        return r.upper() if txt != low else r
    if 'e' in low:
        # a float formatted with an exponent (only for special parts)
        mant, e = re.split('[eE]', txt)
        neg = mant.startswith('-')
        body = txt.lstrip('-')
        pre = '-' if neg else {'+': '+', ' ': ' '}.get(sign, '')
        if zero:
            body = body.rjust(width - len(pre), '0')
        return pre + body
    neg = txt.startswith('-')
    body = txt.lstrip('-')
    intpart, dot, dec = body.partition('.')
    pre = '-' if neg else {'+': '+', ' ': ' '}.get(sign, '')
    def group(s):
        if not comma:
            return s
        out = ''
        while len(s) > 3:
            out = ',' + s[-3:] + out
            s = s[:-3]
        return s + out
    if zero:
        while len(pre + group(intpart) + dot + dec) < width:
            intpart = '0' + intpart
            if comma and len(pre + group(intpart) + dot + dec) > width and len(intpart) % 3 == 1 \
                    and False:
                break
    return pre + group(intpart) + dot + dec


def expected_layout(core, nom, sd, fill='', align='', sign='', zero='', width='', comma='',
                    options='', typ=''):
    """The text documented for the given layout of the (already parsed) core display."""
    w = int(width) if width else 0
    P, S, L, p = ('P' in options), ('S' in options), ('L' in options), ('p' in options)
    if core.exp is None:
        exp = ''
    elif P:
        exp = '×10' + ('%d' % core.exp).translate(TO_SUP)
    elif L:
        exp = r' \times 10^{%d}' % core.exp
    else:
        exp = '%s%+03d' % (core.exp_letter, core.exp)
    pct = ''
    if core.pct:
        pct = r' \%' if L else '%'
    left, right = (r'\left(', r'\right)') if (L and not P) else ('(', ')')
    pm = '±' if P else (r' \pm ' if L else '+/-')

    def latex(txt, v):
        if not L:
            return txt
        if math.isnan(v):
            return r'\mathrm{%s}' % txt
        if math.isinf(v):
            return ('-' if v < 0 else '') + r'\infty'
        return txt

    if S:
        if sd == 0:
            u = '0'
        elif not finite(sd):
            u = latex(core.u, sd)
        else:
            val = Fr(core.u) if 'e' not in core.u.lower() else None
            d = decimals(core.u)
            if val is None:
                return None
            if not finite(nom):
                return None  # layout of the uncertainty of a non-finite value: see check_shorthand_nonfinite
            elif val >= 1 and d > 0:
                u = core.u
            elif val == 0:
                u = core.u if d > 0 else '0.'
            else:
                u = core.u.replace('.', '').lstrip('0')
        end = '(%s)%s%s' % (u, exp, pct)
        if zero and width:
            n = _num_fmt(core.n, sign, True, max(w - len(end), 0), comma)
        else:
            n = _num_fmt(core.n, sign, False, 0, comma)
        n = latex(n, nom)
        res = n + end
        if width:
            res = _align(res, fill, align or '>', w)
        return res

    nexp = eexp = ''
    if width:
        if finite(nom):
            nexp = exp
        if sd != 0 and finite(sd):
            eexp = exp
    if width and zero:
        n = _num_fmt(core.n, sign, True, max(w - len(nexp), 0), comma)
        u = _num_fmt(core.u, '', True, max(w - len(eexp), 0), comma)
    else:
        n = _num_fmt(core.n, sign, False, 0, comma)
        u = _num_fmt(core.u, '', False, 0, comma)
    n = latex(n, nom) + nexp
    u = latex(u, sd) + eexp
    if width:
        n = _align(n, fill, align or '>', w)
        u = _align(u, fill, align or '>', w)
    body = n + pm + u
    if exp and not width:
        return left + body + right + exp + pct
    if pct:
        return left + body + right + pct
    if p:
        return left + body + right
    return body


def _align(s, fill, align, w):
    fill = fill or ' '
    pad = w - len(s)
    if pad <= 0:
        return s
    if align == '<':
        return s + fill * pad
    if align == '^':
        return fill * (pad // 2) + s + fill * (pad - pad // 2)
    return fill * pad + s


def displayed_values(core, sd):
    """(nominal, std dev) floats denoted by the core texts."""
    e = '' if core.exp is None else 'e%d' % core.exp
    def val(t):
        t = t.replace(',', '').strip()
        if t.lower().lstrip('+-') in ('nan', 'inf'):
            return float(t)
        return Fr(t) * Fr(10) ** (core.exp or 0)
    return val(core.n), val(core.u)


SH_NONFIN = re.compile(r'[-+ ]*(?:nan|inf|NAN|INF)\((\d+(?:\.\d*)?)\)(?:[eE]([-+]\d+)|×10([⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹]+))?%?$')
FROM_SUP = str.maketrans('⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹', '+-0123456789')


def check_shorthand_nonfinite(text, sd, pct=False):
    """Shorthand text of a NaN/inf nominal value with a finite, non-zero uncertainty (no LaTeX, no comma)."""
    m = SH_NONFIN.match(text.strip())
    if not m:
        return 'unexpected shorthand %r' % text
    e = int(m.group(2) or (m.group(3) or '0').translate(FROM_SUP))
    d = decimals(m.group(1))
    disp = Fr(m.group(1)) * Fr(10) ** e
    unit = Fr(10) ** (e - d)
    true = Fr(sd) * (100 if pct else 1)
    k, eff = pdg(true)
    k, eff2 = pdg(Fr(float(true)))
    if min(abs(disp - true), abs(disp - eff), abs(disp - eff2)) > unit * Fr(51, 100) + ulp_tol(true):
        return 'shorthand uncertainty of %r is not that of %r' % (text, sd)
    return None
