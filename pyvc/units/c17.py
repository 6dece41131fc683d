# -*- coding: utf-8 -*-
"""C17: parsing.  Texts are templates of the documented notations with runs of digits of arbitrary value and length.

In a template, a letter stands for a run of digits (I, F: nominal value; U, V: uncertainty; N, M, Q: exponents), a superscript
letter (ⁿ ᵐ ᵠ) for the same run in superscript, '_' for a run of spaces.  The value denoted by a template is computed by
denote(), independent of /repo; a text is parsed by the real functions."""
import re
from .common import *
from .. import fmtmod, parsing
from ..strings import SStr, Tok, simp
from uncertainties.core import NegativeStdDev
import uncertainties

LETTERS = 'IFUVNMQJG'
SUPL = {'ⁿ': 'N', 'ᵐ': 'M', 'ᵠ': 'Q'}
NONF = ('nan', 'NAN', 'inf', 'INF')


class Text(object):

    def __init__(self, E, template):
        self.E = E
        self.runs = {}
        out = []
        i = 0
        while i < len(template):
            for w in NONF:
                if template.startswith(w, i):
                    out.append(w)
                    i += 3
                    break
            else:
                c = template[i]
                i += 1
                if c in LETTERS:
                    out.append(self.run(c))
                elif c in SUPL:
                    out.append(Tok('sdigs', self.run(SUPL[c])))
                elif c == '_':
                    out.append(parsing.SPACES)
                else:
                    out.append(c)
        self.s = simp(SStr(*out))

    def run(self, c):
        if c not in self.runs:
            self.runs[c] = parsing.digs(self.E, c)
        return self.runs[c]

    def val(self, c):
        return self.E.iterm(self.run(c).data[1])

    def len(self, c):
        return self.E.iterm(self.run(c).data[2])


DEC = '(?:[A-Z]\\.?[A-Z]?|\\.[A-Z]|nan|NAN|inf|INF)'
EXP = '(?:[eE]([+-]?)([A-Z])|_?×_?10([⁺⁻]?)([ⁿᵐᵠ]))'


def exponent(T, groups):
    """Integer term of the exponent, or None."""
    s, c, s2, c2 = groups
    if c is None and c2 is None:
        return None
    v = T.val(c or SUPL[c2])
    return -v if (s or s2) in ('-', '⁻') else v


def dec(T, t):
    """(integer part term or None, fraction letter) -> the real denoted by a decimal text as a term, or a float."""
    if t in NONF:
        return float(t)
    sc = T.E.scale
    i, dot, f = t.partition('.')
    if i and f:
        return z3.ToReal(T.val(i)) + sc.sc(z3.ToReal(T.val(f)), -T.len(f))
    if i:
        return z3.ToReal(T.val(i))
    return sc.sc(z3.ToReal(T.val(f)), -T.len(f))


def times(T, v, e):
    if e is None or isinstance(v, float):
        return v
    return T.E.scale.sc(z3.simplify(v), e)


def neg(v, s):
    if s != '-':
        return v
    return -v


def number(T, t):
    m = re.fullmatch('([+-]?)(%s)(?:%s)?' % (DEC, EXP), t.strip('_'))
    v = neg(dec(T, m.group(2)), m.group(1))
    return times(T, v, exponent(T, m.groups()[2:]))


def shorthand(T, t):
    m = re.fullmatch('([+-]?)(%s)(?:\\((%s)\\))?(?:%s)?' % (DEC, DEC, EXP), t)
    sign, main, unc = m.groups()[:3]
    e = exponent(T, m.groups()[3:])
    v = neg(dec(T, main), sign)
    f = main.partition('.')[2] if main not in NONF else ''
    nd = T.len(f) if f else z3.IntVal(0)
    if unc is None:
        s = T.E.scale.sc(z3.RealVal(1), -nd)
    elif unc in NONF or '.' in unc:
        s = dec(T, unc)
    else:
        s = T.E.scale.sc(z3.ToReal(T.val(unc)), -nd)
    return times(T, v, e), times(T, s, e)


def denote(T, t):
    t = t.strip('_')
    m = re.fullmatch('\\((.*)\\)%s' % EXP, t)
    if m is None and t[0] == '(' and t[-1] == ')':
        return denote(T, t[1:-1])
    if m is not None:
        e = exponent(T, m.groups()[1:])
        n, s = denote(T, m.group(1))
        return times(T, n, e), times(T, s, e)
    for sep in ('+/-', '±'):
        if sep in t:
            a, b = t.split(sep)
            return number(T, a), number(T, b)
    return shorthand(T, t)


CALLS = [('ufloat_fromstr(text)', lambda E, s, tag: run(E, uncertainties.ufloat_fromstr, s), False),
         ('ufloat_fromstr(text, tag)', lambda E, s, tag: run(E, uncertainties.ufloat_fromstr, s, tag), True),
         ('ufloat(text)', lambda E, s, tag: run(E, uncertainties.ufloat, s), False),
         ('ufloat(text, tag)', lambda E, s, tag: run(E, uncertainties.ufloat, s, tag), True)]


def same_real(E, label, got, want):
    if isinstance(want, float):
        return same_num(E, label, got if isinstance(got, Sym) else float(got), want)
    if not (is_num(got) and (isinstance(got, Sym) or finite_const(got))):
        return E.ensure(label, False, show(got))
    return E.ensure(label, E.scale.value_eq(E.term(got), z3.simplify(want)), show(got))


def check_text(E, T, template, call, bad=False):
    name, fn, withtag = call
    tag = Opaque('tag', cls=str, attrs={'closed': True})
    r = fn(E, T.s, tag)
    label = '%s of %s' % (name, template)
    if bad:
        E.ensure(label + ' raises ValueError', r[0] == 'exc' and isinstance(r[1], ValueError), show(r))
        E.cover('text')
        return
    if not E.ensure(label + ': no exception', r[0] == 'ok', show(r)):
        return
    x = r[1]
    n, s = denote(T, template)
    if not E.ensure(label + ': a Variable', type(x) is core.Variable, show(x)):
        return
    same_real(E, label + ': nominal value', object.__getattribute__(x, '_nominal_value'), n)
    same_real(E, label + ': standard deviation', object.__getattribute__(x, '_std_dev'), s)
    t = object.__getattribute__(x, 'tag')
    E.ensure(label + ': tag', t is tag if withtag else t is None, show(t))
    E.cover('text')


def parse(templates, bad=False):
    def h(E):
        coll.setup(E)
        fmtmod.Scale(E)
        k = E.choose(len(templates), 'template')
        t = templates[k]
        T = Text(E, t)
        check_text(E, T, t, CALLS[k % 4 if not bad or k % 4 != 2 else 0], bad)
    return h


SIGNS = ('', '-', '+')
DECS = ('I', 'I.', '.F', 'I.F') + NONF
UDECS = ('U', 'U.', '.V', 'U.V') + NONF
EXPS = ('', 'eN', 'e-N', 'E+N', '×10ⁿ', '×10⁻ⁿ', '_×_10⁺ⁿ', '_×10⁻ⁿ', '×_10ⁿ')
UEXPS = tuple(e.replace('N', 'M').replace('ⁿ', 'ᵐ') for e in EXPS)
WRAPS = ('%s', '(%s)', '(%s)eQ', '(%s)e-Q', '(%s)E+Q', '(%s)×10ᵠ', '(%s)_×_10⁻ᵠ', '(%s)_×10⁺ᵠ', '_%s_', '_(%s)×10⁻ᵠ_', '((%s)eQ)')
SEPS = ('+/-', '±', '_+/-_', '_±_', '±_')
NOMS = [s + d + e for s in SIGNS for d in DECS for e in EXPS if not (d in NONF and e)]
UNCS = [s + d + e for s in ('', '+') for d in UDECS for e in UEXPS if not (d in NONF and e)]
SHORT = [s + d + u + e for s in SIGNS for d in DECS for u in [''] + ['(%s)' % w for w in UDECS] for e in EXPS if not (d in NONF and u == '')]


def rotate(n, k):
    return [x for i, x in enumerate(n) if i % k == 0]


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


PM = []
for _i, _n in enumerate(NOMS):
    for _j in range(2):
        PM.append(WRAPS[(_i + 3 * _j) % len(WRAPS)] % (_n + SEPS[(_i + _j) % 5] + UNCS[(7 * _i + 31 * _j) % len(UNCS)]))
for _i, _u in enumerate(UNCS):
    for _j in range(2):
        PM.append(WRAPS[(_i + 5 * _j + 1) % len(WRAPS)] % (NOMS[(11 * _i + 17 * _j) % len(NOMS)] + SEPS[(_i + _j + 2) % 5] + _u))
PM += [w % ('I.F' + s + 'U.V') for w in WRAPS for s in SEPS]
SH = [WRAPS[_i % 2] % t if _i % 3 else WRAPS[_i % len(WRAPS)] % t for _i, t in enumerate(SHORT)] + \
     [w % t for w in WRAPS for t in ('I.F(U)', 'I(U)', 'I.F(U.V)', 'I.F', 'I.F(U)e-N', '.F(.V)×10ⁿ', 'I.(nan)')]
BAD = ['', '_', 'I.F.G', 'I+/-', '+/-U', '±', 'I.F(U', 'I.FU)', 'I.F(U)e', 'I.F(U)×10', 'I.F(U)xN', 'I.F(U)x10ⁿ', 'I.F(U))',
       '((I.F(U)', 'I.F(-U)', 'I.F(+U)', 'I.F(UeN)', 'I.F(U)(V)', 'I.F(U)eN.M', '--I', '-+I(U)', 'I_F', 'I+-U', 'I+/U', '(I+/-U)e',
       '(I+/-U)fN', '(I+/-U)×10', '(I+/-U)10', 'eN', '.', '()', '(.)', 'I()', 'I(.)', 'I±U±', 'I.F(U)eN_M', 'I.F(U)\neN', 'I+/-U\nx',
       'I+/-U_x', 'x_I+/-U', 'I(U)x', 'xI(U)', 'I(U)_V', 'I,F(U)', 'I.F[U]', 'I.F{U}', '$I', 'I.F(U)%', '(I+/-U)%', 'I/F', 'I_(U)',
       'I(_U)', '-nan(x)', 'Nan(U)', 'iNf(U)', 'I.F(Nan)', '(I+/-U)e+', '(I+/-U)eN.M', 'Iⁿ', '10⁻ⁿ', 'I.F(U)×⁻ⁿ', '(I.F(U))e-Nx',
       '(I.F)(U)', 'I.F+/-U(V)', 'I(U)+/-V', 'I.F(U)+V', '10xN(U)', 'I.F(10xU)', 'IeN(U)', 'one+/-two', 'I+/-two', 'one+/-U', '(I+/-U',
       'I+/-U)', 'I.F(U)e--N', 'I.F(U)e++N', 'I+/-U+/-V', 'I±U+/-V', 'I+/-UeN.M', 'IeN.M+/-U', 'I×10ⁿ.+/-U', 'I×U+/-V', 'I.F(U)\n_x',
       '(I.F(U)\n)', '(I+/-U)eN\n+', 'I e N+/-U', '(I.F(U)eN', 'I.F)(U)', 'abc', 'I.F(U.V.G)', 'I.F(..V)', '+(I)', '-(I+/-U)', 'I.F±(U)',
       '(I)+/-(U)', 'I.F(U)e(N)', 'I.F(U)×10(N)', 'I.F(U)×10ⁿⁿ-', 'I.F(U)×10^N', 'I.F(U)*10ⁿ', 'I.F(U)E', 'I.F+/-U e N']
BAD = [b.replace(' ', '_') for b in BAD]
BAD = BAD + ['(%s)' % b for b in BAD if b not in ('I.FU)', 'I.F(U))', '(I+/-U', '((I.F(U)', '(I.F(U)eN', 'I.F(U', '', '_')] + \
      ['_%s_' % b for b in BAD[2:]]

UNITS = {}
for _i, _c in enumerate(chunks(PM, 60)):
    UNITS['nominal +/- uncertainty, %d' % _i] = (parse(_c), {'covers': ('text',)})
for _i, _c in enumerate(chunks(SH, 60)):
    UNITS['shorthand, %d' % _i] = (parse(_c), {'covers': ('text',)})
for _i, _c in enumerate(chunks(BAD, 60)):
    UNITS['rejected, %d' % _i] = (parse(_c, True), {'covers': ('text',)})
