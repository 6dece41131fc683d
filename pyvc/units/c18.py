# -*- coding: utf-8 -*-
"""C18: printed values parse back to what was printed.

format(x, specification) is executed on an arbitrary x; the numerals of the resulting text are turned into runs of digits
(canonical()), and the text is given to the real parser: the parsed numbers are the displayed ones, which differ from the
original ones by at most half a unit of the last displayed digit."""
from .fmtspec import *
from .. import parsing
import uncertainties


def run_for(E, name, value, length=None, minlen=1):
    return parsing.digs(E, name, value=value, length=length if length is not None else E.fresh('len', z3.IntSort()), minlen=minlen)


def numeral(E, n, k):
    """Text of a numeral."""
    sc = E.scale
    if n.kind in ('int', 'exp'):
        neg = E.decide(n.value < 0)
        r = run_for(E, 'i%d' % k, z3.simplify(-n.value) if neg else n.value, minlen=2 if n.kind == 'exp' else 1)
        return SStr('-' if neg else '+' if n.kind == 'exp' else '', r)
    if n.value is None:
        if n.zero:
            raise Unsupported('zero-padded nan or inf')
        return format(n.x, n.sign + ('F' if n.upper else 'f'))
    if n.comma:
        raise Unsupported('thousands separator')
    if n.kind == 'g':
        if n.prec is not None or n.spec not in ('', None):
            raise Unsupported('general float format')
        v = n.value
        expo = not E.decide(z3.Or(v == 0, z3.And(sc.pow10(z3.IntVal(-4)) <= z3.If(v >= 0, v, -v),
                                                z3.If(v >= 0, v, -v) < sc.pow10(z3.IntVal(16)))))
        neg = E.decide(v < 0)
        sign = '-' if neg else n.sign
        return SStr(sign, Tok('flt', SFloat(z3.simplify(-v) if neg else v), 'e' if expo else 'f'))
    neg = E.decide(n.value < 0)
    K = n.digits
    K = z3.simplify(-K) if neg else K
    E.fact(K >= 0)
    sign = '-' if neg else n.sign
    if E.decide(n.prec == 0):
        return SStr(sign, run_for(E, 'n%d' % k, K))
    i, f = parsing.digs(E, 'i%d' % k), parsing.digs(E, 'f%d' % k, length=n.prec)
    E.joins[(id(i), id(f))] = K
    E.keep.append((i, f))
    # value of the text: K / 10**prec
    return SStr(sign, i, '.', f)


def canonical(E, s):
    out = []
    for k, p in enumerate(s.parts if isinstance(s, SStr) else (s,)):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == 'align':
            inner = canonical(E, p.data[0])
            m = fmtmod.ALIGN.match(fmtmod.flatten(E, p.data[1])[0])
            if (m.group(1) or ' ') != ' ' or m.group(3):
                raise Unsupported('fill character')
            a = m.group(2) or '<'
            c = E.choose(3 if a == '^' else 2, 'padding')
            left = c and a in '>^=' and not (a == '^' and c == 2)
            right = c and a in '<^'
            out.append(SStr(parsing.SPACES if left else '', inner, parsing.SPACES if right else ''))
        elif p.kind == 'trans':
            n = fmtmod.as_numeral(E, p.data[0])
            t = numeral(E, n, k)
            out.extend(Tok('sdigs', q) if not isinstance(q, str) else {'-': '⁻', '+': '⁺', '': ''}[q] for q in SStr(t).parts)
        else:
            n = fmtmod.as_numeral(E, p)
            if n is None:
                raise Unsupported('numeral %r' % (p,))
            out.append(numeral(E, n, len(out) + 10 * k))
    return simp(SStr(*out))


def shown(E, t, D):
    """The displayed value of the term t (term)."""
    sc = E.scale
    v = scaled(E, t, D.ce)
    K = sc.digits(v, D.d)
    return sc.sc(z3.ToReal(K), (D.ce if D.ce is not None else 0) - D.d)


def close(E, label, t, D):
    """|displayed - t| <= half a unit of the last displayed digit; both sides are multiplied by 10**(decimals - exponent)."""
    sc = E.scale
    K = z3.ToReal(sc.digits(scaled(E, t, D.ce), D.d))
    b, e = sc.of(t)
    u = sc.sc(b, z3.simplify(e + D.d - (D.ce if D.ce is not None else 0)))
    E.ensure(label, z3.And(2 * (K - u) <= 1, 2 * (u - K) <= 1))


def round_trip(nk, sk, mode, typ, lay, opts):
    def h(E):
        coll.setup(E)
        sc = fmtmod.Scale(E)
        contracts(E)
        prec = None
        if mode[:1].isdigit():
            prec = z3.IntVal(int(mode[0]))
        elif 'p' in mode:
            prec = E.integer('prec').t
            E.assume(prec >= 0)
        lay2 = dict(lay)
        width = None
        if lay2.pop('width', False):
            width = E.integer('width').t
            E.assume(width >= 1)
        x, nom, std = variable(E, nk, sk)
        spec = spec_text(prec, 'u' in mode, typ, width=width, opts=opts, **lay2)
        r = run(E, progs.do_format, x, spec)
        if r[0] != 'ok':
            # refused specifications: C16
            return
        D = digits(E, nom, std, prec, 'u' in mode, typ)
        if D is None:
            return
        check_parse(E, r[1], nom, std, D, typ, opts)
    return h


def check_parse(E, txt, nom, std, D, typ, opts):
    """The text txt displays the numbers of D: it is parsed to them."""
    sc = E.scale
    special = zero(D.std) or not fin(D.std)
    exact = special and typ in ('', 'g', 'G')
    text = canonical(E, fmtmod.plain(E, txt))
    y = run(E, uncertainties.ufloat_fromstr, text)
    if not E.ensure('the printed text is parsed', y[0] == 'ok', lambda: '%r -> %s' % (text, show(y))):
        return
    y = y[1]
    n, s = object.__getattribute__(y, '_nominal_value'), object.__getattribute__(y, '_std_dev')
    d = lambda: '%r' % (text,)
    if not fin(nom):
        same_num(E, 'nominal value', n if isinstance(n, Sym) else float(n), nom, d)
    elif E.ensure('finite nominal value', fin(n), d):
        t = E.term(nom)
        E.ensure('the displayed nominal value', sc.value_eq(E.term(n), t if exact else shown(E, t, D)), d)
        if not exact:
            close(E, 'nominal value up to the displayed precision', t, D)
    if not fin(std):
        same_num(E, 'standard deviation', s if isinstance(s, Sym) else float(s), std, d)
    elif E.ensure('finite standard deviation', fin(s), d):
        if zero(std):
            want = rv(0)
        elif not fin(nom) and typ in ('', 'g', 'G') and 'S' not in opts:
            want = D.eff
        else:
            want = shown(E, D.eff, D)
            close(E, 'standard deviation up to the displayed precision', D.eff, D)
        E.ensure('the displayed standard deviation', sc.value_eq(E.term(s), want), d)
    E.cover('text')


def by_contract(nk, sk, exp, lays, gtype, opts):
    """The text is the one of the contract of format() (proved by the units of C15 and C16), with any number of decimals and
    any exponent."""
    def h(E):
        coll.setup(E)
        sc = fmtmod.Scale(E)
        E.assumptions['the text of format() is the one of its contract (proved by the units of C15 and C16)'] = 1
        lay, upper = lays[E.choose(len(lays), 'layout')]
        lay2 = dict(LAYS[lay])
        width = None
        if lay2.pop('width', False):
            width = E.integer('width').t
            E.assume(width >= 1)
        x, nom, std = variable(E, nk, sk)
        D = Digits()
        D.nom, D.std = nom, std
        D.eff = E.term(std) if fin(std) else None
        D.d = E.integer('decimals').t
        E.assume(D.d >= 0)
        D.ce = E.integer('exponent').t if exp else None
        if gtype and exp:
            # part of the contract of format(): the exponent is the one of the only finite part (rounded), or this part is 0
            for v in (nom, std):
                if isinstance(v, Sym):
                    m = E.term(scaled(E, E.term(v), D.ce))
                    E.assume(z3.Or(m == 0, z3.And(m >= z3.Q(9, 10), m <= 10), z3.And(-m >= z3.Q(9, 10), -m <= 10)))
        D.k = D.L = None
        D.control = True
        typ = ('eE' if exp else 'fF')[upper] if not gtype else ''
        want = layout(E, D, typ, None, width=width, opts=opts, **lay2)
        check_parse(E, simp(want), nom, std, D, typ, opts)
    return h


def repr_trip(kind, nk, sk):
    def h(E):
        coll.setup(E)
        fmtmod.Scale(E)
        if kind == 'var':
            x, nom, std = variable(E, nk, sk)
        else:
            std_contract(E)
            nom = E.real('nom') if nk == 'fin' else float(nk)
            x = coll.new_asf(E, 'x', nominal=nom)
        E.assumptions['float(repr(x)) == x for every float (CPython)'] = 1
        r = run(E, progs.do_repr, x)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        if kind != 'var':
            std = E.std_reads[-1][1]
            std = SFloat(std.t) if isinstance(std, Sym) else float(std)
        text = canonical(E, r[1])
        y = run(E, uncertainties.ufloat_fromstr, text)
        if not E.ensure('repr() is parsed', y[0] == 'ok', lambda: '%r -> %s' % (text, show(y))):
            return
        n, s = object.__getattribute__(y[1], '_nominal_value'), object.__getattribute__(y[1], '_std_dev')
        same_num(E, 'same nominal value', n if isinstance(n, Sym) else float(n), nom)
        same_num(E, 'same standard deviation', s if isinstance(s, Sym) else float(s), std)
        E.cover('text')
    return h


UNITS = {}
for _n in NOMS:
    for _s in STDS:
        UNITS['repr of a variable, nominal %s, std_dev %s' % (_n, _s)] = (repr_trip('var', _n, _s), {'covers': ('text',)})
    UNITS['repr of a result, nominal %s' % _n] = (repr_trip('asf', _n, None), {'covers': ('text',)})
LAYS = {'-': {}, 'W': {'width': True}, '<W': {'width': True, 'align': '<'}, '^W': {'width': True, 'align': '^'},
        '+0W': {'width': True, 'sign': '+', 'zeropad': True}, '+': {'sign': '+'}, '0W': {'width': True, 'zeropad': True}, ' ': {'sign': ' '},
        '>W': {'width': True, 'align': '>', 'fill': ' '}}
for _n in NOMS:
    for _s in STDS:
        for _e in (True, False):
            for _o in ('', 'S', 'P', 'PS', 'p', 'Pp', 'Sp'):
                for _g in (False, True):
                    # a general format (special values) in shorthand notation: bounded layer and end-to-end units
                    if _g and ('S' in _o or 'p' in _o or (_n, _s) == ('fin', 'pos')):
                        continue
                    _ls = [(_l, _k % 2 == 1) for _k, _l in enumerate(LAYS) if not (
                        '0W' in _l and (_n != 'fin' or _s in ('nan', 'inf') or _g))]
                    UNITS['text with%s exponent, options %s, %snominal %s, std_dev %s' % (
                        '' if _e else 'out', _o or '-', 'general, ' if _g else '', _n, _s)] = (
                            by_contract(_n, _s, _e, _ls, _g, _o), {'covers': ('text',)})
_i = 0
for _t in ('', 'e', 'f', 'g', 'E', 'F', 'G'):
    for _m in ('', 'u', 'pu', 'p'):
        for _n in NOMS:
            for _s in STDS:
                if 'p' in _m and 'u' not in _m and _t in ('', 'g', 'G') and (_n != 'fin' or _s != 'pos'):
                    continue        # general float format of a part: bounded layer
                if _t in ('g', 'G') and (_n != 'fin' or _s != 'pos'):
                    continue
                if _m == 'pu' and _s != 'pos' and _t in ('', 'g', 'G'):
                    continue
                if _t == '' and _n != 'fin':
                    continue
                for _o in ('', 'S', 'P', 'PS', 'p', 'Pp'):
                    for _l in ('-', 'W', '+'):
                        if _t == '' and 'S' in _o and _s != 'pos':
                            continue
                        _i += 1
                        quick = (_n, _s) == ('fin', 'pos') and _m in ('', 'u') and _t in ('', 'e', 'f') and _l == '-' and _o in ('', 'S')
                        if not quick and _i % 7:
                            continue
                        UNITS['end to end, layout %s, format %r, options %s, nominal %s, std_dev %s' % (
                            _l, {'p': '.<p>', 'pu': '.<p>u'}.get(_m, _m) + _t, _o or '-', _n, _s)] = (
                                round_trip(_n, _s, _m, _t, LAYS[_l], _o), {'covers': ('text',), 'thorough': not quick})
