# -*- coding: utf-8 -*-
"""C16: layout options of format() and the text of repr()."""
import itertools
from .fmtspec import *

OPTS = [''.join(o) for n in range(5) for o in itertools.combinations('PSLp', n)]
LAYS = {
    'plain': {},
    'W': {'width': True},
    '0W': {'width': True, 'zeropad': True},
    '*<W': {'width': True, 'fill': '*', 'align': '<'},
    '^W': {'width': True, 'align': '^'},
    '+': {'sign': '+'},
    '+0W,': {'width': True, 'zeropad': True, 'sign': '+', 'comma': ','},
    'x> W,': {'width': True, 'fill': 'x', 'align': '>', 'sign': ' ', 'comma': ','},
    '-,': {'sign': '-', 'comma': ','},
}


def laid_out(nk, sk, mode, typ, lay, opts):
    def h(E):
        coll.setup(E)
        fmtmod.Scale(E)
        contracts(E)
        check_format(E, nk, sk, mode, typ, LAYS[lay], opts)
    return h


INVALID = ['.f.', '5.', '.2fX', '.2ff', '5,,', '.2uu', '.u2', '{<5', '}>5', '==5', ' f ', '5_', '5_f', '1e5', '.2fSu', 'f\n', '0x5',
           '.2u.3', 'pp5', '{', '}', '{5', '.2d', '5d', '10.2d', '.2fd', '10,.2k', '5ff', 'xx', 'xyz', 'abcdef', '<5<', '.2f5',
           '.2S5', '.2uSf', 'x<y<5', '5.5.5f', '.2n', '5s']


def invalid(E):
    coll.setup(E)
    fmtmod.Scale(E)
    contracts(E)
    spec = INVALID[E.choose(len(INVALID), 'spec')]
    x, nom, std = variable(E, 'fin', 'pos')
    r = run(E, progs.do_format, x, spec)
    E.ensure('invalid specification %r refused' % spec, r[0] == 'exc' and type(r[1]) is ValueError, show(r))
    E.cover('refused')


def ways(way):
    """str() and .format() and '{}'.format."""
    def h(E):
        coll.setup(E)
        fmtmod.Scale(E)
        contracts(E)
        f = {'str': lambda x, s: progs.do_str, 'format': 0}
        if way == 'str':
            check_format(E, 'fin', 'pos', '', '', {}, '', call=progs.str_ignoring_spec)
        else:
            check_format(E, 'fin', 'pos', '2u', 'e', {}, 'S', call=progs.format_method)
    return h


def representation(kind, nk, sk, tagged):
    def h(E):
        coll.setup(E)
        fmtmod.Scale(E)
        if kind == 'var':
            x, nom, std = variable(E, nk, sk)
            if tagged:
                tag = 'the tag'
                object.__setattr__(x, 'tag', tag)
        else:
            std_contract(E)
            nom = E.real('nom') if nk == 'fin' else float(nk)
            x = coll.new_asf(E, 'x', nominal=nom)
        fr = Frame(E, x)
        r = run(E, progs.do_repr, x)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        if kind != 'var':
            std = E.std_reads[-1][1]
        ns = 'nan' if nom != nom else None
        n = SStr(Tok('repr', SFloat(nom.t))) if isinstance(nom, Sym) else repr(float(nom))
        if isinstance(std, Sym):
            if E.decide(std.t == 0):
                s = '0'
            else:
                s = SStr(Tok('repr', SFloat(std.t)))
        else:
            s = repr(float(std)) if std else '0'
        want = simp(SStr(n, '+/-', s))
        if tagged:
            want = SStr('< the tag = ', want, ' >')
        fmtmod.match_text(E, 'repr', r[1], want)
        fr.check()
        E.cover('text')
    return h


UNITS = {}
REP = [('2', 'e'), ('1', '%'), ('2u', 'g'), ('0', 'F'), ('3', ''), ('', ''), ('', 'e'), ('u', '%'), ('pu', 'f'), ('p', 'G')]
KINDS = [('fin', 'pos'), ('nan', 'pos'), ('fin', '0'), ('fin', 'nan'), ('-inf', 'inf'), ('inf', 'pos'), ('fin', 'inf'), ('nan', '0')]
_i = 0
for _r, (_m, _t) in enumerate(REP):
    for _l in LAYS:
        for _o in OPTS:
            for (_n, _s) in KINDS:
                _i += 1
                # quick: every option subset with every layout on finite values, with and without exponent; the other kinds
                # of values in rotation
                if (_n, _s) == ('fin', 'pos'):
                    quick = _r == 1 or _r == 0 and _o in ('', 'P', 'S', 'L', 'p', 'PS', 'SL', 'PL', 'PSLp')
                else:
                    quick = _i % 29 == 0 and _r < 5
                if not quick and (_n, _s) != ('fin', 'pos') and _i % 7:
                    continue
                UNITS['layout %s, format %r, options %s, nominal %s, std_dev %s' % (
                    _l, ('.' if _m[:1].isdigit() else '') + {'p': '.<p>', 'pu': '.<p>u'}.get(_m, _m) + _t, _o or '-', _n, _s)] = (
                        laid_out(_n, _s, _m, _t, _l, _o), {'covers': ('text',), 'thorough': not quick})
LAYS['0'] = {'zeropad': True}
LAYS['+0,'] = {'zeropad': True, 'sign': '+', 'comma': ','}
for _j, (_l, _o, _n, _s) in enumerate(itertools.product(('0', '+0,'), ('', 'S', 'P', 'SL', 'PL', 'p'), ('fin', 'nan'), ('pos', '0', 'nan'))):
    UNITS['layout %s, options %s, nominal %s, std_dev %s' % (_l, _o or '-', _n, _s)] = (
        laid_out(_n, _s, '2', 'eg'[_j % 2], _l, _o), {'covers': ('text',), 'thorough': (_n, _s) != ('fin', 'pos') and _j % 5})
UNITS['invalid specifications'] = (invalid, {'covers': ('refused',)})
UNITS['str()'] = (ways('str'), {'covers': ('text',)})
UNITS['.format()'] = (ways('method'), {'covers': ('text',)})
for _n in NOMS:
    for _s in STDS:
        for _g in (False, True):
            UNITS['repr of a%s variable, nominal %s, std_dev %s' % (' tagged' if _g else '', _n, _s)] = (
                representation('var', _n, _s, _g), {'covers': ('text',)})
    UNITS['repr of a result, nominal %s' % _n] = (representation('asf', _n, None, False), {'covers': ('text',)})
