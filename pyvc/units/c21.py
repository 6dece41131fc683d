# -*- coding: utf-8 -*-
"""C21: the fixers of the 1to2 converter, on schematic syntax trees.

The tree of a piece of code whose sub-expressions are *arbitrary* (Hole nodes) goes through the fixers: match() (the patterns of
/repo, executed by lib2to3) and transform() (interpreted).  What a hole is gets decided only when it is inspected, by exploring
all the possibilities: what was never inspected is arbitrary.  The expected text is computed by convert(), written from the
documentation of the converter and independent of /repo.

The traversal is the one of lib2to3 (children first): a hole stands for an expression whose own conversion has been done already, and
conversions keep the type of an expression (checked by the units on nested calls).
"""
import re
import lib2to3.pytree as pytree, lib2to3.pgen2.token as token
from lib2to3 import pygram
from lib2to3.pytree import Leaf, Node, Base
from .common import *
import rt.c21 as conv

syms = pygram.python_symbols
LEAVES = (token.NAME, token.NUMBER, token.STRING)
EXPRS = tuple(getattr(syms, n) for n in ('atom power term arith_expr shift_expr and_expr xor_expr expr comparison not_test and_test or_test '
                                         'test lambdef factor').split())
ARGS = EXPRS + (syms.argument, syms.arglist)
SHAPES = ('()', '(X)', '(X,)', '(X,Y)', '(X,Y,)', '(X,Y,Z)', '(X for x in Y)', '[]', '[X]', '[X,Y]', '{X:Y}', 'STRINGS')


class State(object):
    """What has been decided about a hole."""

    def __init__(self, E, label, types):
        self.E, self.label, self.types, self.words = E, label, list(types), set()
        self.word = self.parts = self.shape = None
        E.holes[label] = self

    def has_type(self, t):
        t = int(t)
        if t not in self.types:
            return False
        if len(self.types) == 1:
            return True
        if self.E.choose(2, '%s is a %s' % (self.label, pytree.type_repr(t) if t >= 256 else token.tok_name[t])) == 0:
            self.types = [t]
            return True
        self.types.remove(t)
        return False

    def is_leaf(self):
        a = [t for t in self.types if t < 256]
        b = [t for t in self.types if t >= 256]
        if a and b:
            self.types = (a, b)[self.E.choose(2, '%s is a leaf or a node' % self.label)]
        return self.types[0] < 256

    def the_type(self):
        while len(self.types) > 1:
            self.has_type(self.types[0])
        return self.types[0]

    def is_word(self, w):
        w = str.__str__(w)
        if self.word is not None:
            return w == self.word
        if w in self.words or not self.is_leaf() or not w.isidentifier() or not self.has_type(token.NAME):
            return False
        if self.E.choose(2, '%s is %s' % (self.label, w)) == 0:
            self.word = w
            return True
        self.words.add(w)
        return False

    def children(self, parent):
        if self.is_leaf():
            return []
        if self.parts is None:
            t = self.the_type()
            if t == syms.atom:
                self.shape = SHAPES[self.E.choose(len(SHAPES), 'shape of %s' % self.label)]
                self.parts = self.build()
            elif t == syms.arglist:
                n = ('X,T', 'X,', 'X,T,', 'X,T,T')[self.E.choose(4, 'arguments %s' % self.label)]
                self.parts = []
                for i, c in enumerate(n):
                    self.parts.append(Leaf(token.COMMA, ',') if c == ',' else Hole(State(self.E, '%sX%d' % (self.label, i), LEAVES + EXPRS + (syms.argument,) * (c == 'T'))))
            else:
                raise Unsupported('children of an arbitrary %s' % pytree.type_repr(t))
        for c in self.parts:
            c.parent = parent
        return self.parts

    def build(self):
        s = self.shape
        if s == 'STRINGS':
            return [Leaf(token.STRING, '"%s1"' % self.label), Leaf(token.STRING, '"%s2"' % self.label, prefix=' ')]
        h = {k: Hole(State(self.E, self.label + k, LEAVES + EXPRS)) for k in 'XYZ'}
        left, right = Leaf(token.OP, s[0]), Leaf(token.OP, s[-1])
        left.type = {'(': token.LPAR, '[': token.LSQB, '{': token.LBRACE}[s[0]]
        right.type = {')': token.RPAR, ']': token.RSQB, '}': token.RBRACE}[s[-1]]
        if 'for' in s:
            body = Node(syms.testlist_gexp, [h['X'], Node(syms.comp_for, [Leaf(token.NAME, 'for', prefix=' '), Leaf(token.NAME, 'x', prefix=' '),
                                                          Leaf(token.NAME, 'in', prefix=' '), h['Y']])])
            h['Y'].prefix = ' '
            return [left, body, right]
        m = [h[c] if c in h else Leaf(token.COMMA, ',') if c == ',' else Leaf(token.COLON, ':') for c in s[1:-1]]
        if not m:
            return [left, right]
        if len(m) > 1:
            m = [Node({'(': syms.testlist_gexp, '[': syms.listmaker, '{': syms.dictsetmaker}[s[0]], m)]
        return [left] + m + [right]

    def text(self):
        return '__%s__' % self.label


def rendered(E, text):
    """A text, where the holes about which something was decided are replaced by their texts."""
    def sub(m):
        s = E.holes[m.group(1)]
        if s.word is not None:
            return s.word
        return m.group(0) if s.parts is None else rendered(E, ''.join(text_of(c) for c in s.parts))
    return re.sub('__([A-Z][A-Z0-9]+)__', sub, text)


class LazyType(int):
    """Type of a hole."""

    def __new__(cls, st):
        t = int.__new__(cls, -1)
        t.st = st
        return t

    def __eq__(self, o):
        if isinstance(o, LazyType):
            return self.st.the_type() == o.st.the_type()
        return isinstance(o, int) and self.st.has_type(o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.st.is_leaf() if o == 256 else self.st.the_type() < o

    def __ge__(self, o):
        return not self < o

    def __gt__(self, o):
        return not self <= o

    def __le__(self, o):
        return self.st.the_type() <= o

    def __hash__(self):
        return hash(self.st.the_type())
    __index__ = __int__ = lambda self: self.st.the_type()


class LazyText(str):
    """Value of a hole which is a leaf."""

    def __new__(cls, st):
        t = str.__new__(cls, '<hole>')
        t.st = st
        return t

    def __eq__(self, o):
        if isinstance(o, LazyText):
            return self.st is o.st
        return isinstance(o, str) and self.st.is_word(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of an arbitrary text')

    def __str__(self):
        raise Unsupported('arbitrary text')


def _no(name):
    def m(self, *a, **k):
        raise Unsupported('str.%s of an arbitrary text' % name)
    return m


for _n in dir(str):
    if not _n.startswith('_') or _n in ('__len__', '__getitem__', '__contains__', '__iter__', '__add__', '__mod__', '__mul__', '__lt__', '__le__', '__gt__', '__ge__', '__format__'):
        setattr(LazyText, _n, _no(_n))


class Hole(Base):
    """An arbitrary expression."""
    was_changed = False

    def __new__(cls, *a):
        return object.__new__(cls)

    def __init__(self, st, prefix=''):
        self.st, self.prefix, self.parent = st, prefix, None
        self.fixers_applied = []

    @property
    def __class__(self):
        # (type() is Hole; isinstance() decides)
        return Leaf if self.st.is_leaf() else Node

    @property
    def type(self):
        return LazyType(self.st)

    @property
    def value(self):
        if not self.st.is_leaf():
            raise AttributeError('value')
        return LazyText(self.st)

    @value.setter
    def value(self, v):
        if not self.st.is_leaf():
            raise Unsupported('value given to an arbitrary node')
        E = self.st.E
        self.st = State(E, '%sV%d' % (self.st.label, len(E.holes)), (self.st.the_type(),))
        self.st.word = str(v)

    @property
    def children(self):
        return self.st.children(self)

    def __eq__(self, o):
        return self is o or (type(o) is Hole and o.st is self.st)

    def __hash__(self):
        return id(self)

    def _eq(self, o):
        return self == o

    def clone(self):
        return Hole(self.st, self.prefix)

    def post_order(self):
        yield self

    def pre_order(self):
        yield self

    def leaves(self):
        yield self

    def __str__(self):
        if not RENDERING:
            raise Unsupported('text of an arbitrary expression')
        return self.prefix + self.st.text()

    def __repr__(self):
        return '<hole %s>' % self.st.label


RENDERING = []


def text_of(tree):
    RENDERING.append(1)
    try:
        return str(tree)
    finally:
        RENDERING.pop()


def is_hole(n):
    return type(n) is Hole


def parse(text):
    return conv.tool().driver.parse_string(text)


def schematic(text, holes):
    """The tree of a text, whose placeholders (__label__) are replaced by holes."""
    t = parse(text + '\n')
    for leaf in list(t.leaves()):
        if leaf.value.startswith('__') and leaf.value.endswith('__') and leaf.value[2:-2] in holes:
            leaf.replace([Hole(holes[leaf.value[2:-2]], leaf.prefix)])
    return t


def make_holes(E, text):
    """Placeholders: __A1__ (one argument of a call, or several), __X1__ (an expression), __N1__ (a name)."""
    kinds = {'A': LEAVES + ARGS, 'X': LEAVES + EXPRS, 'N': (token.NAME,), 'T': LEAVES + EXPRS + (syms.argument,), 'S': (token.STRING,)}
    return {m: State(E, m, kinds[m[0]]) for m in re.findall('__([AXNTS][0-9]+)__', text)}


def converted(E, tree):
    """The tree, after RefactoringTool.traverse_by() of the fixers of the package (holes have been traversed before)."""
    tool = conv.tool()
    if tool.BM.fixers:
        raise Unsupported('fixers for the bottom matcher')
    for fx in list(tool.pre_order) + list(tool.post_order):
        run_ok(E, fx.start_tree, tree, 'x.py')
    for heads, order in ((tool.bmi_pre_order_heads, 'pre_order'), (tool.bmi_post_order_heads, 'post_order')):
        for node in getattr(tree, order)():
            if is_hole(node):
                continue
            for fx in heads[node.type]:
                results = run_ok(E, fx.match, node)
                if results:
                    new = run_ok(E, fx.transform, node, results)
                    if new is not None:
                        node.replace(new)
                        node = new
    for fx in list(tool.pre_order) + list(tool.post_order):
        run_ok(E, fx.finish_tree, tree, 'x.py')
    return tree


def run_ok(E, f, *args):
    r = run(E, f, *args)
    if r[0] == 'exc':
        E.ensure('%s succeeds' % getattr(f, '__name__', 'call'), False, show(r))
        raise PathEnd
    return r[1]


# ---------------------------------------------------------------------------- specification

FIRST = []   # first elements of the pairs given to ufloat()


class Unspecified(Exception):
    pass


def tuple2(n):
    """The two elements of a pair in parentheses (None: something else)."""
    if is_hole(n):
        if not n.st.has_type(syms.atom):
            return None
        n.children
        if n.st.shape == '(X,Y,)':
            raise Unspecified
        return tuple(n.st.parts[1].children[::2]) if n.st.shape == '(X,Y)' else None
    if n.type == syms.atom and len(n.children) == 3 and str(n.children[0]).strip() == '(':
        m = n.children[1]
        if not is_hole(m) and m.type == syms.testlist_gexp and len(m.children) == 3 and str(m.children[1]).strip() == ',':
            return m.children[0], m.children[2]
    return None


def has_type(n, t):
    return n.st.has_type(t) if is_hole(n) else n.type == t


def is_name(n, *names):
    if is_hole(n):
        return any(n.st.has_type(token.NAME) and n.st.is_word(w) for w in names)
    return n.type == token.NAME and n.value in names


def convert(n):
    """Text (without spaces) of the conversion of a tree."""
    if is_hole(n):
        return n.st.text()
    if isinstance(n, Leaf):
        return n.value if n.value in ('\n', '\t') or n.value.isspace() else n.value
    if n.type == syms.power:
        return power(n)
    return ' '.join(convert(c) for c in n.children)


def is_call(t):
    return not is_hole(t) and t.type == syms.trailer and str(t.children[0]).strip() == '('


def attribute(t, *names):
    return not is_hole(t) and t.type == syms.trailer and str(t.children[0]).strip() == '.' and is_name(t.children[1], *names)


def arguments(t, needed=False):
    """Arguments of a call (None: several arguments, if they are not needed)."""
    c = t.children[1:-1]
    if not c:
        return []
    if is_hole(c[0]):
        if not c[0].st.has_type(syms.arglist):
            return [c[0]]
        if not needed:
            return None
    if c[0].type == syms.arglist:
        if needed and len(c[0].children) % 2 == 0:
            raise Unspecified   # comma after the last argument
        return c[0].children[::2]
    return [c[0]]


def power(n):
    c = list(n.children)
    out = [convert(x) for x in c]
    # creation:  f(...)  or  module.f(...)
    i = None
    for f in ('ufloat', 'uarray', 'umatrix'):
        if is_name(c[0], f) and len(c) > 1 and is_call(c[1]):
            i = 0
        elif len(c) > 2 and has_type(c[0], token.NAME) and attribute(c[1], f) and is_call(c[2]):
            i = 1
        else:
            continue
        name, args = f, arguments(c[i + 1], f == 'ufloat')
        new = creation(name, args)
        if new is not None:
            name, texts = new
            out[i] = ('. ' if i else '') + name
            out[i + 1] = '( ' + ' , '.join(texts) + ' )'
        break
    # x.std_dev()
    for j in range(1, len(c) - 1):
        for f in ('std_dev', 'std_devs'):
            if attribute(c[j], f) and is_call(c[j + 1]) and len(c[j + 1].children) == 2:
                out[j + 1] = ''
    # x.set_std_dev(v)
    if len(c) > 2 and attribute(c[-2], 'set_std_dev') and is_call(c[-1]) and n.parent is not None and n.parent.type == syms.simple_stmt:
        args = arguments(c[-1])
        if args is None or len(args) > 1:
            raise Unspecified   # (never was a valid call)
        if args and not has_type(args[0], syms.argument):
            if i is not None:
                raise Unspecified
            out[-2:] = ['. std_dev', '=', convert(args[0])]
    return ' '.join(out)


def creation(name, args):
    if not args:
        return None
    first = args[0]
    if name == 'ufloat':
        if len(args) > 2:
            return None
        extra = [convert(a) for a in args[1:]]
        if has_type(first, token.STRING):
            return 'ufloat_fromstr', [convert(first)] + extra
        p = tuple2(first)
        if p is None:
            return None
        FIRST.append(p[0])
        return 'ufloat', [convert(p[0]), convert(p[1])] + extra
    if len(args) > 1 or has_type(first, syms.argument):
        return None
    p = tuple2(first)
    if p is not None:
        return name, [convert(p[0]), convert(p[1])]
    return name, ['*' + convert(first)]


def bare(s):
    return ''.join(s.split())


def schema(*texts):
    """Obligations about schematic texts: the conversion is the specified one, and converting again changes nothing."""
    def h(E):
        coll.setup(E)
        E.holes = {}
        del FIRST[:]
        text = texts[E.choose(len(texts), 'text')] if len(texts) > 1 else texts[0]
        holes = make_holes(E, text)
        tree = schematic(text, holes)
        before = bare(text_of(tree))
        converted(E, tree)
        try:
            want = bare(convert(schematic(text, holes)))
        except Unspecified:
            raise PathEnd
        after = text_of(tree)
        got, want, before = (bare(rendered(E, t)) for t in (after, want, before))
        E.ensure('conversion of %s' % text, got == want, lambda: '%s is converted to %s instead of %s' % (before, got, want))
        E.ensure('code which is not obsolete is unchanged (%s)' % text, before != want or got == before, lambda: '%s -> %s' % (before, got))
        E.cover('converted' if before != want else 'unchanged')
        # once more:
        try:
            if any(has_type(f, token.STRING) or tuple2(f) for f in FIRST):
                return   # ufloat(("1", ...)) or ufloat(((1, 2), ...)) never was a valid call
        except Unspecified:
            return
        try:
            again = schematic(after.rstrip('\n'), E.holes)
        except Exception as e:
            E.ensure('the converted code of %s is valid' % text, False, '%s: %s' % (got, e))
            return
        converted(E, again)
        twice = bare(rendered(E, text_of(again)))
        got = bare(rendered(E, after))
        E.ensure('converting %s twice is converting it once' % text, twice == got, lambda: '%s, then %s' % (got, twice))
    return h


UNITS = {}


def _fill():
    U = UNITS
    trailers = ['', '.real', '[__X8__]', '(__A8__)', '.__N8__.n', '**__X8__', '.real[__X8__]', '.f(__A8__)(__A9__)']
    heads = ['', '__N7__.']
    for f in ('ufloat', 'uarray', 'umatrix'):
        for hd in heads:
            for t in trailers:
                U['%s%s(...)%s' % (hd, f, t)] = schema('%s%s(__A1__)%s' % (hd if t != '.__N8__.n' else hd and 'm.', f, t))
            U['%s%s(..., tag)' % (hd, f)] = schema(*['%s%s(__X1__, __T2__)%s' % (hd, f, t) for t in ('', '.real', '[__X8__]', '**2')])
            U['%s%s of literals' % (hd, f)] = schema(*['%s%s(%s)%s' % (hd, f, a, t) for t in ('', '.n') for a in (
                '', '(__X1__, __X2__)', '((__X1__, __X2__), __X3__)', '((__X1__, __X2__))', '__S1__', '__S1__, __T2__', '(__X1__, __X2__), __T3__',
                '__X1__, __X2__, __T3__', '(__X1__, __X2__), __T3__, __T4__', '*__X1__', '**__X1__', '__N1__=__X2__', '__S1__, __X2__, __T3__',
                '(__X1__, __X2__, __X3__)', '[__X1__, __X2__]', '(__X1__)', '(__X1__, __X2__), **__X3__', '(__X1__, __X2__), tag=__X3__',
                '__X1__, tag=__X2__', '__X1__ for x in __X2__', 'lambda: __X1__', '__X1__ + __X2__', '(__X1__, (__X2__, __X3__))')])
    for a in ('std_dev', 'std_devs'):
        U['.%s()' % a] = schema(*['%s.%s()%s' % (p, a, t) for t in trailers if t not in ('(__A8__)',)
                                  for p in ('__X1__', '__N1__', '__X1__[__X2__]', '__X1__.attr', '__N3__(__A2__)', 'm.__X1__'.replace('m.__X1__', '(__X1__)'))])
        U['.%s: other uses' % a] = schema('__X1__.%s' % a, '__X1__.%s(__A2__)' % a, '%s(__A2__)' % a, '%s()' % a, '__X1__.%s[__X2__]' % a, 'm.%s(__X1__)' % a,
                                          '__X1__.%s = __X2__' % a, '__X1__.%s(__X2__)()' % a, '__X1__.other_%s()' % a, '__X1__.%s_()' % a, 'del __X1__.%s' % a)
    U['.set_std_dev(): statement'] = schema(*['%s.set_std_dev(__A2__)' % p for p in ('__X1__', '__N1__', '__X1__[__X3__]', '__X1__.attr', '__X1__(__A3__).y', '(__X1__)')] +
                                            ['if __X1__: __N1__.set_std_dev(__A2__)', '__N1__.set_std_dev(__A2__); __X1__', 'x = __X1__; __N1__.set_std_dev(__A2__)'])
    U['.set_std_dev(): arguments'] = schema(*['__X1__.set_std_dev(%s)' % a for a in ('', '__X2__, __X3__', '*__X2__', '**__X2__', 'value=__X2__', '(__X2__, __X3__)',
                                                                                   '__X2__ if __X3__ else __X4__', 'lambda: __X2__', '__X2__ or __X3__', '-__X2__', '__X2__.std_dev()',
                                                                                   'ufloat(__A2__).std_dev()', '__X2__ for y in __X3__', '(__X2__ for y in __X3__)')])
    ctx = ['z = %s', '__X7__ + %s', '__N7__(%s)', '__N7__(__X8__, %s)', '[%s]', '(%s, __X7__)', '-%s', 'lambda: %s', '__X7__ if %s else __X8__', 'assert %s', '%s, __X7__', '%s = __X7__',
           '{__X7__: %s}', '[%s for x in __X7__]', '[x for x in %s]', '__N7__(key=%s)', '__X7__[%s]', '(%s)', 'not %s', '%s ** __X7__', '__X7__ < %s', 'if %s: pass', 'while %s: pass',
           'for x in %s: pass', 'z += %s', 'print(%s)', '@%s\ndef f(): pass', 'def f(x=%s): pass', 'class A(%s): pass', '__X7__ ; %s', 'with %s as y: pass', 'del %s', '*%s, y = z', '%s; %s']
    forms = {'ufloat': ['ufloat(__X1__)', 'm.ufloat((__X1__, __X2__), __T2__)'], 'uarray': ['uarray(__A1__)', 'm.umatrix(__A1__).I'],
             'std_dev': ['__X1__.std_dev()', '__X1__.std_devs()**2'], 'set_std_dev': ['__X1__.set_std_dev(__A2__)', '__X1__.set_std_dev(__A2__).real']}
    for k, fs in forms.items():
        texts = [c % ((f,) * c.count('%s')) for c in ctx for f in fs]
        ok = []
        for t in texts:
            try:
                parse(t + '\n')
                ok.append(t)
            except Exception:
                pass
        for q in range(4):
            U['%s in other code (%d)' % (k, q + 1)] = schema(*ok[q::4])
    inner = ['ufloat((__X1__, __X2__))', 'unc.ufloat(__S1__)', 'uarray(__X1__)', '__X1__.std_dev()', 'm.umatrix((__X1__, __X2__))', '__X1__.std_devs().n', 'ufloat(__S1__, __T2__)']
    outer = ['ufloat((%s, __X3__))', 'ufloat((__X3__, %s), __T4__)', 'ufloat(__S3__, %s)', 'uarray(%s)', 'm.umatrix((%s, __X3__))', '__X3__[%s].std_dev()', '__N3__(%s).std_devs()',
             '__X3__.set_std_dev(%s)', '__X3__[%s].set_std_dev(__X4__)', '(%s).std_dev()', '%s.std_dev()', 'ufloat((__X3__, %s)).real', 'uarray(__X3__)[%s]', '__N3__(%s, __T4__).n']
    for o in outer:
        U['nested: %s' % o] = schema(*[o % i for i in inner if not (o == '%s.std_dev()' and 'std_dev' in i)])


_fill()
