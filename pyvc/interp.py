# -*- coding: utf-8 -*-
"""Symbolic interpreter of CPython 3.12 bytecode (the code objects of the functions imported from /repo)."""
import builtins, collections, dis, inspect, itertools, math, os, sys, types
import z3
from . import engine as EN
from .engine import (Engine, EngineSignal, PathEnd, Unsupported, Sym, SFloat, SInt, SBool, SNum, Opaque, SFunc,
                     SComplex, is_num, NUMS)

assert sys.version_info[:2] == (3, 12), 'pyvc reads CPython 3.12 bytecode'

REPO = os.environ.get('VP_REPO', '/repo').rstrip('/') + '/'


class _Null(object):
    def __repr__(self):
        return 'NULL'


NULL = _Null()


class Poison(object):
    """Value of a local variable whose content is unknown after a loop rule."""

    def __repr__(self):
        return 'POISON'


POISON = Poison()
UNBOUND = _Null()

_CODE = {}


class CodeInfo(object):
    def __init__(self, code):
        self.code = code
        self.ins = [i for i in dis.get_instructions(code)]
        self.index = {i.offset: n for n, i in enumerate(self.ins)}
        self.exc = dis._parse_exception_table(code)
        # static loops: head index -> last index (JUMP_BACKWARD)
        self.loops = {}
        self.wheads = set()
        for n, i in enumerate(self.ins):
            if i.opname in ('JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT'):
                h = self.index[i.argval]
                self.loops[h] = max(n, self.loops.get(h, 0))
                if self.ins[h].opname not in ('FOR_ITER', 'SEND'):
                    self.wheads.add(h)

    def handler(self, offset):
        for e in self.exc:
            if e.start <= offset < e.end:
                return e
        return None


def codeinfo(code):
    r = _CODE.get(code)
    if r is None:
        r = _CODE[code] = CodeInfo(code)
    return r


def interpretable(f):
    fn = f.__code__.co_filename
    if fn.startswith(REPO):
        return True
    if f.__globals__.get('__file__', '').startswith(REPO):
        return True
    return False


class Frame(object):
    def __init__(self, E, func, locs, depth):
        self.E = E
        self.func = func
        self.code = func.__code__
        self.info = codeinfo(self.code)
        self.globals = func.__globals__
        self.builtins = self.globals.get('__builtins__', builtins)
        if isinstance(self.builtins, types.ModuleType):
            self.builtins = self.builtins.__dict__
        self.locals = locs   # name -> value (fast locals) ; cells in self.cells
        self.cells = {}
        self.stack = []
        self.pc = 0
        self.kwnames = ()
        self.depth = depth
        self.exc_stack = []
        self.loopstate = {}
        self.done = False
        self.gen = None

    # ------------------------------------------------------------------
    def run(self, resume_value=NULL, resume_exc=None):
        """Runs until return or yield: ('return', v) or ('yield', v)."""
        E = self.E
        ins = self.info.ins
        if resume_value is not NULL:
            self.stack.append(resume_value)
        wheads = self.info.wheads
        while True:
            i = ins[self.pc]
            try:
                if wheads and self.pc in wheads:
                    E.while_head(self, self.pc)
                if resume_exc is not None:
                    x, resume_exc = resume_exc, None
                    raise x
                r = self.step(i)
            except EngineSignal:
                raise
            except BaseException as e:
                guard(e)
                h = self.info.handler(i.offset)
                if h is None:
                    self.done = True
                    raise
                del self.stack[h.depth:]
                if h.lasti:
                    self.stack.append(i.offset)
                self.stack.append(e)
                self.pc = self.info.index[h.target]
                continue
            if r is None:
                self.pc += 1
            elif isinstance(r, int):
                self.pc = r
            else:
                if r[0] == 'return':
                    self.done = True
                else:
                    self.pc += 1
                return r

    def jump(self, i):
        return self.info.index[i.argval]

    def step(self, i):
        op = i.opname
        m = getattr(self, 'op_' + op, None)
        if m is None:
            raise Unsupported('opcode %s in %s' % (op, self.code.co_name))
        return m(i)

    # --- trivial
    def op_RESUME(self, i): pass
    def op_NOP(self, i): pass
    def op_CACHE(self, i): pass
    def op_PRECALL(self, i): pass
    def op_EXTENDED_ARG(self, i): pass
    def op_POP_TOP(self, i): self.stack.pop()
    def op_PUSH_NULL(self, i): self.stack.append(NULL)
    def op_COPY(self, i): self.stack.append(self.stack[-i.arg])

    def op_SWAP(self, i):
        s = self.stack
        s[-1], s[-i.arg] = s[-i.arg], s[-1]

    def op_LOAD_CONST(self, i): self.stack.append(i.argval)
    def op_RETURN_CONST(self, i): return ('return', i.argval)
    def op_RETURN_VALUE(self, i): return ('return', self.stack.pop())

    # --- variables
    def getlocal(self, name):
        v = self.locals.get(name, UNBOUND)
        if v is POISON:
            raise Unsupported('local variable %s of %s is not determined after a loop' % (name, self.code.co_name))
        return v

    def op_LOAD_FAST(self, i):
        v = self.getlocal(i.argval)
        if v is UNBOUND:
            raise UnboundLocalError(i.argval)
        self.stack.append(v)
    op_LOAD_FAST_CHECK = op_LOAD_FAST

    def op_LOAD_FAST_AND_CLEAR(self, i):
        self.stack.append(self.locals.get(i.argval, UNBOUND))
        self.locals.pop(i.argval, None)

    def op_STORE_FAST(self, i):
        v = self.stack.pop()
        if v is UNBOUND:
            self.locals.pop(i.argval, None)
        else:
            self.locals[i.argval] = v

    def op_DELETE_FAST(self, i):
        self.locals.pop(i.argval, None)

    def op_LOAD_GLOBAL(self, i):
        if i.arg & 1:
            self.stack.append(NULL)
        name = i.argval
        if name in self.globals:
            v = self.globals[name]
        elif name in self.builtins:
            v = self.builtins[name]
        else:
            raise NameError(name)
        self.stack.append(v)

    def op_STORE_GLOBAL(self, i):
        raise Unsupported('assignment to the global variable %s' % i.argval)

    def op_LOAD_CLOSURE(self, i):
        self.stack.append(self.cells[i.argval])

    def op_MAKE_CELL(self, i):
        n = i.argval
        self.cells[n] = types.CellType(self.locals[n]) if n in self.locals else types.CellType()

    def op_COPY_FREE_VARS(self, i):
        for n, c in zip(self.code.co_freevars, self.func.__closure__ or ()):
            self.cells[n] = c

    def op_LOAD_DEREF(self, i):
        try:
            v = self.cells[i.argval].cell_contents
        except ValueError:
            raise NameError(i.argval)
        if v is POISON:
            raise Unsupported('variable %s is not determined after a loop' % i.argval)
        self.stack.append(v)

    def op_STORE_DEREF(self, i):
        c = self.cells[i.argval]
        self.E.log_write(c, 'cell')
        c.cell_contents = self.stack.pop()

    # --- attributes
    def op_LOAD_ATTR(self, i):
        o = self.stack.pop()
        v = self.E.getattr(o, i.argval)
        if i.arg & 1:
            # method call form: (self-or-NULL) ordering: NULL|method, self
            self.stack.append(NULL)
            self.stack.append(v)
        else:
            self.stack.append(v)

    def op_LOAD_SUPER_ATTR(self, i):
        o = self.stack.pop()
        cls = self.stack.pop()
        self.stack.pop()
        v = self.E.super_getattr(cls, o, i.argval)
        if i.arg & 1:
            self.stack.append(NULL)
        self.stack.append(v)

    def op_STORE_ATTR(self, i):
        o = self.stack.pop()
        v = self.stack.pop()
        self.E.setattr(o, i.argval, v)

    def op_DELETE_ATTR(self, i):
        raise Unsupported('del attribute')

    # --- calls
    def op_KW_NAMES(self, i):
        self.kwnames = i.argval if isinstance(i.argval, tuple) else self.code.co_consts[i.arg]

    def op_CALL(self, i):
        n = i.arg
        args = self.stack[len(self.stack) - n:] if n else []
        del self.stack[len(self.stack) - n:]
        a = self.stack.pop()
        b = self.stack.pop()
        kw = {}
        if self.kwnames:
            k = len(self.kwnames)
            kw = dict(zip(self.kwnames, args[len(args) - k:]))
            args = args[:len(args) - k]
            self.kwnames = ()
        if b is NULL:
            f = a
        else:
            f = b
            args = [a] + args
        if f is builtins.super and not args:
            cls = self.cells['__class__'].cell_contents
            f = super
            me = self.locals[self.code.co_varnames[0]]
            self.stack.append(super(cls, me))
            return
        if f in (locals, globals) and f is builtins.locals:
            raise Unsupported('locals()')
        if f is builtins.globals:
            self.stack.append(self.globals)
            return
        self.stack.append(self.E.call(f, tuple(args), kw, self.depth + 1))

    def op_CALL_FUNCTION_EX(self, i):
        kw = self.stack.pop() if i.arg & 1 else {}
        args = self.stack.pop()
        f = self.stack.pop()
        n = self.stack.pop()
        if not isinstance(args, tuple):
            args = tuple(self.E.iterate(args))
        self.stack.append(self.E.call(f, args, dict(kw), self.depth + 1))

    def op_CALL_INTRINSIC_1(self, i):
        v = self.stack.pop()
        if i.arg == 6:
            self.stack.append(tuple(v))
        elif i.arg == 5:
            self.stack.append(self.E.unary('+', v))
        elif i.arg == 3:   # STOPITERATION_ERROR
            if isinstance(v, StopIteration):
                e = RuntimeError('generator raised StopIteration')
                e.__cause__ = v
                self.stack.append(e)
            else:
                self.stack.append(v)
        else:
            raise Unsupported('intrinsic %d' % i.arg)

    def op_MAKE_FUNCTION(self, i):
        code = self.stack.pop()
        closure = self.stack.pop() if i.arg & 8 else None
        ann = self.stack.pop() if i.arg & 4 else None
        kwd = self.stack.pop() if i.arg & 2 else None
        dfl = self.stack.pop() if i.arg & 1 else None
        f = types.FunctionType(code, self.globals, code.co_name, dfl, closure)
        if kwd:
            f.__kwdefaults__ = kwd
        self.E.born(f)
        self.stack.append(f)

    def op_LOAD_ASSERTION_ERROR(self, i): self.stack.append(AssertionError)

    # --- operators
    def op_BINARY_OP(self, i):
        b = self.stack.pop()
        a = self.stack.pop()
        self.stack.append(self.E.binop(i.argrepr, a, b))

    def op_UNARY_NEGATIVE(self, i): self.stack.append(self.E.unary('-', self.stack.pop()))
    def op_UNARY_INVERT(self, i): self.stack.append(self.E.unary('~', self.stack.pop()))
    def op_UNARY_NOT(self, i): self.stack.append(self.E.not_(self.stack.pop()))

    def op_COMPARE_OP(self, i):
        b = self.stack.pop()
        a = self.stack.pop()
        self.stack.append(self.E.compare(i.argval, a, b))

    def op_IS_OP(self, i):
        b = self.stack.pop()
        a = self.stack.pop()
        r = a is b
        if not r and (isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool)):
            r = bool(a) is bool(b)
        self.stack.append(r != bool(i.arg))

    def op_CONTAINS_OP(self, i):
        b = self.stack.pop()
        a = self.stack.pop()
        r = self.E.contains(b, a)
        if i.arg:
            r = self.E.not_(r)
        self.stack.append(r)

    def op_BINARY_SUBSCR(self, i):
        k = self.stack.pop()
        o = self.stack.pop()
        self.stack.append(self.E.getitem(o, k))

    def op_STORE_SUBSCR(self, i):
        k = self.stack.pop()
        o = self.stack.pop()
        v = self.stack.pop()
        self.E.setitem(o, k, v)

    def op_DELETE_SUBSCR(self, i):
        k = self.stack.pop()
        o = self.stack.pop()
        self.E.delitem(o, k)

    def op_BINARY_SLICE(self, i):
        e = self.stack.pop()
        s = self.stack.pop()
        o = self.stack.pop()
        self.stack.append(self.E.getitem(o, slice(s, e)))

    def op_STORE_SLICE(self, i):
        e = self.stack.pop()
        s = self.stack.pop()
        o = self.stack.pop()
        v = self.stack.pop()
        self.E.setitem(o, slice(s, e), v)

    # --- builders
    def popn(self, n):
        r = self.stack[len(self.stack) - n:] if n else []
        del self.stack[len(self.stack) - n:]
        return r

    def op_BUILD_TUPLE(self, i): self.stack.append(tuple(self.popn(i.arg)))

    def op_BUILD_LIST(self, i):
        self.stack.append(self.E.born(self.popn(i.arg)))

    def op_BUILD_SET(self, i):
        self.stack.append(self.E.born(self.E.mkset(self.popn(i.arg))))

    def op_BUILD_MAP(self, i):
        xs = self.popn(2 * i.arg)
        d = self.E.born({})
        for k, v in zip(xs[::2], xs[1::2]):
            self.E.setitem(d, k, v)
        self.stack.append(d)

    def op_BUILD_CONST_KEY_MAP(self, i):
        ks = self.stack.pop()
        vs = self.popn(i.arg)
        self.stack.append(self.E.born(dict(zip(ks, vs))))

    def op_BUILD_SLICE(self, i):
        self.stack.append(slice(*self.popn(i.arg)))

    def op_BUILD_STRING(self, i):
        from . import strings
        self.stack.append(strings.concat(self.E, self.popn(i.arg)))

    def op_FORMAT_VALUE(self, i):
        from . import strings
        spec = self.stack.pop() if i.arg & 4 else ''
        v = self.stack.pop()
        c = i.arg & 3
        if c == 1:
            v = self.E.call(str, (v,), {})
        elif c == 2:
            v = self.E.call(repr, (v,), {})
        self.stack.append(self.E.call(format, (v, spec), {}))

    def op_LIST_EXTEND(self, i):
        it = self.stack.pop()
        self.E.list_extend(self.stack[-i.arg], it)

    def op_SET_UPDATE(self, i):
        it = self.stack.pop()
        for x in self.E.iterate(it):
            self.stack[-i.arg].add(x)

    def op_LIST_APPEND(self, i):
        v = self.stack.pop()
        self.E.list_append(self.stack[-i.arg], v)

    def op_SET_ADD(self, i):
        v = self.stack.pop()
        self.E.set_add(self.stack[-i.arg], v)

    def op_MAP_ADD(self, i):
        v = self.stack.pop()
        k = self.stack.pop()
        self.E.setitem(self.stack[-i.arg], k, v)

    def op_DICT_UPDATE(self, i):
        m = self.stack.pop()
        self.E.dict_update(self.stack[-i.arg], m)

    def op_DICT_MERGE(self, i):
        m = self.stack.pop()
        d = self.stack[-i.arg]
        if hasattr(self.E, 'side') and id(m) in self.E.side:
            raise Unsupported('** of a symbolic mapping')
        if not isinstance(m, dict):
            raise Unsupported('** of %r' % type(m))
        for k in m:
            if k in d:
                raise TypeError('got multiple values for keyword argument %r' % k)
        d.update(m)

    def op_UNPACK_SEQUENCE(self, i):
        v = self.stack.pop()
        xs = self.E.unpack(v, i.arg)
        self.stack.extend(reversed(xs))

    def op_UNPACK_EX(self, i):
        v = list(self.E.iterate(self.stack.pop()))
        before, after = i.arg & 0xff, i.arg >> 8
        if len(v) < before + after:
            raise ValueError('not enough values to unpack')
        xs = v[:before] + [v[before:len(v) - after]] + v[len(v) - after:]
        self.stack.extend(reversed(xs))

    # --- jumps
    def op_JUMP_FORWARD(self, i): return self.jump(i)

    def op_JUMP_BACKWARD(self, i):
        tgt = self.jump(i)
        if self.info.ins[tgt].opname not in ('FOR_ITER', 'SEND'):
            self.E.while_back(self, tgt)
        return tgt
    op_JUMP_BACKWARD_NO_INTERRUPT = op_JUMP_BACKWARD

    def op_POP_JUMP_IF_FALSE(self, i):
        v = self.stack.pop()
        if not self.E.truth_of(v):
            return self.jump(i)

    def op_POP_JUMP_IF_TRUE(self, i):
        v = self.stack.pop()
        if self.E.truth_of(v):
            return self.jump(i)

    def op_POP_JUMP_IF_NONE(self, i):
        if self.stack.pop() is None:
            return self.jump(i)

    def op_POP_JUMP_IF_NOT_NONE(self, i):
        if self.stack.pop() is not None:
            return self.jump(i)

    # --- iteration
    def op_GET_ITER(self, i):
        self.stack.append(self.E.get_iter(self.stack.pop()))

    def op_FOR_ITER(self, i):
        it = self.stack[-1]
        try:
            v = self.E.iter_next(it, self, self.pc)
        except StopIteration:
            self.stack.pop()
            return self.jump(i) + 1   # past END_FOR
        self.stack.append(v)

    def op_END_FOR(self, i):
        self.stack.pop()
        self.stack.pop()

    def op_RETURN_GENERATOR(self, i):
        self.stack.append(None)   # popped by the POP_TOP that follows

    def op_YIELD_VALUE(self, i):
        return ('yield', self.stack.pop())

    def op_GET_YIELD_FROM_ITER(self, i):
        self.stack.append(self.E.get_iter(self.stack.pop()))

    def op_SEND(self, i):
        v = self.stack.pop()
        it = self.stack[-1]
        try:
            self.stack.append(self.E.iter_next(it, self, self.pc))
        except StopIteration as e:
            self.stack.append(e.value)
            return self.jump(i)

    def op_END_SEND(self, i):
        v = self.stack.pop()
        self.stack.pop()
        self.stack.append(v)

    # --- exceptions
    def op_RAISE_VARARGS(self, i):
        if i.arg == 0:
            if self.exc_stack and self.exc_stack[-1] is not None:
                raise self.exc_stack[-1]
            raise RuntimeError('No active exception to reraise')
        cause = self.stack.pop() if i.arg == 2 else None
        e = self.stack.pop()
        if isinstance(e, type):
            e = self.E.call(e, (), {})
        if not isinstance(e, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        raise e

    def op_PUSH_EXC_INFO(self, i):
        e = self.stack.pop()
        self.stack.append(self.exc_stack[-1] if self.exc_stack else None)
        self.exc_stack.append(e)
        self.stack.append(e)

    def op_CHECK_EXC_MATCH(self, i):
        t = self.stack.pop()
        self.stack.append(isinstance(self.stack[-1], t))

    def op_POP_EXCEPT(self, i):
        self.stack.pop()
        if self.exc_stack:
            self.exc_stack.pop()

    def op_RERAISE(self, i):
        e = self.stack.pop()
        raise e

    def op_BEFORE_WITH(self, i):
        raise Unsupported('with statement')

    def op_IMPORT_NAME(self, i):
        fromlist = self.stack.pop()
        level = self.stack.pop()
        self.stack.append(__import__(i.argval, self.globals, None, fromlist, level))

    def op_IMPORT_FROM(self, i):
        self.stack.append(getattr(self.stack[-1], i.argval))

    def op_GET_LEN(self, i):
        self.stack.append(self.E.call(len, (self.stack[-1],), {}))


_HERE = os.path.dirname(os.path.abspath(__file__))
_STRICT = ('coll.py', 'interp.py', 'engine.py', 'backends.py', 'strings.py')
_INTERNAL = ('SFloat', 'SInt', 'SBool', 'Opaque', 'SFunc', 'SComplex', 'SStr', 'Poison', 'SMeth', 'SideMeth', 'SideView',
             'SideIter', 'MapIter', 'KeySet', 'MapSIter', 'LinSIter', 'SGen', 'SNum', 'NoneType object has no attribute')


def guard(e):
    """An exception due to the verifier itself is no behaviour of the program: it makes the unit undecided."""
    if isinstance(e, EngineSignal) or getattr(e, '_vp_seen', False):
        return
    tb = e.__traceback__
    if tb is None:
        return
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    line = None
    bad = isinstance(e, (z3.Z3Exception, NotImplementedError)) or fn.startswith(os.path.dirname(z3.__file__))
    if not bad and isinstance(e, (TypeError, AttributeError)) and any(n in str(e) for n in _INTERNAL):
        bad = True
    if not bad and fn.startswith(_HERE) and os.path.basename(fn) in _STRICT:
        import linecache
        line = linecache.getline(fn, tb.tb_lineno).strip()
        bad = not line.startswith(('raise', 'r = getattr(', 'return getattr(')) and 'PYOPS' not in line and 'PYCMP' not in line and '# native' not in line
    if bad:
        raise Unsupported('internal error %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(fn), tb.tb_lineno))
    try:
        e._vp_seen = True
    except Exception:
        pass


class SGen(object):
    """A generator of the interpreted program."""

    def __init__(self, E, frame):
        self.E = E
        self.frame = frame
        self.started = False

    def __iter__(self):
        return self

    def __next__(self):
        f = self.frame
        if f.done:
            raise StopIteration
        if not self.started:
            self.started = True
            r = f.run()
        else:
            r = f.run(resume_value=None)
        if r[0] == 'yield':
            return r[1]
        raise StopIteration(r[1])


def bind_args(f, args, kwargs):
    """Parameter binding of Python functions."""
    code = f.__code__
    names = code.co_varnames
    npos = code.co_argcount
    nkw = code.co_kwonlyargcount
    locs = {}
    pos = list(args)
    given = pos[:npos]
    for n, v in zip(names[:npos], given):
        locs[n] = v
    rest = pos[npos:]
    idx = npos + nkw
    if code.co_flags & 4:
        locs[names[idx]] = tuple(rest)
        idx += 1
    elif rest:
        raise TypeError('%s() takes %d positional arguments but %d were given' % (f.__name__, npos, len(pos)))
    extra = {}
    allowed = names[code.co_posonlyargcount:npos + nkw]
    for k, v in kwargs.items():
        if k in allowed:
            if k in locs:
                raise TypeError('%s() got multiple values for argument %r' % (f.__name__, k))
            locs[k] = v
        else:
            extra[k] = v
    if code.co_flags & 8:
        locs[names[idx]] = extra
    elif extra:
        raise TypeError('%s() got an unexpected keyword argument %r' % (f.__name__, next(iter(extra))))
    dfl = f.__defaults__ or ()
    for n, v in zip(names[npos - len(dfl):npos], dfl):
        locs.setdefault(n, v)
    for n, v in (f.__kwdefaults__ or {}).items():
        locs.setdefault(n, v)
    for n in names[:npos + nkw]:
        if n not in locs:
            raise TypeError('%s() missing required argument %r' % (f.__name__, n))
    return locs
