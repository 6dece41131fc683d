# -*- coding: utf-8 -*-
"""Contract of the pickle module (assumed): pickle.loads(pickle.dumps(x)) rebuilds the graph of objects reachable from
x, each object once; instances are rebuilt from what their __reduce_ex__ gives, with the real methods of /repo."""
import collections, copyreg, types
from .engine import Sym, Unsupported
from . import coll
from .ops import repo_class, raw_lookup, is_interp


def roundtrip(E, x, protocol, memo=None):
    memo = {} if memo is None else memo
    E.assumptions['pickle rebuilds each object reachable once, from its __reduce_ex__, in the same graph'] = 1

    def go(o):
        if id(o) in memo:
            return memo[id(o)][1]

        def put(r):
            memo[id(o)] = (o, r)
            return r
        if o is None or isinstance(o, (Sym, bool, int, str, bytes, type, types.FunctionType, types.BuiltinFunctionType)) or type(o) is float:
            return o
        if id(o) in E.side:
            return put(coll.transfer(E, o, go))
        if isinstance(o, float):
            return type(o)(o)
        if type(o) is tuple:
            return tuple([go(y) for y in o])
        if type(o) is list:
            r = put(E.born([]))
            r.extend([go(y) for y in o])
            return r
        if type(o) in (dict, collections.defaultdict, collections.OrderedDict):
            r = put(E.born(collections.defaultdict(o.default_factory) if type(o) is collections.defaultdict else type(o)()))
            for k, v in list(o.items()):
                k2 = go(k)
                v2 = go(v)
                r[k2] = v2
            return r
        if type(o) is set:
            r = put(set())
            for y in o:
                r.add(go(y))
            return r
        if not repo_class(type(o)):
            raise Unsupported('pickling of %r' % type(o))
        red = E.call(E.getattr(o, '__reduce_ex__'), (protocol,), {})
        if isinstance(red, str) or not isinstance(red, tuple) or not 2 <= len(red) <= 6:
            raise Unsupported('__reduce_ex__ gives %r' % (red,))
        args = go(red[1])
        new = put(E.call(red[0], args, {}))
        if len(red) > 2 and red[2] is not None:
            state = go(red[2])
            ss = raw_lookup(type(new), '__setstate__')
            if is_interp(ss):
                # (object.__getstate__/__setstate__ semantics: a false state is ignored at creation of the pickle only)
                E.call(ss, (new, state), {})
            elif isinstance(state, dict):
                for k, v in state.items():
                    E.setattr(new, k, v)
            elif isinstance(state, tuple) and len(state) == 2:
                for part in state:
                    for k, v in (part or {}).items():
                        E.setattr(new, k, v)
            else:
                raise Unsupported('state %r' % (state,))
        if len(red) > 3 and (red[3] is not None or len(red) > 4 and red[4] is not None):
            raise Unsupported('list or dict items of a pickle')
        return new
    return go(x)
