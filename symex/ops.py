"""What rewritten code of yargy calls instead of the native operations: the same
operations, which also accept symbolic values."""
import builtins
import functools
import itertools
import re

import z3

from . import values as V
from . import sre
from .values import SymBool, SymInt, SymStr, SymSet, is_symbolic, mk_bool, expr_bool, s_not
from .engine import Unsupported

SYM = frozenset(V.SYMBOLIC)
_type = type


# ---- operators

def eq(a, b):
    ta, tb = _type(a), _type(b)
    if ta in SYM or tb in SYM:
        if ta in SYM:
            return a == b
        return b == a
    if ta is tb and (ta is list or ta is tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = eq(x, y)
            e = expr_bool(r)
            if e is None:
                e = bool(r)
            if e is False:
                return False
            out.append(e)
        return mk_bool(V.b_and(out))
    return a == b


def ne(a, b):
    ta, tb = _type(a), _type(b)
    if ta in SYM or tb in SYM or (ta is tb and (ta is list or ta is tuple)):
        return s_not(eq(a, b))
    return a != b


def not_(a):
    if _type(a) is SymBool:
        return SymBool(z3.Not(a.e))
    return not a


def has_symbolic(items):
    for item in items:
        if _type(item) in SYM:
            return True
    return False


def contains(item, container):
    tc = _type(container)
    if tc is SymSet or tc is SymStr:
        return container.contains(item)
    ti = _type(item)
    if tc in (list, tuple, set, frozenset, dict):
        if ti in SYM or (tc in (list, tuple) and has_symbolic(container)):
            out = []
            for x in container:
                if x is item:
                    return True
                r = eq(x, item)
                e = expr_bool(r)
                if e is None:
                    e = bool(r)
                if e is True:
                    return True
                out.append(e)
            return mk_bool(V.b_or(out))
        return item in container
    if tc is str:
        if ti is SymStr:
            return SymStr(V.chars_of(container)).contains(item)
        return item in container
    if ti in SYM and tc in (type({}.keys()),):
        return contains(item, list(container))
    m = getattr(tc, '__contains__', None)
    if m is not None and getattr(m, '__code__', None) is not None:
        r = m(container, item)
        if _type(r) is SymBool:
            return r
        return bool(r)
    return item in container


def not_contains(item, container):
    return s_not(contains(item, container))


def find_key(d, key):
    """Key of d equal to symbolic key on this path."""
    for k in d:
        r = eq(k, key)
        if r is True or (r is not False and bool(r)):
            return k
    raise KeyError(key)


def getitem(obj, key):
    tk = _type(key)
    if tk in SYM:
        if isinstance(obj, dict):
            try:
                key = find_key(obj, key)
            except KeyError:
                if hasattr(_type(obj), '__missing__'):
                    return obj[key]
                raise
            return obj[key]
        if tk is SymInt or tk is SymBool:
            return obj[int(key)]
    if _type(obj) is str and tk is slice:
        return obj[slice(*(int(x) if _type(x) is SymInt else x
                           for x in (key.start, key.stop, key.step)))]
    return obj[key]


def and_(a, rest):
    if _type(a) is not SymBool:
        return rest() if a else a
    try:
        b = rest()
    except Exception:
        if a:
            raise
        return False
    e = expr_bool(b)
    if e is None:
        return b if a else False
    return mk_bool(V.b_and([a.e, e]))


def or_(a, rest):
    if _type(a) is not SymBool:
        return a if a else rest()
    try:
        b = rest()
    except Exception:
        if a:
            return True
        raise
    e = expr_bool(b)
    if e is None:
        return True if a else b
    return mk_bool(V.b_or([a.e, e]))


def fstring(*parts):
    out = ''
    for part in parts:
        if _type(part) is str:
            out = out + part
            continue
        value, conversion, spec = part
        if _type(value) is SymStr and conversion in (-1, 115) and not spec:
            out = out + value
            continue
        if conversion == 114:
            value = b_repr(value)
        elif conversion == 115 or (conversion == -1 and not spec and custom_str(value)):
            value = b_str(value)
        elif conversion == 97:
            value = ascii(value)
        if _type(value) is SymStr and not spec:
            out = out + value
            continue
        out = out + format(value, spec)
    return out


def mod(a, b):
    if _type(a) is str:
        args = b if isinstance(b, tuple) else (b,)
        if any(_type(x) is SymStr or custom_str(x) for x in args):
            parts = re.split(r'(%[sdr%])', a)
            out = ''
            args = list(args)
            for p in parts:
                if p == '%s':
                    x = args.pop(0)
                    out = out + b_str(x)
                elif p == '%r':
                    out = out + b_repr(args.pop(0))
                elif p == '%d':
                    out = out + (p % (args.pop(0),))
                elif p == '%%':
                    out = out + '%'
                elif '%' in p:
                    raise Unsupported('format')
                else:
                    out = out + p
            return out
    return a % b


# ---- builtins

def b_any(items):
    out = []
    items = iter(items)
    while True:
        try:
            x = next(items)
        except StopIteration:
            break
        except Exception:
            if out and mk_bool(V.b_or(out)):
                return True
            raise
        e = expr_bool(x)
        if e is None:
            e = bool(x)
        if e is True:
            return True
        if e is not False:
            out.append(e)
    return mk_bool(V.b_or(out))


def b_all(items):
    out = []
    items = iter(items)
    while True:
        try:
            x = next(items)
        except StopIteration:
            break
        except Exception:
            if out and not mk_bool(V.b_and(out)):
                return False
            raise
        e = expr_bool(x)
        if e is None:
            e = bool(x)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    return mk_bool(V.b_and(out))


PYTYPE = {SymStr: str, SymInt: int, SymBool: bool, SymSet: frozenset}


def b_isinstance(obj, types):
    t = PYTYPE.get(_type(obj))
    if t is not None:
        return issubclass(t, types)
    return isinstance(obj, types)


def b_type(*args):
    if len(args) == 1:
        return PYTYPE.get(_type(args[0])) or _type(args[0])
    return _type(*args)


def custom_str(x, repr=False):
    """__str__ (or __repr__) of x that may give a symbolic string."""
    cls = _type(x)
    f = cls.__repr__ if repr else cls.__str__
    if f is object.__str__:
        f = cls.__repr__
    if '_sx_call' in getattr(f, '__globals__', ()):
        return f


def b_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if _type(x) is SymStr:
            return x
        f = custom_str(x)
        if f:
            return f(x)
        if _type(x) in (list, tuple):
            return b_repr(x)
    return str(*args, **kw)


def escaped(c):
    """Not printable character as in repr."""
    domain = c.chars[0].domain
    for p in domain or ():
        if not chr(p).isprintable() and c == chr(p):
            return repr(chr(p))[1:-1]
    return repr(c.realize())[1:-1]


def sym_repr(s):
    out = ''
    quote = '"' if s.contains("'") and s_not(s.contains('"')) else "'"
    for c in s:
        if _type(c) is str and c not in '\'"\\':
            out = out + repr(c)[1:-1]
            continue
        for k, v in (('\\', '\\\\'), (quote, '\\' + quote), ('\n', '\\n'), ('\r', '\\r'), ('\t', '\\t')):
            if c == k:
                out = out + v
                break
        else:
            out = out + (c if c.isprintable() else escaped(c))
    return quote + out + quote


def digit_value(c):
    """Value of a decimal digit, code point c is known to be one."""
    if isinstance(c, int):
        import unicodedata
        return unicodedata.decimal(chr(c))
    import unicodedata
    if c.domain is not None:
        zeros = {p - unicodedata.decimal(chr(p)) for p in c.domain if chr(p).isdecimal()}
    else:
        from . import unicode_tables as ut
        zeros = ut.decimal_zeros()
    zeros = sorted(zeros)
    out = c.e - zeros[-1]
    for a, b in reversed(list(zip(zeros, zeros[1:]))):
        out = z3.If(c.e < b, c.e - a, out)
    return out


def b_int(*args, **kw):
    if len(args) == 1 and not kw:
        v = args[0]
        if _type(v) is SymInt:
            return v
        if _type(v) is SymBool:
            return SymInt(V.expr_int(v))
        if _type(v) is SymStr:
            if v.isdecimal():
                out = 0
                for c in v.chars:
                    out = out * 10 + digit_value(c)
                return V.mk_int(z3.simplify(out)) if not isinstance(out, int) else out
            return int(v.realize())
    return int(*args, **kw)


def b_bool(*args):
    if len(args) == 1 and _type(args[0]) is SymBool:
        return args[0]
    return bool(*args)


def b_ord(c):
    if _type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(c.chars[0].e)
    return ord(c)


def b_chr(i):
    if _type(i) is SymInt:
        return SymStr((V.Char(i.e),))
    return chr(i)


def b_len(x):
    return len(x)


def b_repr(x):
    t = _type(x)
    if t is SymStr:
        return sym_repr(x)
    f = custom_str(x, repr=True)
    if f:
        return f(x)
    if t in (list, tuple) and x and any(_type(_) is SymStr or custom_str(_, True) for _ in x):
        out = ''
        for k, item in enumerate(x):
            out = out + (', ' if k else '') + b_repr(item)
        if t is list:
            return '[' + out + ']'
        return '(' + out + (',)' if len(x) == 1 else ')')
    return repr(x)


class SymHash(object):
    """Hash by structure: equal iff made the same way of equal values."""

    def __init__(self, kind, items):
        self.kind = kind
        self.items = tuple(items)

    def __eq__(self, other):
        if _type(other) is not SymHash:
            return self.kind == 'value' and eq(self.items[0], other)
        if self.kind != other.kind:
            return False
        return eq(self.items, other.items)

    def _operator(name):
        def f(self, other):
            return SymHash(name, (self, other))

        def r(self, other):
            return SymHash(name, (other, self))
        return f, r
    __add__, __radd__ = _operator('+')
    __xor__, __rxor__ = _operator('^')
    __mul__, __rmul__ = _operator('*')
    __mod__, __rmod__ = _operator('%')
    __or__, __ror__ = _operator('|')
    __and__, __rand__ = _operator('&')
    __lshift__, __rlshift__ = _operator('<<')
    __rshift__, __rrshift__ = _operator('>>')


STRUCT_HASH = []


def b_hash(x):
    if not STRUCT_HASH:
        return hash(x)
    t = _type(x)
    if t is SymHash:
        return x
    if t is tuple:
        return SymHash('tuple', [b_hash(_) for _ in x])
    if t in SYM or t in (str, int, bool, frozenset, _type(None)):
        return SymHash('value', [x])
    f = t.__hash__
    if f is not None and '_sx_call' in getattr(f, '__globals__', ()):
        return f(x)
    return hash(x)


def struct_hash(x):
    STRUCT_HASH.append(1)
    try:
        return b_hash(x)
    finally:
        STRUCT_HASH.pop()


def b_sum(items, start=0):
    out = start
    for x in items:
        out = out + x
    return out


INTERCEPT = {
    id(any): b_any, id(all): b_all, id(isinstance): b_isinstance,
    id(type): b_type, id(str): b_str, id(int): b_int, id(bool): b_bool,
    id(ord): b_ord, id(hash): b_hash, id(repr): b_repr, id(chr): b_chr, id(sum): b_sum,
    id(re.finditer): lambda p, s, flags=0: sre.finditer(p, s, flags),
    id(re.match): lambda p, s, flags=0: sre.match(p, s, flags),
    id(re.fullmatch): lambda p, s, flags=0: sre.fullmatch(p, s, flags),
    id(re.search): lambda p, s, flags=0: sre.search(p, s, flags),
    id(re.findall): lambda p, s, flags=0: sre.findall(p, s, flags),
    id(re.sub): lambda p, r, s, count=0: sre.sub(p, r, s, count) if has_symbolic((s,)) else re.sub(p, r, s, count),
}
KEEP = [any, all]  # builtins live for ever, ids are stable


def str_method(f, s, args, kw):
    name = f.__name__
    if name == 'join':
        items = list(args[0])
        if has_symbolic(items):
            return SymStr(V.chars_of(s)).join(items)
        return s.join(items)
    if name == 'format':
        return str_format(s, args, kw)
    if has_symbolic(args):
        return getattr(SymStr(V.chars_of(s)), name)(*args, **kw)
    return f(*args, **kw)


def str_format(s, args, kw):
    if not has_symbolic(args) and not has_symbolic(kw.values()):
        # attributes of the arguments may be symbolic
        if not any('.' in (name or '') for _, name, _, _ in formatter(s)) and not any(
                custom_str(_) or _type(_) in (list, tuple) for _ in list(args) + list(kw.values())):
            return s.format(*args, **kw)
    out = ''
    auto = 0
    for literal, name, spec, conversion in formatter(s):
        out = out + literal
        if name is None:
            continue
        if spec and '{' in spec:
            raise Unsupported('format')
        m = re.match(r'^(\w*)((?:\.\w+)*)$', name)
        if not m:
            raise Unsupported('format')
        head, tail = m.groups()
        if head == '':
            value = args[auto]
            auto += 1
        elif head.isdigit():
            value = args[int(head)]
        else:
            value = kw[head]
        for part in tail.split('.')[1:]:
            value = getattr(value, part)
        conv = ord(conversion) if conversion else -1
        out = out + fstring((value, conv, spec or ''))
    return out


def formatter(s):
    import string
    return list(string.Formatter().parse(s))


class KEEP_METHOD(object):
    @classmethod
    def method(cls):
        pass


_builtin = type(len)
_builtin_method = type(re.compile('').match)
_method = type(KEEP_METHOD.method)
_method_descriptor = type(str.lower)


def native(f):
    return _type(f) in (_builtin, _builtin_method, _method_descriptor) or id(f) in INTERCEPT


def hooked(f):
    """Builtin given to map, sorted, ...: called through the hook."""
    return (lambda *args, **kw: call(f, *args, **kw)) if native(f) else f


# take functions and call them
HIGHER = {id(_) for _ in [
    map, filter, sorted, min, max, functools.reduce, functools.partial, itertools.groupby, itertools.takewhile,
    itertools.dropwhile, itertools.filterfalse, itertools.starmap, itertools.accumulate]}


def call(f, /, *args, **kw):
    t = _type(f)
    if t is _method:
        return f(*args, **kw)
    if id(f) in HIGHER or t is _builtin and f.__name__ == 'sort':
        return f(*map(hooked, args), **{k: hooked(v) for k, v in kw.items()})
    g = INTERCEPT.get(id(f))
    if g is not None:
        return g(*args, **kw)
    if t is _builtin:
        s = f.__self__
        ts = _type(s)
        if ts is str:
            return str_method(f, s, args, kw)
        if isinstance(s, dict) and args and _type(args[0]) in SYM and f.__name__ in ('get', 'pop', 'setdefault'):
            try:
                key = find_key(s, args[0])
            except KeyError:
                if f.__name__ == 'get':
                    return args[1] if len(args) > 1 else None
                return f(*args, **kw)
            return f(key, *args[1:], **kw)
        if ts in (set, frozenset) and f.__name__ == 'isdisjoint' and (
                _type(args[0]) is SymSet or has_symbolic(s) or has_symbolic_iter(args[0])):
            if _type(args[0]) is SymSet:
                return args[0].isdisjoint(s)
            other = list(args[0])
            return s_not(b_any(contains(x, other) for x in list(s)))
        if ts in (set, frozenset) and args and _type(args[0]) is SymSet:
            name = f.__name__
            if name in ('intersection', 'union', 'issubset', 'issuperset', 'difference'):
                return getattr(SymSet({k: True for k in s}), name)(args[0])
    elif t is _builtin_method:
        s = f.__self__
        if _type(s) is re.Pattern and has_symbolic(args):
            g = sre.PATTERN_METHODS.get(f.__name__)
            if g is None:
                raise Unsupported('Pattern.' + f.__name__)
            return g(s, *args, **kw)
    elif t is _method_descriptor and args and _type(args[0]) in SYM:
        # str.lower(x)
        return getattr(args[0], f.__name__)(*args[1:], **kw)
    return f(*args, **kw)


def has_symbolic_iter(x):
    return isinstance(x, (list, tuple, set, frozenset)) and has_symbolic(x)


NAMESPACE = {
    '_sx_eq': eq, '_sx_ne': ne, '_sx_not': not_, '_sx_in': contains,
    '_sx_notin': not_contains, '_sx_item': getitem, '_sx_and': and_,
    '_sx_or': or_, '_sx_slice': slice, '_sx_call': call, '_sx_fstr': fstring, '_sx_mod': mod,
}
