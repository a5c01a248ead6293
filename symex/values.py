"""Symbolic values: the inputs of the code under test."""
import z3
from . import unicode_tables as ut
from . import engine as E
from .engine import Unsupported

IntVal = z3.IntVal


def eng():
    return E.CURRENT


# ------------------------------------------------------------------ bool

def expr_bool(v):
    """z3 Bool or python bool of a bool-like value, None if it is neither."""
    if type(v) is SymBool:
        return v.e
    if v is True or v is False:
        return v
    return None


def mk_bool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(e):
    if e is True:
        return False
    if e is False:
        return True
    return z3.Not(e)


def b_and(items):
    out = []
    for e in items:
        if e is True:
            continue
        if e is False:
            return False
        out.append(e)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(items):
    out = []
    for e in items:
        if e is False:
            continue
        if e is True:
            return True
        out.append(e)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, other):
        o = expr_bool(other)
        if o is None:
            return int(self) == other
        if o is True:
            return self
        if o is False:
            return SymBool(z3.Not(self.e))
        return mk_bool(z3.simplify(self.e == o))

    def __ne__(self, other):
        return s_not(self == other)

    def __and__(self, other):
        o = expr_bool(other)
        if o is None:
            return int(bool(self)) & other
        return mk_bool(b_and([self.e, o]))

    __rand__ = __and__

    def __or__(self, other):
        o = expr_bool(other)
        if o is None:
            return int(bool(self)) | other
        return mk_bool(b_or([self.e, o]))

    __ror__ = __or__

    def __xor__(self, other):
        return self != other

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, other):
        return SymInt(z3.If(self.e, IntVal(1), IntVal(0))) + other

    __radd__ = __add__

    def __lt__(self, other):
        return int(self) < other

    def __gt__(self, other):
        return int(self) > other

    def __le__(self, other):
        return int(self) <= other

    def __ge__(self, other):
        return int(self) >= other

    def __repr__(self):
        return repr(bool(self))


def s_not(v):
    if type(v) is SymBool:
        return SymBool(z3.Not(v.e))
    return not v


# ------------------------------------------------------------------ int

def expr_int(v):
    if type(v) is SymInt:
        return v.e
    if type(v) is SymBool:
        return z3.If(v.e, IntVal(1), IntVal(0))
    if isinstance(v, int):
        return int(v)
    return None


def mk_int(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def realize_int(e):
    """Concrete value of e, forks over all of them."""
    engine = eng()
    for _ in range(100000):
        v = engine.replayed_value(e)
        if v is None:
            v = engine.evaluate(e).as_long()
        if engine.branch(e == v):
            return v
    raise Unsupported('too many values')


class SymInt(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _arith(self, other, f):
        o = expr_int(other)
        if o is None:
            return NotImplemented
        return mk_int(z3.simplify(f(self.e, o)))

    def _rel(self, other, f):
        o = expr_int(other)
        if o is None:
            return NotImplemented
        return mk_bool(z3.simplify(f(self.e, o)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * realize_int(self.e)
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return self._arith(o, lambda a, b: a / b)
        return int(self) // int(o)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return self._arith(o, lambda a, b: a % b)
        return int(self) % int(o)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.e < 0, -self.e, self.e))

    def __eq__(self, o):
        r = self._rel(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return s_not(self == o)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __int__(self):
        return realize_int(self.e)

    __index__ = __int__

    def __hash__(self):
        return hash(realize_int(self.e))

    def __repr__(self):
        return repr(int(self))

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def __float__(self):
        return float(int(self))


# ------------------------------------------------------------------ str

def in_ranges(c, ranges):
    """Membership of a code point (int or z3) in ranges."""
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ranges)
    return b_or([
        (c == a) if a == b else z3.And(c >= a, c <= b)
        for a, b in ranges
    ])


class Char(object):
    """One symbolic code point with the finite set of values it can take
    (None: any)."""
    __slots__ = ('e', 'domain')

    def __init__(self, e, domain=None):
        self.e = e
        self.domain = domain

    def test(self, ranges, predicate):
        """Bool expr: code point in ranges; predicate is the same, concretely."""
        if self.domain is None:
            return in_ranges(self.e, ranges())
        yes = [p for p in self.domain if predicate(p)]
        if len(yes) == len(self.domain):
            return True
        if not yes:
            return False
        return in_ranges(self.e, ut.to_ranges(sorted(yes)))

    def eq(self, other):
        if isinstance(other, int):
            if self.domain is not None and other not in self.domain:
                return False
            return self.e == other
        if self.domain is not None and other.domain is not None \
                and not (set(self.domain) & set(other.domain)):
            return False
        if self.e.eq(other.e):
            return True
        return self.e == other.e

    def map_case(self, name):
        method = getattr(str, name)
        if self.domain is not None:
            e = self.e
            # characters mapped to several: one path for each
            special = [p for p in self.domain if len(method(chr(p))) != 1]
            if special and eng().branch(in_ranges(e, ut.to_ranges(sorted(special)))):
                v = realize_int(e)
                return [ord(_) for _ in method(chr(v))]
            domain = [p for p in self.domain if p not in special]
            image = [ord(method(chr(p))) for p in domain]
            # group by delta
            out = e
            deltas = {}
            for p, q in zip(domain, image):
                deltas.setdefault(q - p, []).append(p)
            for d, ps in deltas.items():
                if d:
                    out = z3.If(in_ranges(e, ut.to_ranges(sorted(ps))), e + d, out)
            if out is e:
                return self
            return Char(out, tuple(sorted(set(image))))
        runs, special = ut.case_map(name)
        # characters mapped to several: one path for each
        if special and eng().branch(in_ranges(self.e, ut.to_ranges(special))):
            v = realize_int(self.e)
            return [ord(_) for _ in method(chr(v))]
        e = self.e
        out = e
        for lo, hi, step, delta in runs:
            cond = z3.And(e >= lo, e <= hi) if lo != hi else e == lo
            if step == 2:
                cond = z3.And(cond, (e - lo) % 2 == 0)
            out = z3.If(cond, e + delta, out)
        return Char(out)


UNIVERSE = []   # concrete strings symbolic ones may be equal to in sets and dicts


def chars_of(v):
    if type(v) is SymStr:
        return v.chars
    if isinstance(v, str):
        return tuple(ord(c) for c in v)
    return None


def c_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return b.eq(a)
    return a.eq(b)


def mk_str(chars):
    chars = tuple(chars)
    if all(isinstance(c, int) for c in chars):
        return ''.join(map(chr, chars))
    return SymStr(chars)


class SymStr(object):
    __slots__ = ('chars', '_hash')

    def __init__(self, chars):
        self.chars = tuple(chars)
        self._hash = None

    # --- comparisons

    def __eq__(self, other):
        o = chars_of(other)
        if o is None:
            return False
        if self is other:
            return True
        if len(o) != len(self.chars):
            return False
        return mk_bool(b_and([c_eq(a, b) for a, b in zip(self.chars, o)]))

    def __ne__(self, other):
        return s_not(self == other)

    def __lt__(self, other):
        o = chars_of(other)
        if o is None:
            return NotImplemented
        for a, b in zip(self.chars, o):
            x = a if isinstance(a, int) else a.e
            y = b if isinstance(b, int) else b.e
            eq = c_eq(a, b)
            if eq is True or (eq is not False and eng().branch(eq)):
                continue
            return mk_bool(x < y)
        return len(self.chars) < len(o)

    def __gt__(self, other):
        if isinstance(other, str):
            other = SymStr(chars_of(other))
        return other < self

    def __le__(self, other):
        return s_not(self > other)

    def __ge__(self, other):
        return s_not(self < other)

    def __hash__(self):
        # equal values have equal hashes: the string has few values, or is one of the
        # universe, or is different from all of them
        values = 1
        for c in self.chars:
            if not isinstance(c, int):
                values *= len(c.domain) if c.domain is not None else 1000
        if values <= 4:
            return hash(''.join(chr(c if isinstance(c, int) else realize_int(c.e)) for c in self.chars))
        for s in UNIVERSE:
            if len(s) == len(self.chars):
                if self == s:
                    return hash(s)
        return 77

    def __bool__(self):
        return bool(self.chars)

    # --- sequence

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, index):
        if isinstance(index, slice):
            return mk_str(self.chars[index])
        if type(index) is SymInt:
            index = int(index)
        return mk_str((self.chars[index],))

    def __iter__(self):
        for c in self.chars:
            yield mk_str((c,))

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        s = chars_of(sub)
        if s is None:
            raise TypeError('in <string> requires string')
        return mk_bool(b_or([self.at(i, s) for i in range(len(self.chars) - len(s) + 1)]))

    def at(self, i, s):
        if i < 0 or i + len(s) > len(self.chars):
            return False
        return b_and([c_eq(a, b) for a, b in zip(self.chars[i:i + len(s)], s)])

    def __add__(self, other):
        o = chars_of(other)
        if o is None:
            return NotImplemented
        return mk_str(self.chars + o)

    def __radd__(self, other):
        o = chars_of(other)
        if o is None:
            return NotImplemented
        return mk_str(o + self.chars)

    def __mul__(self, n):
        return mk_str(self.chars * int(n))

    __rmul__ = __mul__

    # --- methods of str

    def _map(self, name):
        out = []
        for c in self.chars:
            if isinstance(c, int):
                out.extend(ord(_) for _ in getattr(chr(c), name)())
            else:
                r = c.map_case(name)
                if isinstance(r, list):
                    out.extend(r)
                else:
                    out.append(r)
        return mk_str(out)

    def lower(self):
        if len(self.chars) > 1 and any(
                c == 0x3a3 if isinstance(c, int) else c.eq(0x3a3) is not False for c in self.chars):
            return self._lower_sigma()
        return self._map('lower')

    def _lower_sigma(self):
        # the only mapping that depends on neighbours: capital sigma at the end of a word
        def is_(c, ranges, test):
            if isinstance(c, int):
                return test(chr(c))
            e = c.test(ranges, lambda p: test(chr(p)))
            return e if isinstance(e, bool) else eng().branch(e)

        def cased_before(chars):
            for c in chars:
                if not is_(c, ut.case_ignorable, ut.is_case_ignorable):
                    return is_(c, ut.is_cased, ut.is_cased_char)
            return False
        out = []
        for i, c in enumerate(self.chars):
            if isinstance(c, int):
                sigma = c == 0x3a3
            else:
                e = c.eq(0x3a3)
                sigma = e if isinstance(e, bool) else eng().branch(e)
            if sigma:
                final = cased_before(reversed(self.chars[:i])) and not cased_before(self.chars[i + 1:])
                out.append(0x3c2 if final else 0x3c3)
            else:
                out.extend(chars_of(SymStr((c,))._map('lower')))
        return mk_str(out)

    def upper(self):
        return self._map('upper')

    def casefold(self):
        return self._map('casefold')

    def swapcase(self):
        return self._map('swapcase')

    def _tests(self, name, ranges=None):
        method = getattr(str, name)
        for c in self.chars:
            if isinstance(c, int):
                yield method(chr(c))
            else:
                yield c.test(lambda: ut.char_class(name), lambda p: method(chr(p)))

    def _cased(self):
        # non-overlapping classes: upper, lower, title
        for c in self.chars:
            if isinstance(c, int):
                s = chr(c)
                yield s.isupper(), s.islower(), ut.is_title_char(s)
            else:
                yield (
                    c.test(lambda: ut.char_class('isupper'), lambda p: chr(p).isupper()),
                    c.test(lambda: ut.char_class('islower'), lambda p: chr(p).islower()),
                    c.test(ut.title_chars, lambda p: ut.is_title_char(chr(p))),
                )

    def islower(self):
        cased = list(self._cased())
        return mk_bool(b_and(
            [b_or([l for _, l, _ in cased])]
            + [b_not(u) for u, _, _ in cased]
            + [b_not(t) for _, _, t in cased]
        ))

    def isupper(self):
        cased = list(self._cased())
        return mk_bool(b_and(
            [b_or([u for u, _, _ in cased])]
            + [b_not(l) for _, l, _ in cased]
            + [b_not(t) for _, _, t in cased]
        ))

    def istitle(self):
        # upper and title only after uncased, lower only after cased
        previous = False
        ok = []
        some = []
        for u, l, t in self._cased():
            ut_ = b_or([u, t])
            cased = b_or([ut_, l])
            ok.append(b_not(b_and([ut_, previous])))
            ok.append(b_not(b_and([l, b_not(previous)])))
            some.append(cased)
            previous = cased
        return mk_bool(b_and(ok + [b_or(some)]))

    def _all(self, name):
        if not self.chars:
            return False
        return mk_bool(b_and(list(self._tests(name))))

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isspace(self):
        return self._all('isspace')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isprintable(self):
        return mk_bool(b_and(list(self._tests('isprintable'))))

    def isascii(self):
        return mk_bool(b_and([
            (c < 128) if isinstance(c, int) else c.e < 128 for c in self.chars
        ]))

    def capitalize(self):
        if not self.chars:
            return self
        return self[0].title() + self[1:].lower() if len(self.chars) > 1 else self[0].title()

    def title(self):
        out = ''
        previous = False
        for c, (u, l, t) in zip(self, self._cased()):
            if isinstance(c, str):
                c = SymStr(chars_of(c))
            cased = b_or([u, l, t])
            if previous is True or (previous is not False and eng().branch(previous)):
                out = out + c.lower()
            else:
                r = []
                for x in c.chars:
                    if isinstance(x, int):
                        r.extend(ord(_) for _ in chr(x).title())
                    else:
                        m = x.map_case('title')
                        r.extend(m if isinstance(m, list) else [m])
                out = out + mk_str(r)
            previous = cased
        return out

    def startswith(self, prefix, *args):
        if args:
            return self[args[0]:].startswith(prefix) if len(args) == 1 else \
                self[args[0]:args[1]].startswith(prefix)
        if isinstance(prefix, tuple):
            return mk_bool(b_or([self.at(0, chars_of(p)) for p in prefix]))
        return mk_bool(self.at(0, chars_of(prefix)))

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return mk_bool(b_or([self.at(len(self) - len(p), chars_of(p)) for p in suffix]))
        return mk_bool(self.at(len(self) - len(suffix), chars_of(suffix)))

    def find(self, sub, start=0, stop=None):
        s = chars_of(sub)
        stop = len(self) if stop is None else stop
        for i in range(start, stop - len(s) + 1):
            if mk_bool(self.at(i, s)):
                return i
        return -1

    def index(self, sub, *args):
        i = self.find(sub, *args)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        s = chars_of(sub)
        n = i = 0
        while i + len(s) <= len(self):
            if mk_bool(self.at(i, s)):
                n += 1
                i += max(len(s), 1)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        o, n = chars_of(old), chars_of(new)
        if not o:
            raise Unsupported('replace empty')
        out = []
        i = 0
        while i < len(self.chars):
            if i + len(o) <= len(self.chars) and count != 0 and mk_bool(self.at(i, o)):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(self.chars[i])
                i += 1
        return mk_str(out)

    def translate(self, table):
        out = ''
        for c in self:
            if isinstance(c, str):
                out = out + c.translate(table)
                continue
            for k in table:
                if mk_bool(c.chars[0].eq(k)):
                    v = table[k]
                    if v is not None:
                        out = out + (chr(v) if isinstance(v, int) else v)
                    break
            else:
                out = out + c
        return out

    def _strip(self, chars, left, right):
        s = list(self)

        def hit(c):
            if chars is None:
                return c.isspace()
            if isinstance(c, str):
                return c in chars
            return SymStr(chars_of(chars)).contains(c) if isinstance(chars, str) else chars.contains(c)
        while left and s and hit(s[0]):
            s.pop(0)
        while right and s and hit(s[-1]):
            s.pop()
        out = ''
        for c in s:
            out = out + c
        return out

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            word = None
            for c in self:
                if c.isspace():
                    if word is not None:
                        out.append(word)
                    word = None
                else:
                    word = c if word is None else word + c
            if word is not None:
                out.append(word)
            return out
        s = chars_of(sep)
        i = 0
        word = ''
        while i < len(self.chars):
            if maxsplit != 0 and mk_bool(self.at(i, s)):
                out.append(word)
                word = ''
                i += len(s)
                maxsplit -= 1
            else:
                word = word + self[i]
                i += 1
        out.append(word)
        return out

    def splitlines(self, *args):
        return self.realize().splitlines(*args)

    def join(self, items):
        out = ''
        for i, item in enumerate(items):
            if i:
                out = out + self
            if chars_of(item) is None:
                raise TypeError('expected str instance')
            out = out + item
        return out

    def encode(self, *args):
        return self.realize().encode(*args)

    def format(self, *args, **kwargs):
        return self.realize().format(*args, **kwargs)

    def realize(self):
        eng().note('string realized by forking')
        return ''.join(
            chr(c if isinstance(c, int) else realize_int(c.e))
            for c in self.chars
        )

    def __str__(self):
        return self.realize()

    def __repr__(self):
        return repr(self.realize())

    def __format__(self, spec):
        return format(self.realize(), spec)


# ------------------------------------------------------------------ set

class SymSet(object):
    """Set of strings with symbolic membership over a finite universe."""
    __slots__ = ('members',)

    def __init__(self, members):
        self.members = members  # name -> bool expr

    def contains(self, item):
        if isinstance(item, str):
            return mk_bool(self.members.get(item, False))
        if type(item) is SymStr:
            return mk_bool(b_or([
                b_and([expr_bool(item == k), v]) for k, v in self.members.items()
            ]))
        return False

    def __contains__(self, item):
        return bool(self.contains(item))

    def __iter__(self):
        for k, v in self.members.items():
            if mk_bool(v):
                yield k

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        return bool(mk_bool(b_or(list(self.members.values()))))

    def _keys(self, other):
        keys = list(self.members)
        if type(other) is SymSet:
            keys += [k for k in other.members if k not in self.members]
            return keys, other.members
        other = {k: True for k in other}
        keys += [k for k in other if k not in self.members]
        return keys, other

    def __eq__(self, other):
        if not isinstance(other, (SymSet, set, frozenset)):
            return False
        keys, om = self._keys(other)
        out = []
        for k in keys:
            a, b = self.members.get(k, False), om.get(k, False)
            if a is b:
                continue
            if a in (True, False) and b in (True, False):
                out.append(a == b)
            elif b is True:
                out.append(a)
            elif b is False:
                out.append(b_not(a))
            elif a is True:
                out.append(b)
            elif a is False:
                out.append(b_not(b))
            else:
                out.append(a == b)
        return mk_bool(b_and(out))

    def __ne__(self, other):
        return s_not(self == other)

    def isdisjoint(self, other):
        keys, om = self._keys(other)
        return mk_bool(b_not(b_or([
            b_and([self.members.get(k, False), om.get(k, False)]) for k in keys
        ])))

    def issubset(self, other):
        keys, om = self._keys(other)
        return mk_bool(b_and([
            b_or([b_not(self.members.get(k, False)), om.get(k, False)]) for k in keys
        ]))

    __le__ = issubset

    def issuperset(self, other):
        keys, om = self._keys(other)
        return mk_bool(b_and([
            b_or([b_not(om.get(k, False)), self.members.get(k, False)]) for k in keys
        ]))

    __ge__ = issuperset

    def _combine(self, other, f):
        keys, om = self._keys(other)
        return SymSet({k: f(self.members.get(k, False), om.get(k, False)) for k in keys})

    def __and__(self, other):
        return self._combine(other, lambda a, b: b_and([a, b]))

    __rand__ = __and__
    intersection = __and__

    def __or__(self, other):
        return self._combine(other, lambda a, b: b_or([a, b]))

    __ror__ = __or__
    union = __or__

    def __sub__(self, other):
        return self._combine(other, lambda a, b: b_and([a, b_not(b)]))

    difference = __sub__

    def __hash__(self):
        return hash(frozenset(self))

    def __repr__(self):
        return repr(frozenset(self))


SYMBOLIC = (SymStr, SymInt, SymBool, SymSet)


def is_symbolic(v):
    return type(v) in SYMBOLIC
