"""The interface harnesses are written against. The same harness runs
symbolically (SymCtx, inputs are solver variables) and concretely on the
unmodified code (ConcreteCtx, inputs are given)."""


class Failure(Exception):
    """Concrete mode: property does not hold on this input."""


class Skip(BaseException):
    """Concrete mode: input does not satisfy an assumption."""


class Ctx(object):
    symbolic = False

    def __init__(self, params):
        self.params = params
        self.observations = []
        self.covered = set()

    # derived

    def pick(self, name, items):
        items = list(items)
        return items[self.choice(name, len(items))]

    def observe(self, key, value):
        self.observations.append((key, value))

    def cover(self, label):
        self.covered.add(label)

    def fail(self, message):
        self.check(False, message)

    def check_equal(self, a, b, message):
        self.check(self.eq(a, b), message + ': got %s, expected %s', a, b)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def raises(self, types, f, *args, **kwargs):
        """Exception of f(...) if it is of types, else None."""
        try:
            f(*args, **kwargs)
        except types as e:
            return e


class ConcreteCtx(Ctx):
    def __init__(self, params, model):
        super(ConcreteCtx, self).__init__(params)
        self.model = model
        self.used = {}

    def _get(self, name, default):
        v = self.model.get(name, default)
        self.used[name] = v
        return v

    def choice(self, name, n):
        v = self._get(name, 0)
        if not 0 <= v < n:
            raise Skip(name)
        return v

    def flag(self, name):
        return bool(self._get(name, False))

    def int(self, name, lo=None, hi=None):
        default = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        v = self._get(name, default)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip(name)
        return v

    def char(self, name, domain=None):
        v = self._get(name, ord(domain[0]) if domain else ord('a'))
        return chr(v)

    def string(self, name, n, domain=None):
        return ''.join(self.char('%s.%d' % (name, i), domain) for i in range(n))

    def set(self, name, universe):
        return frozenset(u for u in universe if self.flag('%s.%s' % (name, u)))

    def assume(self, cond):
        if not cond:
            raise Skip('assume')

    def check(self, cond, message='', *args):
        if not cond:
            raise Failure(message % tuple(repr(a) for a in args) if args else message)

    def and_(self, *items):
        return all(items)

    def or_(self, *items):
        return any(items)

    def not_(self, a):
        return not a

    def eq(self, a, b):
        return bool(a == b)

    def ite(self, c, a, b):
        return a if c else b

    def concrete(self, v):
        return v

    def hash(self, x):
        return hash(x)

    def universe(self, strings):
        pass

    def member(self, item, items):
        return item in items

    def between(self, c, first, last):
        """One character string between two characters."""
        return first <= c <= last
