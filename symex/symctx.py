import z3

from . import engine as E
from . import values as V
from . import ops
from .ctx import Ctx


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, params, engine):
        super(SymCtx, self).__init__(params)
        self.engine = engine
        self.variables = {}
        V.UNIVERSE[:] = []

    def _new(self, name, var, kind, default):
        assert name not in self.variables, name
        self.variables[name] = var, kind
        m = self.engine.model
        if m is not None and default is not None and self.engine.pos >= len(self.engine.entries):
            # fresh variable: any value is compatible with the model
            try:
                m.update_value(var, default)
            except z3.Z3Exception:
                pass
        return var

    def choice(self, name, n):
        assert n > 0, name
        var = self._new(name, z3.Int(name), 'int', None)
        return self.engine.choose(var, n)

    def flag(self, name):
        return V.SymBool(self._new(name, z3.Bool(name), 'bool', None))

    def int(self, name, lo=None, hi=None):
        default = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        var = self._new(name, z3.Int(name), 'int', z3.IntVal(default))
        if lo is not None and lo == hi:
            self.engine.assume(var == lo)
            return lo
        cond = []
        if lo is not None:
            cond.append(var >= lo)
        if hi is not None:
            cond.append(var <= hi)
        if cond:
            self.engine.assume(z3.And(*cond) if len(cond) > 1 else cond[0])
        return V.SymInt(var)

    def char(self, name, domain=None):
        """One character string: of domain (a string) or any code point but
        surrogates."""
        first = ord(domain[0]) if domain else ord('a')
        var = self._new(name, z3.Int(name), 'int', z3.IntVal(first))
        if domain is None:
            self.engine.assume(z3.And(var >= 0, var <= 0x10ffff,
                                      z3.Not(z3.And(var >= 0xd800, var <= 0xdfff))))
            return V.SymStr((V.Char(var),))
        points = tuple(sorted(set(map(ord, domain))))
        if len(points) == 1:
            self.engine.assume(var == points[0])
            return domain[0]
        from .unicode_tables import to_ranges
        e = V.in_ranges(var, to_ranges(points))
        self.engine.assume(e)
        return V.SymStr((V.Char(var, points),))

    def string(self, name, n, domain=None):
        out = ''
        for i in range(n):
            out = out + self.char('%s.%d' % (name, i), domain)
        return out

    def set(self, name, universe):
        return V.SymSet({
            u: self._new('%s.%s' % (name, u), z3.Bool('%s.%s' % (name, u)), 'bool', None)
            for u in universe
        })

    def expr(self, cond):
        e = V.expr_bool(cond)
        return bool(cond) if e is None else e

    def assume(self, cond):
        self.engine.assume(self.expr(cond))

    def check(self, cond, message='', *args):
        e = self.expr(cond)
        model = self.engine.counterexample(e)
        if model is not None:
            def show(a):
                try:
                    return repr(self.evaluate(a, model))
                except Exception as exc:
                    return '<%s>' % type(exc).__name__
            if args:
                message = message % tuple(show(a) for a in args)
            self.violations.append(E.Violation(message, self.dump(model), 'check'))
            raise E.PathEnd('violation')

    violations = None  # list, set by the runner

    def dump(self, model=None):
        """Values of all the inputs."""
        if model is None:
            model = self.engine.current_model()
        out = {}
        for name, (var, kind) in self.variables.items():
            v = model.eval(var, model_completion=True)
            out[name] = z3.is_true(v) if kind == 'bool' else v.as_long()
        return out

    def evaluate(self, v, model=None):
        """Concrete counterpart of a value under model."""
        if model is None:
            model = self.engine.current_model()
        t = type(v)
        if t is V.SymBool:
            return z3.is_true(model.eval(v.e, model_completion=True))
        if t is V.SymInt:
            return model.eval(v.e, model_completion=True).as_long()
        if t is V.SymStr:
            return ''.join(
                chr(c if isinstance(c, int) else model.eval(c.e, model_completion=True).as_long())
                for c in v.chars)
        if t is V.SymSet:
            return frozenset(
                k for k, e in v.members.items()
                if e is True or (e is not False and z3.is_true(model.eval(e, model_completion=True))))
        if t in (list, tuple, set, frozenset):
            return t(self.evaluate(x, model) for x in v)
        if isinstance(v, dict):
            return {self.evaluate(k, model): self.evaluate(x, model) for k, x in v.items()}
        return v

    def and_(self, *items):
        return V.mk_bool(V.b_and([self.expr(_) for _ in items]))

    def or_(self, *items):
        return V.mk_bool(V.b_or([self.expr(_) for _ in items]))

    def not_(self, a):
        return V.mk_bool(V.b_not(self.expr(a)))

    def eq(self, a, b):
        r = ops.eq(a, b)
        return r if V.expr_bool(r) is not None else bool(r)

    def ite(self, c, a, b):
        e = self.expr(c)
        if e is True:
            return a
        if e is False:
            return b
        x, y = V.expr_int(a), V.expr_int(b)
        if x is not None and y is not None and not isinstance(a, bool):
            return V.SymInt(z3.If(e, V.IntVal(x) if isinstance(x, int) else x,
                                  V.IntVal(y) if isinstance(y, int) else y))
        x, y = V.expr_bool(a), V.expr_bool(b)
        if x is not None and y is not None:
            return V.mk_bool(V.b_or([V.b_and([e, x]), V.b_and([V.b_not(e), y])]))
        return a if self.engine.branch(e) else b

    def concrete(self, v):
        """Value, fixed on this path (forks over all the values)."""
        if type(v) is V.SymBool:
            return bool(v)
        if type(v) is V.SymInt:
            return int(v)
        if type(v) is V.SymStr:
            return v.realize()
        return v

    def hash(self, x):
        return ops.struct_hash(x)

    def universe(self, strings):
        for s in strings:
            if s not in V.UNIVERSE:
                V.UNIVERSE.append(s)

    def member(self, item, items):
        return ops.contains(item, items)

    def between(self, c, first, last):
        if isinstance(c, str):
            return first <= c <= last
        a, b = ord(first), ord(last)
        char, = c.chars
        return V.mk_bool(char.test(lambda: ((a, b),), lambda p: a <= p <= b))
