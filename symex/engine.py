"""Dynamic symbolic execution: depth-first exploration of all the paths of a
harness, one incremental SMT solver, replayed decision prefixes.

Decisions of the code under test on symbolic values (SymBool.__bool__) end up in
Engine.branch, which asks the solver which outcomes are feasible and explores all
of them. A path is a run of the harness under one list of decisions. When the
exploration is exhaustive, every value of every symbolic input within the declared
domains follows one of the explored paths, and every assertion was decided by the
solver for all the inputs of its path."""
import time
import z3

CURRENT = None  # engine of this process


class PathEnd(BaseException):
    """Stops the current path (assumption infeasible, violation recorded)."""


class Divergence(BaseException):
    """Replay of a decision prefix took another way: code is not deterministic."""


class Inconclusive(BaseException):
    """Solver answered unknown."""


class Unsupported(Exception):
    """Operation on symbolic value that has no encoding."""


class PathTimeout(BaseException):
    pass


class Violation(object):
    def __init__(self, message, model, kind, detail=None):
        self.message = message
        self.model = model
        self.kind = kind  # 'check' | 'exception' | 'timeout' | 'unsupported'
        self.detail = detail


BRANCH, CHOOSE, ASSUME = 0, 1, 2


class Engine(object):
    def __init__(self, timeout_ms=30000, max_paths=None, deadline=None):
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', timeout_ms)
        self.entries = []
        self.pos = 0
        self.levels = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = deadline
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.assertions = 0
        self.complete = False
        self.notes = {}
        self.divergent = 0

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    # ---- solver

    def query(self, *assumed):
        t = time.perf_counter()
        if assumed:
            self.solver.push()
            self.solver.add(*assumed)
        try:
            r = self.solver.check()
            model = self.solver.model() if r == z3.sat else None
        finally:
            if assumed:
                self.solver.pop()
        self.queries += 1
        self.solver_time += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive(self.solver.reason_unknown())
        return model

    def current_model(self):
        if self.model is None:
            self.model = self.query()
            if self.model is None:
                raise PathEnd('infeasible')
        return self.model

    def evaluate(self, expr):
        return self.current_model().eval(expr, model_completion=True)

    def push(self, expr):
        self.solver.push()
        self.solver.add(expr)
        self.levels += 1

    # ---- decisions

    def replaying(self, kind, expr):
        if self.pos < len(self.entries):
            entry = self.entries[self.pos]
            if entry[0] != kind or not entry[1].eq(expr):
                raise Divergence('%s / %s' % (entry[1], expr))
            self.pos += 1
            return entry

    def branch(self, expr):
        """Truth value of expr on this path."""
        if not isinstance(expr, z3.ExprRef):
            return bool(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        entry = self.replaying(BRANCH, expr)
        if entry:
            return entry[2]
        self.branches += 1
        value = z3.is_true(self.evaluate(expr))
        other = z3.Not(expr) if value else expr
        alternative = self.query(other)
        if alternative is not None:
            self.forks += 1
            self.push(expr if value else z3.Not(expr))
        # kind, expr, decision, model of the other decision, pushed
        self.entries.append([BRANCH, expr, value, alternative, alternative is not None])
        self.pos += 1
        return value

    def replayed_value(self, e):
        """Value e was compared with at this point of the replayed prefix."""
        if self.pos < len(self.entries):
            kind, expr = self.entries[self.pos][:2]
            if kind == BRANCH and z3.is_eq(expr) and expr.arg(0).eq(e) and z3.is_int_value(expr.arg(1)):
                return expr.arg(1).as_long()

    def choose(self, var, n):
        """Value of a fresh variable in range(n); all of them get explored."""
        entry = self.replaying(CHOOSE, var)
        if entry:
            return entry[2]
        self.branches += 1
        self.forks += n > 1
        model = self.current_model()
        model.update_value(var, z3.IntVal(0))  # fresh variable
        self.push(var == 0)
        self.entries.append([CHOOSE, var, 0, n, True, model])
        self.pos += 1
        return 0

    def assume(self, expr):
        if not isinstance(expr, z3.ExprRef):
            if not expr:
                raise PathEnd('assume')
            return
        if self.replaying(ASSUME, expr):
            return
        self.push(expr)
        self.entries.append([ASSUME, expr, None, None, True])
        self.pos += 1
        if self.model is None or not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = self.query()
            if self.model is None:
                raise PathEnd('assume')

    def counterexample(self, expr):
        """Model of the path where expr is false, None if expr holds on all of it."""
        self.assertions += 1
        if not isinstance(expr, z3.ExprRef):
            return None if expr else self.current_model()
        if z3.is_true(expr):
            return None
        model = self.model
        if model is not None and z3.is_false(model.eval(expr, model_completion=True)):
            return model
        return self.query(z3.Not(expr))

    def backtrack(self):
        entries = self.entries
        while entries:
            entry = entries[-1]
            if entry[4]:
                self.solver.pop()
                self.levels -= 1
            kind = entry[0]
            if kind == BRANCH and entry[3] is not None:
                entry[2] = not entry[2]
                expr = entry[1] if entry[2] else z3.Not(entry[1])
                self.push(expr)
                self.model = entry[3]
                entry[3] = None
                return True
            elif kind == CHOOSE and entry[2] + 1 < entry[3]:
                entry[2] += 1
                self.push(entry[1] == entry[2])
                self.model = entry[5]
                self.model.update_value(entry[1], z3.IntVal(entry[2]))
                return True
            entries.pop()
        return False

    def explore(self, run):
        """run() executes one path."""
        global CURRENT
        CURRENT = self
        while True:
            self.pos = 0
            try:
                run()
                self.paths += 1
            except PathEnd:
                self.paths += 1
            except Divergence as e:
                self.divergent += 1
                self.note('divergent replay')
                self.last_divergence = str(e)
                del self.entries[self.pos + 1:]
                # solver levels must follow
                want = sum(1 for _ in self.entries if _[4])
                while self.levels > want:
                    self.solver.pop()
                    self.levels -= 1
                if self.divergent > 50:
                    return
            if self.pos < len(self.entries):
                # shorter than the prefix: not deterministic
                self.divergent += 1
                self.note('divergent replay')
                del self.entries[self.pos:]
                want = sum(1 for _ in self.entries if _[4])
                while self.levels > want:
                    self.solver.pop()
                    self.levels -= 1
                if self.divergent > 50:
                    return
            if not self.backtrack():
                self.complete = not self.divergent
                return
            if self.max_paths and self.paths >= self.max_paths:
                return
            if self.deadline and time.time() > self.deadline:
                return


def engine():
    return CURRENT
