"""Imports yargy from the repository with its operations on values rewritten to
those of symex.ops. The source is read and rewritten anew in every run."""
import ast
import functools
import importlib.abc
import importlib.util
import operator
import os
import sys
import types
import weakref

REPO = os.environ.get('YARGY_REPO', '/repo')

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}


def name(id):
    return ast.Name(id=id, ctx=ast.Load())


PURE = (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp, ast.BoolOp,
        ast.Compare, ast.Load, ast.boolop, ast.unaryop, ast.cmpop, ast.Tuple, ast.List)


def is_pure(node):
    return all(isinstance(n, PURE) for n in ast.walk(node))


def plain_names(tree):
    """Names of functions and classes of yargy: calls of those need no care."""
    defined, other = set(), set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Name) and not isinstance(node.ctx, ast.Load):
            other.add(node.id)
        elif isinstance(node, ast.arg):
            other.add(node.arg)
        elif isinstance(node, ast.ExceptHandler) and node.name:
            other.add(node.name)
        elif isinstance(node, (ast.Import, ast.ImportFrom)):
            ours = isinstance(node, ast.ImportFrom) and (
                node.level > 0 or (node.module or '').split('.')[0] == 'yargy')
            for a in node.names:
                (defined if ours and a.name[:1].isupper() else other).add(
                    (a.asname or a.name).split('.')[0])
        elif isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            (other if node.decorator_list else defined).add(node.name)
    return defined - other


class Rewriter(ast.NodeTransformer):
    def __init__(self, plain=()):
        self.depth = 0  # of functions
        self.plain = plain

    def visit_FunctionDef(self, node):
        # decorators and defaults belong to the enclosing scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        depth = self.depth
        self.depth = 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        f = {ast.Eq: '_sx_eq', ast.NotEq: '_sx_ne',
             ast.In: '_sx_in', ast.NotIn: '_sx_notin'}.get(type(op))
        if not f:
            return node
        return ast.Call(name(f), [node.left, node.comparators[0]], [])

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.Call(name('_sx_not'), [node.operand], [])
        return node

    def visit_BoolOp(self, node):
        pure = self.depth and all(is_pure(v) for v in node.values[1:])
        self.generic_visit(node)
        if not pure:
            return node
        f = '_sx_and' if isinstance(node.op, ast.And) else '_sx_or'
        # a or b or c: left to right, rests nested
        def build(values):
            if len(values) == 1:
                return values[0]
            rest = ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]),
                body=build(values[1:])
            )
            return ast.Call(name(f), [values[0], rest], [])
        return build(node.values)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(name('_sx_item'), [node.value, self.index(node.slice)], [])
        return node

    def index(self, node):
        if isinstance(node, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(name('_sx_slice'), [node.lower or none, node.upper or none,
                                            node.step or none], [])
        if isinstance(node, ast.Tuple) and any(isinstance(x, ast.Slice) for x in node.elts):
            return ast.Tuple([self.index(x) for x in node.elts], ast.Load())
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (
                node.func.id in SKIP_CALLS or node.func.id in self.plain
                or node.func.id.startswith('_sx_')):
            return node
        return ast.Call(name('_sx_call'), [node.func] + node.args, node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(name('_sx_mod'), [node.left, node.right], [])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant('')
                parts.append(ast.Tuple(
                    [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.Call(name('_sx_fstr'), parts, [])

    # annotations and match patterns stay as they are
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node


def rewrite(source, path):
    tree = ast.parse(source, path)
    tree = Rewriter(plain_names(tree)).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import ops
        with open(self.path, encoding='utf8') as f:
            source = f.read()
        module.__file__ = self.path
        module.__dict__.update(ops.NAMESPACE)
        exec(rewrite(source, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'yargy' and not fullname.startswith('yargy.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            file = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_file_location(
                fullname, file, loader=Loader(file), submodule_search_locations=[base])
            return spec
        file = base + '.py'
        if os.path.exists(file):
            return importlib.util.spec_from_file_location(fullname, file, loader=Loader(file))
        raise ImportError('no %s in %s' % (fullname, REPO))


FUNCTIONS = {}

CACHES = []
REAL_LRU_CACHE = functools.lru_cache


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache for functions of yargy: arguments are compared in a
    fixed order, whatever their hashes are."""
    if callable(maxsize):
        return lru_cache()(maxsize)

    def decorate(f):
        if (getattr(f, '__module__', None) or '').split('.')[0] != 'yargy':
            return REAL_LRU_CACHE(maxsize, typed)(f)
        from .ops import eq
        entries = []
        CACHES.append(entries)
        hits = [0, 0]

        def same(a, b):
            return a is b or (not typed or type(a) is type(b)) and bool(eq(a, b))

        @functools.wraps(f)
        def wrapper(*args, **kwargs):
            for x in args + tuple(kwargs.values()):
                hash(x)  # may be not hashable
            for i, (a, k, value) in enumerate(entries):
                if len(a) == len(args) and list(k) == list(kwargs) and all(map(same, a, args)) and all(
                        map(same, k.values(), kwargs.values())):
                    entries.append(entries.pop(i))
                    hits[0] += 1
                    return value
            hits[1] += 1
            value = f(*args, **kwargs)
            if maxsize is None or maxsize > 0:
                entries.append((args, kwargs, value))
                if maxsize is not None and len(entries) > maxsize:
                    entries.pop(0)
            return value

        def clear():
            del entries[:]

        wrapper.cache_clear = clear
        wrapper.cache_info = lambda: functools._CacheInfo(hits[0], hits[1], maxsize, len(entries))
        return wrapper

    return decorate


CONTAINERS = (dict, list, set, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)
STATE = []
ATTRIBUTES = []


def save_state():
    """Contents of what lives as long as the modules of yargy, to start every path
    from the same state."""
    seen = set()
    todo = []
    modules = [m for key, m in sorted(sys.modules.items()) if key == 'yargy' or key.startswith('yargy.')]

    def ours(x):
        return (getattr(x, '__module__', None) or '').split('.')[0] == 'yargy'

    def visit(x):
        if isinstance(x, CONTAINERS + (tuple, frozenset)):
            if id(x) not in seen:
                seen.add(id(x))
                if isinstance(x, CONTAINERS):
                    STATE.append((x, x.copy()))
                for y in (list(x.values()) if isinstance(x, dict) else list(x)):
                    visit(y)
        elif isinstance(x, types.FunctionType):
            if ours(x) and id(x) not in seen:
                seen.add(id(x))
                visit(x.__defaults__ or ())
                visit(x.__kwdefaults__ or ())
                for cell in x.__closure__ or ():
                    try:
                        visit(cell.cell_contents)
                    except ValueError:
                        pass
                if x.__dict__:
                    visit(x.__dict__)
        elif isinstance(x, (staticmethod, classmethod)):
            visit(x.__func__)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                visit(f)
        elif isinstance(x, type):
            if ours(x) and id(x) not in seen:
                seen.add(id(x))
                todo.append(x)
                for y in list(vars(x).values()):
                    visit(y)
        elif ours(type(x)) and id(x) not in seen and hasattr(x, '__dict__'):
            seen.add(id(x))
            visit(x.__dict__)

    for m in modules:
        todo.append(m)
        for key, value in sorted(vars(m).items()):
            if not key.startswith('__') and not key.startswith('_sx_'):
                visit(value)
    for x in todo:
        ATTRIBUTES.append((x, dict(vars(x))))


def restore_state():
    for entries in CACHES:
        del entries[:]
    if not STATE and not ATTRIBUTES:
        save_state()
        return
    for x, copy in STATE:
        if len(x) != len(copy) or not same_content(x, copy):
            if isinstance(x, list):
                x[:] = copy
            else:
                x.clear()
                x.update(copy)
    for x, copy in ATTRIBUTES:
        now = vars(x)
        if len(now) != len(copy) or any(now.get(k) is not v for k, v in copy.items()):
            for k in list(now):
                if k not in copy:
                    if not isinstance(now[k], types.ModuleType):
                        delattr(x, k)
                elif now[k] is not copy[k]:
                    setattr(x, k, copy[k])


def same_content(x, copy):
    if isinstance(x, list):
        return all(map(operator.is_, x, copy))
    if isinstance(x, dict):
        return all(map(operator.is_, x, copy)) and all(map(operator.is_, x.values(), copy.values()))
    return x == copy


def install():
    """Symbolic mode: rewritten yargy."""
    for key in list(sys.modules):
        assert not (key == 'yargy' or key.startswith('yargy.')), 'yargy already imported'
    sys.meta_path.insert(0, Finder())
    site = '/opt/venv/lib/python3.12/site-packages'  # pymorphy2
    if site not in sys.path:
        sys.path.append(site)
    functools.lru_cache = lru_cache
    record_functions()


def record_functions():
    """Names of the functions of yargy that got executed."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'symex')
    except ValueError:
        return
    prefix = os.path.join(REPO, 'yargy') + os.sep

    def start(code, offset):
        if code.co_filename.startswith(prefix):
            n = code.co_qualname
            if '<' not in n.split('.')[-1] or '<locals>' in n and '<' not in n.split('.')[-1]:
                FUNCTIONS[code.co_filename[len(REPO) + 1:] + ':' + n] = True
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def install_plain():
    """Concrete mode: yargy as it is."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
