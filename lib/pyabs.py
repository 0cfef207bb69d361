"""Abstract interpreter of the Python sources.

Walks the syntax trees of the package modules; nothing of the package is imported or compiled.  The
floating point quantities are value numbers (pynum), the compiled functions and the libraries are
replaced by abstract models (pymodel).  Objects, classes and containers of the program are
represented by host objects."""
import ast
import builtins
import os
import types
from fractions import Fraction

import numpy as np

from fw import AnalysisError
from pynum import Num, UNDEF, num

INF = float('inf')

BUDGET = 3000000


class Stop(BaseException):
    """the interpreter cannot go on"""


class Modified(BaseException):
    """an object of the caller is being modified"""


class Return(Exception):
    pass


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class _Return(BaseException):
    def __init__(self, value):
        self.value = value


def local_names(args, body):
    """names bound by a function"""
    names, glob, nonl = set(), set(), set()

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for b in body:
        visit(b)
    names -= glob | nonl
    for a in args:
        names.add(a)
    return names, glob, nonl


def has_yield(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Env:
    __slots__ = ('vars', 'up', 'names', 'glob', 'nonl', 'module', 'kind', 'cls', 'first', 'out')

    def __init__(self, module, up=None, kind='function', names=(), glob=(), nonl=()):
        self.vars = {}
        self.up = up
        self.names = names
        self.glob = glob
        self.nonl = nonl
        self.module = module
        self.kind = kind
        self.cls = None
        self.first = None
        self.out = None


_MISSING = object()


class Interp:
    def __init__(self, repo, package='eoxmagmod', models=None, externals=None, builtin=None):
        self.repo = repo
        self.root = os.path.join(repo, 'eoxmagmod', 'eoxmagmod')
        self.package = package
        self.models = models or {}          # modules of the package replaced by models
        self.externals = externals or {}    # modules of the libraries
        self.modules = {}
        self.steps = 0
        self.functions = set()              # functions interpreted
        self.branches = {}                  # (file, line) -> set of outcomes
        self.stack = []
        self.frozen = {}                    # id -> (object, description)
        self.guard = False                  # arguments of the outermost calls belong to the caller
        self.builtins = dict(vars(builtins))
        for n in ('exec', 'eval', 'compile', 'input', 'breakpoint', 'exit', 'quit', 'open'):
            self.builtins.pop(n, None)
        self.builtins['__import__'] = None
        self.builtins.update(builtin or {})
        self.trees = {}

    # -- modules
    def path_of(self, name):
        rel = name.split('.')[1:]
        base = os.path.join(self.root, *rel)
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                return p
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.models:
            m = self.modules[name] = self.models[name]
            return m
        if name == self.package or name.startswith(self.package + '.'):
            path = self.path_of(name)
            if path is None:
                if os.path.isdir(os.path.join(self.root, *name.split('.')[1:])):
                    m = self.modules[name] = types.ModuleType(name)
                    m.__path__ = []
                    return m
                raise ModuleNotFoundError('No module named %r' % name)
            parent = name.rpartition('.')[0]
            if parent:
                self.load(parent)
                if name in self.modules:
                    return self.modules[name]
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name if path.endswith('__init__.py') else parent
            self.modules[name] = m
            if parent:
                setattr(self.modules[parent], name.rpartition('.')[2], m)
            with open(path, encoding='utf-8') as f:
                try:
                    tree = ast.parse(f.read(), path)
                except SyntaxError as e:
                    raise AnalysisError('%s cannot be parsed: %s' % (path, e))
            env = Env(m, kind='module')
            env.vars = m.__dict__
            env.vars['__name__'] = name
            rel = os.path.relpath(path, self.root)
            self.stack.append((rel, '<module>'))
            try:
                self.block(tree.body, env)
            finally:
                self.stack.pop()
            return m
        if name in self.externals:
            return self.externals[name]
        top = name.split('.')[0]
        if top in self.externals:
            m = self.externals[top]
            for part in name.split('.')[1:]:
                try:
                    m = getattr(m, part)
                except AttributeError:
                    raise ModuleNotFoundError('No module named %r' % name) from None
            return m
        raise Stop('import of the module %s is not modelled' % name)

    def do_import(self, n, env):
        if isinstance(n, ast.Import):
            for a in n.names:
                m = self.load(a.name)
                if a.asname:
                    self.store_name(a.asname, m, env)
                else:
                    self.store_name(a.name.split('.')[0], self.load(a.name.split('.')[0]), env)
            return
        if n.module == '__future__':
            return
        if n.level:
            base = env.module.__package__.split('.')
            base = base[:len(base) - (n.level - 1)]
            name = '.'.join(base + ([n.module] if n.module else []))
        else:
            name = n.module
        m = self.load(name)
        for a in n.names:
            if a.name == '*':
                for k in getattr(m, '__all__', [x for x in vars(m) if not x.startswith('_')]):
                    self.store_name(k, getattr(m, k), env)
                continue
            try:
                v = getattr(m, a.name)
            except AttributeError:
                if name == self.package or name.startswith(self.package + '.'):
                    try:
                        v = self.load(name + '.' + a.name)
                    except ModuleNotFoundError:
                        raise ImportError('cannot import name %r from %r' % (a.name, name)) from None
                else:
                    raise ImportError('cannot import name %r from %r' % (a.name, name)) from None
            self.store_name(a.asname or a.name, v, env)

    # -- names
    def lookup(self, name, env):
        e = env
        if e.kind in ('module', 'class'):
            v = e.vars.get(name, _MISSING)
            if v is not _MISSING:
                return v
            e = e.up
        while e is not None:
            if e.kind == 'class':
                e = e.up
                continue
            if name in e.glob:
                break
            v = e.vars.get(name, _MISSING)
            if v is not _MISSING:
                return v
            if e.kind == 'function' and name in e.names:
                raise UnboundLocalError(
                    'cannot access local variable %r where it is not associated with a value' % name)
            e = e.up
        v = vars(env.module).get(name, _MISSING)
        if v is not _MISSING:
            return v
        v = self.builtins.get(name, _MISSING)
        if v is not _MISSING:
            return v
        if hasattr(builtins, name):
            raise Stop('the built-in function %s is not modelled' % name)
        raise NameError('name %r is not defined' % name)

    def store_name(self, name, v, env):
        if env.kind == 'comp' and name not in env.names:
            self.store_name(name, v, env.up)
        elif name in env.glob:
            vars(env.module)[name] = v
        elif name in env.nonl:
            e = env.up
            while e is not None:
                if e.kind == 'function' and name in e.names:
                    e.vars[name] = v
                    return
                e = e.up
            raise Stop('nonlocal %s' % name)
        else:
            env.vars[name] = v

    # -- functions
    def make_function(self, node, env, name=None):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        every = pos + kwo + [x.arg for x in (a.vararg, a.kwarg) if x]
        lam = isinstance(node, ast.Lambda)
        body = [ast.Return(node.body)] if lam else node.body
        if lam:
            ast.copy_location(body[0], node)
        names, glob, nonl = local_names(every, body)
        defaults = [self.ev(d, env) for d in a.defaults]
        kwdef = {x: self.ev(d, env) for x, d in zip(kwo, a.kw_defaults) if d is not None}
        gen = has_yield(body)
        interp = self
        name = name or ('<lambda>' if lam else node.name)
        if isinstance(node, ast.AsyncFunctionDef):
            raise Stop('asynchronous function')
        cls = env.cls if env.kind == 'class' else None
        rel = os.path.relpath(getattr(env.module, '__file__', '?'), self.root)

        def bind(args, kwargs):
            e = Env(env.module, env, 'function', names, glob, nonl)
            v = e.vars
            if len(args) > len(pos) and not a.vararg:
                raise TypeError('%s() takes %d positional arguments but %d were given' % (
                    name, len(pos), len(args)))
            v.update(zip(pos, args))
            if a.vararg:
                v[a.vararg.arg] = tuple(args[len(pos):])
            extra = {}
            ponly = {x.arg for x in a.posonlyargs}
            for k, x in kwargs.items():
                if (k in pos and k not in ponly) or k in kwo:
                    if k in v:
                        raise TypeError('%s() got multiple values for argument %r' % (name, k))
                    v[k] = x
                elif a.kwarg:
                    extra[k] = x
                else:
                    raise TypeError('%s() got an unexpected keyword argument %r' % (name, k))
            if a.kwarg:
                v[a.kwarg.arg] = extra
            for k, d in zip(pos[len(pos) - len(defaults):], defaults):
                v.setdefault(k, d)
            for k in kwo:
                if k not in v and k in kwdef:
                    v[k] = kwdef[k]
            missing = [k for k in pos + kwo if k not in v]
            if missing:
                raise TypeError('%s() missing required arguments: %s' % (name, ', '.join(missing)))
            e.first = v.get(pos[0]) if pos else (args[0] if args else None)
            return e

        def run(e):
            if len(interp.stack) > 180:
                raise RecursionError('maximum recursion depth exceeded')
            interp.functions.add(rel + ':' + func.__qualname__)
            interp.stack.append((rel, func.__qualname__))
            try:
                interp.block(body, e)
            except _Return as r:
                return r.value
            finally:
                interp.stack.pop()
            return None

        def guard(args, kwargs):
            if interp.guard and not interp.stack:
                for x in args:
                    interp.freeze_if(x, 'an argument of %s' % name)
                for k, x in kwargs.items():
                    interp.freeze_if(x, 'the argument %s of %s' % (k, name))

        if gen:
            def func(*args, **kwargs):
                guard(args, kwargs)
                e = bind(args, kwargs)
                return Generator(run, e)
        else:
            def func(*args, **kwargs):
                guard(args, kwargs)
                return run(bind(args, kwargs))
        func.__name__ = name
        outer = env
        qual = name
        if outer.kind == 'class' and outer.cls:
            qual = outer.cls['__qualname__'] + '.' + name
        elif outer.kind == 'function' and interp.stack:
            qual = interp.stack[-1][1] + '.' + name
        func.__qualname__ = qual
        func.__doc__ = None if lam else ast.get_docstring(node)
        func.__module__ = env.module.__name__
        func.__dict__['_cell'] = cls
        return func

    def make_class(self, node, env):
        bases = []
        for b in node.bases:
            bases.append(self.ev(b, env))
        kw = {k.arg: self.ev(k.value, env) for k in node.keywords}
        e = Env(env.module, env, 'class')
        cell = {'__qualname__': node.name, 'class': None}
        e.cls = cell
        e.vars['__module__'] = env.module.__name__
        e.vars['__qualname__'] = node.name
        self.block(node.body, e)
        ns = dict(e.vars)
        ns.pop('__static_attributes__', None)
        cls = types.new_class(node.name, tuple(bases), kw,
                              lambda d: d.update(ns))
        cell['class'] = cls
        return cls

    # -- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def where(self):
        return '%s:%s' % self.stack[-1] if self.stack else '?'

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > BUDGET:
            raise Stop('the iteration does not end within the budget at %s' % self.where())
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Stop('%s is not supported at %s' % (type(s).__name__, self.where()))
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        self.do_import(s, env)
    s_ImportFrom = s_Import

    def s_Global(self, s, env):
        pass
    s_Nonlocal = s_Global

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if env.kind == 'class' and isinstance(s.target, ast.Name) and s.simple:
            try:
                a = self.ev(s.annotation, env)
            except (NameError, Stop):
                a = ast.unparse(s.annotation)
            env.vars.setdefault('__annotations__', {})[s.target.id] = a
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.store_name(t.id, self.inplace(s.op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(s.op, old, self.ev(s.value, env)))
        else:
            raise Stop('augmented assignment')

    def s_Return(self, s, env):
        raise _Return(None if s.value is None else self.ev(s.value, env))

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env), s) else s.orelse, env)

    def s_While(self, s, env):
        while self.truth(self.ev(s.test, env), s):
            self.steps += 1
            if self.steps > BUDGET:
                raise Stop('the loop does not end within the budget at %s' % self.where())
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        for x in self.iterate(self.ev(s.iter, env)):
            self.steps += 1
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_FunctionDef(self, s, env):
        decs = [self.ev(d, env) for d in s.decorator_list]
        f = self.make_function(s, env)
        for d in reversed(decs):
            f = d(f)
        self.store_name(s.name, f, env)
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, env):
        decs = [self.ev(d, env) for d in s.decorator_list]
        c = self.make_class(s, env)
        for d in reversed(decs):
            c = d(c)
        self.store_name(s.name, c, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            e = self.handling[-1] if getattr(self, 'handling', None) else None
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, type):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        raise e

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env), s):
            raise AssertionError(self.ev(s.msg, env) if s.msg else '')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    raise NameError('name %r is not defined' % t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env), self.ev(t.slice, env)
                self.owned(o)
                del o[i]
            else:
                raise Stop('del')

    def s_Try(self, s, env):
        if not hasattr(self, 'handling'):
            self.handling = []
        try:
            try:
                self.block(s.body, env)
            except Exception as e:
                for h in s.handlers:
                    t = BaseException if h.type is None else self.ev(h.type, env)
                    if isinstance(e, t):
                        self.handling.append(e)
                        if h.name:
                            self.store_name(h.name, e, env)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except Stop:
            raise
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        self.with_items(list(s.items), s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        i = items[0]
        c = self.ev(i.context_expr, env)
        enter, leave = type(c).__enter__, type(c).__exit__
        v = enter(c)
        if i.optional_vars is not None:
            self.assign(i.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except Exception as e:
            if not leave(c, type(e), e, None):
                raise
        except BaseException:
            leave(c, None, None, None)
            raise
        else:
            leave(c, None, None, None)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (
                    c.guard is None or self.truth(self.ev(c.guard, env), c.pattern)):
                self.block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return bool(v == self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)) or len(v) != len(p.patterns):
                return False
            return all(self.match(x, y, env) for x, y in zip(p.patterns, v))
        raise Stop('match pattern')

    # -- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                vals = vals[:i] + [vals[i:len(vals) - k]] + vals[len(vals) - k:]
            if len(vals) != len(t.elts):
                raise ValueError('%s values to unpack (expected %d)' % (
                    'too many' if len(vals) > len(t.elts) else 'not enough', len(t.elts)))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Stop('assignment target')

    def owned(self, o):
        """raise an alarm if the object belongs to the caller"""
        if isinstance(o, np.ndarray):
            if not o.flags.writeable:
                raise Modified('an array', self.where())
        elif id(o) in self.frozen:
            raise Modified(self.frozen[id(o)][1], self.where())

    def freeze(self, o, what):
        self.frozen[id(o)] = (o, what)
        if isinstance(o, np.ndarray):
            o.flags.writeable = False
        elif isinstance(o, dict):
            for v in o.values():
                self.freeze_if(v, what)
        elif isinstance(o, (list, tuple)):
            for v in o:
                self.freeze_if(v, what)
        return o

    def freeze_if(self, v, what):
        if isinstance(v, (np.ndarray, dict, list)):
            self.freeze(v, what)

    def setattr(self, o, name, v):
        if isinstance(o, np.ndarray) and name in ('shape', 'strides', 'dtype'):
            self.owned(o)
        setattr(o, name, v)

    def setitem(self, o, i, v):
        self.owned(o)
        if isinstance(o, np.ndarray):
            i = index(i)
            if o.dtype == object:
                if isinstance(v, (list, tuple)):
                    v = self.array(v)
                if isinstance(v, np.ndarray) and v.dtype != object:
                    v = v.astype(object)
                sel = o[i]
                if not isinstance(sel, np.ndarray):
                    if isinstance(v, np.ndarray):
                        if v.size != 1:
                            raise ValueError('setting an array element with a sequence.')
                        v = v.reshape(-1)[0]
                    o[i] = v
                    return
                if isinstance(v, np.ndarray):
                    if v.ndim == 0:
                        o[i] = v[()]
                    else:
                        o[i] = v
                    return
            elif isinstance(v, Num):
                raise Stop('real quantity stored to an integer array')
            o[i] = v
            return
        o[i] = v

    def getitem(self, o, i):
        if isinstance(o, np.ndarray):
            i = index(i)
            return npf(o[i])
        return o[i]

    def array(self, v):
        return self.externals['numpy'].asarray(v)

    # -- expressions
    def truth(self, v, node=None):
        if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
            v = v.reshape(-1)[0]
        r = bool(v)
        if node is not None and self.stack:
            self.branches.setdefault((self.stack[-1][0], getattr(node, 'lineno', 0)), set()).add(r)
        return r

    def iterate(self, v):
        if isinstance(v, np.ndarray) and v.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return iter(v)

    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Stop('%s is not supported at %s' % (type(n).__name__, self.where()))
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if type(v) is float and v == v and v not in (INF, -INF):
            return num(Fraction(repr(v)))       # the decimal number written
        return v

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.kind == 'comp':
            e = e.up
        self.store_name(n.target.id, v, e)
        return v

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Tuple(self, n, env):
        return tuple(self.elements(n.elts, env))

    def e_List(self, n, env):
        return self.elements(n.elts, env)

    def e_Set(self, n, env):
        return set(self.elements(n.elts, env))

    def e_Dict(self, n, env):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(self.ev(v, env))
            else:
                out[self.ev(k, env)] = self.ev(v, env)
        return out

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def getattr(self, o, name):
        if id(o) in self.frozen and isinstance(o, (list, dict)) and name in (
                'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update',
                'setdefault', 'popitem', '__setitem__', '__delitem__'):
            f = getattr(o, name)

            def guarded(*a, **k):
                if name == 'pop' and isinstance(o, dict) and len(a) == 2 and a[0] not in o:
                    return a[1]
                if name == 'setdefault' and a[0] in o:
                    return o[a[0]]
                if name == 'update' and not k and all(not x for x in a):
                    return None
                self.owned(o)
                return f(*a, **k)
            return guarded
        if isinstance(o, np.ndarray):
            return self.externals['numpy']._method(self, o, name)
        return getattr(o, name)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev(n.slice, env))

    def e_Slice(self, n, env):
        return slice(*[None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step)])

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env), n) else n.orelse, env)

    def e_BoolOp(self, n, env):
        for x in n.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != isinstance(n.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        return self.binop(n.op, a, self.ev(n.right, env))

    def binop(self, op, a, b):
        r = OPS[type(op)](a, b)
        if type(r) is float and (type(a) is not float or type(b) is not float):
            if isinstance(a, NPT) or isinstance(b, NPT):
                return np.float64(r)
        return r

    def inplace(self, op, a, b):
        self_owned = isinstance(a, (np.ndarray, list, dict, set))
        if self_owned and (not isinstance(a, np.ndarray) or a.ndim >= 0):
            if isinstance(a, np.ndarray):
                r = self.binop(op, a, b)
                r_ = np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r
                self.owned(a)
                if r_.shape != a.shape:
                    raise ValueError('non-broadcastable output operand with shape %s does not match '
                                     'the broadcast shape %s' % (a.shape, r_.shape))
                if a.dtype != object and r_.dtype == object:
                    raise Stop('real quantity stored to an integer array')
                a[...] = r_
                return a
            self.owned(a)
        return IOPS[type(op)](a, b)

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(x, env)
            r = self.compare(op, a, b)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return r
            a = b
        return r

    def compare(self, op, a, b):
        f = CMPS[type(op)]
        r = f(a, b)
        if isinstance(a, (np.ndarray, Num)) or isinstance(b, (np.ndarray, Num)):
            if isinstance(r, np.ndarray) and r.dtype == object:
                r = r.astype(bool)
            elif isinstance(r, bool) and type(op) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq):
                r = np.bool_(r)
        return r

    def e_Call(self, n, env):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            e = env
            while e is not None and not (e.kind == 'function' and self.defining(e)):
                e = e.up
            if e is None:
                raise RuntimeError('super(): no arguments')
            return super(self.defining(e), e.first)
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'vars'):
            if f.id == 'locals':
                return dict(env.vars)
            if f.id == 'globals':
                return vars(env.module)
        fv = self.ev(f, env)
        args = self.elements(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for x in d.keys():
                    if x in kw:
                        raise TypeError('got multiple values for keyword argument %r' % x)
                    kw[x] = d[x]
            else:
                if k.arg in kw:
                    raise TypeError('got multiple values for keyword argument %r' % k.arg)
                kw[k.arg] = self.ev(k.value, env)
        return self.call(fv, args, kw)

    def call(self, f, args, kw):
        return f(*args, **kw)

    def defining(self, e):
        """class which the function of the environment is defined in"""
        return e.up.cls['class'] if e.up is not None and e.up.kind == 'class' else None

    def e_Lambda(self, n, env):
        return self.make_function(n, env)

    def e_JoinedStr(self, n, env):
        return ''.join(str(self.ev(v, env)) for v in n.values)

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        if n.conversion == 114:
            v = repr(v)
        elif n.conversion == 115:
            v = str(v)
        spec = self.ev(n.format_spec, env) if n.format_spec else ''
        try:
            return format(v, spec)
        except (TypeError, ValueError):
            if isinstance(v, (Num, np.ndarray)):
                return repr(v)
            raise

    def comp(self, gens, env, emit):
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        e = Env(env.module, env, 'comp', names, (), ())
        e.first = env.first

        def rec(i):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for x in self.iterate(self.ev(g.iter, env if i == 0 else e)):
                self.steps += 1
                if self.steps > BUDGET:
                    raise Stop('the iteration does not end within the budget at %s' % self.where())
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e), c) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def e_GeneratorExp(self, n, env):
        return iter(self.e_ListComp(n, env))

    def e_SetComp(self, n, env):
        return set(self.e_ListComp(n, env))

    def e_DictComp(self, n, env):
        out = {}

        def emit(e):
            k = self.ev(n.key, e)
            out[k] = self.ev(n.value, e)
        self.comp(n.generators, env, emit)
        return out

    def e_Yield(self, n, env):
        e = env
        while e.out is None:
            e = e.up
        e.out.append(None if n.value is None else self.ev(n.value, env))

    def e_YieldFrom(self, n, env):
        e = env
        while e.out is None:
            e = e.up
        e.out.extend(self.iterate(self.ev(n.value, env)))

    def e_Starred(self, n, env):
        raise Stop('starred expression')


class Generator:
    """generator of the program: its body is interpreted when the first item is requested"""

    def __init__(self, run, env):
        self.run, self.env, self.items, self.error = run, env, None, None

    def __iter__(self):
        return self

    def __next__(self):
        if self.items is None:
            self.env.out = []
            try:
                self.run(self.env)
            except Exception as e:
                self.error = e
            self.items = iter(self.env.out)
        for x in self.items:
            return x
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        raise StopIteration

    def close(self):
        self.items = iter(())


def index(i):
    """index of an array"""
    if isinstance(i, tuple):
        return tuple(index(x) for x in i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        if i.size and all(isinstance(x, (bool, np.bool_)) for x in i.ravel()):
            return i.astype(bool)
        if i.size and all(isinstance(x, (int, np.integer)) for x in i.ravel()):
            return i.astype(int)
        if not i.size:
            return i.astype(int)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return i


NPT = (np.ndarray, np.generic, Num)


def npf(r):
    """elements of arrays are NumPy scalars"""
    return np.float64(r) if type(r) is float else r


def _div(a, b):
    try:
        if isinstance(a, np.ndarray) and a.dtype == object or isinstance(b, np.ndarray) and b.dtype == object:
            return obj_op(lambda x, y: _div(x, y), a, b)
        if type(a) is int and type(b) is int:
            return num(Fraction(a, b))
        return a / b
    except ZeroDivisionError:
        return float('nan') if not a else float('inf') if a > 0 else -float('inf')


def obj_op(f, a, b):
    r = np.frompyfunc(f, 2, 1)(a, b)
    return r


def _mul(a, b):
    return a * b


OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: _mul,
       ast.Div: _div, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
       ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
       ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
       ast.MatMult: lambda a, b: a @ b}


def _iadd(a, b):
    a += b
    return a


IOPS = dict(OPS)
IOPS[ast.Add] = _iadd


def _ior(a, b):
    a |= b
    return a


IOPS[ast.BitOr] = _ior
CMPS = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b,
        ast.GtE: lambda a, b: a >= b, ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b,
        ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
        ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
