"""One abstract world: the package interpreted over the models of its libraries."""
import functools
import math
import os
import types

import numpy as np

import pyabs
import pymodel
import pynum
from fw import AnalysisError
from pynum import Num, num

_cmods = {}


def ctable(repo):
    """names and keywords of the compiled modules"""
    if repo not in _cmods:
        import layers
        out = {}
        for name, src in layers.MODULES.items():
            m = layers.CModule(repo, name, src)
            kws = {}
            for pub, (fn, flags) in m.methods.items():
                f = m.tu.functions.get(fn)
                kws[pub] = None
                if f is None:
                    continue
                for n in f.walk():
                    if n.kind == 'CallExpr' and layers.callee(n) == 'PyArg_ParseTupleAndKeywords' \
                            and len(n.inner) > 4:
                        kws[pub] = layers.keyword_list(m.tu, f, n.inner[4])[0]
            out[name] = (kws, {c for c in m.constants if c.isidentifier()})
        _cmods[repo] = out
    return _cmods[repo]


def bound(f, keywords):
    """model of a compiled function called with its declared keywords"""
    code = getattr(f, '__code__', None)
    mine = list(code.co_varnames[:code.co_argcount]) if code else None
    if not keywords or mine is None or mine == ['args'] or len(mine) != len(keywords):
        order = mine if mine and code.co_argcount else None
        return f if not (keywords and not order) else rename(f, keywords, None)
    if set(mine) == set(keywords):
        return rename(f, keywords, {k: k for k in keywords})
    return rename(f, keywords, dict(zip(keywords, mine)))


def rename(f, keywords, names):
    @functools.wraps(f)
    def g(*args, **kw):
        if len(args) > len(keywords):
            raise TypeError('function takes at most %d arguments (%d given)' % (len(keywords), len(args)))
        vals = dict(zip(keywords, args))
        for k, v in kw.items():
            if k not in keywords:
                raise TypeError('%r is an invalid keyword argument' % k)
            if k in vals:
                raise TypeError('argument given by name (%r) and position' % k)
            vals[k] = v
        if names is None:
            return f(*[vals[k] for k in keywords if k in vals])
        return f(**{names[k]: v for k, v in vals.items()})
    g._model = True
    return g


def c_modules(repo):
    out = {}
    for name, (kws, consts) in ctable(repo).items():
        m = types.ModuleType('eoxmagmod.' + name)
        for k, c in enumerate(sorted(consts)):
            setattr(m, c, pymodel.CONST.get(c, 'constant:' + c))
        for pub, kw in kws.items():
            f = pymodel.CFUN.get(name, {}).get(pub)
            setattr(m, pub, bound(f, kw) if f else pymodel.Missing('the compiled function %s' % pub))
        m.__file__ = name
        out['eoxmagmod.' + name] = m
    return out


class Text:
    """abstract text file: its numbers are quantities"""

    def __init__(self, world, path, lines):
        self.world, self.path, self.lines, self.closed, self.pos = world, path, lines, False, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def __iter__(self):
        return self

    def __next__(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.pos >= len(self.lines):
            raise StopIteration
        self.pos += 1
        return self.lines[self.pos - 1]

    def readline(self):
        return next(self, '')

    def readlines(self):
        return list(self)

    def read(self):
        return ''.join(self)

    def seek(self, pos):
        if pos:
            raise pyabs.Stop('seek')
        self.pos = 0


class World:
    def __init__(self, repo, seed, zero=False):
        self.draw = pynum.Draw.cur = pynum.Draw(seed, zero)
        self.files = {}         # path -> lines or CDF variables
        self.numbers = {}       # token -> Num
        self.opened = []
        w = self

        def open_(file, mode='r', *a, **k):
            if any(c in mode for c in 'wax+'):
                raise pyabs.Stop('a file is being written')
            if file not in w.files:
                raise FileNotFoundError('[Errno 2] No such file or directory: %r' % (file,))
            t = Text(w, file, list(w.files[file]))
            w.opened.append(t)
            return t

        class Float(float):
            pass

        class float_meta(type):
            def __instancecheck__(cls, o):
                return isinstance(o, (float, Num))

            def __call__(cls, x=0.0):
                if isinstance(x, np.ndarray) and x.size == 1:
                    x = x.reshape(-1)[0]
                if isinstance(x, Num):
                    return x
                if isinstance(x, str):
                    t = x.strip()
                    if t in w.numbers:
                        return w.numbers[t]
                    return float(t)
                return float(x)

        class float_(metaclass=float_meta):
            pass

        def int_(x=0, *a):
            if isinstance(x, np.ndarray) and x.size == 1:
                x = x.reshape(-1)[0]
            if isinstance(x, str) and x.strip() in w.numbers:
                raise ValueError('invalid literal for int() with base 10: %r' % x)
            return int(x, *a)

        class int_meta(type):
            def __instancecheck__(cls, o):
                return isinstance(o, int)

            def __call__(cls, *a):
                return int_(*a)

        class Int(metaclass=int_meta):
            pass

        def max_(*a, **k):
            return host_minmax(max, a, k)

        def min_(*a, **k):
            return host_minmax(min, a, k)

        bi = {'open': open_, 'float': float_, 'int': Int, 'isinstance': b_isinstance(float_, Int),
              'max': max_, 'min': min_, 'print': lambda *a, **k: None,
              'hasattr': lambda o, n: not isinstance(self.try_getattr(o, n), Exception)}
        self.cdfs = {}

        class CDF:
            def __init__(self, path, *a, **k):
                if path not in w.cdfs:
                    raise FileNotFoundError(path)
                self.vars = w.cdfs[path]
                self.closed = False
                w.opened.append(self)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.closed = True
                return False

            def close(self):
                self.closed = True

            def raw_var(self, name):
                return Raw(self, self.vars[name])

            def __getitem__(self, name):
                return Raw(self, self.vars[name])

            def __contains__(self, name):
                return name in self.vars

            def keys(self):
                return list(self.vars)

        class Raw:
            def __init__(self, cdf, v):
                self.cdf, (self.data, self.kind) = cdf, v

            def __getitem__(self, idx):
                if self.cdf.closed:
                    raise ValueError('the CDF file is closed')
                return self.data[idx].copy() if isinstance(self.data[idx], np.ndarray) else self.data[idx]

            def type(self):
                return self.kind

            @property
            def shape(self):
                return self.data.shape

        ext = pymodel.externals(self.files, CDF)
        ext['math'] = pymodel.math_module()
        self.it = pyabs.Interp(repo, models=c_modules(repo), externals=ext, builtin=bi)

    def try_getattr(self, o, n):
        try:
            return self.it.getattr(o, n)
        except AttributeError as e:
            return e

    def module(self, name):
        return self.it.load('eoxmagmod' + ('.' + name if name else ''))

    def token(self, name, n):
        t = '~%s' % name
        self.numbers[t] = n
        return t


def host_minmax(f, a, k):
    items = list(a[0]) if len(a) == 1 else list(a)
    if not items and 'default' in k:
        return k['default']
    return f(items, **{x: y for x, y in k.items() if x != 'default'})


def b_isinstance(float_, int_):
    def g(o, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, tuple):
                if g(o, x):
                    return True
                continue
            if x is float_ or x is float:
                if isinstance(o, (float, Num)):
                    return True
            elif x is int_:
                if isinstance(o, int):
                    return True
            elif pymodel.b_isinstance(o, x):
                return True
        return False
    return g
