"""Abstract models of the libraries and of the compiled functions used by the Python sources."""
import bisect
import collections
import contextlib
import copy as copy_
import datetime
import functools
import itertools
import math
import numbers
import operator
import os.path
import re
import types
import typing
import warnings
from fractions import Fraction

import numpy as np

import pynum
from fw import AnalysisError
from pynum import (Num, PI, UNDEF, Opaque, arctan2, fun, isnum, num, same, special)
from pyabs import Stop, Modified

REAL = (float, Num)


def oarr(x):
    """array: integers and booleans as they are, real numbers as objects"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            return x.astype(object)
        return x
    if isinstance(x, Num) or isinstance(x, (float, np.floating)):
        a = np.empty((), object)
        a[()] = x
        return a
    if isinstance(x, (bool, np.bool_, int, np.integer, str)) or x is None:
        return np.asarray(x)
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        parts = [oarr(y) for y in x]
        if not parts:
            return np.empty((0,), object)
        if len({p.shape for p in parts}) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        if all(p.dtype.kind in 'bi' for p in parts) or all(p.dtype.kind in 'U' for p in parts):
            return np.array(parts)
        out = np.empty((len(parts),) + parts[0].shape, object)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.ndim == 0 else p
        return out
    a = np.asarray(x)
    return a


def scal(a):
    """0-dimensional results are scalars"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def ufunc(f, n=1):
    def g(*args, out=None, where=True, **kw):
        arrs = [oarr(a) for a in args[:n]]
        if kw and set(kw) - {'dtype', 'casting', 'order'}:
            raise Stop('keywords of a NumPy function: %s' % ', '.join(kw))
        r = np.frompyfunc(f, n, 1)(*arrs)
        if lossy(kw.get('dtype')):
            r = shorten(oarr(r))
        if isinstance(r, Single):
            r = r.view(np.ndarray)
        if type(r) is float:
            r = np.float64(r)
        if out is None and len(args) > n:
            out = args[n]
        if out is not None or where is not True:
            if out is None:
                out = full(np.broadcast(*arrs).shape, UNDEF)
            if not out.flags.writeable:
                raise Modified('an array', 'out=')
            if where is True:
                out[...] = r
            else:
                w = np.broadcast_to(where, out.shape)
                out[w] = np.broadcast_to(oarr(r), out.shape)[w]
            return out
        return r
    return g


def boolf(f, n=1):
    g = ufunc(f, n)

    def h(*a, **k):
        r = g(*a, **k)
        if isinstance(r, np.ndarray):
            return r.astype(bool)
        return np.bool_(r)
    return h


def apply1(method, host):
    def f(x):
        if isinstance(x, Num):
            return getattr(x, method)()
        if isnum(x) or isinstance(x, (bool, np.bool_)):
            if special(x):
                return host(x)
            y = num(x)
            return getattr(y, method)()
        raise TypeError('must be real number')
    return f


def _h(f):
    def g(x):
        try:
            return f(x)
        except (ValueError, OverflowError):
            return math.nan
    return g


F1 = {
    'sqrt': apply1('sqrt', _h(math.sqrt)), 'sin': apply1('sin', _h(math.sin)),
    'cos': apply1('cos', _h(math.cos)), 'tan': apply1('tan', _h(math.tan)),
    'deg2rad': apply1('deg2rad', math.radians), 'radians': apply1('deg2rad', math.radians),
    'rad2deg': apply1('rad2deg', math.degrees), 'degrees': apply1('rad2deg', math.degrees),
    'arcsin': apply1('arcsin', _h(math.asin)), 'arccos': apply1('arccos', _h(math.acos)),
    'arctan': apply1('arctan', math.atan), 'rint': apply1('rint', lambda x: x),
    'trunc': apply1('trunc', lambda x: x), 'fix': apply1('trunc', lambda x: x),
}


def _floor(x):
    if isinstance(x, Num):
        return x.floor()
    return float(math.floor(x)) if not special(x) else x


def _ceil(x):
    if isinstance(x, Num):
        return x.ceil()
    return float(math.ceil(x)) if not special(x) else x


def _isnan(x):
    if isinstance(x, Num):
        pynum.check(x)
        return False
    return x != x


def _isinf(x):
    if isinstance(x, Num):
        pynum.check(x)
        return False
    return x in (math.inf, -math.inf)


def _max(a, b):
    return a if special(a) and a != a else b if special(b) and b != b else a if a >= b else b


def _min(a, b):
    return a if special(a) and a != a else b if special(b) and b != b else a if a <= b else b


def _sign(x):
    return 0.0 if x == 0 else 1.0 if x > 0 else -1.0


def lossy(dtype):
    """a floating point type shorter than the double precision"""
    try:
        t = np.dtype(dtype)
    except TypeError:
        return False
    return dtype is not None and t.kind == 'f' and t.itemsize < 8


def single(x):
    """the quantity in a shorter floating point type"""
    if isinstance(x, Num):
        if x.v is None:
            return x
        if x.q is not None and abs(x.q) < 10**30 and Fraction(float(np.float32(float(x.q)))) == x.q:
            return x
        return pynum.fun('float32', x)
    return float(np.float32(x)) if isinstance(x, (float, int, np.floating)) else x


class Single(np.ndarray):
    """array of a shorter floating point type"""

    def __setitem__(self, i, v):
        np.ndarray.__setitem__(self, i, shorten(oarr(v)) if not isinstance(v, Num) else single(v))

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        plain = [x.view(np.ndarray) if isinstance(x, Single) else x for x in inputs]
        r = getattr(uf, method)(*plain, **kw)
        if not isinstance(r, tuple) and getattr(r, 'dtype', None) != bool:
            # (scalars do not change the type of the array)
            if isinstance(r, np.ndarray) and r.dtype == object and all(
                    isinstance(x, Single) or not isinstance(x, np.ndarray) for x in inputs):
                r = shorten(r).view(Single)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r


def shorten(a):
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = single(a[i])
    return out


def zeros(shape, dtype=float, *_, **__):
    return full(shape, 0.0 if real(dtype) else 0, dtype)


def ones(shape, dtype=float, *_, **__):
    return full(shape, 1.0 if real(dtype) else 1, dtype)


def empty(shape, dtype=float, *_, **__):
    return full(shape, UNDEF if real(dtype) else 0, dtype)


def real(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in 'fO'
    except TypeError:
        return True


def full(shape, v, dtype=None, *_, **__):
    if isinstance(shape, np.ndarray):
        shape = tuple(int(x) for x in np.atleast_1d(shape))
    if dtype is not None and not real(dtype):
        return np.full(shape, v, dtype)
    if dtype is None and isinstance(v, (bool, np.bool_, int, np.integer)):
        return np.full(shape, v)
    a = np.empty(shape, object)
    if lossy(dtype):
        a = a.view(Single)
    w = oarr(v)
    a[...] = w[()] if w.ndim == 0 else w
    return a


def like(f):
    def g(a, *args, dtype=None, shape=None, **kw):
        a = oarr(a)
        if f is full:
            v = args[0]
            return full(a.shape if shape is None else shape, float(v) if a.dtype == object and isinstance(
                v, int) else v, dtype if dtype is not None else None if a.dtype == object else a.dtype)
        return f(a.shape if shape is None else shape, dtype if dtype is not None else
                 float if a.dtype == object else a.dtype)
    return g


def asarray(x, dtype=None, *_, **__):
    return cast(oarr(x), dtype)


def cast(a, dtype):
    if dtype is None:
        return a
    k = np.dtype(dtype).kind
    if lossy(dtype) and a.dtype.kind != 'U':
        return shorten(a).view(Single)
    if k == 'f' or k == 'O':
        if a.dtype == object:
            return a
        if a.dtype.kind == 'U':
            raise Stop('conversion of strings')
        out = np.empty(a.shape, object)
        out[...] = a.astype(float)
        return out
    if a.dtype == object:
        def conv(x):
            return x if isinstance(x, (bool, np.bool_, int)) else int(x) if k == 'i' else bool(x)
        return np.array([conv(x) for x in a.ravel()], dtype).reshape(a.shape)
    return a.astype(dtype, copy=False)


def array(x, dtype=None, copy=True, ndmin=0, **__):
    a = cast(oarr(x), dtype)
    if a is x or (isinstance(x, np.ndarray) and np.shares_memory(a, x)):
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    return a


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    x = oarr(x)
    shape = x.shape if shape is None else tuple(shape)
    strides = x.strides if strides is None else tuple(strides)
    if len(shape) != len(strides):
        raise ValueError('mismatch in length of strides and shape')
    b = x
    while isinstance(b.base, np.ndarray):
        b = b.base
    lo0, hi0 = np.lib.array_utils.byte_bounds(b) if hasattr(np.lib, 'array_utils') else np.byte_bounds(b)
    start = x.__array_interface__['data'][0]
    lo = start + sum((n - 1) * s for n, s in zip(shape, strides) if s < 0 and n > 0)
    hi = start + sum((n - 1) * s for n, s in zip(shape, strides) if s > 0 and n > 0) + x.itemsize
    if all(n > 0 for n in shape) and (lo < lo0 or hi > hi0):
        raise OutOfBounds(shape, strides)
    r = np.lib.stride_tricks.as_strided(x, shape, strides)
    if not x.flags.writeable:
        r.flags.writeable = False
    return r


class OutOfBounds(BaseException):
    """a view exceeds its array"""


def dot(a, b, out=None):
    return matmul(a, b) if oarr(a).ndim and oarr(b).ndim else oarr(a) * oarr(b)


def matmul(a, b, out=None):
    a, b = oarr(a), oarr(b)
    if a.dtype != object:
        a = a.astype(object)
    if b.dtype != object:
        b = b.astype(object)
    for x in itertools.chain(a.ravel(), b.ravel()):
        if isinstance(x, Num):
            pynum.check(x)
    return scal(np.dot(a, b))


def isclose_(*a, **k):
    raise Stop('comparison with a tolerance')


def nditer(op, flags=(), op_flags=None, **kw):
    ops = op if isinstance(op, (list, tuple)) else [op]
    ops = [oarr(x) if not isinstance(x, np.ndarray) else x for x in ops]
    bc = np.broadcast_shapes(*[x.shape for x in ops])
    views = []
    if op_flags is None:
        op_flags = [['readonly']] * len(ops)
    elif op_flags and isinstance(op_flags[0], str):
        op_flags = [list(op_flags)] * len(ops)
    total = 1
    for n in bc:
        total *= n
    if total == 0 and 'zerosize_ok' not in flags:
        raise ValueError('Iteration of zero-sized operands is not enabled')
    for x, fl in zip(ops, op_flags):
        rw = any(f in ('writeonly', 'readwrite') for f in fl)
        if rw and not x.flags.writeable:
            raise Modified('an array', 'nditer')
        v = np.broadcast_to(x, bc) if x.shape != bc else x
        views.append(v)

    class It:
        operands = tuple(ops)
        multi_index = None

        def __iter__(self):
            for i in np.ndindex(*bc):
                self.multi_index = i
                t = tuple(item(v, i) for v in views)
                yield t if isinstance(op, (list, tuple)) else t[0]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return It()


def item(v, i):
    return v[i + (Ellipsis,)] if i else v


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Stop('norm of the order %s' % ord)
    x = oarr(x)
    s = (x * x).sum(axis=axis, keepdims=keepdims)
    return F['sqrt'](s)


def where(c, *xy):
    if not xy:
        return np.asarray(c).nonzero()
    c = np.asarray(c, bool)
    x, y = oarr(xy[0]), oarr(xy[1])
    sh = np.broadcast_shapes(c.shape, x.shape, y.shape)
    if x.dtype != object and y.dtype != object:
        return np.where(c, x, y)
    out = np.empty(sh, object)
    c, x, y = (np.broadcast_to(z, sh) for z in (c, x, y))
    out[c] = x[c]
    out[~c] = y[~c]
    return scal(out) if False else out


def array_equal(a, b, **_):
    a, b = oarr(a), oarr(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def argsort(a, *args, **kw):
    a = oarr(a)
    if a.ndim != 1:
        raise Stop('argsort of a multi-dimensional array')
    return np.array(sorted(range(a.size), key=lambda i: a[i]), int)


def sort(a, *args, **kw):
    a = oarr(a)
    return a[argsort(a)]


def unique(a, axis=None, **kw):
    a = oarr(a)
    if a.dtype != object:
        return np.unique(a, axis=axis, **kw)
    if axis is not None:
        keys = sorted({tuple(num(x).q for x in r.ravel()) for r in np.moveaxis(a, axis, 0)})
        return np.array([0] * len(keys)).reshape((len(keys),) + (1,) * (a.ndim - 1))
    out = []
    for x in sorted(a.ravel()):
        if not out or out[-1] != x:
            out.append(x)
    return oarr(out)


def arange(*args, dtype=None, **kw):
    a = np.arange(*[int(x) if isinstance(x, Num) and x.is_integer() else x for x in args])
    if dtype is not None and real(dtype):
        a = a.astype(float).astype(object)
        return a.view(Single) if lossy(dtype) else a
    if a.dtype.kind == 'f':
        return a.astype(object)
    return a if dtype is None else a.astype(dtype)


def searchsorted(a, v, side='left', sorter=None):
    a = list(oarr(a))
    f = bisect.bisect_left if side == 'left' else bisect.bisect_right
    v = oarr(v)
    r = np.array([f(a, x) for x in v.ravel()], int).reshape(v.shape)
    return scal(r)


def reduce_(name):
    def g(a, axis=None, *args, **kw):
        if name in ('mean', 'std', 'var', 'median', 'average'):
            raise Stop('numpy.%s' % name)
        a = oarr(a)
        if name in ('min', 'max') and a.dtype == object and a.size == 0:
            raise ValueError('zero-size array to reduction operation which has no identity')
        if name in ('min', 'max') and a.dtype == object:
            f = np.frompyfunc(_min if name == 'min' else _max, 2, 1)
            return f.reduce(a, axis=axis) if axis is not None else f.reduce(a.ravel())
        kw = {k: v for k, v in kw.items() if k in ('keepdims', 'initial', 'where')}
        r = getattr(np.ndarray, name)(a, axis, **kw)
        if name in ('any', 'all') and not isinstance(r, (bool, np.bool_)):
            r = np.asarray(r, bool) if isinstance(r, np.ndarray) else np.bool_(bool(r))
        return r
    return g


def einsum(sub, *ops):
    return np.einsum(sub, *[oarr(x).astype(object) for x in ops])


def copy(a, *_, **__):
    return oarr(a).copy()


F = {k: ufunc(f) for k, f in F1.items()}


def round_(a, decimals=0, out=None):
    if out is not None:
        raise Stop('round(out=)')
    return ufunc(lambda x: x if special(x) else round(num(x), decimals))(a)


F.update({'round': round_, 'around': round_, 'round_': round_})
F.update({
    'arctan2': ufunc(lambda y, x: arctan2(y, x), 2), 'hypot': ufunc(lambda a, b: num(a).hypot(num(b)), 2),
    'floor': ufunc(_floor), 'ceil': ufunc(_ceil), 'abs': ufunc(abs), 'absolute': ufunc(abs),
    'fabs': ufunc(abs), 'isnan': boolf(_isnan), 'isinf': boolf(_isinf),
    'isfinite': boolf(lambda x: not (_isnan(x) or _isinf(x))), 'sign': ufunc(_sign),
    'add': ufunc(operator.add, 2), 'subtract': ufunc(operator.sub, 2), 'negative': ufunc(operator.neg),
    'multiply': ufunc(operator.mul, 2), 'divide': ufunc(lambda a, b: num(a) / num(b), 2),
    'true_divide': ufunc(lambda a, b: num(a) / num(b), 2), 'power': ufunc(lambda a, b: num(a) ** num(b), 2),
    'square': ufunc(lambda x: x * x), 'mod': ufunc(operator.mod, 2), 'remainder': ufunc(operator.mod, 2),
    'floor_divide': ufunc(operator.floordiv, 2), 'reciprocal': ufunc(lambda x: 1 / num(x)),
    'maximum': ufunc(_max, 2), 'minimum': ufunc(_min, 2), 'fmax': ufunc(_max, 2), 'fmin': ufunc(_min, 2),
    'greater': boolf(operator.gt, 2), 'greater_equal': boolf(operator.ge, 2), 'less': boolf(operator.lt, 2),
    'less_equal': boolf(operator.le, 2), 'equal': boolf(operator.eq, 2), 'not_equal': boolf(operator.ne, 2),
    'logical_and': boolf(lambda a, b: bool(a) and bool(b), 2),
    'logical_or': boolf(lambda a, b: bool(a) or bool(b), 2),
    'logical_not': boolf(lambda a: not a), 'logical_xor': boolf(lambda a, b: bool(a) != bool(b), 2),
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full, 'zeros_like': like(zeros),
    'ones_like': like(ones), 'empty_like': like(empty), 'full_like': like(full), 'asarray': asarray,
    'asanyarray': asarray, 'ascontiguousarray': asarray, 'array': array, 'copy': copy, 'dot': dot,
    'matmul': matmul, 'nditer': nditer, 'where': where, 'array_equal': array_equal, 'argsort': argsort,
    'sort': sort, 'unique': unique, 'arange': arange, 'searchsorted': searchsorted, 'einsum': einsum,
    'isclose': isclose_, 'allclose': isclose_, 'inf': math.inf, 'nan': math.nan, 'NaN': math.nan,
    'Inf': math.inf, 'pi': PI, 'newaxis': None, 'ndarray': np.ndarray, 'dtype': np.dtype,
    'sum': reduce_('sum'), 'min': reduce_('min'), 'max': reduce_('max'), 'amin': reduce_('min'),
    'amax': reduce_('max'), 'any': reduce_('any'), 'all': reduce_('all'), 'prod': reduce_('prod'),
    'mean': reduce_('mean'), 'cumsum': reduce_('cumsum'), 'errstate': contextlib.nullcontext,
    'float64': lambda x=0.0: num(x) if not special(num(x)) else float(x),
    'int32': np.int32, 'int64': np.int64, 'bool_': np.bool_, 'intp': np.intp, 'integer': np.integer,
    'isscalar': lambda x: isinstance(x, Num) or np.isscalar(x),
    'ndim': lambda x: oarr(x).ndim, 'shape': lambda x: oarr(x).shape, 'size': lambda x: oarr(x).size,
})
F['float64'] = np.float64
STRUCT = ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'dstack', 'broadcast_to',
          'broadcast_arrays', 'reshape', 'ravel', 'transpose', 'moveaxis', 'swapaxes', 'squeeze',
          'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'flip', 'tile', 'repeat', 'split',
          'array_split', 'delete', 'insert', 'append', 'nonzero', 'flatnonzero', 'take', 'roll', 'rollaxis',
          'count_nonzero', 'ix_', 'diag', 'eye', 'identity', 'outer', 'rot90', 'fliplr', 'flipud', 'compress',
          'argwhere', 'put', 'cross', 'inner', 'tensordot', 'isin', 'in1d', 'lexsort', 'cumsum', 'diff')
PLAIN = ('broadcast_shapes', 'ndindex', 'ndenumerate', 's_', 'index_exp', 'ravel_multi_index',
         'unravel_index', 'broadcast', 'result_type', 'can_cast', 'bincount', 'finfo', 'iinfo',
         'nditer', 'float32', 'uint8', 'uint32', 'uint64', 'int8', 'int16', 'floating', 'number', 'generic',
         'object_', 'errstate', 'shares_memory', 'may_share_memory', 'promote_types', 'issubdtype')


def struct(name):
    f = getattr(np, name)

    def conv(x, depth=0):
        if isinstance(x, (Num, float)) or isinstance(x, np.ndarray):
            return oarr(x)
        if isinstance(x, (list, tuple)) and depth < 2:
            if any(isinstance(y, (np.ndarray, Num, list, tuple)) for y in x):
                return type(x)([conv(y, depth + 1) for y in x]) if type(x) in (list, tuple) else x
            if any(isinstance(y, float) for y in x):
                return oarr(x)
        return x

    def g(*a, **k):
        r = f(*[conv(x) for x in a], **{n: conv(x) if n in ('a', 'arrays', 'arr', 'm') else x
                                        for n, x in k.items()})
        if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            return r.astype(object)
        return r
    return g


def clip(a, lo=None, hi=None, out=None, **_):
    r = oarr(a)
    if lo is not None:
        r = F['maximum'](r, lo)
    if hi is not None:
        r = F['minimum'](r, hi)
    if out is not None:
        owned(out)
        out[...] = r
        return out
    return r


def owned(a):
    if not a.flags.writeable:
        raise Modified('an array', 'out=')


def copyto(dst, src, casting=None, where=True):
    owned(dst)
    if where is True:
        dst[...] = oarr(src)
    else:
        w = np.broadcast_to(np.asarray(where, bool), dst.shape)
        dst[w] = np.broadcast_to(oarr(src), dst.shape)[w]


def putmask(a, mask, values):
    owned(a)
    m = np.broadcast_to(np.asarray(mask, bool), a.shape)
    v = oarr(values)
    if v.ndim and v.shape != a.shape:
        raise Stop('numpy.putmask of a repeated array')
    a[m] = v[m] if v.ndim else v[()]


def select(conds, choices, default=0):
    out = oarr(default)
    for c, v in reversed(list(zip(conds, choices))):
        out = where(c, v, out)
    return out


def fromiter(it, dtype=float, count=-1, **_):
    return asarray(list(it), dtype)


def vectorize(f, *_, **__):
    def g(*args):
        arrs = np.broadcast_arrays(*[oarr(a).astype(object) for a in args])
        out = np.empty(arrs[0].shape, object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in arrs])
        return oarr(out.tolist()) if out.size else out
    return g


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if posinf is not None or neginf is not None:
        raise Stop('numpy.nan_to_num of infinite values')
    return where(F['isnan'](x), nan, x)


class Rows:
    """numpy.r_ and numpy.c_ for lists of arrays"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (slice, str)) for k in key):
            raise Stop('numpy.r_')
        return struct(self.f)([np.atleast_1d(oarr(k)) for k in key])


def _reducer(name):
    def red(a, axis=0, **k):
        return reduce_(name)(asarray(a), axis=axis, **k)
    return red


def _outer(f):
    def outer(a, b):
        a, b = oarr(a), oarr(b)
        return f(a.reshape(a.shape + (1,) * b.ndim), b)
    return outer


for _k, _r in (('add', 'sum'), ('multiply', 'prod'), ('maximum', 'max'), ('minimum', 'min'), ('logical_and', 'all'),
               ('logical_or', 'any'), ('subtract', None), ('divide', None)):
    if _k in F and not hasattr(F[_k], 'reduce'):
        if _r:
            F[_k].reduce = _reducer(_r)
        F[_k].outer = _outer(F[_k])


class NumpyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in F:
            return F[name]
        if name in MORE:
            return MORE[name]
        if name in STRUCT:
            return struct(name)
        if name in PLAIN:
            return getattr(np, name)
        if hasattr(np, name):
            raise Stop('numpy.%s is not modelled' % name)
        raise AttributeError(name)

    def asarray(self, x, *a, **k):
        return asarray(x, *a, **k)

    def _method(self, interp, o, name):
        if name in ('sum', 'min', 'max', 'any', 'all', 'prod', 'mean', 'cumsum'):
            return functools.partial(reduce_(name), o)
        if name == 'astype':
            def astype(dtype, *a, copy=True, **k):
                r = cast(o, dtype)
                return r.copy() if r is o else r
            return astype
        if name == 'dot':
            return functools.partial(dot, o)
        if name == 'round':
            return functools.partial(round_, o)
        if name == 'argsort':
            return functools.partial(argsort, o)
        if name == 'sort':
            def sort_(*a, **k):
                interp.owned(o)
                o[...] = sort(o)
            return sort_
        if name in ('fill', 'put', 'itemset', 'partition', 'resize'):
            interp.owned(o)
            if name != 'fill':
                raise Stop('ndarray.%s' % name)
        if name == 'item':
            def item_(*a):
                if not a and o.size != 1:
                    raise ValueError('can only convert an array of size 1 to a Python scalar')
                return o.reshape(-1)[0] if not a else o[a] if len(a) > 1 else o.ravel()[a[0]]
            return item_
        if name == 'dtype' and o.dtype == object:
            return np.dtype('float64')
        if name in ('tobytes', 'tofile', 'view', 'byteswap', 'data', 'ctypes', 'dump', 'std', 'var'):
            raise Stop('ndarray.%s' % name)
        return getattr(o, name)


MORE = {'clip': clip, 'copyto': copyto, 'putmask': putmask, 'select': select, 'fromiter': fromiter,
        'vectorize': vectorize, 'nan_to_num': nan_to_num, 'r_': Rows('concatenate'), 'c_': Rows('column_stack'),
        'positive': ufunc(lambda x: x), 'isreal': boolf(lambda x: True), 'cbrt': None, 'setdiff1d': np.setdiff1d,
        'intersect1d': np.intersect1d, 'union1d': np.union1d, 'full_like': F['full_like'],
        'invert': np.invert, 'bitwise_and': np.bitwise_and, 'bitwise_or': np.bitwise_or,
        'bitwise_not': np.invert, 'bitwise_xor': np.bitwise_xor, 'left_shift': np.left_shift,
        'right_shift': np.right_shift, 'extract': lambda c, a: oarr(a).ravel()[np.asarray(c, bool).ravel()],
        'place': lambda a, m, v: putmask(a, m, v), 'nansum': None, 'asarray_chkfinite': None,
        'array2string': np.array2string, 'iterable': np.iterable, 'apply_along_axis': None}
MORE = {k: v for k, v in MORE.items() if v is not None}


def numpy_module():
    m = NumpyModule('numpy')
    lib = types.ModuleType('numpy.lib')
    st = types.ModuleType('numpy.lib.stride_tricks')
    st.as_strided = as_strided
    st.broadcast_to = struct('broadcast_to')
    st.broadcast_arrays = struct('broadcast_arrays')
    st.broadcast_shapes = np.broadcast_shapes
    lib.stride_tricks = st
    m.__dict__['lib'] = lib
    la = types.ModuleType('numpy.linalg')
    la.norm = norm
    m.__dict__['linalg'] = la
    return m


def math_module():
    m = types.ModuleType('math')
    m.pi = PI
    m.tau = 2 * PI
    m.inf, m.nan = math.inf, math.nan

    def s(f):
        def g(*a):
            return f(*[scal(x) for x in a])
        return g
    for k in ('sqrt', 'sin', 'cos', 'tan', 'radians', 'degrees'):
        setattr(m, k, s(F1[k]))
    m.asin, m.acos, m.atan = s(F1['arcsin']), s(F1['arccos']), s(F1['arctan'])
    m.atan2 = s(arctan2)
    m.hypot = s(lambda *a: sum([x * x for x in map(num, a)], num(0)).sqrt())
    m.fabs = s(abs)
    m.floor = s(lambda x: int(_floor(x)))
    m.ceil = s(lambda x: int(_ceil(x)))
    m.isnan, m.isinf = s(_isnan), s(_isinf)
    m.isfinite = s(lambda x: not (_isnan(x) or _isinf(x)))
    m.pow = s(lambda a, b: num(a) ** num(b))
    m.copysign = s(lambda a, b: abs(a) if b >= 0 else -abs(a))
    m.fmod = s(operator.mod)
    m.fsum = lambda x: sum(x)
    m.prod = math.prod
    m.gcd, m.comb, m.factorial, m.isqrt = math.gcd, math.comb, math.factorial, math.isqrt
    return m


def b_isinstance(o, t):
    if isinstance(o, Num):
        ts = t if isinstance(t, tuple) else (t,)
        return any(x in (float, np.float64, np.floating, object, numbers.Number, numbers.Real) for x in ts)
    return isinstance(o, t)


class Table:
    """numbers of the abstract files"""

    def __init__(self):
        self.numbers = {}


def host_module(mod):
    return mod


def externals(files=None, cdf=None, table=None):
    osm = types.ModuleType('os')
    pm = types.ModuleType('os.path')
    for n in ('join', 'dirname', 'basename', 'splitext', 'normpath', 'split', 'isabs', 'abspath'):
        setattr(pm, n, getattr(os.path, n))
    fs = files if files is not None else {}
    pm.isfile = lambda p: p in fs or os.path.isfile(p)
    pm.exists = pm.isfile
    osm.path = pm
    osm.sep = '/'
    osm.fspath = os.fspath
    dt = types.ModuleType('datetime')
    dt.__dict__.update({k: v for k, v in vars(datetime).items() if not k.startswith('__')})
    dt.abstract = True
    ext = {'numpy': numpy_module(), 'math': math_module(), 'os': osm, 'os.path': pm, 'bisect': bisect,
           'collections': collections, 'contextlib': contextlib, 'copy': copy_, 'datetime': dt,
           'functools': functools, 'itertools': itertools, 'numbers': numbers, 'operator': operator,
           're': re, 'typing': typing, 'warnings': warnings, 'collections.abc': collections.abc,
           'abc': __import__('abc'), 'enum': __import__('enum'), 'dataclasses': __import__('dataclasses'),
           'pathlib': __import__('pathlib'), 'logging': __import__('logging'), 'time': __import__('time'),
           'textwrap': __import__('textwrap'), 'decimal': __import__('decimal'), 'inspect': __import__('inspect'),
           'sys': types.SimpleNamespace(version_info=__import__('sys').version_info, maxsize=2**63 - 1,
                                        byteorder='little', float_info=__import__('sys').float_info,
                                        modules={}, stderr=None, stdout=None),
           'types': types, 'string': __import__('string'), 'io': __import__('io')}
    sp = types.ModuleType('spacepy')
    py = types.ModuleType('spacepy.pycdf')
    py.CDF = cdf or Missing('pycdf.CDF')
    py.const = types.SimpleNamespace(CDF_EPOCH=types.SimpleNamespace(value=31),
                                     CDF_EPOCH16=types.SimpleNamespace(value=32),
                                     CDF_TIME_TT2000=types.SimpleNamespace(value=33))
    py.CDFError = type('CDFError', (Exception,), {})
    sp.pycdf = py
    ext['spacepy'] = sp
    ext['spacepy.pycdf'] = py
    return ext


class Missing:
    def __init__(self, what):
        self.what = what

    def __call__(self, *a, **k):
        raise Stop('%s is not modelled here' % self.what)


# ---------------------------------------------------------------- compiled functions
GEODETIC, SPHERICAL, CARTESIAN = 0, 1, 2
POTENTIAL, GRADIENT, BOTH = 1, 2, 3


def anynan(*xs):
    return any(special(x) for x in xs)


def cart_of(p, ct):
    """Cartesian coordinates of a point"""
    a, b, c = p
    for x in p:
        if isinstance(x, Num):
            pynum.check(x)
    if anynan(a, b, c):
        return (math.nan,) * 3
    a, b, c = num(a), num(b), num(c)
    if ct == CARTESIAN:
        return a, b, c
    if ct == SPHERICAL:
        s, co = (a * PI / 180).sincos()
        sl, cl = (b * PI / 180).sincos()
        xyz = c * co * cl, c * co * sl, c * s
        pynum.D().sph[tuple(x.v for x in xyz)] = a, b, c
        return xyz
    d = pynum.D()
    s, co = (a * PI / 180).sincos()
    key = (s.v, co.v, c.v)
    if key not in d.cart:
        i = 0
        r = pynum.positive('georad', key)
        ss, cc = pynum.multiple((('geolat',) + key, 'deg'), 1)
        d.cart[key] = (r * Num(cc), r * Num(ss))
        d.geod[d.cart[key][0].v, d.cart[key][1].v] = (a, c)
    rho, z = d.cart[key]
    sl, cl = (b * PI / 180).sincos()
    return rho * cl, rho * sl, z


def from_cart(xyz, ct):
    x, y, z = xyz
    if anynan(x, y, z):
        return (math.nan,) * 3
    if ct == CARTESIAN:
        return x, y, z
    if ct == SPHERICAL:
        p = pynum.D().sph.get((x.v, y.v, z.v))
        if p:
            return p
    rho = (x * x + y * y).sqrt()
    i = rho.inverse()
    lon = pynum.angle_of((y * i).v, (x * i).v)
    if ct == SPHERICAL:
        r = (x * x + y * y + z * z).sqrt()
        j = r.inverse()
        return pynum.angle_of((z * j).v, (rho * j).v), lon, r
    d = pynum.D()
    k = (rho.v, z.v)
    if k not in d.geod:
        a = pynum.degrees('geodlat', k)
        h = pynum.free('geodh', k)
        s, co = (a * PI / 180).sincos()
        d.geod[k] = (a, h)
        d.cart[s.v, co.v, h.v] = (rho, z)
    a, h = d.geod[k]
    return a, lon, h


def convert_point(p, a, b):
    if a == b:
        return tuple(p)
    return from_cart(cart_of(p, a), b)


def vec3(a, what='coordinates'):
    a = oarr(a)
    if a.ndim < 1 or a.shape[-1] != 3:
        raise ValueError('invalid last dimension of the %s' % what)
    return a


def common(*shapes):
    """longest of the shapes; the others have to be its leading parts"""
    best = max(shapes, key=len)
    for s in shapes:
        if s != best[:len(s)]:
            raise ValueError('incompatible shapes of the arguments %s' % (shapes,))
    return best


def lead(a, shape, extra=0):
    """array extended to the shape (its trailing dimensions after `extra`)"""
    n = len(shape) - (a.ndim - extra)
    tail = a.shape[a.ndim - extra:] if extra else ()
    b = a.reshape(a.shape[:a.ndim - extra] + (1,) * n + tail)
    return np.broadcast_to(b, shape + tail)


def ctype_ok(*types_):
    for t in types_:
        if t not in (0, 1, 2):
            raise ValueError('Invalid coordinate type %r!' % (t,))


def c_convert(arr_in, coord_type_in=GEODETIC, coord_type_out=GEODETIC):
    ctype_ok(coord_type_in, coord_type_out)
    if coord_type_in == coord_type_out:
        return arr_in if isinstance(arr_in, np.ndarray) else asarray(arr_in)
    a = vec3(arr_in)
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape[:-1]):
        out[i] = convert_point(a[i], coord_type_in, coord_type_out)
    return out


def rotation(to_cart):
    def f(arr_in, arr_lat, arr_lon):
        a, la, lo = vec3(arr_in, 'vectors'), oarr(arr_lat), oarr(arr_lon)
        sh = common(a.shape[:-1], la.shape, lo.shape)
        a, la, lo = lead(a, sh, 1), lead(la, sh), lead(lo, sh)
        out = np.empty(sh + (3,), object)
        for i in np.ndindex(*sh):
            out[i] = (sph2cart if to_cart else cart2sph)(a[i], la[i], lo[i])
        return out
    return f


def trig(x):
    if special(x):
        return math.nan, math.nan
    return (num(x) * PI / 180).sincos()


def sph2cart(v, lat, lon):
    n, e, u = [num(x) for x in v]
    s, c = trig(lat)
    sl, cl = trig(lon)
    w = c * u - s * n
    return cl * w - sl * e, sl * w + cl * e, s * u + c * n


def cart2sph(v, lat, lon):
    x, y, z = [num(t) for t in v]
    s, c = trig(lat)
    sl, cl = trig(lon)
    w = cl * x + sl * y
    return c * z - s * w, cl * y - sl * x, s * z + c * w


def rot_n(v, d):
    """north and up components in the frame tilted by the angle"""
    n, e, u = [num(x) for x in v]
    s, c = trig(d)
    return c * n - s * u, e, s * n + c * u


def c_vrot_sph2geod(arr_in, arr_dlat):
    a, d = vec3(arr_in, 'vectors'), oarr(arr_dlat)
    sh = common(a.shape[:-1], d.shape)
    a, d = lead(a, sh, 1), lead(d, sh)
    out = np.empty(sh + (3,), object)
    for i in np.ndindex(*sh):
        out[i] = rot_n(a[i], d[i])
    return out


def basis(kind, n, m, internal, xyz):
    return fun('basis', kind, int(n), int(m), bool(internal), *xyz)


def field_at(point, ct_in, ct_out, coeffs, internal):
    """gradient of the expansion sum c(n,m) * basis(n,m) at the point in the output frame, potential"""
    xyz = cart_of(point, ct_in)
    if anynan(*xyz) or any(special(num(c)) for c in coeffs.values()):
        return (math.nan,) * 3, math.nan
    g = [num(0)] * 3
    v = num(0)
    for (n, m), c in sorted(coeffs.items()):
        c = num(c)
        pynum.check(c)
        if c.v == (0, 0) and c.isconst():
            continue
        for k in range(3):
            g[k] = g[k] + c * basis(k, n, m, internal, xyz)
        v = v + c * basis('v', n, m, internal, xyz)
    return frame(g, xyz, ct_out, point if ct_in == GEODETIC else None), v


def frame(g, xyz, ct_out, geod=None):
    """vector in the Cartesian frame -> local frame of the output system"""
    if ct_out == CARTESIAN:
        return tuple(g)
    lat, lon, _ = from_cart(xyz, ct_out)
    if geod is not None and ct_out == GEODETIC:
        lat = geod[0]
    return cart2sph(g, lat, lon)


def full_coeffs(a, degree):
    out = {}
    for j in range(a.shape[0]):
        n = int((math.isqrt(8 * j + 1) - 1) // 2)
        m = j - n * (n + 1) // 2
        if 0 <= degree < n:
            break
        out[n, m] = a[j, 0]
        if m:
            out[n, -m] = a[j, 1]
    return out


def scaled(v, scale):
    s = oarr(scale)
    if s.ndim == 0:
        return tuple(x * s[()] for x in v)
    if s.shape != (3,):
        raise ValueError('invalid shape of the scale')
    return tuple(x * y for x, y in zip(v, s))


def result(mode, sh, items, scale_p, scale_g):
    pot = np.empty(sh, object)
    grd = np.empty(sh + (3,), object)
    for i, (g, v) in items:
        pot[i] = v * scal(oarr(scale_p))
        grd[i] = scaled([num(x) for x in g], scale_g)
    if mode == POTENTIAL:
        return pot
    if mode == GRADIENT:
        return grd
    if mode == BOTH:
        return pot, grd
    raise ValueError('Invalid mode value!')


def c_sheval(arr_x, coef, coord_type_in=GEODETIC, coord_type_out=GEODETIC, mode=GRADIENT, is_internal=True,
             degree=-1, scale_potential=1.0, scale_gradient=1.0):
    ctype_ok(coord_type_in, coord_type_out)
    a, c = vec3(arr_x), oarr(coef)
    if c.ndim < 2 or c.shape[-1] != 2:
        raise ValueError('invalid shape of the coefficients')
    sh = common(a.shape[:-1], c.shape[:-2])
    a, c = lead(a, sh, 1), lead(c, sh, 2)
    top = (math.isqrt(8 * c.shape[-2] + 1) - 3) // 2
    degree = int(degree)
    degree = top if degree < 0 else min(degree, top)
    if top < 0:
        raise ValueError('empty coefficients')
    return result(mode, sh, ((i, field_at(a[i], coord_type_in, coord_type_out,
                                          full_coeffs(c[i], degree), is_internal))
                             for i in np.ndindex(*sh)), scale_potential, scale_gradient)


INTERP_C0, INTERP_C1, INTERP_C1D1 = 0x00, 0x01, 0x11


def lerp(t, ts, cs, kind, extrapolate=True):
    """interpolated value (C13)"""
    t = num(t)
    if special(t) and t != t:
        return math.nan
    n = len(ts)
    k = 0
    while k + 1 < n and not ts[k + 1] > t:
        k += 1
    if not extrapolate and (t < ts[0] or (t > ts[n - 1] and kind != INTERP_C0)):
        return math.nan
    if kind == INTERP_C0:
        return num(cs[k])
    if n < 2:
        raise ValueError('not enough nodes')
    k = min(k, n - 2)
    c0, c1, t0, t1 = num(cs[k]), num(cs[k + 1]), num(ts[k]), num(ts[k + 1])
    if kind == INTERP_C1D1:
        return (c1 - c0) / (t1 - t0)
    if special(t):
        return math.nan
    return c0 + (c1 - c0) * ((t - t0) / (t1 - t0))


def c_interp(time, time0, coeff0, kind=INTERP_C1, extrapolate=False):
    t, ts, cs = oarr(time), oarr(time0), oarr(coeff0)
    if cs.shape[-1] != ts.shape[0]:
        raise ValueError('shape mismatch of the nodes and coefficients')
    out = np.empty(t.shape + cs.shape[:-1], object)
    for i in np.ndindex(*t.shape):
        for j in np.ndindex(*cs.shape[:-1]):
            out[i + j] = lerp(t[i], list(ts), list(cs[j]), kind, bool(extrapolate))
    return out


def indices(nm):
    nm = oarr(nm)
    if nm.dtype == object:
        nm = cast(nm, int)
    if nm.ndim != 2 or nm.shape[1] != 2:
        raise ValueError('invalid shape of the indices')
    for n, m in nm:
        if n < 0 or abs(m) > n:
            raise ValueError('invalid degree or order')
    return nm


def c_shevaltemp(arr_t, arr_x, coef_set_list, coord_type_in=GEODETIC, coord_type_out=GEODETIC, mode=GRADIENT,
                 is_internal=True, scale_potential=1.0, scale_gradient=1.0):
    ctype_ok(coord_type_in, coord_type_out)
    t, a = oarr(arr_t), vec3(arr_x)
    sh = common(t.shape, a.shape[:-1])
    t, a = lead(t, sh), lead(a, sh, 1)
    sets = []
    for item_ in coef_set_list:
        ts, c, nm, order = item_
        ts, c, nm = oarr(ts), oarr(c), indices(nm)
        if c.shape != (nm.shape[0], ts.shape[0]) or ts.ndim != 1:
            raise ValueError('shape mismatch of the coefficient set')
        if order not in (1, 2):
            raise ValueError('invalid spline order')
        if ts.size < order:
            raise ValueError('not enough nodes')
        sets.append((list(ts), c, nm, INTERP_C0 if order == 1 else INTERP_C1))

    def at(i):
        coeffs = {}
        for ts, c, nm, kind in sets:
            for j in range(nm.shape[0]):
                coeffs[int(nm[j, 0]), int(nm[j, 1])] = lerp(t[i], ts, list(c[j]), kind)
        if anynan(t[i]) and t[i] != t[i]:
            return (math.nan,) * 3, math.nan
        return field_at(a[i], coord_type_in, coord_type_out, coeffs, is_internal)
    return result(mode, sh, ((i, at(i)) for i in np.ndindex(*sh)), scale_potential, scale_gradient)


def fourier(t1, t2, c, min1, min2, s1, s2):
    """sum of the 2D Fourier series (C14)"""
    if anynan(t1, t2):
        return math.nan
    r = num(0)
    for i in range(c.shape[0]):
        for j in range(c.shape[1]):
            x = num(s1) * num(t1) * (int(min1) + i) + num(s2) * num(t2) * (int(min2) + j)
            s, co = x.sincos()
            r = r + num(c[i, j, 0]) * co + num(c[i, j, 1]) * s
    return r


def c_fourier2d(time1, time2, coeff, min_degree1=0, min_degree2=0, scale1=1.0, scale2=1.0):
    a, b, c = oarr(time1), oarr(time2), oarr(coeff)
    if c.ndim < 3 or c.shape[-1] != 2:
        raise ValueError('invalid shape of the coefficients')
    sh = common(a.shape, b.shape)
    a, b = lead(a, sh), lead(b, sh)
    out = np.empty(sh + c.shape[:-3], object)
    for i in np.ndindex(*sh):
        for j in np.ndindex(*c.shape[:-3]):
            out[i + j] = fourier(a[i], b[i], c[j], min_degree1, min_degree2, scale1, scale2)
    return out


def c_sheval2dfs(arr_t1, arr_t2, arr_x, coef_set, coord_type_in=GEODETIC, coord_type_out=GEODETIC,
                 mode=GRADIENT, is_internal=True, scale_potential=1.0, scale_gradient=1.0):
    ctype_ok(coord_type_in, coord_type_out)
    t1, t2, a = oarr(arr_t1), oarr(arr_t2), vec3(arr_x)
    sh = common(t1.shape, t2.shape, a.shape[:-1])
    t1, t2, a = lead(t1, sh), lead(t2, sh), lead(a, sh, 1)
    c, nm, min1, min2, s1, s2 = coef_set
    c, nm = oarr(c), indices(nm)
    if c.ndim != 4 or c.shape[0] != nm.shape[0] or c.shape[3] != 2:
        raise ValueError('shape mismatch of the coefficient set')

    def at(i):
        if anynan(t1[i], t2[i]):
            return (math.nan,) * 3, math.nan
        coeffs = {(int(n), int(m)): fourier(t1[i], t2[i], c[j], min1, min2, s1, s2)
                  for j, (n, m) in enumerate(nm)}
        return field_at(a[i], coord_type_in, coord_type_out, coeffs, is_internal)
    return result(mode, sh, ((i, at(i)) for i in np.ndindex(*sh)), scale_potential, scale_gradient)


# -- time conversions: a strictly increasing non-affine function and its inverse (on |t| < 10**9 days)
BEND = 10**7


def to_dy(t):
    if not isinstance(t, Num):
        t = num(t)
        if special(t):
            return t
    pynum.check(t)
    if t.q is None:
        return fun('mjd2dy', t)
    return num(2000 + t.q / (365 + t.q / BEND))


def to_mjd(y):
    if not isinstance(y, Num):
        y = num(y)
        if special(y):
            return y
    pynum.check(y)
    if y.q is None:
        return fun('dy2mjd', y)
    u = y.q - 2000
    return num(365 * u / (1 - u / BEND))


def to_yf(t):
    if not isinstance(t, Num):
        t = num(t)
        if special(t):
            return math.nan
    return fun('mjd2yf', t)


def c_time(f, name):
    g = np.frompyfunc(f, 1, 1)

    def h(time_mjd2k):
        a = oarr(time_mjd2k)
        if a.dtype.kind not in 'Oiufb':
            raise TypeError('a number is required')
        r = g(a)
        return r
    h.__name__ = name
    return h


def c_sunpos(time_mjd2k, lat, lon, rad, dtt):
    args = [oarr(x) for x in (time_mjd2k, lat, lon, rad, dtt)]
    sh = common(*[x.shape for x in args])
    args = [lead(x, sh) for x in args]
    out = np.empty(sh + (5,), object)
    for i in np.ndindex(*sh):
        out[i] = [fun('sunpos', k, *[num(x[i]) for x in args]) for k in range(5)]
    return out


def c_sunpos_original(time_mjd2k, lat, lon, rad, dtt, pres, temp):
    args = [oarr(x) for x in (time_mjd2k, lat, lon, rad, dtt, pres, temp)]
    sh = common(*[x.shape for x in args])
    args = [lead(x, sh) for x in args]
    out = np.empty(sh + (5,), object)
    for i in np.ndindex(*sh):
        out[i] = [fun('sunpos_original', k, *[num(x[i]) for x in args]) for k in range(5)]
    return out


def c_points(name, count):
    def f(*args):
        arrs = [oarr(x) for x in args]
        sh = common(*[x.shape for x in arrs])
        arrs = [lead(x, sh) for x in arrs]
        outs = [np.empty(sh, object) for _ in range(count)]
        for i in np.ndindex(*sh):
            for k in range(count):
                outs[k][i] = fun(name, k, *[num(x[i]) for x in arrs])
        return [scal(o) for o in outs]
    return f


def c_eval_qdlatlon(gclat, gclon, gcrad, time, fname, eval_base_vectors=False):
    r = c_points('qd:%s' % fname, 7)(gclat, gclon, gcrad, time)
    return tuple(r if eval_base_vectors else r[:2])


def c_eval_mlt(qdlon, time):
    return c_points('mlt', 1)(qdlon, time)[0]


def c_eval_subsol(time):
    return tuple(c_points('subsol', 2)(time))


CFUN = {
    '_pymm': {'convert': c_convert, 'vrot_sph2cart': rotation(True), 'vrot_cart2sph': rotation(False),
              'vrot_sph2geod': c_vrot_sph2geod, 'sheval': c_sheval, 'shevaltemp': c_shevaltemp,
              'sheval2dfs': c_sheval2dfs, 'interp': c_interp, 'fourier2d': c_fourier2d},
    '_pytimeconv': {'decimal_year_to_mjd2000': c_time(to_mjd, 'decimal_year_to_mjd2000'),
                    'mjd2000_to_decimal_year': c_time(to_dy, 'mjd2000_to_decimal_year'),
                    'mjd2000_to_year_fraction': c_time(to_yf, 'mjd2000_to_year_fraction')},
    '_pysunpos': {'sunpos': c_sunpos, 'sunpos_original': c_sunpos_original},
    '_pyqd': {'eval_qdlatlon': c_eval_qdlatlon, 'eval_mlt': c_eval_mlt, 'eval_subsol': c_eval_subsol},
}
CONST = {'GEODETIC_ABOVE_WGS84': GEODETIC, 'GEOCENTRIC_SPHERICAL': SPHERICAL,
         'GEOCENTRIC_CARTESIAN': CARTESIAN, 'POTENTIAL': POTENTIAL, 'GRADIENT': GRADIENT,
         'POTENTIAL_AND_GRADIENT': BOTH, 'INTERP_C0': INTERP_C0, 'INTERP_C1': INTERP_C1,
         'INTERP_C1D1': INTERP_C1D1}
