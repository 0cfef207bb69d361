"""Value numbers of the real quantities handled by the Python sources.

A quantity is known by its value number: the image of its term in the field F_P(i) (random
interpretation, see gvn.py; i is the square root of -1, so that each element of F_P has a square
root).  Quantities which have to be ordered (times, validity limits, radii) are moreover members of
a class of orders, given by a rational representative.  Angles are kept as linear forms, their sines
and cosines follow the addition theorems.  No number of the program takes part."""
import math
from fractions import Fraction

import numpy as np

import gvn
from gvn import P, isqr, root

inv_ = lambda a: pow(a, P - 2, P)


class Redraw(BaseException):
    """the drawing is degenerate: draw again"""


class Undefined(BaseException):
    """an element which has never been assigned is used"""


class Draw:
    cur = None
    pair = 0, 0     # number of the pair of drawings with opposite signs, number in the pair

    def __init__(self, seed, zero=False):
        self.seed = seed
        self.zero = zero    # some of the optional quantities are zero
        self.sc = {}        # (value, unit) -> (sine, cosine)
        self.full = set()   # angles of the full circle
        self.arcs = {}      # (sine, cosine) -> angle in degrees
        self.geod = {}      # (rho, z) -> (latitude, height)
        self.sph = {}       # Cartesian coordinates -> spherical coordinates of a point
        self.cart = {}      # (latitude, height) -> (rho, z)

    def h(self, *key):
        return gvn.hashed(self.seed, *key)[0]

    def sign(self, *key):
        """sign (true: positive) which is opposite in the other drawing of the pair"""
        pair, flip = self.pair
        return (gvn.hashed(pair, 'sign', *key)[0] + flip) % 2 == 0


def D():
    return Draw.cur


# -- F_P(i)
def cadd(a, b):
    return (a[0] + b[0]) % P, (a[1] + b[1]) % P


def cmul(a, b):
    if not a[1] and not b[1]:
        return a[0] * b[0] % P, 0
    return (a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P


def cinv(a):
    n = (a[0] * a[0] + a[1] * a[1]) % P
    if not n:
        raise Redraw()
    n = inv_(n)
    return a[0] * n % P, -a[1] * n % P


PIV = (gvn.PI[0], 0)
_piv = {0: (1, 0)}


def pipow(k):
    if k not in _piv:
        _piv[k] = cmul(_piv[k - 1], PIV) if k > 0 else cinv(pipow(-k))
    return _piv[k]


def fracv(f):
    return (f.numerator % P) * inv_(f.denominator % P) % P, 0


def isnum(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) \
        and not isinstance(x, (bool, np.bool_))


def special(x):
    """infinity or NaN"""
    return isinstance(x, (float, np.floating)) and (x != x or x in (math.inf, -math.inf))


def num(x):
    """Num of a number (infinities and NaN stay floats)"""
    if isinstance(x, Num):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x[()])
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        x = Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if special(x):
            return x
        f, k = gvn.rational(x)
        if k:
            return Num(cmul(fracv(f), pipow(k)), None, {(1, k): f})
        return Num(fracv(f), f)
    if isinstance(x, Fraction):
        return Num(fracv(x), x)
    raise TypeError('a number is required, not %s' % type(x).__name__)


class Num:
    """value number of a real quantity (behaves as a NumPy floating point scalar)"""
    __slots__ = ('v', 'q', 'lin_')
    ndim = 0
    shape = ()
    size = 1
    strides = ()
    dtype = np.dtype('float64')
    itemsize = 8

    def __init__(self, v, q=None, lin=None):
        self.v = v
        self.q = q
        self.lin_ = lin

    @property
    def lin(self):
        if self.lin_ is None:
            if self.q is not None and self.q.denominator < 10**7:
                self.lin_ = {(1, 0): self.q} if self.q else {}
            else:
                self.lin_ = {(self.v, 0): Fraction(1)}
        return self.lin_

    def isconst(self):
        """(rational, power of pi) of a constant"""
        lin = self.lin_
        if lin is None:
            return (self.q, 0) if self.q is not None and self.q.denominator < 10**7 else None
        if not lin:
            return Fraction(0), 0
        if len(lin) == 1:
            (a, k), f = next(iter(lin.items()))
            if a == 1:
                return f, k
        return None

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, Num):
            if isinstance(o, np.ndarray):
                return NotImplemented if o.ndim else self + o[()]
            if not isnum(o) and not isinstance(o, (bool, np.bool_)):
                return NotImplemented
            o = num(o)
            if not isinstance(o, Num):
                return o
        check(self, o)
        q = self.q + o.q if self.q is not None and o.q is not None else None
        lin = dict(self.lin)
        for k, f in o.lin.items():
            g = lin.get(k, 0) + f
            if g:
                lin[k] = g
            else:
                lin.pop(k, None)
        return Num(cadd(self.v, o.v), q, lin)
    __radd__ = __add__

    def __neg__(self):
        check(self)
        return Num((-self.v[0] % P, -self.v[1] % P), None if self.q is None else -self.q,
                   {k: -f for k, f in self.lin.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented if o.ndim else self - o[()]
        if not isinstance(o, Num) and not isnum(o) and not isinstance(o, (bool, np.bool_)):
            return NotImplemented
        o = num(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Num):
            if isinstance(o, np.ndarray):
                return NotImplemented if o.ndim else self * o[()]
            if not isnum(o) and not isinstance(o, (bool, np.bool_)):
                return NotImplemented
            o = num(o)
            if not isinstance(o, Num):
                if o != o or self.v == (0, 0):
                    return math.nan
                return o if self > 0 else -o
        check(self, o)
        q = self.q * o.q if self.q is not None and o.q is not None else None
        lin = None
        for a, b in ((self, o), (o, self)):
            c = b.isconst()
            if c:
                lin = {(x, k + c[1]): f * c[0] for (x, k), f in a.lin.items()} if c[0] else {}
                break
        return Num(cmul(self.v, o.v), q, lin)
    __rmul__ = __mul__

    def inverse(self):
        check(self)
        if self.v == (0, 0):
            raise Redraw()
        c = self.isconst()
        return Num(cinv(self.v), None if self.q is None else 1 / self.q,
                   {(1, -c[1]): 1 / c[0]} if c else None)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented if o.ndim else self / o[()]
        if not isinstance(o, Num) and not isnum(o) and not isinstance(o, (bool, np.bool_)):
            return NotImplemented
        o = num(o)
        if not isinstance(o, Num):
            return math.nan if o != o else num(0)
        if o.v == (0, 0) and o.isconst():
            return math.nan if self.v == (0, 0) else math.inf if self > 0 else -math.inf
        return self * o.inverse()

    def __rtruediv__(self, o):
        return num(o) / self

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = num(o)
        if isinstance(o, Num) and o.q is not None:
            f = o.q
            if f.denominator == 1 and abs(f) < 4096:
                r, b, n = num(1), self, abs(int(f))
                while n:
                    if n & 1:
                        r = r * b
                    b = b * b
                    n >>= 1
                return r if f >= 0 else 1 / r
            if f.denominator == 2 and abs(f) < 64:
                return self.sqrt() ** num(2 * f)
        return fun('pow', self, o)

    def __rpow__(self, o):
        return num(o) ** self

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (num(o) / self).floor()

    def __mod__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return num(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        return self if self >= 0 else -self

    def floor(self):
        check(self)
        if self.q is not None:
            return num(math.floor(self.q))
        return fun('floor', self)

    def __floor__(self):
        return self.floor()

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        if self.q is not None:
            return num(round(self.q))
        return fun('rint', self)

    def trunc(self):
        return self.floor() if self >= 0 else self.ceil()

    def sqrt(self):
        check(self)
        a = self.v
        if a[1]:
            return fun('sqrt', self)
        if not a[0]:
            return num(0)
        if isqr(a[0]):
            return Num((root(a[0]), 0))
        return Num((0, root(-a[0] % P)))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def reciprocal(self):
        return 1 / self

    def negative(self):
        return -self

    def absolute(self):
        return abs(self)
    fabs = absolute

    def item(self, *_):
        return self

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    # -- angles
    def sincos(self):
        check(self)
        c, s = (1, 0), (0, 0)
        for (a, k), f in sorted(self.lin.items(), key=repr):
            s1, c1 = angle_sc(a, k, f)
            c, s = cadd(cmul(c, c1), neg_(cmul(s, s1))), cadd(cmul(s, c1), cmul(c, s1))
        return Num(s), Num(c)

    def sin(self):
        return self.sincos()[0]

    def cos(self):
        return self.sincos()[1]

    def tan(self):
        s, c = self.sincos()
        return s / c

    def deg2rad(self):
        return self * PI / 180
    radians = deg2rad

    def rad2deg(self):
        return self * 180 / PI
    degrees = rad2deg

    def arctan2(self, x):
        return arctan2(self, num(x))

    def arctan(self):
        return arctan2(self, num(1))

    def arcsin(self):
        return arctan2(self, (1 - self * self).sqrt())

    def arccos(self):
        return PI / 2 - self.arcsin()

    # -- order
    def cmp(self, o):
        if not isinstance(o, Num):
            o = num(o)
            if not isinstance(o, Num):
                check(self)
                return None if o != o else -1 if o > 0 else 1
        check(self, o)
        if self.q is not None and o.q is not None:
            return (self.q > o.q) - (self.q < o.q)
        d = cadd(self.v, neg_(o.v))
        if d == (0, 0):
            return 0
        if d[1]:
            d = (d[1], 0)
        return 1 if isqr(d[0]) else -1

    def __lt__(self, o):
        c = self._cmp(o)
        return c if c is NotImplemented else c is not None and c < 0

    def __le__(self, o):
        c = self._cmp(o)
        return c if c is NotImplemented else c is not None and c <= 0

    def __gt__(self, o):
        c = self._cmp(o)
        return c if c is NotImplemented else c is not None and c > 0

    def __ge__(self, o):
        c = self._cmp(o)
        return c if c is NotImplemented else c is not None and c >= 0

    def _cmp(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o[()]
        if not isinstance(o, Num) and not isnum(o) and not isinstance(o, (bool, np.bool_)):
            return NotImplemented
        return self.cmp(o)

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o[()]
        if not isinstance(o, Num):
            if not isnum(o) and not isinstance(o, (bool, np.bool_)):
                return NotImplemented
            o = num(o)
            if not isinstance(o, Num):
                return False
        check(self, o)
        return self.v == o.v

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        if self.q is not None:
            return hash(self.q)
        return hash(self.v)

    def __bool__(self):
        check(self)
        return self.v != (0, 0)

    def __float__(self):
        check(self)
        if self.q is not None and self.q.denominator == 1:
            return float(self.q)
        raise Opaque('float()')

    def __int__(self):
        check(self)
        if self.q is not None:
            return int(self.q)
        raise Opaque('int()')

    def __round__(self, n=None):
        check(self)
        if n is None or not n:
            return self.rint()
        return num(round(self.q, int(n))) if self.q is not None else fun('round', self, int(n))

    def __index__(self):
        raise TypeError('only integers can be used as an index')

    def __repr__(self):
        if self.v is None:
            return 'undefined'
        c = self.isconst()
        if c:
            return '%s%s' % (c[0], '' if not c[1] else '*pi**%d' % c[1])
        return '<%s>' % (self.v[0] % 100000)

    # NumPy scalar interface
    def __array__(self, dtype=None, copy=None):
        a = np.empty((), object)
        a[()] = self
        return a

    def __getitem__(self, idx):
        return self.__array__()[idx]

    def astype(self, *_, **__):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def T(self):
        return self

    def reshape(self, *a):
        return self.__array__().reshape(*a)

    def ravel(self):
        return self.__array__().ravel()

    def transpose(self):
        return self

    def sum(self, *_, **__):
        return self
    min = max = mean = sum

    def any(self):
        return bool(self)
    all = any

    def tolist(self):
        return self

    def is_integer(self):
        return self.q is not None and self.q.denominator == 1


class Opaque(BaseException):
    """the value of an opaque quantity is required"""


UNDEF = Num(None)


def check(*nums):
    for n in nums:
        if n.v is None:
            raise Undefined()


def neg_(a):
    return -a[0] % P, -a[1] % P


PI = Num(PIV, None, {(1, 1): Fraction(1)})


def point(t):
    """point of the unit circle"""
    n = (1 + t * t) % P
    if not n:
        raise Redraw()
    n = inv_(n)
    return 2 * t * n % P, (1 - t * t) * n % P


def angle_sc(a, k, f):
    """sine and cosine of f * pi**k * a (radians)"""
    if a == 1:
        if k == 1:
            g = f % 2
            if (2 * g).denominator == 1:
                return {0: ((0, 0), (1, 0)), 1: ((1, 0), (0, 0)), 2: ((0, 0), (P - 1, 0)),
                        3: ((P - 1, 0), (0, 0))}[int(2 * g)]
            f = g if g <= 1 else g - 2
        return multiple(('const', k, abs(f)), 1 if f > 0 else -1)
    n, unit = f, 1
    if k == 1:
        n, unit = f * 180, 'deg'
    elif k == 0:
        unit = 'rad'
    if n.denominator == 1 and k in (0, 1) and abs(n) < 64:
        return multiple((a, unit), int(n))
    return multiple((a, k, abs(f)), 1 if f > 0 else -1)


def multiple(key, n):
    d = D()
    sc = d.sc.get(key)
    if sc is None:
        i = 0
        while True:
            s, c = point(d.h('angle', key, i))
            if s and c and isqr(s) == d.sign('sine', key) and \
                    isqr(c) == (key[0] not in d.full or d.sign('cosine', key)):     # (first or fourth quadrant)
                break
            i += 1
        sc = d.sc[key] = ((s, 0), (c, 0))
    s1, c1 = sc
    s, c = (0, 0), (1, 0)
    for _ in range(abs(n)):
        s, c = cadd(cmul(s, c1), cmul(c, s1)), cadd(cmul(c, c1), neg_(cmul(s, s1)))
    return (s, c) if n >= 0 else (neg_(s), c)


def fun(*args):
    """uninterpreted function: (name, arguments...)"""
    key = []
    for a in args:
        if isinstance(a, Num):
            check(a)
            a = ('v', a.v)
        elif isinstance(a, np.ndarray):
            a = tuple(fun_key(x) for x in a.ravel()) + a.shape
        elif special(a):
            if a != a:
                return math.nan
            a = repr(float(a))
        key.append(a)
    return Num((D().h('fun', key), 0))


def fun_key(x):
    if isinstance(x, Num):
        check(x)
        return 'v', x.v
    if isnum(x):
        x = num(x)
        return ('v', x.v) if isinstance(x, Num) else repr(x)
    return repr(x)


def arctan2(y, x):
    if special(y) or special(x):
        return math.nan
    y, x = num(y), num(x)
    check(y, x)
    if y.v == (0, 0):
        if x.v == (0, 0):
            return num(0)
        return num(0) if x > 0 else PI
    if x.v == (0, 0):
        return PI / 2 if y > 0 else -PI / 2
    r = (y * y + x * x).sqrt().inverse()
    return angle_of((y * r).v, (x * r).v) * PI / 180


def angle_of(s, c):
    """angle (degrees) of the given sine and cosine"""
    a = D().arcs.get((s, c))
    if a is None:
        a = Num((D().h('arc', s, c), 0))
        known(a, s, c)
    return a


def known(a, s, c):
    D().sc[a.v, 'deg'] = (s, c)
    D().arcs[s, c] = a
    D().arcs[neg_(s), c] = -a


# -- quantities drawn
ZEROS = {'scale': 2, 'sp': 2, 'sg': 2, 'final': 2, 'k': 2, 'k1': 2, 'k2': 2, 'w': 4, 'mut': 2, 'f107': 2, 'wolf': 2,
         'step': 3, 'lo': 2, 'hi': 4, 'sol': 2, 'pole': 1, 'height': 2, 'coef': 4, 'shc': 4, 'wmm': 4, 'igrf': 4}


def zero(key):
    """the quantity is zero in this drawing"""
    d = D()
    if key[0] == 'pole' and len(key) > 2:       # (of the ionospheric models)
        return False
    return d.zero and key[0] in ZEROS and not d.h('zero', key) % ZEROS[key[0]]


def free(*key):
    if zero(key):
        return Num((0, 0), Fraction(0))
    v = D().h('free', key)
    return Num((v if isqr(v) == D().sign('free', key) else -v % P, 0))


def positive(*key):
    if zero(key):
        return Num((0, 0), Fraction(0))
    v = D().h('free', key)
    return Num((v if isqr(v) else -v % P, 0))


def ranked(value, *key):
    """quantity of the given place in the order (a rational near the given value)"""
    if isinstance(value, Fraction):     # (the very value)
        return Num(fracv(value), value)
    f = Fraction(value) + Fraction(D().h('rank', key) % 999983 + 1, 10**7)
    return Num(fracv(f), f)


def longitude(*key):
    """angle in degrees"""
    return degrees(*key, full=True)


def degrees(*key, full=False):
    """angle in degrees (its cosine is positive unless it is of the full circle)"""
    if zero(key):
        return Num((0, 0), Fraction(0))
    a = free('deg', *key)
    if full:
        D().full.add(a.v)
    known(a, *multiple((a.v, 'deg'), 1))
    return a


def same(a, b):
    """equal value numbers"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a[()]
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b[()]
    if isinstance(a, Num) and isinstance(b, Num):
        return a.v is not None and a.v == b.v
    if isinstance(a, Num) or isinstance(b, Num):
        try:
            x, y = num(a), num(b)
        except TypeError:
            return False
        return isinstance(x, Num) and isinstance(y, Num) and x.v == y.v and x.v is not None
    if special(a) or special(b):
        return special(a) and special(b) and (a == b or (a != a and b != b))
    if isnum(a) and isnum(b):
        return num(a).v == num(b).v
    return type(a) is type(b) and a == b
