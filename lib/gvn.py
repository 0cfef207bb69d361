"""Global value numbering of the terms computed by the abstract interpreter.

Two terms are merged when they are equal by the laws of the real numbers: field arithmetic, square
roots and the addition theorems of sine and cosine.  The value number of a term is its image in a
finite field (Gulwani and Necula, Global value numbering using random interpretation): a pair
(x mod P, x mod Q) where the sine and cosine of an angle are the coordinates of G**angle for an
element G of the order Q of the circle group of F_P.  The number of
a term is its first component, the second one carries the angles.  Equal terms have the same value
number; different ones share it with a probability below 1e-12 for each drawing.

Nothing of the analysed program is executed here and no value is a number of the program: a floating
point quantity is known by its term only.  Branches on floating point quantities are decided by the
quadratic character (an antisymmetric order, multiplicative on the positive elements), equalities
and comparisons to a tiny tolerance are decided as in the generic (non-degenerate) position."""
import hashlib
from fractions import Fraction
import math

from cabs import Tok, approx
from fw import AnalysisError

# P = 8 M Q - 1 with the product M of the odd primes below 142, so that the square roots of all the
# whole numbers which have no larger prime factor exist in the field
P = 1443262685564376113068412530037119249942797028814021994289557954679983959
Q = 36028797018964811
TINY = 1e-5
CUBE = pow(3, -1, P - 1)        # the cubic roots are unique


def inv(a):
    if a % P == 0:
        raise Degenerate()
    return pow(a, -1, P)


def invq(a):
    if a % Q == 0:
        raise Degenerate()
    return pow(a, -1, Q)


def isqr(a):
    return pow(a, (P - 1) // 2, P) == 1


def root(a):
    return pow(a, (P + 1) // 4, P)


def cmul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def cpow(a, n):
    r = (1, 0)
    while n:
        if n & 1:
            r = cmul(r, a)
        a = cmul(a, a)
        n >>= 1
    return r


class Degenerate(Exception):
    """the drawing is not generic: draw again"""


class NotReal(Exception):
    """the square root of a negative element: draw again"""


def hashed(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=64).digest()
    return int.from_bytes(h[:40], 'big') % P, int.from_bytes(h[40:], 'big') % Q


def circle():
    """element of the order Q of the circle group"""
    k = 2
    while True:
        n = inv((1 + k * k) % P)
        g = cpow(((1 - k * k) * n % P, 2 * k * n % P), (P + 1) // Q)
        if g != (1, 0) and cpow(g, Q) == (1, 0):
            return g
        k += 1


G = circle()
PI = hashed('pi')


def rational(x):
    """exact value of a floating point literal: (rational, power of pi)"""
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x)), 0
    r = repr(x)
    m = r.lower().split('e')[0].replace('-', '').replace('.', '').lstrip('0')
    if len(m) <= 14:
        return Fraction(r), 0
    for k in (0, 1, -1, 2, -2):
        y = x / math.pi ** k
        n = round(1 / y) if 1e-10 < abs(y) < 1 else 0
        if n and abs(n * y - 1) < 3e-16:
            return Fraction(1, n), k
        f = Fraction(y).limit_denominator(20000)
        if f and abs(float(f) / y - 1) < 1.5e-15:
            return f, k
    return Fraction(x), 0


def add(a, b):
    return (a[0] + b[0]) % P, (a[1] + b[1]) % Q


def sub(a, b):
    return (a[0] - b[0]) % P, (a[1] - b[1]) % Q


def mul(a, b):
    return a[0] * b[0] % P, a[1] * b[1] % Q


def div(a, b):
    return a[0] * inv(b[0]) % P, a[1] * invq(b[1]) % Q


def neg(a):
    return -a[0] % P, -a[1] % Q


_const = {}


def const(x):
    if isinstance(x, int):
        return x % P, x % Q
    r = _const.get(x)
    if r is None:
        if x != x or x in (math.inf, -math.inf):
            r = hashed('special', repr(x))
        else:
            f, k = rational(x)
            r = div((f.numerator % P, f.numerator % Q), (f.denominator % P, f.denominator % Q))
            for _ in range(abs(k)):
                r = mul(r, PI) if k > 0 else div(r, PI)
        _const[x] = r
    return r


def sincos(angle):
    c, s = cpow(G, angle[1])
    return s, c


class Drawing:
    """one drawing of the free quantities"""

    def __init__(self, seed):
        self.seed = seed
        self.special = {}         # (first component of an) angle -> sine and cosine
        self.angles = {}          # ('t', tangent) or ('s', sine) -> angle
        self.signs = {}           # quantity -> its sign, where it is known
        self.arcs = set()         # values of atan2

    def free(self, *key):
        return hashed(self.seed, *key)

    def positive(self, *key):
        """free quantity which is positive"""
        v = self.free(*key)
        return v if isqr(v[0]) else neg(v)

    def angle(self, *key, positive=False):
        """free angle (radians); its arc functions are recognised; its cosine is positive if required"""
        n = 0
        while True:
            a = self.free(*key, n)
            s, c = sincos(a)
            if s and c and (isqr(c) or not positive):
                break
            n += 1
        self.angles[('t', s * inv(c) % P)] = a, isqr(c)
        self.angles[('t', -s * inv(c) % P)] = neg(a), isqr(c)
        if isqr(c):
            self.angles[('s', s)] = a
            self.angles[('s', -s % P)] = neg(a)
        return a


    def right(self, sign=1):
        """right angle"""
        a = hashed('right')
        a = a if sign > 0 else neg(a)
        self.special[a[0]] = sign % P, 0
        return a


def degrees(a):
    return div(mul(a, const(180)), PI)


class View:
    """value numbers of the terms of one program for one drawing"""

    def __init__(self, draw, leafs=None):
        self.draw = draw
        self.leafs = leafs or {}  # name -> function(index) or {index: value} or value
        self.memo = {}
        self.lin = {}
        self.angles = draw.angles

    def leaf(self, name, idx):
        f = self.leafs.get(name)
        if f is None:
            return self.draw.free(name, idx)
        if callable(f):
            return f(idx)
        return f[idx] if isinstance(f, dict) else f

    # -- order
    def sgn(self, a):
        if a[0] == 0:
            return 0
        return self.draw.signs.get(a[0]) or (1 if isqr(a[0]) else -1)

    def cond(self, c):
        if not isinstance(c, Tok):
            return bool(c)
        o, a = c.op, c.args
        if o == '!':
            return not self.cond(a[0])
        if o == '&&':
            return self.cond(a[0]) and self.cond(a[1])
        if o == '||':
            return self.cond(a[0]) or self.cond(a[1])
        if o in ('<', '>', '<=', '>=', '==', '!='):
            x, y = a
            if not isinstance(x, Tok) and isinstance(y, Tok):
                o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
                x, y = y, x
            tiny = 0
            if isinstance(y, float) and 0 < abs(y) < TINY:
                tiny, y = 1 if y > 0 else -1, 0
            d = sub(self.val(x), self.val(y))
            if o == '==':
                return d[0] == 0 and not tiny
            if o == '!=':
                return d[0] != 0 or tiny != 0
            s = self.sgn(d)
            if tiny and s == 0:
                s = -tiny
            return {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0}[o]
        if o == 'phi':
            return self.cond(a[1]) if self.cond(a[0]) else self.cond(a[2])
        if o in ('isfinite', 'isnormal'):
            return True
        if o in ('isnan', 'isinf'):
            return False
        return self.val(c)[0] != 0

    # -- values
    def val(self, t):
        if not isinstance(t, Tok):
            if isinstance(t, bool):
                return (int(t), int(t))
            if isinstance(t, (int, float)):
                return const(t)
            return hashed('opaque', repr(t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.term(t)
        return r

    def term(self, t):
        o, a = t.op, t.args
        if o == 'in':
            return self.leaf(a[0], a[1])
        if o == 'arg':
            return self.leaf(a[0], ())
        if o == 'phi':
            return self.val(a[1]) if self.cond(a[0]) else self.val(a[2])
        if o in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', '!', 'isfinite', 'isnan', 'isinf'):
            r = int(self.cond(t))
            return r, r
        if o in ('undef',):
            raise AnalysisError('undefined value in a result')
        v = [self.val(x) for x in a]
        if o == '+':
            return add(*v)
        if o == '-':
            return sub(*v)
        if o == '*':
            return mul(*v)
        if o == '/':
            if t.isint:
                return hashed('idiv', v[0][0], v[1][0])
            return const(0) if v[0][0] == 0 else div(*v)
        if o == 'neg':
            return neg(*v)
        if o == 'fma':
            return add(mul(v[0], v[1]), v[2])
        if o == 'sqrt':
            return self.sqrt(v[0])
        if o == 'hypot':
            return self.sqrt(add(mul(v[0], v[0]), mul(v[1], v[1])))
        if o in ('sin', 'cos', 'tan'):
            s, c = self.sincos(v[0], self.linear(a[0]) < 2)
            x = s if o == 'sin' else c if o == 'cos' else s * inv(c) % P
            return x, self.qpart(x)
        if o in ('atan2', 'atan'):
            y, x = v if o == 'atan2' else (v[0], const(1))
            k = self.angles.get(('t', y[0] * inv(x[0]) % P)) if x[0] else None
            if k and k[1] == isqr(x[0]):
                return k[0]
            return self.arc(y, x)
        if o == 'asin':
            return self.arcsine(v[0])
        if o == 'acos':
            return sub(div(PI, const(2)), self.arcsine(v[0]))
        if o == 'floor':
            return self.floor(v[0])
        if o == 'ceil':
            return neg(self.floor(neg(v[0])))
        if o in ('fmod', 'remainder', 'trunc', 'rint', 'round', 'nearbyint'):
            q = div(*v) if len(v) == 2 else v[0]
            if o in ('fmod', 'trunc'):
                k = self.floor(q) if self.sgn(q) >= 0 else neg(self.floor(neg(q)))
            else:
                k = self.floor(add(q, div(const(1), const(2))))
            if len(v) == 1:
                return k
            r = sub(v[0], mul(k, v[1]))
            if o == 'fmod' and r[0]:
                self.draw.signs[r[0]] = self.sgn(v[0])
            return r
        if o == 'fabs':
            return v[0] if self.sgn(v[0]) >= 0 else neg(v[0])
        if o in ('fmax', 'fmin'):
            s = self.sgn(sub(*v))
            return v[0] if (s > 0) == (o == 'fmax') else v[1]
        if o == 'copysign':
            x = v[0] if self.sgn(v[0]) >= 0 else neg(v[0])
            return x if self.sgn(v[1]) >= 0 else neg(x)
        if o == 'pow':
            e = approx(a[1])
            f = None if e is None else Fraction(e).limit_denominator(12)
            if f is not None and abs(float(f) - e) < 1e-15 and abs(f.numerator) < 64:
                x = v[0]
                if f.denominator % 2 == 0:
                    x = self.sqrt(x)
                    f *= 2
                if f.denominator == 3:
                    x = self.cbrt(x)
                    f *= 3
                if f.denominator == 1:
                    r = const(1)
                    for _ in range(abs(f.numerator)):
                        r = mul(r, x)
                    return r if f >= 0 else div(const(1), r)
        if o == 'cbrt':
            return self.cbrt(v[0])
        return hashed(o, [x[0] for x in v],
                      [y for y in a if isinstance(y, str)])

    def arc(self, y, x):
        """angle of the point (x, y): odd function of the ratio and the half plane"""
        if not x[0] or not y[0]:
            return hashed('atan2', y[0] and isqr(y[0]), x[0] and isqr(x[0]))
        q = y[0] * inv(x[0]) % P
        odd = isqr(q)
        r = hashed('atan', q if odd else -q % P)
        r = r if odd else neg(r)
        up = isqr(y[0])
        if not isqr(x[0]):
            r = add(r, PI) if up else sub(r, PI)
        self.draw.signs[r[0]] = 1 if up else -1
        self.draw.arcs.add(r[0])
        return r

    def arcsine(self, x):
        k = self.angles.get(('s', x[0]))
        if k:
            return k
        odd = isqr(x[0])
        r = hashed('asin', x[0] if odd else -x[0] % P)
        r = r if odd else neg(r)
        c = (1 - x[0] * x[0]) % P
        if isqr(c):
            self.draw.special[r[0]] = x[0], root(c)
        self.draw.signs[r[0]] = 1 if odd else -1
        return r

    def floor(self, x):
        a = mul(x, mul(const(2), PI))
        if a[0] in self.draw.arcs:      # (whole turns of an angle between -pi and pi)
            return const(0 if self.sgn(a) >= 0 else -1)
        # floor(-x) = -1 - floor(x)
        if isqr(x[0]):
            return hashed('floor', x[0])
        return sub(const(-1), hashed('floor', -x[0] % P))

    def linear(self, t):
        """0: constant, 1: made of free quantities and arcs (its second component is that of an angle),
        2: made of the values of other functions"""
        if not isinstance(t, Tok):
            return 0
        r = self.lin.get(t)
        if r is None:
            o, a = t.op, t.args
            k = [self.linear(x) for x in a] if o in ('+', '-', '*', '/', 'neg', 'fma', 'phi') else ()
            if o in ('in', 'arg'):
                r = 1
            elif o in ('+', '-', '*', '/', 'neg', 'fma'):
                r = max(k)
            elif o == 'phi':
                r = max(k[1:])
            else:
                r = 1 if o in ('atan', 'atan2', 'asin', 'acos') else 2
            self.lin[t] = r
        return r

    def sincos(self, a, angle=False):
        """of a quantity, or of an angle (linear in the free ones)"""
        r = self.draw.special.get(a[0])
        return r if r else sincos(a if angle else (a[0], self.qpart(a[0])))

    def qpart(self, x):
        # sine and cosine are not angles: one value for all the ways of computing them
        return hashed('q', x)[1]

    def sqrt(self, a):
        if a[0] and not isqr(a[0]):
            raise NotReal()
        x = root(a[0])
        return x, self.qpart(x)

    def cbrt(self, a):
        x = pow(a[0], CUBE, P)
        return x, self.qpart(x)
