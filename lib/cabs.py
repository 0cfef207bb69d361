"""Abstract interpreter of the C extensions.

Domain: array extents and integer arguments are drawn from finite sets of representatives,
the strides of the input arrays are symbols, the floating point values are terms recording
where they come from, references and memory blocks carry their ownership state.
A branch on an unknown floating point condition is followed both ways and the states are
joined again; every failing library call is a branch of its own.
"""
import itertools
import math
import re
from fractions import Fraction

from ctype import Types
from fw import AnalysisError

MAXSTATES = 400
MAXITER = 4000


class Budget(AnalysisError):
    pass


class Unsupported(AnalysisError):
    pass


class Dead(Exception):
    """the path cannot continue (the violation has been reported)"""


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class _Uninit:
    def __repr__(self):
        return 'UNINIT'

    def __deepcopy__(self, memo):
        return self


UNINIT = _Uninit()


class Lin:
    """integer expression linear in the stride symbols"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = t      # tuple of (symbol, coefficient) sorted, no zeros

    def __eq__(self, o):
        return isinstance(o, Lin) and o.c == self.c and o.t == self.t

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        return '%s%s' % (self.c, ''.join('+%s*%s' % (k, '.'.join(map(str, s))) for s, k in self.t))


def lin(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    return Lin(c, t) if t else c


def ladd(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    ac, at = (a, ()) if isinstance(a, int) else (a.c, a.t)
    bc, bt = (b, ()) if isinstance(b, int) else (b.c, b.t)
    d = dict(at)
    for s, v in bt:
        d[s] = d.get(s, 0) + k * v
    return lin(ac + k * bc, d)


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    return lin(a.c * k, {s: v * k for s, v in a.t})


class Tok:
    """term: an unknown number"""
    __slots__ = ('op', 'args', 'h', 'isint')
    table = {}

    def __repr__(self):
        return show(self, 3)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


def tok(op, *args, isint=False):
    k = (op, isint) + tuple(('f', repr(a)) if isinstance(a, float) else a for a in args)
    t = Tok.table.get(k)
    if t is None:
        t = Tok.__new__(Tok)
        t.op, t.args, t.isint = op, args, isint
        t.h = hash(k)
        Tok.table[k] = t
    return t


def show(t, d=4):
    if not isinstance(t, Tok):
        return repr(t)
    if d == 0:
        return '..'
    return '%s(%s)' % (t.op, ','.join(show(a, d - 1) for a in t.args))


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o == self.o and x.off == self.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(None, 0)


class FuncV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, FuncV) and x.name == self.name

    def __hash__(self):
        return hash(self.name)


class StructV:
    __slots__ = ('cells', 'size')

    def __init__(self, cells, size):
        self.cells = cells
        self.size = size

    def __eq__(self, x):
        return isinstance(x, StructV) and x.cells == self.cells

    def __hash__(self):
        return hash(self.size)


class Rec:
    """memory object"""
    __slots__ = ('kind', 'name', 'size', 'cells', 'dflt', 'alive', 'refs', 'arr', 'site')

    def __init__(self, kind, name, size, dflt=UNINIT):
        self.kind, self.name, self.size, self.dflt = kind, name, size, dflt
        self.cells = {}
        self.alive = True
        self.refs = 0
        self.arr = None
        self.site = None

    def copy(self):
        r = Rec.__new__(Rec)
        r.kind, r.name, r.size, r.dflt = self.kind, self.name, self.size, self.dflt
        r.cells = dict(self.cells)
        r.alive, r.refs, r.arr, r.site = self.alive, self.refs, self.arr, self.site
        return r

    def meta(self):
        return (self.kind, self.size, self.alive, self.refs, self.arr, self.dflt)


class ArrInfo:
    """numpy array: shape, type and origin (immutable)"""
    __slots__ = ('name', 'shape', 'typenum', 'contig', 'origin', 'data', 'writable', 'aid')

    def __init__(self, aid, name, shape, typenum, contig, origin, data=None, writable=False):
        self.aid, self.name, self.shape, self.typenum = aid, name, tuple(shape), typenum
        self.contig, self.origin, self.data, self.writable = contig, origin, data, writable

    def strides(self):
        it = ITEM.get(self.typenum, 8)
        if self.contig:
            out, s = [], it
            for d in reversed(self.shape):
                out.append(s)
                s *= max(d, 1)
            return list(reversed(out))
        return [Lin(0, ((('st', self.aid, k), 1),)) for k in range(len(self.shape))]

    def count(self):
        n = 1
        for d in self.shape:
            n *= d
        return n


ITEM = {12: 8, 5: 4, 7: 8, 0: 1}
TNAME = {12: 'flt', 5: 'int', 7: 'int', 0: 'int'}


class State:
    __slots__ = ('mem', 'own', 'exc', 'faults', 'cnt', 'notes', 'path')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.exc = None
        self.faults = ()
        self.cnt = {}
        self.notes = ()
        self.path = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.exc, s.faults, s.notes, s.path = self.exc, self.faults, self.notes, self.path
        s.cnt = self.cnt
        return s

    def become(self, o):
        self.mem, self.exc, self.faults, self.cnt, self.notes, self.path = \
            dict(o.mem), o.exc, o.faults, o.cnt, o.notes, o.path
        self.own = set()
        o.own = set()

    def take(self, o):
        self.mem, self.own, self.exc, self.faults, self.cnt, self.notes, self.path = \
            o.mem, o.own, o.exc, o.faults, o.cnt, o.notes, o.path

    def w(self, oid):
        r = self.mem[oid]
        if oid not in self.own:
            r = self.mem[oid] = r.copy()
            self.own.add(oid)
        return r

    def new(self, oid, rec):
        self.mem[oid] = rec
        self.own.add(oid)
        return rec

    def number(self, site):
        n = self.cnt.get(site, 0)
        self.cnt = dict(self.cnt)
        self.cnt[site] = n + 1
        return n


def is_num(v):
    return isinstance(v, (float, Tok))


PRECISE = [False]     # alternatives reached under different conditions are kept apart


def merge_states(a, b, cond):
    """join of two states differing in the floating point values only, or None"""
    if a.exc != b.exc or a.faults != b.faults or a.mem.keys() != b.mem.keys():
        return None
    if PRECISE[0] and a.path != b.path and \
            [x for x in a.path if x[0] is not cond] != [x for x in b.path if x[0] is not cond]:
        return None
    out = None
    for oid, r1 in a.mem.items():
        r2 = b.mem[oid]
        if r1 is r2:
            continue
        if r1.meta() != r2.meta():
            return None
        c1, c2 = r1.cells, r2.cells
        if c1 == c2 and c1.keys() == c2.keys():
            continue
        if c1.keys() != c2.keys():
            return None
        new = None
        for off, v1 in c1.items():
            v2 = c2[off]
            if v1 is v2 or (type(v1) is type(v2) and v1 == v2 and not isinstance(v1, float)):
                continue
            if is_num(v1) and is_num(v2):
                if isinstance(v1, float) and isinstance(v2, float) and repr(v1) == repr(v2):
                    continue
                if new is None:
                    new = r1.copy()
                new.cells[off] = phi(cond, v1, v2)
            else:
                return None
        if new is not None:
            if out is None:
                out = a.copy()
            out.mem[oid] = new
            out.own.add(oid)
    if out is None:
        out = a.copy()
    if a.path != b.path:
        out.path = tuple(x for x in a.path if x in b.path)
    if a.notes != b.notes:
        out.notes = tuple(x for x in a.notes if x in b.notes)
    cnt = dict(a.cnt)
    for k, v in b.cnt.items():
        cnt[k] = max(v, cnt.get(k, 0))
    out.cnt = cnt
    return out


def phi(cond, a, b):
    if a is b:
        return a
    return tok('phi', cond if cond is not None else 'join', a, b)


def merge_vals(cond, a, b):
    """join of two results of an expression or None"""
    if a is b or (type(a) is type(b) and not isinstance(a, float) and a == b):
        return (a,)
    if is_num(a) and is_num(b):
        if isinstance(a, float) and isinstance(b, float) and repr(a) == repr(b):
            return (a,)
        return (phi(cond, a, b),)
    if isinstance(a, StructV) and isinstance(b, StructV) and a.cells.keys() == b.cells.keys():
        cells = {}
        for k, v in a.cells.items():
            m = merge_vals(cond, v, b.cells[k])
            if m is None:
                return None
            cells[k] = m[0]
        return (StructV(cells, a.size),)
    return None


MATH1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin,
         'acos': math.acos, 'atan': math.atan, 'fabs': abs, 'floor': math.floor, 'ceil': math.ceil,
         'exp': math.exp, 'log': math.log, 'log10': math.log10, 'trunc': math.trunc,
         'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), 'rint': round,
         'nearbyint': round, 'cbrt': None, 'sinh': math.sinh, 'cosh': math.cosh,
         'tanh': math.tanh, 'expm1': math.expm1, 'log1p': math.log1p}
MATH2 = {'atan2': math.atan2, 'pow': math.pow, 'copysign': math.copysign, 'fmod': math.fmod,
         'hypot': math.hypot, 'fmin': min, 'fmax': max, 'ldexp': None, 'remainder': None,
         'fdim': None}
MATH3 = {'fma'}
BOOLS = {'<', '<=', '>', '>=', '==', '!=', '&&', '||', '!', 'isfinite', 'isnan', 'isinf', 'signbit'}


SYMBOLIC = [False]    # inexact operations of constants are kept as terms
_approx = {}


def approx(t):
    """floating point value of a term of constants, None: the term has leaves"""
    if not isinstance(t, Tok):
        return t if isinstance(t, (int, float)) else None
    if t in _approx:
        return _approx[t]
    r = None
    v = [approx(x) for x in t.args]
    if all(isinstance(x, (int, float)) for x in v):
        try:
            if t.op in ('+', '-', '*', '/') and not t.isint:
                a, b = v
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                     '/': lambda: a / b}[t.op]()
            elif t.op == 'neg':
                r = -v[0]
            elif t.op in MATH1 or t.op in MATH2:
                r = float((MATH1.get(t.op) or MATH2.get(t.op))(*v))
        except (ValueError, OverflowError, ZeroDivisionError):
            r = None
    _approx[t] = r
    return r


def exact(op, a, b, r):
    """the constant r is the exact result of the operation"""
    if not all(math.isfinite(x) for x in (a, b, r)) or op == '/' and b == 0.0:
        return True
    a, b, r = Fraction(a), Fraction(b), Fraction(r)
    return r == (a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b)


def dop(op, a, b):
    """floating point operation with folding of the constants"""
    if isinstance(a, float) and isinstance(b, float) and SYMBOLIC[0]:
        SYMBOLIC[0] = False
        r = dop(op, a, b)
        SYMBOLIC[0] = True
        return r if isinstance(r, float) and exact(op, a, b, r) else tok(op, a, b)
    if isinstance(a, float) and isinstance(b, float):
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b == 0.0:
                    if a == 0.0 or a != a:
                        return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1.0, b)
                return a / b
        except OverflowError:
            return math.inf
    return tok(op, a, b)


def cmp_num(op, a, b):
    """comparison of numbers -> 0, 1 or term"""
    if SYMBOLIC[0]:
        x, y = approx(a), approx(b)
        if x is not None and y is not None:
            a, b = x, y
    if isinstance(a, Tok) or isinstance(b, Tok):
        for x in (a, b):
            if isinstance(x, float) and x != x:     # NaN
                return 1 if op == '!=' else 0
        return tok(op, a, b, isint=True)
    return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b,
                '!=': a != b}[op])


def has_uninit(v):
    return v is UNINIT


# ---------------------------------------------------------------- specifications of arguments
class Spec:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        if self.kind == 'arr':
            return 'array%s%s' % (self.shape, '' if self.data is None else list(self.data))
        if self.kind in ('list', 'tuple'):
            return '%s%r' % (self.kind, self.items)
        return '%s' % (getattr(self, 'value', self.kind),)


def Arr(*shape, data=None):
    return Spec('arr', shape=tuple(shape), data=data)


def Lst(*items):
    return Spec('list', items=list(items))


def Tup(*items):
    return Spec('tuple', items=list(items))


def Int(v):
    return Spec('int', value=v)


def Bool(v):
    return Spec('bool', value=v)


def Flt():
    return Spec('float')


def Str(n=20):
    return Spec('str', value='x' * n)


OTHER = Spec('other')


class CAbs:
    def __init__(self, tu, externals=None):
        self.tu = tu
        self.types = Types(tu)
        self.viols = {}
        self.stats = {'nodes': 0, 'statements': 0, 'calls': 0, 'forks': 0, 'faults': 0,
                      'accesses': 0, 'paths': 0, 'merges': 0}
        self.functions_seen = set()
        self.lines_seen = set()
        self.fault_sites = set()
        self.depth = 0
        self.stack = []
        self.presets = ()
        self.pi = 0
        self.inject = True
        self.quiet = 0
        self.decl_fn = {}
        self.strings = {}
        self.cfg = {}
        self.root = None
        self.globals_done = {}
        self.static_reads = {}
        self.static_writes = {}

    # ------------------------------------------------------------ reports
    def fn(self):
        return self.stack[-1] if self.stack else '?'

    def viol(self, rule, node, msg, where=None):
        if self.quiet:
            return
        text = src(node) if node is not None else ''
        k = (rule, where or self.fn(), text)
        if k not in self.viols:
            self.viols[k] = (msg, '%s:%s' % (node.file and node.file.rsplit('/', 1)[-1], node.line)
                             if node is not None else '', repr(self.cfg)[:300])

    # ------------------------------------------------------------ types
    def T(self, n):
        t = n.a.get('_t')
        if t is None:
            t = n.a['_t'] = self.types.parse(n.type)
        return t

    def size(self, t):
        return self.types.size(t)

    # ------------------------------------------------------------ memory
    def obj(self, p, st, node):
        if not isinstance(p, Ptr):
            if isinstance(p, Tok) or isinstance(p, int):
                self.viol('null', node, 'access by an invalid pointer')
            else:
                self.viol('null', node, 'access by an uninitialised or invalid pointer')
            raise Dead()
        if p.o is None:
            self.viol('null', node, 'null pointer is dereferenced')
            raise Dead()
        r = st.mem.get(p.o)
        if r is None or not r.alive:
            self.viol('freed', node, 'memory used after its release')
            raise Dead()
        return r

    def elem(self, r, off, size, node):
        """index of the array element at the byte offset"""
        a = r.arr
        item = ITEM.get(a.typenum, 8)
        if size != item:
            self.viol('layout', node, 'element of %d bytes of "%s" accessed as %d bytes'
                      % (item, a.name, size))
            raise Dead()
        if a.contig:
            if not isinstance(off, int):
                self.viol('layout', node, '"%s" accessed by the strides of another array' % a.name)
                raise Dead()
            if off % item:
                self.viol('layout', node, 'misaligned access to "%s"' % a.name)
                raise Dead()
            k = off // item
            n = a.count()
            if not 0 <= k < n:
                self.viol('bounds', node, 'element %d of "%s" with %d elements (shape %s)'
                          % (k, a.name, n, a.shape))
                raise Dead()
            idx = []
            for d in reversed(a.shape):
                idx.append(k % d)
                k //= d
            return tuple(reversed(idx))
        c, t = (off, ()) if isinstance(off, int) else (off.c, off.t)
        if c:
            self.viol('layout', node, '"%s" accessed %d bytes away regardless of its strides'
                      % (a.name, c))
            raise Dead()
        idx = [0] * len(a.shape)
        for s, k in t:
            if s[1] != a.aid:
                self.viol('layout', node, '"%s" accessed by a stride of another array' % a.name)
                raise Dead()
            idx[s[2]] = k
        for k, d in zip(idx, a.shape):
            if not 0 <= k < d:
                self.viol('bounds', node, 'element %s of "%s" of the shape %s'
                          % (tuple(idx), a.name, a.shape))
                raise Dead()
        return tuple(idx)

    def load(self, p, t, st, node):
        r = self.obj(p, st, node)
        self.stats['accesses'] += 1
        if t[0] == 'rec':
            sz = self.size(t)
            if r.arr is not None:
                raise Unsupported('structure read from an array')
            self.range(r, p.off, sz, node)
            cells = {k - p.off: v for k, v in r.cells.items()
                     if isinstance(k, int) and p.off <= k < p.off + sz}
            if r.dflt is not UNINIT:
                for f, ft, fo, _ in self.types.layout(t[1])[0]:
                    cells.setdefault(fo, r.dflt)
            return StructV(cells, sz)
        sz = self.size(t)
        if r.arr is not None:
            i = self.elem(r, p.off, sz, node)
            v = r.cells.get(i)
            if v is None:
                a = r.arr
                if a.origin == 'in':
                    if a.data is not None:
                        k = 0
                        for x, d in zip(i, a.shape):
                            k = k * d + x
                        v = a.data[k]
                        if t[0] == 'flt':
                            v = float(v)
                    else:
                        v = tok('in', a.name, i, isint=(t[0] == 'int'))
                        if t[0] == 'int':
                            pass
                elif r.dflt is not UNINIT:
                    v = r.dflt
                else:
                    self.viol('uninit', node, 'element of "%s" read before it is assigned' % a.name)
                    v = tok('undef', a.name)
        else:
            self.range(r, p.off, sz, node)
            v = r.cells.get(p.off, r.dflt)
            if r.kind == 'global' and (p.o, p.off) not in st.notes:
                self.static_reads.setdefault((p.o, p.off), (node, self.fn(), r.name))
            if v is UNINIT:
                self.viol('uninit', node, 'value read before it is assigned')
                if t[0] != 'flt':
                    raise Dead()
                v = tok('undef', r.name)
        return self.as_type(v, t)

    def as_type(self, v, t):
        if t[0] == 'ptr':
            if v == 0 and isinstance(v, int):
                return NULL
        elif t[0] == 'flt':
            if isinstance(v, int):
                return float(v)
        return v

    def range(self, r, off, size, node):
        if not isinstance(off, int):
            self.viol('bounds', node, 'memory "%s" accessed at an offset depending on the strides '
                      'of an array' % r.name)
            raise Dead()
        if off < 0 or off + size > r.size:
            self.viol('bounds', node, 'access to bytes %d-%d of "%s" with %d bytes'
                      % (off, off + size, r.name, r.size))
            raise Dead()

    def store(self, p, v, t, st, node):
        r = self.obj(p, st, node)
        self.stats['accesses'] += 1
        if r.kind in ('str', 'const', 'dims'):
            self.viol('input-write', node, 'read-only data "%s" is written' % r.name)
            raise Dead()
        sz = self.size(t)
        if r.arr is not None:
            i = self.elem(r, p.off, sz, node)
            if r.arr.origin == 'in' and not r.arr.writable:
                self.viol('input-write', node, 'the input "%s" is modified' % r.arr.name)
            st.w(p.o).cells[i] = v
            return
        self.range(r, p.off, sz, node)
        if r.kind == 'global':
            self.static_writes.setdefault(p.o, set()).add(p.off if isinstance(p.off, int) else None)
            st.notes = st.notes + ((p.o, p.off),) if (p.o, p.off) not in st.notes else st.notes
        if t[0] == 'rec':
            w = st.w(p.o)
            for k in [k for k in w.cells if p.off <= k < p.off + sz]:
                del w.cells[k]
            for k, x in v.cells.items():
                w.cells[p.off + k] = x
            return
        if r.cells.get(p.off, None) is v:
            return
        st.w(p.o).cells[p.off] = v

    # ------------------------------------------------------------ forks
    def choose(self, st, alts):
        """alts: list of (value, state)"""
        if self.pi < len(self.presets):
            v, s = self.presets[self.pi]
            self.pi += 1
            st.become(s)
            return v
        if not alts:
            raise Dead()
        if len(alts) == 1:
            v, s = alts[0]
            self.presets = self.presets + (alts[0],)
            self.pi += 1
            st.become(s if s is not st else st.copy())
            return v
        raise Fork(alts)

    def replay(self):
        return self.pi < len(self.presets)

    def multi(self, f, st):
        """all results of f(state): list of (value, state)"""
        sp, si = self.presets, self.pi
        out = []
        work = [()]
        try:
            while work:
                pre = work.pop()
                s = st.copy()
                self.presets, self.pi = pre, 0
                try:
                    v = f(s)
                    out.append((v, s))
                except Fork as fk:
                    self.stats['forks'] += 1
                    base = self.presets
                    for a in reversed(fk.alts):
                        work.append(base + (a,))
                except Dead:
                    pass
                if len(out) > MAXSTATES:
                    raise Budget('too many states in %s' % self.fn())
        finally:
            self.presets, self.pi = sp, si
        return out

    def evs(self, e, st):
        if pure(e):
            try:
                return [(self.ev(e, st), st)]
            except Dead:
                return []
        return self.multi(lambda s: self.ev(e, s), st)

    # ------------------------------------------------------------ statements
    def merge_list(self, states):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for k, o in enumerate(out):
                m = merge_states(o, s, None)
                if m is not None:
                    self.stats['merges'] += 1
                    out[k] = m
                    break
            else:
                out.append(s)
        if len(out) > MAXSTATES:
            raise Budget('too many states in %s' % self.fn())
        return out

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        out = []
        for kind, pl, s in outs:
            for k, (k2, p2, o) in enumerate(out):
                if k2 != kind:
                    continue
                if kind == 'return':
                    mv = merge_vals(None, p2, pl)
                    if mv is None:
                        continue
                elif p2 != pl:
                    continue
                else:
                    mv = (pl,)
                m = merge_states(o, s, None)
                if m is not None:
                    out[k] = (kind, mv[0], m)
                    self.stats['merges'] += 1
                    break
            else:
                out.append((kind, pl, s))
        return out

    def ex(self, n, st):
        self.stats['statements'] += 1
        if n.line and n.file:
            self.lines_seen.add((n.file, n.line))
        f = getattr(self, 'ex_' + n.kind, None)
        if f is not None:
            return f(n, st)
        return [('next', None, s) for v, s in self.evs(n, st)]

    def ex_Null(self, n, st):
        return [('next', None, st)]

    ex_NullStmt = ex_Null

    def ex_CompoundStmt(self, n, st):
        stmts = n.inner
        labels = n.a.get('_labels')
        if labels is None:
            labels = {}
            for i, s in enumerate(stmts):
                x = s
                while x.kind == 'LabelStmt':
                    labels[x.a.get('declId')] = i
                    x = x.inner[0]
            n.a['_labels'] = labels
        pend = {0: [st]}
        outs = []
        i = 0
        guard = 0
        while i < len(stmts):
            states = pend.pop(i, None)
            if not states:
                i += 1
                continue
            back = None
            for s in self.merge_list(states):
                for kind, pl, s2 in self.ex(stmts[i], s):
                    if kind == 'next':
                        pend.setdefault(i + 1, []).append(s2)
                    elif kind == 'goto' and pl in labels:
                        j = labels[pl]
                        pend.setdefault(j, []).append(s2)
                        if j <= i:
                            back = j if back is None else min(back, j)
                    else:
                        outs.append((kind, pl, s2))
            if back is not None:
                guard += 1
                if guard > MAXITER:
                    raise Budget('loop built of goto statements')
                i = back
            else:
                i += 1
        for s in pend.pop(len(stmts), []):
            outs.append(('next', None, s))
        self.drop_locals(n, stmts, outs)
        return self.merge_outs(outs) if len(outs) > 1 else outs

    def drop_locals(self, n, stmts, outs):
        """the variables of a block do not outlive it"""
        ids = n.a.get('_locals')
        if ids is None:
            ids = n.a['_locals'] = [d.id for s in stmts if s is not None and s.kind == 'DeclStmt'
                                    for d in s.inner if d.kind == 'VarDecl'
                                    and d.a.get('storageClass') not in ('static', 'extern')]
        if ids:
            for _, _, s in outs:
                for i in ids:
                    s.mem.pop(('L', self.depth, i), None)

    def ex_LabelStmt(self, n, st):
        return self.ex(n.inner[-1], st)

    def ex_AttributedStmt(self, n, st):
        return self.ex(n.inner[-1], st)

    def ex_GotoStmt(self, n, st):
        return [('goto', n.a.get('targetLabelDeclId'), st)]

    def ex_BreakStmt(self, n, st):
        return [('break', None, st)]

    def ex_ContinueStmt(self, n, st):
        return [('continue', None, st)]

    def ex_ReturnStmt(self, n, st):
        if not n.inner:
            return [('return', None, st)]
        return [('return', v, s) for v, s in self.evs(n.inner[0], st)]

    def ex_DeclStmt(self, n, st):
        states = [st]
        for d in n.inner:
            if d.kind != 'VarDecl':
                continue
            new = []
            for s in states:
                new += self.declare(d, s)
            states = new
        return [('next', None, s) for s in states]

    def declare(self, d, st):
        if d.a.get('storageClass') == 'static':
            oid = ('G', d.id)
            if oid not in st.mem:
                self.static_var(d, st)
            return [st]
        if d.a.get('storageClass') == 'extern':
            return [st]
        t = self.types.parse(d.type)
        oid = ('L', self.depth, d.id)
        if t[0] == 'arr' and not isinstance(t[2], int) and not d.inner:
            n = self.text_expr(t[2], st, d)
            if not isinstance(n, int):
                self.viol('bounds', d, 'size of the array cannot be bounded')
                return []
            if n < 0:
                self.viol('bounds', d, 'array of a negative size %s' % n)
                return []
            sz = n * self.size(t[1])
        else:
            sz = self.size(t)
            if sz is None and t[0] == 'arr':
                sz = None
        rec = Rec('local', d.a.get('name'), sz)
        if not d.inner or d.inner[0].kind.endswith('Comment'):
            st.new(oid, rec)
            return [st]
        init = d.inner[-1]
        out = []
        for v, s in self.evs_init(init, t, st):
            r = rec.copy()
            s.new(oid, r)
            self.put_init(r, 0, v, t)
            if r.size is None:
                r.size = self.init_size(v, t)
            out.append(s)
        return out

    def init_size(self, v, t):
        n = v[1]
        return n * self.size(t[1])

    def evs_init(self, e, t, st):
        if pure(e):
            try:
                return [(self.init_val(e, t, st), st)]
            except Dead:
                return []
        return self.multi(lambda s: self.init_val(e, t, s), st)

    def init_val(self, e, t, st):
        """value of an initialiser: scalar, StructV or ('cells', n, {off: value})"""
        while e.kind in ('ExprWithCleanups', 'ConstantExpr'):
            e = e.inner[0]
        if e.kind == 'InitListExpr':
            if t[0] == 'arr':
                es = self.size(t[1])
                cells, n = {}, 0
                items = [x for x in e.inner if not (x.kind == 'ImplicitValueInitExpr'
                                                    and e.a.get('filler'))] \
                    if e.a.get('filler') else e.inner
                for k, x in enumerate(items):
                    v = self.init_val(x, t[1], st)
                    self.flatten(cells, k * es, v, t[1])
                    n = k + 1
                total = t[2] if isinstance(t[2], int) else n
                for k in range(n, total):
                    self.zero(cells, k * es, t[1])
                return ('cells', total, cells)
            if t[0] == 'rec':
                cells = {}
                lay = self.types.layout(t[1])[0]
                for k, (f, ft, off, _) in enumerate(lay):
                    if k < len(e.inner):
                        self.flatten(cells, off, self.init_val(e.inner[k], ft, st), ft)
                    else:
                        self.zero(cells, off, ft)
                return StructV(cells, self.size(t))
            if len(e.inner) == 1:
                return self.init_val(e.inner[0], t, st)
        if e.kind == 'ImplicitValueInitExpr':
            cells = {}
            self.zero(cells, 0, t)
            if t[0] == 'arr':
                return ('cells', t[2], cells)
            if t[0] == 'rec':
                return StructV(cells, self.size(t))
            return self.as_type(0, t)
        if e.kind == 'StringLiteral' and t[0] == 'arr':
            s = unq(e.a.get('value'))
            n = t[2] if isinstance(t[2], int) else len(s) + 1
            return ('cells', n, {i: (ord(s[i]) if i < len(s) else 0) for i in range(n)})
        return self.ev(e, st)

    def zero(self, cells, off, t):
        if t[0] == 'arr':
            for k in range(t[2] if isinstance(t[2], int) else 0):
                self.zero(cells, off + k * self.size(t[1]), t[1])
        elif t[0] == 'rec':
            for f, ft, fo, _ in self.types.layout(t[1])[0]:
                self.zero(cells, off + fo, ft)
        else:
            cells[off] = self.as_type(0, t)

    def flatten(self, cells, off, v, t):
        if isinstance(v, StructV):
            for k, x in v.cells.items():
                cells[off + k] = x
        elif isinstance(v, tuple) and v and v[0] == 'cells':
            for k, x in v[2].items():
                cells[off + k] = x
        else:
            cells[off] = v

    def put_init(self, r, off, v, t):
        self.flatten(r.cells, off, v, t)

    def static_var(self, d, st):
        t = self.types.parse(d.type)
        oid = ('G', d.id)
        sz = self.size(t)
        r = Rec('global', d.a.get('name'), sz, 0)
        init = [x for x in d.inner if not x.kind.endswith('Comment')]
        if init:
            v = self.init_val(init[-1], t, st)
            self.put_init(r, 0, v, t)
            if r.size is None:
                r.size = self.init_size(v, t)
        st.new(oid, r)
        return oid

    def ex_IfStmt(self, n, st):
        inner = n.inner
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        if n.a.get('hasInit') or n.a.get('hasVar'):
            raise Unsupported('if with declaration')
        outs = []
        for c, s in self.truths(cond, st):
            if c is True:
                outs += self.ex(then, s)
            elif c is False:
                outs += self.ex(els, s) if els is not None else [('next', None, s)]
            else:
                s2 = s.copy()
                s.path += ((c, True),)
                s2.path += ((c, False),)
                o1 = self.ex(then, s)
                o2 = self.ex(els, s2) if els is not None else [('next', None, s2)]
                outs += self.join(c, o1, o2)
        return outs if len(outs) < 3 else self.merge_outs(outs)

    def join(self, c, o1, o2):
        out = []
        used = set()
        for k1, p1, s1 in o1:
            for j, (k2, p2, s2) in enumerate(o2):
                if j in used or k1 != k2:
                    continue
                if k1 == 'return':
                    mv = merge_vals(c, p1, p2)
                    if mv is None:
                        continue
                elif p1 != p2:
                    continue
                else:
                    mv = (p1,)
                m = merge_states(s1, s2, c)
                if m is not None:
                    used.add(j)
                    self.stats['merges'] += 1
                    out.append((k1, mv[0], m))
                    break
            else:
                out.append((k1, p1, s1))
        out += [o for j, o in enumerate(o2) if j not in used]
        return out

    def ex_ForStmt(self, n, st):
        init, _, cond, inc, body = n.inner
        outs = []
        for kind, pl, s in self.ex(init, st):
            outs += self.loop(cond, inc, body, s, n)
        self.drop_locals(n, [init], outs)
        return outs

    def ex_WhileStmt(self, n, st):
        return self.loop(n.inner[0], None, n.inner[-1], st, n)

    def ex_DoStmt(self, n, st):
        return self.loop(n.inner[1], None, n.inner[0], st, n, first=True)

    def loop(self, cond, inc, body, st, node, first=False):
        cur, exits, outs = [st], [], []
        unknown = 0
        for it in range(MAXITER):
            nxt = []
            for s in cur:
                if first and it == 0:
                    ts = [(True, s)]
                elif cond is None or cond.kind == 'Null':
                    ts = [(True, s)]
                else:
                    ts = self.truths(cond, s)
                for c, s2 in ts:
                    if c is False:
                        exits.append(s2)
                        continue
                    if c is not True:
                        exits.append(s2.copy())
                        exits[-1].path += ((c, False),)
                        s2.path += ((c, True),)
                        unknown += 1
                        if unknown > 12:
                            continue        # the exit taken above stands for the rest
                    for kind, pl, s3 in self.ex(body, s2):
                        if kind == 'break':
                            exits.append(s3)
                        elif kind in ('next', 'continue'):
                            if inc is not None and inc.kind != 'Null':
                                nxt += [x for _, x in self.evs(inc, s3)]
                            else:
                                nxt.append(s3)
                        else:
                            outs.append((kind, pl, s3))
            cur = self.merge_list(nxt)
            if not cur:
                break
        else:
            raise Budget('loop in %s does not terminate' % self.fn())
        return [('next', None, s) for s in self.merge_list(exits)] + outs

    def ex_SwitchStmt(self, n, st):
        body = n.inner[-1]
        outs = []
        for v, s in self.evs(n.inner[-2], st):
            if not isinstance(v, int):
                raise Unsupported('switch on an unknown value')
            start = dflt = None
            for i, x in enumerate(body.inner):
                y = x
                while y.kind in ('CaseStmt', 'DefaultStmt'):
                    if y.kind == 'CaseStmt':
                        c = self.ev(y.inner[0], s)
                        if c == v and start is None:
                            start = i
                    else:
                        dflt = i
                    y = y.inner[-1]
            if start is None:
                start = dflt
            if start is None:
                outs.append(('next', None, s))
                continue
            cur = [s]
            for x in body.inner[start:]:
                new = []
                for q in cur:
                    for kind, pl, q2 in self.ex(x, q):
                        if kind == 'next':
                            new.append(q2)
                        elif kind == 'break':
                            outs.append(('next', None, q2))
                        else:
                            outs.append((kind, pl, q2))
                cur = self.merge_list(new)
            outs += [('next', None, q) for q in cur]
        return self.merge_outs(outs)

    def ex_CaseStmt(self, n, st):
        return self.ex(n.inner[-1], st)

    ex_DefaultStmt = ex_CaseStmt

    # ------------------------------------------------------------ conditions
    def truths(self, e, st):
        """list of (True | False | term, state)"""
        return [(self.boolean(v, e), s) for v, s in self.evs(e, st)]

    def boolean(self, v, e):
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, Ptr):
            return v.o is not None
        if isinstance(v, FuncV):
            return True
        if isinstance(v, Tok):
            return v if v.op in BOOLS else tok('!=', v, 0.0, isint=True)
        raise Unsupported('condition %s' % src(e))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.stats['nodes'] += 1
        return getattr(self, 'ev_' + e.kind, self.ev_bad)(e, st)

    def ev_bad(self, e, st):
        raise Unsupported('expression %s in %s' % (e.kind, self.fn()))

    def ev_ParenExpr(self, e, st):
        return self.ev(e.inner[0], st)

    ev_ConstantExpr = ev_ParenExpr

    def ev_IntegerLiteral(self, e, st):
        return int(str(e.a['value']), 0)

    def ev_CharacterLiteral(self, e, st):
        return int(e.a['value'])

    def ev_FloatingLiteral(self, e, st):
        return float(e.a['value'])

    def ev_StringLiteral(self, e, st):
        s = unq(e.a.get('value'))
        oid = ('S', s)
        if oid not in st.mem:
            r = Rec('str', '"%s"' % s[:20], len(s) + 1)
            r.cells = {i: ord(c) for i, c in enumerate(s)}
            r.cells[len(s)] = 0
            st.new(oid, r)
        return Ptr(oid)

    def ev_PredefinedExpr(self, e, st):
        return self.ev(e.inner[0], st)

    def ev_ImplicitValueInitExpr(self, e, st):
        return self.init_val(e, self.T(e), st)

    def ev_CompoundLiteralExpr(self, e, st):
        return self.init_val(e.inner[0], self.T(e), st)

    def ev_InitListExpr(self, e, st):
        return self.init_val(e, self.T(e), st)

    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.a.get('name', 'sizeof') not in ('sizeof',):
            raise Unsupported('alignof')
        at = e.a.get('argType')
        if at:
            return self.size(self.types.parse(at))
        x = e.inner[0]
        t = self.T(x)
        if t[0] == 'arr' and not isinstance(t[2], int):
            p = self.lv(x, st)
            return self.obj(p, st, e).size
        return self.size(t)

    def ev_DeclRefExpr(self, e, st):
        rid, kind, name = e.ref
        if kind == 'FunctionDecl':
            return FuncV(name)
        if kind == 'EnumConstantDecl':
            return self.tu.enums[rid]
        return self.load(self.lv(e, st), self.T(e), st, e)

    def ev_MemberExpr(self, e, st):
        return self.load(self.lv(e, st), self.T(e), st, e)

    ev_ArraySubscriptExpr = ev_MemberExpr

    def ev_StmtExpr(self, e, st):
        raise Unsupported('statement expression')

    # -- addresses
    def lv(self, e, st):
        k = e.kind
        if k == 'DeclRefExpr':
            rid, kind, name = e.ref
            oid = ('L', self.depth, rid)
            if oid in st.mem:
                return Ptr(oid)
            oid = ('G', rid)
            if oid not in st.mem:
                self.global_var(rid, name, st)
            return Ptr(oid)
        if k == 'ParenExpr':
            return self.lv(e.inner[0], st)
        if k == 'UnaryOperator' and e.a['opcode'] == '*':
            return self.ev(e.inner[0], st)
        if k == 'ArraySubscriptExpr':
            b = self.ev(e.inner[0], st)
            i = self.ev(e.inner[1], st)
            if isinstance(i, Ptr):
                b, i = i, b
            return self.padd(b, i, self.size(self.T(e)), e)
        if k == 'MemberExpr':
            base = e.inner[0]
            if e.a.get('isArrow'):
                p = self.ev(base, st)
                t = self.T(base)
                t = t[1] if t[0] in ('ptr', 'arr') else t
            else:
                if base.kind in ('CallExpr',):
                    v = self.ev(base, st)
                    oid = ('T', self.depth, id(e))
                    r = Rec('local', 'temporary', v.size)
                    r.cells = dict(v.cells)
                    st.new(oid, r)
                    p = Ptr(oid)
                else:
                    p = self.lv(base, st)
                t = self.T(base)
            off = None
            if t[0] == 'rec':
                for f, ft, fo, _ in self.types.layout(t[1])[0]:
                    if f == e.a.get('name'):
                        off = fo
            if off is None:
                raise Unsupported('member %s' % src(e))
            if p.o is None:
                self.viol('null', e, 'member of a null pointer')
                raise Dead()
            return Ptr(p.o, ladd(p.off, off))
        if k == 'StringLiteral':
            return self.ev(e, st)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and e.a.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lv(e.inner[0], st)
        if k == 'CompoundLiteralExpr':
            t = self.T(e)
            v = self.init_val(e.inner[0], t, st)
            oid = ('T', self.depth, e.id)
            r = Rec('local', 'literal', self.size(t))
            self.put_init(r, 0, v, t)
            if r.size is None:
                r.size = self.init_size(v, t)
            st.new(oid, r)
            return Ptr(oid)
        raise Unsupported('address of %s in %s' % (k, self.fn()))

    def global_var(self, rid, name, st):
        d = self.tu.globals.get(name)
        if d is None or not [x for x in d.inner if not x.kind.endswith('Comment')]:
            node = self.tu.ids.get(rid)
            if node is not None and node.kind == 'VarDecl' and node.inner:
                d = node
        t = self.types.parse(d.type if d is not None else None)
        init = [x for x in (d.inner if d is not None else []) if not x.kind.endswith('Comment')]
        if d is not None and init:
            keep = self.depth
            r0 = Rec('global', name, self.size(t), 0)
            v = self.init_val(init[-1], t, st)
            self.put_init(r0, 0, v, t)
            if r0.size is None:
                r0.size = self.init_size(v, t)
            self.depth = keep
        else:
            r0 = Rec('const', name, self.size(t) or 8)
            if t[0] == 'ptr':
                oid = ('X', name)
                st.new(oid, Rec('ext', name, 8))
                r0.cells[0] = Ptr(oid)
            else:
                r0.dflt = 0 if (d is not None and d.a.get('storageClass') == 'static') else UNINIT
                if d is not None and d.a.get('storageClass') != 'extern':
                    r0.kind = 'global'
        st.new(('G', rid), r0)

    def padd(self, p, i, size, e):
        if isinstance(i, Tok):
            self.viol('bounds', e, 'address depends on an index which cannot be bounded')
            raise Dead()
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic %s' % src(e))
        if p.o is None:
            if i == 0:
                return p
            return Ptr(None, ladd(p.off, lmul(i, size)))
        return Ptr(p.o, ladd(p.off, lmul(i, size)))

    # -- operators
    def ev_UnaryOperator(self, e, st):
        op = e.a['opcode']
        x = e.inner[0]
        if op == '&':
            y = x
            while y.kind == 'ParenExpr':
                y = y.inner[0]
            if y.kind == 'DeclRefExpr' and y.ref[1] == 'FunctionDecl':
                return FuncV(y.ref[2])
            return self.lv(x, st)
        if op == '*':
            t = self.T(e)
            v = self.ev(x, st)
            if isinstance(v, FuncV):
                return v
            return self.load(v, t, st, e)
        if op in ('++', '--'):
            p = self.lv(x, st)
            t = self.T(x)
            v = self.load(p, t, st, x)
            k = 1 if op == '++' else -1
            if t[0] == 'ptr':
                w = self.padd(v, k, self.psize(t), e)
            elif t[0] == 'flt':
                w = dop('+', v, float(k))
            elif isinstance(v, Tok):
                w = tok('+', v, k, isint=True)
            else:
                w = self.wrap(ladd(v, k), t)
            self.store(p, w, t, st, e)
            return v if e.a.get('isPostfix') else w
        v = self.ev(x, st)
        t = self.T(e)
        if op == '!':
            b = self.boolean(v, e)
            if isinstance(b, Tok):
                return tok('!', b, isint=True)
            return int(not b)
        if op == '+':
            return v
        if op == '-':
            if isinstance(v, float):
                return -v
            if isinstance(v, Tok):
                return tok('neg', v, isint=v.isint)
            return self.wrap(lmul(v, -1), t)
        if op == '~':
            if isinstance(v, int):
                return self.wrap(~v, t)
        if op in ('__extension__',):
            return v
        raise Unsupported('operator %s' % op)

    def psize(self, t):
        s = self.size(t[1])
        return 1 if (s is None or t[1][0] in ('void', 'func')) else s

    def wrap(self, v, t):
        if isinstance(v, int) and t[0] == 'int':
            bits = 8 * t[1]
            if t[2]:
                h = 1 << (bits - 1)
                if not -h <= v < h:
                    v = (v + h) % (1 << bits) - h
            elif v < 0 or v >> bits:
                v &= (1 << bits) - 1
        return v

    def ev_BinaryOperator(self, e, st):
        op = e.a['opcode']
        if op == '=':
            t = self.T(e.inner[0])
            v = self.ev(e.inner[1], st)
            p = self.lv(e.inner[0], st)
            self.store(p, v, t, st, e)
            return v
        if op == ',':
            self.ev(e.inner[0], st)
            return self.ev(e.inner[1], st)
        if op in ('&&', '||'):
            a = self.boolean(self.ev(e.inner[0], st), e)
            if a is (op == '||'):
                return int(a)
            if isinstance(a, bool):
                b = self.boolean(self.ev(e.inner[1], st), e)
                return int(b) if isinstance(b, bool) else b
            if not pure(e.inner[1]):
                # unknown first operand: both ways
                s1, s2 = under(st, a, op == '||'), under(st, a, op == '&&')
                alts = []
                if op == '&&':
                    alts.append((0, s1))
                else:
                    alts.append((1, s1))

                def second(s):
                    b = self.boolean(self.ev(e.inner[1], s), e)
                    return int(b) if isinstance(b, bool) else b
                if not self.replay():
                    alts += self.multi(second, s2)
                return self.choose(st, alts)
            b = self.boolean(self.ev(e.inner[1], st), e)
            if b is (op == '||'):
                return int(b)
            if isinstance(b, bool):
                return a
            return tok(op, a, b, isint=True)
        a = self.ev(e.inner[0], st)
        b = self.ev(e.inner[1], st)
        return self.binop(op, a, b, self.T(e), self.T(e.inner[0]), self.T(e.inner[1]), e, st)

    def binop(self, op, a, b, t, ta, tb, e, st):
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, a, b, e)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                if isinstance(b, Ptr):
                    a, b, ta = b, a, tb
                return self.padd(a, b, self.psize(ta), e)
            if op == '-':
                if isinstance(b, Ptr):
                    if a.o != b.o:
                        raise Unsupported('difference of pointers to different objects')
                    d = ladd(a.off, b.off, -1)
                    if isinstance(d, int):
                        return d // self.psize(ta)
                    raise Unsupported('difference of pointers')
                return self.padd(a, lmul(b, -1) if not isinstance(b, Tok) else b, self.psize(ta), e)
        if t[0] == 'flt':
            a = float(a) if isinstance(a, int) else a
            b = float(b) if isinstance(b, int) else b
            return dop(op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            return dop(op, a, b)
        if isinstance(a, Tok) or isinstance(b, Tok):
            if op in ('/', '%') and isinstance(b, int) and b == 0:
                self.viol('zero-division', e, 'integer division by zero')
                raise Dead()
            return tok(op, a, b, isint=True)
        if op == '+':
            return self.wrap(ladd(a, b), t)
        if op == '-':
            return self.wrap(ladd(a, b, -1), t)
        if op == '*':
            if isinstance(a, Lin):
                a, b = b, a
            if isinstance(a, Lin):
                return tok('*', a, b, isint=True)
            return self.wrap(lmul(b, a), t)
        if isinstance(a, Lin) or isinstance(b, Lin):
            return tok(op, a, b, isint=True)
        if op in ('/', '%'):
            if b == 0:
                self.viol('zero-division', e, 'integer division by zero')
                raise Dead()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q if op == '/' else a - q * b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '<<':
            return self.wrap(a << b, t)
        if op == '>>':
            return a >> b
        raise Unsupported('operator %s' % op)

    def compare(self, op, a, b, e):
        if isinstance(a, (Ptr, FuncV)) or isinstance(b, (Ptr, FuncV)):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if op in ('==', '!='):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and \
                        not (isinstance(a.off, int) and isinstance(b.off, int)) and a.off != b.off:
                    return tok(op, repr(a), repr(b), isint=True)
                return int((a == b) == (op == '=='))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o \
                    and isinstance(a.off, int) and isinstance(b.off, int):
                return int({'<': a.off < b.off, '<=': a.off <= b.off, '>': a.off > b.off,
                            '>=': a.off >= b.off}[op])
            raise Unsupported('comparison of pointers %s' % src(e))
        if isinstance(a, Lin) or isinstance(b, Lin):
            d = ladd(a, b, -1) if not (isinstance(a, Tok) or isinstance(b, Tok)) else None
            if isinstance(d, int):
                return cmp_num(op, d, 0)
            return tok(op, a, b, isint=True)
        return cmp_num(op, a, b)

    def ev_CompoundAssignOperator(self, e, st):
        op = e.a['opcode'][:-1]
        x, y = e.inner
        t = self.T(x)
        p = self.lv(x, st)
        b = self.ev(y, st)
        a = self.load(p, t, st, x)
        ct = e.a.get('computeLHSType') or {}
        ct = self.types.parse(ct.get('desugaredQualType', ct.get('qualType'))) if ct else t
        if ct[0] == 'flt' and isinstance(a, int):
            a = float(a)
        v = self.binop(op, a, b, ct if t[0] != 'ptr' else t, t, self.T(y), e, st)
        if t[0] == 'int' and isinstance(v, float):
            v = self.toint(v, t, e)
        elif t[0] == 'int':
            v = self.wrap(v, t)
        self.store(p, v, t, st, e)
        return v

    def ev_ConditionalOperator(self, e, st):
        c = self.boolean(self.ev(e.inner[0], st), e)
        if c is True:
            return self.ev(e.inner[1], st)
        if c is False:
            return self.ev(e.inner[2], st)
        if pure(e.inner[1]) and pure(e.inner[2]):
            a = self.ev(e.inner[1], st)
            b = self.ev(e.inner[2], st)
            m = merge_vals(c, a, b)
            if m is not None:
                return m[0]
        if self.replay():
            return self.choose(st, None)
        alts = self.multi(lambda s: self.ev(e.inner[1], s), under(st, c, True)) + \
            self.multi(lambda s: self.ev(e.inner[2], s), under(st, c, False))
        if len(alts) == 2:
            m = merge_vals(c, alts[0][0], alts[1][0])
            s = merge_states(alts[0][1], alts[1][1], c)
            if m is not None and s is not None:
                alts = [(m[0], s)]
        return self.choose(st, alts)

    def toint(self, v, t, e):
        if SYMBOLIC[0] and isinstance(v, Tok) and approx(v) is not None:
            v = approx(v)
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return tok('toint', v, isint=True)
            return self.wrap(int(v), t)
        return tok('toint', v, isint=True)

    def ev_ImplicitCastExpr(self, e, st):
        k = e.a.get('castKind')
        x = e.inner[0]
        if k == 'LValueToRValue':
            return self.load(self.lv(x, st), self.T(e), st, x)
        if k == 'ArrayToPointerDecay':
            return self.lv(x, st)
        if k in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(x, st)
        v = self.ev(x, st)
        if k in ('NoOp', 'BitCast', 'ToVoid', 'AtomicToNonAtomic'):
            return v
        if k == 'NullToPointer':
            return NULL
        t = self.T(e)
        if k == 'IntegralCast':
            if isinstance(v, Tok):
                return v
            return self.wrap(v, t)
        if k == 'IntegralToFloating':
            if isinstance(v, Tok):
                return v
            if isinstance(v, Lin):
                return tok('float', v)
            return float(v)
        if k == 'FloatingToIntegral':
            return self.toint(v, t, e)
        if k == 'FloatingCast':
            if t[1] == 4 and isinstance(v, float):
                return v if v != v or v in (0.0, 1.0, -1.0) else tok('float32', v)
            if t[1] == 4:
                return tok('float32', v)
            return v
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            b = self.boolean(v, e)
            return b if isinstance(b, Tok) else int(b)
        if k == 'IntegralToPointer':
            return NULL if v == 0 else v
        if k == 'PointerToIntegral':
            if v == NULL:
                return 0
            return tok('addr', repr(v), isint=True)
        raise Unsupported('cast %s' % k)

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def text_expr(self, text, st, d):
        """size of a variable length array from its type text"""
        import ast as pyast
        try:
            tree = pyast.parse(re.sub(r'\b(size_t|int|long|npy_intp)\b(?=\s*\))', '', text)
                               .replace('()', ''), mode='eval').body
        except SyntaxError:
            raise Unsupported('array size %s' % text)

        def go(x):
            if isinstance(x, pyast.Constant):
                return x.value
            if isinstance(x, pyast.Name):
                for oid in reversed(list(st.mem)):
                    if oid[0] == 'L' and oid[1] == self.depth and st.mem[oid].name == x.id:
                        return st.mem[oid].cells.get(0, UNINIT)
                for k, v in self.tu.enums.items():
                    n = self.tu.ids.get(k)
                    if n is not None and n.a.get('name') == x.id:
                        return v
                raise Unsupported('name %s in an array size' % x.id)
            if isinstance(x, pyast.BinOp):
                a, b = go(x.left), go(x.right)
                if not (isinstance(a, int) and isinstance(b, int)):
                    return None
                o = type(x.op).__name__
                if o == 'Add':
                    return a + b
                if o == 'Sub':
                    return a - b
                if o == 'Mult':
                    return a * b
                if o == 'Div':
                    return a // b
            raise Unsupported('array size %s' % text)
        return go(tree)

    # ------------------------------------------------------------ entry points
    def run_entry(self, fname, cfg, inject=True, precise=False):
        """-> list of (returned value, state) at the exits of the entry point"""
        self.cfg, self.inject = cfg, inject
        PRECISE[0] = precise
        self.specs = {}
        self.depth, self.stack = 0, []
        self.presets, self.pi = (), 0
        fd = self.tu.functions[fname]
        st = State()
        args = []
        for nm in ('self', 'args', 'kwdict'):
            oid = ('X', nm)
            st.new(oid, Rec('ext', nm, 16))
            args.append(Ptr(oid))
        n = len([c for c in fd.inner if c.kind == 'ParmVarDecl'])
        try:
            outs = self.call(fd, args[:n], st, fd)
        except Dead:
            outs = []
        self.stats['paths'] += len(outs)
        return outs

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, e, st):
        f = self.ev(e.inner[0], st)
        if isinstance(f, Ptr):
            self.viol('null', e, 'call of a null or invalid function pointer')
            raise Dead()
        if not isinstance(f, FuncV):
            raise Unsupported('call of %r' % (f,))
        name = f.name
        m = getattr(self, 'api_' + name, None)
        if m is not None and name not in self.tu.functions:
            args = e.inner[1:]
            if not all(pure(a) for a in args):
                args = [Val(self.ev(a, st), a) for a in args]
            return m(e, args, st)
        if name in MATH1 or name in MATH2 or name in MATH3 or name.replace('__builtin_', '') in MATH1:
            return self.math(name, e, st)
        fd = self.tu.functions.get(name)
        if fd is None:
            return self.external(name, e, st)
        args = [self.ev(a, st) for a in e.inner[1:]]
        if self.replay():
            return self.choose(st, None)
        return self.choose(st, self.call(fd, args, st, e))

    def ev_Val(self, e, st):
        return e.v

    def call(self, fd, args, st, e):
        """inlined call: list of (returned value, state)"""
        self.stats['calls'] += 1
        name = fd.a['name']
        self.functions_seen.add(name)
        if self.depth > 80:
            self.viol('recursion', e, 'unbounded recursion')
            raise Dead()
        self.depth += 1
        self.stack.append(name)
        d = self.depth
        sp, si = self.presets, self.pi
        self.presets, self.pi = (), 0
        try:
            params = [c for c in fd.inner if c.kind == 'ParmVarDecl']
            body = [c for c in fd.inner if c.kind == 'CompoundStmt'][0]
            s = st.copy()
            for p, v in zip(params, args):
                t = self.types.parse(p.type)
                r = Rec('local', p.a.get('name'), self.size(t) or 8)
                if isinstance(v, StructV):
                    r.cells = dict(v.cells)
                else:
                    r.cells[0] = self.as_type(v, t)
                s.new(('L', d, p.id), r)
            outs = self.ex(body, s)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.presets, self.pi = sp, si
        res = []
        for kind, v, s in outs:
            if kind not in ('next', 'return'):
                raise Unsupported('%s leaves the function %s' % (kind, name))
            for k in [k for k in s.mem if k[0] in 'LT' and k[1] == d]:
                del s.mem[k]
            for j, (v2, s2) in enumerate(res):
                mv = merge_vals(None, v2, v) if not (v is None and v2 is None) else (None,)
                if mv is None:
                    continue
                m = merge_states(s2, s, None)
                if m is not None:
                    res[j] = (mv[0], m)
                    self.stats['merges'] += 1
                    break
            else:
                res.append((v, s))
        if not res:
            raise Dead()
        return res

    def math(self, name, e, st):
        args = [self.ev(a, st) for a in e.inner[1:]]
        name = name.replace('__builtin_', '')
        args = [float(a) if isinstance(a, int) else a for a in args]
        if all(isinstance(a, float) for a in args):
            f = MATH1.get(name) or MATH2.get(name)
            if f is not None:
                try:
                    r = float(f(*args))
                    if SYMBOLIC[0] and not (name in ('fabs', 'floor', 'ceil', 'fmin', 'fmax', 'trunc') or
                                            name == 'sqrt' and exact('*', r, r, args[0])):
                        return tok(name, *args)
                    return r
                except (ValueError, OverflowError, ZeroDivisionError):
                    return math.nan
        return tok(name, *args)

    # -- faults
    def fault(self, e, st, what):
        """state of the failed call or None"""
        if not self.inject or st.faults:
            return None
        self.stats['faults'] += 1
        self.fault_sites.add((self.fn(), what, e.line))
        s = st.copy()
        s.faults = ('%s in %s' % (what, self.fn()),)
        return s

    def strz(self, p, st, node):
        """content of a string (None: unknown)"""
        r = self.obj(p, st, node)
        out = []
        off = p.off
        while isinstance(off, int):
            if off >= r.size:
                self.viol('bounds', node, 'string without terminating zero')
                raise Dead()
            v = r.cells.get(off, r.dflt)
            if v == 0 and isinstance(v, int):
                return ''.join(out)
            if not isinstance(v, int):
                return None
            out.append(chr(v & 255))
            off += 1
        return None

    # -- Python objects
    def pyobj(self, p, st, node):
        r = self.obj(p, st, node)
        return r

    def spec_of(self, p):
        if isinstance(p, Ptr) and p.o is not None and p.o[0] == 'P':
            return self.specs.get(p.o)
        return None

    def make_py(self, path, spec, st):
        oid = ('P',) + path
        self.specs[oid] = spec
        if oid not in st.mem:
            st.new(oid, Rec('py', '.'.join(map(str, path)), 16))
        return Ptr(oid)

    def api_PyArg_ParseTupleAndKeywords(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        fmt = self.strz(self.ev(a[2], st), st, a[2])
        kwp = self.ev(a[3], st)
        kws = []
        k = 0
        while True:
            p = self.load(Ptr(kwp.o, ladd(kwp.off, 8 * k)), ('ptr', ('int', 1, True)), st, a[3])
            if p.o is None:
                break
            kws.append(self.strz(p, st, a[3]))
            k += 1
        body = re.split('[:;]', fmt)[0]
        units = [c for c in body if c not in '|$']
        required = len([c for c in body.split('|')[0] if c not in '$'])
        targets = [self.ev(x, st) for x in a[4:]]
        if len(units) != len(kws) or len(units) != len(targets):
            raise Unsupported('argument format "%s" of %s' % (fmt, self.fn()))
        alts = []
        f = self.fault(e, st, 'PyArg_ParseTupleAndKeywords')
        if f is not None:
            f.exc = 'parse'
            alts.append((0, f))
        s = st.copy()
        self.kwds = kws
        self.required = required
        ok = True
        for i, (u, kw, p) in enumerate(zip(units, kws, targets)):
            spec = self.cfg.get(kw)
            if spec is None:
                if i < required:
                    ok = False
                continue
            if u == 'O':
                self.store(p, self.make_py((kw,), spec, s), ('ptr', ('void',)), s, a[4 + i])
            elif u in 'ilnp':
                if spec.kind not in ('int', 'bool'):
                    ok = False
                    continue
                t = ('int', 8 if u in 'ln' else 4, True)
                self.store(p, int(spec.value), t, s, a[4 + i])
            elif u == 'd':
                if spec.kind not in ('float', 'int'):
                    ok = False
                    continue
                self.store(p, tok('arg', kw), ('flt', 8), s, a[4 + i])
            elif u in 'sz':
                if spec.kind != 'str':
                    ok = False
                    continue
                oid = ('S', 'arg', kw)
                r = Rec('str', kw, len(spec.value) + 1)
                r.cells = {j: ord(c) for j, c in enumerate(spec.value)}
                r.cells[len(spec.value)] = 0
                s.new(oid, r)
                self.store(p, Ptr(oid), ('ptr', ('int', 1, True)), s, a[4 + i])
            else:
                raise Unsupported('format unit %s' % u)
        if ok:
            alts.append((1, s))
        else:
            s.exc = 'parse'
            alts.append((0, s))
        return self.choose(st, alts)

    def api_PyArray_DescrFromType(self, e, a, st):
        n = self.ev(a[0], st)
        oid = ('descr', n)
        if oid not in st.mem:
            st.new(oid, Rec('py', 'dtype', 16))
        return Ptr(oid)

    def new_array(self, st, e, name, shape, typenum, contig, origin, data=None, writable=False,
                  zeros=False):
        site = ('A', self.fn(), e.id, name)
        n = st.number(site)
        aid = '%s#%s%s' % (name, e.line if origin != 'in' else '', n or '')
        aid = (name, self.fn(), str(e.id), n)
        info = ArrInfo(aid, name, shape, typenum, contig, origin, data, writable)
        r = Rec('array', name, 16)
        r.refs = 1
        r.arr = info
        r.site = (self.fn(), e.line, src(e))
        oid = ('A', aid)
        st.new(oid, r)
        d = Rec('data', name, 0)
        d.arr = info
        if zeros:
            d.dflt = 0.0
        st.new(('D', aid), d)
        for what, vals in (('dims', info.shape), ('strides', info.strides())):
            q = Rec('dims', '%s of %s' % (what, name), 8 * len(info.shape))
            q.cells = {8 * k: v for k, v in enumerate(vals)}
            st.new((what, aid), q)
        return Ptr(oid)

    def api_PyArray_FromAny(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        obj = self.ev(a[0], st)
        descr = self.ev(a[1], st)
        dmin, dmax, flags = [self.ev(x, st) for x in a[2:5]]
        return self.convert(e, st, obj, descr.o[1] if descr.o is not None else 12, dmin, dmax, flags)

    def api_PyArray_FROM_OTF(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        return self.convert(e, st, self.ev(a[0], st), self.ev(a[1], st), 0, 0, self.ev(a[2], st))

    def api_PyArray_FROMANY(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        obj, typenum, dmin, dmax, flags = [self.ev(x, st) for x in a[:5]]
        return self.convert(e, st, obj, typenum, dmin, dmax, flags)

    def api_PyArray_ContiguousFromAny(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        obj, typenum, dmin, dmax = [self.ev(x, st) for x in a[:4]]
        return self.convert(e, st, obj, typenum, dmin, dmax, 1)

    def convert(self, e, st, obj, typenum, dmin, dmax, flags):
        if obj == NULL:
            self.viol('null', e, 'conversion of a null object')
            raise Dead()
        self.obj(obj, st, e)
        alts = []
        f = self.fault(e, st, 'array conversion')
        if f is not None:
            f.exc = 'conversion'
            alts.append((NULL, f))
        s = st.copy()
        spec = self.spec_of(obj)
        ok = spec is not None and spec.kind in ('arr', 'int', 'float', 'bool')
        if ok:
            shape = spec.shape if spec.kind == 'arr' else ()
            data = getattr(spec, 'data', None)
            if spec.kind in ('int', 'bool'):
                data = [int(spec.value)]
            r = len(shape)
            if r < dmin or (dmax and r > dmax):
                ok = False
        if ok:
            p = self.new_array(s, e, '.'.join(map(str, obj.o[1:])), shape, typenum, bool(flags & 1),
                               'in', data, writable=bool(flags & 0x20))
            alts.append((p, s))
        else:
            s.exc = 'conversion'
            alts.append((NULL, s))
        return self.choose(st, alts)

    def out_name(self):
        return 'out'

    def empty(self, e, a, st, typenum, zeros=False):
        if self.replay():
            return self.choose(st, None)
        nd = self.ev(a[0], st)
        p = self.ev(a[1], st)
        if nd < 0 or nd > 64:
            s = st.copy()
            s.exc = 'dims'
            return self.choose(st, [(NULL, s)])
        shape = [self.load(Ptr(p.o, ladd(p.off, 8 * k)), ('int', 8, True), st, a[1])
                 for k in range(nd)]
        alts = []
        f = self.fault(e, st, 'array allocation')
        if f is not None:
            f.exc = 'memory'
            alts.append((NULL, f))
        s = st.copy()
        if any(not isinstance(x, int) for x in shape):
            self.viol('bounds', e, 'extent of a new array cannot be bounded')
            raise Dead()
        if any(x < 0 for x in shape):
            s.exc = 'dims'
            alts.append((NULL, s))
        else:
            alts.append((self.new_array(s, e, 'new array', shape, typenum, True, 'out', zeros=zeros), s))
        return self.choose(st, alts)

    def api_PyArray_EMPTY(self, e, a, st):
        return self.empty(e, a, st, 12 if self.replay() else self.ev(a[2], st))

    def api_PyArray_ZEROS(self, e, a, st):
        return self.empty(e, a, st, 12 if self.replay() else self.ev(a[2], st), True)

    api_PyArray_SimpleNew = api_PyArray_EMPTY

    def info(self, a, st):
        p = self.ev(a, st)
        r = self.obj(p, st, a)
        if r.arr is None:
            raise Unsupported('array function applied to %s' % r.kind)
        return r.arr

    def api_PyArray_NDIM(self, e, a, st):
        return len(self.info(a[0], st).shape)

    def api_PyArray_DIM(self, e, a, st):
        i = self.info(a[0], st)
        k = self.ev(a[1], st)
        if not isinstance(k, int) or not 0 <= k < len(i.shape):
            self.viol('bounds', e, 'dimension %s of "%s" of the rank %d' % (k, i.name, len(i.shape)))
            raise Dead()
        return i.shape[k]

    def api_PyArray_STRIDE(self, e, a, st):
        i = self.info(a[0], st)
        k = self.ev(a[1], st)
        if not isinstance(k, int) or not 0 <= k < len(i.shape):
            self.viol('bounds', e, 'stride %s of "%s" of the rank %d' % (k, i.name, len(i.shape)))
            raise Dead()
        return i.strides()[k]

    def api_PyArray_DIMS(self, e, a, st):
        return Ptr(('dims', self.info(a[0], st).aid))

    def api_PyArray_STRIDES(self, e, a, st):
        return Ptr(('strides', self.info(a[0], st).aid))

    def api_PyArray_DATA(self, e, a, st):
        return Ptr(('D', self.info(a[0], st).aid))

    api_PyArray_BYTES = api_PyArray_DATA

    def api_PyArray_SIZE(self, e, a, st):
        return self.info(a[0], st).count()

    api_PyArray_Size = api_PyArray_SIZE

    def api_PyArray_ITEMSIZE(self, e, a, st):
        return ITEM.get(self.info(a[0], st).typenum, 8)

    def api_PyArray_TYPE(self, e, a, st):
        return self.info(a[0], st).typenum

    def api_PyArray_Check(self, e, a, st):
        p = self.ev(a[0], st)
        r = self.obj(p, st, e)
        if r.arr is not None:
            return 1
        s = self.spec_of(p)
        return int(s is not None and s.kind == 'arr')

    def predicate(self, e, a, st, contig=True):
        """flag of an array which is unknown unless it has been requested"""
        if self.replay():
            return self.choose(st, None)
        p = self.ev(a[0], st)
        r = self.obj(p, st, a[0])
        if r.arr is None:
            raise Unsupported('array function applied to %s' % r.kind)
        i = r.arr
        if i.contig and (contig or i.origin != 'in'):
            return self.choose(st, [(1, st.copy())])
        yes = st.copy()
        if contig and not i.contig:
            j = ArrInfo(i.aid, i.name, i.shape, i.typenum, True, i.origin, i.data, i.writable)
            yes.w(p.o).arr = j
            yes.w(('D', i.aid)).arr = j
            yes.w(('strides', i.aid)).cells = {8 * k: v for k, v in enumerate(j.strides())}
        return self.choose(st, [(0, st.copy()), (1, yes)])

    def api_PyArray_ISCONTIGUOUS(self, e, a, st):
        return self.predicate(e, a, st)

    api_PyArray_IS_C_CONTIGUOUS = api_PyArray_ISCONTIGUOUS
    api_PyArray_ISCARRAY_RO = api_PyArray_ISCONTIGUOUS
    api_PyArray_ISCARRAY = api_PyArray_ISCONTIGUOUS

    def api_PyArray_ISFORTRAN(self, e, a, st):
        return self.predicate(e, a, st, False)

    api_PyArray_IS_F_CONTIGUOUS = api_PyArray_ISFORTRAN
    api_PyArray_ISWRITEABLE = api_PyArray_ISFORTRAN
    api_PyArray_ISBEHAVED = api_PyArray_ISFORTRAN
    api_PyArray_ISBEHAVED_RO = api_PyArray_ISFORTRAN
    api_PyArray_ISONESEGMENT = api_PyArray_ISFORTRAN

    def api_PyArray_ISALIGNED(self, e, a, st):
        self.info(a[0], st)
        return 1

    def api_PyArray_CHKFLAGS(self, e, a, st):
        f = self.ev(a[1], st)
        return self.predicate(e, a, st, bool(f & 1))

    def api_PyArray_SAMESHAPE(self, e, a, st):
        return int(tuple(self.info(a[0], st).shape) == tuple(self.info(a[1], st).shape))

    def dim_list(self, a, b, st):
        p, n = self.ev(a, st), self.ev(b, st)
        if not isinstance(n, int):
            raise Unsupported('number of dimensions is not known')
        return [self.load(Ptr(p.o, ladd(p.off, 8 * k)), ('int', 8, True), st, a) for k in range(n)]

    def api_PyArray_CompareLists(self, e, a, st):
        return int(self.dim_list(a[0], a[2], st) == self.dim_list(a[1], a[2], st))

    def api_PyArray_MultiplyList(self, e, a, st):
        n = 1
        for x in self.dim_list(a[0], a[1], st):
            n *= x
        return n

    def api_PyArray_NewCopy(self, e, a, st):
        """contiguous copy of an array"""
        if self.replay():
            return self.choose(st, None)
        i = self.info(a[0], st)
        alts = []
        f = self.fault(e, st, 'array allocation')
        if f is not None:
            f.exc = 'memory'
            alts.append((NULL, f))
        s = st.copy()
        p = self.new_array(s, e, 'copy of ' + i.name, i.shape, i.typenum, True, 'out')
        self.copy_elements(i, s.mem[p.o].arr, s, e)
        alts.append((p, s))
        return self.choose(st, alts)

    api_PyArray_Copy = api_PyArray_NewCopy

    def copy_elements(self, src_, dst, st, e):
        t = (TNAME.get(src_.typenum, 'flt'), ITEM.get(src_.typenum, 8), True)
        if t[0] == 'flt':
            t = t[:2]
        n = len(src_.shape)
        for idx in itertools.product(*[range(d) for d in src_.shape]):
            o1 = o2 = 0
            for k in range(n):
                o1 = ladd(o1, lmul(src_.strides()[k], idx[k]))
                o2 = ladd(o2, lmul(dst.strides()[k], idx[k]))
            v = self.load(Ptr(('D', src_.aid), o1), t, st, e)
            self.store(Ptr(('D', dst.aid), o2), v, t, st, e)

    def api_PyArray_CopyInto(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        d, s_ = self.info(a[0], st), self.info(a[1], st)
        alts = []
        if d.shape != s_.shape:
            raise Unsupported('copy between different shapes')
        f = self.fault(e, st, 'copy of an array')
        if f is not None:
            f.exc = 'copy'
            alts.append((-1, f))
        s = st.copy()
        self.copy_elements(s_, d, s, e)
        alts.append((0, s))
        return self.choose(st, alts)

    def api_PyArray_FILLWBYTE(self, e, a, st):
        i = self.info(a[0], st)
        c = self.ev(a[1], st)
        w = st.w(('D', i.aid))
        if i.origin == 'in' and not i.writable:
            self.viol('input-write', e, 'the input "%s" is overwritten' % i.name)
        for idx in itertools.product(*[range(d) for d in i.shape]):
            w.cells[idx] = 0.0 if c == 0 else tok('memset', c)
        return None

    def api_PyArray_IsZeroDim(self, e, a, st):
        return int(len(self.info(a[0], st).shape) == 0)

    def getptr(self, e, a, st):
        i = self.info(a[0], st)
        off = 0
        for k, x in enumerate(a[1:]):
            n = self.ev(x, st)
            if k >= len(i.shape):
                self.viol('bounds', e, 'index %d of "%s"' % (k, i.name))
                raise Dead()
            stv = i.strides()[k]
            off = ladd(off, lmul(stv, n))
        return Ptr(('D', i.aid), off)

    api_PyArray_GETPTR1 = getptr
    api_PyArray_GETPTR2 = getptr

    # -- references
    def incref(self, p, st, e, n):
        r = self.obj(p, st, e)
        if r.kind == 'ext':
            return
        if r.kind == 'py' and n < 0 and r.refs + n < 0 or r.kind != 'py' and r.refs <= 0 and n < 0:
            self.viol('over-release', e, 'reference which is not owned is released (%s)' % r.name)
            raise Dead()
        w = st.w(p.o)
        w.refs += n
        if w.refs == 0 and r.kind in ('array', 'tuple'):
            self.release(p.o, st)

    def release(self, oid, st):
        w = st.w(oid)
        w.alive = False
        if oid[0] == 'A':
            for k in ('D', 'dims', 'strides'):
                if (k, oid[1]) in st.mem:
                    st.w((k, oid[1])).alive = False

    def api_Py_INCREF_(self, e, a, st):
        self.incref(self.ev(a[0], st), st, e, 1)

    def api_Py_DECREF_(self, e, a, st):
        self.incref(self.ev(a[0], st), st, e, -1)

    def api_Py_XINCREF_(self, e, a, st):
        p = self.ev(a[0], st)
        if p != NULL:
            self.incref(p, st, e, 1)

    def api_Py_XDECREF_(self, e, a, st):
        p = self.ev(a[0], st)
        if p != NULL:
            self.incref(p, st, e, -1)

    def api_Py_NewRef(self, e, a, st):
        p = self.ev(a[0], st)
        self.incref(p, st, e, 1)
        return p

    def new_tuple(self, st, e, items):
        n = st.number(('tuple', self.fn(), e.id))
        oid = ('tuple', (self.fn(), e.id, n))
        r = Rec('tuple', 'tuple', 16)
        r.refs = 1
        r.cells = dict(enumerate(items))
        r.site = (self.fn(), e.line, src(e))
        st.new(oid, r)
        return Ptr(oid)

    def api_Py_BuildValue(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        fmt = self.strz(self.ev(a[0], st), st, a[0])
        vals = [self.ev(x, st) for x in a[1:]]
        units = [c for c in fmt if c not in '()[] ,']
        if len(units) != len(vals):
            raise Unsupported('format %s' % fmt)
        alts = []

        def consume(s, keep):
            items = []
            for u, v in zip(units, vals):
                if u in 'NOS':
                    if v == NULL:
                        self.viol('null', e, 'null object in the result')
                        raise Dead()
                    if u != 'N' and keep:
                        self.incref(v, s, e, 1)
                    if u == 'N' and not keep:
                        self.incref(v, s, e, -1)
                    items.append(v)
            return items
        f = self.fault(e, st, 'Py_BuildValue')
        if f is not None:
            consume(f, False)
            f.exc = 'memory'
            alts.append((NULL, f))
        s = st.copy()
        items = consume(s, True)
        if len(units) == 1 and '(' not in fmt and '[' not in fmt and items:
            alts.append((items[0], s))
        else:
            alts.append((self.new_tuple(s, e, items), s))
        return self.choose(st, alts)

    def api_PyTuple_Pack(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        vals = [self.ev(x, st) for x in a[1:]]
        alts = []
        f = self.fault(e, st, 'PyTuple_Pack')
        if f is not None:
            f.exc = 'memory'
            alts.append((NULL, f))
        s = st.copy()
        for v in vals:
            self.incref(v, s, e, 1)
        alts.append((self.new_tuple(s, e, vals), s))
        return self.choose(st, alts)

    def api_PyTuple_New(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        n = self.ev(a[0], st)
        alts = []
        f = self.fault(e, st, 'PyTuple_New')
        if f is not None:
            f.exc = 'memory'
            alts.append((NULL, f))
        s = st.copy()
        alts.append((self.new_tuple(s, e, [NULL] * n), s))
        return self.choose(st, alts)

    def api_PyTuple_SetItem(self, e, a, st):
        t, k, v = [self.ev(x, st) for x in a]
        r = self.obj(t, st, e)
        if r.kind != 'tuple' or k not in r.cells:
            self.viol('bounds', e, 'item %s of a tuple' % k)
            raise Dead()
        st.w(t.o).cells[k] = v
        return 0

    # -- exceptions
    def api_PyErr_Format(self, e, a, st):
        for i, x in enumerate(a):
            v = self.ev(x, st)
            if i >= 2 and v == NULL and '%s' in (src(a[1])):
                self.viol('null', e, 'null string in an error message')
        self.ev(a[1], st)
        st.exc = 'set'
        return NULL

    def api_PyErr_SetString(self, e, a, st):
        for x in a:
            self.ev(x, st)
        st.exc = 'set'

    api_PyErr_SetNone = api_PyErr_SetString

    def api_PyErr_NoMemory(self, e, a, st):
        st.exc = 'set'
        return NULL

    def api_PyErr_Occurred(self, e, a, st):
        if st.exc is None:
            return NULL
        oid = ('X', 'exception')
        if oid not in st.mem:
            st.new(oid, Rec('ext', 'exception', 16))
        return Ptr(oid)

    def api_PyErr_Clear(self, e, a, st):
        st.exc = None

    # -- scalars and containers
    def api_PyObject_IsTrue(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        p = self.ev(a[0], st)
        self.obj(p, st, e)
        spec = self.spec_of(p)
        alts = []
        f = self.fault(e, st, 'PyObject_IsTrue')
        if f is not None:
            f.exc = 'truth'
            alts.append((-1, f))
        if spec is not None and spec.kind in ('bool', 'int'):
            alts.append((int(bool(spec.value)), st.copy()))
        elif spec is not None and spec.kind in ('list', 'tuple'):
            alts.append((int(bool(spec.items)), st.copy()))
        else:
            alts.append((1, st.copy()))
        return self.choose(st, alts)

    def check_kind(self, e, a, st, kinds):
        p = self.ev(a[0], st)
        self.obj(p, st, e)
        s = self.spec_of(p)
        return int(s is not None and s.kind in kinds)

    def api_PyLong_Check(self, e, a, st):
        return self.check_kind(e, a, st, ('int', 'bool'))

    def api_PyFloat_Check(self, e, a, st):
        return self.check_kind(e, a, st, ('float',))

    def api_PyList_Check(self, e, a, st):
        return self.check_kind(e, a, st, ('list',))

    def api_PyTuple_Check(self, e, a, st):
        return self.check_kind(e, a, st, ('tuple',))

    def api_PyLong_AsLong(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        p = self.ev(a[0], st)
        self.obj(p, st, e)
        s = self.spec_of(p)
        alts = []
        f = self.fault(e, st, 'PyLong_AsLong')
        if f is not None:
            f.exc = 'overflow'
            alts.append((-1, f))
        if s is not None and s.kind in ('int', 'bool'):
            alts.append((int(s.value), st.copy()))
        else:
            s2 = st.copy()
            s2.exc = 'type'
            alts.append((-1, s2))
        return self.choose(st, alts)

    def api_PyFloat_AsDouble(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        p = self.ev(a[0], st)
        self.obj(p, st, e)
        s = self.spec_of(p)
        alts = []
        f = self.fault(e, st, 'PyFloat_AsDouble')
        if f is not None:
            f.exc = 'type'
            alts.append((-1.0, f))
        if s is not None and s.kind in ('float', 'int', 'bool'):
            alts.append((tok('arg', '.'.join(map(str, p.o[1:]))), st.copy()))
        else:
            s2 = st.copy()
            s2.exc = 'type'
            alts.append((-1.0, s2))
        return self.choose(st, alts)

    def items(self, e, a, st, kind):
        p = self.ev(a[0], st)
        r = self.obj(p, st, e)
        s = self.spec_of(p)
        if s is None or s.kind != kind:
            return p, None
        return p, s.items

    def size_of(self, e, a, st, kind):
        p, it = self.items(e, a, st, kind)
        if it is None:
            st.exc = 'type'
            return -1
        return len(it)

    def api_PyList_Size(self, e, a, st):
        return self.size_of(e, a, st, 'list')

    def api_PyTuple_Size(self, e, a, st):
        return self.size_of(e, a, st, 'tuple')

    def get_item(self, e, a, st, kind):
        p, it = self.items(e, a, st, kind)
        i = self.ev(a[1], st)
        if it is None or not isinstance(i, int) or not 0 <= i < len(it):
            if it is not None:
                # the macro versions do not check the index
                self.viol('bounds', e, 'item %s of a %s of %d items' % (i, kind, len(it)))
            st.exc = 'index'
            return NULL
        return self.make_py(p.o[1:] + (i,), it[i], st)

    def api_PyList_GetItem(self, e, a, st):
        return self.get_item(e, a, st, 'list')

    def api_PyTuple_GetItem(self, e, a, st):
        return self.get_item(e, a, st, 'tuple')

    # -- memory blocks
    def alloc(self, e, st, size, what, dflt=UNINIT):
        if not isinstance(size, int):
            self.viol('bounds', e, 'size of the allocated memory cannot be bounded')
            raise Dead()
        alts = []
        big = size < 0 or size > (1 << 40)
        f = st.copy() if big else self.fault(e, st, what)
        if f is not None:
            alts.append((NULL, f))
        if not big:
            s = st.copy()
            site = ('H', self.fn(), e.id)
            n = s.number(site)
            oid = ('H', (self.fn(), e.id, n))
            r = Rec('heap', 'block of %s' % self.fn(), size, dflt)
            r.refs = 1
            r.site = (self.fn(), e.line, src(e))
            s.new(oid, r)
            alts.append((Ptr(oid), s))
        return self.choose(st, alts)

    def api_malloc(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        return self.alloc(e, st, self.ev(a[0], st), 'malloc')

    api_PyMem_Malloc = api_malloc
    api_PyMem_RawMalloc = api_malloc

    def api_calloc(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        n, m = self.ev(a[0], st), self.ev(a[1], st)
        return self.alloc(e, st, n * m if isinstance(n, int) and isinstance(m, int) else None,
                          'calloc', 0)

    api_PyMem_Calloc = api_calloc

    def api_realloc(self, e, a, st):
        if self.replay():
            return self.choose(st, None)
        p, n = self.ev(a[0], st), self.ev(a[1], st)
        old = None
        if p != NULL:
            old = self.obj(p, st, e)
        alts = []
        f = self.fault(e, st, 'realloc')
        if f is not None:
            alts.append((NULL, f))
        s = st.copy()
        oid = ('H', (self.fn(), e.id, s.number(('H', self.fn(), e.id))))
        r = Rec('heap', 'block of %s' % self.fn(), n)
        r.refs = 1
        r.site = (self.fn(), e.line, src(e))
        if old is not None:
            r.cells = {k: v for k, v in old.cells.items() if k < n}
            w = s.w(p.o)
            w.alive, w.refs = False, 0
        s.new(oid, r)
        alts.append((Ptr(oid), s))
        return self.choose(st, alts)

    api_PyMem_Realloc = api_realloc

    def api_free(self, e, a, st):
        p = self.ev(a[0], st)
        if p == NULL:
            return None
        if p is UNINIT or not isinstance(p, Ptr) or p.o is None:
            self.viol('over-release', e, 'release of an invalid pointer')
            raise Dead()
        r = st.mem.get(p.o)
        if r is None or r.kind != 'heap' or p.off != 0:
            self.viol('over-release', e, 'released memory was not allocated by malloc')
            raise Dead()
        if not r.alive:
            self.viol('over-release', e, 'memory is released twice')
            raise Dead()
        w = st.w(p.o)
        w.alive, w.refs = False, 0
        w.cells = {}
        return None

    def api_memmove(self, e, a, st):
        return self.api_memcpy(e, a, st)

    api_PyMem_Free = api_free
    api_PyMem_RawFree = api_free

    def region(self, p, n, st, e, write):
        """checked range of memory -> record, offset"""
        if not isinstance(n, int):
            self.viol('bounds', e, 'number of bytes cannot be bounded')
            raise Dead()
        if n == 0 and isinstance(p, Ptr) and p.o is None:
            return None, 0
        r = self.obj(p, st, e)
        self.stats['accesses'] += 1
        if r.arr is not None:
            a = r.arr
            item = ITEM.get(a.typenum, 8)
            if n == item:
                self.elem(r, p.off, item, e)
            elif not a.contig:
                self.viol('layout', e, '"%s" accessed as a contiguous block' % a.name)
                raise Dead()
            elif not isinstance(p.off, int) or p.off < 0 or p.off + n > item * a.count():
                self.viol('bounds', e, '%d bytes of "%s" with %d elements accessed'
                          % (n, a.name, a.count()))
                raise Dead()
            if write and a.origin == 'in' and not a.writable:
                self.viol('input-write', e, 'the input "%s" is modified' % a.name)
        else:
            self.range(r, p.off, n, e)
        return r, p.off

    def api_memset(self, e, a, st):
        p, c, n = [self.ev(x, st) for x in a[:3]]
        r, off = self.region(p, n, st, e, True)
        if r is None or n == 0:
            return p
        w = st.w(p.o)
        if r.arr is not None:
            item = ITEM.get(r.arr.typenum, 8)
            v = 0.0 if c == 0 else tok('memset', c)
            for k in range(0, n, item):
                w.cells[self.elem(r, ladd(off, k), item, e)] = v
            return p
        for k in [k for k in w.cells if off <= k < off + n]:
            del w.cells[k]
        if off == 0 and n == r.size and c == 0:
            w.dflt = 0
        else:
            for k in range(off, off + n, 8 if (off % 8 == 0 and n % 8 == 0) else 4 if n % 4 == 0 else 1):
                w.cells[k] = 0 if c == 0 else tok('memset', c)
        return p

    def api_memcpy(self, e, a, st):
        d, s_, n = [self.ev(x, st) for x in a[:3]]
        r1, o1 = self.region(d, n, st, e, True)
        r2, o2 = self.region(s_, n, st, e, False)
        if not n or r1 is None or r2 is None:
            return d
        vals = {}
        if r2.arr is not None:
            item = ITEM.get(r2.arr.typenum, 8)
            t = ('flt', 8) if item == 8 and r2.arr.typenum == 12 else ('int', item, True)
            for k in range(0, n, item):
                vals[k] = self.load(Ptr(s_.o, ladd(o2, k)), t, st, e)
        else:
            vals = {k - o2: v for k, v in r2.cells.items() if isinstance(k, int) and o2 <= k < o2 + n}
            if r2.dflt is not UNINIT:
                for k in range(0, n, 8):
                    vals.setdefault(k, r2.dflt)
            elif r1.arr is not None and len(vals) < n // 8:
                self.viol('uninit', e, 'unassigned memory is copied')
        w = st.w(d.o)
        if r1.arr is not None:
            item = ITEM.get(r1.arr.typenum, 8)
            for k, v in vals.items():
                w.cells[self.elem(r1, ladd(o1, k), item, e)] = v
        else:
            for k in [k for k in w.cells if o1 <= k < o1 + n]:
                del w.cells[k]
            for k, v in vals.items():
                w.cells[o1 + k] = v
        return d

    api_memmove = api_memcpy

    def api_strlen(self, e, a, st):
        s = self.strz(self.ev(a[0], st), st, e)
        return len(s) if s is not None else tok('strlen', isint=True)

    def api_strcmp(self, e, a, st):
        x, y = [self.strz(self.ev(q, st), st, e) for q in a[:2]]
        if x is None or y is None:
            return tok('strcmp', isint=True)
        return (x > y) - (x < y)

    def api_snprintf(self, e, a, st):
        p, n = self.ev(a[0], st), self.ev(a[1], st)
        for x in a[2:]:
            self.ev(x, st)
        if not isinstance(n, int):
            self.viol('bounds', e, 'number of bytes cannot be bounded')
            raise Dead()
        r, off = self.region(p, n, st, e, True)
        if n > 0 and r is not None:
            w = st.w(p.o)
            for k in range(off, off + n):
                w.cells[k] = 0 if k == off + n - 1 else 63
        return n - 1

    def api_sprintf(self, e, a, st):
        p = self.ev(a[0], st)
        fmt = self.strz(self.ev(a[1], st), st, e) or ''
        n = len(fmt) + 1
        for x in a[2:]:
            v = self.ev(x, st)
            n += 24
            if isinstance(v, Ptr) and v.o is not None:
                s = self.strz(v, st, e)
                n += len(s) if s is not None else 1 << 30
        r, off = self.region(p, n, st, e, True)
        w = st.w(p.o)
        for k in range(off, off + n):
            w.cells[k] = 0 if k == off + n - 1 else 63
        return n - 1

    def api_abs(self, e, a, st):
        v = self.ev(a[0], st)
        return abs(v) if isinstance(v, (int, float)) else tok('abs', v, isint=True)

    def lround(self, e, a, st):
        v = self.ev(a[0], st)
        if isinstance(v, float):
            if not math.isfinite(v):
                raise Unsupported('rounding of a value which is not finite')
            return MATH1['round' if 'round' in src(e)[:8] else 'rint'](v)
        return tok('toint', tok('round', v), isint=True)

    api_lround = lround
    api_llround = lround
    api_lrint = lround
    api_llrint = lround

    api_labs = api_abs
    api_llabs = api_abs

    def nan(self, e, a, st):
        return math.nan
    api___builtin_nanf = nan
    api___builtin_nan = nan
    api_nan = nan

    def inf(self, e, a, st):
        return math.inf
    api___builtin_inff = inf
    api___builtin_inf = inf
    api___builtin_huge_val = inf

    def pred(self, op, f, e, a, st):
        v = self.ev(a[0], st)
        if isinstance(v, int):
            v = float(v)
        if isinstance(v, float):
            return int(f(v))
        return tok(op, v, isint=True)

    def api___builtin_isfinite(self, e, a, st):
        return self.pred('isfinite', math.isfinite, e, a, st)

    def api___builtin_isnan(self, e, a, st):
        return self.pred('isnan', math.isnan, e, a, st)

    api_isnan = api___isnan = api___builtin_isnan
    api_isfinite = api_finite = api___builtin_isfinite

    def api___builtin_isinf(self, e, a, st):
        return self.pred('isinf', math.isinf, e, a, st)

    api___builtin_isinf_sign = api___builtin_isinf

    def api_PyEval_SaveThread(self, e, a, st):
        oid = ('X', 'thread')
        if oid not in st.mem:
            st.new(oid, Rec('ext', 'thread', 8))
        return Ptr(oid)

    def api_PyEval_RestoreThread(self, e, a, st):
        return None

    def api_get_qdipole_max_fname_lenght(self, e, a, st):
        return 1023

    def external(self, name, e, st):
        if name.startswith('c_eval_'):
            return self.c_eval(name, e, st)
        raise Unsupported('function %s called from %s' % (name, self.fn()))

    def c_eval(self, name, e, st):
        """wrapper of a Fortran routine: pointers to n elements, n the integer argument"""
        if self.replay():
            return self.choose(st, None)
        fd = self.tu.fdecls[name]
        params = [c for c in fd.inner if c.kind == 'ParmVarDecl']
        vals = [self.ev(x, st) for x in e.inner[1:]]
        n = None
        for p, v in zip(params, vals):
            if self.types.parse(p.type)[0] == 'int':
                n = v
        if not isinstance(n, int):
            self.viol('bounds', e, 'number of elements cannot be bounded')
            raise Dead()
        s = st.copy()
        outs, ins, other = [], [], []
        for k, (p, v) in enumerate(zip(params, vals)):
            t = self.types.parse(p.type)
            if t[0] == 'ptr' and t[1][0] == 'flt':
                if n > 0:
                    r, off = self.region(v, 8 * n, s, e, 'const' not in p.type)
                    if r.arr is None:
                        raise Unsupported('Fortran routine working on a memory block')
                (ins if 'const' in p.type else outs).append((k, v))
            elif t[0] == 'ptr':
                self.obj(v, st, e)
        for i in range(max(n, 0)):
            args = [self.load(Ptr(v.o, ladd(v.off, 8 * i)), ('flt', 8), s, e) for k, v in ins]
            for k, v in outs:
                self.store(Ptr(v.o, ladd(v.off, 8 * i)), tok('ext', name, k, *args), ('flt', 8), s, e)
        alts = [(0, s)]
        f = self.fault(e, st, name)
        if f is not None:
            alts.append((1, f))
        return self.choose(st, alts)


def under(st, c, truth):
    s = st.copy()
    s.path += ((c, truth),)
    return s


class Val:
    """already evaluated argument"""
    kind = 'Val'

    def __init__(self, v, n):
        self.v, self.node = v, n
        self.inner, self.a = n.inner, {'_p': True, 'opcode': None}
        self.type, self.file, self.line, self.id, self.ref = n.type, n.file, n.line, n.id, n.ref


# calls which never fork
NOFORK_API = {'PyArray_NDIM', 'PyArray_DIM', 'PyArray_DIMS', 'PyArray_DATA', 'PyArray_STRIDE',
              'PyArray_STRIDES', 'PyArray_SIZE', 'PyErr_Format', 'PyErr_SetString', 'free', 'memset',
              'memcpy', 'strlen', 'snprintf', 'abs', 'Py_DECREF_', 'Py_INCREF_', 'Py_XDECREF_',
              'Py_XINCREF_', 'PyErr_Occurred', '__builtin_nanf', '__builtin_isfinite',
              '__builtin_isnan', '__builtin_inff', 'PyArray_DescrFromType', 'PyList_Size',
              'PyTuple_Size', 'PyList_Check', 'PyTuple_Check', 'PyLong_Check', 'PyFloat_Check',
              'get_qdipole_max_fname_lenght', 'PyArray_TYPE', 'PyArray_ITEMSIZE'}


def pure(e):
    """the evaluation never forks"""
    p = e.a.get('_p')
    if p is None:
        p = True
        if e.kind == 'ConditionalOperator':
            p = False
        elif e.kind == 'BinaryOperator' and e.a.get('opcode') in ('&&', '||'):
            p = all(pure(x) for x in e.inner)
        elif e.kind == 'CallExpr':
            r = e.inner[0]
            while r.inner:
                r = r.inner[0]
            nm = r.ref[2] if r.ref else None
            p = (nm in NOFORK_API or nm in MATH1 or nm in MATH2 or nm in MATH3) \
                and all(pure(x) for x in e.inner[1:])
        else:
            p = all(pure(x) for x in e.inner)
        e.a['_p'] = p
    return p


def unq(v):
    import ast as pyast
    if v is None:
        return ''
    if v.startswith(('L"', 'u"', 'U"')):
        v = v[1:]
    try:
        return pyast.literal_eval(v)
    except (ValueError, SyntaxError):
        return v.strip('"')


def src(n):
    """normalised text of an expression or statement"""
    if n is None:
        return ''
    if n.kind == 'Val':
        n = n.node
    k = n.kind
    i = n.inner
    if k in ('ImplicitCastExpr', 'ConstantExpr', 'ExprWithCleanups'):
        return src(i[0])
    if k == 'ParenExpr':
        return '(%s)' % src(i[0])
    if k == 'CStyleCastExpr':
        return '(%s)%s' % (n.a.get('qt') or n.type, src(i[0]))
    if k == 'DeclRefExpr':
        return n.ref[2]
    if k in ('IntegerLiteral', 'FloatingLiteral', 'StringLiteral', 'CharacterLiteral'):
        return str(n.a.get('value'))
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        return '%s %s %s' % (src(i[0]), n.a['opcode'], src(i[1]))
    if k == 'UnaryOperator':
        return '%s%s' % (src(i[0]), n.a['opcode']) if n.a.get('isPostfix') else \
            '%s%s' % (n.a['opcode'], src(i[0]))
    if k == 'MemberExpr':
        return '%s%s%s' % (src(i[0]), '->' if n.a.get('isArrow') else '.', n.a.get('name'))
    if k == 'ArraySubscriptExpr':
        return '%s[%s]' % (src(i[0]), src(i[1]))
    if k == 'CallExpr':
        return '%s(%s)' % (src(i[0]), ', '.join(src(x) for x in i[1:]))
    if k == 'ConditionalOperator':
        return '%s ? %s : %s' % tuple(src(x) for x in i[:3])
    if k == 'UnaryExprOrTypeTraitExpr':
        return 'sizeof(%s)' % (n.a.get('argType') or ' '.join(src(x) for x in i))
    if k == 'VarDecl':
        return '%s %s' % (n.type, n.a.get('name'))
    if k == 'ReturnStmt':
        return 'return ' + ' '.join(src(x) for x in i)
    if k == 'InitListExpr':
        return '{...}'
    return k
