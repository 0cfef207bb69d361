"""Abstract interpreter of the Fortran evaluation routines.

Domain: every scalar (and every array element; the array sizes read from the
coefficients file are analysed for a set of small concrete dimensions) carries
  * an interval with a NaN flag             (reachability of STOP/EXIT, indices)
  * the set of atoms the value depends on   (point/history independence)
  * an identity (hash-consed expression)    (which key a cached value belongs to)
One generic iteration of the point loop is interpreted from an inferred loop
invariant.  Atoms: ('in', array, index-id) an element of an input array,
('arg', name) a scalar argument, ('file', id) content of the coefficients file,
('old', key) the value the location had before the current iteration,
('uninit', name) an undefined local variable.
Nothing is executed: conditions which are not decided by the intervals take
both branches.
"""
import math
import re

from fparse import FortranError, Stmt, parse_expr

INF = math.inf
EMPTY = frozenset()
_symtab = {}


def mksym(*t):
    """hash-consed identity of a value (None: no identity)"""
    for x in t:
        if x is None:
            return None
    n = _symtab.get(t)
    if n is None:
        depth = 1 + max([x[0] for x in t if isinstance(x, tuple) and x and isinstance(x[0], int)
                         and len(x) == 2 and isinstance(x[1], tuple)] or [0])
        if depth > 12:
            return None
        n = _symtab[t] = (depth, t)
    return n


class Val:
    __slots__ = ('lo', 'hi', 'nan', 'deps', 'sym')

    def __init__(self, lo=-INF, hi=INF, nan=True, deps=EMPTY, sym=None):
        self.lo = lo
        self.hi = hi
        self.nan = nan
        self.deps = deps
        self.sym = sym

    def const(self):
        return self.lo if self.lo == self.hi and not self.nan else None

    def key(self):
        return (self.lo, self.hi, self.nan, self.deps, self.sym)

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Val[%s,%s%s %s %s]' % (self.lo, self.hi, ' nan' if self.nan else '',
                                       sorted(map(str, self.deps)), self.sym)

    def withdeps(self, deps):
        if deps <= self.deps:
            return self
        return Val(self.lo, self.hi, self.nan, self.deps | deps, self.sym)


def num(x):
    return Val(x, x, False, EMPTY, mksym('c', x))


def root_of(sym):
    """atom a value is a plain copy (or precision conversion) of"""
    while sym is not None:
        t = sym[1]
        if t[0] == 'f' and t[1] == 'conv':
            sym = t[3]
        elif t[0] in ('in', 'let', 'arg'):
            return t
        elif t[0] == 'trim':
            sym = t[1]
        else:
            return None
    return None


def vjoin(a, b, cdeps=EMPTY):
    if a is b or a == b:
        return a
    return Val(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan, a.deps | b.deps | cdeps,
               a.sym if a.sym == b.sym else None)


class Arr:
    """array: element map + value of the elements not in the map"""
    __slots__ = ('bounds', 'elems', 'default', 'const', 'name')

    def __init__(self, name, bounds, default, elems=None, const=False):
        self.name = name
        self.bounds = bounds      # list of (lo, hi) or None when unknown
        self.default = default
        self.elems = elems or {}
        self.const = const

    def copy(self):
        return Arr(self.name, self.bounds, self.default, dict(self.elems), False)

    def indices(self):
        if self.bounds is None:
            return None
        out = [()]
        for lo, hi in self.bounds:
            out = [x + (k,) for x in out for k in range(lo, hi + 1)]
        return out

    def summary(self):
        v = None
        idx = self.indices()
        if idx is None or len(idx) > len(self.elems):
            v = self.default
        for e in self.elems.values():
            v = e if v is None else vjoin(v, e)
        return v if v is not None else Val()


def ajoin(a, b, cdeps):
    if a is b:
        return a
    if a.bounds is None and not a.elems:
        return b if a.default is None else _aj(a, b, cdeps)
    return _aj(a, b, cdeps)


def _dj(a, b, cdeps):
    if a is None:
        return b
    if b is None:
        return a
    return vjoin(a, b, cdeps)


def _aj(a, b, cdeps):
    r = Arr(a.name, a.bounds if a.bounds == b.bounds else (a.bounds or b.bounds), None)
    r.default = _dj(a.default, b.default, cdeps)
    for k in set(a.elems) | set(b.elems):
        x = a.elems.get(k, a.default)
        y = b.elems.get(k, b.default)
        r.elems[k] = _dj(x, y, cdeps)
    return r


class State:
    __slots__ = ('store', 'facts', 'fail', 'outs', 'units', 'inlog')

    def __init__(self):
        self.store = {}
        self.facts = frozenset()    # ('eq', oldkey, sym) / ('near', oldkey, sym)
        self.fail = EMPTY           # unhandled failures of library calls
        self.outs = {}              # output array -> index sym written
        self.units = {}

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = self.facts
        s.fail = self.fail
        s.outs = dict(self.outs)
        s.units = dict(self.units)
        return s


def sjoin(a, b, cdeps=EMPTY, widen=False):
    if a is b:
        return a
    r = State()
    for k in set(a.store) | set(b.store):
        x = a.store.get(k)
        y = b.store.get(k)
        if x is None or y is None:
            r.store[k] = x if y is None else y
        elif x is y:
            r.store[k] = x
        elif isinstance(x, Arr):
            r.store[k] = ajoin(x, y, cdeps)
        else:
            v = vjoin(x, y, cdeps)
            r.store[k] = v
    r.facts = a.facts & b.facts
    r.fail = a.fail | b.fail
    r.outs = {k: v for k, v in a.outs.items() if b.outs.get(k) == v}
    r.units = dict(a.units)
    r.units.update(b.units)
    return r


def widen(a, b):
    """a: previous, b: new (joined)"""
    for k, y in list(b.store.items()):
        x = a.store.get(k)
        if isinstance(y, Val) and isinstance(x, Val) and x != y:
            lo = y.lo if y.lo >= x.lo else -INF
            hi = y.hi if y.hi <= x.hi else INF
            b.store[k] = Val(lo, hi, y.nan, y.deps, y.sym)
        elif isinstance(y, Arr) and isinstance(x, Arr) and x is not y:
            n = y.copy()
            for i, v in n.elems.items():
                w = x.elems.get(i, x.default)
                if w is not None and w != v:
                    n.elems[i] = Val(v.lo if v.lo >= w.lo else -INF, v.hi if v.hi <= w.hi else INF,
                                     v.nan, v.deps, v.sym)
            b.store[k] = n
    return b


def same(a, b):
    if set(a.store) != set(b.store) or a.facts != b.facts or a.fail != b.fail:
        return False
    for k, x in a.store.items():
        y = b.store[k]
        if x is y:
            continue
        if isinstance(x, Arr):
            if not isinstance(y, Arr) or x.default != y.default or x.elems != y.elems:
                return False
        elif x != y:
            return False
    return True


class Violation:
    def __init__(self, rule, proc, text, msg):
        self.rule, self.proc, self.text, self.msg = rule, proc, text, msg

    def key(self):
        return (self.rule, self.proc, self.text[:200])


class Unsupported(FortranError):
    pass


class Frame:
    def __init__(self, proc, fid):
        self.proc = proc
        self.fid = fid
        self.bind = {}      # dummy name -> ('loc', key) | ('elem', key, idx|None, subsvals) | ('val', Val)


# procedures whose subscripts are bounded by calendar arithmetic (the number of the
# remaining days), which intervals cannot express
CALENDAR = {'tjuda'}
# order of the integers of the first line of the coefficients file
DIMS = ['nepoch', 'nmax', 'mmax', 'lmax', 'nterm']
DAY = 1.01 / 365.25
R4 = 1.2e-7
R8 = 2.3e-16


class FInterp:
    MAXGROUPS = 80

    def __init__(self, prog, dims, inputs, outputs, scalars):
        self.prog = prog
        self.dims = dims            # names -> concrete values of the integers read from a file
        self.inputs = set(inputs)
        self.outputs = set(outputs)
        self.scalars = set(scalars)
        self.viols = {}
        self.stats = {'statements': 0, 'calls': set(), 'guards': 0, 'stops': 0, 'io': 0,
                      'indices': 0}
        self.fid = 0
        self.stack = []
        self.entry = None
        self.budget = 3000000
        self.lets = {}
        self.symlet = {}
        self.initvals = {}
        self.keyiv = {}
        self.logicals = set()

    # ------------------------------------------------------------- reporting
    def viol(self, rule, st, msg):
        proc = st.proc.name if st is not None else (self.entry or '?')
        v = Violation(rule, proc, st.text if st is not None else '', msg)
        self.viols.setdefault(v.key(), v)

    # ------------------------------------------------------------- locations
    def symof(self, fr, name):
        s = fr.proc.syms.get(name)
        if s is None:
            raise Unsupported('unknown symbol %s:%s' % (fr.proc.name, name))
        return s

    def loc(self, fr, name):
        """storage key of a variable in the given frame (or its binding)"""
        if name in fr.bind:
            return fr.bind[name]
        s = self.symof(fr, name)
        if s.module:
            return ('loc', 'mod:%s:%s' % (s.module, name))
        if s.common is not None:
            return ('loc', 'com:%s:%d' % (s.common, s.cpos))
        for grp in fr.proc.equiv:
            if name in grp:
                return ('loc', 'sav:%s:%s' % (fr.proc.name, name))
        if s.attrs & {'EXPLICIT-SAVE', 'IMPLICIT-SAVE', 'DATA', 'SAVE'} or (
                s.value is not None and 'PARAMETER' not in s.attrs):
            return ('loc', 'sav:%s:%s' % (fr.proc.name, name))
        return ('loc', 'l%d:%s:%s' % (fr.fid, fr.proc.name, name))

    def bounds_of(self, st, fr, s):
        if s.rank == 0:
            return None
        if s.assumed == 'AS_EXPLICIT':
            from fparse import parse_exprs
            es = parse_exprs(s.bounds)
            out = []
            for k in range(s.rank):
                lo = self.ev(st, fr, es[2 * k]).const()
                hi = self.ev(st, fr, es[2 * k + 1]).const()
                if lo is None or hi is None:
                    return None
                out.append((int(lo), int(hi)))
            return out
        return None

    def initial(self, st, fr, s, key):
        """first reference of a location: its initial content"""
        data = None
        if s.module and s.value is None:
            ms = self.modsym(s)
            if ms is not None and ms.value is not None and 'PARAMETER' not in ms.attrs:
                data = ms.value
        if s.value is not None and 'PARAMETER' not in s.attrs:
            data = s.value
        if s.rank:
            b = self.bounds_of(st, fr, s)
            if data is not None:
                m = re.match(r'^\(/ (.*) /\)$', data)
                if m:
                    vals = [float(re.sub(r'_\d+$', '', x.strip())) for x in m.group(1).split(',')]
                    if b is not None and len(b) == 1:
                        el = {}
                        if len(vals) <= 64:
                            for k, v in enumerate(vals):
                                el[(b[0][0] + k,)] = num(v)
                        return Arr(s.name, b, Val(min(vals), max(vals), False), el)
                raise Unsupported('DATA of %s' % s.name)
            persistent = not key.startswith('l')
            d = Val(deps=frozenset([('uninit', s.name)])) if not persistent else None
            if persistent and self.in_equiv(fr, s.name):
                d = Val(nan=False)       # equivalenced with a DATA array, checked by init_check
            if 'ALLOCATABLE' in s.attrs:
                return Arr(s.name, None, None)
            if d is None:
                d = Val(deps=frozenset([('init', key)]))
            return Arr(s.name, b, d)
        if data is not None:
            e = parse_expr(data)
            if e[0] == 'log':
                self.logicals.add(key)
                return num(1 if e[1] else 0)
            if e[0] == 'str':
                return Val(0, 0, False, EMPTY, mksym('s', e[1].strip()))
            return self.ev(st, fr, e)
        if key.startswith('l'):
            return Val(deps=frozenset([('uninit', s.name)]), sym=mksym('uninit', key))
        return Val(deps=frozenset([('init', key)]), sym=mksym('init', key))

    def modsym(self, s):
        m = self.prog.procs.get(s.module)
        return m.syms.get(s.name) if m is not None else None

    def in_equiv(self, fr, name):
        for grp in fr.proc.equiv:
            if name in grp:
                return any(fr.proc.syms[x].value is not None for x in grp if x in fr.proc.syms)
        return False

    def get(self, st, fr, name):
        b = self.loc(fr, name)
        if b[0] == 'loc':
            if b[1] not in st.store:
                st.store[b[1]] = self.initvals[b[1]] = self.initial(st, fr, self.symof(fr, name), b[1])
            return b, st.store[b[1]]
        if b[0] == 'val':
            return b, b[1]
        if b[0] == 'elem':
            return b, None
        raise Unsupported(repr(b))

    # ------------------------------------------------------------ expressions
    def rnd(self, lo, hi, typ):
        e = R4 if typ == 4 else R8
        if lo > -INF:
            lo = lo - abs(lo) * e
        if hi < INF:
            hi = hi + abs(hi) * e
        return lo, hi

    def ev(self, st, fr, e):
        k = e[0]
        if k == 'num':
            t = re.sub(r'_\d+$', '', e[1])
            return num(float(t) if ('.' in t or 'e' in t) else int(t))
        if k == 'str':
            return Val(0, 0, False, EMPTY, mksym('s', e[1].strip()))
        if k == 'log':
            return num(1 if e[1] else 0)
        if k == 'var':
            return self.read(st, fr, e)
        if k == 'op':
            return self.op(st, fr, e)
        if k == 'call':
            return self.fcall(st, fr, e)
        if k == 'ctor':
            return Val(deps=EMPTY, sym=None)
        if k == 'arrc':
            v = None
            for x in e[1]:
                w = self.ev(st, fr, x)
                v = w if v is None else vjoin(v, w)
            return v
        if k == 'absent':
            return num(0)
        raise Unsupported('expression %r' % (e,))

    def isint(self, fr, e):
        """integer typed expression?"""
        k = e[0]
        if k == 'num':
            return '.' not in e[1] and 'e' not in e[1] and not e[1].endswith('_8') or (
                e[1].endswith('_8') and '.' not in e[1] and 'e' not in e[1] and self._i8ctx)
        if k == 'var':
            s = fr.proc.syms.get(e[2])
            return s is not None and s.type is not None and s.type.startswith('INTEGER')
        if k == 'op':
            if e[1] in ('==', '/=', '<', '>', '<=', '>=', 'AND', 'OR', 'NOT'):
                return False
            return all(self.isint(fr, x) for x in e[2:])
        if k == 'call':
            n = e[1]
            if re.match(r'^(__nint|__floor|__ceiling|__int|_gfortran_idint|_gfortran_ifix)', n):
                return True
            if re.match(r'^__(convert|abs|min|max|mod|sign)_?\w*i[48]$', n) and \
                    re.search(r'i[48]$', n):
                return True
            r = self.prog.find(n)
            if r:
                s = r[0].syms.get(n)
                return s is not None and (s.type or '').startswith('INTEGER')
            return False
        return False

    _i8ctx = False

    def op(self, st, fr, e):
        o = e[1]
        if o in ('AND', 'OR'):
            vs = [self.ev(st, fr, x) for x in e[2:]]
            deps = frozenset().union(*[v.deps for v in vs])
            if o == 'AND':
                lo = min(v.lo for v in vs)
                hi = min(v.hi for v in vs)
            else:
                lo = max(v.lo for v in vs)
                hi = max(v.hi for v in vs)
            return Val(max(lo, 0), min(hi, 1), False, deps)
        if o == 'NOT':
            v = self.ev(st, fr, e[2])
            return Val(1 - min(v.hi, 1), 1 - max(v.lo, 0), False, v.deps)
        if o in ('==', '/=', '<', '>', '<=', '>='):
            a = self.ev(st, fr, e[2])
            b = self.ev(st, fr, e[3])
            return self.compare(o, a, b, st)
        if o == 'U-':
            a = self.ev(st, fr, e[2])
            return Val(-a.hi, -a.lo, a.nan, a.deps, mksym('neg', a.sym))
        if o == 'U+':
            return self.ev(st, fr, e[2])
        a = self.ev(st, fr, e[2])
        b = self.ev(st, fr, e[3])
        it = self.isint(fr, e[2]) and self.isint(fr, e[3])
        return self.arith(o, a, b, it, fr, e)

    def arith(self, o, a, b, it, fr=None, e=None):
        deps = a.deps | b.deps
        sym = mksym(o, a.sym, b.sym)
        nan = a.nan or b.nan
        lo, hi = -INF, INF
        if o == '+':
            lo, hi = a.lo + b.lo, a.hi + b.hi
            if a.const() == 0:
                sym = b.sym
            elif b.const() == 0:
                sym = a.sym
        elif o == '-':
            lo, hi = a.lo - b.hi, a.hi - b.lo
            if b.const() == 0:
                sym = a.sym
        elif o == '*':
            if a.const() == 0 or b.const() == 0:
                # the cached work arrays hold finite numbers
                return Val(0, 0, False, EMPTY, mksym('c', 0))
            ps = []
            for x in (a.lo, a.hi):
                for y in (b.lo, b.hi):
                    p = 0 if x == 0 or y == 0 else x * y
                    ps.append(p)
            lo, hi = min(ps), max(ps)
        elif o == '/':
            if b.lo > 0 or b.hi < 0:
                ps = []
                for x in (a.lo, a.hi):
                    for y in (b.lo, b.hi):
                        if abs(y) == INF:
                            ps.append(0.0 if abs(x) < INF else x)
                        else:
                            ps.append(x / y)
                        if abs(x) == INF and abs(y) == INF:
                            ps += [-INF, INF]
                lo, hi = min(ps), max(ps)
                if it:
                    lo = math.trunc(lo) if abs(lo) < INF else lo
                    hi = math.trunc(hi) if abs(hi) < INF else hi
            elif not it:
                nan = True
        elif o == '**':
            if b.const() is not None and float(b.const()).is_integer() and 0 <= b.const() <= 8:
                n = int(b.const())
                if max(abs(a.lo), abs(a.hi)) < 1e30:
                    ps = [a.lo ** n, a.hi ** n]
                    lo, hi = min(ps), max(ps)
                    if n % 2 == 0:
                        lo = 0 if a.lo <= 0 <= a.hi else lo
                elif n % 2 == 0:
                    lo = 0
            elif a.lo > 0:
                lo = 0
        elif o == '//':
            return Val(0, 0, False, deps, sym)
        else:
            raise Unsupported('operator %s' % o)
        if math.isnan(lo):
            lo = -INF
        if math.isnan(hi):
            hi = INF
        if not it and o in '+-*/**':
            r8 = not self.is_r4(fr, e)
            if not (a.const() is not None and b.const() is not None):
                lo, hi = self.rnd(lo, hi, 8 if r8 else 4)
        if it:
            nan = False
        return Val(lo, hi, nan, deps, sym)

    def is_r4(self, fr, e):
        if e is None or fr is None:
            return True
        k = e[0]
        if k == 'num':
            return not e[1].endswith('_8')
        if k == 'var':
            s = fr.proc.syms.get(e[2])
            return s is None or s.type is None or not s.type.startswith('REAL 8')
        if k == 'op':
            return all(self.is_r4(fr, x) for x in e[2:])
        if k == 'call':
            return not (e[1].endswith('r8') or e[1].startswith('__dble'))
        return True

    def compare(self, o, a, b, st=None):
        deps = a.deps | b.deps
        if o in ('==', '/=') and (self.sentinel(a, b) or self.sentinel(b, a)):
            return num(0 if o == '==' else 1)
        if o in ('==', '/=') and st is not None:
            for x, y in ((a, b), (b, a)):
                if x.sym is not None and x.sym[1][0] == 'old' and y.sym is not None and \
                        ('eq', x.sym[1][1], y.sym) in st.facts:
                    return num(1 if o == '==' else 0)
        t = f = True      # may be true / may be false
        nan = a.nan or b.nan
        if o == '==':
            if a.sym is not None and a.sym == b.sym and not nan:
                f = False
            if a.hi < b.lo or b.hi < a.lo or self.distinct(a, b):
                t = False
            elif a.const() is not None and a.const() == b.const() and not self.isstr(a, b):
                f = False
        elif o == '/=':
            if a.sym is not None and a.sym == b.sym and not nan:
                t = False
            if (a.hi < b.lo or b.hi < a.lo or self.distinct(a, b)):
                f = False
            elif a.const() is not None and a.const() == b.const() and not self.isstr(a, b):
                t = False
        else:
            if o in ('>', '>='):
                a, b = b, a
                o = {'>': '<', '>=': '<='}[o]
            if o == '<':
                if a.lo >= b.hi:
                    t = False
                if a.hi < b.lo and not nan:
                    f = False
            else:
                if a.lo > b.hi:
                    t = False
                if a.hi <= b.lo and not nan:
                    f = False
                if not nan and a.sym is not None and b.sym is not None and (
                        a.sym == b.sym or (st is not None and ('le', a.sym, b.sym) in st.facts)):
                    f = False
        if not t and not f:
            t = f = True
        lo = 0 if f else 1
        hi = 1 if t else 0
        return Val(lo, hi, False, deps if lo != hi else EMPTY)

    @staticmethod
    def sentinel(a, b):
        """a is a constant no actual (finite, physical) value is equal to"""
        c = a.const()
        return c is not None and isinstance(c, float) and abs(c) >= 1e30 and b.const() is None

    @staticmethod
    def isstr(a, b):
        for x in (a, b):
            if x.sym is not None and x.sym[1][0] in ('s', 'trim', 'arg', 'old'):
                return True
        return False

    @staticmethod
    def distinct(a, b):
        """a string argument differs from the initial blank string?  unknown"""
        if a.sym is not None and b.sym is not None:
            ta, tb = a.sym[1], b.sym[1]
            if ta[0] == 's' and tb[0] == 's':
                return ta[1] != tb[1]
        return False

    def element(self, st, fr, e):
        """evaluates the subscripts -> list of Val or None for FULL"""
        subs = e[3]
        if subs is None or subs[0][0] == 'full':
            return None
        out = []
        for s in subs:
            if s[0] in ('range', 'full'):
                return None
            out.append(self.ev(st, fr, s))
        return out

    def read(self, st, fr, e):
        name = e[2]
        s = self.symof(fr, name)
        if 'PARAMETER' in s.attrs:
            return self.ev(st, fr, parse_expr(s.value))
        b, cur = self.get(st, fr, name)
        if b[0] == 'elem':
            return self.read_elem(st, b[1], b[2], None)
        if b[0] == 'val':
            return b[1]
        if isinstance(cur, Arr):
            subs = self.element(st, fr, e)
            if subs is None:
                return cur.summary() if cur.bounds or cur.elems or cur.default is not None \
                    else Val()
            return self.read_elem(st, b[1], subs, self.curst)
        if isinstance(cur, Val):
            return cur
        if isinstance(cur, tuple) and cur[0] == 'input':
            subs = self.element(st, fr, e)
            return self.read_input(cur[1], subs)
        raise Unsupported('read of %r' % (e,))

    def read_input(self, name, subs):
        if subs is None:
            isym = None
        else:
            isym = subs[0].sym
        v = Val(-1e30, 1e30, True, deps=frozenset([('in', name, isym)]),
                sym=mksym('in', name, isym))
        r = self.refined.get((name, isym))
        if r is not None:
            return Val(r[0], r[1], r[2], v.deps, v.sym)
        return v

    def read_elem(self, st, key, subs, stmt):
        cur = st.store[key]
        if isinstance(cur, tuple) and cur[0] == 'input':
            return self.read_input(cur[1], subs)
        cands = self.candidates(cur, subs, stmt)
        if cands is not None and len(cands) == 1:
            v = cur.elems.get(cands[0], cur.default)
            if v is not None and v.sym is not None and v.sym[1][0] == 'fileel':
                v = Val(v.lo, v.hi, v.nan, v.deps, mksym('fel', v.sym[1][1], cands[0]))
        elif cands is not None and len(cands) <= 400 and cur.elems:
            v = None
            for c in cands:
                w = cur.elems.get(c, cur.default)
                if w is not None:
                    v = w if v is None else vjoin(v, w)
        else:
            v = cur.summary()
        if v is None:
            v = Val()
        if subs:
            d = EMPTY
            for s in subs:
                d = d | s.deps
            if d and not (cands is not None and len(cands) == 1):
                v = Val(v.lo, v.hi, v.nan, v.deps | d, None)
        return v

    def candidates(self, arr, subs, stmt):
        if arr.bounds is None or subs is None or len(arr.bounds) != len(subs):
            return None
        self.stats['indices'] += 1
        out = [()]
        for (lo, hi), v in zip(arr.bounds, subs):
            if (v.lo < lo or v.hi > hi) and stmt is not None and stmt.proc.name not in CALENDAR:
                if v.hi < lo or v.lo > hi:
                    self.viol('index', stmt, 'subscript %s of array %s is outside of its bounds '
                              '%d:%d' % (_iv(v), arr.name, lo, hi))
                elif v.lo > -INF and v.hi < INF:
                    self.viol('index', stmt, 'subscript %s of array %s may leave its bounds %d:%d'
                              % (_iv(v), arr.name, lo, hi))
            a = max(lo, v.lo)
            b = min(hi, v.hi)
            if a > b:
                a, b = lo, hi
            out = [x + (k,) for x in out for k in range(int(math.ceil(a)), int(math.floor(b)) + 1)]
            if len(out) > 4000:
                return None
        return out

    # ---------------------------------------------------------------- calls
    def fcall(self, st, fr, e):
        n, args = e[1], e[2]
        base = re.sub(r'^_+(gfortran_)?', '', n)
        base = re.sub(r'(_[irlc]?\d+)+$', '', base)
        base = re.sub(r'^(floor|ceiling|nint|int)[48]$', r'\1', base)
        if base == 'ieee_value':
            return Val(nan=True, deps=EMPTY, sym=mksym('nan'))
        if base in ('allocated', 'present', 'associated'):
            return Val(0, 1, False)
        if base == 'size' or base in ('ubound', 'lbound'):
            return Val(0, INF, False)
        r = self.prog.find(n)
        if r is not None:
            return self.userfunc(st, fr, n, args)
        vs = [self.ev(st, fr, a) for a in args if a[0] != 'absent']
        deps = EMPTY
        for v in vs:
            deps = deps | v.deps
        nan = any(v.nan for v in vs)
        sym = mksym('f', n, *[v.sym for v in vs])
        a = vs[0] if vs else None
        if base in ('convert', 'real', 'dble', 'sngl', 'float', 'dfloat'):
            if a.const() is not None:
                return Val(a.lo, a.hi, a.nan, a.deps, a.sym)
            lo, hi = a.lo, a.hi
            if n.endswith(('r8_r4', 'sngl')) or base == 'real':
                lo, hi = self.rnd(lo, hi, 4)
            elif re.search(r'i[48]_r4$', n):
                lo, hi = self.rnd(lo, hi, 4)
            # conversions keep the identity (the same conversion of the same value)
            return Val(lo, hi, a.nan, a.deps, mksym('f', 'conv', n[-2:], a.sym))
        if base == 'abs':
            lo = 0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
            return Val(lo, max(abs(a.lo), abs(a.hi)), a.nan, deps, sym)
        if base in ('nint', 'anint'):
            return Val(_f(a.lo + .5), _f(a.hi + .5), False, deps, sym) if not a.nan else \
                Val(-2 ** 31, 2 ** 31 - 1, False, deps, sym)
        if base == 'floor':
            return Val(_f(a.lo), _f(a.hi), False, deps, sym) if not a.nan else \
                Val(-2 ** 31, 2 ** 31 - 1, False, deps, sym)
        if base in ('int', 'idint', 'ifix'):
            if a.nan:
                return Val(-2 ** 31, 2 ** 31 - 1, False, deps, sym)
            return Val(math.trunc(a.lo) if abs(a.lo) < INF else -2 ** 31,
                       math.trunc(a.hi) if abs(a.hi) < INF else 2 ** 31 - 1, False, deps, sym)
        if base == 'min':
            return Val(min(v.lo for v in vs), min(v.hi for v in vs), nan, deps, sym)
        if base == 'max':
            return Val(max(v.lo for v in vs), max(v.hi for v in vs), nan, deps, sym)
        if base == 'mod':
            m = max(abs(vs[1].lo), abs(vs[1].hi))
            if re.search(r'i\d$', n):
                m = m - 1
            lo = 0 if a.lo >= 0 else -m
            hi = 0 if a.hi <= 0 else m
            return Val(max(lo, min(a.lo, 0)), min(hi, max(a.hi, 0)), nan, deps, sym)
        if base in ('sin', 'cos'):
            return Val(-1, 1, True, deps, sym)
        if base == 'sqrt':
            return Val(0, math.sqrt(a.hi) * (1 + 1e-6) if 0 <= a.hi < INF else INF,
                       a.nan or a.lo < 0, deps, sym)
        if base in ('trim', 'adjustl', 'adjustr', 'char', 'achar'):
            return Val(0, 0, False, deps, a.sym)
        if base == 'ieee_is_nan':
            if not a.nan:
                return num(0)
            return Val(0, 1, False, deps)
        if base in ('huge', 'tiny', 'epsilon'):
            return Val(0, INF, False)
        if base in ('tan', 'atan', 'atan2', 'asin', 'acos', 'exp', 'log', 'log10', 'sinh', 'cosh',
                    'tanh', 'sign', 'dot_product', 'sum', 'product', 'matmul', 'maxval', 'minval',
                    'atan2d', 'aint', 'dim', 'modulo', 'hypot', 'transfer', 'len_trim', 'len',
                    'index', 'merge', 'ieee_is_finite', 'isnan', 'ceiling', 'ichar', 'iachar',
                    'any', 'all', 'count', 'spread', 'reshape', 'nearest', 'spacing'):
            return Val(-INF, INF, True, deps, sym)
        raise Unsupported('function %s' % n)

    def userfunc(self, st, fr, n, args):
        proc, formals, entry = self.prog.find(n)
        outs = self.call(st, fr, n, args, None)
        # functions are side effect free here: join the results
        res = None
        base = None
        for s, rv in outs:
            res = rv if res is None else vjoin(res, rv)
            base = s if base is None else sjoin(base, s)
        if base is None:
            raise Unsupported('function %s never returns' % n)
        st.store = base.store
        st.facts = base.facts
        st.fail = base.fail
        if res is None:
            res = Val()
        return Val(res.lo, res.hi, res.nan, res.deps, res.sym)

    def call(self, st, fr, name, args, stmt):
        """-> list of (state, result value) at the return of the procedure"""
        found = self.prog.find(name)
        if found is None:
            raise Unsupported('call of unknown procedure %s' % name)
        proc, formals, entry = found
        if len(self.stack) > 30 or proc in [f.proc for f in self.stack]:
            raise Unsupported('recursive call of %s' % name)
        self.stats['calls'].add(name)
        self.fid += 1
        nf = Frame(proc, self.fid)
        if len(args) != len(formals):
            self.viol('abi', stmt, '%s called with %d arguments, it has %d' % (
                name, len(args), len(formals)))
            raise Unsupported('argument count of %s' % name)
        for f, a in zip(formals, args):
            nf.bind[f] = self.bindarg(st, fr, a)
            fs = proc.syms.get(f)
            if fs is not None and fs.rank == 0 and (fs.type or '').startswith('REAL'):
                self.let(st, nf.bind, f, name, fr.proc.name)
        self.stack.append(nf)
        res = []
        body = proc.code
        if entry is not None:
            k = [i for i, s in enumerate(body) if s.kind == 'entry' and s.a['name'] == entry]
            if not k:
                raise Unsupported('entry %s' % entry)
            body = body[k[0] + 1:]
        elif any(s.kind == 'entry' for s in body) and body[0].kind == 'entry':
            raise Unsupported('procedure with entries %s' % name)
        outs = self.block([st], nf, body)
        self.stack.pop()
        final = []
        for kind, ss in outs.items():
            if kind in ('next', 'return'):
                for x in ss:
                    x = x.copy()
                    x.facts = frozenset(f for f in x.facts if f[0] != 'le')
                    final.append(x)
            elif ss:
                raise Unsupported('unresolved jump %r in %s' % (kind, name))
        for s in final:
            rv = None
            rs = proc.syms.get(name)
            if rs is not None and rs.result and 'FUNCTION' in rs.attrs:
                b, rv = self.get(s, nf, rs.result)
            pre = 'l%d:' % nf.fid
            for k in [k for k in s.store if k.startswith(pre)]:
                del s.store[k]
            res.append((s, rv))
        if len(res) > 1:
            grouped = self.group([s for s, _ in res])
            if len(grouped) < len(res) and all(rv is None for _, rv in res):
                res = [(s, None) for s in grouped]
        return res

    def root(self, sym):
        while sym is not None:
            if sym in self.symlet:
                return self.symlet[sym]
            r = root_of(sym)
            if r is not None:
                return r
            t = sym[1]
            if t[0] == 'f' and t[1] == 'conv':
                sym = t[3]
            else:
                return None
        return None

    def let(self, st, bind, f, name, caller):
        """names the value of a computed argument: quantities derived from it (and only
        from it) get recognised"""
        b = bind[f]
        v = st.store.get(b[1]) if b[0] == 'loc' else b[1] if b[0] == 'val' else None
        if not isinstance(v, Val) or v.const() is not None or not v.deps or _unset(v):
            return
        if any(d[0] in ('old', 'init', 'uninit', 'io') for d in v.deps):
            return
        r = self.root(v.sym)
        if r in v.deps and len(v.deps) == 1:
            return
        i = r[1] if r is not None and r[0] == 'let' else (caller, name, f)
        if any(d == ('let', i) for d in v.deps):
            return
        self.lets[i] = self.lets.get(i, EMPTY) | v.deps
        w = Val(v.lo, v.hi, v.nan, frozenset([('let', i)]), v.sym or mksym('let', i))
        self.symlet[w.sym] = ('let', i)
        if b[0] == 'loc':
            st.store[b[1]] = w
        else:
            bind[f] = ('val', w)

    def bindarg(self, st, fr, a):
        if a[0] == 'var':
            s = self.symof(fr, a[2])
            if 'PARAMETER' not in s.attrs:
                b, cur = self.get(st, fr, a[2])
                if isinstance(cur, Arr) or (isinstance(cur, tuple) and cur[0] == 'input'):
                    subs = self.element(st, fr, a)
                    if subs is None:
                        return b
                    return ('elem', b[1], subs)
                return b
        v = self.ev(st, fr, a)
        return ('val', v)

    # ------------------------------------------------------------ statements
    def group(self, states):
        """partition by the facts and the constant integers; join the rest"""
        if len(states) <= 1:
            return states
        g = {}
        for s in states:
            ks = []
            for k, v in s.store.items():
                if isinstance(v, Val):
                    c = v.const()
                    if c is not None:
                        ks.append((k, c))
                    elif ('io',) in v.deps:
                        ks.append((k, v.lo > 0, v.hi < 0))
            key = (s.facts, s.fail, frozenset(ks))
            if key in g:
                g[key] = sjoin(g[key], s)
            else:
                g[key] = s
        out = list(g.values())
        if len(out) > self.MAXGROUPS:
            h = {}
            for s in out:
                key = (s.facts, s.fail)
                h[key] = sjoin(h[key], s) if key in h else s
            out = list(h.values())
        return out

    def block(self, states, fr, body):
        """-> {outcome: [states]}"""
        outs = {}
        labels = {}
        for i, s in enumerate(body):
            if s.label is not None:
                labels[s.label] = i
        cur = {0: states}
        i = 0
        pending = {}
        n = len(body)
        live = list(states)
        while i < n:
            stmt = body[i]
            if stmt.label is not None and stmt.label in pending:
                live = self.group(live + pending.pop(stmt.label))
            if live:
                res = self.exec(live, fr, stmt)
                live = []
                for k, ss in res.items():
                    if not ss:
                        continue
                    if k == 'next':
                        live += ss
                    elif isinstance(k, tuple) and k[0] == 'goto' and k[1] in labels:
                        if labels[k[1]] <= i:
                            raise Unsupported('backward GOTO %s in %s' % (k[1], fr.proc.name))
                        pending.setdefault(k[1], []).extend(ss)
                    else:
                        outs.setdefault(k, []).extend(ss)
                live = self.group(live)
            i += 1
        outs['next'] = live
        return {k: self.group(v) for k, v in outs.items()}

    def exec(self, states, fr, stmt):
        outs = {}
        for st in states:
            self.stats['statements'] += 1
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported('analysis budget exhausted')
            self.curst = stmt
            self.setrefined(st)
            f = getattr(self, 'x_' + stmt.kind, None)
            if f is None:
                raise Unsupported('statement %s' % stmt.text[:80])
            for k, ss in f(st, fr, stmt).items():
                outs.setdefault(k, []).extend(ss)
        return outs

    def x_nop(self, st, fr, stmt):
        return {'next': [st]}

    x_entry = x_nop

    def x_assign(self, st, fr, stmt):
        st = st.copy()
        lhs, rhs = stmt.a['lhs'], stmt.a['rhs']
        v = self.ev(st, fr, rhs)
        self.assign(st, fr, lhs, v, stmt, self.isint(fr, lhs))
        return {'next': [st]}

    def assign(self, st, fr, lhs, v, stmt, isint=False):
        if isint and v.nan:
            v = Val(v.lo, v.hi, False, v.deps, v.sym)
        if lhs[0] != 'var':
            raise Unsupported('assignment to %r' % (lhs,))
        b, cur = self.get(st, fr, lhs[2])
        if b[0] == 'val':
            self.viol('const-arg', stmt, 'assignment to a dummy argument associated with an '
                      'expression or a constant')
            return
        if b[0] == 'elem':
            self.write_elem(st, b[1], b[2], v, stmt)
            return
        if isinstance(cur, tuple) and cur[0] == 'input':
            self.write_elem(st, b[1], self.element(st, fr, lhs), v, stmt)
            return
        if isinstance(cur, Arr):
            subs = self.element(st, fr, lhs)
            if subs is None and lhs[3] is not None and lhs[3][0][0] != 'full':
                # array section: weak update
                self.write_elem(st, b[1], 'weak', v, stmt)
                return
            self.write_elem(st, b[1], subs, v, stmt)
            return
        st.store[b[1]] = v

    def write_elem(self, st, key, subs, v, stmt):
        cur = st.store[key]
        if isinstance(cur, tuple) and cur[0] == 'input':
            name = cur[1]
            if name in self.inputs:
                self.viol('input-write', stmt, 'input array %s is modified' % name)
                return
            isym = subs[0].sym if subs and subs != 'weak' else None
            if isym is None or isym != self.isym:
                self.viol('output-index', stmt, 'output array %s is not written at the index of '
                          'the evaluated point' % name)
            else:
                st.outs = dict(st.outs)
                st.outs[name] = v
            return
        n = cur.copy()
        if subs is None:
            n.default = v
            n.elems = {}
            if cur.bounds is not None and len(cur.elems) > 0:
                pass
        elif subs == 'weak':
            n.default = _dj(n.default, v, EMPTY)
            for k in list(n.elems):
                n.elems[k] = vjoin(n.elems[k], v)
        else:
            cands = self.candidates(cur, subs, stmt)
            if cands is not None and len(cands) == 1:
                n.elems[cands[0]] = v
            elif cands is not None and len(cands) <= 400:
                for c in cands:
                    o = n.elems.get(c, n.default)
                    n.elems[c] = _dj(o, v, EMPTY)
            else:
                n.default = _dj(n.default, v, EMPTY)
                for k in list(n.elems):
                    n.elems[k] = vjoin(n.elems[k], v)
        st.store[key] = n

    # -- conditions
    def refine(self, st, fr, e, truth):
        """list of states in which the condition may have the given value"""
        if e[0] == 'op' and e[1] == 'NOT':
            return self.refine(st, fr, e[2], not truth)
        if e[0] == 'op' and e[1] in ('AND', 'OR'):
            conj = (e[1] == 'AND') == truth
            if conj:
                sts = [st]
                for x in e[2:]:
                    nxt = []
                    for s in sts:
                        nxt += self.refine(s, fr, x, truth)
                    sts = nxt
                return sts
            out = []
            rest = [st]
            for x in e[2:]:
                nrest = []
                for s in rest:
                    out += self.refine(s, fr, x, truth)
                    nrest += self.refine(s, fr, x, not truth)
                rest = nrest
            return out
        v = self.ev(st, fr, e)
        if truth and v.hi < 1:
            return []
        if not truth and v.lo > 0:
            return []
        st = st.copy()
        if e[0] == 'var' and e[3] is None:
            b, cur = self.get(st, fr, e[2])
            if b[0] == 'loc' and isinstance(cur, Val):
                t = 1 if truth else 0
                st.store[b[1]] = Val(t, t, False, cur.deps, cur.sym)
                if cur.sym is not None and cur.const() is None:
                    self.fact(st, ('flag', cur.sym, t))
            return [st]
        if e[0] == 'op' and e[1] in ('==', '/=', '<', '>', '<=', '>='):
            self.refine_cmp(st, fr, e, truth)
        if e[0] == 'call' and 'ieee_is_nan' in e[1] and not truth:
            a = e[2][0]
            self.narrow(st, fr, a, -INF, INF, False)
        return [st]

    def fact(self, st, f):
        st.facts = st.facts | {f}

    def refine_cmp(self, st, fr, e, truth):
        o = e[1]
        a = self.ev(st, fr, e[2])
        b = self.ev(st, fr, e[3])
        if not truth:
            # negation; for reals the comparison may be false because of NaN
            o = {'==': '/=', '/=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[o]
        nonan = truth and e[1] != '/=' or (not truth and e[1] == '/=')
        if o == '==':
            self.eqfact(st, a, b)
            self.narrow(st, fr, e[2], b.lo, b.hi, False if nonan else None)
            self.narrow(st, fr, e[3], a.lo, a.hi, False if nonan else None)
        elif o in ('<', '<='):
            if a.sym is not None and b.sym is not None and not a.nan and not b.nan \
                    and b.const() is None:
                self.fact(st, ('le', a.sym, b.sym))
            d = 1 if o == '<' and self.isint(fr, e[2]) and self.isint(fr, e[3]) else 0
            self.narrow(st, fr, e[2], -INF, b.hi - d, False if nonan else None)
            self.narrow(st, fr, e[3], a.lo + d, INF, False if nonan else None)
            self.nearfact(st, fr, e[2], b, nonan or not truth)
        elif o in ('>', '>='):
            if a.sym is not None and b.sym is not None and not a.nan and not b.nan \
                    and b.const() is None:
                self.fact(st, ('le', b.sym, a.sym))
            d = 1 if o == '>' and self.isint(fr, e[2]) and self.isint(fr, e[3]) else 0
            self.narrow(st, fr, e[2], b.lo + d, INF, False if nonan else None)
            self.narrow(st, fr, e[3], -INF, a.hi - d, False if nonan else None)
            self.nearfact(st, fr, e[3], a, nonan or not truth)

    @staticmethod
    def oldkeys(v):
        return [d[1] for d in v.deps if d[0] == 'old']

    def eqfact(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.sym is not None and x.sym[1][0] == 'old' and y.sym is not None:
                self.fact(st, ('eq', x.sym[1][1], y.sym))
                self.keytest(x.sym[1][1], y.lo, y.hi)

    def nearfact(self, st, fr, e, lim, ok):
        """abs(x - y) <= lim with y an old value"""
        if e[0] != 'call' or '_abs_' not in e[1] or not ok:
            return
        d = e[2][0]
        if d[0] != 'op' or d[1] != '-':
            return
        x = self.ev(st, fr, d[2])
        y = self.ev(st, fr, d[3])
        for p, q in ((x, y), (y, x)):
            if p.sym is not None and p.sym[1][0] == 'old' and q.sym is not None:
                self.fact(st, ('near', p.sym[1][1], q.sym, lim.hi))
                self.keytest(p.sym[1][1], q.lo - lim.hi, q.hi + lim.hi)

    def keytest(self, k, lo, hi):
        a = self.keyiv.get(k, (INF, -INF))
        self.keyiv[k] = (min(a[0], lo), max(a[1], hi))

    refined = {}

    def narrow(self, st, fr, e, lo, hi, nan):
        if e[0] == 'call' and len(e[2]) == 1 and re.search(r'convert_(i|r)\d_|sngl|dble', e[1]):
            return
        if e[0] != 'var':
            return
        s = self.symof(fr, e[2])
        if 'PARAMETER' in s.attrs:
            return
        b, cur = self.get(st, fr, e[2])
        if b[0] == 'val':
            return
        if b[0] == 'elem':
            subs = b[2]
            cur = st.store[b[1]]
            key = b[1]
        elif isinstance(cur, Val):
            st.store[b[1]] = self.clip(cur, lo, hi, nan)
            return
        else:
            subs = self.element(st, fr, e)
            key = b[1]
        if isinstance(cur, tuple) and cur[0] == 'input':
            # refinement of an input element: kept as a fact of the state
            isym = subs[0].sym if subs else None
            if isym is None:
                return
            k = ('rng', cur[1], isym)
            old = None
            for f in st.facts:
                if f[0] == 'rng' and f[1] == cur[1] and f[2] == isym:
                    old = f
            v = Val(*(old[3:6] if old else (-1e30, 1e30, True)))
            w = self.clip(v, lo, hi, nan)
            st.facts = frozenset(f for f in st.facts if f is not old) | {
                ('rng', cur[1], isym, w.lo, w.hi, w.nan)}
            return
        if isinstance(cur, Arr):
            c = self.candidates(cur, subs, None) if subs else None
            if c is not None and len(c) == 1:
                v = cur.elems.get(c[0], cur.default)
                if v is not None:
                    n = cur.copy()
                    n.elems[c[0]] = self.clip(v, lo, hi, nan)
                    st.store[key] = n

    @staticmethod
    def clip(v, lo, hi, nan):
        l2, h2 = max(v.lo, lo), min(v.hi, hi)
        if l2 > h2:
            l2, h2 = v.lo, v.hi
        return Val(l2, h2, v.nan if nan is None else nan, v.deps, v.sym)

    def x_if(self, st, fr, stmt):
        self.setrefined(st)
        cond = stmt.a['cond']
        cv = self.ev(st, fr, cond)
        ts = self.refine(st, fr, cond, True)
        fs = self.refine(st, fr, cond, False)
        ts = self.group(ts)
        fs = self.group(fs)
        if not ts and not fs:
            raise Unsupported('contradictory condition %s' % stmt.text[:80])
        o1 = self.block(ts, fr, stmt.body) if ts else {}
        o2 = self.block(fs, fr, stmt.orelse) if fs else {}
        split = self.is_key_test(cv)
        if split:
            self.stats['guards'] += 1
        outs = {}
        for k in set(o1) | set(o2):
            a, b = o1.get(k, []), o2.get(k, [])
            if split or not a or not b or k != 'next':
                if not split and cv.deps and k == 'next' and (o1 and o2) and False:
                    pass
                outs[k] = a + b
            else:
                outs[k] = self.joinbranches(a, b, cv.deps)
        return outs

    def is_key_test(self, cv):
        return any(d[0] in ('old', 'io') for d in cv.deps)

    def joinbranches(self, a, b, cdeps):
        """join of the states of the two branches; control dependence is added to
        the locations which differ"""
        out = []
        groups = {}
        for side, ss in ((0, a), (1, b)):
            for s in ss:
                key = (frozenset(f for f in s.facts if f[0] in ('eq', 'near', 'flag', 'le')), s.fail)
                groups.setdefault(key, ([], []))[side].append(s)
        for key, (xs, ys) in groups.items():
            if not xs or not ys:
                out += xs + ys
                continue
            # the integer constants selected by a branch stay separate
            xs = self.group(xs)
            ys = self.group(ys)
            if len(xs) == 1 and len(ys) == 1:
                out.append(sjoin(xs[0], ys[0], cdeps))
            else:
                r = xs[0]
                for s in xs[1:] + ys:
                    r = sjoin(r, s, cdeps)
                out.append(r)
        return out

    def setrefined(self, st):
        r = {}
        for f in st.facts:
            if f[0] == 'rng':
                r[(f[1], f[2])] = f[3:6]
        self.refined = r

    # -- loops
    def x_do(self, st, fr, stmt):
        lo = self.ev(st, fr, stmt.a['lo'])
        hi = self.ev(st, fr, stmt.a['hi'])
        step = self.ev(st, fr, stmt.a['step']).const()
        if hi.sym is not None and hi.sym[1][0] == 'arg' and len(self.stack) == 1 \
                and self.point_loop is None:
            self.point_loop = stmt
            return self.pointloop(st, fr, stmt, lo)
        if step not in (1, -1):
            raise Unsupported('loop step %r' % (step,))
        outs = {}
        done = []
        b, _ = self.get(st, fr, stmt.a['var'][2])
        if b[0] != 'loc':
            raise Unsupported('loop variable')
        if lo.const() is not None and hi.hi < INF and hi.lo > -INF and \
                abs(hi.hi - lo.const()) <= 2000 and step == 1:
            cur = [st]
            k = int(lo.const())
            while True:
                nxt = []
                for s in cur:
                    h = hi
                    if k > h.lo:
                        s2 = s.copy()
                        s2.store[b[1]] = num(k)
                        done.append(s2)
                    if k <= h.hi:
                        s2 = s.copy()
                        s2.store[b[1]] = num(k)
                        nxt.append(s2)
                if not nxt or k > hi.hi:
                    break
                nxt = self.group(nxt)
                res = self.block(nxt, fr, stmt.body)
                cur = res.pop('next', []) + res.pop('cycle', [])
                for o, ss in res.items():
                    if o == 'exit':
                        done += ss
                    else:
                        outs.setdefault(o, []).extend(ss)
                cur = self.group(cur)
                if not cur:
                    break
                k += 1
            outs['next'] = self.group(done)
            return outs
        # unknown bounds: fixpoint with an unknown index
        s0 = st.copy()
        return self.fixloop(s0, fr, stmt, b[1], lo, hi, step)

    def fixloop(self, st, fr, stmt, var, lo, hi, step):
        outs = {}
        cur = st
        for it in range(40):
            s = cur.copy()
            if var is not None:
                if step == 1:
                    s.store[var] = Val(lo.lo, hi.hi, False, lo.deps | hi.deps)
                else:
                    s.store[var] = Val(hi.lo, lo.hi, False, lo.deps | hi.deps)
                ent = [s]
            else:
                self.setrefined(s)
                ent = self.refine(s, fr, stmt.a['cond'], True)
            outs = {}
            exits = []
            res = self.block(self.group(ent), fr, stmt.body) if ent else {}
            back = res.pop('next', []) + res.pop('cycle', [])
            exits += res.pop('exit', [])
            for o, ss in res.items():
                outs.setdefault(o, []).extend(ss)
            if var is None:
                cv = self.ev(cur.copy(), fr, stmt.a['cond'])
                cd = cv.deps
            else:
                cd = lo.deps | hi.deps
            new = cur
            for x in back:
                new = sjoin(new, x, cd)
            new = widen(cur, new) if it >= 2 else new
            if same(new, cur):
                break
            cur = new
        else:
            raise Unsupported('no fixpoint of the loop %s' % stmt.text[:60])
        if var is None:
            self.setrefined(cur)
            exits += self.refine(cur, fr, stmt.a['cond'], False)
        else:
            s = cur.copy()
            s.store[var] = Val()
            exits.append(s)
        outs['next'] = self.group(exits)
        return outs

    def x_while(self, st, fr, stmt):
        # unrolling keeps the constants; fixpoint when it does not end
        outs, done, cur = {}, [], [st]
        for it in range(24):
            nxt = []
            for s in cur:
                self.setrefined(s)
                nxt += self.refine(s, fr, stmt.a['cond'], True)
                done += self.refine(s, fr, stmt.a['cond'], False)
            nxt = self.group(nxt)
            if not nxt:
                outs['next'] = self.group(done)
                return outs
            if len(nxt) > 8:
                break
            res = self.block(nxt, fr, stmt.body)
            cur = self.group(res.pop('next', []) + res.pop('cycle', []))
            for o, ss in res.items():
                if o == 'exit':
                    done += ss
                else:
                    outs.setdefault(o, []).extend(ss)
        return self.fixloop(st, fr, stmt, None, None, None, None)

    # -- jumps
    def x_return(self, st, fr, stmt):
        return {'return': [st]}

    def x_cycle(self, st, fr, stmt):
        return {'cycle': [st]}

    def x_exit(self, st, fr, stmt):
        return {'exit': [st]}

    def x_goto(self, st, fr, stmt):
        return {('goto', stmt.a['target']): [st]}

    def x_stop(self, st, fr, stmt):
        self.stats['stops'] += 1
        self.viol('terminate', stmt, 'reachable statement terminating the process')
        return {}

    def x_call(self, st, fr, stmt):
        name = stmt.a['name']
        if re.match(r'^(_gfortran_)?(exit|abort|stop|error_stop)', name):
            self.stats['stops'] += 1
            self.viol('terminate', stmt, 'reachable call terminating the process')
            return {}
        if name in ('_gfortran_flush_i4', 'flush'):
            return {'next': [st]}
        st = st.copy()
        self.setrefined(st)
        return {'next': [s for s, _ in self.call(st, fr, name, stmt.a['args'], stmt)]}

    # -- input/output
    def ioerr(self, st, fr, stmt, specs, deps):
        """-> (ok states, failed outcomes)"""
        self.stats['io'] += 1
        unit = specs.get('UNIT', '')
        internal = re.match(r'^[\w.]+:\w+$', unit) is not None
        handled = [k for k in ('IOSTAT', 'ERR') if k in specs]
        if not handled:
            if unit in ('0', '6', '5') or (unit == '' and stmt.kind == 'print'):
                return [st], {}
            if internal or stmt.kind == 'close':
                return [st], {}
            self.viol('io', stmt, 'failure of the %s statement terminates the process (no IOSTAT= '
                      'or ERR=)' % stmt.kind.upper())
            return [st], {}
        ok, bad = st.copy(), st.copy()
        fl = stmt.proc.name + ': ' + stmt.text[:60]
        if not internal:
            bad.fail = bad.fail | {fl}
        if 'IOSTAT' in specs:
            e = parse_expr(specs['IOSTAT'])
            self.assign(ok, fr, e, Val(0, 0, False, frozenset([('io',)])), stmt)
            self.assign(bad, fr, e, Val(1, 2 ** 31, False, frozenset([('io',)])), stmt)
            # negative status (end of file)
            bad2 = bad.copy()
            self.assign(bad2, fr, e, Val(-2 ** 31, -1, False, frozenset([('io',)])), stmt)
            return [ok], {'next': [bad, bad2]}
        return [ok], {('goto', specs['ERR']): [bad]}

    def x_open(self, st, fr, stmt):
        specs = stmt.a['specs']
        st = st.copy()
        d = EMPTY
        sym = None
        if 'FILE' in specs:
            v = self.ev(st, fr, parse_expr(specs['FILE']))
            d, sym = v.deps, v.sym
        ok, bad = self.ioerr(st, fr, stmt, specs, d)
        for s in ok:
            s.units[specs.get('UNIT')] = (d, sym)
            if specs.get('STATUS') not in ("'old'", "'OLD'"):
                self.viol('io', stmt, 'the coefficients file is not opened as an existing file')
        bad.setdefault('next', []).extend(ok)
        return bad

    def x_close(self, st, fr, stmt):
        ok, bad = self.ioerr(st.copy(), fr, stmt, stmt.a['specs'], EMPTY)
        for s in ok:
            s.units.pop(stmt.a['specs'].get('UNIT'), None)
        bad.setdefault('next', []).extend(ok)
        return bad

    def x_rewind(self, st, fr, stmt):
        ok, bad = self.ioerr(st.copy(), fr, stmt, stmt.a['specs'], EMPTY)
        bad.setdefault('next', []).extend(ok)
        return bad

    def x_read(self, st, fr, stmt):
        specs = stmt.a['specs']
        unit = specs.get('UNIT')
        st = st.copy()
        internal = unit is not None and re.match(r'^[\w.]+:\w+$', unit)
        if internal:
            v = self.ev(st, fr, parse_expr(unit))
            d, sym = v.deps, None
        else:
            d, sym = st.units.get(unit, (EMPTY, None))
            if unit not in st.units:
                self.viol('io', stmt, 'read from a unit which is not open')
            d = d | ({('file', sym)} if sym is not None else {('file', '?')})
        ok, bad = self.ioerr(st, fr, stmt, specs, d)
        for group, good in ((ok, True), ([x for ss in bad.values() for x in ss], False)):
            for s in group:
                nint = 0
                for it in stmt.a['items']:
                    nm = it[2] if it[0] == 'var' else None
                    sm = fr.proc.syms.get(nm) if nm else None
                    if sm is not None and not internal and sm.rank == 0 and \
                            (sm.type or '').startswith('INTEGER') and nint < len(DIMS):
                        nm = DIMS[nint]
                        nint += 1
                    val = Val(nan=not good, deps=frozenset(d))
                    if good and nm in self.dims:
                        c = self.dims[nm]
                        val = Val(c, c, False, EMPTY, mksym('c', c))
                    elif good and nm is not None:
                        val = Val(val.lo, val.hi, val.nan, val.deps, mksym('fileel', nm))
                    if good:
                        self.assign(s, fr, it, val, stmt)
                    else:
                        # partially read item: anything
                        self.assign(s, fr, it, Val(deps=frozenset(d)), stmt)
        bad.setdefault('next', []).extend(ok)
        return bad

    def x_write(self, st, fr, stmt):
        specs = stmt.a['specs']
        unit = specs.get('UNIT', '')
        st = st.copy()
        if re.match(r'^[\w.]+:\w+$', unit):
            d = EMPTY
            for it in stmt.a['items']:
                d = d | self.ev(st, fr, it).deps
            self.assign(st, fr, parse_expr(unit), Val(0, 0, False, d), stmt)
        ok, bad = self.ioerr(st, fr, stmt, specs, EMPTY)
        bad.setdefault('next', []).extend(ok)
        return bad

    x_print = x_write

    def x_allocate(self, st, fr, stmt):
        st = st.copy()
        for o in stmt.a['objs']:
            b, cur = self.get(st, fr, o[2])
            bounds = []
            for s in o[3]:
                if s[0] == 'range':
                    lo = self.ev(st, fr, s[1]) if s[1] is not None else num(1)
                    hi = self.ev(st, fr, s[2])
                else:
                    lo, hi = num(1), self.ev(st, fr, s)
                bounds.append((lo.const(), hi.const()))
            if any(x is None or y is None for x, y in bounds):
                bounds = None
            else:
                bounds = [(int(x), int(y)) for x, y in bounds]
            a = Arr(o[2], bounds, Val(deps=frozenset([('uninit', o[2])])))
            st.store[b[1]] = a
        return {'next': [st]}

    def x_deallocate(self, st, fr, stmt):
        st = st.copy()
        for o in stmt.a['objs']:
            b, cur = self.get(st, fr, o[2])
            st.store[b[1]] = Arr(o[2], None, None)
        return {'next': [st]}

    # ------------------------------------------------------------ point loop
    point_loop = None
    isym = None

    def run_entry(self, name):
        """-> dict of results; see history.py for the interpretation"""
        found = self.prog.find(name)
        if found is None:
            raise Unsupported('entry %s is missing' % name)
        proc, formals, _ = found
        self.entry = name
        fr = Frame(proc, 0)
        st = State()
        for f in formals:
            s = proc.syms[f]
            if s.rank:
                st.store['arg:' + f] = ('input', f)
                fr.bind[f] = ('loc', 'arg:' + f)
            else:
                st.store['arg:' + f] = Val(deps=frozenset([('arg', f)]), sym=mksym('arg', f)) \
                    if f in self.scalars else Val(deps=frozenset([('uninit', f)]))
                fr.bind[f] = ('loc', 'arg:' + f)
        self.stack = [fr]
        self.fid = 0
        self.results = []
        outs = self.block([st], fr, proc.code)
        if self.point_loop is None:
            raise Unsupported('no loop over the points in %s' % name)
        return outs

    def pointloop(self, st0, fr, stmt, lo):
        """generic iteration of the loop over the points from an inferred invariant"""
        b, _ = self.get(st0, fr, stmt.a['var'][2])
        var = b[1]
        if lo.const() != 1:
            self.viol('output-index', stmt, 'the loop over the points does not start at the '
                      'first point')
        self.isym = mksym('idx', fr.proc.name)
        self.loopvar = var
        self.start = {k: v for k, v in st0.store.items() if isinstance(v, Val)}
        inv = self.start_inv(st0)
        for it in range(12):
            s = self.instantiate(inv, var)
            self.keyiv = {}
            res = self.block([s], fr, stmt.body)
            ends = res.pop('next', []) + res.pop('cycle', [])
            rets = res.pop('return', [])
            for o, ss in res.items():
                if ss:
                    raise Unsupported('jump %r out of the loop over the points' % (o,))
            new = inv
            for e in ends:
                if not e.fail:
                    new = self.joininv(new, self.generalise(e))
            if new == inv:
                break
            inv = new
        else:
            raise Unsupported('no invariant of the loop over the points')
        self.inv = inv
        self.ends = ends
        self.rets = rets
        self.loopstmt = stmt
        fin = st0.copy()
        return {'next': [fin], 'return': []}

    # ------------------------------------------------------- cached values
    def expand(self, deps):
        out, seen, todo = set(), set(), list(deps)
        while todo:
            d = todo.pop()
            if d in seen:
                continue
            seen.add(d)
            if d[0] == 'let':
                todo += self.lets[d[1]]
            elif d[0] == 'file':
                if isinstance(d[1], tuple):
                    r = self.root(d[1])
                    if r is not None:
                        out.add(r)
                        continue
                out.add(d)
            else:
                out.add(d)
        return out

    @staticmethod
    def loc_of(atom):
        return atom[1]

    @staticmethod
    def valdeps(v):
        if v is None:
            return EMPTY
        if isinstance(v, Arr):
            d = set()
            idx = v.indices()
            if v.default is not None and (idx is None or len(v.elems) < len(idx)):
                d |= v.default.deps
            for e in v.elems.values():
                if e is not None:
                    d |= e.deps
            return frozenset(d)
        return v.deps

    def norm_deps(self, deps):
        """file atoms -> the argument naming the file"""
        out = set()
        deps = list(deps)
        seen = set()
        while deps:
            d = deps.pop()
            if d in seen:
                continue
            seen.add(d)
            if d[0] == 'file':
                out |= self.expand([d])
            elif d[0] == 'let' and d not in self.keyrootset:
                deps += self.lets[d[1]]
            elif d[0] == 'init':
                out.add(('old', d[1]))
            elif d[0] != 'io':
                out.add(d)
        return out

    def memo(self):
        """decides that the outputs depend only on the current point"""
        paths = []
        self.keyrootset = set()
        for e in self.ends + self.rets:
            for f in e.facts:
                if f[0] in ('eq', 'near'):
                    r = self.root(f[2])
                    if r is not None:
                        self.keyrootset.add(r)
        for kind, ss in (('end', self.ends), ('ret', self.rets)):
            for e in ss:
                if e.fail and kind == 'end':
                    continue        # reported by the failure rule
                eq, near, flags = {}, {}, {}
                for f in e.facts:
                    if f[0] == 'eq':
                        r = self.root(f[2])
                        if r is not None:
                            eq.setdefault(f[1], set()).add(r)
                    elif f[0] == 'near':
                        r = self.root(f[2])
                        if r is not None:
                            near.setdefault(f[1], set()).add((r, f[3]))
                    elif f[0] == 'flag' and f[1][1][0] in ('old', 'init'):
                        flags[f[1][1][1]] = f[2]
                vals = {}
                for k, v in e.store.items():
                    if not self.persistent(k) or k == self.loopvar:
                        continue
                    vals[k] = v
                    if isinstance(v, Arr):
                        idx = v.indices()
                        if idx is not None and len(idx) <= 3000:
                            for i in idx:
                                x = v.elems.get(i, v.default)
                                if x is not None:
                                    vals[(k, i)] = x
                deps = {k: self.norm_deps(self.valdeps(v)) for k, v in vals.items()}
                paths.append((kind, e, eq, near, flags, vals, deps))
        locs = set()
        for p in paths:
            locs |= set(p[5])
        keys = set()
        for p in paths:
            keys |= set(p[2]) | set(p[3])
        keyroots = {}
        for k in keys:
            rs = set()
            for p in paths:
                v = p[5].get(k)
                if isinstance(v, Val) and v.sym is not None:
                    r = self.root(v.sym)
                    if r is not None:
                        rs.add(r)
            keyroots[k] = rs
        # roots of the content of each location
        roots = {c: set() for c in locs}
        accum = set()
        changed = True
        while changed:
            changed = False
            for p in paths:
                for c, d in p[6].items():
                    for a in d:
                        if a[0] == 'old':
                            s = roots.get(self.loc_of(a), set())
                        else:
                            s = {a}
                        if not s <= roots[c]:
                            roots[c] |= s
                            changed = True
        for p in paths:
            for c, d in p[6].items():
                v = p[5][c]
                if isinstance(v, Val):
                    own = ('old', c) in d or any(a[0] == 'old' and self.loc_of(a) == c for a in d)
                    if own and not (v.sym is not None and v.sym[1][0] in ('old', 'init')):
                        accum.add(c)
        flaglocs = {k for k in self.logicals if k in locs}
        seninit = {}
        for k in keys:
            v = self.start.get(k, self.initvals.get(k))
            c = v.const() if isinstance(v, Val) else None
            iv = self.keyiv.get(k, (-INF, INF))
            seninit[k] = c is not None and (abs(c) >= 1e30 or c < iv[0] or c > iv[1])

        def is_sentinel(k, v):
            c = v.const() if isinstance(v, Val) else None
            if c is None:
                return False
            iv = self.keyiv.get(k, (-INF, INF))
            return abs(c) >= 1e30 or c < iv[0] or c > iv[1]

        local = {k for k in keys if k.startswith('l0:') and seninit[k]}
        self.stats['keys'] = sorted(keys)
        # candidate invariants
        I = {(c, k) for c in locs for k in keys if keyroots[k] & roots[c] and c != k
             and (seninit[k] or not k.startswith('l0:'))}
        J = {(k, f) for k in local for f in flaglocs}
        JA = {(c, k) for c in locs for k in local if any(r[0] == 'arg' for r in roots[c])}

        def isold(v, k):
            return isinstance(v, Val) and v.sym is not None and v.sym[1][0] in ('old', 'init') \
                and self.loc_of(v.sym[1]) == k

        def infeasible(p):
            kind, e, eq, near, flags, vals, deps = p
            for (k, f) in J:
                if (k in eq or k in near) and flags.get(f) == 1:
                    return True
            return False

        def flag_in(p):
            return any(v == 1 for k, v in p[4].items() if k in flaglocs)

        def flag_out(p, f):
            v = p[5].get(f)
            c = v.const() if isinstance(v, Val) else None
            if c is not None:
                return c
            if isinstance(v, Val) and isold(v, f):
                return p[4].get(f)
            return None

        def tied(p, a_c, r):
            """is the quantity r the (old) content of a_c was computed from the current one?"""
            if flag_in(p):
                return False
            return any((a_c, k) in I and r in p[2].get(k, ()) for k in keys)

        def argtied(p, c):
            return any((c, k) in JA and (k in p[2] or k in p[3]) for k in local)

        def names(p, c, r):
            kind, e, eq, near, flags, vals, deps = p
            res = None
            fin = flag_in(p)
            for a in deps.get(c, ()):
                if a == r:
                    n = {'cur'}
                    if not fin:
                        n |= {('k', k) for k in keys if r in eq.get(k, ())}
                elif a[0] == 'old' and r in roots.get(self.loc_of(a), ()):
                    n = set()
                    c2 = self.loc_of(a)
                    if not fin:
                        n = {('k', k) for k in keys if (c2, k) in I and r in keyroots[k]}
                        if any(r in eq.get(k[1], ()) for k in n):
                            n.add('cur')
                    if r[0] == 'arg' and argtied(p, c2):
                        n.add('cur')
                else:
                    continue
                res = n if res is None else res & n
            return res

        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            live = [p for p in paths if not infeasible(p)]
            for p in live:
                kind, e, eq, near, flags, vals, deps = p
                fout = any(flag_out(p, f) == 1 for f in flaglocs)
                if not fout:
                    for (c, k) in list(I):
                        v = vals.get(k)
                        if v is None or is_sentinel(k, v):
                            continue
                        rs = keyroots[k] & roots[c]
                        ok = True
                        for r in rs:
                            n = names(p, c, r)
                            if n is None:
                                continue
                            if isold(v, k):
                                ok = ('k', k) in n
                            elif isinstance(v, Val) and v.sym is not None and \
                                    self.root(v.sym) == r:
                                ok = 'cur' in n
                            else:
                                ok = False
                            if not ok:
                                break
                        if not ok:
                            I.discard((c, k))
                            changed = True
                if kind == 'ret':
                    continue
                for (k, f) in list(J):
                    v = vals.get(k)
                    if v is None or is_sentinel(k, v):
                        continue
                    fo = flag_out(p, f)
                    if isold(v, k) and fo is None and isold(vals.get(f), f):
                        continue
                    if fo != 0:
                        J.discard((k, f))
                        changed = True
                for (c, k) in list(JA):
                    v = vals.get(k)
                    if v is None or is_sentinel(k, v):
                        continue
                    ok = True
                    for r in roots[c]:
                        if r[0] != 'arg':
                            continue
                        n = names(p, c, r)
                        if n is None or 'cur' in n:
                            continue
                        # untouched content and key
                        if isold(v, k) and all(
                                a[0] != 'old' or (self.loc_of(a), k) in JA
                                or r not in roots.get(self.loc_of(a), ())
                                for a in deps.get(c, ())):
                            continue
                        ok = False
                    if not ok:
                        JA.discard((c, k))
                        changed = True
        self.memoinv = (I, J, JA)
        self.stats['memo'] = {'paths': len(paths), 'feasible': len(live), 'keys': len(keys),
                              'invariants': len(I) + len(J) + len(JA), 'rounds': rounds,
                              'locations': len(locs)}
        # keys changed by a refreshed content have to be kept in step: handled by the
        # invariants.  Check the outputs.
        self.stats['outputs'] = 0
        for p in live:
            kind, e, eq, near, flags, vals, deps = p
            if kind != 'end':
                continue
            for o in sorted(self.outputs):
                v = e.outs.get(o)
                if v is None:
                    self.viol('unassigned', self.loopstmt, 'output %s is not assigned for some '
                              'of the points' % o)
                    continue
                self.stats['outputs'] += 1
                for a in self.norm_deps(self.expand(v.deps)):
                    if a[0] == 'in':
                        if a[2] != self.isym:
                            self.viol('point', self.loopstmt, 'output %s depends on an element of '
                                      '%s of another point' % (o, a[1]))
                    elif a[0] == 'uninit':
                        self.viol('uninit', self.loopstmt, 'output %s depends on the undefined '
                                  'variable %s' % (o, a[1]))
                    elif a[0] == 'old':
                        c = self.loc_of(a)
                        if c in accum:
                            self.viol('history', self.loopstmt, 'output %s depends on %s '
                                      'accumulated over the previous points or calls'
                                      % (o, _nm(c)))
                            continue
                        for r in sorted(roots.get(c, ()), key=str):
                            if r[0] == 'uninit':
                                continue
                            if tied(p, c, r):
                                continue
                            if r[0] == 'arg' and argtied(p, c):
                                continue
                            if r[0] in ('in', 'let') and not flag_in(p) and self.timeonly(r) and \
                                    any((c, k) in I and any(x == r and lim <= DAY
                                        for x, lim in near.get(k, ())) for k in keys):
                                continue
                            self.viol('history', self.loopstmt, 'output %s uses %s computed for '
                                      'another value of %s (point or call)'
                                      % (o, _nm(c), self.rname(r)))
        return I

    def timeonly(self, r):
        return all(a[0] == 'in' and a[1] in self.times for a in self.expand([r]))

    times = frozenset()

    def rname(self, r):
        if r[0] == 'let':
            return '/'.join(sorted({a[1] if a[0] in ('in', 'arg') else _nm(self.loc_of(a))
                                    for a in self.expand([r])}))
        return r[1]

    def failures(self):
        """a failed library call has to end the evaluation with a non-zero status"""
        fr = self.stack[0]
        stat = [f for f in fr.bind if fr.proc.syms[f].rank == 0 and f not in self.scalars]
        n = 0
        for e in self.ends:
            n += 1
            for f in sorted(e.fail):
                self.viol('failure', self.loopstmt, 'the evaluation continues after a failure '
                          'of %s' % f)
            for a in stat:
                v = e.store.get('arg:' + a)
                if v is None or v.const() != 0:
                    self.viol('failure', self.loopstmt, 'completed evaluation may report '
                              'a failure in %s' % a)
        for e in self.rets:
            n += 1
            for f in sorted(e.fail):
                if not stat:
                    self.viol('failure', self.loopstmt, 'no status is returned on a failure '
                              'of %s' % f)
                for a in stat:
                    v = e.store.get('arg:' + a)
                    if v is None or v.lo <= 0 <= v.hi:
                        self.viol('failure', self.loopstmt, 'status %s may be zero after '
                                  'a failure of %s' % (a, f))
            if not e.fail:
                ok = False
                for a in stat:
                    v = e.store.get('arg:' + a)
                    ok = ok or (v is not None and not (v.lo <= 0 <= v.hi))
                if not ok:
                    self.viol('unassigned', self.loopstmt, 'the evaluation may end before all '
                              'points are evaluated')
        self.stats['exits'] = n

    # an invariant maps locations to ('const', Val) | ('old', location) | Arr
    def persistent(self, k):
        return not k.startswith('arg:')

    def start_inv(self, st):
        inv = {}
        for k, v in st.store.items():
            if not self.persistent(k) or k == self.loopvar:
                continue
            if isinstance(v, Val):
                c = v.const()
                inv[k] = ('const', v) if c is not None or _onlyuninit(v) else ('old', k)
        return inv

    def instantiate(self, inv, var):
        st = State()
        for k, d in inv.items():
            if isinstance(d, Arr):
                st.store[k] = d
            elif d[0] in ('const', 'argval'):
                st.store[k] = d[1]
            else:
                st.store[k] = Val(deps=frozenset([('old', d[1])]), sym=mksym('old', d[1]))
        for k, v in self.argstore.items():
            st.store[k] = v
        st.store[var] = Val(1, INF, False, EMPTY, self.isym)
        return st

    @property
    def argstore(self):
        fr = self.stack[0]
        out = {}
        for f in fr.bind:
            s = fr.proc.syms[f]
            if s.rank:
                out['arg:' + f] = ('input', f)
            elif f in self.scalars:
                out['arg:' + f] = Val(deps=frozenset([('arg', f)]), sym=mksym('arg', f))
            else:
                out['arg:' + f] = num(0)
        return out

    def generalise(self, st):
        """end state of an iteration -> invariant of the next iteration"""
        out = {}
        for k, v in st.store.items():
            if not self.persistent(k) or k == self.loopvar:
                continue
            if isinstance(v, Val):
                if v.const() is not None and v.sym is not None and v.sym[1][0] == 'c':
                    out[k] = ('const', v)
                elif v.sym is not None and v.sym[1][0] == 's':
                    out[k] = ('const', v)
                elif _onlyuninit(v):
                    out[k] = ('const', v)
                else:
                    out[k] = ('old', k)
            elif isinstance(v, Arr):
                n = Arr(v.name, v.bounds, None)
                idx = v.indices()
                if idx is None:
                    if not v.elems:
                        n.default = self.gen1(v.default, k, None)
                    else:
                        n.default = self.gen1(v.summary(), k, None)
                elif len(idx) > 3000:
                    n.default = self.gen1(v.summary(), k, None)
                else:
                    if v.elems or not (v.default is not None and v.default.const() is not None):
                        for i in idx:
                            n.elems[i] = self.gen1(v.elems.get(i, v.default), k, i)
                        n.default = self.gen1(v.default, k, None)
                    else:
                        n.default = v.default
                out[k] = n
        return out

    @staticmethod
    def gen1(v, k, i):
        if v is None:
            return None
        if v.const() is not None and not v.deps:
            return v
        if not v.deps and v.sym is None:
            return v           # constant table (DATA)
        a = k if i is None else (k, i)
        return Val(nan=v.nan, deps=frozenset([('old', a)]), sym=mksym('old', a))

    def joininv(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                out[k] = x if y is None else y
            elif isinstance(x, Arr):
                if x.bounds is None and x.default is None and not x.elems:
                    out[k] = y
                    continue
                if y.bounds is None and y.default is None and not y.elems:
                    out[k] = x
                    continue
                n = Arr(x.name, x.bounds, None)
                n.default = self.j1(x.default, y.default, k, None)
                for i in set(x.elems) | set(y.elems):
                    n.elems[i] = self.j1(x.elems.get(i, x.default), y.elems.get(i, y.default), k, i)
                out[k] = _Inv(n)
            elif x == y:
                out[k] = x
            elif self.sized(k) and x[0] == 'const' and y[0] == 'const':
                # dimensions which have not been loaded yet are not used
                u, w = _unset(x[1]), _unset(y[1])
                out[k] = y if u and not w else x if w and not u else ('old', k)
            elif self.sized(k) and 'const' in (x[0], y[0]) and (
                    _unset(x[1]) if x[0] == 'const' else not _unset(x[1])):
                out[k] = ('old', k)
            else:
                out[k] = ('old', k)
        return out

    def sized(self, k):
        """integers of the modules: dimensions of the coefficients arrays"""
        return k.startswith('mod:') and k not in self.logicals

    @staticmethod
    def j1(x, y, k, i):
        if x is None:
            return y
        if y is None:
            return x
        if x == y:
            return x
        a = k if i is None else (k, i)
        return Val(nan=x.nan or y.nan, deps=frozenset([('old', a)]), sym=mksym('old', a))


class _Inv(Arr):
    __slots__ = ()

    def __new__(cls, a):
        return a


def _arr_eq(self, o):
    return isinstance(o, Arr) and self.bounds == o.bounds and self.default == o.default \
        and self.elems == o.elems


Arr.__eq__ = _arr_eq
Arr.__hash__ = None


def _unset(v):
    return bool(v.deps) and all(d[0] in ('uninit', 'init') for d in v.deps)


def _onlyuninit(v):
    return bool(v.deps) and all(d[0] == 'uninit' for d in v.deps)


def _nm(k):
    if isinstance(k, tuple):
        return _nm(k[0])
    return '%s (%s)' % (k.split(':')[-1], k.split(':')[1])


def _f(x):
    return math.floor(x) if abs(x) < INF else x


def _iv(v):
    return '%g' % v.lo if v.lo == v.hi else '[%g,%g]' % (v.lo, v.hi)
