"""Properties of the Python package: its functions are interpreted abstractly (pyabs) for inputs which
are value numbers, each class of inputs (order of the times, coordinate systems, shapes, options) by a
generic member, and their results are compared with the terms of independent specifications."""
import datetime
import itertools
import math
import multiprocessing
import re
import traceback
from fractions import Fraction

import numpy as np

import pyabs
import pymodel
import pynum
import pyworld
from fw import AnalysisError
from pynum import Num, free, num, positive, ranked, same

np.seterr(all='ignore')
NAN, INF = math.nan, math.inf
SYSTEMS = {0: 'geodetic', 1: 'spherical', 2: 'Cartesian'}
MM = 'eoxmagmod/eoxmagmod/magnetic_model/'
PK = 'eoxmagmod/eoxmagmod/'

ASSUMPTIONS = [
    'The compiled functions are represented by their specifications (decided by C10 to C16 for their '
    'sources), NumPy, math, re and the file objects by models of their documented behaviour.',
    'Floating point rounding is not regarded: the quantities are members of a finite field with the '
    'laws of the real numbers.',
    'A coincidental agreement of two different terms has a probability below 1e-15 per comparison.',
]


class Bad(Exception):
    """the scenario cannot go on (a finding has been made)"""


MODELS = ('pyabs', 'pynum', 'pymodel', 'pyprops', 'pyworld')
FOREIGN = ('NoneType', "'str'", "'list'", "'tuple'", "'dict'", "'set'", "'function'", "'method'")


def unmodelled(e):
    """stop where the failure is that of the abstract objects, not of the analysed code"""
    if isinstance(e, AttributeError) and (type(getattr(e, 'obj', None)).__module__ in MODELS
                                          or getattr(getattr(e, 'obj', None), '__module__', None) in MODELS):
        raise pyabs.Stop('%s is not modelled' % e)
    if isinstance(e, TypeError) and re.search(r"'(Num|Date|Span|Text|Rows|Table|Cell)'", str(e)) and not any(
            x in str(e) for x in FOREIGN):
        raise pyabs.Stop('operation is not modelled: %s' % e)


class Ctx:
    """one scenario in one abstract world"""

    def __init__(self, rep, seed, repo, name, zero=False):
        self.rep, self.seed, self.name = rep, seed, name
        self.w = pyworld.World(repo, seed, zero)
        self.rule, self.where = '', ''

    def at(self, rule, where):
        self.rule, self.where = rule, where

    def bad(self, what, msg):
        self.rep.find(self.rule, self.where, '%s: %s' % (self.name, what), msg)

    def call(self, what, f, *a, **k):
        """result of the interpreted function, which is not supposed to fail"""
        self.rep.count('calls')
        try:
            return f(*a, **k)
        except (pyabs.Stop, pynum.Redraw, pyabs.Modified, AnalysisError, Bad):
            raise
        except pynum.Undefined:
            self.bad(what, 'an element which has not been assigned is used (%s)' % self.w.it.where())
        except pymodel.OutOfBounds as e:
            self.bad(what, 'a view reaches out of its array (%s)' % self.w.it.where())
        except pynum.Opaque as e:
            raise pyabs.Stop('the value of a quantity is required: %s' % e)
        except Exception as e:      # pylint: disable=broad-except
            unmodelled(e)
            self.bad(what, 'raises %s: %s (%s)' % (type(e).__name__, str(e)[:120], self.w.it.where()))
        raise Bad()

    def try_(self, what, f, *a, **k):
        try:
            return self.call(what, f, *a, **k)
        except Bad:
            return None

    def raises(self, what, exc, f, *a, **k):
        """the interpreted function has to reject its input"""
        self.rep.count('rejected inputs')
        try:
            f(*a, **k)
        except (pyabs.Stop, pynum.Redraw, pyabs.Modified, AnalysisError):
            raise
        except (pynum.Undefined, pymodel.OutOfBounds, pynum.Opaque) as e:
            self.bad(what, 'the input is not rejected before its use (%s)' % self.w.it.where())
        except exc as e:
            if re.search(r'\{[a-z_][\w.]*\}', str(e)):
                self.bad(what, 'the message is not formatted: %s' % str(e)[:120])
            return True
        except Exception as e:      # pylint: disable=broad-except
            unmodelled(e)
            self.bad(what, 'raises %s (%s) rather than %s' % (type(e).__name__, str(e)[:80], exc))
        else:
            self.bad(what, 'the invalid input is accepted')
        return False

    def equal(self, what, got, want):
        """equal numbers or arrays of numbers; several acceptable results in a list `Any`"""
        self.rep.count('results compared')
        if isinstance(want, Any):
            if not any(equal(got, x) is None for x in want.items):
                self.bad(what, equal(got, want.items[0]) if want.items else 'unexpected result')
                return False
            return True
        r = equal(got, want)
        if r is not None:
            self.bad(what, r)
            return False
        return True

    def true(self, what, cond, msg):
        self.rep.count('results compared')
        if not cond:
            self.bad(what, msg)
        return bool(cond)


class Guarded(Ctx):
    """the arrays, lists and dictionaries of the caller must not be modified (all other results of
    the scenario are not regarded)"""

    def __init__(self, *a, **k):
        Ctx.__init__(self, *a, **k)
        self.w.it.guard = True

    def bad(self, what, msg):
        pass

    def modified(self, e):
        self.rep.find('arguments-not-modified', self.w.it.where() or self.where,
                      '%s: %s' % (self.name, e.args[0]), 'object of the caller is modified at %s' % (e.args[-1],))

    def try_(self, what, f, *a, **k):
        try:
            return Ctx.try_(self, what, f, *a, **k)
        except pyabs.Modified as e:
            self.modified(e)
            return None

    def raises(self, what, exc, f, *a, **k):
        try:
            return Ctx.raises(self, what, exc, f, *a, **k)
        except pyabs.Modified as e:
            self.modified(e)
            return False

    def equal(self, what, got, want):
        return True

    def true(self, what, cond, msg):
        return bool(cond)


class History(Ctx):
    """each evaluation is repeated after the evaluation following it, and after its results
    have been overwritten by the caller"""

    def __init__(self, *a, **k):
        Ctx.__init__(self, *a, **k)
        self.last = None
        self.count = 0

    def bad(self, what, msg):
        pass

    def equal(self, what, got, want):
        return True

    def true(self, what, cond, msg):
        return bool(cond)

    def once(self, f, a, k):
        """copy of the results, which are then overwritten"""
        r = f(*a, **k)
        parts = list(r) if isinstance(r, tuple) else [r]
        if not parts or not all(isinstance(x, (np.ndarray, Num, float, int)) for x in parts):
            return r, None
        keep = [x.copy() if isinstance(x, np.ndarray) else x for x in parts]
        mine = [x for x in list(a) + list(k.values()) if isinstance(x, np.ndarray)]
        for x in parts:
            if isinstance(x, np.ndarray) and x.flags.writeable and not any(
                    np.may_share_memory(x, y) for y in mine):
                if x.dtype == object:
                    self.count += 1
                    for j, i in enumerate(np.ndindex(*x.shape)):
                        x[i] = free('overwritten', self.count, j)
                elif x.dtype.kind in 'iuf':
                    x[...] = 99
        return (tuple(keep) if isinstance(r, tuple) else keep[0]), keep

    def call(self, what, f, *a, **k):
        out = []

        def first(*a, **k):
            out.append(self.once(f, a, k))

        Ctx.call(self, what, first, *a, **k)
        r, keep = out[0]
        if keep is None:
            return r
        for w, g, args, kw, want, pos in filter(None, (self.last, (what, f, a, k, keep, (self.rule, self.where)))):
            self.rep.count('evaluations repeated')
            try:
                got = self.once(g, args, kw)[1]
            except (pyabs.Stop, pynum.Redraw, pyabs.Modified, AnalysisError):
                raise
            except Exception as e:      # pylint: disable=broad-except
                got = 'raises %s' % type(e).__name__
            diff = got if isinstance(got, str) else 'no array' if got is None or len(got) != len(want) else next(
                filter(None, (equal(x, y) for x, y in zip(got, want))), None)
            if diff:
                self.rep.find('evaluation-independent-of-history', pos[1], '%s: %s: %s' % (self.name, pos[0], w),
                              'the same evaluation repeated later gives another result: ' + diff)
        self.last = what, f, a, k, keep, (self.rule, self.where)
        return r


class Any:
    def __init__(self, items):
        self.items = items


def obj(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, Num):
        a = np.empty((), object)
        a[()] = x
        return a
    return pymodel.oarr(x)


def equal(got, want):
    """None or what differs"""
    if got is None or want is None:
        return None if got is want else 'None is returned'
    try:
        g, w = obj(got), obj(want)
    except (TypeError, ValueError) as e:
        return 'not an array of numbers (%s)' % e
    if g.shape != w.shape:
        return 'shape %s instead of %s' % (g.shape, w.shape)
    for i in np.ndindex(*w.shape):
        if not same(g[i], w[i]):
            if isinstance(g[i], Num) and g[i].v is None:
                return 'element %s is not assigned' % (i,)
            if pynum.special(w[i]):
                return 'element %s is not %s' % (i, w[i])
            if pynum.special(g[i]):
                return 'element %s is %s' % (i, g[i])
            return 'element %s has a different value' % (i,)
    return None


SCENARIOS = {}
EPOCH = Fraction(0)     # MJD2000 0


def scenario(pid, name=None):
    def deco(f):
        SCENARIOS.setdefault(pid, []).append((name or f.__name__.replace('_', ' '), f))
        return f
    return deco


GROUPS = {'C05': Guarded, 'C06': History}


def one(job):
    """one scenario (in a process of its own)"""
    import sys
    import fw
    sys.setrecursionlimit(100000)
    pid, owner, k, tier, repo, seeds = job
    name, f = SCENARIOS[owner][k]
    world = GROUPS.get(pid, Ctx)
    rep = fw.Report(pid)
    error = None
    functions = set()
    done = 0
    for seed in range(1, 200):
        # (every third drawing has zero quantities, the other ones come in pairs of opposite signs)
        zero = done % 3 == 1
        pair = done // 3 if zero else done - (done + 1) // 3
        pynum.Draw.pair = (pair, 0) if zero else (pair // 2, pair % 2)
        c = world(rep, seed * 7919 + 13, repo, name, zero=zero)
        c.thorough = tier == 'thorough'
        try:
            f(c)
        except pynum.Redraw:
            continue
        except Bad:
            pass
        except pyabs.Modified as e:
            (c.modified(e) if hasattr(c, 'modified') else
             c.bad('%s is modified' % e.args[0], 'object of the caller modified (%s)' % (e.args[-1],)))
        except pyabs.Stop as e:
            error = '%s: %s (%s)' % (name, e, c.w.it.where())
        except (pynum.Undefined, pynum.Opaque) as e:
            error = '%s: %s (%s)' % (name, type(e).__name__, c.w.it.where())
        except AnalysisError as e:
            error = '%s: %s' % (name, e)
        except Exception as e:      # pylint: disable=broad-except
            if not rep.findings:    # (the scenario relies on what is already found to be broken)
                error = '%s: %s: %s\n%s' % (name, type(e).__name__, e, traceback.format_exc()[-1500:])
        functions |= set(map(str, c.w.it.functions))
        done += 1
        if done >= seeds or error:
            break
    else:
        error = '%s: no generic drawing found' % name
    rep.count('scenarios')
    return rep.findings, rep.coverage, functions, error


def check(rep, tier, repo, pid):
    seeds = 5 if tier == 'quick' else 9
    owners = [pid]
    if pid in GROUPS:
        seeds = 1 if tier == 'quick' else 3
        owners = sorted(SCENARIOS)
    jobs = [(pid, p, k, tier, repo, seeds) for p in owners for k in range(len(SCENARIOS[p]))]
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as pool:
        results = pool.map(one, jobs, 1)
    functions = set(rep.coverage.get('functions interpreted', ()))
    for finds, cov, funcs, error in results:
        for x in finds:
            rep.find(x.rule, x.where, x.construct, x.msg, x.detail)
        for k, v in cov.items():
            rep.count(k, v)
        functions |= funcs
    rep.coverage['functions interpreted'] = sorted(functions)
    rep.coverage['drawings of each scenario'] = seeds
    rep.assumptions = list(rep.assumptions) + ASSUMPTIONS
    for x in results:
        if x[3]:
            raise AnalysisError(x[3])


# ------------------------------------------------------------------ specification of the models
class Spec:
    """specification of a set of coefficients"""
    internal = True

    def dy(self):
        """time scales used by the interpolation"""
        return set()

    def limits(self):
        raise NotImplementedError

    def valid(self, t):
        s, e = self.validity
        return bool(s <= t) and bool(t <= e)


def select(coeffs, lo, hi):
    return {(n, m): c for (n, m), c in coeffs.items()
            if (lo < 0 or n >= lo) and (hi < 0 or n <= hi)}


class Sparse(Spec):
    """time series of coefficients; times in MJD2000 or decimal years"""

    def __init__(self, c, name, nm, nodes, kind='mjd', order=2, validity=None, internal=True, shuffle=False):
        self.nm = nm
        self.name = name
        self.kind, self.order, self.internal = kind, order, internal
        self.nodes = [ranked(t, name, 'node') for t in nodes]
        k = max(1, len(nodes))
        self.c = [[free('coef', name, i, j) for j in range(k)] for i in range(len(nm))]
        dy = kind == 'dy'
        conv = pymodel.to_mjd if dy else lambda x: x
        kw = {}
        if validity is not None:
            self.given = tuple(x if pynum.special(x) else ranked(x, name, 'validity') for x in validity)
            kw = {'validity_start': self.given[0], 'validity_end': self.given[1]}
        elif nodes:
            self.given = (self.nodes[0], self.nodes[-1])
        else:
            self.given = (-INF, INF)
        self.validity = tuple(conv(x) for x in self.given)
        if not internal:
            kw['is_internal'] = False
        self.kw = kw
        self.shuffle = shuffle

    def dy(self):
        return {self.kind} if self.nodes else set()

    def limits(self):
        return min(n for n, _ in self.nm), max(n for n, _ in self.nm)

    def build(self, c):
        co = c.w.module('magnetic_model.coefficients')
        nm = np.array(self.nm)
        if not self.nodes:
            self.arrays = nm, np.array([x[0] for x in self.c], object)
            return co.SparseSHCoefficientsConstant(*self.arrays, **self.kw)
        cs, ts = np.array(self.c, object), np.array(self.nodes, object)
        if self.shuffle:
            p = list(range(len(ts)))[::-1]
            p = p[1:] + p[:1]
            cs, ts = cs[:, p], ts[p]
        self.arrays = nm, cs, ts
        cls = (co.SparseSHCoefficientsTimeDependentDecimalYear if self.kind == 'dy'
               else co.SparseSHCoefficientsTimeDependent)
        kw = dict(self.kw)
        if self.order != 2:
            kw['spline_order'] = self.order
        return cls(*self.arrays, **kw)

    def at(self, t, lo=-1, hi=-1):
        if not self.nodes:
            return select({k: x[0] for k, x in zip(self.nm, self.c)}, lo, hi)
        if self.kind == 'dy':
            t = pymodel.to_dy(t)
        kind = pymodel.INTERP_C0 if self.order == 1 else pymodel.INTERP_C1
        return select({k: pymodel.lerp(t, self.nodes, x, kind) for k, x in zip(self.nm, self.c)}, lo, hi)

    def choices(self, t):
        return [self] if self.valid(t) else []


def add(dicts):
    out = {}
    for d in dicts:
        for k, v in d.items():
            out[k] = num(out[k]) + v if k in out else v
    return out


class Combined(Spec):
    """sum of the sets"""

    def __init__(self, *items):
        self.items = items
        self.internal = items[0].internal
        self.validity = (max(i.validity[0] for i in items), min(i.validity[1] for i in items))

    def limits(self):
        ls = [i.limits() for i in self.items]
        return min(x for x, _ in ls), max(x for _, x in ls)

    def build(self, c):
        return c.w.module('magnetic_model.coefficients').CombinedSHCoefficients(
            *[i.build(c) for i in self.items])

    def at(self, t, lo=-1, hi=-1):
        return add([i.at(t, lo, hi) for i in self.items])

    def choices(self, t):
        return [Sum(x) for x in itertools.product(*[i.choices(t) for i in self.items])]


class Sum:
    def __init__(self, items):
        self.items = items

    def at(self, t, lo=-1, hi=-1):
        return add([i.at(t, lo, hi) for i in self.items])


class Composed(Spec):
    """the first of the sets which is valid; either one at the mere boundary of two sets"""

    def __init__(self, *items):
        self.items = items
        self.internal = items[0].internal
        self.validity = (min(i.validity[0] for i in items), max(i.validity[1] for i in items))

    limits = Combined.limits

    def build(self, c):
        return c.w.module('magnetic_model.coefficients').ComposedSHCoefficients(
            *[i.build(c) for i in self.items])

    def first(self, t):
        for i in self.items:
            if i.valid(t):
                return i
        return self.items[0]

    def at(self, t, lo=-1, hi=-1):
        return self.first(t).at(t, lo, hi)

    def choices(self, t):
        v = [i for i in self.items if i.valid(t)]
        if len(v) > 1 and not any(same(t, x) for i in v for x in i.validity):
            v = v[:1]
        return [y for x in v for y in x.choices(t)]


NM = [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -2), (3, 2)]
NM1 = [(1, 0), (1, -1), (3, 1)]
NM2 = [(2, 0), (2, 2), (4, -3)]


def kinds(c):
    """sets of coefficients of all kinds: name -> specification"""
    S = lambda *a, **k: Sparse(c, *a, **k)
    y = {
        'constant': S('k0', NM, []),
        'constant of a limited validity': S('k1', NM, [], validity=(-50, 70)),
        'external constant': S('k2', NM1, [], internal=False),
        'constant of the degree 0': S('k3', [(0, 0), (2, -2), (1, 0)], []),
        'series of the degree 0': S('k4', [(2, 1), (0, 0)], [-100, 0, 250]),
        'just the degree 0': Combined(S('k5', [(0, 0)], [-100, 250]), S('k6', NM1, [])),
        'time series': S('t0', NM, [-100, 0, 250]),
        'unsorted time series': S('t1', NM, [-100, 0, 250, 300], shuffle=True),
        'piecewise constant series': S('t2', NM, [-100, 0, 250], order=1),
        'extrapolated time series': S('t3', NM, [-100, 0, 250], validity=(-300, 400)),
        'restricted time series': S('t4', NM, [-100, 0, 250], validity=(-40, 90)),
        'external time series': S('t5', NM, [-100, 250], internal=False),
        'single-node series': S('t6', NM1, [33], order=1, validity=(0, 60)),
        'series from the epoch': S('t7', NM, [EPOCH, 100, 250]),
        'series to the epoch': S('t8', NM, [-300, -20, EPOCH]),
        'validity from the epoch': S('t9', NM, [-100, 30, 250], validity=(EPOCH, 200)),
        'validity to the epoch': S('ta', NM, [-100, 30, 250], validity=(-90, EPOCH)),
        'constant from the epoch': S('tb', NM, [], validity=(EPOCH, 200)),
        'constant to the epoch': S('tc', NM, [], validity=(-90, EPOCH)),
        'decimal years': S('d0', NM, [1990, 2000, 2003]),
        'unsorted decimal years': S('d1', NM, [1990, 2000, 2003], shuffle=True),
        'extrapolated decimal years': S('d2', NM, [1990, 2000, 2003], validity=(1980, 2010)),
        'piecewise constant decimal years': S('d3', NM, [1990, 2000, 2003], order=1),
        'series + constant': Combined(S('c0', NM1, [-100, 0, 250]), S('c1', NM2, [])),
        'decimal years + constant': Combined(S('c2', NM1, [1990, 2000, 2003]
                                               , kind='dy'), S('c3', NM2, [])),
        'constant + decimal years': Combined(S('c4', NM2, []), S('c5', NM1, [1990, 2003], kind='dy')),
        'overlapping sets': Combined(S('c6', NM, [-100, 0, 250]), S('c7', NM1, [-300, 90])),
        'series + decimal years': Combined(S('c8', NM1, [-100, 0, 250]), S('c9', NM2, [1990, 2005], kind='dy')),
        'external sum': Combined(S('ca', NM1, [-100, 250], internal=False), S('cb', NM2, [], internal=False)),
        'nested sum': Combined(Combined(S('cc', NM1, [-100, 250]), S('cd', NM2, [])), S('ce', [(5, 5)], [])),
        'sequence': Composed(S('s0', NM, [-100, 0]), S('s1', NM1, [-1, 250])),
        'reversed sequence': Composed(S('s2', NM, [100, 250]), S('s3', NM2, [-90, 150])),
        'overlapping sequence': Composed(S('s4', NM, [-100, 50]), S('s5', NM1, [-20, 250]), S('s6', NM2, [10, 400])),
        'overlapping sequence 2': Composed(S('s7', NM, [-20, 50]), S('s8', NM1, [-100, 250])),
        'sequence of decimal years': Composed(S('s9', NM, [1990, 2002], kind='dy'),
                                              S('sa', NM1, [2001, 2010], kind='dy')),
        'sequence of mixed scales': Composed(S('sb', NM, [1990, 2001], kind='dy'), S('sc', NM1, [0, 2500])),
        'sequence + constant': Combined(Composed(S('sd', NM1, [-100, 10]), S('se', NM1, [5, 250])), S('sf', NM2, [])),
        'sequence + sequence': Combined(Composed(S('sg', NM1, [20, 200]), S('sh', NM1, [-100, 30])),
                                        Composed(S('si', NM2, [60, 300]), S('sj', NM2, [-50, 70]))),
        'sequence of sums': Composed(Combined(S('sk', NM1, [-100, 10]), S('sl', NM2, [])),
                                     Combined(S('sm', NM1, [5, 250]), S('sn', NM2, [-20, 90]))),
    }
    for k in ('decimal years', 'unsorted decimal years', 'extrapolated decimal years',
              'piecewise constant decimal years'):
        o = y[k]
        y[k] = S(o.name, NM, [1990, 2000, 2003], kind='dy', order=o.order, shuffle=o.shuffle,
                 validity=(1980, 2010) if o.kw else None)
    y['touching sequence'] = touching(c)
    return y


def touching(c):
    a, b = Sparse(c, 'x0', NM, [-100, 0]), Sparse(c, 'x1', NM1, [0, 250])
    b.nodes[0] = a.nodes[-1]
    b.given = (b.nodes[0], b.nodes[-1])
    b.validity = b.given
    return Composed(a, b)


def edges(spec):
    """all instants where something changes"""
    if isinstance(spec, Sparse):
        conv = pymodel.to_mjd if spec.kind == 'dy' and spec.nodes else lambda x: x
        return list(spec.validity) + [conv(x) for x in spec.nodes]
    return [e for i in spec.items for e in edges(i)]


def instants(spec):
    """one instant of each class of the order: the edges, between them, outside"""
    es = sorted({e.q for e in edges(spec) if isinstance(e, Num)})
    if not es:
        return [num(-1000), num(17), NAN]
    out = [num(es[0] - 13)]
    for a, b in zip(es, es[1:] + [None]):
        out.append(num(a))
        out.append(num((a + b) / 2 if b is not None else a + 17))
    return out + [NAN]


def field(coeffs, internal, p, ci, co, scale=1):
    g, _ = pymodel.field_at(p, ci, co, coeffs, internal)
    if pymodel.anynan(*g):
        return [NAN] * 3
    s = scale if isinstance(scale, (list, tuple, np.ndarray)) else [scale] * 3
    return [-(num(x) * k) for x, k in zip(g, s)]


def model_at(spec, t, p, ci, co, scale=1, lo=-1, hi=-1):
    """acceptable vectors of the model at one instant and point"""
    if pynum.special(t) or not spec.valid(t):
        return Any([[NAN] * 3])
    ch = spec.choices(t)
    return Any([field(x.at(t, lo, hi), spec.internal, p, ci, co, scale) for x in ch] or [[NAN] * 3])


def place(c, key, ct):
    """generic point in the given coordinate system"""
    if ct == 2:
        return [free(key, 'x'), free(key, 'y'), free(key, 'z')]
    return [pynum.degrees(key, 'lat'), pynum.longitude(key, 'lon'), positive(key, 'rad')]


def arr(x):
    """array of quantities (of the given nesting)"""
    return pymodel.asarray(x)


def model(c, spec, what):
    co = c.call('coefficients: ' + what, spec.build, c)
    return c.call('model: ' + what, c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel, co)


W_MODEL = MM + 'model.py:SphericalHarmomicGeomagneticModel.eval'


@scenario('C17', 'validity of the coefficients and models')
def c17_validity(c):
    c.at('validity-interval', MM + 'coefficients.py')
    for what, spec in kinds(c).items():
        try:
            co = c.call(what, spec.build, c)
            c.equal('validity of ' + what, list(co.validity), list(spec.validity))
            for t in instants(spec):
                r = c.call('is_valid of ' + what, co.is_valid, t)
                want = not pynum.special(t) and spec.valid(t)
                c.true('is_valid of ' + what, bool(r) == want,
                       'time %s the validity interval' % ('inside' if want else 'outside'))
            m = c.call(what, c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel, co)
            c.equal('validity of the model of ' + what, list(m.validity), list(spec.validity))
        except Bad:
            pass


@scenario('C17', 'single times')
def c17_single(c):
    c.at('value-inside-NaN-outside', W_MODEL)
    for what, spec in kinds(c).items():
        try:
            m = model(c, spec, what)
        except Bad:
            continue
        p = place(c, what, 1)
        ok = True
        for t in instants(spec):
            r = c.try_(what, m.eval, t, arr(p))
            if r is not None:
                c.equal(what, r, model_at(spec, t, p, 1, 1))


@scenario('C17', 'arrays of times')
def c17_arrays(c):
    c.at('value-inside-NaN-outside', W_MODEL)
    for what, spec in kinds(c).items():
        try:
            m = model(c, spec, what)
        except Bad:
            continue
        ts = instants(spec)
        ts = ts[::-1] if len(what) % 2 else ts[1:] + ts[:1]
        ps = [place(c, (what, i), 1) for i in range(len(ts))]
        r = c.try_(what, m.eval, arr(ts), arr(ps))
        if r is None:
            continue
        if not c.true(what, getattr(r, 'shape', None) == (len(ts), 3), 'shape of the result'):
            continue
        for i, (t, p) in enumerate(zip(ts, ps)):
            c.equal(what, r[i], model_at(spec, t, p, 1, 1))
            one = c.try_(what, m.eval, t, arr(p))
            if one is not None:
                c.equal(what + ': sample of an array and the same sample alone', r[i], one)


LIMITS = [(-1, -1), (2, -1), (-1, 2), (2, 2), (0, 99), (1, 1), (4, -1), (-1, 0), (7, 9), (3, 2), (0, 0)]


@scenario('C18', 'degree limits and scales')
def c18_options(c):
    c.at('scale-and-degree-limits', W_MODEL)
    ks = kinds(c)
    for j, (what, spec) in enumerate(ks.items()):
        try:
            m = model(c, spec, what)
        except Bad:
            continue
        ts = [t for t in instants(spec) if not pynum.special(t) and spec.valid(t)]
        t = ts[len(ts) // 2]
        p = place(c, what, 1)
        for i, (lo, hi) in enumerate(LIMITS if c.thorough or j % 3 == 0 else LIMITS[:6] + LIMITS[8:9]):
            opt = {}
            if lo >= 0 or i % 2:
                opt['min_degree'] = lo
            if hi >= 0 or i % 2:
                opt['max_degree'] = hi
            s = 1
            if i % 3 == 1:
                s = opt['scale'] = free('scale', i)
            elif i % 3 == 2:
                s = [free('scale', i, k) for k in range(3)]
                opt['scale'] = arr(s) if i % 2 else list(s)
            lab = '%s, %s' % (what, sorted(opt))
            r = c.try_(lab, m.eval, t, arr(p), **opt)
            if r is not None:
                c.equal(lab, r, model_at(spec, t, p, 1, 1, s, lo, hi))
            t2 = [t, ts[0]]
            p2 = [p, place(c, (what, 2), 1)]
            r = c.try_(lab, m.eval, arr(t2), arr(p2), **opt)
            if r is not None and c.true(lab, getattr(r, 'shape', None) == (2, 3), 'shape of the result'):
                for k in range(2):
                    c.equal(lab, r[k], model_at(spec, t2[k], p2[k], 1, 1, s, lo, hi))


@scenario('C18', 'dipole models')
def c18_dipole(c):
    c.at('scale-and-degree-limits', W_DIP)
    cls = c.w.module('magnetic_model.model').DipoleSphericalHarmomicGeomagneticModel
    pole = (pynum.degrees('pole', 0), pynum.longitude('pole', 1))
    ks = kinds(c)
    for what in ks if c.thorough else ('time series', 'overlapping sets', 'sequence of sums', 'external constant'):
        spec = ks[what]
        try:
            m = c.call(what, cls, c.call(what, spec.build, c), pole)
        except Bad:
            continue
        ts = [t for t in instants(spec) if not pynum.special(t) and spec.valid(t)]
        t2 = [ts[len(ts) // 2], ts[0]]
        p2 = [place(c, (what, k), 1) for k in range(2)]
        for i, (lo, hi) in enumerate(LIMITS):
            opt = {k: v for k, v in (('min_degree', lo), ('max_degree', hi)) if v >= 0 or i % 2}
            s = 1
            if i % 3 != 1:
                s = free('scale', i) if i % 3 else [free('scale', i, k) for k in range(3)]
                opt['scale'] = s if i % 3 else arr(s)
            lab = '%s, %s' % (what, sorted(opt))
            want = [Any([dipole_field(x.at(t, lo, hi), spec.internal, p, pole, 1, 1, s) for x in spec.choices(t)])
                    for t, p in zip(t2, p2)]
            for k in range(2):
                r = c.try_(lab, m.eval, t2[k], arr(p2[k]), **opt)
                if r is not None:
                    c.equal(lab, r, want[k])
            r = c.try_(lab, m.eval, arr(t2), arr(p2), **opt)
            if r is not None and c.true(lab, getattr(r, 'shape', None) == (2, 3), 'shape of the result'):
                for k in range(2):
                    c.equal(lab, r[k], want[k])


@scenario('C18', 'degrees')
def c18_degrees(c):
    c.at('degree-attributes', MM + 'coefficients.py')
    for what, spec in kinds(c).items():
        try:
            co = c.call(what, spec.build, c)
            m = c.call(what, c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel, co)
        except Bad:
            continue
        lo, hi = spec.limits()
        for o, n in ((co, 'coefficients'), (m, 'model')):
            c.true('%s of %s' % (n, what), (int(o.min_degree), int(o.degree)) == (lo, hi),
                   'degrees (%s, %s) instead of (%s, %s)' % (o.min_degree, o.degree, lo, hi))


def fits(coeffs, size):
    return all(n * (n + 1) // 2 + abs(m) < size for n, m in coeffs)


def table(coeffs, size):
    out = np.zeros((size, 2), object)
    out[:] = num(0)
    for (n, m), v in coeffs.items():
        i = abs(m) + n * (n + 1) // 2
        out[i, 1 if m < 0 else 0] = v
    return out


@scenario('C18', 'full coefficient matrices')
def c18_matrix(c):
    c.at('coefficient-matrix', MM + 'coefficients.py')
    for what, spec in kinds(c).items():
        try:
            co = c.call(what, spec.build, c)
        except Bad:
            continue
        ts = [t for t in instants(spec) if not pynum.special(t)]
        for i, (lo, hi) in enumerate(LIMITS):
            opt = {k: v for k, v in (('min_degree', lo), ('max_degree', hi)) if v >= 0}
            if i % 2:
                tt = ts
                r = c.try_(what, co, arr(tt), **opt)
            else:
                tt = [ts[i % len(ts)]]
                r = c.try_(what, co, tt[0], **opt)
            if r is None:
                continue
            a, degree = r
            a = obj(a)
            if not i % 2:
                a = a.reshape((1,) + a.shape)
            top = 0
            n = a.shape[-2]
            lab = '%s, %s' % (what, sorted(opt))
            if not c.true(lab, a.ndim == 3 and a.shape[0] == len(tt) and a.shape[2] == 2
                          and n >= (degree + 1) * (degree + 2) // 2, 'shape of the coefficient matrix'):
                continue
            for k, t in enumerate(tt):
                want = spec.at(t, lo, hi)
                top = max([x for x, _ in want] + [0])
                if not c.true(lab, degree >= top and (top + 1) * (top + 2) // 2 <= n,
                              'degree %s below the highest degree of the coefficients' % degree):
                    break
                c.equal(lab, a[k], table(want, n))


# ------------------------------------------------------------------ frames
def axes(lat, lon):
    """axes of the dipole frame"""
    s, c = pymodel.trig(lat)
    sl, cl = pymodel.trig(lon)
    return [s * cl, s * sl, -c], [-sl, cl, num(0)], [c * cl, c * sl, s]


def dots(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def poles():
    """generic and special poles of the dipole"""
    lat, lon = pynum.degrees('pole', 0), pynum.longitude('pole', 1)
    lats = [pynum.degrees('pole', 0, k) for k in range(3)]
    return [(lat, lon), (num(90), lon), (num(-90), lon), (lats[0], num(180)), (lats[1], num(0)), (num(90), num(0)),
            (num(0), lon), (-lats[2], num(-90))] + [
                # nearby, swapped and mirrored poles
                tuple(num(Fraction(x, 10 ** 6)) for x in p) for p in (
                    (70000100, 40000100), (70000101, 40000100), (70000100, 40000101), (40000100, 70000100),
                    (-70000100, 40000100), (70000100, -40000100))]


def to_dipole(xyz, pole):
    return [dots(e, xyz) for e in axes(*pole)]


def from_dipole(g, pole):
    e = axes(*pole)
    return [g[0] * e[0][k] + g[1] * e[1][k] + g[2] * e[2][k] for k in range(3)]


def dipole_field(coeffs, internal, p, pole, ci, co, scale=1, sign=-1):
    """vector of the expansion in the dipole frame in the output frame"""
    xyz = pymodel.cart_of(p, ci)
    if pymodel.anynan(*xyz):
        return [NAN] * 3
    g, _ = pymodel.field_at(to_dipole(xyz, pole), 2, 2, coeffs, internal)
    if pymodel.anynan(*g):
        return [NAN] * 3
    v = pymodel.frame(from_dipole(g, pole), xyz, co, p if ci == 0 else None)
    s = scale if isinstance(scale, (list, tuple, np.ndarray)) else [scale] * 3
    return [sign * num(x) * k for x, k in zip(v, s)]


@scenario('C19', 'models in all coordinate systems')
def c19_systems(c):
    c.at('coordinate-systems', W_MODEL)
    ks = kinds(c)
    for what in ('time series', 'decimal years', 'external time series', 'external sum', 'overlapping sets',
                 'series + decimal years', 'sequence', 'nested sum'):
        spec = ks[what]
        try:
            m = model(c, spec, what)
        except Bad:
            continue
        ts = [t for t in instants(spec) if not pynum.special(t) and spec.valid(t)]
        for ci, co in itertools.product(SYSTEMS, SYSTEMS):
            lab = '%s, %s to %s' % (what, SYSTEMS[ci], SYSTEMS[co])
            p = place(c, (what, ci), ci)
            t = ts[(ci + co) % len(ts)]
            s = free('scale')
            if ci == co == 0:
                r = c.try_(lab, m.eval, t, arr(p), ci, co)
                s = 1
            elif ci == co == 1:
                r = c.try_(lab, m.eval, t, arr(p), scale=s)
            else:
                r = c.try_(lab, m.eval, t, arr(p), input_coordinate_system=ci,
                           output_coordinate_system=co, scale=s)
            if r is not None:
                c.equal(lab, r, model_at(spec, t, p, ci, co, s))
            t2, p2 = [ts[0], t], [place(c, (what, ci, 'b'), ci), p]
            r = c.try_(lab, m.eval, arr(t2), arr(p2), ci, co)
            if r is not None and c.true(lab, getattr(r, 'shape', None) == (2, 3), 'shape of the result'):
                for k in range(2):
                    c.equal(lab, r[k], model_at(spec, t2[k], p2[k], ci, co))


W_DIP = MM + 'model.py:DipoleSphericalHarmomicGeomagneticModel'


@scenario('C19', 'dipole models')
def c19_dipole(c):
    c.at('dipole-frame', W_DIP)
    cls = c.w.module('magnetic_model.model').DipoleSphericalHarmomicGeomagneticModel
    ks = kinds(c)
    ps = poles()
    names = ['time series', 'external sum', 'overlapping sets', 'decimal years + constant', 'sequence']
    for j, (what, pole) in enumerate([(w, ps[0]) for w in names] + [(names[k % 5], q) for k, q in enumerate(ps[1:])]):
        spec = ks[what]
        try:
            co_ = c.call(what, spec.build, c)
            m = c.call(what, cls, co_, pole if j else list(pole))
        except Bad:
            continue
        c.equal(what + ': validity', list(m.validity), list(spec.validity))
        inst = instants(spec)
        ts = [t for t in inst if not pynum.special(t) and spec.valid(t)]
        for i, (ci, co) in enumerate(itertools.product(SYSTEMS, SYSTEMS)):
            lab = '%s, %s to %s' % (what, SYSTEMS[ci], SYSTEMS[co])
            p = place(c, (what, ci), ci)
            t = ts[(ci + co) % len(ts)]
            opt, s, lo, hi = {}, 1, -1, -1
            if i % 3 == 1:
                opt['scale'] = s = free('scale')
            elif i % 3 == 2:
                s = [free('scale', k) for k in range(3)]
                opt['scale'] = arr(s)
            if i % 2:
                opt['max_degree'] = hi = 2
            if i % 4 == 2:
                opt['min_degree'] = lo = 2
            r = c.try_(lab, m.eval, t, arr(p), ci, co, **opt)
            if r is not None:
                c.equal(lab, r, Any([dipole_field(x.at(t, lo, hi), spec.internal, p, pole, ci, co, s)
                                     for x in spec.choices(t)]))
            t2 = [ts[0], inst[0], t, NAN]
            p2 = [place(c, (what, ci, k), ci) for k in range(4)]
            r = c.try_(lab, m.eval, arr(t2), arr(p2), ci, co, **opt)
            if r is not None and c.true(lab, getattr(r, 'shape', None) == (4, 3), 'shape of the result'):
                for k in range(4):
                    c.equal(lab, r[k], Any([dipole_field(x.at(t2[k], lo, hi), spec.internal, p2[k], pole, ci, co, s)
                                            for x in spec.choices(t2[k])]
                                           if k in (0, 2) else [[NAN] * 3]))


def points(c, key, ct, shape):
    out = np.empty(shape + (3,), object)
    for i in np.ndindex(*shape):
        out[i] = place(c, (key, i), ct)
    return out


def frees(key, shape):
    out = np.empty(shape, object)
    for i in np.ndindex(*shape):
        out[i] = free(key, i)
    return out


def each(f, shape, tail=3):
    out = np.empty(shape + ((tail,) if tail else ()), object)
    for i in np.ndindex(*shape):
        out[i] = f(i)
    return out


@scenario('C19', 'spherical harmonics in the dipole frame')
def c19_sheval(c):
    c.at('dipole-frame', PK + 'dipole.py:sheval_dipole')
    mod = c.w.module('')
    P, G, B = pymodel.POTENTIAL, pymodel.GRADIENT, pymodel.BOTH
    ps = poles()
    coef = frees('coef', (10, 2))
    for j in (0, 1, 3, 6):
        coef[j, 1] = num(0)
    n = 0
    for ci, co, mode in itertools.product(SYSTEMS, SYSTEMS, (None, P, G, B)):
        n += 1
        pole = ps[n // 2 % len(ps)] if n % 2 else ps[0]
        lab = '%s to %s, mode %s' % (SYSTEMS[ci], SYSTEMS[co], mode)
        shape = ((), (2,), (1, 2))[n % 3]
        x = points(c, n, ci, shape)
        kw = {} if mode is None else {'mode': mode}
        if not (ci == 0 and n % 2):
            kw['coord_type_in'] = ci
        if not (co == 0 and n % 2):
            kw['coord_type_out'] = co
        internal, degree, sp, sg = True, -1, 1, 1
        if n % 3 == 0:
            internal = kw['is_internal'] = False
        if n % 4 == 0:
            degree = kw['degree'] = 2
        if n % 2 == 0:
            sp = kw['scale_potential'] = free('sp')
            sg = kw['scale_gradient'] = free('sg')
        elif n % 5 == 0:
            sg = [free('sg', k) for k in range(3)]
            kw['scale_gradient'] = arr(sg) if n % 3 else list(sg)
        r = c.try_(lab, mod.sheval_dipole, x, coef, pole[0], pole[1], **kw)
        if r is None:
            continue
        co_ = pymodel.full_coeffs(coef, degree)
        vec = each(lambda i: dipole_field(co_, internal, x[i], pole, ci, co, sg, 1), shape)
        pot = each(lambda i: pymodel.field_at(to_dipole(pymodel.cart_of(x[i], ci), pole), 2, 2, co_,
                                              internal)[1] * sp, shape, 0)
        if mode in (None, G):
            c.equal(lab, r, vec)
        elif mode == P:
            c.equal(lab, r, pot)
        elif c.true(lab, isinstance(r, tuple) and len(r) == 2, 'a potential and a gradient are expected'):
            c.equal(lab + ': potential', r[0], pot)
            c.equal(lab + ': gradient', r[1], vec)


@scenario('C19', 'dipole coordinates')
def c19_coords(c):
    c.at('dipole-frame', PK + 'dipole_coords.py')
    mod = c.w.module('dipole_coords')
    pub = c.w.module('')
    for pole in poles():
        r = c.try_('rotation matrix', mod.get_dipole_rotation_matrix, *pole)
        if r is not None:
            e = axes(*pole)
            c.equal('rotation matrix', r, each(lambda i: e[i[1]][i[0]], (3, 3), 0))
        for ci, shape in itertools.product(SYSTEMS, ((), (2,), (2, 1))):
            x = points(c, ci, ci, shape)
            kw = {} if ci == 1 and shape == (2,) else {'coord_type_in': ci}
            lab = 'coordinates from the %s ones' % SYSTEMS[ci]
            r = c.try_(lab, pub.convert_to_dipole, x, *pole, **kw)
            if r is not None:
                c.equal(lab, r, each(lambda i: pymodel.from_cart(
                    to_dipole(pymodel.cart_of(x[i], ci), pole), 1), shape))
        for co, shape in itertools.product(SYSTEMS, ((), (2,), (2, 1))):
            v = frees(('v', co), shape + (3,))
            la, lo, la2, lo2 = [each(lambda i: (pynum.longitude if k % 2 else pynum.degrees)('ang', k, co, i), shape, 0) for k in range(4)]
            if not shape:
                la, lo, la2, lo2 = [x[()] for x in (la, lo, la2, lo2)]
            lab = 'vectors to the %s frame' % SYSTEMS[co]
            if co == 2:
                r = c.try_(lab, pub.vrot_from_dipole, v, pole[0], pole[1], la, lo, **(
                    {} if shape else {'lat_out': None, 'lon_out': None, 'coord_type_out': co}))
            else:
                r = c.try_(lab, pub.vrot_from_dipole, v, pole[0], pole[1], la, lo, la2, lo2, co)
            if r is not None:
                get = lambda a, i: a[i] if shape else a

                def want(i):
                    g = from_dipole(pymodel.sph2cart(v[i], get(la, i), get(lo, i)), pole)
                    return g if co == 2 else pymodel.cart2sph(g, get(la2, i), get(lo2, i))
                c.equal(lab, r, each(want, shape))


@scenario('C19', 'rotation of vectors between the coordinate systems')
def c19_vrotate(c):
    c.at('vector-frames', PK + 'util.py:vrotate')
    pub = c.w.module('')
    for a, b, shape in itertools.product(SYSTEMS, SYSTEMS, ((), (2,), (1, 2))):
        lab = '%s to %s' % (SYSTEMS[a], SYSTEMS[b])
        xyz = points(c, 'xyz', 2, shape)
        xa = each(lambda i: pymodel.from_cart(xyz[i], a), shape)
        xb = each(lambda i: pymodel.from_cart(xyz[i], b), shape)
        g = frees('g', shape + (3,))
        va = each(lambda i: pymodel.frame(g[i], xyz[i], a), shape)
        vb = each(lambda i: pymodel.frame(g[i], xyz[i], b), shape)
        ins = [xa]
        outs = [xb]
        if a == 2 or a == b:
            ins.append(None)
        if b == 2 or a == b:
            outs.append(None)
        for k, l in itertools.product(ins, outs):
            r = c.try_(lab, pub.vrotate, va, k, l, a, b)
            if r is not None:
                c.equal(lab, r, vb)
    g = frees('g', (3,))
    for a, b in ((0, 7), (1, 7), (2, 7), (7, 0)):
        x = points(c, 'x', 1, ())
        c.raises('unknown coordinate system %s to %s' % (a, b), ValueError, pub.vrotate, g, x, x, a, b)
    c.at('vector-norm', PK + 'util.py:vnorm')
    for shape in ((), (2,), (2, 1, 2)):
        v = frees('v', shape + (3,))
        r = c.try_('norm', pub.vnorm, v)
        if r is not None:
            c.equal('norm', r, each(lambda i: dots(v[i], v[i]).sqrt(), shape, 0))
    r = c.try_('norm', pub.vnorm, list(free('w', k) for k in range(3)))
    if r is not None:
        c.equal('norm', r, sum((free('w', k) * free('w', k) for k in range(3)), num(0)).sqrt())
    c.at('vector-inclination-declination', PK + 'util.py:vincdecnorm')
    for shape in ((), (2,), (2, 1, 2)):
        v = frees('v', shape + (3,))
        r = c.try_('inclination, declination and norm', pub.vincdecnorm, v)
        if r is None:
            continue
        inc, dec, nrm = [obj(x) for x in r]
        for i in np.ndindex(*shape):
            f = dots(v[i], v[i]).sqrt()
            h = (v[i][0] * v[i][0] + v[i][1] * v[i][1]).sqrt()
            s, k = pymodel.trig(inc[i])
            c.equal('inclination', [s * f, k * f], [-v[i][2], h])
            s, k = pymodel.trig(dec[i])
            c.equal('declination', [s * h, k * h], [v[i][1], v[i][0]])
            c.equal('norm', nrm[i], f)


@scenario('C19', 'magnetic universal time')
def c19_mut(c):
    c.at('magnetic-universal-time', PK + 'magnetic_time.py:mjd2000_to_magnetic_universal_time')
    f = c.w.module('').mjd2000_to_magnetic_universal_time
    for pole, shape in [(q, s) for k, q in enumerate(poles()) for s in ((), (3,), (2, 2))[:1 if k else 3]]:
        t = each(lambda i: ranked(100, i), shape, 0)
        if not shape:
            t = t[()]
        sun = [each(lambda i: (pynum.longitude if k % 2 else pynum.degrees)('sol', k, i), shape, 0) for k in range(2)]
        cases = [('given sub-solar points', {'lat_sol': sun[0] if shape else sun[0][()],
                                             'lon_sol': sun[1] if shape else sun[1][()]}, 1),
                 ('Sun model', {}, 0), ('only a sub-solar latitude', {'lat_sol': sun[0]}, 0),
                 ('only a sub-solar longitude', {'lon_sol': sun[1]}, 0),
                 ('one sub-solar point', {'lat_sol': sun[0].reshape(-1)[0], 'lon_sol': sun[1].reshape(-1)[0]}, 2)]
        for lab, kw, own in cases:
            r = c.try_(lab, f, t, pole[0], pole[1], **kw)
            if r is None:
                continue
            r = obj(r)
            if own == 2 and r.shape == ():
                sh, own_ = (), 1
            else:
                sh = shape
            if not c.true(lab, r.shape == sh, 'shape %s of the result' % (r.shape,)):
                continue
            for i in np.ndindex(*sh):
                if own:
                    la, lo = [obj(x)[i if own == 1 else (0,) * len(shape)] if own == 1 or not i
                              else x.reshape(-1)[0] for x in sun]
                else:
                    tt = t[i] if shape else t
                    q = [pynum.fun('sunpos', k, num(tt), num(0), num(0), num(0), num(0)) for k in range(5)]
                    la, lo = q[0], -q[2]
                s, k = pymodel.trig(la)
                # longitude of the Sun in the dipole frame
                sl, cl = pymodel.trig(lo)
                x, y, _ = to_dipole([k * cl, k * sl, s], pole)
                rho = (x * x + y * y).sqrt()
                s, k = pymodel.trig((12 - r[i]) * 15)
                c.equal(lab, [k * rho, s * rho], [x, y])


# ------------------------------------------------------------------ sequences and sums of sets
class Piece(Sparse):
    """constant set of one coefficient valid in the interval of the given positions"""

    def __init__(self, c, name, start, end, nm=(1, 0)):
        super().__init__(c, name, [nm], [])
        self.given = self.validity = tuple(x if pynum.special(x) else num(x) for x in (start, end))
        self.kw = {'validity_start': self.given[0], 'validity_end': self.given[1]}


def has_gap(intervals):
    end = None
    for s, e in sorted(intervals):
        if end is not None and s > end:
            return True
        end = e if end is None else max(e, end)
    return False


def sequences(n, top):
    iv = [(a, b) for a in range(top) for b in range(a + 1, top + 1)]
    return itertools.product(iv, repeat=n)


def compare_model(c, what, spec, m, both=True):
    es = sorted({e.q for e in edges(spec) if isinstance(e, Num)})
    ts = [num(es[0] - 1)]
    for a, b in zip(es, es[1:] + [es[-1] + 2]):
        ts += [num(a), num((a + b) / 2)]
    p = place(c, 'p', 1)
    r = c.try_(what, m.eval, arr(ts), arr([p] * len(ts)))
    want = [model_at(spec, t, p, 1, 1) for t in ts]
    if r is not None and c.true(what, getattr(r, 'shape', None) == (len(ts), 3), 'shape of the result'):
        for i, w in enumerate(want):
            c.equal(what + ' (array of times)', r[i], w)
            if both:
                one = c.try_(what, m.eval, ts[i], arr(p))
                if one is not None:
                    c.equal(what + ' (single time)', one, w)
                    c.equal(what + ' (single time and array)', r[i], one)


@scenario('C20', 'first valid set of a sequence')
def c20_sequence(c):
    c.at('first-valid-set', MM + 'coefficients.py:ComposedSHCoefficients')
    co = c.w.module('magnetic_model.coefficients')
    cls = c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel
    jobs = list(sequences(2, 3)) + list(sequences(3, 3 if not c.thorough else 4))
    if not c.thorough:
        k = c.seed % 3
        jobs = [j for i, j in enumerate(jobs) if len(j) == 2 or i % 3 == k]
    for ivs in jobs:
        items = [Piece(c, ('q', i), *iv, nm=(1 + i, i)) for i, iv in enumerate(ivs)]
        spec = Composed(*items)
        what = 'sets valid in %s' % ', '.join('%d-%d' % x for x in ivs)
        built = [i.build(c) for i in items]
        if has_gap(ivs):
            c.raises(what, ValueError, co.ComposedSHCoefficients, *built)
            continue
        o = c.try_(what, co.ComposedSHCoefficients, *built)
        if o is None:
            continue
        c.equal(what + ': validity', list(o.validity), list(spec.validity))
        m = c.try_(what, cls, o)
        if m is not None:
            compare_model(c, what, spec, m, c.thorough or len(ivs) == 2)


@scenario('C20', 'time gaps of sequences')
def c20_gaps(c):
    c.at('time-gaps', MM + 'coefficients.py:ComposedSHCoefficients')
    co = c.w.module('magnetic_model.coefficients')
    items = {}
    for k in range(4):
        for iv in {x for (x,) in sequences(1, 4)}:
            items[k, iv] = Piece(c, ('q', k), *iv, nm=(1, 0))
    built = {k: v.build(c) for k, v in items.items()}
    jobs = list(sequences(3, 4))
    if c.thorough:
        jobs += [x for x in sequences(4, 4) if x[0][0] == 0]
    for ivs in jobs:
        what = 'sets valid in %s' % ', '.join('%d-%d' % x for x in ivs)
        bs = [built[k, iv] for k, iv in enumerate(ivs)]
        if has_gap(ivs):
            c.raises(what, ValueError, co.ComposedSHCoefficients, *bs)
            continue
        o = c.try_(what, co.ComposedSHCoefficients, *bs)
        if o is not None:
            c.equal(what + ': validity', list(o.validity),
                    list(Composed(*[items[k, iv] for k, iv in enumerate(ivs)]).validity))


@scenario('C20', 'sums of sequences')
def c20_sums(c):
    c.at('sum-of-the-sets', MM + 'coefficients.py:CombinedSHCoefficients')
    co = c.w.module('magnetic_model.coefficients')
    cls = c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel
    jobs = list(sequences(4, 3))
    step = 1 if c.thorough else 9
    jobs = [j for i, j in enumerate(jobs)
            if not has_gap(j[:2]) and not has_gap(j[2:]) and i % step == c.seed % step]
    for ivs in jobs:
        it = [Piece(c, ('q', i), *iv, nm=(1 + i // 2, i % 2 if i < 3 else -2)) for i, iv in enumerate(ivs)]
        a, b = Composed(it[0], it[1]), Composed(it[2], it[3])
        spec = Combined(a, b)
        what = 'sets valid in %s + sets valid in %s' % tuple(
            ', '.join('%d-%d' % x for x in y) for y in (ivs[:2], ivs[2:]))
        o = c.try_(what, spec.build, c)
        if o is None:
            continue
        c.equal(what + ': validity', list(o.validity), list(spec.validity))
        m = c.try_(what, cls, o)
        if m is not None:
            compare_model(c, what, spec, m, c.thorough)


@scenario('C20', 'sums of the same degrees')
def c20_same(c):
    c.at('sum-of-the-sets', MM + 'coefficients.py:CombinedSHCoefficients')
    cls = c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel
    S = lambda *a, **k: Sparse(c, *a, **k)
    A, B, D = [(1, 0), (2, 1), (2, -1)], [(3, 2), (2, -1)], [(2, 1), (2, -1)]
    for what, spec in (
            ('series', Combined(S('a', A, [0, 10]), S('b', B, [2, 8]))),
            ('series and constant', Combined(S('c', A, [0, 10]), S('d', D, []))),
            ('constant and series', Combined(S('e', D, []), S('f', B, [0, 10]))),
            ('constants', Combined(S('g', D, [], validity=(1, 9)), S('h', B, [], validity=(2, 12)))),
            ('three sets', Combined(S('i', A, [0, 10]), S('j', B, [-5, 3, 20]), S('k', D, [], validity=(1, 30)))),
            ('last of three sets', Combined(S('l', [(1, 0)], [0, 10]), S('m', B, [-5, 3, 20]),
                                            S('n', D, [2, 30], order=1))),
            ('same set twice', Combined(S('o', A, [0, 10]), S('o', A, [0, 10]))),
            ('nested', Combined(Combined(S('p', A, [0, 10]), S('q', [(4, 0)], [])), S('r', D, [2, 8]))),
            ('sequences', Combined(Composed(S('s', A, [0, 11]), S('t', B, [10, 20])),
                                   Composed(S('u', D, [-3, 5]), S('v', A, [4, 25])))),
            ('decimal years', Combined(S('w', A, [1990, 2005], kind='dy'), S('x', D, [1995, 2010], kind='dy')))):
        o = c.try_(what, spec.build, c)
        m = None if o is None else c.try_(what, cls, o)
        if m is not None:
            compare_model(c, what, spec, m)


@scenario('C20', 'decomposition')
def c20_decompose(c):
    c.at('decomposition', MM + 'coefficients.py')
    for what, spec in kinds(c).items():
        o = c.try_(what, spec.build, c)
        if o is None:
            continue
        parts = c.try_(what, o.decompose)
        if parts is None:
            continue
        parts = list(parts)
        for t in instants(spec):
            if pynum.special(t):
                continue
            sel = [p for (s, e), p in parts if bool(s <= t) and bool(t <= e)]
            edge = any(same(t, x) for x in edges(spec))
            c.true(what + ': parts', bool(sel) == spec.valid(t), 'parts do not cover the validity interval')
            if not edge:
                c.true(what + ': parts', len(sel) <= 1, 'overlapping parts')
            for p in sel:
                r = c.try_(what, p, t)
                if r is not None:
                    a, _ = r
                    a = obj(a)
                    c.equal(what + ': part', a, Any([table(x.at(t), a.shape[0]) for x in spec.choices(t)
                                                        if fits(x.at(t), a.shape[0])]))


@scenario('C20', 'single set and rejected sets')
def c20_invalid(c):
    c.at('composition-checks', MM + 'coefficients.py')
    co = c.w.module('magnetic_model.coefficients')
    mk = lambda k, a, b, internal=True: Sparse(c, k, NM1, [a, b], internal=internal).build(c)
    for name in ('ComposedSHCoefficients', 'CombinedSHCoefficients'):
        cls = getattr(co, name)
        c.raises(name + ' of no set', ValueError, cls)
        a = mk('a', 0, 10)
        c.true(name + ' of one set', c.try_(name, cls, a) is a, 'one set is not passed through')
        for other in ('ComposedSHCoefficients', 'CombinedSHCoefficients'):
            what = '%s of one %s' % (name, other)
            sa, sb = Sparse(c, 'a', NM1, [0, 10]), Sparse(c, 'b', [(3, 2)], [4, 20])
            spec = (Composed if other[4] == 'o' else Combined)(sa, sb)
            o = getattr(co, other)(sa.build(c), sb.build(c))
            r = c.try_(what, cls, o)
            if r is None:
                continue
            c.true(what, r is o, 'one set is not passed through')
            c.equal(what + ': validity', c.try_(what, lambda: list(r.validity)), list(spec.validity))
            c.true(what, c.try_(what, lambda: (int(r.min_degree), int(r.degree))) == (1, 3), 'degrees')
            m = c.try_(what, c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel, r)
            if m is not None:
                compare_model(c, what, spec, m, False)
        for x in (mk('e', 2, 8, False), mk('e', -5, 20, False)):
            c.raises(name + ' of internal and external sets', ValueError, cls, a, x)
            c.raises(name + ' of external and internal sets', ValueError, cls, x, a)
            c.raises(name + ' of internal and external sets', ValueError, cls, a, mk('b', 1, 9), x)
        for flag in (True, False):
            r = c.try_(name, cls, mk('a', 0, 10, flag), mk('b', 5, 20, flag))
            c.true(name, r is None or bool(r.is_internal) == flag, 'the kind of the field is lost')


# ------------------------------------------------------------------ composed models
class Part:
    """component of a composed model"""

    def __init__(self, m, spec, scale=None, pole=None, **params):
        self.m, self.spec, self.scale, self.pole, self.params = m, spec, scale, pole, params

    def vector(self, t, p, scale=None, **opt):
        """spherical components at a spherical point"""
        if pynum.special(t) or not self.spec.valid(t):
            return [NAN] * 3
        co = self.spec.choices(t)
        assert len(co) == 1
        co = co[0].at(t, opt.get('min_degree', -1), opt.get('max_degree', -1))
        s = 1 if scale is None else scale
        if self.pole:
            return dipole_field(co, self.spec.internal, p, self.pole, 1, 1, s)
        return field(co, self.spec.internal, p, 1, 1, s)


def composed_at(parts, t, p, ci, co, final=None, **opt):
    xyz = pymodel.cart_of(p, ci)
    if not parts:
        if pynum.special(t) and t != t:
            return [NAN] * 3
        return [num(0)] * 3
    sph = pymodel.from_cart(xyz, 1)
    tot = [num(0)] * 3
    for q in parts:
        o = dict(opt)
        o.update(q.params)
        v = q.vector(t, sph, q.scale, **o)
        tot = [a + num(b) if not pynum.special(a) and not pynum.special(num(b)) else NAN for a, b in zip(tot, v)]
    if pymodel.anynan(*tot):
        return [NAN] * 3
    v = tot
    if co != 1:
        v = pymodel.frame(pymodel.sph2cart(tot, sph[0], sph[1]), xyz, co, p if ci == 0 else None)
    s = final if isinstance(final, (list, tuple, np.ndarray)) else [1 if final is None else final] * 3
    return [x * k for x, k in zip(v, s)]


W_COMP = MM + 'model_composed.py:ComposedGeomagneticModel'


def component_models(c):
    ks = kinds(c)
    mo = c.w.module('magnetic_model.model')
    pole = (pynum.degrees('pole', 0), pynum.longitude('pole', 1))
    a = Part(model(c, ks['time series'], 'a'), ks['time series'])
    b = Part(model(c, ks['external time series'], 'b'), ks['external time series'])
    s = ks['series + constant']
    d = Part(c.call('dipole model', mo.DipoleSphericalHarmomicGeomagneticModel, s.build(c), pole), s, pole=pole)
    o = ks['overlapping sets']
    e = Part(model(c, o, 'e'), o)
    return a, b, d, e


@scenario('C21', 'sum of the scaled components')
def c21_sum(c):
    c.at('weighted-sum', W_COMP)
    cls = c.w.module('magnetic_model.model_composed').ComposedGeomagneticModel
    a, b, d, e = component_models(c)
    k1, k2 = free('k1'), [free('k2', i) for i in range(3)]
    cases = [
        ('no component', []),
        ('one model', [(a, None, {})]),
        ('model - model', [(a, num(1), {}), (e, num(-1), {})]),
        ('scaled models', [(a, k1, {}), (b, arr(k2), {}), (d, None, {})]),
        ('models with own degrees', [(a, k1, {'max_degree': 2}), (e, None, {'min_degree': 2, 'max_degree': 3}),
                                     (d, k1, {})]),
    ]
    ts = [num(13), num(-130), num(80), NAN, num(9999)]
    for what, comps in cases:
        m = c.call(what, cls, *[x[0].m for x in comps] if what == 'one model' else [])
        if what != 'one model':
            for q, s, params in comps:
                kw = dict(params)
                if s is not None:
                    kw['scale'] = s
                c.call(what, m.push, q.m, **kw)
        parts = [Part(q.m, q.spec, s, q.pole, **params) for q, s, params in comps]
        n = 0
        for ci, co in itertools.product(SYSTEMS, SYSTEMS):
            n += 1
            lab = '%s, %s to %s' % (what, SYSTEMS[ci], SYSTEMS[co])
            opt, fin = {}, None
            if n % 3 == 1:
                fin = opt['scale'] = free('final')
            elif n % 3 == 2:
                fin = [free('final', i) for i in range(3)]
                opt['scale'] = arr(fin)
            lim = {}
            if n % 2:
                lim['max_degree'] = 1 + n % 3
            if n % 4 == 1:
                lim['min_degree'] = 1
            ps = [place(c, (n, i), ci) for i in range(len(ts))]
            want = [composed_at(parts, t, p, ci, co, fin, **lim) for t, p in zip(ts, ps)]
            kw = dict(opt, **lim)
            if n % 2:
                kw.update(input_coordinate_system=ci, output_coordinate_system=co)
                pos = ()
            else:
                pos = (ci, co)
            r = c.try_(lab, m.eval, arr(ts), arr(ps), *pos, **kw)
            if r is not None:
                c.equal(lab + ' (array)', r, arr(want))
            for i in (0, 1, 3):
                r = c.try_(lab, m.eval, ts[i], arr(ps[i]), *pos, **kw)
                if r is not None:
                    c.equal(lab, r, arr(want[i]))
            r = c.try_(lab, m.eval, ts[0], arr(ps), *pos, **kw)
            if r is not None:
                c.equal(lab + ' (one time)', r,
                        arr([composed_at(parts, ts[0], p, ci, co, fin, **lim) for p in ps]))
            r = c.try_(lab, m.eval, arr(ts), arr(ps[0]), *pos, **kw)
            if r is not None:
                c.equal(lab + ' (one location)', r,
                        arr([composed_at(parts, t, ps[0], ci, co, fin, **lim) for t in ts]))


@scenario('C21', 'nested composed models')
def c21_nested(c):
    c.at('weighted-sum', W_COMP)
    cls = c.w.module('magnetic_model.model_composed').ComposedGeomagneticModel
    a, b, d, e = component_models(c)
    k = [free('k', i) for i in range(4)]
    inner = c.call('inner model', cls)
    c.call('push', inner.push, a.m, k[0])
    c.call('push', inner.push, d.m, scale=k[1], max_degree=2)
    outer = c.call('outer model', cls, b.m)
    c.call('push', outer.push, inner, k[2])
    c.call('push', outer.push, inner, scale=k[3], min_degree=2)
    c.call('push', outer.push, e.m)
    for ci, co in ((0, 0), (1, 2), (2, 1), (2, 0)):
        t, p = num(13), place(c, 'p', ci)
        sph = pymodel.from_cart(pymodel.cart_of(p, ci), 1)
        parts = [Part(b.m, b.spec), Part(a.m, a.spec, k[0] * k[2]), Part(d.m, d.spec, k[1] * k[2], d.pole, max_degree=2),
                 Part(a.m, a.spec, k[0] * k[3], min_degree=2),
                 Part(d.m, d.spec, k[1] * k[3], d.pole, min_degree=2, max_degree=2), Part(e.m, e.spec)]
        r = c.try_('nested models', outer.eval, t, arr(p), ci, co)
        if r is not None:
            c.equal('nested models, %s to %s' % (SYSTEMS[ci], SYSTEMS[co]), r, arr(composed_at(parts, t, p, ci, co)))


@scenario('C21', 'validity and parameters')
def c21_validity(c):
    c.at('common-validity', W_COMP)
    cls = c.w.module('magnetic_model.model_composed').ComposedGeomagneticModel
    m0 = c.call('no component', cls)
    c.equal('validity of no component', list(m0.validity), [-INF, INF])
    ivs = list(sequences(2, 3)) + list(sequences(3, 3))[::(1 if c.thorough else 5)]
    mo = c.w.module('magnetic_model.model').SphericalHarmomicGeomagneticModel
    ms = {}
    for s in ivs:
        for iv in s:
            if iv not in ms:
                ms[iv] = c.call('model', mo, Piece(c, iv, *iv).build(c))
    for s in ivs:
        lo, hi = max(x for x, _ in s), min(x for _, x in s)
        m = c.call('models', cls, *[ms[x] for x in s])
        got = list(m.validity)
        if lo <= hi:
            c.equal('validity of models valid in %s' % (s,), got, [num(lo), num(hi)])
        else:
            ts = [num(x) / 2 for x in range(-1, 8)]
            c.true('validity of models with no common validity', not any(got[0] <= t <= got[1] for t in ts),
                   'the validity is not empty')
        m = c.call('models', cls)
        for x in s:
            c.call('push', m.push, ms[x])
        if lo <= hi:
            c.equal('validity of models valid in %s' % (s,), list(m.validity), [num(lo), num(hi)])
    m = c.call('models', cls, *[ms[x] for x in ivs[0]])
    c.true('parameters', set(m.parameters) == {'time', 'location'}, 'parameters %s' % (m.parameters,))
    mio = mio_models(c)[0][1]
    c.call('push', m.push, mio)
    c.true('parameters', set(m.parameters) == {'time', 'location', 'f107', 'subsolar_point'},
           'parameters %s' % (m.parameters,))
    m = c.call('models', cls, ms[ivs[0][0]])
    c.call('push', m.push, mio, 2, f107=num(90), lat_sol=num(10), lon_sol=num(20))
    c.call('push', m.push, c.call('models', cls, mio, ms[ivs[0][0]]), max_degree=2)
    c.true('parameters', set(m.parameters) == {'time', 'location', 'f107', 'subsolar_point'},
           'parameters %s' % (m.parameters,))


# ------------------------------------------------------------------ Swarm ionospheric models
EXTENT = [(-1, 1, 0, 1), (0, 0, -1, 1), (-2, 0, 1, 1)]


class Mio:
    def __init__(self, c, name, nm, extent, internal):
        pmin, pmax, smin, smax = extent
        self.nm, self.extent, self.internal = nm, extent, internal
        self.c = frees(('mio', name), (len(nm), smax - smin + 1, pmax - pmin + 1, 2))
        self.validity = (-INF, INF)

    def at(self, t, mut, lo=-1, hi=-1):
        pmin, _, smin, _ = self.extent
        if pynum.special(t) or pynum.special(mut):
            return None
        return select({k: pymodel.fourier(pymodel.to_yf(t), mut, x, smin, pmin, pynum.PI * 2, pynum.PI / 12)
                       for k, x in zip(self.nm, self.c)}, lo, hi)

    def build(self, c, **kw):
        cls = c.w.module('magnetic_model.coefficients_mio').SparseSHCoefficientsMIO
        return c.call('coefficients', cls, np.array(self.nm), self.c, self.extent, is_internal=self.internal, **kw)


def mut_of(t, pole, sun=None):
    if pynum.special(t):
        return NAN
    if sun is None:
        q = [pynum.fun('sunpos', k, num(t), num(0), num(0), num(0), num(0)) for k in range(5)]
        sun = q[0], -q[2]
    s, k = pymodel.trig(sun[0])
    sl, cl = pymodel.trig(sun[1])
    x, y, _ = to_dipole([k * cl, k * sl, s], pole)
    r = (x * x + y * y).sqrt().inverse()
    return 12 - pynum.angle_of((y * r).v, (x * r).v) / 15


def mio_vector(mio, pole, wolf, t, p, ci, co, f107=None, sun=None, scale=1, lo=-1, hi=-1):
    if f107 is not None and pynum.special(num(f107)):
        return [NAN] * 3
    co_ = mio.at(t, mut_of(t, pole, sun), lo, hi)
    if co_ is None:
        return [NAN] * 3
    v = dipole_field(co_, mio.internal, p, pole, ci, co, scale)
    k = 1 if f107 is None else 1 + wolf * f107
    return [x * k for x in v]


W_MIO = MM + 'model_mio.py:DipoleMIOGeomagneticModel'
NMIO = [(1, 0), (1, 1), (1, -1), (2, 1), (3, -2)]


def mio_models(c):
    """models: name, model, specification, pole, Wolf ratio"""
    mod = c.w.module('magnetic_model.model_mio')
    out = []
    for j, ext in enumerate(EXTENT):
        mio = Mio(c, j, NMIO if j != 1 else [(2, 0), (4, 3), (2, -2), (3, 1)], ext, j != 1)
        pole = (pynum.degrees('pole', j, 0), pynum.longitude('pole', j, 1))
        wolf = num(0.014850) if j == 2 else free('wolf', j)
        kw = {} if j == 2 else {'wolf_ratio': wolf}
        m = c.call('model', mod.DipoleMIOGeomagneticModel, mio.build(c), pole, **kw)
        out.append(('series %d to %d, %d to %d' % ext, m, mio, pole, wolf))
    return out


@scenario('C17', 'validity of the ionospheric and dipole models')
def c17_dipole(c):
    """validities limited by the start and end of the coefficients, for single times and arrays"""
    c.at('value-inside-NaN-outside', W_MIO)
    mod = c.w.module('magnetic_model.model_mio')
    pole = (pynum.degrees('pole', 0), pynum.longitude('pole', 1))
    wolf = free('wolf')
    lims = [(ranked(-50, 'a'), ranked(400, 'b')), (ranked(60, 'c'), ranked(700, 'd')), (ranked(-90, 'e'), INF),
            (-INF, ranked(350, 'f')), (num(5), num(5)), (num(0), num(30)), (num(-30), num(0))]
    made = []
    for j, (start, end) in enumerate(lims):
        mio = Mio(c, j, NMIO if j % 2 else NMIO[:3], EXTENT[j % 3], j % 2 == 0)
        kw = {}
        if start != -INF:
            kw['validity_start'] = start
        if end != INF:
            kw['validity_end'] = end
        try:
            co = mio.build(c, **kw)
            m = c.call('model', mod.DipoleMIOGeomagneticModel, co, pole, wolf_ratio=wolf)
        except Bad:
            continue
        mio.validity = (start, end)
        c.equal('validity', list(m.validity), [start, end])
        c.equal('validity', list(co.validity), [start, end])
        made.append((m, mio))

    def at(mios, t, p, f=None, sun=None):
        lo = [x.validity[0] for x in mios]
        hi = [x.validity[1] for x in mios]
        inside = all(not pynum.special(t) and a <= t for a in lo) and all(t <= b for b in hi)
        return mio_vector(mios[-1], pole, wolf, t, p, 1, 1, f, sun) if inside else [NAN] * 3

    def evaluate(what, m, mios, rad):
        es = sorted({x.q for y in mios for x in y.validity if isinstance(x, Num)})
        ts = [num(es[0] - 13)]
        for a, b in zip(es, es[1:] + [None]):
            ts += [num(a), num((a + b) / 2 if b is not None else a + 17)]
        ts.append(NAN)
        ts = ts[1:] + ts[:1]
        ps = [place(c, (what, i), 1) for i in range(len(ts))]
        for p in ps:
            if rad is not None:
                p[2] = rad
        fs = [free('f107', i) for i in range(len(ts))]
        la = [pynum.degrees('sol', i, 0) for i in range(len(ts))]
        lo = [pynum.longitude('sol', i, 1) for i in range(len(ts))]
        fs[0] = NAN
        for i, t in enumerate(ts):
            r = c.try_(what, m.eval, t, arr(ps[i]))
            if r is not None:
                c.equal(what, r, arr(at(mios, t, ps[i])))
            r = c.try_(what, m.eval, t, arr(ps[i]), f107=fs[i], lat_sol=la[i], lon_sol=lo[i])
            if r is not None:
                c.equal(what + ' (parameters)', r, arr(at(mios, t, ps[i], fs[i], (la[i], lo[i]))))
        r = c.try_(what, m.eval, arr(ts), arr(ps))
        if r is not None:
            c.equal(what + ' (arrays)', r, arr([at(mios, t, p) for t, p in zip(ts, ps)]))
        r = c.try_(what, m.eval, arr(ts), arr(ps), f107=arr(fs))
        if r is not None:
            c.equal(what + ' (arrays, f107)', r, arr([at(mios, t, p, f) for t, p, f in zip(ts, ps, fs)]))
        r = c.try_(what, m.eval, arr(ts), arr(ps), lat_sol=arr(la), lon_sol=arr(lo), f107=fs[1])
        if r is not None:
            c.equal(what + ' (arrays, Sun)', r, arr([
                at(mios, t, p, fs[1], (a, b)) for t, p, a, b in zip(ts, ps, la, lo)]))

    for m, mio in made:
        evaluate('ionospheric model', m, [mio], None)
    lim = num(6371.2) + num(110)
    for i, j in ((0, 1), (1, 0), (2, 3), (4, 0), (0, 5), (1, 6), (2, 5)):
        if max(i, j) >= len(made):
            continue
        m = c.call('model', mod.MIOPrimaryGeomagneticModel, made[i][0], made[j][0])
        vs = [made[i][1].validity, made[j][1].validity]
        c.equal('validity', list(m.validity), [max(v[0] for v in vs), min(v[1] for v in vs)])
        if i + j < 6:
            evaluate('primary model, above', m, [made[i][1], made[j][1]], lim + 1)
            evaluate('primary model, below', m, [made[j][1], made[i][1]], lim)
    c.at('value-inside-NaN-outside', MM + 'model.py:DipoleSphericalHarmomicGeomagneticModel')
    for what, spec in kinds(c).items():
        co = c.call('coefficients: ' + what, spec.build, c)
        m = c.call('model: ' + what, c.w.module('magnetic_model.model').DipoleSphericalHarmomicGeomagneticModel, co,
                   pole)
        c.equal('validity: ' + what, list(m.validity), list(spec.validity))
        ts = instants(spec)
        ps = [place(c, (what, i), 1) for i in range(len(ts))]

        def want(t, p):
            if pynum.special(t) or not spec.valid(t):
                return Any([[NAN] * 3])
            return Any([dipole_field(x.at(t, -1, -1), spec.internal, p, pole, 1, 1)
                        for x in spec.choices(t)] or [[NAN] * 3])
        r = c.try_('arrays: ' + what, m.eval, arr(ts), arr(ps))
        for i, (t, p) in enumerate(zip(ts, ps)):
            if r is not None:
                c.equal('arrays: ' + what, r[i], want(t, p))
            if i % 3 == 0:
                q = c.try_('single: ' + what, m.eval, t, arr(p))
                if q is not None:
                    c.equal('single: ' + what, q, want(t, p))


@scenario('C22', 'F10.7 and Sun dependent fields')
def c22_eval(c):
    c.at('ionospheric-field', W_MIO)
    n = 0
    for what, m, mio, pole, wolf in mio_models(c):
        c.equal('validity', list(m.validity), [-INF, INF])
        for ci, co in itertools.product(SYSTEMS, SYSTEMS):
            n += 1
            ts = [num(7), num(1234), NAN, num(-99)]
            ps = [place(c, (n, i), ci) for i in range(4)]
            f = [free('f107', i) for i in range(4)]
            f[3 if n % 2 else 1] = NAN if n % 3 == 0 else f[3]
            la = [pynum.degrees('sol', i, 0) for i in range(4)]
            lo_ = [pynum.longitude('sol', i, 1) for i in range(4)]
            opt, s, lo, hi = {}, 1, -1, -1
            if n % 4 == 1:
                s = opt['scale'] = free('scale')
            elif n % 4 == 2:
                s = [free('scale', k) for k in range(3)]
                opt['scale'] = arr(s)
            if n % 3 == 1:
                hi = opt['max_degree'] = 2
            if n % 5 == 1:
                lo = opt['min_degree'] = 2
            lab = '%s, %s to %s' % (what, SYSTEMS[ci], SYSTEMS[co])
            for fk, sk in ((0, 0), (1, 0), (2, 1), (1, 2)) if n % 2 else ((2, 0), (0, 2), (2, 2), (1, 1)):
                # 0: not given, 1: one value, 2: an array
                kw = dict(opt)
                if fk:
                    kw['f107'] = f[0] if fk == 1 else arr(f)
                if sk:
                    kw['lat_sol'] = la[0] if sk == 1 else arr(la)
                    kw['lon_sol'] = lo_[0] if sk == 1 else arr(lo_)
                pick = lambda i, k, v: None if not k else v[0] if k == 1 else v[i]
                want = [mio_vector(mio, pole, wolf, ts[i], ps[i], ci, co, pick(i, fk, f),
                                   (pick(i, sk, la), pick(i, sk, lo_)) if sk else None, s, lo, hi)
                        for i in range(4)]
                l2 = '%s, %s' % (lab, sorted(kw))
                r = c.try_(l2, m.eval, arr(ts), arr(ps), ci, co, **kw)
                if r is not None:
                    c.equal(l2 + ' (arrays)', r, arr(want))
                if fk < 2 and sk < 2:
                    for i in (0, 2):
                        r = c.try_(l2, m.eval, ts[i], arr(ps[i]), ci, co, **kw)
                        if r is not None:
                            c.equal(l2, r, arr(want[i]))
                    r = c.try_(l2, m.eval, ts[0], arr(ps), ci, co, **kw)
                    if r is not None:
                        c.equal(l2 + ' (one time)', r, arr([
                            mio_vector(mio, pole, wolf, ts[0], p, ci, co, pick(0, fk, f),
                                       (la[0], lo_[0]) if sk else None, s, lo, hi) for p in ps]))
                    r = c.try_(l2, m.eval, arr(ts), arr(ps[0]), ci, co, **kw)
                    if r is not None:
                        c.equal(l2 + ' (one location)', r, arr([
                            mio_vector(mio, pole, wolf, t, ps[0], ci, co, pick(0, fk, f),
                                       (la[0], lo_[0]) if sk else None, s, lo, hi) for t in ts]))
            kw = dict(opt, f107=NAN)
            r = c.try_(lab, m.eval, ts[0], arr(ps[0]), ci, co, **kw)
            if r is not None:
                c.equal(lab + ', f107 not known', r, arr([NAN] * 3))


@scenario('C22', 'primary field below and above the ionosphere')
def c22_primary(c):
    c.at('ionosphere-split', MM + 'model_mio.py:MIOPrimaryGeomagneticModel')
    mod = c.w.module('magnetic_model.model_mio')
    ms = mio_models(c)
    below, above = ms[1], ms[0]
    n = 0
    for h, a in ((None, None), (Fraction(950003, 10000), Fraction(1536016001, 2 ** 18)), (0, None), (120, 0)):
        kw = {}
        if h is not None:
            kw['height'] = h = num(h)
        if a is not None:
            kw['earth_radius'] = a = num(a)
        h, a = num(110) if h is None else h, num(6371.2) if a is None else a
        m = c.call('model', mod.MIOPrimaryGeomagneticModel, below[1], above[1], **kw)
        c.equal('validity', list(m.validity), [-INF, INF])
        c.true('degrees', (int(m.min_degree), int(m.degree)) == (1, 4), 'degrees of the model')
        o = c.call('model', mod.MIOPrimaryGeomagneticModel, above[1], below[1], **kw)
        c.true('degrees', (int(o.min_degree), int(o.degree)) == (1, 4), 'degrees of the model')
        for x in ms[:2]:
            c.true('degrees', (int(x[1].min_degree), int(x[1].degree)) == (min(n for n, _ in x[2].nm), max(
                n for n, _ in x[2].nm)), 'degrees of the model')
        c.true('parameters', set(m.parameters) == {'time', 'location', 'f107', 'subsolar_point'}, 'parameters')
        lim = h + a
        for co in SYSTEMS:
            n += 1
            ci = 1
            ps = [place(c, (n, i), ci) for i in range(5)]
            near = Fraction(1, (1, 1000, 10 ** 7)[n % 3])
            for p, r in zip(ps, (lim - near, lim, lim + near, ranked(9000, n), ranked(3000, n))):
                p[2] = r
            ts = [num(7), num(1234), num(-99), num(5), num(6)]
            f = [free('f107', i) for i in range(5)]
            la = [pynum.degrees('sol', i, 0) for i in range(5)]
            lo_ = [pynum.longitude('sol', i, 1) for i in range(5)]
            if c.w.draw.zero:
                f = [num(0)] * 5
                la, lo_ = ([num(0)] * 5, lo_) if n % 2 else (la, [num(0)] * 5)
            for fk, sk in ((0, 0), (1, 2), (2, 1), (2, 2)):
                opt = {}
                if fk:
                    opt['f107'] = f[0] if fk == 1 else arr(f)
                if sk:
                    opt['lat_sol'] = la[0] if sk == 1 else arr(la)
                    opt['lon_sol'] = lo_[0] if sk == 1 else arr(lo_)
                s = 1
                if fk != sk:
                    s = opt['scale'] = free('scale')
                if fk == 2:
                    opt['max_degree'] = 2
                pick = lambda i, q, v: None if not q else v[0] if q == 1 else v[i]

                def want(i, j, q=None):
                    p, t = ps[i], ts[j]
                    w = below if p[2] <= lim else above
                    return mio_vector(w[2], w[3], w[4], t, p, ci, co, pick(j, fk, f),
                                      (pick(j, sk, la), pick(j, sk, lo_)) if sk else None, s, -1,
                                      opt.get('max_degree', -1))
                lab = 'to %s, %s' % (SYSTEMS[co], sorted(opt))
                r = c.try_(lab, m.eval, arr(ts), arr(ps), ci, co, **opt)
                if r is not None:
                    c.equal(lab + ' (arrays)', r, arr([want(i, i) for i in range(5)]))
                if fk < 2 and sk < 2:
                    for i in range(5):
                        r = c.try_(lab, m.eval, ts[0], arr(ps[i]), ci, co, **opt)
                        if r is not None:
                            c.equal(lab, r, arr(want(i, 0)))
                    r = c.try_(lab, m.eval, ts[0], arr(ps), ci, co, **opt)
                    if r is not None:
                        c.equal(lab + ' (one time)', r, arr([want(i, 0) for i in range(5)]))
                r = c.try_(lab, m.eval, arr(ts), arr(ps[2]), ci, co, **opt)
                if r is not None:
                    c.equal(lab + ' (one location)', r, arr([want(2, i) for i in range(5)]))
        for ci in (0, 2):
            p = place(c, ('ci', ci), ci)
            rad = pymodel.from_cart(pymodel.cart_of(p, ci), 1)[2]
            w = below if rad <= lim else above
            for co in SYSTEMS:
                lab = '%s to %s' % (SYSTEMS[ci], SYSTEMS[co])
                r = c.try_(lab, m.eval, num(3), arr(p), ci, co)
                if r is not None:
                    c.equal(lab, r, arr(mio_vector(w[2], w[3], w[4], num(3), p, ci, co)))


@scenario('C22', 'coefficients')
def c22_coeff(c):
    c.at('ionospheric-coefficients', MM + 'coefficients_mio.py:SparseSHCoefficientsMIO')
    for j, ext in enumerate(EXTENT):
        mio = Mio(c, j, NMIO, ext, j != 1)
        o = mio.build(c)
        c.true('kind', bool(o.is_internal) == (j != 1), 'kind of the field')
        c.true('degrees', (int(o.min_degree), int(o.degree)) == (1, 3), 'degrees')
        for lo, hi in ((-1, -1), (2, -1), (-1, 2), (2, 2), (4, 5)):
            t, mut = [num(3), num(700)], [free('mut', k) for k in range(2)]
            opt = {k: v for k, v in (('min_degree', lo), ('max_degree', hi)) if v >= 0}
            r = c.try_('matrix', o, arr(t), arr(mut), **opt)
            r1 = c.try_('matrix', o, t[1], mut[1], **opt)
            if r is not None:
                a = obj(r[0])
                if c.true('matrix', a.ndim == 3, 'shape of the matrix'):
                    c.equal('matrix', a, arr([table(mio.at(t[k], mut[k], lo, hi), a.shape[1]) for k in range(2)]))
            if r1 is not None:
                a = obj(r1[0])
                c.equal('matrix', a, table(mio.at(t[1], mut[1], lo, hi), a.shape[0]))
    cls = c.w.module('magnetic_model.coefficients_mio').SparseSHCoefficientsMIO
    for ext in ((1, 0, 0, 1), (0, 1, 2, 1)):
        c.raises('extent %s' % (ext,), Exception, cls, np.array(NMIO), frees('x', (5, 2, 2, 2)), ext)
    mod = c.w.module('magnetic_model.model_mio')
    c.raises('other coefficients', TypeError, mod.DipoleMIOGeomagneticModel,
             Sparse(c, 'x', NM, []).build(c), (num(80), num(-70)))


@scenario('C22', 'conversion of the external coefficients')
def c22_convert(c):
    c.at('external-to-internal', MM + 'loader_mio.py:convert_external_mio_coeff')
    f = c.w.module('magnetic_model.loader_mio').convert_external_mio_coeff
    nm = [(0, 0), (1, 0), (1, -1), (2, 2), (4, -3), (6, 1)]
    q = frees('q', (len(nm), 2, 3, 2))
    h = positive('height')
    r = c.try_('conversion', f, 6, np.array(nm), q, h)
    if r is not None:
        k = 1 + h / num(6371.2)
        c.equal('conversion', r, each(lambda i: q[i] * num(-1) * (k ** (2 * nm[i[0]][0] + 1)) * num(nm[i[0]][0])
                                      / num(nm[i[0]][0] + 1), q.shape, 0))


# ------------------------------------------------------------------ loaders
def raw(nm, values, nodes, kind='mjd', order=2, given=None, internal=True):
    """specification of loaded coefficients: rows of values for the nodes"""
    s = Sparse.__new__(Sparse)
    s.nm, s.c, s.nodes, s.kind, s.order, s.internal = list(nm), [list(r) for r in values], list(nodes), kind, order, \
        internal
    conv = pymodel.to_mjd if kind == 'dy' and nodes else lambda x: x
    s.given = given or (s.nodes[0], s.nodes[-1])
    s.validity = tuple(conv(x) for x in s.given)
    return s


def year(c, y, *key):
    """decimal year with a short decimal fraction"""
    return num(Fraction(y) + Fraction(c.w.draw.h('year', y, key) % 9 + 1, 64))


def text(c, table_):
    """text fields of the quantities"""
    out = []
    for k, row in enumerate(table_):
        # (fields separated by blanks and tabulators)
        out.append(('', '', '  ')[k % 3 if isinstance(row[0], int) else 0] + (' ', '   ', ' \t')[k // 2 % 3].join(x if isinstance(x, str) else str(x) if isinstance(x, int)
                            else c.w.token('%d' % len(c.w.numbers), x) for x in row) + ('', '  ', ' ')[k % 3] + '\n')
    return out


def closed(c, what):
    for f in c.w.opened:
        c.true('files closed: ' + what, f.closed, 'a file is left open')


def compare_loaded(c, what, m, spec, pole=None, ct=1):
    """loaded model against the specification of the contents of its files"""
    c.equal('validity: ' + what, list(m.validity), list(spec.validity))
    lo, hi = spec.limits()
    c.true('degrees: ' + what, (int(m.min_degree), int(m.degree)) == (lo, hi),
           'degrees (%s, %s) instead of (%s, %s)' % (m.min_degree, m.degree, lo, hi))
    for k, t in enumerate(instants(spec)):
        p = place(c, (what, k), 1)
        r = c.try_(what, m.eval, t, arr(p))
        if r is None:
            continue
        if pole is None:
            c.equal(what, r, model_at(spec, t, p, 1, 1))
        elif pynum.special(t) or not spec.valid(t):
            c.equal(what, r, arr([NAN] * 3))
        else:
            c.equal(what, r, Any([dipole_field(x.at(t), spec.internal, p, pole, 1, 1) for x in spec.choices(t)]))


def shc_file(c, path, nm, years, order=2, validity=None, comments=True):
    vals = [[free('shc', path, k, j) for j in range(len(years))] for k in range(len(nm))]
    head = [[min(n for n, _ in nm), max(n for n, _ in nm), len(years), order, 1] + list(validity or [])]
    lines = ['# comment 1 2 3\n', '#\n', '\n'] if comments else []
    lines += [x.replace('\n', '# comment 5 6 7\n') if comments > 1 else x for x in text(c, head)]
    lines += text(c, [years])
    lines += text(c, [list(k) + v for k, v in zip(nm, vals)])
    c.w.files[path] = lines
    return vals


def shc_spec(nm, vals, years, order=2, validity=None, dy=False, conv=pymodel.to_mjd, internal=True):
    if len(years) == 1:
        v = tuple(conv(x) for x in validity) if validity else (-INF, INF)
        return raw(nm, [r[:1] for r in vals], [], given=v, internal=internal)
    order = min(order, 2)
    v = validity or (years[0], years[-1])
    if dy:
        return raw(nm, vals, years, 'dy', order, tuple(v), internal)
    return raw(nm, vals, [conv(y) for y in years], 'mjd', order, tuple(conv(x) for x in v), internal)


@scenario('C23', 'SHC files')
def c23_shc(c):
    c.at('loaded-coefficients', MM + 'loader_shc.py')
    pub = c.w.module('')
    Y = [year(c, y) for y in (1995, 2000, 2004)]
    V = [year(c, 1985), year(c, 2015)]
    n = 0
    for order, validity, count, dy in itertools.product((1, 2, 6), (None, V), (1, 3), (False, True)):
        n += 1
        ys = Y[:count]
        path = '/data/model%d.shc' % n
        vals = shc_file(c, path, NM, ys, order, validity, n % 3)
        what = 'SHC file of %d times, order %d%s%s' % (count, order, ', validity' if validity else '',
                                                       ', decimal years' if dy else '')
        kw = {'interpolate_in_decimal_years': True} if dy else {}
        m = c.try_(what, pub.load_model_shc if n % 3 else pub.load_model_shc_combined, path, **kw)
        if m is not None:
            compare_loaded(c, what, m, shc_spec(NM, vals, ys, order, validity, dy))
    path = '/data/opt.shc'
    vals = shc_file(c, path, NM, Y, 2)
    A, B = free('A'), free('B')
    own = lambda x: pynum.special(num(x)) and x or num(x) * 2 + 17 if not isinstance(x, np.ndarray) \
        else arr([num(y) * 2 + 17 for y in x])
    for what, kw, spec in (
            ('order', {'spline_order': 1}, shc_spec(NM, vals, Y, 1)),
            ('validity', {'validity_start': V[0], 'validity_end': V[1]}, shc_spec(NM, vals, Y, 2, V)),
            ('end of validity', {'validity_end': V[1]}, shc_spec(NM, vals, Y, 2, [Y[0], V[1]])),
            ('external field', {'is_internal': False}, shc_spec(NM, vals, Y, 2, internal=False)),
            ('time conversion', {'to_mjd2000': own}, shc_spec(NM, vals, Y, 2, conv=own)),
            ('decimal years', {'interpolate_in_decimal_years': True, 'validity_start': V[0], 'spline_order': 1},
             shc_spec(NM, vals, Y, 1, [V[0], Y[-1]], True))):
        m = c.try_('option: ' + what, pub.load_model_shc, path, **kw)
        if m is not None:
            compare_loaded(c, 'option: ' + what, m, spec)
    path1 = '/data/one.shc'
    vals1 = shc_file(c, path1, NM, Y[:1], 1)
    for what, kw, spec in (
            ('order', {'spline_order': 1}, shc_spec(NM, vals1, Y[:1])),
            ('order', {'spline_order': 2, 'interpolate_in_decimal_years': True}, shc_spec(NM, vals1, Y[:1])),
            ('validity', {'validity_start': V[0], 'validity_end': V[1]}, shc_spec(NM, vals1, Y[:1], 1, V)),
            ('end of validity', {'validity_end': V[1]}, shc_spec(NM, vals1, Y[:1], 1, [-INF, V[1]])),
            ('external field', {'is_internal': False}, shc_spec(NM, vals1, Y[:1], internal=False)),
            ('time conversion', {'to_mjd2000': own, 'validity_start': V[0]},
             shc_spec(NM, vals1, Y[:1], 1, [V[0], INF], conv=own))):
        m = c.try_('option, one time: ' + what, pub.load_model_shc, path1, **kw)
        if m is not None:
            compare_loaded(c, 'option, one time: ' + what, m, spec)
    for order, validity, perm in (
            (2, None, (1, 0, 2)), (1, None, (1, 0, 2)), (2, V, (1, 0, 2)), (2, None, (0, 2, 1)), (1, None, (2, 0, 1)),
            (2, None, (2, 1, 0)), (1, V, (0, 2, 1)), (2, None, (1, 2, 0))):
        what = 'SHC file of unsorted times %s, order %d' % (list(perm), order)
        path2 = '/data/mix%d%d%s.shc' % (order, bool(validity), '%d%d%d' % perm)
        v2 = shc_file(c, path2, NM, [Y[k] for k in perm], order, validity)
        m = c.try_(what, pub.load_model_shc, path2)
        if m is not None:
            compare_loaded(c, what, m, shc_spec(NM, [[v[perm.index(k)] for k in range(3)] for v in v2],
                                               Y, order, validity))
    parser = c.w.module('magnetic_model.parser_shc')
    for k, (ys, validity, order) in enumerate(((Y, None, 6), (Y[:1], None, 1), (Y[:1] + Y[:0:-1], V, 2), (Y[:1] + Y[:0:-1], None, 2), (Y[:1], V, 1))):
        path2 = '/data/head%d.shc' % k
        v2 = shc_file(c, path2, NM, ys, order, validity)
        for fn in ('parse_shc_header', 'parse_shc_file'):
            h = c.try_(fn, getattr(parser, fn), pyworld.Text(c.w, path2, list(c.w.files[path2])))
            if h is None or not c.true(fn, isinstance(h, dict), 'a dictionary is expected'):
                continue
            lim = validity or ([Y[0], Y[2]] if len(ys) > 1 else [-INF, INF])
            for key, w in (('degree_min', 1), ('degree_max', max(n for n, _ in NM)), ('ntime', len(ys)),
                           ('spline_order', order), ('nstep', 1)):
                c.true(fn, h.get(key) == w, '%s is %s' % (key, h.get(key)))
            for key, w in (('validity_start', lim[0]), ('validity_end', lim[1]), ('t', arr(ys))):
                c.equal('%s: %s' % (fn, key), h.get(key), w)
            if fn == 'parse_shc_file':
                c.equal(fn + ': gh', h.get('gh'), arr(v2))
                c.true(fn + ': nm', np.array_equal(h.get('nm'), np.array(NM)), 'degrees and orders')
    f = pyworld.Text(c.w, path, list(c.w.files[path]))
    m = c.try_('open file', pub.load_model_shc, f)
    if m is not None:
        compare_loaded(c, 'open file', m, shc_spec(NM, vals, Y))
    closed(c, 'SHC')


@scenario('C23', 'several SHC files')
def c23_shc_many(c):
    c.at('loaded-coefficients', MM + 'loader_shc.py')
    pub = c.w.module('')
    co = c.w.module('magnetic_model.coefficients')
    Y = [[year(c, y, k) for y in ys] for k, ys in enumerate(((1995, 2000), (1998, 2004), (2002, 2010)))]
    nms = [NM, NM1, [(2, 1), (5, -4)]]
    files = ['/data/%s.shc' % k for k in 'abc']
    vals = [shc_file(c, f, nm, ys) for f, nm, ys in zip(files, nms, Y)]
    one = [year(c, 2003, 'one')]
    v1 = shc_file(c, '/data/static.shc', NM2, one)
    for dy in (False, True):
        kw = {'interpolate_in_decimal_years': True} if dy else {}
        sp = [shc_spec(nm, v, ys, dy=dy) for nm, v, ys in zip(nms, vals, Y)]
        st = shc_spec(NM2, v1, one)
        lab = ', decimal years' if dy else ''
        m = c.try_('sequence of files' + lab, pub.load_model_shc, *files, **kw)
        if m is not None:
            compare_loaded(c, 'sequence of files' + lab, m, Composed(*sp))
        m = c.try_('reversed sequence of files' + lab, pub.load_model_shc, *files[::-1], **kw)
        if m is not None:
            compare_loaded(c, 'reversed sequence of files' + lab, m, Composed(*sp[::-1]))
        m = c.try_('combined files' + lab, pub.load_model_shc_combined, files[0], '/data/static.shc', **kw)
        if m is not None:
            compare_loaded(c, 'combined files' + lab, m, Combined(sp[0], st))
        x = Sparse(c, ('x', dy), [(1, 0), (4, 4)], [-1500, 0])
        m = c.try_('files and coefficients' + lab, pub.load_model_shc_combined, x.build(c), files[0], **kw)
        if m is not None:
            compare_loaded(c, 'files and coefficients' + lab, m, Combined(x, sp[0]))
        seq = c.try_('sequence' + lab, co.ComposedSHCoefficients, *[
            c.call('file', c.w.module('magnetic_model.loader_shc').load_coeff_shc, f, **kw) for f in files[:2]])
        m = c.try_('sequence and a file' + lab, pub.load_model_shc_combined, seq, '/data/static.shc', **kw)
        if m is not None:
            compare_loaded(c, 'sequence and a file' + lab, m, Combined(Composed(*sp[:2]), st))
    closed(c, 'SHC')


@scenario('C23', 'IGRF, WMM and EMM files')
def c23_main(c):
    pub = c.w.module('')
    c.at('loaded-coefficients', MM + 'loader_igrf.py')
    nm = [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1)]
    ys = [year(c, y) for y in (1995, 2000, 2005)]
    vals = [[free('igrf', i, j) for j in range(4)] for i in range(len(nm))]
    c.w.files['/data/igrf.txt'] = ['# IGRF\n', '# g(n,m)\n', '\n', 'c/s deg ord IGRF IGRF DGRF SV\n'] + text(
        c, [['g/h', 'n', 'm'] + ys + ['2005-10']]) + text(
            c, [['h' if m < 0 else 'g', n, abs(m)] + v for (n, m), v in zip(nm, vals)])
    m = c.try_('IGRF file', pub.load_model_igrf, '/data/igrf.txt')
    if m is not None:
        compare_loaded(c, 'IGRF file', m, raw(
            nm, [v[:3] + [v[2] + 5 * v[3]] for v in vals], ys + [ys[2] + 5], 'dy'))
    c.at('loaded-coefficients', MM + 'loader_wmm.py')
    epoch = year(c, 2010)
    nms = [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)]
    rows = [[free('wmm', i, k) for k in range(4)] for i in range(len(nms))]
    for i, (n, m_) in enumerate(nms):
        if not m_:
            rows[i][1] = rows[i][3] = '0.0'
    rows[3][0], rows[3][3] = '0.0', '0.0'
    rows[4][0] = rows[4][2] = '0.0'
    rows[5][1] = rows[5][3] = '0.0'
    rows[6][1] = rows[6][2] = '0.0'
    rows[7][3] = rows[7][2] = '0.0'
    c.w.files['/data/wmm.cof'] = text(c, [[epoch, 'WMM-X', '12/31/2009']]) + text(
        c, [list(k) + v for k, v in zip(nms, rows)]) + ['9' * 48 + '\n', '9' * 48 + '\n']
    nm_, v_ = [], []
    zero = lambda x: num(0) if x == '0.0' else x
    for (n, m_), v in zip(nms, rows):
        g, h, dg, dh = [zero(x) for x in v]
        if (n, m_) != (2, 2):
            nm_.append((n, m_))
            v_.append([g, g + 5 * dg])
        if m_ and (n, m_) != (3, 1):
            nm_.append((n, -m_))
            v_.append([h, h + 5 * dh])
    m = c.try_('WMM file', pub.load_model_wmm, '/data/wmm.cof')
    if m is not None:
        compare_loaded(c, 'WMM file', m, raw(nm_, v_, [epoch, epoch + 5], 'dy'))
    c.at('loaded-coefficients', MM + 'loader_emm.py')
    nms = [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2)]
    st = [[free('emm', i), free('emm', i, 'h') if m_ else '0.0'] for i, (n, m_) in enumerate(nms)]
    st[6][0] = '0.0'
    sv = [[free('sv', i), free('sv', i, 'h') if m_ else '0.0'] for i, (n, m_) in enumerate(nms[:5])]
    st[4][1] = st[3][0] = sv[1][1] = sv[2][0] = '0.0'
    head = ['Model: EMM\n', 'Version: X\n'] + text(c, [['Epoch:', epoch]]) + ['n m Gnm Hnm\n', '-----------\n']
    c.w.files['/data/emm.cof'] = head + text(c, [list(k) + v for k, v in zip(nms, st)])
    c.w.files['/data/emm_sv.cof'] = head + text(c, [list(k) + v for k, v in zip(nms, sv)])
    var, con = {}, {}
    for i, (n, m_) in enumerate(nms):
        for k, o in ((0, m_), (1, -m_)):
            if k and not m_:
                continue
            v = zero(st[i][k])
            if i < 5:
                var[n, o] = [v, v + 5 * zero(sv[i][k])]
            elif st[i][k] != '0.0':
                con[n, o] = [v]
    m = c.try_('EMM files', pub.load_model_emm, '/data/emm.cof', '/data/emm_sv.cof')
    if m is not None:
        compare_loaded(c, 'EMM files', m, Combined(
            raw(list(var), list(var.values()), [epoch, epoch + 5], 'dy'),
            raw(list(con), list(con.values()), [], given=(-INF, INF))))
    for k, d in enumerate((num(1), num(Fraction(1, 2)), num(Fraction(-1, 1000)))):
        f = '/data/emm_ep%d.cof' % k
        c.w.files[f] = head[:2] + text(c, [['Epoch:', epoch + d]]) + head[3:] + text(
            c, [list(k) + v for k, v in zip(nms, sv)])
        c.raises('EMM files of different epochs', ValueError, pub.load_model_emm, '/data/emm.cof', f)
    c.w.files['/data/emm_sv3.cof'] = head + text(c, [list(k) + v for k, v in zip(nms[1:], sv[1:])])
    c.raises('EMM files of different coefficients', ValueError, pub.load_model_emm, '/data/emm.cof',
             '/data/emm_sv3.cof')
    closed(c, 'IGRF, WMM and EMM')


def mio_file(c, path, ext, lon, header_extra=()):
    pmin, pmax, smin, smax = ext
    shape = (smax - smin + 1, pmax - pmin + 1, 2)
    nm = [(1, 0), (1, 1), (1, -1), (2, 1), (3, -2)]
    qs = frees(('qs', path), (len(nm),) + shape)
    gh = frees(('gh', path), (len(nm),) + shape)
    colat = num(Fraction(1000 + c.w.draw.h('colat') % 100, 100))
    height = num(Fraction(0 if c.w.draw.zero else 10000 + c.w.draw.h('height') % 3000, 100))
    wolf = free('wolf')
    c.w.files[path] = ['# comment\n', '#\n'] + text(
        c, [[3, 2, pmin, pmax, smin, smax, colat, lon, height, wolf]]) + text(
            c, [list(k) + list(q.reshape(-1)) for k, q in zip(nm, qs)]) + text(
                c, [list(k) + list(q.reshape(-1)) for k, q in zip(nm, gh)])
    return nm, qs, gh, (90 - colat, lon), height, wolf


class MioSpec(Mio):
    def __init__(self, nm, values, ext, internal):
        self.nm, self.c, self.extent, self.internal = nm, values, ext, internal


@scenario('C23', 'Swarm MIO files')
def c23_mio(c):
    c.at('loaded-coefficients', MM + 'loader_mio.py')
    pub = c.w.module('')
    for j, ext in enumerate(EXTENT):
        lon = num(Fraction((28700, -7300, 9950)[j] + c.w.draw.h('lon', j) % 99, 100))
        path = '/data/mio%d.txt' % j
        nm, qs, gh, pole, height, wolf = mio_file(c, path, ext, lon)
        k = 1 + height / num(6371.2)
        conv = each(lambda i: qs[i] * num(-1) * k ** (2 * nm[i[0]][0] + 1) * num(nm[i[0]][0]) / num(nm[i[0]][0] + 1),
                    qs.shape, 0)
        inner = MioSpec(nm, gh, ext, True)
        below, above = MioSpec(nm, qs, ext, False), MioSpec(nm, conv, ext, True)
        lim = height + num(6371.2)
        for what, f, kw, pick in (
                ('internal field', pub.load_model_swarm_mio_internal, {}, lambda r: inner),
                ('external field', pub.load_model_swarm_mio_external, {}, lambda r: below if r <= lim else above),
                ('external field below', pub.load_model_swarm_mio_external, {'above_ionosphere': False},
                 lambda r: below),
                ('external field above', pub.load_model_swarm_mio_external, {'above_ionosphere': True},
                 lambda r: above)):
            m = c.try_(what, f, path, **kw)
            if m is None:
                continue
            c.equal(what + ': validity', list(m.validity), [-INF, INF])
            for n, dr in enumerate((-1, 0, 1)):
                p = place(c, (j, n), 1)
                p[2] = lim + dr
                t, fi = num(77 + n), free('f107', n)
                r = c.try_(what, m.eval, t, arr(p), f107=fi)
                if r is not None:
                    c.equal(what, r, arr(mio_vector(pick(p[2]), pole, wolf, t, p, 1, 1, fi)))
        for what, f, kw, spec in (
                ('internal coefficients', 'load_coeff_swarm_mio_internal', {}, inner),
                ('external coefficients', 'load_coeff_swarm_mio_external', {}, above),
                ('external coefficients below', 'load_coeff_swarm_mio_external', {'above_ionosphere': False}, below)):
            r = c.try_(what, getattr(c.w.module('magnetic_model.loader_mio'), f), path, **kw)
            if r is None:
                continue
            o, params = r
            c.true(what, bool(o.is_internal) == spec.internal, 'kind of the field')
            a = c.try_(what, o, num(3), free('mut'))
            if a is not None:
                a = obj(a[0])
                c.equal(what, a, table(spec.at(num(3), free('mut')), a.shape[0]))
            c.equal(what + ': parameters', [params['lat_NGP'], params['height'], params['wolf_ratio']],
                    [pole[0], height, wolf])
            c.true(what + ': pole longitude', bool(num(-180) < params['lon_NGP']) and bool(params['lon_NGP'] <= num(180)),
                   'the longitude is out of its range')
            s, k_ = pymodel.trig(params['lon_NGP'])
            c.equal(what + ': pole longitude', [s, k_], list(pymodel.trig(lon)))
    bad = list(c.w.files['/data/mio0.txt'])
    bad[-1] = re.sub(r'3(\s+)-2', r'3\1-1', bad[-1], count=1)
    c.w.files['/data/miobad.txt'] = bad
    c.raises('different internal and external coefficients', ValueError, pub.load_model_swarm_mio_internal,
             '/data/miobad.txt')
    closed(c, 'MIO')


EPOCH_2000 = 63113904000000
DAY = 86400000


def mma_set(c, path, suffix, frame, nm, days, flat=False, kind=31, shift=1):
    v = c.w.cdfs.setdefault(path, {})
    ts = [num(Fraction(d) + shift * Fraction(c.w.draw.h('mma', path, suffix, d) % 4 + 1, 8)) for d in days]
    rawt = np.array([[x * DAY + EPOCH_2000 for x in ts]], object)
    vals = frees(('mma', path, suffix, frame), (1, len(days), len(nm)))
    nm_ = np.array(nm if flat else [nm])
    v['t_' + suffix] = (rawt, kind)
    v['nm_' + suffix] = (nm_, 4)
    v[suffix + frame] = (vals, 45)
    return ts, [[vals[0, j, i] for j in range(len(days))] for i in range(len(nm))]


@scenario('C23', 'Swarm MMA files')
def c23_mma(c):
    c.at('loaded-coefficients', MM + 'loader_mma.py')
    pub = c.w.module('')
    nm1, nm2 = [(1, 0), (1, 1), (1, -1)], [(2, 0), (3, 2), (3, -2)]
    days = [(0, 1, 2), (3, 4), (5, 6, 9)]
    files = ['/data/mma%d.cdf' % i for i in range(3)]
    got = {}
    for k, f in enumerate(files):
        for var in ('gh', 'qs'):
            for s, nm in (('1', nm1), ('2', nm2)):
                got[k, var, s] = mma_set(c, f, '%s_%s' % (var, s), '', nm,
                                         days[k] if s == '1' else days[k][::len(days[k]) - 1], flat=k == 1)
    join = lambda var, s, ks: ([t for k in ks for t in got[k, var, s][0]],
                               [sum((got[k, var, s][1][i] for k in ks), []) for i in range(3)])
    for var, name, internal in (('gh', 'internal', True), ('qs', 'external', False)):
        f = getattr(pub, 'load_model_swarm_mma_2c_' + name)
        for ks in ((0,), (1, 2), (0, 1, 2)):
            for pole in (None, (pynum.degrees('pole', 0), pynum.longitude('pole', 1))):
                what = 'MMA 2C %s, %d files' % (name, len(ks))
                kw = {} if pole is None else {'lat_ngp': pole[0], 'lon_ngp': pole[1]}
                m = c.try_(what, f, *[files[k] for k in ks], **kw)
                if m is None:
                    continue
                specs = []
                for s, nm in (('1', nm1), ('2', nm2)):
                    ts, vals = join(var, s, ks)
                    specs.append(raw(nm, vals, ts, internal=internal))
                compare_loaded(c, what, m, Combined(*specs), pole or (num(80.08), num(-72.22)))
        c.raises('MMA 2C %s, files in the wrong order' % name, ValueError, f, files[1], files[0])
        c.raises('MMA 2C %s, files in the wrong order' % name, ValueError, f, files[0], files[2], files[1])
    got = {}
    gfiles = ['/data/mmaf%d.cdf' % i for i in range(3)]
    for k, fl in enumerate(gfiles):
        for var in ('gh', 'qs'):
            for frame in ('_geo', '_sm'):
                # both frames share the times
                ts = got[k, var, '_geo'][0] if frame == '_sm' else None
                got[k, var, frame] = mma_set(c, fl, var, frame, nm1, days[k])
    for var, name, internal in (('gh', 'internal', True), ('qs', 'external', False)):
        for frame in ('_geo', '_sm'):
            f = getattr(pub, 'load_model_swarm_mma_2f%s_%s' % (frame, name), None)
            if f is None:
                f = getattr(c.w.module('magnetic_model.loader_mma'), 'load_model_swarm_mma_2f%s_%s' % (frame, name))
            for ks in ((0,), (0, 1, 2)):
                what = 'MMA 2F%s %s, %d files' % (frame, name, len(ks))
                m = c.try_(what, f, *[gfiles[k] for k in ks])
                if m is None:
                    continue
                ts = [t for k in ks for t in got[k, var, frame][0]]
                vals = [sum((got[k, var, frame][1][i] for k in ks), []) for i in range(3)]
                compare_loaded(c, what, m, raw(nm1, vals, ts, internal=internal))
            c.raises('MMA 2F%s %s, files in the wrong order' % (frame, name), ValueError, f, gfiles[1], gfiles[0])
    load = pub.load_model_swarm_mma_2f_geo_internal
    mma_set(c, '/data/deg.cdf', 'gh', '_geo', nm2, (10, 11))
    c.raises('files of different degrees', ValueError, load, gfiles[0], '/data/deg.cdf')
    mma_set(c, '/data/ord.cdf', 'gh', '_geo', [nm1[1], nm1[0], nm1[2]], (10, 11))
    c.raises('files of different coefficients', ValueError, load, gfiles[0], '/data/ord.cdf')
    mma_set(c, '/data/typ.cdf', 'gh', '_geo', nm1, (10, 11), kind=33)
    c.raises('unknown time type', TypeError, load, '/data/typ.cdf')
    # files sharing the time of their boundary and overlapping files
    parts = [mma_set(c, '/data/touch%d.cdf' % k, 'gh', '_geo', nm1, d, shift=0) for k, d in enumerate([(10, 12), (12, 15)])]
    what = 'MMA 2F files sharing a time'
    m = c.try_(what, load, '/data/touch0.cdf', '/data/touch1.cdf')
    if m is not None:
        c.equal('validity: ' + what, list(m.validity), [num(10), num(15)])
        for (ts, vals), days in zip(parts, [(10, 11), (13, 14)]):
            for d in days:
                p = place(c, (what, d), 1)
                r = c.try_(what, m.eval, num(d), arr(p))
                if r is not None:
                    c.equal(what, r, model_at(raw(nm1, vals, ts), num(d), p, 1, 1))
    mma_set(c, '/data/lap0.cdf', 'gh', '_geo', nm1, (10, 14), shift=0)
    mma_set(c, '/data/lap1.cdf', 'gh', '_geo', nm1, (12, 18), shift=0)
    mma_set(c, '/data/lap2.cdf', 'gh', '_geo', nm1, (16, 20), shift=0)
    c.raises('MMA, overlapping files', ValueError, load, '/data/lap0.cdf', '/data/lap1.cdf')
    c.raises('MMA, overlapping files', ValueError, load, '/data/lap0.cdf', '/data/lap1.cdf', '/data/lap2.cdf')
    c.raises('MMA, last files overlapping', ValueError, load, gfiles[0], '/data/lap1.cdf', '/data/lap2.cdf')
    closed(c, 'MMA')


# ------------------------------------------------------------------ shapes
SHAPES = [(), (2,), (2, 3), (2, 1), (1,), (0,), (3,), (2, 0)]
SHAPES3 = [(2, 3, 2), (1, 1, 1), (2, 1, 2), (1, 2, 3)]


def prefix(a, b):
    return a == b[:len(a)] or b == a[:len(b)]


def shape_models(c):
    """name, evaluation, specification of one sample (t, p, ci, co, index values)"""
    ks = kinds(c)
    pole = (pynum.degrees('pole', 0), pynum.longitude('pole', 1))
    mods = []

    def add_(what, m, one):
        mods.append((what, m, one))
    for what in ('time series', 'overlapping sets', 'decimal years + constant', 'overlapping sequence'):
        spec = ks[what]
        add_(what, model(c, spec, what), lambda t, p, ci, co, spec=spec: model_at(spec, t, p, ci, co))
    dip = c.w.module('magnetic_model.model').DipoleSphericalHarmomicGeomagneticModel
    spec = ks['external sum']
    d = c.call('dipole', dip, spec.build(c), pole)
    add_('dipole model', d, lambda t, p, ci, co: Any(
        [dipole_field(x.at(t), spec.internal, p, pole, ci, co) for x in spec.choices(t)]
        if not pynum.special(t) and spec.valid(t) else [[NAN] * 3]))
    comp = c.call('composed', c.w.module('magnetic_model.model_composed').ComposedGeomagneticModel, mods[0][1], d)
    parts = [Part(None, ks['time series']), Part(None, spec, None, pole)]
    add_('composed model', comp, lambda t, p, ci, co: Any([composed_at(parts, t, p, ci, co)]))
    none = c.call('composed', c.w.module('magnetic_model.model_composed').ComposedGeomagneticModel)
    add_('composed model without components', none, lambda t, p, ci, co: Any([composed_at([], t, p, ci, co)]))
    return mods


@scenario('C24', 'times and locations of all shapes')
def c24_shapes(c):
    c.at('broadcast-of-times-and-locations', MM + 'util.py:reshape_times_and_coordinates')
    tv = [num(13), num(-30), NAN, num(60), num(-99), num(3)]
    for j, (what, m, one) in enumerate(shape_models(c)):
        pairs = list(itertools.product(SHAPES, SHAPES)) + [
            (a, b) for a in SHAPES3 for b in ((), (2,), (2, 3), (1, 1), a, (3,), (2, 3, 2, 1))] + [
            (b, a) for a in SHAPES3 for b in ((), (2,), (2, 3), (1, 1), (3,))]
        if not c.thorough and j not in (0, 1):
            pairs = pairs[j::3]
        for k, (ts, ls) in enumerate(pairs):
            n = itertools.count(k)
            t = each(lambda i: tv[next(n) % 6], ts, 0)
            ci, co = divmod((k + j) % 9, 3)
            x = points(c, k, ci, ls)
            lab = '%s, times %s, locations %s' % (what, ts, ls)
            if not prefix(ts, ls):
                c.raises(lab, ValueError, m.eval, t, x, ci, co)
                continue
            if k % 4 == 1:      # views with other strides
                t = np.asfortranarray(t) if t.ndim else t
                x = np.array(x[..., ::-1], object)[..., ::-1]
            targ, xarg = t, x
            if k % 4 == 2:
                targ, xarg = t.tolist(), x.tolist()
                if not t.size or not x.size:
                    targ, xarg = t, x
            if not ts and k % 2:
                targ = t[()]
            r = c.try_(lab, m.eval, targ, xarg, ci, co)
            if r is None:
                continue
            sh = max(ts, ls, key=len)
            if not c.true(lab, getattr(r, 'shape', None) == sh + (3,), 'shape %s of the result' % (
                    getattr(r, 'shape', None),)):
                continue
            c.true(lab, not np.shares_memory(r, x) and not np.shares_memory(r, t), 'the result shares the memory '
                   'of the arguments')
            for i in np.ndindex(*sh):
                c.equal(lab, r[i], one(t[i[:len(ts)]], x[i[:len(ls)]], ci, co))


@scenario('C24', 'indices of all shapes')
def c24_mio(c):
    c.at('broadcast-of-indices', MM + 'model_mio.py')
    what, m, mio, pole, wolf = mio_models(c)[0]
    mod = c.w.module('magnetic_model.model_mio')
    prim = c.call('primary', mod.MIOPrimaryGeomagneticModel, m, m)
    tv = [num(13), num(-30), NAN, num(60), num(-99), num(3)]
    k = 0
    for ts, ls in itertools.product([(), (2,), (2, 3), (0,), (1,)], repeat=2):
        for fs in (None, (), (2,), (2, 3), (0,), (3,)):
            for name, o in (('MIO model', m), ('MIO primary model', prim)):
                k += 1
                n = itertools.count(k)
                t = each(lambda i: tv[next(n) % 6], ts, 0)
                ci, co = (1, k % 3)
                x = points(c, k, ci, ls)
                for i in np.ndindex(*ls):
                    x[i][2] = num(6400 + 90 * (sum(i) % 3))
                lab = '%s, times %s, locations %s, indices %s' % (name, ts, ls, fs)
                sh = max(ts, ls, key=len)
                kw = {}
                sun = None
                if fs is not None:
                    f = frees('f', fs)
                    if f.size > 1:
                        f.reshape(-1)[1] = NAN
                    kw['f107'] = f if fs or k % 2 else f[()]
                    if (k // 4) % 2:
                        gs = fs
                        if k % 3 == 0:      # other shape than that of F10.7
                            gs = sh[:(k // 8) % (len(sh) + 1)]
                        sun = [each(lambda i: (pynum.longitude if q % 2 else pynum.degrees)('sol', i, q), gs, 0) for q in range(2)]
                        kw['lat_sol'], kw['lon_sol'] = [a if gs else a[()] for a in sun]
                        if k % 5 == 0:
                            del kw['f107']
                            fs, f = None, None
                bad = not prefix(ts, ls) or (fs and fs != sh[:len(fs)]) or (
                    sun and gs and gs != sh[:len(gs)])
                if bad:
                    c.raises(lab, (ValueError, IndexError) if sun else ValueError, o.eval, t, x, ci, co, **kw)
                    continue
                r = c.try_(lab, o.eval, t, x, ci, co, **kw)
                if r is None or not c.true(lab, getattr(r, 'shape', None) == sh + (3,), 'shape %s of the result' % (
                        getattr(r, 'shape', None),)):
                    continue
                for i in np.ndindex(*sh):
                    c.equal(lab, r[i], arr(mio_vector(mio, pole, wolf, t[i[:len(ts)]], x[i[:len(ls)]], ci, co,
                                                      None if fs is None else f[i[:len(fs)]],
                                                      sun and [a[i[:len(gs)]] for a in sun])))


# ------------------------------------------------------------------ field lines
class FieldStub:
    """model with an arbitrary field"""

    def __init__(self, c, time, options, zero=()):
        self.c, self.time, self.options, self.zero = c, time, options, zero
        self.calls = 0
        self.seen = {}

    def value(self, p):
        k = tuple(num(x).v for x in p)
        if k in self.zero:
            return [num(0)] * 3
        return [pynum.fun('B', i, *[num(x) for x in p]) for i in range(3)]

    def eval(self, time, location, input_coordinate_system=1, output_coordinate_system=1, **options):
        self.calls += 1
        c = self.c
        c.true('evaluation of the model', same(time, self.time), 'other time is passed to the model')
        c.true('evaluation of the model', options == self.options, 'other options are passed to the model: %s'
               % sorted(options))
        p = pymodel.vec3(location)
        ci, co = input_coordinate_system, output_coordinate_system
        xyz = [pymodel.cart_of(p[i], ci) for i in np.ndindex(*p.shape[:-1])]
        out = [pymodel.frame(self.value(x), x, co, p if ci == 0 else None) for x in xyz]
        return arr(out).reshape(p.shape)


def trace(stub, start, step, steps, lo, hi, sign):
    ps, bs = [list(start)], []
    p = list(start)
    for _ in range(steps):
        b = stub.value(p)
        bs.append(b)
        f = dots(b, b).sqrt()
        r = dots(p, p).sqrt()
        if f > 0:
            k = r * sign * step / (f * num(6371.2))
            p = [x + k * y for x, y in zip(p, b)]
        ps.append(list(p))
        r = dots(p, p).sqrt()
        if r <= lo or r >= hi:
            break
    bs.append(stub.value(p))
    return ps, bs


@scenario('C25', 'traced field lines')
def c25_lines(c):
    c.at('field-line', MM + 'field_lines.py:trace_field_line')
    f = c.w.module('').trace_field_line
    t = num(0 if c.w.draw.zero else 17)
    n = 0
    for ci, co in itertools.product(SYSTEMS, SYSTEMS):
        for k in range(6):
            n += 1
            p = place(c, n, ci)
            topt, mopt = {}, {}
            step, steps, lo, hi = num(100), 500, num(0.9977) * num(6371.2), num(10**6) * num(6371.2)
            if k % 2:
                step = topt['step'] = free('step', n)
            if k % 3 == 1:
                steps = topt['max_steps'] = (1, 3, 2, 4, 0)[n // 3 % 5]
            if k % 3 == 2:
                lo = topt['min_radius'] = free('lo', n)
            if k > 2:
                hi = topt['max_radius'] = free('hi', n)
            if k in (1, 4):
                mopt = {'scale': free('scale'), 'f107': num(80)}
            stub = FieldStub(c, t, dict(mopt))
            xyz = pymodel.cart_of(p, ci)
            if k == 1 and 'lo' not in topt:     # limit reached exactly
                one = trace(stub, xyz, step, 2, num(0), hi, 1)[0][1]
                lo = topt['min_radius'] = dots(one, one).sqrt()
            if k == 5:
                stub.zero = {tuple(x.v for x in xyz)}
                steps = topt['max_steps'] = 2
            pa = arr(p)
            for o, w in ((topt, 'trace options'), (mopt, 'model options'), (pa, 'starting point')):
                c.w.it.freeze(o, w)
            kw = {}
            if topt or n % 2:
                kw['trace_options'] = topt
            if mopt or n % 2:
                kw['model_options'] = mopt
            lab = '%s to %s, %s' % (SYSTEMS[ci], SYSTEMS[co], sorted(list(topt) + list(mopt)))
            if ci == co == 1 and n % 2:
                r = c.try_(lab, f, stub, t, pa, **kw)
            else:
                r = c.try_(lab, f, stub, t, pa, ci, co, **kw)
            if r is None:
                continue
            down, bd = trace(stub, xyz, step, steps, lo, hi, 1)
            up, bu = trace(stub, xyz, step, steps, lo, hi, -1)
            ps = up[::-1][:-1] + down
            bs = bu[::-1][:-1] + bd
            if not c.true(lab, isinstance(r, tuple) and len(r) == 2, 'points and vectors are expected'):
                continue
            c.equal(lab + ': points', r[0], arr([pymodel.from_cart(x, co) for x in ps]))
            c.equal(lab + ': vectors', r[1], arr([pymodel.frame(b, x, co) for b, x in zip(bs, ps)]))


# ------------------------------------------------------------------ names, wrappers, times
@scenario('C26', 'public names and data files')
def c26_names(c):
    import os
    import ast
    c.at('public-names', PK + '__init__.py')
    names = [''] + [m for m in modules(c) if m]
    for n in names:
        try:
            m = c.w.module(n)
        except (pyabs.Stop, pynum.Redraw, AnalysisError):
            raise
        except Exception as e:      # pylint: disable=broad-except
            c.bad('module %s' % n, 'cannot be imported: %s: %s' % (type(e).__name__, e))
            continue
        c.rep.count('modules')
        for x in getattr(m, '__all__', ()):
            c.true('module %s' % (n or 'eoxmagmod'), hasattr(m, x), 'public name %s is not defined' % x)
        c.at('public-names', PK + '__init__.py')
    d = c.w.module('data')
    c.at('data-files', PK + 'data/__init__.py')
    for x, v in sorted(vars(d).items()):
        if x.isupper() and not x.startswith('_') and isinstance(v, str) and os.path.dirname(v):
            c.true('data.%s' % x, os.path.isfile(v), 'the file %s is not in the package' % os.path.basename(v))
            c.rep.count('data files')


def modules(c):
    import os
    root = os.path.join(c.w.it.repo, 'eoxmagmod', 'eoxmagmod')
    out = []
    for base, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__')]
        for f in files:
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(base, f), root)[:-3].replace(os.sep, '.')
                rel = rel[:-len('__init__')].rstrip('.') if rel.endswith('__init__') else rel
                if rel:
                    out.append(rel)
    return sorted(out)


@scenario('C26', 'quasi-dipole and solar functions')
def c26_wrappers(c):
    pub = c.w.module('')
    c.at('quasi-dipole-wrappers', PK + 'quasi_dipole_coordinates.py')
    q = c.w.module('quasi_dipole_coordinates')
    apex = c.w.module('data').APEX_LATEST
    for shape in ((), (2,), (2, 2)):
        x = [frees(('qd', k), shape) for k in range(4)]
        if not shape:
            x = [a[()] for a in x]
        val = lambda i, k, f: pynum.fun('qd:%s' % f, k, *[num(a[i] if shape else a) for a in x])
        c.w.files['/data/apex.txt'] = ['']
        for f, kw in ((apex, {}), ('/data/apex.txt', {'fname': '/data/apex.txt'})):
            for fn, count in (('eval_qdlatlon', 2), ('eval_qdlatlon_with_base_vectors', 7)):
                r = c.try_(fn, getattr(q, fn), *x, **kw)
                if r is None:
                    continue
                if c.true(fn, len(r) == count, '%d results' % len(r)):
                    for k in range(count):
                        c.equal('%s: result %d' % (fn, k), r[k], each(lambda i: val(i, k, f), shape, 0))
                r = c.try_(fn, getattr(q, fn), gclat=x[0], gclon=x[1], gcrad=x[2], time=x[3], **kw)
                if r is not None:
                    c.equal(fn + ' (keywords)', r[1], each(lambda i: val(i, 1, f), shape, 0))
        for fn in ('eval_qdlatlon', 'eval_qdlatlon_with_base_vectors'):
            c.raises('missing coefficients file', OSError, getattr(q, fn), *x, '/data/none.txt')
        r = c.try_('eval_mlt', q.eval_mlt, x[1], x[3])
        if r is not None:
            c.equal('eval_mlt', r, each(lambda i: pynum.fun('mlt', 0, *[num(a[i] if shape else a)
                                                                      for a in (x[1], x[3])]), shape, 0))
        r = c.try_('eval_subsol', q.eval_subsol, x[3])
        if r is not None and c.true('eval_subsol', len(r) == 2, 'number of results'):
            for k in range(2):
                c.equal('eval_subsol', r[k], each(lambda i: pynum.fun('subsol', k, num(x[3][i] if shape else x[3])),
                                                  shape, 0))
    c.at('solar-position-wrappers', PK + 'solar_position.py')
    s = c.w.module('solar_position')
    for shape in ((), (2,), (2, 2)):
        x = [frees(('sun', k), shape) for k in range(7)]
        if not shape:
            x = [a[()] for a in x]
        dfl = [None, None, None, num(6371.2), num(0), num(1), num(20)]
        for fn, count in (('sunpos', 5), ('sunpos_original', 7)):
            for given in range(3, count + 1):
                r = c.try_(fn, getattr(s, fn), *x[:given])
                if r is None:
                    continue
                args = x[:given] + dfl[given:count]
                if c.true(fn, isinstance(r, tuple) and len(r) == 5, 'five results are expected'):
                    for k in range(5):
                        c.equal('%s: result %d' % (fn, k), r[k], each(lambda i: pynum.fun(fn, k, *[
                            num(a[i] if isinstance(a, np.ndarray) else a) for a in args]), shape, 0))


class Date:
    """datetime with exact differences"""

    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        self.d = datetime.datetime(*[int(num(x).q) if isinstance(x, Num) else x for x in (
            year, month, day, hour, minute, second, microsecond)])
        if tzinfo is not None:
            raise pyabs.Stop('datetime with a time zone')
        self.tzinfo = None

    @classmethod
    def of(cls, d):
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)

    def __getattr__(self, name):
        if name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'timetuple', 'toordinal',
                    'weekday', 'isoformat', 'fold'):
            return getattr(self.d, name)
        if name.startswith('__'):
            raise AttributeError(name)
        raise pyabs.Stop('datetime.%s' % name)

    def replace(self, **kw):
        return Date.of(self.d.replace(**{k: v for k, v in kw.items() if k != 'tzinfo' or v is not None}))

    def __sub__(self, o):
        if isinstance(o, Span):
            return Date.of(self.d - o.delta())
        if isinstance(o, Date):
            return Span._of(self.d - o.d)
        return NotImplemented

    def __add__(self, o):
        return Date.of(self.d + o.delta()) if isinstance(o, Span) else NotImplemented

    __radd__ = __add__

    def __eq__(self, o):
        return isinstance(o, Date) and self.d == o.d

    def __lt__(self, o):
        return self.d < o.d

    def __le__(self, o):
        return self.d <= o.d

    def __gt__(self, o):
        return self.d > o.d

    def __ge__(self, o):
        return self.d >= o.d

    __hash__ = None


class Span:
    """timedelta with exact quotients"""

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        f = [num(x).q for x in (days, seconds, microseconds, milliseconds, minutes, hours, weeks)]
        self.s = ((f[6] * 7 + f[0]) * 24 + f[5]) * 3600 + f[4] * 60 + f[1] + (f[2] + f[3] * 1000) / 1000000

    @classmethod
    def _of(cls, d):
        return cls(d.days, d.seconds, d.microseconds)

    @property
    def days(self):
        return math.floor(self.s / 86400)

    @property
    def seconds(self):
        return math.floor(self.s % 86400)

    @property
    def microseconds(self):
        return int(self.s % 1 * 1000000)

    def delta(self):
        return datetime.timedelta(self.days, self.seconds, self.microseconds)

    def total_seconds(self):
        return num(self.s)

    def __truediv__(self, o):
        if isinstance(o, Span):
            return num(self.s / o.s)
        return Span(0, num(self.s / num(o).q))

    def __mul__(self, o):
        return Span(0, num(self.s * num(o).q))

    __rmul__ = __mul__

    def __add__(self, o):
        return Span(0, num(self.s + o.s)) if isinstance(o, Span) else NotImplemented

    def __sub__(self, o):
        return Span(0, num(self.s - o.s)) if isinstance(o, Span) else NotImplemented

    def __neg__(self):
        return Span(0, num(-self.s))

    def __eq__(self, o):
        return isinstance(o, Span) and self.s == o.s

    def __lt__(self, o):
        return self.s < o.s

    def __le__(self, o):
        return self.s <= o.s

    def __gt__(self, o):
        return self.s > o.s

    def __ge__(self, o):
        return self.s >= o.s

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise pyabs.Stop('timedelta.%s' % name)


@scenario('C26', 'simple time conversions')
def c26_times(c):
    c.at('simple-time-conversions', PK + 'time_util.py')
    ext = c.w.it.externals['datetime']
    if hasattr(ext, 'abstract'):
        ext.datetime, ext.timedelta = Date, Span
    m = c.w.module('time_util')
    for shape in ((), (3,)):
        t = each(lambda i: num((700, -100, 1234567)[sum(i) % 3] + Fraction(c.w.draw.h('t', i) % 999983, 1 << 17)), shape, 0)
        y = frees('y', shape)
        for name, f, x in (
                ('mjd2000_to_decimal_year_simple', lambda v: 2000 + v / num(365.25), t),
                ('decimal_year_to_mjd2000_simple', lambda v: (v - 2000) * num(365.25), y),
                ('mjd2000_to_year_fraction_simple', lambda v: num(v.q / Fraction('365.25')
                                                                 - math.floor(v.q / Fraction('365.25'))), t)):
            r = c.try_(name, getattr(m, name), x if shape else x[()])
            if r is not None:
                c.equal(name, r, each(lambda i: f(x[i]), shape, 0))
            r = c.try_(name, getattr(m, name), x.tolist() if shape else x)
            if r is not None:
                c.equal(name, r, each(lambda i: f(x[i]), shape, 0))
    for yr in (1, 1582, 1899, 1900, 1999, 2000, 2001, 2004, 2100, 2400, 9998):
        s, e = datetime.datetime(yr, 1, 1), datetime.datetime(yr + 1, 1, 1)
        total = (e - s).days
        h = lambda k, n: c.w.draw.h('date', yr, k) % n       # pylint: disable=cell-var-from-loop
        for d in (s, s + datetime.timedelta(h(0, total), h(1, 86400), h(2, 1000000)),
                  s + datetime.timedelta(total, -1, 999999), s + datetime.timedelta(0, 0, 1),
                  s + datetime.timedelta(58 + h(3, 3), h(4, 86400)), e - datetime.timedelta(0, 0, 1)):
            r = c.try_('datetime_to_decimal_year', m.datetime_to_decimal_year, Date.of(d))
            if r is not None:
                x = d - s
                c.equal('datetime_to_decimal_year', r, num(yr + (
                    x.days + Fraction(x.seconds * 1000000 + x.microseconds, 86400 * 1000000)) / Fraction(total)))
    for bad in (None, 2000, '2000-01-01', free('x')):
        c.raises('datetime_to_decimal_year of another object', TypeError, m.datetime_to_decimal_year, bad)


# ------------------------------------------------------------------ rejected coefficients
@scenario('C27', 'malformed arrays of coefficients')
def c27_reject(c):
    c.at('array-checks', MM + 'coefficients.py')
    co = c.w.module('magnetic_model.coefficients')
    T, D, K = (co.SparseSHCoefficientsTimeDependent, co.SparseSHCoefficientsTimeDependentDecimalYear,
               co.SparseSHCoefficientsConstant)
    nm = np.array([(1, 0), (1, 1), (2, -1)])
    ts = arr([ranked(1990, 0), ranked(2000, 1)])
    cs = frees('c', (3, 2))
    for cls in (T, D):
        n = cls.__name__
        for what, a in (
                ('scalar time', (nm, cs, ts[0])), ('times of two dimensions', (nm, cs, ts.reshape(1, 2))),
                ('times of two dimensions', (nm, cs, ts.reshape(2, 1))),
                ('coefficients of one dimension', (nm, cs[:, 0], ts)),
                ('coefficients of one dimension', (nm, cs[0], ts)),
                ('coefficients of three dimensions', (nm, cs.reshape(3, 2, 1), ts)),
                ('flat indices', (nm.reshape(-1), cs, ts)), ('indices of one dimension', (nm[0], cs, ts)),
                ('indices of three dimensions', (nm.reshape(3, 2, 1), cs, ts)),
                ('column of indices', (nm.reshape(3, 1, 2), cs, ts)),
                ('stack of indices', (nm.reshape(1, 3, 2), cs, ts)),
                ('stacks of indices', (np.array([nm, nm, nm]), cs, ts)),
                ('transposed indices', (nm.transpose(), cs, ts)),
                ('coefficients of more dimensions', (nm, cs.reshape(3, 1, 2), ts)),
                ('stack of coefficients', (nm, cs.reshape(1, 3, 2), ts)),
                ('stack of times', (nm, cs, np.array([ts, ts]))),
                ('indices of three columns', (np.array([(1, 0, 0)] * 3), cs, ts)),
                ('indices of one column', (nm[:, :1], cs, ts)),
                ('less indices', (nm[:2], cs, ts)), ('more indices', (nm, cs[:2], ts)),
                ('less times', (nm, cs, ts[:1])), ('more times', (nm, cs[:, :1], ts)),
                ('transposed coefficients', (nm, cs.transpose(), ts))):
            c.raises('%s: %s' % (n, what), ValueError, cls, *a)
        for order in (0, 3, 4, -1, None):
            c.raises('%s: spline order %s' % (n, order), ValueError, cls, nm, cs, ts, spline_order=order)
        c.try_('valid arrays', cls, nm, cs, ts)
        c.try_('valid lists', cls, nm.tolist(), cs.tolist(), ts.tolist())
        c.try_('order 1', cls, nm, cs, ts, spline_order=1)
    for what, a in (('scalar coefficient', (nm, cs[0, 0])), ('coefficients of two dimensions', (nm, cs)),
                    ('coefficients of two dimensions', (nm, cs[:, :1])),
                    ('flat indices', (nm.reshape(-1), cs[:, 0])),
                    ('indices of three dimensions', (nm.reshape(3, 2, 1), cs[:, 0])),
                    ('column of indices', (nm.reshape(3, 1, 2), cs[:, 0])),
                    ('stack of indices', (nm.reshape(1, 3, 2), cs[:, 0])),
                    ('stacks of indices', (np.array([nm, nm, nm]), cs[:, 0])),
                    ('transposed indices', (nm.transpose(), cs[:, 0])),
                    ('row of coefficients', (nm, cs[:, 0].reshape(1, 3))),
                    ('indices of three columns', (np.array([(1, 0, 0)] * 3), cs[:, 0])),
                    ('less indices', (nm[:2], cs[:, 0])), ('more indices', (nm, cs[:2, 0]))):
        c.raises('constant: %s' % what, ValueError, K, *a)
    c.try_('valid arrays', K, nm, cs[:, 0])
    c.try_('valid lists', K, nm.tolist(), cs[:, 0].tolist())
