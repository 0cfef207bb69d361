"""Calendar: the terms of the time conversions over a complete case split of the days.

The time is D + f with the whole number of the days D and an unknown fraction 0 <= f < 1 (a decimal
year Y + g).  A floating point term is known as c + k f; the case split runs over all the days of the
years considered.  Only the terms of the sources are interpreted, with the integer semantics of C."""
import numpy

import cdrive
import cengine
from cabs import SYMBOLIC, Arr, Ptr, Tok, approx
from fw import REPO, AnalysisError
from layers import MODULES, CModule

FIRST, LAST = -4700, 4500
SWITCH = 1582       # the year of the switch from the Julian to the Gregorian calendar (355 days)


class Lin:
    """c + k f for all the cases"""

    def __init__(self, c, k=0.0):
        self.c, self.k = numpy.asarray(c, float), numpy.asarray(k, float)


class Calendar:
    def __init__(self, leaf, n):
        self.leaf, self.n, self.memo = leaf, n, {}

    def val(self, t):
        if not isinstance(t, Tok):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.term(t)
        return r

    def lin(self, v):
        return v if isinstance(v, Lin) else Lin(v)

    def cond(self, t):
        v = self.val(t)
        if isinstance(v, Lin):
            raise AnalysisError('condition of the fraction')
        return numpy.asarray(v) != 0

    def term(self, t):
        o, a = t.op, t.args
        if o in ('in', 'arg'):
            return self.leaf
        if o == 'isfinite':
            return 1
        if o in ('isnan', 'isinf'):
            return 0
        if o == 'phi':
            c = self.cond(a[0])
            if numpy.all(c):
                return self.val(a[1])
            if not numpy.any(c):
                return self.val(a[2])
            x, y = self.val(a[1]), self.val(a[2])
            if isinstance(x, (Lin, float)) or isinstance(y, (Lin, float)):
                x, y = self.lin(x), self.lin(y)
                return Lin(numpy.where(c, x.c, y.c), numpy.where(c, x.k, y.k))
            return numpy.where(c, x, y)
        v = [self.val(x) for x in a]
        if o in ('!',):
            return (~(numpy.asarray(v[0]) != 0)).astype(numpy.int64)
        if o in ('&&', '||'):
            x, y = (numpy.asarray(z) != 0 for z in v)
            return ((x & y) if o == '&&' else (x | y)).astype(numpy.int64)
        if any(isinstance(x, (Lin, float)) for x in v):
            return self.real(o, [self.lin(x) for x in v])
        return self.whole(o, [numpy.asarray(x, numpy.int64) for x in v])

    def real(self, o, v):
        if o == '+':
            return Lin(v[0].c + v[1].c, v[0].k + v[1].k)
        if o == '-':
            return Lin(v[0].c - v[1].c, v[0].k - v[1].k)
        if o == 'neg':
            return Lin(-v[0].c, -v[0].k)
        if o == '*':
            x, y = v
            if numpy.any(x.k) and numpy.any(y.k):
                raise AnalysisError('product of fractions')
            return Lin(x.c * y.c, x.c * y.k + x.k * y.c)
        if o == '/':
            if numpy.any(v[1].k):
                raise AnalysisError('division by a fraction')
            return Lin(v[0].c / v[1].c, v[0].k / v[1].c)
        if o in ('floor', 'toint', 'trunc', 'ceil', 'fmod') and o != 'fmod':
            x = v[0]
            r = numpy.floor(x.c)
            whole = numpy.all(x.c == r)
            if not whole or numpy.any((x.k != 0) & (x.k != 1)):
                raise AnalysisError('%s of a fraction' % o)
            if o == 'ceil' and numpy.any(x.k):
                raise AnalysisError('ceil of a fraction')
            if o in ('toint', 'trunc'):
                r = numpy.where((x.k != 0) & (r < 0), r + 1, r)     # not exact: towards zero
            return r.astype(numpy.int64) if o == 'toint' else Lin(r)
        if o in ('<', '>', '<=', '>=', '==', '!='):
            d = Lin(v[0].c - v[1].c, v[0].k - v[1].k)
            lo, hi = numpy.minimum(d.c, d.c + d.k), numpy.maximum(d.c, d.c + d.k)
            if o in ('<', '>='):        # the fraction is below 1
                yes, no = numpy.where(d.k > 0, hi <= 0, hi < 0), lo >= 0
            elif o in ('>', '<='):
                yes, no = lo > 0, numpy.where(d.k < 0, hi <= 0, hi <= 0)
            else:
                yes, no = (d.c == 0) & (d.k == 0), (lo > 0) | (hi < 0) | ((d.k > 0) & (hi <= 0))
            if not numpy.all(yes | no):
                raise AnalysisError('comparison of the fraction')
            r = yes.astype(numpy.int64)
            return 1 - r if o in ('>=', '<=', '!=') else r
        raise AnalysisError('operation %s of the time' % o)

    def whole(self, o, v):
        if o in ('<', '>', '<=', '>=', '==', '!='):
            f = {'<': numpy.less, '>': numpy.greater, '<=': numpy.less_equal,
                 '>=': numpy.greater_equal, '==': numpy.equal, '!=': numpy.not_equal}[o]
            return f(*v).astype(numpy.int64)
        if o == 'neg':
            return -v[0]
        if o == 'toint':
            return v[0]
        if o in ('floor',):
            return v[0]
        if o in ('+', '-', '*'):
            r = v[0] + v[1] if o == '+' else v[0] - v[1] if o == '-' else v[0] * v[1]
            if numpy.any(numpy.abs(r) >= 2 ** 31):
                raise Overflow()
            return r
        if o in ('/', '%'):
            q = numpy.abs(v[0]) // numpy.abs(v[1]) * numpy.sign(v[0]) * numpy.sign(v[1])
            return q if o == '/' else v[0] - q * v[1]
        if o in ('&', '|', '>>', '<<'):
            return {'&': numpy.bitwise_and, '|': numpy.bitwise_or, '>>': numpy.right_shift,
                    '<<': numpy.left_shift}[o](*v)
        raise AnalysisError('integer operation %s' % o)


class Overflow(Exception):
    pass


def term(mod, pub, name):
    en = cengine.Entry('_pytimeconv', pub, mod)
    SYMBOLIC[0] = True
    try:
        outs = en.it.run_entry(en.fname, {name: Arr()}, False, True)
    finally:
        SYMBOLIC[0] = False
    res = []
    for v, s in outs:
        if isinstance(v, Ptr) and v.o is not None:
            (p, r), = en.arrays(v, s)
            res.append((s.path, s.mem[('D', r.arr.aid)].cells[()]))
    return en, res


def pick(exits, cal):
    """value over all the cases: the exits are told by their conditions"""
    out = None
    for path, t in exits:
        m = numpy.ones(cal.n, bool)
        for c, truth in path:
            m &= cal.cond(c) == truth
        if not m.any():
            continue
        v = cal.lin(cal.val(t))
        c, k = numpy.broadcast_to(v.c, cal.n), numpy.broadcast_to(v.k, cal.n)
        if out is None:
            out = [numpy.full(cal.n, numpy.nan), numpy.full(cal.n, numpy.nan)]
        out[0] = numpy.where(m, c, out[0])
        out[1] = numpy.where(m, k, out[1])
    if out is None:
        raise AnalysisError('no result for a finite time')
    return out


def leap(y):
    return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0) | (y <= SWITCH))


def check(rep, tier, repo=REPO):
    mod = CModule(repo, '_pytimeconv', MODULES['_pytimeconv'])
    last = 9000 if tier == 'thorough' else LAST
    years = numpy.arange(FIRST, last + 1)
    length = numpy.where(leap(years), 366, 365)
    # the days are counted one by one from the first year; 1582-10-04 is followed by 1582-10-15
    days = numpy.where(years == SWITCH, 355, length)
    start = numpy.concatenate([[0], numpy.cumsum(days)[:-1]])
    start = start - start[years == 2000]
    keep = years != SWITCH      # the length of this year is not defined by the documentation
    years, length, start = years[keep], length[keep], start[keep]
    year = numpy.repeat(years, length)
    n = len(year)
    ylen, ystart = numpy.repeat(length, length), numpy.repeat(start, length)
    day = ystart + numpy.arange(n) - numpy.repeat(numpy.cumsum(length) - length, length)
    rep.rules = ['day of the year', 'decimal year', 'inverse']
    rep.coverage['days considered'] = n
    rep.coverage['years considered'] = len(years)
    want = {'mjd2000_to_decimal_year': (year + (day - ystart) / ylen, 1.0 / ylen),
            'mjd2000_to_year_fraction': ((day - ystart) / ylen, 1.0 / ylen)}
    rep.coverage['conversions'] = 0

    def report(en, what, at):
        rep.find('calendar', en.where(), what, '%s (e.g. %s)' % (what, at))
    for pub, (c, k) in want.items():
        en, exits = term(mod, pub, 'time_mjd2k')
        rep.count('conversions')
        try:
            x, y = pick(exits, Calendar(Lin(day, numpy.ones(n)), n))
        except Overflow:
            report(en, 'integer overflow', 'within the years %d to %d' % (FIRST, last))
            continue
        bad = ~((numpy.abs(x - c) < 1e-9) & (numpy.abs(y - k) < 1e-9))
        if bad.any():
            i = int(numpy.argmax(bad))
            report(en, 'the year or its fraction is not the one of the calendar',
                   'MJD2000 %d of the year %d' % (day[i], year[i]))
    en, exits = term(mod, 'decimal_year_to_mjd2000', 'decimal_year')
    rep.count('conversions')
    m = len(years)
    try:
        x, y = pick(exits, Calendar(Lin(years, numpy.ones(m)), m))
        bad = ~((numpy.abs(x - start) < 1e-6) & (numpy.abs(y - length) < 1e-6))
        if bad.any():
            i = int(numpy.argmax(bad))
            report(en, 'the conversion is not the inverse of mjd2000_to_decimal_year',
                   'decimal year %d' % years[i])
    except Overflow:
        report(en, 'integer overflow', 'within the years %d to %d' % (FIRST, last))
