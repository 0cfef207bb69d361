"""Mathematical content of the C entry points, decided by global value numbering (gvn.py).

The terms which the abstract interpreter computes for one generic point are compared with the terms
of the documented formulas, or with the terms of other entry points."""
import sys

import cabs
import cdrive
import cengine
import gvn
from cabs import Arr, Bool, Flt, Int, Lst, Ptr, Tok, Tup, UNINIT
from fw import REPO, AnalysisError
from gvn import P, Drawing, View, add, const, degrees, div, inv, mul, neg, sincos, sub
from layers import MODULES, CModule

DRAWINGS = 3
TRIES = 3000


class Undefined(Exception):
    """the result is not defined: the reason is given"""


class Prog:
    """entry point run for one generic point"""

    def __init__(self, ctx, pub, **cfg):
        self.ctx, self.pub, self.cfg = ctx, pub, cfg
        key = (pub, repr(sorted(cfg.items(), key=lambda x: x[0])))
        if key not in ctx.cache:
            ctx.cache[key] = self.run()
        self.exits, self.dead = ctx.cache[key]

    def run(self):
        cabs.SYMBOLIC[0] = True
        try:
            return self.run_()
        finally:
            cabs.SYMBOLIC[0] = False

    def run_(self):
        en = self.ctx.entry(self.pub)
        res = []
        en.it.viols.clear()
        for v, s in en.it.run_entry(en.fname, self.cfg, False, True):
            if not isinstance(v, Ptr) or v.o is None:
                continue
            out = []
            for p, r in en.arrays(v, s):
                if r is None or r.kind != 'array' or r.arr is None:
                    raise AnalysisError('%s: the result is not an array' % self.pub)
                d = s.mem[('D', r.arr.aid)]
                out.append(dict(d.cells))
            res.append((s.path, out))
        self.ctx.n['programs'] += 1
        dead = '; '.join(sorted({x[0] for x in en.it.viols.values()}))
        if not res and not dead:
            raise AnalysisError('%s: valid arguments are refused' % self.pub)
        return res, dead

    def at(self, view):
        """terms of the results at the exit taken by the drawing"""
        hit = [out for path, out in self.exits
               if all(view.cond(c) == t for c, t in path)]
        if not hit and self.dead:
            raise Undefined(self.dead)
        if len(hit) != 1:
            raise AnalysisError('%s: %d exits for one point' % (self.pub, len(hit)))
        return hit[0]

    def values(self, view):
        return [{i: view.val(x)[0] for i, x in d.items()} for d in self.at(view)]


# ------------------------------------------------------------------ documented formulas
def legendre_poly(n, m):
    """coefficients of the m-th derivative of the Legendre polynomial (Rodrigues formula)"""
    from fractions import Fraction
    from math import factorial
    c = {}
    for k in range(n + 1):      # (x^2 - 1)^n / (2^n n!), differentiated n + m times
        e = 2 * k
        f = Fraction((-1) ** (n - k) * factorial(n), factorial(k) * factorial(n - k))
        d = n + m
        if e < d:
            continue
        f *= Fraction(factorial(e), factorial(e - d))
        c[e - d] = c.get(e - d, 0) + f / (2 ** n * factorial(n))
    return c


def frac(f):
    return f.numerator % P * inv(f.denominator) % P


_poly = {}


def schmidt(n, m, s, c, over=0):
    """Schmidt semi-normalised associated Legendre function of sin(lat) = s, cos(lat) = c
    and its derivative by the latitude; over: divided by c (order > 0)"""
    from fractions import Fraction
    from math import factorial
    k = _poly.get((n, m))
    if k is None:
        norm = Fraction((1 if m == 0 else 2) * factorial(n - m), factorial(n + m))
        nr = gvn.root(norm.numerator % P) * inv(gvn.root(norm.denominator % P)) % P
        if nr * nr % P != frac(norm):
            raise AnalysisError('square root in the field')
        k = _poly[(n, m)] = (nr, {e: frac(f) for e, f in legendre_poly(n, m).items()},
                             {e: frac(f) for e, f in legendre_poly(n, m + 1).items()})
    nr, d0, d1 = k

    def poly(d):
        return sum(f * pow(s, e, P) for e, f in d.items()) % P
    p = nr * poly(d0) % P
    if over:
        return p * pow(c, m - 1, P) % P
    cm = pow(c, m, P)
    dp = nr * (poly(d1) * cm * c - (m * pow(c, m - 1, P) * s * poly(d0) if m else 0)) % P
    return p * cm % P, dp


def index(n, m):
    return n * (n + 1) // 2 + m


RADIUS = 6371.2
WGS84_A, WGS84_B = 6378.137, 6356.7523142
GEODETIC, SPHERICAL, CARTESIAN = 0, 1, 2
POTENTIAL, GRADIENT, BOTH = 1, 2, 3


def real(x):
    """first component of a quantity"""
    return x[0]


class Place:
    """free point known in all the coordinate systems"""

    def __init__(self, draw, key='place', pole=0):
        th = draw.right(pole) if pole else draw.angle(key, 'th', positive=True)
        lon = draw.angle(key, 'lon')
        self.s, self.c = draw.special.get(th[0]) or sincos(th)
        self.sl, self.cl = sincos(lon)
        self.th, self.lon = th, lon
        if pole:
            self.r = draw.positive(key, 'r')
        else:
            glat = draw.angle(key, 'glat', positive=True)
            sg, cg = sincos(glat)
            a, b = const(WGS84_A)[0], const(WGS84_B)[0]
            e2 = (1 - b * b * inv(a * a)) % P
            w = (1 - e2 * sg * sg) % P
            if not gvn.isqr(w):
                raise gvn.NotReal()
            rc = a * inv(gvn.root(w)) % P
            t = self.s * inv(self.c) * cg * inv(sg) % P
            h = rc * (t - 1 + e2) * inv((1 - t) % P) % P
            r = (rc + h) * cg * inv(self.c) % P
            if not gvn.isqr(r):
                raise gvn.NotReal()
            self.r = r, gvn.hashed('q', r)[1]
            self.h = h, gvn.hashed('q', h)[1]
            self.glat = glat
            self.sg, self.cg = sg, cg
        x = self.r[0] * self.c * self.cl % P
        y = self.r[0] * self.c * self.sl % P
        z = self.r[0] * self.s % P
        self.xyz = x, y, z

    def coords(self, system):
        """coordinates in the coordinate system"""
        if system == SPHERICAL:
            return {(0,): degrees(self.th), (1,): degrees(self.lon), (2,): self.r}
        if system == GEODETIC:
            return {(0,): degrees(self.glat), (1,): degrees(self.lon), (2,): self.h}
        return {(i,): (v, gvn.hashed('q', v)[1]) for i, v in enumerate(self.xyz)}

    def frame(self, system):
        """unit vectors of the local frame in the Cartesian coordinates"""
        if system == CARTESIAN:
            return [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
        s, c = (self.s, self.c) if system == SPHERICAL else (self.sg, self.cg)
        return [(-s * self.cl % P, -s * self.sl % P, c), (-self.sl % P, self.cl, 0),
                (c * self.cl % P, c * self.sl % P, s)]

    def project(self, vec, system):
        """components of a vector given in the spherical frame (north, east, up)"""
        f = self.frame(SPHERICAL)
        xyz = [sum(v * u[i] for v, u in zip(vec, f)) % P for i in range(3)]
        return [sum(a * b for a, b in zip(xyz, u)) % P for u in self.frame(system)]


def expansion(place, coef, degree, internal):
    """potential and gradient (north, east, up) of the spherical harmonic expansion; coef(n, m, k)"""
    s, c = place.s, place.c
    r, a = place.r[0], const(RADIUS)[0]
    pot = north = east = up = 0
    cm, sm = [1], [0]
    for m in range(1, degree + 1):
        x, y = gvn.cmul((cm[-1], sm[-1]), (place.cl, place.sl))
        cm.append(x)
        sm.append(y)
    for n in range(degree + 1):
        f = pow(a * inv(r) % P, n + 1, P) if internal else pow(r * inv(a) % P, n, P)
        f = a * f % P
        df = (-(n + 1) if internal else n) * f * inv(r) % P
        for m in range(n + 1):
            g, h = coef(n, m, 0), coef(n, m, 1) if m else 0
            p, dp = schmidt(n, m, s, c)
            t = (g * cm[m] + h * sm[m]) % P
            pot += f * t * p
            up += df * t * p
            north += f * inv(r) * t * dp
            if m:
                east += f * inv(r) * (h * cm[m] - g * sm[m]) * m * schmidt(n, m, s, c, 1)
    return pot % P, [north % P, east % P, up % P]


# ------------------------------------------------------------------ obligations
class Ctx:
    def __init__(self, repo=REPO):
        self.mods = {m: CModule(repo, m, MODULES[m]) for m in ('_pymm', '_pysunpos')}
        self.entries, self.cache = {}, {}
        self.n = {'programs': 0, 'obligations': 0, 'drawings': 0, 'value numbers compared': 0}
        self.found = {}
        self.part = None
        self.rules = set()

    def entry(self, pub):
        if pub not in self.entries:
            for name, mod in self.mods.items():
                if pub in mod.methods:
                    self.entries[pub] = cengine.Entry(name, pub, mod)
                    break
            else:
                raise AnalysisError('function %s not found' % pub)
        return self.entries[pub]

    def prog(self, pub, **cfg):
        return Prog(self, pub, **cfg)

    def where(self, pub):
        return self.entry(pub).where()

    def decide(self, pub, rule, what, fn, some=False):
        """fn(draw) -> [(label, value, expected)]; some: the equality of one drawing decides"""
        if self.part and rule != self.part:
            return
        self.n['obligations'] += 1
        self.rules.add(rule)
        done = good = degenerate = 0
        bad = None
        need = 60 if some else DRAWINGS
        for seed in range(TRIES):
            draw = Drawing((rule, seed))
            try:
                pairs = fn(draw)
            except gvn.NotReal:
                continue
            except gvn.Degenerate:
                degenerate += 1
                if degenerate < 40 or done:
                    continue
                bad = ['division by zero']
                break
            except Undefined as ex:
                bad = [str(ex)]
                break
            done += 1
            self.n['drawings'] += 1
            self.n['value numbers compared'] += len(pairs)
            if not pairs:
                raise AnalysisError('%s: nothing compared' % what)
            miss = [lab for lab, x, y in pairs if x != y]
            if miss:
                bad = bad or miss
                if not some:
                    break
            else:
                good += 1
                if some:
                    break
            if done >= need:
                break
        if done == 0 and not bad:
            raise AnalysisError('%s: %s: no generic drawing' % (pub, what))
        if bad and not (some and good):
            self.found.setdefault((rule, self.where(pub), what),
                                  '%s: %s does not agree' % (what, ', '.join(map(str, bad[:4]))))


def flat(label, got, want):
    """compared arrays: got {index: value}, want {index: value}"""
    if set(got) != set(want):
        return [('%s: shape' % label, sorted(got), sorted(want))]
    return [('%s%s' % (label, list(i)), got[i], want[i]) for i in sorted(want)]


def ncoef(d):
    return cdrive.ncoef(d)


def series(ctx, thorough):
    """C10: Legendre functions, longitude and radius series"""
    for d in [0, 1, 2, 5, 18, 40] + ([3, 4, 16, 17, 22, 70] if thorough else []):
        p = ctx.prog('legendre', latitude=Arr(), degree=Int(d))

        for pole in (0, 1, -1):
            if pole and d not in (0, 1, 2, 5, 18, 40):
                continue

            def fn(draw, p=p, d=d, pole=pole):
                pl = Place(draw, pole=pole)
                got = p.values(View(draw, {'latitude': degrees(pl.th)}))
                w = {(n, m): schmidt(n, m, pl.s, pl.c) for n in range(d + 1) for m in range(n + 1)}
                out = []
                for k in (0, 1):
                    out += flat('dP'[1 - k] + 'n,m ', got[k], {(index(n, m),): v[k] for (n, m), v in w.items()})
                return out
            ctx.decide('legendre', 'legendre', 'Legendre functions%s' % (' at the poles' if pole else ''), fn)
    for d in [0, 1, 2, 5, 40] + ([3, 4, 9, 150] if thorough else []):
        for alg in ({}, {'fast_alg': Bool(0)}, {'fast_alg': Bool(1)}):
            p = ctx.prog('loncossin', longitude=Arr(), degree=Int(d), **alg)

            def fn(draw, p=p, d=d):
                pl = Place(draw, pole=1)
                got = p.values(View(draw, {'longitude': degrees(pl.lon)}))
                w, z = {}, (1, 0)
                for m in range(d + 1):
                    w[(m, 0)], w[(m, 1)] = z
                    z = gvn.cmul(z, (pl.cl, pl.sl))
                return flat('', got[0], w)
            ctx.decide('loncossin', 'loncossin', 'cosines and sines of the multiples of the longitude', fn)
    for d in [0, 1, 2, 5, 40] + ([3, 4, 9, 150] if thorough else []):
        for it in ({}, {'is_internal': Bool(0)}, {'is_internal': Bool(1)}):
            for ref in ({}, {'reference_radius': Flt()}):
                p = ctx.prog('relradpow', radius=Arr(), degree=Int(d), **dict(it, **ref))

                def fn(draw, p=p, d=d, it=it, ref=ref):
                    r = draw.positive('r')
                    a = draw.positive('a') if ref else const(RADIUS)
                    got = p.values(View(draw, {'radius': r, 'reference_radius': a}))
                    q = a[0] * inv(r[0]) % P
                    if it.get('is_internal', Bool(1)).value:
                        w = {(n,): pow(q, n + 2, P) for n in range(d + 1)}
                    else:
                        w = {(n,): pow(inv(q), n, P) * q % P for n in range(d + 1)}
                    return flat('', got[0], w)
                ctx.decide('relradpow', 'relradpow', 'powers of the relative radius', fn)


def scales(draw, kind):
    """scale of the gradient: (leaf values, three factors)"""
    if kind is None:
        return {}, (1, 1, 1)
    v = {(i,) if kind == 3 else (): draw.free('scale', i) for i in range(kind)}
    f = [x[0] for x in v.values()]
    return v, f if kind == 3 else f * 3


SCALES = [({}, None, False), ({'scale_potential': Flt()}, None, True),
          ({'scale_gradient': Arr()}, 1, False), ({'scale_gradient': Arr(3)}, 3, False),
          ({'scale_gradient': Arr(3), 'scale_potential': Flt()}, 3, True)]


def evaluation(ctx, pub, what, base, leafs, coef, degree, thorough, quick_systems=None):
    """potential and gradient of an evaluation for all modes, coordinate systems, scales"""
    k = 0
    for internal in (1, 0):
        for cin in (SPHERICAL, GEODETIC, CARTESIAN):
            for cout in (SPHERICAL, GEODETIC, CARTESIAN):
                for mode in (BOTH, POTENTIAL, GRADIENT):
                    k += 1
                    if ctx.part == 'potential' and not mode & POTENTIAL or \
                            ctx.part == 'gradient' and not mode & GRADIENT:
                        continue
                    if not thorough and quick_systems is not None and (cin, cout) not in quick_systems \
                            and (k % 5):
                        continue
                    sc, kind, pscale = SCALES[(k + k // 5) % len(SCALES)]
                    cfg = dict(base, arr_x=Arr(3), coord_type_in=Int(cin), coord_type_out=Int(cout),
                               mode=Int(mode), is_internal=Bool(internal), **sc)
                    for pole in (0, 1, -1) if cin == cout == SPHERICAL else (0,):
                        evaluate(ctx, pub, what, cfg, leafs, coef, degree, internal, cin, cout, mode,
                                 kind, pscale, pole)


def evaluate(ctx, pub, what, cfg, leafs, coef, degree, internal, cin, cout, mode, kind, pscale, pole):
    p = ctx.prog(pub, **cfg)

    def fn(draw, part):
        pl = Place(draw, pole=pole)
        lv = dict(leafs(draw))
        lv['arr_x'] = pl.coords(cin)
        sg, fac = scales(draw, kind)
        sp = draw.free('scale_potential')
        lv['scale_gradient'], lv['scale_potential'] = sg, sp
        view = View(draw, lv)
        if cout == GEODETIC and cin != GEODETIC:
            pl = known_geodetic(ctx, draw, pl, cin)
        pot, grad = expansion(pl, coef(draw), degree, internal)
        res = p.at(view)
        out = []
        if mode & POTENTIAL and part == 'potential':
            out += flat('potential', {i: view.val(x)[0] for i, x in res[0].items()},
                        {(): pot * (sp[0] if pscale else 1) % P})
        if mode & GRADIENT and part == 'gradient':
            g = pl.project(grad, cout)
            out += flat('gradient', {i: view.val(x)[0] for i, x in res[-1].items()},
                        {(i,): v * f % P for i, (v, f) in enumerate(zip(g, fac))})
        return out
    for part, bit in (('potential', POTENTIAL), ('gradient', GRADIENT)):
        if mode & bit:
            ctx.decide(pub, part, '%s %s%s%s' % (what, part, ' (internal)' if internal else ' (external)',
                                                ' at the poles' if pole else ''),
                       lambda draw, part=part: fn(draw, part))


def known_geodetic(ctx, draw, pl, cin):
    """the geodetic latitude given by the coordinate conversion of the library"""
    q = ctx.prog('convert', arr_in=Arr(3), coord_type_in=Int(SPHERICAL), coord_type_out=Int(GEODETIC))
    view = View(draw, {'arr_in': pl.coords(SPHERICAL)})
    lat = view.val(q.at(view)[0][(0,)])
    lat = div(mul(lat, gvn.PI), const(180))
    import copy
    pl = copy.copy(pl)
    pl.sg, pl.cg = draw.special.get(lat[0]) or sincos(lat)
    return pl


def static(ctx, thorough):
    """C11, C12: sheval, spharpot, sphargrd"""
    def coef(draw):
        return lambda n, m, k: draw.free('coef', (index(n, m), k))[0]

    def leafs(draw):
        return {'coef': lambda i: draw.free('coef', i)}
    for d in (2, 0, 1, 4):
        evaluation(ctx, 'sheval', 'evaluation', {'coef': Arr(ncoef(d), 2)}, leafs, coef, d,
                   thorough or d == 2, {(SPHERICAL, SPHERICAL)})
    for big, deg, use in ((3, 1, 1), (3, 2, 2), (2, 0, 0), (2, 5, 2), (2, -1, 2), (2, 2, 2)):
        for mode in (POTENTIAL, GRADIENT, BOTH):
            for internal in (1, 0):
                cfg = {'coef': Arr(ncoef(big), 2), 'degree': Int(deg), 'arr_x': Arr(3), 'mode': Int(mode),
                       'coord_type_in': Int(SPHERICAL), 'coord_type_out': Int(SPHERICAL),
                       'is_internal': Bool(internal)}
                evaluate(ctx, 'sheval', 'evaluation limited to the degree', cfg, leafs, coef, use, internal,
                         SPHERICAL, SPHERICAL, mode, None, False, 0)
    for d in (18, 34) + ((3, 17, 60) if thorough else ()):
        for pole in (0, 1, -1):
            for mode in (POTENTIAL, GRADIENT, BOTH):
                evaluate(ctx, 'sheval', 'evaluation', {
                    'coef': Arr(ncoef(d), 2), 'arr_x': Arr(3), 'mode': Int(mode),
                    'coord_type_in': Int(SPHERICAL), 'coord_type_out': Int(SPHERICAL)}, leafs, coef, d, 1,
                    SPHERICAL, SPHERICAL, mode, None, False, pole)
    for d, deg, use in ((0, None, 0), (1, None, 1), (3, None, 3), (3, 1, 1), (3, 0, 0), (2, -1, 2), (2, 5, 2)):
        opt = {} if deg is None else {'degree': Int(deg)}
        for internal in (1, 0):
            for pole in (0, 1, -1):
                def lv(draw, pl, internal=internal, d=d):
                    s = {n: sum_(pl, n) for n in range(d + 1)}
                    a, r = const(RADIUS)[0], pl.r[0]
                    q = a * inv(r) % P
                    rrp = {(n,): tag(pow(q, n + 2, P) if internal else pow(inv(q), n, P) * q % P)
                           for n in range(d + 1)}
                    leg = {(n, m): schmidt(n, m, pl.s, pl.c) for n in range(d + 1) for m in range(n + 1)}
                    lcs = {}
                    for n in range(d + 1):
                        lcs[(n, 0)], lcs[(n, 1)] = map(tag, s[n])
                    return {'radius': pl.r, 'latitude': degrees(pl.th), 'rpp': rrp, 'rrp': rrp, 'lcs': lcs,
                            'leg_p': {(index(n, m),): tag(v[0]) for (n, m), v in leg.items()},
                            'leg_dp': {(index(n, m),): tag(v[1]) for (n, m), v in leg.items()},
                            'coef': lambda i: draw.free('coef', i)}
                n = ncoef(d)
                if internal and not pole or not internal and not pole:
                    p = ctx.prog('spharpot', radius=Arr(), coef=Arr(n, 2), leg_p=Arr(n), rpp=Arr(d + 1),
                                 lcs=Arr(d + 1, 2), **opt)

                    def pot(draw, p=p, lv=lv, internal=internal, use=use):
                        pl = Place(draw)
                        got = p.values(View(draw, lv(draw, pl)))
                        return flat('potential', got[0],
                                    {(): expansion(pl, coef(draw), use, internal)[0]})
                    ctx.decide('spharpot', 'potential', 'potential of the given series', pot)
                p = ctx.prog('sphargrd', latitude=Arr(), coef=Arr(n, 2), leg_p=Arr(n), leg_dp=Arr(n),
                             rrp=Arr(d + 1), lcs=Arr(d + 1, 2), is_internal=Bool(internal), **opt)

                def grd(draw, p=p, lv=lv, internal=internal, use=use, pole=pole):
                    pl = Place(draw, pole=pole)
                    got = p.values(View(draw, lv(draw, pl)))
                    g = expansion(pl, coef(draw), use, internal)[1]
                    return flat('gradient', got[0], {(i,): v for i, v in enumerate(g)})
                ctx.decide('sphargrd', 'gradient', 'gradient of the given series%s'
                           % (' at the poles' if pole else ''), grd)


def tag(v):
    return v % P, gvn.hashed('q', v % P)[1]


def sum_(pl, n):
    z = (1, 0)
    for _ in range(n):
        z = gvn.cmul(z, (pl.cl, pl.sl))
    return z


# ------------------------------------------------------------------ time series
def ordered(draw, n, key):
    """n free quantities in the increasing order"""
    out, salt = [], 0
    while len(out) < n:
        v = draw.free(key, salt)
        salt += 1
        if all(gvn.isqr((v[0] - u[0]) % P) for u in out):
            out.append(v)
    return out


def times(draw, nt, pos):
    """nodes and a time: pos = 2 k + 1 the node k, pos = 2 k between the nodes k - 1 and k"""
    if pos % 2:
        nodes = ordered(draw, nt, 'time')
        return nodes, nodes[pos // 2]
    all_ = ordered(draw, nt + 1, 'time')
    t = all_.pop(pos // 2)
    return all_, t


def interpolated(nodes, t, pos, kind, value, extrapolate):
    """value of the interpolated series; value(k) at the nodes; None: not a number"""
    nt = len(nodes)
    inside = 1 <= pos and (pos <= 2 * nt - 1 or kind == 0)      # the last constant holds on
    if not inside and not extrapolate:
        return None
    k = (pos - 1) // 2 if pos else 0
    if kind == 0:
        return value(min(max(k, 0), nt - 1))
    k = min(max(k, 0), nt - 2)
    dt = inv((nodes[k + 1][0] - nodes[k][0]) % P)
    if kind == 0x11:
        return (value(k + 1) - value(k)) * dt % P
    a = (t[0] - nodes[k][0]) * dt % P
    return (value(k) * (1 - a) + value(k + 1) * a) % P


def temporal(ctx, thorough):
    """C13: interp, shevaltemp"""
    nan = const(float('nan'))[0]
    for kind in (0, 1, 0x11, None):
        for ext in (None, 0, 1):
            for nt in (1, 2, 3, 4, 5):
                if nt < 2 and kind != 0 or nt > 3 and ext == 0 and not thorough:
                    continue
                opt = {} if kind is None else {'kind': Int(kind)}
                if ext is not None:
                    opt['extrapolate'] = Bool(ext)
                p = ctx.prog('interp', time=Arr(), time0=Arr(nt), coeff0=Arr(2, nt), **opt)
                for pos in range(2 * nt + 1):
                    def fn(draw, p=p, nt=nt, pos=pos, kind=kind, ext=ext):
                        nodes, t = times(draw, nt, pos)
                        got = p.values(View(draw, {'time': t, 'time0': {(i,): v for i, v in enumerate(nodes)}}))
                        w = {}
                        for c in range(2):
                            v = interpolated(nodes, t, pos, 1 if kind is None else kind,
                                             lambda k: draw.free('coeff0', (c, k))[0], bool(ext))
                            w[(c,)] = nan if v is None else v
                        return flat('', got[0], w)
                    ctx.decide('interp', 'interp', 'interpolated coefficients', fn)
    for n in (1, 2, 3, 4, 5) + ((7, 8) if thorough else ()):
        for side in (0, 1):
            p = ctx.prog('bisect', v=Arr(n), x=Arr(), side=Int(side))
            for pos in range(2 * n + 1):
                def fn(draw, p=p, n=n, side=side, pos=pos):
                    nodes, t = times(draw, n, pos)
                    got = p.values(View(draw, {'x': t, 'v': {(i,): v for i, v in enumerate(nodes)}}))
                    # index of the last node which is less than (or equal to, side 1) the value
                    k = pos // 2 - 1
                    if pos % 2 and side == RIGHT:
                        k += 1
                    return flat('', got[0], {(): k % P})
                ctx.decide('bisect', 'bisect', 'index of the interval', fn)
    nm = cdrive.NM
    sets = [([(nm[1], 2, 2)], 1), ([(nm[2], 3, 2)], 1), ([(nm[3], 2, 2), ([2, 1, 2, -2, 0, 0], 3, 2)], 2),
            ([(nm[2], 3, 1)], 1), ([(nm[2], 2, 1), ([1, -1, 3, 3], 2, 2)], 3)]
    if thorough:
        sets += [([(nm[4], 4, 2)], 2), ([(nm[1], 1, 1), ([1, 1], 2, 2), ([2, 0, 2, 1], 3, 1)], 2)]
    for sset, degree in sets:
        degree = max(n for cm, _, _ in sset for n in cm[::2])
        spec = Lst(*[cdrive.cset(len(cm) // 2, nt, cm, order) for cm, nt, order in sset])
        for pos in range(2 * max(nt for _, nt, _ in sset) + 1):
            def series_(draw, pos=pos, sset=sset):
                big = max(nt for _, nt, _ in sset)
                nodes, t = times(draw, big, pos)
                lv, table = {'arr_t': t}, {}
                for i, (cm, nt, order) in enumerate(sset):
                    ns = nodes[:nt]
                    ps = min(pos, 2 * nt)
                    lv['coef_set_list.%d.0' % i] = {(k,): v for k, v in enumerate(ns)}
                    for j in range(len(cm) // 2):
                        n, m = cm[2 * j], cm[2 * j + 1]
                        table[(n, abs(m), 1 if m < 0 else 0)] = interpolated(
                            ns, t, ps, order - 1,
                            lambda k: draw.free('coef_set_list.%d.1' % i, (j, k))[0], True)
                return lv, table

            def coef(draw, series_=series_):
                table = series_(draw)[1]
                return lambda n, m, k: table.get((n, m, k), 0)
            base = {'arr_t': Arr(), 'coef_set_list': spec}
            for mode in (BOTH, POTENTIAL, GRADIENT):
                for internal in (1, 0):
                    if internal == 0 and pos != 2:
                        continue
                    cfg = dict(base, arr_x=Arr(3), coord_type_in=Int(SPHERICAL),
                               coord_type_out=Int(SPHERICAL), mode=Int(mode), is_internal=Bool(internal))
                    evaluate(ctx, 'shevaltemp', 'time-dependent evaluation', cfg,
                             lambda draw, s=series_: s(draw)[0], coef, degree, internal, SPHERICAL,
                             SPHERICAL, mode, None, False, 0)
            if pos == 2:
                evaluation(ctx, 'shevaltemp', 'time-dependent evaluation', base,
                           lambda draw, s=series_: s(draw)[0], coef, degree, thorough, set())


def fourier(ctx, thorough):
    """C14: fourier2d, sheval2dfs"""
    def basis(draw, opt, x):
        s1 = draw.free('scale1') if 's' in opt else const(1)
        s2 = draw.free('scale2') if 's' in opt else const(1)
        return mul(x[0], s1), mul(x[1], s2), s1, s2

    def total(draw, a1, a2, n1, n2, m1, m2, c):
        z1, z2 = sincos(a1), sincos(a2)
        f = 0
        for i in range(n1):
            for j in range(n2):
                k1, k2 = i + m1, j + m2
                ang = add(mul(a1, const(k1)), mul(a2, const(k2)))
                s, co = sincos(ang)
                f += c(i, j, 0) * co + c(i, j, 1) * s
        return f % P
    for n1, n2, m1, m2 in ((1, 1, 0, 0), (2, 3, -1, 0), (3, 2, 0, -2), (2, 2, -2, 1), (3, 3, -1, -1),
                           (1, 4, 1, -2), (2, 2, 2, -4)):
        for sc in ({}, {'scale1': Flt(), 'scale2': Flt()}):
            p = ctx.prog('fourier2d', time1=Arr(), time2=Arr(), coeff=Arr(2, n1, n2, 2),
                         min_degree1=Int(m1), min_degree2=Int(m2), **sc)

            def fn(draw, p=p, n1=n1, n2=n2, m1=m1, m2=m2, sc=sc):
                t = draw.free('time1', 0), draw.free('time2', 0)
                a1, a2, s1, s2 = basis(draw, 's' if sc else '', t)
                got = p.values(View(draw, {'time1': t[0], 'time2': t[1], 'scale1': s1, 'scale2': s2}))
                return flat('', got[0], {(c,): total(
                    draw, a1, a2, n1, n2, m1, m2,
                    lambda i, j, k: draw.free('coeff', (c, i, j, k))[0]) for c in range(2)})
            ctx.decide('fourier2d', 'fourier', '2D Fourier series', fn)
    for cm, n1, n2, m1, m2 in ((cdrive.NM[3], 2, 2, -1, 0), ([2, 1, 2, -2, 0, 0], 1, 3, 0, -1),
                               (cdrive.NM[1], 3, 1, -2, 1), ([1, -1, 2, 2], 2, 3, 1, -3)):
        degree = max(cm[::2])
        spec = cdrive.f2set(len(cm) // 2, n1, n2, cm, m1, m2)

        def leafs(draw):
            return {'arr_t1': draw.free('time1', 0), 'arr_t2': draw.free('time2', 0),
                    'coef_set.4': draw.free('scale1'), 'coef_set.5': draw.free('scale2'),
                    'coef_set.0': lambda i: draw.free('coef_ab', i)}

        def coef(draw, cm=cm, n1=n1, n2=n2, m1=m1, m2=m2):
            a1, a2, _, _ = basis(draw, 's', (draw.free('time1', 0), draw.free('time2', 0)))
            table = {}
            for c in range(len(cm) // 2):
                n, m = cm[2 * c], cm[2 * c + 1]
                table[(n, abs(m), 1 if m < 0 else 0)] = total(
                    draw, a1, a2, n1, n2, m1, m2, lambda i, j, k: draw.free('coef_ab', (c, i, j, k))[0])
            return lambda n, m, k: table.get((n, m, k), 0)
        evaluation(ctx, 'sheval2dfs', 'evaluation of the Fourier series', {
            'arr_t1': Arr(), 'arr_t2': Arr(), 'coef_set': spec}, leafs, coef, degree, thorough,
            {(SPHERICAL, SPHERICAL)})


def geometry(ctx, thorough):
    """C15: conversion of the coordinates, rotation of the vectors, search in the nodes"""
    for cin in (GEODETIC, SPHERICAL, CARTESIAN):
        for cout in (GEODETIC, SPHERICAL, CARTESIAN):
            if cin == cout:
                continue
            p = ctx.prog('convert', arr_in=Arr(3), coord_type_in=Int(cin), coord_type_out=Int(cout))

            def fn(draw, p=p, cin=cin, cout=cout):
                pl = Place(draw)
                got = p.values(View(draw, {'arr_in': pl.coords(cin)}))
                return flat('', got[0], {i: v[0] for i, v in pl.coords(cout).items()})
            ctx.decide('convert', 'convert', 'coordinates converted from %s to %s' % (
                ('geodetic', 'spherical', 'Cartesian')[cin], ('geodetic', 'spherical', 'Cartesian')[cout]),
                fn, some=cout == GEODETIC)

    def vec(draw):
        return {(i,): draw.free('vec', i) for i in range(3)}
    for pub, angles in (('vrot_sph2cart', 2), ('vrot_cart2sph', 2), ('vrot_sph2geod', 1)):
        cfg = {'arr_in': Arr(3)}
        cfg.update({'arr_lat': Arr(), 'arr_lon': Arr()} if angles == 2 else {'arr_dlat': Arr()})
        p = ctx.prog(pub, **cfg)

        def fn(draw, p=p, pub=pub):
            pl = Place(draw)
            v = vec(draw)
            got = p.values(View(draw, {'arr_in': v, 'arr_lat': degrees(pl.th), 'arr_lon': degrees(pl.lon),
                                       'arr_dlat': degrees(sub(pl.glat, pl.th))}))
            x = [v[(i,)][0] for i in range(3)]
            if pub == 'vrot_cart2sph':
                w = [sum(a * b for a, b in zip(x, u)) % P for u in pl.frame(SPHERICAL)]
            else:
                w = pl.project(x, CARTESIAN if pub == 'vrot_sph2cart' else GEODETIC)
            return flat('', got[0], {(i,): y for i, y in enumerate(w)})
        ctx.decide(pub, 'rotation', 'rotated vector', fn)


# -- position of the Sun: R. Grena (2012), algorithm 5; the constants are those of the article
AU = 149597871
SERIES = [('5.2e-6', 's3'), ('-9e-7', 'c3'), ('3.512e-4', 's2'), ('-4.07e-5', 'c2'), ('3.33024e-2', 's1'),
          ('-2.0582e-3', 'c1')]
WAVES = [('1.27e-5', '1.49e-3', '-2.337'), ('1.21e-5', '4.31e-3', '3.065'), ('2.33e-5', '1.076e-2', '-1.533'),
         ('3.49e-5', '1.575e-2', '-2.358'), ('2.67e-5', '2.152e-2', '0.074'), ('1.28e-5', '3.152e-2', '1.547'),
         ('3.14e-5', '2.1277e-1', '-0.488')]


class Sun:
    """reference values, computed by the arithmetic of the value numbers"""

    def __init__(self, view):
        self.v = view

    @staticmethod
    def k(x):
        return const(float(x))

    def real(self, x):
        return x % P, self.v.qpart(x % P)

    def sincos(self, a, angle=False):
        s, c = self.v.sincos(a, angle)
        return self.real(s), self.real(c)

    def acute(self, a, angle=False):
        """sine and cosine of an angle between the right ones"""
        s, c = self.sincos(a, angle)
        if not gvn.isqr(c[0]):
            raise gvn.NotReal()
        return s, c

    def sine(self, a):
        return self.sincos(a, True)[0]

    def total(self, *terms):
        r = const(0)
        for t in terms:
            x = const(1)
            for f in t if isinstance(t, list) else [t]:
                x = mul(x, self.k(f) if isinstance(f, str) else f)
            r = add(r, x)
        return r

    def turn(self, a):
        """whole number of turns to be removed from the angle to have it from 0 to a turn"""
        two = mul(const(2), gvn.PI)
        return sub(a, mul(self.v.floor(div(a, two)), two))

    def equatorial(self, t, te, lon):
        s1, c1 = self.sincos(mul(self.k('0.0172019715'), te), True)
        s2, c2 = gvn.cmul((c1[0], s1[0]), (c1[0], s1[0]))[::-1]
        s3, c3 = gvn.cmul((c1[0], s1[0]), (c2, s2))[::-1]
        h = {'s1': s1, 'c1': c1, 's2': self.real(s2), 'c2': self.real(c2), 's3': self.real(s3), 'c3': self.real(c3)}
        lam = self.total('1.7527901', ['1.7202792159e-2', te], *[[a, h[b]] for a, b in SERIES],
                         ['-8.23e-5', s1, self.sine(mul(self.k('2.92e-5'), te))],
                         *[[a, self.sine(self.total([b, te], c))] for a, b, c in WAVES])
        nu = self.total(['9.282e-4', te], '-0.8')
        sn, cn = self.sincos(nu, True)
        dlam = mul(self.k('8.34e-5'), sn)
        lam = add(add(lam, gvn.PI), dlam)
        eps = self.total('4.089567e-1', ['-6.19e-9', te], ['4.46e-5', cn])
        se, ce = self.acute(eps)
        sl, cl = self.sincos(lam)
        rasc = self.turn(self.v.arc(mul(sl, ce), cl))
        decl = self.v.arcsine(mul(sl, se))
        hang = self.total('1.7528311', ['6.300388099', t], lon, neg(rasc), ['0.92', dlam])
        hang = sub(self.turn(add(hang, gvn.PI)), gvn.PI)
        return decl, rasc, hang

    def horizontal(self, decl, hang, lat, rad, press, temp):
        sp, cp = self.acute(lat, True)
        sd, cd = self.acute(decl, True)
        sh, ch = self.sincos(hang)
        x = add(mul(sp, sd), mul(mul(cp, cd), ch))
        cz = (1 - x[0] * x[0]) % P
        if not gvn.isqr(cz):
            raise gvn.NotReal()
        elev = self.v.arcsine(x)
        elev = sub(elev, div(mul(self.real(gvn.root(cz)), rad), const(AU)))
        refr = const(0)
        if press is not None and self.v.sgn(press) > 0 and self.v.sgn(elev) > 0:
            s, c = self.sincos(add(elev, div(self.k('0.003138'), add(elev, self.k('0.08919')))))
            refr = div(mul(self.k('0.08422'), press), mul(add(const(273), temp), div(s, c)))
        zenith = sub(sub(div(gvn.PI, const(2)), elev), refr)
        # from the north, eastwards: opposite to the direction of (ch sp - td cp, sh), from the south westwards
        az = self.v.arc(sh, sub(mul(ch, sp), div(mul(sd, cp), cd)))
        return sub(self.turn(az), gvn.PI), zenith


def sun(ctx, thorough):
    """C28: position of the Sun"""
    names = ('time_mjd2k', 'lat', 'lon', 'rad', 'dtt')

    def leafs(draw, more=()):
        lat = draw.angle('lat', positive=True)
        lon = draw.free('lon')
        r = {'time_mjd2k': draw.free('time'), 'lat': degrees(lat), 'lon': degrees(lon),
             'rad': draw.positive('rad'), 'dtt': draw.free('dtt')}
        r.update({k: draw.free(k) for k in more})
        return r, lat, lon

    def numbers(view, p):
        """results in radians"""
        d, = p.at(view)
        return {i: div(mul(view.val(x), gvn.PI), const(180)) for i, x in d.items()}

    p = ctx.prog('sunpos', **{k: Arr() for k in names})

    def position(draw, rad=True):
        lv, lat, lon = leafs(draw)
        if not rad:
            lv['rad'] = const(0)
        view = View(draw, lv)
        got = numbers(view, p)
        ref = Sun(view)
        t = sub(lv['time_mjd2k'], const(21915))
        te = add(t, div(lv['dtt'], const(86400)))
        decl, rasc, hang = ref.equatorial(t, te, lon)
        want = (decl, rasc, hang) + ref.horizontal(decl, hang, lat, lv['rad'], None, None)
        return flat('', {i: v[0] for i, v in got.items()}, {(i,): v[0] for i, v in enumerate(want)})
    ctx.decide('sunpos', 'sun', 'position of the Sun', position)
    ctx.decide('sunpos', 'sun', 'position of the Sun without the parallax', lambda draw: position(draw, False))

    q = ctx.prog('sunpos_original', **{k: Arr() for k in names + ('pres', 'temp')})

    def horizontal(draw, press=0):
        lv, lat, _ = leafs(draw, ('pres', 'temp'))
        if not press:
            lv['pres'] = const(0)
        view = View(draw, lv)
        got = numbers(view, q)
        if press and (view.sgn(lv['pres']) > 0) != (press > 0):
            raise gvn.NotReal()
        az, zenith = Sun(view).horizontal(got[(0,)], got[(2,)], lat, lv['rad'], lv['pres'], lv['temp'])
        return [('azimuth', got[(3,)][0], az[0]), ('zenith', got[(4,)][0], zenith[0])]
    for press, what in ((0, 'no pressure'), (1, 'positive pressure'), (-1, 'negative pressure')):
        ctx.decide('sunpos_original', 'sun', 'horizontal coordinates of the original algorithm (%s)' % what,
                   lambda draw, press=press: horizontal(draw, press))


RIGHT = 1

GROUPS = {'series': series, 'static': static, 'temporal': temporal, 'fourier': fourier, 'geometry': geometry,
          'sun': sun}


ASSUMPTIONS = [
    'real arithmetic: rounding errors are neglected; generic position or (where stated) the poles',
    'degrees, numbers of nodes and of Fourier terms are bounded by the analysed cases; the points, '
    'times, coefficients and scales are unconstrained',
    'a value number is shared by different terms with a probability below 1e-12',
]


def analyse(group, thorough, repo=REPO, part=None):
    """-> context with the findings, failure of the analysis"""
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            ctx = Ctx(repo)
            box.append(ctx)
            ctx.part = part
            GROUPS[group](ctx, thorough)
        except BaseException as ex:
            box.append(ex)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if not isinstance(box[0], Ctx):
        raise box[0]
    return box[0], box[1] if len(box) > 1 else None
