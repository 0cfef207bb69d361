"""Documented argument contracts of the C entry points and the checks of their exits.

Every entry point is run by the abstract interpreter (cabs.py) over a family of argument
descriptions: shapes, modes, degrees - never data.  The contract says which of them have to be
refused, what is the shape of the results and which elements of the inputs an element of a result
belongs to."""
import itertools

from cabs import Arr, Bool, Flt, Int, Lst, Str, Tup, OTHER

ERR = 'error'
ANY = 'any'


class Case:
    __slots__ = ('cfg', 'want', 'own', 'inject', 'mayfail', 'precise')

    def __init__(self, cfg, want, own=None, inject=False, mayfail=False, precise=False):
        self.cfg, self.want, self.own, self.inject = cfg, want, own, inject
        self.mayfail, self.precise = mayfail, precise


# input -> (number of component dimensions, how the batch dimensions relate to the result)
#   'prefix' : the leading batch dimensions of the result
#   'scalar' : scalar or the full batch
#   ('outer', k) : batch dimensions k.. of the result
#   None : not bound to the batch (series of nodes, coefficients mapping)

SHAPES = [(), (1,), (2,), (3,), (0,), (2, 2), (1, 2), (2, 1), (0, 2), (2, 0), (2, 1, 2)]
SMALL = [(), (2,), (0,), (1, 2), (2, 2)]
PREFIX = [(), (0,), (1,), (2,), (2, 2), (2, 0), (1, 3)]
MASTERS = [(2, 2), (2,), (1, 3), (0, 2), (2, 0)]
DEEP = [15, 16, 17]


def deep(n):
    return (1,) * n


def ncoef(degree):
    return (degree + 1) * (degree + 2) // 2


def prefixes(m):
    return [m[:k] for k in range(len(m) + 1)]


def common(*shapes):
    m = max(shapes, key=len)
    if all(m[:len(s)] == s for s in shapes):
        return m
    return None


def e_bisect():
    own = {'v': None, 'x': (0, 'prefix')}
    for n in (0, 1, 2, 3):
        for side in (0, 1):
            for x in SMALL:
                yield Case({'v': Arr(n), 'x': Arr(*x), 'side': Int(side)}, [x], own,
                           inject=(n == 2 and x == (2,)))
    yield Case({'v': Arr(2), 'x': Arr(2)}, [(2,)], own)
    for side in (-1, 2, 7):
        yield Case({'v': Arr(2), 'x': Arr(2), 'side': Int(side)}, ERR)
    for v in ((), (2, 2)):
        yield Case({'v': Arr(*v), 'x': Arr(2)}, ERR)
    yield Case({'v': OTHER, 'x': Arr(2)}, ERR)
    yield Case({'v': Arr(2), 'x': OTHER}, ERR)
    yield Case({'v': Arr(2)}, ERR)
    for d in DEEP:
        yield Case({'v': Arr(2), 'x': Arr(*deep(d))}, ANY, own)


COORD = (0, 1, 2)
BAD_COORD = (-1, 3, 5, 100)


def e_convert():
    own = {'arr_in': (1, 'prefix')}
    for a, b in itertools.product(COORD, COORD):
        for s in SHAPES if (a, b) in ((0, 1), (1, 0), (2, 0)) else SMALL:
            yield Case({'arr_in': Arr(*s, 3), 'coord_type_in': Int(a), 'coord_type_out': Int(b)},
                       [s + (3,)], own, inject=s == (2,))
    yield Case({'arr_in': Arr(2, 3)}, [(2, 3)], own)
    for c in BAD_COORD:
        yield Case({'arr_in': Arr(2, 3), 'coord_type_in': Int(c)}, ERR)
        yield Case({'arr_in': Arr(2, 3), 'coord_type_out': Int(c)}, ERR)
    for s in ((), (2,), (4,), (3, 2), (2, 0), (3, 4), (0,)):
        for c in (0, 1):
            yield Case({'arr_in': Arr(*s), 'coord_type_in': Int(c), 'coord_type_out': Int(1)},
                       ERR)
    yield Case({'arr_in': OTHER}, ERR)
    yield Case({}, ERR)
    for d in DEEP:
        yield Case({'arr_in': Arr(*deep(d - 1), 3), 'coord_type_in': Int(1)}, ANY, own)


def e_fourier2d():
    own = {'time1': (0, 'prefix'), 'time2': (0, 'prefix'), 'coeff': (3, 'outer')}
    for t in [(), (2,), (1, 2), (0,)]:
        for c in [(), (2,), (2, 2), (0,)]:
            for n1, n2 in [(1, 1), (2, 3), (3, 2)]:
                if (n1, n2) != (2, 3) and (t != (2,) or c not in ((2,), ())):
                    continue
                yield Case({'time1': Arr(*t), 'time2': Arr(*t), 'coeff': Arr(*c, n1, n2, 2),
                            'min_degree1': Int(-1), 'min_degree2': Int(0), 'scale1': Flt(),
                            'scale2': Flt()}, [t + c], dict(own, _outer=len(t)),
                           inject=(t == (2,) and c == (2,) and n1 == 2))
    for m1, m2 in [(0, 0), (-2, -1), (1, 2), (3, -4)]:
        yield Case({'time1': Arr(2), 'time2': Arr(2), 'coeff': Arr(2, 3, 2, 2),
                    'min_degree1': Int(m1), 'min_degree2': Int(m2)}, [(2, 2)],
                   dict(own, _outer=1))
    for n in ((0, 1), (1, 0), (0, 0)):
        yield Case({'time1': Arr(2), 'time2': Arr(2), 'coeff': Arr(2, *n, 2)}, ANY)
    yield Case({'time1': Arr(2), 'time2': Arr(3), 'coeff': Arr(2, 2, 2)}, ERR)
    yield Case({'time1': Arr(2), 'time2': Arr(), 'coeff': Arr(2, 2, 2)}, ERR)
    yield Case({'time1': Arr(), 'time2': Arr(2), 'coeff': Arr(2, 2, 2)}, ERR)
    yield Case({'time1': Arr(2, 2), 'time2': Arr(2, 1), 'coeff': Arr(2, 2, 2)}, ERR)
    for c in ((2,), (2, 2), (2, 2, 3), (2, 2, 1), (3, 2, 2, 0)):
        yield Case({'time1': Arr(2), 'time2': Arr(2), 'coeff': Arr(*c)}, ERR)
    for k in ('time1', 'time2', 'coeff'):
        cfg = {'time1': Arr(2), 'time2': Arr(2), 'coeff': Arr(2, 2, 2)}
        cfg[k] = OTHER
        yield Case(cfg, ERR)
    for d in DEEP:
        yield Case({'time1': Arr(*deep(d)), 'time2': Arr(*deep(d)), 'coeff': Arr(2, 2, 2)}, ANY)


def e_interp():
    own = {'time': (0, 'prefix'), 'time0': None, 'coeff0': (1, 'outer')}
    kinds = {0x0: 1, 0x1: 2, 0x11: 2}
    for kind, least in kinds.items():
        for ext in (0, 1):
            for n in (0, 1, 2, 3):
                for t in [(), (2,), (1, 2), (0,)]:
                    for c in [(), (2,), (2, 1), (0,)]:
                        if (n not in (2,)) and (t, c) not in (((2,), (2,)), ((), ()), ((0,), (2,))):
                            continue
                        cfg = {'time': Arr(*t), 'time0': Arr(n), 'coeff0': Arr(*c, n),
                               'kind': Int(kind), 'extrapolate': Bool(ext)}
                        yield Case(cfg, [t + c] if n >= least else ERR, dict(own, _outer=len(t)),
                                   inject=(n == 2 and t == (2,) and c == (2,) and ext == 0))
    yield Case({'time': Arr(2), 'time0': Arr(3), 'coeff0': Arr(2, 3)}, [(2, 2)],
               dict(own, _outer=1))
    for t in ((3,), (), (2, 1)):
        for c in ((1, 2, 3), (3, 2, 1), (2, 1, 2, 3), (4, 3), (3, 1, 2, 1, 2)):
            yield Case({'time': Arr(*t), 'time0': Arr(2), 'coeff0': Arr(*c, 2)}, [t + c],
                       dict(own, _outer=len(t)))
    for k in (-1, 2, 3, 0x10, 0x12, 17 + 256):
        yield Case({'time': Arr(2), 'time0': Arr(3), 'coeff0': Arr(3), 'kind': Int(k)}, ERR)
    for a, b in (((3,), (2,)), ((2,), (3,)), ((3,), (3, 2)), ((2, 2), (2,)), ((), (2,)),
                 ((2,), ()), ((0,), (1,)), ((1,), (0,))):
        yield Case({'time': Arr(2), 'time0': Arr(*a), 'coeff0': Arr(*b)}, ERR)
    for k in ('time', 'time0', 'coeff0', 'extrapolate'):
        cfg = {'time': Arr(2), 'time0': Arr(2), 'coeff0': Arr(2)}
        cfg[k] = OTHER
        yield Case(cfg, ANY if k == 'extrapolate' else ERR)
    for d in DEEP:
        yield Case({'time': Arr(*deep(d)), 'time0': Arr(2), 'coeff0': Arr(1, 2)}, ANY)


def e_series(name, last, key='degree'):
    def gen():
        own = {name: (0, 'prefix')}
        extras = [{}]
        if name == 'longitude':
            extras = [{}, {'fast_alg': Bool(0)}, {'fast_alg': Bool(1)}]
        if name == 'radius':
            extras = [{}] + [{'is_internal': Bool(i), 'reference_radius': Flt()} for i in (0, 1)]
        for ex in extras:
            for d in (0, 1, 2, 4):
                for s in SHAPES if d == 2 else SMALL:
                    yield Case(dict({name: Arr(*s), 'degree': Int(d)}, **ex),
                               [s + q for q in last(d)], own, inject=(d == 2 and s == (2,)),
                               mayfail='reference_radius' in ex)
            yield Case(dict({name: Arr(), 'degree': Int(-1)}, **ex), ERR)
            yield Case(dict({name: Arr(2), 'degree': Int(-2147483648)}, **ex), ERR)
        yield Case({name: OTHER, 'degree': Int(2)}, ERR)
        yield Case({name: Arr(2)}, ERR)
        for d in DEEP:
            yield Case({name: Arr(*deep(d)), 'degree': Int(1)}, ANY, own)
    return gen


e_legendre = e_series('latitude', lambda d: [(ncoef(d),), (ncoef(d),)])
e_loncossin = e_series('longitude', lambda d: [(d + 1, 2)])
e_relradpow = e_series('radius', lambda d: [(d + 1,)])


def sh_result(mode, s):
    return {1: [s], 2: [s + (3,)], 3: [s, s + (3,)]}[mode]


SCALES = [{}, {'scale_potential': Flt()}, {'scale_gradient': Arr()}, {'scale_gradient': Arr(3)}]


def sh_options(base, res, own, full=True):
    """modes, coordinate systems and scales of an evaluated base configuration"""
    for mode in (1, 2, 3):
        for internal in (0, 1):
            for cin in COORD:
                for cout in COORD:
                    sc = SCALES[(mode + internal + cin + 2 * cout) % 4]
                    yield Case(dict(base, mode=Int(mode), is_internal=Bool(internal),
                                    coord_type_in=Int(cin), coord_type_out=Int(cout), **sc),
                               sh_result(mode, res), own,
                               inject=(cin, cout, internal) == (0, 1, 1))
    for sc in SCALES:
        yield Case(dict(base, mode=Int(3), **sc), sh_result(3, res), own, inject=full)
    yield Case(base, sh_result(2, res), own)
    for m in (0, 4, -1, 7, 5):
        yield Case(dict(base, mode=Int(m)), ERR)
    for c in BAD_COORD:
        yield Case(dict(base, coord_type_in=Int(c)), ERR)
        yield Case(dict(base, coord_type_out=Int(c)), ERR)
    for s in ((0,), (1,), (2,), (4,), (3, 1), (1, 3)):
        yield Case(dict(base, scale_gradient=Arr(*s)), ERR)
    yield Case(dict(base, scale_gradient=OTHER), ERR)


def e_sheval():
    own = {'arr_x': (1, 'prefix'), 'coef': (2, 'prefix'), 'scale_gradient': None}
    base = {'arr_x': Arr(2, 3), 'coef': Arr(ncoef(2), 2)}
    yield from sh_options(base, (2,), own)
    for m in MASTERS + [(1,), (2, 1, 2)]:
        for a, b in [(m, p) for p in prefixes(m)] + [(p, m) for p in prefixes(m)[:-1]]:
            yield Case({'arr_x': Arr(*a, 3), 'coef': Arr(*b, ncoef(1), 2), 'mode': Int(3),
                        'coord_type_in': Int(1), 'coord_type_out': Int(1)}, sh_result(3, m), own)
    yield Case({'arr_x': Arr(3), 'coef': Arr(3, 2), 'mode': Int(3)}, sh_result(3, ()), own)
    for n in range(1, 8):
        for deg in (None, -1, 0, 1, 2, 5):
            cfg = {'arr_x': Arr(2, 3), 'coef': Arr(n, 2), 'mode': Int(3)}
            if deg is not None:
                cfg['degree'] = Int(deg)
            yield Case(cfg, sh_result(3, (2,)), own)
    for deg in (-1, 0, 3):
        yield Case({'arr_x': Arr(2, 3), 'coef': Arr(0, 2), 'degree': Int(deg)}, ERR)
        yield Case({'arr_x': Arr(0, 3), 'coef': Arr(0, 2), 'degree': Int(deg)}, ERR)
    for a, b in (((2, 2), (3, 2)), ((2, 4), (3, 2)), ((2, 0), (3, 2)), ((), (3, 2)), ((2, 3), (3,)),
                 ((2, 3), (3, 1)), ((2, 3), (3, 3)), ((2, 3), ()), ((2, 3), (3, 3, 2)),
                 ((2, 2, 3), (2, 1, 3, 2)), ((2, 2, 3), (1, 3, 2)), ((3, 3), (2, 2, 3, 2)),
                 ((1, 3), (2, 3, 2)), ((2, 3), (1, 3, 2)), ((2, 3), (0, 2)), ((2, 3), (3, 0))):
        yield Case({'arr_x': Arr(*a), 'coef': Arr(*b)}, ERR)
    for k in base:
        yield Case(dict(base, **{k: OTHER}), ERR)
    for d in DEEP:
        yield Case({'arr_x': Arr(*deep(d - 1), 3), 'coef': Arr(3, 2), 'mode': Int(3)}, ANY, own)
        yield Case({'arr_x': Arr(3), 'coef': Arr(*deep(d - 2), 3, 2), 'mode': Int(3)}, ANY, own)


def f2set(n=2, n1=2, n2=2, cm=None, m1=0, m2=0, ab=None, cms=None, parts=None):
    items = [Arr(*(ab or (n, n1, n2, 2))), Arr(*(cms or (n, 2)), data=cm), Int(m1), Int(m2),
             Flt(), Flt()]
    return Tup(*items)


NM = {1: [1, 0], 2: [1, 0, 1, 1], 3: [1, 0, 1, 1, 1, -1], 4: [1, 0, 2, -1, 2, 2, 0, 0],
      8: [1, 0, 1, 1, 1, -1, 2, 0, 2, 1, 2, -1, 2, 2, 2, -2]}
BAD_NM = [[-1, 0], [1, 2], [1, -2], [0, 1], [0, -1], [2, 3], [-2, -2], [-2, 1], [-1, -1],
          [-2147483648, 0], [1, -2147483648]]


def e_sheval2dfs():
    own = {'arr_t1': (0, 'prefix'), 'arr_t2': (0, 'prefix'), 'arr_x': (1, 'prefix'),
           'coef_set.0': None, 'coef_set.1': None, 'scale_gradient': None}
    base = {'arr_t1': Arr(2), 'arr_t2': Arr(2), 'arr_x': Arr(2, 3),
            'coef_set': f2set(2, 2, 2, NM[2], -1, 0)}
    yield from sh_options(base, (2,), own, False)
    for m in MASTERS + [(1,)]:
        for a, b, c in itertools.product(prefixes(m), repeat=3):
            if m in (a, b, c):
                yield Case({'arr_t1': Arr(*a), 'arr_t2': Arr(*b), 'arr_x': Arr(*c, 3),
                            'coef_set': f2set(1, 1, 2, NM[1], 0, -1), 'mode': Int(3),
                            'coord_type_in': Int(1), 'coord_type_out': Int(1)},
                           sh_result(3, m), own)
    yield Case({'arr_t1': Arr(), 'arr_t2': Arr(), 'arr_x': Arr(3), 'coef_set': f2set(1, 1, 1, NM[1]),
                'mode': Int(3)}, sh_result(3, ()), own)
    for n in (1, 3, 4, 8):
        for n1, n2, m1, m2 in ((1, 1, 0, 0), (2, 3, -1, -2), (3, 2, 1, 2)):
            yield Case(dict(base, coef_set=f2set(n, n1, n2, NM[n], m1, m2), mode=Int(3)),
                       sh_result(3, (2,)), own)
    bad = (3,)
    for k in ('arr_t1', 'arr_t2'):
        yield Case(dict(base, **{k: Arr(*bad)}), ERR)
        yield Case(dict(base, **{k: Arr(1)}), ERR)
        yield Case(dict(base, **{k: Arr(3, 2)}), ERR)
    for s in ((3, 3), (1, 3), (2, 2), (2, 4), (), (2,), (2, 0), (3, 2, 3)):
        yield Case(dict(base, arr_x=Arr(*s)), ERR)
    # mutual mismatch of two arguments when the third one is shorter
    for a, b, c in (((2,), (3,), ()), ((2,), (), (3,)), ((), (2,), (3,)), ((2, 2), (2, 3), (2,)),
                    ((2, 2), (2,), (2, 3)), ((2,), (2, 2), (2, 3)), ((2, 2), (3,), (2, 2))):
        yield Case(dict(base, arr_t1=Arr(*a), arr_t2=Arr(*b), arr_x=Arr(*c, 3)), ERR)
    for cm in BAD_NM:
        yield Case(dict(base, coef_set=f2set(1, 2, 2, cm)), ERR)
        yield Case(dict(base, coef_set=f2set(2, 2, 2, [1, 0] + cm)), ERR)
    for st in (f2set(2, ab=(2, 2, 2), cm=NM[2]), f2set(2, ab=(2, 2, 2, 3), cm=NM[2]),
               f2set(2, ab=(2, 2, 2, 1), cm=NM[2]), f2set(2, ab=(3, 2, 2, 2), cm=NM[2]),
               f2set(2, ab=(1, 2, 2, 2), cm=NM[2]), f2set(2, cms=(2, 1), cm=[1, 1]),
               f2set(2, cms=(2, 3), cm=[1, 0, 1, 1, 1, 0]), f2set(2, cms=(2,), cm=[1, 0]),
               f2set(2, cms=(1, 2), cm=[1, 0]), f2set(2, cms=(3, 2), cm=NM[3])):
        yield Case(dict(base, coef_set=st), ERR)
    good = f2set(2, 2, 2, NM[2], -1, 0).items
    for k in range(6):
        yield Case(dict(base, coef_set=Tup(*good[:k])), ERR)
        yield Case(dict(base, coef_set=Tup(*(good[:k] + [OTHER] + good[k + 1:]))), ERR)
    yield Case(dict(base, coef_set=Tup(*(good + [Int(1)]))), ANY)
    yield Case(dict(base, coef_set=Lst(*good)), ANY)
    yield Case(dict(base, coef_set=OTHER), ERR)
    yield Case(dict(base, coef_set=Tup(*(good[:2] + [Int(0), Int(0), Int(1), Int(2)]))), ANY, own)
    for n in ((0, 2, 2), (2, 0, 2), (2, 2, 0)):
        yield Case(dict(base, coef_set=f2set(*n, NM[2][:2 * n[0]])), ANY, own)
    for k in ('arr_t1', 'arr_t2', 'arr_x'):
        yield Case(dict(base, **{k: OTHER}), ERR)
    for d in DEEP:
        yield Case(dict(base, arr_t1=Arr(*deep(d)), arr_t2=Arr(), arr_x=Arr(3), mode=Int(3)), ANY, own)
        yield Case(dict(base, arr_t1=Arr(), arr_t2=Arr(), arr_x=Arr(*deep(d - 1), 3), mode=Int(3)),
                   ANY, own)


def cset(n=2, nt=3, cm=None, order=2, ct=None, cv=None, cms=None):
    return Tup(Arr(*(ct if ct is not None else (nt,))), Arr(*(cv or (n, nt))), Arr(*(cms or (n, 2)), data=cm), Int(order))


def e_shevaltemp():
    own = {'arr_t': (0, 'prefix'), 'arr_x': (1, 'prefix'), 'coef_set_list.': None,
           'scale_gradient': None}
    base = {'arr_t': Arr(2), 'arr_x': Arr(2, 3), 'coef_set_list': Lst(cset(2, 2, NM[2]))}
    yield from sh_options(base, (2,), own, False)
    for m in MASTERS + [(1,)]:
        for a, b in [(m, p) for p in prefixes(m)] + [(p, m) for p in prefixes(m)[:-1]]:
            yield Case({'arr_t': Arr(*a), 'arr_x': Arr(*b, 3),
                        'coef_set_list': Lst(cset(1, 2, NM[1])), 'mode': Int(3),
                        'coord_type_in': Int(1), 'coord_type_out': Int(1)}, sh_result(3, m), own)
    for sets in ([cset(1, 2, NM[1]), cset(2, 3, NM[2])], [cset(4, 2, NM[4]), cset(1, 2, [0, 0])],
                 [cset(1, 1, NM[1], 1)], [cset(2, 3, NM[2], 1), cset(2, 2, NM[2], 2)],
                 [cset(8, 2, NM[8])], [cset(1, 2, [2, -1]), cset(1, 2, [1, 1]), cset(1, 2, [0, 0])]):
        yield Case(dict(base, coef_set_list=Lst(*sets), mode=Int(3)), sh_result(3, (2,)), own,
                   inject=len(sets) == 2)
    yield Case(dict(base, coef_set_list=Lst(cset(4, 2, NM[4], 1)), mode=Int(3)), sh_result(3, (2,)), own)
    for mode in (1, 2, 3):
        for sets in ([cset(1, 2, [1, 0], 1)], [cset(1, 2, [1, 0], 1), cset(1, 2, [1, 1], 2)],
                     [cset(1, 2, [1, 0], 2), cset(1, 2, [1, 0], 1)]):
            yield Case(dict(base, coef_set_list=Lst(*sets), mode=Int(mode), coord_type_in=Int(1),
                            coord_type_out=Int(1)), sh_result(mode, (2,)), own, precise=True)
    yield Case(dict(base, coef_set_list=Lst(), mode=Int(3)), ANY, own)
    for order in (0, -1, 3, 4):
        yield Case(dict(base, coef_set_list=Lst(cset(1, 3, NM[1], order))), ERR)
    for nt, order in ((1, 2), (0, 1), (0, 2)):
        yield Case(dict(base, coef_set_list=Lst(cset(1, nt, NM[1], order))), ERR)
    for cm in BAD_NM:
        yield Case(dict(base, coef_set_list=Lst(cset(1, 2, cm))), ERR)
        yield Case(dict(base, coef_set_list=Lst(cset(1, 2, NM[1]), cset(2, 2, [1, 0] + cm))), ERR)
    for st in (cset(2, 2, NM[2], ct=(3,)), cset(2, 2, NM[2], ct=(2, 2)), cset(2, 2, NM[2], ct=()),
               cset(2, 2, NM[2], cv=(2, 3)), cset(2, 2, NM[2], cv=(3, 2)), cset(2, 2, NM[2], cv=(2,)),
               cset(2, 2, NM[2], cv=(1, 2)), cset(2, 2, NM[2], cv=(2, 1)),
               cset(2, 2, [1, 0], cms=(1, 2)), cset(2, 2, NM[3], cms=(3, 2)),
               cset(2, 2, [1, 1], cms=(2, 1)), cset(2, 2, [1, 0, 1, 1, 1, 0], cms=(2, 3)),
               cset(2, 2, [1, 0], cms=(2,))):
        yield Case(dict(base, coef_set_list=Lst(st)), ERR)
        yield Case(dict(base, coef_set_list=Lst(cset(1, 2, NM[1]), st)), ERR)
    good = cset(2, 2, NM[2]).items
    for k in range(4):
        yield Case(dict(base, coef_set_list=Lst(Tup(*good[:k]))), ERR)
        yield Case(dict(base, coef_set_list=Lst(Tup(*(good[:k] + [OTHER] + good[k + 1:])))), ERR)
    yield Case(dict(base, coef_set_list=Lst(OTHER)), ERR)
    yield Case(dict(base, coef_set_list=OTHER), ERR)
    yield Case(dict(base, coef_set_list=Tup(*[cset(2, 2, NM[2])])), ANY)
    for n in (15, 16, 17, 40):
        yield Case(dict(base, coef_set_list=Lst(*([cset(1, 2, NM[1])] * n))), ANY, own)
    yield Case(dict(base, coef_set_list=Lst(cset(0, 2, []))), ANY, own)
    for a, b in (((2,), (3, 3)), ((3,), (2, 3)), ((2, 2), (2, 3, 3)), ((1,), (2, 3)), ((2,), (1, 3)),
                 ((2,), (2, 2)), ((2,), (2, 4)), ((2,), ()), ((2,), (2,)), ((3, 2), (2, 3)),
                 ((2,), (2, 0))):
        yield Case(dict(base, arr_t=Arr(*a), arr_x=Arr(*b)), ERR)
    for k in ('arr_t', 'arr_x'):
        yield Case(dict(base, **{k: OTHER}), ERR)
    for d in DEEP:
        yield Case(dict(base, arr_t=Arr(*deep(d)), arr_x=Arr(3), mode=Int(3)), ANY, own)
        yield Case(dict(base, arr_t=Arr(), arr_x=Arr(*deep(d - 1), 3), mode=Int(3)), ANY, own)


def e_sphar(grad):
    names = ['latitude', 'coef', 'leg_p', 'leg_dp', 'rrp', 'lcs'] if grad else \
        ['radius', 'coef', 'leg_p', 'rpp', 'lcs']

    def comp(d):
        n = ncoef(d)
        c = [(), (n, 2), (n,), (n,), (d + 1,), (d + 1, 2)]
        return c if grad else [c[0], c[1], c[2], c[4], c[5]]

    def gen():
        nd = [len(c) for c in comp(1)]
        own = {k: (n, 'prefix') for k, n in zip(names, nd)}
        res = (lambda s: [s + (3,)]) if grad else (lambda s: [s])
        intern = [{}, {'is_internal': Bool(0)}, {'is_internal': Bool(1)}] if grad else [{}]

        def case(d, batches, want, extra=None, inject=False):
            cfg = {k: Arr(*b, *c) for k, b, c in zip(names, batches, comp(d))}
            cfg.update(extra or {})
            return Case(cfg, want, own, inject)
        n = len(names)
        for it in intern:
            for d in (0, 1, 2, 3):
                for s in ((), (2,), (0,), (2, 2)):
                    if d == 2 or s == (2,):
                        yield case(d, [s] * n, res(s), it, inject=(d == 2 and s == (2,)))
            for deg in (-1, 0, 1, 2, 3, 7):
                yield case(2, [(2,)] * n, res((2,)), dict(it, degree=Int(deg)))
        for m in MASTERS:
            for k in range(n):
                for p in prefixes(m):
                    b = [p] * n
                    b[k] = m
                    yield case(1, b, res(m))
                    b = [m] * n
                    b[k] = p
                    yield case(1, b, res(m))
        for k in range(n):           # wrong batch
            for w in ((3,), (1,), (2, 3), (0,)):
                b = [(2,)] * n
                if w == (2, 3):
                    b = [(2, 2)] * n
                b[k] = w
                yield case(1, b, ERR)
        for k in range(1, n):        # degree is the least of the arguments
            for small in (0, 1):
                c = comp(2)
                c[k] = comp(small)[k]
                cfg = {q: Arr(2, *x) for q, x in zip(names, c)}
                yield Case(cfg, res((2,)), own)
                yield Case(dict(cfg, degree=Int(2)), res((2,)), own)
        for k in range(1, n):        # incomplete, empty and wrong series
            c = comp(1)
            bad = [(0,) + c[k][1:]]
            if len(c[k]) == 2:
                bad += [(c[k][0], 1), (c[k][0], 3), (c[k][0], 0)]
            for x in bad:
                cc = list(c)
                cc[k] = x
                for deg in (-1, 0, 1):
                    yield Case(dict({q: Arr(2, *y) for q, y in zip(names, cc)}, degree=Int(deg)), ERR)
            cc = list(c)
            cc[k] = c[k][1:] if len(c[k]) == 2 else ()
            yield Case({q: Arr(*y) for q, y in zip(names, cc)}, ERR)
            yield Case({q: Arr(*y) if i != k else OTHER for i, (q, y) in enumerate(zip(names, c))}, ERR)
            for cnt in (2, 4, 5, 7):
                cc = list(c)
                cc[k] = (cnt,) + c[k][1:]
                yield Case({q: Arr(2, *y) for q, y in zip(names, cc)}, res((2,)), own)
        yield Case({q: (Arr(*y) if q != names[0] else OTHER) for q, y in zip(names, comp(1))}, ERR)
        for d in DEEP:
            for k in range(n):
                b = [()] * n
                b[k] = deep(d)
                yield case(1, b, ANY)
    return gen


e_sphargrd = e_sphar(True)
e_spharpot = e_sphar(False)


def e_vrot(*angles):
    def gen():
        own = {'arr_in': (1, 'prefix')}
        own.update({a: (0, 'prefix') for a in angles})
        for s in SHAPES:
            for pick in itertools.product((0, 1), repeat=len(angles)):
                cfg = {'arr_in': Arr(*s, 3)}
                for a, k in zip(angles, pick):
                    cfg[a] = Arr(*(s if k else ()))
                yield Case(cfg, [s + (3,)], own, inject=(s == (2,)))
        for k, a in enumerate(angles):
            for s, w in (((2,), (3,)), ((2, 2), (2,)), ((2,), (2, 2)), ((2, 2), (2, 3)), ((2,), (1,)),
                         ((), (1,)), ((1,), (2,)), ((2, 2), (1, 2)), ((0,), (2,)), ((2,), (0,)),
                         ((), (3,)), ((2,), (2, 3)), ((2, 2), (3, 2))):
                cfg = {'arr_in': Arr(*s, 3)}
                for b in angles:
                    cfg[b] = Arr(*(w if b == a else s))
                yield Case(cfg, ERR)
            cfg = {'arr_in': Arr(2, 3)}
            cfg.update({b: (OTHER if b == a else Arr(2)) for b in angles})
            yield Case(cfg, ERR)
        for s in ((), (2,), (2, 2), (2, 4), (2, 0), (4,)):
            cfg = {'arr_in': Arr(*s)}
            cfg.update({b: Arr() for b in angles})
            yield Case(cfg, ERR)
        yield Case(dict({b: Arr() for b in angles}, arr_in=OTHER), ERR)
        for d in DEEP:
            for w in ((), deep(d - 1)):
                yield Case(dict({b: Arr(*w) for b in angles}, arr_in=Arr(*deep(d - 1), 3)), ANY, own)
    return gen


def e_qdlatlon():
    names = ['gclat', 'gclon', 'gcrad', 'time']
    own = {k: (0, 'prefix') for k in names}
    f = Str(20)
    for s in ((), (1,), (2,), (3,), (0,)):
        for ev in (None, 0, 1):
            cfg = {k: Arr(*s) for k in names}
            cfg['fname'] = f
            if ev is not None:
                cfg['eval_base'] = Bool(ev)
            yield Case(cfg, [s] * (7 if ev else 2), own, inject=s == (2,))
    for k in names:
        for w, s in (((3,), (2,)), ((), (2,)), ((1,), ()), ((1,), (2,)), ((2, 2), (2,)), ((0,), (1,))):
            cfg = {q: Arr(*(w if q == k else s)) for q in names}
            cfg['fname'] = f
            yield Case(cfg, ERR)
        cfg = {q: OTHER if q == k else Arr(2) for q in names}
        cfg['fname'] = f
        yield Case(cfg, ERR)
    yield Case(dict({k: Arr(2, 2) for k in names}, fname=f), ERR)
    for n in (0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 1000):
        yield Case(dict({k: Arr(2) for k in names}, fname=Str(n), eval_base=Bool(1)), ANY, own)
    yield Case(dict({k: Arr(2) for k in names}, fname=Str(4000)), ERR)


def e_flat(names, nout):
    def gen():
        own = {k: (0, 'prefix') for k in names}
        for s in ((), (1,), (2,), (3,), (0,)):
            yield Case({k: Arr(*s) for k in names}, [s] * nout, own, inject=s == (2,))
        yield Case({k: Arr(2, 2) for k in names}, ERR)
        for k in names:
            if len(names) > 1:
                for w, s in (((3,), (2,)), ((), (2,)), ((1,), ()), ((1,), (2,)), ((2, 2), (2,))):
                    yield Case({q: Arr(*(w if q == k else s)) for q in names}, ERR)
            yield Case({q: OTHER if q == k else Arr(2) for q in names}, ERR)
    return gen


def e_sunpos(extra):
    names = ['time_mjd2k', 'lat', 'lon', 'rad', 'dtt'] + extra

    def gen():
        own = {k: (0, 'prefix') for k in names}
        for s in SHAPES:
            yield Case({k: Arr(*s) for k in names}, [s + (5,)], own, inject=s == (2,))
            for k in names:
                yield Case({q: Arr(*(s if q == k else ())) for q in names}, [s + (5,)], own)
                yield Case({q: Arr(*(() if q == k else s)) for q in names}, [s + (5,)], own)
        required = [k for k in names if k in ('time_mjd2k', 'lat', 'lon')]
        for k in names:
            if k not in required:
                yield Case({q: Arr(2) for q in names if q != k}, ANY, own)
        yield Case({q: Arr(2) for q in required}, ANY, own)
        for k in required:
            yield Case({q: Arr(2) for q in names if q != k}, ERR)
        for k in names:
            for w, s in (((3,), (2,)), ((1,), (2,)), ((2, 2), (2,)), ((2,), (2, 2)), ((2, 3), (2, 2)),
                         ((0,), (2,)), ((1, 2), (2, 1)), ((2,), (3,))):
                yield Case({q: Arr(*(w if q == k else s)) for q in names}, ERR)
            yield Case({q: OTHER if q == k else Arr(2) for q in names}, ERR)
        for d in DEEP:
            yield Case({k: Arr(*deep(d)) for k in names}, ANY, own)
    return gen


def e_point(name):
    def gen():
        own = {name: (0, 'prefix')}
        for s in SHAPES:
            yield Case({name: Arr(*s)}, [s], own, inject=s == (2,))
        yield Case({name: OTHER}, ERR)
        yield Case({}, ERR)
        for d in DEEP:
            yield Case({name: Arr(*deep(d))}, ANY, own)
    return gen


ENTRIES = {
    ('_pymm', 'bisect'): e_bisect, ('_pymm', 'convert'): e_convert,
    ('_pymm', 'fourier2d'): e_fourier2d, ('_pymm', 'interp'): e_interp,
    ('_pymm', 'legendre'): e_legendre, ('_pymm', 'loncossin'): e_loncossin,
    ('_pymm', 'relradpow'): e_relradpow, ('_pymm', 'sheval'): e_sheval,
    ('_pymm', 'sheval2dfs'): e_sheval2dfs, ('_pymm', 'shevaltemp'): e_shevaltemp,
    ('_pymm', 'sphargrd'): e_sphargrd, ('_pymm', 'spharpot'): e_spharpot,
    ('_pymm', 'vrot_cart2sph'): e_vrot('arr_lat', 'arr_lon'),
    ('_pymm', 'vrot_sph2cart'): e_vrot('arr_lat', 'arr_lon'),
    ('_pymm', 'vrot_sph2geod'): e_vrot('arr_dlat'),
    ('_pyqd', 'eval_qdlatlon'): e_qdlatlon, ('_pyqd', 'eval_mlt'): e_flat(['qdlon', 'time'], 1),
    ('_pyqd', 'eval_subsol'): e_flat(['time'], 2),
    ('_pysunpos', 'sunpos'): e_sunpos([]), ('_pysunpos', 'sunpos_original'): e_sunpos(['pres', 'temp']),
    ('_pytimeconv', 'mjd2000_to_decimal_year'): e_point('time_mjd2k'),
    ('_pytimeconv', 'mjd2000_to_year_fraction'): e_point('time_mjd2k'),
    ('_pytimeconv', 'decimal_year_to_mjd2000'): e_point('decimal_year'),
}
