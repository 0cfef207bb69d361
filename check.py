#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]"""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True

import fw  # noqa: E402


def c08(rep, tier):
    import noexit
    noexit.check(rep, tier, fw.REPO)


def c09(rep, tier):
    import layers
    import fortran
    layers.check(rep, tier, fw.REPO)
    for pid, rule, where, text, msg in fortran.analyse(tier, fw.REPO)[0]:
        if pid == 'C09':
            rep.find(rule, where, text, msg)


C_TEXT = ('abstract interpretation of the C entry points (AST of clang, symbolic terms for the '
          'floating point values, all shapes/ranks/options classes of the arguments, a failure '
          'branch at each library call)')


def c_prop(pid):
    def run(rep, tier):
        import cengine
        import fortran
        finds, tot, errors, unsup, funcs = cengine.analyse(fw.REPO, tier == 'thorough')
        for p, rule, where, text, msg in finds:
            if p == pid:
                rep.find(rule, where, text, msg)
        if pid in ('C01', 'C03', 'C05', 'C06', 'C07'):
            ff, st = fortran.analyse(tier, fw.REPO)
            for p, rule, where, text, msg in ff:
                if p == pid:
                    rep.find(rule, where, text, msg)
            rep.coverage['Fortran procedures'] = len(st['procedures'])
            rep.coverage['Fortran statements interpreted'] = st['statements']
            rep.need('Fortran procedures', 10)
        for k, v in tot.items():
            rep.coverage['C ' + k] = v
        rep.coverage['C functions interpreted'] = funcs
        rep.rules = [k for k, v in cengine.RULES.items() if v == pid]
        rep.assumptions = cengine.ASSUMPTIONS
        for e in errors:
            raise fw.AnalysisError('a worker has failed: ' + e[-600:])
        for u in unsup:
            raise fw.AnalysisError(u)
        rep.need('C entry points', len(cengine.cdrive.ENTRIES))
        if pid in ('C05', 'C06'):
            import pyprops
            pyprops.check(rep, tier, fw.REPO, pid)
            rep.rules += ['Python: the arguments of the outermost calls are read only'] if pid == 'C05' else [
                'Python: each evaluation is repeated after the following one, its results being overwritten']
            rep.need('calls', 3000)
        rep.need('C cases', 2000)
        rep.need('C failure points', 40)
        rep.need('C points compared', 5000)
    return run


def g_prop(group, part, obligations):
    def run(rep, tier):
        import gprops
        ctx, error = gprops.analyse(group, tier == 'thorough', fw.REPO, part)
        for (rule, where, what), msg in ctx.found.items():
            rep.find(rule, where, what, msg)
        rep.coverage.update(ctx.n)
        rep.coverage['functions interpreted'] = sorted(
            {f for e in ctx.entries.values() for f in e.it.functions_seen})
        rep.rules = sorted(ctx.rules)
        rep.assumptions = gprops.ASSUMPTIONS
        if error:
            raise error
        rep.need('obligations', obligations)
    return run


def c16(rep, tier):
    import calprop
    sys.setrecursionlimit(100000)
    calprop.check(rep, tier, fw.REPO)
    rep.need('conversions', 3)


def py_prop(pid, count):
    def run(rep, tier):
        import pyprops
        pyprops.check(rep, tier, fw.REPO, pid)
        rep.rules = [name for name, _ in pyprops.SCENARIOS[pid]]
        rep.need('scenarios', len(pyprops.SCENARIOS[pid]))
        if count:
            rep.need('results compared', count)
        else:
            rep.need('rejected inputs', 50)
    return run


PY_TEXT = ('abstract interpretation of the syntax trees of the Python package; real quantities are global '
           'value numbers (images of terms in a finite field), results are compared with the terms of '
           'independent specifications')
G_TEXT = ('global value numbering of the terms computed by the abstract interpretation of the C sources '
          'for one generic point (laws of the real numbers, square roots, addition theorems of sine and '
          'cosine; images of the terms in a finite field)')


CHECKS = {
    'C08': (c08, 'Reachability of process termination: abstract interpretation of the Fortran '
            'routines (STOP, EXIT and I/O without error handling under all inputs), call graph '
            'closure of the C entry points, resolved names of the Python modules'),
    'C09': (c09, 'Comparison of the resolved declarations on both sides of each call crossing a '
            'language boundary (types, counts, keywords, string lengths, roles of the arguments '
            'and order of the results)'),
}

for _p, _t in (('C01', 'Bounds, null pointers, released memory, divisions by zero'),
               ('C02', 'Balance of the references and memory blocks at every exit'),
               ('C03', 'Exceptions and results at every exit, after every failing step'),
               ('C04', 'Elements addressed by the strides of their own array'),
               ('C05', 'Writes into the arrays of the caller'),
               ('C06', 'Terms of each point compared: free of other points, equal at all points'),
               ('C07', 'Shapes of the results and assignment of all their elements')):
    CHECKS[_p] = (c_prop(_p), _t + ': ' + C_TEXT)

for _p, _g, _q, _n, _t in (
        ('C10', 'series', None, 40, 'Legendre functions, longitude and radius series'),
        ('C11', 'static', 'potential', 60, 'Potential compared with the spherical harmonic expansion'),
        ('C12', 'static', 'gradient', 80, 'Gradient compared with the derivatives of the expansion'),
        ('C13', 'temporal', None, 400, 'Interpolation in time and evaluation of time-dependent coefficients'),
        ('C14', 'fourier', None, 60, 'Fourier series in two times and their evaluation'),
        ('C15', 'geometry', None, 9, 'Conversions of the coordinates and rotations of the vectors'),
        ('C28', 'sun', None, 5, 'Equatorial and horizontal coordinates of the Sun')):
    CHECKS[_p] = (g_prop(_g, _q, _n), _t + ': ' + G_TEXT)
for _p, _n, _t in (
        ('C17', 1200, 'Validity of the coefficients and interpolation at single times and arrays of times'),
        ('C18', 4000, 'Scales and degree limits of all evaluations'),
        ('C19', 900, 'Coordinate systems of the models, dipole frames, rotations of the vectors'),
        ('C20', 4000, 'Sequences, sums and decomposition of the composed coefficients'),
        ('C21', 500, 'Sums of composed models'),
        ('C22', 500, 'Ionospheric field models'),
        ('C23', 1200, 'Parsers and loaders of the coefficients'),
        ('C24', 1500, 'Broadcast of the times, locations and indices'),
        ('C25', 700, 'Traced field lines'),
        ('C26', 500, 'Public names, data files and wrappers of the compiled functions'),
        ('C27', 0, 'Rejected arrays of coefficients')):
    CHECKS[_p] = (py_prop(_p, _n), _t + ': ' + PY_TEXT)
CHECKS['C16'] = (c16, 'Calendar of the time conversions: terms of the C sources over a complete case '
                 'split of the days (integer and affine domains)')


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    fn, text = CHECKS[pid]
    rep = fw.Report(pid)
    try:
        fn(rep, tier)
    except Exception as e:      # the analysis gives no answer
        if rep.findings:        # findings made before the failure stand on their own
            print('%s: the analysis has not been completed: %s' % (pid, e))
            sys.exit(fw.finish(rep, tier, 'other', text, t0))
        traceback.print_exc()
        print('%s: ERROR: %s' % (pid, e))
        sys.exit(2)
    sys.exit(fw.finish(rep, tier, 'other', text, t0))


if __name__ == '__main__':
    main()
