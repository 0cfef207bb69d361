"""Analysis of all C entry points: abstract runs over the documented argument shapes, exit checks
and comparison of the terms computed for the single points."""
import hashlib
import json
import os
import subprocess
import sys
import threading

import cdrive
from cabs import CAbs, Ptr, Tok, UNINIT, tok
from fw import REPO, AnalysisError
from layers import MODULES, CModule

RULES = {'null': 'C01', 'freed': 'C01', 'bounds': 'C01', 'zero-division': 'C01', 'recursion': 'C01',
         'layout': 'C04', 'uninit': 'C07', 'input-write': 'C05', 'over-release': 'C02',
         'leak': 'C02', 'result-count': 'C02', 'silent-failure': 'C03', 'no-exception': 'C03',
         'pending-exception': 'C03', 'accepted': 'C03', 'rejected': 'C07', 'shape': 'C07',
         'unassigned': 'C07', 'foreign': 'C06', 'uniform': 'C06', 'history': 'C06',
         'untyped': 'C07'}


ASSUMPTIONS = [
    'array shapes, ranks, degrees and lists of the listed cases represent their classes (each loop is '
    'interpreted with 0, 1, 2 and more iterations); the floating point values are unconstrained',
    'the Python and NumPy C API behave as documented; each call which may fail has a failing branch',
    'the compiled code has the semantics of the C sources parsed by clang with the build flags',
]


# ------------------------------------------------------------------ canonical terms
EQ, NE = '==', '!='


def equal_in(c, true):
    """pairs of terms which are equal when the condition is true (false)"""
    if not isinstance(c, Tok):
        return []
    if c.op == '!':
        return equal_in(c.args[0], not true)
    if c.op == EQ and true or c.op == NE and not true:
        return [c.args] if len(c.args) == 2 else []
    if c.op == '&&' and true or c.op == '||' and not true:
        return equal_in(c.args[0], true) + equal_in(c.args[1], true)
    return []


def subst(t, pairs, memo):
    if not isinstance(t, Tok):
        return t
    r = memo.get(t)
    if r is None:
        for a, b in pairs:
            if t is a:
                r = b
                break
        else:
            args = tuple(subst(x, pairs, memo) for x in t.args)
            r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
        memo[t] = r
    return r


COMM = {'+', '*', '==', '!=', '&&', '||', 'fmin', 'fmax', 'hypot'}


def order(x):
    return (0, repr(x)) if not isinstance(x, Tok) else (1, stable(x))


_stable = {}


def stable(t):
    """identity of a term which does not depend on the run"""
    if not isinstance(t, Tok):
        return repr(t)
    r = _stable.get(t)
    if r is None:
        h = hashlib.md5(repr((t.op, t.isint) + tuple(stable(a) for a in t.args)).encode())
        r = _stable[t] = h.hexdigest()
    return r


def foreign(t, memo):
    """the term contains elements of other points"""
    if not isinstance(t, Tok):
        return False
    r = memo.get(t)
    if r is None:
        r = memo[t] = t.op == 'other' or any(foreign(a, memo) for a in t.args)
    return r


def mine(t, memo):
    """the term contains elements of the point itself"""
    if not isinstance(t, Tok):
        return False
    r = memo.get(t)
    if r is None:
        r = memo[t] = t.op == 'own' or any(mine(a, memo) for a in t.args)
    return r


def same(a, b):
    return a is b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and repr(a) == repr(b))


def rebuild(t, args):
    if t.op == 'phi':
        return phi(*args)
    if t.op in ('==', '!=') and len(args) == 2 and isinstance(args[0], Tok) and args[0] is args[1]:
        return tok(t.op, *args, isint=t.isint)      # NaN is not equal to itself
    if t.op in COMM and len(args) == 2 and order(args[1]) < order(args[0]):
        args = (args[1], args[0])
    return tok(t.op, *args, isint=t.isint)


def phi(c, a, b):
    if same(a, b):
        return a
    if isinstance(c, Tok):
        fm = {}
        for side, x, y in ((True, a, b), (False, b, a)):
            eq = equal_in(c, side)
            if not eq:
                continue
            pairs = []
            for p, q in eq:
                fp, fq = foreign(p, fm), foreign(q, fm)
                if fp and not fq:
                    pairs.append((p, q))
                elif fq and not fp:
                    pairs.append((q, p))
                else:
                    pairs.append((p, q))
            # x holds when the terms are equal: does it agree with the other branch?
            if same(subst(x, pairs, {}), subst(y, pairs, {})):
                return y
    return tok('phi', c, a, b)


class Canon:
    """terms seen from one point"""

    def __init__(self, own, batch):
        self.own, self.batch = own, batch
        self.memo = {}

    def leaf(self, t):
        name, idx = t.args
        rule = self.rule(name)
        if rule is None or not isinstance(idx, tuple):
            return t
        ncomp, how = rule
        n = len(idx) - ncomp
        mine = self.batch
        if how == 'outer':
            mine = self.batch[self.own['_outer']:]
        elif '_outer' in self.own:
            mine = self.batch[:self.own['_outer']]
        b, c = idx[:n], idx[n:]
        if b == tuple(mine[:n]):
            return tok('own', name, c, isint=t.isint)
        return tok('other', name, b, c, isint=t.isint)

    def rule(self, name):
        if name in self.own:
            return self.own[name]
        for k, v in self.own.items():
            if k.endswith('.') and name.startswith(k):
                return v
        return None

    def run(self, t):
        if not isinstance(t, Tok):
            return t
        r = self.memo.get(t)
        if r is None:
            if t.op == 'in':
                r = self.leaf(t)
            else:
                r = rebuild(t, tuple(self.run(a) if isinstance(a, Tok) else a for a in t.args))
            self.memo[t] = r
        return r


# ------------------------------------------------------------------ exits
class Entry:
    def __init__(self, mod, pub, cmod):
        self.mod, self.pub = mod, pub
        fn = cmod.methods[pub][0]
        self.fname = fn if isinstance(fn, str) else fn.a['name']
        self.it = CAbs(cmod.tu)
        self.found = {}
        self.n = {'cases': 0, 'paths': 0, 'accepted cases': 0, 'refused cases': 0, 'failure points': 0,
                  'elements of results': 0, 'points compared': 0}
        self.unsupported = []

    def add(self, rule, where, construct, msg, case):
        k = (rule, where, construct)
        if k not in self.found:
            self.found[k] = '%s [arguments: %r]' % (msg, case.cfg)

    def where(self, fn=None):
        return '%s:%s' % (MODULES[self.mod], fn or self.fname)

    def arrays(self, v, st):
        """arrays and other objects of the result"""
        r = st.mem.get(v.o)
        if r is None:
            return [(None, None)]
        if r.kind == 'tuple':
            return [x for i in sorted(r.cells) for x in self.arrays(r.cells[i], st)]
        return [(v, r)]

    def exit(self, case, v, st):
        self.n['paths'] += 1
        null = not isinstance(v, Ptr) or v.o is None
        failed = bool(st.faults)
        if null:
            if st.exc is None:
                self.add('no-exception', self.where(), 'return NULL',
                         'the call fails without an exception%s'
                         % (' (after %s)' % st.faults[0] if failed else ''), case)
            if not failed and isinstance(case.want, list) and not case.mayfail:
                self.add('rejected', self.where(), 'valid arguments',
                         'valid arguments are refused', case)
        else:
            if st.exc is not None:
                self.add('pending-exception', self.where(), 'return of a result',
                         'a result is returned with an exception pending%s'
                         % (' (after %s)' % st.faults[0] if failed else ''), case)
            elif failed:
                self.add('silent-failure', self.where(st.faults[0].rsplit(' in ', 1)[-1]),
                         st.faults[0], 'failure of %s does not stop the call' % st.faults[0], case)
            elif case.want == cdrive.ERR:
                self.add('accepted', self.where(), 'invalid arguments',
                         'invalid arguments are accepted', case)
        self.ownership(case, v, st, null)
        if not null and not failed and st.exc is None and case.want != cdrive.ERR:
            self.result(case, v, st)

    def ownership(self, case, v, st, null):
        owned = {}

        def hold(p):
            if isinstance(p, Ptr) and p.o is not None:
                owned[p.o] = owned.get(p.o, 0) + 1
                r = st.mem.get(p.o)
                if r is not None and r.kind == 'tuple':
                    for x in r.cells.values():
                        hold(x)
        if not null:
            hold(v)
            r = st.mem.get(v.o)
            if r is None or not r.alive:
                self.add('result-count', self.where(), 'returned object',
                         'the returned object has been released already', case)
                return
            if v.o[0] == 'X' or v.o[0] == 'P' and r.refs == 0:
                return
        for oid, r in st.mem.items():
            if r.kind in ('array', 'tuple', 'py', 'heap') and r.alive:
                want = owned.get(oid, 0)
                have = r.refs
                if r.kind == 'heap' and have and oid in owned:
                    want = have
                if have > want:
                    fn, line, text = r.site or (self.fname, 0, r.name)
                    self.add('leak', self.where(fn), text,
                             '%s "%s" acquired here is not released%s'
                             % ('memory' if r.kind == 'heap' else 'reference to', r.name,
                                ' (after %s)' % st.faults[0] if st.faults else ''), case)
                elif have < want:
                    self.add('result-count', self.where(), r.name,
                             'the result holds a reference to "%s" which is not owned' % r.name, case)

    def result(self, case, v, st):
        arrs = self.arrays(v, st)
        shapes = []
        for p, r in arrs:
            if r is None or r.kind != 'array' or r.arr is None:
                self.add('untyped', self.where(), 'returned object', 'the result is not an array', case)
                return
            shapes.append(tuple(r.arr.shape))
        if isinstance(case.want, list) and shapes != [tuple(x) for x in case.want]:
            self.add('shape', self.where(), 'shape of the result',
                     'the result has the shape %s instead of %s' % (shapes, case.want), case)
            return
        for k, (p, r) in enumerate(arrs):
            if r.arr.origin == 'in':
                continue
            d = st.mem[('D', r.arr.aid)]
            n = r.arr.count()
            self.n['elements of results'] += n
            if len(d.cells) < n and d.dflt is UNINIT:
                self.add('unassigned', self.where(), 'result %d' % k,
                         '%d of %d elements of the result %d are not assigned'
                         % (n - len(d.cells), n, k), case)
                return
            for i, x in d.cells.items():
                if x is UNINIT or isinstance(x, Tok) and x.op == 'undef':
                    self.add('unassigned', self.where(), 'result %d' % k,
                             'element %s of the result %d is undefined' % (i, k), case)
                    return

    def points(self, case, exits):
        """each point is evaluated by the same terms of its own inputs"""
        if not case.own or case.want == cdrive.ERR:
            return
        good = [(v, s) for v, s in exits if isinstance(v, Ptr) and v.o is not None and not s.faults
                and s.exc is None]
        if not good:
            return
        per = {}        # (result, component) -> {batch: set of terms}
        for v, s in good:
            for k, (p, r) in enumerate(self.arrays(v, s)):
                if r is None or r.arr is None:
                    return
                if r.arr.origin == 'in':
                    continue
                d = s.mem[('D', r.arr.aid)]
                nb = self.nbatch(case)
                for i, x in d.cells.items():
                    b, c = i[:nb], i[nb:]
                    self.n['points compared'] += 1
                    canon = self.canon(case, b)
                    y = canon.run(x)
                    if foreign(y, self.fm):
                        pairs = self.equalities([(canon.run(c), t) for c, t in s.path])
                        y = subst(y, pairs, {}) if pairs else y
                    if foreign(y, self.fm):
                        self.add('foreign', self.where(), 'result %d' % k,
                                 'element %s of the result %d depends on another point: %s'
                                 % (i, k, self.foreign_name(y)), case)
                        return
                    per.setdefault((k, c), {}).setdefault(b, set()).add(
                        (self.conditions(case, b, s), y if isinstance(y, Tok) else repr(y)))
        for (k, c), d in per.items():
            sets = list(d.values())
            if any(x != sets[0] for x in sets[1:]):
                self.add('uniform', self.where(), 'result %d' % k,
                         'component %s of the result %d is computed differently at the points %s'
                         % (c, k, sorted(d)[:4]), case)
                return

    def equalities(self, path):
        """terms of other points which are equal to terms of the point on the path"""
        pairs = []
        for c, truth in path:
            for p, q in equal_in(c, truth):
                if isinstance(p, Tok) and isinstance(q, Tok):
                    for x, y in ((p, q), (q, p)):
                        if foreign(x, self.fm) and not foreign(y, self.fm):
                            pairs.append((x, y))
        return pairs

    def conditions(self, case, b, s):
        """conditions on the point alone under which the exit is reached"""
        key = (b, id(s))
        r = self.canons.get(key)
        if r is None:
            canon = self.canon(case, b)
            out = set()
            path = [(canon.run(c), truth) for c, truth in s.path]
            pairs = self.equalities(path)
            memo = {}
            for y, truth in path:
                y = subst(y, pairs, memo) if pairs else y
                if not foreign(y, self.fm) and mine(y, self.om):
                    out.add((y, truth))
            r = self.canons[key] = frozenset(out)
        return r

    def foreign_name(self, t):
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, Tok) and x not in seen:
                seen.add(x)
                if x.op == 'other':
                    return '%s%s' % (x.args[0], x.args[1])
                todo += x.args
        return '?'

    def nbatch(self, case):
        """number of batch dimensions of the results"""
        pre = [0]
        outer = 0
        for name, (n, how) in ((k, v) for k, v in case.own.items()
                               if isinstance(v, tuple)):
            spec = case.cfg.get(name)
            if spec is not None and spec.kind == 'arr':
                if how == 'outer':
                    outer = len(spec.shape) - n
                else:
                    pre.append(len(spec.shape) - n)
        return max(pre) + outer

    def canon(self, case, b):
        c = self.canons.get(b)
        if c is None:
            c = self.canons[b] = Canon(case.own, b)
        return c

    def run(self, gen, thorough):
        for case in gen():
            self.n['cases'] += 1
            self.n['refused cases' if case.want == cdrive.ERR else 'accepted cases'] += 1
            try:
                outs = self.it.run_entry(self.fname, case.cfg, case.inject or thorough,
                                           case.precise)
            except AnalysisError as ex:
                self.unsupported.append('%s: %s' % (self.pub, ex))
                if len(self.unsupported) > 3:
                    break
                continue
            for v, s in outs:
                self.exit(case, v, s)
            self.canons, self.fm, self.om = {}, {}, {}
            self.points(case, outs)
        self.n['failure points'] = len(self.it.fault_sites)
        for (oid, off), (node, fn, name) in self.it.static_reads.items():
            if off in self.it.static_writes.get(oid, ()):
                self.found.setdefault(
                    ('history', self.where(fn), name),
                    'the static variable "%s" set by a previous call is read (line %s)'
                    % (name, node.line))


# ------------------------------------------------------------------ worker
def work(repo, names, thorough, out):
    mods = {}
    res = []
    for key in names:
        m, pub = key
        if m not in mods:
            mods[m] = CModule(repo, m, MODULES[m])
        if pub not in mods[m].methods:
            raise AnalysisError('function %s.%s not found' % key)
        en = Entry(m, pub, mods[m])
        try:
            en.run(cdrive.ENTRIES[key], thorough)
        except AnalysisError as ex:
            en.unsupported.append('%s: %s' % (pub, ex))
        viols = [(r, '%s:%s' % (loc.split(':')[0], fn), text, '%s (line %s) [arguments: %s]'
                  % (msg, loc.split(':')[-1], cfg)) for (r, fn, text), (msg, loc, cfg) in en.it.viols.items()]
        viols += [(r, w, c, msg) for (r, w, c), msg in en.found.items()]
        res.append({'entry': '%s.%s' % key, 'violations': viols, 'counts': en.n,
                    'stats': en.it.stats, 'functions': sorted(en.it.functions_seen),
                    'faults': sorted(map(list, en.it.fault_sites)), 'unsupported': en.unsupported})
    json.dump(res, out)


WEIGHT = {'bisect': 9, 'sheval2dfs': 8, 'shevaltemp': 6, 'sheval': 5, 'sphargrd': 5, 'spharpot': 4,
          'sunpos_original': 3, 'sunpos': 2, 'interp': 2}


def analyse(repo=REPO, thorough=False, jobs=8):
    """-> findings [(property, rule, where, construct, message)], statistics"""
    keys = sorted(cdrive.ENTRIES, key=lambda k: -WEIGHT.get(k[1], 1))
    bins = [[0, []] for _ in range(jobs)]
    for k in keys:
        b = min(bins, key=lambda x: x[0])
        b[0] += WEIGHT.get(k[1], 1)
        b[1].append(k)
    procs = []
    for _, names in bins:
        if names:
            procs.append(subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), repo, '1' if thorough else '0',
                 json.dumps(names)], stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    res, errors = [], []
    outs = [None] * len(procs)

    def wait(i):
        outs[i] = procs[i].communicate()
    ths = [threading.Thread(target=wait, args=(i,)) for i in range(len(procs))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for (o, e), p in zip(outs, procs):
        try:
            res += json.loads(o)
        except ValueError:
            errors.append(e.decode()[-1500:])
    found = {}
    total = {'entry points': len(res)}
    functions, faults, unsupported = set(), set(), []
    for r in res:
        for rule, where, text, msg in r['violations']:
            found.setdefault((RULES[rule], rule, where, text), msg)
        for k, n in list(r['counts'].items()) + list(r['stats'].items()):
            total[k] = total.get(k, 0) + n
        functions |= set(r['functions'])
        faults |= {tuple(x) for x in r['faults']}
        unsupported += r['unsupported']
    total['functions'] = len(functions)
    total['failure points'] = len(faults)
    return ([(p, r, w, t, m) for (p, r, w, t), m in sorted(found.items())], total, errors, unsupported,
            sorted(functions))


def main():
    repo, thorough, names = sys.argv[1], sys.argv[2] == '1', json.loads(sys.argv[3])
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            work(repo, [tuple(x) for x in names], thorough, sys.stdout)
        except BaseException as ex:     # reported by the parent
            import traceback
            traceback.print_exc()
            box.append(ex)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(1 if box else 0)


if __name__ == '__main__':
    main()
