"""Runs the abstract interpreter of the Fortran part and distributes its findings."""
import os
import re

import finterp
import fparse
from cast import TU, FrontEndError
from fw import AnalysisError, REPO

# rule of the interpreter -> property
RULES = {
    'terminate': 'C08', 'io': 'C08',
    'index': 'C01', 'abi': 'C09',
    'input-write': 'C05', 'const-arg': 'C05',
    'output-index': 'C07', 'unassigned': 'C07', 'uninit': 'C07',
    'point': 'C06', 'history': 'C06',
    'failure': 'C03',
}
TIME = re.compile(r'^(t|time|date|t_\w+|time_\w+)$')


def c_interface(repo=REPO):
    """TU of the C side of the Fortran routines"""
    q = os.path.join(repo, 'qdipole')
    return TU(os.path.join(q, 'cqdipole.c'), [q, repo])


def fortran_protos(tu):
    """name -> (declaration node, parameter types) of the called external xxx_ routines"""
    called = {}
    for fn in tu.functions.values():
        for n in fn.walk():
            if n.kind == 'CallExpr':
                r = n.inner[0]
                while r.kind in ('ImplicitCastExpr', 'ParenExpr') and r.inner:
                    r = r.inner[0]
                if r.ref and r.ref[2].endswith('_') and r.ref[2] not in tu.functions:
                    called.setdefault(r.ref[2], []).append((fn, n))
    out = {}
    for nm, calls in called.items():
        d = tu.fdecls[nm]
        out[nm] = (d, [c.type for c in d.inner if c.kind == 'ParmVarDecl'], calls)
    return out


def dims_for(tier):
    base = [(2, 3, 2, 1), (1, 2, 1, 0)]
    if tier == 'thorough':
        base += [(3, 3, 3, 2), (2, 4, 1, 1), (1, 1, 1, 1)]
    out = []
    for ne, nm, mm, lm in base:
        out.append(dict(nepoch=ne, nmax=nm, mmax=mm, lmax=lm,
                        nterm=(mm * (2 * nm - mm + 1) + nm + 1) * (lm + 1)))
    return out


def dim_names(prog):
    """roles of the dimensions read from the coefficients file (names resolved in the tree)"""
    return {}


def analyse(tier='quick', repo=REPO):
    """-> (list of (property, rule, where, construct, message), stats)"""
    prog = fparse.repo_program(repo)
    tu = c_interface(repo)
    protos = fortran_protos(tu)
    if len(protos) < 4:
        raise AnalysisError('only %d Fortran routines are called from cqdipole.c' % len(protos))
    finds, stats = [], {'entries': 0, 'statements': 0, 'procedures': set(), 'array_subscripts': 0,
                        'io_statements': 0, 'stop_statements_reached': 0, 'memo_keys': set(),
                        'memo_invariants': 0, 'paths': 0, 'outputs': 0, 'exits': 0, 'dims': 0}
    for nm, (d, types, calls) in sorted(protos.items()):
        entry = nm[:-1]
        found = prog.find(entry)
        if found is None:
            raise AnalysisError('Fortran routine %s not found' % entry)
        proc, formals, _ = found
        if len(formals) != len(types):
            continue     # reported by the interface rule
        ins, outs, scal, times = [], [], [], set()
        for f, t in zip(formals, types):
            s = proc.syms[f]
            const = t.startswith('const')
            if s.rank:
                (ins if const else outs).append(f)
                if const and TIME.match(f):
                    times.add(f)
            elif const:
                scal.append(f)
        uses_file = any('char' in t for t in types)
        for dims in (dims_for(tier) if uses_file else [{}]):
            it = finterp.FInterp(prog, dims, ins, outs, scal)
            it.times = times
            it.run_entry(entry)
            it.memo()
            it.failures()
            stats['dims'] += 1
            stats['statements'] += it.stats['statements']
            stats['procedures'] |= set(it.stats['calls']) | {entry}
            stats['array_subscripts'] += it.stats['indices']
            stats['io_statements'] += it.stats['io']
            stats['stop_statements_reached'] += it.stats['stops']
            stats['memo_keys'] |= set(it.stats['keys'])
            stats['memo_invariants'] += it.stats['memo']['invariants']
            stats['paths'] += it.stats['memo']['paths']
            stats['outputs'] += it.stats['outputs']
            stats['exits'] += it.stats['exits']
            for v in it.viols.values():
                finds.append((RULES[v.rule], 'fortran-' + v.rule, '%s (from %s)' % (v.proc, entry),
                              v.text, v.msg))
        stats['entries'] += 1
    stats['procedures'] = sorted(stats['procedures'])
    stats['memo_keys'] = sorted(stats['memo_keys'])
    return finds, stats


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    f, s = analyse(sys.argv[2] if len(sys.argv) > 2 else 'quick',
                   sys.argv[1] if len(sys.argv) > 1 else REPO)
    for x in f:
        print(x[0], x[1], x[2], '|', x[3][:80], '|', x[4])
    print(s, round(time.time() - t, 1))
