"""No public call terminates the process (C08).

Fortran: reachable STOP/EXIT and unguarded I/O (abstract interpreter).
C: functions ending the process reachable from the method tables and from the wrappers.
Python: reachable sys.exit & co. in the library modules.
"""
import ast
import os
import re
import tempfile

import fortran
from cast import TU
from fw import AnalysisError, REPO
from layers import MODULES, CModule, py_modules, reachable, strip

C_END = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', '__assert_fail', '__assert', 'raise',
         'kill', 'tgkill', 'pthread_exit', 'pthread_kill', 'longjmp', '_longjmp', 'siglongjmp',
         'execv', 'execve', 'execvp', 'execl', 'execlp', 'err', 'errx', 'verr', 'verrx',
         'alarm', 'setitimer', 'ualarm', 'setrlimit',
         'Py_FatalError', '_Py_FatalErrorFunc', 'Py_Exit', 'Py_Finalize', 'Py_FinalizeEx',
         'PyErr_SetInterrupt', 'PyErr_SetInterruptEx', 'PyErr_Print', 'PyErr_PrintEx',
         '__builtin_trap', '__builtin_abort', '__builtin_unreachable', '__builtin_debugtrap',
         '__builtin_longjmp', '_gfortran_stop_numeric', '_gfortran_stop_string',
         '_gfortran_error_stop_numeric', '_gfortran_exit_i4', 'error'}
PY_END = {('sys', 'exit'), ('os', '_exit'), ('os', 'abort'), ('os', 'kill'), ('os', 'killpg'),
          ('os', 'execv'), ('os', 'execve'), ('os', 'execvp'), ('os', 'execl'), ('os', 'execlp'),
          ('signal', 'raise_signal'), ('signal', 'alarm'), ('signal', 'setitimer'),
          ('signal', 'pthread_kill'), ('faulthandler', '_sigsegv'), ('faulthandler', '_sigabrt'),
          ('resource', 'setrlimit'), ('ctypes', 'string_at')}
PY_END_NAMES = {'exit', 'quit'}
PY_END_EXC = {'SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'BaseException'}


def terminators(tu, functions):
    for g in sorted(functions):
        for n in tu.functions[g].walk():
            if n.kind == 'DeclRefExpr' and n.ref and n.ref[2] in C_END \
                    and n.ref[1] == 'FunctionDecl':
                yield g, n.ref[2], n
            elif n.kind in ('GCCAsmStmt', 'MSAsmStmt'):
                yield g, 'asm', n


def integer_zero_division(tu, functions):
    """integer / or % by the literal zero"""
    for g in functions:
        for n in tu.functions[g].walk():
            if n.kind == 'BinaryOperator' and n.a.get('opcode') in ('/', '%'):
                d = strip(n.inner[1])
                if d is not None and d.kind == 'IntegerLiteral' and str(d.a.get('value')) == '0' \
                        and 'double' not in (n.type or '') and 'float' not in (n.type or ''):
                    yield g, n


def stack_arrays(tu, functions):
    """arrays of variable lengths on the stack, except of those of the numbers of dimensions"""
    for g in functions:
        fixed = set()
        for n in tu.functions[g].walk():
            if n.kind == 'VarDecl':
                t = n.type or ''
                if 'const' in (n.a.get('qt') or '') and n.inner and strip(n.inner[-1]) is not None and \
                        strip(n.inner[-1]).kind == 'IntegerLiteral':
                    fixed.add(n.a.get('name'))
                for x in re.findall(r'\[([^\]]*)\]', t):
                    if any(not re.search(r'dim', v, re.I) and v not in fixed and v != 'sizeof'
                           for v in re.findall(r'[A-Za-z_]\w*', x)):
                        yield g, '%s %s' % (t, n.a.get('name'))
            elif n.kind == 'DeclRefExpr' and n.ref and n.ref[2] in ('alloca', '__builtin_alloca'):
                yield g, n.ref[2]


def positive_example(rep):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.c')
        with open(p, 'w') as f:
            f.write('#include <stdlib.h>\nstatic void g(int x){ if (x > 3) exit(1); }\n'
                    'void f(int x){ g(x); }\nvoid h(int n, int ndim)'
                    '{ const int k = 9; double a[n+1]; long b[ndim], c[k], d[5]; }\n')
        tu = TU(p, [])
        if [t[:2] for t in terminators(tu, reachable(tu, 'f'))] != [('g', 'exit')]:
            raise AnalysisError('the positive example of the C rule does not fire')
        if [t[1].split()[-1] for t in stack_arrays(tu, ['f', 'g', 'h'])] != ['a']:
            raise AnalysisError('the positive example of the stack rule does not fire')
    t = ast.parse('import sys as s\nfrom os import _exit\ndef f():\n    s.exit(1)\n    _exit(2)\n'
                  '    raise SystemExit\n    quit()\n')
    if len(list(py_terminators(t))) != 4:
        raise AnalysisError('the positive example of the Python rule does not fire')
    rep.count('positive examples', 2)


def py_terminators(tree):
    mods, names = {}, {}
    bound = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                mods[a.asname or a.name] = a.name
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                names[a.asname or a.name] = (n.module, a.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bound.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            m = mods.get(n.value.id)
            if m and (m, n.attr) in PY_END:
                yield n, '%s.%s' % (m, n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if names.get(n.id) in PY_END:
                yield n, '.'.join(names[n.id])
            elif n.id in PY_END_NAMES and n.id not in bound and n.id not in names:
                yield n, n.id
        elif isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            if isinstance(e, ast.Name) and e.id in PY_END_EXC:
                yield n, 'raise ' + e.id


def check(rep, tier='quick', repo=REPO):
    positive_example(rep)
    finds, st = fortran.analyse(tier, repo)
    for pid, rule, where, text, msg in finds:
        if pid == 'C08':
            rep.find(rule, where, text, msg)
    rep.count('Fortran entry points', st['entries'])
    rep.count('Fortran procedures', len(st['procedures']))
    rep.count('Fortran I/O statements', st['io_statements'])
    rep.count('Fortran statements interpreted', st['statements'])
    rep.count('Fortran configurations', st['dims'])
    rep.sample('Fortran procedures: ' + ', '.join(st['procedures']))
    rep.need('Fortran entry points', 4)
    rep.need('Fortran I/O statements', 5)
    seen = {}
    for m, src in MODULES.items():
        mod = CModule(repo, m, src)
        tu = mod.tu
        for pub, (fn, flags) in sorted(mod.methods.items()):
            if fn not in tu.functions:
                raise AnalysisError('entry point %s.%s is not defined' % (m, pub))
            rep.count('C entry points')
            fs = reachable(tu, fn)
            for g in fs:
                seen.setdefault((src, g), (tu, '%s.%s' % (m, pub)))
    tu = fortran.c_interface(repo)
    for fn in tu.functions:
        f = tu.functions[fn]
        if f.file and os.path.realpath(f.file).startswith(os.path.realpath(repo)):
            seen.setdefault(('cqdipole.c', fn), (tu, fn))
    for (src, g), (tu, pub) in sorted(seen.items(), key=lambda x: x[0]):
        rep.count('C functions')
        for fn, what, n in terminators(tu, [g]):
            rep.find('c-terminate', '%s:%s (from %s)' % (src, fn, pub), what,
                     'call of %s() reachable from %s' % (what, pub))
        for fn, n in integer_zero_division(tu, [g]):
            rep.find('c-zero-division', '%s:%s' % (src, fn), '/ 0', 'integer division by zero')
        for fn, what in stack_arrays(tu, [g]):
            rep.find('c-stack', '%s:%s (from %s)' % (src, fn, pub), what,
                     'the array on the stack grows with the arguments, large ones overflow the stack')
    rep.need('C entry points', 23)
    rep.need('C functions', 100)
    for mod, (path, tree) in sorted(py_modules(repo).items()):
        rep.count('Python modules')
        for n, what in py_terminators(tree):
            rep.find('python-terminate', mod, what, '%s in line %d' % (what, n.lineno))
        rep.count('Python functions', sum(isinstance(x, (ast.FunctionDef, ast.Lambda))
                                          for x in ast.walk(tree)))
    rep.need('Python modules', 20)
    rep.rules += ['fortran-terminate', 'fortran-io', 'c-terminate', 'c-zero-division', 'c-stack',
                  'python-terminate']
    rep.assumptions += [
        'the C and Fortran run-time libraries terminate the process only where documented '
        '(STOP, I/O statements without IOSTAT/ERR/END, allocation without STAT)',
        'signals caused by invalid memory accesses are the subject of C01',
        'the coefficient file does not change while it is being read']
