"""Agreement of the Python, C and Fortran layers (C09).

Resolves every call crossing a language boundary and compares the arguments with
the declaration on the other side:
  Python call -> keyword list of the C entry point -> PyArg format -> C variables
  -> C wrapper -> Fortran dummy arguments, and Fortran -> Fortran calls.
"""
import ast
import os
import re

import fparse
from cast import repo_tu
from fortran import c_interface, fortran_protos
from fw import AnalysisError, REPO

MODULES = {'_pymm': 'pymm.c', '_pyqd': 'pyqd.c', '_pysunpos': 'pysunpos.c',
           '_pytimeconv': 'pytimeconv.c'}
UNITS = {'O': 'PyObject *', 's': 'const char *', 'i': 'int', 'd': 'double', 'p': 'int',
         'l': 'long', 'n': 'long', 'f': 'float', 'z': 'const char *'}
FTYPE = {'REAL 8': 'double', 'REAL 4': 'float', 'INTEGER 4': 'int', 'INTEGER 8': 'long',
         'LOGICAL 4': 'int', 'CHARACTER': 'char', 'REAL 16': 'long double'}

# public names of the quantities: keyword of the C entry -> accepted names further on
ALIAS = {
    'time': {'time', 'time_dy', 'time_mjd2k', 't_dy', 't_mjd2k', 't', 'mjd2k', 'mjd2000',
             'decimal_year', 'date', 'epoch'},
    'fname': {'fname', 'coeff_file', 'filename', 'model_fname', 'datafile', 'path'},
}
# documented order of the results
RESULTS = {
    'eval_qdlatlon': [['qdlat', 'qdlon'], ['qdlat', 'qdlon', 'f11', 'f12', 'f21', 'f22', 'f']],
    'eval_mlt': [['t_mlt']],
    'eval_subsol': [['sbsllat', 'sbsllon']],
}


def strip(n):
    while n is not None and n.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr',
                                       'ConstantExpr') and n.inner:
        n = n.inner[-1]
    return n


def callee(n):
    r = strip(n.inner[0])
    return r.ref[2] if r is not None and r.ref else None


def string_of(n):
    n = strip(n)
    if n is not None and n.kind == 'StringLiteral':
        return _unq(n.a.get('value', ''))
    return None


def _unq(v):
    try:
        return ast.literal_eval(v)
    except (ValueError, SyntaxError):
        return v.strip('"')


def where(n, fn=None):
    return '%s:%s' % (os.path.basename(n.file or '?'), fn or '')


class CModule:
    def __init__(self, repo, name, src):
        self.name = name
        self.tu = repo_tu(repo, src)
        self.methods = {}      # public name -> (function node, flags, name in the table)
        self.constants = set()
        self.kw = {}           # public name -> (keywords, number of required)
        self._tables()
        self._constants()

    def _tables(self):
        for g in self.tu.globals.values():
            if 'PyMethodDef' not in (g.type or '') and 'PyMethodDef' not in (g.a.get('qt') or ''):
                continue
            for row in [x for x in g.walk() if x.kind == 'InitListExpr' and x is not g]:
                cells = [strip(c) for c in row.inner]
                if len(cells) >= 2 and cells[0] is not None and cells[0].kind == 'StringLiteral':
                    nm = _unq(cells[0].a['value'])
                    fn = None
                    for c in row.inner[1].walk():
                        if c.ref and c.ref[1] == 'FunctionDecl':
                            fn = c.ref[2]
                    flags = 0
                    for c in row.inner[2].walk():
                        if c.kind == 'IntegerLiteral':
                            flags |= int(c.a['value'], 0)
                    self.methods[nm] = (fn, flags)

    def _constants(self):
        for fn in self.tu.functions.values():
            for n in fn.walk():
                if n.kind == 'CallExpr':
                    for a in n.inner[1:]:
                        s = string_of(a)
                        if s and re.match(r'^[A-Za-z_]\w*$', s):
                            self.constants.add(s)


def parse_format(fmt):
    body = re.split('[:;]', fmt)[0]
    req, opt, cur = [], [], None
    cur = req
    for ch in body:
        if ch == '|':
            cur = opt
        elif ch in '$':
            continue
        elif ch in '!&#':
            cur.append(ch)
        else:
            cur.append(ch)
    name = None
    m = re.search(r':(\w+)$', fmt)
    if m:
        name = m.group(1)
    return req, opt, name


def reachable(tu, start):
    seen, todo = [], [start]
    while todo:
        f = todo.pop()
        if f in seen or f not in tu.functions:
            continue
        seen.append(f)
        for n in tu.functions[f].walk():
            if n.kind == 'DeclRefExpr' and n.ref and n.ref[1] == 'FunctionDecl':
                todo.append(n.ref[2])
    return seen


def keyword_list(tu, fn, arg):
    """strings of the keyword array passed to PyArg_ParseTupleAndKeywords"""
    r = strip(arg)
    if r is None or not r.ref:
        return None, None
    decl = tu.ids.get(r.ref[0])
    if decl is None:
        return None, None
    inits = [x for x in decl.walk() if x.kind == 'InitListExpr']
    if not inits:
        return None, None
    out, closed = [], False
    for c in inits[0].inner:
        s = strip(c)
        if s is not None and s.kind == 'StringLiteral':
            out.append(_unq(s.a['value']))
        else:
            closed = True
    return out, closed


def check_entry(rep, mod, pub, fn, flags):
    tu = mod.tu
    w = '%s:%s' % (mod.name, pub)
    if fn is None or fn not in tu.functions:
        rep.find('method-table', w, pub, 'the method table entry does not refer to a defined function')
        return
    rep.count('entry points')
    f = tu.functions[fn]
    params = [c for c in f.inner if c.kind == 'ParmVarDecl']
    want = 3 if flags & 2 else 2
    if len(params) != want:
        rep.find('method-table', w, pub, 'function taking %d arguments registered with flags 0x%x '
                 'expecting %d' % (len(params), flags, want))
    calls = []
    for g in reachable(tu, fn):
        for n in tu.functions[g].walk():
            if n.kind == 'CallExpr' and callee(n) in ('PyArg_ParseTupleAndKeywords',
                                                      'PyArg_ParseTuple'):
                calls.append((g, n))
    if not calls:
        raise AnalysisError('no argument parsing found in %s' % w)
    for g, n in calls:
        rep.count('argument formats')
        kwcall = callee(n) == 'PyArg_ParseTupleAndKeywords'
        args = n.inner[1:]
        fmt = string_of(args[2] if kwcall else args[1])
        if fmt is None:
            raise AnalysisError('argument format of %s is not a literal' % w)
        req, opt, name = parse_format(fmt)
        unit = req + opt
        ptrs = args[4:] if kwcall else args[2:]
        if name is not None and name != pub:
            rep.find('format-name', w, fmt, 'the format names the function "%s"' % name)
        if len(ptrs) != len(unit):
            rep.find('format-args', w, fmt, 'format "%s" with %d units gets %d addresses'
                     % (fmt, len(unit), len(ptrs)))
        for u, p in zip(unit, ptrs):
            t = (strip(p).type or '') if strip(p) is not None else ''
            ty = UNITS.get(u)
            if ty is None:
                raise AnalysisError('format unit %s in %s' % (u, w))
            got = t[:-1].strip() if t.endswith('*') else t
            norm = lambda x: x.replace('struct _object', 'PyObject').replace('_object', 'PyObject') \
                .replace(' ', '')
            if norm(got) not in (norm(ty), norm(ty.replace('const ', ''))):
                rep.find('format-type', w, fmt, 'unit %s of format "%s" stores into a %s'
                         % (u, fmt, got))
        if kwcall:
            kws, closed = keyword_list(tu, g, args[3])
            if kws is None:
                raise AnalysisError('keyword list of %s cannot be resolved' % w)
            if not closed:
                rep.find('keywords', w, ' '.join(kws), 'keyword list is not NULL terminated')
            if len(kws) != len(unit):
                rep.find('keywords', w, ' '.join(kws), '%d keywords for %d format units'
                         % (len(kws), len(unit)))
            if len(set(kws)) != len(kws):
                rep.find('keywords', w, ' '.join(kws), 'duplicate keyword')
            mod.kw[pub] = (kws, len(req))
            check_destinations(rep, w, kws, ptrs)
        else:
            mod.kw[pub] = ([None] * len(unit), len(req))


# ------------------------------------------------------------ data flow in C
def roles_of(tu, fn):
    """flow-insensitive origins of the variables of an entry point:
    variable id -> set of 'kw:<name>' / 'new:<call id>'"""
    org = {}
    f = tu.functions[fn]
    names = reachable(tu, fn)

    def obj(t):
        return t is not None and ('_object' in t or 'PyObject' in t or 'PyArrayObject' in t
                                  or 'tagPyArrayObject' in t)

    for g in names:
        for n in tu.functions[g].walk():
            if n.kind == 'CallExpr' and callee(n) == 'PyArg_ParseTupleAndKeywords':
                args = n.inner[1:]
                kws, _ = keyword_list(tu, g, args[3])
                for k, p in zip(kws or (), args[4:]):
                    for c in p.walk():
                        if c.kind == 'DeclRefExpr' and c.ref[1] in ('VarDecl', 'ParmVarDecl'):
                            org.setdefault(c.ref[0], set()).add('kw:' + k)

    def expr(n, depth=0):
        n = strip(n)
        if n is None:
            return set()
        if n.kind == 'DeclRefExpr' and n.ref:
            return org.get(n.ref[0], set())
        if n.kind == 'ConditionalOperator':
            return expr(n.inner[1]) | expr(n.inner[2])
        if n.kind == 'BinaryOperator' and n.a.get('opcode') in ('=', ','):
            return expr(n.inner[1])
        if n.kind == 'CallExpr':
            out = set()
            has = False
            for a in n.inner[1:]:
                t = a.type or ''
                if obj(t) or 'char *' in t:
                    o = expr(a)
                    out |= {x for x in o}
                    has = has or obj(t) and strip(a).kind == 'DeclRefExpr'
            if obj(n.type) and not out and 'Type' not in (callee(n) or ''):
                return {'new:%s' % n.id}
            return out
        if n.kind == 'UnaryOperator' and n.inner:
            return expr(n.inner[0])
        return set()

    for _ in range(6):
        size = sum(len(v) for v in org.values())
        for g in names:
            for n in tu.functions[g].walk():
                if n.kind == 'BinaryOperator' and n.a.get('opcode') == '=':
                    l = strip(n.inner[0])
                    if l.kind == 'DeclRefExpr' and ('*' in (l.type or '')):
                        org.setdefault(l.ref[0], set()).update(expr(n.inner[1]))
                elif n.kind == 'VarDecl' and n.inner and '*' in (n.type or '') and n.a.get('init'):
                    org.setdefault(n.id, set()).update(expr(n.inner[-1]))
                elif n.kind == 'CallExpr' and callee(n) in tu.functions and g != callee(n):
                    ps = [c for c in tu.functions[callee(n)].inner if c.kind == 'ParmVarDecl']
                    if callee(n) in names and _local(tu, f, callee(n)):
                        for p, a in zip(ps, n.inner[1:]):
                            if '*' in (p.type or ''):
                                org.setdefault(p.id, set()).update(expr(a))
        if sum(len(v) for v in org.values()) == size:
            break
    return org, expr, names


def _local(tu, f, g):
    """helper defined in the same file as the entry point"""
    return tu.functions[g].file == f.file


def alias(k):
    return ALIAS.get(k, {k}) | {k}


def bare(name):
    return re.sub(r'^(obj|arr|arrd|py|p|in)_|_(obj|arr)$', '', name.lower())


def check_docs(rep, mod, pub):
    """the keywords have the order of the documented arguments"""
    doc = None
    for g in mod.tu.globals.values():
        if 'PyMethodDef' not in (g.type or '') and 'PyMethodDef' not in (g.a.get('qt') or ''):
            continue
        for row in [x for x in g.walk() if x.kind == 'InitListExpr' and len(x.inner) == 4]:
            c = [strip(y) for y in row.inner]
            if c[0] is not None and c[0].kind == 'StringLiteral' and c[3] is not None \
                    and c[3].kind == 'StringLiteral' and _unq(c[0].a['value']) == pub:
                doc = _unq(c[3].a['value'])
    m = re.search(r'\b%s\(([^)]*)\)' % re.escape(pub), doc or '')
    if m is None:
        return
    sig = [x.strip().split('=')[0].strip() for x in re.sub(r'[\[\]]', '', m.group(1)).split(',')]
    kws = mod.kw[pub][0]
    rep.count('documented signatures')
    for i, n in enumerate(sig):
        if n in kws:
            rep.count('documented arguments')
            if kws.index(n) != i:
                rep.find('documented-order', '%s:%s' % (mod.name, pub), ' '.join(kws),
                         'the argument "%s" is documented as no. %d but accepted as no. %d'
                         % (n, i + 1, kws.index(n) + 1))


def check_destinations(rep, w, kws, ptrs):
    """keyword k is not stored to the variable named after another keyword"""
    dest = []
    for p in ptrs:
        m = strip(p)
        while m is not None and m.kind == 'UnaryOperator' and m.inner:
            m = strip(m.inner[0])
        dest.append(bare(m.ref[2]) if m is not None and m.ref else None)
    names = [bare(k) for k in kws]
    for i, (k, d) in enumerate(zip(names, dest)):
        if d is None:
            continue
        rep.count('keyword destinations')
        if d != k and d in names and names.index(d) < len(dest):
            j = names.index(d)
            if dest[j] != names[j]:
                rep.find('keyword-destination', w, '%s -> %s' % (kws[i], d),
                         'the argument "%s" is stored as "%s"' % (kws[i], d))


def check_roles(rep, mod, pub, fn, prog, cprotos, ctu):
    """each input arrives at the dummy argument of its meaning, results in the documented order"""
    tu = mod.tu
    org, expr, names = roles_of(tu, fn)
    kws = mod.kw[pub][0]
    dest = {}       # new:<id> -> dummy name
    w = '%s:%s' % (mod.name, pub)
    ncall = 0
    for g in names:
        for n in tu.functions[g].walk():
            if n.kind != 'CallExpr':
                continue
            cf = callee(n)
            if cf is None or not cf.startswith('c_eval_'):
                continue
            ncall += 1
            chain = chain_of(cf, ctu, cprotos, prog)
            if chain is None:
                raise AnalysisError('no Fortran routine behind %s' % cf)
            fname, pos = chain
            proc, formals, _ = prog.find(fname)
            for i, a in enumerate(n.inner[1:]):
                if i not in pos or pos[i] >= len(formals):
                    continue
                dummy = formals[pos[i]]
                o = expr(a)
                inkw = {x[3:] for x in o if x.startswith('kw:')}
                new = {x for x in o if x.startswith('new:')}
                if inkw:
                    rep.count('traced arguments')
                    rep.sample('%s %s -> %s(%s)' % (w, '/'.join(sorted(inkw)), fname, dummy))
                    if len(inkw) > 1:
                        continue
                    k = next(iter(inkw))
                    others = [x for x in kws if x != k and dummy in alias(x)]
                    if others and dummy not in alias(k):
                        rep.find('argument-role', w, '%s -> %s' % (k, dummy),
                                 'argument "%s" is passed as "%s" of %s' % (k, dummy, fname))
                for x in new:
                    dest.setdefault(x, set()).add(dummy)
    if pub in RESULTS and not ncall:
        raise AnalysisError('no call of the Fortran wrapper found in %s' % w)
    # order of the results
    for g in names:
        for n in tu.functions[g].walk():
            tup = None
            if n.kind == 'CallExpr' and callee(n) == 'Py_BuildValue':
                fmt = string_of(n.inner[1])
                args = n.inner[2:]
                rep.count('result formats')
                units = [c for c in (fmt or '') if c not in '(),[] ']
                if fmt is None or len(units) != len(args):
                    rep.find('format-args', w, fmt, 'format "%s" does not match %d values'
                             % (fmt, len(args)))
                tup = args
            elif n.kind == 'CallExpr' and callee(n) == 'PyTuple_Pack':
                tup = n.inner[2:]
            if tup is None or pub not in RESULTS:
                continue
            got = []
            for a in tup:
                ds = set()
                for x in expr(a):
                    ds |= dest.get(x, set())
                got.append(ds)
            if all(len(d) == 1 for d in got):
                rep.count('traced results', len(got))
                seq = [next(iter(d)) for d in got]
                if any(sorted(seq) == sorted(x) for x in RESULTS[pub]) and seq not in RESULTS[pub]:
                    rep.find('result-order', w, ', '.join(seq), 'results are returned in '
                             'the order %s' % ', '.join(seq))
                if len(set(seq)) != len(seq):
                    rep.find('result-order', w, ', '.join(seq), 'one result is returned twice')


def chain_of(cf, ctu, cprotos, prog):
    """C wrapper -> (Fortran routine, position of the C parameter -> position of the dummy)"""
    if cf not in ctu.functions:
        return None
    f = ctu.functions[cf]
    params = {c.id: i for i, c in enumerate([x for x in f.inner if x.kind == 'ParmVarDecl'])}
    for nm, (d, types, calls) in cprotos.items():
        for fn, n in calls:
            if fn is not f:
                continue
            pos = {}
            copies = {}
            for c in fn.walk():      # copied strings
                if c.kind == 'CallExpr' and c is not n:
                    ids = [x.ref[0] for x in c.walk() if x.kind == 'DeclRefExpr' and x.ref[1] in
                           ('VarDecl', 'ParmVarDecl')]
                    for x in ids:
                        if x in params:
                            for y in ids:
                                if y not in params:
                                    copies[y] = x
            for j, a in enumerate(n.inner[1:]):
                for c in a.walk():
                    if c.kind == 'DeclRefExpr' and c.ref[1] in ('VarDecl', 'ParmVarDecl'):
                        i = params.get(copies.get(c.ref[0], c.ref[0]))
                        if i is not None:
                            pos[i] = j
            return nm[:-1], pos
    return None


def base_type(t):
    t = t.replace('const', '').replace('restrict', '').strip()
    return t.rstrip('*').strip(), t.endswith('*')


def check_fortran_calls(rep, prog, ctu, cprotos):
    for nm, (d, types, calls) in sorted(cprotos.items()):
        w = 'cqdipole.c:%s' % nm
        found = prog.find(nm[:-1])
        if found is None:
            raise AnalysisError('Fortran routine of %s not found' % nm)
        proc, formals, _ = found
        rep.count('C to Fortran interfaces')
        if 'FUNCTION' in proc.syms.get(proc.name, proc.syms[formals[0]]).attrs:
            rep.find('fortran-abi', w, nm, 'a Fortran function is called as a subroutine')
        if len(formals) != len(types):
            rep.find('fortran-abi', w, nm, '%d arguments are passed, the Fortran routine has %d: %s'
                     % (len(types), len(formals), ', '.join(formals)))
            continue
        for f, t in zip(formals, types):
            s = proc.syms[f]
            ft = s.type or '?'
            ct, ptr = base_type(t)
            key = 'CHARACTER' if ft.startswith('CHARACTER') else ft
            rep.count('C to Fortran arguments')
            if not ptr:
                rep.find('fortran-abi', w, '%s %s' % (t, f), 'argument %s is not passed by '
                         'reference' % f)
            elif FTYPE.get(key) != ct:
                rep.find('fortran-abi', w, '%s %s' % (t, f), 'argument %s of the type %s is '
                         'declared as %s in C' % (f, ft, t))
            if key == 'CHARACTER' and not re.search(r'\d', ft):
                rep.find('fortran-abi', w, ft, 'argument %s needs a hidden length argument' % f)
        for fn, n in calls:
            cw = 'cqdipole.c:%s' % fn.a['name']
            for f, a in zip(formals, n.inner[1:]):
                s = proc.syms[f]
                e = strip(a)
                rep.count('C to Fortran call arguments')
                if (s.type or '').startswith('CHARACTER'):
                    m = re.search(r'CHARACTER (\d+)', s.type)
                    need = int(m.group(1)) if m else 1
                    m = re.match(r'^(const )?char\s*\[(\d+)\]$', e.type or '')
                    if m and int(m.group(2)) < need:
                        rep.find('string-length', cw, '%s[%s]' % (f, m.group(2)), 'Fortran reads %d '
                                 'characters of a buffer of %s bytes' % (need, m.group(2)))
                    rep.count('string lengths')
                # names: the argument of one dummy passed at the place of another one
                r = e
                if e.kind == 'UnaryOperator' and e.inner:
                    r = strip(e.inner[0])
                nm2 = r.ref[2] if r.kind == 'DeclRefExpr' and r.ref else None
                if nm2 is not None and nm2 != f and nm2 in formals:
                    rep.find('argument-role', cw, '%s -> %s' % (nm2, f),
                             '%s is passed as %s of %s' % (nm2, f, nm[:-1]))
            limit = string_limit(ctu, fn)
            for f in formals:
                s = proc.syms[f]
                m = re.search(r'CHARACTER (\d+)', s.type or '')
                if m and limit is not None and limit > int(m.group(1)):
                    rep.find('string-length', cw, f, 'paths of up to %d bytes are accepted, Fortran '
                             'reads %s of them' % (limit, m.group(1)))


def string_limit(ctu, fn):
    """largest constant passed to the string copies of the function minus the terminator"""
    best = None
    for n in fn.walk():
        if n.kind == 'VarDecl':
            m = re.match(r'^char\s*\[(\d+)\]$', n.type or '')
            if m:
                best = max(best or 0, int(m.group(1)) - 1)
    return best


def ftype_of(proc, e):
    k = e[0]
    if k == 'var':
        s = proc.syms.get(e[2])
        return (s.type or '').upper() if s is not None and s.type else None
    if k == 'num':      # the dump prints 0.d0 like an integer
        return None
    if k == 'op':
        if e[1] in ('U-', 'U+', '+', '-', '*', '/'):
            ts = {ftype_of(proc, x) for x in e[2:]}
            return ts.pop() if len(ts) == 1 else None
        return None
    if k == 'call':
        m = re.search(r'_(?:convert|abs|real|dble)?_?[rilc]\d_([ri])(\d)$', e[1])
        if m:
            return ('REAL ' if m.group(1) == 'r' else 'INTEGER ') + m.group(2)
    return None


def fortran_stmts(code):
    for s in code:
        yield s
        for b in (getattr(s, 'body', None), getattr(s, 'orelse', None)):
            if b:
                for x in fortran_stmts(b):
                    yield x


def walk_expr(e):
    if isinstance(e, (tuple, list)):
        if isinstance(e, tuple) and e and isinstance(e[0], str):
            yield e
        for x in e:
            for y in walk_expr(x):
                yield y


def check_fortran_internal(rep, prog, start):
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        found = prog.find(n)
        if found is None or n in seen:
            continue
        seen.add(n)
        proc = found[0]
        for st in fortran_stmts(proc.code):
            calls = []
            if st.kind == 'call':
                calls.append((st.a['name'], st.a['args']))
            for v in st.a.values():
                for e in walk_expr(v):
                    if e[0] == 'call' and prog.find(e[1]) is not None:
                        calls.append((e[1], e[2]))
            for nm, args in calls:
                r = prog.find(nm)
                if r is None:
                    continue
                todo.append(nm)
                p2, formals, _ = r
                rep.count('Fortran calls')
                w = '%s calling %s' % (proc.name, nm)
                if len(args) != len(formals):
                    rep.find('fortran-call', w, st.text[:80], '%d arguments are passed to %s which '
                             'has %d' % (len(args), nm, len(formals)))
                    continue
                for f, a in zip(formals, args):
                    t1 = ftype_of(proc, a)
                    s2 = p2.syms.get(f)
                    t2 = (s2.type or '').upper() if s2 is not None and s2.type else None
                    rep.count('Fortran call arguments')
                    if t1 and t2 and t1.split()[0] in ('REAL', 'INTEGER', 'CHARACTER', 'LOGICAL') \
                            and t2.split()[0] in ('REAL', 'INTEGER', 'CHARACTER', 'LOGICAL'):
                        if t1.split()[0] != t2.split()[0] or (
                                t1.split()[0] != 'CHARACTER' and t1 != t2):
                            rep.find('fortran-call', w, '%s: %s' % (f, st.text[:80]),
                                     'argument %s of the type %s gets %s' % (f, t2, t1))
    rep.count('Fortran procedures', len(seen))


# ------------------------------------------------------------------ Python
def py_modules(repo):
    base = os.path.join(repo, 'eoxmagmod', 'eoxmagmod')
    out = {}
    for root, dirs, files in os.walk(base):
        dirs[:] = [d for d in dirs if d not in ('tests', 'data', 'include', '__pycache__')]
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, base)[:-3].replace(os.sep, '.')
                with open(p, encoding='utf-8') as fh:
                    out[rel] = (p, ast.parse(fh.read(), p))
    return out


def native_names(tree):
    """local name -> (native module, name) / module alias -> native module"""
    names, mods = {}, {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom):
            m = (n.module or '').split('.')[-1]
            for a in n.names:
                if m in MODULES:
                    names[a.asname or a.name] = (m, a.name)
                elif a.name in MODULES:
                    mods[a.asname or a.name] = a.name
    return names, mods


def check_python(rep, repo, mods):
    for rel, (path, tree) in sorted(py_modules(repo).items()):
        names, malias = native_names(tree)
        for loc, (m, nm) in sorted(names.items()):
            rep.count('imported native names')
            if nm not in mods[m].methods and nm not in mods[m].constants:
                rep.find('native-name', rel, nm, '%s is not defined by the module %s' % (nm, m))
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.value.id in malias:
                m = malias[n.value.id]
                rep.count('native attributes')
                if n.attr not in mods[m].methods and n.attr not in mods[m].constants:
                    rep.find('native-name', rel, n.attr, '%s is not defined by the module %s'
                             % (n.attr, m))
            if not isinstance(n, ast.Call):
                continue
            tgt = None
            if isinstance(n.func, ast.Name) and n.func.id in names and \
                    not shadowed(tree, n.func.id):
                tgt = names[n.func.id]
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in malias:
                tgt = (malias[n.func.value.id], n.func.attr)
            if tgt is None or tgt[1] not in mods[tgt[0]].kw:
                continue
            kws, req = mods[tgt[0]].kw[tgt[1]]
            rep.count('Python to native calls')
            w = '%s calling %s' % (rel, tgt[1])
            txt = ast.unparse(n)
            rep.sample(txt[:120])
            star = any(isinstance(a, ast.Starred) for a in n.args)
            dstar = any(k.arg is None for k in n.keywords)
            given = {}
            if not star:
                if len(n.args) > len(kws):
                    rep.find('native-call', w, txt, '%d positional arguments, %d expected'
                             % (len(n.args), len(kws)))
                for k, a in zip(kws, n.args):
                    given[k] = a
            for k in n.keywords:
                if k.arg is None:
                    continue
                if k.arg not in kws:
                    rep.find('native-call', w, txt, 'unknown keyword argument %s' % k.arg)
                elif k.arg in given:
                    rep.find('native-call', w, txt, 'argument %s is given twice' % k.arg)
                given[k.arg] = k.value
            if not star and not dstar:
                for k in kws[:req]:
                    if k not in given:
                        rep.find('native-call', w, txt, 'required argument %s is missing' % k)
            for k, a in given.items():
                nm = a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) \
                    else None
                if nm is None:
                    continue
                nm = nm.lstrip('_')
                rep.count('Python to native arguments')
                others = [x for x in kws if x != k and x is not None and nm in alias(x)]
                if others and nm not in alias(k):
                    rep.find('argument-role', w, txt, '%s is passed as the argument %s' % (nm, k))


def shadowed(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            return True
    return False


def positive_example(rep):
    """the rules have to fire on a call which is known to be wrong"""
    from fw import Report
    r = Report('C09')

    class M:
        methods = {'f': ('f', 3)}
        constants = set()
        kw = {'f': (['gclat', 'gclon', 'time'], 2)}
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, 'eoxmagmod', 'eoxmagmod'))
        with open(os.path.join(d, 'eoxmagmod', 'eoxmagmod', 'x.py'), 'w') as f:
            f.write('from ._pyqd import f, g\nf(gclon, gclat, when=1)\nf(1)\n')
        check_python(r, d, {'_pyqd': M, '_pymm': M, '_pysunpos': M, '_pytimeconv': M})
    rules = {x.rule for x in r.findings}
    if rules != {'native-name', 'native-call', 'argument-role'} or len(r.findings) < 4:
        raise AnalysisError('positive example of the interface rules is not recognised')


def check(rep, tier='quick', repo=REPO):
    positive_example(rep)
    prog = fparse.repo_program(repo)
    ctu = c_interface(repo)
    cprotos = fortran_protos(ctu)
    mods = {}
    for m, src in MODULES.items():
        mods[m] = CModule(repo, m, src)
        for pub, (fn, flags) in sorted(mods[m].methods.items()):
            check_entry(rep, mods[m], pub, fn, flags)
        for pub, (fn, flags) in sorted(mods[m].methods.items()):
            if pub in mods[m].kw:
                check_docs(rep, mods[m], pub)
                check_roles(rep, mods[m], pub, fn, prog, cprotos, ctu)
    check_fortran_calls(rep, prog, ctu, cprotos)
    check_fortran_internal(rep, prog, [n[:-1] for n in cprotos])
    check_python(rep, repo, mods)
    rep.need('entry points', 23)
    rep.need('argument formats', 23)
    rep.need('C to Fortran interfaces', 4)
    rep.need('C to Fortran arguments', 30)
    rep.need('Python to native calls', 20)
    rep.need('Fortran calls', 25)
    rep.need('traced arguments', 13)
    rep.need('traced results', 11)
    rep.rules += ['format-args/type/name', 'keywords', 'method-table', 'fortran-abi',
                  'fortran-call', 'string-length', 'argument-role', 'result-order',
                  'native-name', 'native-call']


if __name__ == '__main__':
    import sys
    from fw import Report
    r = Report('C09')
    try:
        check(r, 'quick', sys.argv[1] if len(sys.argv) > 1 else REPO)
    finally:
        for x in r.findings:
            print(x.key(), '|', x.msg)
        print(r.coverage)
        print(r.samples[:6])
