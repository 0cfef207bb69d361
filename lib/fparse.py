"""Front end for the Fortran sources: reads gfortran's resolved parse tree.

`gfortran -fdump-fortran-original -fsyntax-only` prints the name-resolved and
type-checked parse tree of every program unit (the tree the compiler lowers to
its middle end): symbols with their attributes (SAVE, COMMON, DUMMY, USE
association, initial values, array bounds) and the executable statements as
prefix expressions.  This module turns the dump into Python trees.
"""
import os
import re
import shutil
import subprocess
import tempfile


class FortranError(Exception):
    pass


class Sym:
    __slots__ = ('name', 'type', 'attrs', 'value', 'bounds', 'rank', 'common',
                 'cpos', 'module', 'proc', 'assumed', 'formal', 'result')

    def __repr__(self):
        return '<Sym %s:%s>' % (self.proc, self.name)


class Proc:
    def __init__(self, name):
        self.name = name
        self.syms = {}
        self.code = None
        self.lines = []
        self.formals = []
        self.entries = {}     # entry name -> formals (ENTRY statements)
        self.commons = {}
        self.equiv = []
        self.module = None
        self.is_module = False
        self.file = None


# ---------------------------------------------------------------- expressions
_TOK = re.compile(
    r"\s+|(?P<str>'(?:[^']|'')*')"
    r"|(?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?(?:_\d+)?(?![A-Za-z_@]))"
    r"|(?P<log>\.true\.|\.false\.)(?:_\d+)?"
    r"|(?P<op>\[\[|\]\]|\*\*|//|/=|==|<=|>=|<|>|\+|-|\*|/|\(|\)|,|:|%|=)"
    r"|(?P<name>[A-Za-z_@][\w@.\-]*)")


def tokenize(s):
    out = []
    pos = 0
    while pos < len(s):
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise FortranError('cannot tokenize %r at %r' % (s, s[pos:pos + 30]))
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        v = m.group(k)
        # a parenthesis attached to a name opens a subscript list
        if v == '(' and m.start() > 0 and s[m.start() - 1] not in ' ([,:':
            v = '(s'
        out.append((k, v))
    return out


_BIN = {'+', '-', '*', '/', '**', '==', '/=', '<', '>', '<=', '>=', '//'}
_WORDOPS = {'AND', 'OR', 'NOT', 'EQV', 'NEQV', 'parens', 'U-', 'U+'}


class ExprParser:
    """grammar of the dumped expressions

    ('num', text) ('str', text) ('log', bool) ('var', proc, name, subs|None)
    ('op', op, args...) ('call', fname, args) ('arrc', items) ('ctor', name, args)
    subs: list of ('full',) | expr | ('range', lo, hi, step)
    """

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise FortranError('expected %r, got %r in %r' % (v, x, self.t))
        return x

    def expr(self):
        k, v = self.peek()
        if k == 'num':
            self.next()
            return ('num', v)
        if k == 'str':
            self.next()
            return ('str', v[1:-1].replace("''", "'"))
        if k == 'log':
            self.next()
            return ('log', 'true' in v)
        if v == '(':
            self.next()
            k2, v2 = self.peek()
            if k2 == 'num' and v2.startswith('-') and False:
                pass
            if k2 == 'op' and v2 in _BIN:
                self.next()
                args = []
                while self.peek()[1] != ')':
                    if v2 == '/' and self.peek()[1] in (',', '/'):
                        # array constructor (/ a , b /)
                        if self.next()[1] == '/':
                            self.expect(')')
                            return ('arrc', args)
                        continue
                    args.append(self.expr())
                self.next()
                return ('op', v2) + tuple(args)
            if k2 == 'name' and v2 in ('U', 'U-', 'U+'):
                self.next()
                if v2 == 'U':
                    v2 = 'U' + self.next()[1]
                args = []
                while self.peek()[1] != ')':
                    args.append(self.expr())
                self.next()
                return ('op', v2) + tuple(args)
            if k2 == 'name' and v2 in _WORDOPS:
                self.next()
                args = []
                while self.peek()[1] != ')':
                    args.append(self.expr())
                self.next()
                if v2 == 'parens':
                    return args[0]
                return ('op', v2) + tuple(args)
            if k2 == 'name' and v2 == 'complex':
                raise FortranError('complex constants not supported')
            if k2 == 'name' and v2 == 'arg':
                # (arg not-present)
                while self.peek()[1] != ')':
                    self.next()
                self.next()
                return ('absent',)
            e = self.expr()
            self.expect(')')
            return e
        if k == 'name':
            self.next()
            name = v
            if self.peek()[1] == '[[':
                self.next()
                self.expect('(')
                args = []
                while self.peek()[1] != ')':
                    args.append(self.actual())
                self.next()
                self.expect(']]')
                return ('call', name, args)
            if self.peek()[1] == ':' and self.peek(1)[0] == 'name':
                self.next()
                var = self.next()[1]
                subs = None
                if self.peek()[1] == '(s':
                    # subscripts directly attached
                    subs = self.subs()
                node = ('var', name, var, subs)
                while self.peek()[1] == '%':
                    raise FortranError('derived type component not supported')
                return node
            if self.peek()[1] in ('(', '(s'):
                self.next()
                args = []
                while self.peek()[1] != ')':
                    args.append(self.expr())
                    if self.peek()[1] == ',':
                        self.next()
                self.next()
                return ('ctor', name, args)
            return ('name', name)
        raise FortranError('unexpected token %r in %r' % ((k, v), self.t))

    def subs(self):
        self.expect('(s')
        if self.peek() == ('name', 'FULL'):
            self.next()
            self.expect(')')
            return [('full',)]
        out = []
        while True:
            out.append(self.sub())
            k, v = self.next()
            if v == ')':
                return out
            if v != ',':
                raise FortranError('subscript %r' % (self.t,))

    def sub(self):
        lo = None
        if self.peek()[1] not in (':', ',', ')'):
            lo = self.expr()
        if self.peek()[1] == ':':
            self.next()
            hi = step = None
            if self.peek()[1] not in (':', ',', ')'):
                hi = self.expr()
            if self.peek()[1] == ':':
                self.next()
                step = self.expr()
            return ('range', lo, hi, step)
        return lo

    def actual(self):
        if self.next()[1] not in ('(', '(s'):
            raise FortranError('actual argument in %r' % (self.t,))
        if self.peek() == ('name', 'arg'):
            while self.peek()[1] != ')':
                self.next()
            self.next()
            return ('absent',)
        if self.peek()[1] == ')':
            self.next()
            return ('absent',)
        e = self.expr()
        self.expect(')')
        return e


def parse_expr(text):
    p = ExprParser(tokenize(text))
    e = p.expr()
    if p.i != len(p.t):
        raise FortranError('trailing tokens in %r' % text)
    return e


def parse_exprs(text):
    p = ExprParser(tokenize(text))
    out = []
    while p.i < len(p.t):
        out.append(p.expr())
    return out


# ---------------------------------------------------------------- statements
class Stmt:
    __slots__ = ('kind', 'label', 'text', 'a', 'body', 'orelse', 'proc')

    def __init__(self, kind, text, proc, **kw):
        self.kind = kind
        self.text = text
        self.proc = proc
        self.label = None
        self.body = kw.pop('body', None)
        self.orelse = kw.pop('orelse', None)
        self.a = kw

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.text[:60])


_LAB = re.compile(r'^(\d+) +')


class CodeParser:
    def __init__(self, proc, lines):
        self.proc = proc
        self.lines = lines
        self.i = 0

    def parse(self):
        out = self.block(())
        return out

    def peek(self):
        return self.lines[self.i] if self.i < len(self.lines) else None

    def block(self, stops):
        out = []
        while self.i < len(self.lines):
            line = self.lines[self.i]
            lab, body = self.split(line)
            if any(body == s or body.startswith(s + ' ') for s in stops):
                if lab is not None:
                    st = Stmt('nop', 'CONTINUE', self.proc)
                    st.label = lab
                    out.append(st)
                return out
            self.i += 1
            st = self.stmt(lab, body)
            out.append(st)
            # labelled loops end with the statement carrying their label
            if lab is not None and self.labels and lab == self.labels[-1]:
                return out
            if self.shared is not None:
                if self.labels and self.labels[-1] == self.shared:
                    return out
                self.shared = None
        return out

    labels = []
    shared = None

    @staticmethod
    def split(line):
        m = _LAB.match(line)
        if m:
            return m.group(1), line[m.end():].strip()
        return None, line

    def stmt(self, lab, t):
        st = self.stmt_(t)
        st.label = lab
        return st

    def stmt_(self, t):
        P = self.proc
        w = t.split(None, 1)
        k = w[0]
        rest = w[1] if len(w) > 1 else ''
        if k == 'ASSIGN':
            es = parse_exprs(rest)
            if len(es) != 2:
                raise FortranError('assignment %r' % t)
            return Stmt('assign', t, P, lhs=es[0], rhs=es[1])
        if k == 'IF':
            cond = parse_expr(rest)
            body = self.block(('ELSE', 'ENDIF'))
            cur = root = Stmt('if', t, P, cond=cond, body=body, orelse=[])
            while True:
                line = self.lines[self.i]
                self.i += 1
                if line == 'ENDIF':
                    return root
                if line.startswith('ELSE IF '):
                    c2 = parse_expr(line[8:])
                    b2 = self.block(('ELSE', 'ENDIF'))
                    nxt = Stmt('if', line, P, cond=c2, body=b2, orelse=[])
                    cur.orelse = [nxt]
                    cur = nxt
                elif line == 'ELSE':
                    cur.orelse = self.block(('ENDIF',))
                else:
                    raise FortranError('malformed IF near %r' % line)
        if k == 'DO':
            if rest.startswith('WHILE '):
                cond = parse_expr(rest[6:])
                body = self.block(('END DO',))
                self.i += 1
                return Stmt('while', t, P, cond=cond, body=body)
            m = re.match(r'^(\d+) +(.*)$', rest)
            term = None
            if m:
                term, rest = m.group(1), m.group(2)
            m = re.match(r'^([\w.@]+:\w+)=(.*)$', rest)
            if not m:
                if not rest:
                    body = self.block(('END DO',))
                    self.i += 1
                    return Stmt('while', t, P, cond=('log', True), body=body)
                raise FortranError('DO statement %r' % t)
            var = parse_expr(m.group(1))
            es = parse_exprs(m.group(2))
            if term is None:
                body = self.block(('END DO',))
                self.i += 1
            else:
                self.labels = self.labels + [term]
                depth = len(self.labels)
                body = self.block(())
                self.labels = self.labels[:depth - 1]
                if self.labels and self.labels[-1] == term:
                    # shared termination label: the enclosing loop ends as well
                    # (the label belongs to the innermost loop's body)
                    self.shared = term
            return Stmt('do', t, P, var=var, lo=es[0], hi=es[1],
                        step=es[2] if len(es) > 2 else ('num', '1'), body=body)
        if k == 'CALL':
            m = re.match(r'^([\w.@]+) \((.*)\)$', rest)
            if not m:
                raise FortranError('CALL %r' % t)
            p = ExprParser(tokenize('(' + m.group(2) + ')'))
            p.next()
            args = []
            while p.peek()[1] != ')':
                args.append(p.actual())
            return Stmt('call', t, P, name=m.group(1), args=args)
        if k in ('RETURN', 'CYCLE', 'EXIT', 'CONTINUE', 'NOP'):
            return Stmt({'RETURN': 'return', 'CYCLE': 'cycle', 'EXIT': 'exit'}.get(k, 'nop'),
                        t, P)
        if k == 'GOTO':
            return Stmt('goto', t, P, target=rest.strip())
        if k in ('STOP', 'ERROR'):
            return Stmt('stop', t, P)
        if k == 'ENTRY':
            return Stmt('entry', t, P, name=rest.strip())
        if k in ('WRITE', 'READ', 'PRINT'):
            specs = self.specs(rest)
            items = []
            while True:
                l2, b2 = self.split(self.lines[self.i])
                self.i += 1
                if b2.startswith('TRANSFER'):
                    items.append(parse_expr(b2[8:].strip()))
                elif b2.startswith('DT_END'):
                    specs.update(self.specs(b2[6:].strip()))
                    break
                else:
                    raise FortranError('I/O list item %r' % b2)
            return Stmt(k.lower(), t, P, specs=specs, items=items)
        if k in ('OPEN', 'CLOSE', 'INQUIRE', 'REWIND', 'BACKSPACE', 'FLUSH', 'ENDFILE'):
            return Stmt(k.lower(), t, P, specs=self.specs(rest))
        if k in ('ALLOCATE', 'DEALLOCATE'):
            stat = None
            m = re.match(r'^(?:STAT=(\S+))?\s*(.*)$', rest)
            if m.group(1):
                stat = parse_expr(m.group(1))
            return Stmt(k.lower(), t, P, objs=parse_exprs(m.group(2)), stat=stat)
        if k == 'SELECT':
            raise FortranError('SELECT CASE %r' % t)
        raise FortranError('unsupported statement %r' % t)

    def specs(self, text):
        out = {}
        # KEY=value pairs; the values are expressions without blanks at depth 0
        i = 0
        n = len(text)
        while i < n:
            while i < n and text[i] == ' ':
                i += 1
            m = re.match(r'([A-Z]+)=', text[i:])
            if not m:
                break
            key = m.group(1)
            i += m.end()
            j = i
            depth = 0
            instr = False
            while j < n:
                c = text[j]
                if c == "'":
                    instr = not instr
                elif not instr:
                    if c in '([':
                        depth += 1
                    elif c in ')]':
                        depth -= 1
                    elif c == ' ' and depth == 0:
                        break
                j += 1
            out[key] = text[i:j]
            i = j
        return out


def _select_preprocess(lines):
    return lines


def dump(path, workdir):
    cmd = ['gfortran', '-fdump-fortran-original', '-fsyntax-only', '-w', '-I', workdir,
           '-J', workdir, path]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=workdir)
    if r.returncode:
        raise FortranError('gfortran %s: %s' % (path, r.stderr[-1500:]))
    return r.stdout


_SYM = re.compile(r"^\s*symtree: '([^']*)'\s*\|\| symbol: '([^']*)'")


def parse_dump(text, fname, procs):
    lines = text.split('\n')
    i = 0
    cur = None
    sym = None
    mode = None
    code = None
    module_stack = []
    n = len(lines)
    while i < n:
        line = lines[i]
        i += 1
        m = re.match(r'^\s*procedure name = (\S+)', line)
        if m:
            cur = Proc(m.group(1))
            cur.file = fname
            procs[cur.name] = cur
            sym = None
            continue
        if cur is None:
            continue
        m = _SYM.match(line)
        if m:
            sym = Sym()
            sym.name = m.group(1)
            sym.proc = cur.name
            sym.type = sym.value = None
            sym.attrs = set()
            sym.bounds = None
            sym.rank = 0
            sym.common = sym.cpos = sym.module = None
            sym.assumed = False
            sym.formal = None
            sym.result = None
            cur.syms[sym.name] = sym
            continue
        s = line.strip()
        if s == 'code:':
            buf = []
            while i < n and not lines[i].startswith(('----', 'Namespace:')):
                buf.append(lines[i])
                i += 1
            cl = []
            for b in buf:
                b = b.strip()
                if not b:
                    continue
                if b == 'CONTAINS':
                    raise FortranError('CONTAINS in the dump of %s' % cur.name)
                # DO WHILE bodies are printed with their terminator attached
                if b != 'END DO' and b.endswith('END DO') and b[-7:-6] == ' ':
                    cl.append(b[:-6].strip())
                    cl.append('END DO')
                else:
                    cl.append(b)
            cur.lines = cl
            continue
        if s.startswith('common: /'):
            m = re.match(r'common: /(\w*)/ (.*)$', s)
            cur.commons[m.group(1)] = [x.strip() for x in m.group(2).split(',')]
            continue
        if s.startswith('Equivalence:'):
            names = re.findall(r'[\w.]+:(\w+)\(', s)
            if not names:
                names = re.findall(r'[\w.]+:(\w+)', s)
            cur.equiv.append(names)
            continue
        if sym is None:
            continue
        if s.startswith('type spec :'):
            sym.type = s[11:].strip().strip('()')
        elif s.startswith('attributes:'):
            a = s[11:].strip()
            m = re.search(r'USE-ASSOC\((\w+)\)', a)
            if m:
                sym.module = m.group(1)
            sym.attrs = set(a.strip('()').replace('(', ' ').replace(')', ' ').split())
            if 'MODULE' in sym.attrs and sym.name == cur.name:
                cur.is_module = True
        elif s.startswith('value:'):
            sym.value = s[6:].strip()
        elif s.startswith('Array spec:'):
            m = re.match(r'Array spec:\((\d+) \[\d+\] (\w+) (.*)\)$', s)
            if m:
                sym.rank = int(m.group(1))
                sym.assumed = m.group(2)
                sym.bounds = m.group(3).strip()
        elif s.startswith('Formal arglist:'):
            sym.formal = s[15:].split()
        elif s.startswith('result:'):
            sym.result = s[7:].strip()


class Program:
    def __init__(self, sources):
        self.procs = {}
        self.sources = sources
        tmp = tempfile.mkdtemp(prefix='verif-f-')
        try:
            # modules first: sources defining modules before those using them
            order = sorted(sources, key=lambda p: (not _defines_module(p), p))
            for path in order:
                dst = os.path.join(tmp, os.path.basename(path))
                shutil.copyfile(path, dst)
                # produce the .mod files for the later sources
                text = dump(dst, tmp)
                parse_dump(text, os.path.basename(path), self.procs)
        finally:
            shutil.rmtree(tmp)
        self.entries = {}
        for p in list(self.procs.values()):
            me = p.syms.get(p.name)
            if me is not None and me.formal is not None:
                p.formals = me.formal
            for s in p.syms.values():
                if 'ENTRY' in s.attrs and s.formal is not None:
                    self.entries[s.name] = (p, s.formal)
            for blk, names in p.commons.items():
                for k, nm in enumerate(names):
                    if nm in p.syms:
                        p.syms[nm].common = blk
                        p.syms[nm].cpos = k

    def find(self, name):
        p = self.procs.get(name)
        if p is not None and not p.is_module:
            self.load(p)
            return p, p.formals, None
        if name in self.entries:
            p, f = self.entries[name]
            self.load(p)
            return p, f, name
        return None

    @staticmethod
    def load(p):
        # the statements are parsed on demand: only the reachable units matter
        if p.code is None:
            p.code = CodeParser(p, p.lines).parse()


def _defines_module(path):
    with open(path, encoding='utf-8', errors='replace') as f:
        return re.search(r'^\s*module\s+(?!procedure)\w+\s*$', f.read(), re.I | re.M) is not None


def repo_program(repo):
    d = os.path.join(repo, 'qdipole')
    names = sorted(x for x in os.listdir(d)
                   if x.endswith('.f90') and not x.startswith('makeapexsh'))
    return Program([os.path.join(d, x) for x in names])
