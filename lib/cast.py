"""Front end: clang's type-checked AST (JSON) of one translation unit -> compact nodes."""
import json, subprocess, os, sys

KEEP = ('name', 'opcode', 'value', 'isPostfix', 'castKind', 'valueCategory', 'storageClass',
        'isArrow', 'init', 'tagUsed', 'hasElse', 'hasInit', 'hasVar', 'previousDecl', 'parentDeclContextId',
        'completeDefinition', 'isBitfield', 'labelDeclId', 'targetLabelDeclId', 'declId', 'isImplicit')


class Node:
    __slots__ = ('kind', 'id', 'inner', 'type', 'file', 'line', 'col', 'a', 'ref', 'member', 'parent')

    def __repr__(self):
        return f'<{self.kind} {self.a.get("name","")} {self.file and os.path.basename(self.file)}:{self.line}>'

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.inner))


class FrontEndError(Exception):
    pass


class TU:
    def __init__(self, path, incs, defines=()):
        self.path = path
        cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-std=gnu11']
        for d in defines:
            cmd.append('-D' + d)
        for i in incs:
            cmd += ['-I', i]
        cmd.append(path)
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise FrontEndError(f'clang cannot parse {path}:\n{p.stderr[:2000]}')
        root = json.loads(p.stdout)
        self._file = None
        self._line = None
        self.ids = {}
        self.root = self._conv(root, None)
        self.functions = {}
        self.fdecls = {}
        self.globals = {}
        self.records = {}
        self.typedefs = {}
        self.enums = {}
        for n in self.root.inner:
            self._top(n)
        for n in self.root.walk():
            if n.kind == 'RecordDecl' and n.a.get('completeDefinition'):
                fields = [c for c in n.inner if c.kind == 'FieldDecl']
                self.records[n.id] = fields
                if n.a.get('name'):
                    self.records[n.a['name']] = fields

    def _top(self, n):
        if n.kind == 'FunctionDecl':
            nm = n.a['name']
            self.fdecls.setdefault(nm, n)
            if any(c.kind == 'CompoundStmt' for c in n.inner):
                self.functions[nm] = n
        elif n.kind == 'VarDecl':
            old = self.globals.get(n.a['name'])
            if old is None or n.inner:
                self.globals[n.a['name']] = n
        elif n.kind == 'TypedefDecl':
            self.typedefs[n.a['name']] = n
        elif n.kind == 'EnumDecl':
            v = -1
            for c in n.inner:
                if c.kind == 'EnumConstantDecl':
                    val = None
                    for x in c.walk():
                        if x.kind in ('ConstantExpr', 'IntegerLiteral') and 'value' in x.a:
                            val = int(x.a['value'])
                            break
                    v = val if val is not None else v + 1
                    self.enums[c.id] = v

    def _loc(self, d):
        """track clang's delta encoding; returns (file, line, col) of this location"""
        if 'spellingLoc' in d or 'expansionLoc' in d:
            r = None
            for k, v in d.items():
                if k == 'spellingLoc':
                    self._loc(v)
                elif k == 'expansionLoc':
                    r = self._loc(v)
            return r
        if 'file' in d:
            self._file = d['file']
        if 'line' in d:
            self._line = d['line']
        if 'offset' not in d:
            return None
        return (self._file, self._line, d.get('col'))

    def _conv(self, d, parent):
        n = Node()
        n.kind = d.get('kind', 'Null')
        n.id = d.get('id')
        n.a = {}
        n.ref = None
        n.member = None
        n.type = None
        n.parent = parent
        n.inner = []
        loc = None
        rng = None
        for k, v in d.items():
            if k == 'loc':
                loc = self._loc(v)
            elif k == 'range':
                b = self._loc(v.get('begin', {}))
                self._loc(v.get('end', {}))
                rng = b
            elif k == 'type':
                n.type = v.get('desugaredQualType', v.get('qualType'))
                n.a['qt'] = v.get('qualType')
            elif k == 'referencedDecl':
                n.ref = (v.get('id'), v.get('kind'), v.get('name'))
            elif k == 'referencedMemberDecl':
                n.member = v
            elif k == 'argType':
                n.a['argType'] = v.get('desugaredQualType', v.get('qualType'))
            elif k == 'inner':
                n.inner = [self._conv(c, n) for c in v]
            elif k == 'array_filler':
                n.a['filler'] = True
                n.inner = [self._conv(c, n) for c in v]
            elif k == 'decl':
                n.a['decl'] = v.get('id')
            elif k in KEEP or k in ('computeLHSType', 'computeResultType', 'ownedTagDecl', 'field'):
                n.a[k] = v
        l = loc or rng or (None, None, None)
        n.file, n.line, n.col = l
        if n.id:
            self.ids[n.id] = n
        return n


def repo_tu(repo, name):
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(repo, 'eoxmagmod', 'eoxmagmod')
    return TU(os.path.join(src, name), [os.path.join(here, 'stubs'), src, os.path.join(src, 'include'), repo], ['NDEBUG'])     # (as by setuptools)


if __name__ == '__main__':
    import collections, time
    ks = collections.Counter()
    for f in ('pymm.c', 'pyqd.c', 'pysunpos.c', 'pytimeconv.c'):
        t = time.time()
        tu = repo_tu('/repo', f)
        print(f, time.time() - t, len(tu.functions))
        for fn in tu.functions.values():
            if fn.file and '/repo' in fn.file:
                for n in fn.walk():
                    ks[n.kind] += 1
    print(ks)
    casts = collections.Counter()
