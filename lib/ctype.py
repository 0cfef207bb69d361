"""Types of the C sources: declarators, sizes and record layouts."""
import re


# ---------------------------------------------------------------- types
class Types:
    def __init__(self, tu):
        self.tu = tu
        self.cache = {}
        self.lay = {}
        self.tdrec = {}
        self.open = set()
        for name, td in tu.typedefs.items():
            for n in td.walk():
                o = n.a.get('ownedTagDecl') or {}
                rid = o.get('id') if isinstance(o, dict) else None
                if rid is None and n.kind == 'RecordType':
                    rid = n.a.get('decl')
                if rid in tu.records:
                    self.tdrec[name] = rid
                    break

    BASE = {
        'char': ('int', 1, True), 'signed char': ('int', 1, True), 'unsigned char': ('int', 1, False),
        'short': ('int', 2, True), 'unsigned short': ('int', 2, False), 'int': ('int', 4, True),
        'unsigned int': ('int', 4, False), 'unsigned': ('int', 4, False), 'long': ('int', 8, True),
        'unsigned long': ('int', 8, False), 'long long': ('int', 8, True), 'unsigned long long': ('int', 8, False),
        'float': ('flt', 4), 'double': ('flt', 8), 'long double': ('flt', 16), 'void': ('void',), '_Bool': ('int', 1, False),
    }

    def parse(self, s):
        if s is None:
            return ('void',)
        t = self.cache.get(s)
        if t is None:
            self.cache[s] = ('unk', s)       # a self-referring typedef resolves below
            t = self.cache[s] = self._parse(s)
        return t

    def _parse(self, s):
        s = re.sub(r'\b(const|volatile|restrict|__restrict|static|struct|enum|union|register)\b', ' ', s)
        toks = re.findall(r'[A-Za-z_]\w*|\[[^\]]*\]|\*|\(|\)|,|\.\.\.|\d+|\S', s)
        i = 0
        base = []
        while i < len(toks) and re.match(r'[A-Za-z_]', toks[i]):
            base.append(toks[i])
            i += 1
        bt = self._base(' '.join(base))
        rest = toks[i:]
        return self._decl(bt, rest)

    def _base(self, b):
        if b in self.BASE:
            return self.BASE[b]
        if b in self.tdrec:
            return ('rec', self.tdrec[b])
        if b in self.tu.typedefs and b not in self.open:
            td = self.tu.typedefs[b]
            self.open.add(b)
            try:
                for u in (td.type, td.a.get('qt')):
                    if u and u != b:
                        t = self._parse(u)
                        if t[0] != 'unk':
                            return t
            finally:
                self.open.discard(b)
        if b in self.tu.records:
            return ('rec', b)
        if b.startswith('unnamed') or not b:
            return ('unk',)
        if any(n.kind == 'EnumDecl' and n.a.get('name') == b for n in self.tu.root.inner):
            return ('int', 4, False)
        return ('unk', b)

    def _decl(self, bt, toks):
        # abstract declarator
        t = bt
        i = 0
        while i < len(toks) and toks[i] == '*':
            t = ('ptr', t)
            i += 1
        if i < len(toks) and toks[i] == '(' and i + 1 < len(toks) and toks[i + 1] == '*':
            d = 0
            for j in range(i, len(toks)):
                d += toks[j] == '('
                d -= toks[j] == ')'
                if d == 0:
                    break
            t = self._suffix(t, toks[j + 1:])
            return self._decl(t, toks[i + 1:j])
        return self._suffix(t, toks[i:])

    def _suffix(self, t, toks):
        if not toks:
            return t
        if toks[0] == '(':
            return ('func', t)
        if toks[0].startswith('['):
            inner = self._suffix(t, toks[1:])
            e = toks[0][1:-1].strip()
            return ('arr', inner, int(e) if e.isdigit() else (e or None))
        return t

    def layout(self, rid):
        l = self.lay.get(rid)
        if l is None:
            off = 0
            al = 1
            l = []
            for f in self.tu.records.get(rid, []):
                t = self.parse(f.type)
                s, a = self.size(t), self.align(t)
                if s is None:
                    s, a = 8, 8
                off = (off + a - 1) // a * a
                l.append((f.a.get('name'), t, off, f.id))
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            l = (l, off, al)
            self.lay[rid] = l
        return l

    def size(self, t):
        k = t[0]
        if k in ('int', 'flt'):
            return t[1]
        if k == 'ptr':
            return 8
        if k == 'rec':
            return self.layout(t[1])[1]
        if k == 'arr':
            s = self.size(t[1])
            return s * t[2] if isinstance(t[2], int) and s is not None else None
        if k in ('void', 'func'):
            return 1
        return None

    def align(self, t):
        k = t[0]
        if k == 'rec':
            return self.layout(t[1])[2]
        if k == 'arr':
            return self.align(t[1])
        return self.size(t) or 8

    def leaves(self, t, off=0, out=None):
        """scalar leaves (offset, type) of a type of constant size"""
        if out is None:
            out = []
        if t[0] == 'rec':
            for n, ft, fo, _ in self.layout(t[1])[0]:
                self.leaves(ft, off + fo, out)
        elif t[0] == 'arr':
            if isinstance(t[2], int) and t[2] <= 256:
                s = self.size(t[1])
                for i in range(t[2]):
                    self.leaves(t[1], off + i * s, out)
        else:
            out.append((off, t))
        return out
