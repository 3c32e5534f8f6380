"""A small Rust tokenizer and item finder.  It is used to cut the text of functions, structs, enums
and constants out of /repo's current sources, and to splice contracts into that text."""
import re

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<rstr>b?r(?P<h>\#*)")
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<id>(?:r\#)?[A-Za-z_]\w*)
  | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
  | (?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|>>=|.)
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 's', 'a', 'b', 'm')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None

    def __repr__(self):
        return f'{self.k}:{self.s}'


class Lost(Exception):
    """An anchor in the source was not found, or not in the expected shape."""


def tokenize(src):
    """Tokens without whitespace; comments kept as kind 'c'. Brackets carry the index of their match."""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        j = m.end()
        if k == 'ws':
            i = j
            continue
        if k == 'bc':
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1; j += 2
                elif src.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            out.append(Tok('c', src[i:j], i, j)); i = j
            continue
        if k == 'lc':
            out.append(Tok('c', src[i:j], i, j)); i = j
            continue
        if m.group('rstr'):
            end = '"' + m.group('h')
            j = src.index(end, j) + len(end)
            out.append(Tok('str', src[i:j], i, j)); i = j
            continue
        out.append(Tok(k, src[i:j], i, j))
        i = j
    st = []
    for x, t in enumerate(out):
        if t.k != 'p':
            continue
        if t.s in '([{' and len(t.s) == 1:
            st.append(x)
        elif t.s in ')]}' and len(t.s) == 1:
            if not st:
                raise Lost('unbalanced brackets')
            o = st.pop(); out[o].m = x; t.m = o
    return out


class Item:
    def __init__(self, kind, name, start, sig_end, body, end, header=''):
        # token indexes: start (after attributes), end exclusive; body = (open, close) or None
        self.kind, self.name, self.start, self.sig_end, self.body, self.end = kind, name, start, sig_end, body, end
        self.header = header
        self.children = []


QUAL = {'pub', 'const', 'unsafe', 'async', 'extern', 'default', 'static', 'type', 'fn', 'struct', 'enum', 'mod',
        'impl', 'trait', 'use', 'union', 'macro_rules'}


class File:
    def __init__(self, text, name=''):
        self.text, self.name = text, name
        self.toks = [t for t in tokenize(text)]
        # comments are dropped from the token stream used for parsing
        idx = [i for i, t in enumerate(self.toks) if t.k != 'c']
        remap = {o: n for n, o in enumerate(idx)}
        self.t = [self.toks[i] for i in idx]
        for t in self.t:
            if t.m is not None:
                t.m = remap[t.m]
        self.items = self._items(0, len(self.t))

    def _skip_attr(self, i, end):
        attrs = []
        while i < end and self.t[i].s == '#':
            j = i + 1
            if self.t[j].s == '!':
                j += 1
            attrs.append(self.text[self.t[i].a:self.t[self.t[j].m].b])
            i = self.t[j].m + 1
        return i, attrs

    def _items(self, i, end):
        out = []
        t = self.t
        while i < end:
            i, attrs = self._skip_attr(i, end)
            if i >= end:
                break
            s = i
            if t[i].s == 'pub':
                i += 1
                if t[i].s == '(':
                    i = t[i].m + 1
            while t[i].s in ('unsafe', 'async', 'default') or (t[i].s == 'const' and t[i + 1].s in ('fn', 'unsafe', 'async')) \
                    or (t[i].s == 'extern' and t[i + 1].k == 'str'):
                i += 2 if t[i].s == 'extern' else 1
            kw = t[i].s
            if kw in ('fn', 'struct', 'enum', 'trait', 'mod', 'union', 'type'):
                name = t[i + 1].s
                j = i + 2
                body = None
                while j < end:
                    if t[j].s in ('(', '['):
                        j = t[j].m + 1
                        continue
                    if t[j].s == '{':
                        body = (j, t[j].m)
                        e = t[j].m + 1
                        break
                    if t[j].s == ';':
                        e = j + 1
                        break
                    j += 1
                else:
                    e = end
                it = Item(kw, name, s, j, body, e)
                it.attrs = attrs
                if kw in ('mod', 'trait') and body:
                    it.children = self._items(body[0] + 1, body[1])
                out.append(it)
                i = e
            elif kw == 'impl':
                j = i + 1
                while t[j].s != '{':
                    j = t[j].m + 1 if t[j].s in ('(', '[') else j + 1
                header = self._norm(i + 1, j)
                it = Item('impl', header, s, j, (j, t[j].m), t[j].m + 1, header)
                it.attrs = attrs
                it.children = self._items(j + 1, t[j].m)
                out.append(it)
                i = it.end
            elif kw in ('const', 'static'):
                j = i + 1
                if t[j].s == 'mut':
                    j += 1
                name = t[j].s
                while t[j].s != ';':
                    j = t[j].m + 1 if t[j].s in ('(', '[', '{') else j + 1
                it = Item(kw, name, s, j, None, j + 1)
                it.attrs = attrs
                out.append(it)
                i = j + 1
            else:
                # use, macro calls, extern blocks, ...: skip to the end
                j = i
                while j < end and t[j].s != ';':
                    if t[j].s == '{':
                        j = t[j].m
                        if j + 1 < end and t[j + 1].s == ';':
                            j += 1
                        elif t[i].s == 'use':
                            j += 1
                            continue
                        break
                    j = t[j].m + 1 if t[j].s in ('(', '[') else j + 1
                it = Item('other', t[i].s, s, j, None, j + 1)
                it.attrs = attrs
                out.append(it)
                i = j + 1
        return out

    def _norm(self, a, b):
        """impl header without generics in front, e.g. 'Shardable for Height' or 'TrieKey'."""
        t = self.t
        if t[a].s == '<':
            d = 0
            while True:
                if t[a].s == '<':
                    d += 1
                elif t[a].s == '>':
                    d -= 1
                elif t[a].s == '>>':
                    d -= 2
                a += 1
                if d == 0:
                    break
        s = ''
        for x in range(a, b):
            if t[x].s == 'where':
                break
            if s and (t[x].k == 'id' and (s[-1].isalnum() or s[-1] == '>')):
                s += ' '
            s += t[x].s
        return s

    def find(self, path, kinds=None):
        """path: 'name', 'Type::name', '<Trait for Type>::name', 'mod::name'."""
        parts = re.findall(r'<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>|[^:]+', path)
        return self._find(self.items, parts, kinds, path)

    def _find(self, items, parts, kinds, path):
        if len(parts) == 1:
            c = [i for i in items if i.name == parts[0] and i.kind != 'impl' and i.kind != 'other'
                 and (kinds is None or i.kind in kinds) and not any('cfg(test)' in a for a in i.attrs)]
            if not c:
                raise Lost(f'{self.name}: {path} not found')
            return c[0]
        p = parts[0]
        cands = []
        for i in items:
            if any('cfg(test)' in a for a in i.attrs):
                continue
            if i.kind in ('mod', 'trait') and i.name == p:
                cands.append(i)
            if i.kind == 'impl':
                h = i.header
                want = p[1:-1].strip() if p.startswith('<') else p
                if h == want or re.sub(r'\w+::', '', h) == want:
                    cands.append(i)
                elif not p.startswith('<') and (re.sub(r'<.*>$', '', re.sub(r'\w+::', '', h)) == want):
                    cands.append(i)
                elif not p.startswith('<') and re.search(r' for (\w+::)*' + re.escape(want) + r'$', h):
                    cands.append(i)
        cands.sort(key=lambda c: c.kind == 'impl' and ' for ' in c.header)   # inherent items first
        for c in cands:
            try:
                return self._find(c.children, parts[1:], kinds, path)
            except Lost:
                pass
        raise Lost(f'{self.name}: {path} not found')

    def src(self, a, b):
        """Source text of the token range [a, b)."""
        return self.text[self.t[a].a:self.t[b - 1].b]
