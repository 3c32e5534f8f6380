"""Expands a contract template (.vrs) into one Verus file: the functions named in the template are cut
from /repo's current sources and the template's contracts are spliced into them.  The body text is the
code that runs; what the expansion drops or rewrites is recorded, rule by rule, in Result.rules."""
import os, re, json
from rustlex import File, Lost, tokenize

LOG = {'warn', 'info', 'error', 'debug', 'trace'}
KW = {'if', 'while', 'for', 'match', 'return', 'loop', 'fn', 'in', 'as', 'let', 'else', 'move', 'mut', 'ref', 'Some',
      'Ok', 'Err', 'None', 'matches'}


class Fn:
    def __init__(self, name, file, line, src_hash):
        self.name, self.file, self.line, self.src_hash = name, file, line, src_hash
        self.lo = self.hi = 0
        self.external = False
        self.structural = []
        self.contract = ''
        self.disabled = False
        self.emitted = name


class Result:
    def __init__(self):
        self.lines = []
        self.fns = []
        self.rules = {}
        self.types = []
        self.lost = []
        self.trusted = []

    def rule(self, name, n=1):
        self.rules[name] = self.rules.get(name, 0) + n


def cut_derives(attrs):
    d = []
    for a in attrs:
        m = re.match(r'#\[derive\((.*)\)\]$', a, re.S)
        if m:
            d += [x.strip().split('::')[-1] for x in m.group(1).split(',')]
    return d


class Expander:
    def __init__(self, repo, specs, proto_rs, disabled=(), vacuity=False):
        self.repo, self.specs, self.proto_rs = repo, specs, proto_rs
        self.disabled, self.vacuity = set(disabled), vacuity
        self.files = {}
        self.r = Result()
        self.contracted = {}   # file -> set of fn names under contract

    def file(self, rel):
        if rel not in self.files:
            p = os.path.join(self.repo, rel) if rel != '@proto' else self.proto_rs
            if not p or not os.path.exists(p):
                raise Lost(f'{rel}: no such file')
            self.files[rel] = File(open(p).read(), rel)
        return self.files[rel]

    # ---- emission -----------------------------------------------------------------------------
    def emit(self, text):
        self.r.lines += text.split('\n')

    def load(self, name):
        return open(os.path.join(self.specs, name)).read().split('\n')

    def expand(self, name):
        self.included = set()
        self.scan(self.load(name))
        self.run(self.load(name))
        return self.r

    def scan(self, lines):
        for l in lines:
            m = re.match(r'\s*//@include (\S+)', l)
            if m:
                self.scan(self.load(m.group(1)))
            m = re.match(r'\s*//@(?:fn|known) (\S+?\.rs)::((?:<[^:]*>::)?\S+)', l)
            if m:
                self.contracted.setdefault(m.group(1), set()).add(m.group(2).split('::')[-1])

    def run(self, lines):
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
            if not m:
                self.emit(l); i += 1
                continue
            d, arg = m.group(1), m.group(2).strip()
            if d == 'include':
                if arg not in self.included:
                    self.included.add(arg)
                    self.run(self.load(arg))
            elif d == 'proto':
                self.proto(arg.split())
            elif d == 'item':
                self.item(arg)
            elif d == 'known':
                pass
            elif d == 'slice_const':
                self.slice_const(arg)
            elif d == 'regex':
                self.regex(arg)
            elif d == 'fn':
                j = i + 1
                while not re.match(r'\s*//@endfn', lines[j]):
                    j += 1
                try:
                    self.fn(arg, lines[i + 1:j])
                except Lost as e:
                    self.r.lost.append(str(e))
                i = j
            else:
                raise SystemExit(f'unknown directive {l}')
            i += 1

    # ---- types --------------------------------------------------------------------------------
    def item(self, arg):
        """//@item FILE::path [derive=A,B] [structural] [noclone]"""
        parts = arg.split()
        rel, path = re.match(r'(.*?\.rs|@proto)::(.*)', parts[0]).groups()
        opts = parts[1:]
        f = self.file(rel)
        try:
            it = f.find(path, {'struct', 'enum', 'const', 'static', 'type'})
        except Lost as e:
            self.r.lost.append(str(e)); return
        self.r.types.append(f'{rel}::{path}')
        self.emit(self.type_text(f, it, opts))

    def regex(self, arg):
        """//@regex FILE::NAME: a static compiled regular expression, as a function whose result has the text the source gives it."""
        rel, path = re.match(r'(.*?\.rs)::(.*)', arg).groups()
        f = self.file(rel)
        try:
            it = f.find(path, {'const', 'static'})
            lit = None
            for k in range(it.start, it.end - 4):
                if [q.s for q in f.t[k:k + 4]] == ['Regex', '::', 'new', '(']:
                    lit = f.t[k + 4].s
            if lit is None:
                raise Lost(f'{arg}: no Regex::new')
            if re.fullmatch(r'\w+', lit):
                c = f.find(lit, {'const', 'static'})
                lit = [q.s for q in f.t[c.start:c.end] if '"' in q.s][0]
            m = re.fullmatch(r'r(#*)"(.*)"\1', lit, re.S)
            text = m.group(2) if m else lit[1:-1].encode().decode('unicode_escape')
        except Lost as e:
            self.r.lost.append(str(e)); return
        q = text.replace('\\', '\\\\').replace('"', '\\"')
        self.emit(f'#[verifier::external_body] pub fn vx_{path}() -> (r: Regex) ensures r.text() == "{q}"@ {{ unimplemented!() }}')
        self.r.rule('a static Regex replaced by a call returning a Regex of the same text')

    def slice_const(self, arg):
        """//@slice_const FILE::NAME ELEM: a constant array/slice as a spec sequence and an executable vector."""
        ref, elem = arg.split(None, 1)
        rel, path = re.match(r'(.*?\.rs)::(.*)', ref).groups()
        f = self.file(rel)
        try:
            it = f.find(path, {'const', 'static'})
        except Lost as e:
            self.r.lost.append(str(e)); return
        k = it.start
        while f.t[k].s != '=':
            k = f.t[k].m + 1 if f.t[k].s in ('(', '[') else k + 1
        while f.t[k].s != '[':
            k += 1
        body = self.apply(f, k + 1, f.t[k].m, []) if f.t[k].m > k + 1 else ''
        n = it.name
        self.r.types.append(f'{rel}::{path} (constant table)')
        self.emit(f'''pub open spec fn {n}_spec() -> Seq<{elem}> {{ seq![{body}] }}
pub fn {n}_vec() -> (r: Vec<{elem}>) ensures r@ == {n}_spec() {{ let r = vec![{body}]; assert(r@ =~= {n}_spec()); r }}''')

    def type_text(self, f, it, opts=()):
        toks = f.t[it.start:it.end]
        txt = self.clean_type(f, it.start, it.end)
        if it.kind in ('const', 'static'):
            txt = re.sub(r'^(pub(\([^)]*\))?\s+)?(static|const)\b', 'pub const', txt)
            txt = re.sub(r":\s*&str\b", ": &'static str", txt)
            return txt
        if it.kind == 'type':
            return re.sub(r'^(pub(\([^)]*\))?\s+)?type\b', 'pub type', txt)
        txt = re.sub(r'^(pub(\([^)]*\))?\s+)?(struct|enum)\b', r'pub \3', txt)
        ds = set(cut_derives(it.attrs))
        unit_enum = it.kind == 'enum' and '(' not in txt and txt.count('{') == 1
        out = []
        reprs = [a for a in it.attrs if a.startswith('#[repr')]
        name = it.name
        if it.kind == 'enum' and unit_enum:
            out.append('#[derive(Clone, Copy, PartialEq, Eq)]')
            out += reprs
            out.append(txt)
            out.append(f'unsafe impl Structural for {name} {{}}')
            if 'ord' in opts:
                vals = [int(x) for x in re.findall(r'=\s*(-?\d+)\s*,', txt)]
                if 'PartialOrd' not in ds or (vals and vals != sorted(vals)):
                    raise Lost(f'{name}: no derived order following the discriminants')
                self.r.rule('derive(PartialOrd) of a unit enum given its specification (order of the discriminants)')
                out.append(f'''impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ Some(if (*self as int) < (*o as int) {{ core::cmp::Ordering::Less }} else if *self as int == *o as int {{ core::cmp::Ordering::Equal }} else {{ core::cmp::Ordering::Greater }}) }}
}}
impl PartialOrd for {name} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{name}) -> (r: Option<core::cmp::Ordering>) {{ unimplemented!() }} }}''')
        else:
            out.append(txt)
            if 'lex' in opts:
                fields = re.findall(r'\bpub (\w+):', txt.split('{', 1)[1])
                if it.kind != 'struct' or not {'PartialOrd', 'Ord'} <= ds:
                    raise Lost(f'{name}: no derived order')
                self.r.rule('derive(Ord) of a struct given its specification (lexicographic in the declared field order)')
                e = 'false'
                for x in reversed(fields):
                    e = f'(self.{x}.vx_lt(o.{x}) || self.{x} == o.{x} && {e})'
                out.append(f'impl VxOrd for {name} {{ open spec fn vx_lt(self, o: Self) -> bool {{ {e} }} }}')
            if 'Clone' in ds and 'noclone' not in opts and '<' not in txt.split('{')[0]:
                out.append(f'impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}')
        return '\n'.join(out)

    def clean_type(self, f, a, b):
        """Token text without attributes; fields made pub."""
        t, out, i = f.t, [], a
        body_open = None
        j = a
        if t[j].s == 'pub' and t[j + 1].s == '(':
            j = t[j + 1].m + 1
        while j < b and t[j].s not in ('{', '('):
            j += 1
        is_struct = any(t[x].s == 'struct' for x in range(a, min(j, b)))
        body = (j, t[j].m) if j < b and t[j].s in '{(' else None
        edits = []
        i = a
        while i < b:
            if t[i].s == '#' and t[i + 1].s == '[':
                e = t[i + 1].m
                edits.append((t[i].a, t[e].b, ''))
                i = e + 1
                continue
            if is_struct and body and body[0] < i < body[1]:
                # a field starts after the open bracket or a comma at depth 0
                prev = i - 1
                while t[prev].s == ']' and t[t[prev].m - 1].s == '#':
                    prev = t[prev].m - 2
                if prev == body[0] or (t[prev].s == ',' and self.depth0(f, body, prev)):
                    if t[i].s == 'pub':
                        if t[i + 1].s == '(':
                            edits.append((t[i + 1].a, t[t[i + 1].m].b, ''))
                    elif t[i].s not in (')', '}'):
                        edits.append((t[i].a, t[i].a, 'pub '))
            i += 1
        s = self.apply(f, a, b, edits)
        s = re.sub(r'::prost::alloc::(vec|string|boxed)::', '', s)
        s = re.sub(r'::core::option::', '', s)
        s = s.replace('::prost::alloc::', 'alloc::').replace('::std::collections::', '')
        return s

    def depth0(self, f, body, k):
        i = body[0] + 1
        d = 0
        while i < k:
            if f.t[i].s in ('(', '[', '{'):
                if f.t[i].m >= k:
                    return False
                i = f.t[i].m
            elif f.t[i].s == '<':
                d += 1
            elif f.t[i].s == '>':
                d -= 1
            elif f.t[i].s == '>>':
                d -= 2
            i += 1
        return d == 0

    def apply(self, f, a, b, edits):
        """Applies edits to the text of token range [a,b), dropping comments (newlines kept)."""
        lo, hi = f.t[a].a, f.t[b - 1].b
        for c in f.toks:
            if c.k == 'c' and lo <= c.a < hi:
                edits.append((c.a, c.b, '\n' * c.s.count('\n')))
        edits.sort(key=lambda e: (e[0], e[1]))  # stable: same-place edits keep their order
        out, p = [], lo
        for x, y, s in edits:
            if x < p:
                continue
            out.append(f.text[p:x]); out.append(s); p = y
        out.append(f.text[p:hi])
        return ''.join(out)

    def proto(self, names):
        """Emits the prost-generated types named, and every type they mention (transitively)."""
        f = self.file('@proto')
        top = {i.name: i for i in f.items if i.kind in ('struct', 'enum')}
        mods = {i.name: i for i in f.items if i.kind == 'mod'}
        stop = {n[1:] for n in names if n.startswith('!')}
        want, seen = [n for n in names if not n.startswith('!')], set()
        out = ['pub mod proto {', 'use super::*;']
        modsrc = {}
        while want:
            n = want.pop()
            if n in seen or n in stop:
                continue
            seen.add(n)
            if '::' in n:
                mname, tn = n.split('::')
                it = next(x for x in mods[mname].children if x.name == tn and x.kind in ('struct', 'enum'))
            else:
                if n not in top:
                    raise Lost(f'proto type {n} not found')
                it = top[n]; mname = None
            txt = self.type_text(f, it)
            raw = f.src(it.start, it.end)
            # referenced types
            body = re.sub(r'#\[[^\]]*\]', '', raw)
            for m in re.finditer(r'(?:super::)?\b(?:(\w+)::)?([A-Z]\w*)', body):
                q, tn = m.groups()
                if q and q in mods:
                    want.append(f'{q}::{tn}')
                elif mname and not q and any(x.name == tn for x in mods[mname].children) and tn != it.name:
                    want.append(f'{mname}::{tn}')
                elif tn in top:
                    want.append(tn)
            for m in re.finditer(r'enumeration\s*=\s*"([\w:]+)"', raw):
                e = m.group(1)
                if '::' in e:
                    want.append(e)
                elif mname and any(x.name == e for x in mods[mname].children):
                    want.append(f'{mname}::{e}')
                else:
                    want.append(e)
            for st in stop:
                txt = re.sub(r'^.*\b' + st + r'\b.*\n', '', txt, flags=re.M)
            block = [txt]
            if it.kind == 'enum' and '(' not in self.clean_type(f, it.start, it.end):
                block.append(self.prost_enum(it.name, txt))
            if it.kind == 'struct':
                acc = []
                for m in re.finditer(r'#\[prost\([^\]]*enumeration\s*=\s*"([\w:]+)"([^\]]*)\)\]\s*pub\s+((?:r#)?\w+)\s*:\s*([^,]*?),', raw):
                    e, rest, fld, ty = m.groups()
                    ty = ty.strip()
                    if ty == 'i32' and 'repeated' not in rest:
                        acc.append(f'    pub fn {fld}(&self) -> (r: {e}) ensures r == {e}::spec_or_default(self.{fld}) '
                                   f'{{ match {e}::try_from(self.{fld}) {{ Ok(v) => v, Err(_vx) => {e}::spec_default_exec() }} }}')
                    elif 'Option<i32>' in ty:
                        acc.append(f'    pub fn {fld}(&self) -> (r: {e}) ensures r == (match self.{fld} {{ Some(v) => {e}::spec_or_default(v), None => {e}::default_spec() }}) '
                                   f'{{ match self.{fld} {{ Some(v) => match {e}::try_from(v) {{ Ok(v) => v, Err(_vx) => {e}::spec_default_exec() }}, None => {e}::spec_default_exec() }} }}')
                if acc:
                    block.append(f'impl {it.name} {{\n' + '\n'.join(acc) + '\n}')
            if mname:
                modsrc.setdefault(mname, []).append('\n'.join(block))
            else:
                out.append('\n'.join(block))
            self.r.types.append('proto::' + n)
        for mname, bl in modsrc.items():
            out.append(f'pub mod {mname} {{\nuse super::*;\n' + '\n'.join(bl) + '\n}')
        out.append('} // mod proto')
        self.r.rule('prost derive output (enum TryFrom<i32>, enum field accessors, Clone) regenerated from the field attributes')
        self.emit('\n'.join(out))

    def prost_enum(self, name, txt):
        vs = re.findall(r'^\s*(\w+)\s*=\s*(-?\d+),', txt, re.M)
        first = vs[0][0] if not any(v == '0' for _, v in vs) else next(n for n, v in vs if v == '0')
        arms = ' '.join(f'{v} => Ok({name}::{n}),' for n, v in vs)
        sp = ' '.join(f'if v == {v} {{ Ok({name}::{n}) }} else' for n, v in vs)
        return f'''impl {name} {{
    pub open spec fn of(v: i32) -> Result<{name}, UnknownEnumValue> {{ {sp} {{ Err(UnknownEnumValue(v)) }} }}
    pub open spec fn spec_or_default(v: i32) -> {name} {{ match {name}::of(v) {{ Ok(x) => x, Err(_) => {name}::{first} }} }}
    pub open spec fn default_spec() -> {name} {{ {name}::{first} }}
    pub uninterp spec fn name(self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str_name(&self) -> (r: &'static str) ensures r@ == self.name() {{ unimplemented!() }}
    pub fn spec_default_exec() -> (r: {name}) ensures r == {name}::default_spec() {{ {name}::{first} }}
}}
impl vstd::std_specs::convert::TryFromSpecImpl<i32> for {name} {{ open spec fn obeys_try_from_spec() -> bool {{ true }} open spec fn try_from_spec(v: i32) -> Result<{name}, UnknownEnumValue> {{ {name}::of(v) }} }}
impl TryFrom<i32> for {name} {{
    type Error = UnknownEnumValue;
    fn try_from(v: i32) -> (r: Result<{name}, UnknownEnumValue>) ensures r == {name}::of(v) {{ match v {{ {arms} _ => Err(UnknownEnumValue(v)) }} }}
}}'''

    # ---- functions ----------------------------------------------------------------------------
    def fn(self, arg, block):
        m = re.match(r'(\S+?\.rs)::(.+?)(?:\s+as\s+(\w+))?(?:\s+->\s+(\w+))?(\s+external)?(\s+spinoff)?$', arg)
        rel, path, newname, ret, ext, spin = m.groups()
        f = self.file(rel)
        it = f.find(path.strip(), {'fn'})
        contract, subs, cur = [], [], None
        attrs = []
        rws = []
        nopub = False
        fmt = False
        for l in block:
            d = re.match(r'\s*//@(\w+)\s*(.*)$', l)
            if d:
                k, a = d.group(1), d.group(2).strip()
                if k == 'nopub':
                    nopub = True; cur = None; continue
                if k == 'attr':
                    attrs.append(a); cur = None; continue
                if k == 'rwcall':
                    x, y = re.match(r'`(.*)`\s*=>\s*`(.*)`$', a).groups()
                    rws.append((x, y, True)); continue
                if k == 'rw':
                    x, y = re.match(r'`(.*)`\s*=>\s*`(.*)`$', a).groups()
                    rws.append((x, y)); continue
                if k == 'format':
                    fmt = True; continue
                cur = (k, a, [])
                subs.append(cur)
            elif cur is None:
                contract.append(l)
            else:
                cur[2].append(l)
        line = f.text.count('\n', 0, f.t[it.start].a) + 1
        fn = Fn(path.strip(), rel, line, '')
        fn.contract = '\n'.join(contract)
        fn.fmt = fmt
        if (rel, path.strip()) in self.disabled:
            ext = True
            fn.disabled = True
        fn.external = bool(ext)
        fn.emitted = newname or path.strip().split('::')[-1]
        text = self.fn_text(f, it, fn, newname, ret, contract, subs, rws, ext)
        if nopub:
            text = re.sub(r'^pub ', '', text)
        if attrs and not ext:
            text = '\n'.join(attrs) + '\n' + text
        if ext:
            text = '#[verifier::external_body]\n' + text
        fn.lo = len(self.r.lines) + 1
        self.emit(text)
        fn.hi = len(self.r.lines)
        self.r.fns.append(fn)

    def format_edits(self, t, st, i, e, edits):
        lit = t[i + 3]
        if not lit.s.startswith('"') or '\\' in lit.s:
            raise Lost(f'format! template {lit.s[:40]} is not a plain text')
        parts = []
        for x in re.split(r'(\{\w*\})', lit.s[1:-1]):
            if re.fullmatch(r'\{\w*\}', x):
                parts.append(('arg', x[1:-1]))
            elif '{' in x or '}' in x:
                raise Lost(f'format! template {lit.s[:40]} has formatting options')
            elif x:
                parts.append(('lit', x))
        # the positional arguments, in order
        args, a = [], i + 4
        while a < e:
            if t[a].s == ',':
                a += 1
                continue
            b = a
            while b < e and t[b].s != ',':
                b = t[b].m + 1 if t[b].s in ('(', '[', '{') else b + 1
            args.append((a, b - 1))
            a = b
        if len(args) != sum(1 for k, x in parts if k == 'arg' and not x):
            raise Lost('format! arguments do not match its template')
        out = 'vx_cat(' * (len(parts) - 1)
        pos, args = t[st].a, iter(args)
        for n, (k, x) in enumerate(parts):
            end = ')' if n else ''
            sep = ', ' if n else ''
            if k == 'lit':
                out += f'{sep}vx_lit("{x}"){end}'
            elif x:
                out += f'{sep}({x}).vx_disp(){end}'
            else:
                a, b = next(args)
                edits.append((pos, t[a].a, out + sep + '('))
                pos, out = t[b].b, ').vx_disp()' + end
        edits.append((pos, t[e].b, out))

    def json_edits(self, t, st, i, e, edits):
        """json!(..): objects, arrays and values spelled out as calls (vx_obj().put(..), vx_arr().push(..), vx_js(&..))."""
        def value(a, b, pre, post):
            # tokens a..b (inclusive); pre/post: (start, end) of the text before and after, and what to put there
            (p0, p1, ptxt), (q0, q1, qtxt) = pre, post
            s = t[a].s
            if s == '{' and t[a].m == b:
                edits.append((p0, p1, ptxt)); members(a + 1, b, True); edits.append((t[a].a, t[a].b, 'vx_obj()')); edits.append((t[b].a, t[b].b, '')); edits.append((q0, q1, qtxt))
            elif s == '[' and t[a].m == b:
                edits.append((p0, p1, ptxt)); members(a + 1, b, False); edits.append((t[a].a, t[a].b, 'vx_arr()')); edits.append((t[b].a, t[b].b, '')); edits.append((q0, q1, qtxt))
            elif a == b and s == 'null':
                edits.append((p0, p1, ptxt)); edits.append((t[a].a, t[a].b, 'vx_null()')); edits.append((q0, q1, qtxt))
            else:
                num = a == b and re.fullmatch(r'[0-9][0-9_]*', s)
                edits.append((p0, p1, ptxt + 'vx_js(&(')); edits.append((q0, q1, ('i64' if num else '') + '))' + qtxt))

        def stop(a, e):
            while a < e and t[a].s != ',':
                a = t[a].m + 1 if t[a].s in ('(', '[', '{') else a + 1
            return a

        def members(a, e, obj):
            while a < e:
                z = stop(a, e)
                tail = (t[z].a, t[z].b) if z < e else (t[z].a, t[z].a)
                if obj:
                    if not t[a].s.startswith('"') or t[a + 1].s != ':':
                        raise Lost('json! member name is not a plain text')
                    edits.append((t[a].a, t[a].b, f'.put({t[a].s}'))
                    value(a + 2, z - 1, (t[a + 1].a, t[a + 1].b, ', '), (*tail, ')'))
                else:
                    value(a, z - 1, (t[a].a, t[a].a, '.push('), (*tail, ')'))
                a = z + 1
        value(i + 3, e - 1, (t[st].a, t[i + 2].b, '('), (t[e].a, t[e].b, ')'))
        self.r.rule('json!(..) spelled out as calls building the same value')

    def fn_text(self, f, it, fn, newname, ret, contract, subs, rws, ext):
        t = f.t
        edits = []
        # signature
        i = it.start
        if t[i].s == 'pub':
            e = t[i + 1].m if t[i + 1].s == '(' else i
            edits.append((t[i].a, t[e].b, ''))
            i = e + 1
        k = i
        while t[k].s != 'fn':
            k += 1
        quals = [t[x].s for x in range(i, k)]
        if 'async' in quals:
            x = i + quals.index('async')
            edits.append((t[x].a, t[x].b, ''))
            self.r.rule('async keyword dropped')
        if 'const' in quals:
            x = i + quals.index('const')
            edits.append((t[x].a, t[x].b, ''))
        if newname:
            edits.append((t[k + 1].a, t[k + 1].b, newname))
        bo, bc = it.body
        # return type
        j, arrow, where = k + 2, None, None
        while j < bo:
            if t[j].s in ('(', '['):
                j = t[j].m + 1
                continue
            if t[j].s == '->' and arrow is None:
                arrow = j
            if t[j].s == 'where' and where is None:
                where = j
            j += 1
        tend = where if where else bo
        if ret and arrow:
            edits.append((t[arrow + 1].a, t[arrow + 1].a, f'({ret}: '))
            edits.append((t[tend - 1].b, t[tend - 1].b, ')'))
        edits.append((t[bo].a, t[bo].a, '\n' + '\n'.join(contract) + '\n'))
        if ext:
            edits.append((t[bo].b, t[bc].a, ' unimplemented!() '))
            s = 'pub ' + self.apply(f, it.start, it.end, edits)
            if not fn.disabled:
                self.r.trusted.append(f'{fn.file}::{fn.name} (body not verified: contract trusted)')
            return s
        if self.vacuity:
            edits.append((t[bo].b, t[bo].b, '\nassert(false);\n'))
        # loops
        loops = []
        i = bo + 1
        loops = [x for x in range(bo + 1, bc) if (t[x].s in ('while', 'loop') or (t[x].s == 'for' and t[x + 1].s != '<'))
                 and not (t[x].s == 'for' and t[x - 1].s in ('impl',))]

        def loop_brace(x):
            y = x + 1
            while t[y].s != '{':
                y = t[y].m + 1 if t[y].s in ('(', '[') else y + 1
            return y
        # attributes and comments in the body, logging, format!
        i = bo + 1
        while i < bc:
            s = t[i].s
            if s == '#' and t[i + 1].s == '[':
                edits.append((t[i].a, t[t[i + 1].m].b, ''))
                i = t[i + 1].m + 1
                continue
            if t[i].k == 'id' and t[i + 1].s == '!' and t[i + 2].s in ('(', '[', '{'):
                e = t[i + 2].m
                st = i
                while t[st - 1].s == '::' and t[st - 2].k == 'id':
                    st -= 2
                if s in LOG:
                    if t[e + 1].s == ';':
                        edits.append((t[st].a, t[e + 1].b, ''))
                        i = e + 2
                    else:
                        edits.append((t[st].a, t[e].b, '()'))
                        i = e + 1
                    self.r.rule('logging macro dropped')
                    continue
                if s == 'format' and any([q.s for q in tokenize(x)] == [q.s for q in t[i:e + 1]] for x, y, *_ in rws):
                    i = e + 1
                    continue
                if s == 'format' and fn.fmt:
                    self.format_edits(t, st, i, e, edits)
                    self.r.rule('format!(..) of `{}` and `{NAME}` places spelled out as a concatenation')
                    i += 3
                    continue
                if s == 'json':
                    self.json_edits(t, st, i, e, edits)
                    i += 3
                    continue
                if s == 'format':
                    edits.append((t[st].a, t[e].b, 'vx_format()'))
                    self.r.rule('format!(..) replaced by an arbitrary String')
                    i = e + 1
                    continue
                if s == 'assert':
                    z = i + 3
                    while z < e and t[z].s != ',':
                        z = t[z].m + 1 if t[z].s in ('(', '[', '{') else z + 1
                    edits.append((t[st].a, t[i + 2].b, 'if !('))
                    edits.append((t[z - 1].b, t[e].b, ') { vx_unreachable(); }'))
                    self.r.rule('assert! replaced by a conditional call whose precondition is false')
                    i += 3
                    continue
                if s in ('panic', 'unreachable', 'todo', 'unimplemented'):
                    edits.append((t[st].a, t[e].b, 'vx_unreachable()'))
                    self.r.rule('panic!/todo! replaced by a call whose precondition is false')
                    i = e + 1
                    continue
            if s == 'await' and t[i - 1].s == '.':
                edits.append((t[i - 1].a, t[i].b, ''))
                self.r.rule('.await dropped (the body is checked as sequential code)')
            if s == 'to_be_bytes' and t[i - 1].s == '.':
                edits.append((t[i].a, t[i].b, 'vx_to_be_bytes'))
                self.r.rule('to_be_bytes renamed to a trusted equivalent')
            if s == 'from_be_bytes' and t[i - 1].s == '::':
                edits.append((t[i - 2].a, t[i].b, f'vx_{t[i - 2].s}_from_be_bytes'))
                self.r.rule('from_be_bytes renamed to a trusted equivalent')
            if s == 'extend' and t[i - 1].s == '.' and t[i + 1].s == '(' and t[i - 2].k == 'id' and t[i - 3].s not in ('.', '::'):
                edits.append((t[i - 2].a, t[i + 1].b, f'vx_extend(&mut {t[i - 2].s}, '))
                self.r.rule('Vec<u8>::extend turned into a trusted equivalent')
            if s == 'copy_from_slice' and t[i - 1].s == '.' and t[i + 1].s == '(':
                if t[i - 2].k == 'id' and t[i - 3].s not in ('.', '::'):
                    edits.append((t[i - 2].a, t[i + 1].b, f'vx_copy_all(&mut {t[i - 2].s}, '))
                    self.r.rule('copy_from_slice turned into a trusted equivalent')
                elif t[i - 2].s == ']' and t[t[i - 2].m - 1].k == 'id' and t[t[i - 2].m - 2].s not in ('.', '::'):
                    o = t[i - 2].m
                    dd = [q for q in range(o + 1, i - 2) if t[q].s == '..']
                    if len(dd) == 1:
                        lo = f.text[t[o].b:t[dd[0]].a].strip() or '0'
                        hi = f.text[t[dd[0]].b:t[i - 2].a].strip()
                        edits.append((t[o - 1].a, t[i + 1].b, f'vx_copy(&mut {t[o - 1].s}, {lo}, {hi}, ' if hi else f'vx_copy_from(&mut {t[o - 1].s}, {lo}, '))
                        self.r.rule('copy_from_slice turned into a trusted equivalent')
            if s in ('std', 'core') and t[i + 1].s == '::' and t[i + 2].s in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64') and t[i + 3].s == '::' and t[i + 4].s in ('MIN', 'MAX'):
                edits.append((t[i].a, t[i + 2].a, ''))
                self.r.rule('legacy std::uN::MAX path shortened to uN::MAX')
            if s == '|' and t[i + 1].s == '_' and t[i + 2].s == '|':
                edits.append((t[i + 1].a, t[i + 1].b, '_vx'))
                self.r.rule('closure parameter _ given a name')
                i += 3
                continue
            i += 1
        for x in range(bo + 1, bc):
            if t[x].s == 'match' and t[x - 1].s != '.':
                self.or_guards(f, x, edits)
        # for (i, p) in E.iter().enumerate()  =>  for i in 0..E.len() { let p = &E[i]; ..  (also `in &E`, `in E.iter()`)
        named = {int(q[1].split()[0]) for q in subs if q[0] == 'loop' and len(q[1].split()) > 1}
        for ln, x in enumerate(loops):
            if t[x].s != 'for' or ln in named:
                continue
            if any(z and z[0] == 'for' and z == [q.s for q in t[x:x + len(z)]] for z in ([q.s for q in tokenize(w[0])] for w in rws)):
                continue
            y = loop_brace(x)
            k = x + 1
            while k < y and t[k].s != 'in':
                k = t[k].m + 1 if t[k].s in ('(', '[') else k + 1
            tail = [t[q].s for q in range(k + 1, y)]
            idx = f'vx_i{ln}'
            if tail[-8:] == ['.', 'iter', '(', ')', '.', 'enumerate', '(', ')'] and t[x + 1].s == '(' and t[x + 2].k == 'id' and t[x + 3].s == ',':
                ea, eb, pa, pb, idx = k + 1, y - 9, x + 4, t[x + 1].m - 1, t[x + 2].s
            elif tail[-4:] == ['.', 'iter', '(', ')']:
                ea, eb, pa, pb = k + 1, y - 5, x + 1, k - 1
            elif tail[:1] == ['&'] and tail[1:2] != ['mut'] and '(' not in tail and '..' not in tail:
                ea, eb, pa, pb = k + 2, y - 1, x + 1, k - 1
            elif len(tail) == 1 and t[x + 1].s == '&':
                ea, eb, pa, pb = k + 1, y - 1, x + 1, k - 1
            else:
                continue
            ex = f.text[t[ea].a:t[eb].b]
            if any(q in ex for q in ('.keys', '.values', '..')):
                continue
            pat = f.text[t[pa].a:t[pb].b]
            edits.append((t[x + 1].a, t[y - 1].b, f'{idx} in 0..{ex}.len()'))
            if pat.startswith('&'):
                edits.append((t[y].b, t[y].b, f' let {pat[1:]} = {ex}[{idx}];'))
            elif re.match(r'\(\s*\w+\s*,', pat):
                names = [q.strip() for q in pat[1:-1].split(',') if q.strip()]
                edits.append((t[y].b, t[y].b, ''.join(f' let {q} = &{ex}[{idx}].{n};' for n, q in enumerate(names))))
            else:
                edits.append((t[y].b, t[y].b, f' let {pat} = &{ex}[{idx}];'))
            self.r.rule('for over the elements of a vector turned into an index loop')
        need_loops = set()
        for kd, a, body in subs:
            txt = '\n' + '\n'.join(body) + '\n'
            if kd == 'start':
                edits.append((t[bo].b, t[bo].b, txt))
            elif kd in ('loop', 'loopstart', 'loopend', 'loopafter'):
                p = a.split()
                n = int(p[0])
                need_loops.add(n)
                if n >= len(loops):
                    raise Lost(f'{fn.file}::{fn.name}: loop {n} not found')
                x = loops[n]
                y = loop_brace(x)
                if kd == 'loop':
                    if len(p) > 1:
                        if t[x].s != 'for':
                            raise Lost(f'{fn.file}::{fn.name}: loop {n} is no for loop')
                        z = x + 1
                        while t[z].s != 'in':
                            z = t[z].m + 1 if t[z].s in ('(', '[') else z + 1
                        edits.append((t[z].b, t[z].b, f' {p[1]}:'))
                    edits.append((t[y].a, t[y].a, txt))
                elif kd == 'loopstart':
                    edits.append((t[y].b, t[y].b, txt))
                elif kd == 'loopend':
                    edits.append((t[t[y].m].a, t[t[y].m].a, txt))
                else:
                    edits.append((t[t[y].m].b, t[t[y].m].b, txt))
            elif kd == 'loops':
                if len(loops) != int(a):
                    fn.structural.append(f'{len(loops)} loops, the contracts were written for {a}')
            elif kd in ('before', 'after'):
                nth, pat = 0, a
                m = re.match(r'(\d+)\s+`(.*)`$', a)
                if m:
                    nth, pat = int(m.group(1)), m.group(2)
                else:
                    pat = a.strip('`')
                pt = [q.s for q in tokenize(pat)]
                hits = [x for x in range(bo, bc) if [q.s for q in t[x:x + len(pt)]] == pt]
                if len(hits) <= nth:
                    raise Lost(f'{fn.file}::{fn.name}: anchor `{pat}` not found')
                x = hits[nth]
                if kd == 'before':
                    edits.append((t[x].a, t[x].a, txt))
                else:
                    e = x + len(pt) - 1
                    edits.append((t[e].b, t[e].b, txt))
            elif kd == 'closure':
                # //@closure N SIG : the N-th closure |..| gets the typed header SIG
                n, sig = re.match(r'(\d+)\s*(.*)$', a).groups()
                sig = sig + ' ' + ' '.join(b.strip() for b in body)
                cl = self.closures(f, bo, bc)
                if int(n) >= len(cl):
                    raise Lost(f'{fn.file}::{fn.name}: closure {n} not found')
                o, c, be = cl[int(n)]
                edits.append((t[o].a, t[c].b, sig))
                # a parameter that is a pattern is bound by name first and taken apart inside
                pat = f.text[t[o].b:t[c].a].strip()
                rhs = 'vx_p'
                if re.fullmatch(r'&\s*\w+', pat):
                    pat, rhs = pat[1:].strip(), '*vx_p'
                refs = re.findall(r'&\s*(\w+)', pat)
                if pat.startswith('(') and refs:
                    pat = re.sub(r'&\s*(\w+)', r'\1', pat)
                    rhs += '; ' + '; '.join(f'let {x} = *{x}' for x in refs)
                pre = f'let {pat} = {rhs}; ' if re.search(r'\bvx_p\b', sig) and o != c else ''
                if t[c + 1].s == '{' and pre:
                    edits.append((t[c + 1].b, t[c + 1].b, ' ' + pre))
                if t[c + 1].s != '{':
                    edits.append((t[c + 1].a, t[c + 1].a, ' {' + pre))
                    edits.append((t[be - 1].b, t[be - 1].b, '}'))
                self.r.rule('closure given parameter types and a contract')
            else:
                raise SystemExit(f'unknown sub-directive {kd}')
        # un-contracted local helpers make a failed obligation undecided rather than a violation
        local = {x.name for x in f.items if x.kind == 'fn'}
        for im in f.items:
            if im.kind == 'impl':
                local |= {x.name for x in im.children if x.kind == 'fn'}
        known = self.contracted.get(fn.file, set())
        dropped = set()
        for x, y, *call in rws:
            if call:
                pt = [q.s for q in tokenize(x)]
                for z in range(it.start, bc):
                    if [q.s for q in t[z:z + len(pt)]] == pt:
                        dropped.update(range(z, t[z + len(pt) - 1].m))
        for x in range(bo + 1, bc):
            if x in dropped:
                continue
            if t[x].k == 'id' and t[x + 1].s == '(' and t[x].s in local and t[x].s not in known \
                    and t[x].s not in KW and t[x - 1].s != '!':
                if t[x - 1].s == '.' and not (t[x - 2].s == 'self'):
                    continue
                if t[x - 1].s == '::' and t[x - 2].s not in ('Self',) and t[x - 2].s not in \
                        {re.sub(r'\w+::', '', im.header).split(' for ')[-1] for im in f.items if im.kind == 'impl'}:
                    continue
                fn.structural.append(f'calls {t[x].s}, which has no contract')
        for x, y, *call in rws:
            pt = [q.s for q in tokenize(x)]
            z, hit = it.start, 0
            while z < bc:
                if [q.s for q in t[z:z + len(pt)]] == pt:
                    # rwcall: the pattern ends with `(` and the whole call goes, arguments included
                    last = t[z + len(pt) - 1].m if call else z + len(pt) - 1
                    # the rewrite wins over automatic edits inside it; insertions at its ends stay
                    edits = [e for e in edits if not (t[z].a <= e[0] and e[1] <= t[last].b)
                             or e[0] == e[1] and e[0] in (t[z].a, t[last].b)]
                    edits.append((t[z].a, t[last].b, y))
                    hit += 1
                    z = last + 1
                else:
                    z += 1
            if hit:
                self.r.rule(f'rewrite `{x}` => `{y}`', hit)
        s = self.apply(f, it.start, it.end, edits)
        return 'pub ' + s.lstrip()

    def or_guards(self, f, x, edits):
        """`A | B if g => ..` (no bindings) becomes `vx_t if matches!(vx_t, A | B) && (g) => ..`."""
        t = f.t
        y = x + 1
        while t[y].s != '{':
            y = t[y].m + 1 if t[y].s in ('(', '[') else y + 1
        i, end = y + 1, t[y].m
        while i < end:
            a, g, ors = i, None, False
            while i < end and t[i].s != '=>':
                if t[i].s == '|' and g is None:
                    ors = True
                if t[i].s == 'if' and g is None:
                    g = i
                i = t[i].m + 1 if t[i].s in ('(', '[', '{') else i + 1
            if i >= end:
                break
            if g is not None and ors and all(t[k].k != 'id' or t[k].s[0].isupper() or t[k + 1].s == '::' for k in range(a, g)):
                pat = f.text[t[a].a:t[g - 1].b]
                edits.append((t[a].a, t[g].b, f'vx_t if matches!(vx_t, {pat}) && ('))
                edits.append((t[i - 1].b, t[i - 1].b, ')'))
                self.r.rule('or-pattern with a guard moved into the guard')
            i += 1
            if t[i].s == '{':
                i = t[i].m + 1
                if i < end and t[i].s == ',':
                    i += 1
            else:
                while i < end and t[i].s != ',':
                    i = t[i].m + 1 if t[i].s in ('(', '[', '{') else i + 1
                i += 1

    def closures(self, f, bo, bc):
        t, out = f.t, []
        for x in range(bo + 1, bc):
            if t[x].s == '||' and t[x - 1].s in ('(', ',', '=', 'move', '{', ';'):
                out.append((x, x))
            elif t[x].s == '|' and t[x - 1].s in ('(', ',', '=', 'move', '{', ';'):
                y = x + 1
                while t[y].s != '|':
                    y = t[y].m + 1 if t[y].s in ('(', '[') else y + 1
                out.append((x, y))
        res = []
        for o, c in out:
            e = c + 1
            if t[e].s == '{' :
                e = t[e].m + 1
            else:
                while t[e].s not in (')', ',', ';', '}', ']'):
                    e = t[e].m + 1 if t[e].s in ('(', '[', '{') else e + 1
            res.append((o, c, e))
        return res
