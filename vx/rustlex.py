"""A small Rust lexer and item/loop/closure locator used by the extractor.

It never interprets code: it only finds the byte ranges of items, signatures,
bodies, loops and closures so that contracts can be inserted around text that
stays exactly as it is in /repo.
"""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>(?:b|c)?r(?P<h>\#*)")
 |(?P<str>(?:b|c)?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<p>::|->|=>|\.\.=|\.\.|&&|\|\||[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}])
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 't', 's', 'e')

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f'{self.k}:{self.t!r}'


def lex(src):
    out = []
    i = 0
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise SyntaxError('lex error at %d: %r' % (i, src[i:i + 30]))
        k = m.lastgroup
        if m.group('ws') is not None or m.group('lc') is not None:
            i = m.end()
            continue
        if m.group('bc') is not None:
            d = 1
            j = m.end()
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group('rstr') is not None:
            close = '"' + m.group('h')
            j = src.index(close, m.end()) + len(close)
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        for kk in ('str', 'chr', 'life', 'num', 'id', 'p'):
            if m.group(kk) is not None:
                t = m.group(kk)
                # `1..n` : number regex never eats '..' because of \d after '.'
                out.append(Tok(kk, t, i, m.end()))
                break
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(OPEN.values())


def match_table(toks):
    st = []
    mt = {}
    for i, t in enumerate(toks):
        if t.k == 'p':
            if t.t in OPEN:
                st.append(i)
            elif t.t in CLOSE:
                j = st.pop()
                mt[j] = i
                mt[i] = j
    return mt


def norm(toks):
    """Canonical text of a token list (single spaces only where needed)."""
    out = ''
    prev = None
    for t in toks:
        if prev is not None and prev.k in ('id', 'num', 'life', 'str', 'chr') and t.k in ('id', 'num', 'life', 'str', 'chr'):
            out += ' '
        out += t.t
        prev = t
    return out


class Item:
    def __init__(self, **kw):
        self.attrs = []       # list of (start_off, end_off, normtext)
        self.children = []
        self.__dict__.update(kw)

    def __repr__(self):
        return f'<{self.kind} {self.name}>'


ITEM_KW = {'fn', 'struct', 'enum', 'impl', 'mod', 'use', 'const', 'static', 'trait', 'type', 'macro_rules', 'extern', 'union'}
QUAL = {'pub', 'unsafe', 'async', 'const', 'extern', 'default', 'crate'}


def angle_skip(toks, mt, i):
    """toks[i] is '<': return index just past the matching '>'."""
    d = 0
    while True:
        t = toks[i].t
        if t == '<':
            d += 1
        elif t == '>':
            d -= 1
            if d == 0:
                return i + 1
        elif t in OPEN and toks[i].k == 'p':
            i = mt[i]
        i += 1


class File:
    def __init__(self, src):
        self.src = src
        self.toks = lex(src)
        self.mt = match_table(self.toks)
        self.items = self.parse_items(0, len(self.toks))

    def parse_items(self, i, end):
        T, mt = self.toks, self.mt
        items = []
        while i < end:
            start = i
            attrs = []
            # attributes
            while i < end and T[i].t == '#':
                j = i + 1
                if T[j].t == '!':
                    j += 1
                close = mt[j]
                attrs.append((T[i].s, T[close].e, norm(T[i:close + 1])))
                i = close + 1
            if i >= end:
                break
            vis_start = i
            # visibility
            if T[i].t == 'pub':
                i += 1
                if i < end and T[i].t == '(':
                    i = mt[i] + 1
            # qualifiers
            k = i
            while T[k].t in ('unsafe', 'async', 'default') or (T[k].t == 'const' and T[k + 1].t in ('fn', 'unsafe', 'async', 'extern')) or (T[k].t == 'extern' and T[k + 1].k == 'str' and T[k + 2].t == 'fn'):
                k += 2 if (T[k].t == 'extern') else 1
            kw = T[k].t
            it = Item(kind=kw, name='', start=T[start].s, vis_start=T[vis_start].s, quals=[t.t for t in T[i:k]], attrs=attrs, tok_start=start)
            if kw == 'fn':
                it.name = T[k + 1].t
                j = k + 2
                if T[j].t == '<':
                    j = angle_skip(T, mt, j)
                it.params = (T[j].s, T[mt[j]].e)
                it.params_tok = (j, mt[j])
                j = mt[j] + 1
                it.ret = None
                ret_s = None
                if T[j].t == '->':
                    ret_s = j + 1
                    j += 1
                # up to where / { / ;
                while not (T[j].t in ('{', ';', 'where')):
                    if T[j].t in OPEN and T[j].k == 'p':
                        j = mt[j]
                    j += 1
                if ret_s is not None:
                    it.ret = (T[ret_s].s, T[j - 1].e)
                it.sig_end = T[j - 1].e
                it.where = None
                if T[j].t == 'where':
                    w = j
                    while not (T[j].t in ('{', ';')):
                        if T[j].t in OPEN and T[j].k == 'p':
                            j = mt[j]
                        j += 1
                    it.where = (T[w].s, T[j - 1].e)
                    it.sig_end = T[j - 1].e
                it.sig_start = T[k].s
                if T[j].t == '{':
                    it.body = (T[j].s, T[mt[j]].e)
                    it.body_tok = (j, mt[j])
                    it.end = T[mt[j]].e
                    i = mt[j] + 1
                else:
                    it.body = None
                    it.end = T[j].e
                    i = j + 1
            elif kw in ('impl', 'trait'):
                j = k + 1
                while T[j].t != '{':
                    if T[j].t in OPEN and T[j].k == 'p':
                        j = mt[j]
                    j += 1
                it.header = (T[k].s, T[j - 1].e)
                it.name = impl_name(T[k:j], T) if kw == 'impl' else T[k + 1].t
                it.is_trait_impl = kw == 'impl' and ' as ' in it.name
                it.children = self.parse_items(j + 1, mt[j])
                it.body = (T[j].s, T[mt[j]].e)
                it.end = T[mt[j]].e
                i = mt[j] + 1
            elif kw == 'mod':
                it.name = T[k + 1].t
                j = k + 2
                if T[j].t == '{':
                    it.children = self.parse_items(j + 1, mt[j])
                    it.body = (T[j].s, T[mt[j]].e)
                    it.end = T[mt[j]].e
                    i = mt[j] + 1
                else:
                    it.body = None
                    it.end = T[j].e
                    i = j + 1
            elif kw == 'macro_rules':
                it.name = T[k + 2].t
                j = k + 3
                it.end = T[mt[j]].e
                i = mt[j] + 1
                if i < end and T[i].t == ';':
                    it.end = T[i].e
                    i += 1
            elif kw in ('struct', 'enum', 'union'):
                it.name = T[k + 1].t
                j = k + 2
                while T[j].t not in ('{', ';', '('):
                    j += 1
                if T[j].t == '(':
                    while T[j].t != ';':
                        if T[j].t in OPEN and T[j].k == 'p':
                            j = mt[j]
                        j += 1
                    it.end = T[j].e
                    i = j + 1
                elif T[j].t == '{':
                    it.end = T[mt[j]].e
                    i = mt[j] + 1
                else:
                    it.end = T[j].e
                    i = j + 1
            elif kw in ('use', 'const', 'static', 'type', 'extern'):
                j = k
                while T[j].t != ';':
                    if T[j].t in OPEN and T[j].k == 'p':
                        j = mt[j]
                    j += 1
                it.name = T[k + 1].t if kw != 'use' else norm(T[k + 1:j])
                it.end = T[j].e
                i = j + 1
            else:
                # macro invocation  path!(...) ;? / path!{...}
                j = k
                while T[j].t not in OPEN:
                    j += 1
                it.kind = 'macro'
                it.name = norm(T[k:j]).rstrip('!')
                it.args = (T[j].s, T[mt[j]].e)
                it.args_tok = (j, mt[j])
                i = mt[j] + 1
                it.end = T[mt[j]].e
                if i < end and T[i].t == ';':
                    it.end = T[i].e
                    i += 1
            it.tok_end = i
            items.append(it)
        return items


def strip_generics_lifetimes(toks):
    """drop lifetimes (and the comma that follows) from a token list"""
    out = []
    skip = False
    for n, t in enumerate(toks):
        if t.k == 'life':
            skip = True
            continue
        if skip and t.t == ',':
            skip = False
            continue
        skip = False
        out.append(t)
    # remove '<>' pairs
    res = []
    for t in out:
        if t.t == '>' and res and res[-1].t == '<':
            res.pop()
            continue
        res.append(t)
    return res


def impl_name(toks, T):
    """'impl<..> Trait<X> for Type<Y> where ..' -> 'Type as Trait<X>' / 'Type'."""
    i = 1
    if toks[i].t == '<':
        d = 0
        while True:
            if toks[i].t == '<':
                d += 1
            elif toks[i].t == '>':
                d -= 1
                if d == 0:
                    i += 1
                    break
            i += 1
    rest = toks[i:]
    d = 0
    fr = None
    wh = len(rest)
    for n, t in enumerate(rest):
        if t.t in ('<', '(', '['):
            d += 1
        elif t.t in ('>', ')', ']'):
            d -= 1
        elif t.t == 'for' and d == 0:
            fr = n
        elif t.t == 'where' and d == 0:
            wh = n
            break
    if fr is None:
        return norm(strip_generics_lifetimes(rest[:wh]))
    return norm(strip_generics_lifetimes(rest[fr + 1:wh])) + ' as ' + norm(strip_generics_lifetimes(rest[:fr]))


def find_loops(f, body_tok):
    """Loops in token range (a,b) in source order: (kind, kw_tok, brace_tok)."""
    T, mt = f.toks, f.mt
    a, b = body_tok
    out = []
    i = a + 1
    while i < b:
        t = T[i]
        if t.k == 'id' and t.t in ('while', 'loop', 'for'):
            if t.t == 'for' and T[i + 1].t == '<':
                i += 1
                continue
            j = i + 1
            while T[j].t != '{':
                if T[j].t in OPEN and T[j].k == 'p':
                    j = mt[j]
                j += 1
            # label
            out.append((t.t, i, j))
        i += 1
    return out


def find_closures(f, body_tok):
    """Closures in token range: (first_tok('|' or '||' or move), params_end_tok, body_start_tok, body_end_tok_exclusive)."""
    T, mt = f.toks, f.mt
    a, b = body_tok
    out = []
    i = a + 1
    while i < b:
        t = T[i]
        if t.k == 'p' and t.t in ('|', '||') and (T[i - 1].t in ('(', ',', '=', '{', ';', 'move', '=>', 'return', '|' if False else '(')):
            st = i - 1 if T[i - 1].t == 'move' else i
            if t.t == '||':
                pe = i
            else:
                j = i + 1
                while T[j].t != '|':
                    if T[j].t in OPEN and T[j].k == 'p':
                        j = mt[j]
                    j += 1
                pe = j
            j = pe + 1
            # optional -> type { }
            bs = j
            while j < b:
                if T[j].k == 'p' and T[j].t in OPEN:
                    j = mt[j] + 1
                    continue
                if T[j].t in (',', ';') or (T[j].k == 'p' and T[j].t in CLOSE):
                    break
                j += 1
            out.append((st, pe, bs, j))
            i = pe + 1
            continue
        i += 1
    return out
