"""What serde's derive macros make of /repo's message types, read off the types' real definitions.

For every type with `derive(Serialize, Deserialize)` this writes, from its fields, variants and serde
attributes as they stand in the source, a function from the type's mathematical view to a tree of
values (what is written), a partial function back (what is read) and a lemma that reading undoes
writing.  The meaning of the attributes is serde's documentation and is assumed (see DESIGN.md); an
attribute this file does not know makes the property undecided, never proved.
"""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import lex, match_table, norm  # noqa


class Unknown(Exception):
    pass


CASES = {
    'lowercase': lambda w: ''.join(w).lower(), 'UPPERCASE': lambda w: ''.join(w).upper(),
    'PascalCase': lambda w: ''.join(x[:1].upper() + x[1:] for x in w),
    'camelCase': lambda w: ''.join((x[:1].upper() if i else x[:1].lower()) + x[1:] for i, x in enumerate(w)),
    'snake_case': lambda w: '_'.join(x.lower() for x in w), 'SCREAMING_SNAKE_CASE': lambda w: '_'.join(x.upper() for x in w),
    'kebab-case': lambda w: '-'.join(x.lower() for x in w), 'SCREAMING-KEBAB-CASE': lambda w: '-'.join(x.upper() for x in w),
}


def rename(name, rule, variant):
    if rule is None:
        return name
    if rule not in CASES:
        raise Unknown(f'rename_all = {rule}')
    if variant:
        words = re.findall(r'[A-Z][^A-Z]*|^[^A-Z]+', name)
        return CASES[rule](words)
    if rule in ('lowercase', 'snake_case'):
        return name               # serde leaves field names alone for these two
    return CASES[rule](name.split('_'))


def metas(toks):
    """the serde and derive metas of one attribute's tokens (the part between the brackets)"""
    t = norm(toks)
    if toks[0].t == 'cfg_attr':
        mt = match_table(toks)
        parts = split(toks[2:mt[1]])
        cond = norm(parts[0])
        if cond != 'feature="serde"':
            return [] if 'serde' not in t else (_ for _ in ()).throw(Unknown(t))
        out = []
        for p in parts[1:]:
            out += metas(p)
        return out
    if toks[0].t in ('derive', 'serde'):
        mt = match_table(toks)
        return [(toks[0].t, norm(p)) for p in split(toks[2:mt[1]])]
    return []


def split(toks):
    """at commas outside brackets"""
    out, cur, depth = [], [], 0
    for i, t in enumerate(toks):
        if t.k == 'p' and t.t in '([{<':
            depth += 1
        elif t.k == 'p' and t.t in ')]}>':
            depth -= 1
        if t.t == ',' and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def value(s):
    return s.split('=', 1)[1].strip('"')


class Opts:
    """serde's options on one container, field or variant"""

    def __init__(self, ms, what):
        self.ser = self.de = None
        self.aliases = []
        self.skip_ser = self.skip_de = False
        self.skip_none = False
        self.default = False
        self.rule_ser = self.rule_de = None
        for m in ms:
            if m in ('borrow',) or m.startswith('borrow='):
                continue
            if m.startswith('rename='):
                self.ser = self.de = value(m)
            elif m.startswith('rename('):
                for p in m[7:-1].split(','):
                    if p.startswith('serialize='):
                        self.ser = value(p)
                    elif p.startswith('deserialize='):
                        self.de = value(p)
                    else:
                        raise Unknown(m)
            elif m.startswith('alias='):
                self.aliases.append(value(m))
            elif m == 'skip':
                self.skip_ser = self.skip_de = True
            elif m == 'skip_serializing':
                self.skip_ser = True
            elif m == 'skip_deserializing':
                self.skip_de = True
            elif m == 'skip_serializing_if="Option::is_none"':
                self.skip_none = True
            elif m == 'default':
                self.default = True
            elif m.startswith('rename_all='):
                self.rule_ser = self.rule_de = value(m)
            elif m.startswith('rename_all('):
                for p in m[11:-1].split(','):
                    if p.startswith('serialize='):
                        self.rule_ser = value(p)
                    elif p.startswith('deserialize='):
                        self.rule_de = value(p)
                    else:
                        raise Unknown(m)
            elif m == 'deny_unknown_fields' and what == 'container':
                pass              # nothing unknown is written
            else:
                raise Unknown(f'serde({m}) on a {what}')


class Def:
    pass


def definitions(src):
    """name -> Def of every struct and enum in this text that derives Serialize or Deserialize, also inside functions"""
    T = lex(src)
    mt = match_table(T)
    out = {}
    for i, t in enumerate(T):
        if t.k != 'id' or t.t not in ('struct', 'enum') or T[i + 1].k != 'id':
            continue
        k = i - 1
        if T[k].t == ')':
            k = mt[k] - 1
        if T[k].t == 'pub':
            k -= 1
        elif T[i - 1].t == ')':
            k = i - 1
        at = []
        while T[k].t == ']' and T[mt[k] - 1].t == '#':
            at = metas(T[mt[k] + 1:k]) + at
            k = mt[k] - 2
        ds = {x.split('::')[-1] for d, x in at if d == 'derive'}
        if not ds & {'Serialize', 'Deserialize'}:
            continue
        d = Def()
        d.name, d.kind, d.derives = T[i + 1].t, t.t, ds
        d.opts = Opts([x for k_, x in at if k_ == 'serde'], 'container')
        j = i + 2
        depth = 0
        while not (T[j].t in ('{', '(', ';') and depth == 0):
            depth += {'<': 1, '>': -1}.get(T[j].t, 0)
            j += 1
        d.fields, d.variants = [], []
        if T[j].t == '{':
            for p in split(T[j + 1:mt[j]]):
                if not p:
                    continue
                pm = match_table(p)
                q, at = 0, []
                while p[q].t == '#':
                    at += metas(p[q + 2:pm[q + 1]])
                    q = pm[q + 1] + 1
                o = Opts([x for k_, x in at if k_ == 'serde'], 'field' if t.t == 'struct' else 'variant')
                if p[q].t == 'pub':
                    q += 1
                    if p[q].t == '(':
                        q = pm[q] + 1
                if t.t == 'struct':
                    d.fields.append((p[q].t, norm(p[q + 2:]), o))
                else:
                    inner = None
                    if q + 1 < len(p):
                        if p[q + 1].t == '=':
                            pass
                        elif p[q + 1].t != '(':
                            raise Unknown(f'{d.name}::{p[q].t}')
                        else:
                            parts = split(p[q + 2:pm[q + 1]])
                            if len(parts) != 1:
                                raise Unknown(f'{d.name}::{p[q].t}')
                            inner = norm(parts[0])
                    d.variants.append((p[q].t, inner, o))
        else:
            raise Unknown(f'{d.name}: not a struct with named fields')
        if d.name in out:
            raise Unknown(f'two types named {d.name}')
        out[d.name] = d
    return out


# kind of leaf: how it is written, its default
LEAF = {'u64': (lambda x: f'SV::Num({x} as int)', '0'), 'i64': (lambda x: f'SV::Num({x} as int)', '0'), 'bool': (lambda x: f'SV::Bool({x})', 'false'),
        'time': (lambda x: f'SV::Time({x})', None), 'duration': (lambda x: f'SV::Dur({x})', None), 'text': (lambda x: f'SV::Text({x})', 'Seq::empty()')}


class Gen:
    """views: type name -> path of its view (struct or enum) in the generated file; hand: types whose reader is written by hand"""

    def __init__(self, defs, views, hand, wf):
        self.defs, self.views, self.hand, self.wfbase = defs, views, hand, wf
        self.ids = {}
        self.vecs = {}

    def id(self, s):
        return self.ids.setdefault(s, len(self.ids))

    def tree(self, ty):
        ty = re.sub(r"'\w+\s*,?", '', ty).replace(' ', '').replace('<>', '')
        m = re.fullmatch(r'Option<(.*)>', ty)
        if m:
            return ('opt', self.tree(m.group(1)))
        m = re.fullmatch(r'Vec<(.*)>', ty)
        if m:
            t = self.tree(m.group(1))
            self.vecs[self.tag(t)] = t
            return ('vec', t)
        leaf = {'Cow<str>': 'text', 'String': 'text', 'u64': 'u64', 'i64': 'i64', 'bool': 'bool', 'DateTime<Utc>': 'time', 'Duration': 'duration'}.get(ty)
        if leaf:
            return ('leaf', leaf)
        if ty in self.views:
            return ('named', ty)
        raise Unknown(f'type {ty}')

    def tag(self, t):
        return t[1] if t[0] in ('leaf', 'named') else t[0] + '_' + self.tag(t[1])

    def vtype(self, t):
        if t[0] == 'leaf':
            return {'text': 'Seq<u8>', 'time': 'crate::chrono::DateTime<crate::chrono::Utc>', 'duration': 'std::time::Duration'}.get(t[1], t[1])
        if t[0] == 'named':
            return self.views[t[1]]
        return {'opt': 'Option<%s>', 'vec': 'Seq<%s>'}[t[0]] % self.vtype(t[1])

    def ser(self, t, x):
        if t[0] == 'leaf':
            return LEAF[t[1]][0](x)
        if t[0] == 'named':
            return f'ser_{t[1]}({x})'
        if t[0] == 'vec':
            return f'ser_vec_{self.tag(t[1])}({x})'
        return f'match {x} {{ None => SV::Null, Some(y) => {self.ser(t[1], "y")} }}'

    def de(self, t, s):
        if t[0] == 'leaf':
            return f'leaf_{t[1]}({s})'
        if t[0] == 'named':
            return f'de_{t[1]}({s})'
        if t[0] == 'vec':
            return f'de_vec_{self.tag(t[1])}({s})'
        return f'(if {s} is Null {{ Some(None) }} else {{ match ({self.de(t[1], s)}) {{ Some(y) => Some(Some(y)), None => None }} }})'

    def wf(self, t, x):
        if t[0] == 'leaf':
            return 'true'
        if t[0] == 'named':
            return f'wf_{t[1]}({x})'
        if t[0] == 'vec':
            return f'(forall|i: int| 0 <= i < {x}.len() ==> {self.wf(t[1], "#[trigger] " + x + "[i]").replace("(#[trigger] ", "(#[trigger] ")})' if self.wf(t[1], 'y') != 'true' else 'true'
        w = self.wf(t[1], 'y')
        return 'true' if w == 'true' else f'(match {x} {{ None => true, Some(y) => {w} }})'

    def lemma_calls(self, t, x):
        if t[0] == 'named':
            return f'rt_{t[1]}({x}); '
        if t[0] == 'vec':
            return f'rt_vec_{self.tag(t[1])}({x}); '
        if t[0] == 'opt' and t[1][0] != 'leaf':
            return f'if let Some(y) = {x} {{ {self.lemma_calls(t[1], "y")}}} '
        return ''

    def default(self, t):
        if t[0] == 'opt':
            return 'None'
        if t[0] == 'vec':
            return 'Seq::empty()'
        if t[0] == 'leaf' and LEAF[t[1]][1] is not None:
            return LEAF[t[1]][1]
        raise Unknown(f'default of {t}')

    def struct_text(self, d, reader=True, writer=True):
        V = self.views[d.name]
        s = ''
        fs = [(n, self.tree(ty), o) for n, ty, o in d.fields]
        if writer:
            ents, names = '', []
            for n, t, o in fs:
                if o.skip_ser:
                    continue
                w = o.ser or rename(n, d.opts.rule_ser, False)
                names.append(w)
                e = f'm.insert({self.id(w)}int /* {w} */, {self.ser(t, "x." + n)})'
                if o.skip_none:
                    e = f'(if x.{n} is None {{ m }} else {{ {e} }})'
                ents += f'  let m = {e};\n'
            if len(set(names)) != len(names):
                ents += '  let m = twice();      // the same name is written twice\n'
            s += f'/// what serde writes for a {d.name}\n#[verifier::opaque]\npub open spec fn ser_{d.name}(x: {V}) -> SV {{\n  let m = Map::<int, SV>::empty();\n{ents}  SV::Obj(m)\n}}\n'
        if reader:
            names = []
            lets = ''
            for n, t, o in fs:
                if o.skip_de:
                    lets += f'  let f_{n}: Option<{self.vtype(t)}> = Some({self.default(t)});\n'
                    continue
                ws = [o.de or rename(n, d.opts.rule_de, False)] + o.aliases
                names += ws
                miss = f'Some({self.default(t)})' if o.default or d.opts.default else 'Some(None)' if t[0] == 'opt' else 'None'
                e = miss
                for w in reversed(ws):
                    e = f'if m.dom().contains({self.id(w)}int) {{ let s = m[{self.id(w)}int /* {w} */]; {self.de(t, "s")} }} else {{ {e} }}'
                lets += f'  let f_{n}: Option<{self.vtype(t)}> = {e};\n'
            if len(set(names)) != len(names):
                raise Unknown(f'{d.name}: a name is read into two fields')
            if d.opts.default:
                raise Unknown(f'{d.name}: serde(default) on the container')
            cond = ' && '.join(f'f_{n} is Some' for n, _, _ in fs)
            s += (f'/// what serde reads as a {d.name}\n#[verifier::opaque]\npub open spec fn de_{d.name}(s: SV) -> Option<{V}> {{ match s {{ SV::Obj(m) => {{\n{lets}'
                  f'  if {cond} {{ Some({V} {{ ' + ', '.join(f'{n}: f_{n}->0' for n, _, _ in fs) + ' }) } else { None }\n} _ => None } }\n')
        return s, fs

    def enum_text(self, d):
        V = self.views[d.name]
        wr, units, tagged = '', 'None', 'None'
        vs = [(n, self.tree(ty) if ty else None, o) for n, ty, o in d.variants]
        names_de, names_ser = [], []
        for n, t, o in vs:
            w = o.ser or rename(n, d.opts.rule_ser, True)
            names_ser.append(w)
            if o.skip_ser:
                raise Unknown(f'{d.name}::{n}: skip_serializing')
            if t is None:
                wr += f'    {V}::{n} => SV::Name({self.id(w)}int /* {w} */),\n'
            else:
                wr += f'    {V}::{n}(y) => SV::Tagged({self.id(w)}int /* {w} */, Box::new({self.ser(t, "y")})),\n'
        for n, t, o in reversed(vs):
            if o.skip_de:
                continue
            for w in [o.de or rename(n, d.opts.rule_de, True)] + o.aliases:
                names_de.append(w)
                if t is None:
                    units = f'if n == {self.id(w)} {{ Some({V}::{n}) }} else {{ {units} }}'
                else:
                    tagged = f'if n == {self.id(w)} {{ match ({self.de(t, "(*b)")}) {{ Some(y) => Some({V}::{n}(y)), None => None }} }} else {{ {tagged} }}'
        if len(set(names_de)) != len(names_de):
            raise Unknown(f'{d.name}: a name stands for two variants')
        s = f'/// what serde writes for a {d.name}\n#[verifier::opaque]\npub open spec fn ser_{d.name}(x: {V}) -> SV {{\n  match x {{\n{wr}  }}\n}}\n'
        s += (f'/// what serde reads as a {d.name}\n#[verifier::opaque]\npub open spec fn de_{d.name}(s: SV) -> Option<{V}> {{\n  match s {{\n    SV::Name(n) => {units},\n'
              f'    SV::Tagged(n, b) => {tagged},\n    _ => None,\n  }}\n}}\n')
        return s, vs

    def type_text(self, name):
        d = self.defs[name]
        V = self.views[name]
        hand = name in self.hand
        want = {'Serialize'} | (set() if hand else {'Deserialize'})
        if d.derives & {'Serialize', 'Deserialize'} != want:
            raise Unknown(f'{name} derives {sorted(d.derives & {"Serialize", "Deserialize"})}')
        if d.kind == 'struct':
            s, fs = self.struct_text(d, reader=not hand)
            wfs = [w for w in (self.wf(t, 'x.' + n) for n, t, _ in fs) if w != 'true']
            calls = ''.join(self.lemma_calls(t, 'x.' + n) for n, t, _ in fs)
        else:
            s, vs = self.enum_text(d)
            arms = [(n, self.wf(t, 'y')) for n, t, _ in vs if t and self.wf(t, 'y') != 'true']
            wfs = ['match x { ' + ' '.join(f'{V}::{n}(y) => {w},' for n, w in arms) + (' _ => true,' if len(arms) < len(vs) else '') + ' }'] if arms else []
            calls = 'match x { ' + ' '.join(f'{V}::{n}(y) => {{ {self.lemma_calls(t, "y")}}}' for n, t, _ in vs if t) + ' _ => {} }' if any(t for _, t, _ in vs) else ''
        if name in self.wfbase:
            wfs.append(self.wfbase[name])
        s += f'/// what always holds of a {name}\npub open spec fn wf_{name}(x: {V}) -> bool {{ {" && ".join(wfs) or "true"} }}\n'
        s += (f'/*FN vser|rt_{name}*/ /// reading back what was written gives the same {name}\npub proof fn rt_{name}(x: {V})\n  requires wf_{name}(x)\n'
              f'  ensures de_{name}(ser_{name}(x)) == Some(x), !(ser_{name}(x) is Null)\n{{\n  reveal(ser_{name}); reveal(de_{name});\n  {calls}\n  {self.hand.get(name, "")}\n}} /*END vser|rt_{name}*/\n')
        return s

    def vec_text(self):
        s = ''
        for tag, t in self.vecs.items():
            V = self.vtype(t)
            w = self.wf(t, 'x[i]')
            s += f'''#[verifier::opaque]
pub open spec fn ser_vec_{tag}(x: Seq<{V}>) -> SV {{ SV::List(Seq::new(x.len(), |i: int| {self.ser(t, 'x[i]')})) }}
#[verifier::opaque]
pub open spec fn de_vec_{tag}(s: SV) -> Option<Seq<{V}>> {{ match s {{
  SV::List(l) => if forall|i: int| 0 <= i < l.len() ==> ({self.de(t, '(#[trigger] l[i])')}) is Some {{ Some(Seq::new(l.len(), |i: int| ({self.de(t, 'l[i]')})->0)) }} else {{ None }},
  _ => None,
}} }}
/*FN vser|rt_vec_{tag}*/ pub proof fn rt_vec_{tag}(x: Seq<{V}>)
{'  requires forall|i: int| 0 <= i < x.len() ==> ' + w.replace('x[i]', '#[trigger] x[i]') if w != 'true' else ''}
  ensures de_vec_{tag}(ser_vec_{tag}(x)) == Some(x), !(ser_vec_{tag}(x) is Null)
{{
  reveal(ser_vec_{tag}); reveal(de_vec_{tag});
  let l = Seq::new(x.len(), |i: int| {self.ser(t, 'x[i]')});
  assert forall|i: int| 0 <= i < x.len() implies ({self.de(t, '(#[trigger] l[i])')}) == Some(x[i]) by {{ {self.lemma_calls(t, 'x[i]')} }}
  assert(Seq::new(l.len(), |i: int| ({self.de(t, 'l[i]')})->0) =~= x);
}} /*END vser|rt_vec_{tag}*/
'''
        return s


SRC = ['msg', 'privmsg', 'whisper', 'clear_msg', 'clear_chat', 'room_state', 'user_state', 'global_user_state', 'notice', 'join', 'part', 'ping', 'pong', 'user_notice']
PLAIN = {'PinnedChatLevel': 'crate::msg::privmsg::PinnedChatLevel', 'FollowersOnly': 'crate::msg::room_state::FollowersOnly'}
RAW = '_T'       # the helper inside Subscriber's own deserialize


def text(repo, msgspec):
    """(text of module vser, text for module msg::_serde)"""
    defs = {}
    for m in SRC:
        p = os.path.join(repo, 'src/msg.rs' if m == 'msg' else f'src/msg/{m}.rs')
        for n, d in definitions(open(p).read()).items():
            if n in defs:
                raise Unknown(f'two types named {n}')
            defs[n] = d
    views = dict(PLAIN)
    fields = {}
    for mod, ts in msgspec.TYPES.items():
        for t, _, fs, _ in ts:
            views[t] = f'crate::{mod}::{t}V'
            fields[t] = [n for n, _ in fs]
    for mod, ts in msgspec.ENUMS.items():
        for t, _ in ts:
            views[t] = f'crate::{mod}::{t}V'
    raw = defs.get(RAW)
    if raw is None or raw.kind != 'struct' or raw.derives != {'Deserialize'}:
        raise Unknown(f'{RAW} in Subscriber::deserialize')
    views[RAW] = 'RawV'
    for t, fs in fields.items():
        if t not in defs:
            raise Unknown(f'{t} derives neither Serialize nor Deserialize')
        if [n for n, _, _ in defs[t].fields] != fs:
            raise Unknown(f'{t} has other fields than its view')
    extra = set(defs) - set(views)
    if extra:
        raise Unknown(f'types without a view: {sorted(extra)}')
    hand = {'Subscriber': f'reveal(de_{RAW});'}
    wf = {'Subscriber': 'x.months_n == months_number(x.months)'}
    g = Gen(defs, views, hand, wf)
    body = ''
    rt = [(n, g.tree(ty), o) for n, ty, o in raw.fields]
    body += 'pub ghost struct RawV { ' + ', '.join(f'pub {n}: {g.vtype(t)}' for n, t, _ in rt) + ' }\n'
    s, _ = g.struct_text(raw, writer=False)
    body += s
    for n in views:
        if n != RAW:
            body += g.type_text(n)
    body += g.vec_text()
    for key in msgspec.MSG:
        mod, t = key.split('|')
        of = f'crate::{mod}::{msgspec.snake(t)}_of'
        body += (f'/*FN vser|whole_{t}*/ /// every {t} that is parsed survives being written and read back\n'
                 f"pub proof fn whole_{t}(m: crate::irc::IrcMessageRef<'_>)\n  ensures {of}(m) is Some ==> de_{t}(ser_{t}({of}(m)->0)) == {of}(m)\n"
                 f'{{ reveal({of}); badges_wf(tg(m, crate::irc::tags::Tag::Badges), tg(m, crate::irc::tags::Tag::BadgeInfo)); if {of}(m) is Some {{ rt_{t}({of}(m)->0); }} }} /*END vser|whole_{t}*/\n')
    lt = "<'src>"
    inner = (f"impl {RAW}<'_> {{ pub open spec fn v(&self) -> crate::vser::RawV {{ crate::vser::RawV {{ " +
             ', '.join(f'{n}: ' + {'text': f'cb(self.{n})'}.get(t[1], f'self.{n}') for n, t, _ in rt) + ' } } }\n'
             f"impl<'de{': ' + chr(39) + 'src' if False else ''}, 'src> Deserialize<'de> for {RAW}<'src> {{\n"
             f'  open spec fn reads(s: SV, r: Option<Self>) -> bool {{ match r {{ Some(x) => crate::vser::de_{RAW}(s) == Some(x.v()), None => crate::vser::de_{RAW}(s) is None }} }}\n'
             f'  #[verifier::external_body]\n  fn deserialize<D: Deserializer<\'de>>(deserializer: D) -> (r: Result<Self, D::Error>) {{ unimplemented!() }}\n}}\n')
    return body, inner
