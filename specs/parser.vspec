@crateattrs
#![feature(pattern)]
@note what is left out
@drop .*\|.* as (Debug|Display|std::fmt::Display|std::fmt::Debug|Hash|Deref|IntoIterator|Default|std::error::Error|Clone)
@drop .*\|use .*(fmt|Deref|Debug|RefCell).*
@drop .*\|DebugIter.*
@keep irc::(command|tags)\|(Command|Tag) as Display.*
@keep irc::prefix\|Prefix as crate::vf::Disp.*
@lowerwrite irc::(command|tags|prefix)
@modrewrite irc::(command|tags|prefix)
std::fmt::Display =>> crate::vf::Disp
@modrewrite irc::(command|tags|prefix)
std::fmt::Formatter<'_> =>> String
@modrewrite irc::(command|tags|prefix)
std::fmt::Result =>> crate::vf::FmtResult
@modrewrite irc::(command|tags|prefix)
f.write_str($x) =>> crate::vf::put(f, $x)
@drop common\|(Join|JoinIter|mod channel).*
@drop common\|Iter as JoinIter.*
@drop irc::tags\|RawTag
@drop irc::tags\|tags
@drop irc\|unescape

@prelude
verus! { global size_of usize == 8; }
@module common
use crate::vp::*;
broadcast use crate::vp::group_str;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
pub open spec fn span_ok(s: Span, b: Seq<u8>) -> bool {
  s.start <= s.end && bnd(b, s.start as int) && bnd(b, s.end as int)
}
pub open spec fn span_bytes(s: Span, b: Seq<u8>) -> Seq<u8> {
  b.subrange(s.start as int, s.end as int)
}
pub open spec fn mkspan(a: int, b: int) -> Span { Span { start: a as u32, end: b as u32 } }
impl vstd::std_specs::convert::FromSpecImpl<std::ops::Range<usize>> for Span {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: std::ops::Range<usize>) -> Self { Span { start: v.start as u32, end: v.end as u32 } }
}
impl vstd::std_specs::convert::FromSpecImpl<Span> for std::ops::Range<usize> {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: Span) -> Self { v.start as usize..v.end as usize }
}
impl vstd::std_specs::core::IndexSpecImpl<Span> for str {
  open spec fn index_req(&self, index: &Span) -> bool { span_ok(*index, bs(self)) }
}

@fn common|Span|get
  requires span_ok(*self, bs(src))
  ensures bs(r) == span_bytes(*self, bs(src))
@fn common|str as std::ops::Index<Span>|index
  ensures bs(r) == span_bytes(index, bs(self))

@note ------------------------------------------------------------------ prefix
@module irc::prefix|Prefix as crate::vf::Disp
  open spec fn shown(&self) -> Seq<char> { prefix_text(*self) }
  open spec fn total(&self) -> bool { true }
@module irc::prefix
use crate::vp::*;
broadcast use crate::vp::group_str;
use crate::common::*;
use vstd::utf8::*;
pub open spec fn raw_prefix_ok(p: RawPrefix, b: Seq<u8>) -> bool {
  &&& span_ok(p.host, b)
  &&& p.nick is Some ==> span_ok(p.nick->0, b)
  &&& p.user is Some ==> span_ok(p.user->0, b)
}
pub open spec fn prefix_matches(q: Prefix<'_>, p: RawPrefix, b: Seq<u8>) -> bool {
  &&& bs(q.host) == span_bytes(p.host, b)
  &&& (q.nick is Some) == (p.nick is Some)
  &&& p.nick is Some ==> bs(q.nick->0) == span_bytes(p.nick->0, b)
  &&& (q.user is Some) == (p.user is Some)
  &&& p.user is Some ==> bs(q.user->0) == span_bytes(p.user->0, b)
}
/// Declarative meaning of the prefix section `:<region> ` where region = b[s..e]:
/// host follows the last '@'; nick precedes the last '!' (or, without '!', the last '@');
/// user lies between the last '!' that precedes the last '@' and that '@'.
pub open spec fn prefix_spec(b: Seq<u8>, s: int, e: int) -> RawPrefix {
  let at = rfind_in(b, s, e, 0x40);
  let bang = rfind_in(b, s, e, 0x21);
  let ub = rfind_in(b, s, at, 0x21);
  RawPrefix {
    host: mkspan(if at >= 0 { at + 1 } else { s }, e),
    nick: if bang >= 0 { Some(mkspan(s, bang)) } else if at >= 0 { Some(mkspan(s, at)) } else { None },
    user: if at >= 0 && ub >= 0 { Some(mkspan(ub + 1, at)) } else { None },
  }
}
/// the prefix section that starts at p, and where parsing goes on
pub open spec fn prefix_at(b: Seq<u8>, p: int) -> (Option<RawPrefix>, int) {
  let e = find_from(b, p + 1, 0x20);
  if p < b.len() && b[p] == 0x3a && e < b.len() { (Some(prefix_spec(b, p + 1, e)), e + 1) } else { (None, p) }
}
/// how a prefix is written
pub open spec fn prefix_text(q: Prefix<'_>) -> Seq<char> {
  match (q.nick, q.user) {
    (Some(n), Some(u)) => n@ + ("!"@ + (u@ + ("@"@ + q.host@))),
    (Some(n), None) => n@ + ("@"@ + q.host@),
    (None, None) => q.host@,
    (None, Some(_)) => seq![],
  }
}
/*FN irc::prefix|Prefix as crate::vf::Disp|fmt*/
/// a prefix `b[s..e]` whose last "!", if it has one, stands in front of its last "@" is printed as it was written
pub proof fn lemma_prefix_printed(q: Prefix<'_>, b: Seq<u8>, s: int, e: int)
  requires
    0 <= s <= e <= b.len() <= u32::MAX,
    prefix_matches(q, prefix_spec(b, s, e), b),
    rfind_in(b, s, e, 0x21) < rfind_in(b, s, e, 0x40) || rfind_in(b, s, e, 0x21) < 0,
  ensures encode_utf8(prefix_text(q)) == b.subrange(s, e)
{
  let at = rfind_in(b, s, e, 0x40);
  let bang = rfind_in(b, s, e, 0x21);
  lemma_rfind(b, s, e, 0x40);
  lemma_rfind(b, s, e, 0x21);
  reveal_strlit("!");
  reveal_strlit("@");
  is_ascii_chars_encode_utf8("!"@);
  is_ascii_chars_encode_utf8("@"@);
  assert(encode_utf8("@"@) =~= seq![0x40u8]);
  assert(encode_utf8("!"@) =~= seq![0x21u8]);
  if at >= 0 {
    lemma_rfind(b, s, at, 0x21);
    encode_utf8_concat("@"@, q.host@);
    if bang >= 0 {
      assert(rfind_in(b, s, at, 0x21) == bang);
      encode_utf8_concat(q.user->0@, "@"@ + q.host@);
      encode_utf8_concat("!"@, q.user->0@ + ("@"@ + q.host@));
      encode_utf8_concat(q.nick->0@, "!"@ + (q.user->0@ + ("@"@ + q.host@)));
      assert(b.subrange(s, e) =~= b.subrange(s, bang) + (seq![0x21u8] + (b.subrange(bang + 1, at) + (seq![0x40u8] + b.subrange(at + 1, e)))));
    } else {
      encode_utf8_concat(q.nick->0@, "@"@ + q.host@);
      assert(b.subrange(s, e) =~= b.subrange(s, at) + (seq![0x40u8] + b.subrange(at + 1, e)));
    }
  }
}
/*END irc::prefix|Prefix as crate::vf::Disp|fmt*/
pub proof fn lemma_rfind_step(b: Seq<u8>, s: int, i: int)
  requires 0 <= s <= i < b.len()
  ensures
    forall|c: u8| #[trigger] rfind_in(b, s, i + 1, c) == if b[i] == c { i } else { rfind_in(b, s, i, c) }
{}

@fn irc::prefix|RawPrefix|get
  requires raw_prefix_ok(*self, bs(src))
  ensures prefix_matches(r, *self, bs(src))
@closure 0 |span: Span| -> (q: &'src str)
  requires span_ok(span, bs(src))
  ensures bs(q) == span_bytes(span, bs(src))
@closure 1 |span: Span| -> (q: &'src str)
  requires span_ok(span, bs(src))
  ensures bs(q) == span_bytes(span, bs(src))

@fn irc::prefix|Prefix as crate::vf::Disp|fmt
@fn irc::prefix|parse
  requires bnd(bs(src), *old(pos) as int), bs(src).len() <= u32::MAX
  ensures
    (r, *final(pos) as int) == prefix_at(bs(src), *old(pos) as int),
    r is Some ==> raw_prefix_ok(r->0, bs(src)),
    bnd(bs(src), *final(pos) as int)
@start
  proof { lemma_ends(src); }
@beforeloop 0
  proof { lemma_ascii_boundary(src, start - 1); }
@loop 0
    invariant
      bytes@ == bs(src), start == *old(pos) + 1, *pos == *old(pos), bs(src).len() <= u32::MAX,
      bnd(bs(src), *pos as int),
      bs(src)[*old(pos) as int] == 0x3a, start <= bytes.len(), bnd(bs(src), start as int),
      forall|k: int| start <= k < i ==> bs(src)[k] != 0x20,
      host_start == if rfind_in(bs(src), start as int, i as int, 0x40) >= 0 { rfind_in(bs(src), start as int, i as int, 0x40) + 1 } else { start as int },
      nick_end is Some == (rfind_in(bs(src), start as int, i as int, 0x21) >= 0),
      nick_end is Some ==> nick_end->0 == rfind_in(bs(src), start as int, i as int, 0x21),
      nick == (if nick_end is Some { Some(mkspan(start as int, nick_end->0 as int)) } else if host_start > start { Some(mkspan(start as int, host_start - 1)) } else { None }),
      user == (if host_start > start && rfind_in(bs(src), start as int, host_start - 1, 0x21) >= 0 { Some(mkspan(rfind_in(bs(src), start as int, host_start - 1, 0x21) + 1, host_start - 1)) } else { None }),
      host_start <= i, bnd(bs(src), host_start as int),
      nick_end is Some ==> start <= nick_end->0 < i && bs(src)[nick_end->0 as int] == 0x21,
      nick is Some ==> span_ok(nick->0, bs(src)),
      user is Some ==> span_ok(user->0, bs(src)),
@loopstart 0
  proof {
    let b = bs(src);
    lemma_rfind_step(b, start as int, i as int);
    lemma_rfind(b, start as int, i as int, 0x40);
    lemma_rfind(b, start as int, i as int, 0x21);
    if host_start > start { lemma_rfind(b, start as int, host_start - 1, 0x21); }
    if b[i as int] < 0x80 { lemma_ascii_boundary(src, i as int); }
    if b[i as int] == 0x20 { lemma_find_from_unique(b, start as int, 0x20, i as int); }
    if nick_end is Some { lemma_ascii_boundary(src, nick_end->0 as int); }
  }
@afterloop 0
  proof { lemma_find_from_unique(bs(src), start as int, 0x20, bs(src).len() as int); }

@note ------------------------------------------------------------------ command
@module irc::command|Command as Display
  open spec fn shown(&self) -> Seq<char> { command_name(*self) }
  open spec fn total(&self) -> bool { true }
@module irc::command
use crate::vf::Disp as Display;
use crate::vp::*;
broadcast use crate::vp::group_str;
use crate::common::*;
use vstd::utf8::*;
%%CMD_TABLES%%
pub open spec fn raw_command_ok(c: RawCommand, b: Seq<u8>) -> bool {
  c is Other ==> span_ok(c->Other_0, b)
}
/// the command token b[p..e]
pub open spec fn command_is(c: RawCommand, b: Seq<u8>, p: int, e: int) -> bool {
  &&& raw_kind(c) == kind_of_name(chars_of(b.subrange(p, e)))
  &&& c is Other ==> c->Other_0 == mkspan(p, e)
}
pub open spec fn after_word(b: Seq<u8>, p: int) -> int {
  let e = find_from(b, p, 0x20);
  if e < b.len() { e + 1 } else { b.len() as int }
}
/// a known command's name parses back to it
pub proof fn lemma_command_name_roundtrip(c: Command<'_>)
  requires !(c is Other)
  ensures kind_of_name(command_name(c)) == cmd_kind(c)
{
  lemma_command_lits();
}

/// a text without characters is the literal "" (patterns may be written either way)
pub proof fn lemma_empty_lit()
  ensures forall|s: Seq<char>| (#[trigger] s.len()) == 0 ==> s == ""@
{
  reveal_strlit("");
  assert forall|s: Seq<char>| (#[trigger] s.len()) == 0 implies s == ""@ by { assert(s =~= ""@); }
}

@fn irc::command|RawCommand|get
  requires raw_command_ok(*self, bs(src))
  ensures cmd_kind(r) == raw_kind(*self), r is Other ==> bs(r->Other_0) == span_bytes(self->Other_0, bs(src))
@fn irc::command|Command as Display|fmt
@fn irc::command|Command|as_str
  ensures r@ == command_name(*self)
@fn irc::command|parse
  requires bnd(bs(src), *old(pos) as int), bs(src).len() <= u32::MAX
  ensures
    ({
      let b = bs(src); let p = *old(pos) as int; let e = find_from(b, p, 0x20);
      &&& (r is Some) == (p < e)
      &&& r is Some ==> command_is(r->0, b, p, e) && raw_command_ok(r->0, b) && *final(pos) == after_word(b, p)
      &&& r is None ==> *final(pos) == p
    }),
    bnd(bs(src), *final(pos) as int)
@start
  proof { lemma_ends(src); reveal_strlit(""); lemma_command_lits(); lemma_empty_lit(); }

@note ------------------------------------------------------------------ channel, params
@module irc::channel
use crate::vp::*;
broadcast use crate::vp::group_str;
use crate::common::*;
use vstd::utf8::*;
pub open spec fn channel_at(b: Seq<u8>, p: int) -> Option<Span> {
  if p < b.len() && b[p] == 0x23 { Some(mkspan(p, find_from(b, p, 0x20))) } else { None }
}
pub open spec fn after_channel(b: Seq<u8>, p: int) -> int {
  if channel_at(b, p) is Some { crate::irc::command::after_word(b, p) } else { p }
}
@fn irc::channel|parse
  requires bnd(bs(src), *old(pos) as int), bs(src).len() <= u32::MAX
  ensures
    r == channel_at(bs(src), *old(pos) as int),
    *final(pos) == after_channel(bs(src), *old(pos) as int),
    r is Some ==> span_ok(r->0, bs(src)),
    bnd(bs(src), *final(pos) as int)
@start
  proof { lemma_ends(src); }

@module irc::params
use crate::vp::*;
broadcast use crate::vp::group_str;
use crate::common::*;
use vstd::utf8::*;
pub open spec fn params_at(b: Seq<u8>, p: int) -> Option<Span> {
  if p < b.len() { Some(mkspan(p, b.len() as int)) } else { None }
}
@fn irc::params|parse
  requires bnd(bs(src), *pos as int), bs(src).len() <= u32::MAX
  ensures
    r == params_at(bs(src), *pos as int),
    r is Some ==> span_ok(r->0, bs(src)),
@start
  proof { lemma_ends(src); reveal_strlit(""); }

@note ------------------------------------------------------------------ tags
@module irc::tags|Tag as Display
  open spec fn shown(&self) -> Seq<char> { tag_name(*self) }
  open spec fn total(&self) -> bool { true }
@module irc::tags
use crate::vf::Disp as Display;
use crate::vp::*;
broadcast use crate::vp::group_str;
use crate::common::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
%%TAG_TABLES%%
/// a key=value pair: key = b[k0..k0+klen], value = b[k0+klen+1 ..][..vlen], absolute offsets
pub open spec fn mkpair(ks: int, ke: int, ve: int) -> TagPair {
  TagPair { key_start: (ks + 1) as u32, key_end: (ke - ks) as u32, value_end: (ve - (ke + 1)) as u32 }
}
pub enum Scan { Key(int), Value(int, int) }
/// The pairs that a tag section t[..e] (t starts after the '@') still yields when the
/// scan is in state st and everything before o has been consumed: a key runs to the
/// first '=', its value to the first ';' after that or to the end of the section.
pub open spec fn scan_pairs(t: Seq<u8>, e: int, st: Scan, o: int) -> Seq<TagPair>
  decreases e - o, (if st is Key { 0int } else { 1int })
{
  if o < 0 || o > e { seq![] } else {
    match st {
      Scan::Key(ks) => {
        let q = find_in(t, o, e, 0x3d);
        if o <= q < e { scan_pairs(t, e, Scan::Value(ks, q), q + 1) } else { seq![] }
      }
      Scan::Value(ks, ke) => {
        let q = find_in(t, o, e, 0x3b);
        if o <= q < e { seq![mkpair(ks, ke, q)] + scan_pairs(t, e, Scan::Key(q + 1), q + 1) } else { seq![mkpair(ks, ke, e)] }
      }
    }
  }
}
/// the tag section of a message: present iff it starts with '@' and a space follows
pub open spec fn tags_end(b: Seq<u8>) -> int { find_from(b, 0, 0x20) }
pub open spec fn has_tags(b: Seq<u8>) -> bool { b.len() > 0 && b[0] == 0x40 && tags_end(b) < b.len() }
pub open spec fn tags_of(b: Seq<u8>) -> Seq<TagPair> {
  if has_tags(b) { scan_pairs(b.subrange(1, b.len() as int), tags_end(b) - 1, Scan::Key(0), 0) } else { seq![] }
}
pub open spec fn after_tags(b: Seq<u8>) -> int { if has_tags(b) { tags_end(b) + 1 } else { 0 } }

pub open spec fn key_span(p: TagPair) -> Span { mkspan(p.key_start as int, p.key_start + p.key_end) }
pub open spec fn value_span(p: TagPair) -> Span { mkspan(p.key_start + p.key_end + 1, p.key_start + p.key_end + 1 + p.value_end) }
pub open spec fn pair_ok(p: TagPair, b: Seq<u8>) -> bool {
  &&& p.key_start + p.key_end + 1 + p.value_end <= u32::MAX
  &&& span_ok(key_span(p), b)
  &&& span_ok(value_span(p), b)
}
pub open spec fn pairs_ok(s: Seq<TagPair>, b: Seq<u8>) -> bool {
  forall|i: int| 0 <= i < s.len() ==> pair_ok(#[trigger] s[i], b)
}

/// advancing over a byte that is not the one the scan looks for changes nothing
pub proof fn lemma_scan_skip(t: Seq<u8>, e: int, st: Scan, o: int)
  requires 0 <= o < e <= t.len(), (if st is Key { t[o] != 0x3d } else { t[o] != 0x3b })
  ensures scan_pairs(t, e, st, o + 1) == scan_pairs(t, e, st, o)
{
  lemma_find_in(t, o, e, 0x3d);
  lemma_find_in(t, o, e, 0x3b);
  lemma_find_in(t, o + 1, e, 0x3d);
  lemma_find_in(t, o + 1, e, 0x3b);
}
pub proof fn lemma_scan_skip_to(t: Seq<u8>, e: int, st: Scan, o: int, n: int)
  requires 0 <= o <= n <= e <= t.len(), forall|k: int| o <= k < n ==> (if st is Key { t[k] != 0x3d } else { t[k] != 0x3b })
  ensures scan_pairs(t, e, st, n) == scan_pairs(t, e, st, o)
  decreases n - o
{
  if o < n { lemma_scan_skip(t, e, st, o); lemma_scan_skip_to(t, e, st, o + 1, n); }
}
/// one step at position o: what the scan does on t[o]
pub proof fn lemma_scan_step(t: Seq<u8>, e: int, st: Scan, o: int)
  requires 0 <= o < e <= t.len()
  ensures scan_pairs(t, e, st, o) == match st {
    Scan::Key(ks) => if t[o] == 0x3d { scan_pairs(t, e, Scan::Value(ks, o), o + 1) } else { scan_pairs(t, e, st, o + 1) },
    Scan::Value(ks, ke) => if t[o] == 0x3b { seq![mkpair(ks, ke, o)] + scan_pairs(t, e, Scan::Key(o + 1), o + 1) } else { scan_pairs(t, e, st, o + 1) },
  }
{
  if (st is Key && t[o] != 0x3d) || (st is Value && t[o] != 0x3b) { lemma_scan_skip(t, e, st, o); }
}
/// what the scan yields at the end of the section
pub proof fn lemma_scan_end(t: Seq<u8>, e: int, st: Scan)
  requires 0 <= e <= t.len()
  ensures scan_pairs(t, e, st, e) == match st { Scan::Key(_) => seq![], Scan::Value(ks, ke) => seq![mkpair(ks, ke, e)] }
{}
/// position st has reached is consistent with o
pub open spec fn scan_wf(t: Seq<u8>, st: Scan, o: int) -> bool {
  match st {
    Scan::Key(ks) => 0 <= ks <= o && (ks > 0 ==> t[ks - 1] == 0x3b),
    Scan::Value(ks, ke) => 0 <= ks <= ke < o && (ks > 0 ==> t[ks - 1] == 0x3b) && t[ke] == 0x3d,
  }
}
/// every pair of a scan lies in the section, on character boundaries
pub proof fn lemma_scan_ok(s: &str, e: int, st: Scan, o: int)
  requires
    s.spec_bytes().len() <= u32::MAX,
    has_tags(bs(s)), e == tags_end(bs(s)) - 1,
    0 <= o <= e, scan_wf(bs(s).subrange(1, bs(s).len() as int), st, o)
  ensures pairs_ok(scan_pairs(bs(s).subrange(1, bs(s).len() as int), e, st, o), bs(s))
  decreases e - o, (if st is Key { 0int } else { 1int })
{
  let b = bs(s);
  let t = b.subrange(1, b.len() as int);
  lemma_find_from(b, 0, 0x20);
  match st {
    Scan::Key(ks) => {
      lemma_find_in(t, o, e, 0x3d);
      let q = find_in(t, o, e, 0x3d);
      if q < e { lemma_scan_ok(s, e, Scan::Value(ks, q), q + 1); }
    }
    Scan::Value(ks, ke) => {
      lemma_find_in(t, o, e, 0x3b);
      let q = find_in(t, o, e, 0x3b);
      lemma_ascii_boundary(s, 0);
      if ks > 0 { assert(b[ks] == t[ks - 1]); lemma_ascii_boundary(s, ks); }
      assert(b[ke + 1] == t[ke]);
      lemma_ascii_boundary(s, ke + 1);
      lemma_ascii_boundary(s, e + 1);
      if q < e { assert(b[q + 1] == t[q]); lemma_ascii_boundary(s, q + 1); }
      assert(pair_ok(mkpair(ks, ke, q), b));
      if q < e {
        lemma_scan_ok(s, e, Scan::Key(q + 1), q + 1);
        let rest = scan_pairs(t, e, Scan::Key(q + 1), q + 1);
        let all = scan_pairs(t, e, st, o);
        assert(all == seq![mkpair(ks, ke, q)] + rest);
        assert forall|i: int| 0 <= i < all.len() implies pair_ok(#[trigger] all[i], b) by { if i > 0 { assert(all[i] == rest[i - 1]); } }
      }
    }
  }
}
pub proof fn lemma_tags_ok(s: &str)
  requires s.spec_bytes().len() <= u32::MAX
  ensures pairs_ok(tags_of(bs(s)), bs(s)), bnd(bs(s), after_tags(bs(s)))
{
  let b = bs(s);
  lemma_ends(s);
  if has_tags(b) {
    lemma_find_from(b, 0, 0x20);
    assert(tags_end(b) >= 1);
    lemma_scan_ok(s, tags_end(b) - 1, Scan::Key(0), 0);
    lemma_ascii_boundary(s, tags_end(b));
  }
}
/// value of the first pair whose key is k
pub open spec fn tag_value(s: Seq<TagPair>, b: Seq<u8>, k: Seq<u8>) -> Option<Seq<u8>>
  decreases s.len()
{
  if s.len() == 0 { None }
  else if span_bytes(key_span(s[0]), b) == k { Some(span_bytes(value_span(s[0]), b)) }
  else { tag_value(s.subrange(1, s.len() as int), b, k) }
}
pub broadcast proof fn lemma_tag_value_at(s: Seq<TagPair>, b: Seq<u8>, k: Seq<u8>, i: int)
  requires 0 <= i < s.len(), span_bytes(key_span(#[trigger] s[i]), b) == k,
    forall|j: int| 0 <= j < i ==> span_bytes(key_span(#[trigger] s[j]), b) != k
  ensures #[trigger] tag_value(s, b, k) == Some(span_bytes(value_span(s[i]), b))
  decreases i
{
  if i > 0 {
    let t = s.subrange(1, s.len() as int);
    assert(t[i - 1] == s[i]);
    assert forall|j: int| 0 <= j < i - 1 implies span_bytes(key_span(#[trigger] t[j]), b) != k by { assert(t[j] == s[j + 1]); }
    lemma_tag_value_at(t, b, k, i - 1);
  }
}
pub broadcast proof fn lemma_tag_value_none(s: Seq<TagPair>, b: Seq<u8>, k: Seq<u8>)
  requires forall|j: int| 0 <= j < s.len() ==> span_bytes(key_span(#[trigger] s[j]), b) != k
  ensures #[trigger] tag_value(s, b, k) is None
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.subrange(1, s.len() as int);
    assert forall|j: int| 0 <= j < t.len() implies span_bytes(key_span(#[trigger] t[j]), b) != k by { assert(t[j] == s[j + 1]); }
    lemma_tag_value_none(t, b, k);
  }
}
/// a known tag's name parses back to it
pub proof fn lemma_tag_name_roundtrip(t: Tag<'_>)
  requires !(t is Unknown)
  ensures tag_of_name(tag_name(t)) == tag_kind(t)
{
  lemma_tag_lits();
}
impl Default for TagPair {
  fn default() -> Self { TagPair { key_start: 0, key_end: 0, value_end: 0 } }
}
impl Default for RawTags {
  fn default() -> (r: Self) ensures r.0@ == Seq::<TagPair>::empty() { RawTags(Vec::new()) }
}
impl Clone for RawTags {
  fn clone(&self) -> (r: Self) ensures r.0@ == self.0@ { let r = RawTags(self.0.clone()); proof { assert(r.0@ =~= self.0@); } r }
}
impl<'src> vstd::std_specs::convert::FromSpecImpl<&'src str> for Tag<'src> {
  open spec fn obeys_from_spec() -> bool { false }
  uninterp spec fn from_spec(v: &'src str) -> Self;
}
// ---- memory that may not be initialised yet (assumed: std's MaybeUninit, copying slices of Copy types)
/// what it holds, if it has been initialised
pub open spec fn mu<T>(m: core::mem::MaybeUninit<T>) -> Option<T> { match m.mem_contents() { vstd::raw_ptr::MemContents::Init(x) => Some(x), _ => None } }
#[verifier::external_body]
pub fn mu_uninit<const CAPACITY: usize, T>() -> (r: core::mem::MaybeUninit<[T; CAPACITY]>)
{ unimplemented!() }
/// the same memory as an array of parts each of which may not be initialised
#[verifier::external_body]
pub unsafe fn mu_open<const CAPACITY: usize, T>(a: core::mem::MaybeUninit<[T; CAPACITY]>) -> (r: [core::mem::MaybeUninit<T>; CAPACITY])
{ unimplemented!() }
#[verifier::external_body]
pub fn mu_write<const CAPACITY: usize, T>(a: &mut [core::mem::MaybeUninit<T>; CAPACITY], i: usize, v: T)
  requires i < CAPACITY
  ensures mu(final(a)@[i as int]) == Some(v), forall|k: int| 0 <= k < CAPACITY && k != i ==> final(a)@[k] == old(a)@[k]
{ unimplemented!() }
#[verifier::external_body]
pub fn mu_front<const CAPACITY: usize, T>(a: &[core::mem::MaybeUninit<T>; CAPACITY], n: usize) -> (r: &[core::mem::MaybeUninit<T>])
  requires n <= CAPACITY
  ensures r@ == a@.subrange(0, n as int)
{ unimplemented!() }
/// reading memory that has been initialised
#[verifier::external_body]
pub unsafe fn mu_init<T>(a: &[core::mem::MaybeUninit<T>]) -> (r: &[T])
  requires forall|k: int| 0 <= k < a@.len() ==> mu(#[trigger] a@[k]) is Some
  ensures r@.len() == a@.len(), forall|k: int| 0 <= k < a@.len() ==> #[trigger] r@[k] == mu(a@[k])->0
{ unimplemented!() }
#[verifier::external_body]
pub fn copied<T: Copy>(a: &[T]) -> (r: Vec<T>)
  ensures r@ == a@
{ unimplemented!() }
#[verifier::external_body]
pub fn extend_copied<T: Copy>(v: &mut Vec<T>, a: &[T])
  ensures final(v)@ == old(v)@ + a@
{ unimplemented!() }
impl<const CAPACITY: usize, T> Array<CAPACITY, T> {
  /// the first `len` parts are initialised, and the rest is used only when all of them are
  pub open spec fn wf(&self) -> bool {
    self.len <= CAPACITY && (forall|k: int| 0 <= k < self.len ==> mu(#[trigger] self.data@[k]) is Some) && (self.len < CAPACITY ==> self.spill@.len() == 0)
  }
  pub open spec fn view(&self) -> Seq<T> { Seq::new(self.len as nat, |k: int| mu(self.data@[k])->0) + self.spill@ }
}

@fn irc::tags|Tag as From<&str>|from
  ensures tag_kind(r) == tag_of_name(value@), r is Unknown ==> r->Unknown_0 == value

@fn irc::tags|Tag as Display|fmt
@fn irc::tags|Tag|as_str
  ensures r@ == tag_name(*self)
@fn irc::tags|Tag|parse
  ensures tag_kind(r) == tag_of_name(src@), r is Unknown ==> r->Unknown_0 == src
@bytelits
@fnrewrite
match src.as_bytes() =>> match src
@start
  proof { lemma_tag_lits(); }

@fn irc::tags|TagPair|key
  requires self.key_start + self.key_end <= u32::MAX
  ensures r == key_span(*self)
@fn irc::tags|TagPair|value
  requires self.key_start + self.key_end + 1 + self.value_end <= u32::MAX
  ensures r == value_span(*self)
@fn irc::tags|TagPair|get
  requires pair_ok(*self, bs(src))
  ensures bs(r.0) == span_bytes(key_span(*self), bs(src)), bs(r.1) == span_bytes(value_span(*self), bs(src))

@typeattr irc::tags|Array
#[verifier::reject_recursive_types(T)]
@rewrite irc::tags\|Array.*
core::mem::MaybeUninit::<[T; CAPACITY]>::uninit() =>> mu_uninit::<CAPACITY, T>()
@rewrite irc::tags\|Array.*
$i_u.as_ptr().cast::<[core::mem::MaybeUninit<T>; CAPACITY]>().read() =>> mu_open($i_u)
@rewrite irc::tags\|Array.*
$i_s.data[$i].write($v) =>> mu_write(&mut $i_s.data, $i, $v)
@rewrite irc::tags\|Array.*
&$i_s.data[..$n] =>> mu_front(&$i_s.data, $n)
@rewrite irc::tags\|Array.*
core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>($a) =>> mu_init($a)
@rewrite irc::tags\|Array.*
init.to_vec() =>> copied(init)
@rewrite irc::tags\|Array.*
$i_v.extend_from_slice($a) =>> extend_copied(&mut $i_v, $a)
@fn irc::tags|Array<CAPACITY,T>|new
  ensures r.wf(), r.view() == Seq::<T>::empty()
@fn irc::tags|Array<CAPACITY,T>|push
  requires old(self).wf()
  ensures final(self).wf(), final(self).view() == old(self).view().push(value)
@fn irc::tags|Array<CAPACITY,T>|to_vec
  requires self.wf()
  ensures r@ == self.view()

@note ------------------------------------------------------------------ tags: scalar
@module irc::tags::scalar
use crate::vp::*;
broadcast use crate::vp::group_str;
use crate::common::*;
use vstd::utf8::*;
pub open spec fn st(s: State) -> Scan {
  match s {
    State::Key { key_start } => Scan::Key(key_start as int),
    State::Value { key_start, key_end } => Scan::Value(key_start as int, key_end as int),
  }
}
@fn irc::tags::scalar|parse
  requires *old(pos) == 0, bs(src).len() <= u32::MAX
  ensures
    (r is Some) == has_tags(bs(src)),
    r is Some ==> (r->0).0@ == tags_of(bs(src)),
    *final(pos) == after_tags(bs(src)),
    bnd(bs(src), *final(pos) as int)
@start
  let ghost full = bs(src);
  let ghost e = tags_end(full) - 1;
  proof { lemma_ends(src); lemma_tags_ok(src); lemma_find_from(full, 0, 0x20); assert(full.subrange(0, full.len() as int) =~= full); }
@loop 0
    invariant_except_break
      end is None,
      tags.view() + scan_pairs(src@, e, st(state), offset as int) == scan_pairs(src@, e, Scan::Key(0), 0),
    invariant
      tags.wf(), offset <= src@.len(), full.len() <= u32::MAX, src@ == full.subrange(1, full.len() as int), full[0] == 0x40,
      *pos == 0, full.len() > 0,
      e == tags_end(full) - 1, 0 <= e <= src@.len(), e < src@.len() ==> src@[e] == 0x20,
      forall|k: int| 0 <= k < e ==> src@[k] != 0x20,
      offset <= e,
      scan_wf(src@, st(state), offset as int),
    ensures
      tags.wf(), end is Some ==> end->0 == e && e < src@.len() && tags.view() == scan_pairs(src@, e, Scan::Key(0), 0),
      end is None ==> e == src@.len(),
    decreases src@.len() - offset
@loopstart 0
    proof {
      if offset < e { lemma_scan_step(src@, e, st(state), offset as int); } else { lemma_scan_end(src@, e, st(state)); }
    }
@loopend 0
    proof {
      assert(tags.view() + scan_pairs(src@, e, st(state), offset as int) =~= scan_pairs(src@, e, Scan::Key(0), 0));
    }

@note ------------------------------------------------------------------ whole messages
@module irc
use crate::vp::*;
broadcast use {crate::vp::group_str, lemma_tag_value_at, lemma_tag_value_none};
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use command::*;
use vstd::std_specs::iter::IteratorSpec;
use prefix::{prefix_at, raw_prefix_ok, prefix_matches};
use channel::{channel_at, after_channel};
use params::params_at;
use tags::*;
use crate::common::*;
impl Clone for IrcMessageParts {
  fn clone(&self) -> (r: Self)
    ensures r.tags.0@ == self.tags.0@, r.prefix == self.prefix, r.command == self.command, r.channel == self.channel, r.params == self.params
  { IrcMessageParts { tags: self.tags.clone(), prefix: self.prefix, command: self.command, channel: self.channel, params: self.params } }
}
/// where the sections of a message start
pub open spec fn prefix_pos(b: Seq<u8>) -> int { after_tags(b) }
pub open spec fn command_pos(b: Seq<u8>) -> int { prefix_at(b, prefix_pos(b)).1 }
pub open spec fn channel_pos(b: Seq<u8>) -> int { after_word(b, command_pos(b)) }
pub open spec fn params_pos(b: Seq<u8>) -> int { after_channel(b, channel_pos(b)) }
/// a message has a (non-empty) command
pub open spec fn has_command(b: Seq<u8>) -> bool { command_pos(b) < find_from(b, command_pos(b), 0x20) }
/// p is what b parses to
pub open spec fn parts_match(p: IrcMessageParts, b: Seq<u8>) -> bool {
  &&& p.tags.0@ == tags_of(b)
  &&& p.prefix == prefix_at(b, prefix_pos(b)).0
  &&& command_is(p.command, b, command_pos(b), find_from(b, command_pos(b), 0x20))
  &&& p.channel == channel_at(b, channel_pos(b))
  &&& p.params == params_at(b, params_pos(b))
}
/// every span lies in the source, on character boundaries
pub open spec fn parts_ok(p: IrcMessageParts, b: Seq<u8>) -> bool {
  &&& pairs_ok(p.tags.0@, b)
  &&& p.prefix is Some ==> raw_prefix_ok(p.prefix->0, b)
  &&& raw_command_ok(p.command, b)
  &&& p.channel is Some ==> span_ok(p.channel->0, b)
  &&& p.params is Some ==> span_ok(p.params->0, b)
}
pub open spec fn ospan(o: Option<Span>, b: Seq<u8>) -> Option<Seq<u8>> {
  match o { Some(s) => Some(span_bytes(s, b)), None => None }
}
/// text(): after the first ':' of the params, or all params
pub open spec fn text_of(p: Option<Seq<u8>>) -> Option<Seq<u8>> {
  match p {
    Some(t) => { let i = find_from(t, 0, 0x3a); if i < t.len() { Some(t.subrange(i + 1, t.len() as int)) } else { Some(t) } }
    None => None,
  }
}
pub open spec fn channel_of(c: CmdKind, ch: Option<Seq<u8>>, params: Option<Seq<u8>>) -> Option<Seq<u8>> {
  if c == CmdKind::RplNames { if params is Some { ws_word(params->0, 2) } else { None } }
  else if c == CmdKind::RplEndOfNames { if params is Some { ws_word(params->0, 1) } else { None } }
  else { ch }
}
impl<'src> IrcMessageRef<'src> {
  pub open spec fn wf(&self) -> bool { parts_ok(self.parts, bs(self.src)) }
  pub open spec fn b(&self) -> Seq<u8> { bs(self.src) }
}
impl IrcMessage {
  pub open spec fn b(&self) -> Seq<u8> { encode_utf8(self.src@) }
  pub open spec fn wf(&self) -> bool { parts_ok(self.parts, self.b()) }
}

@fn irc|IrcMessageRef|parse
  requires bs(src).len() <= u32::MAX
  ensures
    (r is Some) == has_command(bs(src)),
    r is Some ==> (r->0).src == src && parts_match((r->0).parts, bs(src)) && (r->0).wf()
@fn irc|IrcMessageRef|parse_inner
  requires bs(src).len() <= u32::MAX
  ensures
    (r is Some) == has_command(bs(src)),
    r is Some ==> (r->0).src == src && parts_match((r->0).parts, bs(src)) && (r->0).wf()
@start
  proof { lemma_ends(src); lemma_tags_ok(src); }
@fn irc|IrcMessageRef|raw
  ensures r == self.src
@fn irc|IrcMessageRef|prefix
  requires self.wf()
  ensures
    (r is Some) == (self.parts.prefix is Some),
    r is Some ==> prefix_matches(r->0, self.parts.prefix->0, self.b())
@closure 0 |prefix: RawPrefix| -> (q: Prefix<'src>)
  requires raw_prefix_ok(prefix, bs(self.src))
  ensures prefix_matches(q, prefix, bs(self.src))
@fn irc|IrcMessageRef|command
  requires self.wf()
  ensures cmd_kind(r) == raw_kind(self.parts.command), r is Other ==> bs(r->Other_0) == span_bytes(self.parts.command->Other_0, self.b())
@fn irc|IrcMessageRef|channel
  requires self.wf()
  ensures obs(r) == channel_of(raw_kind(self.parts.command), ospan(self.parts.channel, self.b()), ospan(self.parts.params, self.b()))
@closure 0 |params: &'src str| -> (q: Option<&'src str>)
  ensures obs(q) == ws_word(bs(params), 2)
@closure 1 |params: &'src str| -> (q: Option<&'src str>)
  ensures obs(q) == ws_word(bs(params), 1)
@closure 2 |span: Span| -> (q: &'src str)
  requires span_ok(span, bs(self.src))
  ensures bs(q) == span_bytes(span, bs(self.src))
@fn irc|IrcMessageRef|params
  requires self.wf()
  ensures obs(r) == ospan(self.parts.params, self.b())
@closure 0 |span: Span| -> (q: &'src str)
  requires span_ok(span, bs(self.src))
  ensures bs(q) == span_bytes(span, bs(self.src))
@fn irc|IrcMessageRef|tag
  requires self.wf()
  ensures exists|t: Tag<'a>| #[trigger] call_ensures(<I as Into<Tag<'a>>>::into, (tag,), t) && obs(r) == tag_value(self.parts.tags.0@, self.b(), encode_utf8(tag_name(t)))
@sigrewrite
fn tag<'a>(&self, tag: impl Into<Tag<'a>>) =>> fn tag<'a, I: Into<Tag<'a>>>(&self, tag: I)
@closure 0 |pair: &&TagPair| -> (q: bool)
  requires pair_ok(**pair, bs(self.src))
  ensures q == (span_bytes(key_span(**pair), bs(self.src)) == encode_utf8(tag_name(tag)))
@closure 1 |pair: &TagPair| -> (q: &'src str)
  requires pair_ok(*pair, bs(self.src))
  ensures bs(q) == span_bytes(value_span(*pair), bs(self.src))
@fn irc|IrcMessageRef|tags
  requires self.wf()
  ensures
    // it gives every pair, in order, and then ends
    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
    r.will_return_none() ==> r.remaining().len() == self.parts.tags.0@.len(),
    r.remaining().len() <= self.parts.tags.0@.len(),
    forall|i: int| 0 <= i < r.remaining().len() ==> bs((#[trigger] r.remaining()[i]).0) == span_bytes(key_span(self.parts.tags.0@[i]), self.b()) && bs(r.remaining()[i].1) == span_bytes(value_span(self.parts.tags.0@[i]), self.b())
@fnrewrite
self.parts.tags.iter() =>> self.parts.tags.0.iter()
@closure 0 |pair: &TagPair| -> (q: (&'src str, &'src str))
  requires pair_ok(*pair, bs(self.src))
  ensures bs(q.0) == span_bytes(key_span(*pair), bs(self.src)), bs(q.1) == span_bytes(value_span(*pair), bs(self.src))
@fn irc|IrcMessage|tags
  requires self.wf()
  ensures
    // it gives every pair, in order, and then ends
    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
    r.will_return_none() ==> r.remaining().len() == self.parts.tags.0@.len(),
    r.remaining().len() <= self.parts.tags.0@.len(),
    forall|i: int| 0 <= i < r.remaining().len() ==> bs((#[trigger] r.remaining()[i]).0) == span_bytes(key_span(self.parts.tags.0@[i]), self.b()) && bs(r.remaining()[i].1) == span_bytes(value_span(self.parts.tags.0@[i]), self.b())
@fnrewrite
self.parts.tags.iter() =>> self.parts.tags.0.iter()
@closure 0 |pair: &TagPair| -> (q: (&str, &str))
  requires pair_ok(*pair, self.b())
  ensures bs(q.0) == span_bytes(key_span(*pair), self.b()), bs(q.1) == span_bytes(value_span(*pair), self.b())
@fn irc|IrcMessageRef|text
  requires self.wf()
  ensures obs(r) == text_of(ospan(self.parts.params, self.b()))
@fn irc|IrcMessageRef|into_owned
  ensures r.b() == self.b(), r.src@ == self.src@, r.parts.tags.0@ == self.parts.tags.0@, r.parts.prefix == self.parts.prefix,
    r.parts.command == self.parts.command, r.parts.channel == self.parts.channel, r.parts.params == self.parts.params
@start
  proof { ax_string_from_obeys(); }
@rewrite irc\|
self.parts.tags.iter() =>> crate::vp::It(&self.parts.tags.0)
@rewrite irc\|
params.split_whitespace().nth($n) =>> crate::vp::nth_word(params, $n)

@fn irc|IrcMessage|parse
  requires encode_utf8(string_of(src)).len() <= u32::MAX
  ensures
    (r is Some) == has_command(encode_utf8(string_of(src))),
    r is Some ==> (r->0).src@ == string_of(src) && parts_match((r->0).parts, (r->0).b()) && (r->0).wf()
@attrs
#[verifier::allow(undeclared_external_trait)]
@fnrewrite
src.to_string() =>> crate::vp::to_string_of(src)
@fn irc|IrcMessage|raw
  ensures bs(r) == self.b()
@fn irc|IrcMessage|prefix
  requires self.wf()
  ensures
    (r is Some) == (self.parts.prefix is Some),
    r is Some ==> prefix_matches(r->0, self.parts.prefix->0, self.b())
@closure 0 |prefix: RawPrefix| -> (q: Prefix<'_>)
  requires raw_prefix_ok(prefix, self.b())
  ensures prefix_matches(q, prefix, self.b())
@fn irc|IrcMessage|command
  requires self.wf()
  ensures cmd_kind(r) == raw_kind(self.parts.command), r is Other ==> bs(r->Other_0) == span_bytes(self.parts.command->Other_0, self.b())
@fn irc|IrcMessage|channel
  requires self.wf()
  ensures obs(r) == channel_of(raw_kind(self.parts.command), ospan(self.parts.channel, self.b()), ospan(self.parts.params, self.b()))
@closure 0 |params: &str| -> (q: Option<&str>)
  ensures obs(q) == ws_word(bs(params), 2)
@closure 1 |params: &str| -> (q: Option<&str>)
  ensures obs(q) == ws_word(bs(params), 1)
@closure 2 |span: Span| -> (q: &str)
  requires span_ok(span, self.b())
  ensures bs(q) == span_bytes(span, self.b())
@fn irc|IrcMessage|params
  requires self.wf()
  ensures obs(r) == ospan(self.parts.params, self.b())
@closure 0 |span: Span| -> (q: &str)
  requires span_ok(span, self.b())
  ensures bs(q) == span_bytes(span, self.b())
@fn irc|IrcMessage|tag
  requires self.wf()
  ensures exists|t: Tag<'a>| #[trigger] call_ensures(<I as Into<Tag<'a>>>::into, (tag,), t) && obs(r) == tag_value(self.parts.tags.0@, self.b(), encode_utf8(tag_name(t)))
@sigrewrite
fn tag<'a>(&self, tag: impl Into<Tag<'a>>) =>> fn tag<'a, I: Into<Tag<'a>>>(&self, tag: I)
@closure 0 |pair: &&TagPair| -> (q: bool)
  requires pair_ok(**pair, self.b())
  ensures q == (span_bytes(key_span(**pair), self.b()) == encode_utf8(tag_name(tag)))
@closure 1 |pair: &TagPair| -> (q: &str)
  requires pair_ok(*pair, self.b())
  ensures bs(q) == span_bytes(value_span(*pair), self.b())
@fn irc|IrcMessage|text
  requires self.wf()
  ensures obs(r) == text_of(ospan(self.parts.params, self.b()))
@fn irc|IrcMessage|as_ref
  ensures r.b() == self.b(), r.parts.tags.0@ == self.parts.tags.0@, r.parts.prefix == self.parts.prefix,
    r.parts.command == self.parts.command, r.parts.channel == self.parts.channel, r.parts.params == self.parts.params
