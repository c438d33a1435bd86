@crateattrs
#![feature(const_destruct, const_trait_impl)]
@drop msg\|(impl.*static_assert).*
@modrewrite msg
TryFrom<IrcMessageRef<'src>> =>> TryFromMessage<'src>
@drop \|(assert_sync|assert_send)
@drop msg\|use smallvec.*

@typeattr irc::command|Command
#[derive(Clone, Copy, PartialEq, Eq)]
@note ------------------------------------------------------------------ escapes
@module
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use crate::vp::*;
use crate::vt::*;
broadcast use {crate::vp::group_str, crate::vt::group_text};
@fn |maybe_unescape
  ensures exists|c: Cow<'a, str>| #[trigger] call_ensures(<I as Into<Cow<'a, str>>>::into, (value,), c) && cb(r) == unescaped(cb(c)) && ((forall|i: int| !esc_at(cb(c), i)) ==> r == c)
@sigrewrite
fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) =>> fn maybe_unescape<'a, I: Into<Cow<'a, str>>>(value: I)
@beforeloop 0
  let ghost all = value;
  proof { lemma_cow_valid(all); if forall|j: int| 0 <= j < cb(all).len() ==> !esc_at(cb(all), j) { lemma_unescaped_plain(cb(all)); } }
@loop 0
  invariant_except_break value == all, forall|j: int| 0 <= j < it.index@ ==> !esc_at(cb(all), j)
  invariant it.seq().len() == cb(all).len(), (forall|j: int| 0 <= j < cb(all).len() ==> !esc_at(cb(all), j)) ==> unescaped(cb(all)) == cb(all)
  ensures cb(value) == unescaped(cb(all)), (forall|j: int| !esc_at(cb(all), j)) ==> value == all
@loopstart 0
  proof {
    let b = cb(all);
    lemma_cow_valid(all);
    reveal_strlit("\u{2E1D}");
    assert("\u{2E1D}"@ =~= seq!['\u{2E1D}']);
    let e = encode_utf8(seq!['\u{2E1D}']);
    let t = b.subrange(i as int, b.len() as int);
    if i + e.len() <= b.len() { assert(t.subrange(0, e.len() as int) =~= b.subrange(i as int, i + e.len())); }
    if esc_at(b, i as int) { lemma_esc_boundary(b, i as int); }
  }
@before value = Cow::Owned
  proof {
    assert(value == all);
    assert(rest@ == cb(all).subrange(i as int, cb(all).len() as int));
    assert(rest@[0] == 0x5c || rest@.subrange(0, encode_utf8(seq!['\u{2E1D}']).len() as int) == encode_utf8(seq!['\u{2E1D}']));
  }
@fn |actually_unescape
  requires bnd(bs(input), start as int), forall|i: int| 0 <= i < start ==> !esc_at(bs(input), i)
  ensures encode_utf8(r@) == unescaped(bs(input))
@beforeloop 0
  let ghost tail = bs(input).subrange(start as int, bs(input).len() as int);
  let ghost want = unesc(input@, false);
  proof {
    let b = bs(input);
    let p = b.subrange(0, start as int);
    assert(p + tail =~= b);
    encode_utf8_decode_utf8(input@);
    valid_utf8_split(b, start as int);
    decode_utf8_split(b, start as int);
    lemma_plain_bytes(decode_utf8(p), b, start as int);
    lemma_unesc_plain(decode_utf8(p), decode_utf8(tail));
    assert(bs(input).subrange(0, start as int) == p);
    let d = decode_utf8(tail);
    assert(d.subrange(0, d.len() as int) =~= d);
  }
@loopstart 0
  proof {
    let n = it.index@;
    let rest = it.seq().subrange(n, it.seq().len() as int);
    assert(rest.subrange(1, rest.len() as int) =~= it.seq().subrange(n + 1, it.seq().len() as int));
  }
@loop 0
  invariant it.seq() == decode_utf8(tail), out@ + unesc(it.seq().subrange(it.index@, it.seq().len() as int), escape) =~= want

@keep irc\|unescape
@fn irc|unescape
  ensures encode_utf8(r@) == crate::vt::unescaped(bs(value))
@start
  broadcast use crate::vt::group_text;
@beforeloop 0
  let ghost want = crate::vt::unesc(value@, false);
  proof {
    assert(value@.subrange(0, value@.len() as int) =~= value@);
    encode_utf8_decode_utf8(value@);
  }
@loopstart 0
  proof {
    let n = it.index@;
    let rest = it.seq().subrange(n, it.seq().len() as int);
    assert(rest.subrange(1, rest.len() as int) =~= it.seq().subrange(n + 1, it.seq().len() as int));
  }
@loop 0
  invariant it.seq() == value@, out@ + crate::vt::unesc(it.seq().subrange(it.index@, it.seq().len() as int), escape) =~= want

@note ------------------------------------------------------------------ vocabulary of the typed messages
@module msg
use crate::chrono;
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Command<'a> {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Command<'a>) -> bool {
    cmd_kind(*self) == cmd_kind(*o) && (*self is Other ==> bs(self->Other_0) == bs(o->Other_0))
  }
}
pub open spec fn kind(m: IrcMessageRef<'_>) -> CmdKind { raw_kind(m.parts.command) }
/// the value of a tag
pub open spec fn tg(m: IrcMessageRef<'_>, t: Tag<'_>) -> Option<Seq<u8>> { tag_value(m.parts.tags.0@, m.b(), encode_utf8(tag_name(t))) }
pub open spec fn params(m: IrcMessageRef<'_>) -> Option<Seq<u8>> { ospan(m.parts.params, m.b()) }
pub open spec fn msg_text(m: IrcMessageRef<'_>) -> Option<Seq<u8>> { text_of(params(m)) }
pub open spec fn chan(m: IrcMessageRef<'_>) -> Option<Seq<u8>> { channel_of(kind(m), ospan(m.parts.channel, m.b()), params(m)) }
pub open spec fn nick(m: IrcMessageRef<'_>) -> Option<Seq<u8>> {
  match m.parts.prefix { Some(p) => ospan(p.nick, m.b()), None => None }
}
pub open spec fn split_at_text(o: Option<Seq<u8>>) -> Option<(Seq<u8>, Seq<u8>)> {
  match o { Some(b) => splits_once(b, encode_utf8(" :"@)), None => None }
}
/// a `/me` message: the text between `\x01ACTION ` and `\x01`
#[verifier::opaque]
pub open spec fn action_text(b: Seq<u8>) -> (Seq<u8>, bool) {
  match strip_start(b, encode_utf8("\u{1}ACTION "@)) {
    Some(t) => match strip_end(t, encode_utf8(seq!['\u{1}'])) { Some(u) => (u, true), None => (b, false) },
    None => (b, false),
  }
}
pub open spec fn badge_views(v: Seq<Badge<'_>>) -> Seq<BadgeV> { Seq::new(v.len(), |i: int| v[i].v()) }
/// the `a/b` items of a comma separated list
#[verifier::opaque]
pub open spec fn pair_list(b: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)> {
  flatten(Seq::new(pieces(b, 0x2c).len(), |i: int| splits_once(pieces(b, 0x2c)[i], seq![0x2f])))
}
pub open spec fn pair_views(v: Seq<(&str, &str)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(v.len(), |i: int| (bs(v[i].0), bs(v[i].1))) }
#[verifier::opaque]
pub open spec fn first_value(p: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>) -> Option<Seq<u8>>
  decreases p.len()
{
  if p.len() == 0 { None } else if p[0].0 == k { Some(p[0].1) } else { first_value(p.subrange(1, p.len() as int), k) }
}
#[verifier::opaque]
pub open spec fn badge_of(d: BadgeDataV) -> BadgeV {
  let n = chars_of(d.name);
  if n == "staff"@ { BadgeV::Staff } else if n == "turbo"@ { BadgeV::Turbo } else if n == "broadcaster"@ { BadgeV::Broadcaster } else if n == "moderator"@ { BadgeV::Moderator }
  else if n == "subscriber"@ {
    BadgeV::Subscriber(SubscriberV {
      version: d.version,
      months: match d.extra { Some(e) => e, None => encode_utf8("1"@) },
      months_n: match num_u64(d.extra) { Some(n) => n, None => 1 },
    })
  } else { BadgeV::Other(d) }
}
pub open spec fn badge_data_of(b: BadgeV) -> BadgeDataV {
  let one = encode_utf8("1"@);
  match b {
    BadgeV::Staff => BadgeDataV { name: encode_utf8("staff"@), version: one, extra: None },
    BadgeV::Turbo => BadgeDataV { name: encode_utf8("turbo"@), version: one, extra: None },
    BadgeV::Broadcaster => BadgeDataV { name: encode_utf8("broadcaster"@), version: one, extra: None },
    BadgeV::Moderator => BadgeDataV { name: encode_utf8("moderator"@), version: one, extra: None },
    BadgeV::Subscriber(s) => BadgeDataV { name: encode_utf8("subscriber"@), version: s.version, extra: Some(s.months) },
    BadgeV::Other(d) => d,
  }
}
pub proof fn lemma_badge_lits()
  ensures "staff"@.len() == 5, "turbo"@.len() == 5, "staff"@[0] == 's', "turbo"@[0] == 't', "broadcaster"@.len() == 11, "moderator"@.len() == 9, "subscriber"@.len() == 10
{
  reveal_strlit("staff"); reveal_strlit("turbo"); reveal_strlit("broadcaster"); reveal_strlit("moderator"); reveal_strlit("subscriber");
}
pub open spec fn badge_at(p: (Seq<u8>, Seq<u8>), info: Seq<u8>) -> BadgeV {
  badge_of(BadgeDataV { name: p.0, version: p.1, extra: first_value(pair_list(info), p.0) })
}
/// the badges that the `badges` and `badge-info` tags stand for
#[verifier::opaque]
pub open spec fn badges_of(b: Seq<u8>, info: Seq<u8>) -> Seq<BadgeV> {
  if b.len() == 0 { Seq::empty() } else { Seq::new(pair_list(b).len(), |k: int| badge_at(pair_list(b)[k], info)) }
}
pub open spec fn badges_or_none(b: Option<Seq<u8>>, i: Option<Seq<u8>>) -> Seq<BadgeV> {
  match (b, i) { (Some(x), Some(y)) => badges_of(x, y), _ => Seq::empty() }
}
pub mod lemmas {
use vstd::prelude::*;
use vstd::utf8::*;
use super::*;
use crate::vp::*;
use crate::vt::*;
pub broadcast proof fn lemma_badge_views_of(v: Seq<Badge<'_>>, b: Seq<u8>, i: Seq<u8>)
  requires b.len() > 0, v.len() == pair_list(b).len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).v() == badge_at(pair_list(b)[k], i)
  ensures #[trigger] badge_views(v) == #[trigger] badges_of(b, i)
{
  reveal(badges_of);
  assert(badge_views(v) =~= badges_of(b, i));
}
pub broadcast proof fn lemma_badge_views_none(v: Seq<Badge<'_>>)
  requires v.len() == 0
  ensures #[trigger] badge_views(v) == Seq::<BadgeV>::empty()
{
  assert(badge_views(v) =~= Seq::<BadgeV>::empty());
}
pub broadcast proof fn lemma_cow_views_none(v: Seq<std::borrow::Cow<'_, str>>)
  requires v.len() == 0
  ensures #[trigger] cow_views(v) == Seq::<Seq<u8>>::empty()
{
  assert(cow_views(v) =~= Seq::<Seq<u8>>::empty());
}
pub broadcast proof fn lemma_badge_views(v: Seq<Badge<'_>>, w: Seq<Badge<'_>>)
  requires v.len() == w.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).v() == w[k].v()
  ensures #[trigger] badge_views(v) == #[trigger] badge_views(w)
{
  assert(badge_views(v) =~= badge_views(w));
}
pub proof fn lemma_flatten_pairs(o: Seq<Option<(&str, &str)>>, w: Seq<Option<(Seq<u8>, Seq<u8>)>>)
  requires o.len() == w.len(), forall|k: int| 0 <= k < o.len() ==> pair_view(#[trigger] o[k]) == w[k]
  ensures pair_views(flatten(o)) == flatten(w)
  decreases o.len()
{
  reveal(flatten);
  if o.len() > 0 {
    assert forall|k: int| 0 <= k < o.drop_last().len() implies pair_view(#[trigger] o.drop_last()[k]) == w.drop_last()[k] by { assert(o.drop_last()[k] == o[k]); }
    lemma_flatten_pairs(o.drop_last(), w.drop_last());
    assert(pair_view(o[o.len() - 1]) == w[w.len() - 1]);
  }
  assert(pair_views(flatten(o)) =~= flatten(w));
}
pub broadcast proof fn lemma_pair_list(o: Seq<Option<(&str, &str)>>, b: Seq<u8>)
  requires o.len() == pieces(b, 0x2c).len(), forall|k: int| 0 <= k < o.len() ==> pair_view(#[trigger] o[k]) == splits_once(pieces(b, 0x2c)[k], seq![0x2f])
  ensures pair_views(#[trigger] flatten(o)) == #[trigger] pair_list(b)
{
  reveal(pair_list);
  lemma_flatten_pairs(o, Seq::new(pieces(b, 0x2c).len(), |i: int| splits_once(pieces(b, 0x2c)[i], seq![0x2f])));
}
pub proof fn lemma_first(p: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>, i: int)
  requires 0 <= i <= p.len(), forall|j: int| 0 <= j < i ==> (#[trigger] p[j]).0 != k, i < p.len() ==> p[i].0 == k
  ensures first_value(p, k) == if i < p.len() { Some(p[i].1) } else { None::<Seq<u8>> }
  decreases i
{
  reveal(first_value);
  if i > 0 {
    let t = p.subrange(1, p.len() as int);
    assert(p[0].0 != k);
    assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] t[j]).0 != k by { assert(t[j] == p[j + 1]); }
    if i < p.len() { assert(t[i - 1] == p[i]); }
    lemma_first(t, k, i - 1);
  }
}
pub broadcast proof fn lemma_first_at(v: Seq<(&str, &str)>, k: Seq<u8>, i: int)
  requires 0 <= i < v.len(), bs(v[i].0) == k, forall|j: int| 0 <= j < i ==> bs((#[trigger] v[j]).0) != k
  ensures #![trigger v[i], first_value(pair_views(v), k)] first_value(pair_views(v), k) == Some(bs(v[i].1))
{
  assert forall|j: int| 0 <= j < i implies (#[trigger] pair_views(v)[j]).0 != k by { assert(bs(v[j].0) != k); }
  lemma_first(pair_views(v), k, i);
}
pub broadcast proof fn lemma_first_none(v: Seq<(&str, &str)>, k: Seq<u8>)
  requires forall|j: int| 0 <= j < v.len() ==> bs((#[trigger] v[j]).0) != k
  ensures #[trigger] first_value(pair_views(v), k) is None
{
  assert forall|j: int| 0 <= j < v.len() implies (#[trigger] pair_views(v)[j]).0 != k by { assert(bs(v[j].0) != k); }
  lemma_first(pair_views(v), k, v.len() as int);
}
/// T::from(t) is t
pub broadcast axiom fn ax_tag_self<'a>(t: Tag<'a>)
  ensures #[trigger] <Tag<'a> as vstd::std_specs::convert::FromSpec<Tag<'a>>>::from_spec(t) == t;
pub broadcast axiom fn ax_tag_self_obeys<'a>()
  ensures #[trigger] <Tag<'a> as vstd::std_specs::convert::FromSpec<Tag<'a>>>::obeys_from_spec();
pub broadcast group group_msg {
  lemma_badge_views_of, lemma_badge_views_none, lemma_badge_views, lemma_cow_views_none, lemma_pair_list, lemma_first_at, lemma_first_none, ax_tag_self, ax_tag_self_obeys,
}
}

@note ------------------------------------------------------------------ std values that stand for closures and iterators
@rewrite msg(::\w+)?\|
.map(Cow::Borrowed) =>> .map(crate::vt::borrowed)
@rewrite msg(::\w+)?\|
|$i_v| $i_v.parse().ok() =>> crate::vt::parse_ok
@rewrite msg(::\w+)?\|
|$i_v| $i_v.into() =>> crate::vt::into_cow
@rewrite msg(::\w+)?\|
.prefix().and_then(|$i_p| $body) =>> .prefix().and_then(|$i_p: crate::irc::Prefix<'src>| -> (q: Option<&'src str>) ensures q == $i_p.nick { $body })
@rewrite msg(::\w+)?\|
.tag(Tag::BadgeInfo)).map(|($i_a, $i_b)| $body) =>> .tag(Tag::BadgeInfo)).map(|p: (&'src str, &'src str)| -> (q: Vec<Badge<'src>>) ensures badge_views(q@) == badges_of(bs(p.0), bs(p.1)) { let ($i_a, $i_b) = p; $body })
@rewrite msg(::\w+)?\|
self.$i_f.into_iter() =>> crate::vt::L(self.$i_f)
@rewrite msg(::\w+)?\|
self.$i_f.iter() =>> crate::vt::v_iter(&self.$i_f)
@rewrite msg(::\w+)?\|
$i_f.iter() =>> crate::vt::v_iter(&$i_f)
@rewrite msg(::\w+)?\|
$i_s.split($c) =>> crate::vt::v_split($i_s, $c)
@rewrite msg(::\w+)?\|
.map(Iterator::collect) =>> .map(crate::vt::L::collect)
@rewrite msg(::\w+)?\|
.map(|$i_i| $i_i.map(crate::vt::borrowed)) =>> .map(|$i_i: crate::vt::L<&'src str>| -> (q: crate::vt::L<Cow<'src, str>>) ensures cow_views(q.0@) == str_views($i_i.0@) { $i_i.map(crate::vt::borrowed) })
@rewrite msg(::\w+)?\|
.map(|$i_i| $i_i.map(Cow::Borrowed)) =>> .map(|$i_i: crate::vt::L<&'src str>| -> (q: crate::vt::L<Cow<'src, str>>) ensures cow_views(q.0@) == str_views($i_i.0@) { $i_i.map(crate::vt::borrowed) })
@rewrite msg(::\w+)?\|
.collect::<SmallVec<[_; 32]>>() =>> .collect()

@note ------------------------------------------------------------------ msg.rs
@fn msg|FromIrc|from_irc
  requires message.wf()
@fn msg|is_not_empty
  ensures r == (bs(*s).len() > 0)
@sigrewrite
fn is_not_empty<T: AsRef<str>>(s: &T) =>> fn is_not_empty(s: &&str)
@fnrewrite
s.as_ref() =>> s
@fn msg|maybe_clone
  ensures cb(r) == cb(v)
@sigrewrite
fn maybe_clone<T: ToOwned + ?Sized>(v: Cow<'_, T>) -> (r: Cow<'static, T>) =>> fn maybe_clone(v: Cow<'_, str>) -> (r: Cow<'static, str>)
@fn msg|parse_timestamp
  ensures r == time(Some(bs(s)))
@fn msg|parse_duration
  ensures r == seconds(parsed_u64(bs(s)))
@fn msg|parse_bool
  ensures r == truthy(bs(v))
@fnrewrite
.map(|$i_n| $body) =>> .map(|$i_n: u8| -> (q: bool) ensures q == ($i_n > 0) { $body })
@fn msg|parse_message_text
  ensures (bs(r.0), r.1) == action_text(bs(input))
@start
  proof { reveal(action_text); }
@fnrewrite
$i_s.strip_suffix($c) =>> crate::vt::strip_suffix_char($i_s, $c)
@fn msg|split_comma
  ensures str_views(r.0@) == pieces(bs(s), 0x2c)
@sigrewrite
impl DoubleEndedIterator<Item = &str> + '_ =>> crate::vt::L<&str>
@fn msg|parse_badges
  ensures badge_views(r@) == badges_of(bs(badges), bs(badge_info))
@attrs #[verifier::rlimit(200)]
@fnrewrite must
|$i_x| $i_x.split_once($c) =>> |$i_x: &'src str| -> (q: Option<(&'src str, &'src str)>) ensures pair_view(q) == splits_once(bs($i_x), seq![0x2f]) { $i_x.split_once($c) }
@fnrewrite
.map(|(_, $i_b)| $body) =>> .map(|p: &(&'src str, &'src str)| -> (q: Cow<'src, str>) ensures cb(q) == bs(p.1) { let (_, $i_b) = p; $body })
@fnrewrite must
.map(|($i_a, $i_b)| $body) =>> .map(|p: (&'src str, &'src str)| -> (q: Badge<'src>) ensures q.v() == badge_at((bs(p.0), bs(p.1)), info) { let ($i_a, $i_b) = p; $body })
@fnrewrite
.find(|($i_a, _)| $body) =>> .find(|p: &&(&'src str, &'src str)| -> (q: bool) ensures q == (bs(p.0) == bs(name)) { let ($i_a, _) = *p; $body })
@start
  let ghost info = bs(badge_info);
  broadcast use lemmas::group_msg;
  proof { reveal(badges_of); }
@fn msg|Badge as From<BadgeData>|from
  ensures r.v() == badge_of(value.v())
@start
  proof { lemma_badge_lits(); reveal(badge_of); }
@fnrewrite
|$i_v| $i_v.parse().ok() =>> crate::vt::parse_ok_cow
@fn msg|BadgeData as From<Badge>|from
  ensures r.v() == badge_data_of(value.v())
@fn msg|Badge|as_badge_data
  ensures r.v() == badge_data_of(self.v())
@fn msg|Message as FromIrc|from_irc
  ensures message_is(okv(r), message)
@module msg
/// std's TryFrom, of a message
pub trait TryFromMessage<'src>: Sized {
  type Error;
  fn try_from_message(value: IrcMessageRef<'src>) -> Result<Self, Self::Error>
    requires value.wf();
}
@fn msg|Message as TryFromMessage|try_from
  ensures message_is(okv(r), value)
@sigrewrite
fn try_from(value =>> fn try_from_message(value
@fn msg|Message|parse
  requires bs(src).len() <= u32::MAX
  ensures
    !has_command(bs(src)) ==> r is Err,
    has_command(bs(src)) ==> exists|m: IrcMessageRef<'src>| m.src == src && parts_match(m.parts, bs(src)) && m.wf() && #[trigger] message_is(okv(r), m)
@fn msg|IrcMessageRef|as_typed
  requires self.wf()
  ensures message_is(okv(r), self)
@fn msg|IrcMessage|as_typed
  requires self.wf()
  ensures exists|m: IrcMessageRef<'_>| m.b() == self.b() && m.parts.tags.0@ == self.parts.tags.0@ && m.parts.prefix == self.parts.prefix
    && m.parts.command == self.parts.command && m.parts.channel == self.parts.channel && m.parts.params == self.parts.params
    && #[trigger] message_is(okv(r), m)

@note ------------------------------------------------------------------ privmsg.rs
@module msg::privmsg
use crate::chrono;
#[verifier::opaque]
pub open spec fn level_of(s: Seq<char>) -> Option<PinnedChatLevel> {
  if s == "ONE"@ { Some(PinnedChatLevel::ONE) } else if s == "TWO"@ { Some(PinnedChatLevel::TWO) } else if s == "THREE"@ { Some(PinnedChatLevel::THREE) }
  else if s == "FOUR"@ { Some(PinnedChatLevel::FOUR) } else if s == "FIVE"@ { Some(PinnedChatLevel::FIVE) } else if s == "SIX"@ { Some(PinnedChatLevel::SIX) }
  else if s == "SEVEN"@ { Some(PinnedChatLevel::SEVEN) } else if s == "EIGHT"@ { Some(PinnedChatLevel::EIGHT) } else if s == "NINE"@ { Some(PinnedChatLevel::NINE) }
  else if s == "TEN"@ { Some(PinnedChatLevel::TEN) } else { None }
}
impl vstd::std_specs::convert::FromSpecImpl<PinnedChatLevel> for u8 {
  open spec fn obeys_from_spec() -> bool { false }
  open spec fn from_spec(v: PinnedChatLevel) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for PinnedChatLevel {
  open spec fn obeys_try_from_spec() -> bool { false }
  open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> { arbitrary() }
}
/// a pinned chat level by its number, 0 for ONE
pub open spec fn level_no(n: int) -> Option<PinnedChatLevel> {
  if n == 0 { Some(PinnedChatLevel::ONE) } else if n == 1 { Some(PinnedChatLevel::TWO) } else if n == 2 { Some(PinnedChatLevel::THREE) }
  else if n == 3 { Some(PinnedChatLevel::FOUR) } else if n == 4 { Some(PinnedChatLevel::FIVE) } else if n == 5 { Some(PinnedChatLevel::SIX) }
  else if n == 6 { Some(PinnedChatLevel::SEVEN) } else if n == 7 { Some(PinnedChatLevel::EIGHT) } else if n == 8 { Some(PinnedChatLevel::NINE) }
  else if n == 9 { Some(PinnedChatLevel::TEN) } else { None }
}
LEVEL_LITS
#[verifier::opaque]
pub open spec fn reply_of(m: IrcMessageRef<'_>) -> Option<ReplyV> {
  match (tg(m, Tag::ReplyParentMsgId), tg(m, Tag::ReplyThreadParentMsgId), tg(m, Tag::ReplyThreadParentUserLogin), tg(m, Tag::ReplyParentUserId), tg(m, Tag::ReplyParentUserLogin),
         tg(m, Tag::ReplyParentDisplayName), tg(m, Tag::ReplyParentMsgBody)) {
    (Some(id), Some(tid), Some(tlogin), Some(uid), Some(ulogin), Some(uname), Some(body)) =>
      Some(ReplyV { thread_parent_message_id: tid, thread_parent_user_login: tlogin, message_id: id, sender: UserV { id: uid, login: ulogin, name: uname }, text: body }),
    _ => None,
  }
}
#[verifier::opaque]
pub open spec fn pinned_of(m: IrcMessageRef<'_>) -> Option<PinnedChatV> {
  match (num_i64(tg(m, Tag::PinnedChatPaidAmount)), tg(m, Tag::PinnedChatPaidCurrency), num_i64(tg(m, Tag::PinnedChatPaidExponent)), tg(m, Tag::PinnedChatPaidLevel), tg(m, Tag::PinnedChatPaidIsSystemMessage)) {
    (Some(n), Some(c), Some(e), Some(l), Some(s)) => match level_of(chars_of(l)) {
      Some(level) => Some(PinnedChatV { paid_amount: n, paid_currency: c, paid_exponent: e, paid_level: level, is_system_message: truthy(s) }),
      None => None,
    },
    _ => None,
  }
}
pub mod lemmas {
use vstd::prelude::*;
use super::*;
pub uninterp spec fn transmute_ok<A, B>(a: A) -> bool;
pub uninterp spec fn transmute_is<A, B>(a: A, b: B) -> bool;
pub assume_specification<Src, Dst> [std::intrinsics::transmute] (a: Src) -> (r: Dst) requires transmute_ok::<Src, Dst>(a) ensures transmute_is(a, r);
/// a u8 may be reinterpreted as a PinnedChatLevel iff it is a discriminant, and yields the variant with that discriminant
pub broadcast axiom fn ax_transmute(a: u8, r: PinnedChatLevel) ensures #[trigger] transmute_is(a, r) == (r as u8 == a);
pub broadcast axiom fn ax_transmute_ok(a: u8) ensures #[trigger] transmute_ok::<u8, PinnedChatLevel>(a) == (a < 10);
}
@typeattr msg::privmsg|PinnedChatLevel
#[derive(Clone, Copy)] #[repr(u8)]
@fn msg::privmsg|PinnedChatLevel|as_str
  ensures level_of(r@) == Some(*self)
@start
  proof { lemma_level_lits(); reveal(level_of); }
@fn msg::privmsg|u8 as From<PinnedChatLevel>|from
  ensures level_no(r as int) == Some(level)
@fn msg::privmsg|PinnedChatLevel as TryFrom<u8>|try_from
  ensures (level_no(value as int) is Some) == (r is Ok), r is Ok ==> level_no(value as int) == Some(r->Ok_0)
@fn msg::privmsg|PinnedChatLevel as FromStr|from_str
  ensures (level_of(s@) is Some) == (r is Ok), r is Ok ==> level_of(s@) == Some(r->Ok_0)
@start
  proof { lemma_level_lits(); reveal(level_of); }
@fn msg::privmsg|Privmsg|parse
@attrs #[verifier::rlimit(100)]
@start
  proof {
    reveal(privmsg_of);
    assert(tg(message, Tag::ReplyParentMsgId) is None ==> reply_of(message) is None) by { reveal(reply_of); }
    assert(tg(message, Tag::PinnedChatPaidAmount) is None ==> pinned_of(message) is None) by { reveal(pinned_of); }
  }
@fnrewrite must
message.tag(Tag::ReplyParentMsgId).and_then(|$i_x| $body) =>> message.tag(Tag::ReplyParentMsgId).and_then(|$i_x: &'src str| -> (q: Option<Reply<'src>>) requires message.wf(), tg(message, Tag::ReplyParentMsgId) == Some(bs($i_x)) ensures (match q { Some(x) => Some(x.v()), None => None }) == reply_of(message) { proof { reveal(reply_of); } $body })
@fnrewrite must
message.tag(Tag::PinnedChatPaidAmount).and_then(|$i_x| $body) =>> message.tag(Tag::PinnedChatPaidAmount).and_then(|$i_x: &'src str| -> (q: Option<PinnedChat<'src>>) requires message.wf(), tg(message, Tag::PinnedChatPaidAmount) == Some(bs($i_x)) ensures (match q { Some(x) => Some(x.v()), None => None }) == pinned_of(message) { proof { reveal(pinned_of); } $body })

@note ------------------------------------------------------------------ the others
@module msg::clear_msg
use crate::chrono;

@module msg::clear_chat
use crate::chrono;
pub open spec fn action_of(m: IrcMessageRef<'_>) -> Option<ActionV> {
  match msg_text(m) {
    None => Some(ActionV::Clear),
    Some(user) => match tg(m, Tag::TargetUserId) {
      None => None,
      Some(id) => Some(match seconds(num_u64(tg(m, Tag::BanDuration))) {
        Some(duration) => ActionV::TimeOut(TimeOutV { user, id, duration }),
        None => ActionV::Ban(BanV { user, id }),
      }),
    },
  }
}
@fn msg::clear_chat|ClearChat|target
  ensures obs(r) == (match self.v().action { ActionV::Clear => None, ActionV::Ban(b) => Some(b.user), ActionV::TimeOut(t) => Some(t.user) })
@fn msg::clear_chat|Action|is_clear
  ensures r == (self.v() is Clear)
@fn msg::clear_chat|Action|is_ban
  ensures r == (self.v() is Ban)
@fn msg::clear_chat|Action|is_time_out
  ensures r == (self.v() is TimeOut)

@module msg::room_state
pub open spec fn followers(o: Option<i64>) -> Option<FollowersOnly> {
  match o {
    Some(n) => Some(if n > 0 { FollowersOnly::Enabled(Some(secs(if n * 60 > u64::MAX { u64::MAX } else { (n * 60) as u64 }))) } else if n == 0 { FollowersOnly::Enabled(None) } else { FollowersOnly::Disabled }),
    None => None,
  }
}
@fn msg::room_state|RoomState|parse
@fnrewrite must
.map(|$i_n: i64| $body) =>> .map(|$i_n: i64| -> (q: FollowersOnly) ensures Some(q) == followers(Some($i_n)) { $body })

@module msg::user_notice
use crate::chrono;
#[verifier::opaque]
pub open spec fn promo_of(m: IrcMessageRef<'_>) -> Option<SubGiftPromoV> {
  match (num_u64(tg(m, Tag::MsgParamPromoGiftTotal)), tg(m, Tag::MsgParamPromoName)) { (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromoV { total_gifts, promo_name }), _ => None }
}
pub open spec fn plan(m: IrcMessageRef<'_>) -> Option<Seq<u8>> { tg(m, Tag::MsgParamSubPlan) }
pub open spec fn plan_name(m: IrcMessageRef<'_>) -> Option<Seq<u8>> { tg(m, Tag::MsgParamSubPlanName) }
/// the user id that Twitch uses for anonymous gifters
pub open spec fn anon_id(m: IrcMessageRef<'_>) -> bool { match tg(m, Tag::UserId) { Some(i) => chars_of(i) == "274598607"@, None => false } }
/// the events by number, any other text last
#[verifier::opaque]
pub open spec fn event_no(s: Seq<char>) -> int {
  if s == "sub"@ { 0 } else if s == "resub"@ { 1 } else if s == "raid"@ { 2 } else if s == "subgift"@ { 3 } else if s == "anonsubgift"@ { 4 } else if s == "anonsubmysterygift"@ { 5 } else if s == "submysterygift"@ { 6 } else if s == "giftpaidupgrade"@ { 7 } else if s == "anongiftpaidupgrade"@ { 8 } else if s == "ritual"@ { 9 } else if s == "bitsbadgetier"@ { 10 } else if s == "announcement"@ { 11 } else { 12 }
}
/// the event of a user notice, and whether it comes without a sender
#[verifier::opaque]
pub open spec fn event_of(m: IrcMessageRef<'_>, eid: Seq<u8>) -> Option<(EventV, bool)> {
  let e = event_no(chars_of(eid));
  let mass = num_u64(tg(m, Tag::MsgParamMassGiftCount));
  if e == 0 || e == 1 {
    match (num_u64(tg(m, Tag::MsgParamCumulativeMonths)), plan(m), plan_name(m)) {
      (Some(cumulative_months), Some(sub_plan), Some(sub_plan_name)) => Some((EventV::SubOrResub(SubOrResubV { is_resub: e == 1, cumulative_months,
        streak_months: positive(num_u64(tg(m, Tag::MsgParamStreakMonths))), sub_plan, sub_plan_name }), false)),
      _ => None,
    }
  } else if e == 2 {
    match (num_u64(tg(m, Tag::MsgParamViewerCount)), tg(m, Tag::MsgParamProfileImageUrl)) {
      (Some(viewer_count), Some(profile_image_url)) => Some((EventV::Raid(RaidV { viewer_count, profile_image_url }), false)),
      _ => None,
    }
  } else if e == 3 || e == 4 {
    match (num_u64(tg(m, Tag::MsgParamMonths)), tg(m, Tag::MsgParamRecipientId), tg(m, Tag::MsgParamRecipientUserName), tg(m, Tag::MsgParamRecipientDisplayName), plan(m), plan_name(m), num_u64(tg(m, Tag::MsgParamGiftMonths))) {
      (Some(cumulative_months), Some(id), Some(login), Some(name), Some(sub_plan), Some(sub_plan_name), Some(num_gifted_months)) =>
        Some((EventV::SubGift(SubGiftV { cumulative_months, recipient: UserV { id, login, name }, sub_plan, sub_plan_name, num_gifted_months }), e == 4 || anon_id(m))),
      _ => None,
    }
  } else if e == 5 || (e == 6 && anon_id(m)) {
    match (mass, plan(m)) {
      (Some(count), Some(sub_plan)) => Some((EventV::AnonSubMysteryGift(AnonSubMysteryGiftV { count, sub_plan }), true)),
      _ => None,
    }
  } else if e == 6 {
    match (mass, num_u64(tg(m, Tag::MsgParamSenderCount)), plan(m)) {
      (Some(count), Some(sender_total_gifts), Some(sub_plan)) => Some((EventV::SubMysteryGift(SubMysteryGiftV { count, sender_total_gifts, sub_plan }), false)),
      _ => None,
    }
  } else if e == 7 {
    match (tg(m, Tag::MsgParamSenderLogin), tg(m, Tag::MsgParamSenderName)) {
      (Some(gifter_login), Some(gifter_name)) => Some((EventV::GiftPaidUpgrade(GiftPaidUpgradeV { gifter_login, gifter_name, promotion: promo_of(m) }), false)),
      _ => None,
    }
  } else if e == 8 {
    Some((EventV::AnonGiftPaidUpgrade(AnonGiftPaidUpgradeV { promotion: promo_of(m) }), true))
  } else if e == 9 {
    match tg(m, Tag::MsgParamRitualName) { Some(name) => Some((EventV::Ritual(RitualV { name }), false)), None => None }
  } else if e == 10 {
    match num_u64(tg(m, Tag::MsgParamThreshold)) { Some(tier) => Some((EventV::BitsBadgeTier(BitsBadgeTierV { tier }), false)), None => None }
  } else if e == 11 {
    Some((EventV::Announcement(AnnouncementV { highlight_color: match tg(m, Tag::MsgParamColor) { Some(c) => c, None => encode_utf8("PRIMARY"@) } }), false))
  } else { Some((EventV::Unknown, true)) }
}
#[verifier::opaque]
pub open spec fn sender_of(m: IrcMessageRef<'_>, anon: bool) -> Option<Option<UserV>> {
  if anon { Some(None) } else {
    match (tg(m, Tag::UserId), tg(m, Tag::Login), tg(m, Tag::DisplayName)) { (Some(id), Some(login), Some(name)) => Some(Some(UserV { id, login, name })), _ => None }
  }
}
EVENT_LITS
pub proof fn lemma_event_no(s: Seq<char>)
  ensures
    (s == "sub"@) == (event_no(s) == 0),
    (s == "resub"@) == (event_no(s) == 1),
    (s == "raid"@) == (event_no(s) == 2),
    (s == "subgift"@) == (event_no(s) == 3),
    (s == "anonsubgift"@) == (event_no(s) == 4),
    (s == "anonsubmysterygift"@) == (event_no(s) == 5),
    (s == "submysterygift"@) == (event_no(s) == 6),
    (s == "giftpaidupgrade"@) == (event_no(s) == 7),
    (s == "anongiftpaidupgrade"@) == (event_no(s) == 8),
    (s == "ritual"@) == (event_no(s) == 9),
    (s == "bitsbadgetier"@) == (event_no(s) == 10),
    (s == "announcement"@) == (event_no(s) == 11),
    0 <= event_no(s) <= 12
{ lemma_event_lits(); reveal(event_no); }
@fn msg::user_notice|parse_promotion
  requires message.wf()
  ensures (match r { Some(x) => Some(x.v()), None => None }) == promo_of(*message)
@start
  proof { reveal(promo_of); }
@fn msg::user_notice|UserNotice|parse
@attrs #[verifier::rlimit(250)]
@start
  proof { if let Some(e) = tg(message, Tag::MsgId) { lemma_event_no(chars_of(e)); } reveal(user_notice_of); reveal(event_of); reveal(sender_of); }
@fnrewrite
.and_then(|$i_n| if $body) =>> .and_then(|$i_n: u64| -> (q: Option<u64>) ensures q == positive(Some($i_n)) { if $body })
