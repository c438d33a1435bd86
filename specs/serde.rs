// serde's data model, as far as the message types use it.  Assumed: a format writes the tree a type
// shows it and gives the same tree back (numbers, text, lists, objects by field name, `None` as null);
// serde's derived code shows and accepts exactly what the type's attributes say (generated below
// from those attributes, vx/serdegen.py).
pub mod vser_base {
use vstd::prelude::*;
verus! {
pub ghost enum SV {
  Null,
  Bool(bool),
  Num(int),
  Text(Seq<u8>),
  Time(crate::chrono::DateTime<crate::chrono::Utc>),
  Dur(std::time::Duration),
  List(Seq<SV>),
  /// fields by name (the names are numbered by the generator)
  Obj(Map<int, SV>),
  /// a variant without content
  Name(int),
  /// a variant with content
  Tagged(int, Box<SV>),
}
pub open spec fn leaf_u64(s: SV) -> Option<u64> { match s { SV::Num(n) => if 0 <= n <= u64::MAX { Some(n as u64) } else { None }, _ => None } }
pub open spec fn leaf_i64(s: SV) -> Option<i64> { match s { SV::Num(n) => if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None }, _ => None } }
pub open spec fn leaf_bool(s: SV) -> Option<bool> { match s { SV::Bool(b) => Some(b), _ => None } }
pub open spec fn leaf_text(s: SV) -> Option<Seq<u8>> { match s { SV::Text(b) => Some(b), _ => None } }
pub open spec fn leaf_time(s: SV) -> Option<crate::chrono::DateTime<crate::chrono::Utc>> { match s { SV::Time(t) => Some(t), _ => None } }
pub open spec fn leaf_duration(s: SV) -> Option<std::time::Duration> { match s { SV::Dur(t) => Some(t), _ => None } }
/// an object in which a name occurs twice: reading it fails
pub uninterp spec fn twice() -> Map<int, SV>;
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (o: T)
  where E: std::marker::Destruct, T: std::marker::Destruct
  ensures o == (match r { Ok(x) => x, Err(_) => d });
}
}
pub mod serde {
use vstd::prelude::*;
use crate::vser_base::*;
verus! {
pub mod de {
  use super::*;
  pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
  }
}
pub trait Deserializer<'de>: Sized {
  type Error: de::Error;
  /// the tree it is about to give
  spec fn input(&self) -> SV;
  /// the text is not in the format at all
  spec fn broken(&self) -> bool;
}
pub trait Deserialize<'de>: Sized {
  /// what reading s must give
  spec fn reads(s: SV, r: Option<Self>) -> bool;
  fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
    ensures !deserializer.broken() ==> Self::reads(deserializer.input(), match r { Ok(x) => Some(x), Err(_) => None });
}
}
}
pub mod vser {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vt::*;
use crate::msg::*;
use crate::vser_base::*;
verus! {
broadcast use {crate::vp::group_str, crate::vt::group_text};
/// the number of months a text stands for: itself if it is a number, else 1
pub open spec fn months_number(b: Seq<u8>) -> u64 { match parsed_u64(b) { Some(n) => n, None => 1 } }
/// what must be read as a Subscriber: its two texts, and the number that belongs to them
#[verifier::opaque]
pub open spec fn de_Subscriber(s: SV) -> Option<SubscriberV> {
  match de__T(s) {
    Some(t) => Some(SubscriberV { version: t.version, months: t.months, months_n: months_number(t.months) }),
    None => None,
  }
}
/*GENERATED*/
/// std: "1" is read as the number one
pub axiom fn ax_one() ensures parsed_u64(encode_utf8("1"@)) == Some(1u64);
/*FN vser|badge_wf*/ /// every badge made from badge data is well-formed
pub proof fn badge_wf(d: BadgeDataV)
  ensures wf_Badge(badge_of(d))
{ reveal(badge_of); ax_one(); } /*END vser|badge_wf*/
/*FN vser|badges_wf*/ pub proof fn badges_wf(b: Option<Seq<u8>>, i: Option<Seq<u8>>)
  ensures forall|k: int| 0 <= k < badges_or_none(b, i).len() ==> wf_Badge(#[trigger] badges_or_none(b, i)[k])
{
  reveal(badges_of);
  assert forall|k: int| 0 <= k < badges_or_none(b, i).len() implies wf_Badge(#[trigger] badges_or_none(b, i)[k]) by {
    let p = pair_list(b->0)[k];
    badge_wf(BadgeDataV { name: p.0, version: p.1, extra: first_value(pair_list(i->0), p.0) });
  }
} /*END vser|badges_wf*/
/*FN vser|read_badge_wf*/ /// what is read back is well-formed again
pub proof fn read_badge_wf(s: SV)
  ensures de_Badge(s) is Some ==> wf_Badge(de_Badge(s)->0)
{ reveal(de_Badge); reveal(de_Subscriber); } /*END vser|read_badge_wf*/
}
}
