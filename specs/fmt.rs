// Stand-in for std::fmt as far as something is printed, with the contracts assumed on it.
pub mod vf {
use vstd::prelude::*;
use crate::vp::*;
verus! {

// ---------------------------------------------------------------- formatting
#[derive(Debug)]
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;

/// std::fmt::Display, seen from `{}`: what it appends
pub trait Disp {
  spec fn shown(&self) -> Seq<char>;
  /// whether displaying can fail
  spec fn total(&self) -> bool;
  fn fmt(&self, f: &mut String) -> (r: FmtResult)
    ensures r is Ok ==> final(f)@ == old(f)@ + self.shown(), self.total() ==> r is Ok;
}
impl Disp for str {
  open spec fn shown(&self) -> Seq<char> { self@ }
  open spec fn total(&self) -> bool { true }
  fn fmt(&self, f: &mut String) -> (r: FmtResult) { f.push_str(self); Ok(()) }
}
impl Disp for String {
  open spec fn shown(&self) -> Seq<char> { self@ }
  open spec fn total(&self) -> bool { true }
  fn fmt(&self, f: &mut String) -> (r: FmtResult) { f.push_str(self.as_str()); Ok(()) }
}
impl Disp for char {
  open spec fn shown(&self) -> Seq<char> { seq![*self] }
  open spec fn total(&self) -> bool { true }
  fn fmt(&self, f: &mut String) -> (r: FmtResult) { f.push(*self); Ok(()) }
}
pub uninterp spec fn decimal(n: u32) -> Seq<char>;
impl Disp for u32 {
  open spec fn shown(&self) -> Seq<char> { decimal(*self) }
  open spec fn total(&self) -> bool { true }
  #[verifier::external_body]
  fn fmt(&self, f: &mut String) -> (r: FmtResult) { unimplemented!() }
}
impl<T: Disp + ?Sized> Disp for &T {
  open spec fn shown(&self) -> Seq<char> { (**self).shown() }
  open spec fn total(&self) -> bool { (**self).total() }
  fn fmt(&self, f: &mut String) -> (r: FmtResult) { (**self).fmt(f) }
}
/// a literal piece of write!, written to a String: never fails
pub fn put(f: &mut String, s: &str) -> (r: FmtResult)
  ensures r is Ok, final(f)@ == old(f)@ + s@
{ f.push_str(s); Ok(()) }

}
}
