// Ghost vocabulary of the typed messages, and the contracts assumed on the std functions they use.
pub mod vt {
use vstd::prelude::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::utf8::*;
use std::borrow::Cow;
use std::str::FromStr;
use std::str::pattern::Pattern;
use std::time::Duration;
use crate::vp::*;
verus! {
broadcast use crate::vp::group_str;

// ---------------------------------------------------------------- Cow
/// the text of a Cow, borrowed or owned
pub open spec fn cb(c: Cow<'_, str>) -> Seq<u8> {
  match c { Cow::Borrowed(b) => bs(b), Cow::Owned(o) => encode_utf8(o@) }
}
pub open spec fn ocb(o: Option<Cow<'_, str>>) -> Option<Seq<u8>> {
  match o { Some(c) => Some(cb(c)), None => None }
}
pub open spec fn cow_views(v: Seq<Cow<'_, str>>) -> Seq<Seq<u8>> {
  Seq::new(v.len(), |i: int| cb(v[i]))
}
pub open spec fn str_views(v: Seq<&str>) -> Seq<Seq<u8>> {
  Seq::new(v.len(), |i: int| bs(v[i]))
}
pub broadcast proof fn lemma_cow_str_views(v: Seq<Cow<'_, str>>, w: Seq<&str>)
  requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> cb(#[trigger] v[i]) == bs(w[i])
  ensures #[trigger] cow_views(v) == #[trigger] str_views(w)
{
  assert(cow_views(v) =~= str_views(w));
}
pub broadcast proof fn lemma_cow_views(v: Seq<Cow<'_, str>>, w: Seq<Cow<'_, str>>)
  requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> cb(#[trigger] v[i]) == cb(w[i])
  ensures #[trigger] cow_views(v) == #[trigger] cow_views(w)
{
  assert(cow_views(v) =~= cow_views(w));
}
pub broadcast axiom fn ax_cow_from<'a>(s: &'a str)
  ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(s) == Cow::<str>::Borrowed(s);
pub broadcast axiom fn ax_cow_from_obeys<'a>()
  ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a str>>::obeys_from_spec();
/// T::from(t) is t
pub broadcast axiom fn ax_cow_self<'a>(s: Cow<'a, str>)
  ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<Cow<'a, str>>>::from_spec(s) == s;
pub broadcast axiom fn ax_cow_self_obeys<'a>()
  ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<Cow<'a, str>>>::obeys_from_spec();
pub uninterp spec fn cow_ref<T: ?Sized + ToOwned>(c: &Cow<'_, T>, r: &T) -> bool;
pub broadcast axiom fn ax_cow_ref(c: &Cow<'_, str>, r: &str)
  ensures #[trigger] cow_ref::<str>(c, r) == (bs(r) == cb(*c));
pub assume_specification<'a, 'b, T: ToOwned + ?Sized> [<Cow<'a, T> as AsRef<T>>::as_ref] (c: &'b Cow<'a, T>) -> (r: &'b T)
  ensures cow_ref::<T>(c, r);

/// a str is at most isize::MAX bytes long (a guarantee of the language)
pub broadcast axiom fn ax_str_len(s: &str)
  ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX;

/// the empty literal has no bytes
pub broadcast proof fn lemma_empty_str(s: &str)
  requires s@ == ""@
  ensures #[trigger] s.spec_bytes() == Seq::<u8>::empty()
{
  reveal_strlit("");
  assert(s@ =~= Seq::<char>::empty());
  reveal_with_fuel(encode_utf8, 2);
  assert(s.spec_bytes() =~= Seq::<u8>::empty());
}
/// `Cow::Borrowed` as a function value
pub fn borrowed<'a>(s: &'a str) -> (r: Cow<'a, str>) ensures r == Cow::<str>::Borrowed(s) { Cow::Borrowed(s) }
/// |v| v.into()
pub fn into_cow<'a>(s: &'a str) -> (r: Cow<'a, str>) ensures cb(r) == bs(s) { broadcast use {ax_cow_from, ax_cow_from_obeys}; s.into() }
/// cloning a Cow keeps its text
pub uninterp spec fn cow_same<T: ?Sized + ToOwned>(a: &Cow<'_, T>, b: Cow<'_, T>) -> bool;
pub broadcast axiom fn ax_cow_same(a: &Cow<'_, str>, b: Cow<'_, str>)
  ensures #[trigger] cow_same::<str>(a, b) == (cb(*a) == cb(b));
pub assume_specification<'a, T: ToOwned + ?Sized> [<Cow<'a, T> as Clone>::clone] (c: &Cow<'a, T>) -> (r: Cow<'a, T>)
  ensures cow_same::<T>(c, r);
pub assume_specification<'a, 'b, T: ToOwned + ?Sized> [<Cow<'a, T> as std::ops::Deref>::deref] (c: &'b Cow<'a, T>) -> (r: &'b T)
  ensures cow_ref::<T>(c, r);
pub assume_specification<'a, T: std::ops::Deref> [Option::<T>::as_deref] (o: &'a Option<T>) -> (r: Option<&'a T::Target>)
  ensures (r is Some) == (o is Some), o is Some ==> call_ensures(<T as std::ops::Deref>::deref, (&(o->0),), r->0);


// ---------------------------------------------------------------- numbers
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
  type ExternalTraitSpecificationFor: FromStr;
  type Err;
  fn from_str(s: &str) -> Result<Self, Self::Err>;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub assume_specification<F: FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, <F as FromStr>::Err>)
  ensures call_ensures(<F as FromStr>::from_str, (s,), r);
/// the number std's from_str reads from a text, if it is one
pub uninterp spec fn parsed_u64(b: Seq<u8>) -> Option<u64>;
pub uninterp spec fn parsed_i64(b: Seq<u8>) -> Option<i64>;
pub uninterp spec fn parsed_u8(b: Seq<u8>) -> Option<u8>;
pub assume_specification [<u64 as FromStr>::from_str] (s: &str) -> (r: Result<u64, std::num::ParseIntError>)
  ensures r is Ok == parsed_u64(bs(s)) is Some, r is Ok ==> parsed_u64(bs(s)) == Some(r->Ok_0);
pub assume_specification [<i64 as FromStr>::from_str] (s: &str) -> (r: Result<i64, std::num::ParseIntError>)
  ensures r is Ok == parsed_i64(bs(s)) is Some, r is Ok ==> parsed_i64(bs(s)) == Some(r->Ok_0);
pub assume_specification [<u8 as FromStr>::from_str] (s: &str) -> (r: Result<u8, std::num::ParseIntError>)
  ensures r is Ok == parsed_u8(bs(s)) is Some, r is Ok ==> parsed_u8(bs(s)) == Some(r->Ok_0);
/// |v| v.parse().ok()
pub fn parse_ok<F: FromStr>(s: &str) -> (r: Option<F>)
  ensures exists|q: Result<F, <F as FromStr>::Err>| #[trigger] call_ensures(<F as FromStr>::from_str, (s,), q) && r == (match q { Ok(v) => Some(v), Err(_) => None })
{ s.parse().ok() }
pub fn parse_ok_cow<'a, 'b, F: FromStr>(s: &'b Cow<'a, str>) -> (r: Option<F>)
  ensures exists|s2: &str, q: Result<F, <F as FromStr>::Err>| bs(s2) == cb(*s) && #[trigger] call_ensures(<F as FromStr>::from_str, (s2,), q) && r == (match q { Ok(v) => Some(v), Err(_) => None })
{ broadcast use ax_cow_ref; let t: &str = s.as_ref(); t.parse().ok() }

// ---------------------------------------------------------------- Option, str, slices
pub open spec fn okv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, U, F> [Result::<T, E>::and_then] (r: Result<T, E>, f: F) -> (q: Result<U, E>)
  where F: FnOnce(T,) -> Result<U, E> + std::marker::Destruct
  requires r is Ok ==> call_requires(f, (r->Ok_0,))
  ensures match r { Ok(x) => call_ensures(f, (x,), q), Err(e) => q == Err::<U, E>(e) };
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, P> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
  where P: FnOnce(&T,) -> bool + std::marker::Destruct, T: std::marker::Destruct
  requires o is Some ==> call_requires(p, (&(o->0),))
  ensures match o { Some(x) => (r == o && call_ensures(p, (&x,), true)) || (r is None && call_ensures(p, (&x,), false)), None => r is None };
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U> [std::option::Option::<T>::zip] (a: std::option::Option<T>, b: std::option::Option<U>) -> (r: std::option::Option<(T, U)>)
  where T: std::marker::Destruct, U: std::marker::Destruct
  ensures r == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None };
#[verifier::opaque]
pub open spec fn splits_once(b: Seq<u8>, p: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
  if exists|i: int| occurs_at(b, p, i) {
    let i = choose|i: int| occurs_at(b, p, i) && forall|k: int| k < i ==> !occurs_at(b, p, k);
    Some((b.subrange(0, i), b.subrange(i + p.len(), b.len() as int)))
  } else { None }
}
pub open spec fn pair_view(o: Option<(&str, &str)>) -> Option<(Seq<u8>, Seq<u8>)> {
  match o { Some((a, b)) => Some((bs(a), bs(b))), None => None }
}
pub assume_specification<'a, P: Pattern> [str::split_once::<P>] (s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
  ensures pair_view(r) == splits_once(bs(s), pat_bytes(p));
/// strip_suffix of a char
#[verifier::external_body]
pub fn strip_suffix_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
  ensures obs(r) == strip_end(bs(s), encode_utf8(seq![c]))
{ s.strip_suffix(c) }
pub open spec fn strip_end(b: Seq<u8>, p: Seq<u8>) -> Option<Seq<u8>> {
  if occurs_at(b, p, b.len() - p.len()) { Some(b.subrange(0, b.len() - p.len())) } else { None }
}
pub open spec fn strip_start(b: Seq<u8>, p: Seq<u8>) -> Option<Seq<u8>> {
  if occurs_at(b, p, 0) { Some(b.subrange(p.len() as int, b.len() as int)) } else { None }
}

// ---------------------------------------------------------------- lists (std iterators over finite lists)
/// The items an iterator yields, in order; `map`, `flat_map`, `find` and `collect` are those of Iterator.
pub struct L<T>(pub Vec<T>);
/// what flat_map over an Option-returning function yields
#[verifier::opaque]
pub open spec fn flatten<U>(o: Seq<Option<U>>) -> Seq<U>
  decreases o.len()
{
  if o.len() == 0 { Seq::empty() } else {
    match o.last() { Some(x) => flatten(o.drop_last()).push(x), None => flatten(o.drop_last()) }
  }
}
impl<T> L<T> {
  pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: L<U>)
    requires forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_requires(f, (self.0@[i],))
    ensures r.0@.len() == self.0@.len(), forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_ensures(f, (self.0@[i],), r.0@[i])
  {
    let mut out: Vec<U> = Vec::new();
    let ghost all = self.0@;
    let mut v = self.0;
    while v.len() > 0
      invariant
        all == self.0@, out@.len() + v@.len() == all.len(), forall|i: int| #![auto] 0 <= i < v@.len() ==> v@[i] == all[out@.len() + i],
        forall|i: int| #![auto] 0 <= i < all.len() ==> call_requires(f, (all[i],)),
        forall|i: int| #![auto] 0 <= i < out@.len() ==> call_ensures(f, (all[i],), out@[i])
      decreases v@.len()
    {
      let x = v.remove(0);
      out.push(f(x));
    }
    L(out)
  }
  pub fn flat_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: L<U>)
    requires forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_requires(f, (self.0@[i],))
    ensures exists|o: Seq<Option<U>>| o.len() == self.0@.len() && r.0@ == #[trigger] flatten(o) && forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_ensures(f, (self.0@[i],), o[i])
  {
    let mut out: Vec<U> = Vec::new();
    let ghost all = self.0@;
    let ghost mut o: Seq<Option<U>> = Seq::empty();
    proof { reveal(flatten); }
    let mut v = self.0;
    while v.len() > 0
      invariant
        all == self.0@, o.len() + v@.len() == all.len(), forall|i: int| #![auto] 0 <= i < v@.len() ==> v@[i] == all[o.len() + i],
        forall|i: int| #![auto] 0 <= i < all.len() ==> call_requires(f, (all[i],)),
        out@ == flatten(o), forall|i: int| #![auto] 0 <= i < o.len() ==> call_ensures(f, (all[i],), o[i])
      decreases v@.len()
    {
      let x = v.remove(0);
      let y = f(x);
      proof {
        let o2 = o.push(y);
        reveal(flatten);
        assert(o2.drop_last() =~= o);
        assert(o2.last() == y);
        o = o2;
      }
      match y { Some(v) => out.push(v), None => {} }
    }
    L(out)
  }
  pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
    requires forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_requires(f, (&self.0@[i],))
    ensures match r {
      Some(p) => exists|i: int| 0 <= i < self.0@.len() && p == #[trigger] self.0@[i] && call_ensures(f, (&self.0@[i],), true)
        && forall|j: int| #![auto] 0 <= j < i ==> call_ensures(f, (&self.0@[j],), false),
      None => forall|j: int| #![auto] 0 <= j < self.0@.len() ==> call_ensures(f, (&self.0@[j],), false),
    }
  {
    let ghost all = self.0@;
    let mut v = self.0;
    let ghost mut k = 0int;
    while v.len() > 0
      invariant
        all == self.0@, k >= 0, k + v@.len() == all.len(), forall|i: int| #![auto] 0 <= i < v@.len() ==> v@[i] == all[k + i],
        forall|i: int| #![auto] 0 <= i < all.len() ==> call_requires(f, (&all[i],)),
        forall|j: int| #![auto] 0 <= j < k ==> call_ensures(f, (&all[j],), false)
      decreases v@.len()
    {
      let x = v.remove(0);
      assert(x == all[k]);
      if f(&x) { return Some(x); }
      proof { k = k + 1; }
    }
    None
  }
  pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.0@ { self.0 }
}
/// the items of a Vec, by value and by reference
pub trait Items<T> {
  spec fn items_of(&self) -> Seq<T>;
  fn v_into_iter(self) -> (r: L<T>) where Self: Sized ensures r.0@ == self.items_of();
}
impl<T> Items<T> for Vec<T> {
  open spec fn items_of(&self) -> Seq<T> { self@ }
  fn v_into_iter(self) -> L<T> { L(self) }
}
pub fn v_iter<'a, T>(v: &'a Vec<T>) -> (r: L<&'a T>)
  ensures r.0@.len() == v@.len(), forall|i: int| #![trigger r.0@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r.0@[i] == v@[i]
{
  let mut out: Vec<&'a T> = Vec::new();
  let mut i = 0;
  while i < v.len()
    invariant i <= v@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == v@[j]
    decreases v@.len() - i
  {
    out.push(&v[i]);
    i += 1;
  }
  L(out)
}
/// the texts between the separators `c`
#[verifier::opaque]
pub open spec fn pieces(b: Seq<u8>, c: u8) -> Seq<Seq<u8>>
  decreases b.len()
{
  let i = find_from(b, 0, c);
  if 0 <= i < b.len() { seq![b.subrange(0, i)] + pieces(b.subrange(i + 1, b.len() as int), c) } else { seq![b] }
}
/// str::split on an ASCII char
#[verifier::external_body]
pub fn v_split<'a>(s: &'a str, c: char) -> (r: L<&'a str>)
  requires (c as u32) < 0x80
  ensures str_views(r.0@) == pieces(bs(s), c as u8)
{ L(s.split(c).collect()) }

// ---------------------------------------------------------------- escapes
/// IRCv3 tag value unescaping (and this crate's extra: U+2E1D stands for a comma)
pub open spec fn unesc(s: Seq<char>, esc: bool) -> Seq<char>
  decreases s.len()
{
  if s.len() == 0 { Seq::empty() } else {
    let c = s[0];
    let t = s.subrange(1, s.len() as int);
    if c == '\\' && !esc { unesc(t, true) } else { seq![unesc1(c, esc)] + unesc(t, false) }
  }
}
pub open spec fn unesc1(c: char, esc: bool) -> char {
  if c == '\u{2E1D}' { ',' }
  else if !esc { c }
  else if c == ':' { ';' } else if c == 's' { ' ' } else if c == 'r' { '\r' } else if c == 'n' { '\n' } else { c }
}
/// an escape (or the stand-in for a comma) starts at byte i
pub open spec fn esc_at(b: Seq<u8>, i: int) -> bool {
  0 <= i < b.len() && (b[i] == 0x5c || occurs_at(b, encode_utf8(seq!['\u{2E1D}']), i))
}
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\\' && s[i] != '\u{2E1D}' }
/// text without escapes stands for itself
pub proof fn lemma_unesc_plain(s: Seq<char>, t: Seq<char>)
  requires plain(s)
  ensures unesc(s + t, false) == s + unesc(t, false)
  decreases s.len()
{
  if s.len() == 0 { assert(s + t =~= t); assert(s + unesc(t, false) =~= unesc(t, false)); }
  else {
    let r = s.subrange(1, s.len() as int);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != '\\' && r[i] != '\u{2E1D}' by { assert(r[i] == s[i + 1]); }
    lemma_unesc_plain(r, t);
    assert((s + t).subrange(1, (s + t).len() as int) =~= r + t);
    assert((s + t)[0] == s[0]);
    assert(unesc(s + t, false) =~= s + unesc(t, false));
  }
}
/// a character that is an escape shows as one in the bytes
pub proof fn lemma_plain_bytes(s: Seq<char>, b: Seq<u8>, n: int)
  requires 0 <= n <= b.len(), encode_utf8(s) == b.subrange(0, n), forall|i: int| 0 <= i < n ==> !esc_at(b, i)
  ensures plain(s)
{
  assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\\' && s[k] != '\u{2E1D}' by {
    let p = s.subrange(0, k);
    let q = s.subrange(k + 1, s.len() as int);
    let c = seq![s[k]];
    assert(s =~= p + c + q);
    encode_utf8_concat(p + c, q);
    encode_utf8_concat(p, c);
    let i = encode_utf8(p).len() as int;
    let e = encode_utf8(c);
    let a = b.subrange(0, n);
    assert(a == encode_utf8(p) + e + encode_utf8(q));
    assert(a.subrange(i, i + e.len()) =~= e);
    assert(b.subrange(i, i + e.len()) =~= a.subrange(i, i + e.len()));
    if s[k] == '\\' || s[k] == '\u{2E1D}' {
      lemma_ascii_char_bytes('\\');
      if e.len() == 0 { lemma_char_nonempty(s[k]); }
      assert(b[i] == e[0]) by { assert(b.subrange(i, i + e.len())[0] == e[0]); }
      assert(esc_at(b, i));
    }
  }
}
pub proof fn lemma_char_nonempty(c: char)
  ensures encode_utf8(seq![c]).len() > 0
{
  encode_utf8_decode_utf8(seq![c]);
  if encode_utf8(seq![c]).len() == 0 {
    encode_utf8_decode_utf8(Seq::<char>::empty());
    encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by {
      assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
    }
    assert(encode_utf8(seq![c]) =~= encode_utf8(Seq::<char>::empty()));
    assert(seq![c].len() == 1);
  }
}
/// an escape starts on a character boundary
pub proof fn lemma_esc_boundary(b: Seq<u8>, i: int)
  requires valid_utf8(b), esc_at(b, i)
  ensures is_char_boundary(b, i)
{
  let e = encode_utf8(seq!['\u{2E1D}']);
  lemma_char_nonempty('\u{2E1D}');
  encode_utf8_valid_utf8(seq!['\u{2E1D}']);
  is_char_boundary_start_end_of_seq(e);
  is_char_boundary_iff_not_is_continuation_byte(e, 0);
  is_char_boundary_iff_not_is_continuation_byte(b, i);
  if b[i] != 0x5c { assert(b.subrange(i, i + e.len())[0] == e[0]); }
}
/// text without an escape is its own meaning
pub proof fn lemma_unescaped_plain(b: Seq<u8>)
  requires valid_utf8(b), forall|i: int| 0 <= i < b.len() ==> !esc_at(b, i)
  ensures unescaped(b) == b
{
  decode_utf8_encode_utf8(b);
  let s = decode_utf8(b);
  assert(b.subrange(0, b.len() as int) =~= b);
  lemma_plain_bytes(s, b, b.len() as int);
  lemma_unesc_plain(s, Seq::empty());
  assert(s + Seq::<char>::empty() =~= s);
  assert(s + unesc(Seq::empty(), false) =~= s);
}
pub proof fn lemma_cow_valid(c: Cow<'_, str>)
  ensures valid_utf8(cb(c))
{
  match c { Cow::Borrowed(b) => { lemma_str_bytes_valid(b); }, Cow::Owned(o) => { encode_utf8_valid_utf8(o@); } }
}
pub open spec fn unescaped(b: Seq<u8>) -> Seq<u8> { encode_utf8(unesc(decode_utf8(b), false)) }

// ---------------------------------------------------------------- tag values
pub open spec fn num_u64(o: Option<Seq<u8>>) -> Option<u64> { match o { Some(b) => parsed_u64(b), None => None } }
pub open spec fn num_i64(o: Option<Seq<u8>>) -> Option<i64> { match o { Some(b) => parsed_i64(b), None => None } }
pub open spec fn truthy(b: Seq<u8>) -> bool { match parsed_u8(b) { Some(n) => n > 0, None => false } }
pub open spec fn flag(o: Option<Seq<u8>>) -> Option<bool> { match o { Some(b) => Some(truthy(b)), None => None } }
pub open spec fn non_empty(o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(b) => if b.len() > 0 { Some(b) } else { None }, None => None } }
pub open spec fn or_empty(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(b) => b, None => Seq::empty() } }
pub open spec fn comma_list(o: Option<Seq<u8>>) -> Seq<Seq<u8>> { match o { Some(b) => pieces(b, 0x2c), None => Seq::empty() } }
pub open spec fn positive(o: Option<u64>) -> Option<u64> { match o { Some(n) => if n > 0 { o } else { None }, None => None } }
/// a length of time in seconds
pub uninterp spec fn secs(n: u64) -> Duration;
pub assume_specification [<Duration as Clone>::clone] (d: &Duration) -> (r: Duration) ensures r == *d;
pub assume_specification [Duration::from_secs] (n: u64) -> (r: Duration) ensures r == secs(n);
pub open spec fn seconds(o: Option<u64>) -> Option<Duration> { match o { Some(n) => Some(secs(n)), None => None } }
/// the point in time `n` milliseconds after the epoch, if chrono can represent it
pub uninterp spec fn date_of_millis(n: i64) -> Option<crate::chrono::DateTime<crate::chrono::Utc>>;
pub open spec fn time(o: Option<Seq<u8>>) -> Option<crate::chrono::DateTime<crate::chrono::Utc>> {
  match num_i64(o) { Some(n) => date_of_millis(n), None => None }
}

pub broadcast group group_text {
  lemma_cow_str_views, lemma_cow_views, ax_cow_from, ax_cow_from_obeys, ax_cow_ref, ax_cow_same, ax_str_len, lemma_empty_str, ax_cow_self, ax_cow_self_obeys, lemma_pat_ascii_char,
}
} // verus!
}
pub mod chrono {
use vstd::prelude::*;
verus! {
/// stand-in for chrono's types: only that `timestamp_millis_opt(n).single()` is a function of n
pub struct Utc;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { t: std::marker::PhantomData<T> }
impl<T> Clone for DateTime<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for DateTime<T> {}
pub struct LocalResult(pub Ghost<i64>);
pub trait TimeZone {}
impl Utc {
  pub fn timestamp_millis_opt(&self, n: i64) -> (r: LocalResult) ensures r.0@ == n { LocalResult(Ghost(n)) }
}
impl LocalResult {
  #[verifier::external_body]
  pub fn single(self) -> (r: Option<DateTime<Utc>>) ensures r == crate::vt::date_of_millis(self.0@) { unimplemented!() }
}
}
}
