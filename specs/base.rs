// Ghost vocabulary and the contracts assumed on std (trusted base).
pub mod vp {
use vstd::prelude::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::slice::SliceIndexSpec;
use vstd::utf8::*;
use core::ops::Index;
use core::slice::SliceIndex;
use core::str::pattern::Pattern;
verus! {

broadcast use vstd::utf8::group_utf8_lib;

pub type Bytes = Seq<u8>;

// ---------------------------------------------------------------- views
pub open spec fn bs(s: &str) -> Seq<u8> { s.spec_bytes() }

/// a position that may be used as a slice bound of a str
pub open spec fn bnd(b: Seq<u8>, i: int) -> bool {
  0 <= i <= b.len() && is_char_boundary(b, i)
}

/// equal bytes <=> equal str values
pub broadcast proof fn lemma_bytes_inj(a: &str, b: &str)
  requires #[trigger] a.spec_bytes() == #[trigger] b.spec_bytes()
  ensures a@ == b@
{
  encode_utf8_decode_utf8(a@);
  encode_utf8_decode_utf8(b@);
}

pub broadcast proof fn lemma_str_bytes_valid(a: &str)
  ensures valid_utf8(#[trigger] a.spec_bytes())
{
  encode_utf8_valid_utf8(a@);
}

/// an ASCII byte starts a character and the position after it is a boundary too
pub proof fn lemma_ascii_boundary(s: &str, i: int)
  requires 0 <= i < bs(s).len(), bs(s)[i] < 0x80
  ensures bnd(bs(s), i), bnd(bs(s), i + 1)
{
  let b = bs(s);
  lemma_str_bytes_valid(s);
  is_char_boundary_start_end_of_seq(b);
  if i > 0 { is_char_boundary_iff_not_is_continuation_byte(b, i); }
  lemma_ascii_next(b, i);
}

pub broadcast proof fn lemma_ends(s: &str)
  ensures #![trigger s.spec_bytes()] bnd(s.spec_bytes(), 0), bnd(s.spec_bytes(), s.spec_bytes().len() as int)
{
  lemma_str_bytes_valid(s);
  is_char_boundary_start_end_of_seq(bs(s));
}

/// in valid UTF-8 the position after an ASCII byte is a character boundary
pub proof fn lemma_ascii_next(b: Seq<u8>, i: int)
  requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80
  ensures is_char_boundary(b, i + 1)
{
  is_char_boundary_iff_not_is_continuation_byte(b, i);
  lemma_ascii_next_rec(b, i);
}

proof fn lemma_ascii_next_rec(b: Seq<u8>, i: int)
  requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80, is_char_boundary(b, i)
  ensures is_char_boundary(b, i + 1)
  decreases i
{
  reveal_with_fuel(is_char_boundary, 3);
  reveal_with_fuel(valid_utf8, 2);
  let l = length_of_first_scalar(b);
  let t = pop_first_scalar(b);
  if i > 0 {
    assert(1 <= l <= i);
    assert(t[i - l] == b[i]);
    lemma_ascii_next_rec(t, i - l);
    assert(is_char_boundary(t, i + 1 - l));
  } else {
    assert(l == 1);
    assert(is_char_boundary(t, 0));
  }
}

/// boundaries of a suffix/subrange that itself starts on a boundary
pub proof fn lemma_sub_boundary(s: &str, t: &str, lo: int, hi: int, k: int)
  requires bnd(bs(s), lo), bnd(bs(s), hi), lo <= hi, bs(t) == bs(s).subrange(lo, hi), bnd(bs(t), k)
  ensures bnd(bs(s), lo + k)
{
  let b = bs(s);
  let c = bs(t);
  lemma_str_bytes_valid(s);
  lemma_str_bytes_valid(t);
  is_char_boundary_start_end_of_seq(b);
  if k < c.len() {
    is_char_boundary_iff_not_is_continuation_byte(c, k);
    assert(c[k] == b[lo + k]);
    is_char_boundary_iff_not_is_continuation_byte(b, lo + k);
  }
}

/// str values with the same characters are the same value (a str literal used as a
/// match pattern is encoded by the verifier as equality of str values)
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
pub broadcast axiom fn ax_str_of(a: &str)
  ensures str_of(#[trigger] a@) == a;

/// the characters of a byte range
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { decode_utf8(b) }
pub broadcast proof fn lemma_chars_of(a: &str)
  ensures chars_of(#[trigger] a.spec_bytes()) == a@
{
  encode_utf8_decode_utf8(a@);
}

pub broadcast proof fn lemma_chars_enc(a: Seq<char>)
  ensures chars_of(#[trigger] encode_utf8(a)) == a
{
  encode_utf8_decode_utf8(a);
}

// ---------------------------------------------------------------- searching
/// first index of `c` in b[lo..hi], hi if there is none
pub open spec fn find_in(b: Seq<u8>, lo: int, hi: int, c: u8) -> int
  decreases hi - lo
{
  if lo >= hi { hi } else if b[lo] == c { lo } else { find_in(b, lo + 1, hi, c) }
}

pub proof fn lemma_find_in(b: Seq<u8>, lo: int, hi: int, c: u8)
  requires 0 <= lo <= hi <= b.len()
  ensures
    lo <= find_in(b, lo, hi, c) <= hi,
    find_in(b, lo, hi, c) < hi ==> b[find_in(b, lo, hi, c)] == c,
    forall|k: int| lo <= k < find_in(b, lo, hi, c) ==> b[k] != c,
  decreases hi - lo
{
  if lo < hi && b[lo] != c { lemma_find_in(b, lo + 1, hi, c); }
}

pub proof fn lemma_find_in_unique(b: Seq<u8>, lo: int, hi: int, c: u8, e: int)
  requires 0 <= lo <= e <= hi <= b.len(), forall|k: int| lo <= k < e ==> b[k] != c, e < hi ==> b[e] == c
  ensures find_in(b, lo, hi, c) == e
  decreases e - lo
{
  if lo < e { lemma_find_in_unique(b, lo + 1, hi, c, e); }
}

/// index of the first `c` in b[i..], b.len() if there is none
pub open spec fn find_from(b: Seq<u8>, i: int, c: u8) -> int
  decreases b.len() - i
{
  if i < 0 || i >= b.len() { b.len() as int } else if b[i] == c { i } else { find_from(b, i + 1, c) }
}

pub proof fn lemma_find_from(b: Seq<u8>, i: int, c: u8)
  requires 0 <= i <= b.len()
  ensures
    i <= find_from(b, i, c) <= b.len(),
    find_from(b, i, c) < b.len() ==> b[find_from(b, i, c)] == c,
    forall|k: int| i <= k < find_from(b, i, c) ==> b[k] != c,
  decreases b.len() - i
{
  if i < b.len() && b[i] != c { lemma_find_from(b, i + 1, c); }
}

pub proof fn lemma_find_from_unique(b: Seq<u8>, i: int, c: u8, e: int)
  requires 0 <= i <= e <= b.len(), forall|k: int| i <= k < e ==> b[k] != c, e < b.len() ==> b[e] == c
  ensures find_from(b, i, c) == e
  decreases e - i
{
  if i < e { lemma_find_from_unique(b, i + 1, c, e); }
}

/// last index of `c` in b[lo..hi], or -1
pub open spec fn rfind_in(b: Seq<u8>, lo: int, hi: int, c: u8) -> int
  decreases hi - lo
{
  if hi <= lo { -1 } else if b[hi - 1] == c { hi - 1 } else { rfind_in(b, lo, hi - 1, c) }
}

pub proof fn lemma_rfind(b: Seq<u8>, lo: int, hi: int, c: u8)
  requires 0 <= lo <= hi <= b.len()
  ensures
    rfind_in(b, lo, hi, c) == -1 || (lo <= rfind_in(b, lo, hi, c) < hi && b[rfind_in(b, lo, hi, c)] == c),
    forall|k: int| rfind_in(b, lo, hi, c) < k < hi && lo <= k ==> b[k] != c,
  decreases hi - lo
{
  if lo < hi && b[hi - 1] != c { lemma_rfind(b, lo, hi - 1, c); }
}

// ---------------------------------------------------------------- assumed contracts on std
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: Pattern; }

/// byte string a pattern value stands for (char and &str patterns)
pub uninterp spec fn pat_bytes<P>(p: P) -> Seq<u8>;

pub broadcast axiom fn ax_pat_char(c: char)
  ensures #[trigger] pat_bytes::<char>(c) == encode_utf8(seq![c]);

pub broadcast axiom fn ax_pat_str(p: &str)
  ensures #[trigger] pat_bytes::<&str>(p) == bs(p);

pub broadcast proof fn lemma_pat_ascii_char(c: char)
  requires (c as u32) < 0x80
  ensures #[trigger] pat_bytes::<char>(c) == seq![c as u8]
{
  ax_pat_char(c);
  lemma_ascii_char_bytes(c);
}

pub proof fn lemma_ascii_char_bytes(c: char)
  requires (c as u32) < 0x80
  ensures encode_utf8(seq![c]) == seq![c as u8]
{
  is_ascii_chars_encode_utf8(seq![c]);
  assert(encode_utf8(seq![c]) =~= seq![c as u8]);
}

pub open spec fn occurs_at(b: Seq<u8>, p: Seq<u8>, i: int) -> bool {
  0 <= i && i + p.len() <= b.len() && b.subrange(i, i + p.len() as int) == p
}

pub assume_specification<I: SliceIndex<str>>[ <str as Index<I>>::index ](s: &str, i: I) -> (r: &<I as SliceIndex<str>>::Output)
  ensures i.index_postcondition(s, r);

pub assume_specification<P: Pattern>[ str::starts_with::<P> ](s: &str, p: P) -> (r: bool)
  ensures r == occurs_at(bs(s), pat_bytes(p), 0);

/// r is the position of the first occurrence of p
pub open spec fn is_find(b: Seq<u8>, p: Seq<u8>, r: Option<usize>) -> bool {
  match r {
    Some(i) => occurs_at(b, p, i as int) && forall|k: int| k < i ==> !occurs_at(b, p, k),
    None => forall|k: int| !occurs_at(b, p, k),
  }
}

pub assume_specification<P: Pattern>[ str::find::<P> ](s: &str, p: P) -> (r: Option<usize>)
  ensures is_find(bs(s), pat_bytes(p), r);

pub assume_specification<'a, P: Pattern>[ str::strip_prefix::<P> ](s: &'a str, p: P) -> (r: Option<&'a str>)
  ensures match r {
    Some(t) => occurs_at(bs(s), pat_bytes(p), 0) && bs(t) == bs(s).subrange(pat_bytes(p).len() as int, bs(s).len() as int),
    None => !occurs_at(bs(s), pat_bytes(p), 0),
  };

/// String::from(&str) copies the text
pub broadcast axiom fn ax_string_from(s: &str)
  ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(s))@ == s@;
pub axiom fn ax_string_from_obeys()
  ensures <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec();

pub uninterp spec fn slice_idx_ok<T, I, O: ?Sized>(i: I, s: Seq<T>) -> bool;
pub uninterp spec fn slice_idx_res<T, I, O: ?Sized>(i: I, s: Seq<T>, o: &O) -> bool;
pub broadcast axiom fn ax_slice_idx_ok<T>(i: usize, s: Seq<T>)
  ensures #[trigger] slice_idx_ok::<T, usize, T>(i, s) == (i < s.len());
pub broadcast axiom fn ax_slice_idx_res<T>(i: usize, s: Seq<T>, o: &T)
  ensures #[trigger] slice_idx_res::<T, usize, T>(i, s, o) == (*o == s[i as int]);
pub assume_specification<T, I: SliceIndex<[T]>>[ <[T]>::get_unchecked::<I> ](s: &[T], i: I) -> (r: &<I as SliceIndex<[T]>>::Output)
  requires slice_idx_ok::<T, I, <I as SliceIndex<[T]>>::Output>(i, s@)
  ensures slice_idx_res(i, s@, r);

/// single-byte pattern occurrences
pub proof fn lemma_occurs1(b: Seq<u8>, c: u8, i: int)
  ensures occurs_at(b, seq![c], i) == (0 <= i < b.len() && b[i] == c)
{
  if 0 <= i < b.len() {
    assert(b.subrange(i, i + 1) =~= seq![b[i]]);
    if b[i] != c { assert(b.subrange(i, i + 1)[0] != seq![c][0]); }
  }
}

/// str::find of an ASCII char, in terms of find_from
pub broadcast proof fn lemma_find_char(b: Seq<u8>, c: char, r: Option<usize>)
  requires (c as u32) < 0x80, #[trigger] is_find(b, pat_bytes::<char>(c), r)
  ensures match r { Some(i) => i == find_from(b, 0, c as u8) && i < b.len(), None => find_from(b, 0, c as u8) == b.len() }
{
  lemma_pat_ascii_char(c);
  assert forall|k: int| #[trigger] occurs_at(b, pat_bytes(c), k) == (0 <= k < b.len() && b[k] == c as u8) by { lemma_occurs1(b, c as u8, k); }
  match r {
    Some(i) => {
      assert forall|k: int| 0 <= k < i implies b[k] != c as u8 by { assert(!occurs_at(b, pat_bytes(c), k)); }
      lemma_find_from_unique(b, 0, c as u8, i as int);
    }
    None => {
      assert forall|k: int| 0 <= k < b.len() implies b[k] != c as u8 by { assert(!occurs_at(b, pat_bytes(c), k)); }
      lemma_find_from_unique(b, 0, c as u8, b.len() as int);
    }
  }
}

/// starts_with / strip_prefix of an ASCII char
pub broadcast proof fn lemma_occurs_char(b: Seq<u8>, c: char, i: int)
  requires (c as u32) < 0x80
  ensures #[trigger] occurs_at(b, pat_bytes::<char>(c), i) == (0 <= i < b.len() && b[i] == c as u8), pat_bytes::<char>(c).len() == 1
{
  lemma_pat_ascii_char(c);
  lemma_occurs1(b, c as u8, i);
}

pub broadcast proof fn lemma_find_from_sub(b: Seq<u8>, lo: int, c: u8)
  requires 0 <= lo <= b.len()
  ensures lo + #[trigger] find_from(b.subrange(lo, b.len() as int), 0, c) == find_from(b, lo, c)
{
  let t = b.subrange(lo, b.len() as int);
  lemma_find_from(t, 0, c);
  let e = find_from(t, 0, c);
  assert forall|k: int| lo <= k < lo + e implies b[k] != c by { assert(t[k - lo] != c); }
  if e < t.len() { assert(t[e] == b[lo + e]); }
  lemma_find_from_unique(b, lo, c, lo + e);
}

/// where a search for an ASCII byte in a str stops
pub broadcast proof fn lemma_find_from_str(s: &str, i: int, c: u8)
  requires 0 <= i <= s.spec_bytes().len(), c < 0x80
  ensures
    i <= #[trigger] find_from(s.spec_bytes(), i, c) <= s.spec_bytes().len(),
    find_from(s.spec_bytes(), i, c) < s.spec_bytes().len() ==> s.spec_bytes()[find_from(s.spec_bytes(), i, c)] == c && bnd(s.spec_bytes(), find_from(s.spec_bytes(), i, c) + 1),
    bnd(s.spec_bytes(), find_from(s.spec_bytes(), i, c)),
{
  lemma_find_from(bs(s), i, c);
  lemma_ends(s);
  if find_from(bs(s), i, c) < bs(s).len() { lemma_ascii_boundary(s, find_from(bs(s), i, c)); }
}

pub broadcast proof fn lemma_find_from_b(b: Seq<u8>, i: int, c: u8)
  requires 0 <= i <= b.len()
  ensures
    i <= #[trigger] find_from(b, i, c) <= b.len(),
    find_from(b, i, c) < b.len() ==> b[find_from(b, i, c)] == c,
{
  lemma_find_from(b, i, c);
}

/// the bytes of an optional str
pub open spec fn obs(o: Option<&str>) -> Option<Seq<u8>> {
  match o { Some(s) => Some(bs(s)), None => None }
}

/// the n-th whitespace separated word of a text (std's char::is_whitespace)
pub uninterp spec fn ws_word(b: Seq<u8>, n: int) -> Option<Seq<u8>>;
#[verifier::external_body]
pub fn nth_word<'a>(s: &'a str, n: usize) -> (r: Option<&'a str>)
  ensures obs(r) == ws_word(bs(s), n as int)
{ s.split_whitespace().nth(n) }

/// address of the first element of a slice
pub uninterp spec fn slice_addr(s: &[u8]) -> int;
#[verifier::external_body]
pub fn slice_addr_of(s: &[u8]) -> (r: usize)
  ensures r == slice_addr(s), r > 0, r + s@.len() <= usize::MAX
{ s.as_ptr() as usize }

/// debug_assert!: a failing one panics
pub fn rt_assert(b: bool)
  requires b
{}

/// the text a value displays as
pub uninterp spec fn string_of<S>(s: S) -> Seq<char>;
#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub fn to_string_of<S: ToString>(s: S) -> (r: String)
  ensures r@ == string_of(s)
{ s.to_string() }

/// the elements of a Vec in order, for `iter().find(..)`
pub struct It<'a, T>(pub &'a Vec<T>);
impl<'a, T> It<'a, T> {
  pub fn find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
    requires forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_requires(f, (&&self.0@[i],))
    ensures match r {
      Some(p) => exists|i: int| 0 <= i < self.0@.len() && *p == #[trigger] self.0@[i] && call_ensures(f, (&&self.0@[i],), true)
        && forall|j: int| #![auto] 0 <= j < i ==> call_ensures(f, (&&self.0@[j],), false),
      None => forall|j: int| #![auto] 0 <= j < self.0@.len() ==> call_ensures(f, (&&self.0@[j],), false),
    }
  {
    let v = self.0;
    let mut i = 0;
    while i < v.len()
      invariant i <= v@.len(), v == self.0,
        forall|i: int| #![auto] 0 <= i < self.0@.len() ==> call_requires(f, (&&self.0@[i],)),
        forall|j: int| #![auto] 0 <= j < i ==> call_ensures(f, (&&v@[j],), false)
      decreases v@.len() - i
    {
      if f(&&v[i]) { return Some(&v[i]); }
      i += 1;
    }
    None
  }
}

pub broadcast group group_str {
  lemma_find_char, lemma_occurs_char, lemma_find_from_sub, lemma_find_from_str, lemma_find_from_b, lemma_chars_of, lemma_chars_enc, ax_str_of, ax_pat_str,
  ax_string_from, ax_slice_idx_ok, ax_slice_idx_res, lemma_str_bytes_valid, lemma_ends,
}

} // verus!
}
