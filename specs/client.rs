// Stand-ins for tokio, rustls and std::fmt as the client uses them, with the contracts assumed on them.
pub mod vc {
use vstd::prelude::*;
use vstd::future::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::std_specs::convert::FromSpec;
use vstd::std_specs::cmp::{OrdSpec, PartialOrdSpec};
use vstd::std_specs::ops::MulSpec;
use vstd::std_specs::iter::IteratorSpec;
use core::time::Duration;
use crate::vp::*;
verus! {
broadcast use crate::vp::group_str;

pub use crate::vf::*;
/// the value of DEFAULT_TIMEOUT
#[verifier::external_body]
pub fn default_timeout() -> Duration { unimplemented!() }
/// thread_rng().gen_range(..)
#[verifier::external_body]
pub fn gen_range(x: core::ops::Range<u32>) -> (r: u32)
  requires x.start < x.end
  ensures x.start <= r < x.end
{ unimplemented!() }
// ---------------------------------------------------------------- what is shown
/// a text that anyone may see (nothing says so of a token)
pub uninterp spec fn public(s: Seq<char>) -> bool;
/// std::fmt::Debug: a value may be shown if what it shows may be
pub trait Dbg {
  spec fn tellable(&self) -> bool;
  fn fmt(&self, f: &mut Debugger) -> FmtResult
    requires
      /*@props P25*/ self.tellable();
}
/// tracing's macros, of a value among their arguments
#[verifier::external_body]
pub fn traced<T: Dbg + ?Sized>(x: &T)
  requires
    /*@props P25*/ x.tellable()
{ unimplemented!() }
/// std::fmt::Formatter, as Debug uses it
#[verifier::external_body]
pub struct Debugger { x: u8 }
#[verifier::external_body]
pub struct DebugFields { x: u8 }
impl Debugger {
  #[verifier::external_body]
  pub fn debug_struct(&mut self, n: &str) -> DebugFields { unimplemented!() }
  #[verifier::external_body]
  pub fn debug_tuple(&mut self, n: &str) -> DebugFields { unimplemented!() }
  #[verifier::external_body]
  pub fn write_str(&mut self, s: &str) -> FmtResult
    requires
      /*@props P25*/ public(s@)
  { unimplemented!() }
}
impl DebugFields {
  #[verifier::external_body]
  pub fn field<T: Dbg + ?Sized>(self, n: &str, v: &T) -> DebugFields
    requires
      /*@props P25*/ v.tellable()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn finish(self) -> FmtResult { unimplemented!() }
  #[verifier::external_body]
  pub fn finish_non_exhaustive(self) -> FmtResult { unimplemented!() }
}
macro_rules! dbg_of {
  ($($t:ty, $x:ident => { $($e:tt)* })*) => { verus! { $(
impl Dbg for $t {
  open spec fn tellable(&self) -> bool { let $x = self; $($e)* }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Debugger) -> FmtResult { unimplemented!() }
}
  )* } };
}
dbg_of! {
  str, s => { public(s@) } String, s => { public(s@) }
  (), _s => { true } bool, _s => { true } u8, _s => { true } u32, _s => { true } u64, _s => { true } usize, _s => { true } char, _s => { true }
  Duration, _s => { true } IoError, _s => { true } ErrorKind, _s => { true } crate::client::conn::TlsConfig, _s => { true } crate::client::conn::TlsConfigError, _s => { true }
  RustlsError, _s => { true } ServerName, _s => { true }
  InvalidDnsNameError, _s => { true } Elapsed, _s => { true }
  // what derive(Debug) makes of these: their fields, as they are shown
  crate::irc::IrcMessage, m => { public(m.src@) }
  crate::client::read::RecvError, e => { *e matches crate::client::read::RecvError::Parse(s) ==> public(s@) }
  crate::client::conn::OpenStreamError, _s => { true }
  crate::client::ConnectError, e => {
    match *e {
      crate::client::ConnectError::Read(e) => e.tellable(),
      crate::client::ConnectError::Welcome(m) => m.tellable(),
      crate::client::ConnectError::Notice(m) => m.tellable(),
      _ => true,
    }
  }
  crate::client::ReconnectError, e => { e.cause.tellable() }
  crate::client::Backoff, _s => { true }
  crate::client::Config, c => { c.credentials.tellable() }
}
impl<T: Dbg + ?Sized> Dbg for &T {
  open spec fn tellable(&self) -> bool { (**self).tellable() }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Debugger) -> FmtResult { unimplemented!() }
}
impl<T: Dbg, E: Dbg> Dbg for Result<T, E> {
  open spec fn tellable(&self) -> bool { match *self { Ok(x) => x.tellable(), Err(e) => e.tellable() } }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Debugger) -> FmtResult { unimplemented!() }
}
impl<T: Dbg> Dbg for Option<T> {
  open spec fn tellable(&self) -> bool { *self matches Some(x) ==> x.tellable() }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Debugger) -> FmtResult { unimplemented!() }
}
pub open spec fn ends_in_crlf(s: Seq<char>) -> bool {
  let b = encode_utf8(s);
  b.len() >= 2 && b[b.len() - 2] == 0x0d && b[b.len() - 1] == 0x0a
}
pub broadcast proof fn lemma_crlf(a: Seq<char>, z: Seq<char>)
  requires z == "\r\n"@
  ensures #![trigger ends_in_crlf(a + z)] ends_in_crlf(a + z)
{
  reveal_strlit("\r\n");
  encode_utf8_concat(a, z);
  is_ascii_chars_encode_utf8(z);
}
pub broadcast proof fn lemma_add_empty(a: Seq<char>, b: Seq<char>)
  ensures #![trigger a + b] a.len() == 0 ==> a + b == b, b.len() == 0 ==> a + b == a
{
  if a.len() == 0 { assert(a + b =~= b); }
  if b.len() == 0 { assert(a + b =~= a); }
}
pub broadcast proof fn lemma_add_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
  ensures #[trigger] ((a + b) + c) == a + (b + c)
{
  assert((a + b) + c =~= a + (b + c));
}
pub broadcast group group_text_parts { lemma_crlf, lemma_add_empty, lemma_add_assoc, lemma_partly }

/// std::fmt::Write for String
pub trait Write {
  fn write_str(&mut self, s: &str) -> FmtResult;
}
impl Write for String {
  fn write_str(&mut self, s: &str) -> (r: FmtResult)
    ensures r is Ok, final(self)@ == old(self)@ + s@
  { self.push_str(s); Ok(()) }
}

// ---------------------------------------------------------------- std
pub assume_specification<T: core::default::Default> [std::mem::take] (x: &mut T) -> (r: T)
  ensures r == *old(x), call_ensures(T::default, (), *final(x));
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
  ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a };

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
  type ExternalTraitSpecificationFor: AsRef<T>;
  /// the conversion is a function of the value
  spec fn as_ref_spec(&self) -> &T;
  fn as_ref(&self) -> (r: &T)
    ensures r == self.as_ref_spec();
}

pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
  ensures r@ == encode_utf8(s@);
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [std::option::Option::<T>::is_some_and] (o: std::option::Option<T>, f: F) -> (r: bool)
  requires o is Some ==> call_requires(f, (o->0,))
  ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };
pub assume_specification<P: std::str::pattern::Pattern> [str::contains::<P>] (s: &str, p: P) -> (r: bool)
  ensures r == occurs(bs(s), pat_bytes(p));
pub open spec fn occurs(b: Seq<u8>, p: Seq<u8>) -> bool { exists|k: int| occurs_at(b, p, k) }
/// str::ends_with
#[verifier::external_body]
pub fn ends_with(s: &str, p: &str) -> (r: bool)
  ensures r == occurs_at(bs(s), bs(p), bs(s).len() - bs(p).len())
{ s.ends_with(p) }

pub uninterp spec fn nanos(d: Duration) -> nat;
pub open spec fn max_nanos() -> nat { (0xffff_ffff_ffff_ffff * 1_000_000_000 + 999_999_999) as nat }

// ---------------------------------------------------------------- iterators
/// std's iterators, of the kind the client and JoinIter use
pub trait Iter: Sized {
  type Item;
  spec fn rest(&self) -> Seq<Self::Item>;
  fn next(&mut self) -> (r: Option<Self::Item>)
    ensures match r {
      Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
      None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
    };
}
pub trait IterExt: Iter {
  fn chain<J: Iter<Item = Self::Item>>(self, j: J) -> (r: Chain<Self, J>)
    ensures r.rest() == self.rest() + j.rest();
  fn peekable(self) -> (r: Peekable<Self>)
    ensures r.rest() == self.rest(), r.wf();
}
impl<I: Iter> IterExt for I {
  fn chain<J: Iter<Item = Self::Item>>(self, j: J) -> (r: Chain<Self, J>) { Chain { a: self, b: j } }
  fn peekable(self) -> (r: Peekable<Self>) { Peekable { it: self, next: None } }
}
pub struct OptIter<'a, T> { pub o: Option<&'a T> }
pub fn opt_iter<'a, T>(o: &'a Option<T>) -> (r: OptIter<'a, T>)
  ensures r.rest() == opt_seq(*o)
{ OptIter { o: o.as_ref() } }
pub open spec fn opt_seq<'a, T>(o: Option<T>) -> Seq<&'a T> { match o { Some(x) => seq![&x], None => seq![] } }
impl<'a, T> Iter for OptIter<'a, T> {
  type Item = &'a T;
  open spec fn rest(&self) -> Seq<&'a T> { match self.o { Some(x) => seq![x], None => seq![] } }
  fn next(&mut self) -> (r: Option<&'a T>) { let r = self.o; self.o = None; assert(self.rest() =~= old(self).rest().skip(if r is Some { 1 } else { 0 })); r }
}
pub struct Chain<A, B> { pub a: A, pub b: B }
impl<A: Iter, B: Iter<Item = A::Item>> Iter for Chain<A, B> {
  type Item = A::Item;
  open spec fn rest(&self) -> Seq<A::Item> { self.a.rest() + self.b.rest() }
  fn next(&mut self) -> (r: Option<A::Item>) {
    match self.a.next() {
      Some(x) => { assert(self.rest() =~= old(self).rest().skip(1)); Some(x) }
      None => { let r = self.b.next(); assert(old(self).rest() =~= old(self).b.rest()); assert(self.rest() =~= self.b.rest()); r }
    }
  }
}
pub struct Peekable<I: Iter> { pub it: I, pub next: Option<Option<I::Item>> }
impl<I: Iter> Peekable<I> {
  pub open spec fn wf(&self) -> bool { self.next == Some(None::<I::Item>) ==> self.it.rest().len() == 0 }
  pub open spec fn rest(&self) -> Seq<I::Item> { match self.next { Some(Some(x)) => seq![x] + self.it.rest(), _ => self.it.rest() } }
  pub fn next(&mut self) -> (r: Option<I::Item>)
    requires old(self).wf()
    ensures final(self).wf(), match r {
      Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
      None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
    }
  {
    match self.next.take() {
      Some(Some(x)) => { assert(self.rest() =~= old(self).rest().skip(1)); Some(x) }
      Some(None) => { self.next = Some(None); None }
      None => self.it.next(),
    }
  }
  pub fn peek(&mut self) -> (r: Option<&I::Item>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).rest() == old(self).rest(), (r is Some) == (old(self).rest().len() > 0), r is Some ==> *(r->0) == old(self).rest()[0]
  {
    if self.next.is_none() {
      let n = self.it.next();
      self.next = Some(n);
      assert(self.rest() =~= old(self).rest());
    }
    match &self.next { Some(Some(x)) => Some(x), _ => None }
  }
}
/// the values an argument iterates over (its iterator is lawful and ends)
pub uninterp spec fn items<I: IntoIterator>(i: I) -> Seq<I::Item>;
/// i.into_iter().map(f)
#[verifier::external_body]
pub fn mapped<I: IntoIterator, B, F: FnMut(I::Item) -> B>(x: I, f: F) -> (r: std::vec::IntoIter<B>)
  requires forall|c: I::Item| call_requires(f, (c,))
  ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.will_return_none(), r.remaining().len() == items(x).len(),
    forall|i: int| 0 <= i < items(x).len() ==> call_ensures(f, (items(x)[i],), #[trigger] r.remaining()[i])
{ unimplemented!() }
/// a RefCell that is taken from at most once
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefCell<T> { x: core::marker::PhantomData<T> }
impl<T> RefCell<Option<T>> {
  pub uninterp spec fn val(&self) -> Option<T>;
  #[verifier::external_body]
  pub fn new(v: Option<T>) -> (r: Self) ensures r.val() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn take_once(&self) -> (r: Option<T>) ensures r == self.val() { unimplemented!() }
}

// ---------------------------------------------------------------- tokio: streams
#[verifier::external_body]
#[derive(Debug)]
pub struct IoError { x: u8 }
impl IoError {
  pub uninterp spec fn kind_of(&self) -> ErrorKind;
  #[verifier::external_body]
  pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind_of() { unimplemented!() }
}
/// every stable std::io::ErrorKind, and the rest
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind {
  NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted,
  NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory,
  DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull,
  NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks,
  InvalidFilename, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other, Rest,
}

/// what a server sends, as the line reader delivers it
pub enum Item {
  Line(Seq<char>),
  Fail(IoError),
}

/// a TCP connection: whom it was opened to
#[verifier::external_body]
pub struct TcpStream { x: u8 }
impl TcpStream {
  pub uninterp spec fn to(&self) -> (Seq<char>, u16);
  #[verifier::external_body]
  pub async fn connect(a: (&str, u16)) -> (r: Result<TcpStream, IoError>)
    ensures r matches Ok(s) ==> s.to() == (a.0@, a.1)
  { unimplemented!() }
}
/// one opened connection: the lines the server will send on it, and the bytes it has been sent
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct TlsStream<S> { x: core::marker::PhantomData<S> }
pub type Stream = TlsStream<TcpStream>;
impl TlsStream<TcpStream> {
  pub uninterp spec fn coming(&self) -> Seq<Item>;
  pub uninterp spec fn sent(&self) -> Seq<u8>;
  pub uninterp spec fn to(&self) -> (Seq<char>, u16);
  /// the name that the server's certificate was verified for, and the roots it was verified against
  pub uninterp spec fn name(&self) -> Seq<char>;
  pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
  /// a connection to Twitch, and to nobody else
  pub open spec fn secure(&self) -> bool { self.to() == ("irc.chat.twitch.tv"@, 6697u16) && self.name() == "irc.chat.twitch.tv"@ && trusted(self.roots()) }
}
/// the certificates that the system trusts
pub uninterp spec fn system_roots() -> Seq<Seq<u8>>;
pub open spec fn ders(v: Seq<Certificate>) -> Seq<Seq<u8>> { v.map_values(|c: Certificate| c.0@) }
/// no other roots than the system's
pub open spec fn trusted(roots: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < roots.len() ==> system_roots().contains(#[trigger] roots[i]) }

#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct ReadHalf<S> { x: core::marker::PhantomData<S> }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct WriteHalf<S> { x: core::marker::PhantomData<S> }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct BufReader<S> { x: core::marker::PhantomData<S> }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Lines<S> { x: core::marker::PhantomData<S> }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct LinesStream<S> { x: core::marker::PhantomData<S> }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Fuse<S> { x: core::marker::PhantomData<S> }

impl<S> ReadHalf<S> { pub uninterp spec fn coming(&self) -> Seq<Item>; }
impl<S> BufReader<S> { pub uninterp spec fn coming(&self) -> Seq<Item>; }
impl<S> Lines<S> { pub uninterp spec fn coming(&self) -> Seq<Item>; }
impl<S> LinesStream<S> { pub uninterp spec fn coming(&self) -> Seq<Item>; }
impl<S> Fuse<S> { pub uninterp spec fn coming(&self) -> Seq<Item>; }
impl<S> WriteHalf<S> {
  /// what it has accepted
  pub uninterp spec fn sent(&self) -> Seq<u8>;
  /// nothing of that is held back
  pub uninterp spec fn flushed(&self) -> bool;
}

/// tokio::io::split
#[verifier::external_body]
pub fn split_stream(s: Stream) -> (r: (ReadHalf<Stream>, WriteHalf<Stream>))
  requires
    /*@props P26*/ s.secure()
  ensures r.0.coming() == s.coming(), r.1.sent() == s.sent()
{ unimplemented!() }
impl BufReader<ReadHalf<Stream>> {
  #[verifier::external_body]
  pub fn new(r: ReadHalf<Stream>) -> (b: Self) ensures b.coming() == r.coming() { unimplemented!() }
  #[verifier::external_body]
  pub fn lines(self) -> (b: Lines<BufReader<ReadHalf<Stream>>>) ensures b.coming() == self.coming() { unimplemented!() }
}
impl LinesStream<BufReader<ReadHalf<Stream>>> {
  #[verifier::external_body]
  pub fn new(r: Lines<BufReader<ReadHalf<Stream>>>) -> (b: Self) ensures b.coming() == r.coming() { unimplemented!() }
  #[verifier::external_body]
  pub fn fuse(self) -> (b: Fuse<Self>) ensures b.coming() == self.coming() { unimplemented!() }
}
impl Fuse<LinesStream<BufReader<ReadHalf<Stream>>>> {
  /// the next line, or the end, for good; lines are shorter than 2^32 bytes, and what a server says is public
  #[verifier::external_body]
  pub async fn next(&mut self) -> (r: Option<Result<String, IoError>>)
    ensures match r {
      Some(Ok(s)) => old(self).coming().len() > 0 && old(self).coming()[0] == Item::Line(s@) && final(self).coming() == old(self).coming().skip(1)
        && encode_utf8(s@).len() <= u32::MAX && public(s@),
      Some(Err(e)) => old(self).coming().len() > 0 && old(self).coming()[0] == Item::Fail(e) && final(self).coming() == old(self).coming().skip(1),
      None => old(self).coming().len() == 0 && final(self).coming() == old(self).coming(),
    }
  { unimplemented!() }
}
/// b extends a by a part of what was to be written
pub open spec fn partly(a: Seq<u8>, b: Seq<u8>, w: Seq<u8>) -> bool {
  exists|n: int| 0 <= n <= w.len() && b == a + #[trigger] w.subrange(0, n)
}
/// nothing of it, or all of it
pub broadcast proof fn lemma_partly(a: Seq<u8>, b: Seq<u8>, w: Seq<u8>)
  ensures
    #![trigger partly(a, b, w)]
    b == a + w ==> partly(a, b, w),
    b == a ==> partly(a, b, w),
{
  assert(w.subrange(0, w.len() as int) =~= w);
  assert(a + w.subrange(0, 0) =~= a);
}
impl WriteHalf<Stream> {
  #[verifier::external_body]
  pub async fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>)
    ensures
      r is Ok ==> final(self).sent() == old(self).sent() + b@,
      r is Err ==> partly(old(self).sent(), final(self).sent(), b@),
  { unimplemented!() }
  #[verifier::external_body]
  pub async fn flush(&mut self) -> (r: Result<(), IoError>)
    ensures final(self).sent() == old(self).sent(), r is Ok ==> final(self).flushed()
  { unimplemented!() }
}

// ---------------------------------------------------------------- tokio: time, rustls
#[derive(Debug)]
pub struct Elapsed;
/// whether a time limit runs out before the future it limits is done: anything can happen
#[verifier::external_body]
pub fn elapsed(d: Duration) -> bool { unimplemented!() }

#[verifier::external_body]
#[derive(Debug)]
pub struct InvalidDnsNameError { x: u8 }
#[verifier::external_body]
pub struct ServerName { x: u8 }
impl ServerName { pub uninterp spec fn text(&self) -> Seq<char>; }
impl vstd::std_specs::convert::TryFromSpecImpl<&str> for ServerName {
  open spec fn obeys_try_from_spec() -> bool { true }
  uninterp spec fn try_from_spec(v: &str) -> Result<Self, InvalidDnsNameError>;
}
impl TryFrom<&str> for ServerName {
  type Error = InvalidDnsNameError;
  #[verifier::external_body]
  fn try_from(s: &str) -> Result<Self, InvalidDnsNameError> { unimplemented!() }
}
impl Clone for ServerName {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct RustlsError { x: u8 }
pub struct Certificate(pub Vec<u8>);
/// rustls_native_certs
#[verifier::external_body]
pub fn load_native_certs() -> (r: Result<Vec<Certificate>, IoError>)
  ensures r matches Ok(v) ==> ders(v@) == system_roots()
{ unimplemented!() }
#[verifier::external_body]
pub struct RootCertStore { x: u8 }
impl RootCertStore {
  pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
  #[verifier::external_body]
  pub fn empty() -> (r: Self) ensures r.roots().len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn add(&mut self, c: &Certificate) -> (r: Result<(), RustlsError>)
    ensures final(self).roots() == old(self).roots() || final(self).roots() == old(self).roots().push(c.0@)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn add_parsable_certificates(&mut self, c: &[Certificate]) -> (r: (usize, usize))
    ensures forall|x: Seq<u8>| #[trigger] final(self).roots().contains(x) ==> old(self).roots().contains(x) || ders(c@).contains(x)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.roots().len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self.roots().len() { unimplemented!() }
}
/// a configuration that verifies certificates (there is no other kind without rustls' feature `dangerous_configuration`)
#[verifier::external_body]
pub struct ClientConfig { x: u8 }
#[verifier::external_body]
pub struct ConfigBuilder { x: u8 }
#[verifier::external_body]
pub struct ConfigBuilder2 { x: u8 }
#[verifier::external_body]
pub struct ConfigBuilder3 { x: u8 }
impl ConfigBuilder3 { pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>; }
impl ClientConfig {
  pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
  #[verifier::external_body]
  pub fn builder() -> ConfigBuilder { unimplemented!() }
}
impl ConfigBuilder {
  #[verifier::external_body]
  pub fn with_safe_defaults(self) -> ConfigBuilder2 { unimplemented!() }
}
impl ConfigBuilder2 {
  #[verifier::external_body]
  pub fn with_root_certificates(self, s: RootCertStore) -> (r: ConfigBuilder3) ensures r.roots() == s.roots() { unimplemented!() }
}
impl ConfigBuilder3 {
  #[verifier::external_body]
  pub fn with_no_client_auth(self) -> (r: ClientConfig) ensures r.roots() == self.roots() { unimplemented!() }
}
#[verifier::external_body]
pub struct TlsConnector { x: u8 }
impl TlsConnector {
  pub uninterp spec fn roots(&self) -> Seq<Seq<u8>>;
  /// Ok only if the server's certificate is verified
  #[verifier::external_body]
  pub async fn connect(&self, n: ServerName, s: TcpStream) -> (r: Result<TlsStream<TcpStream>, IoError>)
    ensures r matches Ok(t) ==> t.to() == s.to() && t.name() == n.text() && t.roots() == self.roots() && t.sent().len() == 0
  { unimplemented!() }
}
impl From<std::sync::Arc<ClientConfig>> for TlsConnector {
  #[verifier::external_body]
  fn from(c: std::sync::Arc<ClientConfig>) -> (r: Self)
    ensures r.roots() == c.roots()
  { unimplemented!() }
}

} // verus!
pub mod io { pub use super::{IoError as Error, ErrorKind}; }
/// what is read from the environment is anything at all
pub mod env {
  use super::*;
  verus! {
  #[verifier::external_body]
  #[derive(Debug)]
  pub struct VarError { x: u8 }
  #[verifier::external_body]
  #[derive(Debug)]
  pub struct OsString { x: u8 }
  #[verifier::external_body]
  pub fn var(k: &str) -> Result<String, VarError> { unimplemented!() }
  #[verifier::external_body]
  pub fn var_os(k: &str) -> Option<OsString> { unimplemented!() }
  } // verus!
}
pub mod fs {
  use super::*;
  verus! {
  #[verifier::external_body]
  pub fn read<P>(p: P) -> Result<Vec<u8>, IoError> { unimplemented!() }
  #[verifier::external_body]
  pub fn read_to_string<P>(p: P) -> Result<String, IoError> { unimplemented!() }
  } // verus!
}
pub mod rustls { pub use super::{Certificate, ClientConfig, RootCertStore, ServerName, RustlsError as Error}; }
pub mod rtokio {
  pub mod io { pub use super::super::split_stream as split; }
  pub mod time { pub mod error { pub use super::super::super::Elapsed; } }
}

pub mod ax {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::std_specs::convert::{FromSpec, TryIntoSpec};
use vstd::std_specs::cmp::{OrdSpec, PartialOrdSpec};
use vstd::std_specs::control_flow::spec_from;
use vstd::std_specs::ops::MulSpec;
use core::time::Duration;
use super::*;
verus! {
/// `?` converts the error with From::from
pub broadcast axiom fn ax_question<S: From<T>, T>(v: T, r: S)
  requires #[trigger] spec_from::<S, T>(v, r), <S as FromSpec<T>>::obeys_from_spec()
  ensures r == <S as FromSpec<T>>::from_spec(v);
/// T::from(t) is t
pub broadcast axiom fn ax_from_self<T>(v: T)
  ensures #[trigger] <T as FromSpec<T>>::from_spec(v) == v;
pub broadcast axiom fn ax_from_self_obeys<T>()
  ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec();
/// Duration counts nanoseconds; multiplying it panics on overflow
pub broadcast axiom fn ax_dur_cmp(a: Duration, b: Duration)
  ensures
    #[trigger] a.cmp_spec(&b) == if nanos(a) < nanos(b) { core::cmp::Ordering::Less } else if nanos(a) == nanos(b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater };
pub broadcast axiom fn ax_dur_obeys()
  ensures #[trigger] <Duration as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_dur_mul(d: Duration, m: u32)
  ensures
    #![trigger d.mul_req(m)]
    #![trigger d.mul_spec(m)]
    <Duration as MulSpec<u32>>::obeys_mul_spec(),
    d.mul_req(m) == (nanos(d) * m as nat <= max_nanos()),
    d.mul_req(m) ==> nanos(d.mul_spec(m)) == nanos(d) * m as nat;
pub broadcast axiom fn ax_dur_secs(n: u64)
  ensures nanos(#[trigger] crate::vt::secs(n)) == n as nat * 1_000_000_000;
pub broadcast axiom fn ax_dur_inj(a: Duration, b: Duration)
  requires #[trigger] nanos(a) == #[trigger] nanos(b)
  ensures a == b;
pub broadcast axiom fn ax_server_name(s: &str)
  ensures #[trigger] <ServerName as vstd::std_specs::convert::TryFromSpec<&str>>::try_from_spec(s) matches Ok(n) ==> n.text() == s@;
/// a login made up is public
pub broadcast axiom fn ax_public_anon(n: u32)
  ensures public("justinfan"@ + #[trigger] decimal(n));
/// to_string of the texts passed to IrcMessage::parse
pub broadcast axiom fn ax_string_of_string(s: &String)
  ensures #[trigger] string_of::<&String>(s) == s@;
pub broadcast axiom fn ax_string_of_str(s: &str)
  ensures #[trigger] string_of::<&str>(s) == s@;
}
pub use vstd::prelude::*;
verus! {
pub broadcast group group_client {
  ax_server_name, ax_question, ax_from_self, ax_from_self_obeys, ax_dur_cmp, ax_dur_obeys, ax_dur_mul, ax_string_of_string, ax_string_of_str,
}
}
}
}
