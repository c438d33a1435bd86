@crateattrs
#![feature(sized_hierarchy)]

@exprmacro with_scratch src/client/macros.rs
@tracemacro trace
@tracemacro debug
@tracemacro info
@tracemacro warn
@tracemacro error
@lowerwrite client(::.*)?|common
@modrewrite client(::.*)?|common
std::fmt::Display =>> crate::vc::Disp
@modrewrite client(::.*)?|common
std::fmt::Formatter<'_> =>> String
@modrewrite client(::.*)?|common
std::fmt::Result =>> crate::vc::FmtResult
@modrewrite client(::.*)?|common
std::fmt::Error =>> crate::vc::FmtError
@rewrite client::write\|
use ::std::fmt::Write; =>> use crate::vc::Write;
@modrewrite client(::.*)?
std::env =>> crate::vc::env
@modrewrite client(::.*)?
std::fs =>> crate::vc::fs
@modrewrite client::write
crate::Ping<'_> =>> crate::msg::ping::Ping<'_>
@modrewrite common
I: Iterator, =>> I: crate::vc::Iter,
@modrewrite common
<I as Iterator>::Item: =>> <I as crate::vc::Iter>::Item:
@modrewrite common
Iter: Sized + Iterator, =>> Iter: Sized + crate::vc::Iter,
@modrewrite common
std::cell::RefCell =>> crate::vc::RefCell
@modrewrite client
tokio::time::error =>> crate::vc::rtokio::time::error
@modrewrite client
tokio::io::split =>> crate::vc::rtokio::io::split
@keep client::write\|(Tag|Channel(<S>)?|SameMessageBypass) as (.*Disp.*|Default)
@keep common\|(Join|JoinIter|Join<I,S> as .*|Iter as JoinIter|use crate::vc::RefCell)(\|.*)?
@drop (client.*|msg.*)\|use .*
@drop client\|(DEFAULT_TIMEOUT|mod util)
@keep client\|(Config|Backoff) as Default.*
@rewrite client\|Config as Default
DEFAULT_TIMEOUT =>> crate::vc::default_timeout()
@modrewrite client
std::fmt::Debug =>> crate::vc::Dbg
@keep client\|Credentials as Default.*
@drop client::conn\|(use .*|.* as (Display|crate::vc::Disp|std::error::Error))
@modrewrite client::conn
rustls_native_certs::load_native_certs =>> crate::vc::load_native_certs
@drop client::write\|.*as std::error::Error.*
@drop client::write\|(SendError as From<Infallible>|SendError as Display|InvalidMessage as .*)
@drop client::read\|RecvError as Display
@drop client\|(ConnectError|ReconnectError) as (Display|std::error::Error)
@drop msg\|(?!ping$).*
@drop msg::ping\|(Ping\|(parse|into_owned)|.* as .*)

@module

@module common
use crate::vc::{Iter as _, IterExt as _, Disp as _};
@module msg::ping
use std::borrow::Cow;
use crate::vt::*;
use crate::vp::*;
broadcast use {crate::vp::group_str, crate::vt::group_text};
@fn msg::ping|Ping|nonce
  ensures obs(r) == ocb(self.nonce)

@note ------------------------------------------------------------------ common
@module common|Join<I,S> as crate::vc::Disp
  open spec fn shown(&self) -> Seq<char> { joined(self.0.val()->0.rest(), self.1) }
  open spec fn total(&self) -> bool { self.0.val() is Some && self.1.total() && forall|i: int| 0 <= i < self.0.val()->0.rest().len() ==> #[trigger] self.0.val()->0.rest()[i].total() }
@module common
pub open spec fn joined<T: crate::vc::Disp, S: crate::vc::Disp>(items: Seq<T>, sep: S) -> Seq<char>
  decreases items.len()
{
  if items.len() == 0 { seq![] }
  else if items.len() == 1 { items[0].shown() }
  else { items[0].shown() + (sep.shown() + joined(items.skip(1), sep)) }
}
@fn common|Iter as JoinIter|join
  ensures r.0.val() == Some(self), r.1 == sep
@fn common|Join<I,S> as crate::vc::Disp|fmt
@start
  broadcast use crate::vc::group_text_parts;
@loopstart 0
  broadcast use crate::vc::group_text_parts;
@fnrewrite
self.0.borrow_mut().take() =>> self.0.take_once()
@loop 0
  invariant peekable.wf(), sep == self.1, self.0.val() is Some, self.total() ==> sep.total() && forall|i: int| 0 <= i < peekable.rest().len() ==> #[trigger] peekable.rest()[i].total(), f@ + joined(peekable.rest(), *sep) == old(f)@ + joined(self.0.val()->0.rest(), self.1)
  ensures peekable.rest().len() == 0
  decreases peekable.rest().len()

@note ------------------------------------------------------------------ conn
@module client::conn
pub use crate::vc::{env, fs, io, rustls, IoError, Certificate, ClientConfig, RootCertStore, RustlsError, ServerName, TcpStream, TlsStream, TlsConnector, trusted, system_roots, ders};
use std::sync::Arc;
broadcast use {crate::vp::group_str, crate::vc::ax::group_client};
impl vstd::std_specs::convert::FromSpecImpl<IoError> for TlsConfigError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: IoError) -> Self { Self::Io(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<RustlsError> for TlsConfigError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: RustlsError) -> Self { Self::Tls(v) }
}
impl TlsConfig {
  /// verifies certificates for Twitch's name, against no other roots than the system's
  pub open spec fn twitch(&self) -> bool { self.server_name.text() == "irc.chat.twitch.tv"@ && trusted(self.config.roots()) }
}
@fn client::conn|TlsConfig|load
  ensures
    /*@props P26*/ r matches Ok(c) ==> c.server_name == server_name && trusted(c.config.roots()),
@loop 0
  invariant
    ders(it.seq()) == system_roots(),
    trusted(root_store.roots()),
@loopstart 0
  proof {
    assert(ders(it.seq())[it.index@] == cert.0@);
    assert(system_roots().contains(cert.0@));
  }
@fn client::conn|TlsConfig|client
  ensures r == self.config
@fn client::conn|TlsConfig|server_name
  ensures r == self.server_name
@fn client::conn|open
  requires
    /*@props P26*/ config.twitch(),
  ensures
    r matches Ok(s) ==> s.sent().len() == 0,
    /*@props P26*/ r matches Ok(s) ==> s.secure(),
@module client::conn|OpenStreamError as From<io::Error>
@tail
verus! {
impl Clone for crate::client::conn::TlsConfig {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::vc::IoError> for crate::client::conn::OpenStreamError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: crate::vc::IoError) -> Self { Self::Io(v) }
}
}

@note ------------------------------------------------------------------ read
@module client::read
use super::{conn, Client};
use crate::irc::*;
use crate::vc::*;
use crate::vp::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
broadcast use {crate::vp::group_str, crate::vc::ax::group_client};
impl vstd::std_specs::convert::FromSpecImpl<IoError> for RecvError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: IoError) -> Self { Self::Io(v) }
}
/// what receiving does: the next item is taken, and only that
pub open spec fn recv_is(c: Seq<Item>, r: Result<IrcMessage, RecvError>, d: Seq<Item>) -> bool {
  match r {
    Ok(m) => c.len() > 0 && c[0] == Item::Line(m.src@) && d == c.skip(1)
      && has_command(encode_utf8(m.src@)) && parts_match(m.parts, encode_utf8(m.src@)) && m.wf(),
    Err(RecvError::Parse(s)) => c.len() > 0 && c[0] == Item::Line(s@) && d == c.skip(1) && !has_command(encode_utf8(s@)),
    Err(RecvError::Io(e)) => c.len() > 0 && c[0] == Item::Fail(e) && d == c.skip(1),
    Err(RecvError::StreamClosed) => c.len() == 0 && d == c,
  }
}
@fn client::read|Client|recv
  ensures
    recv_is(old(self).reader.coming(), r, final(self).reader.coming()),
    /*@props P25*/ r.tellable(),
    *final(self) == (Client { reader: final(self).reader, ..*old(self) }),
@cancel
/*@props P24 P22 P19*/ assert(*self == *old(self));
@fn client::read|RecvError|is_disconnect
  ensures
    self is StreamClosed ==> r,
    self is Parse ==> !r,
    self matches RecvError::Io(e) ==> (e.kind_of() is UnexpectedEof || e.kind_of() is ConnectionAborted || e.kind_of() is TimedOut ==> r),

@note ------------------------------------------------------------------ write
@module client::write
use super::{conn, Client};
use crate::common::{JoinIter, joined};
use crate::vc::*;
use crate::vt::{cb, ocb};
use crate::vc::Disp as Display;
use crate::vp::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::std_specs::convert::{FromSpec, TryIntoSpec};
broadcast use {crate::vp::group_str, crate::vc::ax::group_client, crate::vc::group_text_parts};
impl vstd::std_specs::convert::FromSpecImpl<IoError> for SendError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: IoError) -> Self { Self::Io(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidMessage> for SendError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: InvalidMessage) -> Self { Self::InvalidMessage(v) }
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a str> for RawMessage<'a> {
  open spec fn obeys_try_from_spec() -> bool { true }
  open spec fn try_from_spec(v: &'a str) -> Result<Self, InvalidMessage> { if ends_in_crlf(v@) { Ok(RawMessage { data: v }) } else { Err(InvalidMessage) } }
}
impl Client {
  /// nothing is left in the buffer that commands are put together in
  pub open spec fn wf(&self) -> bool { self.scratch@.len() == 0 }
}
/// a call that was to write exactly `w` on the connection, and changes nothing else
pub open spec fn wrote(a: Client, b: Client, w: Seq<char>, r: Result<(), SendError>) -> bool {
  let w = encode_utf8(w);
  &&& b == (Client { writer: b.writer, scratch: b.scratch, ..a })
  &&& b.wf()
  &&& match r {
    Ok(_) => b.writer.sent() == a.writer.sent() + w && b.writer.flushed(),
    Err(SendError::Io(_)) => partly(a.writer.sent(), b.writer.sent(), w),
    Err(_) => false,
  }
}
/// sending it shows it (in traces)
pub open spec fn may_tell<'a, S: TryInto<RawMessage<'a>>>(s: S) -> bool {
  &&& <S as TryIntoSpec<RawMessage<'a>>>::obeys_try_into_spec()
  &&& s.try_into_spec() matches Ok(m) ==> public(m.data@)
}
/// the name of a channel, with the # it needs
pub open spec fn chan(s: Seq<char>) -> Seq<char> { if encode_utf8(s).len() > 0 && encode_utf8(s)[0] == 0x23 { s } else { "#"@ + s } }
/// ... of several channels, each after a comma
pub open spec fn commas(s: Seq<Seq<char>>) -> Seq<char>
  decreases s.len()
{
  if s.len() == 0 { seq![] } else { commas(s.drop_last()) + (","@ + chan(s.last())) }
}
pub open spec fn chans(s: Seq<Seq<char>>) -> Seq<char> { if s.len() == 0 { seq![] } else { chan(s[0]) + commas(s.skip(1)) } }
pub open spec fn names<C: AsRef<str>>(s: Seq<C>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].as_ref_spec()@) }
/// the tags of a message to send
pub open spec fn tags_text(reply: Option<&str>, nonce: Option<&str>) -> Seq<char> {
  let a = match reply { Some(v) => "reply-parent-msg-id"@ + ("="@ + v@), None => seq![] };
  let b = match nonce { Some(v) => "client-nonce"@ + ("="@ + v@), None => seq![] };
  if reply is None && nonce is None { seq![] }
  else { "@"@ + (a + ((if reply is Some && nonce is Some { seq![';'] } else { seq![] }) + (b + " "@))) }
}
@module client::write|Tag as crate::vc::Disp
  open spec fn shown(&self) -> Seq<char> { self.key@ + ("="@ + self.value@) }
  open spec fn total(&self) -> bool { true }
@module client::write|Channel<S> as Display
  open spec fn shown(&self) -> Seq<char> { chan(self.0.as_ref_spec()@) }
  open spec fn total(&self) -> bool { true }

@fn client::write|Privmsg|reply_to
  ensures r == (Privmsg { reply_parent_msg_id: Some(reply_parent_msg_id), ..self })
@sigrewrite
mut self =>> self
@start
  let mut this = self;
@fnrewrite
self =>> this
@fn client::write|Privmsg|client_nonce
  ensures r == (Privmsg { client_nonce: Some(value), ..self })
@sigrewrite
mut self =>> self
@start
  let mut this = self;
@fnrewrite
self =>> this
@fn client::write|Client|privmsg
  ensures *r.client == *old(self), r.channel == channel, r.text == text, r.reply_parent_msg_id is None, r.client_nonce is None, *final(self) == *final(r.client)
@fn client::write|Client|send_raw
  requires
    /*@props P25*/ may_tell(s),
  ensures
    *final(self) == (Client { writer: final(self).writer, ..*old(self) }),
    <S as TryIntoSpec<RawMessage<'a>>>::obeys_try_into_spec() ==> match s.try_into_spec() {
      Ok(m) => match r {
        Ok(_) => final(self).writer.sent() == old(self).writer.sent() + encode_utf8(m.data@) && final(self).writer.flushed(),
        Err(SendError::Io(_)) => partly(old(self).writer.sent(), final(self).writer.sent(), encode_utf8(m.data@)),
        Err(_) => false,
      },
      Err(e) => final(self).writer.sent() == old(self).writer.sent() && (<SendError as FromSpec<S::Error>>::obeys_from_spec() ==> r == Err::<(), SendError>(<SendError as FromSpec<S::Error>>::from_spec(e))),
    },
@cancel
/*@props P24 P18*/ assert(*self == (Client { writer: self.writer, ..*old(self) }));
@fn client::write|Privmsg|send
  requires
    old(self.client).wf(),
    /*@props P25*/ public(self.channel@) && public(self.text@) && public(tags_text(self.reply_parent_msg_id, self.client_nonce) + ("PRIVMSG "@ + (self.channel@ + (" :"@ + (self.text@ + "\r\n"@))))),
  ensures wrote(*old(self.client), *final(self.client), tags_text(self.reply_parent_msg_id, self.client_nonce) + ("PRIVMSG "@ + (self.channel@ + (" :"@ + (self.text@ + "\r\n"@)))), r)
@closure 0 |value: &'a str| -> (t: Tag<'a>)
  ensures t.key@ == "reply-parent-msg-id"@, t.value == value
@closure 1 |value: &'a str| -> (t: Tag<'a>)
  ensures t.key@ == "client-nonce"@, t.value == value
@start
  broadcast use lemma_joined_tags;
  let ghost c0 = *self.client;
@cancel
/*@props P24 P18*/ assert(Client::kept(c0, *client) && client.reader == c0.reader);
@fnrewrite
$i_x.iter() =>> crate::vc::opt_iter(&$i_x)
@fn client::write|Client|ping
  requires
    old(self).wf(),
    /*@props P25*/ public(nonce@) && public("PING :"@ + (nonce@ + "\r\n"@)),
  ensures wrote(*old(self), *final(self), "PING :"@ + (nonce@ + "\r\n"@), r)
@cancel
/*@props P24 P18*/ assert(Client::kept(*old(self), *self) && self.reader == old(self).reader);
@fn client::write|Client|pong
  requires
    old(self).wf(),
    /*@props P25*/ ping.nonce is Some ==> forall|n: &str| bs(n) == cb(ping.nonce->0) ==> public("PONG :"@ + (#[trigger] n@ + "\r\n"@)),
    /*@props P25*/ public("PONG"@ + "\r\n"@),
  ensures
    ping.nonce is Some ==> exists|n: &str| bs(n) == cb(ping.nonce->0) && wrote(*old(self), *final(self), "PONG :"@ + (#[trigger] n@ + "\r\n"@), r),
    ping.nonce is None ==> wrote(*old(self), *final(self), "PONG"@ + "\r\n"@, r),
@cancel
/*@props P24 P18*/ assert(Client::kept(*old(self), *self) && self.reader == old(self).reader);
@fn client::write|Client|join
  requires
    old(self).wf(),
    /*@props P25*/ public(channel.as_ref_spec()@) && public("JOIN "@ + (chan(channel.as_ref_spec()@) + "\r\n"@)),
  ensures wrote(*old(self), *final(self), "JOIN "@ + (chan(channel.as_ref_spec()@) + "\r\n"@), r)
@cancel
/*@props P24 P18*/ assert(Client::kept(*old(self), *self) && self.reader == old(self).reader);
@fn client::write|Client|join_all
  requires
    old(self).wf(),
    /*@props P25*/ public("JOIN "@ + (chans(names(items(channels))) + "\r\n"@)),
  ensures wrote(*old(self), *final(self), "JOIN "@ + (chans(names(items(channels))) + "\r\n"@), r)
@cancel
/*@props P24 P18*/ assert(Client::kept(*old(self), *self) && self.reader == old(self).reader);
@fnrewrite
channels.into_iter().map(Channel) =>> crate::vc::mapped(channels, |c: C| -> (r: Channel<C>) ensures r == Channel(c) { Channel(c) })
@start
  let ghost all = names(items(channels));
@loop 0
  invariant
    it.seq().len() == (if all.len() == 0 { 0 } else { all.len() - 1 }),
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0.as_ref_spec()@ == all[i + 1],
    f@ == "JOIN "@ + (if all.len() == 0 { seq![] } else { chan(all[0]) + commas(all.subrange(1, 1 + it.index@)) }),
@loopend 0
  proof { assert(all.subrange(1, 2 + it.index@).drop_last() =~= all.subrange(1, 1 + it.index@)); }
@afterloop 0
  proof { if all.len() > 0 { assert(all.subrange(1, all.len() as int) =~= all.skip(1)); } }
@fn client::write|RawMessage as TryFrom<&str>|try_from
@start
  proof { lemma_ends_crlf(data); }
@rewrite client::write\|
$i_x.ends_with($p) =>> crate::vc::ends_with($i_x, $p)
@module client::write
broadcast proof fn lemma_joined_tags<'a>(a: Seq<&'a Tag<'a>>, b: Seq<&'a Tag<'a>>, s: char)
  requires a.len() <= 1, b.len() <= 1
  ensures #[trigger] joined(a + b, s) == (if a.len() == 0 && b.len() == 0 { seq![] } else if b.len() == 0 { a[0].shown() } else if a.len() == 0 { b[0].shown() } else { a[0].shown() + (seq![s] + b[0].shown()) })
{
  reveal_with_fuel(joined, 3);
  if a.len() == 0 { assert(a + b =~= b); }
  if b.len() == 0 { assert(a + b =~= a); }
  if a.len() == 1 && b.len() == 1 { assert((a + b).skip(1) =~= b); }
}
proof fn lemma_ends_crlf(s: &str)
  ensures ends_in_crlf(s@) == occurs_at(bs(s), bs("\r\n"), bs(s).len() - bs("\r\n").len())
{
  reveal_strlit("\r\n");
  is_ascii_chars_encode_utf8("\r\n"@);
  let b = bs(s);
  let n = b.len() - 2;
  assert(bs("\r\n") =~= seq![0x0du8, 0x0au8]);
  if n >= 0 {
    if b[n] == 0x0d && b[n + 1] == 0x0a { assert(b.subrange(n, n + 2) =~= seq![0x0du8, 0x0au8]); }
    else if b.subrange(n, n + 2) == bs("\r\n") { assert(b.subrange(n, n + 2)[0] == 0x0d && b.subrange(n, n + 2)[1] == 0x0a); }
  }
}
@fn client::write|SameMessageBypass|get
  ensures
    old(self).append ==> r@ == " \u{2800}"@,
    !old(self).append ==> r@ == ""@,
    final(self).append == !old(self).append,
@fn client::write|SameMessageBypass as Default|default
  ensures !r.append

@note ------------------------------------------------------------------ client
@fn client|ConnectError as From<crate::vc::rtokio::time::error::Elapsed>|from
@sigrewrite
from(_: =>> from(_v:
@module client
use self::conn::{OpenStreamError, TlsConfig, TlsConfigError};
use self::read::{recv_is, ReadStream, RecvError};
use self::write::WriteStream;
use crate::irc::*;
use crate::irc::command::*;
use crate::vc::*;
use crate::vp::*;
use crate::vw::*;
use core::time::Duration;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::std_specs::convert::{FromSpec, IntoSpec};
broadcast use {crate::vp::group_str, crate::vc::ax::group_client, crate::vc::group_text_parts};
pub type RecvResult = Result<IrcMessage, RecvError>;
impl vstd::std_specs::convert::FromSpecImpl<RecvError> for ConnectError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: RecvError) -> Self { Self::Read(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for ConnectError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: IoError) -> Self { Self::Io(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidDnsNameError> for ConnectError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: InvalidDnsNameError) -> Self { Self::Dns(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<TlsConfigError> for ConnectError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: TlsConfigError) -> Self { Self::Tls(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<OpenStreamError> for ConnectError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: OpenStreamError) -> Self { Self::Open(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<Elapsed> for ConnectError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: Elapsed) -> Self { Self::Timeout }
}
impl<T: Into<ConnectError>> vstd::std_specs::convert::FromSpecImpl<T> for ReconnectError {
  open spec fn obeys_from_spec() -> bool { <T as IntoSpec<ConnectError>>::obeys_into_spec() }
  open spec fn from_spec(v: T) -> Self { ReconnectError { cause: <T as IntoSpec<ConnectError>>::into_spec(v) } }
}
pub open spec fn token_of(c: Credentials) -> Seq<char> { match c.token { Some(t) => t@, None => "just_a_lil_guy"@ } }
/// what the client says first
pub open spec fn greeting(c: Credentials) -> Seq<char> {
  let t = token_of(c);
  "CAP REQ :"@ + ("twitch.tv/commands twitch.tv/tags twitch.tv/membership"@ + ("\r\n"@ + (
  "PASS "@ + ((if occurs_at(encode_utf8(t), encode_utf8("oauth:"@), 0) { ""@ } else { "oauth:"@ }) + (t + ("\r\n"@ + (
  "NICK "@ + (c.login@ + "\r\n"@))))))))
}
/// m is this line, parsed
pub open spec fn got(i: Item, m: IrcMessage) -> bool {
  i == Item::Line(m.src@) && has_command(encode_utf8(m.src@)) && parts_match(m.parts, encode_utf8(m.src@)) && m.wf()
}
pub open spec fn kind(m: IrcMessage) -> CmdKind { raw_kind(m.parts.command) }
pub open spec fn params_text(m: IrcMessage) -> Option<Seq<u8>> { ospan(m.parts.params, m.b()) }
pub open spec fn ack(m: IrcMessage) -> bool {
  kind(m) is Capability && params_text(m) is Some && occurs_at(params_text(m)->0, encode_utf8("* ACK"@), 0)
}
pub open spec fn auth_failed(m: IrcMessage) -> bool {
  params_text(m) is Some && occurs(params_text(m)->0, encode_utf8("authentication failed"@))
}
/// after the acknowledgement: what a reply makes of the handshake
pub open spec fn second(c: Seq<Item>, d: Seq<Item>, r: Result<(), ConnectError>) -> bool {
  match r {
    Ok(_) => c.len() > 0 && d == c.skip(1) && exists|m: IrcMessage| #[trigger] got(c[0], m) && kind(m) is RplWelcome,
    Err(ConnectError::Timeout) => d == c,
    Err(ConnectError::Read(e)) => recv_is(c, RecvResult::Err(e), d),
    Err(ConnectError::Auth) => c.len() > 0 && d == c.skip(1) && exists|m: IrcMessage| #[trigger] got(c[0], m) && kind(m) is Notice && auth_failed(m),
    Err(ConnectError::Notice(m)) => c.len() > 0 && d == c.skip(1) && got(c[0], m) && kind(m) is Notice && !auth_failed(m),
    Err(ConnectError::Welcome(m)) => c.len() > 0 && d == c.skip(1) && got(c[0], m) && !(kind(m) is Notice) && !(kind(m) is RplWelcome),
    Err(_) => false,
  }
}
pub open spec fn acked(c: Seq<Item>) -> bool { c.len() > 0 && exists|m: IrcMessage| #[trigger] got(c[0], m) && ack(m) }
/// what the server's lines make of the handshake
pub open spec fn replies(c: Seq<Item>, d: Seq<Item>, r: Result<(), ConnectError>) -> bool {
  ||| acked(c) && second(c.skip(1), d, r)
  ||| match r {
    Ok(_) => false,
    Err(ConnectError::Timeout) => d == c,
    Err(ConnectError::Read(e)) => recv_is(c, RecvResult::Err(e), d),
    Err(ConnectError::Auth) => c.len() > 0 && d == c.skip(1) && exists|m: IrcMessage| #[trigger] got(c[0], m) && kind(m) is Capability && !ack(m),
    Err(ConnectError::Welcome(m)) => c.len() > 0 && d == c.skip(1) && got(c[0], m) && !(kind(m) is Capability),
    Err(_) => false,
  }
}
impl Client {
  /// nothing but the streams can differ between a and b
  pub open spec fn kept(a: Client, b: Client) -> bool { b.config == a.config && b.tls == a.tls && b.wf() }
}
/// what a handshake does: the greeting is written, the replies judged
pub open spec fn shook(a: Client, b: Client, r: Result<(), ConnectError>) -> bool {
  let w = encode_utf8(greeting(a.config.credentials));
  &&& Client::kept(a, b)
  &&& {
    ||| r matches Err(ConnectError::Io(_)) && b.reader == a.reader && partly(a.writer.sent(), b.writer.sent(), w)
    ||| b.writer.sent() == a.writer.sent() + w && b.writer.flushed() && replies(a.reader.coming(), b.reader.coming(), r)
  }
}
@fn client|Client|handshake
  requires
    old(self).wf(),
    /*@props P25*/ public(old(self).config.credentials.login@),
  ensures
    shook(*old(self), *final(self), r),
    /*@props P25*/ r.tellable(),
@attrs
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
@fnrewrite
const CAP: &str =>> const CAP: &'static str
@fnrewrite
self.recv().timeout($d).await =>> crate::vw::recv_timeout(self, $d).await
@closure 0 |v: &str| -> (q: bool)
  ensures q == occurs_at(bs(v), encode_utf8("* ACK"@), 0)
@closure 1 |v: &str| -> (q: bool)
  ensures q == occurs(bs(v), encode_utf8("authentication failed"@))
@cancel
/*@props P24 P18 P19*/ assert(Client::kept(*old(self), *self));
@fn client|split
  requires
    /*@props P26*/ stream.secure(),
  ensures r.0.coming() == stream.coming(), r.1.sent() == stream.sent()
@fn client|ConnectError|should_retry
  ensures r == retry(*self)
@fn client|Client|config
  ensures *r == self.config
@fn client|Client|credentials
  ensures *r == self.config.credentials
@fn client|Credentials|is_anon
  ensures r == (self.token is None)
@fn client|Credentials|login
  ensures r@ == self.login@
@fn client|Credentials|token
  ensures match r { Some(t) => self.token matches Some(s) && t@ == s@, None => self.token is None }

@module client
/// only I/O errors are retried
pub open spec fn retry(e: ConnectError) -> bool { e is Io || (e matches ConnectError::Open(o) && o is Io) }
pub open spec fn min(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
pub type Outcome = Result<(), ReconnectError>;
pub open spec fn left(tries: Option<u64>) -> Option<u64> { match tries { Some(n) => Some((n - 1) as u64), None => None } }
/// the delay after this one
pub open spec fn next(c: Config, delay: nat) -> nat { min(nanos(c.backoff.max_delay), delay * c.backoff.delay_multiplier as nat) }
/// t is what reconnecting does with `tries` left (if limited), `delay` to wait next and `cause` the last failure, and r how it ends
pub open spec fn follows(t: Seq<Ev>, c: Config, tries: Option<u64>, delay: nat, cause: ConnectError, r: Outcome) -> bool
  decreases t.len()
{
  if tries == Some(0u64) { t.len() == 0 && r == Outcome::Err(ReconnectError { cause }) }
  else {
    &&& t.len() >= 2
    &&& t[0] matches Ev::Slept(d) && nanos(d) == delay
    &&& t[1] matches Ev::Opened(d, o) && d == c.timeout && match o {
      Err(_) => t.len() == 2 && r == Outcome::Err(ReconnectError { cause: ConnectError::Timeout }),
      Ok(Err(e)) => follows(t.skip(2), c, left(tries), next(c, delay), ConnectError::Open(e), r),
      Ok(Ok(_)) => t.len() >= 3 && (t[2] matches Ev::Shook(d, o) && d == c.timeout && match o {
        Err(_) => t.len() == 3 && r == Outcome::Err(ReconnectError { cause: ConnectError::Timeout }),
        Ok(Ok(_)) => t.len() == 3 && r == Outcome::Ok(()),
        Ok(Err(e)) => if retry(e) { follows(t.skip(3), c, left(tries), next(c, delay), e, r) } else { t.len() == 3 && r == Outcome::Err(ReconnectError { cause: e }) },
      }),
    }
  }
}
/// reconnecting: what it does with the world, and how it ends
pub open spec fn reconnects(t: Seq<Ev>, c: Config, r: Outcome) -> bool {
  follows(t, c, c.backoff.max_tries, nanos(c.backoff.initial_delay), ConnectError::Timeout, r)
}
/// after t, there remains to do what the rest of the arguments say
pub open spec fn continues(t: Seq<Ev>, c: Config, tries: Option<u64>, delay: nat, cause: ConnectError) -> bool {
  forall|u: Seq<Ev>, r: Outcome| #[trigger] follows(u, c, tries, delay, cause, r) ==> reconnects(t + u, c, r)
}
broadcast proof fn lemma_starts(t: Seq<Ev>, c: Config, tries: Option<u64>, delay: nat, cause: ConnectError)
  ensures #![trigger continues(t, c, tries, delay, cause)]
    t.len() == 0 && tries == c.backoff.max_tries && delay == nanos(c.backoff.initial_delay) && cause == ConnectError::Timeout ==> continues(t, c, tries, delay, cause)
{
  assert forall|u: Seq<Ev>| t.len() == 0 implies #[trigger] (t + u) == u by { assert(t + u =~= u); }
}
broadcast proof fn lemma_stops(t: Seq<Ev>, c: Config, tries: Option<u64>, delay: nat, cause: ConnectError, r: Outcome)
  requires #[trigger] continues(t, c, tries, delay, cause), tries == Some(0u64), r == Outcome::Err(ReconnectError { cause })
  ensures #[trigger] reconnects(t, c, r)
{
  assert(follows(seq![], c, tries, delay, cause, r));
  assert(t + Seq::<Ev>::empty() =~= t);
}
broadcast proof fn lemma_step2(t: Seq<Ev>, c: Config, tries: Option<u64>, delay: nat, cause: ConnectError, a: Ev, b: Ev)
  requires continues(t, c, tries, delay, cause), tries != Some(0u64), a matches Ev::Slept(d) && nanos(d) == delay
  ensures
    #![trigger continues(t, c, tries, delay, cause), t.push(a).push(b)]
    b matches Ev::Opened(d, o) ==> d == c.timeout ==> match o {
      Err(_) => reconnects(t.push(a).push(b), c, Outcome::Err(ReconnectError { cause: ConnectError::Timeout })),
      Ok(Err(e)) => continues(t.push(a).push(b), c, left(tries), next(c, delay), ConnectError::Open(e)),
      Ok(Ok(_)) => true,
    }
{
  let v = seq![a, b];
  assert(t.push(a).push(b) =~= t + v);
  if let Ev::Opened(d, o) = b { if d == c.timeout {
    match o {
      Err(_) => { assert(follows(v, c, tries, delay, cause, Outcome::Err(ReconnectError { cause: ConnectError::Timeout }))); }
      Ok(Err(e)) => {
        assert forall|u: Seq<Ev>, r: Outcome| #[trigger] follows(u, c, left(tries), next(c, delay), ConnectError::Open(e), r) implies reconnects((t + v) + u, c, r) by {
          assert((v + u).skip(2) =~= u);
          assert(follows(v + u, c, tries, delay, cause, r));
          assert((t + v) + u =~= t + (v + u));
        }
      }
      Ok(Ok(_)) => {}
    }
  } }
}
broadcast proof fn lemma_step3(t: Seq<Ev>, c: Config, tries: Option<u64>, delay: nat, cause: ConnectError, a: Ev, b: Ev, z: Ev)
  requires continues(t, c, tries, delay, cause), tries != Some(0u64), a matches Ev::Slept(d) && nanos(d) == delay,
    b matches Ev::Opened(d, o) && d == c.timeout && o matches Ok(Ok(_))
  ensures
    #![trigger continues(t, c, tries, delay, cause), t.push(a).push(b).push(z)]
    z matches Ev::Shook(d, o) ==> d == c.timeout ==> match o {
      Err(_) => reconnects(t.push(a).push(b).push(z), c, Outcome::Err(ReconnectError { cause: ConnectError::Timeout })),
      Ok(Ok(_)) => reconnects(t.push(a).push(b).push(z), c, Outcome::Ok(())),
      Ok(Err(e)) => if retry(e) { continues(t.push(a).push(b).push(z), c, left(tries), next(c, delay), e) } else { reconnects(t.push(a).push(b).push(z), c, Outcome::Err(ReconnectError { cause: e })) },
    }
{
  let v = seq![a, b, z];
  assert(t.push(a).push(b).push(z) =~= t + v);
  if let Ev::Shook(d, o) = z { if d == c.timeout {
    match o {
      Err(_) => { assert(follows(v, c, tries, delay, cause, Outcome::Err(ReconnectError { cause: ConnectError::Timeout }))); }
      Ok(Ok(_)) => { assert(follows(v, c, tries, delay, cause, Outcome::Ok(()))); }
      Ok(Err(e)) => if retry(e) {
        assert forall|u: Seq<Ev>, r: Outcome| #[trigger] follows(u, c, left(tries), next(c, delay), e, r) implies reconnects((t + v) + u, c, r) by {
          assert((v + u).skip(3) =~= u);
          assert(follows(v + u, c, tries, delay, cause, r));
          assert((t + v) + u =~= t + (v + u));
        }
      } else { assert(follows(v, c, tries, delay, cause, Outcome::Err(ReconnectError { cause: e }))); },
    }
  } }
}
proof fn lemma_fits(a: Duration, b: Duration, m: u32)
  ensures nanos(a) <= nanos(b) ==> nanos(a) * m as nat <= nanos(b) * m as nat
{
  let (x, y, z) = (nanos(a), nanos(b), m as nat);
  assert(x <= y ==> x * z <= y * z) by (nonlinear_arith);
}
/// the delays fit in a Duration (multiplying it panics otherwise)
pub open spec fn delays_fit(c: Config) -> bool {
  nanos(c.backoff.initial_delay) * c.backoff.delay_multiplier as nat <= max_nanos()
  && nanos(c.backoff.max_delay) * c.backoff.delay_multiplier as nat <= max_nanos()
}
@fn client|Client|reconnect
  requires
    old(self).wf(), delays_fit(old(self).config), old(w).trace().len() == 0,
    /*@props P25*/ public(old(self).config.credentials.login@),
    /*@props P26*/ old(self).tls.twitch(),
  ensures
    Client::kept(*old(self), *final(self)),
    r is Ok ==> final(self).writer.sent() == encode_utf8(greeting(old(self).config.credentials)) && final(self).writer.flushed(),
    reconnects(final(w).trace(), old(self).config, r),
    /*@props P25*/ r.tellable(),
@sigrewrite
fn reconnect(&mut self) =>> fn reconnect(&mut self, w: &mut crate::vw::World)
@attrs
#[verifier::spinoff_prover]
#[verifier::exec_allows_no_decreases_clause]
@fnrewrite
conn::open($x).timeout($t).await =>> crate::vw::open_timeout(w, $x, $t).await
@fnrewrite
self.handshake().timeout($t).await =>> crate::vw::handshake_timeout(self, w, $t).await
@fnrewrite
($i_s.$i_a, $i_t.$i_b) = split($x); =>> { let rw = split($x); $i_s.$i_a = rw.0; $i_t.$i_b = rw.1; }
@fnrewrite
tokio::time::sleep($x) =>> crate::vw::sleep(w, $x)
@cancel
/*@props P24*/ assert(Client::kept(*old(self), *self));
@start
  broadcast use {lemma_starts, lemma_stops, lemma_step2, lemma_step3};
@loop 0
  invariant
    Client::kept(*old(self), *self), backoff == self.config.backoff, timeout == self.config.timeout, delays_fit(old(self).config),
    nanos(delay) == nanos(backoff.initial_delay) || nanos(delay) <= nanos(backoff.max_delay),
    continues(w.trace(), self.config, tries, nanos(delay), cause),
    cause.tellable(), public(old(self).config.credentials.login@), old(self).tls.twitch(),
  ensures tries == Some(0u64)
@loopstart 0
  broadcast use {lemma_starts, lemma_stops, lemma_step2, lemma_step3};
  proof { lemma_fits(delay, backoff.max_delay, backoff.delay_multiplier); }
@module client
/// connecting: what it does with the world, and how it ends
pub open spec fn connects(t: Seq<Ev>, c: Config, r: Result<Client, ConnectError>) -> bool {
  if t.len() == 0 { (r matches Err(e) && (e is Dns || e is Tls)) }
  else {
    t[0] matches Ev::Opened(d, o) && d == c.timeout && (match o {
      Err(_) => t.len() == 1 && (r matches Err(e) && e is Timeout),
      Ok(Err(x)) => t.len() == 1 && (r matches Err(e) && e == ConnectError::Open(x)),
      Ok(Ok(_)) => t.len() == 2 && (t[1] matches Ev::Shook(d, o) && d == c.timeout && match o {
        Err(_) => r matches Err(e) && e is Timeout,
        Ok(Err(x)) => r matches Err(e) && e == x,
        Ok(Ok(_)) => r is Ok,
      }),
    })
  }
}
@fn client|Client|connect
  requires
    old(w).trace().len() == 0,
    /*@props P25*/ public(config.credentials.login@),
  ensures
    connected(config, final(w).trace(), r),
    /*@props P25*/ r matches Err(e) ==> e.tellable(),
    /*@props P26*/ r matches Ok(c) ==> c.tls.twitch(),
@sigrewrite
fn connect(config: Config) =>> fn connect(config: Config, w: &mut crate::vw::World)
@fnrewrite
conn::open($x).timeout($t).await =>> crate::vw::open_timeout(w, $x, $t).await
@fnrewrite
$i_c.handshake().timeout($t).await =>> crate::vw::handshake_timeout(&mut $i_c, w, $t).await
@fn client|ClientBuilder|credentials
  ensures r.config == (Config { credentials, ..self.config })
@sigrewrite
mut self =>> self
@start
  let mut this = self;
@fnrewrite
self =>> this
@fn client|ClientBuilder|timeout
  ensures r.config == (Config { timeout, ..self.config })
@sigrewrite
mut self =>> self
@start
  let mut this = self;
@fnrewrite
self =>> this
@fn client|ClientBuilder|backoff
  ensures r.config == (Config { backoff, ..self.config })
@sigrewrite
mut self =>> self
@start
  let mut this = self;
@fnrewrite
self =>> this
@fn client|Credentials|new
  ensures r.login@ == string_of(login), r.token matches Some(t) && t@ == string_of(token)
@attrs
#[verifier::allow(undeclared_external_trait)]
@fnrewrite
$i_x.to_string() =>> crate::vp::to_string_of($i_x)
@fn client|Credentials|anon
  ensures anonymous_login(r)
@fnrewrite
thread_rng().gen_range($x) =>> crate::vc::gen_range($x)
@fn client|Credentials as crate::vc::Dbg|fmt
@sigrewrite
f: &mut String =>> f: &mut crate::vc::Debugger
@module client|Credentials as crate::vc::Dbg
  open spec fn tellable(&self) -> bool { public(self.login@) }
@fn client|Credentials as Default|default
  ensures anonymous_login(r)
@module client
/// without credentials given: no token, a generated login; delays that reconnecting can work with
pub open spec fn anonymous_login(c: Credentials) -> bool { c.token is None && exists|n: u32| 10000 <= n < 99999 && c.login@ == "justinfan"@ + #[trigger] decimal(n) }
pub open spec fn default_config(c: Config) -> bool { anonymous_login(c.credentials) && delays_fit(c) }
pub open spec fn connected(c: Config, t: Seq<Ev>, r: Result<Client, ConnectError>) -> bool {
  &&& connects(t, c, r)
  &&& r matches Ok(x) ==> x.wf() && x.config == c && x.writer.sent() == encode_utf8(greeting(c.credentials)) && x.writer.flushed()
}
pub open spec fn connected_anonymously(t: Seq<Ev>, r: Result<Client, ConnectError>) -> bool {
  exists|c: Config| default_config(c) && #[trigger] connected(c, t, r)
}
@fn client|Backoff as Default|default
  ensures nanos(r.initial_delay) * r.delay_multiplier as nat <= max_nanos(), nanos(r.max_delay) * r.delay_multiplier as nat <= max_nanos()
@start
  broadcast use crate::vc::ax::ax_dur_secs;
@fn client|Config as Default|default
  ensures default_config(r)
@fn client|Client|builder
  ensures default_config(r.config)
@fn client|ClientBuilder|connect
  requires
    old(w).trace().len() == 0,
    /*@props P25*/ public(self.config.credentials.login@),
  ensures
    connected(self.config, final(w).trace(), r),
    /*@props P25*/ r matches Err(e) ==> e.tellable(),
    /*@props P26*/ r matches Ok(c) ==> c.tls.twitch(),
@sigrewrite
fn connect(self) =>> async fn connect(self, w: &mut crate::vw::World)
@sigrewrite
impl Future<Output = Result<Client, ConnectError>> =>> Result<Client, ConnectError>
@fnrewrite
Client::connect($x) =>> Client::connect($x, w).await
@fn client|Client|anonymous
  requires old(w).trace().len() == 0
  ensures
    connected_anonymously(final(w).trace(), r),
    /*@props P25*/ r matches Err(e) ==> e.tellable(),
    /*@props P26*/ r matches Ok(c) ==> c.tls.twitch(),
@start
  broadcast use crate::vc::ax::ax_public_anon;
@sigrewrite
fn anonymous() =>> async fn anonymous(w: &mut crate::vw::World)
@sigrewrite
impl Future<Output = Result<Client, ConnectError>> =>> Result<Client, ConnectError>
@fnrewrite
Self::connect($x) =>> Self::connect($x, w).await
@tail
pub mod vw {
use vstd::prelude::*;
use vstd::future::*;
use vstd::utf8::*;
use core::time::Duration;
use crate::client::*;
use crate::client::conn::{OpenStreamError, TlsConfig};
use crate::client::read::{recv_is, RecvError};
use crate::irc::IrcMessage;
use crate::vc::*;
verus! {
/// what reconnecting does with the world around it, in order
pub enum Ev {
  Slept(Duration),
  Opened(Duration, Result<Result<(), OpenStreamError>, Elapsed>),
  Shook(Duration, Result<Result<(), ConnectError>, Elapsed>),
}
#[verifier::external_body]
pub struct World { x: u8 }
impl World {
  pub uninterp spec fn trace(&self) -> Seq<Ev>;
  #[verifier::external_body]
  pub fn note(&mut self, Ghost(e): Ghost<Ev>) ensures final(self).trace() == old(self).trace().push(e) { unimplemented!() }
}
#[verifier::external_body]
pub async fn sleep(w: &mut World, d: Duration) -> (r: ())
  ensures final(w).trace() == old(w).trace().push(Ev::Slept(d))
{ unimplemented!() }
pub open spec fn opened(r: Result<Result<Stream, OpenStreamError>, Elapsed>) -> Result<Result<(), OpenStreamError>, Elapsed> {
  match r { Ok(Ok(_)) => Ok(Ok(())), Ok(Err(e)) => Ok(Err(e)), Err(e) => Err(e) }
}
pub async fn open_timeout(w: &mut World, t: TlsConfig, d: Duration) -> (r: Result<Result<Stream, OpenStreamError>, Elapsed>)
  requires
    /*@props P26*/ t.twitch(),
  ensures
    r matches Ok(Ok(s)) ==> s.secure(),
    final(w).trace() == old(w).trace().push(Ev::Opened(d, opened(r))),
    r matches Ok(Ok(s)) ==> s.sent().len() == 0,
{
  if elapsed(d) {
    w.note(Ghost(Ev::Opened(d, Err(Elapsed))));
    return Err(Elapsed);
  }
  let r = crate::client::conn::open(t).await;
  w.note(Ghost(Ev::Opened(d, opened(Ok(r)))));
  Ok(r)
}
/// receiving with a time limit: the future is dropped when it runs out (recv asserts that it has done nothing then)
pub async fn recv_timeout(c: &mut Client, d: Duration) -> (r: Result<Result<IrcMessage, RecvError>, Elapsed>)
  ensures
    *final(c) == (Client { reader: final(c).reader, ..*old(c) }),
    match r { Ok(x) => recv_is(old(c).reader.coming(), x, final(c).reader.coming()), Err(_) => final(c).reader.coming() == old(c).reader.coming() },
    r matches Ok(Ok(m)) ==> got(old(c).reader.coming()[0], m),
    r.tellable(),
{
  if elapsed(d) { return Err(Elapsed); }
  Ok(c.recv().await)
}
/// a handshake dropped where it waits (handshake asserts `kept` there)
#[verifier::external_body]
pub fn drop_handshake(c: &mut Client)
  ensures Client::kept(*old(c), *final(c)), partly(old(c).writer.sent(), final(c).writer.sent(), encode_utf8(greeting(old(c).config.credentials)))
{ unimplemented!() }
pub async fn handshake_timeout(c: &mut Client, w: &mut World, d: Duration) -> (r: Result<Result<(), ConnectError>, Elapsed>)
  requires
    old(c).wf(),
    /*@props P25*/ public(old(c).config.credentials.login@),
  ensures
    Client::kept(*old(c), *final(c)),
    r.tellable(),
    final(w).trace() == old(w).trace().push(Ev::Shook(d, r)),
    match r {
      Ok(x) => shook(*old(c), *final(c), x),
      Err(_) => partly(old(c).writer.sent(), final(c).writer.sent(), encode_utf8(greeting(old(c).config.credentials))),
    },
{
  if elapsed(d) {
    drop_handshake(c);
    w.note(Ghost(Ev::Shook(d, Err(Elapsed))));
    return Err(Elapsed);
  }
  let r = c.handshake().await;
  w.note(Ghost(Ev::Shook(d, Ok(r))));
  Ok(r)
}
} // verus!
}
