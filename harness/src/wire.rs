//! The client over in-memory connections and virtual time.
//!
//! An input is a script: the configuration, the connections the server will offer (what they
//! deliver and when, how they take writes, how they fail), and the calls to make.  `play` runs it on
//! the real client and `Model` says what a client that keeps the contracts does with it.
use crate::gen::Dict;
use crate::props::R;
use crate::rng::Rng;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tmi::client::conn::{verif, OpenStreamError};
use tmi::client::read::RecvError;
use tmi::client::write::{SameMessageBypass, SendError};
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::Instant;

pub const PROPS: &[&str] = &["P18", "P19", "P20", "P21", "P22", "P24", "P25"];

// ---------------------------------------------------------------- scripts
#[derive(Clone, Debug, PartialEq)]
pub enum End {
  Eof,
  Hang,
  Fail(String),
}
#[derive(Clone, Debug)]
pub struct Conn {
  /// None: opening never ends; Some(Err(kind)): it fails
  open: Option<Result<(), String>>,
  after: u64,
  chunk: usize,
  stutter: bool,
  /// what is written is held back until it is flushed
  held: bool,
  /// writing fails after so many bytes (a kind, "hang" or "zero"), once or for good
  fail: Option<(usize, String, bool)>,
  flush_fail: Option<String>,
  end: End,
  end_at: u64,
  data: Vec<(u64, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
  Ping(String),
  Pong(String),
  Join(String),
  JoinAll(Vec<String>),
  Raw(String),
  Send { chan: String, text: String, reply: Option<String>, nonce: Option<String> },
  Reconnect,
  Recv,
}
#[derive(Clone, Debug)]
pub struct Script {
  login: Option<String>,
  token: Option<String>,
  timeout: Option<u64>,
  backoff: Option<(Option<u64>, u64, u32, u64)>,
  conns: Vec<Conn>,
  /// with Some(n): dropped after n polls
  calls: Vec<(Option<usize>, Call)>,
}

fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c => o.push(c),
    }
  }
  o
}
fn esc_bytes(b: &[u8]) -> String {
  let mut o = String::new();
  let mut b = b;
  loop {
    match std::str::from_utf8(b) {
      Ok(s) => {
        o.push_str(&esc(s));
        return o;
      }
      Err(e) => {
        let n = e.valid_up_to();
        o.push_str(&esc(std::str::from_utf8(&b[..n]).unwrap()));
        o.push_str(&format!("\\x{:02x}", b[n]));
        b = &b[n + 1..];
      }
    }
  }
}
fn unesc_bytes(s: &str) -> Option<Vec<u8>> {
  let mut o = vec![];
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      o.extend_from_slice(c.to_string().as_bytes());
      continue;
    }
    match it.next()? {
      'n' => o.push(b'\n'),
      'r' => o.push(b'\r'),
      't' => o.push(b'\t'),
      '\\' => o.push(b'\\'),
      'x' => {
        let h: String = [it.next()?, it.next()?].iter().collect();
        o.push(u8::from_str_radix(&h, 16).ok()?)
      }
      _ => return None,
    }
  }
  Some(o)
}
fn unesc(s: &str) -> Option<String> {
  String::from_utf8(unesc_bytes(s)?).ok()
}
const KINDS: &[(&str, io::ErrorKind)] = &[
  ("ConnectionReset", io::ErrorKind::ConnectionReset),
  ("ConnectionAborted", io::ErrorKind::ConnectionAborted),
  ("ConnectionRefused", io::ErrorKind::ConnectionRefused),
  ("TimedOut", io::ErrorKind::TimedOut),
  ("UnexpectedEof", io::ErrorKind::UnexpectedEof),
  ("BrokenPipe", io::ErrorKind::BrokenPipe),
  ("NotConnected", io::ErrorKind::NotConnected),
  ("Other", io::ErrorKind::Other),
];
fn kind(s: &str) -> Option<io::ErrorKind> {
  KINDS.iter().find(|k| k.0 == s).map(|k| k.1)
}
fn kind_name(s: &str) -> String {
  if s == "zero" {
    "WriteZero".into()
  } else {
    s.into()
  }
}

impl Script {
  pub fn text(&self) -> String {
    let mut o = String::new();
    if let Some(l) = &self.login {
      o += &format!("L{}\n", esc(l));
    }
    if let Some(t) = &self.token {
      o += &format!("T{}\n", esc(t));
    }
    if let Some(x) = self.timeout {
      o += &format!("X{x}\n");
    }
    if let Some((n, i, m, x)) = &self.backoff {
      o += &format!("B{},{i},{m},{x}\n", n.map(|n| n.to_string()).unwrap_or("-".into()));
    }
    for c in &self.conns {
      let open = match &c.open {
        None => "hang".into(),
        Some(Ok(())) => "ok".into(),
        Some(Err(k)) => k.clone(),
      };
      let mut flags = String::from("m");
      if c.stutter {
        flags.push('s');
      }
      if c.held {
        flags.push('h');
      }
      let fail = match &c.fail {
        None => "-".into(),
        Some((n, k, once)) => format!("{n}:{k}{}", if *once { "!" } else { "" }),
      };
      let end = match &c.end {
        End::Eof => "eof".into(),
        End::Hang => "hang".into(),
        End::Fail(k) => k.clone(),
      };
      o += &format!("O{open},{},{},{flags},{fail},{},{end},{}\n", c.after, c.chunk, c.flush_fail.clone().unwrap_or("-".into()), c.end_at);
      for (t, b) in &c.data {
        o += &format!("D{t},{}\n", esc_bytes(b));
      }
    }
    for (c, op) in &self.calls {
      if let Some(n) = c {
        o += &format!("c{n} ");
      }
      o += &match op {
        Call::Ping(s) => format!("p{}", esc(s)),
        Call::Pong(s) => format!("q{}", esc(s)),
        Call::Join(s) => format!("j{}", esc(s)),
        Call::JoinAll(v) => format!("J{}", v.iter().map(|s| format!("{}\t", esc(s))).collect::<String>()),
        Call::Raw(s) => format!("r{}", esc(s)),
        Call::Send { chan, text, reply, nonce } => {
          let f = |o: &Option<String>| o.as_ref().map(|s| format!("+{}", esc(s))).unwrap_or("-".into());
          format!("s{}\t{}\t{}\t{}", esc(chan), esc(text), f(reply), f(nonce))
        }
        Call::Reconnect => "R".into(),
        Call::Recv => "v".into(),
      };
      o.push('\n');
    }
    o
  }

  pub fn read(s: &str) -> Option<Script> {
    let mut r = Script { login: None, token: None, timeout: None, backoff: None, conns: vec![], calls: vec![] };
    for l in s.split('\n') {
      let Some(c) = l.chars().next() else { continue };
      let rest = &l[c.len_utf8()..];
      match c {
        'L' => r.login = Some(unesc(rest)?),
        'T' => r.token = Some(unesc(rest)?),
        'X' => r.timeout = Some(rest.parse().ok().filter(|n| *n < 10_000_000)?),
        'B' => {
          let v: Vec<&str> = rest.split(',').collect();
          let [n, i, m, x] = v[..] else { return None };
          let (i, x): (u64, u64) = (i.parse().ok()?, x.parse().ok()?);
          if i > 100_000_000 || x > 100_000_000 {
            return None;
          }
          r.backoff = Some((if n == "-" { None } else { Some(n.parse().ok()?) }, i, m.parse().ok()?, x));
        }
        'O' => {
          let v: Vec<&str> = rest.split(',').collect();
          let [open, after, chunk, flags, fail, flush, end, end_at] = v[..] else { return None };
          r.conns.push(Conn {
            open: match open {
              "hang" => None,
              "ok" => Some(Ok(())),
              k => {
                kind(k)?;
                Some(Err(k.into()))
              }
            },
            after: after.parse().ok().filter(|n| *n < 10_000_000)?,
            chunk: chunk.parse().ok()?,
            stutter: flags.contains('s'),
            held: flags.contains('h'),
            fail: match fail {
              "-" => None,
              f => {
                let (n, k) = f.split_once(':')?;
                let k2 = k.strip_suffix('!').unwrap_or(k);
                if k2 != "hang" && k2 != "zero" {
                  kind(k2)?;
                }
                if k2 == "hang" && k2 != k {
                  return None;
                }
                Some((n.parse().ok()?, k2.into(), k2 != k))
              }
            },
            flush_fail: match flush {
              "-" => None,
              k => {
                kind(k)?;
                Some(k.into())
              }
            },
            end: match end {
              "eof" => End::Eof,
              "hang" => End::Hang,
              k => {
                kind(k)?;
                End::Fail(k.into())
              }
            },
            end_at: end_at.parse().ok().filter(|n| *n < 10_000_000)?,
            data: vec![],
          });
        }
        'D' => {
          let (t, b) = rest.split_once(',')?;
          let t: u64 = t.parse().ok().filter(|n| *n < 10_000_000)?;
          let c = r.conns.last_mut()?;
          if c.data.last().is_some_and(|x| x.0 > t) {
            return None;
          }
          c.data.push((t, unesc_bytes(b)?));
        }
        _ => {
          let (cancel, l) = match l.strip_prefix('c') {
            None => (None, l),
            Some(x) => {
              let (n, x) = x.split_once(' ')?;
              (Some(n.parse().ok().filter(|n| *n > 0)?), x)
            }
          };
          let c = l.chars().next()?;
          let rest = &l[c.len_utf8()..];
          r.calls.push((
            cancel,
            match c {
              'p' => Call::Ping(unesc(rest)?),
              'q' => Call::Pong(unesc(rest)?),
              'j' => Call::Join(unesc(rest)?),
              'J' => {
                let mut v: Vec<String> = vec![];
                for x in rest.split('\t') {
                  v.push(unesc(x)?);
                }
                if v.pop()? != "" {
                  return None;
                }
                Call::JoinAll(v)
              }
              'r' => Call::Raw(unesc(rest)?),
              's' => {
                let v: Vec<&str> = rest.split('\t').collect();
                let [c, t, r, n] = v[..] else { return None };
                let f = |s: &str| -> Option<Option<String>> {
                  match s {
                    "-" => Some(None),
                    s => Some(Some(unesc(s.strip_prefix('+')?)?)),
                  }
                };
                Call::Send { chan: unesc(c)?, text: unesc(t)?, reply: f(r)?, nonce: f(n)? }
              }
              'R' if rest.is_empty() => Call::Reconnect,
              'v' if rest.is_empty() => Call::Recv,
              _ => return None,
            },
          ));
        }
      }
    }
    for c in &r.conns {
      if c.data.last().is_some_and(|d| d.0 > c.end_at) {
        return None;
      }
    }
    Some(r)
  }
}

// ---------------------------------------------------------------- the connection
#[derive(Default)]
struct Out {
  /// what has been written on the connection
  taken: Vec<u8>,
  /// how much of it is not held back
  passed: usize,
}
struct Wire {
  c: Conn,
  start: Instant,
  data: VecDeque<(u64, Vec<u8>)>,
  ended: bool,
  out: Arc<Mutex<Out>>,
  sleep: Option<Pin<Box<tokio::time::Sleep>>>,
  r_odd: bool,
  w_odd: bool,
  failed: bool,
}
impl Wire {
  fn stutter(flag: &mut bool, on: bool, cx: &mut Context<'_>) -> bool {
    if on {
      *flag = !*flag;
      if *flag {
        cx.waker().wake_by_ref();
        return true;
      }
    }
    false
  }
}
impl AsyncRead for Wire {
  fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let w = &mut *self;
    if Wire::stutter(&mut w.r_odd, w.c.stutter, cx) {
      return Poll::Pending;
    }
    while w.data.front().is_some_and(|d| d.1.is_empty()) {
      w.data.pop_front();
    }
    if buf.remaining() == 0 {
      return Poll::Ready(Ok(()));
    }
    let now = (Instant::now() - w.start).as_millis() as u64;
    let due = match w.data.front() {
      Some(d) => d.0,
      None if w.ended => return if w.c.end == End::Hang { Poll::Pending } else { Poll::Ready(Ok(())) },
      None => w.c.end_at,
    };
    if due > now {
      let t = w.start + Duration::from_millis(due);
      let s = w.sleep.insert(Box::pin(tokio::time::sleep_until(t)));
      return match s.as_mut().poll(cx) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(()) => {
          cx.waker().wake_by_ref();
          Poll::Pending
        }
      };
    }
    match w.data.front_mut() {
      Some(d) => {
        let mut n = d.1.len().min(buf.remaining());
        if w.c.chunk > 0 {
          n = n.min(w.c.chunk);
        }
        buf.put_slice(&d.1[..n]);
        d.1.drain(..n);
        Poll::Ready(Ok(()))
      }
      None => {
        w.ended = true;
        match &w.c.end {
          End::Eof => Poll::Ready(Ok(())),
          End::Hang => Poll::Pending,
          End::Fail(k) => Poll::Ready(Err(kind(k).unwrap().into())),
        }
      }
    }
  }
}
impl AsyncWrite for Wire {
  fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    let w = &mut *self;
    if Wire::stutter(&mut w.w_odd, w.c.stutter, cx) {
      return Poll::Pending;
    }
    let mut o = w.out.lock().unwrap();
    let mut n = buf.len();
    if w.c.chunk > 0 {
      n = n.min(w.c.chunk);
    }
    if let Some((at, k, once)) = &w.c.fail {
      if !(w.failed && *once) {
        let left = at.saturating_sub(o.taken.len());
        if left == 0 && !buf.is_empty() {
          w.failed = true;
          return match k.as_str() {
            "hang" => Poll::Pending,
            "zero" => Poll::Ready(Ok(0)),
            k => Poll::Ready(Err(kind(k).unwrap().into())),
          };
        }
        n = n.min(left);
      }
    }
    o.taken.extend_from_slice(&buf[..n]);
    if !w.c.held {
      o.passed = o.taken.len();
    }
    Poll::Ready(Ok(n))
  }
  fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let w = &mut *self;
    if Wire::stutter(&mut w.w_odd, w.c.stutter, cx) {
      return Poll::Pending;
    }
    if let Some(k) = &w.c.flush_fail {
      return Poll::Ready(Err(kind(k).unwrap().into()));
    }
    let mut o = w.out.lock().unwrap();
    o.passed = o.taken.len();
    Poll::Ready(Ok(()))
  }
  fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
    Poll::Ready(Ok(()))
  }
}

// ---------------------------------------------------------------- playing a script
#[derive(Clone, Debug, PartialEq)]
pub struct Did {
  /// how it ended: "ok", "ok:LINE", "cancelled", "stuck" or the error
  res: String,
  disconnect: Option<bool>,
  /// the connection in use afterwards, and what has been written on it before and after
  conn: usize,
  before: Vec<u8>,
  after: Vec<u8>,
  passed: bool,
  start: u64,
  end: u64,
}
#[derive(Debug, Default)]
pub struct Played {
  connect: String,
  connect_end: u64,
  login: String,
  token: Option<String>,
  conf: Option<(u64, Option<u64>, u64, u32, u64)>,
  conf_after: Option<(u64, Option<u64>, u64, u32, u64)>,
  login_after: String,
  token_after: Option<String>,
  dids: Vec<Did>,
  /// when each connection was asked for
  opened: Vec<u64>,
  wires: Vec<(Vec<u8>, bool)>,
}

struct Polls<F> {
  f: Pin<Box<F>>,
  left: usize,
}
impl<F: Future> Future for Polls<F> {
  type Output = Option<F::Output>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
    match self.f.as_mut().poll(cx) {
      Poll::Ready(x) => Poll::Ready(Some(x)),
      Poll::Pending => {
        self.left -= 1;
        if self.left == 0 {
          Poll::Ready(None)
        } else {
          Poll::Pending
        }
      }
    }
  }
}

const STUCK: Duration = Duration::from_secs(1_000_000_000);

/// Ok(x): the call ended with x; Err: it was dropped
async fn limited<F: Future>(cancel: Option<usize>, f: F) -> Result<F::Output, &'static str> {
  match tokio::time::timeout(STUCK, Polls { f: Box::pin(f), left: cancel.unwrap_or(usize::MAX) }).await {
    Ok(Some(x)) => Ok(x),
    Ok(None) => Err("cancelled"),
    Err(_) => Err("stuck"),
  }
}

// ---------------------------------------------------------------- what is shown to others than the server
thread_local! {
  static SHOWN: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
fn tell(f: impl FnOnce() -> String) {
  if SHOWN.with(|s| s.borrow().is_some()) {
    let t = f();
    SHOWN.with(|s| {
      if let Some(s) = &mut *s.borrow_mut() {
        s.push_str(&t);
        s.push('\n');
      }
    });
  }
}
fn tell_err(e: &(dyn std::error::Error + 'static)) {
  tell(|| {
    let mut o = String::new();
    let mut e = Some(e);
    while let Some(x) = e {
      o.push_str(&format!("{x}\n{x:?}\n{x:#?}\n"));
      e = x.source();
    }
    o
  })
}
/// keeps every event and span that the client (or what it calls) traces
struct Listener;
struct Fields(String);
impl tracing::field::Visit for Fields {
  fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
    self.0.push_str(&format!("{}={v:?} ", f.name()));
  }
  fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
    self.0.push_str(&format!("{}={v} ", f.name()));
  }
}
impl tracing::Subscriber for Listener {
  fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
    true
  }
  fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
    let mut v = Fields(String::new());
    a.record(&mut v);
    tell(|| v.0);
    tracing::span::Id::from_u64(1)
  }
  fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
    let mut v = Fields(String::new());
    r.record(&mut v);
    tell(|| v.0);
  }
  fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
  fn event(&self, e: &tracing::Event<'_>) {
    let mut v = Fields(String::new());
    e.record(&mut v);
    tell(|| v.0);
  }
  fn enter(&self, _: &tracing::span::Id) {}
  fn exit(&self, _: &tracing::span::Id) {}
}
/// everything a script's play shows
fn shown(s: &Script) -> Result<String, String> {
  SHOWN.with(|x| *x.borrow_mut() = Some(String::new()));
  let r = tracing::subscriber::with_default(Listener, || play(s));
  let t = SHOWN.with(|x| x.borrow_mut().take()).unwrap_or_default();
  r.map(|_| t)
}
/// the token is shown to nobody but the server: what is shown has no six characters of it in a row
/// (and if it has, by chance, it has them with another token too)
fn p25(s: &Script) -> R {
  let (Some(_), Some(t)) = (&s.login, &s.token) else { return Ok(false) };
  let pre = if t.starts_with("oauth:") { "oauth:" } else { "" };
  let core: Vec<char> = t[pre.len()..].chars().collect();
  if core.len() < 6 {
    return Ok(false);
  }
  let a = shown(s)?;
  let hits: Vec<String> = core.windows(6).map(|w| w.iter().collect::<String>()).filter(|w| a.contains(w.as_str())).collect();
  if hits.is_empty() {
    return Ok(true);
  }
  let other: String = core
    .iter()
    .map(|c| match c {
      'a'..='z' => (b'a' + (*c as u8 - b'a' + 13) % 26) as char,
      'A'..='Z' => (b'A' + (*c as u8 - b'A' + 13) % 26) as char,
      '0'..='9' => (b'0' + (*c as u8 - b'0' + 5) % 10) as char,
      c => *c,
    })
    .collect();
  let b = shown(&Script { token: Some(format!("{pre}{other}")), ..s.clone() })?;
  match hits.iter().find(|w| !b.contains(w.as_str())) {
    Some(w) => {
      let l = a.lines().find(|l| l.contains(w.as_str())).unwrap_or("");
      Err(format!("{w:?}, of the token {t:?}, is shown: {l}"))
    }
    None => Ok(true),
  }
}

fn ioe(e: &io::Error) -> String {
  format!("io:{:?}", e.kind())
}
fn recv_err(e: &RecvError) -> String {
  tell_err(e);
  match e {
    RecvError::Io(e) => ioe(e),
    RecvError::Parse(s) => format!("parse:{s}"),
    RecvError::StreamClosed => "closed".into(),
  }
}
fn conn_err(e: &ConnectError) -> String {
  tell_err(e);
  match e {
    ConnectError::Read(e) => format!("read:{}", recv_err(e)),
    ConnectError::Io(e) => ioe(e),
    ConnectError::Dns(_) => "dns".into(),
    ConnectError::Tls(_) => "tls".into(),
    ConnectError::Open(OpenStreamError::Io(e)) => format!("open:{}", ioe(e)),
    ConnectError::Timeout => "timeout".into(),
    ConnectError::Welcome(m) => format!("welcome:{}", m.raw()),
    ConnectError::Auth => "auth".into(),
    ConnectError::Notice(m) => format!("notice:{}", m.raw()),
  }
}
fn send_res(r: Result<(), SendError>) -> String {
  if let Err(e) = &r {
    tell_err(e);
  }
  match r {
    Ok(()) => "ok".into(),
    Err(SendError::Io(e)) => ioe(&e),
    Err(SendError::StreamClosed) => "closed".into(),
    Err(SendError::InvalidMessage(_)) => "invalid".into(),
  }
}
fn conf(c: &tmi::client::Config) -> (u64, Option<u64>, u64, u32, u64) {
  (c.timeout.as_millis() as u64, c.backoff.max_tries, c.backoff.initial_delay.as_millis() as u64, c.backoff.delay_multiplier, c.backoff.max_delay.as_millis() as u64)
}

pub fn play(s: &Script) -> Result<Played, String> {
  // no certificates are needed on connections that are not real
  std::env::set_var("SSL_CERT_FILE", "/dev/null");
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
  type Wires = Arc<Mutex<(Vec<u64>, Vec<(usize, Arc<Mutex<Out>>)>)>>;
  let wires: Wires = Default::default();
  let played = rt.block_on(async {
    let t0 = Instant::now();
    let ms = move || (Instant::now() - t0).as_millis() as u64;
    let mut queue: VecDeque<Conn> = s.conns.iter().cloned().collect();
    let (w2, mut nth) = (wires.clone(), 0usize);
    verif::OPENER.with(|o| {
      *o.borrow_mut() = Some(Box::new(move || {
        w2.lock().unwrap().0.push((Instant::now() - t0).as_millis() as u64);
        let c = queue.pop_front();
        let n = nth;
        nth += 1;
        let w = w2.clone();
        Box::pin(async move {
          // a server that offers no more connections does not answer
          let Some(c) = c else { return std::future::pending().await };
          match &c.open {
            None => std::future::pending::<()>().await,
            Some(_) if c.after > 0 => tokio::time::sleep(Duration::from_millis(c.after)).await,
            _ => {}
          }
          if let Some(Err(k)) = &c.open {
            return Err(kind(k).unwrap().into());
          }
          let out = Arc::new(Mutex::new(Out::default()));
          w.lock().unwrap().1.push((n, out.clone()));
          let data = c.data.iter().cloned().collect();
          Ok(Box::new(Wire { c, start: Instant::now(), data, ended: false, out, sleep: None, r_odd: false, w_odd: false, failed: false }) as verif::Stream)
        })
      }))
    });
    let mut p = Played::default();
    let mut b = Client::builder();
    if let Some(l) = &s.login {
      b = b.credentials(match &s.token {
        Some(t) => Credentials::new(l, t),
        None => Credentials { login: l.clone(), token: None },
      });
    }
    if let Some(x) = s.timeout {
      b = b.timeout(Duration::from_millis(x));
    }
    if let Some((n, i, m, x)) = s.backoff {
      b = b.backoff(Backoff { max_tries: n, initial_delay: Duration::from_millis(i), delay_multiplier: m, max_delay: Duration::from_millis(x) });
    }
    // with nothing configured, the shorter way
    let r = if s.login.is_none() && s.timeout.is_none() && s.backoff.is_none() { limited(None, Client::anonymous()).await } else { limited(None, b.connect()).await };
    p.connect_end = ms();
    let mut client = match r {
      Ok(Ok(c)) => {
        p.connect = "ok".into();
        c
      }
      Ok(Err(e)) => {
        p.connect = conn_err(&e);
        return p;
      }
      Err(e) => {
        p.connect = e.into();
        return p;
      }
    };
    p.login = client.credentials().login().to_string();
    p.token = client.credentials().token().map(|s| s.to_string());
    p.conf = Some(conf(client.config()));
    tell(|| format!("{0:?} {0:#?} {1:?} {1:#?}", client.credentials(), client.config()));
    let state = |w: &Wires| -> (usize, Vec<u8>, bool) {
      let w = w.lock().unwrap();
      match w.1.last() {
        Some((n, o)) => {
          let o = o.lock().unwrap();
          (*n, o.taken.clone(), o.passed == o.taken.len())
        }
        None => (usize::MAX, vec![], true),
      }
    };
    for (cancel, op) in &s.calls {
      let (conn, before, _) = state(&wires);
      let start = ms();
      let mut disconnect = None;
      let c = *cancel;
      let res = match op {
        Call::Ping(n) => limited(c, client.ping(n)).await.map(send_res),
        Call::Pong(l) => {
          let Some(m) = tmi::IrcMessageRef::parse(l) else { continue };
          let Ok(tmi::Message::Ping(m)) = m.as_typed() else { continue };
          limited(c, client.pong(&m)).await.map(send_res)
        }
        Call::Join(x) => limited(c, client.join(x)).await.map(send_res),
        Call::JoinAll(v) => limited(c, client.join_all(v)).await.map(send_res),
        Call::Raw(x) => limited(c, client.send_raw(x.as_str())).await.map(send_res),
        Call::Send { chan, text, reply, nonce } => {
          let mut m = client.privmsg(chan, text);
          if let Some(x) = reply {
            m = m.reply_to(x);
          }
          if let Some(x) = nonce {
            m = m.client_nonce(x);
          }
          limited(c, m.send()).await.map(send_res)
        }
        Call::Reconnect => limited(c, client.reconnect()).await.map(|r| match r {
          Ok(()) => "ok".to_string(),
          Err(e) => {
            tell_err(&e);
            conn_err(&e.cause)
          }
        }),
        Call::Recv => limited(c, client.recv()).await.map(|r| match r {
          Ok(m) => {
            // the message is the one that parsing its line gives
            let again = tmi::IrcMessage::parse(m.raw());
            let same = again.is_some_and(|a| {
              a.command() == m.command() && a.params() == m.params() && a.channel() == m.channel() && a.prefix() == m.prefix() && a.tags().eq(m.tags())
            });
            if same {
              format!("ok:{}", m.raw())
            } else {
              format!("not the message parsed from: {}", m.raw())
            }
          }
          Err(e) => {
            disconnect = Some(e.is_disconnect());
            recv_err(&e)
          }
        }),
      };
      let (conn2, after, passed) = state(&wires);
      p.dids.push(Did {
        res: res.unwrap_or_else(|e| e.to_string()),
        disconnect,
        conn: conn2,
        before: if conn2 == conn { before } else { vec![] },
        after,
        passed,
        start,
        end: ms(),
      });
    }
    p.login_after = client.credentials().login().to_string();
    p.token_after = client.credentials().token().map(|s| s.to_string());
    p.conf_after = Some(conf(client.config()));
    tell(|| format!("{0:?} {0:#?} {1:?} {1:#?}", client.credentials(), client.config()));
    p
  });
  let mut played = played;
  let w = wires.lock().unwrap();
  played.opened = w.0.clone();
  let n = played.opened.len();
  played.wires = vec![(vec![], true); n];
  for (i, o) in &w.1 {
    let o = o.lock().unwrap();
    played.wires[*i] = (o.taken.clone(), o.passed == o.taken.len());
  }
  verif::OPENER.with(|o| *o.borrow_mut() = None);
  Ok(played)
}

// ---------------------------------------------------------------- what a client that keeps the contracts does
/// the lines a connection delivers, each with the time it is complete; None: what follows is not specified
fn items(c: &Conn) -> Vec<(u64, Option<String>)> {
  // "L" + line, "E" + error
  let mut v = vec![];
  let mut cur: Vec<u8> = vec![];
  let put = |t: u64, l: Vec<u8>, v: &mut Vec<(u64, Option<String>)>| -> bool {
    match String::from_utf8(l) {
      Ok(s) => {
        v.push((t, Some(format!("L{s}"))));
        true
      }
      Err(_) => {
        v.push((t, Some("Eio:InvalidData".into())));
        v.push((t, None));
        false
      }
    }
  };
  for (t, d) in &c.data {
    for b in d {
      if *b == b'\n' {
        let mut l = std::mem::take(&mut cur);
        if l.last() == Some(&b'\r') {
          l.pop();
        }
        if !put(*t, l, &mut v) {
          return v;
        }
      } else {
        cur.push(*b);
      }
    }
  }
  match &c.end {
    End::Hang => return v,
    End::Eof => {}
    End::Fail(k) => v.push((c.end_at, Some(format!("Eio:{k}")))),
  }
  if !cur.is_empty() {
    if matches!(c.end, End::Fail(_)) {
      // whether what came of a line before a failure is delivered afterwards is not specified
      v.push((c.end_at, None));
      return v;
    }
    if !put(c.end_at, cur, &mut v) {
      return v;
    }
  }
  v.push((c.end_at, Some("Z".into())));
  v
}

enum Shake {
  /// result, duration, number of lines read
  Done(String, u64, usize),
  /// too close to call, or not specified
  Unclear,
}
const SLACK: u64 = 60;
fn close(a: u64, b: u64) -> bool {
  a.abs_diff(b) < SLACK
}

fn greeting(login: &str, token: Option<&str>) -> Vec<u8> {
  let t = token.unwrap_or("just_a_lil_guy");
  let t = t.strip_prefix("oauth:").unwrap_or(t);
  let mut o = b"CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\nPASS oauth:".to_vec();
  o.extend_from_slice(t.as_bytes());
  o.extend_from_slice(b"\r\nNICK ");
  o.extend_from_slice(login.as_bytes());
  o.extend_from_slice(b"\r\n");
  o
}

fn shake(c: &Conn, timeout: u64, greet: usize) -> Shake {
  let its = items(c);
  if let Some((n, k, once)) = &c.fail {
    if *n < greet {
      if *once && k == "hang" {
        return Shake::Unclear;
      }
      return if k == "hang" { Shake::Done("timeout".into(), timeout, 0) } else { Shake::Done(format!("io:{}", kind_name(k)), 0, 0) };
    }
  }
  if let Some(k) = &c.flush_fail {
    return Shake::Done(format!("io:{k}"), 0, 0);
  }
  let mut now = 0u64;
  for i in 0..2 {
    let limit = (now + 5000).min(timeout);
    let it = match its.get(i) {
      None => return Shake::Done("timeout".into(), limit, i),
      Some((_, None)) => return Shake::Unclear,
      Some((t, Some(x))) => {
        let at = (*t).max(now);
        if close(at, limit) {
          return Shake::Unclear;
        }
        if at > limit {
          return Shake::Done("timeout".into(), limit, i);
        }
        now = at;
        x
      }
    };
    let (k, l) = it.split_at(1);
    match k {
      "Z" => return Shake::Done("read:closed".into(), now, i),
      "E" => return Shake::Done(format!("read:{l}"), now, i + 1),
      _ => {}
    }
    let Some(m) = crate::oracle::parse(l) else { return Shake::Done(format!("read:parse:{l}"), now, i + 1) };
    if i == 0 {
      if m.command != "CAP" {
        return Shake::Done(format!("welcome:{l}"), now, 1);
      }
      if !m.params.is_some_and(|p| p.starts_with("* ACK")) {
        return Shake::Done("auth".into(), now, 1);
      }
    } else {
      return match m.command {
        "001" => Shake::Done("ok".into(), now, 2),
        "NOTICE" if m.params.is_some_and(|p| p.contains("authentication failed")) => Shake::Done("auth".into(), now, 2),
        "NOTICE" => Shake::Done(format!("notice:{l}"), now, 2),
        _ => Shake::Done(format!("welcome:{l}"), now, 2),
      };
    }
  }
  unreachable!()
}

/// opening and shaking hands: result, duration, lines read, whether there is a stream
fn attempt(c: Option<&Conn>, timeout: u64, greet: usize) -> Option<(String, u64, usize, bool)> {
  let Some(c) = c else { return Some(("timeout".into(), timeout, 0, false)) };
  match &c.open {
    None => return Some(("timeout".into(), timeout, 0, false)),
    Some(r) => {
      if close(c.after, timeout) {
        return None;
      }
      if c.after > timeout {
        return Some(("timeout".into(), timeout, 0, false));
      }
      if let Err(k) = r {
        return Some((format!("open:io:{k}"), c.after, 0, false));
      }
    }
  }
  match shake(c, timeout, greet) {
    Shake::Done(r, d, n) => Some((r, c.after + d, n, true)),
    Shake::Unclear => None,
  }
}

fn command(c: &Call) -> Option<Vec<u8>> {
  let chan = |s: &str| if s.starts_with('#') { s.to_string() } else { format!("#{s}") };
  Some(
    match c {
      Call::Ping(n) => format!("PING :{n}\r\n"),
      Call::Pong(l) => {
        let m = crate::oracle::parse(l)?;
        match (m.command, m.text()) {
          ("PING", Some(n)) => format!("PONG :{n}\r\n"),
          ("PING", None) => "PONG\r\n".into(),
          _ => return None,
        }
      }
      Call::Join(c) => format!("JOIN {}\r\n", chan(c)),
      Call::JoinAll(v) => format!("JOIN {}\r\n", v.iter().map(|c| chan(c)).collect::<Vec<_>>().join(",")),
      Call::Raw(s) => s.clone(),
      Call::Send { chan, text, reply, nonce } => {
        let mut t = vec![];
        if let Some(r) = reply {
          t.push(format!("reply-parent-msg-id={r}"));
        }
        if let Some(r) = nonce {
          t.push(format!("client-nonce={r}"));
        }
        let t = if t.is_empty() { String::new() } else { format!("@{} ", t.join(";")) };
        format!("{t}PRIVMSG {chan} :{text}\r\n")
      }
      _ => return None,
    }
    .into_bytes(),
  )
}

fn show(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  format!("{:?}", if s.len() > 400 { s.chars().take(400).collect::<String>() } else { s.to_string() })
}

impl Script {
  fn timeout_ms(&self) -> u64 {
    self.timeout.unwrap_or(30_000)
  }
  fn back(&self) -> (Option<u64>, u64, u32, u64) {
    self.backoff.unwrap_or((Some(8), 1000, 3, 12_000))
  }
}

/// what one sending call did on the connection
fn sent(op: &Call, d: &Did, c: Option<&Conn>) -> Result<bool, String> {
  let Some(want) = command(op) else { return Ok(false) };
  let got = d.after.strip_prefix(&d.before[..]).ok_or("what had been written before has changed")?;
  let reject = matches!(op, Call::Raw(_)) && !want.ends_with(b"\r\n");
  if reject {
    if d.res != "invalid" || !got.is_empty() {
      return Err(format!("a raw message without CR LF: {} and {} written", d.res, show(got)));
    }
    return Ok(true);
  }
  if d.res == "ok" {
    if got != want {
      return Err(format!("{op:?} wrote {}, not {}", show(got), show(&want)));
    }
    if !d.passed {
      return Err(format!("{op:?}: what it wrote is held back until someone flushes it"));
    }
    return Ok(true);
  }
  if !want.starts_with(got) {
    return Err(format!("{op:?} ({}) wrote {}, which is no part of {}", d.res, show(got), show(&want)));
  }
  let Some(c) = c else { return Ok(true) };
  let allowed = match d.res.as_str() {
    "cancelled" => true,
    "stuck" => c.fail.as_ref().is_some_and(|f| f.1 == "hang"),
    r => c.fail.as_ref().is_some_and(|f| r == format!("io:{}", kind_name(&f.1))) || c.flush_fail.as_ref().is_some_and(|f| r == format!("io:{f}")),
  };
  if !allowed {
    return Err(format!("{op:?} ended with {}", d.res));
  }
  Ok(true)
}

pub fn check(prop: &str, text: &str) -> R {
  if prop == "P21" {
    return bypass(text);
  }
  let Some(s) = Script::read(text) else { return Ok(false) };
  if s.conns.is_empty() && prop != "P19" {
    return Ok(false);
  }
  let (_, i, m, x) = s.back();
  if i.max(x).checked_mul(m as u64).is_none_or(|n| n > 1 << 50) {
    return Ok(false);
  }
  // the harness gives up on a call after a virtual while
  match prop {
    "P18" => p18(&s),
    "P19" => p19(&s),
    "P20" => p20(&s),
    "P22" => p22(&s),
    "P25" => p25(&s),
    _ => p24(&s),
  }
}

/// the result the first handshake must have for the rest of the script to be judged
fn connected(s: &Script) -> Option<usize> {
  let g = greeting(s.login.as_deref().unwrap_or("justinfan00000"), s.token.as_deref().filter(|_| s.login.is_some())).len();
  match attempt(s.conns.first(), s.timeout_ms(), g) {
    Some((r, _, _, _)) if r == "ok" => Some(g),
    _ => None,
  }
}

fn p18(s: &Script) -> R {
  if connected(s).is_none() {
    return Ok(false);
  }
  let p = play(s)?;
  if p.connect != "ok" {
    return Ok(false);
  }
  let mut nt = false;
  let mut di = 0;
  for (_, op) in &s.calls {
    if let Call::Pong(l) = op {
      if skipped_pong(l) {
        continue;
      }
    }
    let Some(d) = p.dids.get(di) else { return Ok(false) };
    di += 1;
    match op {
      Call::Reconnect | Call::Recv => {}
      _ => nt |= sent(op, d, s.conns.get(d.conn))?,
    }
    if d.res == "stuck" {
      break;
    }
  }
  Ok(nt)
}
fn skipped_pong(l: &str) -> bool {
  !tmi::IrcMessageRef::parse(l).is_some_and(|m| matches!(m.as_typed(), Ok(tmi::Message::Ping(_))))
}

fn is_greeting(got: &[u8], passed: bool, want: &[u8], whole: bool, what: &str) -> Result<(), String> {
  if whole {
    if !got.starts_with(want) {
      return Err(format!("{what}: the client said {}, not {}", show(got), show(want)));
    }
    if !passed {
      return Err(format!("{what}: the greeting is held back"));
    }
  } else if !want.starts_with(got) {
    return Err(format!("{what}: the client said {}, which is no part of {}", show(got), show(want)));
  }
  Ok(())
}

/// the connect result, the greeting on every connection, and nothing left over afterwards
fn p19(s: &Script) -> R {
  let anon = s.login.is_none();
  let g = greeting(s.login.as_deref().unwrap_or("justinfan00000"), s.token.as_deref().filter(|_| !anon));
  let Some((want, _, read, stream)) = attempt(s.conns.first(), s.timeout_ms(), g.len()) else { return Ok(false) };
  let p = play(s)?;
  if p.connect != want {
    return Err(format!("connecting: {:?}, should be {:?}", p.connect, want));
  }
  let same = |got: &[u8], passed: bool, whole: bool, what: &str| -> Result<(), String> {
    if anon {
      // only the digits of the login are free
      let mut w = g.clone();
      let n = w.len();
      for i in n - 7..n - 2 {
        if let Some(c) = got.get(i) {
          if !c.is_ascii_digit() || (i == n - 7 && *c == b'0') {
            return Err(format!("{what}: anonymous login in {}", show(got)));
          }
          w[i] = *c;
        }
      }
      return is_greeting(got, passed, &w, whole, what);
    }
    is_greeting(got, passed, &g, whole, what)
  };
  let broken = |c: &Conn| c.fail.as_ref().is_some_and(|f| f.0 < g.len()) || c.flush_fail.is_some();
  if stream {
    let (out, passed) = &p.wires[0];
    let c = &s.conns[0];
    let clean = c.fail.is_none() && s.calls.is_empty();
    same(out, *passed || !clean, !broken(c), "connecting")?;
    if s.calls.is_empty() && out.len() > g.len() {
      return Err(format!("connecting wrote more: {}", show(&out[g.len()..])));
    }
  }
  if p.connect != "ok" {
    return Ok(true);
  }
  if !anon && (p.login != *s.login.as_ref().unwrap() || p.token != s.token) {
    return Err("other credentials than given".into());
  }
  // afterwards: reconnecting says the same, and two equal calls write the same
  let mut unread: Vec<(u64, Option<String>)> = items(&s.conns[0]).split_off(read);
  let mut last: Option<(usize, usize)> = None;
  let mut next = 1;
  for ((cancel, op), d) in s.calls.iter().zip(&p.dids) {
    match op {
      Call::Reconnect if cancel.is_none() => {
        // one attempt only, so that it is clear what it did
        if s.back().0 != Some(1) {
          return Ok(false);
        }
        let Some((want, _, read, stream)) = attempt(s.conns.get(next), s.timeout_ms(), g.len()) else { return Ok(true) };
        if d.res != want {
          return Err(format!("reconnecting: {:?}, should be {:?}", d.res, want));
        }
        if stream {
          if d.conn != next {
            return Err("reconnecting uses another connection than the one it opened".into());
          }
          same(&d.after, d.passed || s.conns[next].fail.is_some() || want != "ok", !broken(&s.conns[next]), "reconnecting")?;
          unread = items(&s.conns[next]).split_off(read);
          last = None;
        }
        next += 1;
      }
      Call::Ping(_) if cancel.is_none() => {
        if d.res != "ok" {
          last = None;
          continue;
        }
        let w = d.after.len() - d.before.len();
        if let Some((conn, n)) = last {
          if conn == d.conn && n != w {
            return Err(format!("something was left over: {}", show(&d.after[d.before.len() - n..])));
          }
        }
        if last.is_none() && !d.after[d.before.len()..].starts_with(b"PING") {
          return Err(format!("something was left over: {}", show(&d.after[d.before.len()..])));
        }
        last = Some((d.conn, w));
      }
      Call::Recv if cancel.is_none() => {
        let Some((_, Some(x))) = unread.first().cloned() else { return Ok(true) };
        let (k, l) = x.split_at(1);
        if k == "L" && crate::oracle::parse(l).is_some() && d.res != format!("ok:{l}") {
          return Err(format!("the next line is {:?}, but receiving gives {:?}", l, d.res));
        }
        unread.remove(0);
      }
      _ => return Ok(true),
    }
  }
  Ok(true)
}

fn p20(s: &Script) -> R {
  let Some(g) = connected(s) else { return Ok(false) };
  let p = play(s)?;
  if p.connect != "ok" {
    return Ok(false);
  }
  let mut next = 1;
  let mut nt = false;
  for ((cancel, op), d) in s.calls.iter().zip(&p.dids) {
    if cancel.is_some() {
      return Ok(nt);
    }
    if *op != Call::Reconnect {
      continue;
    }
    let (tries, init, mult, max) = s.back();
    let mut left = tries;
    let mut delay = init;
    let mut cause = String::from("timeout");
    let mut now = d.start;
    let want = loop {
      if left == Some(0) {
        break cause;
      }
      if let Some(n) = &mut left {
        *n -= 1;
      }
      now += delay;
      delay = max.min(delay * mult as u64);
      match p.opened.get(next) {
        Some(t) if t.abs_diff(now) <= 20 => now = *t,
        Some(t) => return Err(format!("attempt {next} was made after {} ms, not after {} ms", t - d.start, now - d.start)),
        None => return Err(format!("attempt {next} was not made; result {:?}", d.res)),
      }
      let Some((r, took, _, _)) = attempt(s.conns.get(next), s.timeout_ms(), g) else { return Ok(nt) };
      next += 1;
      now += took;
      if r == "ok" {
        break r;
      }
      if r.starts_with("io:") || r.starts_with("open:io:") {
        cause = r;
        continue;
      }
      break r;
    };
    if d.res != want {
      return Err(format!("reconnecting: {:?}, should be {:?}", d.res, want));
    }
    if d.end.abs_diff(now) > 20 {
      return Err(format!("reconnecting ended after {} ms, should be {} ms", d.end - d.start, now - d.start));
    }
    nt = true;
    let until = p.dids.iter().skip_while(|x| !std::ptr::eq(*x, d)).nth(1).map(|x| x.start).unwrap_or(u64::MAX);
    if p.opened.get(next).is_some_and(|t| *t < until) {
      return Err(format!("one attempt too many: result {:?}", d.res));
    }
  }
  Ok(nt)
}

fn p21_want(n: usize) -> &'static str {
  if n % 2 == 0 {
    ""
  } else {
    " \u{2800}"
  }
}
fn bypass(text: &str) -> R {
  let n = text.chars().filter(|c| *c == 'g').count();
  let mut b = SameMessageBypass::default();
  let mut i = 0;
  for c in text.chars() {
    match c {
      'g' => {
        let got = b.get();
        if got != p21_want(i) {
          return Err(format!("use {i} gives {got:?}"));
        }
        i += 1;
      }
      'c' => {
        // a copy goes on by itself
        let mut c = b;
        if c != b || c.get() != p21_want(i) || c.get() != p21_want(i + 1) {
          return Err(format!("a copy before use {i} differs"));
        }
      }
      'd' => {
        b = SameMessageBypass::default();
        i = 0;
      }
      _ => return Ok(false),
    }
  }
  Ok(n > 1)
}

fn p22(s: &Script) -> R {
  if connected(s).is_none() {
    return Ok(false);
  }
  let p = play(s)?;
  if p.connect != "ok" {
    return Ok(false);
  }
  let its = items(&s.conns[0]);
  let mut at = 2;
  let mut nt = false;
  for ((cancel, op), d) in s.calls.iter().zip(&p.dids) {
    if cancel.is_some() {
      return Ok(nt);
    }
    match op {
      Call::Pong(l) if skipped_pong(l) => return Ok(nt),
      Call::Reconnect => return Ok(nt),
      Call::Recv => {}
      _ if d.res == "stuck" => return Ok(nt),
      _ => continue,
    }
    let want = match its.get(at) {
      Some((_, None)) => return Ok(nt),
      Some((_, Some(x))) => {
        let (k, l) = x.split_at(1);
        match k {
          "Z" => "closed".to_string(),
          "E" => l.to_string(),
          _ if crate::oracle::parse(l).is_some() => format!("ok:{l}"),
          _ => format!("parse:{l}"),
        }
      }
      None => "stuck".to_string(),
    };
    if its.get(at).is_none_or(|x| x.1.as_deref() != Some("Z")) {
      at += 1;
    }
    if d.res != want {
      return Err(format!("receiving: {:?}, should be {:?}", d.res, want));
    }
    if want == "closed" && d.disconnect != Some(true) {
      return Err("the end of the stream is not a disconnect".into());
    }
    if want.starts_with("parse:") && d.disconnect != Some(false) {
      return Err("a malformed line counts as a disconnect".into());
    }
    if matches!(want.as_str(), "io:UnexpectedEof" | "io:ConnectionAborted" | "io:TimedOut") && d.disconnect != Some(true) {
      return Err(format!("{want} is not a disconnect"));
    }
    nt = true;
    if d.res == "stuck" {
      break;
    }
  }
  Ok(nt)
}

/// the calls that are not dropped do the same as if the dropped ones had not been made
fn p24(s: &Script) -> R {
  if connected(s).is_none() || s.conns.iter().any(|c| c.fail.is_some() || c.flush_fail.is_some()) {
    return Ok(false);
  }
  if s.calls.iter().all(|c| c.0.is_none()) || s.calls.iter().any(|c| matches!(&c.1, Call::Pong(l) if skipped_pong(l))) {
    return Ok(false);
  }
  let p = play(s)?;
  if p.connect != "ok" {
    return Ok(false);
  }
  if p.conf != p.conf_after || p.login != p.login_after || p.token != p.token_after {
    return Err("the configuration has changed".into());
  }
  // the control run: without the calls that were dropped
  let mut calm = s.clone();
  calm.calls = s.calls.iter().zip(&p.dids).filter(|(_, d)| d.res != "cancelled").map(|(c, _)| (None, c.1.clone())).collect();
  let q = play(&calm)?;
  if q.connect != "ok" || q.dids.len() != calm.calls.len() {
    return Ok(false);
  }
  let mut nt = false;
  let mut fresh = true;
  let mut last: Option<(usize, String, Vec<u8>)> = None;
  let mut qs = q.dids.iter();
  for ((_, op), d) in s.calls.iter().zip(&p.dids) {
    if d.res == "cancelled" {
      // a dropped reconnect may have replaced the connection
      fresh &= *op != Call::Reconnect;
      continue;
    }
    let q = qs.next().unwrap();
    if d.res == "stuck" || q.res == "stuck" {
      // nothing more comes on this connection: the same without the dropped calls, unless one of them reconnected
      if fresh && d.conn == q.conn && d.res != q.res {
        return Err(format!("{op:?} after a dropped call: {:?}, without it: {:?}", d.res, q.res));
      }
      break;
    }
    match op {
      Call::Reconnect => {}
      Call::Recv => {
        if fresh && d.conn == q.conn && d.res != q.res {
          return Err(format!("receiving after a dropped call: {:?}, without it: {:?}", d.res, q.res));
        }
        nt = true;
      }
      _ => {
        let w = d.after.strip_prefix(&d.before[..]).ok_or("what had been written has changed")?;
        let v = q.after.strip_prefix(&q.before[..]).ok_or("what had been written has changed")?;
        if d.res != q.res || w != v {
          return Err(format!("{op:?} after a dropped call: {:?}, wrote {}; without it: {:?}, wrote {}", d.res, show(w), q.res, show(v)));
        }
        let key = format!("{op:?}");
        if let Some((c, k, l)) = &last {
          if *c == d.conn && *k == key && l != w {
            return Err(format!("{op:?}: wrote {}, then {}", show(l), show(w)));
          }
        }
        last = Some((d.conn, key, w.to_vec()));
        nt = true;
      }
    }
  }
  Ok(nt)
}

// ---------------------------------------------------------------- scripts to try
const ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership";
const OK1: &str = ":tmi.twitch.tv 001 justinfan1 :Welcome, GLHF!";

fn conn(lines: &[&str]) -> Conn {
  Conn {
    open: Some(Ok(())),
    after: 0,
    chunk: 0,
    stutter: false,
    held: false,
    fail: None,
    flush_fail: None,
    end: End::Hang,
    end_at: 0,
    data: lines.iter().map(|l| (0, format!("{l}\r\n").into_bytes())).collect(),
  }
}
fn good(more: &[&str]) -> Conn {
  let mut v = vec![ACK, OK1];
  v.extend_from_slice(more);
  conn(&v)
}
fn script(conns: Vec<Conn>, calls: Vec<Call>) -> Script {
  Script { login: Some("me".into()), token: Some("secret".into()), timeout: None, backoff: None, conns, calls: calls.into_iter().map(|c| (None, c)).collect() }
}
fn send(c: &str, t: &str, r: Option<&str>, n: Option<&str>) -> Call {
  Call::Send { chan: c.into(), text: t.into(), reply: r.map(|s| s.into()), nonce: n.map(|s| s.into()) }
}
fn some_calls() -> Vec<Call> {
  let mut v = vec![Call::Ping("".into()), Call::Ping("abc".into()), Call::Ping(":x y".into())];
  for l in ["PING :tmi.twitch.tv", "PING", "PING :", "PING abc", ":tmi.twitch.tv PING :a b", "PING : "] {
    v.push(Call::Pong(l.into()));
  }
  for c in ["#a", "a", "", "#", "##a", "a,b"] {
    v.push(Call::Join(c.into()));
  }
  for n in 0..5 {
    for k in 0..(1 << n) {
      v.push(Call::JoinAll((0..n).map(|i| if k >> i & 1 == 1 { format!("#c{i}") } else { format!("c{i}") }).collect()));
    }
  }
  v.push(Call::JoinAll(vec!["".into(), "".into()]));
  for r in ["\r\n", "", "\n", "\r", "x\r\n", "x\n", "x\r", "x\n\r", "x\r\n ", "PRIVMSG #a :b\r\n", "a\r\nb\r\n", "\u{e9}\r\n", "x\r\n\r\n", "x\r\n\0"] {
    v.push(Call::Raw(r.into()));
  }
  for r in [None, Some(""), Some("id-1")] {
    for n in [None, Some(""), Some("n-1")] {
      v.push(send("#a", "hello", r, n));
    }
  }
  v.push(send("a", "", None, None));
  v.push(send("#a", "/me :) \u{2800}", None, Some("x;y=z")));
  v.push(send("#a", " \u{e9}  ", Some("a b"), None));
  v
}
fn replies() -> Vec<String> {
  let mut v: Vec<String> = [
    ACK, OK1, "CAP * ACK", "CAP * ACK :", "CAP * NAK :x", "CAP", "CAP *", "CAP * ACk", "CAP x * ACK", "CAP * LS :* ACK", "CAP #* ACK", "PING :x", "001", "002 x :y", ":a!b@c 001 x", "@t=1 001 x", "",
    " ", ":", "@a=b", "NOTICE * :Login authentication failed", "NOTICE * :authentication failed", "NOTICE * :Improperly formatted auth", "NOTICE", "NOTICE #authentication failed", "NOTICE * :Login Authentication failed",
    "@x=authentication\\sfailed NOTICE * :x", ":authentication failed NOTICE * :x", "PRIVMSG #a :authentication failed", "421 x", "RECONNECT", "0011", "CAPS * ACK", "cap * ACK", "00\u{661}",
    "@a=b;c=d :tmi.twitch.tv CAP * ACK :x", "@a=b :tmi.twitch.tv NOTICE * :Login authentication failed",
  ]
  .iter()
  .map(|s| s.to_string())
  .collect();
  v.push(format!("CAP * ACK :{}", "x".repeat(9000)));
  v
}

pub fn enumerate(prop: &str, _d: &Dict, f: &mut dyn FnMut(&str) -> bool) {
  macro_rules! go {
    ($s:expr) => {
      if !f(&$s.text()) {
        return;
      }
    };
  }
  let p = |s: &str| Call::Ping(s.into());
  match prop {
    "P21" => {
      for n in 0..70 {
        if !f(&"g".repeat(n)) {
          return;
        }
      }
      for s in ["gcgcg", "cggcgg", "gdggdg", "ggdcg"] {
        if !f(s) {
          return;
        }
      }
      f(&"g".repeat(70_000));
    }
    "P25" => {
      let tokens = ["qkvzjxwyhbnm31415926", "oauth:zq9x8w7v6u5t4s3r2q1p", "Oauth:QZJXKV-0192837465", "\u{e9}zqjxkvwyhbnm\u{e9}7"];
      for t in tokens {
        let mut put = |mut s: Script| {
          s.token = Some(t.into());
          f(&s.text())
        };
        for a in some_calls() {
          if !put(script(vec![good(&[":x PING :y"]), good(&[])], vec![a.clone(), Call::Recv, Call::Recv, Call::Reconnect, a])) {
            return;
          }
        }
        for a in replies() {
          for b in ["", ":t 001 me :hi", ":tmi NOTICE * :Login authentication failed"] {
            let mut s = script(vec![conn(&[&a, b])], vec![]);
            s.timeout = Some(2000);
            let mut u = script(vec![good(&[]), conn(&[&a, b])], vec![Call::Reconnect]);
            u.backoff = Some((Some(1), 0, 1, 0));
            if !put(s) || !put(u) {
              return;
            }
          }
        }
        for n in 0..60 {
          let mut c = good(&[]);
          c.fail = Some((3 * n, KINDS[n % KINDS.len()].0.into(), false));
          if !put(script(vec![c], vec![p("z")])) {
            return;
          }
        }
      }
    }
    "P18" => {
      let calls = some_calls();
      for a in &calls {
        go!(script(vec![good(&[])], vec![a.clone(), p("z"), a.clone()]));
        let mut c = good(&[]);
        c.chunk = 1;
        c.stutter = true;
        c.held = true;
        go!(script(vec![c.clone()], vec![a.clone(), a.clone(), p("z")]));
        // after failures at every point of it
        let Some(w) = command(a) else { continue };
        let g = greeting("me", Some("secret")).len();
        for n in 0..w.len().min(24) {
          for once in [false, true] {
            let mut c = good(&[]);
            c.fail = Some((g + n, if n % 5 == 4 { "zero".into() } else { KINDS[n % KINDS.len()].0.into() }, once));
            let mut s = script(vec![c, good(&[])], vec![a.clone(), p("q"), a.clone(), Call::Reconnect, a.clone()]);
            s.backoff = Some((Some(1), 0, 1, 0));
            go!(s);
          }
          let mut c = good(&[]);
          c.chunk = 1;
          c.stutter = true;
          let mut s = script(vec![c], vec![a.clone(), p("q"), a.clone(), p("q")]);
          s.calls[0].0 = Some(n + 1);
          s.calls[2].0 = Some(2 * n + 1);
          go!(s);
        }
      }
      for a in &calls {
        for b in calls.iter().step_by(3) {
          go!(script(vec![good(&[])], vec![a.clone(), b.clone(), p("")]));
        }
      }
      // after reconnects that fail
      for bad in ["NOTICE * :x", "PING", ""] {
        let mut s = script(vec![good(&[]), conn(&[bad]), good(&[])], vec![Call::Reconnect, p("a"), p("a"), Call::Reconnect, p("b"), p("b")]);
        s.backoff = Some((Some(1), 100, 1, 100));
        go!(s);
      }
    }
    "P19" => {
      let rs = replies();
      for a in &rs {
        for e in [End::Hang, End::Eof, End::Fail("ConnectionReset".into())] {
          let mut c = conn(&[a]);
          c.end = e.clone();
          go!(script(vec![c], vec![]));
          let mut c = conn(&[ACK, a, "PRIVMSG #x :y"]);
          c.end = e;
          go!(script(vec![c], vec![Call::Recv, p(""), p("")]));
        }
        for b in [OK1, "NOTICE * :authentication failed", "NOTICE * :x", ACK] {
          go!(script(vec![conn(&[a, b])], vec![]));
        }
      }
      for t in [None, Some(""), Some("x"), Some("oauth:x"), Some("oauth:"), Some("oauth"), Some("OAUTH:x"), Some("oauth:oauth:x"), Some("xoauth:"), Some(" oauth:x"), Some("oauth :x"), Some("just_a_lil_guy"), Some("\u{e9}")] {
        for l in ["me", "", "justinfan12345", "Me", "a b", "\u{e9}"] {
          let mut s = script(vec![good(&["PING"]), good(&["PONG"])], vec![p(""), p(""), Call::Recv, Call::Reconnect, p(""), p(""), Call::Recv]);
          s.login = Some(l.into());
          s.token = t.map(|t| t.into());
          s.backoff = Some((Some(1), 100, 1, 100));
          go!(s);
        }
      }
      for _ in 0..20 {
        let mut s = script(vec![good(&[]), good(&[])], vec![p(""), p(""), Call::Reconnect, p("")]);
        s.login = None;
        s.token = None;
        s.backoff = Some((Some(1), 100, 1, 100));
        go!(s);
      }
      // every delay of the first and of the second reply
      for x in [None, Some(2000), Some(6500), Some(60_000)] {
        for a in [0u64, 1000, 3000, 4800, 5200, 7000, 40_000] {
          for b in [0u64, 1000, 3000, 4800, 5200, 7000, 40_000] {
            for open in [0u64, 1500, 4900, 20_000, 31_000] {
              let mut c = good(&["PING"]);
              c.after = open;
              c.data[0].0 = a;
              c.data[1].0 = a + b;
              c.data[2].0 = a + b;
              c.end_at = a + b;
              let mut s = script(vec![c], vec![p(""), p("")]);
              s.timeout = x;
              go!(s);
            }
          }
        }
      }
      for k in KINDS {
        let mut c = good(&[]);
        c.open = Some(Err(k.0.into()));
        go!(script(vec![c], vec![]));
        let g = greeting("me", Some("secret")).len();
        for n in [0, 1, 10, g - 1, g, g + 1] {
          let mut c = good(&[]);
          c.fail = Some((n, k.0.into(), false));
          go!(script(vec![c.clone()], vec![]));
          // ... while reconnecting
          let mut s = script(vec![good(&[]), c.clone(), good(&[])], vec![p(""), Call::Reconnect, p(""), Call::Reconnect, p(""), p("")]);
          s.backoff = Some((Some(1), 100, 1, 100));
          go!(s);
          c.fail = Some((n, k.0.into(), true));
          let mut s = script(vec![good(&[]), c], vec![p(""), Call::Reconnect, p(""), p("")]);
          s.backoff = Some((Some(1), 100, 1, 100));
          go!(s);
        }
        let mut c = good(&[]);
        c.flush_fail = Some(k.0.into());
        go!(script(vec![c], vec![]));
        let mut c = conn(&[]);
        c.end = End::Fail(k.0.into());
        go!(script(vec![c], vec![]));
        let mut c = conn(&[ACK]);
        c.end = End::Fail(k.0.into());
        go!(script(vec![c], vec![]));
      }
      let mut c = good(&[]);
      c.open = None;
      go!(script(vec![c], vec![]));
      go!(script(vec![], vec![]));
      for chunk in 1..6 {
        let mut c = good(&["PING"]);
        c.chunk = chunk;
        c.stutter = true;
        c.held = true;
        go!(script(vec![c], vec![p(""), p(""), Call::Recv]));
      }
      // handshakes that fail while reconnecting leave nothing behind
      for a in &rs {
        for two in [false, true] {
          let c = if two { conn(&[ACK, a]) } else { conn(&[a]) };
          let mut s = script(vec![good(&[]), c, good(&["PING"])], vec![p(""), Call::Reconnect, p(""), p(""), Call::Reconnect, p(""), p(""), Call::Recv]);
          s.backoff = Some((Some(1), 100, 1, 100));
          go!(s);
        }
      }
    }
    "P20" => {
      let kinds = ["ConnectionReset", "ConnectionRefused", "Other", "TimedOut"];
      let fails = |i: usize| -> Conn {
        let mut c = good(&[]);
        match i {
          0 => c.open = Some(Err(kinds[i % 4].into())),
          1 => c.fail = Some((5, kinds[i % 4].into(), false)),
          2 => c.open = None,
          3 => c = conn(&[ACK, "NOTICE * :Login authentication failed"]),
          4 => c = conn(&["PING"]),
          5 => {
            c = conn(&[ACK]);
            c.end = End::Eof;
          }
          6 => c = conn(&[ACK, "NOTICE * :no"]),
          7 => {
            c.open = Some(Err("TimedOut".into()));
            c.after = 700;
          }
          8 => c = conn(&[]),
          9 => c.flush_fail = Some("BrokenPipe".into()),
          10 => c.fail = Some((5, "hang".into(), false)),
          _ => {
            c = conn(&[ACK]);
            c.end = End::Fail("ConnectionReset".into());
          }
        }
        c
      };
      // every sequence of up to three kinds of failure, then a good connection
      for n in 0..4 {
        for k in 0..12usize.pow(n) {
          let mut cs = vec![good(&[])];
          let mut k2 = k;
          for _ in 0..n {
            cs.push(fails(k2 % 12));
            k2 /= 12;
          }
          cs.push(good(&[]));
          for t in [0u64, 1, 2, 3, 4] {
            if n == 3 && t != 3 && t != 4 {
              continue;
            }
            let mut s = script(cs.clone(), vec![Call::Reconnect]);
            s.backoff = Some((Some(t), 1000, 3, 12_000));
            go!(s);
          }
          if n < 3 {
            go!(script(cs.clone(), vec![Call::Reconnect, Call::Reconnect]));
            let mut s = script(cs.clone(), vec![Call::Reconnect]);
            s.backoff = Some((None, 300, 2, 700));
            go!(s);
          }
        }
      }
      // every kind of backoff, with up to twelve failures
      for n in [0usize, 1, 2, 5, 12] {
        for t in [None, Some(0), Some(1), Some(2), Some(5), Some(12), Some(13), Some(u64::MAX)] {
          for (i, m, x) in [(1000, 3, 12_000), (0, 3, 1000), (100, 0, 500), (100, 1, 500), (100, 2, 100), (5000, 2, 1000), (100, 10, 0), (100, 7, 10_000_000), (3000, 1, 1000)] {
            let mut cs = vec![good(&[])];
            for k in 0..n {
              cs.push(fails(k % 2 * 7));
            }
            cs.push(good(&[]));
            let mut s = script(cs, vec![Call::Reconnect]);
            s.backoff = Some((t, i, m, x));
            s.timeout = Some(3000);
            go!(s);
          }
        }
      }
    }
    "P22" => {
      let lines = ["PING", "PRIVMSG #a :b", "", " ", ":", "@a=b", "@a=b PRIVMSG #a :\u{e9}\u{4e16}\u{1f600}", "\r", "a\rb", ":x", "PING :\0", "@a :b!c@d PRIVMSG #e :f"];
      for end in [End::Eof, End::Hang, End::Fail("ConnectionReset".into()), End::Fail("UnexpectedEof".into()), End::Fail("TimedOut".into()), End::Fail("ConnectionAborted".into()), End::Fail("Other".into())] {
        for a in lines {
          for b in lines {
            for sep in ["\r\n", "\n", "\r\r\n"] {
              for tail in ["", "PING", "PING\r"] {
                for chunk in [0usize, 1, 3] {
                  if chunk > 0 && (sep != "\r\n" || end != End::Eof) {
                    continue;
                  }
                  let mut c = good(&[]);
                  c.end = end.clone();
                  c.chunk = chunk;
                  c.stutter = chunk > 1;
                  c.data.push((0, format!("{a}{sep}{b}{sep}{tail}").into_bytes()));
                  go!(script(vec![c], vec![Call::Recv; 6]));
                }
              }
            }
          }
        }
      }
      let mut c = good(&[]);
      c.data.push((0, b"PING :\xff\r\nPING\r\n".to_vec()));
      go!(script(vec![c], vec![Call::Recv; 3]));
      for n in [8190, 8191, 8192, 8193, 16_384, 100_000] {
        let mut c = good(&["PING"]);
        c.data.push((0, format!("PRIVMSG #a :{}\r\nPING :{}\r\n", "x".repeat(n), "y".repeat(n)).into_bytes()));
        c.end = End::Eof;
        go!(script(vec![c], vec![Call::Recv; 5]));
      }
    }
    _ => {
      let calls = some_calls();
      for a in &calls {
        for n in 1..8 {
          for (chunk, held) in [(1, false), (7, true)] {
            let mut c = good(&["PING :1", "PING :2", "PRIVMSG #a :b", ""]);
            c.chunk = chunk;
            c.held = held;
            c.stutter = true;
            c.end = End::Eof;
            let mut s = script(vec![c], vec![a.clone(), p("x"), p("x"), Call::Recv, Call::Recv, Call::Recv, Call::Recv, Call::Recv]);
            s.calls[0].0 = Some(n);
            s.calls[3].0 = Some(n);
            go!(s);
          }
        }
        let mut c = good(&[]);
        c.stutter = true;
        c.chunk = 3;
        let mut s = script(vec![c], vec![a.clone(), a.clone(), p("x"), p("x"), a.clone()]);
        s.calls[1].0 = Some(2);
        go!(s);
      }
      // receiving dropped anywhere, then received again
      for n in 1..60 {
        for chunk in [1, 2, 5] {
          let mut c = good(&["PRIVMSG #a :\u{4e16}\u{754c}", "PING", "@a=b PRIVMSG #c :d"]);
          c.chunk = chunk;
          c.stutter = true;
          c.end = End::Eof;
          let mut s = script(vec![c.clone()], vec![Call::Recv; 6]);
          s.calls[0].0 = Some(n);
          s.calls[2].0 = Some(n / 2 + 1);
          go!(s);
        }
      }
      // reconnecting dropped anywhere
      for n in 1..120 {
        for bad in [false, true] {
          let mut c = good(&["PING :1"]);
          c.chunk = 4;
          c.stutter = true;
          c.end = End::Eof;
          let mut d = c.clone();
          if bad {
            d.open = Some(Err("TimedOut".into()));
          }
          let mut s = script(vec![c.clone(), d, c.clone(), c.clone()], vec![Call::Reconnect, p("x"), p("x"), Call::Reconnect, p("x"), p("x"), Call::Recv]);
          s.calls[0].0 = Some(n);
          s.backoff = Some((Some(2), 1000, 2, 3000));
          go!(s);
        }
      }
    }
  }
}

// ---------------------------------------------------------------- random scripts
fn ms(r: &mut Rng) -> u64 {
  match r.below(4) {
    0 => 0,
    1 => 100 * r.below(20) as u64,
    2 => 100 * r.below(120) as u64,
    _ => *r.pick(&[4800u64, 4900, 5100, 5200, 9800, 10_300, 29_800, 30_200]),
  }
}
fn a_word(r: &mut Rng, d: &Dict) -> String {
  match r.below(4) {
    0 => String::new(),
    1 => crate::gen::soup(r, 5),
    2 => crate::gen::word(r, d),
    _ => (*r.pick(&["a", "#chan", "id-1", "oauth:", "oauth:xyz", "x y", ":", "justinfan1", "\u{e9}"])).to_string(),
  }
}
fn a_line(r: &mut Rng, d: &Dict) -> String {
  match r.below(6) {
    0 => (*r.pick(&replies())).clone(),
    1 => crate::typed::line(r, d),
    2 => {
      let l = r.pick(&replies()).clone();
      crate::gen::mutate(r, &l, d)
    }
    3 => String::new(),
    _ => crate::gen::line(r, d),
  }
}
fn a_call(r: &mut Rng, d: &Dict) -> Call {
  match r.below(8) {
    0 => Call::Ping(a_word(r, d)),
    1 => Call::Pong(if r.chance(1, 2) { format!("PING :{}", a_word(r, d)) } else { "PING".into() }),
    2 => Call::Join(a_word(r, d)),
    3 => Call::JoinAll((0..r.below(6)).map(|_| a_word(r, d)).collect()),
    4 => {
      let mut s = a_word(r, d);
      if r.chance(2, 3) {
        s.push_str("\r\n");
      }
      Call::Raw(s)
    }
    _ => {
      let o = |r: &mut Rng| if r.chance(1, 2) { Some(a_word(r, d)) } else { None };
      Call::Send { chan: a_word(r, d), text: if r.chance(1, 20) { "x".repeat(r.below(3000)) } else { a_word(r, d) }, reply: o(r), nonce: o(r) }
    }
  }
}
fn a_conn(r: &mut Rng, d: &Dict, well: usize) -> Conn {
  // `well` of 8: how often it is a good one
  let ok = r.below(8) < well;
  let mut c = if ok { good(&[]) } else { conn(&[]) };
  if !ok {
    match r.below(6) {
      0 => c.open = Some(Err((*r.pick(KINDS)).0.into())),
      1 => c.open = None,
      2 => {
        c = good(&[]);
        let k = *r.pick(&["zero", "hang", "ConnectionReset", "TimedOut", "BrokenPipe"]);
        c.fail = Some((r.below(150), k.into(), k != "hang" && r.chance(1, 2)));
      }
      3 => {
        c = good(&[]);
        c.flush_fail = Some((*r.pick(KINDS)).0.into());
      }
      _ => {
        let mut t = 0;
        for _ in 0..r.below(4) {
          t += ms(r);
          let l = if r.chance(1, 3) { ACK.to_string() } else { a_line(r, d) };
          c.data.push((t, format!("{l}\r\n").into_bytes()));
        }
      }
    }
  }
  if r.chance(1, 3) {
    c.after = ms(r);
  }
  if r.chance(1, 3) {
    let mut t = 0;
    for x in c.data.iter_mut() {
      t += ms(r);
      x.0 = t;
    }
  }
  c.chunk = *r.pick(&[0, 0, 1, 2, 3, 7, 64]);
  c.stutter = r.chance(1, 3);
  c.held = r.chance(1, 3);
  c.end = match r.below(4) {
    0 => End::Eof,
    1 => End::Fail((*r.pick(KINDS)).0.into()),
    _ => End::Hang,
  };
  c.end_at = c.data.last().map(|x| x.0).unwrap_or(0) + ms(r);
  c
}
fn more_lines(c: &mut Conn, r: &mut Rng, d: &Dict) {
  let mut bytes = vec![];
  for _ in 0..r.below(8) {
    bytes.extend_from_slice(a_line(r, d).as_bytes());
    bytes.extend_from_slice(r.pick(&["\r\n", "\r\n", "\n", "\r\r\n"]).as_bytes());
  }
  if r.chance(1, 3) {
    bytes.extend_from_slice(a_line(r, d).replace('\n', "").as_bytes());
  }
  if r.chance(1, 20) && !bytes.is_empty() {
    let i = r.below(bytes.len());
    bytes[i] = 0xff;
  }
  let mut t = c.data.last().map(|x| x.0).unwrap_or(0);
  while !bytes.is_empty() {
    let n = if r.chance(1, 2) { bytes.len() } else { 1 + r.below(bytes.len()) };
    let rest = bytes.split_off(n);
    if r.chance(1, 3) {
      t += ms(r);
    }
    c.data.push((t, bytes));
    bytes = rest;
  }
  c.end_at = c.end_at.max(t);
}

pub fn random(prop: &str, r: &mut Rng, d: &Dict) -> String {
  if prop == "P21" {
    return (0..r.below(60)).map(|_| *r.pick(&['g', 'g', 'g', 'g', 'c', 'd'])).collect();
  }
  if prop == "P25" {
    let sub = *r.pick(&["P18", "P19", "P20", "P22", "P24"]);
    let Some(mut s) = Script::read(&random(sub, r, d)) else { return String::new() };
    if s.login.is_none() {
      s.login = Some("me".into());
    }
    let n = 6 + r.below(30);
    let abc: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_:\u{fc}".chars().collect();
    let t: String = (0..n).map(|_| *r.pick(&abc)).collect();
    s.token = Some(if r.chance(1, 2) { format!("oauth:{t}") } else { t });
    return s.text();
  }
  let mut s = script(vec![], vec![]);
  match r.below(4) {
    0 => s.token = None,
    1 => {
      s.login = Some(a_word(r, d));
      s.token = Some(a_word(r, d));
    }
    2 if prop == "P19" => {
      s.login = None;
      s.token = None;
    }
    _ => {}
  }
  if r.chance(1, 3) {
    s.timeout = Some(*r.pick(&[1000u64, 2000, 6000, 7500, 12_000, 45_000]));
  }
  let backoff = |r: &mut Rng, s: &mut Script| {
    s.backoff = Some((
      if r.chance(1, 6) { None } else { Some(r.below(6) as u64) },
      100 * r.below(30) as u64,
      r.below(5) as u32,
      100 * r.below(100) as u64,
    ));
  };
  match prop {
    "P18" => {
      let mut c = a_conn(r, d, 8);
      let g = greeting(s.login.as_ref().unwrap(), s.token.as_deref()).len();
      if r.chance(1, 2) {
        let k = *r.pick(&["zero", "hang", "ConnectionReset", "TimedOut", "BrokenPipe"]);
        c.fail = Some((g + r.below(120), k.into(), k != "hang" && r.chance(1, 2)));
      }
      s.conns.push(c);
      for _ in 0..r.below(4) {
        let w = 6;
        s.conns.push(a_conn(r, d, w));
      }
      backoff(r, &mut s);
      for _ in 0..1 + r.below(8) {
        let c = if s.conns.len() > 1 && r.chance(1, 6) { Call::Reconnect } else { a_call(r, d) };
        let n = if r.chance(1, 4) { Some(1 + r.below(40)) } else { None };
        s.calls.push((n, c));
      }
    }
    "P19" => {
      s.conns.push(a_conn(r, d, 4));
      for _ in 0..r.below(3) {
        s.conns.push(a_conn(r, d, 4));
      }
      for c in &mut s.conns {
        if r.chance(1, 3) {
          more_lines(c, r, d);
        }
      }
      s.backoff = Some((Some(1), 100 * r.below(20) as u64, 2, 1000));
      for _ in 0..r.below(8) {
        s.calls.push((None, match r.below(5) {
          0 => Call::Reconnect,
          1 => Call::Recv,
          _ => Call::Ping("n".into()),
        }));
      }
    }
    "P20" => {
      s.conns.push(a_conn(r, d, 8));
      for _ in 0..r.below(9) {
        let w = r.below(4);
        s.conns.push(a_conn(r, d, w));
      }
      s.conns.push(good(&[]));
      backoff(r, &mut s);
      s.calls = vec![(None, Call::Reconnect); 1 + r.below(3)];
    }
    "P22" => {
      let mut c = a_conn(r, d, 8);
      more_lines(&mut c, r, d);
      s.conns.push(c);
      s.calls = (0..3 + r.below(10)).map(|_| (None, if r.chance(1, 6) { a_call(r, d) } else { Call::Recv })).collect();
    }
    _ => {
      let mut c = a_conn(r, d, 8);
      more_lines(&mut c, r, d);
      s.conns.push(c);
      for _ in 0..3 {
        let mut c = a_conn(r, d, 6);
        c.fail = None;
        c.flush_fail = None;
        s.conns.push(c);
      }
      s.backoff = Some((Some(1 + r.below(3) as u64), 100 * r.below(20) as u64, 2, 1000));
      for _ in 0..2 + r.below(8) {
        let c = match r.below(8) {
          0 => Call::Reconnect,
          1 | 2 | 3 => Call::Recv,
          _ => a_call(r, d),
        };
        let n = if r.chance(1, 2) { Some(1 + r.below(60)) } else { None };
        s.calls.push((n, c.clone()));
        if r.chance(1, 2) {
          s.calls.push((None, c));
        }
      }
    }
  }
  s.text()
}
