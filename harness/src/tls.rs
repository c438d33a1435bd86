//! The connection itself (P26).  Built without the cfg `tmi_verif`: what opens connections is the client's own
//! code, over real sockets.  Only the name service is not real: `getaddrinfo` below sends every name to a
//! loopback address of this process, where servers with certificates of their own wait.
use crate::gen::Dict;
use crate::props::R;
use crate::rng::Rng;
use std::collections::VecDeque;
use std::net::{Ipv4Addr, SocketAddr};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
use tokio::net::{TcpListener, TcpStream};
use tokio_rustls::rustls::{Certificate, PrivateKey, ServerConfig};
use tokio_rustls::TlsAcceptor;

pub const PROPS: &[&str] = &["P26"];
const HOST: &str = "irc.chat.twitch.tv";
const PORT: u16 = 6697;

// ------------------------------------------------------------------ the name service
#[repr(C)]
struct SockAddrIn {
  family: u16,
  port: u16,
  addr: [u8; 4],
  zero: [u8; 8],
}
#[repr(C)]
pub struct AddrInfo {
  flags: c_int,
  family: c_int,
  socktype: c_int,
  protocol: c_int,
  addrlen: u32,
  addr: *mut SockAddrIn,
  canonname: *mut c_char,
  next: *mut AddrInfo,
}
struct Names {
  addr: [u8; 4],
  asked: Vec<String>,
  /// who is to answer next
  queue: VecDeque<String>,
  /// the attempts made, and what the server of each was sent by the client (inside the encryption, if there was any)
  conns: Vec<(String, Vec<u8>)>,
}
static NAMES: Mutex<Names> = Mutex::new(Names { addr: [127, 0, 0, 1], asked: vec![], queue: VecDeque::new(), conns: vec![] });

/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, _: *const c_void, res: *mut *mut AddrInfo) -> c_int {
  let mut n = NAMES.lock().unwrap();
  let name = if node.is_null() { String::new() } else { std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned() };
  n.asked.push(name);
  let port: u16 = if service.is_null() { 0 } else { std::ffi::CStr::from_ptr(service).to_string_lossy().parse().unwrap_or(0) };
  let mut addr = n.addr;
  match n.queue.front().map(|s| s.as_str()) {
    Some(k @ ("noname" | "refused")) => {
      let k = k.to_string();
      n.queue.pop_front();
      if k == "refused" {
        // (nobody listens there)
        addr = [127, 9, 9, 9];
      }
      let none = k == "noname";
      n.conns.push((k, vec![]));
      if none {
        return -3;
      }
    }
    _ => {}
  }
  let a = Box::new(SockAddrIn { family: 2, port: port.to_be(), addr, zero: [0; 8] });
  *res = Box::into_raw(Box::new(AddrInfo {
    flags: 0,
    family: 2,
    socktype: 1,
    protocol: 6,
    addrlen: 16,
    addr: Box::into_raw(a),
    canonname: std::ptr::null_mut(),
    next: std::ptr::null_mut(),
  }));
  0
}
/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(r: *mut AddrInfo) {
  let r = Box::from_raw(r);
  drop(Box::from_raw(r.addr));
}

// ------------------------------------------------------------------ the servers
const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/tls/");
/// who answers: with a certificate for Twitch from root A or B, for another name, for a time long past; in the
/// clear; not at all; by hanging up; nobody, as nothing listens; nobody, as the name is not found
const KINDS: &[&str] = &["good", "stranger", "othername", "expired", "plain", "silent", "closed", "refused", "noname"];
const ROOTS: &[&str] = &["A", "B", "AB", "none"];

fn certificate(kind: &str) -> Option<&'static [u8]> {
  Some(match kind {
    "good" => include_bytes!("../tls/good.der"),
    "stranger" => include_bytes!("../tls/stranger.der"),
    "othername" => include_bytes!("../tls/othername.der"),
    "expired" => include_bytes!("../tls/expired.der"),
    _ => return None,
  })
}
/// is this Twitch, as far as a client can know?
fn genuine(kind: &str, roots: &str) -> bool {
  kind == "good" && roots.contains('A') || kind == "stranger" && roots.contains('B')
}

#[derive(Clone, Debug)]
struct Script {
  roots: String,
  login: String,
  token: String,
  conns: Vec<String>,
  reconnects: usize,
  tries: u64,
}
impl Script {
  fn text(&self) -> String {
    format!("roots {}\nlogin {}\ntoken {}\nconns {}\nreconnects {}\ntries {}\n", self.roots, self.login, self.token, self.conns.join(" "), self.reconnects, self.tries)
  }
  fn read(t: &str) -> Option<Script> {
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix(' ').map(|s| s.to_string()));
    let s = Script {
      roots: get("roots")?,
      login: get("login")?,
      token: get("token")?,
      conns: get("conns")?.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
      reconnects: get("reconnects")?.parse().ok()?,
      tries: get("tries")?.parse().ok()?,
    };
    let word = |s: &str| s.len() > 3 && s.chars().all(|c| c.is_ascii_alphanumeric());
    (ROOTS.contains(&s.roots.as_str()) && word(&s.login) && word(&s.token) && s.conns.iter().all(|c| KINDS.contains(&c.as_str())) && s.reconnects < 10 && s.tries < 10).then_some(s)
  }
}

async fn serve(kind: String, i: usize, sock: TcpStream) {
  let put = |b: &[u8]| NAMES.lock().unwrap().conns[i].1.extend_from_slice(b);
  match kind.as_str() {
    "closed" => drop(sock),
    "silent" | "plain" => {
      let (mut r, mut w) = sock.into_split();
      if kind == "plain" {
        let _ = w.write_all(b":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n:tmi.twitch.tv 001 justinfan1 :Welcome, GLHF!\r\n").await;
      }
      let mut b = [0; 4096];
      while let Ok(n) = r.read(&mut b).await {
        if n == 0 {
          break;
        }
        put(&b[..n]);
      }
    }
    _ => {
      let cert = Certificate(certificate(&kind).unwrap().to_vec());
      let key = PrivateKey(include_bytes!("../tls/leaf.key.der").to_vec());
      let conf = ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(vec![cert], key).unwrap();
      let Ok(tls) = TlsAcceptor::from(Arc::new(conf)).accept(sock).await else { return };
      let (r, mut w) = tokio::io::split(tls);
      let mut r = BufReader::new(r);
      let mut line = vec![];
      while let Ok(n) = r.read_until(b'\n', &mut line).await {
        if n == 0 {
          break;
        }
        put(&line);
        let l = String::from_utf8_lossy(&line).to_string();
        line.clear();
        let answer = if l.starts_with("CAP ") {
          ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n"
        } else if l.starts_with("NICK ") {
          ":tmi.twitch.tv 001 someone :Welcome, GLHF!\r\n"
        } else {
          continue;
        };
        if w.write_all(answer.as_bytes()).await.is_err() || w.flush().await.is_err() {
          break;
        }
      }
    }
  }
}

fn listener(conns: &[String]) -> std::net::TcpListener {
  static NEXT: Mutex<u32> = Mutex::new(0);
  let mut n = NEXT.lock().unwrap();
  loop {
    let k = *n;
    *n += 1;
    let a = Ipv4Addr::new(127, 16 + ((std::process::id() + k / 60000) % 200) as u8, 1 + (k / 250 % 240) as u8, 1 + (k % 250) as u8);
    if let Ok(l) = std::net::TcpListener::bind(SocketAddr::from((a, PORT))) {
      *NAMES.lock().unwrap() = Names { addr: a.octets(), asked: vec![], queue: conns.iter().cloned().collect(), conns: vec![] };
      l.set_nonblocking(true).unwrap();
      return l;
    }
  }
}

fn told(e: &ConnectError) -> String {
  format!("{e:?}").chars().take(200).collect()
}

pub fn check(_: &str, text: &str) -> R {
  let Some(s) = Script::read(text) else { return Ok(false) };
  std::env::set_var("SSL_CERT_FILE", if s.roots == "none" { "/dev/null".to_string() } else { format!("{DIR}root{}.pem", s.roots) });
  // nobody waits for a server that says nothing; everybody else has all the time there is
  let timeout = if s.conns.iter().any(|c| c == "silent") { Duration::from_millis(25) } else { Duration::from_secs(120) };
  let hurried = timeout < Duration::from_secs(1);
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let l = listener(&s.conns);
  let s2 = s.clone();
  let r: Result<(), String> = rt.block_on(async move {
    let s = s2;
    let l = TcpListener::from_std(l).unwrap();
    tokio::spawn(async move {
      while let Ok((sock, _)) = l.accept().await {
        // a server that has no more to offer hangs up
        let mut n = NAMES.lock().unwrap();
        let kind = n.queue.pop_front().unwrap_or("closed".into());
        n.conns.push((kind.clone(), vec![]));
        tokio::spawn(serve(kind, n.conns.len() - 1, sock));
      }
    });
    let verdict = |what: &str, r: Result<(), String>, since: usize| -> Result<(), String> {
      let conns: Vec<String> = NAMES.lock().unwrap().conns[since..].iter().map(|c| c.0.clone()).collect();
      let there = conns.last().is_some_and(|k| genuine(k, &s.roots));
      let early = conns.iter().rev().skip(1).any(|k| genuine(k, &s.roots));
      match r {
        Ok(()) if !there => Err(format!("{what} succeeded, but the server it reached was not authenticated: {:?} with the roots {}", conns.last(), s.roots)),
        Err(e) if (there || early) && !hurried => Err(format!("{what} failed, although an authenticated server welcomed it: {e}; servers {conns:?}, roots {}", s.roots)),
        // with nobody reached at the address: the client did not even try the port
        Err(e) if conns.is_empty() && !hurried => Err(format!("{what} did not reach {HOST}:{PORT}: {e}")),
        _ => Ok(()),
      }
    };
    let c = Client::builder()
      .credentials(Credentials::new(&s.login, &s.token))
      .timeout(timeout)
      .backoff(Backoff { max_tries: Some(s.tries), initial_delay: Duration::from_millis(1), delay_multiplier: 1, max_delay: Duration::from_millis(1) })
      .connect()
      .await;
    let mut c = match c {
      Ok(c) => {
        verdict("connect", Ok(()), 0)?;
        c
      }
      Err(e) => return verdict("connect", Err(told(&e)), 0),
    };
    for i in 0..s.reconnects {
      let since = NAMES.lock().unwrap().conns.len();
      let r = c.reconnect().await.map_err(|e| told(&e.cause));
      if s.tries > 0 {
        verdict(&format!("reconnect {i}"), r, since)?;
      }
    }
    // (a server sees what it was sent when the connection is closed)
    let _ = c.send_raw("PING :last\r\n").await;
    drop(c);
    for _ in 0..20 {
      tokio::task::yield_now().await;
    }
    Ok(())
  });
  // what a server was sent after its last read is of no interest: all of it was sent before the client went on
  drop(rt);
  r?;
  let seen = NAMES.lock().unwrap();
  for (i, (kind, got)) in seen.conns.iter().enumerate() {
    let text = String::from_utf8_lossy(got);
    if certificate(kind).is_some() {
      if !genuine(kind, &s.roots) && !got.is_empty() {
        return Err(format!("connection {i}: a server that is not authenticated ({kind}, roots {}) was sent {text:?}", s.roots));
      }
    } else {
      // the beginning of a TLS connection, and nothing in the clear
      if !got.is_empty() && got[0] != 0x16 && got[0] != 0x15 {
        return Err(format!("connection {i} ({kind}): sent {text:?} in the clear"));
      }
      for w in [&s.token, &s.login] {
        if text.contains(w.as_str()) {
          return Err(format!("connection {i} ({kind}): {w:?} was sent in the clear: {text:?}"));
        }
      }
    }
  }
  for n in &seen.asked {
    if n != HOST {
      return Err(format!("the client asked for the address of {n:?}, not of {HOST:?}"));
    }
  }
  Ok(seen.conns.len() > 1)
}

fn script(roots: &str, conns: &[&str], reconnects: usize, tries: u64) -> String {
  Script { roots: roots.into(), login: "somebody".into(), token: "tok3n1234567890".into(), conns: conns.iter().map(|s| s.to_string()).collect(), reconnects, tries }.text()
}

pub fn enumerate(_: &str, _d: &Dict, f: &mut dyn FnMut(&str) -> bool) {
  for r in ROOTS {
    for a in KINDS {
      if !f(&script(r, &[a], 0, 1)) {
        return;
      }
    }
  }
  for r in ["A", "B"] {
    let g = if r == "A" { "good" } else { "stranger" };
    for b in KINDS {
      for c in KINDS {
        if !f(&script(r, &[g, b, c], 1, 2)) {
          return;
        }
      }
    }
  }
}

pub fn random(_: &str, r: &mut Rng, _d: &Dict) -> String {
  let roots = *r.pick(&["A", "A", "A", "B", "AB", "none"]);
  let n = 1 + r.below(7);
  let slow = r.chance(1, 12);
  let mut v = vec![];
  for i in 0..n {
    let k = if i == 0 && r.chance(5, 6) || r.chance(1, 3) {
      if roots == "B" { "stranger" } else { "good" }
    } else {
      *r.pick(KINDS)
    };
    v.push(if k == "silent" && !slow { "closed" } else { k });
  }
  let word = |r: &mut Rng| (0..8).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>();
  let (login, token) = (word(r), word(r));
  Script { roots: roots.into(), login, token, conns: v.iter().map(|s| s.to_string()).collect(), reconnects: r.below(4), tries: r.below(5) as u64 }.text()
}
