//! One executable check per property.  `Ok(true)`: held, and the input was not trivial for it.
use crate::mem::Guarded;
use crate::oracle::{self, OMsg};
use crate::vocab;
use tmi::{Command, IrcMessage, IrcMessageRef, Tag};

pub type R = Result<bool, String>;

pub fn eq<T: std::fmt::Debug + PartialEq>(what: &str, got: T, want: T) -> Result<(), String> {
  if got == want {
    Ok(())
  } else {
    Err(format!("{what}: got {got:?}, want {want:?}"))
  }
}

/// the crate's answer must be the very substring of the input, not just an equal string
fn inside(what: &str, src: &str, s: &str) -> Result<(), String> {
  let (a, b) = (src.as_ptr() as usize, src.as_ptr() as usize + src.len());
  let (c, d) = (s.as_ptr() as usize, s.as_ptr() as usize + s.len());
  if s.is_empty() || (a <= c && d <= b) {
    std::str::from_utf8(s.as_bytes()).map_err(|e| format!("{what}: not UTF-8: {e}"))?;
    Ok(())
  } else {
    Err(format!("{what}: {s:?} is not part of the input"))
  }
}

fn cmd_variant(c: &Command<'_>) -> &'static str {
  for (v, _, k) in vocab::COMMANDS {
    if k == c {
      return v;
    }
  }
  "Other"
}
fn tag_variant(t: &Tag<'_>) -> &'static str {
  for (v, _, k) in vocab::TAGS {
    if k == t {
      return v;
    }
  }
  "Unknown"
}

pub fn check(prop: &str, s: &str) -> R {
  match prop {
    "P01" => both(s, split),
    "P02" => both(s, tags),
    "P03" => both(s, everything),
    "P04" => vocabulary(s),
    "P05" => both(s, lookup),
    "P06" => owned(s),
    "P07" => unescape(s),
    "P08" => both(s, accessors),
    "P09" => both(s, memory),
    #[cfg(feature = "msg")]
    _ if crate::typed::PROPS.contains(&prop) => crate::typed::check(prop, s),
    #[cfg(feature = "tls")]
    _ if crate::tls::PROPS.contains(&prop) => crate::tls::check(prop, s),
    #[cfg(feature = "client")]
    _ if crate::wire::PROPS.contains(&prop) => crate::wire::check(prop, s),
    _ => panic!("no such property in this build: {prop}"),
  }
}


fn both(s: &str, f: fn(&str) -> R) -> R {
  // an allocation of exactly the size of the text (under AddressSanitizer, every byte after it is watched)
  let exact: Box<str> = s.into();
  f(&exact)?;
  // at the end of a mapping, and in an ordinary allocation
  let g = Guarded::new(s, false);
  let a = f(g.str())?;
  let h = Guarded::new(s, true);
  let b = f(h.str())?;
  let own = s.to_string();
  let c = f(&own)?;
  Ok(a && b && c)
}

fn pair<'a>(src: &'a str) -> Result<Option<(IrcMessageRef<'a>, OMsg<'a>)>, String> {
  let got = IrcMessageRef::parse(src);
  let want = oracle::parse(src);
  match (got, want) {
    (None, None) => Ok(None),
    (Some(g), Some(w)) => Ok(Some((g, w))),
    (Some(_), None) => Err("parse accepts a line without a command".into()),
    (None, Some(w)) => Err(format!("parse rejects a line with command {:?}", w.command)),
  }
}

fn owned_of(src: &str, is: bool) -> Result<IrcMessage, String> {
  match IrcMessage::parse(src) {
    Some(o) => Ok(o),
    None if is => Err("owned parse rejects what borrowed parse accepts".into()),
    None => Err(String::new()),
  }
}

fn prefix_of<'a>(m: &IrcMessageRef<'a>) -> Option<(Option<&'a str>, Option<&'a str>, &'a str)> {
  m.prefix().map(|p| (p.nick, p.user, p.host))
}

/// P01
fn split(s: &str) -> R {
  let Some((m, w)) = pair(s)? else { return Ok(false) };
  eq("raw", m.raw(), w.raw)?;
  eq("prefix", prefix_of(&m), w.prefix)?;
  if let Some(t) = w.prefix_text {
    // printed as written, unless a "!" stands behind the last "@"
    if t.rfind('!').is_none_or(|i| t.rfind('@').is_some_and(|j| i < j)) {
      eq("printed prefix", m.prefix().map(|p| p.to_string()).as_deref(), Some(t))?;
    }
  }
  eq("command", m.command().as_str(), w.command)?;
  eq("command variant", cmd_variant(&m.command()), oracle::command_variant(w.command))?;
  eq("params", m.params(), w.params)?;
  let bare = !matches!(w.command, "353" | "366");
  if bare {
    eq("channel", m.channel(), w.chan)?;
  }
  let o = owned_of(s, true)?;
  eq("owned raw", o.raw(), w.raw)?;
  eq("owned prefix", o.prefix().map(|p| (p.nick, p.user, p.host)), w.prefix)?;
  eq("owned command", o.command().as_str(), w.command)?;
  eq("owned params", o.params(), w.params)?;
  if bare {
    eq("owned channel", o.channel(), w.chan)?;
  }
  Ok(w.params.is_some() || w.chan.is_some() || w.prefix.is_some())
}

/// P02
fn tags(s: &str) -> R {
  let Some((m, w)) = pair(s)? else { return Ok(false) };
  let got: Vec<(&str, &str)> = m.tags().collect();
  eq("tags", got, w.tags.clone())?;
  let o = owned_of(s, true)?;
  eq("owned tags", o.tags().collect::<Vec<_>>(), w.tags.clone())?;
  Ok(!w.tags.is_empty())
}

/// P03: everything at once (the driver runs this in every build configuration)
fn everything(s: &str) -> R {
  let a = split(s)?;
  let b = tags(s)?;
  let c = accessors(s)?;
  let d = lookup(s)?;
  Ok(a || b || c || d)
}

/// P04
fn vocabulary(s: &str) -> R {
  let g = Guarded::new(s, false);
  let s = g.str();
  let t = Tag::parse(s);
  eq("Tag::parse(s).as_str()", t.as_str(), s)?;
  eq("Tag::parse variant", tag_variant(&t), oracle::tag_variant(s))?;
  eq("Tag::from", &Tag::from(s), &t)?;
  eq("Tag display", t.to_string().as_str(), s)?;
  for (v, n, k) in vocab::TAGS {
    eq(v, k.as_str(), *n)?;
    eq(v, tag_variant(&Tag::parse(n)), *v)?;
  }
  let mut nt = tag_variant(&t) != "Unknown";
  if !s.is_empty() && !s.contains(' ') && !s.starts_with('@') && !s.starts_with(':') {
    let m = IrcMessageRef::parse(s).ok_or("a bare command is rejected")?;
    let c = m.command();
    eq("command name", c.as_str(), s)?;
    eq("command display", c.to_string().as_str(), s)?;
    eq("command variant", cmd_variant(&c), oracle::command_variant(s))?;
    nt |= cmd_variant(&c) != "Other";
  }
  for (v, n, k) in vocab::COMMANDS {
    eq(v, k.as_str(), *n)?;
  }
  Ok(nt || !s.is_empty())
}

/// P05
fn lookup(s: &str) -> R {
  let Some((m, w)) = pair(s)? else { return Ok(false) };
  let want: Vec<Option<&str>> = w.tags.iter().map(|(k, _)| w.tag(k)).collect();
  let o = owned_of(s, true)?;
  for ((k, _), v) in w.tags.iter().zip(want) {
    eq(&format!("tag({k:?})"), m.tag(*k), v)?;
    eq(&format!("tag(Unknown({k:?}))"), m.tag(Tag::Unknown(k)), v)?;
    eq(&format!("owned tag({k:?})"), o.tag(*k), v)?;
    eq(&format!("owned tag(Unknown({k:?}))"), o.tag(Tag::Unknown(k)), v)?;
    // absent neighbours of a present key
    for n in [format!("{k}x"), k.chars().skip(1).collect(), {
      let mut z = k.to_string();
      z.pop();
      z
    }] {
      eq(&format!("tag({n:?})"), m.tag(n.as_str()), w.tag(&n))?;
      eq(&format!("owned tag({n:?})"), o.tag(n.as_str()), w.tag(&n))?;
    }
  }
  for (_, n, k) in vocab::TAGS {
    eq(&format!("tag({n})"), m.tag(k.clone()), w.tag(n))?;
    eq(&format!("owned tag({n})"), o.tag(k.clone()), w.tag(n))?;
  }
  Ok(!w.tags.is_empty())
}

/// P08
fn accessors(s: &str) -> R {
  let Some((m, w)) = pair(s)? else { return Ok(false) };
  eq("text", m.text(), w.text())?;
  eq("channel", m.channel(), w.channel())?;
  let o = IrcMessage::parse(s).ok_or("owned parse rejects")?;
  eq("owned text", o.text(), w.text())?;
  eq("owned channel", o.channel(), w.channel())?;
  Ok(w.text().is_some() || w.channel().is_some())
}

/// P06
fn owned(s: &str) -> R {
  let g = Guarded::new(s, false);
  let s = g.str();
  let (r, o) = (IrcMessageRef::parse(s), IrcMessage::parse(s));
  let (Some(r), Some(o)) = (r.clone(), o) else {
    if r.is_some() {
      return Err("owned parse rejects what borrowed parse accepts".into());
    }
    return if IrcMessage::parse(s).is_some() { Err("owned parse accepts what borrowed parse rejects".into()) } else { Ok(false) };
  };
  let o2 = r.clone().into_owned();
  let keys: Vec<String> = r.tags().map(|t| t.0.to_string()).chain(vocab::TAGS.iter().map(|t| t.1.to_string())).chain(["".into(), "no-such-tag".into()]).collect();
  for (what, o) in [("parsed", &o), ("into_owned", &o2)] {
    let own = |x: &'static str| format!("{what}.{x}");
    eq(&own("raw"), o.raw(), r.raw())?;
    eq(&own("tags"), o.tags().collect::<Vec<_>>(), r.tags().collect::<Vec<_>>())?;
    eq(&own("prefix"), o.prefix(), r.prefix())?;
    eq(&own("command"), o.command(), r.command())?;
    eq(&own("channel"), o.channel(), r.channel())?;
    eq(&own("params"), o.params(), r.params())?;
    eq(&own("text"), o.text(), r.text())?;
    for k in &keys {
      eq(&format!("{what}.tag({k:?})"), o.tag(k.as_str()), r.tag(k.as_str()))?;
    }
    let b = o.as_ref();
    eq(&own("as_ref.raw"), b.raw(), r.raw())?;
    eq(&own("as_ref.tags"), b.tags().collect::<Vec<_>>(), r.tags().collect::<Vec<_>>())?;
    eq(&own("as_ref.prefix"), b.prefix(), r.prefix())?;
    eq(&own("as_ref.command"), b.command(), r.command())?;
    eq(&own("as_ref.channel"), b.channel(), r.channel())?;
    eq(&own("as_ref.params"), b.params(), r.params())?;
    eq(&own("as_ref.text"), b.text(), r.text())?;
  }
  Ok(true)
}

/// P07
fn unescape(s: &str) -> R {
  let g = Guarded::new(s, false);
  let s = g.str();
  let want = oracle::unescape(s);
  let b = tmi::maybe_unescape(s);
  eq("maybe_unescape(&str)", b.as_ref(), want.as_str())?;
  if want == s && !s.contains('\\') {
    if let std::borrow::Cow::Owned(_) = b {
      return Err("nothing to unescape, but the value was copied".into());
    }
    if b.as_ptr() != s.as_ptr() {
      return Err("nothing to unescape, but the value is not the input".into());
    }
  }
  eq("unescape", tmi::unescape(s).as_str(), want.as_str())?;
  let o = tmi::maybe_unescape(s.to_string());
  eq("maybe_unescape(String)", o.as_ref(), want.as_str())?;
  Ok(want != s)
}

/// P09: reading stays inside the input (guard pages, canaries, and slices of the input)
fn memory(s: &str) -> R {
  let Some(m) = IrcMessageRef::parse(s) else { return Ok(false) };
  if let Some(o) = IrcMessage::parse(s) {
    for x in o.tags().flat_map(|t| [t.0, t.1]).chain(o.params()).chain(o.channel()).chain(o.text()) {
      inside("owned part", o.raw(), x)?;
    }
  }
  for (k, v) in m.tags() {
    inside("tag key", s, k)?;
    inside("tag value", s, v)?;
  }
  if let Some(p) = m.prefix() {
    inside("host", s, p.host)?;
    inside("nick", s, p.nick.unwrap_or(""))?;
    inside("user", s, p.user.unwrap_or(""))?;
  }
  if let Command::Other(c) = m.command() {
    inside("command", s, c)?;
  }
  for (w, x) in [("channel", m.channel()), ("params", m.params()), ("text", m.text())] {
    inside(w, s, x.unwrap_or(""))?;
  }
  Ok(true)
}
