//! Executable reading of the contracts of the typed messages (specs/msg.vspec): for a message text,
//! the type it must be interpreted as and the value of every field, from the oracle's own parse.
use crate::gen::{self, Dict};
use crate::oracle::{self, OMsg};
use crate::props::R;
use crate::rng::Rng;
use tmi::msg::*;
use tmi::{IrcMessage, IrcMessageRef};

pub const PROPS: &[&str] = &["P10", "P11", "P12", "P13", "P14", "P15", "P16", #[cfg(feature = "serde")] "P23"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum C {
  /// text or presence
  S,
  /// number, time, flag, level
  N,
  /// badges
  B,
}
pub type Fields = Vec<(String, C, String)>;

// ------------------------------------------------------------------ expected
fn digits(s: &str) -> Option<i128> {
  // at most as many digits as could be in range of anything; leading zeros do not count
  if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  let t = s.trim_start_matches('0');
  if t.len() > 30 {
    return None;
  }
  Some(t.bytes().fold(0i128, |a, b| a * 10 + (b - b'0') as i128))
}
fn uint(s: &str, max: u64) -> Option<u64> {
  let n = digits(s.strip_prefix('+').unwrap_or(s))?;
  if n <= max as i128 {
    Some(n as u64)
  } else {
    None
  }
}
fn sint(s: &str) -> Option<i64> {
  let n = match s.strip_prefix('-') {
    Some(r) => -digits(r)?,
    None => digits(s.strip_prefix('+').unwrap_or(s))?,
  };
  i64::try_from(n).ok()
}
fn flag(s: &str) -> bool {
  uint(s, 255).is_some_and(|n| n > 0)
}
fn time(s: &str) -> Option<i64> {
  let ms = sint(s)?;
  chrono::DateTime::from_timestamp_millis(ms).map(|_| ms)
}
const LEVELS: [&str; 10] = ["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN"];

fn action(s: &str) -> (&str, bool) {
  let b = s.as_bytes();
  let p = b"\x01ACTION ";
  if b.len() >= p.len() + 1 && b.starts_with(p) && b[b.len() - 1] == 1 {
    (&s[p.len()..s.len() - 1], true)
  } else {
    (s, false)
  }
}

fn q(s: &str) -> String {
  format!("{s:?}")
}
fn oq(s: Option<&str>) -> String {
  format!("{s:?}")
}
fn badges(o: &OMsg) -> String {
  let (Some(b), Some(i)) = (o.tag("badges"), o.tag("badge-info")) else { return "[]".into() };
  let info: Vec<(&str, &str)> = i.split(',').filter_map(|x| x.find('/').map(|k| (&x[..k], &x[k + 1..]))).collect();
  let mut out = vec![];
  if !b.is_empty() {
    for e in b.split(',') {
      let Some(k) = e.find('/') else { continue };
      let (name, version) = (&e[..k], &e[k + 1..]);
      let extra = info.iter().find(|x| x.0 == name).map(|x| x.1);
      out.push(match name {
        "staff" | "turbo" | "broadcaster" | "moderator" => format!("{name}|{name}|1|None"),
        "subscriber" => {
          let m = extra.unwrap_or("1");
          format!("subscriber({version:?},{})|subscriber|{version}|{:?}", uint(m, u64::MAX).unwrap_or(1), Some(m))
        }
        _ => format!("other|{name}|{version}|{extra:?}"),
      });
    }
  }
  format!("{out:?}")
}

struct X<'a> {
  o: &'a OMsg<'a>,
  f: Fields,
}
impl<'a> X<'a> {
  fn s(&mut self, n: &str, v: &str) {
    self.f.push((n.into(), C::S, q(v)));
  }
  fn os(&mut self, n: &str, v: Option<&str>) {
    self.f.push((n.into(), C::S, oq(v)));
  }
  fn n<T: std::fmt::Debug>(&mut self, n: &str, v: T) {
    self.f.push((n.into(), C::N, format!("{v:?}")));
  }
  fn tag(&self, k: &str) -> Option<&'a str> {
    self.o.tag(k)
  }
  fn nick(&self) -> Option<&'a str> {
    self.o.prefix.and_then(|p| p.0)
  }
  fn user(&mut self, n: &str, id: &str, login: &str, name: &str) {
    self.s(&format!("{n}.id"), id);
    self.s(&format!("{n}.login"), login);
    self.s(&format!("{n}.name"), &oracle::unescape(name));
  }
  fn badges(&mut self) {
    let b = badges(self.o);
    self.f.push(("badges".into(), C::B, b));
  }
  fn num(&self, k: &str) -> Option<u64> {
    self.tag(k).and_then(|v| uint(v, u64::MAX))
  }
  fn nonempty(&self, k: &str) -> Option<&'a str> {
    self.tag(k).filter(|v| !v.is_empty())
  }
}

/// `None`: must be rejected. Otherwise the name of the variant and its fields.
pub fn expect(o: &OMsg) -> Option<(&'static str, Fields)> {
  let mut x = X { o, f: vec![] };
  let ch = o.channel();
  let kind = match o.command {
    "PRIVMSG" => {
      let (t, a) = action(o.text()?);
      x.s("channel", ch?);
      x.s("channel_id", x.tag("room-id")?);
      x.os("msg_id", x.tag("msg-id"));
      x.s("id", x.tag("id")?);
      x.user("sender", x.tag("user-id")?, x.nick()?, x.tag("display-name")?);
      let reply = (|| {
        Some([
          x.tag("reply-parent-msg-id")?,
          x.tag("reply-thread-parent-msg-id")?,
          x.tag("reply-thread-parent-user-login")?,
          x.tag("reply-parent-user-id")?,
          x.tag("reply-parent-user-login")?,
          x.tag("reply-parent-display-name")?,
          x.tag("reply-parent-msg-body")?,
        ])
      })();
      x.n("reply?", reply.is_some());
      if let Some([m, tm, tl, ui, ul, dn, b]) = reply {
        x.s("reply.message_id", m);
        x.s("reply.thread_parent_message_id", tm);
        x.s("reply.thread_parent_user_login", tl);
        x.user("reply.sender", ui, ul, dn);
        x.s("reply.text", &oracle::unescape(b));
      }
      let pin = (|| {
        Some((
          sint(x.tag("pinned-chat-paid-amount")?)?,
          x.tag("pinned-chat-paid-currency")?,
          sint(x.tag("pinned-chat-paid-exponent")?)?,
          LEVELS.iter().position(|l| Some(*l) == x.tag("pinned-chat-paid-level"))?,
          flag(x.tag("pinned-chat-paid-is-system-message")?),
        ))
      })();
      x.n("pin?", pin.is_some());
      if let Some((a, c, e, l, s)) = pin {
        x.n("pin.amount", a);
        x.s("pin.currency", c);
        x.n("pin.exponent", e);
        x.n("pin.level", l);
        x.n("pin.system", s);
      }
      x.s("text", t);
      x.n("is_action", a);
      x.badges();
      x.os("color", x.nonempty("color"));
      x.os("custom_reward_id", x.nonempty("custom-reward-id"));
      x.n("bits", x.num("bits"));
      x.s("emotes", x.tag("emotes").unwrap_or(""));
      x.n("timestamp", time(x.tag("tmi-sent-ts")?)?);
      "Privmsg"
    }
    "WHISPER" => {
      let p = o.params?;
      let k = p.find(" :")?;
      x.s("recipient", &p[..k]);
      x.s("text", &p[k + 2..]);
      x.user("sender", x.tag("user-id")?, x.nick()?, x.tag("display-name")?);
      x.os("color", x.nonempty("color"));
      x.badges();
      x.s("emotes", x.tag("emotes").unwrap_or(""));
      "Whisper"
    }
    "CLEARMSG" => {
      let (t, a) = action(o.text()?);
      x.s("channel", ch?);
      x.s("channel_id", x.tag("room-id")?);
      x.s("sender", x.tag("login")?);
      x.s("target_message_id", x.tag("target-msg-id")?);
      x.s("text", t);
      x.n("is_action", a);
      x.n("timestamp", time(x.tag("tmi-sent-ts")?)?);
      "ClearMsg"
    }
    "CLEARCHAT" => {
      x.s("channel", ch?);
      x.s("channel_id", x.tag("room-id")?);
      match o.text() {
        None => {
          x.s("action", "clear");
          x.os("target", None);
        }
        Some(name) => {
          let d = x.num("ban-duration");
          x.s("action", if d.is_some() { "timeout" } else { "ban" });
          x.s("action.user", name);
          x.s("action.id", x.tag("target-user-id")?);
          if let Some(d) = d {
            x.n("action.duration", (d, 0));
          }
          x.os("target", Some(name));
        }
      }
      x.n("timestamp", time(x.tag("tmi-sent-ts")?)?);
      "ClearChat"
    }
    "GLOBALUSERSTATE" => {
      x.s("id", x.tag("user-id")?);
      x.s("name", &oracle::unescape(x.tag("display-name")?));
      x.badges();
      let e: Vec<&str> = x.tag("emote-sets").map(|v| v.split(',').collect()).unwrap_or_default();
      x.f.push(("emote_sets".into(), C::S, format!("{e:?}")));
      x.os("color", x.nonempty("color"));
      "GlobalUserState"
    }
    "USERSTATE" => {
      x.s("channel", ch?);
      x.s("user_name", x.tag("display-name")?);
      x.badges();
      let e: Vec<&str> = x.tag("emote-sets").map(|v| v.split(',').collect()).unwrap_or_default();
      x.f.push(("emote_sets".into(), C::S, format!("{e:?}")));
      x.os("color", x.nonempty("color"));
      "UserState"
    }
    "ROOMSTATE" => {
      x.s("channel", ch?);
      x.s("channel_id", x.tag("room-id")?);
      x.n("emote_only", x.tag("emote-only").map(flag));
      let fo = x.tag("followers-only").and_then(sint).map(|n| match n {
        i64::MIN..=-1 => "off".to_string(),
        0 => "on".to_string(),
        n => format!("on for {}", (n as u128 * 60).min(u64::MAX as u128)),
      });
      x.n("followers_only", fo);
      x.n("r9k", x.tag("r9k").map(flag));
      x.n("slow", x.num("slow").map(|n| (n, 0)));
      x.n("subs_only", x.tag("subs-only").map(flag));
      "RoomState"
    }
    "JOIN" | "PART" => {
      x.s("channel", ch?);
      x.s("user", x.nick()?);
      if o.command == "JOIN" {
        "Join"
      } else {
        "Part"
      }
    }
    "PING" | "PONG" => {
      x.os("nonce", o.text());
      if o.command == "PING" {
        "Ping"
      } else {
        "Pong"
      }
    }
    "NOTICE" => {
      x.os("channel", ch);
      x.s("text", o.text()?);
      x.os("id", x.tag("msg-id"));
      "Notice"
    }
    "USERNOTICE" => {
      let ev = x.tag("msg-id")?;
      let uid = x.tag("user-id");
      let gifter = uid == Some("274598607");
      let mut anon = false;
      let promo = |x: &mut X| {
        let p = x.num("msg-param-promo-gift-total").zip(x.tag("msg-param-promo-name"));
        x.n("promo?", p.is_some());
        if let Some((n, s)) = p {
          x.n("promo.total", n);
          x.s("promo.name", s);
        }
      };
      match ev {
        "sub" | "resub" => {
          x.s("event", "SubOrResub");
          x.n("is_resub", ev.starts_with("re"));
          x.n("cumulative_months", x.num("msg-param-cumulative-months")?);
          x.n("streak_months", x.num("msg-param-streak-months").filter(|n| *n != 0));
          x.s("sub_plan", x.tag("msg-param-sub-plan")?);
          x.s("sub_plan_name", &oracle::unescape(x.tag("msg-param-sub-plan-name")?));
        }
        "raid" => {
          x.s("event", "Raid");
          x.n("viewer_count", x.num("msg-param-viewerCount")?);
          x.s("profile_image_url", x.tag("msg-param-profileImageURL")?);
        }
        "subgift" | "anonsubgift" => {
          x.s("event", "SubGift");
          x.n("cumulative_months", x.num("msg-param-months")?);
          x.user("recipient", x.tag("msg-param-recipient-id")?, x.tag("msg-param-recipient-user-name")?, x.tag("msg-param-recipient-display-name")?);
          x.s("sub_plan", x.tag("msg-param-sub-plan")?);
          x.s("sub_plan_name", &oracle::unescape(x.tag("msg-param-sub-plan-name")?));
          x.n("num_gifted_months", x.num("msg-param-gift-months")?);
          anon = ev == "anonsubgift" || gifter;
        }
        "submysterygift" | "anonsubmysterygift" => {
          anon = ev == "anonsubmysterygift" || gifter;
          x.s("event", if anon { "AnonSubMysteryGift" } else { "SubMysteryGift" });
          x.n("count", x.num("msg-param-mass-gift-count")?);
          if !anon {
            x.n("sender_total_gifts", x.num("msg-param-sender-count")?);
          }
          x.s("sub_plan", x.tag("msg-param-sub-plan")?);
        }
        "giftpaidupgrade" => {
          x.s("event", "GiftPaidUpgrade");
          x.s("gifter_login", x.tag("msg-param-sender-login")?);
          x.s("gifter_name", x.tag("msg-param-sender-name")?);
          promo(&mut x);
        }
        "anongiftpaidupgrade" => {
          x.s("event", "AnonGiftPaidUpgrade");
          promo(&mut x);
          anon = true;
        }
        "ritual" => {
          x.s("event", "Ritual");
          x.s("name", x.tag("msg-param-ritual-name")?);
        }
        "bitsbadgetier" => {
          x.s("event", "BitsBadgeTier");
          x.n("tier", x.num("msg-param-threshold")?);
        }
        "announcement" => {
          x.s("event", "Announcement");
          x.s("highlight_color", x.tag("msg-param-color").unwrap_or("PRIMARY"));
        }
        _ => {
          x.s("event", "Unknown");
          anon = true;
        }
      }
      x.n("sender?", !anon);
      if !anon {
        x.user("sender", uid?, x.tag("login")?, x.tag("display-name")?);
      }
      x.s("channel", ch?);
      x.s("channel_id", x.tag("room-id")?);
      x.os("text", o.text());
      x.os("system_message", x.nonempty("system-msg").map(oracle::unescape).as_deref());
      x.s("event_id", ev);
      x.badges();
      x.s("emotes", x.tag("emotes").unwrap_or(""));
      x.os("color", x.nonempty("color"));
      x.s("message_id", x.tag("id")?);
      x.n("timestamp", time(x.tag("tmi-sent-ts")?)?);
      "UserNotice"
    }
    "RECONNECT" => "Reconnect",
    _ => {
      x.s("raw", o.raw);
      "Other"
    }
  };
  Some((kind, x.f))
}

// ------------------------------------------------------------------ actual
#[derive(Default)]
struct A(Fields);
impl A {
  fn s(&mut self, n: &str, v: impl AsRef<str>) {
    self.0.push((n.into(), C::S, q(v.as_ref())));
  }
  fn os(&mut self, n: &str, v: Option<impl AsRef<str>>) {
    self.0.push((n.into(), C::S, oq(v.as_ref().map(|v| v.as_ref()))));
  }
  fn n<T: std::fmt::Debug>(&mut self, n: &str, v: T) {
    self.0.push((n.into(), C::N, format!("{v:?}")));
  }
  fn user(&mut self, n: &str, u: &User<'_>) {
    self.s(&format!("{n}.id"), u.id());
    self.s(&format!("{n}.login"), u.login());
    self.s(&format!("{n}.name"), u.name());
  }
  fn badges<'a, 'b: 'a>(&mut self, it: impl Iterator<Item = &'a Badge<'b>>, num: usize) {
    let v: Vec<String> = it
      .map(|b| {
        let kind = match b {
          Badge::Staff => "staff".to_string(),
          Badge::Turbo => "turbo".to_string(),
          Badge::Broadcaster => "broadcaster".to_string(),
          Badge::Moderator => "moderator".to_string(),
          Badge::Subscriber(s) => format!("subscriber({:?},{})", s.version(), s.months()),
          Badge::Other(_) => "other".to_string(),
        };
        let d = b.as_badge_data();
        format!("{kind}|{}|{}|{:?}", d.name(), d.version(), d.extra())
      })
      .collect();
    if num != v.len() {
      self.0.push(("num_badges".into(), C::B, format!("{num}")));
    }
    self.0.push(("badges".into(), C::B, format!("{v:?}")));
  }
  fn time(&mut self, t: chrono::DateTime<chrono::Utc>) {
    if t.timestamp_subsec_nanos() % 1_000_000 != 0 {
      self.n("timestamp nanos", t.timestamp_subsec_nanos());
    }
    self.n("timestamp", t.timestamp_millis());
  }
}
fn dur(d: std::time::Duration) -> (u64, u32) {
  (d.as_secs(), d.subsec_nanos())
}

pub trait Typed<'s>: Sized + Clone + FromIrc<'s> {
  const NAME: &'static str;
  fn fields(&self) -> Fields;
  /// the same through the owned form; an error if a part differs from the original
  fn owned(&self) -> Result<Fields, String>;
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: &T, b: &T) -> Result<(), String> {
  if a == b {
    Ok(())
  } else {
    Err(format!("{what}: the owned form {b:?} differs from {a:?}"))
  }
}

macro_rules! typed {
  ($T:ident, |$m:ident, $a:ident| $body:block, |$m2:ident| $parts:block) => {
    impl<'s> Typed<'s> for $T<'s> {
      const NAME: &'static str = stringify!($T);
      fn fields(&self) -> Fields {
        let mut out = A::default();
        {
          let $m = self;
          let $a = &mut out;
          $body
        }
        out.0
      }
      fn owned(&self) -> Result<Fields, String> {
        let o: $T<'static> = self.clone().into_owned();
        {
          let o2: $T<'_> = o.clone();
          same(stringify!($T), self, &o2)?;
        }
        {
          let $m2 = self;
          $parts
        }
        Ok(o.fields())
      }
    }
  };
}

fn user_parts(u: &User<'_>) -> Result<(), String> {
  let o = u.clone().into_owned();
  same("User", u, &o)?;
  let (mut a, mut b) = (A::default(), A::default());
  a.user("u", u);
  b.user("u", &o);
  same("User fields", &a.0, &b.0)
}
fn badge_parts<'a, 'b: 'a>(it: impl Iterator<Item = &'a Badge<'b>>) -> Result<(), String> {
  for b in it {
    let o = b.clone().into_owned();
    same("Badge", b, &o)?;
    let d = b.as_badge_data();
    let od = d.clone().into_owned();
    same("BadgeData", &d, &od)?;
    same("Badge from BadgeData", b, &Badge::from(d))?;
    if let Badge::Subscriber(s) = b {
      let os = s.clone().into_owned();
      same("Subscriber", s, &os)?;
      same("Subscriber fields", &(s.version().to_string(), s.months()), &(os.version().to_string(), os.months()))?;
    }
  }
  Ok(())
}

typed!(Privmsg, |m, a| {
  a.s("channel", m.channel());
  a.s("channel_id", m.channel_id());
  a.os("msg_id", m.msg_id());
  a.s("id", m.id());
  a.user("sender", m.sender());
  a.n("reply?", m.reply_to().is_some());
  if let Some(r) = m.reply_to() {
    a.s("reply.message_id", r.message_id());
    a.s("reply.thread_parent_message_id", r.thread_parent_message_id());
    a.s("reply.thread_parent_user_login", r.thread_parent_user_login());
    a.user("reply.sender", r.sender());
    a.s("reply.text", r.text());
  }
  a.n("pin?", m.pinned_chat().is_some());
  if let Some(p) = m.pinned_chat() {
    a.n("pin.amount", p.paid_amount());
    a.s("pin.currency", p.paid_currency());
    a.n("pin.exponent", p.paid_exponent());
    a.n("pin.level", LEVELS.iter().position(|l| *l == p.paid_level().as_str()).map(|v| v as i64).unwrap_or(-1));
    a.n("pin.system", p.is_system_message());
  }
  a.s("text", m.text());
  a.n("is_action", m.is_action());
  a.badges(m.badges(), m.num_badges());
  a.os("color", m.color());
  a.os("custom_reward_id", m.custom_reward_id());
  a.n("bits", m.bits());
  a.s("emotes", m.raw_emotes());
  a.time(m.timestamp());
}, |m| {
  user_parts(m.sender())?;
  badge_parts(m.badges())?;
  if let Some(r) = m.reply_to() {
    same("Reply", r, &r.clone().into_owned())?;
    user_parts(r.sender())?;
  }
  if let Some(p) = m.pinned_chat() {
    same("PinnedChat", p, &p.clone().into_owned())?;
  }
});
typed!(Whisper, |m, a| {
  a.s("recipient", m.recipient());
  a.s("text", m.text());
  a.user("sender", &m.sender());
  a.os("color", m.color());
  a.badges(m.badges(), m.num_badges());
  a.s("emotes", m.raw_emotes());
}, |m| {
  user_parts(&m.sender())?;
  badge_parts(m.badges())?;
});
typed!(ClearMsg, |m, a| {
  a.s("channel", m.channel());
  a.s("channel_id", m.channel_id());
  a.s("sender", m.sender());
  a.s("target_message_id", m.target_message_id());
  a.s("text", m.text());
  a.n("is_action", m.is_action());
  a.time(m.timestamp());
}, |_m| {});
typed!(ClearChat, |m, a| {
  a.s("channel", m.channel());
  a.s("channel_id", m.channel_id());
  let kind = (m.action().is_clear(), m.action().is_ban(), m.action().is_time_out());
  match m.action() {
    Action::Clear => a.s("action", if kind == (true, false, false) { "clear" } else { "clear, but is_* disagree" }),
    Action::Ban(b) => {
      a.s("action", if kind == (false, true, false) { "ban" } else { "ban, but is_* disagree" });
      a.s("action.user", b.user());
      a.s("action.id", b.id());
    }
    Action::TimeOut(t) => {
      a.s("action", if kind == (false, false, true) { "timeout" } else { "timeout, but is_* disagree" });
      a.s("action.user", t.user());
      a.s("action.id", t.id());
      a.n("action.duration", dur(t.duration()));
    }
  }
  a.os("target", m.target());
  a.time(m.timestamp());
}, |m| {
  same("Action", m.action(), &m.action().clone().into_owned())?;
});
typed!(GlobalUserState, |m, a| {
  a.s("id", m.id());
  a.s("name", m.name());
  a.badges(m.badges(), m.num_badges());
  let v: Vec<&str> = m.emote_sets().collect();
  if v.len() != m.num_emote_sets() {
    a.n("num_emote_sets", m.num_emote_sets());
  }
  a.0.push(("emote_sets".into(), C::S, format!("{v:?}")));
  a.os("color", m.color());
}, |m| {
  badge_parts(m.badges())?;
});
typed!(UserState, |m, a| {
  a.s("channel", m.channel());
  a.s("user_name", m.user_name());
  a.badges(m.badges(), m.num_badges());
  let v: Vec<&str> = m.emote_sets().collect();
  if v.len() != m.num_emote_sets() {
    a.n("num_emote_sets", m.num_emote_sets());
  }
  a.0.push(("emote_sets".into(), C::S, format!("{v:?}")));
  a.os("color", m.color());
}, |m| {
  badge_parts(m.badges())?;
});
typed!(RoomState, |m, a| {
  a.s("channel", m.channel());
  a.s("channel_id", m.channel_id());
  a.n("emote_only", m.emote_only());
  a.n("followers_only", m.followers_only().map(|f| match f {
    FollowersOnly::Disabled => "off".to_string(),
    FollowersOnly::Enabled(None) => "on".to_string(),
    FollowersOnly::Enabled(Some(d)) => format!("on for {}{}", d.as_secs(), if d.subsec_nanos() == 0 { "" } else { " and a bit" }),
  }));
  a.n("r9k", m.r9k());
  a.n("slow", m.slow().map(dur));
  a.n("subs_only", m.subs_only());
}, |_m| {});
typed!(Join, |m, a| {
  a.s("channel", m.channel());
  a.s("user", m.user());
}, |_m| {});
typed!(Part, |m, a| {
  a.s("channel", m.channel());
  a.s("user", m.user());
}, |_m| {});
typed!(Ping, |m, a| {
  a.os("nonce", m.nonce());
}, |_m| {});
typed!(Pong, |m, a| {
  a.os("nonce", m.nonce());
}, |_m| {});
typed!(Notice, |m, a| {
  a.os("channel", m.channel());
  a.s("text", m.text());
  a.os("id", m.id());
}, |_m| {});
typed!(UserNotice, |m, a| {
  fn promo(a: &mut A, p: Option<&SubGiftPromo<'_>>) {
    a.n("promo?", p.is_some());
    if let Some(p) = p {
      a.n("promo.total", p.total_gifts());
      a.s("promo.name", p.promo_name());
    }
  }
  match m.event() {
    Event::SubOrResub(e) => {
      a.s("event", "SubOrResub");
      a.n("is_resub", e.is_resub());
      a.n("cumulative_months", e.cumulative_months());
      a.n("streak_months", e.streak_months());
      a.s("sub_plan", e.sub_plan());
      a.s("sub_plan_name", e.sub_plan_name());
    }
    Event::Raid(e) => {
      a.s("event", "Raid");
      a.n("viewer_count", e.viewer_count());
      a.s("profile_image_url", e.profile_image_url());
    }
    Event::SubGift(e) => {
      a.s("event", "SubGift");
      a.n("cumulative_months", e.cumulative_months());
      a.user("recipient", e.recipient());
      a.s("sub_plan", e.sub_plan());
      a.s("sub_plan_name", e.sub_plan_name());
      a.n("num_gifted_months", e.num_gifted_months());
    }
    Event::SubMysteryGift(e) => {
      a.s("event", "SubMysteryGift");
      a.n("count", e.count());
      a.n("sender_total_gifts", e.sender_total_gifts());
      a.s("sub_plan", e.sub_plan());
    }
    Event::AnonSubMysteryGift(e) => {
      a.s("event", "AnonSubMysteryGift");
      a.n("count", e.count());
      a.s("sub_plan", e.sub_plan());
    }
    Event::GiftPaidUpgrade(e) => {
      a.s("event", "GiftPaidUpgrade");
      a.s("gifter_login", e.gifter_login());
      a.s("gifter_name", e.gifter_name());
      promo(a, e.promotion());
    }
    Event::AnonGiftPaidUpgrade(e) => {
      a.s("event", "AnonGiftPaidUpgrade");
      promo(a, e.promotion());
    }
    Event::Ritual(e) => {
      a.s("event", "Ritual");
      a.s("name", e.name());
    }
    Event::BitsBadgeTier(e) => {
      a.s("event", "BitsBadgeTier");
      a.n("tier", e.tier());
    }
    Event::Announcement(e) => {
      a.s("event", "Announcement");
      a.s("highlight_color", e.highlight_color());
    }
    Event::Unknown => a.s("event", "Unknown"),
    _ => a.s("event", "?"),
  }
  a.n("sender?", m.sender().is_some());
  if let Some(u) = m.sender() {
    a.user("sender", u);
  }
  a.s("channel", m.channel());
  a.s("channel_id", m.channel_id());
  a.os("text", m.text());
  a.os("system_message", m.system_message());
  a.s("event_id", m.event_id());
  a.badges(m.badges(), m.num_badges());
  a.s("emotes", m.raw_emotes());
  a.os("color", m.color());
  a.s("message_id", m.message_id());
  a.time(m.timestamp());
}, |m| {
  same("Event", m.event(), &m.event().clone().into_owned())?;
  match m.event() {
    Event::GiftPaidUpgrade(e) => {
      if let Some(p) = e.promotion() {
        same("SubGiftPromo", p, &p.clone().into_owned())?;
      }
    }
    Event::AnonGiftPaidUpgrade(e) => {
      if let Some(p) = e.promotion() {
        same("SubGiftPromo", p, &p.clone().into_owned())?;
      }
    }
    Event::SubGift(e) => user_parts(e.recipient())?,
    _ => {}
  }
  if let Some(u) = m.sender() {
    user_parts(u)?;
  }
  badge_parts(m.badges())?;
});

fn actual(m: &Message<'_>) -> (&'static str, Fields) {
  macro_rules! f {
    ($($T:ident),*) => {
      match m {
        $(Message::$T(m) => ($T::NAME, m.fields()),)*
        Message::Reconnect => ("Reconnect", vec![]),
        Message::Other(o) => ("Other", vec![("raw".into(), C::S, q(o.raw()))]),
      }
    };
  }
  f!(ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState, UserNotice, UserState, Whisper)
}
fn owned(m: &Message<'_>) -> Result<Option<(Fields, Fields)>, String> {
  macro_rules! f {
    ($($T:ident),*) => {
      match m {
        $(Message::$T(m) => Some((m.fields(), m.owned()?)),)*
        _ => None,
      }
    };
  }
  Ok(f!(ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState, UserNotice, UserState, Whisper))
}

/// serialise, read back (from text, and from a tree of values), compare
#[cfg(feature = "serde")]
fn round_trip(m: &Message<'_>) -> R {
  use serde::Deserialize;
  fn eq<T: PartialEq + std::fmt::Debug>(how: &str, a: &T, b: &T) -> Result<(), String> {
    if a == b {
      Ok(())
    } else {
      Err(format!("read back {how}: {b:?} differs from {a:?}"))
    }
  }
  macro_rules! one {
    ($name:expr, $T:ty, $m:expr) => {{
      let text = serde_json::to_string($m).map_err(|e| format!("{} cannot be serialised: {e}", $name))?;
      let back: $T = serde_json::from_str(&text).map_err(|e| format!("{} cannot be read back from {text}: {e}", $name))?;
      eq("from text", $m, &back)?;
      let tree = serde_json::to_value($m).map_err(|e| format!("{} cannot be serialised: {e}", $name))?;
      let again = <$T>::deserialize(&tree).map_err(|e| format!("{} cannot be read back from a value: {e}", $name))?;
      eq("from a value", $m, &again)?;
      let bytes = serde_json::to_vec_pretty($m).map_err(|e| format!("{} cannot be serialised: {e}", $name))?;
      let third: $T = serde_json::from_slice(&bytes).map_err(|e| format!("{} cannot be read back from bytes: {e}", $name))?;
      eq("from bytes", $m, &third)?;
      Some(())
    }};
  }
  macro_rules! f {
    ($($T:ident),*) => {
      match m {
        $(Message::$T(m) => {
          one!(stringify!($T), $T<'_>, m);
          let text = serde_json::to_string(m).unwrap();
          let back: $T<'_> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
          // what can be read off the message, not only what its == says
          let (a, b) = (m.fields(), back.fields());
          if a != b {
            return Err(format!("{} read back: {}", stringify!($T), diff(&b, &a)));
          }
          // twice is the same as once
          if serde_json::to_string(&back).ok().as_ref() != Some(&text) {
            return Err(format!("{} is serialised differently after it was read back", stringify!($T)));
          }
          // the owned form
          let own = m.clone().into_owned();
          one!(stringify!($T), $T<'_>, &own);
        })*
        _ => return Ok(false),
      }
    };
  }
  f!(ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState, UserNotice, UserState, Whisper);
  let mut parts = |bs: Vec<Badge<'_>>, us: Vec<User<'_>>| -> Result<(), String> {
    for b in bs {
      one!("Badge", Badge<'_>, &b);
      let d = b.as_badge_data();
      one!("BadgeData", BadgeData<'_>, &d);
      if let Badge::Subscriber(s) = &b {
        one!("Subscriber", Subscriber<'_>, s);
      }
    }
    for u in us {
      one!("User", User<'_>, &u);
    }
    Ok(())
  };
  match m {
    Message::Privmsg(m) => parts(m.badges().cloned().collect(), vec![m.sender().clone()])?,
    Message::Whisper(m) => parts(m.badges().cloned().collect(), vec![m.sender().clone()])?,
    Message::UserNotice(m) => {
      parts(m.badges().cloned().collect(), m.sender().into_iter().cloned().collect())?;
      one!("Event", Event<'_>, m.event());
    }
    Message::GlobalUserState(m) => parts(m.badges().cloned().collect(), vec![])?,
    Message::UserState(m) => parts(m.badges().cloned().collect(), vec![])?,
    Message::ClearChat(m) => {
      one!("Action", Action<'_>, m.action());
    }
    _ => {}
  }
  Ok(true)
}

fn diff(got: &Fields, want: &Fields) -> String {
  let mut out = vec![];
  for w in want {
    if !got.contains(w) {
      let g = got.iter().find(|g| g.0 == w.0).map(|g| g.2.as_str()).unwrap_or("missing");
      out.push(format!("{}: got {}, want {}", w.0, g, w.2));
    }
  }
  for g in got {
    if !want.iter().any(|w| w.0 == g.0) {
      out.push(format!("{}: got {}, not expected", g.0, g.2));
    }
  }
  out.join("; ")
}

pub fn check(prop: &str, s: &str) -> R {
  if prop == "P15" {
    levels(s)?;
  }
  let o = oracle::parse(s);
  let want = o.as_ref().and_then(expect);
  let got = Message::parse(s);
  match prop {
    "P10" => dispatch(s, &o, &want, got),
    #[cfg(feature = "serde")]
    "P23" => got.map_or(Ok(false), |m| round_trip(&m)),
    "P16" => match got {
      Ok(m) => Ok(match owned(&m)? {
        Some((a, b)) => {
          if a != b {
            return Err(format!("fields of the owned form differ: {}", diff(&b, &a)));
          }
          true
        }
        None => false,
      }),
      Err(_) => Ok(false),
    },
    _ => {
      let kinds: &[&str] = match prop {
        "P11" => &["Privmsg", "Whisper", "ClearMsg"],
        "P12" => &["ClearChat", "GlobalUserState", "Join", "Notice", "Part", "Ping", "Pong", "RoomState", "UserState"],
        "P13" => &["UserNotice"],
        _ => &["Privmsg", "Whisper", "ClearMsg", "ClearChat", "GlobalUserState", "Join", "Notice", "Part", "Ping", "Pong", "RoomState", "UserState", "UserNotice"],
      };
      let keep = |f: &(String, C, String)| match prop {
        "P14" => f.1 == C::B,
        "P15" => f.1 == C::N,
        _ => f.1 != C::B,
      };
      match (got, want) {
        (Ok(m), Some((k, w))) => {
          let (gk, g) = actual(&m);
          if gk != k || !kinds.contains(&k) {
            return Ok(false); // P10 decides that
          }
          let g: Fields = g.into_iter().filter(keep).collect();
          let w: Fields = w.into_iter().filter(keep).collect();
          if g != w {
            return Err(diff(&g, &w));
          }
          Ok(match prop {
            "P14" => w.iter().any(|f| f.2 != "[]"),
            "P15" => !w.is_empty(),
            _ => true,
          })
        }
        // a required number that is out of range must reject the message
        (Ok(_), None) if prop == "P15" && o.is_some() => Err("accepted although a required field is missing or malformed".into()),
        (Err(_), Some(_)) if prop == "P15" => Err("rejected although every required field is present and well-formed".into()),
        _ => Ok(false),
      }
    }
  }
}

fn dispatch(s: &str, o: &Option<OMsg>, want: &Option<(&'static str, Fields)>, got: Result<Message<'_>, MessageParseError>) -> R {
  match (&got, want) {
    (Ok(m), Some((k, _))) => {
      let (gk, _) = actual(m);
      if gk != *k {
        return Err(format!("interpreted as {gk}, must be {k}"));
      }
    }
    (Err(_), None) => {}
    (Ok(m), None) => return Err(format!("accepted as {}, although a required field is missing or malformed", actual(m).0)),
    (Err(_), Some((k, _))) => return Err(format!("rejected, although it is a complete {k}")),
  }
  if o.is_none() {
    return Ok(false);
  }
  let general = got.ok().map(|m| actual(&m));
  let r = IrcMessageRef::parse(s).ok_or("no longer parses")?;
  if r.clone().as_typed().ok().map(|m| actual(&m)) != general {
    return Err("IrcMessageRef::as_typed disagrees with Message::parse".into());
  }
  if Message::try_from(r.clone()).ok().map(|m| actual(&m)) != general {
    return Err("Message::try_from disagrees with Message::parse".into());
  }
  let own = IrcMessage::parse(s).ok_or("no longer parses as owned")?;
  if own.as_typed().ok().map(|m| actual(&m)) != general {
    return Err("IrcMessage::as_typed disagrees with Message::parse".into());
  }
  macro_rules! each {
    ($($T:ident),*) => {
      $(
        let one = <$T<'_> as FromIrc<'_>>::from_irc(r.clone()).ok().map(|m| {
          let f = m.fields();
          let back = actual(&Message::from(m));
          (f, back)
        });
        let mine = general.as_ref().filter(|g| g.0 == $T::NAME).map(|g| (g.1.clone(), g.clone()));
        if one != mine {
          return Err(format!("{}::from_irc gives {:?}, Message gives {:?}", $T::NAME, one, general));
        }
      )*
    };
  }
  each!(ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState, UserNotice, UserState, Whisper);
  Ok(!matches!(want, Some(("Other", _))))
}

fn levels(s: &str) -> Result<(), String> {
  let got: Option<PinnedChatLevel> = s.parse().ok();
  let want = LEVELS.iter().position(|l| *l == s);
  if got.map(|l| u8::from(l) as usize) != want {
    return Err(format!("level {s:?}: got {got:?}, want {want:?}"));
  }
  if s.len() <= 8 {
    for n in 0..=255u8 {
      let l = PinnedChatLevel::try_from(n).ok();
      if l.is_some() != (n < 10) {
        return Err(format!("level number {n}: {}", l.is_some()));
      }
      if let Some(l) = l {
        if u8::from(l) != n || l.as_str() != LEVELS[n as usize] {
          return Err(format!("level number {n} is {:?}", l.as_str()));
        }
      }
    }
  }
  Ok(())
}


// ------------------------------------------------------------------ generation
/// s text, e text that may be empty, m text with escapes, u unsigned, i signed, t time, f flag, l level, b badges, j badge info, v event
type Tags = &'static [(&'static str, char)];
const TYPES: &[(&str, Tags)] = &[
  ("PRIVMSG", &[("room-id", 's'), ("msg-id", 's'), ("id", 's'), ("user-id", 's'), ("display-name", 'm'), ("badges", 'b'), ("badge-info", 'j'), ("color", 'e'),
    ("custom-reward-id", 'e'), ("bits", 'u'), ("emotes", 'e'), ("tmi-sent-ts", 't'), ("mod", 'f'), ("subscriber", 'f')]),
  ("PRIVMSG", &[("room-id", 's'), ("id", 's'), ("user-id", 's'), ("display-name", 'm'), ("tmi-sent-ts", 't'), ("reply-parent-msg-id", 's'), ("reply-thread-parent-msg-id", 's'),
    ("reply-thread-parent-user-login", 's'), ("reply-parent-user-id", 's'), ("reply-parent-user-login", 's'), ("reply-parent-display-name", 'm'), ("reply-parent-msg-body", 'm')]),
  ("PRIVMSG", &[("room-id", 's'), ("id", 's'), ("user-id", 's'), ("display-name", 'm'), ("tmi-sent-ts", 't'), ("pinned-chat-paid-amount", 'i'), ("pinned-chat-paid-currency", 's'),
    ("pinned-chat-paid-exponent", 'i'), ("pinned-chat-paid-level", 'l'), ("pinned-chat-paid-is-system-message", 'f'), ("pinned-chat-paid-canonical-amount", 'i')]),
  ("WHISPER", &[("user-id", 's'), ("display-name", 'm'), ("color", 'e'), ("badges", 'b'), ("badge-info", 'j'), ("emotes", 'e'), ("message-id", 's'), ("thread-id", 's')]),
  ("CLEARMSG", &[("room-id", 's'), ("login", 's'), ("target-msg-id", 's'), ("tmi-sent-ts", 't')]),
  ("CLEARCHAT", &[("room-id", 's'), ("ban-duration", 'u'), ("target-user-id", 's'), ("tmi-sent-ts", 't')]),
  ("GLOBALUSERSTATE", &[("user-id", 's'), ("display-name", 'm'), ("badges", 'b'), ("badge-info", 'j'), ("emote-sets", 'x'), ("color", 'e')]),
  ("USERSTATE", &[("display-name", 'm'), ("badges", 'b'), ("badge-info", 'j'), ("emote-sets", 'x'), ("color", 'e'), ("mod", 'f')]),
  ("ROOMSTATE", &[("room-id", 's'), ("emote-only", 'f'), ("followers-only", 'i'), ("r9k", 'f'), ("slow", 'u'), ("subs-only", 'f'), ("rituals", 'f')]),
  ("JOIN", &[]),
  ("PART", &[]),
  ("PING", &[]),
  ("PONG", &[]),
  ("NOTICE", &[("msg-id", 's'), ("target-user-id", 's')]),
  ("RECONNECT", &[]),
  ("USERNOTICE", &[("msg-id", 'v'), ("room-id", 's'), ("user-id", 'g'), ("login", 's'), ("display-name", 'm'), ("system-msg", 'm'), ("badges", 'b'), ("badge-info", 'j'), ("emotes", 'e'),
    ("color", 'e'), ("id", 's'), ("tmi-sent-ts", 't')]),
];
const EVENTS: &[(&str, Tags)] = &[
  ("sub", &[("msg-param-cumulative-months", 'u'), ("msg-param-streak-months", 'u'), ("msg-param-sub-plan", 's'), ("msg-param-sub-plan-name", 'm'), ("msg-param-should-share-streak", 'f'), ("msg-param-months", 'u')]),
  ("resub", &[("msg-param-cumulative-months", 'u'), ("msg-param-streak-months", 'u'), ("msg-param-sub-plan", 's'), ("msg-param-sub-plan-name", 'm'), ("msg-param-months", 'u')]),
  ("raid", &[("msg-param-viewerCount", 'u'), ("msg-param-profileImageURL", 's'), ("msg-param-displayName", 's')]),
  ("subgift", &[("msg-param-months", 'u'), ("msg-param-recipient-id", 's'), ("msg-param-recipient-user-name", 's'), ("msg-param-recipient-display-name", 'm'), ("msg-param-sub-plan", 's'),
    ("msg-param-sub-plan-name", 'm'), ("msg-param-gift-months", 'u'), ("msg-param-cumulative-months", 'u')]),
  ("anonsubgift", &[("msg-param-months", 'u'), ("msg-param-recipient-id", 's'), ("msg-param-recipient-user-name", 's'), ("msg-param-recipient-display-name", 'm'), ("msg-param-sub-plan", 's'),
    ("msg-param-sub-plan-name", 'm'), ("msg-param-gift-months", 'u')]),
  ("submysterygift", &[("msg-param-mass-gift-count", 'u'), ("msg-param-sender-count", 'u'), ("msg-param-sub-plan", 's'), ("msg-param-sub-plan-name", 'm')]),
  ("anonsubmysterygift", &[("msg-param-mass-gift-count", 'u'), ("msg-param-sender-count", 'u'), ("msg-param-sub-plan", 's')]),
  ("giftpaidupgrade", &[("msg-param-sender-login", 's'), ("msg-param-sender-name", 'm'), ("msg-param-promo-gift-total", 'u'), ("msg-param-promo-name", 's')]),
  ("anongiftpaidupgrade", &[("msg-param-promo-gift-total", 'u'), ("msg-param-promo-name", 's'), ("msg-param-sender-login", 's')]),
  ("ritual", &[("msg-param-ritual-name", 's')]),
  ("bitsbadgetier", &[("msg-param-threshold", 'u')]),
  ("announcement", &[("msg-param-color", 'e')]),
  ("rewardgift", &[("msg-param-selected-count", 'u')]),
];
const NUMS: &[&str] = &["0", "1", "2", "9", "10", "11", "59", "60", "61", "99", "100", "127", "128", "255", "256", "257", "999", "1000", "1001", "32767", "32768", "65535", "65536", "65537", "86400", "100000",
  "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "1594554085918", "1700000000123", "253402300799999", "253402300800000", "8210266876799999", "8210266876800000", "-8334601228800000", "-8334601228800001",
  "153722867280912930", "153722867280912931", "307445734561825860", "307445734561825861", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "36893488147419103232",
  "-0", "-1", "-2", "-60", "-128", "-9223372036854775808", "-9223372036854775809", "+1", "+0", "+", "-", "00", "007", "000000000000000000000000000000000000000012", "", " 1", "1 ", "1.0", "1e3", "0x10", "1_000", "\u{661}", "a", "true", "999999999999999999999999999999999999999999",
  "+18446744073709551615", "--1", "+-1", "99999999999999999999", "10000000000000000000", "1000000000000", "-1594554085918"];
const BADGES: &[&str] = &["staff", "turbo", "broadcaster", "moderator", "subscriber", "vip", "bits", "premium", "partner", "founder", "sub-gifter", "predictions", "Staff", "mod", "subscribe", "subscribers", "admin", "global_mod", "", "a"];

/// an occasional length around the sizes at which code tends to change its mind
fn long(r: &mut Rng, d: &Dict) -> usize {
  let small: Vec<usize> = d.nums.iter().filter(|n| (5..=5000).contains(*n)).map(|n| *n as usize).collect();
  let at = match r.below(3) {
    0 if !small.is_empty() => *r.pick(&small),
    _ => *r.pick(&[16usize, 25, 32, 64, 128, 256, 500, 512, 1000, 2048]),
  };
  at + r.below(4) - 1
}
fn long_text(r: &mut Rng, d: &Dict) -> String {
  let n = long(r, d);
  let mut s = String::new();
  while s.len() < n {
    match r.below(24) {
      0 => s.push('\u{e9}'),
      1 => s.push('\u{1f600}'),
      2 => s.push_str("\\s"),
      3 => s.push(','),
      _ => s.push((b'a' + r.below(26) as u8) as char),
    }
  }
  s
}
fn word(r: &mut Rng, d: &Dict) -> String {
  let mut w = match r.below(8) {
    0 if !d.words.is_empty() => r.pick(&d.words).clone(),
    1 => String::new(),
    2 => r.pick(BADGES).to_string(),
    3 => num(r, d),
    4 => r.pick::<&str>(&["\u{e9}\u{1f600}x", "abc", "#x", "a b", "\u{1}ACTION x\u{1}", "274598607", "x=y", "\u{2e1d}", ":"]).to_string(),
    _ => format!("w{}", r.below(1000)),
  };
  w.retain(|c| c != ';' && c != ' ' && c != '\r' && c != '\n');
  w
}
fn num(r: &mut Rng, d: &Dict) -> String {
  match r.below(6) {
    0 | 1 => r.pick(NUMS).to_string(),
    2 if !d.nums.is_empty() => (*r.pick(&d.nums) + r.below(3) as i128 - 1).to_string(),
    3 => ((r.next() >> r.below(64)) as i64).to_string(),
    4 => (r.next() >> r.below(64)).to_string(),
    _ => r.below(1000).to_string(),
  }
}
fn badge_list(r: &mut Rng, d: &Dict) -> String {
  let n = match r.below(12) {
    0 => 0,
    1 => 30 + r.below(10),
    2 => 60 + r.below(80),
    _ => 1 + r.below(5),
  };
  let v: Vec<String> = (0..n)
    .map(|_| {
      let name = match r.below(8) {
        0 => word(r, d).replace(',', ""),
        1 => format!("b{}", r.below(200)),
        _ => r.pick(BADGES).to_string(),
      };
      match r.below(14) {
        0 => name,
        1 => format!("{name}/"),
        2 => format!("/{name}"),
        3 => format!("{name}/{}/{}", r.below(9), r.below(9)),
        4 => format!("{name}/{}", word(r, d).replace(',', "")),
        5 => String::new(),
        6 => format!("{name}/{}", num(r, d)),
        _ => format!("{name}/{}", r.below(100)),
      }
    })
    .collect();
  v.join(",")
}
fn value(r: &mut Rng, d: &Dict, key: &str, kind: char) -> String {
  match kind {
    'u' | 'i' => {
      if r.chance(1, 3) {
        r.below(100).to_string()
      } else {
        num(r, d)
      }
    }
    't' => {
      if r.chance(4, 5) {
        (1594554085918u64 + r.below(1 << 40) as u64).to_string()
      } else {
        num(r, d)
      }
    }
    'f' => match r.below(5) {
      0 | 1 => "0".into(),
      2 | 3 => "1".into(),
      _ => num(r, d),
    },
    'l' => {
      if r.chance(5, 6) {
        r.pick(&LEVELS).to_string()
      } else {
        word(r, d)
      }
    }
    'b' | 'j' => badge_list(r, d),
    'e' if r.chance(1, 4) => String::new(),
    'g' if r.chance(1, 5) => "274598607".into(),
    'v' => match r.below(8) {
      0 => word(r, d),
      1 => {
        let e = r.pick(EVENTS).0;
        gen::mutate(r, e, d)
      }
      _ => r.pick(EVENTS).0.to_string(),
    },
    'x' => {
      let n = if r.chance(1, 12) { long(r, d) } else { r.below(5) };
      let v: Vec<String> = (0..n).map(|_| if r.chance(1, 20) { word(r, d) } else { r.below(100000).to_string() }).collect();
      v.join(",")
    }
    'm' => {
      let mut s = format!("{key}-{}", r.below(100));
      for _ in 0..r.below(4) {
        s.push_str(r.pick::<&str>(&["\\s", "\\:", "\\\\", "\\n", "\\r", "\u{2e1d}", "\\x", "\u{e9}", "\\", "s"]));
      }
      if r.chance(1, 8) {
        String::new()
      } else if r.chance(1, 40) {
        s + &long_text(r, d)
      } else {
        s
      }
    }
    _ => match r.below(40) {
      0 => long_text(r, d),
      1..=4 => word(r, d),
      5..=8 => String::new(),
      _ => format!("{key}-{}", r.below(100)),
    },
  }
}

fn assemble(cmd: &str, tags: &[(String, String)], prefix: &str, rest: &str) -> String {
  let mut s = String::new();
  if !tags.is_empty() {
    s.push('@');
    s.push_str(&tags.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";"));
    s.push(' ');
  }
  s.push_str(prefix);
  s.push_str(cmd);
  if !rest.is_empty() {
    s.push(' ');
    s.push_str(rest);
  }
  s
}

/// the complete message of a type, every value different
fn full(ty: usize, ev: Option<usize>) -> (Vec<(String, String)>, &'static str, String, String) {
  let (cmd, tags) = TYPES[ty];
  let mut n = 40;
  let mut v: Vec<(String, String)> = vec![];
  let mut add = |k: &str, kind: char, v: &mut Vec<(String, String)>| {
    n += 1;
    let val = match kind {
      'u' | 'i' => n.to_string(),
      't' => (1594554085000u64 + n as u64).to_string(),
      'f' => (n % 2).to_string(),
      'l' => LEVELS[n % 10].to_string(),
      'b' => "moderator/1,subscriber/3012,bits/1000,partner/1".into(),
      'j' => "subscriber/15,bits/77".into(),
      'x' => "0,33,50,237".into(),
      'v' => EVENTS[ev.unwrap_or(0)].0.to_string(),
      'm' => format!("{k}\\s{n}"),
      _ => format!("{k}-{n}"),
    };
    v.push((k.to_string(), val));
  };
  for (k, kind) in tags {
    add(k, *kind, &mut v);
  }
  if let (Some(e), "USERNOTICE") = (ev, cmd) {
    for (k, kind) in EVENTS[e].1 {
      add(k, *kind, &mut v);
    }
  }
  let rest = match cmd {
    "WHISPER" => "recipient :some text".to_string(),
    "GLOBALUSERSTATE" => String::new(),
    "PING" | "PONG" => ":tmi.twitch.tv".into(),
    "RECONNECT" => String::new(),
    "JOIN" | "PART" | "ROOMSTATE" | "USERSTATE" => "#channel".into(),
    _ => "#channel :some text".into(),
  };
  (v, cmd, ":nick!user@host ".to_string(), rest)
}

pub fn enumerate(prop: &str, d: &Dict, f: &mut dyn FnMut(&str) -> bool) {
  if prop == "P15" {
    for w in LEVELS.iter().map(|s| s.to_string()).chain(d.words.iter().cloned()) {
      if !f(&w) || !f(&w.to_lowercase()) || !f(&format!("{w} ")) {
        return;
      }
    }
  }
  let rests = ["", "#channel", "#channel :", "#channel :some text", "#channel some text", "some text", ":some text", "#channel :\u{1}ACTION waves\u{1}", "#channel :\u{1}ACTION waves", "#channel :\u{1}ACTION \u{1}",
    "#channel :\u{1}ACTION\u{1}", "#channel :\u{1}ACTION ", "#channel :ACTION waves\u{1}", "#channel :\u{1}ACTION a\u{1}b\u{1}", "#channel :\u{1}action waves\u{1}", "#", "# :", "recipient :a :b", "recipient : a", "recipient:a", " :a", "recipient :", "a b :c",
    "#channel :a:b", "#channel a :b", "#a #b :c", "#channel  :x"];
  let prefixes = ["", ":host ", ":nick@host ", ":nick!user@host ", ":nick!user ", ":!@ ", ":a@b@c ", ":a!b!c@d "];
  let mut all: Vec<(usize, Option<usize>)> = vec![];
  for (i, (c, _)) in TYPES.iter().enumerate() {
    if *c == "USERNOTICE" {
      for e in 0..EVENTS.len() {
        all.push((i, Some(e)));
      }
    } else {
      all.push((i, None));
    }
  }
  for (i, e) in all {
    let (tags, cmd, pfx, rest) = full(i, e);
    for r in rests {
      for p in prefixes {
        if !f(&assemble(cmd, &tags, p, r)) {
          return;
        }
      }
    }
    for k in 0..tags.len() {
      let mut t = tags.clone();
      t.remove(k);
      if !f(&assemble(cmd, &t, &pfx, &rest)) {
        return;
      }
      for j in 0..t.len() {
        let mut u = t.clone();
        u.remove(j);
        if !f(&assemble(cmd, &u, &pfx, &rest)) {
          return;
        }
      }
      let mut vals: Vec<String> = NUMS.iter().map(|s| s.replace(' ', "")).collect();
      vals.extend(d.nums.iter().flat_map(|n| [n - 1, *n, n + 1]).map(|n| n.to_string()));
      vals.extend(["274598607", "274598608", "x", "sub/1", "moderator/1", "\\s", "a\\", "\u{2e1d}", "a,b", ",", "/", "ONE", "TEN", "ZERO", "ELEVEN"].iter().map(|s| s.to_string()));
      vals.extend(d.words.iter().filter(|w| w.len() < 40 && !w.contains([' ', ';'])).cloned());
      if k > 40 {
        vals.truncate(8);
      }
      for v in vals {
        let mut t = tags.clone();
        t[k].1 = v;
        if !f(&assemble(cmd, &t, &pfx, &rest)) {
          return;
        }
      }
    }
    // commands that are nearly this one
    for c in [cmd.to_lowercase(), format!("{cmd}S"), cmd[..cmd.len() - 1].to_string(), format!("{cmd}\u{e9}")] {
      if !f(&assemble(&c, &tags, &pfx, &rest)) {
        return;
      }
    }
  }
  if prop == "P14" {
    for a in BADGES {
      for b in BADGES {
        for (x, y) in [(format!("{a}/1"), format!("{b}/2")), (format!("{a}/1,{b}/2"), format!("{b}/3,{a}/4")), (format!("{a}/1"), format!("{a}/2,{a}/3")), (format!("{a}/"), format!("{a}")), (format!("{a},{b}/1"), String::new())] {
          for (cmd, rest) in [("USERSTATE", "#c"), ("GLOBALUSERSTATE", "")] {
            if !f(&format!("@badges={x};badge-info={y};display-name=n;user-id=1 {cmd} {rest}")) {
              return;
            }
          }
        }
      }
    }
    for n in [1usize, 2, 15, 16, 31, 32, 33, 34, 63, 64, 65, 100, 255, 256, 257, 300] {
      let b: Vec<String> = (0..n).map(|i| format!("b{i}/{i}")).collect();
      let i: Vec<String> = (0..n).rev().map(|i| format!("b{i}/x{i}")).collect();
      for (b, i) in [(b.join(","), i.join(",")), (b.join(","), "b0/q".into()), ("b0/q,subscriber/2".to_string(), i.join(",") + ",subscriber/9")] {
        if !f(&format!("@badges={b};badge-info={i};display-name=n;user-id=1 GLOBALUSERSTATE")) {
          return;
        }
      }
    }
  }
}

pub fn line(r: &mut Rng, d: &Dict) -> String {
  let ty = r.below(TYPES.len() + 4).min(TYPES.len() - 1);
  let (cmd, tags) = TYPES[ty];
  let mut spec: Vec<(&str, char)> = tags.to_vec();
  let ev = if cmd == "USERNOTICE" { Some(r.below(EVENTS.len())) } else { None };
  let (mut v, _, pfx, mut rest) = full(ty, ev);
  if let Some(e) = ev {
    spec.extend(EVENTS[e].1.iter().copied());
  }
  if cmd == "PRIVMSG" && r.chance(1, 2) {
    // the union of the three kinds of chat messages
    for t in 0..3 {
      for (k, kind) in TYPES[t].1 {
        if !v.iter().any(|x| x.0 == *k) {
          let val = value(r, d, k, *kind);
          v.push((k.to_string(), val));
          spec.push((k, *kind));
        }
      }
    }
  }
  let keep = r.below(8);
  for i in 0..v.len() {
    if r.below(8) >= keep {
      let kind = spec.iter().find(|s| s.0 == v[i].0).map(|s| s.1).unwrap_or('s');
      if kind != 'v' || r.chance(1, 4) {
        v[i].1 = value(r, d, &v[i].0.clone(), kind);
      }
    }
  }
  for _ in 0..r.below(4) {
    if v.is_empty() {
      break;
    }
    let i = r.below(v.len());
    match r.below(10) {
      0 | 1 => {
        v.remove(i);
      }
      2 => {
        // duplicate, before or after
        let mut t = v[i].clone();
        t.1 = word(r, d);
        let j = r.below(v.len() + 1);
        v.insert(j, t);
      }
      3 => {
        let j = r.below(v.len());
        v.swap(i, j);
      }
      4 => {
        // another message's tag
        let o = r.pick(TYPES).1;
        if !o.is_empty() {
          let (k, kind) = *r.pick(o);
          let val = value(r, d, k, kind);
          v.push((k.to_string(), val));
        }
      }
      5 => {
        let j = r.below(v.len());
        let x = v[j].1.clone();
        v[i].1 = x;
      }
      _ => {}
    }
  }
  if r.chance(1, 4) {
    rest = match r.below(6) {
      0 => String::new(),
      1 => "#c".into(),
      2 => format!("#{} :\u{1}ACTION {}\u{1}", word(r, d), word(r, d)),
      3 => format!("#{} {}:{} {}", word(r, d), word(r, d), word(r, d), word(r, d)),
      4 => format!("{} :{}", word(r, d), word(r, d)),
      _ => format!("#{} :{}", word(r, d), word(r, d)),
    };
  }
  if r.chance(1, 16) {
    // a long text, where the message has one
    let t = long_text(r, d);
    rest = match rest.find(':') {
      Some(k) if r.chance(2, 3) => format!("{}:{}{}", &rest[..k], if r.chance(1, 2) { "a b" } else { "" }, t),
      _ if r.chance(1, 2) => format!("#{} :\u{1}ACTION {t}\u{1}", word(r, d)),
      _ => format!("#{t} :x"),
    };
  }
  let p = if r.chance(1, 8) { r.pick::<&str>(&["", ":host ", ":n@h ", ":n!u ", ": "]).to_string() } else { pfx };
  assemble(cmd, &v, &p, &rest)
}

pub fn random(prop: &str, r: &mut Rng, d: &Dict) -> String {
  match prop {
    "P14" => {
      let b = badge_list(r, d);
      // often the same names again
      let i = if r.chance(1, 2) { badge_list(r, d) } else { b.split(',').map(|x| format!("{}/{}", x.split('/').next().unwrap(), r.below(50))).collect::<Vec<_>>().join(",") };
      let c = r.pick::<&str>(&["GLOBALUSERSTATE", "USERSTATE #c"]);
      match r.below(10) {
        0 => line(r, d),
        1 => format!("@badge-info={i};display-name=n;user-id=1 {c}"),
        2 => format!("@badges={b};display-name=n;user-id=1 {c}"),
        _ => format!("@badges={b};badge-info={i};display-name=n;user-id=1 {c}"),
      }
    }
    _ => line(r, d),
  }
}
