#!/usr/bin/env python3
"""refactors.py [ID...]: edits that change no behaviour, each run against the checks of the properties it touches, in a private mount
namespace where a copy of /repo stands in its place (development only; no check reads it)."""
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def edit(id, props, *edits):
    R.append((id, props.split(), edits))


P, CH, CM, SC, SI, IRC, LIB = 'src/irc/prefix.rs', 'src/irc/channel.rs', 'src/irc/command.rs', 'src/irc/tags/scalar.rs', 'src/irc/tags/simd.rs', 'src/irc.rs', 'src/lib.rs'
M = 'src/msg.rs'
edit('prefix-helper', 'P01 P03 P09', (P, "        if let Some(nick_end) = nick_end {\n          user = Some(Span::from(nick_end + 1..i));\n        } else {\n          nick = Some(Span::from(start..i));\n        }\n",
                              "        match nick_end {\n          Some(end) => user = Some(between(end + 1, i)),\n          None => nick = Some(between(start, i)),\n        }\n"),
     (P, "#[inline(always)]\npub(super) fn parse(", "fn between(from: usize, to: usize) -> Span {\n  Span::from(from..to)\n}\n\n#[inline(always)]\npub(super) fn parse("))
edit('prefix-while', 'P01 P06', (P, "  for i in start..bytes.len() {\n", "  let mut i = start;\n  while i < bytes.len() {\n"), (P, "      _ => {}\n    }\n  }\n\n  None", "      _ => {}\n    }\n    i += 1;\n  }\n\n  None"))
edit('prefix-safe-index', 'P01 P09', (P, "match unsafe { *bytes.get_unchecked(i) } {", "match bytes[i] {"))
edit('prefix-iter', 'P01', (P, "  for i in start..bytes.len() {\n    match unsafe { *bytes.get_unchecked(i) } {\n", "  for (i, byte) in bytes.iter().copied().enumerate().skip(start) {\n    match byte {\n"))
edit('channel-iflet', 'P01 P08', (CH, '''  match src[*pos..].starts_with('#') {
    true => {
      let start = *pos;
      match src[start..].find(' ') {
        Some(end) => {
          let end = start + end;
          *pos = end + 1;
          Some(Span::from(start..end))
        }
        None => {
          let end = src.len();
          *pos = end;
          Some(Span::from(start..end))
        }
      }
    }
    false => None,
  }
''', '''  if !src[*pos..].starts_with('#') {
    return None;
  }
  let start = *pos;
  let end = if let Some(len) = src[start..].find(' ') {
    *pos = start + len + 1;
    start + len
  } else {
    *pos = src.len();
    src.len()
  };
  Some(Span::from(start..end))
'''))
edit('command-word', 'P01 P04', (CM, '''  let (end, next_pos) = match src[*pos..].find(' ') {
    Some(end) => {
      let end = *pos + end;
      (end, end + 1)
    }
    None => (src.len(), src.len()),
  };
''', '''  let (end, next_pos) = word(src, *pos);
'''), (CM, "#[inline(always)]\npub(super) fn parse(", '''fn word(src: &str, start: usize) -> (usize, usize) {
  if let Some(len) = src[start..].find(' ') {
    (start + len, start + len + 1)
  } else {
    (src.len(), src.len())
  }
}

#[inline(always)]
pub(super) fn parse('''))
edit('command-empty-first', 'P01 P04', (CM, '''    other if !other.is_empty() => C::Other(Span::from(*pos..end)),
    _ => return None,
''', '''    "" => return None,
    _ => C::Other(Span::from(*pos..end)),
'''))
edit('scalar-finish', 'P02 P03 P09', (SC, '''        if let State::Value { key_start, key_end } = state {
          tags.push(TagPair {
            key_start: key_start as u32 + 1,
            key_end: (key_end - key_start) as u32,
            value_end: (offset - (key_end + 1)) as u32,
          });
          state''', '''        if let State::Value { key_start, key_end } = state {
          tags.push(pair(key_start, key_end, offset));
          state'''), (SC, '''          tags.push(TagPair {
            key_start: key_start as u32 + 1,
            key_end: (key_end - key_start) as u32,
            value_end: (offset - (key_end + 1)) as u32,
          });
        }
        end''', '''          tags.push(pair(key_start, key_end, offset));
        }
        end'''), (SC, "#[derive(Clone, Copy)]\nenum State", '''fn pair(key_start: usize, key_end: usize, value_end: usize) -> TagPair {
  TagPair {
    key_start: key_start as u32 + 1,
    key_end: (key_end - key_start) as u32,
    value_end: (value_end - (key_end + 1)) as u32,
  }
}

#[derive(Clone, Copy)]
enum State'''))
edit('scalar-for', 'P02 P03', (SC, "  while offset < src.len() {\n    let c = src[offset];\n    match c {", "  for (at, c) in src.iter().copied().enumerate() {\n    let offset = at;\n    match c {"),
     (SC, "      _ => {}\n    }\n\n    offset += 1;\n  }", "      _ => {}\n    }\n  }"), (SC, "  let mut offset = 0;\n", ""))
edit('scalar-rename', 'P02', (SC, "  let mut end = None;\n", "  let mut finish = None;\n"), (SC, "        end = Some(offset);\n", "        finish = Some(offset);\n"), (SC, "*pos += end? + 2;", "*pos += finish? + 2;"))
edit('simd-finish', 'P02 P03 P09', (SI, '''      let pos = remainder.len(); // pos of `;`

      tags.push(TagPair {
        // relative to original `src`
        key_start: key_start as u32 + 1,
        key_end: (key_end - key_start) as u32,
        // starts after `=`
        value_end: (pos - (key_end + 1)) as u32,
      });
''', '''      tags.push(pair(key_start, key_end, remainder.len()));
'''), (SI, "#[derive(Clone, Copy)]\nenum State", '''fn pair(key_start: usize, key_end: usize, value_end: usize) -> TagPair {
  TagPair {
    key_start: key_start as u32 + 1,
    key_end: (key_end - key_start) as u32,
    value_end: (value_end - (key_end + 1)) as u32,
  }
}

#[derive(Clone, Copy)]
enum State'''))
edit('simd-remainder-nonempty', 'P02 P03', (SI, "  if remainder.len() - offset > 0 {", "  if offset < remainder.len() {"))
edit('simd-find-small', 'P02 P09', (SI, '''    for i in 0..data.len() {
      if data[i] == byte {
        return Some(i);
      }
    }

    return None;
''', '''    return data.iter().position(|&b| b == byte);
'''))
edit('simd-find-reorder', 'P02 P09', (SI, '''    let chunk_0 = V::load_aligned(data, offset + V::SIZE * 0).eq(byte);
    let chunk_1 = V::load_aligned(data, offset + V::SIZE * 1).eq(byte);
''', '''    let chunk_1 = V::load_aligned(data, offset + V::SIZE * 1).eq(byte);
    let chunk_0 = V::load_aligned(data, offset + V::SIZE * 0).eq(byte);
'''))
edit('irc-text-map', 'P06 P08 P11 P13', (IRC, '''    match self.params() {
      Some(params) => match params.find(':') {
        Some(start) => Some(&params[start + 1..]),
        None => Some(params),
      },
      None => None,
    }
''', '''    let params = self.params()?;
    Some(params.find(':').map_or(params, |start| &params[start + 1..]))
'''), (IRC, '''    match self.parts.params {
      Some(params) => {
        let params = &self.src[params];
        match params.find(':') {
          Some(start) => Some(&params[start + 1..]),
          None => Some(params),
        }
      }
      None => None,
    }
''', '''    let params = self.params()?;
    match params.split_once(':') {
      Some((_, text)) => Some(text),
      None => Some(params),
    }
'''))
edit('irc-tag-loop', 'P05 P06', (IRC, '''    let tag = tag.into();
    self
      .parts
      .tags
      .iter()
      .find(|pair| &self.src[pair.key()] == tag.as_str())
      .map(|pair| &self.src[pair.value()])
''', '''    let tag = tag.into();
    for pair in self.parts.tags.iter() {
      if &self.src[pair.key()] == tag.as_str() {
        return Some(&self.src[pair.value()]);
      }
    }
    None
'''))
edit('irc-channel-word', 'P06 P08', (IRC, '''  pub fn channel(&self) -> Option<&'src str> {
    match self.command() {
      // `353 justinfan123456 = #jerma985 :justinfan123456`
      Command::RplNames => self
        .params()
        .and_then(|params| params.split_whitespace().nth(2)),
      // `366 justinfan123456 #jerma985 :End of /NAMES list`
      Command::RplEndOfNames => self
        .params()
        .and_then(|params| params.split_whitespace().nth(1)),
      _ =>''', '''  pub fn channel(&self) -> Option<&'src str> {
    let word = |n: usize| {
      self
        .params()
        .and_then(|params| params.split_whitespace().nth(n))
    };
    match self.command() {
      Command::RplNames => word(2),
      Command::RplEndOfNames => word(1),
      _ =>'''))
edit('unescape-helper', 'P07', (LIB, '''      '\\\\' if escape => {
        out.push('\\\\');
        escape = false;
      }
      '\\\\' => escape = true,
      ':' if escape => {
        out.push(';');
        escape = false;
      }
''', '''      '\\\\' if !escape => escape = true,
      ':' if escape => {
        out.push(';');
        escape = false;
      }
'''))
edit('unescape-early-return', 'P07', (LIB, '''  let mut value: Cow<'_, str> = value.into();
  for i in 0..value.len() {
    let rest = &value.as_bytes()[i..];
    if rest[0] == b'\\\\' || rest.starts_with("⸝".as_bytes()) {
      value = Cow::Owned(actually_unescape(&value, i));
      break;
    }
  }
  value
''', '''  let value: Cow<'_, str> = value.into();
  match value.find(['\\\\', '⸝']) {
    Some(i) => Cow::Owned(actually_unescape(&value, i)),
    None => value,
  }
'''))
edit('badges-loop', 'P14 P11', (M, '''  badges
    .split(',')
    .flat_map(|badge| badge.split_once('/'))
    .map(|(name, version)| {
      BadgeData {
        name: name.into(),
        version: version.into(),
        extra: badge_info
          .iter()
          .find(|(needle, _)| *needle == name)
          .map(|(_, value)| Cow::Borrowed(*value)),
      }
      .into()
    })
    .collect()
''', '''  let mut out = Vec::new();
  for badge in badges.split(',') {
    let Some((name, version)) = badge.split_once('/') else {
      continue;
    };
    let extra = badge_info
      .iter()
      .find(|(needle, _)| *needle == name)
      .map(|(_, value)| Cow::Borrowed(*value));
    out.push(Badge::from(BadgeData {
      name: name.into(),
      version: version.into(),
      extra,
    }));
  }
  out
'''))
edit('badges-filter-map', 'P14', (M, "    .flat_map(|info| info.split_once('/'))\n", "    .filter_map(|info| info.split_once('/'))\n"), (M, "    .flat_map(|badge| badge.split_once('/'))\n", "    .filter_map(|badge| badge.split_once('/'))\n"))
edit('bool-matches', 'P15 P12', (M, "  v.parse::<u8>().ok().map(|n| n > 0).unwrap_or(false)", "  matches!(v.parse::<u8>(), Ok(1..))"))
edit('bool-is-ok-and', 'P15 P12', (M, "  v.parse::<u8>().ok().map(|n| n > 0).unwrap_or(false)", "  v.parse::<u8>().is_ok_and(|n| n != 0)"))
edit('duration-map', 'P15 P12', (M, "  Some(std::time::Duration::from_secs(s.parse().ok()?))", "  s.parse().ok().map(std::time::Duration::from_secs)"))
edit('action-and-then', 'P11', (M, '''  let Some(s) = input.strip_prefix("\\u{0001}ACTION ") else {
    return (input, false);
  };
  let Some(s) = s.strip_suffix('\\u{0001}') else {
    return (input, false);
  };
  (s, true)
''', '''  let inner = input
    .strip_prefix("\\u{0001}ACTION ")
    .and_then(|s| s.strip_suffix('\\u{0001}'));
  match inner {
    Some(s) => (s, true),
    None => (input, false),
  }
'''))
edit('from-irc-helper', 'P10', (M, "      C::ClearChat => ClearChat::from_irc(message)?.into(),\n", "      C::ClearChat => Message::ClearChat(ClearChat::from_irc(message)?),\n"))
edit('message-parse-match', 'P10', (M, '''    IrcMessageRef::parse(src)
      .ok_or(MessageParseError)
      .and_then(Message::from_irc)
''', '''    match IrcMessageRef::parse(src) {
      Some(message) => Message::from_irc(message),
      None => Err(MessageParseError),
    }
'''))
edit('maybe-clone', 'P16', (M, '''  match v {
    Cow::Borrowed(v) => Cow::Owned(v.to_owned()),
    Cow::Owned(v) => Cow::Owned(v),
  }
''', '''  Cow::Owned(v.into_owned())
'''))
PM = 'src/msg/privmsg.rs'
edit('privmsg-reply-helper', 'P10 P11 P16', (PM, '''    let reply_to = message.tag(Tag::ReplyParentMsgId).and_then(|message_id| {
      Some(Reply {
        thread_parent_message_id: message.tag(Tag::ReplyThreadParentMsgId)?.into(),
        thread_parent_user_login: message.tag(Tag::ReplyThreadParentUserLogin)?.into(),
        message_id: message_id.into(),
        sender: User {
          id: message.tag(Tag::ReplyParentUserId)?.into(),
          login: message.tag(Tag::ReplyParentUserLogin)?.into(),
          name: message.tag(Tag::ReplyParentDisplayName)?.into(),
        },
        text: message.tag(Tag::ReplyParentMsgBody)?.into(),
      })
    });
''', '''    let reply_to = parse_reply(&message);
'''), (PM, "impl<'src> Reply<'src> {\n  /// Clone", '''fn parse_reply<'src>(message: &IrcMessageRef<'src>) -> Option<Reply<'src>> {
  Some(Reply {
    message_id: message.tag(Tag::ReplyParentMsgId)?.into(),
    thread_parent_message_id: message.tag(Tag::ReplyThreadParentMsgId)?.into(),
    thread_parent_user_login: message.tag(Tag::ReplyThreadParentUserLogin)?.into(),
    sender: User {
      id: message.tag(Tag::ReplyParentUserId)?.into(),
      login: message.tag(Tag::ReplyParentUserLogin)?.into(),
      name: message.tag(Tag::ReplyParentDisplayName)?.into(),
    },
    text: message.tag(Tag::ReplyParentMsgBody)?.into(),
  })
}

impl<'src> Reply<'src> {
  /// Clone'''))
edit('privmsg-reorder', 'P10 P11 P14 P15', (PM, '''    let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());
    let emotes = message.tag(Tag::Emotes).unwrap_or_default().into();
''', '''    let emotes = message.tag(Tag::Emotes).unwrap_or("").into();
    let bits = match message.tag(Tag::Bits) {
      Some(bits) => bits.parse().ok(),
      None => None,
    };
'''))
edit('privmsg-badges-match', 'P11 P14', (PM, '''    let badges = message
      .tag(Tag::Badges)
      .zip(message.tag(Tag::BadgeInfo))
      .map(|(badges, badge_info)| parse_badges(badges, badge_info))
      .unwrap_or_default();
''', '''    let badges = match (message.tag(Tag::Badges), message.tag(Tag::BadgeInfo)) {
      (Some(badges), Some(badge_info)) => parse_badges(badges, badge_info),
      _ => Vec::new(),
    };
'''))
edit('privmsg-guard', 'P10 P11', (PM, '''    if message.command() != Command::Privmsg {
      return None;
    }
''', '''    let Command::Privmsg = message.command() else {
      return None;
    };
'''))
UN = 'src/msg/user_notice.rs'
edit('user-notice-color', 'P10 P13', (UN, '''          highlight_color: message.tag(Tag::MsgParamColor).unwrap_or("PRIMARY").into(),
''', '''          highlight_color: match message.tag(Tag::MsgParamColor) {
            Some(color) => color.into(),
            None => "PRIMARY".into(),
          },
'''))
edit('user-notice-sender', 'P10 P13', (UN, '''    let sender = if !is_anon {
      Some(User {
        id: message.tag(Tag::UserId)?.into(),
        login: message.tag(Tag::Login)?.into(),
        name: message.tag(Tag::DisplayName)?.into(),
      })
    } else {
      None
    };
''', '''    let sender = if is_anon {
      None
    } else {
      Some(parse_sender(&message)?)
    };
'''), (UN, "impl<'src> SubGiftPromo<'src> {\n  /// Clone", '''fn parse_sender<'src>(message: &IrcMessageRef<'src>) -> Option<User<'src>> {
  Some(User {
    id: message.tag(Tag::UserId)?.into(),
    login: message.tag(Tag::Login)?.into(),
    name: message.tag(Tag::DisplayName)?.into(),
  })
}

impl<'src> SubGiftPromo<'src> {
  /// Clone'''))
C, W, RD, MC = 'src/client.rs', 'src/client/write.rs', 'src/client/read.rs', 'src/client/macros.rs'
edit('recv-match', 'P22 P24 P19', (RD, '''    if let Some(message) = self.reader.next().await {
      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
    } else {
      Err(RecvError::StreamClosed)
    }
''', '''    let line = match self.reader.next().await {
      Some(line) => line?,
      None => return Err(RecvError::StreamClosed),
    };
    match IrcMessage::parse(&line) {
      Some(message) => Ok(message),
      None => Err(RecvError::Parse(line)),
    }
'''))
edit('recv-helper', 'P22 P24 P19 P20', (RD, '''    if let Some(message) = self.reader.next().await {
      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
    } else {
      Err(RecvError::StreamClosed)
    }
  }
''', '''    let line = self.next_line().await?;
    Ok(IrcMessage::parse(&line).ok_or(RecvError::Parse(line))?)
  }

  async fn next_line(&mut self) -> Result<String, RecvError> {
    match self.reader.next().await {
      Some(line) => Ok(line?),
      None => Err(RecvError::StreamClosed),
    }
  }
'''))
edit('send-privmsg-tags', 'P18 P24', (W, '''        let tags = reply_parent_msg_id
          .iter()
          .chain(client_nonce.iter())
          .join(';');
        let _ = write!(f, "@{tags} ");
''', '''        let tags = [reply_parent_msg_id, client_nonce];
        let tags = tags.iter().flatten().join(';');
        let _ = write!(f, "@{tags} ");
'''))
edit('join-all-loop', 'P18 P24', (W, '''      let mut channels = channels.into_iter().map(Channel);
      if let Some(channel) = channels.next() {
        let _ = write!(f, "{channel}");
      }
      for channel in channels {
        let _ = write!(f, ",{channel}");
      }
''', '''      let mut sep = "";
      for channel in channels.into_iter().map(Channel) {
        let _ = write!(f, "{sep}{channel}");
        sep = ",";
      }
'''))
edit('join-all-join', 'P18', (W, '''      let _ = f.write_str("JOIN ");
      let mut channels = channels.into_iter().map(Channel);
      if let Some(channel) = channels.next() {
        let _ = write!(f, "{channel}");
      }
      for channel in channels {
        let _ = write!(f, ",{channel}");
      }
      let _ = f.write_str("\\r\\n");
''', '''      let channels = channels.into_iter().map(Channel).join(',');
      let _ = write!(f, "JOIN {channels}\\r\\n");
'''))
edit('pong-nonce-match', 'P18', (W, '''      if let Some(nonce) = ping.nonce() {
        let _ = write!(f, "PONG :{nonce}\\r\\n");
      } else {
        let _ = write!(f, "PONG\\r\\n");
      }
''', '''      match ping.nonce() {
        None => f.push_str("PONG\\r\\n"),
        Some(nonce) => {
          let _ = write!(f, "PONG :{nonce}\\r\\n");
        }
      }
'''))
edit('raw-if', 'P18', (W, '''    match data.ends_with("\\r\\n") {
      true => Ok(RawMessage { data }),
      false => Err(InvalidMessage),
    }
''', '''    if data.ends_with("\\r\\n") {
      Ok(RawMessage { data })
    } else {
      Err(InvalidMessage)
    }
'''))
edit('send-raw-helper', 'P18 P24', (W, '''    self.writer.write_all(data.as_bytes()).await?;
''', '''    self.put(data).await?;
'''), (W, "  /// Create a `privmsg` from", '''  async fn put(&mut self, data: &str) -> Result<(), io::Error> {
    self.writer.write_all(data.as_bytes()).await
  }

  /// Create a `privmsg` from'''))
edit('bypass-if', 'P21', (W, '''    let out = match self.append {
      false => "",
      true => {
        concat!(" ", "⠀")
      }
    };
    self.append = !self.append;
    out
''', '''    let append = self.append;
    self.append = !append;
    if append {
      concat!(" ", "⠀")
    } else {
      ""
    }
'''))
edit('bypass-replace', 'P21', (W, '''    let out = match self.append {
      false => "",
      true => {
        concat!(" ", "⠀")
      }
    };
    self.append = !self.append;
    out
''', '''    const SUFFIX: &str = concat!(" ", "⠀");
    let next = !self.append;
    match std::mem::replace(&mut self.append, next) {
      true => SUFFIX,
      false => "",
    }
'''))
edit('scratch-result', 'P18 P24', (MC, '''    let result = { $body };
    scratch.clear();
    $client.scratch = scratch;
    result
''', '''    let output = { $body };
    scratch.clear();
    let _ = std::mem::replace(&mut $client.scratch, scratch);
    output
'''))
edit('handshake-oauth', 'P19 P24', (C, '''    let oauth = if token.starts_with("oauth:") {
      ""
    } else {
      "oauth:"
    };
''', '''    let oauth = match token.starts_with("oauth:") {
      true => "",
      false => "oauth:",
    };
'''))
edit('handshake-one-write', 'P19 P20', (C, '''    write!(&mut scratch, "PASS {oauth}{token}\\r\\n").unwrap();
    write!(&mut scratch, "NICK {login}\\r\\n").unwrap();
''', '''    write!(&mut scratch, "PASS {oauth}{token}\\r\\nNICK {login}\\r\\n").unwrap();
'''))
edit('handshake-expect', 'P19 P20 P24', (C, '''    match message.command() {
      Command::Capability => {
        if message.params().is_some_and(|v| v.starts_with("* ACK")) {
          trace!("received CAP * ACK")
        } else {
          return Err(ConnectError::Auth);
        }
      }
      _ => {
        trace!("unexpected message");
        return Err(ConnectError::Welcome(message));
      }
    }
''', '''    if message.command() != Command::Capability {
      trace!("unexpected message");
      return Err(ConnectError::Welcome(message));
    }
    if !message.params().is_some_and(|v| v.starts_with("* ACK")) {
      return Err(ConnectError::Auth);
    }
    trace!("received CAP * ACK");
'''))
edit('handshake-next', 'P19 P20 P24', (C, '''    trace!("waiting for CAP * ACK");
    let message = self.recv().timeout(Duration::from_secs(5)).await??;
''', '''    trace!("waiting for CAP * ACK");
    let message = self.reply().await?;
'''), (C, '''    trace!("waiting for NOTICE 001");
    let message = self.recv().timeout(Duration::from_secs(5)).await??;
''', '''    trace!("waiting for NOTICE 001");
    let message = self.reply().await?;
'''), (C, '''  async fn handshake(&mut self)''', '''  async fn reply(&mut self) -> Result<IrcMessage, ConnectError> {
    Ok(self.recv().timeout(Duration::from_secs(5)).await??)
  }

  async fn handshake(&mut self)'''))
edit('handshake-auth-and', 'P19', (C, '''        if message
          .params()
          .map(|v| v.contains("authentication failed"))
          .unwrap_or(false)
        {
''', '''        if message
          .params()
          .is_some_and(|v| v.contains("authentication failed"))
        {
'''))
edit('reconnect-loop', 'P20 P24', (C, '''    while matches!(tries, None | Some(1..)) {
''', '''    loop {
      if tries == Some(0) {
        break;
      }
'''))
edit('reconnect-attempt', 'P20 P24', (C, '''      let stream = match conn::open(self.tls.clone()).timeout(timeout).await? {
        Ok(stream) => stream,
        Err(e @ OpenStreamError::Io(_)) => {
          cause = e.into();
          continue;
        }
      };

      (self.reader, self.writer) = split(stream);
''', '''      match conn::open(self.tls.clone()).timeout(timeout).await? {
        Ok(stream) => (self.reader, self.writer) = split(stream),
        Err(e) => {
          cause = ConnectError::Open(e);
          continue;
        }
      }
'''))
edit('reconnect-match', 'P20', (C, '''      if let Err(e) = self.handshake().timeout(timeout).await? {
        if e.should_retry() {
          cause = e;
          continue;
        }
        return Err(e.into());
      };

      return Ok(());
''', '''      match self.handshake().timeout(timeout).await? {
        Ok(()) => return Ok(()),
        Err(e) if e.should_retry() => cause = e,
        Err(e) => return Err(e.into()),
      }
'''))
edit('reconnect-delay', 'P20', (C, "      delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);\n", "      delay = (delay * backoff.delay_multiplier).min(backoff.max_delay);\n"))
edit('reconnect-count-up', 'P20', (C, '''      if let Some(tries) = &mut tries {
        *tries -= 1;
      }
''', '''      tries = tries.map(|n| n - 1);
'''))
edit('should-retry-match', 'P20', (C, '''    matches!(self, Self::Open(OpenStreamError::Io(_)) | Self::Io(_))
''', '''    match self {
      Self::Open(OpenStreamError::Io(_)) => true,
      Self::Io(_) => true,
      _ => false,
    }
'''))
for _f, _ps in ((P, 'P01'), (SC, 'P02'), (SI, 'P02'), (IRC, 'P05'), (LIB, 'P07'), (M, 'P14'), (PM, 'P11'), (UN, 'P13'), (W, 'P18'), (C, 'P19 P20'), (RD, 'P22 P24'), (MC, 'P18')):
    edit('comment-' + _f.split('/')[-1], _ps, (_f, None, '\n// a trailing comment\n'))

CN = 'src/client/conn.rs'
edit('tls-open-locals', 'P26 P20', (CN, """  Ok(
    TlsConnector::from(config.client())
      .connect(
        config.server_name(),
        TcpStream::connect((HOST, PORT)).await?,
      )
      .await?,
  )
}
""", """  let stream = TcpStream::connect((HOST, PORT)).await?;
  let connector = TlsConnector::from(config.client());
  let stream = connector.connect(config.server_name(), stream).await?;
  Ok(stream)
}
"""))
edit('tls-load-helper', 'P26', (CN, """    let mut root_store = RootCertStore::empty();
    let native_certs = rustls_native_certs::load_native_certs()?;
    for cert in native_certs {
      root_store.add(&rustls::Certificate(cert.0))?;
    }
    let config""", """    let root_store = native_roots()?;
    let config"""), (CN, """/// Failed to open a TLS stream.
""", """fn native_roots() -> Result<RootCertStore, TlsConfigError> {
  let mut roots = RootCertStore::empty();
  for native in rustls_native_certs::load_native_certs()? {
    let cert = rustls::Certificate(native.0);
    roots.add(&cert)?;
  }
  Ok(roots)
}

/// Failed to open a TLS stream.
"""))
edit('tls-load-match', 'P26', (CN, """      root_store.add(&rustls::Certificate(cert.0))?;
""", """      if let Err(e) = root_store.add(&rustls::Certificate(cert.0)) {
        return Err(e.into());
      }
"""), (CN, """    let config = rustls::ClientConfig::builder()
      .with_safe_defaults()
      .with_root_certificates(root_store)
      .with_no_client_auth();
    Ok(Self {
      config: Arc::new(config),
      server_name,
    })""", """    let config = Arc::new(
      ClientConfig::builder()
        .with_safe_defaults()
        .with_root_certificates(root_store)
        .with_no_client_auth(),
    );
    Ok(TlsConfig { config, server_name })"""))

# a second batch
CC, RS, WH, US, CMs, NO = ('src/msg/' + x for x in ('clear_chat.rs', 'room_state.rs', 'whisper.rs', 'user_state.rs', 'clear_msg.rs', 'notice.rs'))
WS, CL2 = 'src/irc/wide/x86_64/sse2.rs', 'src/client.rs'
edit('b2-clearchat-action', 'P10 P12 P15', (CC, """      action: match (
        message.text(),
        message.tag(Tag::BanDuration).and_then(parse_duration),
      ) {
        (Some(name), Some(duration)) => Action::TimeOut(TimeOut {
          user: name.into(),
          id: message.tag(Tag::TargetUserId)?.into(),
          duration,
        }),
        (Some(name), None) => Action::Ban(Ban {
          user: name.into(),
          id: message.tag(Tag::TargetUserId)?.into(),
        }),
        (None, _) => Action::Clear,
      },
""", """      action: match message.text() {
        Some(name) => {
          let id = message.tag(Tag::TargetUserId)?.into();
          let user = name.into();
          match message.tag(Tag::BanDuration).and_then(parse_duration) {
            Some(duration) => Action::TimeOut(TimeOut { user, id, duration }),
            None => Action::Ban(Ban { user, id }),
          }
        }
        None => Action::Clear,
      },
"""))
edit('b2-clearchat-helper', 'P10 P12', (CC, """      action: match (
        message.text(),
        message.tag(Tag::BanDuration).and_then(parse_duration),
      ) {
        (Some(name), Some(duration)) => Action::TimeOut(TimeOut {
          user: name.into(),
          id: message.tag(Tag::TargetUserId)?.into(),
          duration,
        }),
        (Some(name), None) => Action::Ban(Ban {
          user: name.into(),
          id: message.tag(Tag::TargetUserId)?.into(),
        }),
        (None, _) => Action::Clear,
      },
""", """      action: Self::parse_action(&message)?,
"""), (CC, """impl<'src> ClearChat<'src> {
  fn parse(""", """impl<'src> ClearChat<'src> {
  fn parse_action(message: &IrcMessageRef<'src>) -> Option<Action<'src>> {
    let Some(name) = message.text() else {
      return Some(Action::Clear);
    };
    let duration = message.tag(Tag::BanDuration).and_then(parse_duration);
    let id = message.tag(Tag::TargetUserId)?;
    Some(match duration {
      Some(duration) => Action::TimeOut(TimeOut {
        user: name.into(),
        id: id.into(),
        duration,
      }),
      None => Action::Ban(Ban {
        user: name.into(),
        id: id.into(),
      }),
    })
  }

  fn parse("""))
edit('b2-clearchat-owned', 'P16', (CC, """      Action::Clear => Action::Clear,
      Action::Ban(Ban { user, id }) => Action::Ban(Ban {
        user: maybe_clone(user),
        id: maybe_clone(id),
      }),
""", """      Action::Clear => Action::Clear,
      Action::Ban(ban) => {
        let user = maybe_clone(ban.user);
        let id = maybe_clone(ban.id);
        Action::Ban(Ban { user, id })
      }
"""))
edit('b2-roomstate-match', 'P10 P12 P15', (RS, """        .map(|n: i64| match n {
          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60)))),
          0 => FollowersOnly::Enabled(None),
          _ => FollowersOnly::Disabled,
        }),
""", """        .map(|n: i64| {
          if n < 0 {
            FollowersOnly::Disabled
          } else if n == 0 {
            FollowersOnly::Enabled(None)
          } else {
            let secs = (n as u64).saturating_mul(60);
            FollowersOnly::Enabled(Some(Duration::from_secs(secs)))
          }
        }),
"""))
edit('b2-roomstate-locals', 'P10 P12 P15', (RS, """    Some(RoomState {
      channel: message.channel()?.into(),
      channel_id: message.tag(Tag::RoomId)?.into(),
      emote_only""", """    let channel_id = message.tag(Tag::RoomId)?;
    let channel = message.channel()?;
    Some(RoomState {
      channel: channel.into(),
      channel_id: channel_id.into(),
      emote_only"""))
edit('b2-roomstate-slow', 'P10 P12 P15', (RS, """      slow: message
        .tag(Tag::Slow)
        .and_then(|v| v.parse().ok())
        .map(Duration::from_secs),
""", """      slow: match message.tag(Tag::Slow) {
        Some(slow) => match slow.parse::<u64>() {
          Ok(secs) => Some(Duration::from_secs(secs)),
          Err(_) => None,
        },
        None => None,
      },
"""))
edit('b2-whisper-let-else', 'P10 P12 P14', (WH, """    let (recipient, text) = message.params()?.split_once(" :")?;
""", """    let params = message.params()?;
    let Some((recipient, text)) = params.split_once(" :") else {
      return None;
    };
"""))
edit('b2-whisper-sender', 'P10 P12', (WH, """      sender: User {
        id: message.tag(Tag::UserId)?.into(),
        login: message.prefix().and_then(|prefix| prefix.nick)?.into(),
        name: message.tag(Tag::DisplayName)?.into(),
      },
""", """      sender: {
        let login = message.prefix()?.nick?;
        User {
          id: message.tag(Tag::UserId)?.into(),
          login: login.into(),
          name: message.tag(Tag::DisplayName)?.into(),
        }
      },
"""))
edit('b2-userstate-sets', 'P12 P10', (US, """      emote_sets: message
        .tag(Tag::EmoteSets)
        .map(split_comma)
        .map(|i| i.map(Cow::Borrowed))
        .map(Iterator::collect)
        .unwrap_or_default(),
""", """      emote_sets: match message.tag(Tag::EmoteSets) {
        Some(sets) => split_comma(sets).map(Cow::Borrowed).collect(),
        None => Default::default(),
      },
"""))
edit('b2-userstate-owned', 'P16', (US, """      emote_sets: self.emote_sets.into_iter().map(maybe_clone).collect(),
""", """      emote_sets: {
        let mut sets = smallvec::SmallVec::new();
        for set in self.emote_sets {
          sets.push(maybe_clone(set));
        }
        sets
      },
"""))
edit('b2-clearmsg-reorder', 'P10 P12 P15', (CMs, """    let (text, is_action) = parse_message_text(message.text()?);
    Some(ClearMsg {
""", """    let timestamp = parse_timestamp(message.tag(Tag::TmiSentTs)?)?;
    let (text, is_action) = parse_message_text(message.text()?);
    Some(ClearMsg {
"""), (CMs, "      timestamp: parse_timestamp(message.tag(Tag::TmiSentTs)?)?,\n", "      timestamp,\n"))
edit('b2-clearmsg-dowork', 'P10 P12', (CMs, """    let (text, is_action) = parse_message_text(message.text()?);
""", """    let parsed = message.text().map(parse_message_text)?;
    let (text, is_action) = parsed;
"""))
edit('b2-notice-match', 'P10 P12 P16', (NO, """      channel: message.channel().map(Cow::Borrowed),
""", """      channel: match message.channel() {
        Some(channel) => Some(channel.into()),
        None => None,
      },
"""), (NO, "      id: self.id.map(maybe_clone),\n", "      id: match self.id {\n        Some(id) => Some(maybe_clone(id)),\n        None => None,\n      },\n"))
edit('b2-subscriber-reorder', 'P23', (M, """      Ok(Subscriber {
        version: t.version,
        months_n: t.months.parse().unwrap_or(1),
        months: t.months,
      })
""", """      let months_n = t.months.parse().unwrap_or(1);
      Ok(Subscriber {
        version: t.version,
        months: t.months,
        months_n,
      })
"""))
edit('b2-subscriber-match', 'P23', (M, """        months_n: t.months.parse().unwrap_or(1),
        months: t.months,
""", """        months_n: match t.months.parse() {
          Ok(n) => n,
          Err(_) => 1,
        },
        months: t.months,
"""))
edit('b2-badge-months', 'P14 P23', (M, """      "subscriber" => Self::Subscriber(Subscriber {
        version: value.version,
        months: value.extra.clone().unwrap_or(Cow::Borrowed("1")),
        months_n: value
          .extra
          .as_ref()
          .and_then(|v| v.parse().ok())
          .unwrap_or(1),
      }),
""", """      "subscriber" => {
        let months = value.extra.unwrap_or(Cow::Borrowed("1"));
        Self::Subscriber(Subscriber {
          version: value.version,
          months_n: months.parse().unwrap_or(1),
          months,
        })
      }
"""))
edit('b2-badge-owned', 'P16', (M, """      Badge::Subscriber(v) => Badge::Subscriber(v.into_owned()),
      Badge::Other(v) => Badge::Other(v.into_owned()),
""", """      Badge::Other(data) => {
        let data = data.into_owned();
        Badge::Other(data)
      }
      Badge::Subscriber(sub) => Badge::Subscriber(sub.into_owned()),
"""))
edit('b2-sse2-remainder', 'P02 P09', (WS, """      let mut buf = Align16([0; 16]);
      buf.0[..data.len() - offset].copy_from_slice(&data[offset..]);
""", """      let rest = &data[offset..];
      let mut buf = Align16([0; 16]);
      buf.0[..rest.len()].copy_from_slice(rest);
"""))
edit('b2-sse2-unaligned', 'P02 P09', (WS, """      debug_assert!(data[offset..].len() >= 16);
      Self(_mm_loadu_si128(data.as_ptr().add(offset) as *const __m128i))
""", """      debug_assert!(data[offset..].len() >= 16);
      let ptr = data.as_ptr().add(offset);
      Self(_mm_loadu_si128(ptr as *const __m128i))
"""))
edit('b2-sse2-masks', 'P02 P09', (WS, """    self.0 != 0
""", """    let bits = self.0;
    bits > 0
"""), (WS, """    self.0 &= !(0xffff_ffff >> (31 - m.0));
""", """    let keep = !(0xffff_ffffu32 >> (31 - m.0));
    self.0 &= keep;
"""))
edit('b2-debug-credentials', 'P25', (CL2, """    f.debug_struct("Credentials")
      .field("nick", &self.login)
      .finish_non_exhaustive()
""", """    let mut s = f.debug_struct("Credentials");
    s.field("nick", &self.login);
    s.finish_non_exhaustive()
"""))
edit('b2-trace-more', 'P25 P20', (CL2, """    trace!("reconnecting");
""", """    trace!(login = %self.config.credentials.login, "reconnecting");
"""))
edit('b2-trace-span', 'P25', ('src/client/write.rs', """    trace!(data, "sending message");
""", """    let len = data.len();
    trace!(len, data, "sending message");
"""))


def run(id, props, edits, src):
    top = f'/tmp/refactor-{os.getpid()}-{id}'
    subprocess.run(['rm', '-rf', top])
    os.makedirs(top)
    subprocess.run(['git', 'clone', '-q', '/repo', top + '/repo'], check=True)
    subprocess.run(['git', 'clone', '-q', V, top + '/verif'], check=True)
    if src:
        for f in subprocess.run(f'git -C {V} diff --name-only HEAD; git -C {V} ls-files -o --exclude-standard vx specs', shell=True, stdout=subprocess.PIPE, text=True).stdout.split():
            subprocess.run(['cp', f'{V}/{f}', f'{top}/verif/{f}'])
    subprocess.run(f'mkdir -p {top}/verif/work; cp -a /repo/target {top}/repo/ 2>/dev/null; cp -a {V}/work/t-* {top}/verif/work/ 2>/dev/null; true', shell=True)
    for f, old, new in edits:
        p = f'{top}/repo/{f}'
        s = open(p).read()
        if old is None:
            s += new
        else:
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    for p in props:
        t = time.time()
        r = subprocess.run(['unshare', '-m', '--propagation', 'private', 'sh', '-c',
                            f'mount --bind {top}/repo /repo && mount --bind {top}/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick exec python3 check.py {p} quick'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = [l for l in r.stdout.split('\n') if l][-1:]
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        word = 'ALARM' if v or r.returncode else 'proved' if ': proved' in r.stdout else 'undecided'
        print(f'{id:26} {p} {word:10} {time.time() - t:4.0f}s', flush=True)
        if word != 'proved' or 'does not build' in r.stdout:
            print('\n'.join('      ' + l[:260] for l in r.stdout.split('\n') if 'undecided:' in l or 'failed' in l or 'VIOLATION' in l or 'failing input' in l or 'build' in l)[:3000], flush=True)
    subprocess.run(['rm', '-rf', top])


if __name__ == '__main__':
    ids = sys.argv[1:]
    for id, props, edits in R:
        if not ids or id in ids or any(i.endswith('*') and id.startswith(i[:-1]) for i in ids):
            try:
                run(id, props, edits, True)
            except AssertionError as e:
                print('BAD EDIT', e)
