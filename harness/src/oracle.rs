//! The executable reading of the contracts of the IRC layer: written from the specification
//! (specs/parser.vspec), never sharing code with the crate.
use crate::vocab;

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct OMsg<'a> {
  pub raw: &'a str,
  pub tags: Vec<(&'a str, &'a str)>,
  pub prefix: Option<(Option<&'a str>, Option<&'a str>, &'a str)>,
  pub prefix_text: Option<&'a str>,
  /// wire name of the command
  pub command: &'a str,
  pub chan: Option<&'a str>,
  pub params: Option<&'a str>,
}

/// the pairs of a tag section (without `@` and the terminating space)
pub fn pairs(mut s: &str) -> Vec<(&str, &str)> {
  let mut out = vec![];
  // a key runs to the next `=` (whatever it contains), its value to the next `;` or the end
  while let Some((key, rest)) = s.split_once('=') {
    match rest.split_once(';') {
      Some((value, next)) => {
        out.push((key, value));
        s = next;
      }
      None => {
        out.push((key, rest));
        break;
      }
    }
  }
  out
}

pub fn prefix(s: &str) -> (Option<&str>, Option<&str>, &str) {
  // `!` ends a nick (everything before it); `@` starts a host (everything after the last one);
  // between the last `!` and the last `@` after it lies the user; without a `!`, what precedes the
  // `@` is the nick
  let mut nick = None;
  let mut user = None;
  let mut bang: Option<usize> = None;
  let mut host = 0;
  for (i, c) in s.char_indices() {
    if c == '@' {
      host = i + 1;
      match bang {
        Some(b) => user = Some(&s[b + 1..i]),
        None => nick = Some(&s[..i]),
      }
    } else if c == '!' {
      nick = Some(&s[..i]);
      bang = Some(i);
    }
  }
  (nick, user, &s[host..])
}

pub fn parse(src: &str) -> Option<OMsg<'_>> {
  let mut rest = src;
  let mut tags = vec![];
  if let Some(s) = rest.strip_prefix('@') {
    if let Some((section, r)) = s.split_once(' ') {
      tags = pairs(section);
      rest = r;
    }
  }
  let mut pfx = None;
  let mut prefix_text = None;
  if let Some(s) = rest.strip_prefix(':') {
    if let Some((section, r)) = s.split_once(' ') {
      pfx = Some(prefix(section));
      prefix_text = Some(section);
      rest = r;
    }
  }
  let (command, r) = rest.split_once(' ').unwrap_or((rest, ""));
  if command.is_empty() {
    return None;
  }
  rest = r;
  let mut chan = None;
  if rest.starts_with('#') {
    let (c, r) = rest.split_once(' ').unwrap_or((rest, ""));
    chan = Some(c);
    rest = r;
  }
  let params = if rest.is_empty() { None } else { Some(rest) };
  Some(OMsg { raw: src, tags, prefix: pfx, prefix_text, command, chan, params })
}

impl<'a> OMsg<'a> {
  pub fn tag(&self, name: &str) -> Option<&'a str> {
    self.tags.iter().find(|(k, _)| *k == name).map(|(_, v)| *v)
  }
  pub fn channel(&self) -> Option<&'a str> {
    match self.command {
      "353" => self.params.and_then(|p| p.split_whitespace().nth(2)),
      "366" => self.params.and_then(|p| p.split_whitespace().nth(1)),
      _ => self.chan,
    }
  }
  pub fn text(&self) -> Option<&'a str> {
    self.params.map(|p| match p.split_once(':') {
      Some((_, t)) => t,
      None => p,
    })
  }
}

/// name of the `Command` variant for a wire name
pub fn command_variant(w: &str) -> &'static str {
  vocab::COMMANDS.iter().find(|(_, n, _)| *n == w).map(|(v, _, _)| *v).unwrap_or("Other")
}
pub fn tag_variant(w: &str) -> &'static str {
  vocab::TAGS.iter().find(|(_, n, _)| *n == w).map(|(v, _, _)| *v).unwrap_or("Unknown")
}

pub fn unescape(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    match c {
      '\u{2e1d}' => out.push(','),
      '\\' => match it.next() {
        None => {}
        Some('s') => out.push(' '),
        Some(':') => out.push(';'),
        Some('r') => out.push('\r'),
        Some('n') => out.push('\n'),
        Some('\u{2e1d}') => out.push(','),
        Some(c) => out.push(c),
      },
      c => out.push(c),
    }
  }
  out
}
