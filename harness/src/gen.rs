//! Input generators: exhaustive over short strings of a delimiter alphabet, boundary lengths, and a
//! seeded random part that builds protocol lines from the vocabularies and from every literal that
//! occurs in the source under test.
use crate::rng::Rng;
use crate::vocab;

#[derive(Default)]
pub struct Dict {
  pub words: Vec<String>,
  pub lines: Vec<String>,
  pub nums: Vec<i128>,
}
impl Dict {
  pub fn load(path: Option<&str>) -> Dict {
    let mut d = Dict::default();
    if let Some(p) = path {
      for l in std::fs::read_to_string(p).unwrap().split('\u{1e}') {
        if l.is_empty() {
          continue;
        }
        let (k, v) = l.split_at(1);
        match k {
          "n" => d.nums.push(v.parse().unwrap()),
          _ if v.len() > 60 => d.lines.push(v.to_string()),
          _ => d.words.push(v.to_string()),
        }
      }
    }
    d
  }
}

pub const LENS: &[usize] = &[0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 47, 48, 49, 62, 63, 64, 65, 66, 95, 96, 97, 126, 127, 128, 129, 130, 159, 160, 161, 191, 192, 193, 254, 255, 256, 257];

pub fn strings(alpha: &[&str], n: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
  // all strings of length 0..=n over alpha
  fn go(alpha: &[&str], left: usize, cur: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
    if !f(cur) {
      return false;
    }
    if left == 0 {
      return true;
    }
    for a in alpha {
      let l = cur.len();
      cur.push_str(a);
      if !go(alpha, left - 1, cur, f) {
        return false;
      }
      cur.truncate(l);
    }
    true
  }
  go(alpha, n, &mut String::new(), f)
}

pub fn enumerate(prop: &str, d: &Dict, f: &mut dyn FnMut(&str) -> bool) {
  #[cfg(feature = "tls")]
  if crate::tls::PROPS.contains(&prop) {
    crate::tls::enumerate(prop, d, f);
    return;
  }
  #[cfg(feature = "client")]
  if crate::wire::PROPS.contains(&prop) {
    crate::wire::enumerate(prop, d, f);
    return;
  }
  #[cfg(feature = "msg")]
  if crate::typed::PROPS.contains(&prop) {
    crate::typed::enumerate(prop, d, f);
    return;
  }
  match prop {
    "P04" => {
      let mut all: Vec<String> = vocab::TAGS.iter().map(|t| t.1.to_string()).chain(vocab::COMMANDS.iter().map(|t| t.1.to_string())).collect();
      all.extend(d.words.iter().cloned());
      for w in all {
        let up = w.to_uppercase();
        let lo = w.to_lowercase();
        let t: String = w.chars().skip(1).collect();
        let mut p = w.clone();
        p.pop();
        for s in [w.clone(), up, lo, t, p, format!("{w}x"), format!("x{w}"), format!("{w}\0"), format!("{w}{w}")] {
          if !f(&s) {
            return;
          }
        }
      }
    }
    "P07" => {
      strings(&["\\", "s", ":", "r", "n", "\u{2e1d}", "a", "\u{2e1c}"], 5, f);
    }
    _ => {
      if !strings(&["@", "=", ";", " ", ":", "#", "!", "a"], 5, f) {
        return;
      }
      // vocabulary commands with every shape of rest
      for (_, c, _) in vocab::COMMANDS {
        for p in ["", "@a=b ", ":n!u@h ", "@a=b;c=d :n@h "] {
          for r in ["", " ", " #c", " #c ", " #c :t", " #c a :b :c", " a = #c :x y", " a #c :End", " a\u{a0}b #c", " :", " a b c d", "  #c", " \u{3000}x y z", " #c x", " x#c"] {
            if !f(&format!("{p}{c}{r}")) {
              return;
            }
          }
        }
      }
      // lengths around the widths the parser works in, at every alignment of the delimiters
      for &k in LENS {
        for &v in LENS {
          for ex in [";", "=", "\u{e9}", ""] {
            let key = "k".repeat(k);
            let val = "v".repeat(v);
            for s in [
              format!("@{key}={val}{ex} PING"),
              format!("@{key}={val};x={ex} PING"),
              format!("@a={key};{val}{ex}=1;b=c PING"),
              format!("@{key}={val}"),
              format!("@{key}={ex}{val};x=y :{key}!{val}@{key} {val} #{key} :{ex}{val}"),
            ] {
              if !f(&s) {
                return;
              }
            }
          }
        }
      }
      for n in 0..300 {
        let s = "a".repeat(n);
        for x in [format!("@{s} PING"), format!("@k={s} PING"), format!("@{s}"), format!("@=;{s}=;= PING :{s}"), format!(":{s} PING"), format!("{s}"), format!("PING #{s}"), format!("PING {s} :x"), format!("@k={s}")] {
          if !f(&x) {
            return;
          }
        }
      }
      for n in [1usize, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 191, 255, 256, 257, 300] {
        for (k, v) in [("a", ""), ("", ""), ("key", "value"), ("k", "0123456789abcdef")] {
          let s: Vec<String> = (0..n).map(|i| if k.len() > 1 { format!("{k}{i}={v}{i}") } else { format!("{k}={v}") }).collect();
          for end in ["", ";", ";x", "="] {
            if !f(&format!("@{}{end} PRIVMSG #c :hi", s.join(";"))) {
              return;
            }
          }
        }
      }
      for n in [65534usize, 65535, 65536, 65537, 131071, 131073] {
        let s = "b".repeat(n);
        for x in [format!("@k={s};z=1 PING :x"), format!("@{s}=1;z=2 PING :x"), format!("@a=b :{s} PING :x"), format!("@a=b :n!u@h PING #{s} :{s}")] {
          if !f(&x) {
            return;
          }
        }
      }
      for l in &d.lines {
        if !f(l) {
          return;
        }
      }
    }
  }
}

const BITS: &[&str] = &["@", "=", ";", " ", ":", "#", "!", "a", "b", "Z", "0", "/", ",", "\\", "\\s", "\u{e9}", "\u{2e1d}", "\u{1f600}", "\u{1}", "\u{1}ACTION ", "\r", "\n", "\t", "\0", "\u{a0}", "  ", "::", "==", ";;", "id", "PING", "-", "\u{3000}"];

pub fn soup(r: &mut Rng, n: usize) -> String {
  let mut s = String::new();
  let k = r.below(n + 1);
  for _ in 0..k {
    s.push_str(r.pick::<&str>(BITS));
  }
  s
}

pub fn word(r: &mut Rng, d: &Dict) -> String {
  match r.below(10) {
    0 | 1 if !d.words.is_empty() => r.pick(&d.words).clone(),
    2 => soup(r, 6),
    3 => {
      let n = *r.pick(LENS);
      let c = *r.pick(&["a", "v", "\u{e9}", ";", "=", "\\s"]);
      c.repeat(n)
    }
    4 => number(r, d),
    5 => {
      let n = r.below(70);
      (0..n).map(|_| *r.pick(&['a', 'b', 'Q', '_', '9'])).collect()
    }
    _ => {
      let n = r.below(12);
      (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
    }
  }
}

pub fn number(r: &mut Rng, d: &Dict) -> String {
  const N: &[i128] = &[0, 1, 2, 3, 5, 9, 10, 12, 13, 59, 60, 61, 99, 100, 127, 128, 255, 256, 257, 300, 999, 1000, 3600, 32767, 32768, 65535, 65536, 86400, 999999, 1234567, 2147483647, 2147483648, 4294967295, 4294967296, 8210266876799, 8210266876800, 1594553828245, 9007199254740993, 153722867280912930, 153722867280912931, 307445734561825860, 307445734561825861, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616, 8210266876799999, 8334601228800000, 170141183460469231731687303715884105727];
  let mut n: i128 = match r.below(6) {
    0 if !d.nums.is_empty() => *r.pick(&d.nums) + r.below(3) as i128 - 1,
    1 => r.below(1000) as i128,
    2 => r.next() as i128,
    3 => (r.next() >> r.below(64)) as i128,
    _ => *r.pick(N),
  };
  if r.chance(1, 6) {
    n = -n;
  }
  match r.below(16) {
    0 => format!("+{n}"),
    1 => format!("0{n}"),
    2 => format!(" {n}").replace(' ', "\u{a0}"),
    3 => format!("{n}.0"),
    4 => format!("{n}x"),
    5 => format!("0x{n:x}"),
    6 => "".into(),
    7 => "-".into(),
    8 => "abc".into(),
    9 => format!("{n}\\s"),
    _ => format!("{n}"),
  }
}

pub fn tag_key(r: &mut Rng, d: &Dict) -> String {
  match r.below(8) {
    0 => word(r, d).replace(' ', "_"),
    1 => {
      let mut k = r.pick(vocab::TAGS).1.to_string();
      if r.chance(1, 2) {
        k.pop();
      } else {
        k.push_str(*r.pick(&["x", "-", "s", "=", ";"]));
      }
      k
    }
    _ => r.pick(vocab::TAGS).1.to_string(),
  }
}

pub fn line(r: &mut Rng, d: &Dict) -> String {
  match r.below(12) {
    0 => return soup(r, 30),
    1 if !d.lines.is_empty() => {
      let l = r.pick(&d.lines).clone();
      return mutate(r, &l, d);
    }
    _ => {}
  }
  let mut s = String::new();
  if r.chance(4, 5) {
    s.push('@');
    let n = match r.below(40) {
      0 => 120 + r.below(20),
      1 => 200 + r.below(100),
      _ => r.below(8),
    };
    for i in 0..n {
      if i > 0 {
        s.push(';');
      }
      s.push_str(&tag_key(r, d));
      if !r.chance(1, 20) {
        s.push('=');
      }
      s.push_str(&word(r, d).replace(' ', "\\s"));
    }
    if r.chance(1, 15) {
      s.push(';');
    }
    if !r.chance(1, 30) {
      s.push(' ');
    }
  }
  if r.chance(3, 4) {
    s.push(':');
    match r.below(6) {
      0 => s.push_str(&word(r, d)),
      1 => s.push_str(&format!("{}@{}", word(r, d), word(r, d))),
      2 => s.push_str(&soup(r, 8)),
      _ => s.push_str(&format!("{}!{}@{}", word(r, d), word(r, d), word(r, d))),
    }
    if !r.chance(1, 30) {
      s.push(' ');
    }
  }
  match r.below(8) {
    0 => s.push_str(&word(r, d)),
    1 => s.push_str(*r.pick(&["353", "366", "353", "366", "001", "CAP", "NOTICE"])),
    _ => s.push_str(r.pick(vocab::COMMANDS).1),
  }
  if !r.chance(1, 15) {
    s.push(' ');
  }
  if r.chance(2, 3) {
    s.push('#');
    s.push_str(&word(r, d));
    if !r.chance(1, 15) {
      s.push(' ');
    }
  }
  match r.below(6) {
    0 => {}
    1 => s.push_str(&soup(r, 12)),
    2 => {
      for _ in 0..r.below(6) {
        s.push_str(&word(r, d));
        s.push_str(*r.pick(&[" ", "  ", "\t", "\u{a0}", "\u{3000}", " :"]));
      }
    }
    3 => s.push_str(&word(r, d)),
    _ => {
      s.push_str(&format!("{} :{} {}", word(r, d), word(r, d), word(r, d)));
    }
  }
  if r.chance(1, 6) {
    s = mutate(r, &s, d);
  }
  s
}

pub fn mutate(r: &mut Rng, l: &str, d: &Dict) -> String {
  let mut c: Vec<char> = l.chars().collect();
  for _ in 0..1 + r.below(4) {
    let i = r.below(c.len() + 1);
    match r.below(5) {
      0 if i < c.len() => {
        c.remove(i);
      }
      1 if i < c.len() => {
        let n = r.below(20);
        let e = (i + n).min(c.len());
        c.drain(i..e);
      }
      2 => {
        let w = if r.chance(1, 2) { word(r, d) } else { soup(r, 3) };
        for (j, x) in w.chars().enumerate() {
          c.insert(i + j, x);
        }
      }
      3 if !c.is_empty() => {
        let a = r.below(c.len());
        let b = (a + r.below(30)).min(c.len());
        let seg: Vec<char> = c[a..b].to_vec();
        for (j, x) in seg.into_iter().enumerate() {
          c.insert((i + j).min(c.len()), x);
        }
      }
      _ => {
        let w: Vec<char> = r.pick::<&str>(BITS).chars().collect();
        for (j, x) in w.into_iter().enumerate() {
          c.insert(i + j, x);
        }
      }
    }
  }
  c.into_iter().collect()
}

pub fn random(prop: &str, r: &mut Rng, d: &Dict) -> String {
  #[cfg(feature = "tls")]
  if crate::tls::PROPS.contains(&prop) {
    return crate::tls::random(prop, r, d);
  }
  #[cfg(feature = "client")]
  if crate::wire::PROPS.contains(&prop) {
    return crate::wire::random(prop, r, d);
  }
  #[cfg(feature = "msg")]
  if crate::typed::PROPS.contains(&prop) {
    return crate::typed::random(prop, r, d);
  }
  match prop {
    "P04" => match r.below(5) {
      0 => r.pick(vocab::COMMANDS).1.to_string(),
      1 => r.pick(vocab::TAGS).1.to_string(),
      2 => {
        let k = tag_key(r, d);
        mutate(r, &k, d)
      }
      3 => soup(r, 6),
      _ => word(r, d),
    },
    "P07" => {
      let mut s = String::new();
      for _ in 0..r.below(40) {
        match r.below(4) {
          0 => s.push('\\'),
          1 => s.push_str(*r.pick(&["s", ":", "r", "n", "\u{2e1d}", ";", " ", ",", "\u{2e1c}", "\u{e9}", "\u{b8}", "\\\\"])),
          2 => s.push_str(&word(r, d)),
          _ => s.push_str(r.pick::<&str>(BITS)),
        }
      }
      s
    }
    #[cfg(feature = "msg")]
    _ if r.chance(1, 3) => crate::typed::line(r, d),
    _ => line(r, d),
  }
}
