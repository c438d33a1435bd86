//! Counterexample search and conformance sweep for the contracts in /verif/specs.
//!
//! This is *not* the deciding step of a check (Verus is).  It (a) looks for a concrete failing
//! input when an obligation is no longer discharged, (b) is the labelled, bounded stand-in when a
//! function is outside the verifier's reach, and (c) on every run tests the executable reading of
//! the contracts (oracle.rs) against the real crate, so that a contract nobody could satisfy or an
//! assumption about a dependency that does not hold shows up.
mod gen;
mod mem;
mod oracle;
mod props;
mod rng;
mod vocab;
#[cfg(feature = "msg")]
mod typed;
#[cfg(feature = "tls")]
mod tls;
#[cfg(feature = "client")]
mod wire;

use std::io::Write;
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
  let a: Vec<String> = std::env::args().collect();
  a.iter().position(|x| x == name).map(|i| a[i + 1].clone())
}

pub fn hex(s: &[u8]) -> String {
  s.iter().map(|b| format!("{b:02x}")).collect()
}

fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn cut(s: &str, n: usize) -> String {
  if s.len() <= n {
    return s.to_string();
  }
  let mut e = n;
  while !s.is_char_boundary(e) {
    e -= 1;
  }
  format!("{}... ({} bytes)", &s[..e], s.len())
}

/// run one input, turning a panic into a mismatch
fn run(prop: &str, input: &str, st: &mut mem::State) -> Result<bool, String> {
  st.record(input);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(prop, input)));
  match r {
    Ok(r) => r,
    Err(e) => {
      let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
      Err(format!("panicked: {m}"))
    }
  }
}

fn shrink(prop: &str, input: &str, st: &mut mem::State) -> String {
  let mut best: Vec<char> = input.chars().collect();
  let t = Instant::now();
  let mut step = (best.len() / 2).max(1);
  while t.elapsed() < Duration::from_secs(5) {
    let mut i = 0;
    let mut any = false;
    while i < best.len() && t.elapsed() < Duration::from_secs(5) {
      let mut c = best.clone();
      c.drain(i..(i + step).min(best.len()));
      let s: String = c.iter().collect();
      if run(prop, &s, st).is_err() {
        best = c;
        any = true;
      } else {
        i += step;
      }
    }
    if step == 1 && !any {
      break;
    }
    if !any || step > best.len() {
      step = (step / 2).max(1);
    }
  }
  best.into_iter().collect()
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let prop = arg("--prop").expect("--prop");
  let mut st = mem::State::open(arg("--state").as_deref());
  if let Some(f) = arg("--replay") {
    let s = std::fs::read_to_string(f).unwrap();
    match run(&prop, &s, &mut st) {
      Ok(_) => println!("{{\"holds\":true}}"),
      Err(m) => {
        println!("{{\"holds\":false,\"why\":{}}}", jstr(&m));
        std::process::exit(1)
      }
    }
    return;
  }
  let seed: u64 = arg("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
  let part: u64 = arg("--part").map(|s| s.parse().unwrap()).unwrap_or(0);
  let parts: u64 = arg("--parts").map(|s| s.parse().unwrap()).unwrap_or(1);
  let ms: u64 = arg("--ms").map(|s| s.parse().unwrap()).unwrap_or(1000);
  let dict = gen::Dict::load(arg("--dict").as_deref());
  let deadline = Instant::now() + Duration::from_millis(ms);
  let mut n = 0u64;
  let mut nontrivial = 0u64;
  let mut seen = std::collections::HashSet::new();
  let mut samples: Vec<String> = vec![];
  let mut exec = |s: &str, st: &mut mem::State| -> bool {
    n += 1;
    match run(&prop, s, st) {
      Ok(t) => {
        if t {
          use std::hash::{Hash, Hasher};
          let mut h = std::collections::hash_map::DefaultHasher::new();
          s.hash(&mut h);
          if seen.insert(h.finish()) {
            nontrivial += 1;
            if samples.len() < 3 && nontrivial % 97 == 1 {
              samples.push(cut(s, 300));
            }
          }
        }
        true
      }
      Err(_) => false,
    }
  };
  let mut bad: Option<String> = None;
  // the enumerated part: small and boundary inputs, split over the processes
  let mut enumerated = 0u64;
  let mut k = 0u64;
  gen::enumerate(&prop, &dict, &mut |s: &str| {
    k += 1;
    if bad.is_some() || k % parts != part {
      return bad.is_none();
    }
    enumerated += 1;
    if !exec(s, &mut st) {
      bad = Some(s.to_string());
      return false;
    }
    true
  });
  // the random part, for the rest of the time
  let mut r = rng::Rng::new(seed.wrapping_mul(1000003).wrapping_add(part));
  while bad.is_none() && Instant::now() < deadline {
    for _ in 0..32 {
      let s = gen::random(&prop, &mut r, &dict);
      if !exec(&s, &mut st) {
        bad = Some(s);
        break;
      }
    }
  }
  drop(exec);
  let mut out = format!(
    "{{\"evaluations\":{n},\"distinct_nontrivial\":{nontrivial},\"enumerated\":{enumerated},\"samples\":[{}]",
    samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
  );
  if let Some(b) = &bad {
    let s = shrink(&prop, b, &mut st);
    let why = run(&prop, &s, &mut st).err().unwrap_or_default();
    out.push_str(&format!(",\"bad\":{},\"why\":{}", jstr(&s), jstr(&cut(&why, 4000))));
  }
  out.push('}');
  println!("{out}");
  std::io::stdout().flush().unwrap();
  if bad.is_some() {
    std::process::exit(1);
  }
}
