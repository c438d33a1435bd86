//! The contracts that the deductive proof assumes of the vector types, checked on the real files.
#![allow(dead_code, unused)]
#[path = "/repo/src/irc/wide/x86_64/sse2.rs"]
pub mod sse2;
#[path = "/repo/src/irc/wide/x86_64/avx2.rs"]
pub mod avx2;

#[cfg(kani)]
mod proofs {
  macro_rules! leaf {
    ($m:ident, $w:tt, $cap:literal) => {
      mod $m {
        use crate::$m::*;
        fn lanes(v: Vector) -> [u8; $w] { unsafe { core::mem::transmute(v) } }
        #[repr(align($w))]
        struct Buf([u8; $cap]);
        #[kani::proof]
        fn load_unaligned() {
          let b = Buf(kani::any());
          let start: usize = kani::any();
          kani::assume(start <= $cap);
          let data = &b.0[start..];
          let offset: usize = kani::any();
          kani::assume(offset <= $cap && offset + $w <= data.len());
          let v = lanes(Vector::load_unaligned(data, offset));
          let i: usize = kani::any();
          kani::assume(i < $w);
          assert!(v[i] == data[offset + i]);
          kani::cover!(true);
        }
        #[kani::proof]
        fn load_aligned() {
          let b = Buf(kani::any());
          let start: usize = kani::any();
          kani::assume(start <= $cap);
          let data = &b.0[start..];
          let offset: usize = kani::any();
          kani::assume(offset <= $cap && offset + $w <= data.len());
          kani::assume((start + offset) % $w == 0);
          let v = lanes(Vector::load_aligned(data, offset));
          let i: usize = kani::any();
          kani::assume(i < $w);
          assert!(v[i] == data[offset + i]);
          kani::cover!(true);
        }
        #[kani::proof]
        #[kani::unwind(40)]
        fn load_unaligned_remainder() {
          let b = Buf(kani::any());
          let start: usize = kani::any();
          kani::assume(start <= $cap);
          let data = &b.0[start..];
          let offset: usize = kani::any();
          kani::assume(offset <= data.len() && data.len() <= offset + $w);
          let v = lanes(Vector::load_unaligned_remainder(data, offset));
          let i: usize = kani::any();
          kani::assume(i < $w);
          assert!(v[i] == if offset + i < data.len() { data[offset + i] } else { 0 });
          kani::cover!(true);
        }
        #[kani::proof]
        fn fill_eq_movemask() {
          let a: [u8; $w] = kani::any();
          let c: u8 = kani::any();
          let v: Vector = unsafe { core::mem::transmute(a) };
          let i: usize = kani::any();
          kani::assume(i < $w);
          assert!(lanes(Vector::fill(c))[i] == c);
          let e = v.eq(c);
          assert!(lanes(e)[i] == if a[i] == c { 0xff } else { 0 });
          let m: u32 = unsafe { core::mem::transmute(v.movemask()) };
          let j: usize = kani::any();
          kani::assume(j < 32);
          assert!(((m >> j) & 1 == 1) == (j < $w && a[j % $w] >= 0x80));
          kani::cover!(true);
        }
      }
    };
  }
  leaf!(sse2, 16, 80);
  leaf!(avx2, 32, 160);
}
