#[cfg(kani)]
mod proofs {
  use super::*;
  fn run<const C: usize>(k: usize) {
    let mut a = Array::<C, u32>::new();
    let mut w: Vec<u32> = Vec::new();
    let mut i = 0;
    while i < k {
      let x: u32 = kani::any();
      a.push(x);
      w.push(x);
      i += 1;
    }
    let v = a.to_vec();
    assert!(v.len() == k);
    let i: usize = kani::any();
    kani::assume(i < k);
    assert!(v[i] == w[i]);
    kani::cover!(true);
  }
  #[kani::proof]
  #[kani::unwind(8)]
  fn array_small() {
    let k: usize = kani::any();
    kani::assume(k <= 6);
    run::<3>(k);
  }
  #[kani::proof]
  #[kani::unwind(8)]
  fn array_fits() {
    run::<6>(4);
  }
  #[kani::proof]
  #[kani::unwind(140)]
  fn array_full() {
    run::<128>(128);
  }
  #[kani::proof]
  #[kani::unwind(140)]
  fn array_over() {
    run::<128>(131);
  }
}
