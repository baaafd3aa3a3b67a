//! Shared by C03, C04, C05, C12: where in a call the user's code fails.
use crate::case::Case;
use simcore::rng::Rng;

/// The crash points to visit in a call that passes `n` user-code points: all of them up to `lim`, else a spread sample.
pub fn positions(c: &Case, n: u64, lim: u64, seed: u64) -> Vec<u64> {
    if c.has("pos") { let p = c.u("pos"); return if p >= 1 && p <= n { vec![p] } else { vec![] }; }
    if n <= lim { return (1..=n).collect(); }
    let mut r = Rng::new(seed ^ n);
    let mut v: Vec<u64> = (1..=lim / 5).collect();
    for k in 0..lim / 5 { v.push(n - k); }
    let rest = lim - 2 * (lim / 5);
    for k in 0..rest { let lo = 1 + (n - 1) * k / rest; let hi = 1 + (n - 1) * (k + 1) / rest; v.push(lo + r.below((hi - lo).max(1))); }
    v.sort();
    v.dedup();
    v
}
