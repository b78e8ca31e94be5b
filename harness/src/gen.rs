//! Inputs and the independent model of rows as lists of numbers
use crate::Rng;
use bellframe::{Bell, Row, RowBuf, Stage};

pub type P = Vec<usize>;

pub const NAMES: &str = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";

pub fn name_index(c: char) -> Option<usize> { NAMES.chars().position(|x| x == c) }

pub fn bells(p: &[usize]) -> Vec<Bell> { p.iter().map(|i| Bell::from_index(*i)).collect() }
pub fn st(n: usize) -> Stage { Stage::new(n) }
/// The row with these bells, without going through the checks of the code under test
pub fn rb(p: &[usize]) -> RowBuf { unsafe { RowBuf::from_vec_unchecked(bells(p)) } }
pub fn un(r: &Row) -> P { r.slice().iter().map(|b| b.index()).collect() }

pub fn is_perm(p: &[usize]) -> bool {
    let mut seen = vec![false; p.len()];
    for &x in p {
        if x >= p.len() || seen[x] { return false; }
        seen[x] = true;
    }
    !p.is_empty()
}
pub fn id(n: usize) -> P { (0..n).collect() }
pub fn mul(a: &[usize], b: &[usize]) -> P { b.iter().map(|&i| a[i]).collect() }
pub fn inv(a: &[usize]) -> P {
    let mut r = vec![0; a.len()];
    for (i, &x) in a.iter().enumerate() { r[x] = i; }
    r
}
pub fn pow(a: &[usize], k: usize) -> P {
    let mut r = id(a.len());
    for _ in 0..k { r = mul(&r, a); }
    r
}

/// All permutations of 0..n in lexicographic order
pub fn perms(n: usize) -> Vec<P> {
    let mut out = vec![];
    fn go(cur: &mut P, used: &mut Vec<bool>, out: &mut Vec<P>) {
        if cur.len() == used.len() { out.push(cur.clone()); return; }
        for i in 0..used.len() {
            if !used[i] { used[i] = true; cur.push(i); go(cur, used, out); cur.pop(); used[i] = false; }
        }
    }
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}
/// All sequences over 0..k of length n
pub fn seqs(k: usize, n: usize) -> Vec<P> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &out { for x in 0..k { let mut t: P = s.clone(); t.push(x); next.push(t); } }
        out = next;
    }
    out
}
pub const STAGES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 22, 23, 24, 31, 32, 33, 34, 35, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300];
pub fn stage(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0..=4 => rng.range(1, 12),
        5..=6 => rng.range(12, 36),
        _ => *rng.pick(STAGES),
    }
}
/// A permutation of n of some kind: random or close to a structured one
pub fn perm(rng: &mut Rng, n: usize) -> P {
    let mut p: P = match rng.below(9) {
        0 => id(n),
        1 => (0..n).rev().collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        3 => { let k = rng.below(n); (0..n).map(|i| (i + k) % n).collect() }
        _ => { let mut p = id(n); for i in (1..n).rev() { p.swap(i, rng.below(i + 1)); } return p; }
    };
    for _ in 0..*rng.pick(&[0, 0, 1, 1, 2, 3]) {
        // anywhere, next to each other, or at one of the ends
        let a = match rng.below(5) { 0 => 0, 1 => n.saturating_sub(2), _ => rng.below(n) };
        let b = match rng.below(8) { 0..=3 => (a + 1) % n, 4 => (a + *rng.pick(&[2, 8, 16, 64, 128, 256])) % n, _ => rng.below(n) };
        p.swap(a, b);
    }
    p
}
/// A list of bells that is often nearly a permutation
pub fn list(rng: &mut Rng) -> P {
    let n = if rng.chance(1, 12) { 0 } else { stage(rng) };
    if n == 0 { return vec![]; }
    let mut p = perm(rng, n);
    for _ in 0..*rng.pick(&[0, 0, 1, 1, 2, 3]) {
        let i = rng.below(p.len());
        match rng.below(8) {
            // bells which change but keep their sum, or their sum and their sum of squares
            6 => { let j = rng.below(p.len()); if i != j && p[i] < n - 1 && p[j] > 0 { p[i] += 1; p[j] -= 1; } }
            7 => { let d = 3 * rng.range(1, 4); for j in 0..p.len() {
                // {k, k + 4, k + 5} and {k + 1, k + 2, k + 6}
                let k = d - 3; if k + 6 < n { p[j] = match p[j].wrapping_sub(k) { 0 => k + 1, 4 => k + 2, 5 => k + 6, _ => p[j] }; }
            } }
            0 => p[i] = *rng.pick(&[n, n + 1, 255, 256, 1 << 32, usize::MAX, usize::MAX - 1, n + 256, 1 << 63]),
            1 => p[i] = rng.below(n),
            2 => { p.remove(i); if p.is_empty() { return p; } }
            3 => { let x = p[rng.below(p.len())]; p.insert(i, x) }
            4 => p.push(n),
            _ => p.swap(i, 0),
        }
    }
    p
}
pub fn show(p: &[usize]) -> String { format!("{:?}", p) }
/// Random text built from bell names, notation and noise
pub fn text(rng: &mut Rng, max: usize, alphabet: &[char]) -> String { (0..rng.below(max + 1)).map(|_| *rng.pick(alphabet)).collect() }

/// Runs `f` on every character, a block of them at a time
pub fn every_char(cx: &mut crate::Cx, what: &str, f: impl Fn(char) -> Result<(), String> + std::panic::RefUnwindSafe) {
    for block in 0..0x1100u32 {
        cx.case(block == 0, || format!("{} with each of the characters U+{:X}..U+{:X}", what, block * 256, block * 256 + 255), || {
            for u in block * 256..block * 256 + 256 { if let Some(c) = char::from_u32(u) { f(c).map_err(|e| format!("character {:?}: {}", c, e))?; } }
            Ok(())
        });
    }
}
