//! SameStageVec (C17, C18) and run_len (C24)
use crate::gen::*;
use crate::p_row::{row_is, stage_err};
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::row::same_stage_vec::ParseError;
use bellframe::{Bell, RowBuf, SameStageVec};

#[derive(Debug, Clone)]
enum Op {
    Push(P),
    Pop,
    Extend(Vec<P>),
    ExtBuf(usize, Vec<P>),
    Split(usize),
    Back(usize),
    PreMul(P),
    ExtT(P, usize, Vec<P>),
    ExtRange(P, usize, Vec<P>, usize, usize, u8),
    ExtWithin(usize, usize, u8, P),
    Set(usize, P),
    SetEnd(bool, P),
    Clone,
}
pub fn rows(rng: &mut Rng, n: usize, max: usize) -> Vec<P> { (0..rng.below(max + 1)).map(|_| perm(rng, n)).collect() }
/// Usually n, sometimes another stage
fn other(rng: &mut Rng, n: usize) -> usize { if rng.chance(1, 8) { if n > 1 && rng.chance(1, 2) { n - 1 } else { n + 1 + rng.below(2) } } else { n } }
pub fn svec(n: usize, rows: &[P]) -> SameStageVec {
    let mut v = Vec::new();
    for r in rows { v.extend(bells(r)); }
    unsafe { SameStageVec::from_bell_vec_unchecked(v, st(n)) }
}
pub fn same(v: &SameStageVec, n: usize, want: &[P], what: &str) -> R {
    ck_eq!(v.stage(), st(n), "{}: stage", what);
    ck_eq!(v.len(), want.len(), "{}: length", what);
    ck_eq!(v.is_empty(), want.is_empty(), "{}: is_empty", what);
    let got: Vec<P> = v.iter().map(un).collect();
    ck_eq!(got, want.to_vec(), "{}: rows", what);
    Ok(())
}
fn deep(v: &mut SameStageVec, n: usize, m: &[P]) -> R {
    for i in 0..m.len() {
        row_is(&v[i], &m[i], "index")?;
        match v.get(i) { Some(r) => row_is(r, &m[i], "get")?, None => return Err(format!("get({}) gives nothing", i)) }
        match v.get_mut(i) { Some(r) => row_is(r, &m[i], "get_mut")?, None => return Err(format!("get_mut({}) gives nothing", i)) }
    }
    for i in [m.len(), m.len() + 1, m.len() + 7, usize::MAX, usize::MAX / n, (usize::MAX / n).saturating_add(1), usize::MAX - 1, 1 << 63, usize::MAX / 2 + 1] {
        if i >= m.len() { ck!(v.get(i).is_none() && v.get_mut(i).is_none(), "get({}) gives a row", i); }
    }
    ck_eq!(v.first().map(un), m.first().cloned(), "first");
    ck_eq!(v.last().map(un), m.last().cloned(), "last");
    ck_eq!(v.first_mut().map(|r| un(r)), m.first().cloned(), "first_mut");
    ck_eq!(v.last_mut().map(|r| un(r)), m.last().cloned(), "last_mut");
    let back: Vec<P> = v.iter().rev().map(un).collect();
    ck_eq!(back, m.iter().rev().cloned().collect::<Vec<_>>(), "reversed rows");
    ck_eq!(v.iter().len(), m.len(), "iter().len()");
    ck_eq!(v.iter().size_hint(), (m.len(), Some(m.len())), "size hint");
    ck_eq!(v.iter().skip(1).len(), m.len().saturating_sub(1), "iter().skip(1).len()");
    ck_eq!(v.iter().enumerate().rev().map(|(i, r)| (i, un(r))).collect::<Vec<_>>(), m.iter().cloned().enumerate().rev().collect::<Vec<_>>(), "enumerated backwards");
    let refs: Vec<P> = (&*v).into_iter().map(un).collect();
    ck_eq!(refs, m.to_vec(), "rows by reference");
    // from both ends in turn
    let mut it = v.iter();
    let (mut a, mut b) = (0, m.len());
    let mut k = 0;
    while a < b {
        ck_eq!(it.len(), b - a, "length of what is left");
        if k % 3 == 1 { b -= 1; ck_eq!(it.next_back().map(un), Some(m[b].clone()), "next_back"); } else { ck_eq!(it.next().map(un), Some(m[a].clone()), "next"); a += 1; }
        k += 1;
    }
    ck!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "the iterator goes on past its end");
    ck_eq!(it.size_hint(), (0, Some(0)), "size hint at the end");
    // the other ways of going through the rows
    ck_eq!(v.iter().count(), m.len(), "count");
    ck_eq!(v.iter().last().map(un), m.last().cloned(), "last row of the iterator");
    ck_eq!(v.iter().fold(vec![], |mut a, r| { a.push(un(r)); a }), m.to_vec(), "fold");
    for j in [0, 1, m.len() / 2, m.len().saturating_sub(1), m.len(), m.len() + 1] {
        let (mut f, mut b) = (v.iter(), v.iter());
        ck_eq!(f.nth(j).map(un), m.get(j).cloned(), "nth({})", j);
        ck_eq!(f.map(un).collect::<Vec<_>>(), m.iter().skip(j + 1).cloned().collect::<Vec<_>>(), "rows after nth({})", j);
        ck_eq!(b.nth_back(j).map(un), m.iter().rev().nth(j).cloned(), "nth_back({})", j);
        ck_eq!(b.map(un).collect::<Vec<_>>(), m.iter().take(m.len().saturating_sub(j + 1)).cloned().collect::<Vec<_>>(), "rows before nth_back({})", j);
        ck_eq!(v.iter().step_by(j + 1).map(un).collect::<Vec<_>>(), m.iter().step_by(j + 1).cloned().collect::<Vec<_>>(), "every {}th row", j + 1);
        ck_eq!(v.iter().skip(j).map(un).collect::<Vec<_>>(), m.iter().skip(j).cloned().collect::<Vec<_>>(), "rows after {}", j);
    }
    for b in [0, n / 2, n - 1, n, n + 1, usize::MAX] {
        let want = if b < n { Some(m.iter().map(|r| r.iter().position(|x| *x == b).unwrap()).collect::<Vec<_>>()) } else { None };
        ck_eq!(v.path_of(Bell::from_index(b)), want, "path of bell {}", b);
    }
    Ok(())
}
fn script(rng: &mut Rng, n: usize) -> Vec<Op> {
    let k = rng.range(1, 12);
    (0..k).map(|_| {
        let o = other(rng, n);
        match rng.below(18) {
            0..=3 => Op::Push(perm(rng, o)),
            4..=5 => Op::Pop,
            6..=7 => { let many = if rng.chance(1, 12) { 60 } else { 5 }; let mut r = rows(rng, n, many); if o != n { let i = rng.below(r.len() + 1); r.insert(i, perm(rng, o)); } Op::Extend(r) }
            8 => Op::ExtBuf(o, rows(rng, o, 5)),
            9 => Op::Split(rng.below(8)),
            10 => Op::Split(*rng.pick(&[usize::MAX, (usize::MAX / n).saturating_add(1), 1 << 63, usize::MAX / 2 + 1, 1 << 62, usize::MAX / n])),
            11 => Op::PreMul(perm(rng, o)),
            12 => { let p = other(rng, n); Op::ExtT(perm(rng, p), o, rows(rng, o, 4)) }
            13..=14 => { let p = other(rng, n); let r = rows(rng, o, 6); let hi = rng.below(r.len() + 1); let lo = rng.below(hi + 1); Op::ExtRange(perm(rng, p), o, r, lo, hi, rng.below(6) as u8) }
            15 => { let (lo, hi) = (rng.below(6), rng.below(6)); Op::ExtWithin(lo.min(hi), lo.max(hi), rng.below(6) as u8, perm(rng, o)) }
            16 => if rng.chance(1, 2) { Op::Set(rng.below(6), perm(rng, n)) } else { Op::SetEnd(rng.chance(1, 2), perm(rng, n)) },
            _ => if rng.chance(1, 2) { Op::Back(rng.below(4)) } else { Op::Clone },
        }
    }).collect()
}
/// Calls `$f` with the kind of range asked for; `$all` is the number of rows there are
macro_rules! ranged {
    ($k:expr, $lo:expr, $hi:expr, $all:expr, $f:expr) => {
        match $k {
            0 => ($f($lo..$hi), $lo, $hi),
            1 if $hi > $lo => ($f($lo..=$hi - 1), $lo, $hi),
            2 => ($f($lo..), $lo, $all),
            3 => ($f(..$hi), 0, $hi),
            4 if $hi > 0 => ($f(..=$hi - 1), 0, $hi),
            5 if $lo > 0 => ($f((std::ops::Bound::Excluded($lo - 1), std::ops::Bound::Excluded($hi))), $lo, $hi),
            _ => ($f(..), 0, $all),
        }
    };
}
fn res(r: Result<(), bellframe::IncompatibleStages>, want: Option<(usize, usize)>, what: &str) -> Result<bool, String> {
    match (r, want) {
        (Ok(()), None) => Ok(true),
        (Err(e), Some((l, r))) => { stage_err(&e, l, r)?; Ok(false) }
        (Ok(()), Some(_)) => Err(format!("{}: mixed stages are accepted", what)),
        (Err(e), None) => Err(format!("{}: unexpected error {}", what, e)),
    }
}
fn first_diff(n: usize, a: usize, b: usize) -> Option<(usize, usize)> { if a != n { Some((n, a)) } else if b != n { Some((n, b)) } else { None } }

fn run(n: usize, start: &[P], ops: &[Op], check: fn(&mut SameStageVec, usize, &[P]) -> R) -> R {
    let mut v = if start.is_empty() { if ops.len() % 2 == 0 { SameStageVec::new(st(n)) } else { SameStageVec::with_capacity(st(n), ops.len() % 5) } } else { SameStageVec::from_row_buf(rb(&start[0])) };
    let mut m: Vec<P> = start.iter().take(1).cloned().collect();
    for r in start.iter().skip(1) { v.push(&rb(r)).map_err(|e| e.to_string())?; m.push(r.clone()); }
    same(&v, n, &m, "at the start")?;
    for (k, op) in ops.iter().enumerate() {
        let what = format!("step {}", k);
        match op {
            Op::Push(p) => { if res(v.push(&rb(p)), first_diff(n, p.len(), n), &what)? { m.push(p.clone()); } }
            Op::Pop => { let (a, b) = (v.pop(), m.pop()); ck_eq!(a.map(|r| un(&r)), b, "{}: popped row", what); }
            Op::Extend(rs) => {
                let bad = rs.iter().find(|r| r.len() != n).map(|r| (n, r.len()));
                let refs: Vec<RowBuf> = rs.iter().map(|r| rb(r)).collect();
                let ok = if k % 2 == 0 { res(v.extend(refs.iter()), bad, &what)? } else { res(v.extend(refs), bad, &what)? };
                if ok { m.extend(rs.iter().cloned()); }
            }
            Op::ExtBuf(o, rs) => {
                let b = svec(*o, rs);
                let mut w = v.clone();
                if res(v.extend_from_buf(&b), first_diff(n, *o, n), &what)? {
                    m.extend(rs.iter().cloned());
                    res(w.extend(b.iter().map(|r| r.to_owned())), None, &what)?;
                    same(&w, n, &m, "extending by iteration")?;
                    ck_eq!(w, v, "{}: extending by iteration", what);
                }
            }
            Op::Split(i) => {
                let w = v.clone();
                match (v.split(*i), *i <= m.len()) {
                    (None, false) => v = w,
                    (Some((a, b)), true) => {
                        same(&a, n, &m[..*i], "left part")?;
                        same(&b, n, &m[*i..], "right part")?;
                        let mut c = a.clone();
                        c.extend_from_buf(&b).map_err(|e| e.to_string())?;
                        ck_eq!(c, w, "parts put together");
                        if i % 2 == 0 { v = a; m.truncate(*i); } else { v = b; m.drain(..*i); }
                    }
                    (a, b) => return Err(format!("{}: split gives {:?}, index in range: {}", what, a.is_some(), b)),
                }
            }
            Op::Back(j) => { ck_eq!(v.iter().rev().nth(*j).map(un), m.iter().rev().nth(*j).cloned(), "{}: nth from the back", what); ck_eq!(v.iter().nth(*j).map(un), m.get(*j).cloned(), "{}: nth", what); }
            Op::PreMul(t) => {
                let c = v.pre_multiplied(&rb(t));
                let want: Vec<P> = if t.len() == n { m.iter().map(|r| mul(t, r)).collect() } else { vec![] };
                match (c, t.len() == n) { (Ok(c), true) => same(&c, n, &want, "pre_multiplied")?, (Err(_), false) => (), _ => return Err(format!("{}: pre_multiplied", what)) }
                same(&v, n, &m, "pre_multiplied changes its input")?;
                if res(v.pre_multiply(&rb(t)), if t.len() != n { Some((t.len(), n)) } else { None }, &what)? { m = want; }
            }
            Op::ExtT(t, o, rs) => { if res(v.extend_transposed(&rb(t), &svec(*o, rs)), first_diff(n, t.len(), *o), &what)? { m.extend(rs.iter().map(|r| mul(t, r))); } }
            Op::ExtRange(t, o, rs, lo, hi, kind) => {
                let b = svec(*o, rs);
                let t2 = rb(t);
                let (r, lo, hi) = ranged!(*kind, *lo, *hi, rs.len(), |x| v.extend_range_transposed(&t2, &b, R_(x)));
                if res(r, first_diff(n, t.len(), *o), &what)? { m.extend(rs[lo..hi].iter().map(|r| mul(t, r))); }
            }
            Op::ExtWithin(lo, hi, kind, t) => {
                let (lo, hi) = ((*lo).min(m.len()), (*hi).min(m.len()));
                let t2 = rb(t);
                let (r, lo, hi) = ranged!(*kind, lo, hi, m.len(), |x| v.extend_transposed_from_within(R_(x), &t2));
                if res(r, first_diff(n, t.len(), n), &what)? { let add: Vec<P> = m[lo..hi].iter().map(|r| mul(t, r)).collect(); m.extend(add); }
            }
            Op::Set(i, p) => { if let Some(r) = v.get_mut(*i) { ck!(*i < m.len(), "{}: a row outside the vector", what); rb(&inv(p)).inv_into(r).map_err(|e| e.to_string())?; m[*i] = p.clone(); } }
            Op::SetEnd(front, p) => {
                let r = if *front { v.first_mut() } else { v.last_mut() };
                ck_eq!(r.is_some(), !m.is_empty(), "{}: end", what);
                if let Some(r) = r { rb(&inv(p)).inv_into(r).map_err(|e| e.to_string())?; let i = if *front { 0 } else { m.len() - 1 }; m[i] = p.clone(); }
            }
            Op::Clone => { let w = v.clone(); ck_eq!(w, v, "clone"); v = w; }
        }
        same(&v, n, &m, &what)?;
        check(&mut v, n, &m).map_err(|e| format!("{}: {}", what, e))?;
    }
    check(&mut v, n, &m)
}
/// A range as an opaque implementation of RangeBounds
struct R_<T>(T);
impl<T: std::ops::RangeBounds<usize>> std::ops::RangeBounds<usize> for R_<T> {
    fn start_bound(&self) -> std::ops::Bound<&usize> { self.0.start_bound() }
    fn end_bound(&self) -> std::ops::Bound<&usize> { self.0.end_bound() }
}

pub fn c17(cx: &mut Cx) {
    let mut cases: Vec<(usize, Vec<P>, Vec<Op>)> = vec![];
    for n in 1..=4 {
        for len in 0..=4usize {
            let rs: Vec<P> = (0..len).map(|i| { let ps = perms(n); ps[(i * 5 + 3) % ps.len()].clone() }).collect();
            cases.push((n, rs.clone(), vec![Op::Pop, Op::Pop, Op::Push(id(n)), Op::Pop, Op::Pop, Op::Pop]));
            for i in 0..=len + 1 { cases.push((n, rs.clone(), vec![Op::Split(i), Op::Pop, Op::ExtBuf(n, rs.clone())])); cases.push((n, rs.clone(), vec![Op::Set(i, (0..n).rev().collect())])); }
            for i in 0..=len { let mut x = rs.clone(); x.insert(i, id(n + 1)); cases.push((n, rs.clone(), vec![Op::Extend(x.clone()), Op::Push(id(n + 1)), Op::Extend(x), Op::Push(id(n))])); }
        }
    }
    for _ in 0..cx.reps(4000) {
        let n = if cx.rng.chance(4, 5) { cx.rng.range(1, 8) } else { stage(&mut cx.rng) };
        let many = if cx.rng.chance(1, 20) { 70 } else { 5 };
        let s = rows(&mut cx.rng, n, many);
        let ops = script(&mut cx.rng, n);
        cases.push((n, s, ops));
    }
    for (n, s, ops) in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("SameStageVec of {} bells from {:?}, then {:?}", n, s, ops), || run(n, &s, &ops, deep));
    }
    for n in 1..20 { for m in 1..20 { cx.case(true, || format!("no rows of {} and of {} bells", n, m), || { ck_eq!(SameStageVec::new(st(n)) == SameStageVec::new(st(m)), n == m, "equality"); Ok(()) }); } }
    // many more rows
    for (n, k) in [(1usize, 70_000usize), (2, 40_000), (3, 66_000), (1, 300), (2, 1000)] {
        cx.case(true, || format!("{} rows of {} bells", k, n), || {
            let ps = perms(n);
            let m: Vec<P> = (0..k).map(|i| ps[(i * i + i / 3) % ps.len()].clone()).collect();
            let m3: Vec<P> = m.iter().chain(&m).chain(&m[1..]).cloned().collect();
            let rows: Vec<RowBuf> = m.iter().map(|p| rb(p)).collect();
            let mut v = SameStageVec::new(st(n));
            for r in &rows { v.push(r).map_err(|e| e.to_string())?; }
            let w = v.clone();
            v.extend(&rows).map_err(|e| e.to_string())?;
            ck_eq!(v.len(), 2 * k, "len after extend");
            let mut x = w.clone();
            x.extend_from_buf(&w).map_err(|e| e.to_string())?;
            ck!(x == v, "extend_from_buf and extend differ");
            let t = rb(&id(n));
            let mut x = w.clone();
            x.extend_transposed(&t, &w).map_err(|e| e.to_string())?;
            ck!(x == v, "extend_transposed and extend differ");
            x.extend_range_transposed(&t, &w, 1..).map_err(|e| e.to_string())?;
            v.extend_transposed_from_within(k + 1.., &t).map_err(|e| e.to_string())?;
            ck!(x == v, "extend_range_transposed and extend_transposed_from_within differ");
            ck!(v.len() == m3.len() && v.iter().zip(&m3).all(|(r, p)| un(r) == *p), "rows");
            ck!(v.iter().rev().zip(m3.iter().rev()).all(|(r, p)| un(r) == *p), "rows backwards");
            ck!(v.pre_multiplied(&t).map_err(|e| e.to_string())? == v, "pre_multiplied by rounds");
            let path = v.path_of(Bell::from_index(n - 1)).ok_or("no path")?;
            ck!(path.len() == m3.len() && path.iter().zip(&m3).all(|(i, p)| p[*i] == n - 1), "path");
            let (a, b) = v.split(k + 5).ok_or("no split")?;
            ck!(a.len() == k + 5 && b.len() == m3.len() - k - 5, "lengths after split");
            ck!(a.iter().chain(b.iter()).zip(&m3).all(|(r, p)| un(r) == *p), "rows after split");
            let text: Vec<String> = rows.iter().map(|r| r.to_string()).collect();
            ck!(SameStageVec::parse(&text.join("\n")).map_err(|e| e.to_string())? == w, "parse");
            Ok(())
        });
    }
    // parsing
    let mut texts: Vec<String> = ["", "\n", "1", "1\n", "12\n21", "12\r\n21\r\n", "12\n\n21", "12\n123", "123\n12\n12", "21\n12\n11", "2143\n\n", "\n12", "12\n2", "1\n1\n1", "12\n21\n", "12\r21", "12\n21\n2", "é\n1", "12\n2x1", "1 2\n2 1 \n 12"].iter().map(|s| s.to_string()).collect();
    for _ in 0..cx.reps(1500) {
        let n = cx.rng.range(1, 9);
        let k = if cx.rng.chance(1, 15) { cx.rng.range(40, 300) } else { cx.rng.range(1, 6) };
        let odd = if k > 6 { if cx.rng.chance(1, 3) { 0 } else { 4 * k } } else { 1 };
        let mut t = String::new();
        for i in 0..k {
            if odd != 1 {
                // a long text, wrong in one place at most
                let mut p = perm(&mut cx.rng, n);
                if odd > 0 && cx.rng.chance(3, odd) { match cx.rng.below(3) { 0 => p.clear(), 1 => p.push(n), _ => p[0] = n } }
                for b in p { t.push(NAMES.chars().nth(b).unwrap()); }
                if i + 1 < k || cx.rng.chance(1, 3) { t.push('\n'); }
                continue;
            }
            let m = if cx.rng.chance(1, 12) { cx.rng.range(1, 9) } else { n };
            let mut p = perm(&mut cx.rng, m);
            if cx.rng.chance(1, 15) { let j = cx.rng.below(m); p[j] = cx.rng.below(m + 1); }
            if cx.rng.chance(1, 30) { p.clear(); }
            for b in p { t.push(NAMES.chars().nth(b).unwrap()); if cx.rng.chance(1, 30) { t.push_str(cx.rng.pick(&[" ", ".", "é", "o", "\r"])); } }
            if i + 1 < k || cx.rng.chance(1, 3) { t.push_str(cx.rng.pick(&["\n", "\n", "\n", "\r\n"])); }
        }
        texts.push(t);
    }
    for t in texts {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("SameStageVec::parse({:?})", t), || {
            let mut lines: Vec<&str> = t.split('\n').collect();
            if lines.last() == Some(&"") { lines.pop(); }
            if lines.is_empty() { lines.push(""); }
            let mut want: Result<Vec<P>, ParseError> = Ok(vec![]);
            for (i, l) in lines.iter().enumerate() {
                let p: P = l.chars().filter_map(name_index).collect();
                if !is_perm(&p) {
                    want = Err(ParseError::InvalidRow { line_num: i + 1, err: RowBuf::parse(l).err().ok_or("an invalid row is accepted")? });
                    break;
                }
                let w = want.as_mut().unwrap();
                if let Some(f) = w.first() { if f.len() != p.len() { want = Err(ParseError::IncompatibleStages { line_num: i + 1, first_stage: st(f.len()), different_stage: st(p.len()) }); break; } }
                w.push(p);
            }
            match (SameStageVec::parse(&t), want) {
                (Ok(v), Ok(w)) => same(&v, w[0].len(), &w, "parsed"),
                (Err(e), Err(w)) => { ck_eq!(format!("{:?}", e), format!("{:?}", w), "error"); let _ = e.to_string(); Ok(()) }
                (a, b) => Err(format!("got {:?}, expected {:?}", a, b)),
            }
        });
    }
}

pub fn c18(cx: &mut Cx) {
    let mut cases: Vec<(usize, Vec<P>, Vec<Op>)> = vec![];
    for n in 1..=4 {
        let ps = perms(n);
        for (k, t) in ps.iter().enumerate() {
            for len in 0..=3usize {
                let rs: Vec<P> = (0..len).map(|i| ps[(i * 5 + 3 + k) % ps.len()].clone()).collect();
                for lo in 0..=len { for hi in lo..=len { for kind in 0..6 {
                    cases.push((n, rs.clone(), vec![Op::ExtWithin(lo, hi, kind, t.clone()), Op::ExtRange(t.clone(), n, rs.clone(), lo, hi, kind)]));
                } } }
                cases.push((n, rs.clone(), vec![Op::PreMul(t.clone()), Op::ExtT(t.clone(), n, rs.clone()), Op::PreMul(id(n + 1)), Op::ExtT(id(n + 1), n, rs.clone()), Op::ExtT(t.clone(), n + 1, vec![id(n + 1)]), Op::ExtWithin(0, len, 0, id(n + 1))]));
            }
        }
    }
    for _ in 0..cx.reps(4000) {
        let n = if cx.rng.chance(4, 5) { cx.rng.range(1, 8) } else { stage(&mut cx.rng) };
        let many = if cx.rng.chance(1, 20) { 70 } else { 6 };
        let s = rows(&mut cx.rng, n, many);
        let mut ops = script(&mut cx.rng, n);
        ops.retain(|o| matches!(o, Op::PreMul(_) | Op::ExtT(..) | Op::ExtRange(..) | Op::ExtWithin(..) | Op::Push(_)));
        cases.push((n, s, ops));
    }
    for (n, s, ops) in cases {
        if cx.out_of_time() { break; }
        cx.case(!ops.is_empty(), || format!("SameStageVec of {} bells from {:?}, then {:?}", n, s, ops), || run(n, &s, &ops, |v, n, m| {
            for b in 0..n + 2 {
                let want = if b < n { Some(m.iter().map(|r| r.iter().position(|x| *x == b).unwrap()).collect::<Vec<_>>()) } else { None };
                ck_eq!(v.path_of(Bell::from_index(b)), want, "path of bell {}", b);
            }
            Ok(())
        }));
    }
}

pub fn c24(cx: &mut Cx) {
    let mut cases: Vec<P> = vec![];
    for n in 1..=6 { cases.extend(perms(n)); }
    for n in 1..=5 { cases.extend(seqs(4, n)); }
    for _ in 0..cx.reps(4000) {
        let n = stage(&mut cx.rng);
        let mut p = perm(&mut cx.rng, n);
        if cx.rng.chance(1, 2) {
            // a run of some length, then the rest
            let k = cx.rng.range(1, n);
            let mut cur = cx.rng.range(n, 2 * n);
            p.truncate(n - k);
            let mut run = vec![];
            let dir = cx.rng.below(3);
            for _ in 0..k { run.push(cur); cur = match dir { 0 => cur + 1, 1 => cur.saturating_sub(1), _ => if cx.rng.chance(1, 2) { cur + 1 } else { cur.saturating_sub(1) } }; }
            run.extend(p);
            p = run;
        }
        if cx.rng.chance(1, 10) { let i = cx.rng.below(p.len()); p[i] = *cx.rng.pick(&[usize::MAX / 2, usize::MAX / 2 - 1, 0, 255, 256]); }
        cases.push(p);
    }
    for p in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("run_len of the bells {:?}", p), || {
            let mut k = 1;
            while k < p.len() && (p[k] == p[k - 1] + 1 || p[k - 1] == p[k] + 1) { k += 1; }
            ck_eq!(bellframe::run_len(bells(&p)), k, "run_len");
            ck_eq!(bellframe::run_len(bells(&p).iter().copied()), k, "run_len of an iterator");
            Ok(())
        });
    }
}
