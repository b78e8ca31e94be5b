//! Annotated blocks (C19) and repeating them (C20)
use crate::gen::*;
use crate::p_row::{row_is, stage_err};
use crate::p_vec::svec;
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::{AnnotBlock, Bell, RowBuf};
use std::ops::{Bound, RangeBounds};

struct Any(Bound<usize>, Bound<usize>);
impl RangeBounds<usize> for Any {
    fn start_bound(&self) -> Bound<&usize> { self.0.as_ref() }
    fn end_bound(&self) -> Bound<&usize> { self.1.as_ref() }
}
type B = AnnotBlock<String>;
/// The model: rows and annotations
#[derive(Debug, Clone, PartialEq)]
struct M { n: usize, rows: Vec<P>, an: Vec<String> }
fn make(m: &M) -> B { AnnotBlock::with_annots_from_indices(svec(m.n, &m.rows), |i| m.an[i].clone()).unwrap() }
fn same(b: &B, m: &M, what: &str) -> R {
    ck_eq!(b.stage(), st(m.n), "{}: stage", what);
    ck_eq!(b.len(), m.an.len(), "{}: length", what);
    ck_eq!(b.is_empty(), m.an.is_empty(), "{}: is_empty", what);
    let rows: Vec<P> = b.all_rows().map(un).collect();
    ck_eq!(rows, m.rows, "{}: all rows", what);
    ck_eq!(b.annots().cloned().collect::<Vec<_>>(), m.an, "{}: annotations", what);
    Ok(())
}
fn deep(b: &mut B, m: &M) -> R {
    let k = m.an.len();
    ck_eq!(b.rows().map(un).collect::<Vec<_>>(), m.rows[..k].to_vec(), "rows");
    ck_eq!(b.rows().rev().map(un).collect::<Vec<_>>(), m.rows[..k].iter().rev().cloned().collect::<Vec<_>>(), "rows backwards");
    for (x, y) in b.annot_rows().zip(b.annot_rows().skip(1)) { ck_eq!(x == y, x.row() == y.row() && x.annot() == y.annot(), "equality of annotated rows"); ck!(x == x.clone(), "an annotated row differs from its copy"); }
    ck_eq!(b.annot_rows().map(|r| (un(r.row()), r.annot().clone())).collect::<Vec<_>>(), m.rows.iter().cloned().zip(m.an.iter().cloned()).collect::<Vec<_>>(), "annotated rows");
    for i in 0..k + 3 {
        ck_eq!(b.get_row(i).map(un), m.rows.get(i).cloned(), "get_row({})", i);
        ck_eq!(b.get_annot(i).cloned(), m.an.get(i).cloned(), "get_annot({})", i);
        ck_eq!(b.get_annot_mut(i).map(|a| a.clone()), m.an.get(i).cloned(), "get_annot_mut({})", i);
        ck_eq!(b.get_annot_row(i).map(|r| (un(r.row()), r.annot().clone())), m.an.get(i).map(|a| (m.rows[i].clone(), a.clone())), "get_annot_row({})", i);
    }
    for i in [usize::MAX, usize::MAX / 2, 1 << 63] { ck!(b.get_row(i).is_none() && b.get_annot(i).is_none() && b.get_annot_row(i).is_none(), "row {} exists", i); }
    row_is(b.first_row(), &m.rows[0], "first_row")?;
    ck_eq!(b.first_annot_row().map(|r| (un(r.row()), r.annot().clone())), m.an.first().map(|a| (m.rows[0].clone(), a.clone())), "first_annot_row");
    row_is(b.leftover_row(), &m.rows[k], "leftover_row")?;
    ck_eq!(b.row_vec().iter().map(un).collect::<Vec<_>>(), m.rows, "row_vec");
    ck_eq!(b.clone().into_row_vec().iter().map(un).collect::<Vec<_>>(), m.rows, "into_row_vec");
    let eff = m.rows.iter().map(|r| r.iter().enumerate().filter(|(i, x)| i != *x).map(|(i, _)| i + 1).max().unwrap_or(1)).max().unwrap();
    ck_eq!(b.effective_stage().num_bells(), eff, "effective stage");
    for x in [0, m.n / 2, m.n - 1, m.n, m.n + 1, usize::MAX] {
        let path: Option<Vec<usize>> = if x < m.n { Some(m.rows.iter().map(|r| r.iter().position(|y| *y == x).unwrap()).collect()) } else { None };
        ck_eq!(b.full_path_of(Bell::from_index(x)), path, "full path of bell {}", x);
        ck_eq!(b.path_of(Bell::from_index(x)), path.map(|mut p| { let l = p.pop().unwrap(); (p, l) }), "path of bell {}", x);
    }
    let c = b.clone().map_annots(|s| s + "!");
    ck_eq!(c.all_rows().map(un).collect::<Vec<_>>(), m.rows, "rows after mapping annotations");
    ck_eq!(c.annots().cloned().collect::<Vec<_>>(), m.an.iter().map(|s| s.clone() + "!").collect::<Vec<_>>(), "mapped annotations");
    let c = b.clone().map_annots_with_index(|i, s| format!("{}{}", i, s));
    ck_eq!(c.all_rows().map(un).collect::<Vec<_>>(), m.rows, "rows after mapping annotations with index");
    ck_eq!(c.annots().cloned().collect::<Vec<_>>(), m.an.iter().enumerate().map(|(i, s)| format!("{}{}", i, s)).collect::<Vec<_>>(), "mapped annotations with index");
    let c = b.clone_map_annots_with_index(|i, s| (i, s.clone()));
    ck_eq!(c.all_rows().map(un).collect::<Vec<_>>(), m.rows, "rows after clone-mapping");
    ck_eq!(c.annots().cloned().collect::<Vec<_>>(), m.an.iter().cloned().enumerate().collect::<Vec<_>>(), "clone-mapped annotations");
    Ok(())
}
fn solve_xa(a: &[usize], b: &[usize]) -> P { mul(b, &inv(a)) }
#[derive(Debug, Clone)]
enum Op { Extend(M), Range(M, Bound<usize>, Bound<usize>), Within(Bound<usize>, Bound<usize>), Pre(P), Split(usize), SetAnnot(usize, String), Clone }
fn lims(lo: &Bound<usize>, hi: &Bound<usize>, n: usize) -> (usize, usize) {
    (match lo { Bound::Included(x) => *x, Bound::Excluded(x) => x + 1, Bound::Unbounded => 0 }, match hi { Bound::Included(x) => x + 1, Bound::Excluded(x) => *x, Bound::Unbounded => n })
}
fn bounds(rng: &mut Rng, n: usize) -> (Bound<usize>, Bound<usize>) {
    let (a, b) = (rng.below(n + 1), rng.below(n + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    (match rng.below(4) { 0 => Bound::Unbounded, 1 if lo > 0 => Bound::Excluded(lo - 1), _ => Bound::Included(lo) }, match rng.below(4) { 0 => Bound::Unbounded, 1 if hi > 0 => Bound::Included(hi - 1), _ => Bound::Excluded(hi) })
}
fn model(rng: &mut Rng, n: usize, max: usize, tag: &str) -> M {
    let k = rng.below(max + 1);
    // sometimes most rows only move the first bells
    let calm = if rng.chance(1, 3) { rng.range(1, n) } else { n };
    M { n, rows: (0..k + 1).map(|_| { let m = if rng.chance(1, 20) { n } else { calm }; let mut p = perm(rng, m); p.extend(m..n); p }).collect(), an: (0..k).map(|i| format!("{}{}", tag, i)).collect() }
}
fn run(m0: &M, ops: &[Op]) -> R {
    let mut m = m0.clone();
    let mut b = make(&m);
    same(&b, &m, "at the start")?;
    deep(&mut b, &m)?;
    for (k, op) in ops.iter().enumerate() {
        let what = format!("step {}", k);
        match op {
            Op::Extend(o) | Op::Range(o, _, _) => {
                let ob = make(o);
                let (lo, hi, r) = match op {
                    Op::Range(_, l, h) => { let (a, c) = lims(l, h, o.an.len()); (a, c, b.extend_range(&ob, Any(*l, *h))) }
                    _ => (0, o.an.len(), b.extend(&ob)),
                };
                match (r, o.n == m.n) {
                    (Ok(()), true) => {
                        let t = solve_xa(&o.rows[lo], m.rows.last().unwrap());
                        m.rows.extend(o.rows[lo + 1..hi + 1].iter().map(|r| mul(&t, r)));
                        m.an.extend(o.an[lo..hi].iter().cloned());
                    }
                    (Err(e), false) => stage_err(&e, m.n, o.n)?,
                    (r, _) => return Err(format!("{}: extending gives {:?}", what, r)),
                }
            }
            Op::Within(l, h) => {
                let (lo, hi) = lims(l, h, m.an.len());
                if lo > hi || hi > m.an.len() { continue; }
                match (l, h) {
                    (Bound::Included(a), Bound::Excluded(c)) => b.extend_from_within(*a..*c),
                    (Bound::Included(a), Bound::Included(c)) => b.extend_from_within(*a..=*c),
                    (Bound::Included(a), Bound::Unbounded) => b.extend_from_within(*a..),
                    (Bound::Unbounded, Bound::Excluded(c)) => b.extend_from_within(..*c),
                    (Bound::Unbounded, Bound::Included(c)) => b.extend_from_within(..=*c),
                    (Bound::Unbounded, Bound::Unbounded) => b.extend_from_within(..),
                    x => b.extend_from_within((x.0.clone(), x.1.clone())),
                }
                let t = solve_xa(&m.rows[lo], m.rows.last().unwrap());
                let add: Vec<P> = m.rows[lo + 1..hi + 1].iter().map(|r| mul(&t, r)).collect();
                m.rows.extend(add);
                let add: Vec<String> = m.an[lo..hi].to_vec();
                m.an.extend(add);
            }
            Op::Pre(t) => match (b.pre_multiply(&rb(t)), t.len() == m.n) {
                (Ok(()), true) => for r in m.rows.iter_mut() { *r = mul(t, r); },
                (Err(e), false) => stage_err(&e, t.len(), m.n)?,
                (r, _) => return Err(format!("{}: pre_multiply gives {:?}", what, r)),
            },
            Op::Split(i) => match (b.clone().split(*i), *i <= m.an.len()) {
                (None, false) => (),
                (Some((x, y)), true) => {
                    let l = M { n: m.n, rows: m.rows[..*i + 1].to_vec(), an: m.an[..*i].to_vec() };
                    let r = M { n: m.n, rows: m.rows[*i..].to_vec(), an: m.an[*i..].to_vec() };
                    same(&x, &l, "first part")?;
                    same(&y, &r, "second part")?;
                    let mut z = x.clone();
                    z.extend(&y).map_err(|e| e.to_string())?;
                    ck!(z == b, "{}: the parts put together differ from the whole", what);
                    if i % 2 == 0 { b = x; m = l } else { b = y; m = r }
                }
                (r, _) => return Err(format!("{}: split gives {:?}", what, r.is_some())),
            },
            Op::SetAnnot(i, s) => if let Some(a) = b.get_annot_mut(*i) { ck!(*i < m.an.len(), "{}: annotation {} exists", what, i); *a = s.clone(); m.an[*i] = s.clone(); },
            Op::Clone => { let c = b.clone(); ck!(c == b, "clone differs"); b = c; }
        }
        same(&b, &m, &what)?;
        deep(&mut b, &m).map_err(|e| format!("{}: {}", what, e))?;
    }
    Ok(())
}

pub fn c19(cx: &mut Cx) {
    let mut cases: Vec<(M, Vec<Op>)> = vec![];
    for n in 1..=4 {
        let ps = perms(n);
        for k in 0..=3usize {
            let m = M { n, rows: (0..=k).map(|i| ps[(i * 7 + 3) % ps.len()].clone()).collect(), an: (0..k).map(|i| format!("a{}", i)).collect() };
            for j in 0..=3usize {
                let o = M { n, rows: (0..=j).map(|i| ps[(i * 5 + 1) % ps.len()].clone()).collect(), an: (0..j).map(|i| format!("b{}", i)).collect() };
                cases.push((m.clone(), vec![Op::Extend(o.clone()), Op::Split(k)]));
                for lo in 0..=j { for hi in lo..=j {
                    cases.push((m.clone(), vec![Op::Range(o.clone(), Bound::Included(lo), Bound::Excluded(hi)), Op::Within(Bound::Included(lo.min(k)), Bound::Excluded(hi.min(k)))]));
                    if hi > 0 && lo < hi { cases.push((m.clone(), vec![Op::Range(o.clone(), Bound::Included(lo), Bound::Included(hi - 1))])); }
                    cases.push((m.clone(), vec![Op::Range(o.clone(), Bound::Included(lo), Bound::Unbounded), Op::Range(o.clone(), Bound::Unbounded, Bound::Excluded(hi))]));
                } }
            }
            for i in 0..=k + 2 { cases.push((m.clone(), vec![Op::Split(i)])); }
            cases.push((m.clone(), vec![Op::Split(usize::MAX), Op::Split(usize::MAX / n), Op::Split((usize::MAX / n).saturating_add(1))]));
            cases.push((m.clone(), vec![Op::Extend(M { n: n + 1, rows: vec![id(n + 1), id(n + 1)], an: vec!["x".into()] }), Op::Range(M { n: n + 1, rows: vec![id(n + 1), id(n + 1)], an: vec!["x".into()] }, Bound::Included(1), Bound::Unbounded), Op::Pre(id(n + 1))]));
        }
    }
    for _ in 0..cx.reps(3000) {
        let n = if cx.rng.chance(4, 5) { cx.rng.range(1, 8) } else { stage(&mut cx.rng) };
        let many = if cx.rng.chance(1, 20) { 70 } else { 6 };
        let m = model(&mut cx.rng, n, many, "a");
        let k = cx.rng.range(1, 6);
        let ops = (0..k).map(|j| {
            let o = if cx.rng.chance(1, 8) { n + 1 } else { n };
            match cx.rng.below(9) {
                0 => Op::Extend(model(&mut cx.rng, o, 6, &format!("b{}-", j))),
                1..=2 => { let x = model(&mut cx.rng, o, 6, &format!("b{}-", j)); let (l, h) = bounds(&mut cx.rng, x.an.len()); Op::Range(x, l, h) }
                3..=4 => { let b = cx.rng.below(7); let (l, h) = bounds(&mut cx.rng, b); Op::Within(l, h) }
                5 => Op::Pre(perm(&mut cx.rng, o)),
                6 => Op::Split(cx.rng.below(9)),
                7 => Op::SetAnnot(cx.rng.below(8), format!("s{}", j)),
                _ => Op::Clone,
            }
        }).collect();
        cases.push((m, ops));
    }
    for (m, ops) in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("{:?}, then {:?}", m, ops), || run(&m, &ops));
    }
    for n in [1, 2, 3, 8, 33, 34, 100] {
        cx.case(true, || format!("AnnotBlock::empty on {} bells", n), || {
            same(&B::empty(st(n)), &M { n, rows: vec![id(n)], an: vec![] }, "empty")?;
            ck!(B::with_annots_from_indices(svec(n, &[]), |_| String::new()).is_none(), "a block of no rows");
            let rows: Vec<P> = (0..4).map(|k| (0..n).map(|i| (i + k) % n).collect()).collect();
            same(&B::with_default_annots(svec(n, &rows)), &M { n, rows, an: vec![String::new(); 3] }, "with_default_annots")?;
            Ok(())
        });
    }
    let mut texts: Vec<String> = ["", "1", "1\n1", "12\n21\n12", "12\n21\n123", "12\n11", "12\n\n", "21\n", "1234\n2143\n2413\n4231"].iter().map(|s| s.to_string()).collect();
    for _ in 0..cx.reps(200) {
        let n = cx.rng.range(1, 9);
        let k = cx.rng.range(1, 5);
        let noisy = cx.rng.chance(1, 2);
        texts.push((0..k).map(|_| {
            let m = if cx.rng.chance(1, 12) { cx.rng.range(1, 9) } else { n };
            let p = perm(&mut cx.rng, m);
            p.iter().map(|i| format!("{}{}", if noisy && cx.rng.chance(1, 3) { *cx.rng.pick(&["é", " ", "€", "x", "🦀", ".", "\u{85}", "-"]) } else { "" }, &NAMES[*i..*i + 1])).collect::<String>()
        }).collect::<Vec<_>>().join("\n"));
    }
    for t in texts {
        cx.case(true, || format!("AnnotBlock::parse({:?})", t), || {
            let rows: Vec<P> = t.lines().map(|l| l.chars().filter_map(name_index).collect()).collect();
            let good = !rows.is_empty() && rows.iter().all(|r: &P| is_perm(r) && r.len() == rows[0].len());
            match B::parse(&t) {
                Ok(b) => { ck!(good, "accepted"); same(&b, &M { n: rows[0].len(), an: vec![String::new(); rows.len() - 1], rows }, "parsed") }
                Err(e) => { let _ = e.to_string(); ck!(!good, "rejected: {}", e); Ok(()) }
            }
        });
    }
}

pub fn c20(cx: &mut Cx) {
    let mut cases: Vec<(M, P)> = vec![];
    for n in 1..=4 {
        let ps = perms(n);
        for k in 0..=3usize {
            for (j, p) in ps.iter().enumerate() {
                let m = M { n, rows: (0..=k).map(|i| ps[(i * 7 + 3 + j) % ps.len()].clone()).collect(), an: (0..k).map(|i| format!("a{}", i)).collect() };
                cases.push((m.clone(), p.clone()));
                if j == 0 { cases.push((m, id(n + 1))); }
            }
        }
    }
    for _ in 0..cx.reps(3000) {
        let n = if cx.rng.chance(4, 5) { cx.rng.range(1, 8) } else { stage(&mut cx.rng) };
        let many = if cx.rng.chance(1, 20) { 70 } else { 7 };
        let m = model(&mut cx.rng, n, many, "a");
        let o = if cx.rng.chance(1, 15) { n + 1 } else { n };
        let p = perm(&mut cx.rng, o);
        cases.push((m, p));
    }
    for (m, p) in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("{:?} repeated from {:?}", m, p), || {
            let b = make(&m);
            let mut it = match (b.repeat_iter(rb(&p)), p.len() == m.n) {
                (Ok(it), true) => it,
                (Err(e), false) => return stage_err(&e, p.len(), m.n),
                (r, _) => return Err(format!("repeat_iter gives {:?}", r.is_ok())),
            };
            let k = m.an.len();
            let mut it2 = it.clone();
            let mut it3 = it.clone();
            let mut out = RowBuf::rounds(st(if k % 2 == 0 { m.n } else { m.n + 1 }));
            if k == 0 {
                for _ in 0..3 { ck!(it.next().is_none(), "an empty block yields a row"); ck!(it2.next_into(&mut out).is_none(), "an empty block yields a row into a buffer"); }
                return Ok(());
            }
            let mut head = p.clone();
            for pass in 0..4 {
                for i in 0..k {
                    let want = mul(&head, &m.rows[i]);
                    let what = format!("pass {}, row {}", pass, i);
                    let (r, j, a) = it.next().ok_or(format!("{}: nothing", what))?;
                    row_is(&r, &want, &what)?;
                    ck_eq!(j, i, "{}: index", what);
                    ck_eq!(a, &m.an[i], "{}: annotation", what);
                    let (j, a) = it2.next_into(&mut out).ok_or(format!("{}: nothing into a buffer", what))?;
                    row_is(&out, &want, &format!("{} into a buffer", what))?;
                    ck_eq!((j, a), (i, &m.an[i]), "{}: index and annotation with the buffer", what);
                    // the two ways of going on can be mixed
                    if (pass + i) % 2 == 0 { let (r, j, _) = it3.next().ok_or("nothing")?; row_is(&r, &want, &what)?; ck_eq!(j, i, "index"); } else { it3.next_into(&mut out).ok_or("nothing")?; row_is(&out, &want, &what)?; }
                }
                head = mul(&head, &m.rows[k]);
            }
            // skipping rows
            let at = |j: usize| mul(&mul(&p, &pow(&m.rows[k], j / k)), &m.rows[j % k]);
            for j in [0, 1, k - 1, k, k + 1, 2 * k, 3 * k + k / 2] {
                let mut it = b.repeat_iter(rb(&p)).map_err(|e| e.to_string())?;
                let _ = it.nth(j);
                let (r, i, _) = it.nth(1).ok_or("nothing")?;
                row_is(&r, &at(j + 2), &format!("two rows after row {}", j))?;
                ck_eq!(i, (j + 2) % k, "index two rows after row {}", j);
                let (r, i, a) = b.repeat_iter(rb(&p)).map_err(|e| e.to_string())?.nth(j).ok_or("nothing")?;
                row_is(&r, &at(j), &format!("row {} at once", j))?;
                ck_eq!((i, a), (j % k, &m.an[j % k]), "index and annotation of row {} at once", j);
                let two: Vec<(P, usize)> = b.repeat_iter(rb(&p)).map_err(|e| e.to_string())?.skip(j).step_by(2).take(2).map(|(r, i, _)| (un(&r), i)).collect();
                ck_eq!(two, vec![(at(j), j % k), (at(j + 2), (j + 2) % k)], "rows {} and {}", j, j + 2);
            }
            Ok(())
        });
    }
}
