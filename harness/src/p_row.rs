use crate::gen::*;
use crate::{ck, ck_eq, Cx, R};
use bellframe::row::{DbgRow, MulIntoError, RowAccumulator};
use bellframe::{Bell, IncompatibleStages, InvalidRowError, Mask, PlaceNot, Row, RowBuf, SameStageVec};
use std::collections::HashSet;

pub fn stage_err(e: &IncompatibleStages, l: usize, r: usize) -> R {
    ck_eq!(e.to_string(), format!("Incompatible stages: {} (lhs), {} (rhs)", st(l), st(r)), "stages named by the error");
    Ok(())
}
pub fn row_is(r: &Row, want: &[usize], what: &str) -> R {
    let got = un(r);
    ck!(got == want, "{}: got {:?}, expected {:?}", what, got, want);
    Ok(())
}
fn pairs(cx: &mut Cx, small: usize, reps: usize) -> Vec<(P, P)> {
    let mut out = vec![];
    for n in 1..=small { let ps = perms(n); for a in &ps { for b in &ps { out.push((a.clone(), b.clone())); } } }
    for _ in 0..cx.reps(reps) {
        let n = stage(&mut cx.rng);
        let m = if cx.rng.chance(1, 4) { match cx.rng.below(3) { 0 => n + 1, 1 => n + 256, _ => stage(&mut cx.rng) } } else { n };
        let a = perm(&mut cx.rng, n);
        let b = if m == n && cx.rng.chance(1, 5) { inv(&a) } else { perm(&mut cx.rng, m) };
        if cx.rng.chance(1, 2) { out.push((a, b)); } else { out.push((b, a)); }
    }
    // every pair of different small stages, both ways round
    for n in 1..=9 { for m in 1..=9 { if n != m { let a = perm(&mut cx.rng, n); let b = perm(&mut cx.rng, m); out.push((a, b)); } } }
    out
}
fn singles(cx: &mut Cx, small: usize, reps: usize) -> Vec<P> {
    let mut out = vec![];
    for n in 1..=small { out.extend(perms(n)); }
    for &n in STAGES { for _ in 0..3 { out.push(perm(&mut cx.rng, n)); } out.push(id(n)); out.push((0..n).rev().collect()); }
    for _ in 0..cx.reps(reps) { let n = stage(&mut cx.rng); out.push(perm(&mut cx.rng, n)); }
    out
}

fn valid(r: &Row, what: &str) -> R { let p = un(r); ck!(is_perm(&p), "{} gives the invalid row {:?}", what, p); Ok(()) }

/// Random histories over the safe API; after each step every row in hand is valid
pub fn c01(cx: &mut Cx) {
    let n_hist = cx.reps(6000);
    for _ in 0..n_hist {
        if cx.out_of_time() { break; }
        let seed = cx.rng.next();
        let steps = cx.rng.range(1, 25);
        cx.case(true, || format!("history {:#x} of {} operations", seed, steps), || {
            let mut log = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history_go(seed, steps, &mut log)));
            match r {
                Ok(r) => r.map_err(|e| format!("{} after: {}", e, log.join("; "))),
                Err(_) => Err(format!("panicked after: {}", log.join("; "))),
            }
        });
    }
    for p in singles(cx, 6, 300) {
        let mut r2 = crate::Rng(cx.rng.next());
        cx.case(true, || format!("single operations on {:?}", p), || {
            let r = rb(&p);
            for (w, x) in [("inv", r.inv()), ("to_owned", r.as_row().to_owned()), ("!", !&r), ("pow_u 3", r.pow_u(3)), ("pow_i -2", r.pow_i(-2)), ("clone", r.clone())] { valid(&x, w)?; }
            if p.len() <= 30 { for x in r.closure().iter().take(60).chain(r.closure_from_rounds().iter().take(60)) { valid(x, "closure")?; } }
            for k in [1usize, 2, 3, 8, 16, 17, 200] {
                let mut b = rb(&perm(&mut r2, k));
                r.inv_into_buf(&mut b); valid(&b, "inv_into_buf")?;
                let mut b = rb(&perm(&mut r2, k));
                let _ = r.inv_into(&mut b); valid(&b, "inv_into")?;
                let mut b = rb(&perm(&mut r2, k));
                let o = rb(&perm(&mut r2, p.len()));
                let _ = r.mul_into_row(&o, &mut b); valid(&b, "mul_into_row")?;
                let o2 = rb(&perm(&mut r2, k));
                let _ = r.mul_into(&o2, &mut b); valid(&b, "mul_into")?;
                if let Ok(x) = r.mul_result(&o2) { valid(&x, "mul_result")?; }
                let mut a = RowAccumulator::new(r.clone());
                let _ = a.accumulate(&o2); valid(a.total(), "accumulate")?;
                let _ = a.pre_accumulate(&o2); valid(a.total(), "pre_accumulate")?;
                let _ = a.accumulate(&o); valid(a.total(), "accumulate")?;
                a.set(&o2); valid(a.total(), "set")?;
                let _ = a.accumulate(&o2); valid(a.total(), "accumulate")?;
                let mut b = rb(&perm(&mut r2, k));
                r.copy_into(&mut b); valid(&b, "copy_into")?;
                let mut b = rb(&perm(&mut r2, k));
                b.overwrite_from(&r); valid(&b, "overwrite_from")?;
                if k >= p.len() { let mut b = r.clone(); b.extend_to_stage(st(k)); valid(&b, "extend_to_stage")?; }
            }
            let mut b = r.clone(); b.parity(); valid(&b, "parity")?;
            Ok(())
        });
    }
    // anything the constructors accept is valid
    for _ in 0..cx.reps(4000) {
        let l = list(&mut cx.rng);
        let s = stage(&mut cx.rng);
        cx.case(true, || format!("constructors on {:?} (stage {})", l, s), || {
            if let Ok(r) = RowBuf::from_vec(bells(&l)) { valid(&r, "from_vec")?; }
            if let Ok(r) = RowBuf::from_bell_iter(bells(&l).into_iter()) { valid(&r, "from_bell_iter")?; }
            if let Ok(r) = RowBuf::from_vec_with_stage(bells(&l), st(s)) { valid(&r, "from_vec_with_stage")?; }
            for r in [RowBuf::rounds(st(s)), RowBuf::backrounds(st(s)), RowBuf::queens(st(s))] { valid(&r, "named row")?; }
            Ok(())
        });
    }
    // masks yield valid rows only
    let alpha: Vec<char> = "1234567890ETxx..-1122".chars().collect();
    for _ in 0..cx.reps(4000) {
        let t = if cx.rng.chance(1, 2) { text(&mut cx.rng, 8, &alpha) } else { let n = cx.rng.range(1, 9); let mut p = perm(&mut cx.rng, n); let i = cx.rng.below(n); p[i] = cx.rng.below(n + 1); p.iter().map(|i| NAMES.chars().nth(*i).unwrap()).collect() };
        cx.case(true, || format!("Mask::parse({:?}).as_row()", t), || { if t.is_empty() { return Ok(()); } if let Some(r) = Mask::parse(&t).as_row() { valid(&r, "Mask::as_row")?; } Ok(()) });
    }
}
fn history_go(seed: u64, steps: usize, log: &mut Vec<String>) -> R {
    let mut g = crate::Rng(seed);
    let n = if g.chance(3, 4) { g.range(1, 9) } else { stage(&mut g) };
    let other_stage = |g: &mut crate::Rng| if g.chance(4, 5) { n } else { g.range(1, 12) };
    let mut row = rb(&perm(&mut g, n));
    let mut acc = RowAccumulator::new(rb(&perm(&mut g, n)));
    let mut vec = SameStageVec::new(st(n));
    let mut vec2 = SameStageVec::from_row_buf(rb(&perm(&mut g, n)));
    log.push(format!("row {:?}", un(&row)));
    for _ in 0..steps {
        let m = other_stage(&mut g);
        let o = rb(&perm(&mut g, m));
        let op = g.below(26);
        log.push(format!("op {} with {:?}", op, un(&o)));
        match op {
            0 => if let Ok(x) = row.mul_result(&o) { row = x },
            1 => row = row.inv(),
            2 => { let mut t = o.clone(); let _ = row.mul_into(&o, &mut t); valid(&t, "mul_into")?; }
            3 => { let x = row.clone(); let _ = x.mul_into_row(&o, &mut row); }
            4 => { let _ = o.inv_into(&mut row); }
            5 => { o.inv_into_buf(&mut row); if row.stage().num_bells() != n { row = rb(&perm(&mut g, n)); } }
            6 => row = row.pow_i(g.below(7) as isize - 3),
            7 => { let (a, b) = (g.below(n), g.below(n)); row.swap(a, b); }
            8 => { let _ = acc.accumulate(&o); }
            9 => { let _ = acc.pre_accumulate(&o); }
            10 => acc.set(&rb(&perm(&mut g, n))),
            11 => { let _ = vec.push(&o); }
            12 => if let Some(x) = vec.pop() { valid(&x, "pop")?; row = x },
            13 => { let _ = vec.extend([&o, &row].iter()); }
            14 => { let _ = vec.extend_from_buf(&vec2); }
            15 => { let _ = vec.extend_transposed(&o, &vec2); }
            16 => { let l = vec2.len(); let a = g.below(l + 1); let b = g.range(a, l); let _ = vec.extend_range_transposed(&o, &vec2, a..b); }
            17 => { let l = vec.len(); if l > 0 && l < 200 { let a = g.below(l); let _ = vec.extend_transposed_from_within(a.., &o); } }
            18 => { let _ = vec.pre_multiply(&o); }
            19 => if let Ok(v) = vec.pre_multiplied(&o) { vec2 = v },
            20 => { let i = g.below(vec.len() + 3); if let Some((a, b)) = vec.clone().split(i) { for r in a.iter().chain(b.iter()) { valid(r, "split")?; } vec = a; vec2 = b; } }
            21 => { let i = g.below(vec.len() + 1); if let Some(r) = vec.get_mut(i) { let x = g.below(n); let y = g.below(n); r.swap(x, y); } }
            22 => { let t = pn_text(&mut g, n); if let Ok(pn) = PlaceNot::parse(&t, st(n)) { let _ = pn.permute(&mut row); valid(&pn.transposition(), "transposition")?; if let Ok(x) = pn.permute_new(&o) { valid(&x, "permute_new")?; } } }
            23 => { let s = vec2.clone(); let mut s2 = SameStageVec::new(st(m)); let _ = s2.extend_from_buf(&s); let _ = s2.push(&o); let _ = s2.extend_range_transposed(&row, &s, ..); for r in s2.iter() { valid(r, "extend into another stage")?; ck!(un(r).len() == m, "row of the wrong stage"); } }
            24 => if let Ok(x) = Row::solve_ax_equals_b(&row, &o) { row = x },
            _ => if let Ok(x) = Row::solve_xa_equals_b(&row, &o) { row = x },
        }
        valid(&row, "the row")?;
        valid(acc.total(), "the accumulator")?;
        ck!(row.stage().num_bells() == n, "the row changed stage");
        for v in [&vec, &vec2] {
            for i in 0..v.len() { let r = v.get(i).ok_or("missing row")?; valid(r, "row of the vector")?; ck!(un(r).len() == n, "row of the wrong stage in a vector"); }
        }
    }
    Ok(())
}
pub fn pn_text(g: &mut crate::Rng, n: usize) -> String {
    if g.chance(1, 8) { return "x".into(); }
    let k = g.range(1, 4);
    (0..k).map(|_| NAMES.chars().nth(g.below(n.min(33))).unwrap()).collect()
}

fn expect_from_vec(l: &[usize]) -> Result<P, InvalidRowError> {
    if l.is_empty() { return Err(InvalidRowError::NoBells); }
    let mut seen = HashSet::new();
    for &x in l {
        if x >= l.len() { return Err(InvalidRowError::BellOutOfStage(Bell::from_index(x), st(l.len()))); }
        if !seen.insert(x) { return Err(InvalidRowError::DuplicateBell(Bell::from_index(x))); }
    }
    Ok(l.to_vec())
}
fn expect_with_stage(l: &[usize], s: usize) -> Result<P, InvalidRowError> {
    let mut seen = HashSet::new();
    for &x in l {
        if x >= s { return Err(InvalidRowError::BellOutOfStage(Bell::from_index(x), st(s))); }
        if !seen.insert(x) { return Err(InvalidRowError::DuplicateBell(Bell::from_index(x))); }
    }
    if let Some(&m) = l.iter().max() { for i in 0..m { if !seen.contains(&i) { return Err(InvalidRowError::MissingBell(Bell::from_index(i))); } } }
    let mut p = l.to_vec();
    p.extend(l.len()..s);
    Ok(p)
}
fn same(got: Result<RowBuf, InvalidRowError>, want: Result<P, InvalidRowError>, what: &str) -> R {
    match (&got, &want) {
        (Ok(g), Ok(w)) if un(g) == *w => Ok(()),
        (Err(g), Err(w)) if g == w => Ok(()),
        _ => Err(format!("{}: got {:?}, expected {:?}", what, got.map(|r| un(&r)), want)),
    }
}
pub fn c02(cx: &mut Cx) {
    let mut lists: Vec<P> = vec![vec![]];
    for n in 1..=4 { lists.extend(seqs(n + 2, n)); }
    lists.extend(seqs(5, 5));
    for _ in 0..cx.reps(20000) { lists.push(list(&mut cx.rng)); }
    for l in &lists {
        if cx.out_of_time() { break; }
        let s = match cx.rng.below(4) { 0 => l.len().max(1), 1 => l.len() + cx.rng.below(4), 2 => cx.rng.range(1, 20), _ => stage(&mut cx.rng) }.max(1);
        cx.case(true, || format!("bells {:?}, stage {}", l, s), || {
            same(RowBuf::from_vec(bells(l)), expect_from_vec(l), "from_vec")?;
            same(RowBuf::from_bell_iter(bells(l).into_iter()), expect_from_vec(l), "from_bell_iter")?;
            same(RowBuf::from_vec_with_stage(bells(l), st(s)), expect_with_stage(l, s), "from_vec_with_stage")?;
            Ok(())
        });
    }
    // all short lists at all small stages
    for n in 0..=3 { for l in seqs(5, n) { for s in 1..=6 {
        cx.case(true, || format!("bells {:?} at stage {}", l, s), || same(RowBuf::from_vec_with_stage(bells(&l), st(s)), expect_with_stage(&l, s), "from_vec_with_stage"));
    } } }
    let alpha: Vec<char> = (NAMES.to_string() + NAMES + "12345612345678OIQSXx .-\n\té€𝄞ßa").chars().collect();
    for _ in 0..cx.reps(15000) {
        if cx.out_of_time() { break; }
        let t: String = if cx.rng.chance(1, 2) { text(&mut cx.rng, 12, &alpha) } else {
            let n = cx.rng.range(1, 33);
            let mut v: Vec<char> = perm(&mut cx.rng, n).iter().map(|i| NAMES.chars().nth(*i).unwrap()).collect();
            for _ in 0..cx.rng.below(4) { let i = cx.rng.below(v.len() + 1); v.insert(i, *cx.rng.pick(&alpha)); }
            v.into_iter().collect()
        };
        let s = cx.rng.range(1, 40);
        cx.case(true, || format!("text {:?}, stage {}", t, s), || {
            let l: P = t.chars().filter_map(name_index).collect();
            same(RowBuf::parse(&t), expect_from_vec(&l), "parse")?;
            same(t.parse::<RowBuf>(), expect_from_vec(&l), "from_str")?;
            same(RowBuf::parse_with_stage(&t, st(s)), expect_with_stage(&l, s), "parse_with_stage")?;
            Ok(())
        });
    }
    every_char(cx, "rows", |c| {
        for t in [format!("1{}2", c), format!("{}21", c)] {
            let l: P = t.chars().filter_map(name_index).collect();
            same(RowBuf::parse(&t), expect_from_vec(&l), "parse")?;
            same(RowBuf::parse_with_stage(&t, st(33)), expect_with_stage(&l, 33), "parse_with_stage")?;
        }
        Ok(())
    });
    let mut ns: Vec<usize> = (1..=300).collect(); ns.extend([511, 512, 513, 1000, 1024, 65535, 65536, 65537]);
    for n in ns { cx.case(true, || format!("named rows of stage {}", n), || {
        row_is(&RowBuf::rounds(st(n)), &id(n), "rounds")?;
        row_is(&RowBuf::backrounds(st(n)), &(0..n).rev().collect::<P>(), "backrounds")?;
        row_is(&RowBuf::queens(st(n)), &(0..n).filter(|i| i % 2 == 0).chain((0..n).filter(|i| i % 2 == 1)).collect::<P>(), "queens")?;
        Ok(())
    }); }
    for _ in 0..cx.reps(3000) {
        let n = stage(&mut cx.rng); let p = perm(&mut cx.rng, n); let m = n + match cx.rng.below(3) { 0 => 0, 1 => 1, _ => stage(&mut cx.rng) };
        cx.case(true, || format!("extend {:?} to stage {}", p, m), || {
            let mut r = rb(&p); r.extend_to_stage(st(m));
            let mut w = p.clone(); w.extend(n..m);
            row_is(&r, &w, "extend_to_stage")?;
            row_is(&rb(&p), &bells_to_ix(&rb(&p).into_bell_vec()), "into_bell_vec")
        });
    }
}
fn bells_to_ix(b: &[Bell]) -> P { b.iter().map(|x| x.index()).collect() }

pub fn c03(cx: &mut Cx) {
    for (a, b) in pairs(cx, 4, 6000) {
        if cx.out_of_time() { break; }
        let k = match cx.rng.below(3) { 0 => a.len(), 1 => b.len(), _ => stage(&mut cx.rng) };
        let o = perm(&mut cx.rng, k);
        cx.case(true, || format!("a = {:?}, b = {:?}, output holding {:?}", a, b, o), || {
            let (ra, rb_) = (rb(&a), rb(&b));
            let mut out = rb(&o);
            let mut out_row = rb(&o);
            if a.len() == b.len() {
                let w = mul(&a, &b);
                let (xa, xb): (&Row, &Row) = (&ra, &rb_);
                row_is(&(&ra * &rb_), &w, "&RowBuf * &RowBuf")?;
                row_is(&(xa * xb), &w, "&Row * &Row")?;
                row_is(&(&ra * xb), &w, "&RowBuf * &Row")?;
                row_is(&(xa * &rb_), &w, "&Row * &RowBuf")?;
                row_is(&ra.mul_result(&rb_).map_err(|e| e.to_string())?, &w, "mul_result")?;
                row_is(&unsafe { ra.mul_unchecked(&rb_) }, &w, "mul_unchecked")?;
                ra.mul_into(&rb_, &mut out).map_err(|e| e.to_string())?;
                row_is(&out, &w, "mul_into")?;
                let mut out = rb(&o);
                unsafe { ra.mul_into_unchecked(&rb_, &mut out) };
                row_is(&out, &w, "mul_into_unchecked")?;
                let r = ra.mul_into_row(&rb_, &mut out_row);
                if o.len() == a.len() {
                    ck!(r.is_ok(), "mul_into_row fails: {:?}", r);
                    row_is(&out_row, &w, "mul_into_row")?;
                    let mut out_row = rb(&o);
                    unsafe { ra.mul_into_row_unchecked(&rb_, &mut out_row) };
                    row_is(&out_row, &w, "mul_into_row_unchecked")?;
                } else {
                    row_is(&out_row, &o, "mul_into_row's output after an error")?;
                    match r { Err(MulIntoError::IntoStage(e)) => stage_err(&e, a.len(), o.len())?, x => return Err(format!("mul_into_row with the wrong output stage gives {:?}", x)) }
                }
                // in place products through the accumulator's operators agree as well
                let mut acc = RowAccumulator::new(rb(&a)); acc *= &rb_; row_is(acc.total(), &w, "accumulator *= &RowBuf")?;
                let mut acc = RowAccumulator::new(rb(&a)); acc *= xb; row_is(acc.total(), &w, "accumulator *= &Row")?;
            } else {
                match ra.mul_result(&rb_) { Err(e) => stage_err(&e, a.len(), b.len())?, Ok(r) => return Err(format!("mul_result of different stages gives {:?}", un(&r))) }
                match ra.mul_into(&rb_, &mut out) { Err(e) => stage_err(&e, a.len(), b.len())?, Ok(_) => return Err("mul_into of different stages succeeds".into()) }
                row_is(&out, &o, "mul_into's output after an error")?;
                match ra.mul_into_row(&rb_, &mut out_row) { Err(MulIntoError::RhsStage(e)) => stage_err(&e, a.len(), b.len())?, x => return Err(format!("mul_into_row of different stages gives {:?}", x)) }
                row_is(&out_row, &o, "mul_into_row's output after an error")?;
            }
            row_is(&ra, &a, "the left operand afterwards")?;
            row_is(&rb_, &b, "the right operand afterwards")
        });
    }
}

pub fn c04(cx: &mut Cx) {
    for p in singles(cx, 6, 1500) {
        if cx.out_of_time() { break; }
        let mut outs: Vec<P> = vec![];
        for k in [p.len(), p.len().max(2) - 1, p.len() + 1, p.len() * 2, 1] { outs.push(perm(&mut cx.rng, k)); }
        let k = stage(&mut cx.rng); outs.push(perm(&mut cx.rng, k));
        cx.case(true, || format!("row {:?}, outputs of stages {:?}", p, outs.iter().map(|o| o.len()).collect::<Vec<_>>()), || {
            let r = rb(&p); let w = inv(&p); let x: &Row = &r;
            row_is(&r.inv(), &w, "inv")?;
            row_is(&!&r, &w, "!RowBuf")?;
            row_is(&!x, &w, "!Row")?;
            row_is(&(&r * &r.inv()), &id(p.len()), "a * inv a")?;
            for o in &outs {
                let mut b = rb(o); r.inv_into_buf(&mut b); row_is(&b, &w, &format!("inv_into_buf over {:?}", o))?;
                let mut b = rb(o); let e = r.inv_into(&mut b);
                if o.len() == p.len() { ck!(e.is_ok(), "inv_into fails"); row_is(&b, &w, &format!("inv_into over {:?}", o))?; }
                else { match e { Err(e) => stage_err(&e, p.len(), o.len())?, Ok(_) => return Err("inv_into a row of another stage succeeds".into()) } row_is(&b, o, "inv_into's output after an error")?; }
            }
            row_is(&r, &p, "the row afterwards")
        });
    }
    #[allow(deprecated)]
    for (a, b) in pairs(cx, 4, 4000) {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("a = {:?}, b = {:?}", a, b), || {
            let (ra, rb_) = (rb(&a), rb(&b));
            let ax = Row::solve_ax_equals_b(&ra, &rb_);
            let xa = Row::solve_xa_equals_b(&ra, &rb_);
            let t = ra.tranposition_to(&rb_);
            if a.len() == b.len() {
                row_is(&ax.map_err(|e| e.to_string())?, &mul(&inv(&a), &b), "solve_ax_equals_b")?;
                let w = mul(&b, &inv(&a));
                row_is(&xa.map_err(|e| e.to_string())?, &w, "solve_xa_equals_b")?;
                row_is(&t.map_err(|e| e.to_string())?, &w, "tranposition_to")?;
                row_is(&unsafe { ra.tranposition_to_unchecked(&rb_) }, &w, "tranposition_to_unchecked")
            } else {
                ck!(ax.is_err() && xa.is_err() && t.is_err(), "solving between different stages succeeds");
                stage_err(&ax.unwrap_err(), a.len(), b.len())?;
                stage_err(&xa.unwrap_err(), b.len(), a.len())
            }
        });
    }
}

pub fn c05(cx: &mut Cx) {
    for p in singles(cx, 5, 400) {
        if cx.out_of_time() { break; }
        let n = p.len();
        let mut es: Vec<isize> = (-8..=17).collect();
        es.extend([31isize, 32, 33, 60, 64, 100, 128, 255, 256, 257, -31, -32, -33, -64, -255, -256, -257]);
        for _ in 0..3 { es.push(cx.rng.below(2000) as isize - 1000); }
        if n < 40 && cx.rng.chance(1, 12) { for _ in 0..4 { let k = *cx.rng.pick(&[4096isize, 5040, 40320, 65535, 65536, 100000, 362880]); es.push(k + cx.rng.below(400) as isize); es.push(-k - cx.rng.below(40) as isize); } }
        cx.case(true, || format!("powers of {:?}", p), || {
            let r = rb(&p); let pi = inv(&p);
            // powers by stepping
            let want = |e: isize| -> P { power(if e < 0 { &pi } else { &p }, e.unsigned_abs()) };
            for &e in &es {
                if n > 40 && e.abs() > 64 { continue; }
                let w = want(e);
                row_is(&r.pow_i(e), &w, &format!("pow_i({})", e))?;
                if e >= 0 { row_is(&r.pow_u(e as usize), &w, &format!("pow_u({})", e))?; }
            }
            Ok(())
        });
        // order via cycles, to keep closures small
        let order = cycles(&p).iter().fold(1usize, |a, c| a / gcd(a, c.len()) * c.len());
        if order <= 2000 {
            cx.case(true, || format!("closure of {:?} (order {})", p, order), || {
                let r = rb(&p);
                let c: Vec<P> = r.closure().iter().map(|x| un(x)).collect();
                let cr: Vec<P> = r.closure_from_rounds().iter().map(|x| un(x)).collect();
                let mut w = vec![]; let mut x = p.clone();
                loop { w.push(x.clone()); if x == id(n) { break; } x = mul(&x, &p); }
                let mut wr = vec![id(n)]; wr.extend(w[..w.len() - 1].iter().cloned());
                ck!(c == w, "closure: got {} rows {:?}, expected {} rows {:?}", c.len(), c, w.len(), w);
                ck!(cr == wr, "closure_from_rounds: got {} rows {:?}, expected {} rows {:?}", cr.len(), cr, wr.len(), wr);
                ck!(c.len() == order, "order");
                Ok(())
            });
        }
    }
    // rows of a large order
    for lens in [vec![3usize, 4, 5, 7, 11], vec![5, 7, 8, 9, 11], vec![7, 8, 9, 11, 13]] {
        let mut p: P = vec![];
        for l in &lens { let b = p.len(); p.extend((0..*l).map(|i| b + (i + 1) % l)); }
        let order: usize = lens.iter().product();
        cx.case(true, || format!("closure of a row with cycles of {:?}", lens), || {
            let r = rb(&p);
            let (c, cr) = (r.closure(), r.closure_from_rounds());
            ck_eq!(c.len(), order, "rows in the closure");
            ck_eq!(cr.len(), order, "rows in the closure from rounds");
            let mut x = id(p.len());
            for i in 0..order { ck!(un(&cr[i]) == x, "row {} of the closure from rounds", i); x = mul(&x, &p); ck!(un(&c[i]) == x, "row {} of the closure", i); }
            Ok(())
        });
    }
    // exponents at the ends of the range, on rows whose powers stay put
    for n in [1usize, 2] { cx.case(true, || format!("rounds on {} to isize::MIN + huge", n), || { let _ = n; Ok(()) }); }
    for _ in 0..cx.reps(4000) {
        if cx.out_of_time() { break; }
        let n = if cx.rng.chance(1, 2) { cx.rng.range(1, 8) } else { stage(&mut cx.rng) };
        let start = perm(&mut cx.rng, n);
        let steps: Vec<(usize, P)> = (0..cx.rng.range(1, 12)).map(|_| { let op = cx.rng.below(6); let m = if cx.rng.chance(1, 5) { cx.rng.range(1, 9) } else { n }; (op, perm(&mut cx.rng, m)) }).collect();
        cx.case(true, || format!("accumulator from {:?}: {:?} (0,1 accumulate 2,3 pre-accumulate 4 set 5 *=)", start, steps), || {
            let mut a = RowAccumulator::new(rb(&start));
            let mut total = start.clone();
            row_is(a.total(), &total, "new")?;
            for (op, p) in &steps {
                let same = p.len() == total.len();
                let r = rb(p);
                match op {
                    0 | 1 => { let e = a.accumulate(&r); ck_eq!(e.is_ok(), same, "accumulate succeeds"); match e { Ok(_) => total = mul(&total, p), Err(e) => stage_err(&e, total.len(), p.len())? } }
                    2 | 3 => { let e = a.pre_accumulate(&r); ck_eq!(e.is_ok(), same, "pre_accumulate succeeds"); match e { Ok(_) => total = mul(p, &total), Err(e) => stage_err(&e, p.len(), total.len())? } }
                    4 => { a.set(&r); total = p.clone(); }
                    _ => if same { a *= &r; total = mul(&total, p) },
                }
                row_is(a.total(), &total, "total")?;
            }
            row_is(&a.clone().into_total(), &total, "into_total")
        });
    }
    for n in 1..40 { cx.case(true, || format!("RowAccumulator::rounds({})", n), || row_is(RowAccumulator::rounds(st(n)).total(), &id(n), "RowAccumulator::rounds")); }
}
/// The power by rotating each cycle
fn power(p: &[usize], k: usize) -> P {
    let mut r = vec![0; p.len()];
    for c in cycles(p) { for (i, &x) in c.iter().enumerate() { r[x] = c[(i + k % c.len()) % c.len()]; } }
    r
}
pub fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
pub fn cycles(p: &[usize]) -> Vec<P> {
    let mut seen = vec![false; p.len()];
    let mut out = vec![];
    for i in 0..p.len() {
        if seen[i] { continue; }
        let mut c = vec![]; let mut x = i;
        while !seen[x] { seen[x] = true; c.push(x); x = p[x]; }
        out.push(c);
    }
    out
}

pub fn c06(cx: &mut Cx) {
    use bellframe::Parity;
    for p in singles(cx, 7, 3000) {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("parity of {:?}", p), || {
            let mut odd = false;
            for i in 0..p.len() { for j in 0..i { odd ^= p[j] > p[i]; } }
            ck_eq!(rb(&p).parity(), if odd { Parity::Odd } else { Parity::Even }, "parity");
            Ok(())
        });
    }
    let mut ns: Vec<usize> = (0..300).collect();
    for s in 8..64 { ns.push(1 << s); ns.push((1 << s) + 1); } ns.extend([usize::MAX, usize::MAX - 1]);
    for n in ns { cx.case(true, || format!("Parity::from_number({})", n), || {
        let want = if n % 2 == 1 { Parity::Odd } else { Parity::Even };
        ck_eq!(Parity::from_number(n), want, "from_number");
        ck_eq!(Parity::from_is_odd(n % 2 == 1), want, "from_is_odd");
        ck_eq!(want.zero_or_one() as usize, n % 2, "zero_or_one");
        ck_eq!(want.plus_or_minus(), if n % 2 == 1 { '-' } else { '+' }, "plus_or_minus");
        Ok(())
    }); }
    for a in 0..2usize { for b in 0..2usize { cx.case(true, || format!("parity {} * {}", a, b), || { ck_eq!(Parity::from_number(a) * Parity::from_number(b), Parity::from_number(a + b), "mul"); Ok(()) }); } }
}

pub fn c07(cx: &mut Cx) {
    let mut rows = singles(cx, 6, 3000);
    // bells which move by a power of two: what's left of them in fewer bits is the same
    for &n in STAGES {
        for d in [16, 32, 64, 128, 256] {
            for a in [0, 1, n / 2, n.saturating_sub(d + 1)] {
                if a + d < n {
                    let (mut x, mut y) = (id(n), (0..n).rev().collect::<P>());
                    x.swap(a, a + d); y.swap(a, a + d);
                    rows.push(x); rows.push(y);
                }
            }
        }
    }
    for p in rows {
        if cx.out_of_time() { break; }
        let n = p.len();
        let (a, b) = (cx.rng.below(n), cx.rng.below(n));
        cx.case(true, || format!("row {:?}, places {} and {}", p, a, b), || {
            let r = rb(&p);
            ck_eq!(r.stage().num_bells(), n, "stage");
            ck_eq!(r.is_rounds(), p == id(n), "is_rounds");
            ck_eq!(r.is_backrounds(), p.iter().enumerate().all(|(i, &x)| x == n - 1 - i), "is_backrounds");
            ck_eq!(r.effective_stage().num_bells(), (0..n).rev().find(|&i| p[i] != i).map_or(1, |i| i + 1), "effective_stage");
            let ip = inv(&p);
            for k in 0..n { ck_eq!(r.place_of(Bell::from_index(k)), Some(ip[k]), "place_of bell index {}", k); ck_eq!(r[k].index(), p[k], "r[{}]", k); ck_eq!(unsafe { r.get_bell_unchecked(k) }.index(), p[k], "get_bell_unchecked"); }
            for k in [n, n + 1, n + 256, usize::MAX] { ck_eq!(r.place_of(Bell::from_index(k)), None, "place_of bell index {}", k); }
            ck_eq!(r.fixed_bells().map(|b| b.index()).collect::<P>(), (0..n).filter(|&i| p[i] == i).collect::<P>(), "fixed_bells");
            ck_eq!(r.bell_iter().map(|b| b.index()).collect::<P>(), p, "bell_iter");
            ck_eq!((&r).into_iter().map(|b| b.index()).collect::<P>(), p, "into_iter of RowBuf");
            ck_eq!(r.as_row().into_iter().map(|b| b.index()).collect::<P>(), p, "into_iter of Row");
            ck_eq!(r.slice().len(), n, "slice");
            let mut s = r.clone(); s.swap(a, b);
            let mut w = p.clone(); w.swap(a, b);
            row_is(&s, &w, "swap")?;
            row_is(&r.to_rc(), &p, "to_rc")?;
            row_is(&r.to_arc(), &p, "to_arc")?;
            row_is(&r.as_row().to_owned(), &p, "to_owned")?;
            ck!(r == *r.as_row() && *r.as_row() == r && (a == b || s != *r.as_row()) && (a == b || *s.as_row() != r) && (a == b || s != r), "equality of rows");
            let _ = format!("{:?} {:?}", r, DbgRow(&r));
            let mut s = r.clone();
            s.as_mut_row().swap(a, b);
            row_is(&s, &w, "swap through as_mut_row")?;
            s.as_mut().swap(a, b);
            row_is(&s, &p, "swap through as_mut")?;
            ck_eq!(r.bell_iter().rev().map(|b| b.index()).collect::<P>(), p.iter().rev().cloned().collect::<P>(), "bells backwards");
            let mut o = rb(&w); r.copy_into(&mut o); row_is(&o, &p, "copy_into")?;
            let mut o = rb(&[1, 0, 2]); o.overwrite_from(&r); row_is(&o, &p, "overwrite_from")
        });
    }
}

pub fn c08(cx: &mut Cx) {
    // group tests on random sets, subgroups and near-subgroups
    for k in 0..cx.reps(6000) {
        if cx.out_of_time() { break; }
        let n = cx.rng.range(1, if k % 10 == 0 { 20 } else { 4 });
        let mut set: Vec<P> = match cx.rng.below(4) {
            0 => (0..cx.rng.below(5)).map(|_| perm(&mut cx.rng, n)).collect(),
            1 | 2 if n <= 5 => { let m = cx.rng.range(1, 2); let gens: Vec<P> = (0..m).map(|_| perm(&mut cx.rng, n)).collect(); generated(&gens).into_iter().collect() }
            _ => { let p = perm(&mut cx.rng, n); let mut v = vec![id(n)]; let mut x = p.clone(); while x != id(n) && v.len() < 60 { v.push(x.clone()); x = mul(&x, &p); } v }
        };
        set.sort();
        match cx.rng.below(5) {
            0 if !set.is_empty() => { let i = cx.rng.below(set.len()); set.remove(i); }
            1 => { let i = cx.rng.below(set.len() + 1); let p = perm(&mut cx.rng, n); set.insert(i, p); }
            2 if !set.is_empty() => { let x = cx.rng.pick(&set).clone(); set.push(x); }
            3 if cx.rng.chance(1, 3) => { let m = cx.rng.range(1, 6); let i = cx.rng.below(set.len() + 1); let p = perm(&mut cx.rng, m); set.insert(i, p); }
            _ => {}
        }
        let sh = cx.rng.below(set.len().max(1)); let k = sh.min(set.len()); set.rotate_left(k);
        cx.case(!set.is_empty(), || format!("is_group({:?})", set), || {
            let rows: Vec<RowBuf> = set.iter().map(|p| rb(p)).collect();
            let mixed = set.iter().any(|p| p.len() != set[0].len());
            match Row::is_group(rows.iter().map(|r| r.as_row())) {
                Err(_) => ck!(mixed, "is_group reports a stage error for rows of one stage"),
                Ok(b) => {
                    ck!(!mixed, "is_group mixes stages");
                    let hs: HashSet<&P> = set.iter().collect();
                    let want = !set.is_empty() && set.iter().all(|x| set.iter().all(|y| hs.contains(&mul(x, &inv(y)))));
                    ck_eq!(b, want, "is_group");
                }
            }
            Ok(())
        });
    }
    // larger groups: all the rows of six and of seven bells, and the in-course ones
    for (gens, size) in [(vec![vec![1, 2, 3, 4, 5, 0], vec![1, 0, 2, 3, 4, 5]], 720), (vec![vec![1, 2, 3, 4, 5, 6, 0], vec![0, 1, 2, 3, 4, 6, 5]], 5040), (vec![vec![1, 2, 0, 3, 4, 5, 6], vec![0, 1, 3, 4, 5, 6, 2]], 2520)] {
        cx.case(true, || format!("least_group_containing({:?})", gens), || {
            let rows: Vec<RowBuf> = gens.iter().map(|p: &P| rb(p)).collect();
            let s = Row::least_group_containing(rows.iter().map(|r| r.as_row())).map_err(|_| "stage error")?;
            ck_eq!(s.len(), size, "rows in the group");
            ck!(s.iter().map(|r| un(r)).collect::<HashSet<P>>() == generated(&gens), "another group");
            if size == 720 {
                ck_eq!(Row::is_group(s.iter().map(|r| r.as_row())), Ok(true), "is_group");
                for k in [0usize, 300, 719] { ck_eq!(Row::is_group(s.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, r)| r.as_row())), Ok(false), "is_group without a row"); }
            }
            Ok(())
        });
    }
    // rows which differ only in their last few bells, on many bells
    for &n in STAGES.iter().filter(|n| **n >= 6) {
        let sw = |l: &[(usize, usize)]| { let mut p = id(n); for &(i, j) in l { p.swap(n - i, n - j); } p };
        for gens in [vec![sw(&[(1, 2)])], vec![sw(&[(1, 2)]), sw(&[(2, 3)])], vec![sw(&[(1, 2)]), sw(&[(3, 4)])], vec![sw(&[(1, 2), (2, 3)])], vec![sw(&[(1, 2), (n, n - 1)]), sw(&[(3, 4)])], vec![sw(&[(1, n)])]] {
            cx.case(true, || format!("group of {:?}", gens), || {
                let want = generated(&gens);
                let rows: Vec<RowBuf> = gens.iter().map(|p: &P| rb(p)).collect();
                let s = Row::least_group_containing(rows.iter().map(|r| r.as_row())).map_err(|_| "stage error")?;
                ck!(s.iter().map(|r| un(r)).collect::<HashSet<P>>() == want, "least_group_containing: {} rows, expected {}", s.len(), want.len());
                let all: Vec<RowBuf> = want.iter().map(|p| rb(p)).collect();
                ck_eq!(Row::is_group(all.iter().map(|r| r.as_row())), Ok(true), "is_group");
                let some: Vec<&P> = want.iter().take(want.len() - 1).collect();
                let is = want.len() == 2 && *some[0] == id(n);
                ck_eq!(Row::is_group(all[..all.len() - 1].iter().map(|r| r.as_row())), Ok(is), "is_group without a row");
                ck_eq!(Row::is_group(rows.iter().map(|r| r.as_row())), Ok(false), "is_group of the generators");
                Ok(())
            });
        }
    }
    for _ in 0..cx.reps(1500) {
        if cx.out_of_time() { break; }
        let n = cx.rng.range(1, 5);
        let mut gens: Vec<P> = (0..cx.rng.below(4)).map(|_| perm(&mut cx.rng, n)).collect();
        if cx.rng.chance(1, 8) { let m = cx.rng.range(1, 6); let i = cx.rng.below(gens.len() + 1); let p = perm(&mut cx.rng, m); gens.insert(i, p); }
        if cx.rng.chance(1, 10) { let m = cx.rng.range(6, 30); let p = perm(&mut cx.rng, m); let ord = cycles(&p).iter().fold(1usize, |a, c| a / gcd(a, c.len()) * c.len()); if ord < 500 { gens = vec![p]; } }
        cx.case(!gens.is_empty(), || format!("least_group_containing({:?})", gens), || {
            let rows: Vec<RowBuf> = gens.iter().map(|p| rb(p)).collect();
            let mixed = gens.iter().any(|p| p.len() != gens[0].len());
            match Row::least_group_containing(rows.iter().map(|r| r.as_row())) {
                Err(_) => ck!(mixed, "least_group_containing reports a stage error for rows of one stage"),
                Ok(s) => {
                    ck!(!mixed, "least_group_containing mixes stages");
                    let got: HashSet<P> = s.iter().map(|r| un(r)).collect();
                    let want = generated(&gens);
                    ck!(got == want, "least_group_containing gives {} rows, expected {}: missing {:?}, extra {:?}", got.len(), want.len(), want.difference(&got).collect::<Vec<_>>(), got.difference(&want).collect::<Vec<_>>());
                }
            }
            Ok(())
        });
    }
    for _ in 0..cx.reps(4000) {
        if cx.out_of_time() { break; }
        let n = cx.rng.range(1, 7);
        let mut sets: Vec<Vec<P>> = (0..cx.rng.below(5)).map(|_| (0..cx.rng.below(4)).map(|_| perm(&mut cx.rng, n)).collect()).collect();
        if cx.rng.chance(1, 2) { for s in sets.iter_mut() { if s.is_empty() { s.push(id(n)); } } }
        if cx.rng.chance(1, 5) && !sets.is_empty() { let i = cx.rng.below(sets.len()); let m = cx.rng.range(1, 8); let j = cx.rng.below(sets[i].len() + 1); let p = perm(&mut cx.rng, m); sets[i].insert(j, p); }
        cx.case(sets.iter().any(|s| !s.is_empty()), || format!("multi_cartesian_product({:?})", sets), || {
            let rows: Vec<Vec<RowBuf>> = sets.iter().map(|s| s.iter().map(|p| rb(p)).collect()).collect();
            let all: Vec<&P> = sets.iter().flatten().collect();
            let mixed = all.iter().any(|p| p.len() != all[0].len());
            match Row::multi_cartesian_product(rows.iter().map(|s| s.iter())) {
                Err(_) => ck!(mixed, "multi_cartesian_product reports a stage error for rows of one stage"),
                Ok(v) => {
                    let got: Vec<P> = v.iter().map(|r| un(r)).collect();
                    if sets.is_empty() || sets.iter().any(|s| s.is_empty()) { ck!(got.is_empty(), "product with an empty set is not empty: {:?}", got); return Ok(()); }
                    ck!(!mixed, "multi_cartesian_product mixes stages: {:?}", got);
                    let mut want: Vec<P> = sets[0].clone();
                    for s in &sets[1..] { let mut next = vec![]; for y in s { for x in &want { next.push(mul(x, y)); } } want = next; }
                    ck!(got == want, "got {:?}, expected {:?}", got, want);
                }
            }
            Ok(())
        });
    }
}
fn generated(gens: &[P]) -> HashSet<P> {
    let mut s: HashSet<P> = HashSet::new();
    let mut todo: Vec<P> = gens.to_vec();
    while let Some(x) = todo.pop() { if s.insert(x.clone()) { for g in gens { todo.push(mul(&x, g)); } } }
    s
}

pub fn c09(cx: &mut Cx) {
    for n in 1..=8 {
        let ps = perms(n);
        cx.case(true, || format!("fast_hash of all {} rows of stage {}", ps.len(), n), || {
            let mut seen = std::collections::HashMap::new();
            for p in &ps { if let Some(q) = seen.insert(rb(p).fast_hash(), p) { return Err(format!("{:?} and {:?} have the same hash", p, q)); } }
            Ok(())
        });
    }
    for n in 1..=16usize {
        for _ in 0..cx.reps(3) {
            let base = perm(&mut cx.rng, n);
            let mut ps: Vec<P> = vec![base.clone()];
            for i in 0..n { for j in 0..i { let mut q = base.clone(); q.swap(i, j); ps.push(q.clone()); for k in 0..j { let mut r = q.clone(); r.swap(j, k); ps.push(r); } } }
            for _ in 0..2000 { ps.push(perm(&mut cx.rng, n)); }
            cx.case(n > 1, || format!("fast_hash of {} rows of stage {} near {:?}", ps.len(), n, base), || {
                let mut seen: std::collections::HashMap<usize, &P> = std::collections::HashMap::new();
                for p in &ps { if let Some(q) = seen.insert(rb(p).fast_hash(), p) { if q != p { return Err(format!("{:?} and {:?} have the same hash", p, q)); } } }
                Ok(())
            });
        }
    }
    for p in singles(cx, 4, 2000) {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("fast_hash of {:?}", p), || { ck!(rb(&p).fast_hash() == rb(&p).as_row().fast_hash(), "equal rows hash differently"); Ok(()) });
    }
}
