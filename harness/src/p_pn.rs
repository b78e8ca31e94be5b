use crate::gen::*;
use crate::p_row::{row_is, stage_err};
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::place_not::{InvalidPnBlockError, ParseError, PnBlockParseError};
use bellframe::{AnnotBlock, PlaceNot, PnBlock};

/// What parsing some places (in any order) should give
pub fn places_of(given: &[usize], n: usize) -> Result<P, ParseError> {
    let mut g = given.to_vec();
    g.sort();
    let (lo, hi) = match (g.first(), g.last()) { (Some(l), Some(h)) => (*l, *h), _ => return Err(ParseError::NoPlacesGiven) };
    if hi >= n { return Err(ParseError::PlaceOutOfStage { place: hi, stage: st(n) }); }
    for w in g.windows(2) {
        let (p, q) = (w[0], w[1]);
        if p == q { return Err(ParseError::DuplicatePlace(p)); }
        let gap = q - p - 1;
        if gap % 2 == 1 && gap != 1 { return Err(ParseError::AmbiguousPlacesBetween { p, q }); }
    }
    let mut made: Vec<bool> = (0..n).map(|i| g.contains(&i)).collect();
    if lo % 2 == 1 { made[0] = true; }
    if (n - 1 - hi) % 2 == 1 { made[n - 1] = true; }
    for w in g.windows(2) { if w[1] == w[0] + 2 { made[w[0] + 1] = true; } }
    Ok((0..n).filter(|i| made[*i]).collect())
}
pub fn parse_model(t: &str, n: usize) -> Result<P, ParseError> {
    if t == "x" || t == "X" || t == "-" { return if n % 2 == 0 { Ok(vec![]) } else { Err(ParseError::OddStageCross(st(n))) }; }
    places_of(&t.chars().filter_map(name_index).collect::<Vec<_>>(), n)
}
pub fn made(pn: &PlaceNot) -> P { (0..pn.stage().num_bells()).filter(|i| pn.contains(*i)).collect() }
/// The transposition of a change: pairs of bells swap except at its places
pub fn change(places: &[usize], n: usize) -> P {
    let mut r = id(n);
    let mut i = 0;
    while i < n { if places.contains(&i) { i += 1 } else { r.swap(i, i + 1); i += 2; } }
    r
}
/// The block of changes written as `t`
pub fn block_model(t: &str, n: usize) -> Result<Vec<P>, PnBlockParseError> {
    let single = !t.contains(',');
    let mut out: Vec<P> = vec![];
    let mut off = 0;
    for part in t.split(',') {
        let mut chars: Vec<(usize, char)> = part.char_indices().map(|(i, c)| (i + off, c)).collect();
        let end = off + part.len();
        off = end + 1;
        let cross = |c: char| c == 'x' || c == 'X' || c == '-';
        while !chars.is_empty() && name_index(chars[0].1).is_none() && !cross(chars[0].1) && chars[0].1 != '+' { chars.remove(0); }
        let asym = !chars.is_empty() && chars[0].1 == '+';
        if asym { chars.remove(0); }
        let mut sub: Vec<P> = vec![];
        let mut cur: Option<(usize, P)> = None;
        chars.push((end, ' '));
        for (i, c) in chars {
            if let Some(b) = name_index(c) {
                match &mut cur { Some((_, v)) => v.push(b), None => cur = Some((i, vec![b])) }
                continue;
            }
            if c == '+' { return Err(PnBlockParseError::PlusNotAtBlockStart(i)); }
            if c == ' ' || c == '.' || cross(c) {
                if let Some((s, v)) = cur.take() { sub.push(places_of(&v, n).map_err(|e| PnBlockParseError::PnError(s..i, e))?); }
                if cross(c) { if n % 2 == 0 { sub.push(vec![]) } else { return Err(PnBlockParseError::PnError(i..i + 1, ParseError::OddStageCross(st(n)))) } }
            }
        }
        out.extend(sub.iter().cloned());
        if !single && !asym { out.extend(sub.iter().rev().skip(1).cloned()); }
    }
    if out.is_empty() { Err(PnBlockParseError::EmptyBlock) } else { Ok(out) }
}
/// A random valid change of n bells
pub fn places(rng: &mut Rng, n: usize) -> P {
    let mut out = vec![];
    let mut i = 0;
    // mostly some of both, sometimes nearly all places or nearly all swaps
    let (a, b) = *rng.pick(&[(2, 5), (2, 5), (2, 5), (2, 5), (9, 10), (29, 30), (1, 30)]);
    while i < n { if i + 1 == n || rng.chance(a, b) { out.push(i); i += 1 } else { i += 2 } }
    out
}
pub fn pn(places: &[usize], n: usize) -> PlaceNot {
    if places.is_empty() { return PlaceNot::cross(st(n)).unwrap(); }
    unsafe { PlaceNot::from_sorted_slice(places, st(n)) }.unwrap()
}
fn small_stage(rng: &mut Rng) -> usize { if rng.chance(5, 6) { rng.range(1, 12) } else { *rng.pick(&[13, 16, 22, 23, 32, 33, 34, 40, 64, 65]) } }
const PN_CHARS: &[char] = &['1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'E', 'T', 'A', 'B', '1', '4', '5', '6', '8', 'Z', 'x', 'X', '-', ' ', '.', '~', '|', '&', '+', ',', 'é', '€', 'o', 'I', 'O'];
const WORDS: &[&str] = &["14", "16", "18", "12", "36", "58", "1", "x", "-", "34", "3", "5", ".", ",", "+", "x", ".", "&", " ", "é", "1T", "5.1.5", "-14-", "2", "78", "1256", "13", "15"];

fn ck_places(pn: &PlaceNot, want: &[usize], n: usize) -> R {
    ck_eq!(pn.stage().num_bells(), n, "stage");
    ck_eq!(made(pn), want.to_vec(), "places made");
    for p in [n, n + 1, 255, 256, usize::MAX] { if p >= n { ck!(!pn.contains(p), "place {} is outside the stage", p); } }
    ck_eq!(pn.is_cross(), want.is_empty(), "is_cross");
    ck_eq!(pn.has_internal_places(), want.iter().any(|p| *p != 0 && *p != n - 1), "has_internal_places");
    row_is(&pn.transposition(), &change(want, n), "transposition")?;
    // two notations are equal exactly when they make the same places
    ck!(want.is_empty() || *pn == self::pn(want, n), "differs from the notation with the same places");
    Ok(())
}

pub fn c12(cx: &mut Cx) {
    let mut cases: Vec<(String, usize)> = vec![];
    for n in 1..=9 {
        for t in ["", "x", "X", "-", "--", "xx", "x ", " x", "1x", ".", "é", "€", "+", "&", ","] { cases.push((t.into(), n)); }
        for a in 0..=9usize { cases.push((NAMES[a..=a].into(), n)); for b in 0..=9usize { cases.push((format!("{}{}", &NAMES[a..=a], &NAMES[b..=b]), n)); if n >= 6 { for c in 0..=8usize { cases.push((format!("{}{}{}", &NAMES[a..=a], &NAMES[b..=b], &NAMES[c..=c]), n)); } } } }
    }
    for _ in 0..cx.reps(20000) {
        let n = small_stage(&mut cx.rng);
        let t = match cx.rng.below(3) {
            0 if cx.rng.chance(1, 8) => format!("{}{}", cx.rng.pick(&["", "x", "X", "-", "1", "14", "36", "é"]), if cx.rng.chance(1, 2) { text(&mut cx.rng, 60, &['x', '-', ' ', '.', 'é', '&', ',', '+', 'o']) } else { text(&mut cx.rng, 60, PN_CHARS) }),
            0 => text(&mut cx.rng, 8, PN_CHARS),
            1 => { let mut p = places(&mut cx.rng, n); p.retain(|x| *x < 33); for _ in 0..cx.rng.below(3) { if !p.is_empty() { let i = cx.rng.below(p.len()); p.remove(i); } } if !p.is_empty() && cx.rng.chance(1, 3) { let (i, j) = (cx.rng.below(p.len()), cx.rng.below(p.len())); p.swap(i, j); } p.iter().map(|i| NAMES.chars().nth(*i).unwrap()).collect() }
            _ => { let k = cx.rng.range(1, 5); (0..k).map(|_| NAMES.chars().nth(cx.rng.below((n + 1).min(33))).unwrap()).collect() }
        };
        cases.push((t, n));
    }
    for (t, n) in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("PlaceNot::parse({:?}) on {} bells", t, n), || {
            match (PlaceNot::parse(&t, st(n)), parse_model(&t, n)) {
                (Ok(pn), Ok(w)) => ck_places(&pn, &w, n),
                (Err(e), Err(w)) => { ck_eq!(e, w, "error"); Ok(()) }
                (a, b) => Err(format!("got {:?}, expected {:?}", a.map(|p| made(&p)), b)),
            }
        });
    }
    every_char(cx, "place notations", |c| {
        for t in [c.to_string(), format!("1{}6", c)] {
            match (PlaceNot::parse(&t, st(6)), parse_model(&t, 6)) {
                (Ok(pn), Ok(w)) => ck_eq!(made(&pn), w, "places of {:?}", t),
                (Err(e), Err(w)) => ck_eq!(e, w, "error for {:?}", t),
                (a, b) => return Err(format!("{:?}: got {:?}, expected {:?}", t, a.map(|p| made(&p)), b)),
            }
        }
        Ok(())
    });
    // from_sorted_slice, including stages and places no text can name
    for _ in 0..cx.reps(10000) {
        let n = stage(&mut cx.rng);
        let mut g: P = if cx.rng.chance(1, 2) { let mut p = places(&mut cx.rng, n); let k = cx.rng.below(4); for _ in 0..k { if !p.is_empty() { let i = cx.rng.below(p.len()); p.remove(i); } } p } else { let k = cx.rng.below(6); (0..k).map(|_| cx.rng.below(n + 1)).collect() };
        if cx.rng.chance(1, 15) { g.push(*cx.rng.pick(&[n, n + 1, usize::MAX, 1 << 32])); }
        g.sort();
        cx.case(true, || format!("places {:?} on {} bells", g, n), || match (unsafe { PlaceNot::from_sorted_slice(&g, st(n)) }, places_of(&g, n)) {
            (Ok(pn), Ok(w)) => ck_places(&pn, &w, n),
            (Err(e), Err(w)) => { ck_eq!(e, w, "error"); Ok(()) }
            (a, b) => Err(format!("got {:?}, expected {:?}", a.map(|p| made(&p)), b)),
        });
    }
    for n in 1..60 { for m in 1..60 { cx.case(n == m, || format!("equality on {} and {} bells", n, m), || {
        if let (Some(p), Some(q)) = (PlaceNot::cross(st(n)), PlaceNot::cross(st(m))) { ck_eq!(p == q, n == m, "crosses"); }
        let (p, q) = (pn(&[n % 2], n.max(2)), pn(&[n % 2], m.max(2)));
        ck_eq!(p == q, n.max(2) == m.max(2), "the same places");
        Ok(())
    }); } }
    for n in 1..300 { cx.case(true, || format!("cross on {} bells", n), || { match PlaceNot::cross(st(n)) { Some(p) => { ck!(n % 2 == 0, "a cross of an odd stage"); ck_places(&p, &[], n) } None => { ck!(n % 2 == 1, "no cross"); Ok(()) } } }); }
}

pub fn c13(cx: &mut Cx) {
    for _ in 0..cx.reps(12000) {
        if cx.out_of_time() { break; }
        let n = stage(&mut cx.rng);
        let m = if cx.rng.chance(1, 5) { if cx.rng.chance(1, 2) { n + 1 } else { stage(&mut cx.rng) } } else { n };
        let p = places(&mut cx.rng, n);
        let r = perm(&mut cx.rng, m);
        cx.case(true, || format!("places {:?} of {} bells applied to {:?}", p, n, r), || {
            let x = pn(&p, n);
            ck_places(&x, &p, n)?;
            let mut row = rb(&r);
            let res = x.permute(&mut row);
            let new = x.permute_new(&rb(&r));
            if n != m {
                match res { Ok(()) => return Err("permute accepts another stage".into()), Err(e) => stage_err(&e, m, n)? }
                row_is(&row, &r, "row after the error")?;
                match new { Ok(_) => return Err("permute_new accepts another stage".into()), Err(e) => stage_err(&e, m, n)? }
                return Ok(());
            }
            let want = mul(&r, &change(&p, n));
            ck!(res.is_ok(), "permute fails");
            row_is(&row, &want, "permute")?;
            row_is(&new.map_err(|e| e.to_string())?, &want, "permute_new")?;
            row_is(&unsafe { x.permute_new_unchecked(&rb(&r)) }, &want, "permute_new_unchecked")?;
            let mut row = rb(&r);
            unsafe { x.permute_unchecked(&mut row) };
            row_is(&row, &want, "permute_unchecked")?;
            row_is(&(&rb(&r) * &x.transposition()), &want, "times the transposition")?;
            let _ = x.permute(&mut row);
            row_is(&row, &r, "applying twice")
        });
    }
}

pub fn c14(cx: &mut Cx) {
    let mut cases = vec![];
    for n in 1..=5 { for a in perms(n) { for b in perms(n) { cases.push((a.clone(), b)); } } }
    for _ in 0..cx.reps(8000) {
        let n = stage(&mut cx.rng);
        let a = perm(&mut cx.rng, n);
        let mut b = mul(&a, &change(&places(&mut cx.rng, n), n));
        match cx.rng.below(5) {
            0 => { let (i, j) = (cx.rng.below(n), cx.rng.below(n)); b.swap(i, j); }
            1 => { let i = cx.rng.below(n); let j = (i + 1).min(n - 1); b.swap(i, j); }
            3 => { b = a.clone(); let i = if cx.rng.chance(1, 2) { cx.rng.below(n) } else { n.saturating_sub(2) }; let j = (i + 1).min(n - 1); b.swap(i, j); if cx.rng.chance(1, 4) { let i = cx.rng.below(n); b.swap(i, j); } }
            2 => if cx.rng.chance(1, 2) { b.push(n); } else if let Some(i) = b.iter().position(|x| *x == n - 1) { if n > 1 { b.remove(i); } },
            _ => {}
        }
        cases.push((a, b));
    }
    for (a, b) in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("pn_between {:?} and {:?}", a, b), || {
            let near = a.len() == b.len() && { let (ia, ib) = (inv(&a), inv(&b)); (0..a.len()).all(|x| ia[x].abs_diff(ib[x]) <= 1) };
            match PlaceNot::pn_between(&rb(&a), &rb(&b)) {
                None => ck!(!near, "no notation found"),
                Some(p) => {
                    ck!(near, "found a notation {:?}", made(&p));
                    let want: P = (0..a.len()).filter(|i| a[*i] == b[*i]).collect();
                    ck_places(&p, &want, a.len())?;
                    row_is(&p.permute_new(&rb(&a)).map_err(|e| e.to_string())?, &b, "applying the notation found")?;
                }
            }
            Ok(())
        });
    }
}

fn block_text(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 if rng.chance(1, 6) => text(rng, 80, PN_CHARS),
        1 if rng.chance(1, 6) => { let k = rng.range(12, 60); (0..k).map(|_| *rng.pick(&["14", "16", "12", "36", "x", "-", ".", ".", "x", " ", "34", "1", "3", ",", "é"])).collect::<Vec<_>>().join(if rng.chance(1, 2) { "." } else { "" }) }
        0 => text(rng, 14, PN_CHARS),
        1 => { let k = rng.below(12); (0..k).map(|_| *rng.pick(WORDS)).collect::<Vec<_>>().join(if rng.chance(1, 3) { "." } else { "" }) }
        _ => { let k = rng.range(1, 3); (0..k).map(|_| { let m = rng.below(6); let s = (0..m).map(|_| *rng.pick(&["x", "-", "14", "16", "12", "36", "1", "3", "5", "1256", "34"])).collect::<Vec<_>>().join(*rng.pick(&[".", " ", "..", ". "])); format!("{}{}", rng.pick(&["", "", "&", "+", " +", ".+", "é+"]), s) }).collect::<Vec<_>>().join(",") }
    }
}

pub fn c15(cx: &mut Cx) {
    let mut cases: Vec<(String, usize)> = vec![];
    for t in ["", ",", ",,", "+", "+,", "x", "x,", ",x", "x,x", "+x,x", "x14x,12", "+x14x,+12", "x14,+", "1+", "x+x", "x,1+", "é1+", "1é2", "x16x16x16,12", "+5.1.5,x", "x,3", "3,x", "1..2", "&x18x18,12", "x14x", "14€.15", "€15,x", "€15 x", "++", "+ +", "1,x", "-1-", "X", "9", "x9é,x"] {
        for n in 1..=8 { cases.push((t.into(), n)); }
    }
    for k in [100, 256, 500, 1000, 5000] {
        for t in ["x14", "-16-12", "+x14,", "x.14.x.12,x"] { cases.push((t.repeat(k), 6)); cases.push((format!("{},12", t.repeat(k)), 6)); }
    }
    for _ in 0..cx.reps(25000) {
        let n = if cx.rng.chance(3, 4) { *cx.rng.pick(&[4, 5, 6, 6, 8, 8, 7]) } else { small_stage(&mut cx.rng) };
        cases.push((block_text(&mut cx.rng), n));
    }
    for (t, n) in cases {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("PnBlock::parse({:?}) on {} bells", t, n), || {
            match (PnBlock::parse(&t, st(n)), block_model(&t, n)) {
                (Ok(b), Ok(w)) => {
                    ck_eq!(b.place_nots().map(made).collect::<Vec<_>>(), w, "changes");
                    for p in b.place_nots() { ck_eq!(p.stage().num_bells(), n, "stage of a change"); }
                    ck_eq!(b.stage().num_bells(), n, "stage");
                    ck_eq!(b.len(), w.len(), "len");
                    Ok(())
                }
                (Err(e), Err(w)) => {
                    ck_eq!(e, w, "error");
                    if let PnBlockParseError::PnError(r, _) = e { ck!(t.get(r.clone()).is_some(), "{:?} is not a range of the text", r); }
                    Ok(())
                }
                (a, b) => Err(format!("got {:?}, expected {:?}", a.map(|b| b.place_nots().map(made).collect::<Vec<_>>()), b)),
            }
        });
    }
    every_char(cx, "blocks", |c| {
        for t in [format!("x14{}16x", c), format!("{}14x,16", c), format!("x,{}1+", c)] {
            match (PnBlock::parse(&t, st(6)), block_model(&t, 6)) {
                (Ok(b), Ok(w)) => ck_eq!(b.place_nots().map(made).collect::<Vec<_>>(), w, "changes of {:?}", t),
                (Err(e), Err(w)) => ck_eq!(e, w, "error for {:?}", t),
                (a, b) => return Err(format!("{:?}: got {:?}, expected {:?}", t, a.map(|b| b.place_nots().map(made).collect::<Vec<_>>()), b)),
            }
        }
        Ok(())
    });
    for _ in 0..cx.reps(3000) {
        let n = small_stage(&mut cx.rng);
        let k = cx.rng.below(6);
        let list: Vec<(usize, P)> = (0..k).map(|_| { let m = if cx.rng.chance(1, 6) { small_stage(&mut cx.rng) } else { n }; (m, places(&mut cx.rng, m)) }).collect();
        cx.case(true, || format!("block of {:?}", list), || {
            let v: Vec<PlaceNot> = list.iter().map(|(m, p)| pn(p, *m)).collect();
            for (w, r) in [("from_vec", PnBlock::from_vec(v.clone())), ("from_iter", PnBlock::from_iter(v.clone()))] {
                match r {
                    Ok(b) => {
                        ck!(!list.is_empty() && list.iter().all(|x| x.0 == list[0].0), "{} accepts the list", w);
                        ck!(b.place_nots().eq(v.iter()), "{} changes the changes", w);
                    }
                    Err(InvalidPnBlockError::EmptyBlock) => ck!(list.is_empty(), "{} calls the list empty", w),
                    Err(InvalidPnBlockError::IncompatibleStages(i, e)) => {
                        ck_eq!(Some(i), list.iter().position(|x| x.0 != list[0].0), "index named by {}", w);
                        stage_err(&e, list[0].0, list[i].0)?;
                    }
                }
            }
            Ok(())
        });
    }
}

pub fn c16(cx: &mut Cx) {
    for _ in 0..cx.reps(6000) {
        if cx.out_of_time() { break; }
        let n = stage(&mut cx.rng);
        let m = if cx.rng.chance(1, 6) { if cx.rng.chance(1, 2) { n + 1 } else { stage(&mut cx.rng) } } else { n };
        let k = if cx.rng.chance(1, 20) { 300 } else { cx.rng.range(1, 12) };
        let chs: Vec<P> = (0..k).map(|_| places(&mut cx.rng, n)).collect();
        let s = if cx.rng.chance(1, 4) { id(m) } else { perm(&mut cx.rng, m) };
        cx.case(true, || format!("changes {:?} of {} bells from {:?}", chs, n, s), || {
            let b = PnBlock::from_vec(chs.iter().map(|p| pn(p, n)).collect()).map_err(|e| e.to_string())?;
            let expand = |s: &P| { let mut v = vec![s.clone()]; for c in &chs { let l = mul(v.last().unwrap(), &change(c, n)); v.push(l); } v };
            let r1 = b.to_rows(rb(&s));
            let r2: Result<AnnotBlock<Option<u8>>, _> = b.to_block(rb(&s));
            if n != m {
                match r1 { Ok(_) => return Err("to_rows accepts another stage".into()), Err(e) => stage_err(&e, m, n)? }
                match r2 { Ok(_) => return Err("to_block accepts another stage".into()), Err(e) => stage_err(&e, m, n)? }
            } else {
                let w = expand(&s);
                let r1 = r1.map_err(|e| e.to_string())?;
                ck_eq!(r1.iter().map(un).collect::<Vec<_>>(), w, "to_rows");
                ck_eq!(r1.len(), k + 1, "number of rows");
                let r2 = r2.map_err(|e| e.to_string())?;
                ck_eq!(r2.all_rows().map(un).collect::<Vec<_>>(), w, "to_block");
                ck_eq!(r2.annots().copied().collect::<Vec<_>>(), vec![None; k], "annotations");
                ck_eq!(r2.len(), k, "length of the block");
            }
            let r3: AnnotBlock<u8> = b.to_block_from_rounds();
            ck_eq!(r3.all_rows().map(un).collect::<Vec<_>>(), expand(&id(n)), "to_block_from_rounds");
            ck_eq!(r3.annots().copied().collect::<Vec<_>>(), vec![0; k], "annotations from rounds");
            Ok(())
        });
    }
}
