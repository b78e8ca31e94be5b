//! Displayed values read back (C29), parsing never panics (C30)
use crate::gen::*;
use crate::p_mask::{elems, mask, un_elems, E, MM};
use crate::p_pn::{made, places, pn};
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::music::{Regex, RegexElem};
use bellframe::{Bell, Block, AnnotBlock, Mask, PlaceNot, PnBlock, RowBuf, SameStageVec};

fn bell_text(i: usize) -> String { match NAMES.chars().nth(i) { Some(c) => c.to_string(), None => format!("<{}>", i + 1) } }
fn row_back(p: &P) -> R {
    let r = rb(p);
    let t: String = p.iter().map(|i| bell_text(*i)).collect();
    ck_eq!(r.to_string(), t, "RowBuf displays");
    ck_eq!(r.as_row().to_string(), t, "Row displays");
    let _ = format!("{:?} {:?}", r, r.as_row());
    if p.len() <= 33 {
        ck!(RowBuf::parse(&t).as_ref() == Ok(&r), "RowBuf::parse({:?}) gives {:?}", t, RowBuf::parse(&t));
        ck!(RowBuf::parse_with_stage(&t, st(p.len())).as_ref() == Ok(&r), "parse_with_stage({:?}) gives {:?}", t, RowBuf::parse_with_stage(&t, st(p.len())));
        ck!(t.parse::<RowBuf>().as_ref() == Ok(&r), "from_str({:?})", t);
    }
    Ok(())
}
fn pn_back(pl: &P, n: usize) -> R {
    let p = pn(pl, n);
    let t = p.to_string();
    if n <= 33 {
        match PlaceNot::parse(&t, st(n)) {
            Ok(q) => { ck_eq!(made(&q), *pl, "places made by {:?} read back", t); ck!(q == p, "{:?} reads back differently", t); }
            Err(e) => return Err(format!("{:?} does not parse: {}", t, e)),
        }
    }
    let _ = format!("{:?}", p);
    Ok(())
}
fn mask_back(m: &MM) -> R {
    let k = mask(m);
    let t = k.to_string();
    if m.iter().flatten().all(|b| *b < 33) { ck!(Mask::parse(&t) == k, "mask displayed as {:?} reads back as {:?}", t, Mask::parse(&t).to_string()); }
    let _ = format!("{:?}", k);
    Ok(())
}
fn pat_back(e: &E) -> R {
    let x = Regex::from_elems(elems(e));
    let t = x.to_string();
    if e.iter().all(|b| *b < 33) { ck!(Regex::parse(&t) == x, "pattern displayed as {:?} reads back as {:?}", t, un_elems(Regex::parse(&t).elems())); }
    let _ = format!("{:?} {}", x, x.elems().iter().map(|e| e.to_string()).collect::<String>());
    Ok(())
}
pub fn c29(cx: &mut Cx) {
    for n in 1..=6 { for p in perms(n) { cx.case(true, || format!("row {}", show(&p)), || row_back(&p)); } }
    for n in 1..=33 { let p = id(n); cx.case(true, || format!("row {}", show(&p)), || row_back(&p)); }
    for i in 0..40 { for e in [RegexElem::Any, RegexElem::Glob, RegexElem::Bell(Bell::from_index(i))] {
        cx.case(true, || format!("{:?}", e), || { let w = match e { RegexElem::Any => "x".into(), RegexElem::Glob => "*".into(), _ => bell_text(i) }; ck_eq!(e.to_string(), w, "element displays"); Ok(()) });
    } }
    for _ in 0..cx.reps(1500) {
        if cx.out_of_time() { break; }
        let n = if cx.rng.chance(3, 4) { cx.rng.range(1, 33) } else { stage(&mut cx.rng) };
        let p = perm(&mut cx.rng, n);
        cx.case(true, || format!("row {}", show(&p)), || row_back(&p));
        let pl = places(&mut cx.rng, n);
        if !(pl.is_empty() && n % 2 == 1) { cx.case(true, || format!("places {} on {} bells", show(&pl), n), || pn_back(&pl, n)); }
        let m: MM = p.iter().map(|b| if cx.rng.chance(1, 3) { None } else { Some(*b) }).collect();
        cx.case(true, || format!("mask {:?}", m), || mask_back(&m));
        let (k, m) = (cx.rng.below(12), cx.rng.below(20));
        let e: E = (0..k).map(|_| cx.rng.below(8) as i64 - 2).chain(p.iter().map(|b| *b as i64)).take(m).collect();
        cx.case(true, || format!("elements {:?}", e), || pat_back(&e));
    }
}
const CHARS: &[char] = &['1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'E', 'T', 'Z', '1', '2', '3', '4', 'x', 'X', '-', '*', '.', ',', '+', '&', ' ', '\n', '\r', '\n', 'e', 'I', 'O', 'é', '€', '🦀', '\0', '\u{85}', '\u{2028}', '<', '>', '\t'];
fn everything(t: &str, n: usize) -> R {
    for c in t.chars() { let _ = Bell::from_name(c).map(|b| b.to_string()); }
    match RowBuf::parse(t) { Ok(r) => { let _ = format!("{} {:?}", r, r); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    match t.parse::<RowBuf>() { Ok(r) => { let _ = r.to_string(); } Err(e) => { let _ = e.to_string(); } }
    match RowBuf::parse_with_stage(t, st(n)) { Ok(r) => { let _ = format!("{} {:?}", r, r); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    match SameStageVec::parse(t) { Ok(r) => { let _ = format!("{:?}", r); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    match Block::parse(t) { Ok(r) => { let _ = format!("{:?}", r); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    match AnnotBlock::<Option<String>>::parse(t) { Ok(r) => { let _ = format!("{:?}", r); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    match PlaceNot::parse(t, st(n)) { Ok(r) => { let _ = format!("{} {:?}", r, r); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    match PnBlock::parse(t, st(n)) { Ok(r) => { let _ = format!("{:?} {}", r, r.place_nots().map(|p| p.to_string()).collect::<String>()); } Err(e) => { let _ = format!("{} {:?}", e, e); } }
    let m = Mask::parse(t);
    let _ = format!("{} {:?}", m, m);
    let r = Regex::parse(t);
    let _ = format!("{} {:?}", r, r);
    Ok(())
}
fn some_stage(rng: &mut Rng) -> usize { if rng.chance(3, 4) { rng.range(1, 12) } else { *rng.pick(&[13, 16, 17, 22, 23, 32, 33, 34, 35, 64, 100, 255, 256, 257, 1000]) } }
pub fn c30(cx: &mut Cx) {
    let mut cases: Vec<(String, usize)> = vec![];
    for t in ["", "\n", "\n\n", "\r\n", "12\n", "12\n21", "12\n\n21", "12\n12\n123", "11", "13", "é1", "1é", "🦀", "x", "-", "--", "x-", ",", ",,", "+", "+,", "é,1", "1,é", "é+", "é+1", "1+é", "12.é,+é", "🦀,🦀", "&", "*", "**", "x*x*", "15", "14.", ".14", "135", "15,", "18.15", "€15", "15€"] {
        for n in 1..=8 { cases.push((t.to_string(), n)); }
    }
    for k in 0..=3 { for s in seqs(13, k) { cases.push((s.iter().map(|i| ['1', '2', '3', '4', '6', 'x', '-', ',', '+', '.', '\n', 'é', '*'][*i]).collect(), *[4, 5, 6, 1].get(s.len()).unwrap_or(&4))); } }
    for _ in 0..cx.reps(8000) {
        let n = some_stage(&mut cx.rng);
        let t = match cx.rng.below(4) {
            0 if cx.rng.chance(1, 5) => text(&mut cx.rng, 100, CHARS),
            0 => text(&mut cx.rng, 20, CHARS),
            1 => { let k = cx.rng.below(12); (0..k).map(|_| char::from_u32(cx.rng.below(0x11000) as u32).unwrap_or('?')).collect() }
            2 => { let m = cx.rng.range(1, 12); let k = cx.rng.range(1, 5); (0..k).map(|_| { let m = if cx.rng.chance(1, 6) { m + 1 } else { m }; let mut s: String = perm(&mut cx.rng, m).iter().map(|i| bell_text(*i)).collect(); if cx.rng.chance(1, 6) { s.push(*cx.rng.pick(CHARS)); } if cx.rng.chance(1, 6) { s.insert(0, *cx.rng.pick(&['é', '🦀', ' '])); } s }).collect::<Vec<_>>().join(*cx.rng.pick(&["\n", "\r\n", "\n\n", ",", "."])) }
            _ => { let k = if cx.rng.chance(1, 10) { cx.rng.range(10, 50) } else { cx.rng.below(10) }; (0..k).map(|_| *cx.rng.pick(&["14", "16", "12", "36", "1", "3", "x", "-", ".", ",", "+", "é", "&", "15", "135", "1Z"])).collect() }
        };
        cases.push((t, n));
    }
    for (t, n) in cases {
        if cx.out_of_time() { break; }
        cx.case(!t.is_empty(), || format!("text {:?} at stage {}", t, n), || everything(&t, n));
    }
}
