//! Masks (C21), patterns (C22), runs and counts (C23)
use crate::gen::*;
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::{Bell, Mask, Row, RowBuf};
use bellframe::music::{Regex, RegexElem};

pub type MM = Vec<Option<usize>>;
pub fn mask(m: &MM) -> Mask {
    let mut k = Mask::empty(st(m.len()));
    for (i, b) in m.iter().enumerate() { if let Some(b) = b { unsafe { k.set_bell_unchecked(Bell::from_index(*b), i) } } }
    k
}
/// The elements of a mask, through the pattern it converts to
fn read(k: &Mask) -> MM { Regex::from(k.clone()).elems().iter().map(|e| match e { RegexElem::Bell(b) => Some(b.index()), RegexElem::Any => None, RegexElem::Glob => Some(usize::MAX) }).collect() }
fn distinct(m: &MM) -> bool { let mut s = std::collections::HashSet::new(); m.iter().flatten().all(|b| s.insert(*b)) }
fn is_mask(k: &Mask, m: &MM, what: &str) -> R {
    ck_eq!(k.stage(), st(m.len()), "{}: stage", what);
    ck_eq!(read(k), *m, "{}: elements", what);
    ck_eq!(k.unspecified_places().collect::<Vec<_>>(), (0..m.len()).filter(|i| m[*i].is_none()).collect::<Vec<_>>(), "{}: unspecified places", what);
    ck_eq!(k.is_empty(), m.iter().all(|b| b.is_none()), "{}: is_empty", what);
    for b in m.iter().flatten().cloned().chain([0, m.len() - 1, m.len(), usize::MAX]) { ck_eq!(k.place_of(Bell::from_index(b)), m.iter().position(|x| *x == Some(b)), "{}: place of bell {}", what, b); }
    let f: Option<P> = m.iter().cloned().collect();
    ck_eq!(k.as_row().map(|r| un(&r)), f.filter(|p| is_perm(p)), "{}: as_row", what);
    Ok(())
}
fn matches(m: &MM, p: &P) -> bool { m.len() == p.len() && m.iter().zip(p).all(|(a, b)| a.map_or(true, |a| a == *b)) }
fn combined(a: &MM, b: &MM) -> Option<MM> {
    if a.len() != b.len() { return None; }
    let c: Option<MM> = a.iter().zip(b).map(|(x, y)| match (x, y) { (Some(x), Some(y)) => if x == y { Some(Some(*x)) } else { None }, (Some(x), None) => Some(Some(*x)), (None, y) => Some(*y) }).collect();
    c.filter(distinct)
}
fn one(m: &MM) -> R {
    let k = mask(m);
    is_mask(&k, m, "mask")?;
    let n = m.len();
    for b in m.iter().flatten().cloned().chain(0..n.min(9)).chain([n]) {
        for place in [0, n / 2, n - 1, b.min(n - 1)] {
            let mut c = k.clone();
            let r = c.set_bell(Bell::from_index(b), place);
            let mut want = m.clone();
            match m.iter().position(|x| *x == Some(b)) {
                Some(p) if p == place => ck!(r.is_ok(), "set_bell({}, {}) fails although it is set there", b, place),
                Some(_) => ck!(r.is_err(), "set_bell({}, {}) succeeds although it is set elsewhere", b, place),
                None => { ck!(r.is_ok(), "set_bell({}, {}) fails", b, place); want[place] = Some(b); }
            }
            ck_eq!(read(&c), want, "after set_bell({}, {})", b, place);
        }
        if b < n {
            let mut c = k.clone();
            let r = c.fix(Bell::from_index(b));
            let mut want = m.clone();
            let at = m.iter().position(|x| *x == Some(b));
            ck_eq!(r.is_ok(), at.map_or(true, |p| p == b), "fix({})", b);
            if at.is_none() { want[b] = Some(b); }
            ck_eq!(read(&c), want, "after fix({})", b);
            if at.map_or(true, |p| p == b) { let mut c = k.clone(); unsafe { c.fix_unchecked(Bell::from_index(b)) }; ck_eq!(read(&c), want, "after fix_unchecked({})", b); }
        }
    }
    Ok(())
}
fn with_row(m: &MM, p: &P) -> R {
    let (k, r) = (mask(m), rb(p));
    let want = matches(m, p);
    ck_eq!(k.matches(&r), want, "matches");
    ck_eq!(Regex::from(k.clone()).matches(&r), want, "the pattern of the mask matches");
    if m.len() == p.len() {
        let x: MM = p.iter().map(|b| m[*b]).collect();
        ck_eq!(read(&(&k * r.as_row())), x, "mask * row");
        if m.iter().flatten().all(|b| *b < p.len()) {
            let x: MM = m.iter().map(|b| b.map(|b| p[b])).collect();
            ck_eq!(read(&(r.as_row() * &k)), x, "row * mask");
        }
    }
    Ok(())
}
fn pair(a: &MM, b: &MM) -> R {
    let (x, y) = (mask(a), mask(b));
    let want = combined(a, b);
    ck_eq!(x.is_compatible_with(&y), want.is_some(), "is_compatible_with");
    ck_eq!(x.combine(&y).map(|c| read(&c)), want, "combine");
    let sub = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| y.is_none() || x == y);
    ck_eq!(x.is_subset_of(&y), sub, "is_subset_of");
    Ok(())
}
/// A mask with distinct bells, often close to the row
fn gen_mask(rng: &mut Rng, n: usize, p: &P) -> MM {
    let d = *rng.pick(&[0, 1, 2, 4]);
    let mut m: MM = (0..n).map(|i| if d > 0 && rng.chance(d, 4) { p.get(i).copied() } else { None }).collect();
    if rng.chance(1, 3) { let (a, b) = (rng.below(n), rng.below(n)); m.swap(a, b); }
    if rng.chance(1, 6) { let b = *rng.pick(&[0, n / 2, n - 1, n, n + 1, n + 255, usize::MAX - 1]); let a = rng.below(n); if !m.contains(&Some(b)) { m[a] = Some(b); } }
    m
}
pub fn c21(cx: &mut Cx) {
    // Everything on up to three places
    for n in 1..=3usize {
        let all: Vec<MM> = seqs(n + 2, n).into_iter().map(|s| s.into_iter().map(|x| if x == 0 { None } else { Some(x - 1) }).collect()).filter(distinct).collect();
        for a in &all {
            cx.case(true, || format!("mask {:?}", a), || one(a));
            for k in 1..=3usize { for p in perms(k) { cx.case(k == n, || format!("mask {:?}, row {:?}", a, p), || with_row(a, &p)); } }
            for b in &all { cx.case(true, || format!("masks {:?} and {:?}", a, b), || pair(a, b)); }
        }
    }
    // Masks which repeat a bell don't match any row
    for m in [vec![Some(0), Some(0)], vec![Some(1), None, Some(1)], vec![Some(0), Some(0), None], vec![Some(0), Some(0), Some(2)], vec![Some(0), Some(5)], vec![Some(3), Some(0), Some(1)]] {
        cx.case(true, || format!("mask {:?}", m), || {
            let k = mask(&m);
            ck!(k.as_row().is_none(), "as_row gives a row");
            for p in perms(m.len()) { ck!(!k.matches(&rb(&p)), "matches {:?}", p); }
            Ok(())
        });
    }
    for n in STAGES {
        cx.case(true, || format!("stage {}", n), || {
            is_mask(&Mask::empty(st(*n)), &vec![None; *n], "empty")?;
            is_mask(&Mask::full_row(&RowBuf::rounds(st(*n))), &(0..*n).map(Some).collect(), "full row")
        });
    }
    let alphabet: Vec<char> = "1234567890ETABCDFGHJKLMNPQRSUVWYZxX.xX. *-etv\u{e9}\u{1F514}O!".chars().collect();
    for _ in 0..cx.reps(300) {
        if cx.out_of_time() { break; }
        let n = stage(&mut cx.rng);
        let p = perm(&mut cx.rng, n);
        let q = if cx.rng.chance(1, 4) { perm(&mut cx.rng, n) } else { p.clone() };
        let k = if cx.rng.chance(1, 8) { stage(&mut cx.rng) } else { n };
        let (a, b) = (gen_mask(&mut cx.rng, n, &p), gen_mask(&mut cx.rng, k, &q));
        cx.case(true, || format!("mask {:?}", a), || one(&a));
        cx.case(true, || format!("mask {:?}, row {:?}", a, p), || with_row(&a, &p));
        cx.case(true, || format!("mask {:?}, row {:?}", b, p), || with_row(&b, &p));
        cx.case(true, || format!("masks {:?} and {:?}", a, b), || pair(&a, &b));
        cx.case(true, || format!("row {:?}", p), || is_mask(&Mask::full_row(&rb(&p)), &p.iter().map(|b| Some(*b)).collect(), "full row"));
        let f: P = (0..cx.rng.below(n + 1)).map(|_| cx.rng.below(n)).collect();
        cx.case(true, || format!("stage {} with bells {:?} fixed", n, f), || is_mask(&Mask::fix_bells(st(n), bells(&f)), &(0..n).map(|i| if f.contains(&i) { Some(i) } else { None }).collect(), "fix_bells"));
        let t = text(&mut cx.rng, 40, &alphabet);
        cx.case(true, || format!("text {:?}", t), || {
            let want: MM = t.chars().filter_map(|c| if "xX.".contains(c) { Some(None) } else { name_index(c).map(Some) }).collect();
            ck_eq!(read(&Mask::parse(&t)), want, "parse");
            Ok(())
        });
    }
    every_char(cx, "masks", |c| {
        let want: MM = [Some(Some(0)), if "xX.".contains(c) { Some(None) } else { name_index(c).map(Some) }, Some(Some(1))].iter().flatten().cloned().collect();
        ck_eq!(read(&Mask::parse(&format!("1{}2", c))), want, "parse");
        Ok(())
    });
}

pub type E = Vec<i64>;
const ANY: i64 = -1;
const GLOB: i64 = -2;
pub fn elems(e: &E) -> Vec<RegexElem> { e.iter().map(|x| match *x { ANY => RegexElem::Any, GLOB => RegexElem::Glob, b => RegexElem::Bell(Bell::from_index(b as usize)) }).collect() }
pub fn un_elems(e: &[RegexElem]) -> E { e.iter().map(|x| match x { RegexElem::Any => ANY, RegexElem::Glob => GLOB, RegexElem::Bell(b) => b.index() as i64 }).collect() }
/// The defining equations of a match
fn rx(e: &[i64], r: &[usize]) -> bool {
    let mut can = vec![false; r.len() + 1];
    can[0] = true;
    for x in e {
        let mut next = vec![false; r.len() + 1];
        for i in 0..=r.len() {
            if !can[i] { continue; }
            match *x {
                GLOB => for j in i..=r.len() { next[j] = true; },
                ANY => if i < r.len() { next[i + 1] = true; },
                b => if i < r.len() && r[i] == b as usize { next[i + 1] = true; },
            }
        }
        can = next;
    }
    can[r.len()]
}
fn norm(e: &[i64]) -> E {
    let (mut out, mut a, mut g) = (vec![], 0, false);
    for x in e.iter().cloned().chain([-3]) {
        match x {
            ANY => a += 1,
            GLOB => g = true,
            b => { out.extend(std::iter::repeat(ANY).take(a)); if g { out.push(GLOB); } if b >= 0 { out.push(b); } a = 0; g = false; }
        }
    }
    out
}
fn pattern(e: &E, rows: &[P]) -> R {
    let x = Regex::from_vec(elems(e));
    let n = norm(e);
    ck_eq!(un_elems(x.elems()), n, "normal form");
    ck_eq!(un_elems(Regex::from_elems(elems(e)).elems()), n, "from_elems");
    let mut y = unsafe { Regex::from_vec_unchecked(elems(e)) };
    ck_eq!(un_elems(y.elems()), *e, "from_vec_unchecked");
    ck_eq!(un_elems(unsafe { Regex::from_elems_unchecked(elems(e)) }.elems()), *e, "from_elems_unchecked");
    y.normalise();
    ck_eq!(un_elems(y.elems()), n, "normalise");
    y.normalise();
    ck_eq!(un_elems(y.elems()), n, "normalising again");
    ck!(x == y, "the two patterns are not equal");
    for p in rows {
        let r = rb(p);
        let want = rx(e, p);
        ck_eq!(x.matches(&r), want, "matches {:?}", p);
        let places: Vec<usize> = e.iter().filter(|b| **b >= 0).map(|b| p.iter().position(|x| *x == *b as usize).unwrap_or(99999)).collect();
        ck_eq!(x.match_pattern(&r), if want { Some(places) } else { None }, "match_pattern on {:?}", p);
    }
    Ok(())
}
/// A pattern often made from the row
fn gen_pattern(rng: &mut Rng, p: &P) -> E {
    let mut e: E = vec![];
    let mut i = 0;
    let d = *rng.pick(&[2, 4, 10]);
    while i < p.len() {
        match rng.below(d) {
            0 => { e.push(GLOB); i += rng.below(4); }
            1 => { e.push(ANY); i += 1; }
            _ => { e.push(p[i] as i64); i += 1; }
        }
    }
    for _ in 0..*rng.pick(&[0, 0, 0, 1, 2]) { e.push(*rng.pick(&[GLOB, ANY])); }
    for _ in 0..*rng.pick(&[0, 0, 1, 2]) {
        if e.is_empty() { break; }
        let j = rng.below(e.len());
        match rng.below(6) {
            0 => e[j] = ANY,
            1 => e[j] = GLOB,
            2 => e[j] = rng.below(p.len() + 2) as i64,
            3 => { e.remove(j); }
            4 => e.insert(j, GLOB),
            _ => e.insert(j, ANY),
        }
    }
    e
}
pub fn c22(cx: &mut Cx) {
    for b in [RegexElem::Any, RegexElem::Glob] { cx.case(true, || format!("{:?}", b), || { ck!(b.bell().is_none(), "has a bell"); Ok(()) }); }
    cx.case(true, || "Bell elements".to_string(), || { for i in [0, 1, 32, 33, usize::MAX] { ck_eq!(RegexElem::Bell(Bell::from_index(i)).bell(), Some(Bell::from_index(i)), "bell of Bell({})", i); } Ok(()) });
    let rows: Vec<P> = (1..=4).flat_map(perms).collect();
    for n in 0..=4 {
        for s in seqs(5, n) {
            if cx.out_of_time() { break; }
            let e: E = s.iter().map(|x| *x as i64 - 2).collect();
            cx.case(true, || format!("elements {:?}", e), || pattern(&e, &rows));
        }
    }
    for _ in 0..cx.reps(800) {
        if cx.out_of_time() { break; }
        let n = stage(&mut cx.rng);
        let p = perm(&mut cx.rng, n);
        let q = perm(&mut cx.rng, n);
        let e = gen_pattern(&mut cx.rng, &p);
        let mut long: E = p.iter().map(|b| *b as i64).collect();
        for _ in 0..cx.rng.range(1, 2) { let j = if cx.rng.chance(1, 2) { long.len() } else { cx.rng.below(long.len() + 1) }; let x = *cx.rng.pick(&[GLOB, ANY, ANY, 0, n as i64, n as i64 - 1]); long.insert(j, x); }
        if cx.rng.chance(1, 3) { let j = cx.rng.below(long.len()); long.remove(j); }
        let ps = [p, q];
        cx.case(rx(&long, &ps[0]), || format!("elements {:?} (-1 any, -2 glob), rows {:?}", long, ps), || pattern(&long, &ps));
        cx.case(rx(&e, &ps[0]), || format!("elements {:?} (-1 any, -2 glob), rows {:?}", e, ps), || pattern(&e, &ps));
    }
    let alphabet: Vec<char> = "1234567890ETABCDFGHJKLMNPQRSUVWYZxX.x*. **-etv\u{e9}\u{1F514}O!".chars().collect();
    for _ in 0..cx.reps(300) {
        let t = text(&mut cx.rng, 40, &alphabet);
        cx.case(true, || format!("text {:?}", t), || {
            let want: E = t.chars().filter_map(|c| match c { 'x' | '.' => Some(ANY), '*' => Some(GLOB), c => name_index(c).map(|b| b as i64) }).collect();
            ck_eq!(un_elems(Regex::parse(&t).elems()), norm(&want), "parse");
            Ok(())
        });
    }
    every_char(cx, "patterns", |c| {
        let want: E = [Some(0i64), match c { 'x' | '.' => Some(ANY), '*' => Some(GLOB), c => name_index(c).map(|b| b as i64) }, Some(1)].iter().flatten().cloned().collect();
        ck_eq!(un_elems(Regex::parse(&format!("1{}2", c)).elems()), want, "parse");
        Ok(())
    });
}

fn has_run(p: &[usize]) -> bool { p.windows(2).all(|w| w[1] == w[0] + 1) || p.windows(2).all(|w| w[0] == w[1] + 1) }
fn runs_at(n: usize, len: usize, rows: &[P]) -> R {
    let s = st(n);
    let sets = [("front", Regex::runs_front(s, len)), ("back", Regex::runs_back(s, len)), ("all", Regex::all_runs(s, len)), ("front or back", Regex::runs_front_or_back(s, len)), ("runs, external", Regex::runs(s, len, false)), ("runs, internal", Regex::runs(s, len, true))];
    for (k, v) in &sets {
        ck!(len <= n || v.is_empty(), "{}: patterns although the run is longer than the stage", k);
        if len <= n { ck_eq!(v.len(), (n - len + 1) * if *k == "front or back" || *k == "runs, external" { 4 } else { 2 }, "{}: number of patterns", k); }
        for x in v { ck_eq!(un_elems(x.elems()), norm(&un_elems(x.elems())), "{}: a pattern is not normalised", k); }
    }
    for p in rows {
        let r = rb(p);
        let m = |i: usize| sets[i].1.iter().any(|x| x.matches(&r));
        let (f, b, a) = if len > n { (false, false, false) } else if len == 0 { (true, true, true) } else { (has_run(&p[..len]), has_run(&p[n - len..]), p.windows(len).any(has_run)) };
        let want = [f, b, a, f || b, f || b, a];
        for i in 0..6 { ck_eq!(m(i), want[i], "{}: some pattern for runs of {} matches {:?}", sets[i].0, len, p); }
    }
    Ok(())
}
/// Ways to fill the pattern's wildcards and globs with the remaining bells (None: more than u128 holds); the pattern is in normal form
fn fill(e: &E, n: usize) -> Option<u128> {
    let mut seen = std::collections::HashSet::new();
    let mut unfixed = n;
    for b in e.iter().filter(|b| **b >= 0) { if *b as usize >= n || !seen.insert(*b) { return Some(0); } unfixed -= 1; }
    // ways[m]: ways for the elements so far to take m of the unfixed bells, in order
    let anys = e.iter().filter(|x| **x == ANY).count();
    let globs = e.iter().filter(|x| **x == GLOB).count();
    if anys > unfixed || (globs == 0 && anys < unfixed) { return Some(0); }
    // orders of all unfixed bells, times the number of ways to cut what is left into the globs
    let mut cuts = vec![0u128; unfixed + 1];
    cuts[0] = 1;
    for _ in 0..globs { for m in 1..=unfixed { cuts[m] = cuts[m].checked_add(cuts[m - 1])?; } }
    let c = cuts[unfixed - anys];
    let mut f = 1u128;
    for i in 1..=unfixed { f = f.checked_mul(i as u128)?; }
    f.checked_mul(c)
}
fn fact(n: usize) -> Option<u128> { let mut f = 1u128; for i in 1..=n { f = f.checked_mul(i as u128)?; } Some(f) }
fn count(e: &E, n: usize) -> R {
    let got = Regex::from_vec(elems(e)).num_matching_rows(st(n));
    let want = fill(&norm(e), n);
    match (got, want) {
        (Some(g), Some(w)) => ck_eq!(g as u128, w, "number of matching rows"),
        (Some(g), None) => return Err(format!("reported {} although the number overflows", g)),
        (None, _) => {
            // Some count along the way has to overflow
            let anys = e.iter().filter(|x| **x == ANY).count();
            let globs = norm(e).iter().filter(|x| **x == GLOB).count();
            let fixed = e.iter().filter(|b| **b >= 0).count();
            let unfixed = n.saturating_sub(fixed);
            let big = |x: Option<u128>| x.map_or(true, |x| x > usize::MAX as u128);
            let b = globs.saturating_sub(1);
            ck!(want != Some(0), "nothing reported although no row matches");
            ck!(big(want) || big(fact(unfixed)) || big(fact(unfixed - anys + b)) || big(fact(b)), "nothing reported although nothing overflows");
        }
    }
    Ok(())
}
fn count_rows(e: &E, n: usize, rows: &[P]) -> R {
    count(e, n)?;
    let x = Regex::from_vec(elems(e));
    ck_eq!(x.num_matching_rows(st(n)), Some(rows.iter().filter(|r| rx(e, r)).count()), "number of matching rows (counted)");
    Ok(())
}
pub fn c23(cx: &mut Cx) {
    let rows: Vec<Vec<P>> = (0..=6).map(|n| if n == 0 { vec![] } else { perms(n) }).collect();
    for n in 1..=6usize { for len in 0..=n + 2 { if cx.out_of_time() { break; } cx.case(len <= n, || format!("runs of {} on {} bells", len, n), || runs_at(n, len, &rows[n])); } }
    for _ in 0..cx.reps(60) {
        if cx.out_of_time() { break; }
        let n = stage(&mut cx.rng).min(65);
        let len = cx.rng.range(0, n + 2);
        let mut ps: Vec<P> = vec![perm(&mut cx.rng, n), perm(&mut cx.rng, n)];
        // a row with a run of about this length somewhere
        let k = (len + cx.rng.below(3)).saturating_sub(1).clamp(1, n);
        for _ in 0..4 {
            let a = cx.rng.below(n - k + 1);
            let mut run: P = (a..a + k).collect();
            if cx.rng.chance(1, 2) { run.reverse(); }
            let mut rest: P = (0..n).filter(|x| !run.contains(x)).collect();
            for i in (1..rest.len()).rev() { let j = cx.rng.below(i + 1); rest.swap(i, j); }
            let at = *cx.rng.pick(&[0, rest.len(), rest.len() / 2]);
            let mut p: P = rest[..at].to_vec();
            p.extend(run);
            p.extend(&rest[at..]);
            ps.push(p);
        }
        cx.case(len <= n, || format!("runs of {} on {} bells, rows {:?}", len, n, ps), || runs_at(n, len, &ps));
    }
    for n in [33, 64, 256, 300] { for len in [0, 1, n - 1, n, n + 1, usize::MAX] { cx.case(true, || format!("runs of {} on {} bells", len, n), || runs_at(n, len, &[(0..n).collect(), (0..n).rev().collect()])); } }
    // All short patterns: counted over all rows
    for n in 1..=4usize { for k in 0..=4 { for s in seqs(n + 3, k) {
        if cx.out_of_time() { break; }
        let e: E = s.iter().map(|x| *x as i64 - 2).collect();
        cx.case(true, || format!("elements {:?} (-1 any, -2 glob) on {} bells", e, n), || count_rows(&e, n, &rows[n]));
    } } }
    for _ in 0..cx.reps(800) {
        if cx.out_of_time() { break; }
        let n = if cx.rng.chance(1, 2) { cx.rng.range(1, 6) } else { cx.rng.range(7, 40) };
        let p = perm(&mut cx.rng, n);
        let e = gen_pattern(&mut cx.rng, &p);
        cx.case(true, || format!("elements {:?} (-1 any, -2 glob) on {} bells", e, n), || if n <= 6 { count_rows(&e, n, &rows[n]) } else { count(&e, n) });
    }
    for n in [1, 20, 21, 22, 34, 35, 255, 256, 100000] { for e in [vec![], vec![GLOB], vec![ANY], vec![0], vec![GLOB, 0, GLOB], vec![ANY; 20], vec![ANY; 21], vec![ANY, GLOB], vec![n as i64 - 1, GLOB], vec![n as i64, GLOB]] {
        cx.case(true, || format!("elements {:?} (-1 any, -2 glob) on {} bells", e, n), || count(&e, n));
    } }
    // many wildcards: the numbers on the way overflow in different places
    for n in 15..=72usize { for i in 0..=n + 1 { for e in [[vec![ANY; i], vec![GLOB]].concat(), [vec![ANY; i / 2], vec![0], vec![ANY; i - i / 2], vec![GLOB]].concat(), [vec![GLOB, 0], vec![ANY; i], vec![GLOB, 1, GLOB]].concat(),
        [(0..n.saturating_sub(i) as i64).collect(), vec![ANY; i / 3], vec![GLOB]].concat()] {
        if cx.out_of_time() { break; }
        cx.case(true, || format!("elements {:?} (-1 any, -2 glob) on {} bells", e, n), || count(&e, n));
    } } }
    for n in [usize::MAX, usize::MAX - 1, 1 << 63] { for e in [vec![GLOB, 0, GLOB], vec![GLOB, 0, GLOB, 1, GLOB], vec![GLOB, 0, GLOB, 1, GLOB, 2, GLOB], vec![GLOB]] {
        cx.case(true, || format!("elements {:?} (-1 any, -2 glob) on {} bells", e, n), || { ck_eq!(Regex::from_vec(elems(&e)).num_matching_rows(st(n)), None, "number of rows"); Ok(()) });
    } }
}
#[allow(unused)]
pub fn row_of(r: &Row) -> P { un(r) }
