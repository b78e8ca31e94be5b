//! Classification (C25), methods (C26) and calls (C31)
use crate::gen::*;
use crate::p_bell::STAGE_NAMES;
use crate::p_pn::{block_model, change, places};
use crate::p_row::row_is;
use crate::p_vec::svec;
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::method::class::{Class, FullClass, HuntBellClass};
use bellframe::method::generate_title;
use bellframe::{AnnotBlock, Block, Call, Method, PnBlock};

type L = AnnotBlock<Option<String>>;
fn lead(rows: &[P]) -> L { AnnotBlock::with_annots_from_indices(svec(rows[0].len(), rows), |_| None).unwrap() }
/// Long names
pub const LONG: [&str; 2] = ["A very long name indeed, of more than thirty characters", "Éé İı ΑΣ ß 🦀 names in other scripts too, and long"];
pub const CLASSES: [(Class, &str); 9] = [(Class::Principle, "Principle"), (Class::Place, "Place"), (Class::Bob, "Bob"), (Class::TrebleBob, "Treble Bob"), (Class::Delight, "Delight"),
    (Class::Surprise, "Surprise"), (Class::TreblePlace, "Treble Place"), (Class::Alliance, "Alliance"), (Class::Hybrid, "Hybrid")];
fn hunt_class(c: Class) -> Option<HuntBellClass> {
    Some(match c {
        Class::Principle => return None,
        Class::Place | Class::Bob => HuntBellClass::Plain,
        Class::TrebleBob | Class::Delight | Class::Surprise => HuntBellClass::TrebleDodging,
        Class::TreblePlace => HuntBellClass::TreblePlace, Class::Alliance => HuntBellClass::Alliance, Class::Hybrid => HuntBellClass::Hybrid,
    })
}
pub fn words(j: bool, l: bool, d: bool, c: Class, title: bool) -> String {
    let name = CLASSES.iter().find(|x| x.0 == c).unwrap().1;
    let shown = !title || !matches!(c, Class::Principle | Class::Hybrid);
    let mut w = vec![];
    if j { w.push("Jump") }
    if d { w.push("Differential") }
    if l && shown { w.push("Little") }
    if shown { w.push(name) }
    w.join(" ")
}
pub fn title(name: &str, class: &str, n: usize) -> String { [name, class, STAGE_NAMES[n - 1]].iter().filter(|s| !s.is_empty()).cloned().collect::<Vec<_>>().join(" ") }

// ---- The class of a lead, from the definitions
fn at(r: &[usize], b: usize) -> usize { r.iter().position(|x| *x == b).unwrap() }
struct Model { little: bool, differential: bool, class: Class }
/// The class of a hunt bell's path: 0 plain, 1 treble dodging, 2 treble place, 3 alliance, 4 hybrid
fn path_class(p: &[usize]) -> usize {
    let n = p.len();
    let rows_in = |q: usize| p.iter().filter(|x| **x == q).count();
    if p.iter().all(|x| *x == p[0]) { return 2; }
    if p.iter().all(|x| rows_in(*x) == 2) { return 0; }
    let same_backwards = (0..n).any(|i| (0..n).all(|t| p[(2 * n - 1 - i - t) % n] == p[t]));
    if !same_backwards { return 4; }
    if p.iter().any(|x| rows_in(*x) != rows_in(p[0])) { return 3; }
    let blows = (0..n).filter(|i| p[*i] == p[(i + 1) % n]).count();
    if blows > 2 { 2 } else if blows == 2 { 1 } else { 4 }
}
fn model(rows: &[P]) -> Model {
    let st = rows[0].len();
    let n = rows.len() - 1;
    let nx = |b: usize| at(&rows[n], b);
    let course = |b: usize, t: usize| { let mut b = b; for _ in 0..t / n { b = nx(b); } at(&rows[t % n], b) };
    let period = |b: usize| { let mut k = 1; let mut c = nx(b); while c != b { c = nx(c); k += 1; } k };
    let long: Vec<usize> = (0..st).map(period).filter(|k| *k > 1).collect();
    let differential = long.iter().any(|k| *k != long[0]);
    let path = |b: usize| (0..n).map(|i| at(&rows[i], b)).collect::<Vec<_>>();
    let hunts: Vec<(usize, usize)> = (0..st).filter(|b| nx(*b) == *b).map(|b| (b, path_class(&path(b)))).collect();
    let best = match hunts.iter().map(|h| h.1).min() { None => return Model { little: false, differential, class: Class::Principle }, Some(b) => b };
    let leaders: Vec<usize> = hunts.iter().filter(|h| h.1 == best).map(|h| h.0).collect();
    let little = leaders.iter().all(|b| { let p = path(*b); (0..st).any(|q| !p.contains(&q)) });
    let class = match best {
        0 => {
            let sharp = |a: usize, b: usize, c: usize| a == c && (b + 1 == a || b == a + 1);
            let bobbed = (0..st).filter(|b| !leaders.contains(b)).any(|b| (0..period(b) * n).any(|t| sharp(course(b, t), course(b, t + 1), course(b, t + 2))));
            if bobbed { Class::Bob } else { Class::Place }
        }
        1 => {
            let mut sections = vec![];
            for b in &leaders { let p = path(*b); let m = *p.iter().min().unwrap(); for i in 0..n { if (p[i] - m) / 2 != (p[(i + 1) % n] - m) / 2 { sections.push(i); } } }
            let internal = |i: usize| (1..st.max(1) - 1).any(|q| rows[i][q] == rows[i + 1][q]);
            if sections.iter().all(|i| !internal(*i)) { Class::TrebleBob } else if sections.iter().all(|i| internal(*i)) { Class::Surprise } else { Class::Delight }
        }
        2 => Class::TreblePlace, 3 => Class::Alliance, _ => Class::Hybrid,
    };
    Model { little, differential, class }
}
fn classify(rows: &[P]) -> R {
    let m = model(rows);
    let c = FullClass::classify(&lead(rows));
    ck_eq!(c.class(), m.class, "class");
    ck_eq!(c.is_little(), m.little, "little");
    ck_eq!(c.is_differential(), m.differential, "differential");
    ck!(!c.is_jump(), "is a jump method");
    ck_eq!(c.to_string(), words(false, m.little, m.differential, m.class, false), "class in words");
    if rows[0].len() <= 22 {
        let meth = Method::with_name("A b".to_string(), lead(rows));
        ck_eq!(meth.title(), title("A b", &words(false, m.little, m.differential, m.class, true), rows[0].len()), "title");
        ck_eq!(meth.name(), "A b", "name");
        let meth = Method::with_name(LONG[1].to_string(), lead(rows));
        ck_eq!(meth.title(), title(LONG[1], &words(false, m.little, m.differential, m.class, true), rows[0].len()), "title with a long name");
        let meth = Method::with_name(String::new(), lead(rows));
        ck_eq!(meth.title(), title("", &words(false, m.little, m.differential, m.class, true), rows[0].len()), "title without a name");
    }
    Ok(())
}
/// The rows of a lead of these changes
pub fn ring(changes: &[P], n: usize) -> Vec<P> {
    let mut rows = vec![id(n)];
    for c in changes { let r = mul(rows.last().unwrap(), c); rows.push(r); }
    rows
}
/// All changes of n bells
fn changes(n: usize) -> Vec<P> {
    fn go(i: usize, n: usize, cur: &mut P, out: &mut Vec<P>) {
        if i >= n { out.push(change(cur, n)); return; }
        cur.push(i); go(i + 1, n, cur, out); cur.pop();
        if i + 1 < n { go(i + 2, n, cur, out); }
    }
    let mut out = vec![];
    go(0, n, &mut vec![], &mut out);
    out
}
/// A random change which moves the bell in place a to place b
fn change_with(rng: &mut Rng, n: usize, a: usize, b: usize, denom: usize) -> P {
    let mut r = id(n);
    if a != b { r.swap(a, b); }
    let mut i = 0;
    while i + 1 < n {
        if i != a && i != b && i + 1 != a && i + 1 != b && !rng.chance(1, denom) { r.swap(i, i + 1); i += 2 } else { i += 1 }
    }
    r
}
/// A treble path of some kind, going round a lead
fn treble(rng: &mut Rng, n: usize) -> P {
    let lo = if rng.chance(1, 3) { rng.below(n) } else { 0 };
    let hi = if rng.chance(1, 3) { rng.range(lo, n - 1) } else { n - 1 };
    let half: P = match rng.below(6) {
        0 | 1 => (lo..=hi).collect(),
        2 | 3 => { let d = rng.range(1, 2);
            // sometimes into the sections by jumps
            let jumps = rng.chance(1, 4);
            (lo..=hi).step_by(2).flat_map(|q| { let o = (q + 1).min(hi); let (q, o) = if jumps && rng.chance(1, 2) { (o, q) } else { (q, o) }; let mut v = vec![]; for _ in 0..=d { v.push(q); v.push(o); } v }).collect() }
        4 => { let mut q = rng.range(lo, hi); (0..rng.range(1, 8)).map(|_| { let c = q; q = match rng.below(3) { 0 => q, 1 => (q + 1).min(hi), _ => q.max(lo + 1) - 1 }; c }).collect() }
        _ => { let k = if hi - lo < 4 && rng.chance(1, 20) { *rng.pick(&[64, 65, 128, 129]) } else { *rng.pick(&[2, 2, 2, 3, 4]) }; (lo..=hi).flat_map(|q| std::iter::repeat(q).take(k)).collect() }
    };
    let mut p = half.clone();
    match rng.below(8) {
        0 => { let l = p.len(); p.extend(half[1..l.max(1)].iter().rev().take(l.saturating_sub(2))); }
        _ => p.extend(half.iter().rev()),
    }
    if rng.chance(1, 3) { let k = rng.below(p.len()); p.rotate_left(k); }
    p
}
fn guided(rng: &mut Rng) -> Vec<P> {
    loop {
        let n = match rng.below(16) { 0 => rng.range(10, 24), 1 => stage(rng).min(if rng.chance(1, 6) { 130 } else { 40 }), _ => rng.range(1, 9) };
        let p = treble(rng, n);
        let l = p.len();
        if (0..l).any(|i| p[i].abs_diff(p[(i + 1) % l]) > 1) && !rng.chance(1, 2) { continue; }
        let d = *rng.pick(&[2, 4, 10, 1000]);
        let mut cs: Vec<P> = (0..l).map(|i| change_with(rng, n, p[i], p[(i + 1) % l], d)).collect();
        if rng.chance(1, 2) { for i in 0..l / 2 { let j = l - 2 - i; if l >= 2 && j > i && (p[i], p[i + 1]) == (p[(j + 1) % l], p[j]) { cs[j] = cs[i].clone(); } } }
        return ring(&cs, n);
    }
}
/// A lead of a treble dodging method with the treble, bells from `lo` to `hi`; `kind` says which sections have internal places
fn dodging(rng: &mut Rng, n: usize, kind: usize) -> Vec<P> {
    let lo = if rng.chance(1, 3) { 2 * rng.below(n / 4) } else { 0 };
    let hi = if rng.chance(1, 3) { lo + 3 } else { lo + (n - lo) / 2 * 2 - 1 };
    let mut p: P = (lo..=hi).step_by(2).flat_map(|q| [q, q + 1, q, q + 1]).collect();
    p.extend(p.clone().iter().rev());
    let l = p.len();
    if rng.chance(1, 2) { let k = rng.below(l); p.rotate_left(k); }
    let sections: Vec<usize> = (0..l).filter(|i| (p[*i] - lo) / 2 != (p[(i + 1) % l] - lo) / 2).collect();
    let odd = *rng.pick(&sections);
    let cs: Vec<P> = (0..l).map(|i| {
        let (a, b) = (p[i], p[(i + 1) % l]);
        if !sections.contains(&i) { let d = *rng.pick(&[2, 4, 1000]); return change_with(rng, n, a, b, d); }
        let (a, b) = (a.min(b), a.max(b));
        let mut c = id(n);
        c.swap(a, b);
        // pairs outwards from the treble's, so that only the first and last places are made
        let mut pairs: Vec<usize> = (b + 1..n - 1).step_by(2).collect();
        pairs.extend((1..=a / 2).map(|k| a - 2 * k));
        let internal = match kind { 0 => false, 1 => true, 2 => rng.chance(1, 2), 3 => i != odd, _ => i == odd };
        if internal && !pairs.is_empty() { let k = rng.below(pairs.len()); pairs.remove(k); }
        for q in pairs { c.swap(q, q + 1); }
        c
    }).collect();
    ring(&cs, n)
}
pub fn c25(cx: &mut Cx) {
    for (c, name) in CLASSES {
        cx.case(true, || format!("class {}", name), || {
            ck_eq!(c.name(), name, "name");
            ck_eq!(c.to_string(), name, "Display");
            ck_eq!(c.name_in_title(), if matches!(c, Class::Principle | Class::Hybrid) { None } else { Some(name) }, "name in a title");
            ck_eq!(c.hunt_bell_class(), hunt_class(c), "hunt bell class");
            ck_eq!(c.is_plain(), hunt_class(c) == Some(HuntBellClass::Plain), "is_plain");
            ck_eq!(c.is_treble_dodging(), hunt_class(c) == Some(HuntBellClass::TrebleDodging), "is_treble_dodging");
            ck_eq!(c.is_symmetric_hunter(), !matches!(c, Class::Principle | Class::Hybrid), "is_symmetric_hunter");
            for k in 0..8 {
                let (j, l, d) = (k & 1 > 0, k & 2 > 0, k & 4 > 0);
                let f = FullClass::new(j, l, d, c);
                ck_eq!((f.is_jump(), f.is_little(), f.is_differential(), f.class()), (j, l, d, c), "parts");
                ck_eq!(f.to_string(), words(j, l, d, c, false), "class in words");
                for n in 1..=22 { for s in ["", "A", "Ab c", "é", " ", "A ", " A", "\t", "A\n", "a  b", "Little", "Bob", "minor", LONG[0], LONG[1]] { ck_eq!(generate_title(s, f, st(n)), title(s, &words(j, l, d, c, true), n), "title"); } }
            }
            Ok(())
        });
    }
    for n in 1..=5 {
        let cs = changes(n);
        let max = match n { 1 => 4, 2 => 6, 3 => 5, 4 => 4, _ => 3 };
        for k in 1..=max { for s in seqs(cs.len(), k) {
            let rows = ring(&s.iter().map(|i| cs[*i].clone()).collect::<Vec<_>>(), n);
            cx.case(true, || format!("lead {:?}", rows), || classify(&rows));
        } }
    }
    for n in 1..=4 { for p in perms(n) { for q in perms(n) { let rows = vec![id(n), p.clone(), q.clone()]; cx.case(true, || format!("lead {:?}", rows), || classify(&rows)); } } }
    for _ in 0..cx.reps(6) { for n in [5, 6, 8, 9, 10, 12, 17, 18, 22, 23, 33, 34, 40, 64, 65] { for kind in 0..5 {
        if cx.out_of_time() { break; }
        let rows = dodging(&mut cx.rng, n, kind);
        cx.case(true, || format!("lead {:?}", rows), || classify(&rows));
    } } }
    for _ in 0..cx.reps(10000) {
        if cx.out_of_time() { break; }
        let rows = guided(&mut cx.rng);
        cx.case(true, || format!("lead {:?}", rows), || classify(&rows));
        let n = stage(&mut cx.rng).min(40);
        let k = cx.rng.range(1, 12);
        let rows: Vec<P> = std::iter::once(id(n)).chain((0..k).map(|_| perm(&mut cx.rng, n))).collect();
        cx.case(true, || format!("lead {:?}", rows), || classify(&rows));
        let n = cx.rng.range(2, 12);
        let k = cx.rng.range(1, 20);
        let cs: Vec<P> = (0..k).map(|_| { let a = cx.rng.below(n); change_with(&mut cx.rng, n, a, a, 4) }).collect();
        let rows = ring(&cs, n);
        cx.case(true, || format!("lead {:?}", rows), || classify(&rows));
    }
}

// ---- Methods
fn labels(m: &Method, ls: &[Option<String>]) -> R {
    for (i, l) in ls.iter().enumerate() { ck_eq!(m.get_label(i), l.as_deref(), "label {}", i); }
    for t in ["LE", "a", "", "é", "le", "LE ", "A", "L"] {
        let w: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].as_deref() == Some(t)).collect();
        ck_eq!(m.label_indices(t).collect::<Vec<_>>(), w, "indices of the label {:?}", t);
    }
    Ok(())
}
fn rings(m: &Method, rows: &[P], ls: &[Option<String>]) -> R {
    let n = rows.len() - 1;
    ck_eq!(m.stage(), st(rows[0].len()), "stage");
    ck_eq!(m.lead_len(), n, "lead length");
    row_is(m.lead_head(), &rows[n], "lead head")?;
    #[allow(deprecated)]
    for b in [m.lead(), m.first_lead()] { ck_eq!(b.all_rows().map(un).collect::<Vec<_>>(), rows, "first lead"); ck_eq!(b.annots().cloned().collect::<Vec<_>>(), ls, "labels of the first lead"); }
    for i in 0..=n { row_is(m.row_in_plain_lead(i), &rows[i], "row of the plain lead")?; }
    labels(m, ls)?;
    let mut course: Vec<P> = vec![];
    let mut head = id(rows[0].len());
    loop {
        course.extend(rows[..n].iter().map(|r| mul(&head, r)));
        head = mul(&head, &rows[n]);
        if head == id(head.len()) { break; }
    }
    let all: Vec<P> = course.iter().cloned().chain(std::iter::once(head)).collect();
    let pc = m.plain_course();
    ck_eq!(pc.all_rows().map(un).collect::<Vec<_>>(), all, "plain course");
    let an: Vec<(usize, Option<String>)> = pc.annots().map(|a| (a.sub_lead_idx(), a.label().map(|s| s.to_string()))).collect();
    ck_eq!(an, (0..course.len()).map(|i| (i % n, ls[i % n].clone())).collect::<Vec<_>>(), "annotations of the plain course");
    for i in (0..course.len().min(60)).chain([course.len() - 1]) {
        row_is(&m.row_in_plain_course(i), &course[i], "row of the plain course")?;
        row_is(&m.row_in_plain_course(i + course.len()), &course[i], "row after the plain course")?;
        row_is(&m.row_in_plain_course(i + course.len() * 7), &course[i], "row after seven plain courses")?;
    }
    Ok(())
}
/// A lead which comes round in not too many leads
fn short(rng: &mut Rng) -> Vec<P> {
    loop {
        let rows = if rng.chance(1, 2) { guided(rng) } else { let n = rng.range(1, 12); let k = rng.range(1, 12); std::iter::once(id(n)).chain((0..k).map(|_| perm(rng, n))).collect() };
        let mut h = rows.last().unwrap().clone();
        let mut k = 1;
        while h != id(h.len()) && k < 60 { h = mul(&h, rows.last().unwrap()); k += 1; }
        if k < 60 { return rows; }
    }
}
pub fn method_text(rng: &mut Rng) -> (String, usize) {
    let n = if rng.chance(1, 5) { rng.range(11, 22) } else { rng.range(1, 10) };
    let k = if rng.chance(1, 10) { rng.range(9, 40) } else { rng.range(0, 8) };
    let mut t = String::new();
    for _ in 0..k { t += *rng.pick(&["x", "-", "14", "12", "16", "36", "1", "3", "18", "5", ".", ".", ",", "+", "123", "34", "."]); t += *rng.pick(&["", "."]); }
    (t, n)
}
pub fn c26(cx: &mut Cx) {
    // plain courses of many leads
    for (lens, k) in [(vec![3usize, 4, 5, 7], 40usize), (vec![4, 9, 5, 7], 11), (vec![2, 3, 5, 7, 11], 3), (vec![31], 5), (vec![60], 7)] {
        let n = lens.iter().sum();
        let mut p: P = vec![];
        for l in &lens { let b = p.len(); p.extend((0..*l).map(|i| b + (i + 1) % l)); }
        let mut rows: Vec<P> = std::iter::once(id(n)).chain((1..k).map(|_| perm(&mut cx.rng, n))).collect();
        rows.push(p);
        let ls: Vec<Option<String>> = (0..k).map(|i| if i % 3 == 0 { Some("LE".to_string()) } else { None }).collect();
        cx.case(true, || format!("a method whose lead head has cycles of {:?}, with {} changes in a lead", lens, k), || {
            let b: L = AnnotBlock::with_annots_from_indices(svec(n, &rows), |i| ls[i].clone()).unwrap();
            rings(&Method::new("T".into(), "Name".into(), FullClass::new(false, false, false, Class::Bob), b), &rows, &ls)
        });
    }
    for _ in 0..cx.reps(1500) {
        if cx.out_of_time() { break; }
        let mut rows = short(&mut cx.rng);
        if cx.rng.chance(1, 15) {
            // a long lead
            let m = rows[0].len();
            let more: Vec<P> = (0..cx.rng.range(20, 150)).map(|_| perm(&mut cx.rng, m)).collect();
            rows.splice(1..1, more);
        }
        let n = rows.len() - 1;
        let ls: Vec<Option<String>> = (0..n).map(|_| cx.rng.pick(&[None, None, Some("LE"), Some("a"), Some(""), Some("é"), Some("LE "), Some("le")]).map(|s| s.to_string())).collect();
        let (at, new) = (cx.rng.below(n), cx.rng.pick(&[None, Some("LE"), Some("b"), Some("")]).map(|s| s.to_string()));
        cx.case(true, || format!("method {:?} with labels {:?}, relabelled {:?} at {}", rows, ls, new, at), || {
            let b: L = AnnotBlock::with_annots_from_indices(svec(rows[0].len(), &rows), |i| ls[i].clone()).unwrap();
            // Titles only exist up to 22 bells
            let mut m = if rows[0].len() <= 22 { Method::with_name("Name".into(), b.clone()) } else { Method::new("T".into(), "Name".into(), FullClass::new(false, false, false, Class::Bob), b.clone()) };
            rings(&m, &rows, &ls)?;
            let mut ls = ls.clone();
            m.set_label(at, new.clone());
            ls[at] = new.clone();
            rings(&m, &rows, &ls)?;
            m.set_lead_end_label();
            ls[0] = Some("LE".into());
            labels(&m, &ls)?;
            ck_eq!(m.name(), "Name", "name");
            let c = FullClass::new(false, true, false, Class::Bob);
            let m = Method::new("T".into(), "N".into(), c, b);
            ck_eq!((m.title(), m.name()), ("T", "N"), "title and name");
            Ok(())
        });
        let (mut t, n) = method_text(&mut cx.rng);
        if cx.rng.chance(1, 400) { t = format!("{}.", t).repeat(*cx.rng.pick(&[100, 300, 600])); }
        cx.case(true, || format!("place notation {:?} on {} bells", t, n), || {
            let name = if t.len() % 2 == 0 { "X" } else { LONG[0] };
            let got = Method::from_place_not_string(name.into(), st(n), &t);
            let b = match block_model(&t, n) { Err(e) => { ck_eq!(got.err(), Some(e), "parse error"); return Ok(()); } Ok(b) => b };
            let m = match got { Ok(m) => m, Err(e) => return Err(format!("does not parse: {:?}", e)) };
            let rows = ring(&b.iter().map(|p| change(p, n)).collect::<Vec<_>>(), n);
            let k = rows.len() - 1;
            let mo = model(&rows);
            let ti = title(name, &words(false, mo.little, mo.differential, mo.class, true), n);
            ck_eq!((m.title(), m.name()), (ti.as_str(), name), "title and name");
            ck_eq!(m.first_lead().all_rows().map(un).collect::<Vec<_>>(), rows, "rows");
            labels(&m, &vec![None; k])?;
            let m = Method::with_lead_end(name.into(), &PnBlock::parse(&t, st(n)).unwrap());
            ck_eq!((m.title(), m.name()), (ti.as_str(), name), "title and name with lead end");
            ck_eq!(m.first_lead().all_rows().map(un).collect::<Vec<_>>(), rows, "rows with lead end");
            labels(&m, &(0..k).map(|i| if i == k - 1 { Some("LE".to_string()) } else { None }).collect::<Vec<_>>())
        });
    }
}

// ---- Calls
fn call_is(c: &Call, rows: &[P], notation: char, location: &str, covers: usize) -> R {
    let k = rows.len() - 1;
    ck_eq!((c.notation(), c.location(), c.cover_len(), c.len(), c.stage()), (notation, location, covers, k, st(rows[0].len())), "notation, location, rows covered and rung, stage");
    ck_eq!(c.block().all_rows().map(un).collect::<Vec<_>>(), rows, "rows");
    row_is(c.transposition(), &rows[k], "transposition")?;
    let eff = rows.iter().map(|r| r.iter().enumerate().filter(|(i, x)| i != *x).map(|(i, _)| i + 1).max().unwrap_or(1)).max().unwrap();
    ck_eq!(c.effective_stage().num_bells(), eff, "effective stage");
    Ok(())
}
pub fn c31(cx: &mut Cx) {
    for (c, k) in [("x14", 128usize), ("x14", 700), ("34.14.", 40_000)] {
        cx.case(true, || format!("a call of {:?} {} times", c, k), || {
            let t = c.repeat(k);
            let b = block_model(&t, 6).map_err(|e| format!("{:?}", e))?;
            let rows = ring(&b.iter().map(|p| change(p, 6)).collect::<Vec<_>>(), 6);
            let p = PnBlock::parse(&t, st(6)).unwrap();
            call_is(&Call::le_bob(p.clone()), &rows, '-', "LE", 2 * k)?;
            call_is(&Call::le_single(p), &rows, 's', "LE", 2 * k)
        });
    }
    for _ in 0..cx.reps(3000) {
        if cx.out_of_time() { break; }
        let (mut t, mut n) = method_text(&mut cx.rng);
        if cx.rng.chance(1, 6) {
            // changes of the first bells, then one of more bells and back
            n = cx.rng.range(4, 33);
            let change = |rng: &mut Rng, m: usize| { let mut p = if m > 0 { places(rng, m) } else { vec![] }; p.extend(m..n); p.iter().map(|i| &NAMES[*i..=*i]).collect::<String>() };
            let m = cx.rng.below(n);
            let k = cx.rng.range(1, 70);
            let mut v: Vec<String> = (0..k).map(|_| change(&mut cx.rng, m)).collect();
            let big = change(&mut cx.rng, n);
            if !big.is_empty() { let i = cx.rng.below(v.len() + 1); v.insert(i, big.clone()); if cx.rng.chance(1, 2) { v.insert(i, big); } }
            t = v.join(".");
        }
        let b = match block_model(&t, n) { Ok(b) => b, Err(_) => continue };
        let rows = ring(&b.iter().map(|p| change(p, n)).collect::<Vec<_>>(), n);
        let k = rows.len() - 1;
        let covers = *cx.rng.pick(&[0, 1, k, k + 1, usize::MAX]);
        cx.case(true, || format!("call {:?} on {} bells", t, n), || {
            let p = PnBlock::parse(&t, st(n)).unwrap();
            call_is(&Call::le_bob(p.clone()), &rows, '-', "LE", k)?;
            call_is(&Call::le_single(p), &rows, 's', "LE", k)?;
            let blk: Block = AnnotBlock::with_annots_from_indices(svec(n, &rows), |_| ()).unwrap();
            call_is(&Call::new('x', "Wrong".into(), covers, blk), &rows, 'x', "Wrong", covers)
        });
        // a call made of any rows, even of one row
        let n = stage(&mut cx.rng);
        let rows: Vec<P> = (0..cx.rng.range(1, 5)).map(|_| perm(&mut cx.rng, n)).collect();
        cx.case(true, || format!("a call of the rows {:?}, covering {}", rows, covers), || {
            let blk: Block = AnnotBlock::with_annots_from_indices(svec(n, &rows), |_| ()).unwrap();
            call_is(&Call::new('é', "".into(), covers, blk), &rows, 'é', "", covers)
        });
    }
}
