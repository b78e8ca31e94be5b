use crate::gen::*;
use crate::{ck, ck_eq, Cx};
use bellframe::{Bell, IncompatibleStages, Stage};
use std::convert::TryFrom;

pub fn c10(cx: &mut Cx) {
    every_char(cx, "Bell::from_name", |c| { ck_eq!(Bell::from_name(c).map(|b| b.index()), name_index(c), "from_name"); Ok(()) });
    let mut idx: Vec<usize> = (0..2000).collect();
    for s in 1..64 { for d in [0usize, 1, 2, 32, 33] { idx.push((1usize << s).wrapping_sub(d)); idx.push((1usize << s).wrapping_add(d)); } }
    idx.extend([usize::MAX, usize::MAX - 1, usize::MAX - 33]);
    for _ in 0..cx.reps(2000) { let s = cx.rng.below(64); idx.push((cx.rng.next() >> s) as usize); }
    for i in idx {
        let k = cx.rng.below(5000);
        cx.case(true, || format!("bell of index {} and shift {}", i, k), || {
            let b = Bell::from_index(i);
            ck_eq!(b.index(), i, "index");
            let c = NAMES.chars().nth(if i < 100 { i } else { 100 });
            ck_eq!(b.to_char(), c, "to_char");
            ck_eq!(Bell::from_number(i).map(|b| b.index()), if i == 0 { None } else { Some(i - 1) }, "from_number");
            if i < usize::MAX {
                ck_eq!(b.number(), i + 1, "number");
                let name = match c { Some(c) => c.to_string(), None => format!("<{}>", i + 1) };
                ck_eq!(b.name(), name, "name");
                ck_eq!(b.to_string(), name, "Display");
            }
            if let Some(j) = i.checked_add(k) {
                ck_eq!((b + k).index(), j, "Add");
                let mut x = b; x += k;
                ck_eq!(x.index(), j, "AddAssign");
                ck_eq!((Bell::from_index(j) - k).index(), i, "Sub");
                let mut x = Bell::from_index(j); x -= k;
                ck_eq!(x.index(), i, "SubAssign");
            }
            if i > 0 {
                ck_eq!(Bell::tenor(Stage::new(i)).index(), i - 1, "Bell::tenor");
                ck_eq!(Stage::new(i).tenor().index(), i - 1, "Stage::tenor");
            }
            Ok(())
        });
    }
    cx.case(true, || "Bell::TREBLE".into(), || { ck_eq!(Bell::TREBLE.index(), 0, "TREBLE"); Ok(()) });
}

pub const STAGE_NAMES: &[&str] = &["One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples",
    "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two"];

pub fn c11(cx: &mut Cx) {
    let mut ns: Vec<usize> = (0..1000).collect();
    for s in 8..64 { for d in 0..3 { ns.push((1usize << s) - d); ns.push((1usize << s) + d); } }
    ns.push(usize::MAX);
    for _ in 0..cx.reps(1000) { let s = cx.rng.below(64); ns.push((cx.rng.next() >> s) as usize); }
    for n in ns.clone() {
        cx.case(true, || format!("stage of {} bells", n), || {
            match Stage::try_from(n) {
                Err(_) => ck!(n == 0, "try_from rejects {}", n),
                Ok(s) => {
                    ck!(n != 0, "try_from accepts zero");
                    ck_eq!(s.num_bells(), n, "num_bells");
                    #[allow(deprecated)]
                    { ck_eq!(s.as_usize(), n, "as_usize"); }
                    ck_eq!(s, Stage::new(n), "new");
                    ck_eq!(s.is_even(), n % 2 == 0, "is_even");
                    ck_eq!(s.tenor().index(), n - 1, "tenor");
                    ck_eq!(s.name(), STAGE_NAMES.get(n - 1).copied(), "name");
                    ck_eq!(s.to_string(), STAGE_NAMES.get(n - 1).map(|s| s.to_string()).unwrap_or(format!("{} bells", n)), "Display");
                    if n <= 4096 { ck_eq!(s.bells().map(|b| b.index()).collect::<Vec<_>>(), id(n), "bells"); } else {
                        ck_eq!(s.bells().take(3).map(|b| b.index()).collect::<Vec<_>>(), id(3), "first bells");
                    }
                }
            }
            Ok(())
        });
    }
    cx.case(true, || "Stage::new(0)".into(), || { ck!(std::panic::catch_unwind(|| Stage::new(0)).is_err(), "a stage of no bells was made"); Ok(()) });
    let consts = [Stage::ONE, Stage::TWO, Stage::SINGLES, Stage::MINIMUS, Stage::DOUBLES, Stage::MINOR, Stage::TRIPLES, Stage::MAJOR, Stage::CATERS, Stage::ROYAL, Stage::CINQUES,
        Stage::MAXIMUS, Stage::SEXTUPLES, Stage::FOURTEEN, Stage::SEPTUPLES, Stage::SIXTEEN];
    for (i, c) in consts.iter().enumerate() { cx.case(true, || format!("constant {}", STAGE_NAMES[i]), || { ck_eq!(c.num_bells(), i + 1, "constant"); Ok(()) }); }
    let mut texts: Vec<String> = STAGE_NAMES.iter().flat_map(|s| vec![s.to_string(), s.to_lowercase(), s.to_uppercase(), format!("{} ", s.to_lowercase()), format!(" {}", s.to_lowercase())]).collect();
    texts.extend(["", "bells", "23 bells", "twentytwo", "twenty two", "twenty-three", "twelve", "six", "-", "eight"].iter().map(|s| s.to_string()));
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz-ABC é".chars().collect();
    for _ in 0..cx.reps(3000) {
        let t = if cx.rng.chance(1, 2) { text(&mut cx.rng, 12, &alpha) } else {
            let mut t: Vec<char> = STAGE_NAMES[cx.rng.below(22)].to_lowercase().chars().collect();
            let i = cx.rng.below(t.len());
            match cx.rng.below(4) { 0 => { t.remove(i); } 1 => t[i] = *cx.rng.pick(&alpha), 2 => t.insert(i, *cx.rng.pick(&alpha)), _ => t[i] = t[i].to_ascii_uppercase() }
            t.into_iter().collect()
        };
        texts.push(t);
    }
    every_char(cx, "Stage::from_lower_case_name", |c| {
        for t in [format!("minor{}", c), format!("{}minor", c), format!("{}ne", c)] { ck_eq!(Stage::from_lower_case_name(&t).map(|s| s.num_bells()), if t == "one" { Some(1) } else { None }, "from_lower_case_name({:?})", t); }
        Ok(())
    });
    for t in texts {
        cx.case(true, || format!("Stage::from_lower_case_name({:?})", t), || {
            let want = STAGE_NAMES.iter().position(|s| s.to_lowercase() == t).map(|i| i + 1);
            ck_eq!(Stage::from_lower_case_name(&t).map(|s| s.num_bells()), want, "from_lower_case_name");
            Ok(())
        });
    }
    for _ in 0..cx.reps(3000) {
        let a = *cx.rng.pick(&ns[1..]);
        let b = if cx.rng.chance(1, 2) { a } else { *cx.rng.pick(&ns[1..]) };
        if a == 0 || b == 0 { continue; }
        cx.case(true, || format!("stages {} and {}", a, b), || {
            let r = IncompatibleStages::test_err(st(a), st(b));
            ck_eq!(r.is_err(), a != b, "test_err");
            let mut o = None;
            ck!(IncompatibleStages::test_err_opt(&mut o, st(a)).is_ok(), "test_err_opt on None fails");
            ck_eq!(o, Some(st(a)), "test_err_opt sets the stage");
            let r2 = IncompatibleStages::test_err_opt(&mut o, st(b));
            ck_eq!(r2.is_err(), a != b, "test_err_opt");
            ck_eq!(o, Some(st(a)), "test_err_opt keeps the stage");
            for e in [r, r2] { if let Err(e) = e { ck_eq!(e.to_string(), format!("Incompatible stages: {} (lhs), {} (rhs)", st(a), st(b)), "text of the error"); } }
            Ok(())
        });
    }
}
