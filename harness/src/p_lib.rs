//! Method libraries (C27)
use crate::gen::*;
use crate::p_bell::STAGE_NAMES;
use crate::p_method::{ring, title, words, CLASSES};
use crate::p_pn::{block_model, change};
use crate::{ck, ck_eq, Cx, R, Rng};
use bellframe::method::class::FullClass;
use bellframe::method_lib::QueryError;
use bellframe::{Method, MethodLib};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Stored { stage: usize, flags: (bool, bool, bool), class: usize, title: String, name: String, pn: String }
/// The methods of a library by stage and lower-case title
type Lib = BTreeMap<(usize, String), Stored>;

fn name_of(rng: &mut Rng) -> String {
    let n = if rng.chance(1, 12) { rng.range(4, 12) } else { rng.range(0, 3) };
    let ws = ["Plain", "Cambridge", "bristol", "St", "É", "ab", "B", "DOUBLE", "Norwich", "Court", "İ", "ΑΣ", "ß", "-", "2", "Little", "x"];
    (0..n).map(|_| *rng.pick(&ws)).collect::<Vec<_>>().join(" ")
}
fn note(rng: &mut Rng, n: usize) -> String {
    if rng.chance(1, 8) { return rng.pick(&["", "x+", "z", "9", "+,", "1.+"]).to_string(); }
    let k = rng.range(1, 6);
    (0..k).map(|_| if n % 2 == 0 && rng.chance(1, 2) { "x".to_string() } else if n % 2 == 0 { format!("1{}", NAMES.chars().nth(n - 1).unwrap()) } else { rng.pick(&["1", "3", "1"]).to_string() }).collect::<Vec<_>>().join(".") + *rng.pick(&["", "", ",1", ",2"])
}
fn rng_class(c: usize) -> usize { (c + 1) % 9 }
/// A random library as JSON, and what it holds
fn random_lib(rng: &mut Rng, most: usize) -> (Value, Lib) {
    let mut lib = Lib::new();
    let mut groups = vec![];
    for _ in 0..rng.below(most + 1) {
        let stage = if rng.chance(1, 6) { rng.range(1, 22) } else { rng.range(3, 8) };
        let flags = (rng.chance(1, 6), rng.chance(1, 4), rng.chance(1, 6));
        let class = rng.below(9);
        let mut ms = vec![];
        for _ in 0..rng.below(most + 1) {
            let name = name_of(rng);
            let usual = title(&name, &words(flags.0, flags.1, flags.2, CLASSES[class].0, true), stage);
            let st = STAGE_NAMES[stage - 1].to_string();
            let odd = |rng: &mut Rng, own: &str| match rng.below(6) {
                0 | 1 => format!("{} {}", name_of(rng), rng.pick(&[st.clone(), st.to_uppercase(), st.to_lowercase()])),
                // nearly the title the method would be given anyway
                2 => mixed(rng, own),
                3 => title(&name, &words(!flags.0, flags.1, flags.2, CLASSES[rng_class(class)].0, true), stage),
                4 => format!("{} {}", name, st),
                _ => own.replacen(' ', "  ", 1),
            };
            let title = if rng.chance(1, 3) { Some(odd(rng, &usual)).filter(|t| t.to_lowercase().rsplit(' ').next() == Some(&st.to_lowercase()[..])).unwrap_or(usual.clone()) } else { usual.clone() };
            if lib.contains_key(&(stage, title.to_lowercase())) { continue; }
            let pn = note(rng, stage);
            let mut m = json!({"n": name, "p": pn});
            if title != usual || rng.chance(1, 8) { m["t"] = json!(title); }
            ms.push(m);
            lib.insert((stage, title.to_lowercase()), Stored { stage, flags, class, title, name, pn });
        }
        let mut g = json!({"s": stage, "c": class, "m": ms});
        for (k, b) in [("j", flags.0), ("l", flags.1), ("d", flags.2)] { if b || rng.chance(1, 10) { g[k] = json!(b); } }
        groups.push(g);
    }
    (json!({ "groups": groups }), lib)
}
fn wanted<'a>(lib: &'a Lib, title: &str) -> Option<&'a Stored> {
    let t = title.to_lowercase();
    let stage = STAGE_NAMES.iter().position(|s| s.to_lowercase() == t.rsplit(' ').next().unwrap())? + 1;
    lib.get(&(stage, t))
}
fn is_method(m: &Method, s: &Stored) -> R {
    ck_eq!((m.title(), m.name()), (s.title.as_str(), s.name.as_str()), "title and name");
    // a method shows its class only in its debug text
    let (text, class) = (format!("{:?}", m), format!("{:?}", FullClass::new(s.flags.0, s.flags.1, s.flags.2, CLASSES[s.class].0)));
    if text.contains(" class: FullClass") { ck!(text.contains(&format!(" class: {}", class)), "class: {} does not show {}", text, class); }
    let b = block_model(&s.pn, s.stage).map_err(|e| format!("found with bad place notation ({:?})", e))?;
    let rows = ring(&b.iter().map(|p| change(p, s.stage)).collect::<Vec<_>>(), s.stage);
    ck_eq!(m.first_lead().all_rows().map(un).collect::<Vec<_>>(), rows, "rows");
    for (_, l) in m.first_lead().annot_rows().map(|r| (r.row(), r.annot())) { ck_eq!(*l, None, "label"); }
    Ok(())
}
fn answer<T: std::fmt::Debug>(got: Result<Method, QueryError<T>>, want: Option<&Stored>) -> Result<Option<T>, String> {
    match (got, want) {
        (Ok(m), Some(s)) => is_method(&m, s).map(|_| None),
        (Ok(m), None) => Err(format!("found {:?}, which is not stored", m.title())),
        (Err(QueryError::PnParseErr { pn, error }), Some(s)) => { ck_eq!((pn, Some(error)), (s.pn.as_str(), block_model(&s.pn, s.stage).err()), "place notation error"); Ok(None) }
        (Err(QueryError::NotFound(_)), Some(s)) => Err(format!("{:?} is stored but not found", s.title)),
        (Err(QueryError::NotFound(t)), None) => Ok(Some(t)),
        (Err(e), None) => Err(format!("got {:?}", e)),
    }
}
fn distance(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() { for j in 0..=b.len() {
        d[i][j] = if i == 0 { j } else if j == 0 { i } else { (d[i - 1][j] + 1).min(d[i][j - 1] + 1).min(d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize) };
    } }
    d[a.len()][b.len()]
}
fn mixed(rng: &mut Rng, t: &str) -> String {
    match rng.below(4) {
        0 => t.to_string(), 1 => t.to_uppercase(), 2 => t.to_lowercase(),
        _ => t.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
fn damaged(rng: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(c.len() + 1);
        match rng.below(4) { 0 if i < c.len() => { c.remove(i); } 1 if i < c.len() => c[i] = 'q', 2 => c.insert(i, ' '), _ => c.insert(i, 'm') }
    }
    c.into_iter().collect()
}
/// Everything a library's JSON says, without the order
fn said(v: &Value) -> Result<Vec<(u64, u64, bool, bool, bool, String, String, String)>, String> {
    let mut out = vec![];
    for g in v["groups"].as_array().ok_or("no groups")? {
        let f = |k: &str| g.get(k).map_or(false, |b| b.as_bool().unwrap());
        let (s, c) = (g["s"].as_u64().ok_or("no stage")?, g["c"].as_u64().ok_or("no class")?);
        for m in g["m"].as_array().ok_or("no methods")? {
            let n = m["n"].as_str().ok_or("no name")?;
            let t = m.get("t").and_then(|t| t.as_str()).map(|t| t.to_string()).unwrap_or_else(|| title(n, &words(f("j"), f("l"), f("d"), CLASSES[c as usize].0, true), s as usize));
            out.push((s, c, f("j"), f("l"), f("d"), t, n.to_string(), m["p"].as_str().ok_or("no place notation")?.to_string()));
        }
    }
    out.sort();
    Ok(out)
}

pub fn c27(cx: &mut Cx) {
    for round in 0..cx.reps(400) {
        if cx.out_of_time() { break; }
        let most = if round % 300 == 1 { 40 } else if round % 20 == 0 { 12 } else { 4 };
        let (v, lib) = random_lib(&mut cx.rng, most);
        let text = v.to_string();
        let mut asks: Vec<String> = vec!["".into(), "Major".into(), "Plain Bob Minor".into(), "nothing like it".into(), " ".into(), "x".into()];
        for s in lib.values() {
            asks.push(mixed(&mut cx.rng, &s.title));
            if cx.rng.chance(1, 3) { asks.push(damaged(&mut cx.rng, &s.title)); }
            if cx.rng.chance(1, 5) { asks.push(mixed(&mut cx.rng, &s.name)); }
            if cx.rng.chance(1, 5) { asks.push(title(&s.name, "", cx.rng.range(1, 22))); }
        }
        if asks.len() > 100 { asks.truncate(100); }
        let k = if most == 40 || cx.rng.chance(1, 10) { usize::MAX - cx.rng.below(2) } else { cx.rng.range(0, 9) };
        cx.case(!lib.is_empty(), || format!("library {}", text), || {
            let l = MethodLib::from_json(&text).map_err(|e| e.to_string())?;
            let j = l.to_json().map_err(|e| e.to_string())?;
            let back = MethodLib::from_json(&j).map_err(|e| e.to_string())?;
            let jv: Value = serde_json::from_str(&j).map_err(|e| e.to_string())?;
            ck_eq!(said(&jv)?, said(&v)?, "the JSON written");
            for (which, l) in [("the library", &l), ("the library read back", &back)] {
                for t in &asks {
                    let want = wanted(&lib, t);
                    answer(l.get_by_title(t), want).map_err(|e| format!("looking {:?} up in {}: {}", t, which, e))?;
                    let sug = answer(l.get_by_title_with_suggestions(t, k), want).map_err(|e| format!("looking {:?} up with suggestions in {}: {}", t, which, e))?;
                    if let Some(sug) = sug {
                        let t = t.to_lowercase();
                        let mut d: Vec<usize> = lib.keys().map(|s| distance(&t, &s.1)).collect();
                        d.sort();
                        d.truncate(k);
                        ck_eq!(sug.iter().map(|s| s.1).collect::<Vec<_>>(), d, "distances of suggestions for {:?} from {}", t, which);
                        let mut left: Vec<(&str, usize)> = lib.iter().map(|(k, s)| (s.title.as_str(), distance(&t, &k.1))).collect();
                        for s in &sug {
                            let i = left.iter().position(|x| x == s);
                            ck!(i.is_some(), "{:?} is suggested for {:?}, but no such title is stored at that distance (or it comes twice)", s, t);
                            left.remove(i.unwrap());
                        }
                    }
                }
            }
            Ok(())
        });
    }
    // what the contracts assume of lower case
    cx.case(true, || "lower case of every character".into(), || {
        for c in (0..=0x10ffffu32).filter_map(char::from_u32) { let l = c.to_lowercase().collect::<String>(); ck_eq!(l.to_lowercase(), l, "lower case of the lower case of {:?}", c); }
        Ok(())
    });
    // every class, alone
    for c in 0..9u8 { for f in 0..8 { for s in 1..=22usize {
        let (j, l, d) = (f & 1 > 0, f & 2 > 0, f & 4 > 0);
        cx.case(true, || format!("a library of one method of class {:?} {:?} on {} bells", CLASSES[c as usize].1, (j, l, d), s), || {
            let t = title("A", &words(j, l, d, CLASSES[c as usize].0, true), s);
            let st = Stored { stage: s, flags: (j, l, d), class: c as usize, title: t.clone(), name: "A".into(), pn: "1".into() };
            let v = json!({"groups": [{"s": s, "c": c, "j": j, "l": l, "d": d, "m": [{"n": "A", "p": "1"}]}]});
            let lib = MethodLib::from_json(&v.to_string()).map_err(|e| e.to_string())?;
            let back = MethodLib::from_json(&lib.to_json().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            answer(lib.get_by_title(&t), Some(&st))?;
            answer(back.get_by_title(&t.to_uppercase()), Some(&st)).map_err(|e| format!("read back: {}", e))?;
            Ok(())
        });
    } } }
    cx.case(true, || "QueryError".into(), || {
        let e: QueryError<usize> = QueryError::NotFound(3);
        match e.clone().map_not_found(|x| x + 1) { QueryError::NotFound(4) => {} x => return Err(format!("map_not_found gives {:?}", x)) }
        match e.unwrap_parse_err() { Err(3) => {} x => return Err(format!("unwrap_parse_err gives {:?}", x.map(|_| ()))) }
        let err = block_model("", 4).unwrap_err();
        let e: QueryError<usize> = QueryError::PnParseErr { pn: "q", error: err.clone() };
        match e.clone().map_not_found(|x| x + 1) { QueryError::PnParseErr { pn: "q", error } => ck_eq!(error, err, "error"), x => return Err(format!("map_not_found gives {:?}", x)) }
        ck!(std::panic::catch_unwind(|| { let _ = e.unwrap_parse_err(); }).is_err(), "unwrap_parse_err of a place notation error returns");
        Ok(())
    });
}
