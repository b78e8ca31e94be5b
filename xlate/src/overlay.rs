use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnOverlay {
    pub spec: String,
    pub attrs: String,
    pub as_name: Option<String>,
    pub closures: BTreeMap<usize, String>,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub params: BTreeMap<String, String>,
    pub ret: Option<String>,
    pub generics: Option<String>,
    pub trusted: bool,
    pub opts: BTreeSet<String>,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOverlay>,
    pub mods: BTreeMap<String, String>,
    pub types: BTreeMap<String, String>,
    pub derives: BTreeMap<String, String>,
    pub drops: BTreeSet<String>,
    pub dropmods: BTreeSet<String>,
    pub dropuses: Vec<String>,
    pub features: BTreeSet<String>,
}

impl Overlay {
    pub fn load(dir: &Path) -> Overlay {
        let mut ov = Overlay::default();
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map_or(false, |e| e == "vc"))
            .collect();
        files.sort();
        for f in files {
            let s = std::fs::read_to_string(&f).unwrap();
            ov.parse(&s, &f.display().to_string());
        }
        ov
    }

    fn parse(&mut self, s: &str, file: &str) {
        let mut cur_fn: Option<String> = None;
        let mut sect: Vec<(String, String)> = Vec::new(); // (directive line, body)
        for line in s.lines() {
            if line.starts_with('@') {
                sect.push((line[1..].trim().to_string(), String::new()));
            } else if let Some(l) = sect.last_mut() {
                l.1.push_str(line);
                l.1.push('\n');
            } else if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                crate::die(&format!("{}: text before first directive: {}", file, line));
            }
        }
        for (d, body) in sect {
            let (cmd, arg) = match d.find(char::is_whitespace) {
                Some(i) => (d[..i].to_string(), d[i..].trim().to_string()),
                None => (d.clone(), String::new()),
            };
            macro_rules! cf {
                () => {{
                    let k = cur_fn.clone().unwrap_or_else(|| crate::die(&format!("{}: @{} outside a function", file, d)));
                    self.fns.get_mut(&k).unwrap()
                }};
            }
            match cmd.as_str() {
                "fn" => {
                    let (key, name) = match arg.find(" => ") {
                        Some(i) => (arg[..i].trim().to_string(), Some(arg[i + 4..].trim().to_string())),
                        None => (arg.clone(), None),
                    };
                    if self.fns.contains_key(&key) {
                        crate::die(&format!("{}: duplicate contract for {}", file, key));
                    }
                    self.fns.insert(key.clone(), FnOverlay { spec: body, as_name: name, ..Default::default() });
                    cur_fn = Some(key);
                }
                "trusted" => cf!().trusted = true,
                "attr" => {
                    let f = cf!();
                    f.attrs.push_str(&arg);
                    f.attrs.push_str(&body);
                }
                "closure" => {
                    let (n, rest) = split1(&arg);
                    cf!().closures.insert(n.parse().unwrap(), format!("{}\n{}", rest, body));
                }
                "loop" => {
                    let (n, rest) = split1(&arg);
                    cf!().loops.insert(n.parse().unwrap(), format!("{}\n{}", rest, body));
                }
                "hint" => cf!().hints.push((arg, body)),
                "param" => {
                    let (n, rest) = split1(&arg);
                    cf!().params.insert(n, rest);
                }
                "ret" => cf!().ret = Some(arg),
                "generics" => cf!().generics = Some(arg),
                "opt" => {
                    cf!().opts.insert(arg);
                }
                "mod" => {
                    cur_fn = None;
                    let e = self.mods.entry(arg).or_default();
                    e.push_str(&body);
                }
                "type" => {
                    cur_fn = None;
                    self.types.insert(arg, body);
                }
                "derive" => {
                    cur_fn = None;
                    let (n, rest) = split1(&arg);
                    self.derives.insert(n, rest);
                }
                "drop" => {
                    cur_fn = None;
                    self.drops.insert(arg);
                }
                "dropmod" => {
                    self.dropmods.insert(arg);
                }
                "dropuse" => self.dropuses.push(arg),
                "feature" => {
                    self.features.insert(arg);
                }
                "--" => {}
                _ => crate::die(&format!("{}: unknown directive @{}", file, d)),
            }
        }
    }
}

fn split1(s: &str) -> (String, String) {
    match s.find(char::is_whitespace) {
        Some(i) => (s[..i].to_string(), s[i..].trim().to_string()),
        None => (s.to_string(), String::new()),
    }
}

/// (requires, ensures, invariant) clause counts: top-level commas in each section
pub fn count_clauses(s: &str) -> (usize, usize, usize) {
    let mut out = [0usize; 3];
    let ts: proc_macro2::TokenStream = match s.parse() {
        Ok(t) => t,
        Err(_) => return (0, 0, 0),
    };
    let mut sect: Option<usize> = None;
    let mut pending = false;
    let mut in_quant = false;
    let mut bars = 0;
    for t in ts {
        match &t {
            proc_macro2::TokenTree::Ident(i) => {
                let k = i.to_string();
                let n = match k.as_str() {
                    "requires" => Some(0),
                    "ensures" => Some(1),
                    "invariant" | "invariant_except_break" => Some(2),
                    "decreases" | "recommends" | "opens_invariants" => Some(9),
                    _ => None,
                };
                if let Some(n) = n {
                    sect = if n == 9 { None } else { Some(n) };
                    pending = false;
                    continue;
                }
                if k == "forall" || k == "exists" {
                    in_quant = true;
                    bars = 0;
                }
            }
            proc_macro2::TokenTree::Punct(p) => {
                if in_quant && p.as_char() == '|' {
                    bars += 1;
                    if bars == 2 {
                        in_quant = false;
                    }
                }
                if p.as_char() == ',' && !in_quant {
                    pending = false;
                    continue;
                }
            }
            _ => {}
        }
        if let Some(n) = sect {
            if !pending {
                out[n] += 1;
                pending = true;
            }
        }
    }
    (out[0], out[1], out[2])
}
