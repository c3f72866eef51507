use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub parser: Option<String>,
    pub why: Option<String>, // what the error says (C15); by default why_X for parser sp_X
    pub attrs: Vec<String>,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_measure: BTreeMap<usize, String>,
    pub start: String,
    pub cases: Vec<String>, // the body is checked once per case of the input, and the cases cover every input
    pub loop_cases: Option<(usize, Vec<String>)>, // the same for what a round of a loop starts from; anything else is one more case
    pub sig: String,      // for specialised closures: captured parameters / T / E
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    pub whys: BTreeMap<String, (bool, String)>, // the why_* of the specification: opaque or not, and the type of the error
}

/// the why_* functions a specification text defines
pub fn scan_whys(s: &str) -> BTreeMap<String, (bool, String)> {
    let mut r = BTreeMap::new();
    let mut opaque = false;
    for l in s.lines() {
        let here = l.contains("verifier::opaque");
        if let Some(p) = l.find("spec fn why_") {
            let n: String = l[p + 8..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let ty = l.split_once("(e: ").and_then(|x| x.1.split_once(", ")).map(|x| x.0.replace(' ', "")).unwrap_or_default();
            r.insert(n, (opaque || here, ty));
        }
        opaque = here;
    }
    r
}

/// a::B<c::D> -> B<D>
pub fn last_segments(s: &str) -> String {
    let mut o = String::new();
    let mut w = String::new();
    for c in s.replace("::", ":").chars() {
        if c == ':' {
            w.clear();
        } else if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            o.push_str(&std::mem::take(&mut w));
            o.push(c);
        }
    }
    o + &w
}

impl Contract {
    /// drops the lines about a why_* that is not defined
    pub fn keep_known_whys(&mut self, known: &BTreeMap<String, (bool, String)>) {
        let ok = |l: &str| {
            let mut r = l;
            while let Some(p) = r.find("why_") {
                let n: String = r[p..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !known.contains_key(&n) {
                    return false;
                }
                r = &r[p + n.len()..];
            }
            true
        };
        let keep = |s: &str| -> String { s.lines().filter(|l| ok(l)).map(|l| format!("{l}\n")).collect() };
        for s in [&mut self.requires, &mut self.ensures, &mut self.decreases, &mut self.start] {
            *s = keep(s);
        }
        for m in [&mut self.loops, &mut self.loop_start, &mut self.loop_end, &mut self.loop_after, &mut self.loop_before, &mut self.loop_measure] {
            for v in m.values_mut() {
                *v = keep(v);
            }
        }
    }
}

pub fn load(dir: &Path) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let s = std::fs::read_to_string(&f).unwrap();
        let mut keys: Vec<String> = vec![];
        let mut cur: Option<Contract> = None;
        let mut sect: String = String::new();
        for line in s.lines() {
            if line.starts_with("##") {
                continue;
            }
            if let Some(k) = line.strip_prefix("=== fn ") {
                if let Some(x) = cur.take() {
                    for k in keys.drain(..) {
                        c.fns.insert(k, x.clone());
                    }
                }
                keys = k.split(" , ").map(|x| x.trim().to_string()).collect();
                cur = Some(Contract::default());
                sect.clear();
                continue;
            }
            let Some(x) = cur.as_mut() else { continue };
            if let Some(r) = line.strip_prefix("parser: ") {
                x.parser = Some(r.trim().to_string());
                sect.clear();
                continue;
            }
            if let Some(r) = line.strip_prefix("why: ") {
                x.why = Some(r.trim().to_string());
                continue;
            }
            if let Some(r) = line.strip_prefix("attr: ") {
                x.attrs.push(r.trim().to_string());
                continue;
            }
            if let Some(r) = line.strip_prefix("--- ") {
                sect = r.trim().to_string();
                continue;
            }
            let tgt: &mut String = match sect.split_whitespace().next().unwrap_or("") {
                "requires" => &mut x.requires,
                "ensures" => &mut x.ensures,
                "decreases" => &mut x.decreases,
                "start" => &mut x.start,
                "sig" => &mut x.sig,
                "loop_cases" => {
                    let n: usize = sect.split_whitespace().nth(1).unwrap().parse().unwrap();
                    if !line.trim().is_empty() {
                        x.loop_cases.get_or_insert((n, vec![])).1.push(line.trim().trim_end_matches(',').to_string());
                    }
                    continue;
                }
                "cases" => {
                    if !line.trim().is_empty() {
                        x.cases.push(line.trim().trim_end_matches(',').to_string());
                    }
                    continue;
                }
                k @ ("loop" | "loop_start" | "loop_end" | "loop_after" | "loop_before" | "loop_measure") => {
                    let n: usize = sect.split_whitespace().nth(1).unwrap().parse().unwrap();
                    match k {
                        "loop" => x.loops.entry(n).or_default(),
                        "loop_start" => x.loop_start.entry(n).or_default(),
                        "loop_measure" => x.loop_measure.entry(n).or_default(),
                        "loop_before" => x.loop_before.entry(n).or_default(),
                        "loop_after" => x.loop_after.entry(n).or_default(),
                        _ => x.loop_end.entry(n).or_default(),
                    }
                }
                _ => continue,
            };
            tgt.push_str(line);
            tgt.push('\n');
        }
        if let Some(x) = cur.take() {
            for k in keys.drain(..) {
                c.fns.insert(k, x.clone());
            }
        }
    }
    c
}

/// `@list NAME TYPE` expands to the spec of a length-prefixed list of NAME.
pub fn preprocess_spec(s: &str) -> String {
    let mut o = String::new();
    for line in s.lines() {
        if let Some(r) = line.strip_prefix("@list ") {
            let mut it = r.splitn(2, ' ');
            let n = it.next().unwrap();
            let t = it.next().unwrap();
            o.push_str(&format!(
                "pub open spec fn sp_items__{n}(acc: Seq<{t}>, s: Seq<u8>, n: nat) -> Option<(Seq<{t}>, Seq<u8>)> decreases n {{ if n == 0 {{ Some((acc, s)) }} else {{ match sp_{n}(s) {{ None => None, Some((x, t)) => sp_items__{n}(acc.push(x), t, (n - 1) as nat) }} }} }}\n\
                 #[verifier::opaque] pub open spec fn sp_list__{n}(s: Seq<u8>) -> Option<(Seq<{t}>, Seq<u8>)> {{ match sp_u32(s) {{ None => None, Some((n, t)) => sp_items__{n}(seq![], t, n as nat) }} }}\n"
            ));
        } else if let Some(r) = line.strip_prefix("@whylist ") {
            let w: Vec<&str> = r.rsplitn(2, ' ').collect();
            let (e, r) = (w[0], w[1]);
            let (n, _) = r.split_once(' ').unwrap();
            o.push_str(&format!(
                "pub open spec fn why_items__{n}(e: DecodeListError<{e}>, pos: nat, s: Seq<u8>, n: nat) -> bool decreases n {{\n\
                 match e {{ DecodeListError::ParseElement {{ position, source }} => n > 0 && (match sp_{n}(s) {{ None => position == pos && why_{n}(source, s), Some((x, t)) => why_items__{n}(e, pos + 1, t, (n - 1) as nat) }}), DecodeListError::DecodeLength(_) => false }} }}\n\
                 #[verifier::opaque] pub open spec fn why_list__{n}(e: DecodeListError<{e}>, s: Seq<u8>) -> bool {{\n\
                 match e {{ DecodeListError::ParseElement {{ .. }} => (match sp_u32(s) {{ None => false, Some((n, t)) => why_items__{n}(e, 0, t, n as nat) }}), DecodeListError::DecodeLength(x) => why_u32(x, s) }} }}\n"
            ));
        } else {
            o.push_str(line);
            o.push('\n');
        }
    }
    o
}
