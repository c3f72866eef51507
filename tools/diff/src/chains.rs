//! Chains of causes. `chains make SECS SEED OUT` writes one short rejected input per distinct chain with
//! what its links looked like; `chains check FILE` walks the chains of the tree at hand.
//!
//! A recorded chain is compared only where the error is still the same value (its Debug text is). Then
//! every link that still displays its own recorded message must be followed by its recorded cause. A
//! reader that fails must in any case be found in the chain of whatever error comes back.
use crate::r#gen;
use std::collections::BTreeMap;
use std::error::Error;
use std::io::{self, Read};

#[derive(Debug)]
struct Planted;
impl std::fmt::Display for Planted {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("planted failure of the reader")
    }
}
impl Error for Planted {}

struct Failing<'a> {
    d: &'a [u8],
    fired: &'a mut bool,
}
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.d.is_empty() {
            *self.fired = true;
            return Err(io::Error::new(io::ErrorKind::Other, Planted));
        }
        let n = b.len().min(self.d.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

struct Link {
    debug: String,
    text: String,
    planted: bool,
}
fn chain(e: &(dyn Error + 'static)) -> Vec<Link> {
    let mut v = vec![];
    let mut c = Some(e);
    while let Some(x) = c {
        let planted = x.downcast_ref::<io::Error>().is_some_and(|e| e.get_ref().is_some_and(|r| r.is::<Planted>())) || x.to_string() == Planted.to_string();
        v.push(Link { debug: format!("{x:?}"), text: x.to_string(), planted });
        if v.len() > 200 {
            break;
        }
        c = x.source();
    }
    v
}
/// the error of decoding the first `at` bytes from a reader that fails then, or all of them
fn run(bytes: &[u8], at: Option<usize>) -> Option<(Vec<Link>, bool)> {
    std::panic::catch_unwind(|| {
        let mut fired = false;
        let r = match at {
            None => wadec::decode_module(bytes),
            Some(n) => wadec::decode_module(Failing { d: &bytes[..n], fired: &mut fired }),
        };
        r.err().map(|e| (chain(&e), fired))
    })
    .ok()?
}

/// the variants on the path to the root cause, without the values they carry
fn skeleton(v: &[Link]) -> u64 {
    let names: String = v[0].debug.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| w.starts_with(|c: char| c.is_ascii_uppercase())).flat_map(|w| [w, "|"]).collect();
    fnv(&names)
}

pub fn make(secs: u64, seed: u64, out: &str) {
    let mut best: BTreeMap<u64, (Option<usize>, Vec<u8>)> = BTreeMap::new();
    let mut add = |b: &[u8], at: Option<usize>| {
        if b.len() > 160 {
            return;
        }
        let mut p = crate::refdec::P::new(b, 64);
        let _ = p.module();
        if p.too_big || p.locals > 1000 {
            return;
        }
        let Some((v, _)) = run(b, at) else { return };
        // strings and values inside the errors vary without end: what counts is the path
        let k = skeleton(&v);
        let e = best.entry(k).or_insert_with(|| (at, b.to_vec()));
        if b.len() < e.1.len() {
            *e = (at, b.to_vec());
        }
    };
    let start = std::time::Instant::now();
    for &(fam, _) in r#gen::FAMILIES {
        let mut g = r#gen::G::new(seed);
        r#gen::family(&mut g, fam, &mut |_, o| add(&o, None));
    }
    let mut g = r#gen::G::new(seed + 1);
    while start.elapsed().as_secs() < secs {
        let mut o = g.module();
        if g.r.chance(600) {
            g.mutate(&mut o);
        }
        add(&o, None);
        if o.len() < 80 {
            for at in 0..o.len() {
                add(&o[..at], None);
            }
        }
    }
    let mut s = String::new();
    for (at, b) in best.values() {
        let (v, _) = run(b, *at).unwrap();
        let std_text = |t: &str| t == "failed to fill whole buffer" || t.contains("utf-8");
        let links: Vec<String> = v.iter().map(|l| format!("{:016x}:{:016x}{}", fnv(&l.debug), fnv(&l.text), if std_text(&l.text) { "!" } else { "" })).collect();
        s += &format!("{} {}\n", crate::hex(b), links.join(","));
    }
    std::fs::write(out, s).unwrap();
    println!("{} chains", best.len());
}

fn mismatch(reader: &str, bytes: &[u8], detail: &str) {
    println!("{{\"mismatch\":{{\"kind\":\"chain\",\"props\":[\"C18\"],\"family\":\"chains\",\"reader\":{},\"bytes\":\"{}\",\"len\":{},\"detail\":{}}}}}", crate::esc(reader), crate::hex(bytes), bytes.len(), crate::esc(detail));
}
fn show(v: &[Link]) -> String {
    v.iter().map(|l| format!("\n  {}", l.text)).collect()
}

fn parse(links: &str) -> Vec<(u64, u64, bool)> {
    let hash = |s: &str| u64::from_str_radix(s, 16).unwrap();
    links.split(',').filter_map(|l| l.split_once(':')).map(|(a, b)| (hash(a), hash(b.trim_end_matches('!')), b.ends_with('!'))).collect()
}
fn against(bytes: &[u8], want: &[(u64, u64, bool)]) -> Result<bool, String> {
    let Some((v, _)) = run(bytes, None) else { return Ok(false) };
    if v.is_empty() || fnv(&v[0].debug) != want[0].0 {
        return Ok(false); // another error than the recorded one, or none: not for this check to judge
    }
    // what an error of the standard library says cannot have been reworded
    let last = want[want.len() - 1];
    if last.2 && !v.iter().any(|l| fnv(&l.text) == last.1) {
        return Err(format!("the root cause (an error of the standard library) is no longer in the chain:{}", show(&v)));
    }
    for (i, w) in want.iter().enumerate().take(want.len() - 1) {
        let Some(j) = v.iter().position(|l| fnv(&l.debug) == w.0 && fnv(&l.text) == w.1) else { continue };
        let next = want[i + 1].0;
        if !v[j + 1..].iter().any(|l| fnv(&l.debug) == next) {
            return Err(format!("the cause of {:?} ({}) is no longer in the chain:{}", v[j].text, v[j].debug, show(&v)));
        }
    }
    Ok(true)
}
fn planted(bytes: &[u8], at: usize) -> Result<bool, String> {
    match run(bytes, Some(at)) {
        // a block type of two bytes whose second byte does not arrive is taken for a negative index (DESIGN.md)
        Some((v, true)) if v.last().is_some_and(|l| l.debug.starts_with("NegativeTypeIndex")) => Ok(false),
        Some((v, true)) if !v.iter().any(|l| l.planted) => Err(format!("the reader fails after {at} bytes, and its error is not in the chain:{}", show(&v))),
        r => Ok(r.is_some()),
    }
}

pub fn check(file: &str) {
    let (mut same, mut other, mut faults, mut bad) = (0, 0, 0, 0);
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let Some((h, links)) = l.split_once(' ') else { continue };
        let bytes = crate::unhex(h);
        let want = parse(links);
        match against(&bytes, &want) {
            Ok(true) => same += 1,
            Ok(false) => other += 1,
            Err(d) => {
                bad += 1;
                mismatch("slice", &bytes, &d)
            }
        }
        for at in 0..=bytes.len() {
            match planted(&bytes, at) {
                Ok(_) => faults += 1,
                Err(d) => {
                    bad += 1;
                    mismatch(&format!("fault-at {at}"), &bytes[..at], &d);
                    break;
                }
            }
        }
        if bad > 30 {
            break;
        }
    }
    println!("{{\"stats\":{{\"chains_compared\":{same},\"errors_no_longer_the_recorded_ones\":{other},\"reader_failures\":{faults}}}}}");
}

/// one case again: chains replay READER HEX FILE
pub fn replay(reader: &str, h: &str, file: &str) {
    let bytes = crate::unhex(h);
    let r = match reader.strip_prefix("fault-at ") {
        Some(at) => planted(&bytes, at.parse().unwrap()),
        None => {
            let text = std::fs::read_to_string(file).unwrap_or_default();
            let links = text.lines().find_map(|l| l.split_once(' ').filter(|(x, _)| *x == h)).map(|x| x.1).unwrap_or("");
            let want = parse(links);
            if want.is_empty() { Ok(false) } else { against(&bytes, &want) }
        }
    };
    match r {
        Ok(_) => println!("no mismatch"),
        Err(d) => {
            println!("MISMATCH chain: {d}");
            std::process::exit(1)
        }
    }
}
