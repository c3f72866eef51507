//! Runs the real decoder against the reference decoder: the search for a failing input.
mod chains;
mod compare;
#[path = "gen.rs"]
mod gen_;
mod refdec;
use gen_ as r#gen;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::io::{self, Read, Write};
use std::os::unix::fs::FileExt;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};
use wadec::decode_module;

// ------------------------------------------------------------------ allocation accounting
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static CASE: OnceLock<File> = OnceLock::new();
const BIG: usize = 256 << 20;
struct A;
fn grow(n: usize) {
    if n > BIG && ON.load(Relaxed) {
        if let Some(f) = CASE.get() {
            let _ = f.write_at(&(n as u64).to_le_bytes(), 16);
        }
        std::process::abort();
    }
    let c = CUR.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(c, Relaxed);
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static GA: A = A;

/// what the decoder may have live at once, from what it was given
pub const MEM_BASE: usize = 64 << 10;
pub const MEM_PER_BYTE: usize = 1024;
pub const MEM_PER_LOCAL: usize = 64;

// ------------------------------------------------------------------ readers
#[derive(Clone, Debug, PartialEq)]
enum Rd {
    Slice,
    One,
    Chunks(u64),
    Interrupted(u64),
    /// an error of this kind once `at` bytes were delivered; then (if `go`) the rest of the data
    Fault { at: usize, kind: u8, go: bool },
    /// Ok(0) once after `at` bytes, then the rest of the data
    Gap { at: usize },
    Truncate { at: usize },
}
const FAULTS: [io::ErrorKind; 6] = [
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidData,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
];
/// what a failing reader's error can be told by
#[derive(Debug)]
struct ReadersOwn;
impl std::fmt::Display for ReadersOwn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("the reader's own error")
    }
}
impl std::error::Error for ReadersOwn {}
thread_local! { static FIRED: Cell<bool> = const { Cell::new(false) }; }

struct Sr<'a> {
    d: &'a [u8],
    pos: usize,
    rd: Rd,
    rng: r#gen::Rng,
    fired: bool,
}
impl<'a> Sr<'a> {
    fn new(d: &'a [u8], rd: Rd) -> Sr<'a> {
        let seed = match rd { Rd::Chunks(s) | Rd::Interrupted(s) => s, _ => 0 };
        Sr { d, pos: 0, rd, rng: r#gen::Rng(seed), fired: false }
    }
    fn give(&mut self, b: &mut [u8], n: usize) -> io::Result<usize> {
        let n = n.min(b.len()).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Read for Sr<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        match self.rd {
            Rd::Slice | Rd::Truncate { .. } => self.give(b, usize::MAX),
            Rd::One => self.give(b, 1),
            Rd::Chunks(_) => {
                let n = 1 + self.rng.below(7);
                self.give(b, n)
            }
            Rd::Interrupted(_) => {
                if self.rng.chance(400) {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                let n = 1 + self.rng.below(20);
                self.give(b, n)
            }
            Rd::Fault { at, kind, go } => {
                if self.pos >= at && (!self.fired || !go) {
                    self.fired = true;
                    FIRED.set(true);
                    return Err(io::Error::new(FAULTS[kind as usize], ReadersOwn));
                }
                let n = if self.fired { usize::MAX } else { at - self.pos };
                self.give(b, n)
            }
            Rd::Gap { at } => {
                if self.pos >= at && !self.fired {
                    self.fired = true;
                    return Ok(0);
                }
                let n = if self.fired { usize::MAX } else { at - self.pos };
                self.give(b, n)
            }
        }
    }
}
fn rd_text(r: &Rd) -> String {
    match r {
        Rd::Slice => "slice".into(),
        Rd::One => "one".into(),
        Rd::Chunks(s) => format!("chunks {s}"),
        Rd::Interrupted(s) => format!("interrupted {s}"),
        Rd::Fault { at, kind, go } => format!("fault {at} {kind} {}", *go as u8),
        Rd::Gap { at } => format!("gap {at}"),
        Rd::Truncate { at } => format!("truncate {at}"),
    }
}
fn rd_parse(s: &str) -> Rd {
    let w: Vec<&str> = s.split_whitespace().collect();
    let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    match w.first().copied().unwrap_or("slice") {
        "one" => Rd::One,
        "chunks" => Rd::Chunks(n(1)),
        "interrupted" => Rd::Interrupted(n(1)),
        "fault" => Rd::Fault { at: n(1) as usize, kind: n(2) as u8 % 6, go: n(3) == 1 },
        "gap" => Rd::Gap { at: n(1) as usize },
        "truncate" => Rd::Truncate { at: n(1) as usize },
        _ => Rd::Slice,
    }
}

// ------------------------------------------------------------------ one case
struct Bad {
    kind: &'static str,
    tags: u32,
    detail: String,
}
struct Stats {
    evals: u64,
    accepted: u64,
    rejected: u64,
    skipped: u64,
    faulted: u64,
    max_ratio: f64,
    /// most memory seen beyond 1 KiB-per-byte-free base, for calibration
    max_over: usize,
}
thread_local! { static PANIC: Cell<Option<String>> = const { Cell::new(None) }; }

enum Got {
    Ok(Box<wadec::Module>),
    Err(String),
    Panic(String),
}
fn run_real(bytes: &[u8], rd: &Rd) -> (Got, usize) {
    let data = match rd { Rd::Truncate { at } => &bytes[..*at.min(&bytes.len())], _ => bytes };
    FIRED.set(false);
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    ON.store(true, Relaxed);
    let r = std::panic::catch_unwind(|| match rd {
        Rd::Slice | Rd::Truncate { .. } => decode_module(data),
        _ => decode_module(Sr::new(data, rd.clone())),
    });
    ON.store(false, Relaxed);
    let peak = PEAK.load(Relaxed) - base;
    let g = match r {
        Ok(Ok(m)) => Got::Ok(Box::new(m)),
        Ok(Err(e)) => {
            let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                // the error chain must be printable too
                let mut s: Option<&dyn std::error::Error> = Some(&e);
                while let Some(x) = s {
                    let _ = x.to_string();
                    s = x.source();
                }
                format!("{e:?}")
            }));
            match d {
                Ok(d) => Got::Err(d),
                Err(_) => Got::Panic(format!("while formatting the error: {}", PANIC.take().unwrap_or_default())),
            }
        }
        Err(_) => Got::Panic(PANIC.take().unwrap_or_default()),
    };
    (g, peak)
}
const DEPTH: usize = 300;

fn check(bytes: &[u8], rd: &Rd, fam: u32, st: &mut Stats) -> Option<Bad> {
    st.evals += 1;
    let t = |n: u32| 1u32 << n;
    let seen: &[u8] = match rd {
        Rd::Truncate { at } | Rd::Gap { at } => &bytes[..(*at).min(bytes.len())],
        _ => bytes,
    };
    let mut p = refdec::P::new(seen, DEPTH);
    let r = p.module();
    if p.too_big {
        st.skipped += 1;
        st.evals -= 1;
        return None;
    }
    let locals = p.locals.min(refdec::MAX_LOCALS) as usize;
    let (g, peak) = run_real(bytes, rd);
    let fault = matches!(rd, Rd::Fault { .. });
    let plain = *rd == Rd::Slice;
    let m_before = MEM_BASE + MEM_PER_LOCAL * locals;
    if peak > m_before {
        let over = (peak - m_before) as f64 / bytes.len().max(1) as f64;
        if over > st.max_ratio {
            st.max_ratio = over;
            st.max_over = peak;
        }
    }
    let mem = (peak > m_before + MEM_PER_BYTE * bytes.len()).then(|| {
        format!("{peak} bytes of memory in use at once while decoding {} bytes of input with {locals} locals", bytes.len())
    });
    let b = match (&g, &r) {
        (Got::Panic(m), r) => Some(Bad {
            kind: "panic",
            // neither accepted nor rejected: also a failure of what the bytes are about
            tags: t(13) | if fault { t(14) } else { r.as_ref().map_or_else(|e| e.tag, |_| 0) | fam },
            detail: format!("panicked: {m}"),
        }),
        (Got::Ok(m), _) if fault => {
            st.faulted += 1;
            Some(Bad { kind: "fault-accepted", tags: t(14), detail: format!("a module was returned although the reader failed ({})\n{:.2000}", rd_text(rd), format!("{m:?}")) })
        }
        (Got::Err(d), _) if fault => {
            st.faulted += 1;
            compare::foreign_io(d, FIRED.get()).map(|f| Bad {
                kind: "wrong-io-error",
                tags: t(15),
                detail: format!("the I/O error in the result is not how the reader ended ({}): {f} in {d:.1500}", rd_text(rd)),
            })
        }
        (Got::Ok(m), Ok(x)) => {
            st.accepted += 1;
            compare::diff(m, x).map(|(tags, d)| Bad {
                kind: "wrong-module",
                tags: if plain { tags } else { t(14) },
                detail: d,
            })
        }
        (Got::Ok(m), Err(e)) => Some(Bad {
            kind: "accepted-ill-formed",
            tags: if plain { e.tag | fam } else { e.tag | t(14) },
            detail: format!("accepted, but the reference decoder rejects it ({})\n{:.2000}", e.facts.join(" > "), format!("{m:?}")),
        }),
        (Got::Err(d), Ok(x)) => Some(Bad {
            kind: "rejected-well-formed",
            tags: if plain { compare::tags_of_error(d) | fam } else { t(14) },
            detail: format!("rejected with {d:.1500}, but the bytes encode {:.1500}", format!("{x:?}")),
        }),
        (Got::Err(d), Err(e)) => {
            st.rejected += 1;
            match compare::facts_in(&compare::norm(d), &e.facts) {
                Ok(()) => compare::foreign_io(d, false).map(|f| Bad {
                    kind: "wrong-io-error",
                    tags: t(15),
                    detail: format!("the I/O error in the result is not how the reader ended: {f} in {d:.1500}"),
                }),
                Err(f) => Some(Bad {
                    kind: "wrong-error-figures",
                    tags: t(15),
                    detail: format!("the error does not report `{f}` (expected, outermost first: {}): {d:.1500}", e.facts.join(" > ")),
                }),
            }
        }
    };
    match (b, mem) {
        (b, None) => b,
        (None, Some(m)) => Some(Bad { kind: "memory", tags: t(16), detail: m }),
        (Some(b), Some(m)) => Some(Bad { kind: b.kind, tags: b.tags | t(16), detail: format!("{}; {m}", b.detail) }),
    }
}

// ------------------------------------------------------------------ child
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().filter(u8::is_ascii_hexdigit).collect();
    d.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
struct Child {
    shard: u64,
    shards: u64,
    n: u64,
    count: u64,
    st: Stats,
    seen: std::collections::HashMap<(String, u32), u32>,
    fam_counts: Vec<(String, u64)>,
    distinct: std::collections::HashSet<u64>,
}
impl Child {
    fn case(&mut self, fam: &str, tags: u32, bytes: &[u8], rd: &Rd) {
        let f = CASE.get().unwrap();
        self.count += 1;
        let mut h = Vec::with_capacity(96 + bytes.len());
        h.extend_from_slice(&self.count.to_le_bytes());
        h.extend_from_slice(&(bytes.len() as u64).to_le_bytes());
        h.extend_from_slice(&0u64.to_le_bytes());
        h.extend_from_slice(&u64::from(tags).to_le_bytes());
        let s = format!("{fam}|{}", rd_text(rd));
        let mut t = [b' '; 64];
        let k = s.len().min(64);
        t[..k].copy_from_slice(&s.as_bytes()[..k]);
        h.extend_from_slice(&t);
        h.extend_from_slice(bytes);
        let _ = f.write_at(&h, 0);
        if let Some(b) = check(bytes, rd, tags, &mut self.st) {
            let n = self.seen.entry((b.kind.to_string(), b.tags)).or_insert(0);
            *n += 1;
            // the shortest few of each sort are enough
            if *n <= 3 {
                report(&b.kind, b.tags, fam, rd, bytes, &b.detail);
            }
        }
        if self.distinct.len() < 4_000_000 {
            let mut x = 0xcbf2_9ce4_8422_2325u64;
            for b in bytes { x = (x ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3); }
            self.distinct.insert(x);
        }
    }
    fn one(&mut self, fam: &str, tags: u32, bytes: &[u8], r: &mut r#gen::Rng, rest: bool) {
        self.n += 1;
        if self.n % self.shards != self.shard {
            return;
        }
        match self.fam_counts.iter_mut().find(|x| x.0 == fam) {
            Some(x) => x.1 += 1,
            None => self.fam_counts.push((fam.to_string(), 1)),
        }
        self.case(fam, tags, bytes, &Rd::Slice);
        let len = bytes.len() + 1;
        if rest || r.chance(150) {
            let rd = match r.below(7) {
                0 => Rd::One,
                1 => Rd::Chunks(r.next()),
                2 => Rd::Interrupted(r.next()),
                3 => Rd::Fault { at: r.below(len), kind: r.below(6) as u8, go: r.chance(500) },
                4 => Rd::Fault { at: len - 1, kind: r.below(6) as u8, go: r.chance(500) },
                5 => Rd::Gap { at: r.below(len) },
                _ => Rd::Truncate { at: r.below(len) },
            };
            self.case(fam, tags, bytes, &rd);
        }
    }
}
fn report(kind: &str, tags: u32, fam: &str, rd: &Rd, bytes: &[u8], detail: &str) {
    let props: Vec<String> = (1..=17).filter(|n| tags & (1 << n) != 0).map(|n| format!("\"C{n:02}\"")).collect();
    let line = format!(
        "{{\"mismatch\":{{\"kind\":{},\"props\":[{}],\"family\":{},\"reader\":{},\"bytes\":\"{}\",\"len\":{},\"detail\":{}}}}}\n",
        esc(kind), props.join(","), esc(fam), esc(&rd_text(rd)), hex(bytes), bytes.len(), esc(detail)
    );
    let mut o = io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.flush();
}
fn set_lits(g: &mut r#gen::G, file: &str) {
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[..] {
            ["n", v] => g.lits.extend(v.parse::<u64>()),
            ["N", v] => g.new_lits.extend(v.parse::<u64>()),
            ["s", v] => g.strs.push(unhex(v)),
            ["S", v] => g.new_strs.push(unhex(v)),
            _ => {}
        }
    }
}
fn child(a: &[String]) {
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (shard, shards, secs, seed, skip) = (num(0), num(1), num(2), num(3), num(4));
    let casef = std::fs::OpenOptions::new().create(true).write(true).read(true).truncate(true).open(&a[5]).unwrap();
    let _ = CASE.set(casef);
    let start = Instant::now();
    let mut c = Child {
        shard, shards, n: 0, count: 0,
        st: Stats { evals: 0, accepted: 0, rejected: 0, skipped: 0, faulted: 0, max_ratio: 0.0, max_over: 0 },
        seen: Default::default(), fam_counts: vec![], distinct: Default::default(),
    };
    let mut rr = r#gen::Rng(seed ^ (shard + 1).wrapping_mul(0x1234_5678_9abc_def1));
    // the systematic families come first, the same ones in every run; `skip` is set after a crash
    if skip == 0 {
        for &(fam, tags) in r#gen::FAMILIES {
            let mut g = r#gen::G::new(0xF00D ^ seed.wrapping_mul(0x9E37_79B9));
            set_lits(&mut g, &a[6]);
            r#gen::family(&mut g, fam, &mut |_, o| c.one(fam, tags, &o, &mut rr, false));
        }
    }
    let sys = start.elapsed();
    let mut g = r#gen::G::new(seed.wrapping_mul(1000).wrapping_add(shard).wrapping_add(skip << 32));
    set_lits(&mut g, &a[6]);
    c.shards = 1;
    c.shard = 0;
    let end = Duration::from_secs(secs);
    let mut dense = 0;
    while start.elapsed() < end {
        for _ in 0..50 {
            let mut o = g.module();
            if g.r.chance(300) {
                g.mutate(&mut o);
                c.one("mutated", 0, &o, &mut rr, true);
            } else {
                c.one("random", 0, &o, &mut rr, true);
            }
            // every truncation and every fault position of a well-formed module, now and then
            if g.bad == 0 && o.len() < 400 && dense * 20 < c.count / 50 {
                dense += 1;
                for at in 0..=o.len() {
                    c.case("dense", 0, &o, &Rd::Truncate { at });
                    let kind = g.r.below(6) as u8;
                    c.case("dense", 0, &o, &Rd::Fault { at, kind, go: false });
                    c.case("dense", 0, &o, &Rd::Fault { at, kind: 0, go: true });
                    c.case("dense", 0, &o, &Rd::Gap { at });
                }
            }
        }
    }
    let s = &c.st;
    let fc: Vec<String> = c.fam_counts.iter().map(|(f, n)| format!("{}:{n}", esc(f))).collect();
    println!(
        "{{\"stats\":{{\"evals\":{},\"accepted\":{},\"rejected\":{},\"skipped\":{},\"faulted\":{},\"distinct\":{},\"max_bytes_per_byte\":{:.1},\"max_over\":{},\"systematic_s\":{:.2},\"families\":{{{}}}}}}}",
        s.evals, s.accepted, s.rejected, s.skipped, s.faulted, c.distinct.len(), s.max_ratio, s.max_over, sys.as_secs_f64(), fc.join(",")
    );
}

// ------------------------------------------------------------------ parent
fn read_case(path: &str) -> Option<(u64, u64, u32, String, Rd, Vec<u8>)> {
    let b = std::fs::read(path).ok()?;
    if b.len() < 96 {
        return None;
    }
    let w = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let len = w(8) as usize;
    let s = String::from_utf8_lossy(&b[32..96]).trim().to_string();
    let (f, r) = s.split_once('|').unwrap_or((&s, "slice"));
    Some((w(0), w(16), w(24) as u32, f.to_string(), rd_parse(r), b.get(96..96 + len)?.to_vec()))
}
fn parent(a: &[String]) {
    // run SECS SEED LITS OUTDIR SHARDS
    let (secs, seed): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let (lits, dir) = (a[2].clone(), a[3].clone());
    let shards: u64 = a[4].parse().unwrap();
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..shards)
        .map(|sh| {
            let (exe, lits, dir) = (exe.clone(), lits.clone(), dir.clone());
            std::thread::spawn(move || {
                let mut skip = 0;
                let deadline = Instant::now() + Duration::from_secs(secs);
                loop {
                    let case = format!("{dir}/case-{sh}");
                    let out = format!("{dir}/out-{sh}-{skip}.jsonl");
                    let left = deadline.saturating_duration_since(Instant::now()).as_secs();
                    let mut ch = std::process::Command::new(&exe)
                        .args(["child", &sh.to_string(), &shards.to_string(), &left.to_string(), &seed.to_string(), &skip.to_string(), &case, &lits])
                        .stdout(File::create(&out).unwrap())
                        .stderr(std::process::Stdio::null())
                        .spawn()
                        .unwrap();
                    let mut last = (0u64, Instant::now());
                    let (status, hung) = loop {
                        if let Ok(Some(s)) = ch.try_wait() {
                            break (Some(s), false);
                        }
                        std::thread::sleep(Duration::from_millis(50));
                        let n = File::open(&case)
                            .ok()
                            .and_then(|f| {
                                let mut b = [0u8; 8];
                                f.read_exact_at(&mut b, 0).ok()?;
                                Some(u64::from_le_bytes(b))
                            })
                            .unwrap_or(0);
                        if n != last.0 {
                            last = (n, Instant::now());
                        } else if n > 0 && last.1.elapsed() > Duration::from_secs(30) {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            break (None, true);
                        } else if n == 0 && last.1.elapsed() > Duration::from_secs(120) {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            break (None, false);
                        }
                    };
                    if status.is_some_and(|s| s.success()) {
                        return;
                    }
                    if status.is_some_and(|s| s.code() == Some(101)) {
                        // a panic of the runner itself: the decoder's are caught
                        println!("{{\"runner_panic\":{sh}}}");
                    } else if let Some((_, big, ft, fam, rd, bytes)) = read_case(&case) {
                        let (k, tags, d) = if hung {
                            ("hang", 1 << 13, "decoding did not come to an end within 30 s".to_string())
                        } else if big != 0 {
                            ("memory", 1 << 13 | 1 << 16, format!("asked for {big} bytes of memory at once while decoding {} bytes of input", bytes.len()))
                        } else {
                            ("crash", 1 << 13, format!("the process died ({status:?})"))
                        };
                        report(k, tags | ft, &fam, &rd, &bytes, &d);
                    }
                    skip += 1;
                    if skip > 3 {
                        return;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "jsonl")).collect();
    names.sort();
    let mut o = io::stdout().lock();
    for n in names {
        let _ = o.write_all(&std::fs::read(n).unwrap_or_default());
    }
}

/// replay READER HEX: the verdicts on one case
fn replay(rd: &str, h: &str) {
    let rd = rd_parse(rd);
    let bytes = unhex(h);
    let mut st = Stats { evals: 0, accepted: 0, rejected: 0, skipped: 0, faulted: 0, max_ratio: 0.0, max_over: 0 };
    let b = check(&bytes, &rd, 0, &mut st);
    let (g, peak) = run_real(&bytes, &rd);
    match g {
        Got::Ok(m) => println!("decode_module: Ok({m:.4000?})"),
        Got::Err(e) => println!("decode_module: Err({e:.4000})"),
        Got::Panic(e) => println!("decode_module panicked: {e}"),
    }
    println!("peak memory: {peak} bytes for {} bytes of input", bytes.len());
    match b {
        Some(b) => {
            println!("MISMATCH {}: {}", b.kind, b.detail);
            std::process::exit(1)
        }
        None => println!("no mismatch"),
    }
}
/// the known findings, each in its own process: exit status 0 if decoding survived within the limits
fn demo(which: &str, n: usize) {
    let m = match which {
        // n blocks inside one another in a global's initialiser
        "deep" => {
            let mut b = [0x02u8, 0x40].repeat(n);
            b.extend(std::iter::repeat_n(0x0B, n));
            r#gen::global(&b)
        }
        // one function with n locals
        _ => {
            let mut o = r#gen::PRE.to_vec();
            r#gen::sec(&mut o, 3, &[1, 0]);
            let mut l = vec![1];
            r#gen::enc_u(&mut l, n as u64, 0);
            l.extend([0x7F, 0x0B]);
            let mut c = vec![1];
            r#gen::enc_u(&mut c, l.len() as u64, 0);
            c.extend(l);
            r#gen::sec(&mut o, 10, &c);
            o
        }
    };
    let (g, peak) = run_real(&m, &Rd::Slice);
    println!("input_len {} peak {peak} {}", m.len(), match &g { Got::Ok(_) => "ok", Got::Err(_) => "err", Got::Panic(_) => "panic" });
}
/// the library's verdict on a file: OK, or the messages of the error and its causes
fn verdict(dir: &str) {
    use std::error::Error;
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|f| f.unwrap().path()).collect();
    names.sort();
    for f in names {
        let r = std::panic::catch_unwind(|| wadec::decode_module(std::fs::File::open(&f).unwrap()));
        let msgs = match r {
            Err(_) => continue,
            Ok(Ok(_)) => vec![],
            Ok(Err(e)) => {
                let mut v = vec![e.to_string()];
                let mut c = e.source();
                while let Some(x) = c {
                    v.push(x.to_string());
                    c = x.source();
                }
                v
            }
        };
        let hex: Vec<String> = msgs.iter().map(|m| m.bytes().map(|b| format!("{b:02x}")).collect()).collect();
        println!("{} {}", f.file_name().unwrap().to_string_lossy(), if hex.is_empty() { "OK".to_string() } else { hex.join(",") });
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        PANIC.set(Some(s));
    }));
    let go = move || match a[0].as_str() {
        "run" => parent(&a[1..]),
        "child" => child(&a[1..]),
        "replay" => replay(&a[1], &a[2]),
        "verdict" => verdict(&a[1]),
        "chains-make" => chains::make(a[1].parse().unwrap(), a[2].parse().unwrap(), &a[3]),
        "chains-check" => chains::check(&a[1]),
        "chains-replay" => chains::replay(&a[1], &a[2], &a[3]),
        "demo" => demo(&a[1], a[2].parse().unwrap()),
        _ => panic!("usage"),
    };
    if std::env::args().nth(1).as_deref() == Some("demo") {
        return go(); // on the ordinary main-thread stack
    }
    std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap().join().unwrap();
}
