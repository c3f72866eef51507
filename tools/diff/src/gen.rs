//! Case generators: systematic families, then grammar-directed random modules and mutations.
use crate::refdec::optable::OPS;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, per_mille: u32) -> bool {
        self.next() % 1000 < u64::from(per_mille)
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        x[self.below(x.len())]
    }
}

pub type Out = Vec<u8>;
const EDGES: [u64; 40] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 126, 127, 128, 129, 130, 191, 192, 255, 256, 257, 300, 8191, 8192, 16383, 16384,
    32767, 32768, 65535, 65536, 0x1F_FFFF, 0x20_0000, 0x0FFF_FFFF, 0x1000_0000,
];
const BIG: [u64; 12] = [
    0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000,
    0xFFFF_FFFF_FFFF_FFFE, 0xFFFF_FFFF_FFFF_FFFF, 0x5555_5555_AAAA_AAAA,
];

pub struct G {
    pub r: Rng,
    pub lits: Vec<u64>,
    pub new_lits: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    pub new_strs: Vec<Vec<u8>>,
    /// per mille: how often something ill-formed is emitted
    pub bad: u32,
    /// where size fields are: (start, end of the field)
    pub sizes: Vec<(usize, usize)>,
    pub budget: i32,
    pub want_didx: bool,
    pub locals: u64,
}

pub fn enc_u(o: &mut Out, mut v: u64, pad: usize) {
    let start = o.len();
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 && o.len() - start >= pad {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
pub fn enc_s(o: &mut Out, mut v: i64, pad: usize) {
    let start = o.len();
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        let done = (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0);
        if done && o.len() - start >= pad {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
pub fn ulen(v: u64) -> usize {
    let mut o = vec![];
    enc_u(&mut o, v, 0);
    o.len()
}

impl G {
    pub fn new(seed: u64) -> G {
        G { r: Rng(seed), lits: vec![], new_lits: vec![], strs: vec![], new_strs: vec![], bad: 0, sizes: vec![], budget: 0, want_didx: false, locals: 0 }
    }
    pub fn val(&mut self, max: u64) -> u64 {
        if !self.new_lits.is_empty() && self.r.chance(250) {
            let v = self.r.pick(&self.new_lits.clone());
            let v = match self.r.below(6) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
            if v <= max { return v; }
        }
        match self.r.below(10) {
            0..=2 => self.r.below(8) as u64,
            3..=5 => self.r.pick(&EDGES).min(max),
            6 => { let v = self.r.pick(&BIG); if v <= max { v } else { max - self.r.below(2) as u64 } }
            7 if !self.lits.is_empty() => { let n = self.r.below(self.lits.len()); self.lits[n].min(max) }
            8 => self.r.next() >> (64 - self.r.below(64).max(1)) as u32 & max,
            _ => self.r.next() & max,
        }
    }
    fn put_u(&mut self, o: &mut Out, v: u64, bits: u32) {
        let max = bits.div_ceil(7) as usize;
        if self.r.chance(self.bad / 4) {
            match self.r.below(3) {
                0 => enc_u(o, v, max), // one byte too long
                1 => { for _ in 1..max { let b = self.r.byte(); o.push(b | 0x80); } let b = self.r.byte(); o.push(b); }
                _ => { enc_u(o, v, 0); *o.last_mut().unwrap() |= 0x80; }
            }
            return;
        }
        let pad = if self.r.chance(150) { self.r.below(max) } else { 0 };
        enc_u(o, v, pad);
    }
    fn put_s(&mut self, o: &mut Out, v: i64, bits: u32) {
        let max = bits.div_ceil(7) as usize;
        if self.r.chance(self.bad / 4) {
            match self.r.below(2) {
                0 => enc_s(o, v, max),
                _ => { for _ in 1..max { let b = self.r.byte(); o.push(b | 0x80); } let b = self.r.byte(); o.push(b); }
            }
            return;
        }
        let pad = if self.r.chance(150) { self.r.below(max) } else { 0 };
        enc_s(o, v, pad);
    }
    fn u32v(&mut self) -> u64 { self.val(0xFFFF_FFFF) }
    fn idx(&mut self, o: &mut Out) { let v = self.u32v(); self.put_u(o, v, 32); }
    fn u64(&mut self, o: &mut Out) { let v = self.val(u64::MAX); self.put_u(o, v, 64); }
    fn signed(&mut self, o: &mut Out, bits: u32) {
        let raw = self.val(u64::MAX);
        let raw = if self.r.chance(400) { raw.wrapping_neg() } else { raw };
        let sh = 64 - bits;
        self.put_s(o, ((raw << sh) as i64) >> sh, bits);
    }
    fn marker(&mut self, o: &mut Out, good: &[u8]) -> u8 {
        let b = if self.r.chance(self.bad) { self.r.byte() } else { self.r.pick(good) };
        o.push(b);
        b
    }
    fn len(&mut self) -> usize {
        match self.r.below(40) {
            0 => 127 + self.r.below(4),
            1 => { let v = self.val(300) as usize; v }
            2..=10 => 0,
            11..=20 => 1,
            _ => self.r.below(6),
        }
    }
    fn list(&mut self, o: &mut Out, mut f: impl FnMut(&mut G, &mut Out)) {
        let mut n = self.len();
        if self.budget < 0 { n = n.min(1); }
        let declared = if self.r.chance(self.bad / 2) { self.u32v() } else { n as u64 };
        self.put_u(o, declared, 32);
        for _ in 0..n {
            self.budget -= 1;
            f(self, o);
            if self.budget < -2000 { break; }
        }
    }
    pub fn raw_bytes(&mut self, o: &mut Out) {
        let n = self.len();
        let declared = if self.r.chance(self.bad / 2) { self.u32v() } else { n as u64 };
        self.put_u(o, declared, 32);
        for _ in 0..n { let b = self.r.byte(); o.push(b); }
    }
    pub fn name(&mut self, o: &mut Out) {
        let s: Vec<u8> = if !self.new_strs.is_empty() && self.r.chance(300) {
            let n = self.r.below(self.new_strs.len());
            self.new_strs[n].clone()
        } else if !self.strs.is_empty() && self.r.chance(100) {
            let n = self.r.below(self.strs.len());
            self.strs[n].clone()
        } else if self.r.chance(self.bad) {
            let n = self.r.below(6);
            (0..n).map(|_| self.r.byte()).collect()
        } else {
            let n = self.len();
            let mut t = String::new();
            for _ in 0..n {
                let c = match self.r.below(8) {
                    0 => self.r.pick(&[0u32, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF, 0x2028, 0x0A]),
                    1 => self.r.next() as u32 % 0x110000,
                    _ => 0x20 + self.r.below(95) as u32,
                };
                if let Some(c) = char::from_u32(c) { t.push(c); }
            }
            t.into_bytes()
        };
        let declared = if self.r.chance(self.bad / 2) { self.u32v() } else { s.len() as u64 };
        self.put_u(o, declared, 32);
        o.extend_from_slice(&s);
    }

    // ---- types
    pub fn heaptype(&mut self, o: &mut Out) {
        if self.r.chance(700) { self.marker(o, &[0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74]); }
        else if self.r.chance(self.bad) { self.signed(o, 33); }
        else { let v = self.u32v(); self.put_s(o, v as i64, 33); }
    }
    pub fn reftype(&mut self, o: &mut Out) {
        if self.r.chance(400) { self.marker(o, &[0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74]); }
        else { o.push(0x63 + self.r.below(2) as u8); self.heaptype(o); }
    }
    pub fn valtype(&mut self, o: &mut Out) {
        if self.r.chance(700) { self.marker(o, &[0x7F, 0x7E, 0x7D, 0x7C, 0x7B]); } else { self.reftype(o); }
    }
    pub fn fieldtype(&mut self, o: &mut Out) {
        if self.r.chance(300) { self.marker(o, &[0x78, 0x77]); } else { self.valtype(o); }
        self.marker(o, &[0, 1]);
    }
    pub fn comptype(&mut self, o: &mut Out) {
        match self.marker(o, &[0x5E, 0x5F, 0x60, 0x60]) {
            0x5E => self.fieldtype(o),
            0x5F => self.list(o, |g, o| g.fieldtype(o)),
            _ => { self.list(o, |g, o| g.valtype(o)); self.list(o, |g, o| g.valtype(o)); }
        }
    }
    pub fn subtype(&mut self, o: &mut Out) {
        if self.r.chance(500) { o.push(0x4F + self.r.below(2) as u8); self.list(o, |g, o| g.idx(o)); }
        self.comptype(o);
    }
    pub fn rectype(&mut self, o: &mut Out) {
        if self.r.chance(250) { o.push(0x4E); self.list(o, |g, o| g.subtype(o)); } else { self.subtype(o); }
    }
    pub fn limits(&mut self, o: &mut Out) {
        let f = self.marker(o, &[0, 1, 4, 5]);
        self.u64(o);
        if f & 1 == 1 { self.u64(o); }
    }
    pub fn tabletype(&mut self, o: &mut Out) { self.reftype(o); self.limits(o); }
    pub fn globaltype(&mut self, o: &mut Out) { self.valtype(o); self.marker(o, &[0, 1]); }
    pub fn tagtype(&mut self, o: &mut Out) { self.marker(o, &[0]); self.idx(o); }
    pub fn externtype(&mut self, o: &mut Out) {
        match self.marker(o, &[0, 1, 2, 3, 4]) {
            1 => self.tabletype(o),
            2 => self.limits(o),
            3 => self.globaltype(o),
            4 => self.tagtype(o),
            _ => self.idx(o),
        }
    }

    // ---- instructions
    pub fn imm(&mut self, o: &mut Out, kind: &str) {
        match kind {
            "idx" | "u32" => self.idx(o),
            "i32" => self.signed(o, 32),
            "i64" => self.signed(o, 64),
            "f32" => {
                let v = if self.r.chance(300) { self.r.pick(&[0u32, 1 << 31, 0x7FC0_0000, 0x7F80_0001, 0xFF80_0000, 0xFFC0_1234, 0x3F80_0000]) } else { self.r.next() as u32 };
                o.extend(v.to_le_bytes());
            }
            "f64" => {
                let v = if self.r.chance(300) { self.r.pick(&[0u64, 1 << 63, 0x7FF8 << 48, 0x7FF0_0000_0000_0001, 0xFFF0 << 48, 0xFFF8_0000_0000_1234]) } else { self.r.next() };
                o.extend(v.to_le_bytes());
            }
            "b16" | "lane16" => for _ in 0..16 { let b = self.r.byte(); o.push(b); },
            "lane" => { let b = if self.r.chance(500) { self.r.below(32) as u8 } else { self.r.byte() }; o.push(b); }
            "heaptype" => self.heaptype(o),
            "memarg" => {
                let f = if self.r.chance(self.bad) { self.u32v() } else { self.r.below(128) as u64 };
                self.put_u(o, f, 32);
                if f & 64 != 0 { self.idx(o); }
                self.u64(o);
            }
            _ => unreachable!(),
        }
    }
    pub fn blocktype(&mut self, o: &mut Out) {
        match self.r.below(4) {
            0 => { self.marker(o, &[0x40]); }
            1 => self.valtype(o),
            2 => { let v = self.u32v(); self.put_s(o, v as i64, 33); }
            _ => if self.r.chance(self.bad) { self.signed(o, 33) } else { o.push(0x40) },
        }
    }
    pub fn catch(&mut self, o: &mut Out) {
        let b = self.marker(o, &[0, 1, 2, 3]);
        if b < 2 { self.idx(o); }
        self.idx(o);
    }
    pub fn op(&mut self, o: &mut Out, k: usize) {
        let (pf, n, args) = OPS[k];
        if pf == 0 { o.push(n as u8); } else { o.push(pf); self.put_u(o, u64::from(n), 32); }
        for a in args { self.imm(o, a); }
    }
    pub fn instr(&mut self, o: &mut Out, depth: u32) {
        self.budget -= 1;
        if self.r.chance(self.bad / 2) {
            let b = self.r.byte();
            o.push(b);
            if self.r.chance(500) { self.idx(o); }
            return;
        }
        if self.want_didx && self.r.chance(60) {
            let ks: Vec<usize> = (0..OPS.len()).filter(|&k| matches!((OPS[k].0, OPS[k].1), (0xFC, 8 | 9) | (0xFB, 9 | 18))).collect();
            let k = self.r.pick(&ks);
            return self.op(o, k);
        }
        match self.r.below(if depth < 40 && self.budget > 0 { 22 } else { 14 }) {
            0 => { o.push(0x0E); self.list(o, |g, o| g.idx(o)); self.idx(o); }
            1 => if self.r.chance(500) { o.push(0x1B) } else { o.push(0x1C); self.list(o, |g, o| g.valtype(o)); },
            2 => { o.push(0xFB); let n = 20 + self.r.below(4) as u64; self.put_u(o, n, 32); self.heaptype(o); }
            3 => {
                o.push(0xFB);
                let n = 24 + self.r.below(2) as u64;
                self.put_u(o, n, 32);
                self.marker(o, &[0, 1, 2, 3]);
                self.idx(o); self.heaptype(o); self.heaptype(o);
            }
            4..=13 => { let k = self.r.below(OPS.len()); if !self.want_didx && matches!((OPS[k].0, OPS[k].1), (0xFC, 8 | 9) | (0xFB, 9 | 18)) { return o.push(1); } self.op(o, k) }
            _ => {
                let op = self.r.pick(&[2u8, 3, 4, 4, 4, 0x1F]);
                o.push(op);
                self.blocktype(o);
                if op == 0x1F { self.list(o, |g, o| g.catch(o)); }
                self.instrs(o, depth + 1);
                if op == 4 && self.r.chance(600) || self.r.chance(self.bad / 2) { o.push(5); self.instrs(o, depth + 1); }
                if !self.r.chance(self.bad / 4) { o.push(0x0B); }
            }
        }
    }
    fn instrs(&mut self, o: &mut Out, depth: u32) {
        let n = self.r.below(5);
        for _ in 0..n { self.instr(o, depth); }
    }
    pub fn expr(&mut self, o: &mut Out) {
        self.instrs(o, 0);
        if !self.r.chance(self.bad / 4) { o.push(0x0B); }
        if self.r.chance(self.bad / 8) { o.push(5); }
    }
    /// a size field for what f emits
    pub fn sized(&mut self, o: &mut Out, f: impl FnOnce(&mut G, &mut Out)) {
        let saved = std::mem::take(&mut self.sizes);
        let mut c = vec![];
        f(self, &mut c);
        let inner = std::mem::replace(&mut self.sizes, saved);
        let n = if self.r.chance(self.bad / 4) { (c.len() as u64).wrapping_add(self.r.below(5) as u64).wrapping_sub(2) & 0xFFFF_FFFF } else { c.len() as u64 };
        let start = o.len();
        let pad = if self.r.chance(150) { self.r.below(5) } else { 0 };
        enc_u(o, n, pad);
        self.sizes.push((start, o.len()));
        let at = o.len();
        self.sizes.extend(inner.into_iter().map(|(a, b)| (a + at, b + at)));
        o.extend(c);
    }
    pub fn code(&mut self, o: &mut Out) {
        self.sized(o, |g, o| {
            g.list(o, |g, o| {
                let n = match g.r.below(10) { 0 => g.val(2000), 1..=3 => 0, _ => g.r.below(4) as u64 };
                let n = if g.locals + n > 30000 { 0 } else { n };
                g.locals += n;
                g.put_u(o, n, 32);
                g.valtype(o);
            });
            g.expr(o);
        });
    }
    pub fn elem(&mut self, o: &mut Out) {
        let f = if self.r.chance(self.bad / 2) { self.u32v() } else { self.r.below(8) as u64 };
        self.put_u(o, f, 32);
        if f & 1 == 0 { if f & 2 != 0 { self.idx(o); } self.expr(o); }
        if f & 4 != 0 { if f & 3 != 0 { self.reftype(o); } self.list(o, |g, o| g.expr(o)); }
        else { if f & 3 != 0 { self.marker(o, &[0]); } self.list(o, |g, o| g.idx(o)); }
    }
    pub fn data(&mut self, o: &mut Out) {
        let f = if self.r.chance(self.bad / 2) { self.u32v() } else { self.r.below(3) as u64 };
        self.put_u(o, f, 32);
        if f == 2 { self.idx(o); }
        if f != 1 { self.expr(o); }
        self.raw_bytes(o);
    }
    pub fn table(&mut self, o: &mut Out) {
        if self.r.chance(500) { o.push(0x40); self.marker(o, &[0]); self.tabletype(o); self.expr(o); } else { self.tabletype(o); }
    }
    pub fn entry(&mut self, o: &mut Out, id: u8) {
        match id {
            1 => self.rectype(o),
            2 => { self.name(o); self.name(o); self.externtype(o); }
            3 => self.idx(o),
            4 => self.table(o),
            5 => self.limits(o),
            6 => { self.globaltype(o); self.expr(o); }
            7 => { self.name(o); self.marker(o, &[0, 1, 2, 3, 4]); self.idx(o); }
            9 => self.elem(o),
            10 => self.code(o),
            11 => self.data(o),
            13 => self.tagtype(o),
            _ => {}
        }
    }
    pub fn section(&mut self, o: &mut Out, id: u8, f: impl FnOnce(&mut G, &mut Out)) {
        o.push(id);
        self.sized(o, f);
    }
    pub fn custom(&mut self, o: &mut Out) {
        self.section(o, 0, |g, o| { g.name(o); let n = g.len(); for _ in 0..n { let b = g.r.byte(); o.push(b); } });
    }
    fn exact(&mut self, o: &mut Out, n: usize, id: u8) {
        let n2 = if self.r.chance(self.bad / 4) { self.u32v() } else { n as u64 };
        self.put_u(o, n2, 32);
        for _ in 0..n { self.budget -= 1; self.entry(o, id); }
    }
    pub fn module(&mut self) -> Out {
        self.bad = self.r.pick(&[0, 0, 0, 0, 3, 10, 40]);
        self.budget = self.r.pick(&[10, 30, 60, 200]);
        self.want_didx = self.r.chance(300);
        self.locals = 0;
        self.sizes.clear();
        let mut o = b"\0asm\x01\0\0\0".to_vec();
        if self.r.chance(self.bad / 4) { let i = self.r.below(8); o[i] ^= 1 << self.r.below(8); }
        let density = self.r.pick(&[150, 400, 800]);
        let nf = if self.r.chance(density) { self.len().min(40) } else { 0 };
        let nd = if self.r.chance(density) { self.len().min(40) } else { 0 };
        let has_dc = self.want_didx || self.r.chance(300);
        let mut order = vec![1u8, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11];
        if self.r.chance(self.bad) { let (a, b) = (self.r.below(13), self.r.below(13)); order.swap(a, b); }
        if self.r.chance(self.bad) { let (a, b) = (self.r.below(13), self.r.below(13)); let x = order[a]; order.insert(b, x); }
        for id in order {
            while self.r.chance(120) { self.custom(&mut o); }
            match id {
                3 | 10 => {
                    if nf > 0 || self.r.chance(200) {
                        let n = if self.r.chance(self.bad) { self.r.below(nf + 2) } else { nf };
                        self.section(&mut o, id, |g, o| g.exact(o, n, id));
                    }
                }
                11 => {
                    if nd > 0 || self.r.chance(200) {
                        let n = if self.r.chance(self.bad) { self.r.below(nd + 2) } else { nd };
                        self.section(&mut o, id, |g, o| g.exact(o, n, id));
                    }
                }
                12 => if has_dc { self.section(&mut o, id, |g, o| g.put_u(o, nd as u64, 32)); },
                8 => if self.r.chance(density) { self.section(&mut o, id, |g, o| g.idx(o)); },
                _ => if self.r.chance(density) { self.section(&mut o, id, |g, o| g.list(o, |g, o| g.entry(o, id))); },
            }
        }
        while self.r.chance(150) { self.custom(&mut o); }
        if self.r.chance(self.bad / 4) { let b = self.r.byte(); o.push(b); }
        o
    }
    pub fn mutate(&mut self, o: &mut Out) {
        for _ in 0..1 + self.r.below(2) {
            if o.is_empty() { return; }
            let i = self.r.below(o.len());
            match self.r.below(8) {
                0 => { let n = self.r.below(o.len() + 1); o.truncate(n); }
                1 => { let b = self.r.byte(); o.insert(i, b); }
                2 => { o.remove(i); }
                3 => o[i] ^= 1 << self.r.below(8),
                4 => o[i] = self.r.pick(&[0u8, 1, 0x40, 0x7F, 0x80, 0xFF, 0x0B, 0x05]),
                5 => { let b = self.r.byte(); o[i] = b; }
                6 if !self.sizes.is_empty() => {
                    let n = self.r.below(self.sizes.len());
                    let (a, b) = self.sizes[n];
                    if b <= o.len() {
                        o[a] = match self.r.below(4) { 0 => o[a].wrapping_add(1), 1 => o[a].wrapping_sub(1), 2 => o[a] & 0x80, _ => o[a] | 0x7F };
                    }
                }
                _ => { let n = self.r.below(o.len() - i).min(12); let s = o[i..i + n].to_vec(); let j = self.r.below(o.len()); o.splice(j..j, s); }
            }
        }
    }
}

// ------------------------------------------------------------------ systematic families
pub const PRE: &[u8] = b"\0asm\x01\0\0\0";
pub fn sec(o: &mut Out, id: u8, content: &[u8]) {
    o.push(id);
    enc_u(o, content.len() as u64, 0);
    o.extend_from_slice(content);
}
pub fn one(id: u8, content: &[u8]) -> Out {
    let mut o = PRE.to_vec();
    sec(&mut o, id, content);
    o
}
/// a module with one function whose body (without the final end) is `body`
pub fn func(body: &[u8]) -> Out {
    let mut o = PRE.to_vec();
    sec(&mut o, 3, &[1, 0]);
    sec(&mut o, 12, &[0]);
    let mut c = vec![1];
    enc_u(&mut c, body.len() as u64 + 2, 0);
    c.push(0);
    c.extend_from_slice(body);
    c.push(0x0B);
    sec(&mut o, 10, &c);
    o
}
pub fn global(init: &[u8]) -> Out {
    let mut c = vec![1, 0x7F, 0];
    c.extend_from_slice(init);
    c.push(0x0B);
    one(6, &c)
}
/// (family, tags)
pub const FAMILIES: &[(&str, u32)] = &[
    ("uleb", 1 << 1),
    ("sleb", 1 << 2),
    ("order", 1 << 3),
    ("sizes", 1 << 4),
    ("cross", 1 << 5),
    ("opcodes", 1 << 6),
    ("control", 1 << 7),
    ("types", 1 << 8),
    ("entries", 1 << 9),
    ("segments", 1 << 10),
    ("locals", 1 << 11),
    ("names", 1 << 12),
    ("huge", 1 << 16),
    ("lists", 0),
];

pub fn family(g: &mut G, name: &str, k: &mut dyn FnMut(&mut G, Out)) {
    match name {
        "uleb" => uleb(g, k),
        "sleb" => sleb(g, k),
        "order" => order(g, k),
        "sizes" => sizes(g, k),
        "cross" => cross(g, k),
        "opcodes" => opcodes(g, k),
        "control" => control(g, k),
        "types" => types(g, k),
        "entries" => entries(g, k),
        "segments" => segments(g, k),
        "locals" => locals(g, k),
        "names" => names(g, k),
        "huge" => huge(g, k),
        "lists" => lists(g, k),
        _ => unreachable!(),
    }
}
type K<'a> = &'a mut dyn FnMut(&mut G, Out);

/// byte strings around the encodings of an N-bit integer
fn leb_strings(g: &mut G, max: usize, f: &mut dyn FnMut(&mut G, &[u8])) {
    for b in 0..=255u8 { f(g, &[b]); }
    for a in 0..128u16 { for b in 0..=255u8 { f(g, &[a as u8 | 0x80, b]); } }
    let mids = [0x80u8, 0xFF, 0x81, 0xC0, 0xBF, 0xFE];
    for n in 2..=max {
        for m in mids {
            for l in 0..=255u8 {
                let mut s = vec![m; n - 1];
                s.push(l);
                f(g, &s);
                let i = g.r.below(n - 1);
                s[i] = g.r.byte() | 0x80;
                f(g, &s);
                for x in s.iter_mut().take(n - 1) { *x = g.r.byte() | 0x80; }
                f(g, &s);
            }
        }
        f(g, &vec![0x80; n]);
        f(g, &vec![0xFF; n]);
    }
}
fn uleb(g: &mut G, k: K) {
    leb_strings(g, 7, &mut |g, s| k(g, one(8, s)));
    // data count needs its segments, limits take any u64
    leb_strings(g, 12, &mut |g, s| { let mut c = vec![1, 4]; c.extend(s); k(g, one(5, &c)); });
    leb_strings(g, 6, &mut |g, s| { let mut b = vec![0x20]; b.extend(s); k(g, func(&b)); });
    leb_strings(g, 11, &mut |g, s| { let mut b = vec![0x28, 2]; b.extend(s); k(g, func(&b)); });
    leb_strings(g, 6, &mut |g, s| {
        // the size field itself: an empty custom section of that size
        let mut o = PRE.to_vec();
        o.push(0);
        o.extend(s);
        o.extend([1, b'x', 7, 7, 7]);
        k(g, o);
    });
}
fn sleb(g: &mut G, k: K) {
    leb_strings(g, 7, &mut |g, s| { let mut b = vec![0x41]; b.extend(s); k(g, global(&b)); });
    leb_strings(g, 12, &mut |g, s| { let mut b = vec![0x42]; b.extend(s); k(g, global(&b)); });
    leb_strings(g, 7, &mut |g, s| { let mut b = vec![0x02]; b.extend(s); b.push(0x0B); k(g, func(&b)); });
    leb_strings(g, 7, &mut |g, s| { let mut b = vec![0xD0]; b.extend(s); k(g, global(&b)); });
    for _ in 0..20000 {
        let mut b = vec![g.r.pick(&[0x41u8, 0x42])];
        let bits = if b[0] == 0x41 { 32 } else { 64 };
        g.signed(&mut b, bits);
        k(g, global(&b));
    }
}
fn minimal(o: &mut Out, id: u8, n: usize) {
    match id {
        0 => sec(o, 0, &[1, b'a' + n as u8, n as u8]),
        8 => sec(o, 8, &[n as u8]),
        _ => sec(o, id, &[0]),
    }
}
fn order(g: &mut G, k: K) {
    for i in 0..8 { for b in 0..=255u8 { let mut o = PRE.to_vec(); o[i] = b; k(g, o); } }
    for n in 0..8 { k(g, PRE[..n].to_vec()); }
    k(g, vec![]);
    for a in 0..=255u8 { let mut o = PRE.to_vec(); minimal(&mut o, a, 0); k(g, o); }
    for a in 0..=14u8 { for b in 0..=14u8 {
        let mut o = PRE.to_vec(); minimal(&mut o, a, 0); minimal(&mut o, b, 1); k(g, o);
        for c in 0..=14u8 { let mut o = PRE.to_vec(); minimal(&mut o, a, 0); minimal(&mut o, b, 1); minimal(&mut o, c, 2); k(g, o); }
    } }
    let all = [1u8, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11];
    for _ in 0..6000 {
        let mut ids: Vec<u8> = all.iter().copied().filter(|_| g.r.chance(600)).collect();
        match g.r.below(4) {
            0 if !ids.is_empty() => { let (a, b) = (g.r.below(ids.len()), g.r.below(ids.len())); ids.swap(a, b); }
            1 if !ids.is_empty() => { let (a, b) = (g.r.below(ids.len()), g.r.below(ids.len() + 1)); let x = ids[a]; ids.insert(b, x); }
            2 if !ids.is_empty() => { let a = g.r.below(ids.len()); let x = ids[a]; ids.insert(a, x); }
            _ => {}
        }
        let mut o = PRE.to_vec();
        let mut n = 0;
        for id in ids { while g.r.chance(300) { minimal(&mut o, 0, n % 20); n += 1; } minimal(&mut o, id, n); }
        while g.r.chance(400) { minimal(&mut o, 0, n % 20); n += 1; }
        k(g, o);
    }
}
fn sizes(g: &mut G, k: K) {
    for round in 0..700 {
        let o = loop { let o = g.module(); if g.bad == 0 && (round < 400 || o.len() < 120) { break o; } };
        let sz = g.sizes.clone();
        let pick: Vec<(usize, usize)> = if sz.len() > 12 { (0..12).map(|_| sz[g.r.below(sz.len())]).collect() } else { sz };
        for (a, b) in pick {
            let mut v: u64 = 0;
            for (i, x) in o[a..b].iter().enumerate() { v |= u64::from(x & 0x7F) << (7 * i); }
            for nv in [v.wrapping_sub(1), v + 1, v.wrapping_sub(2), v + 2, v + 3, v + 128, 0, 0xFFFF_FFFF] {
                if nv > 0xFFFF_FFFF { continue; }
                let mut p = o[..a].to_vec();
                enc_u(&mut p, nv, b - a - 1);
                p.extend(&o[b..]);
                k(g, p);
            }
        }
        if round % 8 == 0 && o.len() < 200 { for n in 8..o.len() { k(g, o[..n].to_vec()); } }
    }
    // each section kind: content one byte short or long, alone and followed by another section
    for id in 0..=13u8 { for extra in 0..4u64 { for more in 0..4 { for tail in 0..3 {
        let mut c: Vec<u8> = match id { 0 => vec![1, b'x'], _ => vec![0] };
        c.extend(vec![0; more]);
        let mut o = PRE.to_vec();
        o.push(id);
        enc_u(&mut o, c.len() as u64 + extra, 0);
        o.extend(&c);
        match tail { 1 => minimal(&mut o, 0, 1), 2 => minimal(&mut o, 11, 1), _ => {} }
        k(g, o);
    } } } }
}
fn nest(g: &mut G, body: Vec<u8>, depth: usize) -> Vec<u8> {
    let mut b = body;
    for _ in 0..depth {
        let mut o = vec![];
        match g.r.below(5) {
            0 => { o.extend([2, 0x40]); o.extend(b); }
            1 => { o.extend([3, 0x40]); o.extend(b); }
            2 => { o.extend([4, 0x40]); o.extend(b); if g.r.chance(500) { o.extend([5, 1]); } }
            3 => { o.extend([4, 0x40, 1, 5]); o.extend(b); }
            _ => { o.extend([0x1F, 0x40, 0]); o.extend(b); }
        }
        o.push(0x0B);
        if g.r.chance(300) { o.push(1); }
        b = o;
    }
    b
}
fn cross(g: &mut G, k: K) {
    let dx: [&[u8]; 9] = [&[0xFC, 8, 0, 0], &[0xFC, 9, 0], &[0xFB, 9, 0, 0], &[0xFB, 18, 0, 0], &[1], &[0xFB, 10, 0, 0], &[0xFB, 19, 0, 0], &[0xFC, 12, 0, 0], &[0xFC, 13, 0]];
    for nf in 0..4usize { for nc in 0..4usize { for dc in 0..5usize { for nd in 0..5usize {
        for _ in 0..3 {
            let mut o = PRE.to_vec();
            if nf > 0 || g.r.chance(500) {
                let mut c = vec![]; enc_u(&mut c, nf as u64, 0);
                for i in 0..nf { c.push(10 + i as u8); }
                sec(&mut o, 3, &c);
            }
            if dc > 0 { sec(&mut o, 12, &[dc as u8 - 1]); }
            if nc > 0 || g.r.chance(500) {
                let mut c = vec![]; enc_u(&mut c, nc as u64, 0);
                for i in 0..nc {
                    let d = g.r.below(4);
                    let b = if g.r.chance(300) { g.r.pick(&dx) } else { &[1][..] };
                    let body = nest(g, [&b[..], &[0x41, i as u8][..]].concat(), d);
                    enc_u(&mut c, body.len() as u64 + 2, 0);
                    c.push(0); c.extend(body); c.push(0x0B);
                }
                sec(&mut o, 10, &c);
            }
            if nd > 0 {
                let mut c = vec![nd as u8 - 1];
                for i in 1..nd { c.extend([1, 1, i as u8]); }
                sec(&mut o, 11, &c);
            }
            k(g, o);
        }
    } } } }
    for _ in 0..4000 {
        // several bodies, at most one of which carries a data index, somewhere deep
        let n = 1 + g.r.below(4);
        let at = g.r.below(n);
        let d = g.r.pick(&dx);
        let mut c = vec![]; enc_u(&mut c, n as u64, 0);
        for i in 0..n {
            let depth = g.r.below(9);
            let mut inner = vec![1; g.r.below(3)];
            if i == at { inner.extend(d); }
            inner.extend(vec![1; g.r.below(3)]);
            let mut body = nest(g, inner, depth);
            if g.r.chance(300) { body.splice(0..0, [1, 1]); }
            enc_u(&mut c, body.len() as u64 + 2, 0);
            c.push(0); c.extend(body); c.push(0x0B);
        }
        let mut o = PRE.to_vec();
        let mut f = vec![n as u8]; for i in 0..n { f.push(i as u8); }
        sec(&mut o, 3, &f);
        let dc = g.r.chance(250);
        if dc { sec(&mut o, 12, &[1]); }
        sec(&mut o, 10, &c);
        if dc || g.r.chance(500) { sec(&mut o, 11, &[1, 1, 0]); }
        k(g, o);
    }
}
fn opcodes(g: &mut G, k: K) {
    let tails: [&[u8]; 5] = [&[], &[0; 20], &[1; 20], &[0x7F; 20], &[0x70, 0x6F, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]];
    for op in 0..=255u8 { for t in tails { for n in [0, 1, 2, 3, 4, 5, 8, 9, 16, 17] {
        let mut b = vec![op]; b.extend(&t[..n.min(t.len())]);
        k(g, func(&b));
        if n < 4 { k(g, global(&b)); }
    } } }
    for pf in [0xFBu8, 0xFC, 0xFD] {
        let mut subs: Vec<u64> = (0..=600).collect();
        for s in 9..33 { subs.extend([1u64 << s, (1u64 << s) - 1, (1u64 << s) + 13]); }
        let l = g.lits.clone(); subs.extend(l);
        for s in subs.clone() { for i in [0u64, 256, 65536] { if s < 300 && i > 0 { subs.push(s + i); } } }
        for s in subs { for pad in [0, 1, 4] { for t in tails {
            if s > 0xFFFF_FFFF { continue; }
            let mut b = vec![pf]; enc_u(&mut b, s, pad);
            let base = b.len();
            for n in if pad == 0 { &[0usize, 1, 2, 3, 4, 16, 17][..] } else { &[2usize, 16][..] } { b.truncate(base); b.extend(&t[..(*n).min(t.len())]); k(g, func(&b)); }
        } } }
    }
    for i in 0..OPS.len() { for _ in 0..60 {
        let mut b = vec![];
        g.bad = if g.r.chance(200) { 100 } else { 0 };
        g.op(&mut b, i);
        if g.r.chance(100) { b.pop(); }
        let o = if g.r.chance(500) { func(&b) } else { global(&b) }; k(g, o);
    } }
    g.budget = 1000;
    for _ in 0..6000 { // the ones outside the table
        let mut b = vec![];
        g.bad = if g.r.chance(200) { 100 } else { 0 };
        g.instr(&mut b, 39);
        k(g, func(&b));
        g.budget = 50;
    }
    for f in 0..200u32 { for x in 0..3 { for op in [0x28u8, 0x3E] {
        let mut b = vec![op]; enc_u(&mut b, f.into(), x); let v = g.u32v(); enc_u(&mut b, v, 0); if f >= 64 { let v = g.val(u64::MAX); enc_u(&mut b, v, 0); }
        k(g, func(&b));
    } } }
}
fn control(g: &mut G, k: K) {
    // all short strings over the structural tokens
    let toks: [&[u8]; 9] = [&[2, 0x40], &[3, 0x40], &[4, 0x40], &[5], &[0x0B], &[1], &[0x1F, 0x40, 0], &[0x0C, 0], &[4, 0x7F]];
    for n in 0..=5usize {
        for mut i in 0..toks.len().pow(n as u32) {
            let mut b = vec![];
            for _ in 0..n { b.extend(toks[i % toks.len()]); i /= toks.len(); }
            k(g, func(&b));
            if n <= 4 { k(g, global(&b)); }
        }
    }
    for a in 0..=255u8 { for b in 0..=255u8 { for op in [2u8, 4] { k(g, func(&[op, a, b, 0x0B])); } } }
    for a in 0..=255u8 { k(g, func(&[0x1F, 0x40, 1, a, 3, 7, 0x0B])); k(g, func(&[0x1F, 0x7F, 2, a, 3, 7, a, 1, 0x0B])); }
    for depth in [1, 2, 3, 5, 10, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 250] { for _ in 0..12 {
        let b = nest(g, vec![0x41, 5], depth);
        k(g, func(&b));
        k(g, global(&b));
        let mut b2 = b.clone(); b2.pop(); k(g, func(&b2));
        let mut b2 = b.clone(); b2.push(0x0B); k(g, func(&b2));
        let mut b2 = b.clone(); let i = g.r.below(b2.len()); b2.insert(i, 5); k(g, func(&b2));
    } }
    for _ in 0..12000 {
        g.bad = if g.r.chance(300) { 30 } else { 0 };
        g.budget = g.r.pick(&[20, 60, 200]);
        g.want_didx = true;
        let mut b = vec![];
        let n = g.r.below(4);
        for _ in 0..n { g.instr(&mut b, 0); }
        let o = if g.r.chance(700) { func(&b) } else { global(&b) }; k(g, o);
    }
}
fn types(g: &mut G, k: K) {
    // every pair of bytes at each place where a type starts
    for a in 0..=255u8 { for b in 0..=255u8 {
        let t = [a, b];
        k(g, one(1, &[1, a, b]));
        k(g, one(1, &[1, 0x60, 1, a, b]));
        k(g, one(1, &[1, 0x60, 1, a, b, 0]));
        k(g, one(1, &[1, 0x5E, a, b]));
        k(g, one(1, &[1, 0x5F, 2, a, b, 0x7F, 1]));
        k(g, one(5, &[1, a, b]));
        k(g, one(6, &[1, a, b, 0x0B]));
        k(g, one(13, &[1, a, b]));
        k(g, one(4, &[1, a, b, 0]));
        k(g, one(2, &[&[1, 0, 0][..], &t, &[0]].concat()));
    } }
    for a in 0..=255u8 {
        for tail in [&[][..], &[0], &[0, 0], &[1, 2, 3], &[0x70, 0, 1], &[0x60, 0, 0], &[1, 0x60, 0, 0], &[0, 0x60, 0, 0], &[0, 0x5F, 0], &[2, 0x60, 0, 0, 0x50, 0, 0x60, 0, 0]] {
            for pre in [&[1u8][..], &[1, 0x4E, 1], &[1, 0x50, 0], &[1, 0x4F, 1, 5], &[1, 0x5E, 0x63], &[1, 0x5E, 0x64]] { k(g, one(1, &[pre, &[a], tail].concat())); }
            for pre in [&[1u8][..], &[1, 0x63], &[1, 0x64], &[1, 0x40, 0], &[1, 0x40], &[1, 0x70], &[1, 0x70, 5]] { k(g, one(4, &[pre, &[a], tail].concat())); }
            for d in 0..5u8 { k(g, one(2, &[&[1, 1, b'm', 1, b'n', d][..], &[a], tail].concat())); }
        }
    }
    for _ in 0..40000 {
        g.bad = g.r.pick(&[0, 0, 30, 100]);
        g.budget = 30;
        let id = g.r.pick(&[1u8, 1, 1, 1, 4, 5, 13, 6, 2]);
        let mut c = vec![];
        g.list(&mut c, |g, o| g.entry(o, id));
        k(g, one(id, &c));
    }
}
fn entries(g: &mut G, k: K) {
    for id in [1u8, 2, 3, 4, 5, 6, 7, 8, 13] {
        for n in 0..4usize { for decl in 0..5u8 { for _ in 0..25 {
            g.bad = g.r.pick(&[0, 0, 40]);
            g.budget = 20;
            let mut c = vec![decl];
            if id == 8 { c.clear(); g.idx(&mut c); } else { for _ in 0..n { g.entry(&mut c, id); } }
            if g.r.chance(100) { c.pop(); }
            let mut o = PRE.to_vec();
            if id == 3 { sec(&mut o, 3, &c); let mut b = vec![decl]; for _ in 0..decl { b.extend([2, 0, 0x0B]); } sec(&mut o, 10, &b); } else { sec(&mut o, id, &c); }
            k(g, o);
        } } }
    }
    for d in 0..=255u8 { for x in 0..3u8 {
        k(g, one(7, &[1, 1, b'e', d, x]));
        k(g, one(7, &[2, 1, b'e', 0, x, 2, b'f', b'g', d, x]));
        k(g, one(2, &[1, 1, b'a', 2, b'b', b'c', d, x, x, x]));
        k(g, one(4, &[1, 0x40, d, 0x70, 0, x, 0xD0, 0x70, 0x0B]));
    } }
    for _ in 0..15000 {
        g.bad = g.r.pick(&[0, 0, 0, 20]);
        g.budget = 60;
        let id = g.r.pick(&[2u8, 4, 5, 6, 7, 13]);
        let mut c = vec![];
        g.list(&mut c, |g, o| g.entry(o, id));
        k(g, one(id, &c));
    }
}
fn segments(g: &mut G, k: K) {
    for f in 0..=255u8 { for pad in 0..3 {
        let mut c = vec![1]; enc_u(&mut c, f.into(), pad);
        for tail in [&[0x41, 0, 0x0B, 2, 5, 6][..], &[0, 2, 5, 6], &[1, 0x41, 0, 0x0B, 0, 2, 5, 6], &[0x41, 0, 0x0B, 1, 0xD2, 5, 0x0B], &[0x70, 1, 0xD2, 5, 0x0B],
            &[0x63, 3, 1, 0xD2, 5, 0x0B], &[7, 0x41, 0, 0x0B, 0x64, 0x70, 1, 0xD2, 5, 0x0B], &[0, 0], &[0], &[1, 1], &[2, 1, 2], &[3, 0x41, 0, 0x0B, 2, 1, 2], &[0x41, 1, 0x0B, 1, 9]] {
            let mut d = c.clone(); d.extend(tail);
            k(g, one(9, &d));
            k(g, one(11, &d));
        }
    } }
    for s in 8..32 { for id in [9, 11] { for low in 0..8u64 {
        let mut c = vec![1]; enc_u(&mut c, (1u64 << s) | low, 0); c.extend([0x41, 0, 0x0B, 1, 5]); k(g, one(id, &c));
        let mut c = vec![1]; enc_u(&mut c, (1u64 << s) | low, 0); c.extend([0, 1, 5]); k(g, one(id, &c));
    } } }
    for b in 0..=255u8 { k(g, one(9, &[1, 1, b, 1, 4])); k(g, one(9, &[1, 3, b, 1, 4])); k(g, one(9, &[1, 2, 4, 0x41, 0, 0x0B, b, 1, 4])); k(g, one(9, &[1, 5, b, 0])); k(g, one(9, &[1, 7, b, 0])); }
    for _ in 0..40000 {
        g.bad = g.r.pick(&[0, 0, 0, 20, 60]);
        g.budget = 40;
        let id = g.r.pick(&[9u8, 11]);
        let mut c = vec![];
        g.list(&mut c, |g, o| g.entry(o, id));
        k(g, one(id, &c));
    }
}
fn bodies(cs: &[Vec<u8>]) -> Out {
    let mut o = PRE.to_vec();
    let mut f = vec![]; enc_u(&mut f, cs.len() as u64, 0);
    for i in 0..cs.len() { enc_u(&mut f, 100 + i as u64 * 7, 0); }
    sec(&mut o, 3, &f);
    let mut c = vec![]; enc_u(&mut c, cs.len() as u64, 0);
    for b in cs { enc_u(&mut c, b.len() as u64, 0); c.extend(b); }
    sec(&mut o, 10, &c);
    o
}
fn locals(g: &mut G, k: K) {
    // sums of runs around 2^32, with something wrong afterwards so that nothing is expanded
    let big: [u64; 8] = [0, 1, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x4000_0000];
    for a in big { for b in big { for c in big { for end in [&[0x0B][..], &[0x05], &[]] {
        let mut s = vec![3];
        for (v, t) in [(a, 0x7Fu8), (b, 0x7E), (c, 0x70)] { enc_u(&mut s, v, 0); s.push(t); }
        s.extend(end);
        k(g, bodies(&[s]));
    } } } }
    for a in big { for t in [0x7F, 0x00, 0x60] { let mut s = vec![2]; enc_u(&mut s, 0xFFFF_FFFF, 0); s.push(0x7F); enc_u(&mut s, a, 0); s.push(t); s.push(0x05); k(g, bodies(&[s])); } }
    for n in [1usize, 2, 3, 5, 17, 100, 1000] { // many large runs
        let mut s = vec![]; enc_u(&mut s, n as u64, 0);
        for _ in 0..n { enc_u(&mut s, 0xFFFF_FFFF / n as u64 + 1, 0); s.push(0x7F); }
        s.push(0x0B);
        k(g, bodies(&[s]));
    }
    for _ in 0..12000 {
        let nb = 1 + g.r.below(4);
        let mut cs = vec![];
        let mut total = 0;
        for i in 0..nb {
            let runs = g.r.below(6);
            let mut s = vec![]; let decl = if g.r.chance(50) { g.r.below(8) } else { runs }; enc_u(&mut s, decl as u64, 0);
            for _ in 0..runs {
                let c = if g.r.chance(300) { 0 } else if total < 20000 { g.val(3000) } else { 1 };
                total += c;
                enc_u(&mut s, c, 0);
                g.bad = if g.r.chance(50) { 300 } else { 0 };
                g.valtype(&mut s);
            }
            s.extend([0x41, i as u8, 0x0B]);
            if g.r.chance(40) { s.pop(); }
            cs.push(s);
        }
        k(g, bodies(&cs));
    }
}
fn names(g: &mut G, k: K) {
    fn go2(g: &mut G, k: K, s: &[u8]) {
        let mut c = vec![]; enc_u(&mut c, s.len() as u64, 0); c.extend(s); c.extend([1, 2]);
        k(g, one(0, &c));
    }
    macro_rules! go { ($g:expr, $s:expr) => { go2($g, k, $s) }; }
    for a in 0..=255u8 { go!(g, &[a]); for b in 0..=255u8 { go!(g, &[a, b]); } }
    let e = [0x00u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xFF];
    for a in 0xE0..=0xFFu8 { for b in e { for c in e { go!(g, &[a, b, c]); for d in e { go!(g, &[a, b, c, d]); } } } }
    let lits = g.lits.clone();
    let news = g.new_lits.clone();
    let lens: Vec<usize> = [0usize, 1, 2, 3, 63, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 4095, 4096, 8191, 8192, 16383, 16384, 65535, 65536, 70000].into_iter()
        .chain(lits.iter().filter(|v| **v > 300).chain(&news).filter(|v| **v < 200_000).map(|v| *v as usize)).chain(news.iter().filter(|v| **v < 200_000).map(|v| *v as usize + 1)).collect();
    for n in lens {
        let s: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        go!(g, &s);
        let mut t = s.clone(); if n > 0 { t[n - 1] = 0xC3; } go!(g, &t);
        let mut c = vec![1]; enc_u(&mut c, n as u64, 0); c.extend(&s); c.extend([0, 0]); k(g, one(7, &c));
        let mut c = vec![1]; enc_u(&mut c, n as u64, 0); c.extend(&s); c.extend([0, 0, 0]); k(g, one(2, &c));
        let mut c = vec![1, 0]; enc_u(&mut c, n as u64, 0); c.extend(&s); c.extend([0, 0]); k(g, one(2, &c));
        let mut c = vec![1, 1]; enc_u(&mut c, n as u64, 0); c.extend(&s); k(g, one(11, &c));
        let mut c = vec![1, b'n']; c.extend(&s); k(g, one(0, &c));
        for d in [1u64, 2, 127] { // declared longer than present
            let mut c = vec![1, 1]; enc_u(&mut c, n as u64 + d, 0); c.extend(&s); k(g, one(11, &c));
            let mut c = vec![]; enc_u(&mut c, n as u64 + d, 0); c.extend(&s); k(g, one(0, &c));
            let mut o = one(0, &c); minimal(&mut o, 0, 1); k(g, o);
        }
    }
    for _ in 0..15000 {
        g.bad = g.r.pick(&[0, 0, 100]);
        let mut o = PRE.to_vec();
        for _ in 0..1 + g.r.below(4) { g.custom(&mut o); }
        if g.r.chance(300) { minimal(&mut o, 11, 0); g.custom(&mut o); }
        k(g, o);
    }
    let strs: Vec<Vec<u8>> = g.strs.iter().chain(&g.new_strs).cloned().collect();
    for s in strs {
        let mut c = vec![]; enc_u(&mut c, s.len() as u64, 0); c.extend(&s);
        for n in 0..3usize { let mut d = c.clone(); d.extend(vec![7; n]); k(g, one(0, &d)); }
        for kind in 0..5u8 {
            let mut d = vec![1]; d.extend(&c); d.extend([kind, 0]); k(g, one(7, &d));
            let mut d = vec![1]; d.extend(&c); d.extend(&c); d.extend([0, kind]); k(g, one(2, &d));
        }
    }
}
fn huge(g: &mut G, k: K) {
    // a huge declared length wherever there is one, with hardly anything behind it
    let ps: Vec<(u8, Vec<u8>)> = vec![
        (0, vec![]), (1, vec![]), (2, vec![]), (3, vec![]), (4, vec![]), (5, vec![]), (6, vec![]), (7, vec![]), (9, vec![]), (10, vec![]), (11, vec![]), (13, vec![]),
        (1, vec![1, 0x4E]), (1, vec![1, 0x50]), (1, vec![1, 0x5F]), (1, vec![1, 0x60]), (1, vec![1, 0x60, 0]), (2, vec![1]), (2, vec![1, 0]), (7, vec![1]),
        (9, vec![1, 1, 0]), (9, vec![1, 5, 0x70]), (9, vec![1, 0, 0x0B]), (9, vec![1, 4, 0x0B]), (9, vec![1, 3, 0]), (9, vec![1, 7, 0x70]), (9, vec![1, 2, 0, 0x0B, 0]), (9, vec![1, 6, 0, 0x0B, 0x70]),
        (11, vec![1, 1]), (11, vec![1, 0, 0x0B]), (11, vec![1, 2, 0, 0x0B]),
        (6, vec![1, 0x7F, 0, 0x0E]), (6, vec![1, 0x7F, 0, 0x1C]), (6, vec![1, 0x7F, 0, 0x1F, 0x40]),
        (10, vec![1, 100]), (10, vec![1, 100, 0, 0x0E]), (10, vec![1]),
    ];
    for (id, pre) in ps { for n in [1u64 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24, 1 << 26, 1 << 28, 1 << 30, 0x7FFF_FFFF, 0xFFFF_FFFF] { for tail in [0usize, 1, 3, 40] { for fill in [0u8, 1, 0x0B, 0x7F] {
        let mut c = pre.clone(); enc_u(&mut c, n, 0); c.extend(vec![fill; tail]);
        k(g, one(id, &c));
        let mut o = PRE.to_vec(); o.push(id); enc_u(&mut o, 0xFFFF_FFFF, 0); o.extend(&c); // and a section size that would have room for it
        k(g, o);
    } } } }
    for id in 0..=13u8 { for n in [1u64 << 16, 1 << 20, 1 << 28, 0xFFFF_FFFF] { let mut o = PRE.to_vec(); o.push(id); enc_u(&mut o, n, 0); o.extend([1, b'x']); k(g, o); } }
}
fn lists(g: &mut G, k: K) {
    // long lists, correct, too short, too long, and with a bad element somewhere
    let mut lens = vec![2usize, 5, 63, 64, 100, 127, 128, 129, 255, 256, 257, 258, 500, 1000, 1024, 4096, 16383, 16384, 16385, 65535, 65536, 65537];
    let l: Vec<u64> = g.lits.iter().filter(|v| **v > 300).chain(&g.new_lits).copied().filter(|v| 0 < *v && *v < 70_000).collect();
    for v in l { lens.extend([v as usize, v as usize + 1]); }
    // (section, what precedes the list, an element that depends on its index, a bad element)
    type El = fn(&mut Out, usize);
    let els: [(u8, &[u8], El, &[u8], &[u8]); 22] = [
        (1, &[], |o, i| o.extend([0x60, 0, if i % 2 == 0 { 0 } else { 0 }]), &[0x61], &[]),
        (1, &[1, 0x4E], |o, _| o.extend([0x5E, 0x7F, 0]), &[0x61], &[]),
        (1, &[1, 0x50], |o, i| enc_u(o, i as u64, 0), &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F], &[0x60, 0, 0]),
        (1, &[1, 0x5F], |o, i| o.extend([0x7F - (i % 5) as u8, (i % 2) as u8]), &[0x7F, 2], &[]),
        (1, &[1, 0x60], |o, i| o.push(0x7F - (i % 5) as u8), &[0x00], &[0]),
        (1, &[1, 0x60, 0], |o, i| o.push(0x7F - (i % 5) as u8), &[0x00], &[]),
        (2, &[], |o, i| { o.extend([0, 1, b'a' + (i % 26) as u8, 0]); enc_u(o, i as u64, 0) }, &[0, 0, 9], &[]),
        (4, &[], |o, i| { o.extend([0x70, 0]); enc_u(o, i as u64, 0) }, &[0x40, 1], &[]),
        (5, &[], |o, i| { o.push(0); enc_u(o, i as u64, 0) }, &[2], &[]),
        (13, &[], |o, i| { o.push(0); enc_u(o, i as u64, 0) }, &[1], &[]),
        (6, &[], |o, i| { o.extend([0x7F, 0, 0x41]); enc_s(o, i as i64, 0); o.push(0x0B) }, &[0x7F, 3], &[]),
        (7, &[], |o, i| { o.extend([1, b'a' + (i % 26) as u8, (i % 5) as u8]); enc_u(o, i as u64, 0) }, &[0, 9, 0], &[]),
        (9, &[], |o, i| { o.extend([1, 0, 1]); enc_u(o, i as u64, 0) }, &[8], &[]),
        (9, &[1, 1, 0], |o, i| enc_u(o, i as u64, 0), &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F], &[]),
        (9, &[1, 5, 0x70], |o, i| { o.push(0xD2); enc_u(o, i as u64, 0); o.push(0x0B) }, &[0xFF], &[]),
        (11, &[], |o, i| o.extend([1, 1, i as u8]), &[3], &[]),
        (6, &[1, 0x7F, 0, 0x0E], |o, i| enc_u(o, i as u64, 0), &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F], &[0, 0x0B]),
        (6, &[1, 0x7F, 0, 0x1C], |o, i| o.push(0x7F - (i % 5) as u8), &[0x00], &[0x0B]),
        (6, &[1, 0x7F, 0, 0x1F, 0x40], |o, i| { o.push(2 + (i % 2) as u8); enc_u(o, i as u64, 0) }, &[4], &[0x0B, 0x0B]),
        (3, &[], |o, i| enc_u(o, i as u64, 0), &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F], &[]),
        (10, &[], |o, i| { let mut b = vec![0, 0x41]; enc_s(&mut b, i as i64, 0); b.push(0x0B); enc_u(o, b.len() as u64, 0); o.extend(b) }, &[1], &[]),
        (10, &[0xFE], |o, i| { o.push((i % 2) as u8); o.push(0x7F - (i % 5) as u8) }, &[1, 0], &[]),
    ];
    for (id, pre, el, bad, post) in els { for &n in &lens {
        if n > 5000 && id != 3 && !g.r.chance(300) && !g.new_lits.contains(&(n as u64)) { continue; }
        for variant in 0..5 {
            if n > 5000 && variant > 1 { continue; }
            let mut c = if pre == [0xFE] { vec![] } else { pre.to_vec() };
            let declared = match variant { 0 | 1 => n, 2 => n + 1, 3 => n - 1, _ => n };
            enc_u(&mut c, declared as u64, 0);
            let at = if variant == 1 { g.r.below(n) } else if variant == 4 { n - 1 } else { n };
            for i in 0..n { if i == at { c.extend(bad); } else { el(&mut c, i); } }
            c.extend(post);
            let mut o = PRE.to_vec();
            if id == 10 || id == 3 {
                let mut f = vec![]; let m = if pre == [0xFE] { 1 } else { n };
                enc_u(&mut f, m as u64, 0); for i in 0..m { enc_u(&mut f, i as u64, 0); }
                if id == 10 {
                    sec(&mut o, 3, &f);
                    if pre == [0xFE] { c.extend([0x41, 0, 0x0B]); let mut d = vec![1]; enc_u(&mut d, c.len() as u64, 0); d.extend(&c); c = d; }
                    sec(&mut o, 10, &c);
                } else {
                    sec(&mut o, 3, &c);
                    let mut d = vec![]; enc_u(&mut d, n as u64, 0); for _ in 0..n { d.extend([2, 0, 0x0B]); }
                    sec(&mut o, 10, &d);
                }
            } else { sec(&mut o, id, &c); }
            k(g, o);
        }
    } }
    // many sections and many instructions
    for n in [50usize, 300, 1000] { let mut o = PRE.to_vec(); for i in 0..n { minimal(&mut o, 0, i % 20); } minimal(&mut o, 7, 0); k(g, o); }
    for &n in &lens { let b: Vec<u8> = (0..n).flat_map(|i| { let mut o = vec![0x41]; enc_s(&mut o, i as i64, 0); o }).collect(); k(g, func(&b)); k(g, global(&b)); }
}
