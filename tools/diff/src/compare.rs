//! Comparing what the crate returned with what the reference decoder returned.
use wadec::core::instruction::*;
use wadec::core::*;

fn bits(v: &[Instruction], o: &mut Vec<u64>) {
    for i in v {
        match i {
            Instruction::F32Const(x) => o.push(u64::from(x.to_bits())),
            Instruction::F64Const(x) => o.push(x.to_bits()),
            Instruction::Block(_, b) | Instruction::Loop(_, b) | Instruction::TryTable(_, _, b) => bits(b, o),
            Instruction::If(_, a, b) => {
                bits(a, o);
                if let Some(b) = b {
                    bits(b, o);
                }
            }
            _ => {}
        }
    }
}
/// the floating-point immediates of a module, bit by bit: PartialEq says nothing about NaN or zeros
fn float_bits(m: &Module) -> Vec<u64> {
    let mut o = vec![];
    for t in &m.tables {
        bits(&t.1, &mut o);
    }
    for g in &m.globals {
        bits(&g.init, &mut o);
    }
    for e in &m.elems {
        if let ElemMode::Active { offset, .. } = &e.mode {
            bits(offset, &mut o);
        }
        for x in &e.init {
            bits(x, &mut o);
        }
    }
    for f in &m.funcs {
        bits(&f.body, &mut o);
    }
    for d in &m.datas {
        if let DataMode::Active { offset, .. } = &d.mode {
            bits(offset, &mut o);
        }
    }
    o
}
fn shape(v: &[Instruction], o: &mut String) {
    for i in v {
        match i {
            Instruction::Block(t, b) => { *o += &format!("b{t:?}("); shape(b, o); o.push(')'); }
            Instruction::Loop(t, b) => { *o += &format!("l{t:?}("); shape(b, o); o.push(')'); }
            Instruction::TryTable(t, c, b) => { *o += &format!("t{t:?}{c:?}("); shape(b, o); o.push(')'); }
            Instruction::If(t, a, b) => {
                *o += &format!("i{t:?}(");
                shape(a, o);
                if let Some(b) = b { o.push('|'); shape(b, o); }
                o.push(')');
            }
            _ => o.push('.'),
        }
    }
}
fn same<T: PartialEq + std::fmt::Debug>(a: &T, b: &T) -> bool {
    // NaN immediates make equal values unequal; the float bits are compared separately
    a == b || format!("{a:?}") == format!("{b:?}")
}
fn exprs(a: &[Instruction], b: &[Instruction]) -> u32 {
    if format!("{a:?}") == format!("{b:?}") && a.len() == b.len() {
        return 0;
    }
    let (mut x, mut y) = (String::new(), String::new());
    shape(a, &mut x);
    shape(b, &mut y);
    // a different tree is C07; the same tree with different leaves is C06
    if x == y { 1 << 6 } else { 1 << 6 | 1 << 7 }
}
/// None: equal. Otherwise the properties under which the two modules differ, and a description
pub fn diff(a: &Module, r: &Module) -> Option<(u32, String)> {
    if a == r && float_bits(a) == float_bits(r) {
        return None;
    }
    let t = |n: u32| 1u32 << n;
    let mut tag = 0;
    let mut d = vec![];
    macro_rules! f {
        ($f:ident, $t:expr) => {
            if !same(&a.$f, &r.$f) {
                tag |= $t;
                d.push(format!("{}: decoded {:.600?}, the bytes encode {:.600?}", stringify!($f), a.$f, r.$f));
            }
        };
    }
    f!(version, t(3));
    f!(parsed_section_kinds, t(3));
    f!(section_headers, t(4));
    f!(custom_sections, t(12));
    f!(types, t(8) | t(9));
    f!(imports, t(9));
    f!(tables, t(9));
    f!(mems, t(9));
    f!(globals, t(9));
    f!(tags, t(9));
    f!(exports, t(9));
    f!(start, t(9));
    f!(elems, t(10));
    f!(datas, t(10));
    f!(data_count, t(5));
    if a.imports.len() == r.imports.len() {
        for (x, y) in a.imports.iter().zip(&r.imports) {
            if x.extern_type != y.extern_type { tag |= t(8); }
            if x.module_name != y.module_name || x.item_name != y.item_name { tag |= t(12); }
        }
    }
    if a.exports.len() == r.exports.len() && a.exports.iter().zip(&r.exports).any(|(x, y)| x.name != y.name) { tag |= t(12); }
    if a.mems != r.mems || a.tags != r.tags { tag |= t(8); }
    if a.tables.len() == r.tables.len() {
        for (x, y) in a.tables.iter().zip(&r.tables) {
            if x.0 != y.0 { tag |= t(8); }
            tag |= exprs(&x.1, &y.1);
        }
    }
    if a.globals.len() == r.globals.len() {
        for (x, y) in a.globals.iter().zip(&r.globals) {
            if x.r#type != y.r#type { tag |= t(8); }
            tag |= exprs(&x.init, &y.init);
        }
    }
    if a.elems.len() == r.elems.len() {
        for (x, y) in a.elems.iter().zip(&r.elems) {
            if let (ElemMode::Active { offset: p, .. }, ElemMode::Active { offset: q, .. }) = (&x.mode, &y.mode) { tag |= exprs(p, q); }
            if x.init.len() == y.init.len() { for (p, q) in x.init.iter().zip(&y.init) { tag |= exprs(p, q); } }
            if x.r#type != y.r#type { tag |= t(8); }
        }
    }
    if a.datas.len() == r.datas.len() {
        for (x, y) in a.datas.iter().zip(&r.datas) {
            if let (DataMode::Active { offset: p, .. }, DataMode::Active { offset: q, .. }) = (&x.mode, &y.mode) { tag |= exprs(p, q); }
            if x.init != y.init { tag |= t(12); }
        }
    }
    if a.funcs.len() != r.funcs.len() {
        tag |= t(9) | t(5);
        d.push(format!("funcs: {} decoded, {} encoded", a.funcs.len(), r.funcs.len()));
    } else {
        for (i, (x, y)) in a.funcs.iter().zip(&r.funcs).enumerate() {
            let mut bad = false;
            if x.r#type != y.r#type { tag |= t(9) | t(11); bad = true; }
            if x.locals != y.locals { tag |= t(11); bad = true; }
            let e = exprs(&x.body, &y.body);
            // a whole body that belongs to another function: pairing
            if e != 0 { tag |= e | t(11); bad = true; }
            if e != 0 && r.funcs.iter().any(|z| exprs(&x.body, &z.body) == 0) { tag |= t(5); }
            if bad && d.len() < 6 {
                d.push(format!("funcs[{i}]: decoded {:.500?}, the bytes encode {:.500?}", x, y));
            }
        }
    }
    if tag == 0 {
        if float_bits(a) != float_bits(r) {
            tag = t(6);
            d.push("the bits of a floating-point constant differ".into());
        } else if same(a, r) {
            return None; // unequal only because of NaN
        } else {
            tag = t(9);
            d.push("modules differ".into());
        }
    }
    if float_bits(a) != float_bits(r) { tag |= t(6); }
    Some((tag, d.join("; ")))
}
/// Debug text of an error, without white space and trailing commas
pub fn norm(s: &str) -> String {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    s.replace(",)", ")").replace(",}", "}").replace(",]", "]")
}
/// is the sequence of facts found, in order, in the error text? (a fact must not start or stop inside a number)
pub fn facts_in(text: &str, facts: &[String]) -> Result<(), String> {
    let mut at = 0;
    for f in facts {
        let mut from = at;
        loop {
            let Some(i) = text[from..].find(f.as_str()) else { return Err(f.clone()) };
            let s = from + i;
            let e = s + f.len();
            let digit_before = f.starts_with(|c: char| c.is_alphanumeric()) && text[..s].ends_with(|c: char| c.is_alphanumeric() || c == '_');
            let digit_after = f.ends_with(|c: char| c.is_ascii_digit()) && text[e..].starts_with(|c: char| c.is_ascii_digit());
            if !digit_before && !digit_after {
                at = e;
                break;
            }
            from = s + 1;
        }
    }
    Ok(())
}
/// the properties an unwarranted rejection falls under, from the error value
pub fn tags_of_error(s: &str) -> u32 {
    let mut t = 0u32;
    for (w, ps) in [
        ("TooLarge", &[1u32, 2][..]),
        ("TooLong", &[1, 2]),
        ("SignExtension", &[2]),
        ("SectionOutOfOrder", &[3]),
        ("DuplicateSection", &[3]),
        ("ParsePreamble", &[3]),
        ("InvalidSectionId", &[3]),
        ("SizeMismatch", &[4]),
        ("LenMismatch", &[5]),
        ("DataCount", &[5]),
        ("DecodeTypeSection", &[8, 9]),
        ("DecodeImportSection", &[9]),
        ("DecodeFunctionSection", &[9]),
        ("DecodeTableSection", &[9]),
        ("DecodeMemorySection", &[9]),
        ("DecodeGlobalSection", &[9]),
        ("DecodeExportSection", &[9]),
        ("DecodeStartSection", &[9]),
        ("DecodeTagSection", &[9]),
        ("DecodeElementSection", &[10]),
        ("DecodeDataSection", &[10]),
        ("DecodeCodeSection", &[11]),
        ("LocalsCount", &[11]),
        ("DecodeCustomSection", &[12]),
        ("Utf8", &[12]),
        ("DecodeName", &[12]),
        ("ByteVector", &[12]),
        ("Instruction", &[6, 7]),
        ("Expression", &[7]),
        ("UnexpectedElse", &[7]),
        ("UnexpectedEnd", &[7]),
        ("BlockType", &[7]),
        ("Catch", &[7]),
        ("Opcode", &[6]),
        ("Memarg", &[6]),
        ("Limits", &[8]),
        ("RefType", &[8]),
        ("HeapType", &[8]),
        ("ValType", &[8]),
        ("ValueType", &[8]),
        ("FieldType", &[8]),
        ("CompType", &[8]),
        ("SubType", &[8]),
        ("RecType", &[8]),
        ("Mutability", &[8]),
        ("NegativeTypeIndex", &[8]),
        ("TableType", &[8]),
        ("TagType", &[8]),
        ("GlobalType", &[8]),
        ("MemType", &[8]),
        ("UnexpectedEof", &[4, 14]),
    ] {
        if s.contains(w) {
            for p in ps {
                t |= 1 << p;
            }
        }
    }
    t
}

const IO_KINDS: &[&str] = &[
    "NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "ConnectionAborted", "NotConnected", "AddrInUse",
    "AddrNotAvailable", "BrokenPipe", "AlreadyExists", "WouldBlock", "InvalidInput", "InvalidData", "TimedOut", "WriteZero",
    "Interrupted", "Unsupported", "UnexpectedEof", "OutOfMemory", "Other",
];
/// An I/O error in the Debug text of an error that is not how the reader ended: its own error once it failed
/// (`fired`; except that the body of a function is read through a limit), the end of the input otherwise.
pub fn foreign_io(debug: &str, fired: bool) -> Option<String> {
    let debug = &debug.split_whitespace().collect::<Vec<_>>().join(" ");
    for (i, w) in debug.match_indices("Kind(").chain(debug.match_indices(" kind: ")) {
        let rest = debug[i + w.len()..].trim_start();
        let k: String = rest.chars().take_while(|c| c.is_alphanumeric()).collect();
        if !IO_KINDS.contains(&k.as_str()) || (w == "Kind(" && debug[..i].ends_with(|c: char| c.is_alphanumeric())) {
            continue;
        }
        let own = rest[k.len()..].starts_with(", error: ReadersOwn");
        let eof = k == "UnexpectedEof" && !own;
        if !(fired && own || eof && (!fired || debug.contains("DecodeCode"))) {
            return Some(k);
        }
    }
    None
}
