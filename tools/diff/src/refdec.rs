//! A reference decoder for the WebAssembly 3.0 binary format, written from the specification,
//! that builds the crate's own public types. A rejection carries the facts (figures and bytes)
//! that the crate's error value has to report, outermost first, and the property it falls under.
use wadec::core::indices::*;
use wadec::core::instruction::*;
use wadec::core::types::addrtype::AddrType;
use wadec::core::types::comptype::{CompType, FieldType, PackType, StorageType};
use wadec::core::types::externtype::ExternType;
use wadec::core::types::globaltype::{GlobalType, Mut};
use wadec::core::types::heaptype::{AbsHeapType, HeapType};
use wadec::core::types::limits::Limits;
use wadec::core::types::memtype::MemType;
use wadec::core::types::numtype::NumType;
use wadec::core::types::rectype::{RecType, SubType};
use wadec::core::types::reftype::RefType;
use wadec::core::types::tabletype::TableType;
use wadec::core::types::tagtype::TagType;
use wadec::core::types::valtype::ValType;
use wadec::core::types::vectype::VecType;
use wadec::core::*;

pub const MAX_LOCALS: u64 = 1 << 16;
pub type R<T> = Result<T, E>;
#[derive(Debug, Clone)]
pub struct E {
    pub facts: Vec<String>,
    pub tag: u32,
    pub unknown: bool,
}
pub fn t(n: u32) -> u32 {
    1 << n
}
impl E {
    pub fn new(tag: u32, fact: String) -> E {
        E { facts: if fact.is_empty() { vec![] } else { vec![fact] }, tag: t(tag), unknown: false }
    }
    pub fn eof() -> E {
        E { facts: vec![], tag: t(14), unknown: false }
    }
    pub fn unknown() -> E {
        E { facts: vec![], tag: t(6), unknown: true }
    }
    fn at(mut self, fact: String) -> E {
        self.facts.insert(0, fact);
        self
    }
    fn or_tag(mut self, tag: u32) -> E {
        self.tag |= t(tag);
        self
    }
}

/// the name under which the crate's error reports a part that failed
pub trait Named {
    fn w(self, name: &str) -> Self;
}
impl<T> Named for R<T> {
    fn w(self, name: &str) -> Self {
        let dot = if name.ends_with('(') { "" } else { "(" };
        self.map_err(|e| e.at(format!("{name}{dot}")))
    }
}

pub struct P<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub depth: usize,
    pub max_depth: usize,
    /// sum of the local counts declared so far: what the module's locals may legitimately cost
    pub locals: u64,
    pub didx: bool,
    pub too_big: bool,
}

#[path = "optable.rs"]
pub mod optable_;
pub use optable_ as optable;

impl<'a> P<'a> {
    pub fn new(b: &'a [u8], max_depth: usize) -> P<'a> {
        P { b, pos: 0, end: b.len(), depth: 0, max_depth, locals: 0, didx: false, too_big: false }
    }
    fn byte(&mut self) -> R<u8> {
        if self.pos < self.end {
            self.pos += 1;
            Ok(self.b[self.pos - 1])
        } else {
            Err(E::eof())
        }
    }
    fn peek(&self) -> R<u8> {
        if self.pos < self.end { Ok(self.b[self.pos]) } else { Err(E::eof()) }
    }
    fn n(&mut self, n: usize) -> R<&'a [u8]> {
        if self.end - self.pos < n {
            return Err(E::eof());
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    /// uN: collect the groups, then look at the mathematical value
    fn uleb(&mut self, n: u32) -> R<u128> {
        let mut v: u128 = 0;
        for i in 0..n.div_ceil(7) {
            let b = self.byte().w("Io")?;
            v |= u128::from(b & 0x7F) << (7 * i);
            if b & 0x80 == 0 {
                return if v < 1u128 << n { Ok(v) } else { Err(E::new(1, "TooLarge".into())) };
            }
        }
        Err(E::new(1, "RepresentationTooLong".into()))
    }
    fn sleb(&mut self, n: u32) -> R<i128> {
        let mut v: i128 = 0;
        for i in 0..n.div_ceil(7) {
            let b = self.byte().w("Io")?;
            v |= i128::from(b & 0x7F) << (7 * i);
            if b & 0x80 == 0 {
                if b & 0x40 != 0 {
                    v -= 1i128 << (7 * (i + 1));
                }
                let h = 1i128 << (n - 1);
                return if (-h..h).contains(&v) { Ok(v) } else { Err(E::new(2, if n == 32 { "TooLarge".into() } else { "IncorrectSignExtension".into() })) };
            }
        }
        Err(E::new(2, "RepresentationTooLong".into()))
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(self.uleb(32)? as u32)
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(self.uleb(64)? as u64)
    }
    pub fn i32(&mut self) -> R<i32> {
        Ok(self.sleb(32)? as i32)
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.sleb(64)? as i64)
    }
    fn s33(&mut self) -> R<i64> {
        Ok(self.sleb(33)? as i64)
    }
    /// an index: x of the crate's DecodeXError
    pub fn idx(&mut self, x: &str) -> R<u32> {
        let name = match x { "TypeIdx" => "DecodeTypeIdxError".to_string(), _ => format!("Decode{x}Error") };
        self.u32().w(&name)
    }
    pub fn f32(&mut self) -> R<f32> {
        Ok(f32::from_bits(u32::from_le_bytes(self.n(4).w("ReadPayload")?.try_into().unwrap())))
    }
    pub fn f64(&mut self) -> R<f64> {
        Ok(f64::from_bits(u64::from_le_bytes(self.n(8).w("ReadPayload")?.try_into().unwrap())))
    }
    pub fn b16(&mut self) -> R<[u8; 16]> {
        Ok(self.n(16)?.try_into().unwrap())
    }
    pub fn lane(&mut self) -> R<LaneIdx> {
        Ok(LaneIdx(self.byte().w("LaneIdxError")?))
    }
    pub fn lane16(&mut self) -> R<[LaneIdx; 16]> {
        Ok(self.b16()?.map(LaneIdx))
    }
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.u32().w("DecodeLength")?;
        let mut v = vec![];
        for i in 0..n {
            v.push(f(self).map_err(|e| e.at(format!("position:{i},source")))?);
        }
        Ok(v)
    }
    fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.u32().w("DecodeLength")? as usize;
        Ok(self.n(n).w("ReadElements").map_err(|e| e.or_tag(12))?.to_vec())
    }
    fn name(&mut self) -> R<String> {
        let b = self.bytes().w("DecodeByteVector")?;
        String::from_utf8(b).map_err(|_| E::new(12, "Utf8(".into()))
    }

    // ---- types
    fn absheap(b: u8) -> Option<AbsHeapType> {
        use AbsHeapType::*;
        Some(match b {
            0x69 => Exn,
            0x6A => Array,
            0x6B => Struct,
            0x6C => I31,
            0x6D => Eq,
            0x6E => Any,
            0x6F => Extern,
            0x70 => Func,
            0x71 => None,
            0x72 => NoExtern,
            0x73 => NoFunc,
            0x74 => NoExn,
            _ => return Option::None,
        })
    }
    pub fn heaptype(&mut self) -> R<HeapType> {
        let b = self.peek().w("ReadMarkerByte")?;
        if let Some(h) = Self::absheap(b) {
            self.pos += 1;
            return Ok(HeapType::Ht(h));
        }
        let x = self.s33().w("DecodeTypeIndex").map_err(|e| e.or_tag(8))?;
        if x < 0 { Err(E::new(8, format!("NegativeTypeIndex({x})"))) } else { Ok(HeapType::TypeIdx(x as u32)) }
    }
    fn reftype(&mut self) -> R<RefType> {
        match self.byte().w("Io")? {
            b @ (0x63 | 0x64) => Ok(RefType { nullable: b == 0x63, ht: self.heaptype().w("DecodeHeapType")? }),
            b => match Self::absheap(b) {
                Some(h) => Ok(RefType { nullable: true, ht: HeapType::Ht(h) }),
                None => Err(E::new(8, format!("InvalidAbsHeapTypeMarkerError({b})"))),
            },
        }
    }
    fn valtype(&mut self) -> R<ValType> {
        let v = match self.peek().w("Io")? {
            0x7F => ValType::Num(NumType::Int32),
            0x7E => ValType::Num(NumType::Int64),
            0x7D => ValType::Num(NumType::Float32),
            0x7C => ValType::Num(NumType::Float64),
            0x7B => ValType::Vec(VecType::V128),
            _ => return Ok(ValType::Ref(self.reftype().w("DecodeRefType")?)),
        };
        self.pos += 1;
        Ok(v)
    }
    fn mutability(&mut self, io: &str, bad: &str) -> R<Mut> {
        match self.byte().w(io)? {
            0 => Ok(Mut::Const),
            1 => Ok(Mut::Var),
            b => Err(E::new(8, format!("{bad}(InvalidMutabilityByteError({b})"))),
        }
    }
    fn fieldtype(&mut self) -> R<FieldType> {
        let b = self.peek().w("DecodeStorageType(ReadMarkerByte")?;
        let z = match b {
            0x78 | 0x77 => {
                self.pos += 1;
                StorageType::PackType(if b == 0x78 { PackType::I8 } else { PackType::I16 })
            }
            _ => StorageType::ValType(self.valtype().map_err(|e| e.at(format!("DecodeStorageType(DecodeValTypeOrPackType{{marker:{b},source:")))?),
        };
        Ok(FieldType(self.mutability("ReadMutabilityMarkerByte", "DecodeMutability")?, z))
    }
    fn comptype(&mut self) -> R<CompType> {
        match self.byte().w("ReadMarkerByte")? {
            0x5E => Ok(CompType::Array(self.fieldtype().w("DecodeFieldType")?)),
            0x5F => Ok(CompType::Struct(self.list(Self::fieldtype).w("DecodeStruct")?)),
            0x60 => {
                let parameters = self.list(Self::valtype).w("DecodeFuncParameters(DecodeList")?;
                let results = self.list(Self::valtype).w("DecodeFuncResults(DecodeList")?;
                Ok(CompType::Func { parameters, results })
            }
            b => Err(E::new(8, format!("InvalidMarkerByte({b})"))),
        }
    }
    fn subtype(&mut self) -> R<SubType> {
        let b = self.peek().w("Io")?;
        if b == 0x4F || b == 0x50 {
            self.pos += 1;
            let supertypes = self.list(|p| Ok(TypeIdx(p.idx("TypeIdx")?))).w("DecodeSupertypes")?;
            return Ok(SubType { is_final: b == 0x4F, supertypes, comptype: self.comptype().w("DecodeCompType")? });
        }
        Ok(SubType { is_final: true, supertypes: vec![], comptype: self.comptype().w("DecodeCompType")? })
    }
    fn rectype(&mut self) -> R<RecType> {
        if self.peek().w("Io")? == 0x4E {
            self.pos += 1;
            return Ok(RecType(self.list(Self::subtype).w("DecodeSubtypes")?));
        }
        Ok(RecType(vec![self.subtype().w("DecodeSubtype")?]))
    }
    fn limits(&mut self) -> R<Limits> {
        let f = self.byte().w("ReadFlagByte")?;
        if ![0, 1, 4, 5].contains(&f) {
            return Err(E::new(8, format!("UnexpectedFlagByte({f})")));
        }
        let min = self.u64().w("ReadMinLimit")?;
        let max = if f % 2 == 1 { Some(self.u64().w("ReadMaxLimit")?) } else { None };
        Ok(Limits { address_type: if f >= 4 { AddrType::I64 } else { AddrType::I32 }, min, max })
    }
    fn tabletype(&mut self) -> R<TableType> {
        let reftype = self.reftype().w("DecodeRefType")?;
        Ok(TableType { reftype, limits: self.limits().w("DecodeLimits")? })
    }
    fn globaltype(&mut self) -> R<GlobalType> {
        let v = self.valtype().w("DecodeValueType")?;
        Ok(GlobalType(self.mutability("DecodeMutability", "InvalidMutability")?, v))
    }
    fn tagtype(&mut self) -> R<TagType> {
        match self.byte().w("ReadMarkerByte")? {
            0 => Ok(TagType(TypeIdx(self.idx("TypeIdx").w("DecodeTypeIndex")?))),
            b => Err(E::new(8, format!("InvalidMarkerByte({b})"))),
        }
    }
    fn externtype(&mut self) -> R<ExternType> {
        Ok(match self.byte().w("ReadMarkerByte")? {
            0 => ExternType::Func(TypeIdx(self.idx("TypeIdx").w("DecodeTypeIndex")?)),
            1 => ExternType::Table(self.tabletype().w("DecodeTableType")?),
            2 => ExternType::Mem(MemType { limits: self.limits().w("DecodeMemoryType(DecodeMemoryTypeError")? }),
            3 => ExternType::Global(self.globaltype().w("DecodeGlobalType")?),
            4 => ExternType::Tag(self.tagtype().w("DecodeTagType")?),
            b => return Err(E::new(9, format!("InvalidMarkerByte({b})")).or_tag(8)),
        })
    }

    // ---- instructions
    pub fn memarg(&mut self) -> R<Memarg> {
        let f = self.u32().w("Align")?;
        if f >= 128 {
            return Err(E::new(6, format!("InvalidFlagsBit({f})")));
        }
        let mem_idx = MemIdx(if f & 64 != 0 { self.idx("MemIdx").w("MemIdx")? } else { 0 });
        Ok(Memarg { mem_idx, align: f & 63, offset: self.u64().w("Offset")? })
    }
    fn blocktype(&mut self) -> R<BlockType> {
        let b = self.peek().w("ReadMarkerByte")?;
        if b == 0x40 {
            self.pos += 1;
            return Ok(BlockType::Empty);
        }
        if b & 0xC0 == 0x40 {
            // one byte of a negative s33: a value type or nothing
            return match self.valtype() {
                Ok(v) => Ok(BlockType::T(v)),
                Err(e) => Err(E { facts: vec![format!("NegativeTypeIndex({})", i64::from(b) - 128)], tag: e.tag | t(7), unknown: false }),
            };
        }
        let x = self.s33().w("DecodeIndex").map_err(|e| e.or_tag(7))?;
        if x < 0 { Err(E::new(7, format!("NegativeTypeIndex({x})"))) } else { Ok(BlockType::I(x as u32)) }
    }
    fn catch(&mut self) -> R<Catch> {
        let b = self.byte().w("ReadMarkerByte")?;
        if b > 3 {
            return Err(E::new(7, format!("InvalidMarkerByte({b})")));
        }
        let tag = if b < 2 { Some(TagIdx(self.idx("TagIdx").w("DecodeTagIdx")?)) } else { None };
        let l = LabelIdx(self.idx("LabelIdx").w("DecodeLabelIdx")?);
        Ok(match (b, tag) {
            (0, Some(x)) => Catch::Catch(x, l),
            (1, Some(x)) => Catch::CatchRef(x, l),
            (2, _) => Catch::CatchAll(l),
            _ => Catch::CatchAllRef(l),
        })
    }
    /// instructions up to `end` (false) or `else` (true)
    fn seq(&mut self) -> R<(Vec<Instruction>, bool)> {
        let mut v = vec![];
        self.depth += 1;
        if self.depth > self.max_depth {
            self.too_big = true;
            return Err(E::new(7, String::new()));
        }
        loop {
            let op = self.byte().w("ReadOpcode").map_err(|e| e.or_tag(7))?;
            let i = match op {
                0x0B | 0x05 => {
                    self.depth -= 1;
                    return Ok((v, op == 0x05));
                }
                0x02 | 0x03 => {
                    let bt = self.blocktype().w("Control(BlockType")?;
                    let (b, e) = self.seq()?;
                    if e {
                        return Err(E::new(7, "Control(UnexpectedElse".into()));
                    }
                    if op == 2 { Instruction::Block(bt, b) } else { Instruction::Loop(bt, b) }
                }
                0x04 => {
                    let bt = self.blocktype().w("Control(BlockType")?;
                    let (b, e) = self.seq()?;
                    if e {
                        let (c, e) = self.seq()?;
                        if e {
                            return Err(E::new(7, "Control(UnexpectedElse".into()));
                        }
                        Instruction::If(bt, b, Some(c))
                    } else {
                        Instruction::If(bt, b, None)
                    }
                }
                0x1F => {
                    let bt = self.blocktype().w("Control(BlockType")?;
                    let c = self.list(Self::catch).w("Control(DecodeCatchListError")?;
                    let (b, e) = self.seq()?;
                    if e {
                        return Err(E::new(7, "Control(UnexpectedElse".into()));
                    }
                    Instruction::TryTable(bt, c, b)
                }
                _ => self.plain(op).map_err(|e| e.or_tag(6))?,
            };
            use Instruction::*;
            if matches!(i, MemoryInit(..) | DataDrop(..) | ArrayNewData(..) | ArrayInitData(..)) {
                self.didx = true;
            }
            v.push(i);
        }
    }
    fn plain(&mut self, op: u8) -> R<Instruction> {
        let named = |e: E, f: String| if e.unknown { E::new(6, f) } else { e };
        match op {
            0x0E => {
                let l = self.list(|p| Ok(LabelIdx(p.idx("LabelIdx")?))).w("Control(DecodeLabelIdxVector")?;
                Ok(Instruction::BrTable(l, LabelIdx(self.idx("LabelIdx").w("Control(LabelIdx")?)))
            }
            0x1B => Ok(Instruction::Select(None)),
            0x1C => Ok(Instruction::Select(Some(self.list(Self::valtype).w("Parametric(DecodeList")?))),
            0xFB => match self.u32().w("Reference(ReadSubOpcode")? {
                n @ 20..=23 => {
                    let r = RefType { nullable: n & 1 == 1, ht: self.heaptype().w("Reference(HeapType")? };
                    Ok(if n < 22 { Instruction::RefTest(r) } else { Instruction::RefCast(r) })
                }
                n @ (24 | 25) => {
                    let c = self.byte().w("Control(ReadCastNullabilityMarker")?;
                    if c > 3 {
                        return Err(E::new(6, format!("Control(InvalidCastNullabilityMarker({c})")));
                    }
                    let l = LabelIdx(self.idx("LabelIdx").w("Control(LabelIdx")?);
                    let a = RefType { nullable: c & 1 != 0, ht: self.heaptype().w("Control(HeapType")? };
                    let b = RefType { nullable: c & 2 != 0, ht: self.heaptype().w("Control(HeapType")? };
                    Ok(if n == 24 { Instruction::BrOnCast(l, a, b) } else { Instruction::BrOnCastFail(l, a, b) })
                }
                n => optable::fb(self, n).map_err(|e| named(e, format!("InvalidMarkerByteAfterFB({n})"))),
            },
            0xFC => {
                let n = self.u32().w("Numeric(ReadOpcode")?;
                optable::fc(self, n).map_err(|e| named(e, format!("InvalidMarkerByteAfterFC({n})")))
            }
            0xFD => {
                let n = self.u32().w("Vector(ReadOpcode")?;
                optable::fd(self, n).map_err(|e| named(e, format!("Vector(InvalidOpcode({n})")))
            }
            _ => optable::plain(self, op).map_err(|e| named(e, format!("InvalidOpcode({op})"))),
        }
    }
    fn expr(&mut self) -> R<Vec<Instruction>> {
        let (v, e) = self.seq().w("ParseInstruction")?;
        if e { Err(E::new(7, "UnexpectedElse".into())) } else { Ok(v) }
    }

    // ---- sections
    fn table(&mut self) -> R<Table> {
        if self.peek().w("Io")? == 0x40 {
            self.pos += 1;
            let b = self.byte().w("Io")?;
            if b != 0 {
                return Err(E::new(9, format!("UnexpectedMarkerByte({b})")));
            }
            let tt = self.tabletype().w("DecodeTableType")?;
            return Ok(Table(tt, self.expr().w("DecodeExpression")?));
        }
        let tt = self.tabletype().w("DecodeTableType")?;
        let init = vec![Instruction::RefNull(tt.reftype.ht)];
        Ok(Table(tt, init))
    }
    fn export(&mut self) -> R<Export> {
        let name = self.name().w("DecodeName")?;
        let d = self.byte().w("ReadDescriptorMarkerByte")?;
        let n = self.u32().w("DecodeIndex")?;
        let externidx = match d {
            0 => ExternIdx::Func(FuncIdx(n)),
            1 => ExternIdx::Table(TableIdx(n)),
            2 => ExternIdx::Mem(MemIdx(n)),
            3 => ExternIdx::Global(GlobalIdx(n)),
            4 => ExternIdx::Tag(TagIdx(n)),
            _ => return Err(E::new(9, format!("InvalidDescriptorMarkerByte(InvalidExportDescMarkerByte({d})"))),
        };
        Ok(Export { name, externidx })
    }
    fn elemkind(&mut self) -> R<RefType> {
        match self.byte().w("Io")? {
            0 => Ok(Self::funcref(true)),
            b => Err(E::new(10, format!("InvalidElemKind({b})"))),
        }
    }
    fn funcref(nullable: bool) -> RefType {
        RefType { nullable, ht: HeapType::Ht(AbsHeapType::Func) }
    }
    fn elem(&mut self) -> R<Elem> {
        let f = self.u32().w("DecodeBitfield")?;
        if f > 7 {
            return Err(E::new(10, format!("InvalidBitfield({f})")));
        }
        // bit 0: passive or declarative; bit 1: explicit table index, or declarative; bit 2: expressions
        let mode = if f & 1 == 0 {
            let table = TableIdx(if f & 2 != 0 { self.idx("TableIdx").w("DecodeTableIdx")? } else { 0 });
            // the offset of form 2 goes by the name of DecodeElementExpression (tests/error_types.rs asks for that)
            let name = if f == 2 { "" } else { "DecodeOffsetExpression(" };
            ElemMode::Active { table, offset: self.expr().map_err(|e| e.at(name.into()))? }
        } else if f & 2 != 0 {
            ElemMode::Declare
        } else {
            ElemMode::Passive
        };
        let (r#type, init);
        if f & 4 != 0 {
            r#type = if f & 3 == 0 { Self::funcref(true) } else { self.reftype().w("DecodeReferenceType")? };
            init = self.list(Self::expr).w("DecodeInit")?;
        } else {
            r#type = if f & 3 == 0 { Self::funcref(false) } else { self.elemkind().w("DecodeElementKind")? };
            init = self.list(|p| Ok(vec![Instruction::RefFunc(FuncIdx(p.idx("FuncIdx")?))])).w("DecodeFuncIdxVector")?;
        }
        Ok(Elem { r#type, init, mode })
    }
    fn data(&mut self) -> R<Data> {
        let f = self.u32().w("DecodeBitfield")?;
        let mode = match f {
            1 => DataMode::Passive,
            0 | 2 => {
                let memory = MemIdx(if f == 2 { self.idx("MemIdx").w("DecodeMemIdx")? } else { 0 });
                DataMode::Active { memory, offset: self.expr().w("DecodeOffsetExpr")? }
            }
            _ => return Err(E::new(10, format!("InvalidBitfield({f})"))),
        };
        Ok(Data { init: self.bytes().w("DecodeInitVector")?, mode })
    }
    /// run f on at most n bytes and return how many of the n it left
    fn sub<T>(&mut self, n: u32, f: impl FnOnce(&mut Self) -> R<T>) -> R<(T, u64)> {
        let (end, start) = (self.end, self.pos);
        let short = (end - start) < n as usize;
        self.end = if short { end } else { start + n as usize };
        let r = f(self).map_err(|e| if short { e } else { e.or_tag(4) });
        self.end = end;
        Ok((r?, u64::from(n) - (self.pos - start) as u64))
    }
    fn code(&mut self) -> R<(Vec<ValType>, Vec<Instruction>)> {
        let n = self.u32().w("DecodeFunctionSize")?;
        let (x, left) = self.sub(n, |p| {
            let mut total: u64 = 0;
            let runs = p.list(|p| {
                let n = p.u32().w("DecodeLocalsCount")?;
                total += u64::from(n);
                if total > 0xFFFF_FFFF {
                    return Err(E::new(11, format!("LocalsCountOutOfBound{{max_locals:4294967295,actual_locals:{total}}}")));
                }
                Ok((n, p.valtype().w("DecodeLocalValType")?))
            })
            .w("DecodeLocalsVector")?;
            p.locals += total;
            let mut locals = vec![];
            if p.locals <= MAX_LOCALS {
                for (n, v) in runs {
                    locals.extend(std::iter::repeat_n(v, n as usize));
                }
            }
            Ok((locals, p.expr().w("DecodeFunctionBody")?))
        })?;
        if left != 0 {
            let used = u64::from(n) - left;
            return Err(E::new(4, format!("EntrySizeMismatch{{declared_bytes:{n},leftover_bytes:{left},consumed_bytes:{used}}}")));
        }
        Ok(x)
    }

    pub fn module(&mut self) -> R<Module> {
        let mut m = Module {
            version: [1, 0, 0, 0],
            parsed_section_kinds: vec![],
            section_headers: vec![],
            custom_sections: vec![],
            types: vec![],
            funcs: vec![],
            tables: vec![],
            mems: vec![],
            globals: vec![],
            elems: vec![],
            data_count: None,
            datas: vec![],
            start: None,
            imports: vec![],
            exports: vec![],
            tags: vec![],
            ..Default::default()
        };
        let pre = self.n(8).w("ParsePreamble(Io").map_err(|e| e.or_tag(3))?;
        if pre != b"\0asm\x01\0\0\0" {
            let s: Vec<String> = pre.iter().map(|b| b.to_string()).collect();
            return Err(E::new(3, format!("ParsePreamble(Unexpected([{}])", s.join(","))));
        }
        const KINDS: [SectionKind; 14] = [
            SectionKind::Custom,
            SectionKind::Type,
            SectionKind::Import,
            SectionKind::Function,
            SectionKind::Table,
            SectionKind::Memory,
            SectionKind::Global,
            SectionKind::Export,
            SectionKind::Start,
            SectionKind::Element,
            SectionKind::Code,
            SectionKind::Data,
            SectionKind::DataCount,
            SectionKind::Tag,
        ];
        // position of each id in the prescribed order
        const ORDER: [u32; 14] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 11, 6];
        let mut last: Option<u8> = None;
        let mut codes = None;
        let mut didx = false;
        while self.pos < self.end {
            let id = self.byte()?;
            if id > 13 {
                return Err(E::new(3, format!("DecodeSectionHeader(InvalidSectionId(InvalidSectionIdError({id})")));
            }
            let kind = KINDS[id as usize];
            let size = self.u32().w("DecodeSectionHeader(DecodeSectionSize")?;
            if let (Some(l), true) = (last, id != 0) {
                if ORDER[id as usize] < ORDER[l as usize] {
                    return Err(E::new(3, format!("SectionOutOfOrder{{current:{kind:?},previous:{:?}}}", KINDS[l as usize])));
                }
                if id == l {
                    return Err(E::new(3, format!("DuplicateSection({kind:?})")));
                }
            }
            let (_, left) = self.sub(size, |p| {
                let own = |e: E| e.or_tag(9);
                const SECTIONS: [&str; 14] =
                    ["Custom", "Type", "Import", "Function", "Table", "Memory", "Global", "Export", "Start", "Element", "Code", "Data", "Datacount", "Tag"];
                let inner = match id {
                    0 => "",
                    8 => "DecodeStartSectionError(",
                    12 => "DecodeDataSegmentCount(",
                    _ => "DecodeList(",
                };
                let sec = format!("Decode{}Section({inner}", SECTIONS[id as usize]);
                let sec = sec.as_str();
                match id {
                    0 => {
                        let name = p.name().w("DecodeName").w(sec).map_err(|e| e.or_tag(12))?;
                        let contents = p.n(p.end - p.pos)?.to_vec();
                        m.custom_sections.push(CustomSection { name, contents });
                    }
                    1 => m.types = p.list(Self::rectype).w(sec).map_err(own)?,
                    2 => {
                        m.imports = p
                            .list(|p| {
                                Ok(Import {
                                    module_name: p.name().w("DecodeModuleName")?,
                                    item_name: p.name().w("DecodeItemName")?,
                                    extern_type: p.externtype().w("DecodeExternType")?,
                                })
                            })
                            .w(sec)
                            .map_err(own)?
                    }
                    3 => {
                        m.funcs = p
                            .list(|p| Ok(Func { r#type: TypeIdx(p.idx("TypeIdx")?), locals: vec![], body: vec![] }))
                            .w(sec)
                            .map_err(own)?
                    }
                    4 => m.tables = p.list(Self::table).w(sec).map_err(own)?,
                    5 => m.mems = p.list(|p| Ok(MemType { limits: p.limits().w("DecodeMemoryTypeError")? })).w(sec).map_err(own)?,
                    6 => {
                        m.globals =
                            p.list(|p| Ok(Global { r#type: p.globaltype().w("DecodeGlobalType")?, init: p.expr().w("DecodeInit")? })).w(sec).map_err(own)?
                    }
                    7 => m.exports = p.list(Self::export).w(sec).map_err(own)?,
                    8 => m.start = Some(FuncIdx(p.idx("FuncIdx").w(sec).map_err(own)?)),
                    9 => m.elems = p.list(Self::elem).w(sec).map_err(|e| e.or_tag(10))?,
                    10 => {
                        p.didx = false;
                        let cs = p.list(Self::code).w(sec).map_err(|e| e.or_tag(11))?;
                        didx = p.didx;
                        if p.locals > MAX_LOCALS {
                            p.too_big = true; // known finding: do not make the crate expand them
                        }
                        if cs.len() != m.funcs.len() {
                            return Err(E::new(
                                5,
                                format!("CodeFuncEntriesLenMismatch{{codes_len:{},funcs_len:{}}}", cs.len(), m.funcs.len()),
                            ));
                        }
                        codes = Some(cs);
                    }
                    11 => {
                        m.datas = p.list(Self::data).w(sec).map_err(|e| e.or_tag(10))?;
                        if let Some(n) = m.data_count
                            && n as usize != m.datas.len()
                        {
                            return Err(E::new(5, format!("DataCountMismatch{{datas_len:{},data_count:{n}}}", m.datas.len())));
                        }
                    }
                    12 => m.data_count = Some(p.u32().w(sec).map_err(|e| e.or_tag(5))?),
                    _ => m.tags = p.list(Self::tagtype).w(sec).map_err(own)?,
                }
                Ok(())
            })?;
            if left != 0 {
                return Err(E::new(
                    4,
                    format!("SectionSizeMismatch{{section_kind:{kind:?},declared:{size},got:{}}}", u64::from(size) - left),
                ));
            }
            m.section_headers.push(SectionHeader { kind, size });
            if id != 0 {
                last = Some(id);
                m.parsed_section_kinds.push(kind);
            }
        }
        match codes {
            Some(cs) => {
                for (f, (l, b)) in m.funcs.iter_mut().zip(cs) {
                    f.locals = l;
                    f.body = b;
                }
            }
            None => {
                if !m.funcs.is_empty() {
                    return Err(E::new(5, format!("CodeFuncEntriesLenMismatch{{codes_len:0,funcs_len:{}}}", m.funcs.len())));
                }
            }
        }
        if let Some(n) = m.data_count
            && n as usize != m.datas.len()
        {
            return Err(E::new(5, format!("DataCountDatasLenMismatch{{datas_len:{},data_count:{n}}}", m.datas.len())));
        }
        if didx && m.data_count.is_none() {
            return Err(E::new(5, "DataIndexWithoutDataCount".into()));
        }
        Ok(m)
    }
}
