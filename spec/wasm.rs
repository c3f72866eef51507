// The WebAssembly 3.0 binary format as suffix parsers over byte sequences: sp_x(s) is None when
// no prefix of s is an x, and otherwise the x at the start of s together with what follows it.
broadcast use crate::xstd::io::g_adv;

pub broadcast group g_all { crate::xstd::io::g_adv, crate::xstd::conv::g_conv, g_views, g_opcodes, b_lane16, b_didx_push, b_valid_utf8_dummy }
pub broadcast proof fn b_valid_utf8_dummy(s: Seq<u8>) ensures #[trigger] valid_utf8(s) == valid_utf8(s) {}

pub open spec fn vv<T>(v: Vec<T>) -> Seq<T> { v@ }
// ---------------------------------------------------------------- values (5.2)
pub open spec fn sp_byte(s: Seq<u8>) -> Option<(u8, Seq<u8>)> {
    if s.len() == 0 { None } else { Some((s[0], s.skip(1))) }
}
/// uN
pub open spec fn sp_uleb(s: Seq<u8>, n: nat) -> Option<(nat, Seq<u8>)> decreases n {
    if s.len() == 0 { None }
    else if s[0] < 0x80 {
        if n >= 7 || (s[0] as nat) < vstd::arithmetic::power2::pow2(n) { Some((s[0] as nat, s.skip(1))) } else { None }
    }
    else if n <= 7 { None }
    else { match sp_uleb(s.skip(1), (n - 7) as nat) { None => None, Some((m, t)) => Some(((s[0] - 0x80) as nat + 128 * m, t)) } }
}
/// sN
pub open spec fn sp_sleb(s: Seq<u8>, n: nat) -> Option<(int, Seq<u8>)> decreases n {
    if s.len() == 0 { None }
    else if s[0] < 0x40 {
        if n > 7 || (n > 0 && (s[0] as nat) < vstd::arithmetic::power2::pow2((n - 1) as nat)) { Some((s[0] as int, s.skip(1))) } else { None }
    }
    else if s[0] < 0x80 {
        if n > 7 || (n > 0 && s[0] as int >= 128 - vstd::arithmetic::power2::pow2((n - 1) as nat)) { Some((s[0] - 0x80, s.skip(1))) } else { None }
    }
    else if n <= 7 { None }
    else { match sp_sleb(s.skip(1), (n - 7) as nat) { None => None, Some((m, t)) => Some(((s[0] - 0x80) + 128 * m, t)) } }
}
#[verifier::opaque]
pub open spec fn sp_u32(s: Seq<u8>) -> Option<(u32, Seq<u8>)> { match sp_uleb(s, 32) { None => None, Some((n, t)) => Some((n as u32, t)) } }
#[verifier::opaque]
pub open spec fn sp_u64(s: Seq<u8>) -> Option<(u64, Seq<u8>)> { match sp_uleb(s, 64) { None => None, Some((n, t)) => Some((n as u64, t)) } }
#[verifier::opaque]
pub open spec fn sp_i32(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { match sp_sleb(s, 32) { None => None, Some((n, t)) => Some((n as i32, t)) } }
#[verifier::opaque]
pub open spec fn sp_i64(s: Seq<u8>) -> Option<(i64, Seq<u8>)> { match sp_sleb(s, 64) { None => None, Some((n, t)) => Some((n as i64, t)) } }
#[verifier::opaque]
pub open spec fn sp_s33(s: Seq<u8>) -> Option<(i64, Seq<u8>)> { match sp_sleb(s, 33) { None => None, Some((n, t)) => Some((n as i64, t)) } }
pub open spec fn sp_take(s: Seq<u8>, n: nat) -> Option<(Seq<u8>, Seq<u8>)> { if s.len() < n { None } else { Some((s.take(n as int), s.skip(n as int))) } }
pub open spec fn sp_f32(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { sp_take(s, 4) }
pub open spec fn sp_f64(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { sp_take(s, 8) }
pub open spec fn sp_b16(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { sp_take(s, 16) }
#[verifier::opaque]
pub open spec fn sp_bytes(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => sp_take(t, n as nat) } }
#[verifier::opaque]
pub open spec fn sp_name(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match sp_bytes(s) { None => None, Some((b, t)) => if valid_utf8(b) { Some((b, t)) } else { None } }
}
/// RFC 3629
pub open spec fn valid_utf8(s: Seq<u8>) -> bool decreases s.len() {
    let c = |i: int, lo: int, hi: int| i < s.len() && lo <= s[i] <= hi;
    if s.len() == 0 { true }
    else if s[0] < 0x80 { valid_utf8(s.skip(1)) }
    else if 0xC2 <= s[0] <= 0xDF { c(1, 0x80, 0xBF) && valid_utf8(s.skip(2)) }
    else if 0xE0 <= s[0] <= 0xEF {
        c(1, if s[0] == 0xE0 { 0xA0 } else { 0x80 }, if s[0] == 0xED { 0x9F } else { 0xBF }) && c(2, 0x80, 0xBF) && valid_utf8(s.skip(3))
    }
    else if 0xF0 <= s[0] <= 0xF4 {
        c(1, if s[0] == 0xF0 { 0x90 } else { 0x80 }, if s[0] == 0xF4 { 0x8F } else { 0xBF }) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) && valid_utf8(s.skip(4))
    }
    else { false }
}
pub open spec fn sp_typeidx(s: Seq<u8>) -> Option<(TypeIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((TypeIdx(n), t)) } }
pub open spec fn sp_funcidx(s: Seq<u8>) -> Option<(FuncIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((FuncIdx(n), t)) } }
pub open spec fn sp_tableidx(s: Seq<u8>) -> Option<(TableIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((TableIdx(n), t)) } }
pub open spec fn sp_memidx(s: Seq<u8>) -> Option<(MemIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((MemIdx(n), t)) } }
pub open spec fn sp_globalidx(s: Seq<u8>) -> Option<(GlobalIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((GlobalIdx(n), t)) } }
pub open spec fn sp_elemidx(s: Seq<u8>) -> Option<(ElemIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((ElemIdx(n), t)) } }
pub open spec fn sp_dataidx(s: Seq<u8>) -> Option<(DataIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((DataIdx(n), t)) } }
pub open spec fn sp_localidx(s: Seq<u8>) -> Option<(LocalIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((LocalIdx(n), t)) } }
pub open spec fn sp_labelidx(s: Seq<u8>) -> Option<(LabelIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((LabelIdx(n), t)) } }
pub open spec fn sp_tagidx(s: Seq<u8>) -> Option<(TagIdx, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => Some((TagIdx(n), t)) } }

// ---------------------------------------------------------------- types (5.3)
pub open spec fn m_heap(b: u8) -> Option<AbsHeapType> {
    match b {
        0x69 => Some(AbsHeapType::Exn), 0x6A => Some(AbsHeapType::Array), 0x6B => Some(AbsHeapType::Struct), 0x6C => Some(AbsHeapType::I31),
        0x6D => Some(AbsHeapType::Eq), 0x6E => Some(AbsHeapType::Any), 0x6F => Some(AbsHeapType::Extern), 0x70 => Some(AbsHeapType::Func),
        0x71 => Some(AbsHeapType::None), 0x72 => Some(AbsHeapType::NoExtern), 0x73 => Some(AbsHeapType::NoFunc), 0x74 => Some(AbsHeapType::NoExn),
        _ => None,
    }
}
pub open spec fn m_mut(b: u8) -> Option<Mut> { match b { 0x00 => Some(Mut::Const), 0x01 => Some(Mut::Var), _ => None } }
pub open spec fn m_pack(b: u8) -> Option<PackType> { match b { 0x78 => Some(PackType::I8), 0x77 => Some(PackType::I16), _ => None } }
pub open spec fn m_section(b: u8) -> Option<SectionKind> {
    match b {
        0 => Some(SectionKind::Custom), 1 => Some(SectionKind::Type), 2 => Some(SectionKind::Import), 3 => Some(SectionKind::Function),
        4 => Some(SectionKind::Table), 5 => Some(SectionKind::Memory), 6 => Some(SectionKind::Global), 7 => Some(SectionKind::Export),
        8 => Some(SectionKind::Start), 9 => Some(SectionKind::Element), 10 => Some(SectionKind::Code), 11 => Some(SectionKind::Data),
        12 => Some(SectionKind::DataCount), 13 => Some(SectionKind::Tag), _ => None,
    }
}
#[verifier::opaque]
pub open spec fn sp_absheaptype(s: Seq<u8>) -> Option<(AbsHeapType, Seq<u8>)> {
    if s.len() == 0 { None } else { match m_heap(s[0]) { None => None, Some(h) => Some((h, s.skip(1))) } }
}
#[verifier::opaque]
pub open spec fn sp_heaptype(s: Seq<u8>) -> Option<(HeapType, Seq<u8>)> {
    if s.len() == 0 { None } else { match m_heap(s[0]) {
        Some(h) => Some((HeapType::Ht(h), s.skip(1))),
        None => match sp_s33(s) { None => None, Some((x, t)) => if x < 0 { None } else { Some((HeapType::TypeIdx(x as u32), t)) } },
    } }
}
#[verifier::opaque]
pub open spec fn sp_reftype(s: Seq<u8>) -> Option<(RefType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x63 || s[0] == 0x64 { match sp_heaptype(s.skip(1)) { None => None, Some((h, t)) => Some((RefType { nullable: s[0] == 0x63, ht: h }, t)) } }
    else { match m_heap(s[0]) { None => None, Some(h) => Some((RefType { nullable: true, ht: HeapType::Ht(h) }, s.skip(1))) } }
}
#[verifier::opaque]
pub open spec fn sp_valtype(s: Seq<u8>) -> Option<(ValType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x7F { Some((ValType::Num(NumType::Int32), s.skip(1))) }
    else if s[0] == 0x7E { Some((ValType::Num(NumType::Int64), s.skip(1))) }
    else if s[0] == 0x7D { Some((ValType::Num(NumType::Float32), s.skip(1))) }
    else if s[0] == 0x7C { Some((ValType::Num(NumType::Float64), s.skip(1))) }
    else if s[0] == 0x7B { Some((ValType::Vec(VecType::V128), s.skip(1))) }
    else { match sp_reftype(s) { None => None, Some((r, t)) => Some((ValType::Ref(r), t)) } }
}
@list valtype ValType
#[verifier::opaque]
pub open spec fn sp_storagetype(s: Seq<u8>) -> Option<(StorageType, Seq<u8>)> {
    if s.len() == 0 { None } else { match m_pack(s[0]) {
        Some(p) => Some((StorageType::PackType(p), s.skip(1))),
        None => match sp_valtype(s) { None => None, Some((v, t)) => Some((StorageType::ValType(v), t)) },
    } }
}
#[verifier::opaque]
pub open spec fn sp_fieldtype(s: Seq<u8>) -> Option<(FieldType, Seq<u8>)> {
    match sp_storagetype(s) { None => None, Some((z, t)) =>
        if t.len() == 0 { None } else { match m_mut(t[0]) { None => None, Some(m) => Some((FieldType(m, z), t.skip(1))) } } }
}
@list fieldtype FieldType
#[verifier::opaque]
pub open spec fn sp_comptype(s: Seq<u8>) -> Option<(SCompType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x5E { match sp_fieldtype(s.skip(1)) { None => None, Some((f, t)) => Some((SCompType::Array(f), t)) } }
    else if s[0] == 0x5F { match sp_list__fieldtype(s.skip(1)) { None => None, Some((f, t)) => Some((SCompType::Struct(f), t)) } }
    else if s[0] == 0x60 { match sp_list__valtype(s.skip(1)) { None => None, Some((p, t)) => match sp_list__valtype(t) { None => None,
        Some((r, u)) => Some((SCompType::Func { parameters: p, results: r }, u)) } } }
    else { None }
}
@list typeidx TypeIdx
#[verifier::opaque]
pub open spec fn sp_subtype(s: Seq<u8>) -> Option<(SSubType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x50 || s[0] == 0x4F { match sp_list__typeidx(s.skip(1)) { None => None, Some((x, t)) => match sp_comptype(t) { None => None,
        Some((c, u)) => Some((SSubType { is_final: s[0] == 0x4F, supertypes: x, comptype: c }, u)) } } }
    else { match sp_comptype(s) { None => None, Some((c, u)) => Some((SSubType { is_final: true, supertypes: seq![], comptype: c }, u)) } }
}
@list subtype SSubType
#[verifier::opaque]
pub open spec fn sp_rectype(s: Seq<u8>) -> Option<(SRecType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x4E { match sp_list__subtype(s.skip(1)) { None => None, Some((x, t)) => Some((SRecType(x), t)) } }
    else { match sp_subtype(s) { None => None, Some((x, t)) => Some((SRecType(seq![x]), t)) } }
}
@list rectype SRecType
#[verifier::opaque]
pub open spec fn sp_limits(s: Seq<u8>) -> Option<(Limits, Seq<u8>)> {
    if s.len() == 0 || !(s[0] == 0 || s[0] == 1 || s[0] == 4 || s[0] == 5) { None } else {
        let a = if s[0] >= 4 { AddrType::I64 } else { AddrType::I32 };
        match sp_u64(s.skip(1)) { None => None, Some((n, t)) =>
            if s[0] == 0 || s[0] == 4 { Some((Limits { address_type: a, min: n, max: None }, t)) }
            else { match sp_u64(t) { None => None, Some((m, u)) => Some((Limits { address_type: a, min: n, max: Some(m) }, u)) } } }
    }
}
#[verifier::opaque]
pub open spec fn sp_memtype(s: Seq<u8>) -> Option<(MemType, Seq<u8>)> { match sp_limits(s) { None => None, Some((l, t)) => Some((MemType { limits: l }, t)) } }
@list memtype MemType
#[verifier::opaque]
pub open spec fn sp_tabletype(s: Seq<u8>) -> Option<(TableType, Seq<u8>)> {
    match sp_reftype(s) { None => None, Some((r, t)) => match sp_limits(t) { None => None, Some((l, u)) => Some((TableType { reftype: r, limits: l }, u)) } }
}
#[verifier::opaque]
pub open spec fn sp_globaltype(s: Seq<u8>) -> Option<(GlobalType, Seq<u8>)> {
    match sp_valtype(s) { None => None, Some((v, t)) =>
        if t.len() == 0 { None } else { match m_mut(t[0]) { None => None, Some(m) => Some((GlobalType(m, v), t.skip(1))) } } }
}
#[verifier::opaque]
pub open spec fn sp_tagtype(s: Seq<u8>) -> Option<(TagType, Seq<u8>)> {
    if s.len() == 0 || s[0] != 0 { None } else { match sp_typeidx(s.skip(1)) { None => None, Some((x, t)) => Some((TagType(x), t)) } }
}
@list tagtype TagType
#[verifier::opaque]
pub open spec fn sp_externtype(s: Seq<u8>) -> Option<(ExternType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0 { match sp_typeidx(s.skip(1)) { None => None, Some((x, t)) => Some((ExternType::Func(x), t)) } }
    else if s[0] == 1 { match sp_tabletype(s.skip(1)) { None => None, Some((x, t)) => Some((ExternType::Table(x), t)) } }
    else if s[0] == 2 { match sp_memtype(s.skip(1)) { None => None, Some((x, t)) => Some((ExternType::Mem(x), t)) } }
    else if s[0] == 3 { match sp_globaltype(s.skip(1)) { None => None, Some((x, t)) => Some((ExternType::Global(x), t)) } }
    else if s[0] == 4 { match sp_tagtype(s.skip(1)) { None => None, Some((x, t)) => Some((ExternType::Tag(x), t)) } }
    else { None }
}

// ---------------------------------------------------------------- instructions (5.4)
pub open spec fn sp_lane(s: Seq<u8>) -> Option<(LaneIdx, Seq<u8>)> { if s.len() == 0 { None } else { Some((LaneIdx(s[0]), s.skip(1))) } }
pub open spec fn sp_lane16(s: Seq<u8>) -> Option<(Seq<LaneIdx>, Seq<u8>)> {
    if s.len() < 16 { None } else { Some((Seq::new(16, |i: int| LaneIdx(s[i])), s.skip(16))) }
}
pub broadcast proof fn b_lane16(s: Seq<u8>, a: [LaneIdx; 16])
    requires s.len() >= 16, forall|i: int| 0 <= i < 16 ==> #[trigger] a@[i] == LaneIdx(s[i])
    ensures (#[trigger] sp_lane16(s), #[trigger] a@).1 == (sp_lane16(s)->0).0
{ assert(a@ =~= (sp_lane16(s)->0).0); }
#[verifier::opaque]
pub open spec fn sp_memarg(s: Seq<u8>) -> Option<(Memarg, Seq<u8>)> {
    match sp_u32(s) { None => None, Some((n, t)) =>
        if n < 64 { match sp_u64(t) { None => None, Some((o, u)) => Some((Memarg { mem_idx: MemIdx(0), align: n, offset: o }, u)) } }
        else if n < 128 { match sp_memidx(t) { None => None, Some((x, v)) => match sp_u64(v) { None => None,
            Some((o, u)) => Some((Memarg { mem_idx: x, align: (n - 64) as u32, offset: o }, u)) } } }
        else { None } }
}
#[verifier::opaque]
pub open spec fn sp_blocktype(s: Seq<u8>) -> Option<(BlockType, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x40 { Some((BlockType::Empty, s.skip(1))) }
    else { match sp_valtype(s) { Some((v, t)) => Some((BlockType::T(v), t)),
        None => match sp_s33(s) { None => None, Some((x, t)) => if x < 0 { None } else { Some((BlockType::I(x as u32), t)) } } } }
}
#[verifier::opaque]
pub open spec fn sp_catch(s: Seq<u8>) -> Option<(Catch, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0 || s[0] == 1 { match sp_tagidx(s.skip(1)) { None => None, Some((x, t)) => match sp_labelidx(t) { None => None,
        Some((l, u)) => Some((if s[0] == 0 { Catch::Catch(x, l) } else { Catch::CatchRef(x, l) }, u)) } } }
    else if s[0] == 2 || s[0] == 3 { match sp_labelidx(s.skip(1)) { None => None,
        Some((l, u)) => Some((if s[0] == 2 { Catch::CatchAll(l) } else { Catch::CatchAllRef(l) }, u)) } }
    else { None }
}
@list catch Catch
@list labelidx LabelIdx
#[verifier::opaque]
pub open spec fn sp_castop(s: Seq<u8>) -> Option<((bool, bool), Seq<u8>)> {
    if s.len() == 0 || s[0] > 3 { None } else { Some(((s[0] == 1 || s[0] == 3, s[0] == 2 || s[0] == 3), s.skip(1))) }
}
pub open spec fn sp_fb(op: u32, t: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {
    if 20 <= op <= 23 {
        match sp_heaptype(t) { None => None, Some((h, u)) => {
            let r = RefType { nullable: op == 21 || op == 23, ht: h };
            Some((if op <= 21 { SInstruction::RefTest(r) } else { SInstruction::RefCast(r) }, u)) } }
    } else if op == 24 || op == 25 {
        match sp_castop(t) { None => None, Some(((n1, n2), t1)) => match sp_labelidx(t1) { None => None, Some((l, t2)) =>
        match sp_heaptype(t2) { None => None, Some((h1, t3)) => match sp_heaptype(t3) { None => None, Some((h2, t4)) => {
            let (r1, r2) = (RefType { nullable: n1, ht: h1 }, RefType { nullable: n2, ht: h2 });
            Some((if op == 24 { SInstruction::BrOnCast(l, r1, r2) } else { SInstruction::BrOnCastFail(l, r1, r2) }, t4)) } } } } }
    } else { sp_fb_tbl(op, t) }
}
/// every instruction that contains no instructions
pub open spec fn sp_plain(op: u8, t: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {
    if op == 0x0E {
        match sp_list__labelidx(t) { None => None, Some((ls, u)) => match sp_labelidx(u) { None => None, Some((l, v)) => Some((SInstruction::BrTable(ls, l), v)) } }
    } else if op == 0x1B { Some((SInstruction::Select(None), t)) }
    else if op == 0x1C { match sp_list__valtype(t) { None => None, Some((vs, u)) => Some((SInstruction::Select(Some(vs)), u)) } }
    else if op == 0xFB { match sp_u32(t) { None => None, Some((n, u)) => sp_fb(n, u) } }
    else if op == 0xFC { match sp_u32(t) { None => None, Some((n, u)) => sp_fc_tbl(n, u) } }
    else if op == 0xFD { match sp_u32(t) { None => None, Some((n, u)) => sp_fd_tbl(n, u) } }
    else { sp_plain_tbl(op, t) }
}
/// one instruction, or one of the delimiters `end` and `else`
pub open spec fn sp_instr(s: Seq<u8>) -> Option<(SParseResult, Seq<u8>)> decreases s.len(), 0int {
    if s.len() == 0 { None }
    else if s[0] == 0x0B { Some((SParseResult::End, s.skip(1))) }
    else if s[0] == 0x05 { Some((SParseResult::Else, s.skip(1))) }
    else if s[0] == 0x02 || s[0] == 0x03 {
        match sp_blocktype(s.skip(1)) { None => None, Some((bt, t)) =>
            if t.len() >= s.len() { None } else { match sp_seq(seq![], t) {
                Some((b, false, u)) => Some((SParseResult::Instruction(if s[0] == 0x02 { SInstruction::Block(bt, b) } else { SInstruction::Loop(bt, b) }), u)),
                _ => None } } }
    }
    else if s[0] == 0x04 {
        match sp_blocktype(s.skip(1)) { None => None, Some((bt, t)) =>
            if t.len() >= s.len() { None } else { match sp_seq(seq![], t) {
                None => None,
                Some((b, false, u)) => Some((SParseResult::Instruction(SInstruction::If(bt, b, None)), u)),
                Some((b, true, u)) => if u.len() >= s.len() { None } else { match sp_seq(seq![], u) {
                    Some((e, false, v)) => Some((SParseResult::Instruction(SInstruction::If(bt, b, Some(e))), v)),
                    _ => None } } } } }
    }
    else if s[0] == 0x1F {
        match sp_blocktype(s.skip(1)) { None => None, Some((bt, t)) => match sp_list__catch(t) { None => None, Some((cs, t2)) =>
            if t2.len() >= s.len() { None } else { match sp_seq(seq![], t2) {
                Some((b, false, u)) => Some((SParseResult::Instruction(SInstruction::TryTable(bt, cs, b)), u)),
                _ => None } } } }
    }
    else { match sp_plain(s[0], s.skip(1)) { None => None, Some((i, u)) => Some((SParseResult::Instruction(i), u)) } }
}
/// instructions up to and including the closing `end` (false) or `else` (true)
pub open spec fn sp_seq(acc: Seq<SInstruction>, s: Seq<u8>) -> Option<(Seq<SInstruction>, bool, Seq<u8>)> decreases s.len(), 1int {
    match sp_instr(s) {
        None => None,
        Some((r, t)) => match r {
            SParseResult::End => Some((acc, false, t)),
            SParseResult::Else => Some((acc, true, t)),
            SParseResult::Instruction(i) => if t.len() >= s.len() { None } else { sp_seq(acc.push(i), t) },
        },
    }
}
#[verifier::opaque]
pub open spec fn sp_expr(s: Seq<u8>) -> Option<(Seq<SInstruction>, Seq<u8>)> {
    match sp_seq(seq![], s) { Some((b, false, t)) => Some((b, t)), _ => None }
}
@list expr Seq<SInstruction>
/// does the instruction, or one nested in it, refer to a data segment
pub open spec fn has_didx(i: SInstruction) -> bool decreases i {
    match i {
        SInstruction::MemoryInit(_, _) | SInstruction::DataDrop(_) | SInstruction::ArrayNewData(_, _) | SInstruction::ArrayInitData(_, _) => true,
        SInstruction::Block(_, b) => has_didx_seq(b),
        SInstruction::Loop(_, b) => has_didx_seq(b),
        SInstruction::TryTable(_, _, b) => has_didx_seq(b),
        SInstruction::If(_, b, e) => has_didx_seq(b) || (match e { Some(e) => has_didx_seq(e), None => false }),
        _ => false,
    }
}
pub open spec fn has_didx_seq(s: Seq<SInstruction>) -> bool decreases s {
    if s.len() == 0 { false } else { has_didx_seq(s.drop_last()) || has_didx(s.last()) }
}

pub broadcast proof fn b_didx_push(s: Seq<SInstruction>, x: SInstruction)
    ensures #[trigger] has_didx_seq(s.push(x)) == (has_didx_seq(s) || has_didx(x))
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn didx_at(s: Seq<SInstruction>, i: int)
    requires 0 <= i < s.len(), has_didx(s[i])
    ensures has_didx_seq(s)
    decreases s.len()
{ if i < s.len() - 1 { didx_at(s.drop_last(), i); } }
pub proof fn didx_none(s: Seq<SInstruction>)
    requires forall|i: int| 0 <= i < s.len() ==> !has_didx(#[trigger] s[i])
    ensures !has_didx_seq(s)
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies !has_didx(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } didx_none(s.drop_last()); } }
/// what a structured instruction makes of its body, given the rest of the body
pub open spec fn k_block(op: u8, bt: BlockType, x: Option<(Seq<SInstruction>, bool, Seq<u8>)>, n: int) -> Option<(SParseResult, Seq<u8>)> {
    match x {
        None => None,
        Some((b, false, u)) => Some((SParseResult::Instruction(if op == 0x02 { SInstruction::Block(bt, b) } else if op == 0x03 { SInstruction::Loop(bt, b) } else { SInstruction::If(bt, b, None) }), u)),
        Some((b, true, u)) => if op != 0x04 || u.len() >= n { None } else { k_else(bt, b, sp_seq(seq![], u)) },
    }
}
pub open spec fn k_else(bt: BlockType, b: Seq<SInstruction>, x: Option<(Seq<SInstruction>, bool, Seq<u8>)>) -> Option<(SParseResult, Seq<u8>)> {
    match x { Some((e, false, v)) => Some((SParseResult::Instruction(SInstruction::If(bt, b, Some(e))), v)), _ => None }
}
pub open spec fn k_try(bt: BlockType, cs: Seq<Catch>, x: Option<(Seq<SInstruction>, bool, Seq<u8>)>) -> Option<(SParseResult, Seq<u8>)> {
    match x { Some((b, false, u)) => Some((SParseResult::Instruction(SInstruction::TryTable(bt, cs, b)), u)), _ => None }
}

// ---------------------------------------------------------------- sections (5.5)
#[verifier::opaque]
pub open spec fn sp_import(s: Seq<u8>) -> Option<(SImport, Seq<u8>)> {
    match sp_name(s) { None => None, Some((m, t)) => match sp_name(t) { None => None, Some((n, u)) => match sp_externtype(u) { None => None,
        Some((e, v)) => Some((SImport { module_name: m, item_name: n, extern_type: e }, v)) } } }
}
@list import SImport
#[verifier::opaque]
pub open spec fn sp_table(s: Seq<u8>) -> Option<(STable, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] == 0x40 {
        if s.len() == 1 || s[1] != 0 { None } else { match sp_tabletype(s.skip(2)) { None => None, Some((tt, t)) => match sp_expr(t) { None => None, Some((e, u)) => Some((STable(tt, e), u)) } } }
    } else { match sp_tabletype(s) { None => None, Some((tt, t)) => Some((STable(tt, seq![SInstruction::RefNull(tt.reftype.ht)]), t)) } }
}
@list table STable
#[verifier::opaque]
pub open spec fn sp_global(s: Seq<u8>) -> Option<(SGlobal, Seq<u8>)> {
    match sp_globaltype(s) { None => None, Some((g, t)) => match sp_expr(t) { None => None, Some((e, u)) => Some((SGlobal { type_: g, init: e }, u)) } }
}
@list global SGlobal
pub open spec fn externidx(b: u8, n: u32) -> Option<ExternIdx> {
    match b {
        0 => Some(ExternIdx::Func(FuncIdx(n))), 1 => Some(ExternIdx::Table(TableIdx(n))), 2 => Some(ExternIdx::Mem(MemIdx(n))),
        3 => Some(ExternIdx::Global(GlobalIdx(n))), 4 => Some(ExternIdx::Tag(TagIdx(n))), _ => None,
    }
}
#[verifier::opaque]
pub open spec fn sp_export(s: Seq<u8>) -> Option<(SExport, Seq<u8>)> {
    match sp_name(s) { None => None, Some((n, t)) => if t.len() == 0 { None } else { match sp_u32(t.skip(1)) { None => None, Some((x, u)) =>
        match externidx(t[0], x) { None => None, Some(d) => Some((SExport { name: n, externidx: d }, u)) } } } }
}
@list export SExport
@list funcidx FuncIdx
pub open spec fn funcref(nullable: bool) -> RefType { RefType { nullable, ht: HeapType::Ht(AbsHeapType::Func) } }
#[verifier::opaque]
pub open spec fn sp_elemkind(s: Seq<u8>) -> Option<(RefType, Seq<u8>)> { if s.len() == 0 || s[0] != 0 { None } else { Some((funcref(true), s.skip(1))) } }
pub open spec fn reffuncs(ys: Seq<FuncIdx>) -> Seq<Seq<SInstruction>> { Seq::new(ys.len(), |i: int| seq![SInstruction::RefFunc(ys[i])]) }
#[verifier::opaque]
pub open spec fn sp_reffuncs(s: Seq<u8>) -> Option<(Seq<Seq<SInstruction>>, Seq<u8>)> { match sp_list__funcidx(s) { None => None, Some((ys, t)) => Some((reffuncs(ys), t)) } }
#[verifier::opaque]
pub open spec fn sp_elem(s: Seq<u8>) -> Option<(SElem, Seq<u8>)> {
    match sp_u32(s) { None => None, Some((f, t)) =>
        if f == 0 { match sp_expr(t) { None => None, Some((o, t1)) => match sp_reffuncs(t1) { None => None, Some((y, t2)) =>
            Some((SElem { type_: funcref(false), init: y, mode: SElemMode::Active { table: TableIdx(0), offset: o } }, t2)) } } }
        else if f == 1 || f == 3 { match sp_elemkind(t) { None => None, Some((rt, t1)) => match sp_reffuncs(t1) { None => None, Some((y, t2)) =>
            Some((SElem { type_: rt, init: y, mode: if f == 1 { SElemMode::Passive } else { SElemMode::Declare } }, t2)) } } }
        else if f == 2 { match sp_tableidx(t) { None => None, Some((x, t1)) => match sp_expr(t1) { None => None, Some((o, t2)) =>
            match sp_elemkind(t2) { None => None, Some((rt, t3)) => match sp_reffuncs(t3) { None => None, Some((y, t4)) =>
            Some((SElem { type_: rt, init: y, mode: SElemMode::Active { table: x, offset: o } }, t4)) } } } } }
        else if f == 4 { match sp_expr(t) { None => None, Some((o, t1)) => match sp_list__expr(t1) { None => None, Some((y, t2)) =>
            Some((SElem { type_: funcref(true), init: y, mode: SElemMode::Active { table: TableIdx(0), offset: o } }, t2)) } } }
        else if f == 5 || f == 7 { match sp_reftype(t) { None => None, Some((rt, t1)) => match sp_list__expr(t1) { None => None, Some((y, t2)) =>
            Some((SElem { type_: rt, init: y, mode: if f == 5 { SElemMode::Passive } else { SElemMode::Declare } }, t2)) } } }
        else if f == 6 { match sp_tableidx(t) { None => None, Some((x, t1)) => match sp_expr(t1) { None => None, Some((o, t2)) =>
            match sp_reftype(t2) { None => None, Some((rt, t3)) => match sp_list__expr(t3) { None => None, Some((y, t4)) =>
            Some((SElem { type_: rt, init: y, mode: SElemMode::Active { table: x, offset: o } }, t4)) } } } } }
        else { None } }
}
@list elem SElem
#[verifier::opaque]
pub open spec fn sp_data(s: Seq<u8>) -> Option<(SData, Seq<u8>)> {
    match sp_u32(s) { None => None, Some((f, t)) =>
        if f == 0 { match sp_expr(t) { None => None, Some((o, t1)) => match sp_bytes(t1) { None => None, Some((b, t2)) =>
            Some((SData { init: b, mode: SDataMode::Active { memory: MemIdx(0), offset: o } }, t2)) } } }
        else if f == 1 { match sp_bytes(t) { None => None, Some((b, t1)) => Some((SData { init: b, mode: SDataMode::Passive }, t1)) } }
        else if f == 2 { match sp_memidx(t) { None => None, Some((x, t1)) => match sp_expr(t1) { None => None, Some((o, t2)) => match sp_bytes(t2) { None => None, Some((b, t3)) =>
            Some((SData { init: b, mode: SDataMode::Active { memory: x, offset: o } }, t3)) } } } }
        else { None } }
}
@list data SData
#[verifier::opaque]
pub open spec fn sp_local(s: Seq<u8>) -> Option<(Local, Seq<u8>)> {
    match sp_u32(s) { None => None, Some((n, t)) => match sp_valtype(t) { None => None, Some((v, u)) => Some((Local { count: n, t: v }, u)) } }
}
/// the local declarations of a function; at most 2^32 - 1 locals altogether
pub open spec fn sp_locals_n(acc: Seq<Local>, total: nat, s: Seq<u8>, n: nat) -> Option<(Seq<Local>, Seq<u8>)> decreases n {
    if n == 0 { Some((acc, s)) } else { match sp_local(s) { None => None, Some((l, t)) =>
        if total + l.count > 0xFFFF_FFFF { None } else { sp_locals_n(acc.push(l), total + l.count as nat, t, (n - 1) as nat) } } }
}
#[verifier::opaque]
pub open spec fn sp_locals(s: Seq<u8>) -> Option<(Seq<Local>, Seq<u8>)> { match sp_u32(s) { None => None, Some((n, t)) => sp_locals_n(seq![], 0, t, n as nat) } }
pub open spec fn expand(ls: Seq<Local>) -> Seq<ValType> decreases ls.len() {
    if ls.len() == 0 { seq![] } else { expand(ls.drop_last()) + rep(ls.last().t, ls.last().count as nat) }
}
pub open spec fn rep(t: ValType, n: nat) -> Seq<ValType> { Seq::new(n, |i: int| t) }
/// a size-prefixed code entry must fill exactly its declared size
#[verifier::opaque]
pub open spec fn sp_code(s: Seq<u8>) -> Option<(SCode, Seq<u8>)> {
    match sp_u32(s) { None => None, Some((n, t)) => if t.len() < n { None } else {
        match sp_locals(t.take(n as int)) { None => None, Some((ls, b)) => match sp_expr(b) { None => None, Some((e, r)) =>
            if r.len() != 0 { None } else { Some((SCode { size: n, locals: ls, expr: e, encountered_data_index: has_didx_seq(e) }, t.skip(n as int))) } } } } }
}
@list code SCode

#[verifier::opaque]
pub open spec fn sp_custom(s: Seq<u8>) -> Option<(SCustomSection, Seq<u8>)> {
    match sp_name(s) { None => None, Some((n, r)) => Some((SCustomSection { name: n, contents: r }, seq![])) }
}

// ---------------------------------------------------------------- modules
pub open spec fn rank(k: SectionKind) -> int {
    match k {
        SectionKind::Custom => 0, SectionKind::Type => 1, SectionKind::Import => 2, SectionKind::Function => 3, SectionKind::Table => 4, SectionKind::Memory => 5,
        SectionKind::Tag => 6, SectionKind::Global => 7, SectionKind::Export => 8, SectionKind::Start => 9, SectionKind::Element => 10, SectionKind::DataCount => 11,
        SectionKind::Code => 12, SectionKind::Data => 13,
    }
}
#[verifier::opaque]
pub open spec fn sp_header(s: Seq<u8>) -> Option<(SectionHeader, Seq<u8>)> {
    if s.len() == 0 { None } else { match m_section(s[0]) { None => None, Some(k) => match sp_u32(s.skip(1)) { None => None, Some((n, t)) => Some((SectionHeader { kind: k, size: n }, t)) } } }
}
pub open spec fn empty_module() -> SModule {
    SModule { version: seq![1u8, 0, 0, 0], parsed_section_kinds: seq![], section_headers: seq![], custom_sections: seq![], types: seq![], funcs: seq![], tables: seq![],
        mems: seq![], globals: seq![], elems: seq![], data_count: None, datas: seq![], start: None, imports: seq![], exports: seq![], tags: seq![] }
}
pub open spec fn ordered(m: SModule, k: SectionKind) -> bool {
    k == SectionKind::Custom || m.parsed_section_kinds.len() == 0 || rank(m.parsed_section_kinds.last()) < rank(k)
}
pub open spec fn decls(ts: Seq<TypeIdx>) -> Seq<SFunc> { Seq::new(ts.len(), |i: int| SFunc { type_: ts[i], locals: seq![], body: seq![] }) }
pub open spec fn bodies(fs: Seq<SFunc>, cs: Seq<SCode>) -> Seq<SFunc> { Seq::new(fs.len(), |i: int| SFunc { type_: fs[i].type_, locals: expand(cs[i].locals), body: cs[i].expr }) }
pub open spec fn any_didx(cs: Seq<SCode>) -> bool { exists|i: int| 0 <= i < cs.len() && #[trigger] cs[i].encountered_data_index }

pub proof fn any_didx_step(cs: Seq<Code>, k: int)
    requires 0 <= k < cs.len()
    ensures any_didx(vs_Code(cs.take(k + 1))) == (any_didx(vs_Code(cs.take(k))) || cs[k].encountered_data_index)
{
    broadcast use g_views;
    let a = vs_Code(cs.take(k)); let b = vs_Code(cs.take(k + 1));
    assert forall|i: int| 0 <= i < k implies a[i] == b[i] by { lidx_Code(cs.take(k), i); lidx_Code(cs.take(k + 1), i); }
    lidx_Code(cs.take(k + 1), k);
    if any_didx(a) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].encountered_data_index; assert(b[i].encountered_data_index); }
    if cs[k].encountered_data_index { assert(b[k].encountered_data_index); }
    if any_didx(b) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].encountered_data_index; if i < k { assert(a[i].encountered_data_index); } }
}
pub proof fn expand_step(ls: Seq<Local>, k: int)
    requires 0 <= k < ls.len()
    ensures expand(ls.take(k + 1)) == expand(ls.take(k)) + rep(ls[k].t, ls[k].count as nat)
{ assert(ls.take(k + 1).drop_last() =~= ls.take(k)); }

pub ghost struct SSt { pub m: SModule, pub code: bool, pub didx: bool }

/// the contents b of a section of kind k; returns what the section leaves unread
pub open spec fn sp_section(a: SSt, k: SectionKind, b: Seq<u8>) -> Option<(SSt, Seq<u8>)> {
    match k {
        SectionKind::Custom => match sp_custom(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { custom_sections: a.m.custom_sections.push(x), ..a.m }, ..a }, r)) },
        SectionKind::Type => match sp_list__rectype(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { types: x, ..a.m }, ..a }, r)) },
        SectionKind::Import => match sp_list__import(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { imports: x, ..a.m }, ..a }, r)) },
        SectionKind::Function => match sp_list__typeidx(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { funcs: a.m.funcs + decls(x), ..a.m }, ..a }, r)) },
        SectionKind::Table => match sp_list__table(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { tables: x, ..a.m }, ..a }, r)) },
        SectionKind::Memory => match sp_list__memtype(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { mems: x, ..a.m }, ..a }, r)) },
        SectionKind::Tag => match sp_list__tagtype(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { tags: x, ..a.m }, ..a }, r)) },
        SectionKind::Global => match sp_list__global(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { globals: x, ..a.m }, ..a }, r)) },
        SectionKind::Export => match sp_list__export(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { exports: x, ..a.m }, ..a }, r)) },
        SectionKind::Start => match sp_funcidx(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { start: Some(x), ..a.m }, ..a }, r)) },
        SectionKind::Element => match sp_list__elem(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { elems: x, ..a.m }, ..a }, r)) },
        SectionKind::DataCount => match sp_u32(b) { None => None, Some((x, r)) => Some((SSt { m: SModule { data_count: Some(x), ..a.m }, ..a }, r)) },
        SectionKind::Code => match sp_list__code(b) { None => None, Some((x, r)) =>
            if x.len() != a.m.funcs.len() { None } else { Some((SSt { m: SModule { funcs: bodies(a.m.funcs, x), ..a.m }, code: true, didx: a.didx || any_didx(x) }, r)) } },
        SectionKind::Data => match sp_list__data(b) { None => None, Some((x, r)) =>
            if a.m.data_count is Some && a.m.data_count->0 != x.len() { None } else { Some((SSt { m: SModule { datas: x, ..a.m }, ..a }, r)) } },
    }
}
/// the bookkeeping that follows a section
pub open spec fn note(a: SSt, h: SectionHeader) -> SSt {
    SSt { m: SModule { section_headers: a.m.section_headers.push(h),
        parsed_section_kinds: if h.kind == SectionKind::Custom { a.m.parsed_section_kinds } else { a.m.parsed_section_kinds.push(h.kind) }, ..a.m }, ..a }
}
/// while no code section has been read, functions have neither locals nor a body, and once one has been read no second one can follow
pub open spec fn code_later(m: SModule, code: bool) -> bool {
    if code { m.parsed_section_kinds.len() > 0 && rank(m.parsed_section_kinds.last()) >= 12 }
    else { forall|i: int| 0 <= i < m.funcs.len() ==> (#[trigger] m.funcs[i]).locals == Seq::<ValType>::empty() && m.funcs[i].body == Seq::<SInstruction>::empty() }
}
pub open spec fn sp_sections(a: SSt, s: Seq<u8>) -> Option<SSt> decreases s.len() {
    if s.len() == 0 { Some(a) } else { match sp_header(s) { None => None, Some((h, t)) =>
        if t.len() < h.size || t.len() >= s.len() || !ordered(a.m, h.kind) { None } else {
            match sp_section(a, h.kind, t.take(h.size as int)) { None => None, Some((a2, r)) =>
                if r.len() != 0 { None } else { sp_sections(note(a2, h), t.skip(h.size as int)) } } } } }
}
pub open spec fn final_ok(a: SSt) -> bool {
    (a.m.funcs.len() == 0 || a.code) && (a.m.data_count is Some ==> a.m.data_count->0 == a.m.datas.len()) && (a.didx ==> a.m.data_count is Some)
}
pub open spec fn preamble() -> Seq<u8> { seq![0x00u8, 0x61, 0x73, 0x6D, 0x01, 0x00, 0x00, 0x00] }
#[verifier::opaque]
pub open spec fn sp_module(s: Seq<u8>) -> Option<SModule> {
    if s.len() < 8 || s.take(8) != preamble() { None } else {
        match sp_sections(SSt { m: empty_module(), code: false, didx: false }, s.skip(8)) { None => None, Some(a) => if final_ok(a) { Some(a.m) } else { None } } }
}
