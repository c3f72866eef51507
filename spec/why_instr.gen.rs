// Generated by tools/gen_why.py. Where in an instruction each kind of error lies (C15).
/// e is about the instruction at the start of s, not about one nested in it
#[verifier::opaque]
pub open spec fn why_instr1(e: ParseError, s: Seq<u8>) -> bool {
    let u = s.skip(1);
    let m = (sp_u32(u)->0).0;
    let t = (sp_u32(u)->0).1;
    match e {
        ParseError::ReadOpcode(x) => s.len() == 0,
        ParseError::InvalidOpcode(x) => hd(s, x) && !assigned(x),
        ParseError::InvalidMarkerByteAfterFC(x) => hd(s, 0xfc) && sp_u32(u) is Some && m == x && !assigned_fc(x),
        ParseError::InvalidMarkerByteAfterFB(x) => hd(s, 0xfb) && sp_u32(u) is Some && m == x && !assigned_fb(x),
        ParseError::Control(ControlError::LabelIdx(x)) => ((hd(s, 0x0c) || hd(s, 0x0d) || hd(s, 0xd5) || hd(s, 0xd6)) && why_labelidx(x, u)) || ((hd(s, 0x0e)) && sp_list__labelidx(u) is Some && why_labelidx(x, (sp_list__labelidx(u)->0).1)) || (hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && sp_castop(t) is Some && why_labelidx(x, (sp_castop(t)->0).1)),
        ParseError::Control(ControlError::DecodeLabelIdxVector(x)) => (hd(s, 0x0e)) && why_list__labelidx(x, u),
        ParseError::Control(ControlError::FuncIdx(x)) => (hd(s, 0x10) || hd(s, 0x12)) && why_funcidx(x, u),
        ParseError::Control(ControlError::TypeIdx(x)) => (hd(s, 0x11) || hd(s, 0x13) || hd(s, 0x14) || hd(s, 0x15)) && why_typeidx(x, u),
        ParseError::Control(ControlError::TableIdx(x)) => (hd(s, 0x11) || hd(s, 0x13)) && sp_u32(u) is Some && why_tableidx(x, (sp_u32(u)->0).1),
        ParseError::Control(ControlError::TagIdx(x)) => (hd(s, 0x08)) && why_tagidx(x, u),
        ParseError::Control(ControlError::BlockType(x)) => (hd(s, 0x02) || hd(s, 0x03) || hd(s, 0x04) || hd(s, 0x1f)) && why_blocktype(x, u),
        ParseError::Control(ControlError::DecodeCatchListError(x)) => (hd(s, 0x1f)) && sp_blocktype(u) is Some && why_list__catch(x, (sp_blocktype(u)->0).1),
        ParseError::Control(ControlError::UnexpectedElse) => false,
        ParseError::Control(ControlError::ReadCastNullabilityMarker(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && t.len() == 0,
        ParseError::Control(ControlError::InvalidCastNullabilityMarker(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && hd(t, x) && x > 3,
        ParseError::Control(ControlError::HeapType(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && why_cast_ht(x, t),
        ParseError::Reference(ReferenceError::HeapType(x)) => ((hd(s, 0xd0)) && why_heaptype(x, u)) || (hd(s, 0xfb) && sp_u32(u) is Some && (20 <= m <= 23) && why_heaptype(x, t)),
        ParseError::Reference(ReferenceError::FuncIdx(x)) => (hd(s, 0xd2)) && why_funcidx(x, u),
        ParseError::Reference(ReferenceError::ReadSubOpcode(x)) => (hd(s, 0xfb)) && why_u32(x, u),
        ParseError::Aggregate(AggregateError::TypeIdx(x)) => (hd(s, 0xfb) && sp_u32(u) is Some && (0 <= m <= 14 || 16 <= m <= 19) && why_typeidx(x, t)) || (hd(s, 0xfb) && sp_u32(u) is Some && (m == 17) && sp_u32(t) is Some && why_typeidx(x, (sp_u32(t)->0).1)),
        ParseError::Aggregate(AggregateError::FieldIndex(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (2 <= m <= 5) && sp_u32(t) is Some && why_u32(x, (sp_u32(t)->0).1),
        ParseError::Aggregate(AggregateError::DataIdx(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (m == 9 || m == 18) && sp_u32(t) is Some && why_dataidx(x, (sp_u32(t)->0).1),
        ParseError::Aggregate(AggregateError::ElemIdx(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (m == 10 || m == 19) && sp_u32(t) is Some && why_elemidx(x, (sp_u32(t)->0).1),
        ParseError::Aggregate(AggregateError::ArrayFixedLength(x)) => hd(s, 0xfb) && sp_u32(u) is Some && (m == 8) && sp_u32(t) is Some && why_u32(x, (sp_u32(t)->0).1),
        ParseError::Parametric(ParametricError::DecodeList(x)) => (hd(s, 0x1c)) && why_list__valtype(x, u),
        ParseError::Variable(VariableError::LocalIdx(x)) => (hd(s, 0x20) || hd(s, 0x21) || hd(s, 0x22)) && why_localidx(x, u),
        ParseError::Variable(VariableError::GlobalIdx(x)) => (hd(s, 0x23) || hd(s, 0x24)) && why_globalidx(x, u),
        ParseError::Table(TableError::TableIdx(x)) => ((hd(s, 0x25) || hd(s, 0x26)) && why_tableidx(x, u)) || (hd(s, 0xfc) && sp_u32(u) is Some && (14 <= m <= 17) && why_tableidx(x, t)) || (hd(s, 0xfc) && sp_u32(u) is Some && (m == 12 || m == 14) && sp_u32(t) is Some && why_tableidx(x, (sp_u32(t)->0).1)),
        ParseError::Table(TableError::ElemIdx(x)) => hd(s, 0xfc) && sp_u32(u) is Some && (m == 12 || m == 13) && why_elemidx(x, t),
        ParseError::Memory(MemoryError::DecodeMemarg(x)) => s.len() > 0 && 0x28 <= s[0] <= 0x3E && why_memarg(x, u),
        ParseError::Memory(MemoryError::DecodeDataIdx(x)) => hd(s, 0xfc) && sp_u32(u) is Some && (m == 8 || m == 9) && why_dataidx(x, t),
        ParseError::Memory(MemoryError::DecodeMemIdx(x)) => ((hd(s, 0x3f) || hd(s, 0x40)) && why_memidx(x, u)) || (hd(s, 0xfc) && sp_u32(u) is Some && (m == 10 || m == 11) && why_memidx(x, t)) || (hd(s, 0xfc) && sp_u32(u) is Some && (m == 8 || m == 10) && sp_u32(t) is Some && why_memidx(x, (sp_u32(t)->0).1)),
        ParseError::Numeric(NumericError::ReadOpcode(x)) => (hd(s, 0xfc)) && why_u32(x, u),
        ParseError::Numeric(NumericError::DecodeI32(x)) => (hd(s, 0x41)) && why_i32(x, u),
        ParseError::Numeric(NumericError::DecodeI64(x)) => (hd(s, 0x42)) && why_i64(x, u),
        ParseError::Numeric(NumericError::DecodeF32(x)) => (hd(s, 0x43)) && why_f32(x, u),
        ParseError::Numeric(NumericError::DecodeF64(x)) => (hd(s, 0x44)) && why_f64(x, u),
        ParseError::Vector(VectorError::ReadOpcode(x)) => (hd(s, 0xfd)) && why_u32(x, u),
        ParseError::Vector(VectorError::Memarg(x)) => hd(s, 0xfd) && sp_u32(u) is Some && (0 <= m <= 11 || 84 <= m <= 93) && why_memarg(x, t),
        ParseError::Vector(VectorError::LaneIdx(x)) => (hd(s, 0xfd) && sp_u32(u) is Some && (21 <= m <= 34) && why_lane(x, t)) || (hd(s, 0xfd) && sp_u32(u) is Some && (84 <= m <= 91) && sp_memarg(t) is Some && why_lane(x, (sp_memarg(t)->0).1)),
        ParseError::Vector(VectorError::ReadImmediateBytes(x)) => hd(s, 0xfd) && sp_u32(u) is Some && (m == 12 || m == 13) && t.len() < 16,
        ParseError::Vector(VectorError::InvalidOpcode(x)) => hd(s, 0xfd) && sp_u32(u) is Some && m == x && !assigned_fd(x),
        _ => true,
    }
}
/// the same, for Instruction::parse, where the definition would be too much at once
pub proof fn b_why_instr1(s: Seq<u8>)
    ensures ({
    let u = s.skip(1);
    let m = (sp_u32(u)->0).0;
    let t = (sp_u32(u)->0).1;
        &&& forall|x: crate::xstd::io::Error| (s.len() == 0) ==> #[trigger] why_instr(ParseError::ReadOpcode(x), s)
        &&& forall|x: u8| (hd(s, x) && !assigned(x)) ==> #[trigger] why_instr(ParseError::InvalidOpcode(x), s)
        &&& forall|x: u32| (hd(s, 0xfc) && sp_u32(u) is Some && m == x && !assigned_fc(x)) ==> #[trigger] why_instr(ParseError::InvalidMarkerByteAfterFC(x), s)
        &&& forall|x: u32| (hd(s, 0xfb) && sp_u32(u) is Some && m == x && !assigned_fb(x)) ==> #[trigger] why_instr(ParseError::InvalidMarkerByteAfterFB(x), s)
        &&& forall|x: DecodeLabelIdxError| (((hd(s, 0x0c) || hd(s, 0x0d) || hd(s, 0xd5) || hd(s, 0xd6)) && why_labelidx(x, u)) || ((hd(s, 0x0e)) && sp_list__labelidx(u) is Some && why_labelidx(x, (sp_list__labelidx(u)->0).1)) || (hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && sp_castop(t) is Some && why_labelidx(x, (sp_castop(t)->0).1))) ==> #[trigger] why_instr(ParseError::Control(ControlError::LabelIdx(x)), s)
        &&& forall|x: DecodeListError<DecodeLabelIdxError>| ((hd(s, 0x0e)) && why_list__labelidx(x, u)) ==> #[trigger] why_instr(ParseError::Control(ControlError::DecodeLabelIdxVector(x)), s)
        &&& forall|x: DecodeFuncIdxError| ((hd(s, 0x10) || hd(s, 0x12)) && why_funcidx(x, u)) ==> #[trigger] why_instr(ParseError::Control(ControlError::FuncIdx(x)), s)
        &&& forall|x: DecodeTypeIdxError| ((hd(s, 0x11) || hd(s, 0x13) || hd(s, 0x14) || hd(s, 0x15)) && why_typeidx(x, u)) ==> #[trigger] why_instr(ParseError::Control(ControlError::TypeIdx(x)), s)
        &&& forall|x: DecodeTableIdxError| ((hd(s, 0x11) || hd(s, 0x13)) && sp_u32(u) is Some && why_tableidx(x, (sp_u32(u)->0).1)) ==> #[trigger] why_instr(ParseError::Control(ControlError::TableIdx(x)), s)
        &&& forall|x: DecodeTagIdxError| ((hd(s, 0x08)) && why_tagidx(x, u)) ==> #[trigger] why_instr(ParseError::Control(ControlError::TagIdx(x)), s)
        &&& forall|x: BlockTypeError| ((hd(s, 0x02) || hd(s, 0x03) || hd(s, 0x04) || hd(s, 0x1f)) && why_blocktype(x, u)) ==> #[trigger] why_instr(ParseError::Control(ControlError::BlockType(x)), s)
        &&& forall|x: DecodeListError<CatchError>| ((hd(s, 0x1f)) && sp_blocktype(u) is Some && why_list__catch(x, (sp_blocktype(u)->0).1)) ==> #[trigger] why_instr(ParseError::Control(ControlError::DecodeCatchListError(x)), s)
        &&& forall|x: crate::xstd::io::Error| (hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && t.len() == 0) ==> #[trigger] why_instr(ParseError::Control(ControlError::ReadCastNullabilityMarker(x)), s)
        &&& forall|x: u8| (hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && hd(t, x) && x > 3) ==> #[trigger] why_instr(ParseError::Control(ControlError::InvalidCastNullabilityMarker(x)), s)
        &&& forall|x: DecodeHeapTypeError| (hd(s, 0xfb) && sp_u32(u) is Some && (m == 24 || m == 25) && why_cast_ht(x, t)) ==> #[trigger] why_instr(ParseError::Control(ControlError::HeapType(x)), s)
        &&& forall|x: DecodeHeapTypeError| (((hd(s, 0xd0)) && why_heaptype(x, u)) || (hd(s, 0xfb) && sp_u32(u) is Some && (20 <= m <= 23) && why_heaptype(x, t))) ==> #[trigger] why_instr(ParseError::Reference(ReferenceError::HeapType(x)), s)
        &&& forall|x: DecodeFuncIdxError| ((hd(s, 0xd2)) && why_funcidx(x, u)) ==> #[trigger] why_instr(ParseError::Reference(ReferenceError::FuncIdx(x)), s)
        &&& forall|x: DecodeU32Error| ((hd(s, 0xfb)) && why_u32(x, u)) ==> #[trigger] why_instr(ParseError::Reference(ReferenceError::ReadSubOpcode(x)), s)
        &&& forall|x: DecodeTypeIdxError| ((hd(s, 0xfb) && sp_u32(u) is Some && (0 <= m <= 14 || 16 <= m <= 19) && why_typeidx(x, t)) || (hd(s, 0xfb) && sp_u32(u) is Some && (m == 17) && sp_u32(t) is Some && why_typeidx(x, (sp_u32(t)->0).1))) ==> #[trigger] why_instr(ParseError::Aggregate(AggregateError::TypeIdx(x)), s)
        &&& forall|x: DecodeU32Error| (hd(s, 0xfb) && sp_u32(u) is Some && (2 <= m <= 5) && sp_u32(t) is Some && why_u32(x, (sp_u32(t)->0).1)) ==> #[trigger] why_instr(ParseError::Aggregate(AggregateError::FieldIndex(x)), s)
        &&& forall|x: DecodeDataIdxError| (hd(s, 0xfb) && sp_u32(u) is Some && (m == 9 || m == 18) && sp_u32(t) is Some && why_dataidx(x, (sp_u32(t)->0).1)) ==> #[trigger] why_instr(ParseError::Aggregate(AggregateError::DataIdx(x)), s)
        &&& forall|x: DecodeElemIdxError| (hd(s, 0xfb) && sp_u32(u) is Some && (m == 10 || m == 19) && sp_u32(t) is Some && why_elemidx(x, (sp_u32(t)->0).1)) ==> #[trigger] why_instr(ParseError::Aggregate(AggregateError::ElemIdx(x)), s)
        &&& forall|x: DecodeU32Error| (hd(s, 0xfb) && sp_u32(u) is Some && (m == 8) && sp_u32(t) is Some && why_u32(x, (sp_u32(t)->0).1)) ==> #[trigger] why_instr(ParseError::Aggregate(AggregateError::ArrayFixedLength(x)), s)
        &&& forall|x: DecodeListError<DecodeValTypeError>| ((hd(s, 0x1c)) && why_list__valtype(x, u)) ==> #[trigger] why_instr(ParseError::Parametric(ParametricError::DecodeList(x)), s)
        &&& forall|x: DecodeLocalIdxError| ((hd(s, 0x20) || hd(s, 0x21) || hd(s, 0x22)) && why_localidx(x, u)) ==> #[trigger] why_instr(ParseError::Variable(VariableError::LocalIdx(x)), s)
        &&& forall|x: DecodeGlobalIdxError| ((hd(s, 0x23) || hd(s, 0x24)) && why_globalidx(x, u)) ==> #[trigger] why_instr(ParseError::Variable(VariableError::GlobalIdx(x)), s)
        &&& forall|x: DecodeTableIdxError| (((hd(s, 0x25) || hd(s, 0x26)) && why_tableidx(x, u)) || (hd(s, 0xfc) && sp_u32(u) is Some && (14 <= m <= 17) && why_tableidx(x, t)) || (hd(s, 0xfc) && sp_u32(u) is Some && (m == 12 || m == 14) && sp_u32(t) is Some && why_tableidx(x, (sp_u32(t)->0).1))) ==> #[trigger] why_instr(ParseError::Table(TableError::TableIdx(x)), s)
        &&& forall|x: DecodeElemIdxError| (hd(s, 0xfc) && sp_u32(u) is Some && (m == 12 || m == 13) && why_elemidx(x, t)) ==> #[trigger] why_instr(ParseError::Table(TableError::ElemIdx(x)), s)
        &&& forall|x: MemargError| (s.len() > 0 && 0x28 <= s[0] <= 0x3E && why_memarg(x, u)) ==> #[trigger] why_instr(ParseError::Memory(MemoryError::DecodeMemarg(x)), s)
        &&& forall|x: DecodeDataIdxError| (hd(s, 0xfc) && sp_u32(u) is Some && (m == 8 || m == 9) && why_dataidx(x, t)) ==> #[trigger] why_instr(ParseError::Memory(MemoryError::DecodeDataIdx(x)), s)
        &&& forall|x: DecodeMemIdxError| (((hd(s, 0x3f) || hd(s, 0x40)) && why_memidx(x, u)) || (hd(s, 0xfc) && sp_u32(u) is Some && (m == 10 || m == 11) && why_memidx(x, t)) || (hd(s, 0xfc) && sp_u32(u) is Some && (m == 8 || m == 10) && sp_u32(t) is Some && why_memidx(x, (sp_u32(t)->0).1))) ==> #[trigger] why_instr(ParseError::Memory(MemoryError::DecodeMemIdx(x)), s)
        &&& forall|x: DecodeU32Error| ((hd(s, 0xfc)) && why_u32(x, u)) ==> #[trigger] why_instr(ParseError::Numeric(NumericError::ReadOpcode(x)), s)
        &&& forall|x: DecodeI32Error| ((hd(s, 0x41)) && why_i32(x, u)) ==> #[trigger] why_instr(ParseError::Numeric(NumericError::DecodeI32(x)), s)
        &&& forall|x: DecodeI64Error| ((hd(s, 0x42)) && why_i64(x, u)) ==> #[trigger] why_instr(ParseError::Numeric(NumericError::DecodeI64(x)), s)
        &&& forall|x: DecodeFloat32Error| ((hd(s, 0x43)) && why_f32(x, u)) ==> #[trigger] why_instr(ParseError::Numeric(NumericError::DecodeF32(x)), s)
        &&& forall|x: DecodeFloat64Error| ((hd(s, 0x44)) && why_f64(x, u)) ==> #[trigger] why_instr(ParseError::Numeric(NumericError::DecodeF64(x)), s)
        &&& forall|x: DecodeU32Error| ((hd(s, 0xfd)) && why_u32(x, u)) ==> #[trigger] why_instr(ParseError::Vector(VectorError::ReadOpcode(x)), s)
        &&& forall|x: MemargError| (hd(s, 0xfd) && sp_u32(u) is Some && (0 <= m <= 11 || 84 <= m <= 93) && why_memarg(x, t)) ==> #[trigger] why_instr(ParseError::Vector(VectorError::Memarg(x)), s)
        &&& forall|x: LaneIdxError| ((hd(s, 0xfd) && sp_u32(u) is Some && (21 <= m <= 34) && why_lane(x, t)) || (hd(s, 0xfd) && sp_u32(u) is Some && (84 <= m <= 91) && sp_memarg(t) is Some && why_lane(x, (sp_memarg(t)->0).1))) ==> #[trigger] why_instr(ParseError::Vector(VectorError::LaneIdx(x)), s)
        &&& forall|x: crate::xstd::io::Error| (hd(s, 0xfd) && sp_u32(u) is Some && (m == 12 || m == 13) && t.len() < 16) ==> #[trigger] why_instr(ParseError::Vector(VectorError::ReadImmediateBytes(x)), s)
        &&& forall|x: u32| (hd(s, 0xfd) && sp_u32(u) is Some && m == x && !assigned_fd(x)) ==> #[trigger] why_instr(ParseError::Vector(VectorError::InvalidOpcode(x)), s)
    }),
{ reveal(why_instr); reveal(why_instr1); }
