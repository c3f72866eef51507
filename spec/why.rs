// What the errors say (C15). why_x(e, s): every figure and byte that e carries is the real one
// for a failed attempt to read an x at the start of s. Errors without figures say nothing here.

pub open spec fn hd(s: Seq<u8>, b: u8) -> bool { s.len() > 0 && s[0] == b }

// ---------------------------------------------------------------- reading
/// x: the I/O error that an error holds at its root, if any; end: how the reader ends.
/// It is the reader's own error, or says that the input ended where the input ended.
pub open spec fn why_io(x: Option<crate::xstd::io::Error>, end: Option<crate::xstd::io::Error>) -> bool {
    match x { None => true, Some(e) => match end { None => e.k is UnexpectedEof, Some(f) => e == f } }
}
/// the same where part of the input is read through a limit
pub open spec fn why_io_lim(x: Option<crate::xstd::io::Error>, end: Option<crate::xstd::io::Error>) -> bool {
    match x { None => true, Some(e) => e.k is UnexpectedEof || end == Some(e) }
}

// ---------------------------------------------------------------- leaves
// lebk (spec/leb.rs): how the integer ends, 1 not at all, 2 after too many bytes, 3 with a byte that may be the last
#[verifier::opaque]
pub open spec fn why_u32(e: DecodeU32Error, s: Seq<u8>) -> bool { lebk(s, 32) == (match e { DecodeU32Error::Io(_) => 1int, DecodeU32Error::RepresentationTooLong => 2, DecodeU32Error::TooLarge => 3 }) }
#[verifier::opaque]
pub open spec fn why_u64(e: DecodeU64Error, s: Seq<u8>) -> bool { lebk(s, 64) == (match e { DecodeU64Error::Io(_) => 1int, DecodeU64Error::RepresentationTooLong => 2, DecodeU64Error::TooLarge => 3 }) }
#[verifier::opaque]
pub open spec fn why_i32(e: DecodeI32Error, s: Seq<u8>) -> bool { lebk(s, 32) == (match e { DecodeI32Error::Io(_) => 1int, DecodeI32Error::RepresentationTooLong => 2, DecodeI32Error::TooLarge => 3 }) }
#[verifier::opaque]
pub open spec fn why_i64(e: DecodeI64Error, s: Seq<u8>) -> bool { lebk(s, 64) == (match e { DecodeI64Error::Io(_) => 1int, DecodeI64Error::RepresentationTooLong => 2, DecodeI64Error::IncorrectSignExtension => 3 }) }
#[verifier::opaque]
pub open spec fn why_s33(e: DecodeS33Error, s: Seq<u8>) -> bool { lebk(s, 33) == (match e { DecodeS33Error::Io(_) => 1int, DecodeS33Error::RepresentationTooLong => 2, DecodeS33Error::IncorrectSignExtension => 3 }) }
#[verifier::opaque]
pub open spec fn why_f32(e: DecodeFloat32Error, s: Seq<u8>) -> bool { s.len() < 4 }
#[verifier::opaque]
pub open spec fn why_f64(e: DecodeFloat64Error, s: Seq<u8>) -> bool { s.len() < 8 }
#[verifier::opaque]
pub open spec fn why_lane(e: LaneIdxError, s: Seq<u8>) -> bool { s.len() == 0 }
#[verifier::opaque]
pub open spec fn why_typeidx(e: DecodeTypeIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_funcidx(e: DecodeFuncIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_tableidx(e: DecodeTableIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_memidx(e: DecodeMemIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_globalidx(e: DecodeGlobalIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_elemidx(e: DecodeElemIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_dataidx(e: DecodeDataIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_localidx(e: DecodeLocalIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_labelidx(e: DecodeLabelIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_tagidx(e: DecodeTagIdxError, s: Seq<u8>) -> bool { why_u32(e.0, s) }
#[verifier::opaque]
pub open spec fn why_bytes(e: DecodeByteVectorError, s: Seq<u8>) -> bool {
    match e { DecodeByteVectorError::DecodeLength(x) => why_u32(x, s), DecodeByteVectorError::ReadElements(_) => (match sp_u32(s) { None => false, Some((n, t)) => t.len() < n }) }
}
#[verifier::opaque]
pub open spec fn why_name(e: DecodeNameError, s: Seq<u8>) -> bool {
    match e { DecodeNameError::DecodeByteVector(x) => why_bytes(x, s), DecodeNameError::Utf8(_) => (match sp_bytes(s) { None => false, Some((b, _)) => !valid_utf8(b) }) }
}

// ---------------------------------------------------------------- types
#[verifier::opaque]
pub open spec fn why_absheaptype(e: DecodeAbsHeapTypeError, s: Seq<u8>) -> bool {
    match e { DecodeAbsHeapTypeError::InvalidMarkerByte(x) => hd(s, x.0) && m_heap(x.0) is None, DecodeAbsHeapTypeError::ReadMarkerByte(_) => s.len() == 0 }
}
#[verifier::opaque]
pub open spec fn why_heaptype(e: DecodeHeapTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeHeapTypeError::ReadMarkerByte(_) => s.len() == 0,
        DecodeHeapTypeError::DecodeTypeIndex(x) => s.len() > 0 && m_heap(s[0]) is None && why_s33(x, s),
        DecodeHeapTypeError::NegativeTypeIndex(x) => match sp_s33(s) { Some((y, _)) => x == y && x < 0, None => false },
    }
}
#[verifier::opaque]
pub open spec fn why_reftype(e: DecodeRefTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeRefTypeError::DecodeHeapType(h) => (hd(s, 0x63) || hd(s, 0x64)) && why_heaptype(h, s.skip(1)),
        DecodeRefTypeError::InvalidMarkerByte(a) => s.len() > 0 && why_absheaptype(a, s),
        DecodeRefTypeError::Io(_) => s.len() == 0,
    }
}
#[verifier::opaque]
pub open spec fn why_valtype(e: DecodeValTypeError, s: Seq<u8>) -> bool {
    match e { DecodeValTypeError::DecodeRefType(r) => s.len() > 0 && why_reftype(r, s), DecodeValTypeError::Io(_) => s.len() == 0 }
}
@whylist valtype ValType DecodeValTypeError
pub open spec fn why_resulttype(e: DecodeResultTypeError, s: Seq<u8>) -> bool {
    match e { DecodeResultTypeError::DecodeList(l) => why_list__valtype(l, s) }
}
#[verifier::opaque]
pub open spec fn why_storagetype(e: DecodeStorageTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeStorageTypeError::DecodeValTypeOrPackType { marker, source } => hd(s, marker) && m_pack(marker) is None && why_valtype(source, s),
        DecodeStorageTypeError::ReadMarkerByte(_) => s.len() == 0,
    }
}
#[verifier::opaque]
pub open spec fn why_fieldtype(e: DecodeFieldTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeFieldTypeError::DecodeStorageType(z) => why_storagetype(z, s),
        DecodeFieldTypeError::DecodeMutability(m) => match sp_storagetype(s) { None => false, Some((_, t)) => hd(t, m.0) && m_mut(m.0) is None },
        DecodeFieldTypeError::ReadMutabilityMarkerByte(_) => match sp_storagetype(s) { None => false, Some((_, t)) => t.len() == 0 },
    }
}
@whylist fieldtype FieldType DecodeFieldTypeError
#[verifier::opaque]
pub open spec fn why_comptype(e: DecodeCompTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeCompTypeError::InvalidMarkerByte(n) => hd(s, n) && n != 0x5E && n != 0x5F && n != 0x60,
        DecodeCompTypeError::DecodeFieldType(f) => hd(s, 0x5E) && why_fieldtype(f, s.skip(1)),
        DecodeCompTypeError::DecodeStruct(l) => hd(s, 0x5F) && why_list__fieldtype(l, s.skip(1)),
        DecodeCompTypeError::DecodeFuncParameters(r) => hd(s, 0x60) && why_resulttype(r, s.skip(1)),
        DecodeCompTypeError::DecodeFuncResults(r) => hd(s, 0x60) && (match sp_list__valtype(s.skip(1)) { None => false, Some((_, t)) => why_resulttype(r, t) }),
        DecodeCompTypeError::ReadMarkerByte(_) => s.len() == 0,
    }
}
@whylist typeidx TypeIdx DecodeTypeIdxError
#[verifier::opaque]
pub open spec fn why_subtype(e: DecodeSubTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeSubTypeError::DecodeSupertypes(l) => (hd(s, 0x4F) || hd(s, 0x50)) && why_list__typeidx(l, s.skip(1)),
        DecodeSubTypeError::DecodeCompType(c) =>
            if hd(s, 0x4F) || hd(s, 0x50) { match sp_list__typeidx(s.skip(1)) { None => false, Some((_, t)) => why_comptype(c, t) } } else { s.len() > 0 && why_comptype(c, s) },
        DecodeSubTypeError::Io(_) => s.len() == 0,
    }
}
@whylist subtype SSubType DecodeSubTypeError
#[verifier::opaque]
pub open spec fn why_rectype(e: DecodeRecTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeRecTypeError::DecodeSubtypes(l) => hd(s, 0x4E) && why_list__subtype(l, s.skip(1)),
        DecodeRecTypeError::DecodeSubtype(x) => s.len() > 0 && s[0] != 0x4E && why_subtype(x, s),
        DecodeRecTypeError::Io(_) => s.len() == 0,
    }
}
@whylist rectype SRecType DecodeRecTypeError
#[verifier::opaque]
pub open spec fn why_limits(e: ParseLimitsError, s: Seq<u8>) -> bool {
    match e {
        ParseLimitsError::ReadFlagByte(_) => s.len() == 0,
        ParseLimitsError::UnexpectedFlagByte(n) => hd(s, n) && n != 0 && n != 1 && n != 4 && n != 5,
        ParseLimitsError::ReadMinLimit(x) => (hd(s, 0) || hd(s, 1) || hd(s, 4) || hd(s, 5)) && why_u64(x, s.skip(1)),
        ParseLimitsError::ReadMaxLimit(x) => (hd(s, 1) || hd(s, 5)) && (match sp_u64(s.skip(1)) { None => false, Some((_, t)) => why_u64(x, t) }),
    }
}
pub open spec fn why_memtype(e: DecodeMemoryTypeError, s: Seq<u8>) -> bool { why_limits(e.0, s) }
@whylist memtype MemType DecodeMemoryTypeError
#[verifier::opaque]
pub open spec fn why_tabletype(e: DecodeTableTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeTableTypeError::DecodeRefType(r) => why_reftype(r, s),
        DecodeTableTypeError::DecodeLimits(l) => match sp_reftype(s) { None => false, Some((_, t)) => why_limits(l, t) },
    }
}
#[verifier::opaque]
pub open spec fn why_globaltype(e: DecodeGlobalTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeGlobalTypeError::DecodeValueType(v) => why_valtype(v, s),
        DecodeGlobalTypeError::InvalidMutability(m) => match sp_valtype(s) { None => false, Some((_, t)) => hd(t, m.0) && m_mut(m.0) is None },
        DecodeGlobalTypeError::DecodeMutability(_) => match sp_valtype(s) { None => false, Some((_, t)) => t.len() == 0 },
    }
}
#[verifier::opaque]
pub open spec fn why_tagtype(e: DecodeTagTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeTagTypeError::ReadMarkerByte(_) => s.len() == 0,
        DecodeTagTypeError::InvalidMarkerByte(n) => hd(s, n) && n != 0,
        DecodeTagTypeError::DecodeTypeIndex(x) => hd(s, 0) && why_typeidx(x, s.skip(1)),
    }
}
@whylist tagtype TagType DecodeTagTypeError
#[verifier::opaque]
pub open spec fn why_externtype(e: DecodeExternTypeError, s: Seq<u8>) -> bool {
    match e {
        DecodeExternTypeError::InvalidMarkerByte(n) => hd(s, n) && n > 4,
        DecodeExternTypeError::DecodeTableType(x) => hd(s, 1) && why_tabletype(x, s.skip(1)),
        DecodeExternTypeError::DecodeMemoryType(x) => hd(s, 2) && why_memtype(x, s.skip(1)),
        DecodeExternTypeError::DecodeGlobalType(x) => hd(s, 3) && why_globaltype(x, s.skip(1)),
        DecodeExternTypeError::DecodeTagType(x) => hd(s, 4) && why_tagtype(x, s.skip(1)),
        DecodeExternTypeError::DecodeTypeIndex(x) => hd(s, 0) && why_typeidx(x, s.skip(1)),
        DecodeExternTypeError::ReadMarkerByte(_) => s.len() == 0,
    }
}

// ---------------------------------------------------------------- instructions
pub open spec fn assigned(n: u8) -> bool { sp_plain_known(n) || 0x02 <= n <= 0x05 || n == 0x0B || n == 0x0E || 0x1B <= n <= 0x1C || n == 0x1F || 0xFB <= n <= 0xFD }
pub open spec fn assigned_fb(n: u32) -> bool { sp_fb_known(n) || 20 <= n <= 25 }
pub open spec fn assigned_fc(n: u32) -> bool { sp_fc_known(n) }
pub open spec fn assigned_fd(n: u32) -> bool { sp_fd_known(n) }
#[verifier::opaque]
pub open spec fn why_memarg(e: MemargError, s: Seq<u8>) -> bool {
    match e {
        MemargError::Align(x) => why_u32(x, s),
        MemargError::InvalidFlagsBit(n) => match sp_u32(s) { Some((m, _)) => n == m && n >= 128, None => false },
        MemargError::MemIdx(x) => match sp_u32(s) { Some((m, t)) => 64 <= m < 128 && why_memidx(x, t), None => false },
        MemargError::Offset(x) => match sp_u32(s) { None => false, Some((m, t)) => if m < 64 { why_u64(x, t) } else { m < 128 && (match sp_memidx(t) { None => false, Some((_, v)) => why_u64(x, v) }) } },
    }
}
#[verifier::opaque]
pub open spec fn why_blocktype(e: BlockTypeError, s: Seq<u8>) -> bool {
    match e {
        BlockTypeError::ReadMarkerByte(_) => s.len() == 0,
        BlockTypeError::DecodeIndex(x) => s.len() > 0 && s[0] != 0x40 && sp_valtype(s) is None && why_s33(x, s),
        BlockTypeError::NegativeTypeIndex(x) => sp_valtype(s) is None && (match sp_s33(s) { Some((y, _)) => x == y && x < 0, None => false }),
    }
}
#[verifier::opaque]
pub open spec fn why_catch(e: CatchError, s: Seq<u8>) -> bool {
    match e {
        CatchError::ReadMarkerByte(_) => s.len() == 0,
        CatchError::InvalidMarkerByte(n) => hd(s, n) && n > 3,
        CatchError::DecodeTagIdx(x) => (hd(s, 0) || hd(s, 1)) && why_tagidx(x, s.skip(1)),
        CatchError::DecodeLabelIdx(x) => (hd(s, 2) || hd(s, 3)) && why_labelidx(x, s.skip(1))
            || (hd(s, 0) || hd(s, 1)) && (match sp_tagidx(s.skip(1)) { None => false, Some((_, t)) => why_labelidx(x, t) }),
    }
}
@whylist catch Catch CatchError
@whylist labelidx LabelIdx DecodeLabelIdxError
#[verifier::opaque]
pub open spec fn why_castop(e: ControlError, s: Seq<u8>) -> bool {
    match e {
        ControlError::InvalidCastNullabilityMarker(n) => hd(s, n) && n > 3,
        ControlError::ReadCastNullabilityMarker(_) => s.len() == 0,
        _ => false,
    }
}
/// the operands of a br_on_cast, after the sub-opcode: heap types h1 and h2 come after the flags and the label
pub open spec fn why_cast_ht(e: DecodeHeapTypeError, t: Seq<u8>) -> bool {
    match sp_castop(t) { None => false, Some((_, t1)) => match sp_labelidx(t1) { None => false, Some((_, t2)) =>
        match sp_heaptype(t2) { None => why_heaptype(e, t2), Some((_, t3)) => why_heaptype(e, t3) } } }
}
/// e is about the instruction at the start of s or about one nested in it
#[verifier::opaque]
pub open spec fn why_instr(e: ParseError, s: Seq<u8>) -> bool decreases s.len(), 0int {
    why_instr1(e, s) || (hd(s, 0x02) || hd(s, 0x03) || hd(s, 0x04)) && (match sp_blocktype(s.skip(1)) { None => false, Some((_, t)) => t.len() < s.len() && why_body(e, t, hd(s, 0x04)) })
        || hd(s, 0x1F) && (match sp_blocktype(s.skip(1)) { None => false, Some((_, t)) => match sp_list__catch(t) { None => false, Some((_, u)) => u.len() < s.len() && why_body(e, u, false) } })
}
/// for Instruction::parse, where the definitions would be too much at once
pub proof fn b_why_instr(s: Seq<u8>)
    ensures ({
        let u = s.skip(1);
        let m = (sp_u32(u)->0).0;
        let t = (sp_u32(u)->0).1;
        &&& hd(s, 0xFB) && sp_u32(u) is Some && (m == 24 || m == 25) ==> forall|x: ControlError| #[trigger] why_castop(x, t) ==> why_instr(ParseError::Control(x), s)
        &&& (hd(s, 0x02) || hd(s, 0x03)) && sp_blocktype(u) is Some && (sp_blocktype(u)->0).1.len() < s.len() ==>
            forall|e: ParseError| #[trigger] why_body(e, (sp_blocktype(u)->0).1, false) ==> why_instr(e, s)
        &&& hd(s, 0x04) && sp_blocktype(u) is Some && (sp_blocktype(u)->0).1.len() < s.len() ==>
            forall|e: ParseError| #[trigger] why_body(e, (sp_blocktype(u)->0).1, true) ==> why_instr(e, s)
        &&& hd(s, 0x1F) && sp_blocktype(u) is Some && sp_list__catch((sp_blocktype(u)->0).1) is Some && (sp_list__catch((sp_blocktype(u)->0).1)->0).1.len() < s.len() ==>
            forall|e: ParseError| #[trigger] why_body(e, (sp_list__catch((sp_blocktype(u)->0).1)->0).1, false) ==> why_instr(e, s)
    }),
{ reveal(why_instr); reveal(why_instr1); reveal(why_castop); }
/// e is about the first instruction of the sequence at the start of s that is no instruction; in an if, an else may come
pub open spec fn why_body(e: ParseError, s: Seq<u8>, in_if: bool) -> bool decreases s.len(), 1int {
    match sp_instr(s) {
        None => why_instr(e, s),
        Some((r, t)) => match r {
            SParseResult::End => false,
            SParseResult::Else => if in_if { t.len() < s.len() && why_body(e, t, false) } else { e == ParseError::Control(ControlError::UnexpectedElse) },
            SParseResult::Instruction(_) => t.len() < s.len() && why_body(e, t, in_if),
        },
    }
}
#[verifier::opaque]
pub open spec fn why_expr(e: ParseExpressionError, s: Seq<u8>) -> bool {
    match e {
        ParseExpressionError::ParseInstruction(p) => sp_seq(seq![], s) is None && why_body(p, s, false),
        ParseExpressionError::UnexpectedElse => match sp_seq(seq![], s) { None => false, Some((_, is_else, _)) => is_else },
    }
}
@whylist expr Seq<SInstruction> ParseExpressionError

// ---------------------------------------------------------------- section entries
#[verifier::opaque]
pub open spec fn why_import(e: DecodeImportError, s: Seq<u8>) -> bool {
    match e {
        DecodeImportError::DecodeExternType(x) => match sp_name(s) { None => false, Some((_, t)) => match sp_name(t) { None => false, Some((_, u)) => why_externtype(x, u) } },
        DecodeImportError::DecodeModuleName(x) => why_name(x, s),
        DecodeImportError::DecodeItemName(x) => match sp_name(s) { None => false, Some((_, t)) => why_name(x, t) },
    }
}
@whylist import SImport DecodeImportError
#[verifier::opaque]
pub open spec fn why_table(e: DecodeTableError, s: Seq<u8>) -> bool {
    match e {
        DecodeTableError::UnexpectedMarkerByte(n) => s.len() > 1 && s[0] == 0x40 && s[1] == n && n != 0,
        DecodeTableError::Io(_) => s.len() == 0 || s.len() == 1 && s[0] == 0x40,
        DecodeTableError::DecodeTableType(t) => s.len() > 0 && (if s[0] == 0x40 { s.len() > 1 && s[1] == 0 && why_tabletype(t, s.skip(2)) } else { why_tabletype(t, s) }),
        DecodeTableError::DecodeExpression(x) => s.len() > 1 && s[0] == 0x40 && s[1] == 0 && (match sp_tabletype(s.skip(2)) { None => false, Some((_, t)) => why_expr(x, t) }),
    }
}
@whylist table STable DecodeTableError
#[verifier::opaque]
pub open spec fn why_global(e: DecodeGlobalError, s: Seq<u8>) -> bool {
    match e {
        DecodeGlobalError::DecodeGlobalType(g) => why_globaltype(g, s),
        DecodeGlobalError::DecodeInit(x) => match sp_globaltype(s) { None => false, Some((_, t)) => why_expr(x, t) },
    }
}
@whylist global SGlobal DecodeGlobalError
#[verifier::opaque]
pub open spec fn why_export(e: DecodeExportError, s: Seq<u8>) -> bool {
    match e {
        DecodeExportError::DecodeName(x) => why_name(x, s),
        DecodeExportError::ReadDescriptorMarkerByte(_) => match sp_name(s) { None => false, Some((_, t)) => t.len() == 0 },
        DecodeExportError::DecodeIndex(x) => match sp_name(s) { None => false, Some((_, t)) => t.len() > 0 && why_u32(x, t.skip(1)) },
        DecodeExportError::InvalidDescriptorMarkerByte(b) => match sp_name(s) { None => false, Some((_, t)) => hd(t, b.0) && b.0 > 4 },
    }
}
@whylist export SExport DecodeExportError
@whylist funcidx FuncIdx DecodeFuncIdxError
#[verifier::opaque]
pub open spec fn why_elemkind(e: DecodeElementKindError, s: Seq<u8>) -> bool {
    match e { DecodeElementKindError::InvalidElemKind(n) => hd(s, n) && n != 0, DecodeElementKindError::Io(_) => s.len() == 0 }
}
/// what follows the table index and the offset expression of an element segment, if they are all right
pub open spec fn elem_tbl(s: Seq<u8>) -> Option<Seq<u8>> {
    match sp_u32(s) { None => None, Some((f, t)) => if f == 2 || f == 6 { match sp_tableidx(t) { None => None, Some((_, t1)) => Some(t1) } } else { Some(t) } }
}
pub open spec fn elem_off(s: Seq<u8>) -> Option<Seq<u8>> {
    match elem_tbl(s) { None => None, Some(t) => if (sp_u32(s)->0).0 % 2 == 0 { match sp_expr(t) { None => None, Some((_, t1)) => Some(t1) } } else { Some(t) } }
}
#[verifier::opaque]
pub open spec fn why_elem(e: DecodeElementError, s: Seq<u8>) -> bool {
    let f = (sp_u32(s)->0).0;
    match e {
        DecodeElementError::DecodeBitfield(x) => why_u32(x, s),
        _ => sp_u32(s) is Some && (match e {
            DecodeElementError::InvalidBitfield(n) => n == f && f > 7,
            DecodeElementError::DecodeTableIdx(x) => (f == 2 || f == 6) && why_tableidx(x, (sp_u32(s)->0).1),
            // the offset of form 2 goes by either name (tests/error_types.rs asks for the second)
            DecodeElementError::DecodeElementExpression(x) => f == 2 && elem_tbl(s) is Some && why_expr(x, elem_tbl(s)->0),
            DecodeElementError::DecodeOffsetExpression(x) => (f == 0 || f == 2 || f == 4 || f == 6) && elem_tbl(s) is Some && why_expr(x, elem_tbl(s)->0),
            DecodeElementError::DecodeElementKind(k) => (f == 1 || f == 2 || f == 3) && elem_off(s) is Some && why_elemkind(k, elem_off(s)->0),
            DecodeElementError::DecodeReferenceType(r) => (f == 5 || f == 6 || f == 7) && elem_off(s) is Some && why_reftype(r, elem_off(s)->0),
            DecodeElementError::DecodeFuncIdxVector(l) => elem_off(s) is Some && (f == 0 && why_list__funcidx(l, elem_off(s)->0)
                || (f == 1 || f == 2 || f == 3) && (match sp_elemkind(elem_off(s)->0) { None => false, Some((_, w)) => why_list__funcidx(l, w) })),
            DecodeElementError::DecodeInit(l) => elem_off(s) is Some && (f == 4 && why_list__expr(l, elem_off(s)->0)
                || (f == 5 || f == 6 || f == 7) && (match sp_reftype(elem_off(s)->0) { None => false, Some((_, w)) => why_list__expr(l, w) })),
            _ => true,
        }),
    }
}
@whylist elem SElem DecodeElementError
#[verifier::opaque]
pub open spec fn why_data(e: DecodeDataSegmentError, s: Seq<u8>) -> bool {
    match e {
        DecodeDataSegmentError::InvalidBitfield(n) => match sp_u32(s) { None => false, Some((f, _)) => n == f && f > 2 },
        DecodeDataSegmentError::DecodeOffsetExpr(x) => match sp_u32(s) { None => false, Some((f, t)) =>
            if f == 0 { why_expr(x, t) } else { f == 2 && (match sp_memidx(t) { None => false, Some((_, u)) => why_expr(x, u) }) } },
        DecodeDataSegmentError::DecodeBitfield(x) => why_u32(x, s),
        DecodeDataSegmentError::DecodeMemIdx(x) => match sp_u32(s) { None => false, Some((f, t)) => f == 2 && why_memidx(x, t) },
        DecodeDataSegmentError::DecodeInitVector(x) => match sp_u32(s) { None => false, Some((f, t)) =>
            if f == 0 { match sp_expr(t) { None => false, Some((_, u)) => why_bytes(x, u) } }
            else if f == 1 { why_bytes(x, t) }
            else { f == 2 && (match sp_memidx(t) { None => false, Some((_, u)) => match sp_expr(u) { None => false, Some((_, v)) => why_bytes(x, v) } }) } },
    }
}
@whylist data SData DecodeDataSegmentError
/// one run of locals, after runs of `sum` locals altogether
#[verifier::opaque]
pub open spec fn why_local(e: DecodeCodeLocalsError, s: Seq<u8>, sum: int, max: int) -> bool {
    match e {
        DecodeCodeLocalsError::LocalsCountOutOfBound { max_locals, actual_locals } => max_locals == max && actual_locals > max
            && (match sp_u32(s) { None => false, Some((n, _)) => actual_locals == sum + n }),
        DecodeCodeLocalsError::DecodeLocalValType(v) => match sp_u32(s) { None => false, Some((_, t)) => why_valtype(v, t) },
        DecodeCodeLocalsError::DecodeLocalsCount(x) => why_u32(x, s),
    }
}
pub open spec fn why_locals_n(e: DecodeListError<DecodeCodeLocalsError>, pos: nat, sum: nat, s: Seq<u8>, n: nat) -> bool decreases n {
    match e {
        DecodeListError::ParseElement { position, source } => n > 0 && (match sp_local(s) {
            None => position == pos && why_local(source, s, sum as int, 0xFFFF_FFFF),
            Some((l, t)) => if sum + l.count > 0xFFFF_FFFF { position == pos && why_local(source, s, sum as int, 0xFFFF_FFFF) } else { why_locals_n(e, pos + 1, sum + l.count as nat, t, (n - 1) as nat) },
        }),
        DecodeListError::DecodeLength(_) => false,
    }
}
#[verifier::opaque]
pub open spec fn why_locals(e: DecodeListError<DecodeCodeLocalsError>, s: Seq<u8>) -> bool {
    match e { DecodeListError::ParseElement { .. } => (match sp_u32(s) { None => false, Some((n, t)) => why_locals_n(e, 0, 0, t, n as nat) }), DecodeListError::DecodeLength(x) => why_u32(x, s) }
}
#[verifier::opaque]
pub open spec fn why_code(e: DecodeCodeError, s: Seq<u8>) -> bool {
    match sp_u32(s) {
        None => match e { DecodeCodeError::DecodeFunctionSize(x) => why_u32(x, s), _ => false },
        Some((n, t)) => {
            let b = crate::xstd::io::tk(t, n as int);
            match e {
                DecodeCodeError::DecodeLocalsVector(l) => why_locals(l, b),
                DecodeCodeError::DecodeFunctionBody(x) => match sp_locals(b) { None => false, Some((_, u)) => why_expr(x, u) },
                DecodeCodeError::EntrySizeMismatch { declared_bytes, leftover_bytes, consumed_bytes } =>
                    match sp_locals(b) { None => false, Some((_, u)) => match sp_expr(u) { None => false, Some((_, r)) =>
                        declared_bytes == n && consumed_bytes == b.len() - r.len() && leftover_bytes == n - consumed_bytes && leftover_bytes != 0 } },
                DecodeCodeError::DecodeFunctionSize(_) => false,
            }
        },
    }
}
@whylist code SCode DecodeCodeError

// ---------------------------------------------------------------- sections and modules
pub open spec fn why_s_type(e: DecodeTypeSectionError, s: Seq<u8>) -> bool { match e { DecodeTypeSectionError::DecodeList(l) => why_list__rectype(l, s) } }
pub open spec fn why_s_import(e: DecodeImportSectionError, s: Seq<u8>) -> bool { match e { DecodeImportSectionError::DecodeList(l) => why_list__import(l, s) } }
pub open spec fn why_s_function(e: DecodeFunctionSectionError, s: Seq<u8>) -> bool { match e { DecodeFunctionSectionError::DecodeList(l) => why_list__typeidx(l, s) } }
pub open spec fn why_s_table(e: DecodeTableSectionError, s: Seq<u8>) -> bool { match e { DecodeTableSectionError::DecodeList(l) => why_list__table(l, s) } }
pub open spec fn why_s_memory(e: DecodeMemorySectionError, s: Seq<u8>) -> bool { match e { DecodeMemorySectionError::DecodeList(l) => why_list__memtype(l, s) } }
pub open spec fn why_s_tag(e: DecodeTagSectionError, s: Seq<u8>) -> bool { match e { DecodeTagSectionError::DecodeList(l) => why_list__tagtype(l, s) } }
pub open spec fn why_s_global(e: DecodeGlobalSectionError, s: Seq<u8>) -> bool { match e { DecodeGlobalSectionError::DecodeList(l) => why_list__global(l, s) } }
pub open spec fn why_s_export(e: DecodeExportSectionError, s: Seq<u8>) -> bool { match e { DecodeExportSectionError::DecodeList(l) => why_list__export(l, s) } }
pub open spec fn why_s_elem(e: DecodeElementSectionError, s: Seq<u8>) -> bool { match e { DecodeElementSectionError::DecodeList(l) => why_list__elem(l, s) } }
pub open spec fn why_s_code(e: DecodeCodeSectionError, s: Seq<u8>) -> bool { match e { DecodeCodeSectionError::DecodeList(l) => why_list__code(l, s) } }
pub open spec fn why_s_data(e: DecodeDataSectionError, s: Seq<u8>) -> bool { match e { DecodeDataSectionError::DecodeList(l) => why_list__data(l, s) } }
pub open spec fn why_s_start(e: DecodeStartSectionError, s: Seq<u8>) -> bool { why_funcidx(e.0, s) }
pub open spec fn why_s_datacount(e: DecodeDataCountSectionError, s: Seq<u8>) -> bool { match e { DecodeDataCountSectionError::DecodeDataSegmentCount(x) => why_u32(x, s) } }
pub open spec fn why_custom(e: DecodeCustomSectionError, s: Seq<u8>) -> bool { match e { DecodeCustomSectionError::DecodeName(x) => why_name(x, s), DecodeCustomSectionError::Io(_) => sp_name(s) is Some } }
pub open spec fn why_header(e: DecodeSectionHeaderError, s: Seq<u8>) -> bool {
    match e {
        DecodeSectionHeaderError::ReadSectionIdByte(_) => s.len() == 0,
        DecodeSectionHeaderError::InvalidSectionId(x) => hd(s, x.0) && m_section(x.0) is None,
        DecodeSectionHeaderError::DecodeSectionSize(x) => s.len() > 0 && m_section(s[0]) is Some && why_u32(x, s.skip(1)),
    }
}
pub open spec fn why_preamble(e: ParsePreambleError, s: Seq<u8>) -> bool {
    match e { ParsePreambleError::Unexpected(p) => s.len() >= 8 && p@ == s.take(8) && p@ != preamble(), ParsePreambleError::Io(_) => s.len() < 8 }
}
/// an ordering violation: h.kind comes after the last section of m, which it must not follow
pub open spec fn why_order(e: DecodeModuleError, m: SModule, k: SectionKind) -> bool {
    m.parsed_section_kinds.len() > 0 && (match e {
        DecodeModuleError::SectionOutOfOrder { current, previous } => current == k && previous == m.parsed_section_kinds.last() && rank(current) < rank(previous),
        DecodeModuleError::DuplicateSection(x) => x == k && x == m.parsed_section_kinds.last(),
        _ => false,
    })
}
/// s: the module from the header of a section on, a: what the sections before it amount to
pub open spec fn why_section(e: DecodeModuleError, a: SSt, s: Seq<u8>) -> bool {
    match e {
        DecodeModuleError::ParsePreamble(_) => false,
        DecodeModuleError::DecodeSectionHeader(x) => why_header(x, s),
        DecodeModuleError::DecodeDataCount(_) => false, // a usize has 64 bits here
        DecodeModuleError::DataIndexWithoutDataCount => s.len() == 0 && a.didx && a.m.data_count is None,
        DecodeModuleError::DataCountDatasLenMismatch { datas_len, data_count } => s.len() == 0 && datas_len == a.m.datas.len() && a.m.data_count == Some(data_count) && datas_len != data_count,
        _ => if s.len() == 0 { match e { DecodeModuleError::CodeFuncEntriesLenMismatch { codes_len, funcs_len } => funcs_len == a.m.funcs.len() && codes_len == 0 && funcs_len != 0, _ => false } } else { match sp_header(s) { None => false, Some((h, t)) => {
            let b = crate::xstd::io::tk(t, h.size as int);
            if !ordered(a.m, h.kind) { why_order(e, a.m, h.kind) } else { match e {
                DecodeModuleError::SectionOutOfOrder { .. } | DecodeModuleError::DuplicateSection(_) => false,
                DecodeModuleError::SectionSizeMismatch { section_kind, declared, got } => section_kind == h.kind && declared == h.size && got < h.size
                    && (match sp_section(a, h.kind, b) { None => false, Some((_, r)) => got == b.len() - r.len() }),
                DecodeModuleError::CodeFuncEntriesLenMismatch { codes_len, funcs_len } => h.kind == SectionKind::Code && funcs_len == a.m.funcs.len() && codes_len != funcs_len
                    && (match sp_list__code(b) { None => false, Some((x, _)) => codes_len == x.len() }),
                DecodeModuleError::DataCountMismatch { datas_len, data_count } => h.kind == SectionKind::Data && a.m.data_count == Some(data_count) && datas_len != data_count
                    && (match sp_list__data(b) { None => false, Some((x, _)) => datas_len == x.len() }),
                DecodeModuleError::DecodeTypeSection(x) => h.kind == SectionKind::Type && why_s_type(x, b),
                DecodeModuleError::DecodeImportSection(x) => h.kind == SectionKind::Import && why_s_import(x, b),
                DecodeModuleError::DecodeFunctionSection(x) => h.kind == SectionKind::Function && why_s_function(x, b),
                DecodeModuleError::DecodeTableSection(x) => h.kind == SectionKind::Table && why_s_table(x, b),
                DecodeModuleError::DecodeMemorySection(x) => h.kind == SectionKind::Memory && why_s_memory(x, b),
                DecodeModuleError::DecodeTagSection(x) => h.kind == SectionKind::Tag && why_s_tag(x, b),
                DecodeModuleError::DecodeGlobalSection(x) => h.kind == SectionKind::Global && why_s_global(x, b),
                DecodeModuleError::DecodeExportSection(x) => h.kind == SectionKind::Export && why_s_export(x, b),
                DecodeModuleError::DecodeElementSection(x) => h.kind == SectionKind::Element && why_s_elem(x, b),
                DecodeModuleError::DecodeCodeSection(x) => h.kind == SectionKind::Code && why_s_code(x, b),
                DecodeModuleError::DecodeDataSection(x) => h.kind == SectionKind::Data && why_s_data(x, b),
                DecodeModuleError::DecodeCustomSection(x) => h.kind == SectionKind::Custom && why_custom(x, b),
                DecodeModuleError::DecodeStartSection(x) => h.kind == SectionKind::Start && why_s_start(x, b),
                DecodeModuleError::DecodeDatacountSection(x) => h.kind == SectionKind::DataCount && why_s_datacount(x, b),
                _ => true,
            } }
        } } },
    }
}
/// the section at the start of s
pub open spec fn sp_next(a: SSt, s: Seq<u8>) -> Option<(SSt, Seq<u8>)> {
    if s.len() == 0 { None } else { match sp_header(s) { None => None, Some((h, t)) =>
        if t.len() < h.size || !ordered(a.m, h.kind) { None } else { match sp_section(a, h.kind, t.take(h.size as int)) { None => None, Some((b, u)) =>
            if u.len() != 0 { None } else { Some((note(b, h), t.skip(h.size as int))) } } } } }
}
pub open spec fn why_sections(e: DecodeModuleError, a: SSt, s: Seq<u8>) -> bool decreases s.len() {
    match sp_next(a, s) { None => why_section(e, a, s), Some((b, t)) => t.len() < s.len() && why_sections(e, b, t) }
}
pub open spec fn st_init() -> SSt { SSt { m: empty_module(), code: false, didx: false } }
#[verifier::opaque]
pub open spec fn why_module(e: DecodeModuleError, s: Seq<u8>) -> bool {
    match e { DecodeModuleError::ParsePreamble(p) => why_preamble(p, s), _ => s.len() >= 8 && why_sections(e, st_init(), s.skip(8)) }
}
