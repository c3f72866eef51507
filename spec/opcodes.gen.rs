#[verifier::opaque]
pub open spec fn sp_plain_tbl(op: u8, t0: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {
    match op {
        0x00 => Some((SInstruction::Unreachable, t0)),
        0x01 => Some((SInstruction::Nop, t0)),
        0x08 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TagIdx(n1); Some((SInstruction::Throw(a1), t1)) } },
        0x0A => Some((SInstruction::ThrowRef, t0)),
        0x0C => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::Br(a1), t1)) } },
        0x0D => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::BrIf(a1), t1)) } },
        0x0F => Some((SInstruction::Return, t0)),
        0x10 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = FuncIdx(n1); Some((SInstruction::Call(a1), t1)) } },
        0x11 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::CallIndirect(a2, a1), t2)) } } } },
        0x12 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = FuncIdx(n1); Some((SInstruction::ReturnCall(a1), t1)) } },
        0x13 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::ReturnCallIndirect(a2, a1), t2)) } } } },
        0x14 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::CallRef(a1), t1)) } },
        0x15 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ReturnCallRef(a1), t1)) } },
        0x1A => Some((SInstruction::Drop, t0)),
        0x20 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LocalIdx(n1); Some((SInstruction::LocalGet(a1), t1)) } },
        0x21 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LocalIdx(n1); Some((SInstruction::LocalSet(a1), t1)) } },
        0x22 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LocalIdx(n1); Some((SInstruction::LocalTee(a1), t1)) } },
        0x23 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = GlobalIdx(n1); Some((SInstruction::GlobalGet(a1), t1)) } },
        0x24 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = GlobalIdx(n1); Some((SInstruction::GlobalSet(a1), t1)) } },
        0x25 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableGet(a1), t1)) } },
        0x26 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableSet(a1), t1)) } },
        0x28 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load(a1), t1)) },
        0x29 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load(a1), t1)) },
        0x2A => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32Load(a1), t1)) },
        0x2B => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64Load(a1), t1)) },
        0x2C => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load8s(a1), t1)) },
        0x2D => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load8u(a1), t1)) },
        0x2E => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load16s(a1), t1)) },
        0x2F => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load16u(a1), t1)) },
        0x30 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load8s(a1), t1)) },
        0x31 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load8u(a1), t1)) },
        0x32 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load16s(a1), t1)) },
        0x33 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load16u(a1), t1)) },
        0x34 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load32s(a1), t1)) },
        0x35 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load32u(a1), t1)) },
        0x36 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Store(a1), t1)) },
        0x37 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store(a1), t1)) },
        0x38 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32Store(a1), t1)) },
        0x39 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64Store(a1), t1)) },
        0x3A => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Store8(a1), t1)) },
        0x3B => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Store16(a1), t1)) },
        0x3C => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store8(a1), t1)) },
        0x3D => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store16(a1), t1)) },
        0x3E => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store32(a1), t1)) },
        0x3F => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); Some((SInstruction::MemorySize(a1), t1)) } },
        0x40 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); Some((SInstruction::MemoryGrow(a1), t1)) } },
        0x41 => match sp_i32(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Const(a1), t1)) },
        0x42 => match sp_i64(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Const(a1), t1)) },
        0x43 => match sp_f32(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32Const(a1), t1)) },
        0x44 => match sp_f64(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64Const(a1), t1)) },
        0x45 => Some((SInstruction::I32Eqz, t0)),
        0x46 => Some((SInstruction::I32Eq, t0)),
        0x47 => Some((SInstruction::I32Ne, t0)),
        0x48 => Some((SInstruction::I32LtS, t0)),
        0x49 => Some((SInstruction::I32LtU, t0)),
        0x4A => Some((SInstruction::I32GtS, t0)),
        0x4B => Some((SInstruction::I32GtU, t0)),
        0x4C => Some((SInstruction::I32LeS, t0)),
        0x4D => Some((SInstruction::I32LeU, t0)),
        0x4E => Some((SInstruction::I32GeS, t0)),
        0x4F => Some((SInstruction::I32GeU, t0)),
        0x50 => Some((SInstruction::I64Eqz, t0)),
        0x51 => Some((SInstruction::I64Eq, t0)),
        0x52 => Some((SInstruction::I64Ne, t0)),
        0x53 => Some((SInstruction::I64LtS, t0)),
        0x54 => Some((SInstruction::I64LtU, t0)),
        0x55 => Some((SInstruction::I64GtS, t0)),
        0x56 => Some((SInstruction::I64GtU, t0)),
        0x57 => Some((SInstruction::I64LeS, t0)),
        0x58 => Some((SInstruction::I64LeU, t0)),
        0x59 => Some((SInstruction::I64GeS, t0)),
        0x5A => Some((SInstruction::I64GeU, t0)),
        0x5B => Some((SInstruction::F32Eq, t0)),
        0x5C => Some((SInstruction::F32Ne, t0)),
        0x5D => Some((SInstruction::F32Lt, t0)),
        0x5E => Some((SInstruction::F32Gt, t0)),
        0x5F => Some((SInstruction::F32Le, t0)),
        0x60 => Some((SInstruction::F32Ge, t0)),
        0x61 => Some((SInstruction::F64Eq, t0)),
        0x62 => Some((SInstruction::F64Ne, t0)),
        0x63 => Some((SInstruction::F64Lt, t0)),
        0x64 => Some((SInstruction::F64Gt, t0)),
        0x65 => Some((SInstruction::F64Le, t0)),
        0x66 => Some((SInstruction::F64Ge, t0)),
        0x67 => Some((SInstruction::I32Clz, t0)),
        0x68 => Some((SInstruction::I32Ctz, t0)),
        0x69 => Some((SInstruction::I32Popcnt, t0)),
        0x6A => Some((SInstruction::I32Add, t0)),
        0x6B => Some((SInstruction::I32Sub, t0)),
        0x6C => Some((SInstruction::I32Mul, t0)),
        0x6D => Some((SInstruction::I32DivS, t0)),
        0x6E => Some((SInstruction::I32DivU, t0)),
        0x6F => Some((SInstruction::I32RemS, t0)),
        0x70 => Some((SInstruction::I32RemU, t0)),
        0x71 => Some((SInstruction::I32And, t0)),
        0x72 => Some((SInstruction::I32Or, t0)),
        0x73 => Some((SInstruction::I32Xor, t0)),
        0x74 => Some((SInstruction::I32Shl, t0)),
        0x75 => Some((SInstruction::I32ShrS, t0)),
        0x76 => Some((SInstruction::I32ShrU, t0)),
        0x77 => Some((SInstruction::I32Rotl, t0)),
        0x78 => Some((SInstruction::I32Rotr, t0)),
        0x79 => Some((SInstruction::I64Clz, t0)),
        0x7A => Some((SInstruction::I64Ctz, t0)),
        0x7B => Some((SInstruction::I64Popcnt, t0)),
        0x7C => Some((SInstruction::I64Add, t0)),
        0x7D => Some((SInstruction::I64Sub, t0)),
        0x7E => Some((SInstruction::I64Mul, t0)),
        0x7F => Some((SInstruction::I64DivS, t0)),
        0x80 => Some((SInstruction::I64DivU, t0)),
        0x81 => Some((SInstruction::I64RemS, t0)),
        0x82 => Some((SInstruction::I64RemU, t0)),
        0x83 => Some((SInstruction::I64And, t0)),
        0x84 => Some((SInstruction::I64Or, t0)),
        0x85 => Some((SInstruction::I64Xor, t0)),
        0x86 => Some((SInstruction::I64Shl, t0)),
        0x87 => Some((SInstruction::I64ShrS, t0)),
        0x88 => Some((SInstruction::I64ShrU, t0)),
        0x89 => Some((SInstruction::I64Rotl, t0)),
        0x8A => Some((SInstruction::I64Rotr, t0)),
        0x8B => Some((SInstruction::F32Abs, t0)),
        0x8C => Some((SInstruction::F32Neg, t0)),
        0x8D => Some((SInstruction::F32Ceil, t0)),
        0x8E => Some((SInstruction::F32Floor, t0)),
        0x8F => Some((SInstruction::F32Trunc, t0)),
        0x90 => Some((SInstruction::F32Nearest, t0)),
        0x91 => Some((SInstruction::F32Sqrt, t0)),
        0x92 => Some((SInstruction::F32Add, t0)),
        0x93 => Some((SInstruction::F32Sub, t0)),
        0x94 => Some((SInstruction::F32Mul, t0)),
        0x95 => Some((SInstruction::F32Div, t0)),
        0x96 => Some((SInstruction::F32Min, t0)),
        0x97 => Some((SInstruction::F32Max, t0)),
        0x98 => Some((SInstruction::F32Copysign, t0)),
        0x99 => Some((SInstruction::F64Abs, t0)),
        0x9A => Some((SInstruction::F64Neg, t0)),
        0x9B => Some((SInstruction::F64Ceil, t0)),
        0x9C => Some((SInstruction::F64Floor, t0)),
        0x9D => Some((SInstruction::F64Trunc, t0)),
        0x9E => Some((SInstruction::F64Nearest, t0)),
        0x9F => Some((SInstruction::F64Sqrt, t0)),
        0xA0 => Some((SInstruction::F64Add, t0)),
        0xA1 => Some((SInstruction::F64Sub, t0)),
        0xA2 => Some((SInstruction::F64Mul, t0)),
        0xA3 => Some((SInstruction::F64Div, t0)),
        0xA4 => Some((SInstruction::F64Min, t0)),
        0xA5 => Some((SInstruction::F64Max, t0)),
        0xA6 => Some((SInstruction::F64Copysign, t0)),
        0xA7 => Some((SInstruction::I32WrapI64, t0)),
        0xA8 => Some((SInstruction::I32TruncF32S, t0)),
        0xA9 => Some((SInstruction::I32TruncF32U, t0)),
        0xAA => Some((SInstruction::I32TruncF64S, t0)),
        0xAB => Some((SInstruction::I32TruncF64U, t0)),
        0xAC => Some((SInstruction::I64ExtendI32S, t0)),
        0xAD => Some((SInstruction::I64ExtendI32U, t0)),
        0xAE => Some((SInstruction::I64TruncF32S, t0)),
        0xAF => Some((SInstruction::I64TruncF32U, t0)),
        0xB0 => Some((SInstruction::I64TruncF64S, t0)),
        0xB1 => Some((SInstruction::I64TruncF64U, t0)),
        0xB2 => Some((SInstruction::F32ConvertI32S, t0)),
        0xB3 => Some((SInstruction::F32ConvertI32U, t0)),
        0xB4 => Some((SInstruction::F32ConvertI64S, t0)),
        0xB5 => Some((SInstruction::F32ConvertI64U, t0)),
        0xB6 => Some((SInstruction::F32DemoteF64, t0)),
        0xB7 => Some((SInstruction::F64ConvertI32S, t0)),
        0xB8 => Some((SInstruction::F64ConvertI32U, t0)),
        0xB9 => Some((SInstruction::F64ConvertI64S, t0)),
        0xBA => Some((SInstruction::F64ConvertI64U, t0)),
        0xBB => Some((SInstruction::F64PromoteF32, t0)),
        0xBC => Some((SInstruction::I32ReinterpretF32, t0)),
        0xBD => Some((SInstruction::I64ReinterpretF64, t0)),
        0xBE => Some((SInstruction::F32ReinterpretI32, t0)),
        0xBF => Some((SInstruction::F64ReinterpretI64, t0)),
        0xC0 => Some((SInstruction::I32Extend8S, t0)),
        0xC1 => Some((SInstruction::I32Extend16S, t0)),
        0xC2 => Some((SInstruction::I64Extend8S, t0)),
        0xC3 => Some((SInstruction::I64Extend16S, t0)),
        0xC4 => Some((SInstruction::I64Extend32S, t0)),
        0xD0 => match sp_heaptype(t0) { None => None, Some((a1, t1)) => Some((SInstruction::RefNull(a1), t1)) },
        0xD1 => Some((SInstruction::RefIsNull, t0)),
        0xD2 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = FuncIdx(n1); Some((SInstruction::RefFunc(a1), t1)) } },
        0xD3 => Some((SInstruction::RefEq, t0)),
        0xD4 => Some((SInstruction::RefAsNonNull, t0)),
        0xD5 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::BrOnNull(a1), t1)) } },
        0xD6 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::BrOnNonNull(a1), t1)) } },
        _ => None,
    }
}
pub open spec fn sp_plain_known(op: u8) -> bool { 0 <= op <= 1 || 8 <= op <= 8 || 10 <= op <= 10 || 12 <= op <= 13 || 15 <= op <= 21 || 26 <= op <= 26 || 32 <= op <= 38 || 40 <= op <= 196 || 208 <= op <= 214 }
pub broadcast proof fn sp_plain_unknown(op: u8, t0: Seq<u8>) ensures sp_plain_known(op) || (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub mod l_sp_plain_0 { use super::*;
pub broadcast proof fn sp_plain_0x00(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x00, t0) == (Some((SInstruction::Unreachable, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x01(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x01, t0) == (Some((SInstruction::Nop, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x08(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x08, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TagIdx(n1); Some((SInstruction::Throw(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x0A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x0A, t0) == (Some((SInstruction::ThrowRef, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x0C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x0C, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::Br(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x0D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x0D, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::BrIf(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x0F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x0F, t0) == (Some((SInstruction::Return, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x10(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x10, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = FuncIdx(n1); Some((SInstruction::Call(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x11(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x11, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::CallIndirect(a2, a1), t2)) } } } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x12(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x12, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = FuncIdx(n1); Some((SInstruction::ReturnCall(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x13(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x13, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::ReturnCallIndirect(a2, a1), t2)) } } } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x14(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x14, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::CallRef(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x15(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x15, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ReturnCallRef(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x1A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x1A, t0) == (Some((SInstruction::Drop, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x20(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x20, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LocalIdx(n1); Some((SInstruction::LocalGet(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x21(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x21, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LocalIdx(n1); Some((SInstruction::LocalSet(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x22(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x22, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LocalIdx(n1); Some((SInstruction::LocalTee(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x23(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x23, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = GlobalIdx(n1); Some((SInstruction::GlobalGet(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x24(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x24, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = GlobalIdx(n1); Some((SInstruction::GlobalSet(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x25(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x25, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableGet(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x26(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x26, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableSet(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x28(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x28, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x29(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x29, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x2A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x2A, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32Load(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x2B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x2B, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64Load(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x2C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x2C, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load8s(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x2D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x2D, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load8u(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x2E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x2E, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load16s(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x2F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x2F, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Load16u(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x30(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x30, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load8s(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x31(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x31, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load8u(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x32(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x32, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load16s(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x33(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x33, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load16u(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x34(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x34, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load32s(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x35(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x35, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Load32u(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x36(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x36, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Store(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x37(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x37, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x38(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x38, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32Store(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x39(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x39, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64Store(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x3A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x3A, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Store8(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x3B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x3B, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Store16(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x3C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x3C, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store8(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x3D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x3D, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store16(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x3E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x3E, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Store32(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x3F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x3F, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); Some((SInstruction::MemorySize(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x40(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x40, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); Some((SInstruction::MemoryGrow(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x41(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x41, t0) == (match sp_i32(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32Const(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x42(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x42, t0) == (match sp_i64(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64Const(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x43(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x43, t0) == (match sp_f32(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32Const(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x44(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x44, t0) == (match sp_f64(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64Const(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x45(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x45, t0) == (Some((SInstruction::I32Eqz, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x46(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x46, t0) == (Some((SInstruction::I32Eq, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x47(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x47, t0) == (Some((SInstruction::I32Ne, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x48(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x48, t0) == (Some((SInstruction::I32LtS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x49(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x49, t0) == (Some((SInstruction::I32LtU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x4A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x4A, t0) == (Some((SInstruction::I32GtS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x4B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x4B, t0) == (Some((SInstruction::I32GtU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x4C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x4C, t0) == (Some((SInstruction::I32LeS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x4D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x4D, t0) == (Some((SInstruction::I32LeU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x4E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x4E, t0) == (Some((SInstruction::I32GeS, t0))) { reveal(sp_plain_tbl); }
}
pub use l_sp_plain_0::*;
pub mod l_sp_plain_60 { use super::*;
pub broadcast proof fn sp_plain_0x4F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x4F, t0) == (Some((SInstruction::I32GeU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x50(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x50, t0) == (Some((SInstruction::I64Eqz, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x51(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x51, t0) == (Some((SInstruction::I64Eq, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x52(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x52, t0) == (Some((SInstruction::I64Ne, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x53(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x53, t0) == (Some((SInstruction::I64LtS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x54(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x54, t0) == (Some((SInstruction::I64LtU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x55(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x55, t0) == (Some((SInstruction::I64GtS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x56(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x56, t0) == (Some((SInstruction::I64GtU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x57(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x57, t0) == (Some((SInstruction::I64LeS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x58(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x58, t0) == (Some((SInstruction::I64LeU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x59(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x59, t0) == (Some((SInstruction::I64GeS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x5A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x5A, t0) == (Some((SInstruction::I64GeU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x5B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x5B, t0) == (Some((SInstruction::F32Eq, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x5C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x5C, t0) == (Some((SInstruction::F32Ne, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x5D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x5D, t0) == (Some((SInstruction::F32Lt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x5E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x5E, t0) == (Some((SInstruction::F32Gt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x5F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x5F, t0) == (Some((SInstruction::F32Le, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x60(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x60, t0) == (Some((SInstruction::F32Ge, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x61(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x61, t0) == (Some((SInstruction::F64Eq, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x62(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x62, t0) == (Some((SInstruction::F64Ne, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x63(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x63, t0) == (Some((SInstruction::F64Lt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x64(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x64, t0) == (Some((SInstruction::F64Gt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x65(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x65, t0) == (Some((SInstruction::F64Le, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x66(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x66, t0) == (Some((SInstruction::F64Ge, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x67(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x67, t0) == (Some((SInstruction::I32Clz, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x68(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x68, t0) == (Some((SInstruction::I32Ctz, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x69(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x69, t0) == (Some((SInstruction::I32Popcnt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x6A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x6A, t0) == (Some((SInstruction::I32Add, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x6B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x6B, t0) == (Some((SInstruction::I32Sub, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x6C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x6C, t0) == (Some((SInstruction::I32Mul, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x6D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x6D, t0) == (Some((SInstruction::I32DivS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x6E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x6E, t0) == (Some((SInstruction::I32DivU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x6F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x6F, t0) == (Some((SInstruction::I32RemS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x70(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x70, t0) == (Some((SInstruction::I32RemU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x71(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x71, t0) == (Some((SInstruction::I32And, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x72(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x72, t0) == (Some((SInstruction::I32Or, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x73(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x73, t0) == (Some((SInstruction::I32Xor, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x74(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x74, t0) == (Some((SInstruction::I32Shl, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x75(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x75, t0) == (Some((SInstruction::I32ShrS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x76(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x76, t0) == (Some((SInstruction::I32ShrU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x77(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x77, t0) == (Some((SInstruction::I32Rotl, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x78(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x78, t0) == (Some((SInstruction::I32Rotr, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x79(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x79, t0) == (Some((SInstruction::I64Clz, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x7A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x7A, t0) == (Some((SInstruction::I64Ctz, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x7B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x7B, t0) == (Some((SInstruction::I64Popcnt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x7C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x7C, t0) == (Some((SInstruction::I64Add, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x7D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x7D, t0) == (Some((SInstruction::I64Sub, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x7E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x7E, t0) == (Some((SInstruction::I64Mul, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x7F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x7F, t0) == (Some((SInstruction::I64DivS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x80(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x80, t0) == (Some((SInstruction::I64DivU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x81(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x81, t0) == (Some((SInstruction::I64RemS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x82(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x82, t0) == (Some((SInstruction::I64RemU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x83(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x83, t0) == (Some((SInstruction::I64And, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x84(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x84, t0) == (Some((SInstruction::I64Or, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x85(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x85, t0) == (Some((SInstruction::I64Xor, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x86(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x86, t0) == (Some((SInstruction::I64Shl, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x87(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x87, t0) == (Some((SInstruction::I64ShrS, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x88(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x88, t0) == (Some((SInstruction::I64ShrU, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x89(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x89, t0) == (Some((SInstruction::I64Rotl, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x8A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x8A, t0) == (Some((SInstruction::I64Rotr, t0))) { reveal(sp_plain_tbl); }
}
pub use l_sp_plain_60::*;
pub mod l_sp_plain_120 { use super::*;
pub broadcast proof fn sp_plain_0x8B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x8B, t0) == (Some((SInstruction::F32Abs, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x8C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x8C, t0) == (Some((SInstruction::F32Neg, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x8D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x8D, t0) == (Some((SInstruction::F32Ceil, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x8E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x8E, t0) == (Some((SInstruction::F32Floor, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x8F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x8F, t0) == (Some((SInstruction::F32Trunc, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x90(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x90, t0) == (Some((SInstruction::F32Nearest, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x91(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x91, t0) == (Some((SInstruction::F32Sqrt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x92(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x92, t0) == (Some((SInstruction::F32Add, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x93(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x93, t0) == (Some((SInstruction::F32Sub, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x94(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x94, t0) == (Some((SInstruction::F32Mul, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x95(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x95, t0) == (Some((SInstruction::F32Div, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x96(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x96, t0) == (Some((SInstruction::F32Min, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x97(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x97, t0) == (Some((SInstruction::F32Max, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x98(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x98, t0) == (Some((SInstruction::F32Copysign, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x99(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x99, t0) == (Some((SInstruction::F64Abs, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x9A(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x9A, t0) == (Some((SInstruction::F64Neg, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x9B(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x9B, t0) == (Some((SInstruction::F64Ceil, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x9C(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x9C, t0) == (Some((SInstruction::F64Floor, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x9D(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x9D, t0) == (Some((SInstruction::F64Trunc, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x9E(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x9E, t0) == (Some((SInstruction::F64Nearest, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0x9F(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0x9F, t0) == (Some((SInstruction::F64Sqrt, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA0(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA0, t0) == (Some((SInstruction::F64Add, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA1(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA1, t0) == (Some((SInstruction::F64Sub, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA2(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA2, t0) == (Some((SInstruction::F64Mul, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA3(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA3, t0) == (Some((SInstruction::F64Div, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA4(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA4, t0) == (Some((SInstruction::F64Min, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA5(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA5, t0) == (Some((SInstruction::F64Max, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA6(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA6, t0) == (Some((SInstruction::F64Copysign, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA7(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA7, t0) == (Some((SInstruction::I32WrapI64, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA8(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA8, t0) == (Some((SInstruction::I32TruncF32S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xA9(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xA9, t0) == (Some((SInstruction::I32TruncF32U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xAA(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xAA, t0) == (Some((SInstruction::I32TruncF64S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xAB(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xAB, t0) == (Some((SInstruction::I32TruncF64U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xAC(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xAC, t0) == (Some((SInstruction::I64ExtendI32S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xAD(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xAD, t0) == (Some((SInstruction::I64ExtendI32U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xAE(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xAE, t0) == (Some((SInstruction::I64TruncF32S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xAF(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xAF, t0) == (Some((SInstruction::I64TruncF32U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB0(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB0, t0) == (Some((SInstruction::I64TruncF64S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB1(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB1, t0) == (Some((SInstruction::I64TruncF64U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB2(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB2, t0) == (Some((SInstruction::F32ConvertI32S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB3(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB3, t0) == (Some((SInstruction::F32ConvertI32U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB4(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB4, t0) == (Some((SInstruction::F32ConvertI64S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB5(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB5, t0) == (Some((SInstruction::F32ConvertI64U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB6(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB6, t0) == (Some((SInstruction::F32DemoteF64, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB7(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB7, t0) == (Some((SInstruction::F64ConvertI32S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB8(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB8, t0) == (Some((SInstruction::F64ConvertI32U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xB9(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xB9, t0) == (Some((SInstruction::F64ConvertI64S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xBA(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xBA, t0) == (Some((SInstruction::F64ConvertI64U, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xBB(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xBB, t0) == (Some((SInstruction::F64PromoteF32, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xBC(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xBC, t0) == (Some((SInstruction::I32ReinterpretF32, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xBD(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xBD, t0) == (Some((SInstruction::I64ReinterpretF64, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xBE(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xBE, t0) == (Some((SInstruction::F32ReinterpretI32, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xBF(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xBF, t0) == (Some((SInstruction::F64ReinterpretI64, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xC0(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xC0, t0) == (Some((SInstruction::I32Extend8S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xC1(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xC1, t0) == (Some((SInstruction::I32Extend16S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xC2(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xC2, t0) == (Some((SInstruction::I64Extend8S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xC3(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xC3, t0) == (Some((SInstruction::I64Extend16S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xC4(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xC4, t0) == (Some((SInstruction::I64Extend32S, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xD0(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD0, t0) == (match sp_heaptype(t0) { None => None, Some((a1, t1)) => Some((SInstruction::RefNull(a1), t1)) }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xD1(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD1, t0) == (Some((SInstruction::RefIsNull, t0))) { reveal(sp_plain_tbl); }
}
pub use l_sp_plain_120::*;
pub mod l_sp_plain_180 { use super::*;
pub broadcast proof fn sp_plain_0xD2(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD2, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = FuncIdx(n1); Some((SInstruction::RefFunc(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xD3(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD3, t0) == (Some((SInstruction::RefEq, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xD4(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD4, t0) == (Some((SInstruction::RefAsNonNull, t0))) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xD5(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD5, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::BrOnNull(a1), t1)) } }) { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_0xD6(t0: Seq<u8>) ensures #[trigger] sp_plain_tbl(0xD6, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = LabelIdx(n1); Some((SInstruction::BrOnNonNull(a1), t1)) } }) { reveal(sp_plain_tbl); }
}
pub use l_sp_plain_180::*;
pub broadcast proof fn sp_plain_needs_tag(op: u8, t0: Seq<u8>) ensures ((8 <= op <= 8) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_label(op: u8, t0: Seq<u8>) ensures ((12 <= op <= 13 || 213 <= op <= 214) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_func(op: u8, t0: Seq<u8>) ensures ((16 <= op <= 16 || 18 <= op <= 18 || 210 <= op <= 210) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_type(op: u8, t0: Seq<u8>) ensures ((17 <= op <= 17 || 19 <= op <= 21) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_local(op: u8, t0: Seq<u8>) ensures ((32 <= op <= 34) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_global(op: u8, t0: Seq<u8>) ensures ((35 <= op <= 36) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_table(op: u8, t0: Seq<u8>) ensures ((37 <= op <= 38) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_memarg(op: u8, t0: Seq<u8>) ensures ((40 <= op <= 62) && sp_memarg(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_mem(op: u8, t0: Seq<u8>) ensures ((63 <= op <= 64) && sp_u32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_i32(op: u8, t0: Seq<u8>) ensures ((65 <= op <= 65) && sp_i32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_i64(op: u8, t0: Seq<u8>) ensures ((66 <= op <= 66) && sp_i64(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_f32(op: u8, t0: Seq<u8>) ensures ((67 <= op <= 67) && sp_f32(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_f64(op: u8, t0: Seq<u8>) ensures ((68 <= op <= 68) && sp_f64(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
pub broadcast proof fn sp_plain_needs_heaptype(op: u8, t0: Seq<u8>) ensures ((208 <= op <= 208) && sp_heaptype(t0) is None) ==> (#[trigger] sp_plain_tbl(op, t0)) is None { reveal(sp_plain_tbl); }
#[verifier::opaque]
pub open spec fn sp_fb_tbl(op: u32, t0: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {
    match op {
        0 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::StructNew(a1), t1)) } },
        1 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::StructNewDefault(a1), t1)) } },
        2 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructGet(a1, a2), t2)) } } },
        3 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructGetS(a1, a2), t2)) } } },
        4 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructGetU(a1, a2), t2)) } } },
        5 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructSet(a1, a2), t2)) } } },
        6 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayNew(a1), t1)) } },
        7 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayNewDefault(a1), t1)) } },
        8 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::ArrayNewFixed(a1, a2), t2)) } } },
        9 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = DataIdx(n2); Some((SInstruction::ArrayNewData(a1, a2), t2)) } } } },
        10 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = ElemIdx(n2); Some((SInstruction::ArrayNewElem(a1, a2), t2)) } } } },
        11 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayGet(a1), t1)) } },
        12 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayGetS(a1), t1)) } },
        13 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayGetU(a1), t1)) } },
        14 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArraySet(a1), t1)) } },
        15 => Some((SInstruction::ArrayLen, t0)),
        16 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayFill(a1), t1)) } },
        17 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TypeIdx(n2); Some((SInstruction::ArrayCopy(a1, a2), t2)) } } } },
        18 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = DataIdx(n2); Some((SInstruction::ArrayInitData(a1, a2), t2)) } } } },
        19 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = ElemIdx(n2); Some((SInstruction::ArrayInitElem(a1, a2), t2)) } } } },
        26 => Some((SInstruction::AnyConvertExtern, t0)),
        27 => Some((SInstruction::ExternConvertAny, t0)),
        28 => Some((SInstruction::RefI31, t0)),
        29 => Some((SInstruction::I31GetS, t0)),
        30 => Some((SInstruction::I31GetU, t0)),
        _ => None,
    }
}
pub open spec fn sp_fb_known(op: u32) -> bool { 0 <= op <= 19 || 26 <= op <= 30 }
pub broadcast proof fn sp_fb_unknown(op: u32, t0: Seq<u8>) ensures sp_fb_known(op) || (#[trigger] sp_fb_tbl(op, t0)) is None { reveal(sp_fb_tbl); }
pub mod l_sp_fb_0 { use super::*;
pub broadcast proof fn sp_fb_0(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(0, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::StructNew(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_1(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(1, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::StructNewDefault(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_2(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(2, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructGet(a1, a2), t2)) } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_3(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(3, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructGetS(a1, a2), t2)) } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_4(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(4, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructGetU(a1, a2), t2)) } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_5(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(5, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::StructSet(a1, a2), t2)) } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_6(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(6, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayNew(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_7(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(7, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayNewDefault(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_8(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(8, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((a2, t2)) => Some((SInstruction::ArrayNewFixed(a1, a2), t2)) } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_9(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(9, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = DataIdx(n2); Some((SInstruction::ArrayNewData(a1, a2), t2)) } } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_10(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(10, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = ElemIdx(n2); Some((SInstruction::ArrayNewElem(a1, a2), t2)) } } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_11(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(11, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayGet(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_12(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(12, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayGetS(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_13(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(13, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayGetU(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_14(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(14, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArraySet(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_15(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(15, t0) == (Some((SInstruction::ArrayLen, t0))) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_16(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(16, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); Some((SInstruction::ArrayFill(a1), t1)) } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_17(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(17, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TypeIdx(n2); Some((SInstruction::ArrayCopy(a1, a2), t2)) } } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_18(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(18, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = DataIdx(n2); Some((SInstruction::ArrayInitData(a1, a2), t2)) } } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_19(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(19, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TypeIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = ElemIdx(n2); Some((SInstruction::ArrayInitElem(a1, a2), t2)) } } } }) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_26(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(26, t0) == (Some((SInstruction::AnyConvertExtern, t0))) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_27(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(27, t0) == (Some((SInstruction::ExternConvertAny, t0))) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_28(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(28, t0) == (Some((SInstruction::RefI31, t0))) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_29(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(29, t0) == (Some((SInstruction::I31GetS, t0))) { reveal(sp_fb_tbl); }
pub broadcast proof fn sp_fb_30(t0: Seq<u8>) ensures #[trigger] sp_fb_tbl(30, t0) == (Some((SInstruction::I31GetU, t0))) { reveal(sp_fb_tbl); }
}
pub use l_sp_fb_0::*;
pub broadcast proof fn sp_fb_needs_type(op: u32, t0: Seq<u8>) ensures ((0 <= op <= 14 || 16 <= op <= 19) && sp_u32(t0) is None) ==> (#[trigger] sp_fb_tbl(op, t0)) is None { reveal(sp_fb_tbl); }
#[verifier::opaque]
pub open spec fn sp_fc_tbl(op: u32, t0: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {
    match op {
        0 => Some((SInstruction::I32TruncSatF32S, t0)),
        1 => Some((SInstruction::I32TruncSatF32U, t0)),
        2 => Some((SInstruction::I32TruncSatF64S, t0)),
        3 => Some((SInstruction::I32TruncSatF64U, t0)),
        4 => Some((SInstruction::I64TruncSatF32S, t0)),
        5 => Some((SInstruction::I64TruncSatF32U, t0)),
        6 => Some((SInstruction::I64TruncSatF64S, t0)),
        7 => Some((SInstruction::I64TruncSatF64U, t0)),
        8 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = DataIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = MemIdx(n2); Some((SInstruction::MemoryInit(a2, a1), t2)) } } } },
        9 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = DataIdx(n1); Some((SInstruction::DataDrop(a1), t1)) } },
        10 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = MemIdx(n2); Some((SInstruction::MemoryCopy(a1, a2), t2)) } } } },
        11 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); Some((SInstruction::MemoryFill(a1), t1)) } },
        12 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = ElemIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::TableInit(a2, a1), t2)) } } } },
        13 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = ElemIdx(n1); Some((SInstruction::ElemDrop(a1), t1)) } },
        14 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::TableCopy(a1, a2), t2)) } } } },
        15 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableGrow(a1), t1)) } },
        16 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableSize(a1), t1)) } },
        17 => match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableFill(a1), t1)) } },
        _ => None,
    }
}
pub open spec fn sp_fc_known(op: u32) -> bool { 0 <= op <= 17 }
pub broadcast proof fn sp_fc_unknown(op: u32, t0: Seq<u8>) ensures sp_fc_known(op) || (#[trigger] sp_fc_tbl(op, t0)) is None { reveal(sp_fc_tbl); }
pub mod l_sp_fc_0 { use super::*;
pub broadcast proof fn sp_fc_0(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(0, t0) == (Some((SInstruction::I32TruncSatF32S, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_1(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(1, t0) == (Some((SInstruction::I32TruncSatF32U, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_2(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(2, t0) == (Some((SInstruction::I32TruncSatF64S, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_3(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(3, t0) == (Some((SInstruction::I32TruncSatF64U, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_4(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(4, t0) == (Some((SInstruction::I64TruncSatF32S, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_5(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(5, t0) == (Some((SInstruction::I64TruncSatF32U, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_6(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(6, t0) == (Some((SInstruction::I64TruncSatF64S, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_7(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(7, t0) == (Some((SInstruction::I64TruncSatF64U, t0))) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_8(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(8, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = DataIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = MemIdx(n2); Some((SInstruction::MemoryInit(a2, a1), t2)) } } } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_9(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(9, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = DataIdx(n1); Some((SInstruction::DataDrop(a1), t1)) } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_10(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(10, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = MemIdx(n2); Some((SInstruction::MemoryCopy(a1, a2), t2)) } } } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_11(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(11, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = MemIdx(n1); Some((SInstruction::MemoryFill(a1), t1)) } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_12(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(12, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = ElemIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::TableInit(a2, a1), t2)) } } } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_13(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(13, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = ElemIdx(n1); Some((SInstruction::ElemDrop(a1), t1)) } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_14(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(14, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); match sp_u32(t1) { None => None, Some((n2, t2)) => { let a2 = TableIdx(n2); Some((SInstruction::TableCopy(a1, a2), t2)) } } } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_15(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(15, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableGrow(a1), t1)) } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_16(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(16, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableSize(a1), t1)) } }) { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_17(t0: Seq<u8>) ensures #[trigger] sp_fc_tbl(17, t0) == (match sp_u32(t0) { None => None, Some((n1, t1)) => { let a1 = TableIdx(n1); Some((SInstruction::TableFill(a1), t1)) } }) { reveal(sp_fc_tbl); }
}
pub use l_sp_fc_0::*;
pub broadcast proof fn sp_fc_needs_data(op: u32, t0: Seq<u8>) ensures ((8 <= op <= 9) && sp_u32(t0) is None) ==> (#[trigger] sp_fc_tbl(op, t0)) is None { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_needs_mem(op: u32, t0: Seq<u8>) ensures ((10 <= op <= 11) && sp_u32(t0) is None) ==> (#[trigger] sp_fc_tbl(op, t0)) is None { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_needs_elem(op: u32, t0: Seq<u8>) ensures ((12 <= op <= 13) && sp_u32(t0) is None) ==> (#[trigger] sp_fc_tbl(op, t0)) is None { reveal(sp_fc_tbl); }
pub broadcast proof fn sp_fc_needs_table(op: u32, t0: Seq<u8>) ensures ((14 <= op <= 17) && sp_u32(t0) is None) ==> (#[trigger] sp_fc_tbl(op, t0)) is None { reveal(sp_fc_tbl); }
#[verifier::opaque]
pub open spec fn sp_fd_tbl(op: u32, t0: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {
    match op {
        0 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load(a1), t1)) },
        1 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load8x8S(a1), t1)) },
        2 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load8x8U(a1), t1)) },
        3 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load16x4S(a1), t1)) },
        4 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load16x4U(a1), t1)) },
        5 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32x2S(a1), t1)) },
        6 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32x2U(a1), t1)) },
        7 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load8Splat(a1), t1)) },
        8 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load16Splat(a1), t1)) },
        9 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32Splat(a1), t1)) },
        10 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load64Splat(a1), t1)) },
        11 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Store(a1), t1)) },
        12 => match sp_b16(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Const(a1), t1)) },
        13 => match sp_lane16(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16Shuffle(a1), t1)) },
        14 => Some((SInstruction::I8x16Swizzle, t0)),
        15 => Some((SInstruction::I8x16Splat, t0)),
        16 => Some((SInstruction::I16x8Splat, t0)),
        17 => Some((SInstruction::I32x4Splat, t0)),
        18 => Some((SInstruction::I64x2Splat, t0)),
        19 => Some((SInstruction::F32x4Splat, t0)),
        20 => Some((SInstruction::F64x2Splat, t0)),
        21 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16ExtractLaneS(a1), t1)) },
        22 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16ExtractLaneU(a1), t1)) },
        23 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16ReplaceLane(a1), t1)) },
        24 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I16x8ExtractLaneS(a1), t1)) },
        25 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I16x8ExtractLaneU(a1), t1)) },
        26 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I16x8ReplaceLane(a1), t1)) },
        27 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32x4ExtractLane(a1), t1)) },
        28 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32x4ReplaceLane(a1), t1)) },
        29 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64x2ExtractLane(a1), t1)) },
        30 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64x2ReplaceLane(a1), t1)) },
        31 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32x4ExtractLane(a1), t1)) },
        32 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32x4ReplaceLane(a1), t1)) },
        33 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64x2ExtractLane(a1), t1)) },
        34 => match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64x2ReplaceLane(a1), t1)) },
        35 => Some((SInstruction::I8x16Eq, t0)),
        36 => Some((SInstruction::I8x16Ne, t0)),
        37 => Some((SInstruction::I8x16LtS, t0)),
        38 => Some((SInstruction::I8x16LtU, t0)),
        39 => Some((SInstruction::I8x16GtS, t0)),
        40 => Some((SInstruction::I8x16GtU, t0)),
        41 => Some((SInstruction::I8x16LeS, t0)),
        42 => Some((SInstruction::I8x16LeU, t0)),
        43 => Some((SInstruction::I8x16GeS, t0)),
        44 => Some((SInstruction::I8x16GeU, t0)),
        45 => Some((SInstruction::I16x8Eq, t0)),
        46 => Some((SInstruction::I16x8Ne, t0)),
        47 => Some((SInstruction::I16x8LtS, t0)),
        48 => Some((SInstruction::I16x8LtU, t0)),
        49 => Some((SInstruction::I16x8GtS, t0)),
        50 => Some((SInstruction::I16x8GtU, t0)),
        51 => Some((SInstruction::I16x8LeS, t0)),
        52 => Some((SInstruction::I16x8LeU, t0)),
        53 => Some((SInstruction::I16x8GeS, t0)),
        54 => Some((SInstruction::I16x8GeU, t0)),
        55 => Some((SInstruction::I32x4Eq, t0)),
        56 => Some((SInstruction::I32x4Ne, t0)),
        57 => Some((SInstruction::I32x4LtS, t0)),
        58 => Some((SInstruction::I32x4LtU, t0)),
        59 => Some((SInstruction::I32x4GtS, t0)),
        60 => Some((SInstruction::I32x4GtU, t0)),
        61 => Some((SInstruction::I32x4LeS, t0)),
        62 => Some((SInstruction::I32x4LeU, t0)),
        63 => Some((SInstruction::I32x4GeS, t0)),
        64 => Some((SInstruction::I32x4GeU, t0)),
        65 => Some((SInstruction::F32x4Eq, t0)),
        66 => Some((SInstruction::F32x4Ne, t0)),
        67 => Some((SInstruction::F32x4Lt, t0)),
        68 => Some((SInstruction::F32x4Gt, t0)),
        69 => Some((SInstruction::F32x4Le, t0)),
        70 => Some((SInstruction::F32x4Ge, t0)),
        71 => Some((SInstruction::F64x2Eq, t0)),
        72 => Some((SInstruction::F64x2Ne, t0)),
        73 => Some((SInstruction::F64x2Lt, t0)),
        74 => Some((SInstruction::F64x2Gt, t0)),
        75 => Some((SInstruction::F64x2Le, t0)),
        76 => Some((SInstruction::F64x2Ge, t0)),
        77 => Some((SInstruction::V128Not, t0)),
        78 => Some((SInstruction::V128And, t0)),
        79 => Some((SInstruction::V128AndNot, t0)),
        80 => Some((SInstruction::V128Or, t0)),
        81 => Some((SInstruction::V128Xor, t0)),
        82 => Some((SInstruction::V128Bitselect, t0)),
        83 => Some((SInstruction::V128AnyTrue, t0)),
        84 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load8Lane(a1, a2), t2)) } },
        85 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load16Lane(a1, a2), t2)) } },
        86 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load32Lane(a1, a2), t2)) } },
        87 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load64Lane(a1, a2), t2)) } },
        88 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store8Lane(a1, a2), t2)) } },
        89 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store16Lane(a1, a2), t2)) } },
        90 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store32Lane(a1, a2), t2)) } },
        91 => match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store64Lane(a1, a2), t2)) } },
        92 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32Zero(a1), t1)) },
        93 => match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load64Zero(a1), t1)) },
        94 => Some((SInstruction::F32x4DemoteF64x2Zero, t0)),
        95 => Some((SInstruction::F64x2PromoteLowF32x4, t0)),
        96 => Some((SInstruction::I8x16Abs, t0)),
        97 => Some((SInstruction::I8x16Neg, t0)),
        98 => Some((SInstruction::I8x16Popcnt, t0)),
        99 => Some((SInstruction::I8x16AllTrue, t0)),
        100 => Some((SInstruction::I8x16Bitmask, t0)),
        101 => Some((SInstruction::I8x16NarrowI16x8S, t0)),
        102 => Some((SInstruction::I8x16NarrowI16x8U, t0)),
        103 => Some((SInstruction::F32x4Ceil, t0)),
        104 => Some((SInstruction::F32x4Floor, t0)),
        105 => Some((SInstruction::F32x4Trunc, t0)),
        106 => Some((SInstruction::F32x4Nearest, t0)),
        107 => Some((SInstruction::I8x16Shl, t0)),
        108 => Some((SInstruction::I8x16ShrS, t0)),
        109 => Some((SInstruction::I8x16ShrU, t0)),
        110 => Some((SInstruction::I8x16Add, t0)),
        111 => Some((SInstruction::I8x16AddSatS, t0)),
        112 => Some((SInstruction::I8x16AddSatU, t0)),
        113 => Some((SInstruction::I8x16Sub, t0)),
        114 => Some((SInstruction::I8x16SubSatS, t0)),
        115 => Some((SInstruction::I8x16SubSatU, t0)),
        116 => Some((SInstruction::F64x2Ceil, t0)),
        117 => Some((SInstruction::F64x2Floor, t0)),
        118 => Some((SInstruction::I8x16MinS, t0)),
        119 => Some((SInstruction::I8x16MinU, t0)),
        120 => Some((SInstruction::I8x16MaxS, t0)),
        121 => Some((SInstruction::I8x16MaxU, t0)),
        122 => Some((SInstruction::F64x2Trunc, t0)),
        123 => Some((SInstruction::I8x16AvgrU, t0)),
        124 => Some((SInstruction::I16x8ExtaddPairwiseI8x16S, t0)),
        125 => Some((SInstruction::I16x8ExtaddPairwiseI8x16U, t0)),
        126 => Some((SInstruction::I32x4ExtaddPairwiseI16x8S, t0)),
        127 => Some((SInstruction::I32x4ExtaddPairwiseI16x8U, t0)),
        128 => Some((SInstruction::I16x8Abs, t0)),
        129 => Some((SInstruction::I16x8Neg, t0)),
        130 => Some((SInstruction::I16x8Q15MulrSatS, t0)),
        131 => Some((SInstruction::I16x8AllTrue, t0)),
        132 => Some((SInstruction::I16x8Bitmask, t0)),
        133 => Some((SInstruction::I16x8NarrowI32x4S, t0)),
        134 => Some((SInstruction::I16x8NarrowI32x4U, t0)),
        135 => Some((SInstruction::I16x8ExtendLowI8x16S, t0)),
        136 => Some((SInstruction::I16x8ExtendHighI8x16S, t0)),
        137 => Some((SInstruction::I16x8ExtendLowI8x16U, t0)),
        138 => Some((SInstruction::I16x8ExtendHighI8x16U, t0)),
        139 => Some((SInstruction::I16x8Shl, t0)),
        140 => Some((SInstruction::I16x8ShrS, t0)),
        141 => Some((SInstruction::I16x8ShrU, t0)),
        142 => Some((SInstruction::I16x8Add, t0)),
        143 => Some((SInstruction::I16x8AddSatS, t0)),
        144 => Some((SInstruction::I16x8AddSatU, t0)),
        145 => Some((SInstruction::I16x8Sub, t0)),
        146 => Some((SInstruction::I16x8SubSatS, t0)),
        147 => Some((SInstruction::I16x8SubSatU, t0)),
        148 => Some((SInstruction::F64x2Nearest, t0)),
        149 => Some((SInstruction::I16x8Mul, t0)),
        150 => Some((SInstruction::I16x8MinS, t0)),
        151 => Some((SInstruction::I16x8MinU, t0)),
        152 => Some((SInstruction::I16x8MaxS, t0)),
        153 => Some((SInstruction::I16x8MaxU, t0)),
        155 => Some((SInstruction::I16x8AvgrU, t0)),
        156 => Some((SInstruction::I16x8ExtmulLowI8x16S, t0)),
        157 => Some((SInstruction::I16x8ExtmulHighI8x16S, t0)),
        158 => Some((SInstruction::I16x8ExtmulLowI8x16U, t0)),
        159 => Some((SInstruction::I16x8ExtmulHighI8x16U, t0)),
        160 => Some((SInstruction::I32x4Abs, t0)),
        161 => Some((SInstruction::I32x4Neg, t0)),
        163 => Some((SInstruction::I32x4AllTrue, t0)),
        164 => Some((SInstruction::I32x4Bitmask, t0)),
        167 => Some((SInstruction::I32x4ExtendLowI16x8S, t0)),
        168 => Some((SInstruction::I32x4ExtendHighI16x8S, t0)),
        169 => Some((SInstruction::I32x4ExtendLowI16x8U, t0)),
        170 => Some((SInstruction::I32x4ExtendHighI16x8U, t0)),
        171 => Some((SInstruction::I32x4Shl, t0)),
        172 => Some((SInstruction::I32x4ShrS, t0)),
        173 => Some((SInstruction::I32x4ShrU, t0)),
        174 => Some((SInstruction::I32x4Add, t0)),
        177 => Some((SInstruction::I32x4Sub, t0)),
        181 => Some((SInstruction::I32x4Mul, t0)),
        182 => Some((SInstruction::I32x4MinS, t0)),
        183 => Some((SInstruction::I32x4MinU, t0)),
        184 => Some((SInstruction::I32x4MaxS, t0)),
        185 => Some((SInstruction::I32x4MaxU, t0)),
        186 => Some((SInstruction::I32x4DotI16x8S, t0)),
        188 => Some((SInstruction::I32x4ExtmulLowI16x8S, t0)),
        189 => Some((SInstruction::I32x4ExtmulHighI16x8S, t0)),
        190 => Some((SInstruction::I32x4ExtmulLowI16x8U, t0)),
        191 => Some((SInstruction::I32x4ExtmulHighI16x8U, t0)),
        192 => Some((SInstruction::I64x2Abs, t0)),
        193 => Some((SInstruction::I64x2Neg, t0)),
        195 => Some((SInstruction::I64x2AllTrue, t0)),
        196 => Some((SInstruction::I64x2Bitmask, t0)),
        199 => Some((SInstruction::I64x2ExtendLowI32x4S, t0)),
        200 => Some((SInstruction::I64x2ExtendHighI32x4S, t0)),
        201 => Some((SInstruction::I64x2ExtendLowI32x4U, t0)),
        202 => Some((SInstruction::I64x2ExtendHighI32x4U, t0)),
        203 => Some((SInstruction::I64x2Shl, t0)),
        204 => Some((SInstruction::I64x2ShrS, t0)),
        205 => Some((SInstruction::I64x2ShrU, t0)),
        206 => Some((SInstruction::I64x2Add, t0)),
        209 => Some((SInstruction::I64x2Sub, t0)),
        213 => Some((SInstruction::I64x2Mul, t0)),
        214 => Some((SInstruction::I64x2Eq, t0)),
        215 => Some((SInstruction::I64x2Ne, t0)),
        216 => Some((SInstruction::I64x2LtS, t0)),
        217 => Some((SInstruction::I64x2GtS, t0)),
        218 => Some((SInstruction::I64x2LeS, t0)),
        219 => Some((SInstruction::I64x2GeS, t0)),
        220 => Some((SInstruction::I64x2ExtmulLowI32x4S, t0)),
        221 => Some((SInstruction::I64x2ExtmulHighI32x4S, t0)),
        222 => Some((SInstruction::I64x2ExtmulLowI32x4U, t0)),
        223 => Some((SInstruction::I64x2ExtmulHighI32x4U, t0)),
        224 => Some((SInstruction::F32x4Abs, t0)),
        225 => Some((SInstruction::F32x4Neg, t0)),
        227 => Some((SInstruction::F32x4Sqrt, t0)),
        228 => Some((SInstruction::F32x4Add, t0)),
        229 => Some((SInstruction::F32x4Sub, t0)),
        230 => Some((SInstruction::F32x4Mul, t0)),
        231 => Some((SInstruction::F32x4Div, t0)),
        232 => Some((SInstruction::F32x4Min, t0)),
        233 => Some((SInstruction::F32x4Max, t0)),
        234 => Some((SInstruction::F32x4PMin, t0)),
        235 => Some((SInstruction::F32x4PMax, t0)),
        236 => Some((SInstruction::F64x2Abs, t0)),
        237 => Some((SInstruction::F64x2Neg, t0)),
        239 => Some((SInstruction::F64x2Sqrt, t0)),
        240 => Some((SInstruction::F64x2Add, t0)),
        241 => Some((SInstruction::F64x2Sub, t0)),
        242 => Some((SInstruction::F64x2Mul, t0)),
        243 => Some((SInstruction::F64x2Div, t0)),
        244 => Some((SInstruction::F64x2Min, t0)),
        245 => Some((SInstruction::F64x2Max, t0)),
        246 => Some((SInstruction::F64x2PMin, t0)),
        247 => Some((SInstruction::F64x2PMax, t0)),
        248 => Some((SInstruction::I32x4TruncSatF32x4S, t0)),
        249 => Some((SInstruction::I32x4TruncSatF32x4U, t0)),
        250 => Some((SInstruction::F32x4ConvertI32x4S, t0)),
        251 => Some((SInstruction::F32x4ConvertI32x4U, t0)),
        252 => Some((SInstruction::I32x4TruncSatF64x2SZero, t0)),
        253 => Some((SInstruction::I32x4TruncSatF64x2UZero, t0)),
        254 => Some((SInstruction::F64x2ConvertLowI32x4S, t0)),
        255 => Some((SInstruction::F64x2ConvertLowI32x4U, t0)),
        256 => Some((SInstruction::I8x16RelaxedSwizzle, t0)),
        257 => Some((SInstruction::I32x4RelaxedTruncF32x4S, t0)),
        258 => Some((SInstruction::I32x4RelaxedTruncF32x4U, t0)),
        259 => Some((SInstruction::I32x4RelaxedTruncF64x2SZero, t0)),
        260 => Some((SInstruction::I32x4RelaxedTruncF64x2UZero, t0)),
        261 => Some((SInstruction::F32x4RelaxedMAdd, t0)),
        262 => Some((SInstruction::F32x4RelaxedNMAdd, t0)),
        263 => Some((SInstruction::F64x2RelaxedMAdd, t0)),
        264 => Some((SInstruction::F64x2RelaxedNMAdd, t0)),
        265 => Some((SInstruction::I8x16RelaxedLaneSelect, t0)),
        266 => Some((SInstruction::I16x8RelaxedLaneSelect, t0)),
        267 => Some((SInstruction::I32x4RelaxedLaneSelect, t0)),
        268 => Some((SInstruction::I64x2RelaxedLaneSelect, t0)),
        269 => Some((SInstruction::F32x4RelaxedMin, t0)),
        270 => Some((SInstruction::F32x4RelaxedMax, t0)),
        271 => Some((SInstruction::F64x2RelaxedMin, t0)),
        272 => Some((SInstruction::F64x2RelaxedMax, t0)),
        273 => Some((SInstruction::I16x8RelaxedQ15MulrS, t0)),
        274 => Some((SInstruction::I16x8RelaxedDotSI8x16, t0)),
        275 => Some((SInstruction::I32x4RelaxedDotAddSI16x8, t0)),
        _ => None,
    }
}
pub open spec fn sp_fd_known(op: u32) -> bool { 0 <= op <= 153 || 155 <= op <= 161 || 163 <= op <= 164 || 167 <= op <= 174 || 177 <= op <= 177 || 181 <= op <= 186 || 188 <= op <= 193 || 195 <= op <= 196 || 199 <= op <= 206 || 209 <= op <= 209 || 213 <= op <= 225 || 227 <= op <= 237 || 239 <= op <= 275 }
pub broadcast proof fn sp_fd_unknown(op: u32, t0: Seq<u8>) ensures sp_fd_known(op) || (#[trigger] sp_fd_tbl(op, t0)) is None { reveal(sp_fd_tbl); }
pub mod l_sp_fd_0 { use super::*;
pub broadcast proof fn sp_fd_0(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(0, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_1(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(1, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load8x8S(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_2(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(2, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load8x8U(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_3(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(3, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load16x4S(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_4(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(4, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load16x4U(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_5(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(5, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32x2S(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_6(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(6, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32x2U(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_7(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(7, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load8Splat(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_8(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(8, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load16Splat(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_9(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(9, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32Splat(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_10(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(10, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load64Splat(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_11(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(11, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Store(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_12(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(12, t0) == (match sp_b16(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Const(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_13(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(13, t0) == (match sp_lane16(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16Shuffle(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_14(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(14, t0) == (Some((SInstruction::I8x16Swizzle, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_15(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(15, t0) == (Some((SInstruction::I8x16Splat, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_16(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(16, t0) == (Some((SInstruction::I16x8Splat, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_17(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(17, t0) == (Some((SInstruction::I32x4Splat, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_18(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(18, t0) == (Some((SInstruction::I64x2Splat, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_19(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(19, t0) == (Some((SInstruction::F32x4Splat, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_20(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(20, t0) == (Some((SInstruction::F64x2Splat, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_21(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(21, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16ExtractLaneS(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_22(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(22, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16ExtractLaneU(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_23(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(23, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I8x16ReplaceLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_24(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(24, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I16x8ExtractLaneS(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_25(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(25, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I16x8ExtractLaneU(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_26(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(26, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I16x8ReplaceLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_27(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(27, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32x4ExtractLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_28(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(28, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I32x4ReplaceLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_29(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(29, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64x2ExtractLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_30(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(30, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::I64x2ReplaceLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_31(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(31, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32x4ExtractLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_32(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(32, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F32x4ReplaceLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_33(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(33, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64x2ExtractLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_34(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(34, t0) == (match sp_lane(t0) { None => None, Some((a1, t1)) => Some((SInstruction::F64x2ReplaceLane(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_35(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(35, t0) == (Some((SInstruction::I8x16Eq, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_36(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(36, t0) == (Some((SInstruction::I8x16Ne, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_37(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(37, t0) == (Some((SInstruction::I8x16LtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_38(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(38, t0) == (Some((SInstruction::I8x16LtU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_39(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(39, t0) == (Some((SInstruction::I8x16GtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_40(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(40, t0) == (Some((SInstruction::I8x16GtU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_41(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(41, t0) == (Some((SInstruction::I8x16LeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_42(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(42, t0) == (Some((SInstruction::I8x16LeU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_43(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(43, t0) == (Some((SInstruction::I8x16GeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_44(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(44, t0) == (Some((SInstruction::I8x16GeU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_45(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(45, t0) == (Some((SInstruction::I16x8Eq, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_46(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(46, t0) == (Some((SInstruction::I16x8Ne, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_47(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(47, t0) == (Some((SInstruction::I16x8LtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_48(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(48, t0) == (Some((SInstruction::I16x8LtU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_49(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(49, t0) == (Some((SInstruction::I16x8GtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_50(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(50, t0) == (Some((SInstruction::I16x8GtU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_51(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(51, t0) == (Some((SInstruction::I16x8LeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_52(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(52, t0) == (Some((SInstruction::I16x8LeU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_53(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(53, t0) == (Some((SInstruction::I16x8GeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_54(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(54, t0) == (Some((SInstruction::I16x8GeU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_55(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(55, t0) == (Some((SInstruction::I32x4Eq, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_56(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(56, t0) == (Some((SInstruction::I32x4Ne, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_57(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(57, t0) == (Some((SInstruction::I32x4LtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_58(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(58, t0) == (Some((SInstruction::I32x4LtU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_59(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(59, t0) == (Some((SInstruction::I32x4GtS, t0))) { reveal(sp_fd_tbl); }
}
pub use l_sp_fd_0::*;
pub mod l_sp_fd_60 { use super::*;
pub broadcast proof fn sp_fd_60(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(60, t0) == (Some((SInstruction::I32x4GtU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_61(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(61, t0) == (Some((SInstruction::I32x4LeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_62(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(62, t0) == (Some((SInstruction::I32x4LeU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_63(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(63, t0) == (Some((SInstruction::I32x4GeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_64(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(64, t0) == (Some((SInstruction::I32x4GeU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_65(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(65, t0) == (Some((SInstruction::F32x4Eq, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_66(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(66, t0) == (Some((SInstruction::F32x4Ne, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_67(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(67, t0) == (Some((SInstruction::F32x4Lt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_68(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(68, t0) == (Some((SInstruction::F32x4Gt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_69(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(69, t0) == (Some((SInstruction::F32x4Le, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_70(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(70, t0) == (Some((SInstruction::F32x4Ge, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_71(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(71, t0) == (Some((SInstruction::F64x2Eq, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_72(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(72, t0) == (Some((SInstruction::F64x2Ne, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_73(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(73, t0) == (Some((SInstruction::F64x2Lt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_74(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(74, t0) == (Some((SInstruction::F64x2Gt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_75(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(75, t0) == (Some((SInstruction::F64x2Le, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_76(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(76, t0) == (Some((SInstruction::F64x2Ge, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_77(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(77, t0) == (Some((SInstruction::V128Not, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_78(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(78, t0) == (Some((SInstruction::V128And, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_79(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(79, t0) == (Some((SInstruction::V128AndNot, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_80(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(80, t0) == (Some((SInstruction::V128Or, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_81(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(81, t0) == (Some((SInstruction::V128Xor, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_82(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(82, t0) == (Some((SInstruction::V128Bitselect, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_83(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(83, t0) == (Some((SInstruction::V128AnyTrue, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_84(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(84, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load8Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_85(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(85, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load16Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_86(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(86, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load32Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_87(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(87, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Load64Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_88(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(88, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store8Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_89(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(89, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store16Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_90(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(90, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store32Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_91(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(91, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => match sp_lane(t1) { None => None, Some((a2, t2)) => Some((SInstruction::V128Store64Lane(a1, a2), t2)) } }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_92(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(92, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load32Zero(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_93(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(93, t0) == (match sp_memarg(t0) { None => None, Some((a1, t1)) => Some((SInstruction::V128Load64Zero(a1), t1)) }) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_94(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(94, t0) == (Some((SInstruction::F32x4DemoteF64x2Zero, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_95(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(95, t0) == (Some((SInstruction::F64x2PromoteLowF32x4, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_96(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(96, t0) == (Some((SInstruction::I8x16Abs, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_97(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(97, t0) == (Some((SInstruction::I8x16Neg, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_98(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(98, t0) == (Some((SInstruction::I8x16Popcnt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_99(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(99, t0) == (Some((SInstruction::I8x16AllTrue, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_100(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(100, t0) == (Some((SInstruction::I8x16Bitmask, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_101(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(101, t0) == (Some((SInstruction::I8x16NarrowI16x8S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_102(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(102, t0) == (Some((SInstruction::I8x16NarrowI16x8U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_103(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(103, t0) == (Some((SInstruction::F32x4Ceil, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_104(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(104, t0) == (Some((SInstruction::F32x4Floor, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_105(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(105, t0) == (Some((SInstruction::F32x4Trunc, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_106(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(106, t0) == (Some((SInstruction::F32x4Nearest, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_107(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(107, t0) == (Some((SInstruction::I8x16Shl, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_108(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(108, t0) == (Some((SInstruction::I8x16ShrS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_109(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(109, t0) == (Some((SInstruction::I8x16ShrU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_110(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(110, t0) == (Some((SInstruction::I8x16Add, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_111(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(111, t0) == (Some((SInstruction::I8x16AddSatS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_112(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(112, t0) == (Some((SInstruction::I8x16AddSatU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_113(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(113, t0) == (Some((SInstruction::I8x16Sub, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_114(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(114, t0) == (Some((SInstruction::I8x16SubSatS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_115(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(115, t0) == (Some((SInstruction::I8x16SubSatU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_116(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(116, t0) == (Some((SInstruction::F64x2Ceil, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_117(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(117, t0) == (Some((SInstruction::F64x2Floor, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_118(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(118, t0) == (Some((SInstruction::I8x16MinS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_119(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(119, t0) == (Some((SInstruction::I8x16MinU, t0))) { reveal(sp_fd_tbl); }
}
pub use l_sp_fd_60::*;
pub mod l_sp_fd_120 { use super::*;
pub broadcast proof fn sp_fd_120(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(120, t0) == (Some((SInstruction::I8x16MaxS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_121(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(121, t0) == (Some((SInstruction::I8x16MaxU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_122(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(122, t0) == (Some((SInstruction::F64x2Trunc, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_123(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(123, t0) == (Some((SInstruction::I8x16AvgrU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_124(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(124, t0) == (Some((SInstruction::I16x8ExtaddPairwiseI8x16S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_125(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(125, t0) == (Some((SInstruction::I16x8ExtaddPairwiseI8x16U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_126(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(126, t0) == (Some((SInstruction::I32x4ExtaddPairwiseI16x8S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_127(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(127, t0) == (Some((SInstruction::I32x4ExtaddPairwiseI16x8U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_128(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(128, t0) == (Some((SInstruction::I16x8Abs, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_129(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(129, t0) == (Some((SInstruction::I16x8Neg, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_130(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(130, t0) == (Some((SInstruction::I16x8Q15MulrSatS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_131(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(131, t0) == (Some((SInstruction::I16x8AllTrue, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_132(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(132, t0) == (Some((SInstruction::I16x8Bitmask, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_133(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(133, t0) == (Some((SInstruction::I16x8NarrowI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_134(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(134, t0) == (Some((SInstruction::I16x8NarrowI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_135(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(135, t0) == (Some((SInstruction::I16x8ExtendLowI8x16S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_136(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(136, t0) == (Some((SInstruction::I16x8ExtendHighI8x16S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_137(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(137, t0) == (Some((SInstruction::I16x8ExtendLowI8x16U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_138(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(138, t0) == (Some((SInstruction::I16x8ExtendHighI8x16U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_139(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(139, t0) == (Some((SInstruction::I16x8Shl, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_140(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(140, t0) == (Some((SInstruction::I16x8ShrS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_141(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(141, t0) == (Some((SInstruction::I16x8ShrU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_142(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(142, t0) == (Some((SInstruction::I16x8Add, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_143(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(143, t0) == (Some((SInstruction::I16x8AddSatS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_144(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(144, t0) == (Some((SInstruction::I16x8AddSatU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_145(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(145, t0) == (Some((SInstruction::I16x8Sub, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_146(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(146, t0) == (Some((SInstruction::I16x8SubSatS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_147(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(147, t0) == (Some((SInstruction::I16x8SubSatU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_148(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(148, t0) == (Some((SInstruction::F64x2Nearest, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_149(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(149, t0) == (Some((SInstruction::I16x8Mul, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_150(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(150, t0) == (Some((SInstruction::I16x8MinS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_151(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(151, t0) == (Some((SInstruction::I16x8MinU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_152(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(152, t0) == (Some((SInstruction::I16x8MaxS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_153(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(153, t0) == (Some((SInstruction::I16x8MaxU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_155(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(155, t0) == (Some((SInstruction::I16x8AvgrU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_156(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(156, t0) == (Some((SInstruction::I16x8ExtmulLowI8x16S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_157(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(157, t0) == (Some((SInstruction::I16x8ExtmulHighI8x16S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_158(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(158, t0) == (Some((SInstruction::I16x8ExtmulLowI8x16U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_159(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(159, t0) == (Some((SInstruction::I16x8ExtmulHighI8x16U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_160(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(160, t0) == (Some((SInstruction::I32x4Abs, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_161(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(161, t0) == (Some((SInstruction::I32x4Neg, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_163(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(163, t0) == (Some((SInstruction::I32x4AllTrue, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_164(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(164, t0) == (Some((SInstruction::I32x4Bitmask, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_167(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(167, t0) == (Some((SInstruction::I32x4ExtendLowI16x8S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_168(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(168, t0) == (Some((SInstruction::I32x4ExtendHighI16x8S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_169(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(169, t0) == (Some((SInstruction::I32x4ExtendLowI16x8U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_170(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(170, t0) == (Some((SInstruction::I32x4ExtendHighI16x8U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_171(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(171, t0) == (Some((SInstruction::I32x4Shl, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_172(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(172, t0) == (Some((SInstruction::I32x4ShrS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_173(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(173, t0) == (Some((SInstruction::I32x4ShrU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_174(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(174, t0) == (Some((SInstruction::I32x4Add, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_177(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(177, t0) == (Some((SInstruction::I32x4Sub, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_181(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(181, t0) == (Some((SInstruction::I32x4Mul, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_182(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(182, t0) == (Some((SInstruction::I32x4MinS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_183(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(183, t0) == (Some((SInstruction::I32x4MinU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_184(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(184, t0) == (Some((SInstruction::I32x4MaxS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_185(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(185, t0) == (Some((SInstruction::I32x4MaxU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_186(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(186, t0) == (Some((SInstruction::I32x4DotI16x8S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_188(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(188, t0) == (Some((SInstruction::I32x4ExtmulLowI16x8S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_189(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(189, t0) == (Some((SInstruction::I32x4ExtmulHighI16x8S, t0))) { reveal(sp_fd_tbl); }
}
pub use l_sp_fd_120::*;
pub mod l_sp_fd_180 { use super::*;
pub broadcast proof fn sp_fd_190(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(190, t0) == (Some((SInstruction::I32x4ExtmulLowI16x8U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_191(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(191, t0) == (Some((SInstruction::I32x4ExtmulHighI16x8U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_192(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(192, t0) == (Some((SInstruction::I64x2Abs, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_193(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(193, t0) == (Some((SInstruction::I64x2Neg, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_195(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(195, t0) == (Some((SInstruction::I64x2AllTrue, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_196(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(196, t0) == (Some((SInstruction::I64x2Bitmask, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_199(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(199, t0) == (Some((SInstruction::I64x2ExtendLowI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_200(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(200, t0) == (Some((SInstruction::I64x2ExtendHighI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_201(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(201, t0) == (Some((SInstruction::I64x2ExtendLowI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_202(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(202, t0) == (Some((SInstruction::I64x2ExtendHighI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_203(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(203, t0) == (Some((SInstruction::I64x2Shl, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_204(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(204, t0) == (Some((SInstruction::I64x2ShrS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_205(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(205, t0) == (Some((SInstruction::I64x2ShrU, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_206(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(206, t0) == (Some((SInstruction::I64x2Add, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_209(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(209, t0) == (Some((SInstruction::I64x2Sub, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_213(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(213, t0) == (Some((SInstruction::I64x2Mul, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_214(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(214, t0) == (Some((SInstruction::I64x2Eq, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_215(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(215, t0) == (Some((SInstruction::I64x2Ne, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_216(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(216, t0) == (Some((SInstruction::I64x2LtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_217(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(217, t0) == (Some((SInstruction::I64x2GtS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_218(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(218, t0) == (Some((SInstruction::I64x2LeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_219(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(219, t0) == (Some((SInstruction::I64x2GeS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_220(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(220, t0) == (Some((SInstruction::I64x2ExtmulLowI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_221(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(221, t0) == (Some((SInstruction::I64x2ExtmulHighI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_222(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(222, t0) == (Some((SInstruction::I64x2ExtmulLowI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_223(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(223, t0) == (Some((SInstruction::I64x2ExtmulHighI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_224(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(224, t0) == (Some((SInstruction::F32x4Abs, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_225(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(225, t0) == (Some((SInstruction::F32x4Neg, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_227(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(227, t0) == (Some((SInstruction::F32x4Sqrt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_228(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(228, t0) == (Some((SInstruction::F32x4Add, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_229(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(229, t0) == (Some((SInstruction::F32x4Sub, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_230(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(230, t0) == (Some((SInstruction::F32x4Mul, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_231(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(231, t0) == (Some((SInstruction::F32x4Div, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_232(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(232, t0) == (Some((SInstruction::F32x4Min, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_233(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(233, t0) == (Some((SInstruction::F32x4Max, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_234(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(234, t0) == (Some((SInstruction::F32x4PMin, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_235(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(235, t0) == (Some((SInstruction::F32x4PMax, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_236(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(236, t0) == (Some((SInstruction::F64x2Abs, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_237(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(237, t0) == (Some((SInstruction::F64x2Neg, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_239(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(239, t0) == (Some((SInstruction::F64x2Sqrt, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_240(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(240, t0) == (Some((SInstruction::F64x2Add, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_241(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(241, t0) == (Some((SInstruction::F64x2Sub, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_242(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(242, t0) == (Some((SInstruction::F64x2Mul, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_243(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(243, t0) == (Some((SInstruction::F64x2Div, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_244(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(244, t0) == (Some((SInstruction::F64x2Min, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_245(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(245, t0) == (Some((SInstruction::F64x2Max, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_246(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(246, t0) == (Some((SInstruction::F64x2PMin, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_247(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(247, t0) == (Some((SInstruction::F64x2PMax, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_248(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(248, t0) == (Some((SInstruction::I32x4TruncSatF32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_249(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(249, t0) == (Some((SInstruction::I32x4TruncSatF32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_250(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(250, t0) == (Some((SInstruction::F32x4ConvertI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_251(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(251, t0) == (Some((SInstruction::F32x4ConvertI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_252(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(252, t0) == (Some((SInstruction::I32x4TruncSatF64x2SZero, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_253(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(253, t0) == (Some((SInstruction::I32x4TruncSatF64x2UZero, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_254(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(254, t0) == (Some((SInstruction::F64x2ConvertLowI32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_255(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(255, t0) == (Some((SInstruction::F64x2ConvertLowI32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_256(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(256, t0) == (Some((SInstruction::I8x16RelaxedSwizzle, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_257(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(257, t0) == (Some((SInstruction::I32x4RelaxedTruncF32x4S, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_258(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(258, t0) == (Some((SInstruction::I32x4RelaxedTruncF32x4U, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_259(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(259, t0) == (Some((SInstruction::I32x4RelaxedTruncF64x2SZero, t0))) { reveal(sp_fd_tbl); }
}
pub use l_sp_fd_180::*;
pub mod l_sp_fd_240 { use super::*;
pub broadcast proof fn sp_fd_260(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(260, t0) == (Some((SInstruction::I32x4RelaxedTruncF64x2UZero, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_261(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(261, t0) == (Some((SInstruction::F32x4RelaxedMAdd, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_262(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(262, t0) == (Some((SInstruction::F32x4RelaxedNMAdd, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_263(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(263, t0) == (Some((SInstruction::F64x2RelaxedMAdd, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_264(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(264, t0) == (Some((SInstruction::F64x2RelaxedNMAdd, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_265(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(265, t0) == (Some((SInstruction::I8x16RelaxedLaneSelect, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_266(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(266, t0) == (Some((SInstruction::I16x8RelaxedLaneSelect, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_267(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(267, t0) == (Some((SInstruction::I32x4RelaxedLaneSelect, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_268(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(268, t0) == (Some((SInstruction::I64x2RelaxedLaneSelect, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_269(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(269, t0) == (Some((SInstruction::F32x4RelaxedMin, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_270(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(270, t0) == (Some((SInstruction::F32x4RelaxedMax, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_271(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(271, t0) == (Some((SInstruction::F64x2RelaxedMin, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_272(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(272, t0) == (Some((SInstruction::F64x2RelaxedMax, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_273(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(273, t0) == (Some((SInstruction::I16x8RelaxedQ15MulrS, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_274(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(274, t0) == (Some((SInstruction::I16x8RelaxedDotSI8x16, t0))) { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_275(t0: Seq<u8>) ensures #[trigger] sp_fd_tbl(275, t0) == (Some((SInstruction::I32x4RelaxedDotAddSI16x8, t0))) { reveal(sp_fd_tbl); }
}
pub use l_sp_fd_240::*;
pub broadcast proof fn sp_fd_needs_memarg(op: u32, t0: Seq<u8>) ensures ((0 <= op <= 11 || 84 <= op <= 93) && sp_memarg(t0) is None) ==> (#[trigger] sp_fd_tbl(op, t0)) is None { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_needs_b16(op: u32, t0: Seq<u8>) ensures ((12 <= op <= 12) && sp_b16(t0) is None) ==> (#[trigger] sp_fd_tbl(op, t0)) is None { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_needs_lane16(op: u32, t0: Seq<u8>) ensures ((13 <= op <= 13) && sp_lane16(t0) is None) ==> (#[trigger] sp_fd_tbl(op, t0)) is None { reveal(sp_fd_tbl); }
pub broadcast proof fn sp_fd_needs_lane(op: u32, t0: Seq<u8>) ensures ((21 <= op <= 34) && sp_lane(t0) is None) ==> (#[trigger] sp_fd_tbl(op, t0)) is None { reveal(sp_fd_tbl); }
pub broadcast group g_opcodes { sp_plain_0x00, sp_plain_0x01, sp_plain_0x08, sp_plain_0x0A, sp_plain_0x0C, sp_plain_0x0D, sp_plain_0x0F, sp_plain_0x10, sp_plain_0x11, sp_plain_0x12, sp_plain_0x13, sp_plain_0x14, sp_plain_0x15, sp_plain_0x1A, sp_plain_0x20, sp_plain_0x21, sp_plain_0x22, sp_plain_0x23, sp_plain_0x24, sp_plain_0x25, sp_plain_0x26, sp_plain_0x28, sp_plain_0x29, sp_plain_0x2A, sp_plain_0x2B, sp_plain_0x2C, sp_plain_0x2D, sp_plain_0x2E, sp_plain_0x2F, sp_plain_0x30, sp_plain_0x31, sp_plain_0x32, sp_plain_0x33, sp_plain_0x34, sp_plain_0x35, sp_plain_0x36, sp_plain_0x37, sp_plain_0x38, sp_plain_0x39, sp_plain_0x3A, sp_plain_0x3B, sp_plain_0x3C, sp_plain_0x3D, sp_plain_0x3E, sp_plain_0x3F, sp_plain_0x40, sp_plain_0x41, sp_plain_0x42, sp_plain_0x43, sp_plain_0x44, sp_plain_0x45, sp_plain_0x46, sp_plain_0x47, sp_plain_0x48, sp_plain_0x49, sp_plain_0x4A, sp_plain_0x4B, sp_plain_0x4C, sp_plain_0x4D, sp_plain_0x4E, sp_plain_0x4F, sp_plain_0x50, sp_plain_0x51, sp_plain_0x52, sp_plain_0x53, sp_plain_0x54, sp_plain_0x55, sp_plain_0x56, sp_plain_0x57, sp_plain_0x58, sp_plain_0x59, sp_plain_0x5A, sp_plain_0x5B, sp_plain_0x5C, sp_plain_0x5D, sp_plain_0x5E, sp_plain_0x5F, sp_plain_0x60, sp_plain_0x61, sp_plain_0x62, sp_plain_0x63, sp_plain_0x64, sp_plain_0x65, sp_plain_0x66, sp_plain_0x67, sp_plain_0x68, sp_plain_0x69, sp_plain_0x6A, sp_plain_0x6B, sp_plain_0x6C, sp_plain_0x6D, sp_plain_0x6E, sp_plain_0x6F, sp_plain_0x70, sp_plain_0x71, sp_plain_0x72, sp_plain_0x73, sp_plain_0x74, sp_plain_0x75, sp_plain_0x76, sp_plain_0x77, sp_plain_0x78, sp_plain_0x79, sp_plain_0x7A, sp_plain_0x7B, sp_plain_0x7C, sp_plain_0x7D, sp_plain_0x7E, sp_plain_0x7F, sp_plain_0x80, sp_plain_0x81, sp_plain_0x82, sp_plain_0x83, sp_plain_0x84, sp_plain_0x85, sp_plain_0x86, sp_plain_0x87, sp_plain_0x88, sp_plain_0x89, sp_plain_0x8A, sp_plain_0x8B, sp_plain_0x8C, sp_plain_0x8D, sp_plain_0x8E, sp_plain_0x8F, sp_plain_0x90, sp_plain_0x91, sp_plain_0x92, sp_plain_0x93, sp_plain_0x94, sp_plain_0x95, sp_plain_0x96, sp_plain_0x97, sp_plain_0x98, sp_plain_0x99, sp_plain_0x9A, sp_plain_0x9B, sp_plain_0x9C, sp_plain_0x9D, sp_plain_0x9E, sp_plain_0x9F, sp_plain_0xA0, sp_plain_0xA1, sp_plain_0xA2, sp_plain_0xA3, sp_plain_0xA4, sp_plain_0xA5, sp_plain_0xA6, sp_plain_0xA7, sp_plain_0xA8, sp_plain_0xA9, sp_plain_0xAA, sp_plain_0xAB, sp_plain_0xAC, sp_plain_0xAD, sp_plain_0xAE, sp_plain_0xAF, sp_plain_0xB0, sp_plain_0xB1, sp_plain_0xB2, sp_plain_0xB3, sp_plain_0xB4, sp_plain_0xB5, sp_plain_0xB6, sp_plain_0xB7, sp_plain_0xB8, sp_plain_0xB9, sp_plain_0xBA, sp_plain_0xBB, sp_plain_0xBC, sp_plain_0xBD, sp_plain_0xBE, sp_plain_0xBF, sp_plain_0xC0, sp_plain_0xC1, sp_plain_0xC2, sp_plain_0xC3, sp_plain_0xC4, sp_plain_0xD0, sp_plain_0xD1, sp_plain_0xD2, sp_plain_0xD3, sp_plain_0xD4, sp_plain_0xD5, sp_plain_0xD6, sp_plain_needs_tag, sp_plain_needs_label, sp_plain_needs_func, sp_plain_needs_type, sp_plain_needs_local, sp_plain_needs_global, sp_plain_needs_table, sp_plain_needs_memarg, sp_plain_needs_mem, sp_plain_needs_i32, sp_plain_needs_i64, sp_plain_needs_f32, sp_plain_needs_f64, sp_plain_needs_heaptype, sp_plain_unknown, sp_fb_0, sp_fb_1, sp_fb_2, sp_fb_3, sp_fb_4, sp_fb_5, sp_fb_6, sp_fb_7, sp_fb_8, sp_fb_9, sp_fb_10, sp_fb_11, sp_fb_12, sp_fb_13, sp_fb_14, sp_fb_15, sp_fb_16, sp_fb_17, sp_fb_18, sp_fb_19, sp_fb_26, sp_fb_27, sp_fb_28, sp_fb_29, sp_fb_30, sp_fb_needs_type, sp_fb_unknown, sp_fc_0, sp_fc_1, sp_fc_2, sp_fc_3, sp_fc_4, sp_fc_5, sp_fc_6, sp_fc_7, sp_fc_8, sp_fc_9, sp_fc_10, sp_fc_11, sp_fc_12, sp_fc_13, sp_fc_14, sp_fc_15, sp_fc_16, sp_fc_17, sp_fc_needs_data, sp_fc_needs_mem, sp_fc_needs_elem, sp_fc_needs_table, sp_fc_unknown, sp_fd_0, sp_fd_1, sp_fd_2, sp_fd_3, sp_fd_4, sp_fd_5, sp_fd_6, sp_fd_7, sp_fd_8, sp_fd_9, sp_fd_10, sp_fd_11, sp_fd_12, sp_fd_13, sp_fd_14, sp_fd_15, sp_fd_16, sp_fd_17, sp_fd_18, sp_fd_19, sp_fd_20, sp_fd_21, sp_fd_22, sp_fd_23, sp_fd_24, sp_fd_25, sp_fd_26, sp_fd_27, sp_fd_28, sp_fd_29, sp_fd_30, sp_fd_31, sp_fd_32, sp_fd_33, sp_fd_34, sp_fd_35, sp_fd_36, sp_fd_37, sp_fd_38, sp_fd_39, sp_fd_40, sp_fd_41, sp_fd_42, sp_fd_43, sp_fd_44, sp_fd_45, sp_fd_46, sp_fd_47, sp_fd_48, sp_fd_49, sp_fd_50, sp_fd_51, sp_fd_52, sp_fd_53, sp_fd_54, sp_fd_55, sp_fd_56, sp_fd_57, sp_fd_58, sp_fd_59, sp_fd_60, sp_fd_61, sp_fd_62, sp_fd_63, sp_fd_64, sp_fd_65, sp_fd_66, sp_fd_67, sp_fd_68, sp_fd_69, sp_fd_70, sp_fd_71, sp_fd_72, sp_fd_73, sp_fd_74, sp_fd_75, sp_fd_76, sp_fd_77, sp_fd_78, sp_fd_79, sp_fd_80, sp_fd_81, sp_fd_82, sp_fd_83, sp_fd_84, sp_fd_85, sp_fd_86, sp_fd_87, sp_fd_88, sp_fd_89, sp_fd_90, sp_fd_91, sp_fd_92, sp_fd_93, sp_fd_94, sp_fd_95, sp_fd_96, sp_fd_97, sp_fd_98, sp_fd_99, sp_fd_100, sp_fd_101, sp_fd_102, sp_fd_103, sp_fd_104, sp_fd_105, sp_fd_106, sp_fd_107, sp_fd_108, sp_fd_109, sp_fd_110, sp_fd_111, sp_fd_112, sp_fd_113, sp_fd_114, sp_fd_115, sp_fd_116, sp_fd_117, sp_fd_118, sp_fd_119, sp_fd_120, sp_fd_121, sp_fd_122, sp_fd_123, sp_fd_124, sp_fd_125, sp_fd_126, sp_fd_127, sp_fd_128, sp_fd_129, sp_fd_130, sp_fd_131, sp_fd_132, sp_fd_133, sp_fd_134, sp_fd_135, sp_fd_136, sp_fd_137, sp_fd_138, sp_fd_139, sp_fd_140, sp_fd_141, sp_fd_142, sp_fd_143, sp_fd_144, sp_fd_145, sp_fd_146, sp_fd_147, sp_fd_148, sp_fd_149, sp_fd_150, sp_fd_151, sp_fd_152, sp_fd_153, sp_fd_155, sp_fd_156, sp_fd_157, sp_fd_158, sp_fd_159, sp_fd_160, sp_fd_161, sp_fd_163, sp_fd_164, sp_fd_167, sp_fd_168, sp_fd_169, sp_fd_170, sp_fd_171, sp_fd_172, sp_fd_173, sp_fd_174, sp_fd_177, sp_fd_181, sp_fd_182, sp_fd_183, sp_fd_184, sp_fd_185, sp_fd_186, sp_fd_188, sp_fd_189, sp_fd_190, sp_fd_191, sp_fd_192, sp_fd_193, sp_fd_195, sp_fd_196, sp_fd_199, sp_fd_200, sp_fd_201, sp_fd_202, sp_fd_203, sp_fd_204, sp_fd_205, sp_fd_206, sp_fd_209, sp_fd_213, sp_fd_214, sp_fd_215, sp_fd_216, sp_fd_217, sp_fd_218, sp_fd_219, sp_fd_220, sp_fd_221, sp_fd_222, sp_fd_223, sp_fd_224, sp_fd_225, sp_fd_227, sp_fd_228, sp_fd_229, sp_fd_230, sp_fd_231, sp_fd_232, sp_fd_233, sp_fd_234, sp_fd_235, sp_fd_236, sp_fd_237, sp_fd_239, sp_fd_240, sp_fd_241, sp_fd_242, sp_fd_243, sp_fd_244, sp_fd_245, sp_fd_246, sp_fd_247, sp_fd_248, sp_fd_249, sp_fd_250, sp_fd_251, sp_fd_252, sp_fd_253, sp_fd_254, sp_fd_255, sp_fd_256, sp_fd_257, sp_fd_258, sp_fd_259, sp_fd_260, sp_fd_261, sp_fd_262, sp_fd_263, sp_fd_264, sp_fd_265, sp_fd_266, sp_fd_267, sp_fd_268, sp_fd_269, sp_fd_270, sp_fd_271, sp_fd_272, sp_fd_273, sp_fd_274, sp_fd_275, sp_fd_needs_memarg, sp_fd_needs_b16, sp_fd_needs_lane16, sp_fd_needs_lane, sp_fd_unknown }
