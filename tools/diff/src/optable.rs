// generated by tools/gen_opcodes.py from spec/opcodes.tbl
use super::*;
pub fn plain(p: &mut P, op: u8) -> R<Instruction> {
    Ok(match op {
        0 => { Instruction::Unreachable }
        1 => { Instruction::Nop }
        8 => { let a1 = TagIdx(p.idx("TagIdx").w("Control(TagIdx(")?); Instruction::Throw(a1) }
        10 => { Instruction::ThrowRef }
        12 => { let a1 = LabelIdx(p.idx("LabelIdx").w("Control(LabelIdx(")?); Instruction::Br(a1) }
        13 => { let a1 = LabelIdx(p.idx("LabelIdx").w("Control(LabelIdx(")?); Instruction::BrIf(a1) }
        15 => { Instruction::Return }
        16 => { let a1 = FuncIdx(p.idx("FuncIdx").w("Control(FuncIdx(")?); Instruction::Call(a1) }
        17 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Control(TypeIdx(")?); let a2 = TableIdx(p.idx("TableIdx").w("Control(TableIdx(")?); Instruction::CallIndirect(a2, a1) }
        18 => { let a1 = FuncIdx(p.idx("FuncIdx").w("Control(FuncIdx(")?); Instruction::ReturnCall(a1) }
        19 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Control(TypeIdx(")?); let a2 = TableIdx(p.idx("TableIdx").w("Control(TableIdx(")?); Instruction::ReturnCallIndirect(a2, a1) }
        20 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Control(TypeIdx(")?); Instruction::CallRef(a1) }
        21 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Control(TypeIdx(")?); Instruction::ReturnCallRef(a1) }
        26 => { Instruction::Drop }
        32 => { let a1 = LocalIdx(p.idx("LocalIdx").w("Variable(LocalIdx(")?); Instruction::LocalGet(a1) }
        33 => { let a1 = LocalIdx(p.idx("LocalIdx").w("Variable(LocalIdx(")?); Instruction::LocalSet(a1) }
        34 => { let a1 = LocalIdx(p.idx("LocalIdx").w("Variable(LocalIdx(")?); Instruction::LocalTee(a1) }
        35 => { let a1 = GlobalIdx(p.idx("GlobalIdx").w("Variable(GlobalIdx(")?); Instruction::GlobalGet(a1) }
        36 => { let a1 = GlobalIdx(p.idx("GlobalIdx").w("Variable(GlobalIdx(")?); Instruction::GlobalSet(a1) }
        37 => { let a1 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableGet(a1) }
        38 => { let a1 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableSet(a1) }
        40 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Load(a1) }
        41 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load(a1) }
        42 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::F32Load(a1) }
        43 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::F64Load(a1) }
        44 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Load8s(a1) }
        45 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Load8u(a1) }
        46 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Load16s(a1) }
        47 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Load16u(a1) }
        48 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load8s(a1) }
        49 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load8u(a1) }
        50 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load16s(a1) }
        51 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load16u(a1) }
        52 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load32s(a1) }
        53 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Load32u(a1) }
        54 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Store(a1) }
        55 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Store(a1) }
        56 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::F32Store(a1) }
        57 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::F64Store(a1) }
        58 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Store8(a1) }
        59 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I32Store16(a1) }
        60 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Store8(a1) }
        61 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Store16(a1) }
        62 => { let a1 = p.memarg().w("Memory(DecodeMemarg(")?; Instruction::I64Store32(a1) }
        63 => { let a1 = MemIdx(p.idx("MemIdx").w("Memory(DecodeMemIdx(")?); Instruction::MemorySize(a1) }
        64 => { let a1 = MemIdx(p.idx("MemIdx").w("Memory(DecodeMemIdx(")?); Instruction::MemoryGrow(a1) }
        65 => { let a1 = p.i32().w("Numeric(DecodeI32(")?; Instruction::I32Const(a1) }
        66 => { let a1 = p.i64().w("Numeric(DecodeI64(")?; Instruction::I64Const(a1) }
        67 => { let a1 = p.f32().w("Numeric(DecodeF32(")?; Instruction::F32Const(a1) }
        68 => { let a1 = p.f64().w("Numeric(DecodeF64(")?; Instruction::F64Const(a1) }
        69 => { Instruction::I32Eqz }
        70 => { Instruction::I32Eq }
        71 => { Instruction::I32Ne }
        72 => { Instruction::I32LtS }
        73 => { Instruction::I32LtU }
        74 => { Instruction::I32GtS }
        75 => { Instruction::I32GtU }
        76 => { Instruction::I32LeS }
        77 => { Instruction::I32LeU }
        78 => { Instruction::I32GeS }
        79 => { Instruction::I32GeU }
        80 => { Instruction::I64Eqz }
        81 => { Instruction::I64Eq }
        82 => { Instruction::I64Ne }
        83 => { Instruction::I64LtS }
        84 => { Instruction::I64LtU }
        85 => { Instruction::I64GtS }
        86 => { Instruction::I64GtU }
        87 => { Instruction::I64LeS }
        88 => { Instruction::I64LeU }
        89 => { Instruction::I64GeS }
        90 => { Instruction::I64GeU }
        91 => { Instruction::F32Eq }
        92 => { Instruction::F32Ne }
        93 => { Instruction::F32Lt }
        94 => { Instruction::F32Gt }
        95 => { Instruction::F32Le }
        96 => { Instruction::F32Ge }
        97 => { Instruction::F64Eq }
        98 => { Instruction::F64Ne }
        99 => { Instruction::F64Lt }
        100 => { Instruction::F64Gt }
        101 => { Instruction::F64Le }
        102 => { Instruction::F64Ge }
        103 => { Instruction::I32Clz }
        104 => { Instruction::I32Ctz }
        105 => { Instruction::I32Popcnt }
        106 => { Instruction::I32Add }
        107 => { Instruction::I32Sub }
        108 => { Instruction::I32Mul }
        109 => { Instruction::I32DivS }
        110 => { Instruction::I32DivU }
        111 => { Instruction::I32RemS }
        112 => { Instruction::I32RemU }
        113 => { Instruction::I32And }
        114 => { Instruction::I32Or }
        115 => { Instruction::I32Xor }
        116 => { Instruction::I32Shl }
        117 => { Instruction::I32ShrS }
        118 => { Instruction::I32ShrU }
        119 => { Instruction::I32Rotl }
        120 => { Instruction::I32Rotr }
        121 => { Instruction::I64Clz }
        122 => { Instruction::I64Ctz }
        123 => { Instruction::I64Popcnt }
        124 => { Instruction::I64Add }
        125 => { Instruction::I64Sub }
        126 => { Instruction::I64Mul }
        127 => { Instruction::I64DivS }
        128 => { Instruction::I64DivU }
        129 => { Instruction::I64RemS }
        130 => { Instruction::I64RemU }
        131 => { Instruction::I64And }
        132 => { Instruction::I64Or }
        133 => { Instruction::I64Xor }
        134 => { Instruction::I64Shl }
        135 => { Instruction::I64ShrS }
        136 => { Instruction::I64ShrU }
        137 => { Instruction::I64Rotl }
        138 => { Instruction::I64Rotr }
        139 => { Instruction::F32Abs }
        140 => { Instruction::F32Neg }
        141 => { Instruction::F32Ceil }
        142 => { Instruction::F32Floor }
        143 => { Instruction::F32Trunc }
        144 => { Instruction::F32Nearest }
        145 => { Instruction::F32Sqrt }
        146 => { Instruction::F32Add }
        147 => { Instruction::F32Sub }
        148 => { Instruction::F32Mul }
        149 => { Instruction::F32Div }
        150 => { Instruction::F32Min }
        151 => { Instruction::F32Max }
        152 => { Instruction::F32Copysign }
        153 => { Instruction::F64Abs }
        154 => { Instruction::F64Neg }
        155 => { Instruction::F64Ceil }
        156 => { Instruction::F64Floor }
        157 => { Instruction::F64Trunc }
        158 => { Instruction::F64Nearest }
        159 => { Instruction::F64Sqrt }
        160 => { Instruction::F64Add }
        161 => { Instruction::F64Sub }
        162 => { Instruction::F64Mul }
        163 => { Instruction::F64Div }
        164 => { Instruction::F64Min }
        165 => { Instruction::F64Max }
        166 => { Instruction::F64Copysign }
        167 => { Instruction::I32WrapI64 }
        168 => { Instruction::I32TruncF32S }
        169 => { Instruction::I32TruncF32U }
        170 => { Instruction::I32TruncF64S }
        171 => { Instruction::I32TruncF64U }
        172 => { Instruction::I64ExtendI32S }
        173 => { Instruction::I64ExtendI32U }
        174 => { Instruction::I64TruncF32S }
        175 => { Instruction::I64TruncF32U }
        176 => { Instruction::I64TruncF64S }
        177 => { Instruction::I64TruncF64U }
        178 => { Instruction::F32ConvertI32S }
        179 => { Instruction::F32ConvertI32U }
        180 => { Instruction::F32ConvertI64S }
        181 => { Instruction::F32ConvertI64U }
        182 => { Instruction::F32DemoteF64 }
        183 => { Instruction::F64ConvertI32S }
        184 => { Instruction::F64ConvertI32U }
        185 => { Instruction::F64ConvertI64S }
        186 => { Instruction::F64ConvertI64U }
        187 => { Instruction::F64PromoteF32 }
        188 => { Instruction::I32ReinterpretF32 }
        189 => { Instruction::I64ReinterpretF64 }
        190 => { Instruction::F32ReinterpretI32 }
        191 => { Instruction::F64ReinterpretI64 }
        192 => { Instruction::I32Extend8S }
        193 => { Instruction::I32Extend16S }
        194 => { Instruction::I64Extend8S }
        195 => { Instruction::I64Extend16S }
        196 => { Instruction::I64Extend32S }
        208 => { let a1 = p.heaptype().w("Reference(HeapType(")?; Instruction::RefNull(a1) }
        209 => { Instruction::RefIsNull }
        210 => { let a1 = FuncIdx(p.idx("FuncIdx").w("Reference(FuncIdx(")?); Instruction::RefFunc(a1) }
        211 => { Instruction::RefEq }
        212 => { Instruction::RefAsNonNull }
        213 => { let a1 = LabelIdx(p.idx("LabelIdx").w("Control(LabelIdx(")?); Instruction::BrOnNull(a1) }
        214 => { let a1 = LabelIdx(p.idx("LabelIdx").w("Control(LabelIdx(")?); Instruction::BrOnNonNull(a1) }
        _ => return Err(E::unknown()),
    })
}
pub fn fb(p: &mut P, op: u32) -> R<Instruction> {
    Ok(match op {
        0 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::StructNew(a1) }
        1 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::StructNewDefault(a1) }
        2 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = p.u32().w("Aggregate(FieldIndex(")?; Instruction::StructGet(a1, a2) }
        3 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = p.u32().w("Aggregate(FieldIndex(")?; Instruction::StructGetS(a1, a2) }
        4 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = p.u32().w("Aggregate(FieldIndex(")?; Instruction::StructGetU(a1, a2) }
        5 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = p.u32().w("Aggregate(FieldIndex(")?; Instruction::StructSet(a1, a2) }
        6 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayNew(a1) }
        7 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayNewDefault(a1) }
        8 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = p.u32().w("Aggregate(ArrayFixedLength(")?; Instruction::ArrayNewFixed(a1, a2) }
        9 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = DataIdx(p.idx("DataIdx").w("Aggregate(DataIdx(")?); Instruction::ArrayNewData(a1, a2) }
        10 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = ElemIdx(p.idx("ElemIdx").w("Aggregate(ElemIdx(")?); Instruction::ArrayNewElem(a1, a2) }
        11 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayGet(a1) }
        12 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayGetS(a1) }
        13 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayGetU(a1) }
        14 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArraySet(a1) }
        15 => { Instruction::ArrayLen }
        16 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayFill(a1) }
        17 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); Instruction::ArrayCopy(a1, a2) }
        18 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = DataIdx(p.idx("DataIdx").w("Aggregate(DataIdx(")?); Instruction::ArrayInitData(a1, a2) }
        19 => { let a1 = TypeIdx(p.idx("TypeIdx").w("Aggregate(TypeIdx(")?); let a2 = ElemIdx(p.idx("ElemIdx").w("Aggregate(ElemIdx(")?); Instruction::ArrayInitElem(a1, a2) }
        26 => { Instruction::AnyConvertExtern }
        27 => { Instruction::ExternConvertAny }
        28 => { Instruction::RefI31 }
        29 => { Instruction::I31GetS }
        30 => { Instruction::I31GetU }
        _ => return Err(E::unknown()),
    })
}
pub fn fc(p: &mut P, op: u32) -> R<Instruction> {
    Ok(match op {
        0 => { Instruction::I32TruncSatF32S }
        1 => { Instruction::I32TruncSatF32U }
        2 => { Instruction::I32TruncSatF64S }
        3 => { Instruction::I32TruncSatF64U }
        4 => { Instruction::I64TruncSatF32S }
        5 => { Instruction::I64TruncSatF32U }
        6 => { Instruction::I64TruncSatF64S }
        7 => { Instruction::I64TruncSatF64U }
        8 => { let a1 = DataIdx(p.idx("DataIdx").w("Memory(DecodeDataIdx(")?); let a2 = MemIdx(p.idx("MemIdx").w("Memory(DecodeMemIdx(")?); Instruction::MemoryInit(a2, a1) }
        9 => { let a1 = DataIdx(p.idx("DataIdx").w("Memory(DecodeDataIdx(")?); Instruction::DataDrop(a1) }
        10 => { let a1 = MemIdx(p.idx("MemIdx").w("Memory(DecodeMemIdx(")?); let a2 = MemIdx(p.idx("MemIdx").w("Memory(DecodeMemIdx(")?); Instruction::MemoryCopy(a1, a2) }
        11 => { let a1 = MemIdx(p.idx("MemIdx").w("Memory(DecodeMemIdx(")?); Instruction::MemoryFill(a1) }
        12 => { let a1 = ElemIdx(p.idx("ElemIdx").w("Table(ElemIdx(")?); let a2 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableInit(a2, a1) }
        13 => { let a1 = ElemIdx(p.idx("ElemIdx").w("Table(ElemIdx(")?); Instruction::ElemDrop(a1) }
        14 => { let a1 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); let a2 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableCopy(a1, a2) }
        15 => { let a1 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableGrow(a1) }
        16 => { let a1 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableSize(a1) }
        17 => { let a1 = TableIdx(p.idx("TableIdx").w("Table(TableIdx(")?); Instruction::TableFill(a1) }
        _ => return Err(E::unknown()),
    })
}
pub fn fd(p: &mut P, op: u32) -> R<Instruction> {
    Ok(match op {
        0 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load(a1) }
        1 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load8x8S(a1) }
        2 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load8x8U(a1) }
        3 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load16x4S(a1) }
        4 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load16x4U(a1) }
        5 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load32x2S(a1) }
        6 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load32x2U(a1) }
        7 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load8Splat(a1) }
        8 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load16Splat(a1) }
        9 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load32Splat(a1) }
        10 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load64Splat(a1) }
        11 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Store(a1) }
        12 => { let a1 = p.b16().w("Vector(ReadImmediateBytes(")?; Instruction::V128Const(a1) }
        13 => { let a1 = p.lane16().w("Vector(ReadImmediateBytes(")?; Instruction::I8x16Shuffle(a1) }
        14 => { Instruction::I8x16Swizzle }
        15 => { Instruction::I8x16Splat }
        16 => { Instruction::I16x8Splat }
        17 => { Instruction::I32x4Splat }
        18 => { Instruction::I64x2Splat }
        19 => { Instruction::F32x4Splat }
        20 => { Instruction::F64x2Splat }
        21 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I8x16ExtractLaneS(a1) }
        22 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I8x16ExtractLaneU(a1) }
        23 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I8x16ReplaceLane(a1) }
        24 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I16x8ExtractLaneS(a1) }
        25 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I16x8ExtractLaneU(a1) }
        26 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I16x8ReplaceLane(a1) }
        27 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I32x4ExtractLane(a1) }
        28 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I32x4ReplaceLane(a1) }
        29 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I64x2ExtractLane(a1) }
        30 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::I64x2ReplaceLane(a1) }
        31 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::F32x4ExtractLane(a1) }
        32 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::F32x4ReplaceLane(a1) }
        33 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::F64x2ExtractLane(a1) }
        34 => { let a1 = p.lane().w("Vector(LaneIdx(")?; Instruction::F64x2ReplaceLane(a1) }
        35 => { Instruction::I8x16Eq }
        36 => { Instruction::I8x16Ne }
        37 => { Instruction::I8x16LtS }
        38 => { Instruction::I8x16LtU }
        39 => { Instruction::I8x16GtS }
        40 => { Instruction::I8x16GtU }
        41 => { Instruction::I8x16LeS }
        42 => { Instruction::I8x16LeU }
        43 => { Instruction::I8x16GeS }
        44 => { Instruction::I8x16GeU }
        45 => { Instruction::I16x8Eq }
        46 => { Instruction::I16x8Ne }
        47 => { Instruction::I16x8LtS }
        48 => { Instruction::I16x8LtU }
        49 => { Instruction::I16x8GtS }
        50 => { Instruction::I16x8GtU }
        51 => { Instruction::I16x8LeS }
        52 => { Instruction::I16x8LeU }
        53 => { Instruction::I16x8GeS }
        54 => { Instruction::I16x8GeU }
        55 => { Instruction::I32x4Eq }
        56 => { Instruction::I32x4Ne }
        57 => { Instruction::I32x4LtS }
        58 => { Instruction::I32x4LtU }
        59 => { Instruction::I32x4GtS }
        60 => { Instruction::I32x4GtU }
        61 => { Instruction::I32x4LeS }
        62 => { Instruction::I32x4LeU }
        63 => { Instruction::I32x4GeS }
        64 => { Instruction::I32x4GeU }
        65 => { Instruction::F32x4Eq }
        66 => { Instruction::F32x4Ne }
        67 => { Instruction::F32x4Lt }
        68 => { Instruction::F32x4Gt }
        69 => { Instruction::F32x4Le }
        70 => { Instruction::F32x4Ge }
        71 => { Instruction::F64x2Eq }
        72 => { Instruction::F64x2Ne }
        73 => { Instruction::F64x2Lt }
        74 => { Instruction::F64x2Gt }
        75 => { Instruction::F64x2Le }
        76 => { Instruction::F64x2Ge }
        77 => { Instruction::V128Not }
        78 => { Instruction::V128And }
        79 => { Instruction::V128AndNot }
        80 => { Instruction::V128Or }
        81 => { Instruction::V128Xor }
        82 => { Instruction::V128Bitselect }
        83 => { Instruction::V128AnyTrue }
        84 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Load8Lane(a1, a2) }
        85 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Load16Lane(a1, a2) }
        86 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Load32Lane(a1, a2) }
        87 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Load64Lane(a1, a2) }
        88 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Store8Lane(a1, a2) }
        89 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Store16Lane(a1, a2) }
        90 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Store32Lane(a1, a2) }
        91 => { let a1 = p.memarg().w("Vector(Memarg(")?; let a2 = p.lane().w("Vector(LaneIdx(")?; Instruction::V128Store64Lane(a1, a2) }
        92 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load32Zero(a1) }
        93 => { let a1 = p.memarg().w("Vector(Memarg(")?; Instruction::V128Load64Zero(a1) }
        94 => { Instruction::F32x4DemoteF64x2Zero }
        95 => { Instruction::F64x2PromoteLowF32x4 }
        96 => { Instruction::I8x16Abs }
        97 => { Instruction::I8x16Neg }
        98 => { Instruction::I8x16Popcnt }
        99 => { Instruction::I8x16AllTrue }
        100 => { Instruction::I8x16Bitmask }
        101 => { Instruction::I8x16NarrowI16x8S }
        102 => { Instruction::I8x16NarrowI16x8U }
        103 => { Instruction::F32x4Ceil }
        104 => { Instruction::F32x4Floor }
        105 => { Instruction::F32x4Trunc }
        106 => { Instruction::F32x4Nearest }
        107 => { Instruction::I8x16Shl }
        108 => { Instruction::I8x16ShrS }
        109 => { Instruction::I8x16ShrU }
        110 => { Instruction::I8x16Add }
        111 => { Instruction::I8x16AddSatS }
        112 => { Instruction::I8x16AddSatU }
        113 => { Instruction::I8x16Sub }
        114 => { Instruction::I8x16SubSatS }
        115 => { Instruction::I8x16SubSatU }
        116 => { Instruction::F64x2Ceil }
        117 => { Instruction::F64x2Floor }
        118 => { Instruction::I8x16MinS }
        119 => { Instruction::I8x16MinU }
        120 => { Instruction::I8x16MaxS }
        121 => { Instruction::I8x16MaxU }
        122 => { Instruction::F64x2Trunc }
        123 => { Instruction::I8x16AvgrU }
        124 => { Instruction::I16x8ExtaddPairwiseI8x16S }
        125 => { Instruction::I16x8ExtaddPairwiseI8x16U }
        126 => { Instruction::I32x4ExtaddPairwiseI16x8S }
        127 => { Instruction::I32x4ExtaddPairwiseI16x8U }
        128 => { Instruction::I16x8Abs }
        129 => { Instruction::I16x8Neg }
        130 => { Instruction::I16x8Q15MulrSatS }
        131 => { Instruction::I16x8AllTrue }
        132 => { Instruction::I16x8Bitmask }
        133 => { Instruction::I16x8NarrowI32x4S }
        134 => { Instruction::I16x8NarrowI32x4U }
        135 => { Instruction::I16x8ExtendLowI8x16S }
        136 => { Instruction::I16x8ExtendHighI8x16S }
        137 => { Instruction::I16x8ExtendLowI8x16U }
        138 => { Instruction::I16x8ExtendHighI8x16U }
        139 => { Instruction::I16x8Shl }
        140 => { Instruction::I16x8ShrS }
        141 => { Instruction::I16x8ShrU }
        142 => { Instruction::I16x8Add }
        143 => { Instruction::I16x8AddSatS }
        144 => { Instruction::I16x8AddSatU }
        145 => { Instruction::I16x8Sub }
        146 => { Instruction::I16x8SubSatS }
        147 => { Instruction::I16x8SubSatU }
        148 => { Instruction::F64x2Nearest }
        149 => { Instruction::I16x8Mul }
        150 => { Instruction::I16x8MinS }
        151 => { Instruction::I16x8MinU }
        152 => { Instruction::I16x8MaxS }
        153 => { Instruction::I16x8MaxU }
        155 => { Instruction::I16x8AvgrU }
        156 => { Instruction::I16x8ExtmulLowI8x16S }
        157 => { Instruction::I16x8ExtmulHighI8x16S }
        158 => { Instruction::I16x8ExtmulLowI8x16U }
        159 => { Instruction::I16x8ExtmulHighI8x16U }
        160 => { Instruction::I32x4Abs }
        161 => { Instruction::I32x4Neg }
        163 => { Instruction::I32x4AllTrue }
        164 => { Instruction::I32x4Bitmask }
        167 => { Instruction::I32x4ExtendLowI16x8S }
        168 => { Instruction::I32x4ExtendHighI16x8S }
        169 => { Instruction::I32x4ExtendLowI16x8U }
        170 => { Instruction::I32x4ExtendHighI16x8U }
        171 => { Instruction::I32x4Shl }
        172 => { Instruction::I32x4ShrS }
        173 => { Instruction::I32x4ShrU }
        174 => { Instruction::I32x4Add }
        177 => { Instruction::I32x4Sub }
        181 => { Instruction::I32x4Mul }
        182 => { Instruction::I32x4MinS }
        183 => { Instruction::I32x4MinU }
        184 => { Instruction::I32x4MaxS }
        185 => { Instruction::I32x4MaxU }
        186 => { Instruction::I32x4DotI16x8S }
        188 => { Instruction::I32x4ExtmulLowI16x8S }
        189 => { Instruction::I32x4ExtmulHighI16x8S }
        190 => { Instruction::I32x4ExtmulLowI16x8U }
        191 => { Instruction::I32x4ExtmulHighI16x8U }
        192 => { Instruction::I64x2Abs }
        193 => { Instruction::I64x2Neg }
        195 => { Instruction::I64x2AllTrue }
        196 => { Instruction::I64x2Bitmask }
        199 => { Instruction::I64x2ExtendLowI32x4S }
        200 => { Instruction::I64x2ExtendHighI32x4S }
        201 => { Instruction::I64x2ExtendLowI32x4U }
        202 => { Instruction::I64x2ExtendHighI32x4U }
        203 => { Instruction::I64x2Shl }
        204 => { Instruction::I64x2ShrS }
        205 => { Instruction::I64x2ShrU }
        206 => { Instruction::I64x2Add }
        209 => { Instruction::I64x2Sub }
        213 => { Instruction::I64x2Mul }
        214 => { Instruction::I64x2Eq }
        215 => { Instruction::I64x2Ne }
        216 => { Instruction::I64x2LtS }
        217 => { Instruction::I64x2GtS }
        218 => { Instruction::I64x2LeS }
        219 => { Instruction::I64x2GeS }
        220 => { Instruction::I64x2ExtmulLowI32x4S }
        221 => { Instruction::I64x2ExtmulHighI32x4S }
        222 => { Instruction::I64x2ExtmulLowI32x4U }
        223 => { Instruction::I64x2ExtmulHighI32x4U }
        224 => { Instruction::F32x4Abs }
        225 => { Instruction::F32x4Neg }
        227 => { Instruction::F32x4Sqrt }
        228 => { Instruction::F32x4Add }
        229 => { Instruction::F32x4Sub }
        230 => { Instruction::F32x4Mul }
        231 => { Instruction::F32x4Div }
        232 => { Instruction::F32x4Min }
        233 => { Instruction::F32x4Max }
        234 => { Instruction::F32x4PMin }
        235 => { Instruction::F32x4PMax }
        236 => { Instruction::F64x2Abs }
        237 => { Instruction::F64x2Neg }
        239 => { Instruction::F64x2Sqrt }
        240 => { Instruction::F64x2Add }
        241 => { Instruction::F64x2Sub }
        242 => { Instruction::F64x2Mul }
        243 => { Instruction::F64x2Div }
        244 => { Instruction::F64x2Min }
        245 => { Instruction::F64x2Max }
        246 => { Instruction::F64x2PMin }
        247 => { Instruction::F64x2PMax }
        248 => { Instruction::I32x4TruncSatF32x4S }
        249 => { Instruction::I32x4TruncSatF32x4U }
        250 => { Instruction::F32x4ConvertI32x4S }
        251 => { Instruction::F32x4ConvertI32x4U }
        252 => { Instruction::I32x4TruncSatF64x2SZero }
        253 => { Instruction::I32x4TruncSatF64x2UZero }
        254 => { Instruction::F64x2ConvertLowI32x4S }
        255 => { Instruction::F64x2ConvertLowI32x4U }
        256 => { Instruction::I8x16RelaxedSwizzle }
        257 => { Instruction::I32x4RelaxedTruncF32x4S }
        258 => { Instruction::I32x4RelaxedTruncF32x4U }
        259 => { Instruction::I32x4RelaxedTruncF64x2SZero }
        260 => { Instruction::I32x4RelaxedTruncF64x2UZero }
        261 => { Instruction::F32x4RelaxedMAdd }
        262 => { Instruction::F32x4RelaxedNMAdd }
        263 => { Instruction::F64x2RelaxedMAdd }
        264 => { Instruction::F64x2RelaxedNMAdd }
        265 => { Instruction::I8x16RelaxedLaneSelect }
        266 => { Instruction::I16x8RelaxedLaneSelect }
        267 => { Instruction::I32x4RelaxedLaneSelect }
        268 => { Instruction::I64x2RelaxedLaneSelect }
        269 => { Instruction::F32x4RelaxedMin }
        270 => { Instruction::F32x4RelaxedMax }
        271 => { Instruction::F64x2RelaxedMin }
        272 => { Instruction::F64x2RelaxedMax }
        273 => { Instruction::I16x8RelaxedQ15MulrS }
        274 => { Instruction::I16x8RelaxedDotSI8x16 }
        275 => { Instruction::I32x4RelaxedDotAddSI16x8 }
        _ => return Err(E::unknown()),
    })
}
pub const OPS: &[(u8, u32, &[&str])] = &[
    (0x00, 0, &[]),
    (0x00, 1, &[]),
    (0x00, 8, &["idx"]),
    (0x00, 10, &[]),
    (0x00, 12, &["idx"]),
    (0x00, 13, &["idx"]),
    (0x00, 15, &[]),
    (0x00, 16, &["idx"]),
    (0x00, 17, &["idx", "idx"]),
    (0x00, 18, &["idx"]),
    (0x00, 19, &["idx", "idx"]),
    (0x00, 20, &["idx"]),
    (0x00, 21, &["idx"]),
    (0x00, 26, &[]),
    (0x00, 32, &["idx"]),
    (0x00, 33, &["idx"]),
    (0x00, 34, &["idx"]),
    (0x00, 35, &["idx"]),
    (0x00, 36, &["idx"]),
    (0x00, 37, &["idx"]),
    (0x00, 38, &["idx"]),
    (0x00, 40, &["memarg"]),
    (0x00, 41, &["memarg"]),
    (0x00, 42, &["memarg"]),
    (0x00, 43, &["memarg"]),
    (0x00, 44, &["memarg"]),
    (0x00, 45, &["memarg"]),
    (0x00, 46, &["memarg"]),
    (0x00, 47, &["memarg"]),
    (0x00, 48, &["memarg"]),
    (0x00, 49, &["memarg"]),
    (0x00, 50, &["memarg"]),
    (0x00, 51, &["memarg"]),
    (0x00, 52, &["memarg"]),
    (0x00, 53, &["memarg"]),
    (0x00, 54, &["memarg"]),
    (0x00, 55, &["memarg"]),
    (0x00, 56, &["memarg"]),
    (0x00, 57, &["memarg"]),
    (0x00, 58, &["memarg"]),
    (0x00, 59, &["memarg"]),
    (0x00, 60, &["memarg"]),
    (0x00, 61, &["memarg"]),
    (0x00, 62, &["memarg"]),
    (0x00, 63, &["idx"]),
    (0x00, 64, &["idx"]),
    (0x00, 65, &["i32"]),
    (0x00, 66, &["i64"]),
    (0x00, 67, &["f32"]),
    (0x00, 68, &["f64"]),
    (0x00, 69, &[]),
    (0x00, 70, &[]),
    (0x00, 71, &[]),
    (0x00, 72, &[]),
    (0x00, 73, &[]),
    (0x00, 74, &[]),
    (0x00, 75, &[]),
    (0x00, 76, &[]),
    (0x00, 77, &[]),
    (0x00, 78, &[]),
    (0x00, 79, &[]),
    (0x00, 80, &[]),
    (0x00, 81, &[]),
    (0x00, 82, &[]),
    (0x00, 83, &[]),
    (0x00, 84, &[]),
    (0x00, 85, &[]),
    (0x00, 86, &[]),
    (0x00, 87, &[]),
    (0x00, 88, &[]),
    (0x00, 89, &[]),
    (0x00, 90, &[]),
    (0x00, 91, &[]),
    (0x00, 92, &[]),
    (0x00, 93, &[]),
    (0x00, 94, &[]),
    (0x00, 95, &[]),
    (0x00, 96, &[]),
    (0x00, 97, &[]),
    (0x00, 98, &[]),
    (0x00, 99, &[]),
    (0x00, 100, &[]),
    (0x00, 101, &[]),
    (0x00, 102, &[]),
    (0x00, 103, &[]),
    (0x00, 104, &[]),
    (0x00, 105, &[]),
    (0x00, 106, &[]),
    (0x00, 107, &[]),
    (0x00, 108, &[]),
    (0x00, 109, &[]),
    (0x00, 110, &[]),
    (0x00, 111, &[]),
    (0x00, 112, &[]),
    (0x00, 113, &[]),
    (0x00, 114, &[]),
    (0x00, 115, &[]),
    (0x00, 116, &[]),
    (0x00, 117, &[]),
    (0x00, 118, &[]),
    (0x00, 119, &[]),
    (0x00, 120, &[]),
    (0x00, 121, &[]),
    (0x00, 122, &[]),
    (0x00, 123, &[]),
    (0x00, 124, &[]),
    (0x00, 125, &[]),
    (0x00, 126, &[]),
    (0x00, 127, &[]),
    (0x00, 128, &[]),
    (0x00, 129, &[]),
    (0x00, 130, &[]),
    (0x00, 131, &[]),
    (0x00, 132, &[]),
    (0x00, 133, &[]),
    (0x00, 134, &[]),
    (0x00, 135, &[]),
    (0x00, 136, &[]),
    (0x00, 137, &[]),
    (0x00, 138, &[]),
    (0x00, 139, &[]),
    (0x00, 140, &[]),
    (0x00, 141, &[]),
    (0x00, 142, &[]),
    (0x00, 143, &[]),
    (0x00, 144, &[]),
    (0x00, 145, &[]),
    (0x00, 146, &[]),
    (0x00, 147, &[]),
    (0x00, 148, &[]),
    (0x00, 149, &[]),
    (0x00, 150, &[]),
    (0x00, 151, &[]),
    (0x00, 152, &[]),
    (0x00, 153, &[]),
    (0x00, 154, &[]),
    (0x00, 155, &[]),
    (0x00, 156, &[]),
    (0x00, 157, &[]),
    (0x00, 158, &[]),
    (0x00, 159, &[]),
    (0x00, 160, &[]),
    (0x00, 161, &[]),
    (0x00, 162, &[]),
    (0x00, 163, &[]),
    (0x00, 164, &[]),
    (0x00, 165, &[]),
    (0x00, 166, &[]),
    (0x00, 167, &[]),
    (0x00, 168, &[]),
    (0x00, 169, &[]),
    (0x00, 170, &[]),
    (0x00, 171, &[]),
    (0x00, 172, &[]),
    (0x00, 173, &[]),
    (0x00, 174, &[]),
    (0x00, 175, &[]),
    (0x00, 176, &[]),
    (0x00, 177, &[]),
    (0x00, 178, &[]),
    (0x00, 179, &[]),
    (0x00, 180, &[]),
    (0x00, 181, &[]),
    (0x00, 182, &[]),
    (0x00, 183, &[]),
    (0x00, 184, &[]),
    (0x00, 185, &[]),
    (0x00, 186, &[]),
    (0x00, 187, &[]),
    (0x00, 188, &[]),
    (0x00, 189, &[]),
    (0x00, 190, &[]),
    (0x00, 191, &[]),
    (0x00, 192, &[]),
    (0x00, 193, &[]),
    (0x00, 194, &[]),
    (0x00, 195, &[]),
    (0x00, 196, &[]),
    (0x00, 208, &["heaptype"]),
    (0x00, 209, &[]),
    (0x00, 210, &["idx"]),
    (0x00, 211, &[]),
    (0x00, 212, &[]),
    (0x00, 213, &["idx"]),
    (0x00, 214, &["idx"]),
    (0xFB, 0, &["idx"]),
    (0xFB, 1, &["idx"]),
    (0xFB, 2, &["idx", "u32"]),
    (0xFB, 3, &["idx", "u32"]),
    (0xFB, 4, &["idx", "u32"]),
    (0xFB, 5, &["idx", "u32"]),
    (0xFB, 6, &["idx"]),
    (0xFB, 7, &["idx"]),
    (0xFB, 8, &["idx", "u32"]),
    (0xFB, 9, &["idx", "idx"]),
    (0xFB, 10, &["idx", "idx"]),
    (0xFB, 11, &["idx"]),
    (0xFB, 12, &["idx"]),
    (0xFB, 13, &["idx"]),
    (0xFB, 14, &["idx"]),
    (0xFB, 15, &[]),
    (0xFB, 16, &["idx"]),
    (0xFB, 17, &["idx", "idx"]),
    (0xFB, 18, &["idx", "idx"]),
    (0xFB, 19, &["idx", "idx"]),
    (0xFB, 26, &[]),
    (0xFB, 27, &[]),
    (0xFB, 28, &[]),
    (0xFB, 29, &[]),
    (0xFB, 30, &[]),
    (0xFC, 0, &[]),
    (0xFC, 1, &[]),
    (0xFC, 2, &[]),
    (0xFC, 3, &[]),
    (0xFC, 4, &[]),
    (0xFC, 5, &[]),
    (0xFC, 6, &[]),
    (0xFC, 7, &[]),
    (0xFC, 8, &["idx", "idx"]),
    (0xFC, 9, &["idx"]),
    (0xFC, 10, &["idx", "idx"]),
    (0xFC, 11, &["idx"]),
    (0xFC, 12, &["idx", "idx"]),
    (0xFC, 13, &["idx"]),
    (0xFC, 14, &["idx", "idx"]),
    (0xFC, 15, &["idx"]),
    (0xFC, 16, &["idx"]),
    (0xFC, 17, &["idx"]),
    (0xFD, 0, &["memarg"]),
    (0xFD, 1, &["memarg"]),
    (0xFD, 2, &["memarg"]),
    (0xFD, 3, &["memarg"]),
    (0xFD, 4, &["memarg"]),
    (0xFD, 5, &["memarg"]),
    (0xFD, 6, &["memarg"]),
    (0xFD, 7, &["memarg"]),
    (0xFD, 8, &["memarg"]),
    (0xFD, 9, &["memarg"]),
    (0xFD, 10, &["memarg"]),
    (0xFD, 11, &["memarg"]),
    (0xFD, 12, &["b16"]),
    (0xFD, 13, &["lane16"]),
    (0xFD, 14, &[]),
    (0xFD, 15, &[]),
    (0xFD, 16, &[]),
    (0xFD, 17, &[]),
    (0xFD, 18, &[]),
    (0xFD, 19, &[]),
    (0xFD, 20, &[]),
    (0xFD, 21, &["lane"]),
    (0xFD, 22, &["lane"]),
    (0xFD, 23, &["lane"]),
    (0xFD, 24, &["lane"]),
    (0xFD, 25, &["lane"]),
    (0xFD, 26, &["lane"]),
    (0xFD, 27, &["lane"]),
    (0xFD, 28, &["lane"]),
    (0xFD, 29, &["lane"]),
    (0xFD, 30, &["lane"]),
    (0xFD, 31, &["lane"]),
    (0xFD, 32, &["lane"]),
    (0xFD, 33, &["lane"]),
    (0xFD, 34, &["lane"]),
    (0xFD, 35, &[]),
    (0xFD, 36, &[]),
    (0xFD, 37, &[]),
    (0xFD, 38, &[]),
    (0xFD, 39, &[]),
    (0xFD, 40, &[]),
    (0xFD, 41, &[]),
    (0xFD, 42, &[]),
    (0xFD, 43, &[]),
    (0xFD, 44, &[]),
    (0xFD, 45, &[]),
    (0xFD, 46, &[]),
    (0xFD, 47, &[]),
    (0xFD, 48, &[]),
    (0xFD, 49, &[]),
    (0xFD, 50, &[]),
    (0xFD, 51, &[]),
    (0xFD, 52, &[]),
    (0xFD, 53, &[]),
    (0xFD, 54, &[]),
    (0xFD, 55, &[]),
    (0xFD, 56, &[]),
    (0xFD, 57, &[]),
    (0xFD, 58, &[]),
    (0xFD, 59, &[]),
    (0xFD, 60, &[]),
    (0xFD, 61, &[]),
    (0xFD, 62, &[]),
    (0xFD, 63, &[]),
    (0xFD, 64, &[]),
    (0xFD, 65, &[]),
    (0xFD, 66, &[]),
    (0xFD, 67, &[]),
    (0xFD, 68, &[]),
    (0xFD, 69, &[]),
    (0xFD, 70, &[]),
    (0xFD, 71, &[]),
    (0xFD, 72, &[]),
    (0xFD, 73, &[]),
    (0xFD, 74, &[]),
    (0xFD, 75, &[]),
    (0xFD, 76, &[]),
    (0xFD, 77, &[]),
    (0xFD, 78, &[]),
    (0xFD, 79, &[]),
    (0xFD, 80, &[]),
    (0xFD, 81, &[]),
    (0xFD, 82, &[]),
    (0xFD, 83, &[]),
    (0xFD, 84, &["memarg", "lane"]),
    (0xFD, 85, &["memarg", "lane"]),
    (0xFD, 86, &["memarg", "lane"]),
    (0xFD, 87, &["memarg", "lane"]),
    (0xFD, 88, &["memarg", "lane"]),
    (0xFD, 89, &["memarg", "lane"]),
    (0xFD, 90, &["memarg", "lane"]),
    (0xFD, 91, &["memarg", "lane"]),
    (0xFD, 92, &["memarg"]),
    (0xFD, 93, &["memarg"]),
    (0xFD, 94, &[]),
    (0xFD, 95, &[]),
    (0xFD, 96, &[]),
    (0xFD, 97, &[]),
    (0xFD, 98, &[]),
    (0xFD, 99, &[]),
    (0xFD, 100, &[]),
    (0xFD, 101, &[]),
    (0xFD, 102, &[]),
    (0xFD, 103, &[]),
    (0xFD, 104, &[]),
    (0xFD, 105, &[]),
    (0xFD, 106, &[]),
    (0xFD, 107, &[]),
    (0xFD, 108, &[]),
    (0xFD, 109, &[]),
    (0xFD, 110, &[]),
    (0xFD, 111, &[]),
    (0xFD, 112, &[]),
    (0xFD, 113, &[]),
    (0xFD, 114, &[]),
    (0xFD, 115, &[]),
    (0xFD, 116, &[]),
    (0xFD, 117, &[]),
    (0xFD, 118, &[]),
    (0xFD, 119, &[]),
    (0xFD, 120, &[]),
    (0xFD, 121, &[]),
    (0xFD, 122, &[]),
    (0xFD, 123, &[]),
    (0xFD, 124, &[]),
    (0xFD, 125, &[]),
    (0xFD, 126, &[]),
    (0xFD, 127, &[]),
    (0xFD, 128, &[]),
    (0xFD, 129, &[]),
    (0xFD, 130, &[]),
    (0xFD, 131, &[]),
    (0xFD, 132, &[]),
    (0xFD, 133, &[]),
    (0xFD, 134, &[]),
    (0xFD, 135, &[]),
    (0xFD, 136, &[]),
    (0xFD, 137, &[]),
    (0xFD, 138, &[]),
    (0xFD, 139, &[]),
    (0xFD, 140, &[]),
    (0xFD, 141, &[]),
    (0xFD, 142, &[]),
    (0xFD, 143, &[]),
    (0xFD, 144, &[]),
    (0xFD, 145, &[]),
    (0xFD, 146, &[]),
    (0xFD, 147, &[]),
    (0xFD, 148, &[]),
    (0xFD, 149, &[]),
    (0xFD, 150, &[]),
    (0xFD, 151, &[]),
    (0xFD, 152, &[]),
    (0xFD, 153, &[]),
    (0xFD, 155, &[]),
    (0xFD, 156, &[]),
    (0xFD, 157, &[]),
    (0xFD, 158, &[]),
    (0xFD, 159, &[]),
    (0xFD, 160, &[]),
    (0xFD, 161, &[]),
    (0xFD, 163, &[]),
    (0xFD, 164, &[]),
    (0xFD, 167, &[]),
    (0xFD, 168, &[]),
    (0xFD, 169, &[]),
    (0xFD, 170, &[]),
    (0xFD, 171, &[]),
    (0xFD, 172, &[]),
    (0xFD, 173, &[]),
    (0xFD, 174, &[]),
    (0xFD, 177, &[]),
    (0xFD, 181, &[]),
    (0xFD, 182, &[]),
    (0xFD, 183, &[]),
    (0xFD, 184, &[]),
    (0xFD, 185, &[]),
    (0xFD, 186, &[]),
    (0xFD, 188, &[]),
    (0xFD, 189, &[]),
    (0xFD, 190, &[]),
    (0xFD, 191, &[]),
    (0xFD, 192, &[]),
    (0xFD, 193, &[]),
    (0xFD, 195, &[]),
    (0xFD, 196, &[]),
    (0xFD, 199, &[]),
    (0xFD, 200, &[]),
    (0xFD, 201, &[]),
    (0xFD, 202, &[]),
    (0xFD, 203, &[]),
    (0xFD, 204, &[]),
    (0xFD, 205, &[]),
    (0xFD, 206, &[]),
    (0xFD, 209, &[]),
    (0xFD, 213, &[]),
    (0xFD, 214, &[]),
    (0xFD, 215, &[]),
    (0xFD, 216, &[]),
    (0xFD, 217, &[]),
    (0xFD, 218, &[]),
    (0xFD, 219, &[]),
    (0xFD, 220, &[]),
    (0xFD, 221, &[]),
    (0xFD, 222, &[]),
    (0xFD, 223, &[]),
    (0xFD, 224, &[]),
    (0xFD, 225, &[]),
    (0xFD, 227, &[]),
    (0xFD, 228, &[]),
    (0xFD, 229, &[]),
    (0xFD, 230, &[]),
    (0xFD, 231, &[]),
    (0xFD, 232, &[]),
    (0xFD, 233, &[]),
    (0xFD, 234, &[]),
    (0xFD, 235, &[]),
    (0xFD, 236, &[]),
    (0xFD, 237, &[]),
    (0xFD, 239, &[]),
    (0xFD, 240, &[]),
    (0xFD, 241, &[]),
    (0xFD, 242, &[]),
    (0xFD, 243, &[]),
    (0xFD, 244, &[]),
    (0xFD, 245, &[]),
    (0xFD, 246, &[]),
    (0xFD, 247, &[]),
    (0xFD, 248, &[]),
    (0xFD, 249, &[]),
    (0xFD, 250, &[]),
    (0xFD, 251, &[]),
    (0xFD, 252, &[]),
    (0xFD, 253, &[]),
    (0xFD, 254, &[]),
    (0xFD, 255, &[]),
    (0xFD, 256, &[]),
    (0xFD, 257, &[]),
    (0xFD, 258, &[]),
    (0xFD, 259, &[]),
    (0xFD, 260, &[]),
    (0xFD, 261, &[]),
    (0xFD, 262, &[]),
    (0xFD, 263, &[]),
    (0xFD, 264, &[]),
    (0xFD, 265, &[]),
    (0xFD, 266, &[]),
    (0xFD, 267, &[]),
    (0xFD, 268, &[]),
    (0xFD, 269, &[]),
    (0xFD, 270, &[]),
    (0xFD, 271, &[]),
    (0xFD, 272, &[]),
    (0xFD, 273, &[]),
    (0xFD, 274, &[]),
    (0xFD, 275, &[]),
];
