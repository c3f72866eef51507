## instructions (5.4)
=== fn Memarg::decode
parser: sp_memarg
=== fn LaneIdx::new
--- ensures
res == LaneIdx($0),
=== fn LaneIdx::decode
parser: sp_lane
=== fn BlockType::decode
parser: sp_blocktype
--- start
proof { reveal(sp_s33); }
=== fn Catch::decode
parser: sp_catch
=== fn decode_castop
parser: sp_castop
=== fn Instruction::parse
attr: verifier::rlimit(1000)
attr: verifier::allow_complex_invariants
parser: sp_instr
--- decreases
(*old($0)).rem().len(),
--- cases
(*old($0)).rem().len() > 0 && (2 <= (*old($0)).rem()[0] <= 4 || (*old($0)).rem()[0] == 0x1F)
(*old($0)).rem().len() > 0 && 0x20 <= (*old($0)).rem()[0] <= 0x7F
(*old($0)).rem().len() > 0 && 0x80 <= (*old($0)).rem()[0] <= 0xFA
((*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFB) && sp_u32((*old($0)).rem().skip(1)) is None
((*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFB) && sp_u32((*old($0)).rem().skip(1)) is Some && (sp_u32((*old($0)).rem().skip(1))->0).0 < 20
((*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFB) && sp_u32((*old($0)).rem().skip(1)) is Some && 20 <= (sp_u32((*old($0)).rem().skip(1))->0).0 <= 23
((*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFB) && sp_u32((*old($0)).rem().skip(1)) is Some && (sp_u32((*old($0)).rem().skip(1))->0).0 == 24
((*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFB) && sp_u32((*old($0)).rem().skip(1)) is Some && (sp_u32((*old($0)).rem().skip(1))->0).0 == 25
((*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFB) && sp_u32((*old($0)).rem().skip(1)) is Some && (sp_u32((*old($0)).rem().skip(1))->0).0 > 25
(*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFC
(*old($0)).rem().len() > 0 && (*old($0)).rem()[0] == 0xFD
(*old($0)).rem().len() == 0 || (*old($0)).rem()[0] < 2 || 4 < (*old($0)).rem()[0] < 0x1F || (*old($0)).rem()[0] > 0xFD
--- start
proof { vcu_Instruction(); }
let ghost s0 = (*$0).rem();
proof { b_why_instr(s0); b_why_instr1(s0); } //why_instr
let ghost rd0 = *$0;
--- loop 0
invariant_except_break
    sp_instr(s0) == k_block(op, bt, sp_seq(vs_Instruction(in1@), (*$0).rem()), s0.len() as int),
    forall|e: ParseError| why_body(e, (*$0).rem(), op == 4) ==> #[trigger] why_instr(e, s0), //@C15
invariant
    in1@.len() + (*$0).rem().len() < s0.len(), //@C16
    rd0.rem() == s0, $R::adv(&rd0, &*$0), (*$0).rem().len() < s0.len(), 2 <= op <= 4,
ensures
    match parsed {
        ParseResult::End => sp_instr(s0) == k_block(op, bt, Some((vs_Instruction(in1@), false, (*$0).rem())), s0.len() as int),
        ParseResult::Else => op == 4 && sp_instr(s0) == k_block(op, bt, Some((vs_Instruction(in1@), true, (*$0).rem())), s0.len() as int),
        ParseResult::Instruction(_) => false,
    },
    forall|e: ParseError| parsed is Else && why_body(e, (*$0).rem(), false) ==> #[trigger] why_instr(e, s0), //@C15
decreases
    (*$0).rem().len(),
--- loop 1
invariant_except_break
    sp_instr(s0) == k_else(bt, vs_Instruction(in1@), sp_seq(vs_Instruction(in2@), (*$0).rem())),
    forall|e: ParseError| why_body(e, (*$0).rem(), false) ==> #[trigger] why_instr(e, s0), //@C15
invariant
    in2@.len() + (*$0).rem().len() < s0.len(), //@C16
    rd0.rem() == s0, $R::adv(&rd0, &*$0), (*$0).rem().len() < s0.len(),
ensures
    sp_instr(s0) == k_else(bt, vs_Instruction(in1@), Some((vs_Instruction(in2@), false, (*$0).rem()))),
decreases
    (*$0).rem().len(),
--- loop 2
invariant_except_break
    sp_instr(s0) == k_try(bt, c@, sp_seq(vs_Instruction(ins@), (*$0).rem())),
    forall|e: ParseError| why_body(e, (*$0).rem(), false) ==> #[trigger] why_instr(e, s0), //@C15
invariant
    ins@.len() + (*$0).rem().len() < s0.len(), //@C16
    rd0.rem() == s0, $R::adv(&rd0, &*$0), (*$0).rem().len() < s0.len(),
ensures
    sp_instr(s0) == k_try(bt, c@, Some((vs_Instruction(ins@), false, (*$0).rem()))),
decreases
    (*$0).rem().len(),
=== fn decode_expr
why: why_expr
attr: verifier::allow_complex_invariants
--- ensures
match res {
    Ok((v, d)) => sp_expr((*old($0)).rem()) == Some((vs_Instruction(v@), (*final($0)).rem())) && d == has_didx_seq(vs_Instruction(v@)) && $R::adv(&*old($0), &*final($0)) && (*final($0)).rem().len() < (*old($0)).rem().len(),
    Err(_) => sp_expr((*old($0)).rem()) is None,
},
res matches Ok(v) ==> v.0@.len() + (*final($0)).rem().len() <= (*old($0)).rem().len(), //@C16
--- start
proof { reveal(sp_expr); }
let ghost s0 = (*$0).rem();
let ghost rd0 = *$0;
--- loop 0
invariant_except_break
    sp_seq(seq![], s0) == sp_seq(vs_Instruction(body@), (*$0).rem()),
    forall|e: ParseError| why_body(e, (*$0).rem(), false) ==> #[trigger] why_body(e, s0, false), //@C15
invariant
    body@.len() + (*$0).rem().len() <= s0.len(), //@C16
    rd0.rem() == s0, $R::adv(&rd0, &*$0),
    encountered_data_index == has_didx_seq(vs_Instruction(body@)),
ensures
    sp_seq(seq![], s0) == Some((vs_Instruction(body@), false, (*$0).rem())),
decreases
    (*$0).rem().len(),
=== fn instruction_contains_data_index
--- ensures
res == has_didx(v_Instruction(*$0)),
--- decreases
$0,
--- start
proof { reveal(v_Instruction); }
=== fn any<instruction_contains_data_index>
--- ensures
res == has_didx_seq(vs_Instruction(items@)),
--- decreases
items,
--- loop 0
invariant
    i <= items@.len(),
    forall|j: int| 0 <= j < i ==> !has_didx(#[trigger] vs_Instruction(items@)[j]),
decreases
    items@.len() - i,
--- loop_start 0
proof { assert(vs_Instruction(items@)[i as int] == v_Instruction(items@[i as int])); if has_didx(v_Instruction(items@[i as int])) { didx_at(vs_Instruction(items@), i as int); } }
--- loop_after 0
proof { didx_none(vs_Instruction(items@)); }
