## LEB128 integers
=== fn decode_u32
parser: sp_u32
--- start
let ghost s0 = (*$0).rem();
let ghost rd0 = *$0;
proof { start_u32(s0); }
--- loop 0
invariant
    rd0.rem() == s0, $R::adv(&rd0, &*$0),
    shift == 7 * $i, $i <= 5,
    $i < 5 ==> inv_u32(s0, (*$0).rem(), result, shift),
    $i == 5 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2,
--- loop_measure 0
5 - $i
--- loop_start 0
proof { round_u32(s0, (*$0).rem(), result, shift); plus_u32(s0, (*$0).rem(), result, shift); }
=== fn decode_u64
parser: sp_u64
--- start
let ghost s0 = (*$0).rem();
let ghost rd0 = *$0;
proof { start_u64(s0); }
--- loop 0
invariant
    rd0.rem() == s0, $R::adv(&rd0, &*$0),
    shift == 7 * $i, $i <= 10,
    $i < 10 ==> inv_u64(s0, (*$0).rem(), result, shift),
    $i == 10 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2,
--- loop_measure 0
10 - $i
--- loop_start 0
proof { round_u64(s0, (*$0).rem(), result, shift); plus_u64(s0, (*$0).rem(), result, shift); }
=== fn decode_i32
parser: sp_i32
--- start
let ghost s0 = (*$0).rem();
let ghost rd0 = *$0;
proof { start_i32(s0); }
--- loop 0
invariant
    rd0.rem() == s0, $R::adv(&rd0, &*$0),
    shift == 7 * $i, $i <= 5,
    $i < 5 ==> inv_i32(s0, (*$0).rem(), result, shift),
    $i == 5 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2,
--- loop_measure 0
5 - $i
--- loop_start 0
proof { round_i32(s0, (*$0).rem(), result, shift); plus_i32(s0, (*$0).rem(), result, shift); }
=== fn decode_i64
parser: sp_i64
--- start
let ghost s0 = (*$0).rem();
let ghost rd0 = *$0;
proof { start_i64(s0); }
--- loop 0
invariant
    rd0.rem() == s0, $R::adv(&rd0, &*$0),
    shift == 7 * $i, $i <= 10,
    $i < 10 ==> inv_i64(s0, (*$0).rem(), result, shift),
    $i == 10 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2,
--- loop_measure 0
10 - $i
--- loop_start 0
proof { round_i64(s0, (*$0).rem(), result, shift); plus_i64(s0, (*$0).rem(), result, shift); }
=== fn decode_s33
parser: sp_s33
--- ensures
res is Ok ==> -0x1_0000_0000 <= res->Ok_0 < 0x1_0000_0000,
--- start
let ghost s0 = (*$0).rem();
let ghost rd0 = *$0;
proof { start_s33(s0); range_s33(s0); }
--- loop 0
invariant
    rd0.rem() == s0, $R::adv(&rd0, &*$0),
    shift == 7 * $i, $i <= 5,
    $i < 5 ==> inv_s33(s0, (*$0).rem(), result, shift),
    $i == 5 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2,
--- loop_measure 0
5 - $i
--- loop_start 0
proof { round_s33(s0, (*$0).rem(), result, shift); plus_s33(s0, (*$0).rem(), result, shift); }
