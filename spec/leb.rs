// Generated by tools/gen_leb.py. Lemmas (fully proved, nothing assumed) that connect shift-and-or LEB128
// accumulation with the arithmetic definition of uN and sN.
pub open spec fn pw(sh: int) -> int {
    if sh == 0 { 1 }
    else if sh == 7 { 128 }
    else if sh == 14 { 16384 }
    else if sh == 21 { 2097152 }
    else if sh == 28 { 268435456 }
    else if sh == 35 { 34359738368 }
    else if sh == 42 { 4398046511104 }
    else if sh == 49 { 562949953421312 }
    else if sh == 56 { 72057594037927936 }
    else if sh == 63 { 9223372036854775808 }
    else if sh == 70 { 1180591620717411303424 }
    else { 0 }
}
pub proof fn pow2s()
    ensures vstd::arithmetic::power2::pow2(0) == 1, vstd::arithmetic::power2::pow2(1) == 2, vstd::arithmetic::power2::pow2(2) == 4, vstd::arithmetic::power2::pow2(3) == 8, vstd::arithmetic::power2::pow2(4) == 16, vstd::arithmetic::power2::pow2(5) == 32, vstd::arithmetic::power2::pow2(6) == 64, vstd::arithmetic::power2::pow2(7) == 128
{ vstd::arithmetic::power2::lemma2_to64(); }
/// how a LEB128 integer ends: 1 not at all, 2 after too many bytes, 3 with a byte that may be the last
pub open spec fn lebk(s: Seq<u8>, n: nat) -> int decreases n {
    if s.len() == 0 { 1 } else if s[0] < 0x80 { 3 } else if n <= 7 { 2 } else { lebk(s.skip(1), (n - 7) as nat) }
}
pub open spec fn ulift(r: int, p: int, x: Option<(nat, Seq<u8>)>) -> Option<(nat, Seq<u8>)> { match x { None => None, Some((m, t)) => Some(((r + p * m) as nat, t)) } }
pub open spec fn slift(r: int, p: int, x: Option<(int, Seq<u8>)>) -> Option<(int, Seq<u8>)> { match x { None => None, Some((m, t)) => Some((r + p * m, t)) } }

pub open spec fn inv_u32(s0: Seq<u8>, cur: Seq<u8>, r: u32, sh: u8) -> bool {
    (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28) && 0 <= r && r < pw(sh as int)
    && sp_uleb(s0, 32) == ulift(r as int, pw(sh as int), sp_uleb(cur, (32 - sh) as nat))
    && lebk(s0, 32) == lebk(cur, (32 - sh) as nat)
}
proof fn or_u32(r: u32, b: u8, sh: u8)
    requires (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28), 0 <= r, r < pw(sh as int),
    ensures
        (b & 0x80 == 0) <==> b < 0x80, (b & 0x7f) == (if b < 0x80 { b as int } else { b - 0x80 }),
        sh < 28 ==> (r | (((b & 0x7f) as u32) << sh)) == r + (b & 0x7f) * pw(sh as int) && (r | (((b & 0x7f) as u32) << sh)) < pw(sh + 7),
        sh == 28 && b < 16 ==> (r | (((b & 0x7f) as u32) << sh)) == r + b * pw(sh as int),
        b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16), b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16),
{
    assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector);
    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);
    assert(b >= 0x80 ==> (b & 0x7f) == sub(b, 0x80)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)) by (bit_vector);
    if sh == 0 {
        assert(r < 1 ==> (r | (((b & 0x7f) as u32) << 0u8)) == add(r, mul(((b & 0x7f) as u32), 1)) && (r | (((b & 0x7f) as u32) << 0u8)) < 128 && ((b & 0x7f) as u32) < 128) by (bit_vector);
    }
    if sh == 7 {
        assert(r < 128 ==> (r | (((b & 0x7f) as u32) << 7u8)) == add(r, mul(((b & 0x7f) as u32), 128)) && (r | (((b & 0x7f) as u32) << 7u8)) < 16384 && ((b & 0x7f) as u32) < 128) by (bit_vector);
    }
    if sh == 14 {
        assert(r < 16384 ==> (r | (((b & 0x7f) as u32) << 14u8)) == add(r, mul(((b & 0x7f) as u32), 16384)) && (r | (((b & 0x7f) as u32) << 14u8)) < 2097152 && ((b & 0x7f) as u32) < 128) by (bit_vector);
    }
    if sh == 21 {
        assert(r < 2097152 ==> (r | (((b & 0x7f) as u32) << 21u8)) == add(r, mul(((b & 0x7f) as u32), 2097152)) && (r | (((b & 0x7f) as u32) << 21u8)) < 268435456 && ((b & 0x7f) as u32) < 128) by (bit_vector);
    }
    if sh == 28 {
        assert(r < 268435456 && b < 16 ==> (r | (((b & 0x7f) as u32) << 28u8)) == add(r, mul(((b & 0x7f) as u32), 268435456)) && ((b & 0x7f) as u32) < 16 && ((b & 0x7f) as u32) == b as u32) by (bit_vector);
    }
}
proof fn round_u32_0(s0: Seq<u8>, cur: Seq<u8>, r: u32)
    requires inv_u32(s0, cur, r, 0u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 0u8 < 28 ==> inv_u32(s0, cur.skip(1), (r | (((b & 0x7f) as u32) << 0u8)), (0u8 + 7) as u8)
            &&& b >= 0x80 && 0u8 == 28 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)
            &&& b < 0x80 && 0u8 == 28 && b >= 16 ==> sp_uleb(s0, 32) is None
            &&& b < 0x80 && (0u8 < 28 || b < 16) ==> sp_uleb(s0, 32) == Some(((r | (((b & 0x7f) as u32) << 0u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(0) == 1); assert(pw(7) == 128);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u32(r, b, 0u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 0u8));
            assert(r2 == r + b * 1);
            assert(sp_uleb(cur, 32) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 32) == ulift(r as int, 1, Some((b as nat, cur.skip(1)))));
            assert((r as int + 1 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 0u8));
            let x = sp_uleb(cur.skip(1), 25);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 1 * (c + 128 * m) == (r + c * 1) + 128 * m);
                assert(r2 == r + c * 1);
            }
            assert(inv_u32(s0, cur.skip(1), r2, 7));
        }
    }
}
proof fn round_u32_7(s0: Seq<u8>, cur: Seq<u8>, r: u32)
    requires inv_u32(s0, cur, r, 7u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 7u8 < 28 ==> inv_u32(s0, cur.skip(1), (r | (((b & 0x7f) as u32) << 7u8)), (7u8 + 7) as u8)
            &&& b >= 0x80 && 7u8 == 28 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)
            &&& b < 0x80 && 7u8 == 28 && b >= 16 ==> sp_uleb(s0, 32) is None
            &&& b < 0x80 && (7u8 < 28 || b < 16) ==> sp_uleb(s0, 32) == Some(((r | (((b & 0x7f) as u32) << 7u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(7) == 128); assert(pw(14) == 16384);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u32(r, b, 7u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 7u8));
            assert(r2 == r + b * 128);
            assert(sp_uleb(cur, 25) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 32) == ulift(r as int, 128, Some((b as nat, cur.skip(1)))));
            assert((r as int + 128 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 7u8));
            let x = sp_uleb(cur.skip(1), 18);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 128 * (c + 128 * m) == (r + c * 128) + 16384 * m);
                assert(r2 == r + c * 128);
            }
            assert(inv_u32(s0, cur.skip(1), r2, 14));
        }
    }
}
proof fn round_u32_14(s0: Seq<u8>, cur: Seq<u8>, r: u32)
    requires inv_u32(s0, cur, r, 14u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 14u8 < 28 ==> inv_u32(s0, cur.skip(1), (r | (((b & 0x7f) as u32) << 14u8)), (14u8 + 7) as u8)
            &&& b >= 0x80 && 14u8 == 28 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)
            &&& b < 0x80 && 14u8 == 28 && b >= 16 ==> sp_uleb(s0, 32) is None
            &&& b < 0x80 && (14u8 < 28 || b < 16) ==> sp_uleb(s0, 32) == Some(((r | (((b & 0x7f) as u32) << 14u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(14) == 16384); assert(pw(21) == 2097152);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u32(r, b, 14u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 14u8));
            assert(r2 == r + b * 16384);
            assert(sp_uleb(cur, 18) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 32) == ulift(r as int, 16384, Some((b as nat, cur.skip(1)))));
            assert((r as int + 16384 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 14u8));
            let x = sp_uleb(cur.skip(1), 11);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 16384 * (c + 128 * m) == (r + c * 16384) + 2097152 * m);
                assert(r2 == r + c * 16384);
            }
            assert(inv_u32(s0, cur.skip(1), r2, 21));
        }
    }
}
proof fn round_u32_21(s0: Seq<u8>, cur: Seq<u8>, r: u32)
    requires inv_u32(s0, cur, r, 21u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 21u8 < 28 ==> inv_u32(s0, cur.skip(1), (r | (((b & 0x7f) as u32) << 21u8)), (21u8 + 7) as u8)
            &&& b >= 0x80 && 21u8 == 28 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)
            &&& b < 0x80 && 21u8 == 28 && b >= 16 ==> sp_uleb(s0, 32) is None
            &&& b < 0x80 && (21u8 < 28 || b < 16) ==> sp_uleb(s0, 32) == Some(((r | (((b & 0x7f) as u32) << 21u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(21) == 2097152); assert(pw(28) == 268435456);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u32(r, b, 21u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 21u8));
            assert(r2 == r + b * 2097152);
            assert(sp_uleb(cur, 11) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 32) == ulift(r as int, 2097152, Some((b as nat, cur.skip(1)))));
            assert((r as int + 2097152 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u32) << 21u8));
            let x = sp_uleb(cur.skip(1), 4);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 2097152 * (c + 128 * m) == (r + c * 2097152) + 268435456 * m);
                assert(r2 == r + c * 2097152);
            }
            assert(inv_u32(s0, cur.skip(1), r2, 28));
        }
    }
}
proof fn round_u32_28(s0: Seq<u8>, cur: Seq<u8>, r: u32)
    requires inv_u32(s0, cur, r, 28u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 28u8 < 28 ==> inv_u32(s0, cur.skip(1), (r | (((b & 0x7f) as u32) << 28u8)), (28u8 + 7) as u8)
            &&& b >= 0x80 && 28u8 == 28 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)
            &&& b < 0x80 && 28u8 == 28 && b >= 16 ==> sp_uleb(s0, 32) is None
            &&& b < 0x80 && (28u8 < 28 || b < 16) ==> sp_uleb(s0, 32) == Some(((r | (((b & 0x7f) as u32) << 28u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(28) == 268435456); assert(pw(35) == 34359738368);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u32(r, b, 28u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 16 {
            let r2 = (r | (((b & 0x7f) as u32) << 28u8));
            assert(r2 == r + b * 268435456);
            assert(sp_uleb(cur, 4) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 32) == ulift(r as int, 268435456, Some((b as nat, cur.skip(1)))));
            assert((r as int + 268435456 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 16 { assert(sp_uleb(cur, 4) is None); }
    }
}
/// one round of the decoding loop
pub proof fn round_u32(s0: Seq<u8>, cur: Seq<u8>, r: u32, sh: u8)
    requires inv_u32(s0, cur, r, sh),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && sh < 28 ==> inv_u32(s0, cur.skip(1), (r | (((b & 0x7f) as u32) << sh)), (sh + 7) as u8)
            &&& b >= 0x80 && sh == 28 ==> sp_uleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& b < 0x80 ==> ((b & 0xf0 == 0) <==> b < 16)
            &&& b < 0x80 && sh == 28 && b >= 16 ==> sp_uleb(s0, 32) is None
            &&& b < 0x80 && (sh < 28 || b < 16) ==> sp_uleb(s0, 32) == Some(((r | (((b & 0x7f) as u32) << sh)) as nat, cur.skip(1)))
        }),
{
    if sh == 0 { round_u32_0(s0, cur, r); }
    if sh == 7 { round_u32_7(s0, cur, r); }
    if sh == 14 { round_u32_14(s0, cur, r); }
    if sh == 21 { round_u32_21(s0, cur, r); }
    if sh == 28 { round_u32_28(s0, cur, r); }
}
pub proof fn start_u32(s0: Seq<u8>)
    ensures inv_u32(s0, s0, 0, 0),
{ assert(pw(0) == 1); }
proof fn range_u32_4(s: Seq<u8>)
    ensures match sp_uleb(s, 4) { None => true, Some((m, t)) => 0 <= m < 16 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
}
proof fn range_u32_11(s: Seq<u8>)
    ensures match sp_uleb(s, 11) { None => true, Some((m, t)) => 0 <= m < 2048 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u32_4(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 4) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u32_18(s: Seq<u8>)
    ensures match sp_uleb(s, 18) { None => true, Some((m, t)) => 0 <= m < 262144 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u32_11(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 11) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u32_25(s: Seq<u8>)
    ensures match sp_uleb(s, 25) { None => true, Some((m, t)) => 0 <= m < 33554432 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u32_18(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 18) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
/// the values are in the range of the type
pub proof fn range_u32(s: Seq<u8>)
    ensures match sp_uleb(s, 32) { None => true, Some((m, t)) => 0 <= m < 4294967296 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u32_25(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 25) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
pub open spec fn inv_u64(s0: Seq<u8>, cur: Seq<u8>, r: u64, sh: u8) -> bool {
    (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28 || sh == 35 || sh == 42 || sh == 49 || sh == 56 || sh == 63) && 0 <= r && r < pw(sh as int)
    && sp_uleb(s0, 64) == ulift(r as int, pw(sh as int), sp_uleb(cur, (64 - sh) as nat))
    && lebk(s0, 64) == lebk(cur, (64 - sh) as nat)
}
proof fn or_u64(r: u64, b: u8, sh: u8)
    requires (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28 || sh == 35 || sh == 42 || sh == 49 || sh == 56 || sh == 63), 0 <= r, r < pw(sh as int),
    ensures
        (b & 0x80 == 0) <==> b < 0x80, (b & 0x7f) == (if b < 0x80 { b as int } else { b - 0x80 }),
        sh < 63 ==> (r | (((b & 0x7f) as u64) << sh)) == r + (b & 0x7f) * pw(sh as int) && (r | (((b & 0x7f) as u64) << sh)) < pw(sh + 7),
        sh == 63 && b < 2 ==> (r | (((b & 0x7f) as u64) << sh)) == r + b * pw(sh as int),
        b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2), b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2),
{
    assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector);
    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);
    assert(b >= 0x80 ==> (b & 0x7f) == sub(b, 0x80)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)) by (bit_vector);
    if sh == 0 {
        assert(r < 1 ==> (r | (((b & 0x7f) as u64) << 0u8)) == add(r, mul(((b & 0x7f) as u64), 1)) && (r | (((b & 0x7f) as u64) << 0u8)) < 128 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 7 {
        assert(r < 128 ==> (r | (((b & 0x7f) as u64) << 7u8)) == add(r, mul(((b & 0x7f) as u64), 128)) && (r | (((b & 0x7f) as u64) << 7u8)) < 16384 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 14 {
        assert(r < 16384 ==> (r | (((b & 0x7f) as u64) << 14u8)) == add(r, mul(((b & 0x7f) as u64), 16384)) && (r | (((b & 0x7f) as u64) << 14u8)) < 2097152 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 21 {
        assert(r < 2097152 ==> (r | (((b & 0x7f) as u64) << 21u8)) == add(r, mul(((b & 0x7f) as u64), 2097152)) && (r | (((b & 0x7f) as u64) << 21u8)) < 268435456 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 28 {
        assert(r < 268435456 ==> (r | (((b & 0x7f) as u64) << 28u8)) == add(r, mul(((b & 0x7f) as u64), 268435456)) && (r | (((b & 0x7f) as u64) << 28u8)) < 34359738368 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 35 {
        assert(r < 34359738368 ==> (r | (((b & 0x7f) as u64) << 35u8)) == add(r, mul(((b & 0x7f) as u64), 34359738368)) && (r | (((b & 0x7f) as u64) << 35u8)) < 4398046511104 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 42 {
        assert(r < 4398046511104 ==> (r | (((b & 0x7f) as u64) << 42u8)) == add(r, mul(((b & 0x7f) as u64), 4398046511104)) && (r | (((b & 0x7f) as u64) << 42u8)) < 562949953421312 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 49 {
        assert(r < 562949953421312 ==> (r | (((b & 0x7f) as u64) << 49u8)) == add(r, mul(((b & 0x7f) as u64), 562949953421312)) && (r | (((b & 0x7f) as u64) << 49u8)) < 72057594037927936 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 56 {
        assert(r < 72057594037927936 ==> (r | (((b & 0x7f) as u64) << 56u8)) == add(r, mul(((b & 0x7f) as u64), 72057594037927936)) && (r | (((b & 0x7f) as u64) << 56u8)) < 9223372036854775808 && ((b & 0x7f) as u64) < 128) by (bit_vector);
    }
    if sh == 63 {
        assert(r < 9223372036854775808 && b < 2 ==> (r | (((b & 0x7f) as u64) << 63u8)) == add(r, mul(((b & 0x7f) as u64), 9223372036854775808)) && ((b & 0x7f) as u64) < 2 && ((b & 0x7f) as u64) == b as u64) by (bit_vector);
    }
}
proof fn round_u64_0(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 0u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 0u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 0u8)), (0u8 + 7) as u8)
            &&& b >= 0x80 && 0u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 0u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (0u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 0u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(0) == 1); assert(pw(7) == 128);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 0u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 0u8));
            assert(r2 == r + b * 1);
            assert(sp_uleb(cur, 64) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 1, Some((b as nat, cur.skip(1)))));
            assert((r as int + 1 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 0u8));
            let x = sp_uleb(cur.skip(1), 57);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 1 * (c + 128 * m) == (r + c * 1) + 128 * m);
                assert(r2 == r + c * 1);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 7));
        }
    }
}
proof fn round_u64_7(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 7u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 7u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 7u8)), (7u8 + 7) as u8)
            &&& b >= 0x80 && 7u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 7u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (7u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 7u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(7) == 128); assert(pw(14) == 16384);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 7u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 7u8));
            assert(r2 == r + b * 128);
            assert(sp_uleb(cur, 57) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 128, Some((b as nat, cur.skip(1)))));
            assert((r as int + 128 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 7u8));
            let x = sp_uleb(cur.skip(1), 50);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 128 * (c + 128 * m) == (r + c * 128) + 16384 * m);
                assert(r2 == r + c * 128);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 14));
        }
    }
}
proof fn round_u64_14(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 14u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 14u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 14u8)), (14u8 + 7) as u8)
            &&& b >= 0x80 && 14u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 14u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (14u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 14u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(14) == 16384); assert(pw(21) == 2097152);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 14u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 14u8));
            assert(r2 == r + b * 16384);
            assert(sp_uleb(cur, 50) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 16384, Some((b as nat, cur.skip(1)))));
            assert((r as int + 16384 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 14u8));
            let x = sp_uleb(cur.skip(1), 43);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 16384 * (c + 128 * m) == (r + c * 16384) + 2097152 * m);
                assert(r2 == r + c * 16384);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 21));
        }
    }
}
proof fn round_u64_21(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 21u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 21u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 21u8)), (21u8 + 7) as u8)
            &&& b >= 0x80 && 21u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 21u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (21u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 21u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(21) == 2097152); assert(pw(28) == 268435456);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 21u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 21u8));
            assert(r2 == r + b * 2097152);
            assert(sp_uleb(cur, 43) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 2097152, Some((b as nat, cur.skip(1)))));
            assert((r as int + 2097152 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 21u8));
            let x = sp_uleb(cur.skip(1), 36);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 2097152 * (c + 128 * m) == (r + c * 2097152) + 268435456 * m);
                assert(r2 == r + c * 2097152);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 28));
        }
    }
}
proof fn round_u64_28(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 28u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 28u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 28u8)), (28u8 + 7) as u8)
            &&& b >= 0x80 && 28u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 28u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (28u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 28u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(28) == 268435456); assert(pw(35) == 34359738368);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 28u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 28u8));
            assert(r2 == r + b * 268435456);
            assert(sp_uleb(cur, 36) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 268435456, Some((b as nat, cur.skip(1)))));
            assert((r as int + 268435456 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 28u8));
            let x = sp_uleb(cur.skip(1), 29);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 268435456 * (c + 128 * m) == (r + c * 268435456) + 34359738368 * m);
                assert(r2 == r + c * 268435456);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 35));
        }
    }
}
proof fn round_u64_35(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 35u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 35u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 35u8)), (35u8 + 7) as u8)
            &&& b >= 0x80 && 35u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 35u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (35u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 35u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(35) == 34359738368); assert(pw(42) == 4398046511104);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 35u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 35u8));
            assert(r2 == r + b * 34359738368);
            assert(sp_uleb(cur, 29) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 34359738368, Some((b as nat, cur.skip(1)))));
            assert((r as int + 34359738368 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 35u8));
            let x = sp_uleb(cur.skip(1), 22);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 34359738368 * (c + 128 * m) == (r + c * 34359738368) + 4398046511104 * m);
                assert(r2 == r + c * 34359738368);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 42));
        }
    }
}
proof fn round_u64_42(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 42u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 42u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 42u8)), (42u8 + 7) as u8)
            &&& b >= 0x80 && 42u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 42u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (42u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 42u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(42) == 4398046511104); assert(pw(49) == 562949953421312);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 42u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 42u8));
            assert(r2 == r + b * 4398046511104);
            assert(sp_uleb(cur, 22) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 4398046511104, Some((b as nat, cur.skip(1)))));
            assert((r as int + 4398046511104 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 42u8));
            let x = sp_uleb(cur.skip(1), 15);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 4398046511104 * (c + 128 * m) == (r + c * 4398046511104) + 562949953421312 * m);
                assert(r2 == r + c * 4398046511104);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 49));
        }
    }
}
proof fn round_u64_49(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 49u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 49u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 49u8)), (49u8 + 7) as u8)
            &&& b >= 0x80 && 49u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 49u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (49u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 49u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(49) == 562949953421312); assert(pw(56) == 72057594037927936);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 49u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 49u8));
            assert(r2 == r + b * 562949953421312);
            assert(sp_uleb(cur, 15) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 562949953421312, Some((b as nat, cur.skip(1)))));
            assert((r as int + 562949953421312 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 49u8));
            let x = sp_uleb(cur.skip(1), 8);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 562949953421312 * (c + 128 * m) == (r + c * 562949953421312) + 72057594037927936 * m);
                assert(r2 == r + c * 562949953421312);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 56));
        }
    }
}
proof fn round_u64_56(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 56u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 56u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 56u8)), (56u8 + 7) as u8)
            &&& b >= 0x80 && 56u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 56u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (56u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 56u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(56) == 72057594037927936); assert(pw(63) == 9223372036854775808);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 56u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 56u8));
            assert(r2 == r + b * 72057594037927936);
            assert(sp_uleb(cur, 8) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 72057594037927936, Some((b as nat, cur.skip(1)))));
            assert((r as int + 72057594037927936 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as u64) << 56u8));
            let x = sp_uleb(cur.skip(1), 1);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 72057594037927936 * (c + 128 * m) == (r + c * 72057594037927936) + 9223372036854775808 * m);
                assert(r2 == r + c * 72057594037927936);
            }
            assert(inv_u64(s0, cur.skip(1), r2, 63));
        }
    }
}
proof fn round_u64_63(s0: Seq<u8>, cur: Seq<u8>, r: u64)
    requires inv_u64(s0, cur, r, 63u8),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 63u8 < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << 63u8)), (63u8 + 7) as u8)
            &&& b >= 0x80 && 63u8 == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && 63u8 == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (63u8 < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << 63u8)) as nat, cur.skip(1)))
        }),
{
    assert(pw(63) == 9223372036854775808); assert(pw(70) == 1180591620717411303424);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_u64(r, b, 63u8);
        reveal_with_fuel(sp_uleb, 2); reveal_with_fuel(lebk, 2);
        if b < 2 {
            let r2 = (r | (((b & 0x7f) as u64) << 63u8));
            assert(r2 == r + b * 9223372036854775808);
            assert(sp_uleb(cur, 1) == Some((b as nat, cur.skip(1))));
            assert(sp_uleb(s0, 64) == ulift(r as int, 9223372036854775808, Some((b as nat, cur.skip(1)))));
            assert((r as int + 9223372036854775808 * (b as nat)) as nat == r2 as nat);
        }
        if b >= 2 { assert(sp_uleb(cur, 1) is None); }
    }
}
/// one round of the decoding loop
pub proof fn round_u64(s0: Seq<u8>, cur: Seq<u8>, r: u64, sh: u8)
    requires inv_u64(s0, cur, r, sh),
    ensures
        cur.len() == 0 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && sh < 63 ==> inv_u64(s0, cur.skip(1), (r | (((b & 0x7f) as u64) << sh)), (sh + 7) as u8)
            &&& b >= 0x80 && sh == 63 ==> sp_uleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x7e == 0) <==> b < 2)
            &&& b < 0x80 ==> ((b & 0xfe == 0) <==> b < 2)
            &&& b < 0x80 && sh == 63 && b >= 2 ==> sp_uleb(s0, 64) is None
            &&& b < 0x80 && (sh < 63 || b < 2) ==> sp_uleb(s0, 64) == Some(((r | (((b & 0x7f) as u64) << sh)) as nat, cur.skip(1)))
        }),
{
    if sh == 0 { round_u64_0(s0, cur, r); }
    if sh == 7 { round_u64_7(s0, cur, r); }
    if sh == 14 { round_u64_14(s0, cur, r); }
    if sh == 21 { round_u64_21(s0, cur, r); }
    if sh == 28 { round_u64_28(s0, cur, r); }
    if sh == 35 { round_u64_35(s0, cur, r); }
    if sh == 42 { round_u64_42(s0, cur, r); }
    if sh == 49 { round_u64_49(s0, cur, r); }
    if sh == 56 { round_u64_56(s0, cur, r); }
    if sh == 63 { round_u64_63(s0, cur, r); }
}
pub proof fn start_u64(s0: Seq<u8>)
    ensures inv_u64(s0, s0, 0, 0),
{ assert(pw(0) == 1); }
proof fn range_u64_1(s: Seq<u8>)
    ensures match sp_uleb(s, 1) { None => true, Some((m, t)) => 0 <= m < 2 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
}
proof fn range_u64_8(s: Seq<u8>)
    ensures match sp_uleb(s, 8) { None => true, Some((m, t)) => 0 <= m < 256 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_1(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 1) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_15(s: Seq<u8>)
    ensures match sp_uleb(s, 15) { None => true, Some((m, t)) => 0 <= m < 32768 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_8(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 8) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_22(s: Seq<u8>)
    ensures match sp_uleb(s, 22) { None => true, Some((m, t)) => 0 <= m < 4194304 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_15(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 15) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_29(s: Seq<u8>)
    ensures match sp_uleb(s, 29) { None => true, Some((m, t)) => 0 <= m < 536870912 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_22(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 22) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_36(s: Seq<u8>)
    ensures match sp_uleb(s, 36) { None => true, Some((m, t)) => 0 <= m < 68719476736 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_29(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 29) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_43(s: Seq<u8>)
    ensures match sp_uleb(s, 43) { None => true, Some((m, t)) => 0 <= m < 8796093022208 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_36(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 36) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_50(s: Seq<u8>)
    ensures match sp_uleb(s, 50) { None => true, Some((m, t)) => 0 <= m < 1125899906842624 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_43(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 43) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_u64_57(s: Seq<u8>)
    ensures match sp_uleb(s, 57) { None => true, Some((m, t)) => 0 <= m < 144115188075855872 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_50(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 50) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
/// the values are in the range of the type
pub proof fn range_u64(s: Seq<u8>)
    ensures match sp_uleb(s, 64) { None => true, Some((m, t)) => 0 <= m < 18446744073709551616 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_uleb, 1);
    if s.len() > 0 {
        range_u64_57(s.skip(1));
        if let Some((m, t)) = sp_uleb(s.skip(1), 57) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
pub open spec fn inv_i32(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8) -> bool {
    (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28) && 0 <= r && r < pw(sh as int)
    && sp_sleb(s0, 32) == slift(r as int, pw(sh as int), sp_sleb(cur, (32 - sh) as nat))
    && lebk(s0, 32) == lebk(cur, (32 - sh) as nat)
}
proof fn or_i32(r: i64, b: u8, sh: u8)
    requires (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28), 0 <= r, r < pw(sh as int),
    ensures
        (b & 0x80 == 0) <==> b < 0x80, (b & 0x7f) == (if b < 0x80 { b as int } else { b - 0x80 }),
        b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40),
        (r | (((b & 0x7f) as i64) << sh)) == r + (b & 0x7f) * pw(sh as int) && 0 <= (r | (((b & 0x7f) as i64) << sh)) < pw(sh + 7),
        0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) == r + (b - 0x80) * pw(sh as int),
{
    assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector);
    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);
    assert(b >= 0x80 ==> (b & 0x7f) == sub(b, 0x80)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)) by (bit_vector);
    if sh == 0 {
        assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, mul(((b & 0x7f) as i64), 1)) && 0 <= (r | (((b & 0x7f) as i64) << 0u8)) && (r | (((b & 0x7f) as i64) << 0u8)) < 128 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 1 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << 7u8)) == sub((r | (((b & 0x7f) as i64) << 0u8)), 128)) by (bit_vector);
    }
    if sh == 7 {
        assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, mul(((b & 0x7f) as i64), 128)) && 0 <= (r | (((b & 0x7f) as i64) << 7u8)) && (r | (((b & 0x7f) as i64) << 7u8)) < 16384 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 128 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << 14u8)) == sub((r | (((b & 0x7f) as i64) << 7u8)), 16384)) by (bit_vector);
    }
    if sh == 14 {
        assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, mul(((b & 0x7f) as i64), 16384)) && 0 <= (r | (((b & 0x7f) as i64) << 14u8)) && (r | (((b & 0x7f) as i64) << 14u8)) < 2097152 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 16384 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << 21u8)) == sub((r | (((b & 0x7f) as i64) << 14u8)), 2097152)) by (bit_vector);
    }
    if sh == 21 {
        assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, mul(((b & 0x7f) as i64), 2097152)) && 0 <= (r | (((b & 0x7f) as i64) << 21u8)) && (r | (((b & 0x7f) as i64) << 21u8)) < 268435456 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 2097152 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << 28u8)) == sub((r | (((b & 0x7f) as i64) << 21u8)), 268435456)) by (bit_vector);
    }
    if sh == 28 {
        assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, mul(((b & 0x7f) as i64), 268435456)) && 0 <= (r | (((b & 0x7f) as i64) << 28u8)) && (r | (((b & 0x7f) as i64) << 28u8)) < 34359738368 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 268435456 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << 35u8)) == sub((r | (((b & 0x7f) as i64) << 28u8)), 34359738368)) by (bit_vector);
    }
}
proof fn round_i32_0(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i32(s0, cur, r, 0u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 0u8 < 28 ==> inv_i32(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 0u8)), (0u8 + 7) as u8)
            &&& b >= 0x80 && 0u8 == 28 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= (r | (((b & 0x7f) as i64) << 0u8)) <= 0x7fff_ffff { Some(((r | (((b & 0x7f) as i64) << 0u8)) as int, cur.skip(1))) } else { None }))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= ((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << ((0u8 + 7) as u8))) <= 0x7fff_ffff { Some((((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << ((0u8 + 7) as u8))) as int, cur.skip(1))) } else { None }))
        }),
{
    assert(pw(0) == 1); assert(pw(7) == 128);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i32(r, b, 0u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 0u8));
            let x = sp_sleb(cur.skip(1), 25);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 1 * (c + 128 * m) == (r + c * 1) + 128 * m);
                assert(r2 == r + c * 1);
            }
            assert(inv_i32(s0, cur.skip(1), r2, 7));
        }
    }
}
proof fn round_i32_7(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i32(s0, cur, r, 7u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 7u8 < 28 ==> inv_i32(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 7u8)), (7u8 + 7) as u8)
            &&& b >= 0x80 && 7u8 == 28 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= (r | (((b & 0x7f) as i64) << 7u8)) <= 0x7fff_ffff { Some(((r | (((b & 0x7f) as i64) << 7u8)) as int, cur.skip(1))) } else { None }))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= ((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << ((7u8 + 7) as u8))) <= 0x7fff_ffff { Some((((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << ((7u8 + 7) as u8))) as int, cur.skip(1))) } else { None }))
        }),
{
    assert(pw(7) == 128); assert(pw(14) == 16384);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i32(r, b, 7u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 7u8));
            let x = sp_sleb(cur.skip(1), 18);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 128 * (c + 128 * m) == (r + c * 128) + 16384 * m);
                assert(r2 == r + c * 128);
            }
            assert(inv_i32(s0, cur.skip(1), r2, 14));
        }
    }
}
proof fn round_i32_14(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i32(s0, cur, r, 14u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 14u8 < 28 ==> inv_i32(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 14u8)), (14u8 + 7) as u8)
            &&& b >= 0x80 && 14u8 == 28 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= (r | (((b & 0x7f) as i64) << 14u8)) <= 0x7fff_ffff { Some(((r | (((b & 0x7f) as i64) << 14u8)) as int, cur.skip(1))) } else { None }))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= ((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << ((14u8 + 7) as u8))) <= 0x7fff_ffff { Some((((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << ((14u8 + 7) as u8))) as int, cur.skip(1))) } else { None }))
        }),
{
    assert(pw(14) == 16384); assert(pw(21) == 2097152);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i32(r, b, 14u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 14u8));
            let x = sp_sleb(cur.skip(1), 11);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 16384 * (c + 128 * m) == (r + c * 16384) + 2097152 * m);
                assert(r2 == r + c * 16384);
            }
            assert(inv_i32(s0, cur.skip(1), r2, 21));
        }
    }
}
proof fn round_i32_21(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i32(s0, cur, r, 21u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 21u8 < 28 ==> inv_i32(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 21u8)), (21u8 + 7) as u8)
            &&& b >= 0x80 && 21u8 == 28 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= (r | (((b & 0x7f) as i64) << 21u8)) <= 0x7fff_ffff { Some(((r | (((b & 0x7f) as i64) << 21u8)) as int, cur.skip(1))) } else { None }))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= ((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << ((21u8 + 7) as u8))) <= 0x7fff_ffff { Some((((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << ((21u8 + 7) as u8))) as int, cur.skip(1))) } else { None }))
        }),
{
    assert(pw(21) == 2097152); assert(pw(28) == 268435456);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i32(r, b, 21u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 21u8));
            let x = sp_sleb(cur.skip(1), 4);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 2097152 * (c + 128 * m) == (r + c * 2097152) + 268435456 * m);
                assert(r2 == r + c * 2097152);
            }
            assert(inv_i32(s0, cur.skip(1), r2, 28));
        }
    }
}
proof fn round_i32_28(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i32(s0, cur, r, 28u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 28u8 < 28 ==> inv_i32(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 28u8)), (28u8 + 7) as u8)
            &&& b >= 0x80 && 28u8 == 28 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= (r | (((b & 0x7f) as i64) << 28u8)) <= 0x7fff_ffff { Some(((r | (((b & 0x7f) as i64) << 28u8)) as int, cur.skip(1))) } else { None }))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= ((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << ((28u8 + 7) as u8))) <= 0x7fff_ffff { Some((((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << ((28u8 + 7) as u8))) as int, cur.skip(1))) } else { None }))
        }),
{
    assert(pw(28) == 268435456); assert(pw(35) == 34359738368);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i32(r, b, 28u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
    }
}
/// one round of the decoding loop
pub proof fn round_i32(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_i32(s0, cur, r, sh),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && sh < 28 ==> inv_i32(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << sh)), (sh + 7) as u8)
            &&& b >= 0x80 && sh == 28 ==> sp_sleb(s0, 32) is None && lebk(s0, 32) == 2
            &&& b < 0x80 ==> lebk(s0, 32) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= (r | (((b & 0x7f) as i64) << sh)) <= 0x7fff_ffff { Some(((r | (((b & 0x7f) as i64) << sh)) as int, cur.skip(1))) } else { None }))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= ((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) <= 0x7fff_ffff { Some((((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) as int, cur.skip(1))) } else { None }))
        }),
{
    if sh == 0 { round_i32_0(s0, cur, r); }
    if sh == 7 { round_i32_7(s0, cur, r); }
    if sh == 14 { round_i32_14(s0, cur, r); }
    if sh == 21 { round_i32_21(s0, cur, r); }
    if sh == 28 { round_i32_28(s0, cur, r); }
}
pub proof fn start_i32(s0: Seq<u8>)
    ensures inv_i32(s0, s0, 0, 0),
{ assert(pw(0) == 1); }
proof fn range_i32_4(s: Seq<u8>)
    ensures match sp_sleb(s, 4) { None => true, Some((m, t)) => -8 <= m < 8 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
}
proof fn range_i32_11(s: Seq<u8>)
    ensures match sp_sleb(s, 11) { None => true, Some((m, t)) => -1024 <= m < 1024 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i32_4(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 4) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i32_18(s: Seq<u8>)
    ensures match sp_sleb(s, 18) { None => true, Some((m, t)) => -131072 <= m < 131072 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i32_11(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 11) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i32_25(s: Seq<u8>)
    ensures match sp_sleb(s, 25) { None => true, Some((m, t)) => -16777216 <= m < 16777216 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i32_18(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 18) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
/// the values are in the range of the type
pub proof fn range_i32(s: Seq<u8>)
    ensures match sp_sleb(s, 32) { None => true, Some((m, t)) => -2147483648 <= m < 2147483648 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i32_25(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 25) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
pub open spec fn inv_i64(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8) -> bool {
    (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28 || sh == 35 || sh == 42 || sh == 49 || sh == 56 || sh == 63) && 0 <= r && r < pw(sh as int)
    && sp_sleb(s0, 64) == slift(r as int, pw(sh as int), sp_sleb(cur, (64 - sh) as nat))
    && lebk(s0, 64) == lebk(cur, (64 - sh) as nat)
}
proof fn or_i64(r: i64, b: u8, sh: u8)
    requires (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28 || sh == 35 || sh == 42 || sh == 49 || sh == 56 || sh == 63), 0 <= r, r < pw(sh as int),
    ensures
        (b & 0x80 == 0) <==> b < 0x80, (b & 0x7f) == (if b < 0x80 { b as int } else { b - 0x80 }),
        b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40),
        sh < 63 ==> (r | (((b & 0x7f) as i64) << sh)) == r + (b & 0x7f) * pw(sh as int) && 0 <= (r | (((b & 0x7f) as i64) << sh)) < pw(sh + 7),
        sh < 63 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) == r + (b - 0x80) * pw(sh as int),
        sh == 63 && b == 0 ==> (r | (((b & 0x7f) as i64) << sh)) == r,
        sh == 63 && b == 0x7f ==> (r | (((b & 0x7f) as i64) << sh)) == r - pw(sh as int),
        b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1), 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127),
{
    assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector);
    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);
    assert(b >= 0x80 ==> (b & 0x7f) == sub(b, 0x80)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)) by (bit_vector);
    assert(b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)) by (bit_vector);
    assert(0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)) by (bit_vector);
    if sh == 0 {
        assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, mul(((b & 0x7f) as i64), 1)) && 0 <= (r | (((b & 0x7f) as i64) << 0u8)) && (r | (((b & 0x7f) as i64) << 0u8)) < 128 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 1 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << 7u8)) == sub((r | (((b & 0x7f) as i64) << 0u8)), 128)) by (bit_vector);
    }
    if sh == 7 {
        assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, mul(((b & 0x7f) as i64), 128)) && 0 <= (r | (((b & 0x7f) as i64) << 7u8)) && (r | (((b & 0x7f) as i64) << 7u8)) < 16384 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 128 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << 14u8)) == sub((r | (((b & 0x7f) as i64) << 7u8)), 16384)) by (bit_vector);
    }
    if sh == 14 {
        assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, mul(((b & 0x7f) as i64), 16384)) && 0 <= (r | (((b & 0x7f) as i64) << 14u8)) && (r | (((b & 0x7f) as i64) << 14u8)) < 2097152 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 16384 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << 21u8)) == sub((r | (((b & 0x7f) as i64) << 14u8)), 2097152)) by (bit_vector);
    }
    if sh == 21 {
        assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, mul(((b & 0x7f) as i64), 2097152)) && 0 <= (r | (((b & 0x7f) as i64) << 21u8)) && (r | (((b & 0x7f) as i64) << 21u8)) < 268435456 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 2097152 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << 28u8)) == sub((r | (((b & 0x7f) as i64) << 21u8)), 268435456)) by (bit_vector);
    }
    if sh == 28 {
        assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, mul(((b & 0x7f) as i64), 268435456)) && 0 <= (r | (((b & 0x7f) as i64) << 28u8)) && (r | (((b & 0x7f) as i64) << 28u8)) < 34359738368 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 268435456 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << 35u8)) == sub((r | (((b & 0x7f) as i64) << 28u8)), 34359738368)) by (bit_vector);
    }
    if sh == 35 {
        assert(0 <= r && r < 34359738368 ==> (r | (((b & 0x7f) as i64) << 35u8)) == add(r, mul(((b & 0x7f) as i64), 34359738368)) && 0 <= (r | (((b & 0x7f) as i64) << 35u8)) && (r | (((b & 0x7f) as i64) << 35u8)) < 4398046511104 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 34359738368 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 35u8)) | ((!0i64) << 42u8)) == sub((r | (((b & 0x7f) as i64) << 35u8)), 4398046511104)) by (bit_vector);
    }
    if sh == 42 {
        assert(0 <= r && r < 4398046511104 ==> (r | (((b & 0x7f) as i64) << 42u8)) == add(r, mul(((b & 0x7f) as i64), 4398046511104)) && 0 <= (r | (((b & 0x7f) as i64) << 42u8)) && (r | (((b & 0x7f) as i64) << 42u8)) < 562949953421312 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 4398046511104 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 42u8)) | ((!0i64) << 49u8)) == sub((r | (((b & 0x7f) as i64) << 42u8)), 562949953421312)) by (bit_vector);
    }
    if sh == 49 {
        assert(0 <= r && r < 562949953421312 ==> (r | (((b & 0x7f) as i64) << 49u8)) == add(r, mul(((b & 0x7f) as i64), 562949953421312)) && 0 <= (r | (((b & 0x7f) as i64) << 49u8)) && (r | (((b & 0x7f) as i64) << 49u8)) < 72057594037927936 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 562949953421312 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 49u8)) | ((!0i64) << 56u8)) == sub((r | (((b & 0x7f) as i64) << 49u8)), 72057594037927936)) by (bit_vector);
    }
    if sh == 56 {
        assert(0 <= r && r < 72057594037927936 ==> (r | (((b & 0x7f) as i64) << 56u8)) == add(r, mul(((b & 0x7f) as i64), 72057594037927936)) && 0 <= (r | (((b & 0x7f) as i64) << 56u8)) && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 72057594037927936 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 56u8)) | ((!0i64) << 63u8)) == add((r | (((b & 0x7f) as i64) << 56u8)), -0x8000_0000_0000_0000i64)) by (bit_vector);
    }
    if sh == 63 {
        assert(b == 0 ==> (r | (((b & 0x7f) as i64) << 63u8)) == r) by (bit_vector);
        assert(0 <= r && b == 0x7f ==> (r | (((b & 0x7f) as i64) << 63u8)) == add(r, -0x8000_0000_0000_0000i64)) by (bit_vector);
    }
}
proof fn round_i64_0(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 0u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 0u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 0u8)), (0u8 + 7) as u8)
            &&& b >= 0x80 && 0u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (0u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 0u8)) as int, cur.skip(1)))
            &&& 0u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 0u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << ((0u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 0u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 0u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(0) == 1); assert(pw(7) == 128);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 0u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 0u8));
            let x = sp_sleb(cur.skip(1), 57);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 1 * (c + 128 * m) == (r + c * 1) + 128 * m);
                assert(r2 == r + c * 1);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 7));
        }
    }
}
proof fn round_i64_7(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 7u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 7u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 7u8)), (7u8 + 7) as u8)
            &&& b >= 0x80 && 7u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (7u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 7u8)) as int, cur.skip(1)))
            &&& 7u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 7u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << ((7u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 7u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 7u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(7) == 128); assert(pw(14) == 16384);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 7u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 7u8));
            let x = sp_sleb(cur.skip(1), 50);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 128 * (c + 128 * m) == (r + c * 128) + 16384 * m);
                assert(r2 == r + c * 128);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 14));
        }
    }
}
proof fn round_i64_14(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 14u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 14u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 14u8)), (14u8 + 7) as u8)
            &&& b >= 0x80 && 14u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (14u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 14u8)) as int, cur.skip(1)))
            &&& 14u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 14u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << ((14u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 14u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 14u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(14) == 16384); assert(pw(21) == 2097152);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 14u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 14u8));
            let x = sp_sleb(cur.skip(1), 43);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 16384 * (c + 128 * m) == (r + c * 16384) + 2097152 * m);
                assert(r2 == r + c * 16384);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 21));
        }
    }
}
proof fn round_i64_21(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 21u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 21u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 21u8)), (21u8 + 7) as u8)
            &&& b >= 0x80 && 21u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (21u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 21u8)) as int, cur.skip(1)))
            &&& 21u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 21u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << ((21u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 21u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 21u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(21) == 2097152); assert(pw(28) == 268435456);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 21u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 21u8));
            let x = sp_sleb(cur.skip(1), 36);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 2097152 * (c + 128 * m) == (r + c * 2097152) + 268435456 * m);
                assert(r2 == r + c * 2097152);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 28));
        }
    }
}
proof fn round_i64_28(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 28u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 28u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 28u8)), (28u8 + 7) as u8)
            &&& b >= 0x80 && 28u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (28u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 28u8)) as int, cur.skip(1)))
            &&& 28u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 28u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << ((28u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 28u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 28u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(28) == 268435456); assert(pw(35) == 34359738368);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 28u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 28u8));
            let x = sp_sleb(cur.skip(1), 29);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 268435456 * (c + 128 * m) == (r + c * 268435456) + 34359738368 * m);
                assert(r2 == r + c * 268435456);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 35));
        }
    }
}
proof fn round_i64_35(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 35u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 35u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 35u8)), (35u8 + 7) as u8)
            &&& b >= 0x80 && 35u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (35u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 35u8)) as int, cur.skip(1)))
            &&& 35u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 35u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 35u8)) | ((!0i64) << ((35u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 35u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 35u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(35) == 34359738368); assert(pw(42) == 4398046511104);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 35u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 35u8));
            let x = sp_sleb(cur.skip(1), 22);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 34359738368 * (c + 128 * m) == (r + c * 34359738368) + 4398046511104 * m);
                assert(r2 == r + c * 34359738368);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 42));
        }
    }
}
proof fn round_i64_42(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 42u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 42u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 42u8)), (42u8 + 7) as u8)
            &&& b >= 0x80 && 42u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (42u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 42u8)) as int, cur.skip(1)))
            &&& 42u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 42u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 42u8)) | ((!0i64) << ((42u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 42u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 42u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(42) == 4398046511104); assert(pw(49) == 562949953421312);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 42u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 42u8));
            let x = sp_sleb(cur.skip(1), 15);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 4398046511104 * (c + 128 * m) == (r + c * 4398046511104) + 562949953421312 * m);
                assert(r2 == r + c * 4398046511104);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 49));
        }
    }
}
proof fn round_i64_49(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 49u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 49u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 49u8)), (49u8 + 7) as u8)
            &&& b >= 0x80 && 49u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (49u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 49u8)) as int, cur.skip(1)))
            &&& 49u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 49u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 49u8)) | ((!0i64) << ((49u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 49u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 49u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(49) == 562949953421312); assert(pw(56) == 72057594037927936);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 49u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 49u8));
            let x = sp_sleb(cur.skip(1), 8);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 562949953421312 * (c + 128 * m) == (r + c * 562949953421312) + 72057594037927936 * m);
                assert(r2 == r + c * 562949953421312);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 56));
        }
    }
}
proof fn round_i64_56(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 56u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 56u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 56u8)), (56u8 + 7) as u8)
            &&& b >= 0x80 && 56u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (56u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 56u8)) as int, cur.skip(1)))
            &&& 56u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 56u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 56u8)) | ((!0i64) << ((56u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 56u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 56u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(56) == 72057594037927936); assert(pw(63) == 9223372036854775808);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 56u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 56u8));
            let x = sp_sleb(cur.skip(1), 1);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 72057594037927936 * (c + 128 * m) == (r + c * 72057594037927936) + 9223372036854775808 * m);
                assert(r2 == r + c * 72057594037927936);
            }
            assert(inv_i64(s0, cur.skip(1), r2, 63));
        }
    }
}
proof fn round_i64_63(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_i64(s0, cur, r, 63u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 63u8 < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 63u8)), (63u8 + 7) as u8)
            &&& b >= 0x80 && 63u8 == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (63u8 < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 63u8)) as int, cur.skip(1)))
            &&& 63u8 == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && 63u8 < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << 63u8)) | ((!0i64) << ((63u8 + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && 63u8 == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << 63u8)) as int, cur.skip(1)))
        }),
{
    assert(pw(63) == 9223372036854775808); assert(pw(70) == 1180591620717411303424);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_i64(r, b, 63u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
    }
}
/// one round of the decoding loop
pub proof fn round_i64(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_i64(s0, cur, r, sh),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && sh < 63 ==> inv_i64(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << sh)), (sh + 7) as u8)
            &&& b >= 0x80 && sh == 63 ==> sp_sleb(s0, 64) is None && lebk(s0, 64) == 2
            &&& b < 0x80 ==> lebk(s0, 64) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x3f == 0) <==> b < 1)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x3f == 0x3f) <==> b >= 127)
            &&& b < 0x40 && (sh < 63 || b < 1) ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << sh)) as int, cur.skip(1)))
            &&& sh == 63 && 1 <= b < 127 ==> sp_sleb(s0, 64) is None
            &&& 0x40 <= b < 0x80 && sh < 63 ==> sp_sleb(s0, 64) == Some((((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) as int, cur.skip(1)))
            &&& b == 0x7f && sh == 63 ==> sp_sleb(s0, 64) == Some(((r | (((b & 0x7f) as i64) << sh)) as int, cur.skip(1)))
        }),
{
    if sh == 0 { round_i64_0(s0, cur, r); }
    if sh == 7 { round_i64_7(s0, cur, r); }
    if sh == 14 { round_i64_14(s0, cur, r); }
    if sh == 21 { round_i64_21(s0, cur, r); }
    if sh == 28 { round_i64_28(s0, cur, r); }
    if sh == 35 { round_i64_35(s0, cur, r); }
    if sh == 42 { round_i64_42(s0, cur, r); }
    if sh == 49 { round_i64_49(s0, cur, r); }
    if sh == 56 { round_i64_56(s0, cur, r); }
    if sh == 63 { round_i64_63(s0, cur, r); }
}
pub proof fn start_i64(s0: Seq<u8>)
    ensures inv_i64(s0, s0, 0, 0),
{ assert(pw(0) == 1); }
proof fn range_i64_1(s: Seq<u8>)
    ensures match sp_sleb(s, 1) { None => true, Some((m, t)) => -1 <= m < 1 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
}
proof fn range_i64_8(s: Seq<u8>)
    ensures match sp_sleb(s, 8) { None => true, Some((m, t)) => -128 <= m < 128 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_1(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 1) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_15(s: Seq<u8>)
    ensures match sp_sleb(s, 15) { None => true, Some((m, t)) => -16384 <= m < 16384 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_8(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 8) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_22(s: Seq<u8>)
    ensures match sp_sleb(s, 22) { None => true, Some((m, t)) => -2097152 <= m < 2097152 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_15(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 15) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_29(s: Seq<u8>)
    ensures match sp_sleb(s, 29) { None => true, Some((m, t)) => -268435456 <= m < 268435456 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_22(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 22) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_36(s: Seq<u8>)
    ensures match sp_sleb(s, 36) { None => true, Some((m, t)) => -34359738368 <= m < 34359738368 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_29(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 29) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_43(s: Seq<u8>)
    ensures match sp_sleb(s, 43) { None => true, Some((m, t)) => -4398046511104 <= m < 4398046511104 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_36(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 36) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_50(s: Seq<u8>)
    ensures match sp_sleb(s, 50) { None => true, Some((m, t)) => -562949953421312 <= m < 562949953421312 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_43(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 43) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_i64_57(s: Seq<u8>)
    ensures match sp_sleb(s, 57) { None => true, Some((m, t)) => -72057594037927936 <= m < 72057594037927936 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_50(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 50) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
/// the values are in the range of the type
pub proof fn range_i64(s: Seq<u8>)
    ensures match sp_sleb(s, 64) { None => true, Some((m, t)) => -9223372036854775808 <= m < 9223372036854775808 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_i64_57(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 57) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
pub open spec fn inv_s33(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8) -> bool {
    (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28) && 0 <= r && r < pw(sh as int)
    && sp_sleb(s0, 33) == slift(r as int, pw(sh as int), sp_sleb(cur, (33 - sh) as nat))
    && lebk(s0, 33) == lebk(cur, (33 - sh) as nat)
}
proof fn or_s33(r: i64, b: u8, sh: u8)
    requires (sh == 0 || sh == 7 || sh == 14 || sh == 21 || sh == 28), 0 <= r, r < pw(sh as int),
    ensures
        (b & 0x80 == 0) <==> b < 0x80, (b & 0x7f) == (if b < 0x80 { b as int } else { b - 0x80 }),
        b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40),
        (r | (((b & 0x7f) as i64) << sh)) == r + (b & 0x7f) * pw(sh as int) && 0 <= (r | (((b & 0x7f) as i64) << sh)) < pw(sh + 7),
        0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) == r + (b - 0x80) * pw(sh as int),
        b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16), 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112),
{
    assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector);
    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);
    assert(b >= 0x80 ==> (b & 0x7f) == sub(b, 0x80)) by (bit_vector);
    assert(b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)) by (bit_vector);
    assert(b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)) by (bit_vector);
    assert(0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)) by (bit_vector);
    if sh == 0 {
        assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, mul(((b & 0x7f) as i64), 1)) && 0 <= (r | (((b & 0x7f) as i64) << 0u8)) && (r | (((b & 0x7f) as i64) << 0u8)) < 128 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 1 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << 7u8)) == sub((r | (((b & 0x7f) as i64) << 0u8)), 128)) by (bit_vector);
    }
    if sh == 7 {
        assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, mul(((b & 0x7f) as i64), 128)) && 0 <= (r | (((b & 0x7f) as i64) << 7u8)) && (r | (((b & 0x7f) as i64) << 7u8)) < 16384 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 128 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << 14u8)) == sub((r | (((b & 0x7f) as i64) << 7u8)), 16384)) by (bit_vector);
    }
    if sh == 14 {
        assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, mul(((b & 0x7f) as i64), 16384)) && 0 <= (r | (((b & 0x7f) as i64) << 14u8)) && (r | (((b & 0x7f) as i64) << 14u8)) < 2097152 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 16384 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << 21u8)) == sub((r | (((b & 0x7f) as i64) << 14u8)), 2097152)) by (bit_vector);
    }
    if sh == 21 {
        assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, mul(((b & 0x7f) as i64), 2097152)) && 0 <= (r | (((b & 0x7f) as i64) << 21u8)) && (r | (((b & 0x7f) as i64) << 21u8)) < 268435456 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 2097152 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << 28u8)) == sub((r | (((b & 0x7f) as i64) << 21u8)), 268435456)) by (bit_vector);
    }
    if sh == 28 {
        assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, mul(((b & 0x7f) as i64), 268435456)) && 0 <= (r | (((b & 0x7f) as i64) << 28u8)) && (r | (((b & 0x7f) as i64) << 28u8)) < 34359738368 && ((b & 0x7f) as i64) < 128 && 0 <= ((b & 0x7f) as i64)) by (bit_vector);
        assert(0 <= r && r < 268435456 && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << 35u8)) == sub((r | (((b & 0x7f) as i64) << 28u8)), 34359738368)) by (bit_vector);
    }
}
proof fn round_s33_0(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_s33(s0, cur, r, 0u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 0u8 < 28 ==> inv_s33(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 0u8)), (0u8 + 7) as u8)
            &&& b >= 0x80 && 0u8 == 28 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2
            &&& b < 0x80 ==> lebk(s0, 33) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)
            &&& b < 0x40 && (0u8 < 28 || b < 16) ==> sp_sleb(s0, 33) == Some(((r | (((b & 0x7f) as i64) << 0u8)) as int, cur.skip(1)))
            &&& 0u8 == 28 && 16 <= b < 112 ==> sp_sleb(s0, 33) is None
            &&& 0x40 <= b < 0x80 && (0u8 < 28 || b >= 112) ==> sp_sleb(s0, 33) == Some((((r | (((b & 0x7f) as i64) << 0u8)) | ((!0i64) << ((0u8 + 7) as u8))) as int, cur.skip(1)))
        }),
{
    assert(pw(0) == 1); assert(pw(7) == 128);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_s33(r, b, 0u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 0u8));
            let x = sp_sleb(cur.skip(1), 26);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 1 * (c + 128 * m) == (r + c * 1) + 128 * m);
                assert(r2 == r + c * 1);
            }
            assert(inv_s33(s0, cur.skip(1), r2, 7));
        }
    }
}
proof fn round_s33_7(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_s33(s0, cur, r, 7u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 7u8 < 28 ==> inv_s33(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 7u8)), (7u8 + 7) as u8)
            &&& b >= 0x80 && 7u8 == 28 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2
            &&& b < 0x80 ==> lebk(s0, 33) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)
            &&& b < 0x40 && (7u8 < 28 || b < 16) ==> sp_sleb(s0, 33) == Some(((r | (((b & 0x7f) as i64) << 7u8)) as int, cur.skip(1)))
            &&& 7u8 == 28 && 16 <= b < 112 ==> sp_sleb(s0, 33) is None
            &&& 0x40 <= b < 0x80 && (7u8 < 28 || b >= 112) ==> sp_sleb(s0, 33) == Some((((r | (((b & 0x7f) as i64) << 7u8)) | ((!0i64) << ((7u8 + 7) as u8))) as int, cur.skip(1)))
        }),
{
    assert(pw(7) == 128); assert(pw(14) == 16384);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_s33(r, b, 7u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 7u8));
            let x = sp_sleb(cur.skip(1), 19);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 128 * (c + 128 * m) == (r + c * 128) + 16384 * m);
                assert(r2 == r + c * 128);
            }
            assert(inv_s33(s0, cur.skip(1), r2, 14));
        }
    }
}
proof fn round_s33_14(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_s33(s0, cur, r, 14u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 14u8 < 28 ==> inv_s33(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 14u8)), (14u8 + 7) as u8)
            &&& b >= 0x80 && 14u8 == 28 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2
            &&& b < 0x80 ==> lebk(s0, 33) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)
            &&& b < 0x40 && (14u8 < 28 || b < 16) ==> sp_sleb(s0, 33) == Some(((r | (((b & 0x7f) as i64) << 14u8)) as int, cur.skip(1)))
            &&& 14u8 == 28 && 16 <= b < 112 ==> sp_sleb(s0, 33) is None
            &&& 0x40 <= b < 0x80 && (14u8 < 28 || b >= 112) ==> sp_sleb(s0, 33) == Some((((r | (((b & 0x7f) as i64) << 14u8)) | ((!0i64) << ((14u8 + 7) as u8))) as int, cur.skip(1)))
        }),
{
    assert(pw(14) == 16384); assert(pw(21) == 2097152);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_s33(r, b, 14u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 14u8));
            let x = sp_sleb(cur.skip(1), 12);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 16384 * (c + 128 * m) == (r + c * 16384) + 2097152 * m);
                assert(r2 == r + c * 16384);
            }
            assert(inv_s33(s0, cur.skip(1), r2, 21));
        }
    }
}
proof fn round_s33_21(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_s33(s0, cur, r, 21u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 21u8 < 28 ==> inv_s33(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 21u8)), (21u8 + 7) as u8)
            &&& b >= 0x80 && 21u8 == 28 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2
            &&& b < 0x80 ==> lebk(s0, 33) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)
            &&& b < 0x40 && (21u8 < 28 || b < 16) ==> sp_sleb(s0, 33) == Some(((r | (((b & 0x7f) as i64) << 21u8)) as int, cur.skip(1)))
            &&& 21u8 == 28 && 16 <= b < 112 ==> sp_sleb(s0, 33) is None
            &&& 0x40 <= b < 0x80 && (21u8 < 28 || b >= 112) ==> sp_sleb(s0, 33) == Some((((r | (((b & 0x7f) as i64) << 21u8)) | ((!0i64) << ((21u8 + 7) as u8))) as int, cur.skip(1)))
        }),
{
    assert(pw(21) == 2097152); assert(pw(28) == 268435456);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_s33(r, b, 21u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
        if b >= 0x80 {
            let r2 = (r | (((b & 0x7f) as i64) << 21u8));
            let x = sp_sleb(cur.skip(1), 5);
            if x is Some {
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + 2097152 * (c + 128 * m) == (r + c * 2097152) + 268435456 * m);
                assert(r2 == r + c * 2097152);
            }
            assert(inv_s33(s0, cur.skip(1), r2, 28));
        }
    }
}
proof fn round_s33_28(s0: Seq<u8>, cur: Seq<u8>, r: i64)
    requires inv_s33(s0, cur, r, 28u8),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && 28u8 < 28 ==> inv_s33(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << 28u8)), (28u8 + 7) as u8)
            &&& b >= 0x80 && 28u8 == 28 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2
            &&& b < 0x80 ==> lebk(s0, 33) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)
            &&& b < 0x40 && (28u8 < 28 || b < 16) ==> sp_sleb(s0, 33) == Some(((r | (((b & 0x7f) as i64) << 28u8)) as int, cur.skip(1)))
            &&& 28u8 == 28 && 16 <= b < 112 ==> sp_sleb(s0, 33) is None
            &&& 0x40 <= b < 0x80 && (28u8 < 28 || b >= 112) ==> sp_sleb(s0, 33) == Some((((r | (((b & 0x7f) as i64) << 28u8)) | ((!0i64) << ((28u8 + 7) as u8))) as int, cur.skip(1)))
        }),
{
    assert(pw(28) == 268435456); assert(pw(35) == 34359738368);
    if cur.len() > 0 {
        let b = cur[0];
        pow2s();
        or_s33(r, b, 28u8);
        reveal_with_fuel(sp_sleb, 2); reveal_with_fuel(lebk, 2);
    }
}
/// one round of the decoding loop
pub proof fn round_s33(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_s33(s0, cur, r, sh),
    ensures
        cur.len() == 0 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 1,
        cur.len() > 0 ==> ({
            let b = cur[0];
            &&& (b & 0x80 == 0) <==> b < 0x80
            &&& b >= 0x80 && sh < 28 ==> inv_s33(s0, cur.skip(1), (r | (((b & 0x7f) as i64) << sh)), (sh + 7) as u8)
            &&& b >= 0x80 && sh == 28 ==> sp_sleb(s0, 33) is None && lebk(s0, 33) == 2
            &&& b < 0x80 ==> lebk(s0, 33) == 3
            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)
            &&& b < 0x40 ==> ((b & 0x70 == 0) <==> b < 16)
            &&& 0x40 <= b < 0x80 ==> ((b & 0x70 == 0x70) <==> b >= 112)
            &&& b < 0x40 && (sh < 28 || b < 16) ==> sp_sleb(s0, 33) == Some(((r | (((b & 0x7f) as i64) << sh)) as int, cur.skip(1)))
            &&& sh == 28 && 16 <= b < 112 ==> sp_sleb(s0, 33) is None
            &&& 0x40 <= b < 0x80 && (sh < 28 || b >= 112) ==> sp_sleb(s0, 33) == Some((((r | (((b & 0x7f) as i64) << sh)) | ((!0i64) << ((sh + 7) as u8))) as int, cur.skip(1)))
        }),
{
    if sh == 0 { round_s33_0(s0, cur, r); }
    if sh == 7 { round_s33_7(s0, cur, r); }
    if sh == 14 { round_s33_14(s0, cur, r); }
    if sh == 21 { round_s33_21(s0, cur, r); }
    if sh == 28 { round_s33_28(s0, cur, r); }
}
pub proof fn start_s33(s0: Seq<u8>)
    ensures inv_s33(s0, s0, 0, 0),
{ assert(pw(0) == 1); }
proof fn range_s33_5(s: Seq<u8>)
    ensures match sp_sleb(s, 5) { None => true, Some((m, t)) => -16 <= m < 16 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
}
proof fn range_s33_12(s: Seq<u8>)
    ensures match sp_sleb(s, 12) { None => true, Some((m, t)) => -2048 <= m < 2048 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_s33_5(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 5) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_s33_19(s: Seq<u8>)
    ensures match sp_sleb(s, 19) { None => true, Some((m, t)) => -262144 <= m < 262144 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_s33_12(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 12) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
proof fn range_s33_26(s: Seq<u8>)
    ensures match sp_sleb(s, 26) { None => true, Some((m, t)) => -33554432 <= m < 33554432 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_s33_19(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 19) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
/// the values are in the range of the type
pub proof fn range_s33(s: Seq<u8>)
    ensures match sp_sleb(s, 33) { None => true, Some((m, t)) => -4294967296 <= m < 4294967296 && t.len() < s.len() && t == s.skip(s.len() - t.len()) },
{
    pow2s();
    reveal_with_fuel(sp_sleb, 1);
    if s.len() > 0 {
        range_s33_26(s.skip(1));
        if let Some((m, t)) = sp_sleb(s.skip(1), 26) { assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_u32(s0: Seq<u8>, cur: Seq<u8>, r: u32, sh: u8)
    requires inv_u32(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as u32) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }),
{
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(r < 1 ==> (r | (((b & 0x7f) as u32) << 0u8)) == add(r, (((b & 0x7f) as u32) << 0u8)) && (r ^ (((b & 0x7f) as u32) << 0u8)) == (r | (((b & 0x7f) as u32) << 0u8)) && ((((b & 0x7f) as u32) << 0u8) | r) == (r | (((b & 0x7f) as u32) << 0u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 0u8) <= 127) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(r < 128 ==> (r | (((b & 0x7f) as u32) << 7u8)) == add(r, (((b & 0x7f) as u32) << 7u8)) && (r ^ (((b & 0x7f) as u32) << 7u8)) == (r | (((b & 0x7f) as u32) << 7u8)) && ((((b & 0x7f) as u32) << 7u8) | r) == (r | (((b & 0x7f) as u32) << 7u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 7u8) <= 16256) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(r < 16384 ==> (r | (((b & 0x7f) as u32) << 14u8)) == add(r, (((b & 0x7f) as u32) << 14u8)) && (r ^ (((b & 0x7f) as u32) << 14u8)) == (r | (((b & 0x7f) as u32) << 14u8)) && ((((b & 0x7f) as u32) << 14u8) | r) == (r | (((b & 0x7f) as u32) << 14u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 14u8) <= 2080768) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(r < 2097152 ==> (r | (((b & 0x7f) as u32) << 21u8)) == add(r, (((b & 0x7f) as u32) << 21u8)) && (r ^ (((b & 0x7f) as u32) << 21u8)) == (r | (((b & 0x7f) as u32) << 21u8)) && ((((b & 0x7f) as u32) << 21u8) | r) == (r | (((b & 0x7f) as u32) << 21u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 21u8) <= 266338304) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(r < 268435456 ==> (r | (((b & 0x7f) as u32) << 28u8)) == add(r, (((b & 0x7f) as u32) << 28u8)) && (r ^ (((b & 0x7f) as u32) << 28u8)) == (r | (((b & 0x7f) as u32) << 28u8)) && ((((b & 0x7f) as u32) << 28u8) | r) == (r | (((b & 0x7f) as u32) << 28u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 28u8) <= 4026531840) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_u64(s0: Seq<u8>, cur: Seq<u8>, r: u64, sh: u8)
    requires inv_u64(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as u64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }),
{
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(r < 1 ==> (r | (((b & 0x7f) as u64) << 0u8)) == add(r, (((b & 0x7f) as u64) << 0u8)) && (r ^ (((b & 0x7f) as u64) << 0u8)) == (r | (((b & 0x7f) as u64) << 0u8)) && ((((b & 0x7f) as u64) << 0u8) | r) == (r | (((b & 0x7f) as u64) << 0u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 0u8) <= 127) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(r < 128 ==> (r | (((b & 0x7f) as u64) << 7u8)) == add(r, (((b & 0x7f) as u64) << 7u8)) && (r ^ (((b & 0x7f) as u64) << 7u8)) == (r | (((b & 0x7f) as u64) << 7u8)) && ((((b & 0x7f) as u64) << 7u8) | r) == (r | (((b & 0x7f) as u64) << 7u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 7u8) <= 16256) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(r < 16384 ==> (r | (((b & 0x7f) as u64) << 14u8)) == add(r, (((b & 0x7f) as u64) << 14u8)) && (r ^ (((b & 0x7f) as u64) << 14u8)) == (r | (((b & 0x7f) as u64) << 14u8)) && ((((b & 0x7f) as u64) << 14u8) | r) == (r | (((b & 0x7f) as u64) << 14u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 14u8) <= 2080768) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(r < 2097152 ==> (r | (((b & 0x7f) as u64) << 21u8)) == add(r, (((b & 0x7f) as u64) << 21u8)) && (r ^ (((b & 0x7f) as u64) << 21u8)) == (r | (((b & 0x7f) as u64) << 21u8)) && ((((b & 0x7f) as u64) << 21u8) | r) == (r | (((b & 0x7f) as u64) << 21u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 21u8) <= 266338304) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(r < 268435456 ==> (r | (((b & 0x7f) as u64) << 28u8)) == add(r, (((b & 0x7f) as u64) << 28u8)) && (r ^ (((b & 0x7f) as u64) << 28u8)) == (r | (((b & 0x7f) as u64) << 28u8)) && ((((b & 0x7f) as u64) << 28u8) | r) == (r | (((b & 0x7f) as u64) << 28u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 28u8) <= 34091302912) by (bit_vector);
        }
        if sh == 35 { assert(pw(35) == 34359738368); assert(r < 34359738368 ==> (r | (((b & 0x7f) as u64) << 35u8)) == add(r, (((b & 0x7f) as u64) << 35u8)) && (r ^ (((b & 0x7f) as u64) << 35u8)) == (r | (((b & 0x7f) as u64) << 35u8)) && ((((b & 0x7f) as u64) << 35u8) | r) == (r | (((b & 0x7f) as u64) << 35u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 35u8) <= 4363686772736) by (bit_vector);
        }
        if sh == 42 { assert(pw(42) == 4398046511104); assert(r < 4398046511104 ==> (r | (((b & 0x7f) as u64) << 42u8)) == add(r, (((b & 0x7f) as u64) << 42u8)) && (r ^ (((b & 0x7f) as u64) << 42u8)) == (r | (((b & 0x7f) as u64) << 42u8)) && ((((b & 0x7f) as u64) << 42u8) | r) == (r | (((b & 0x7f) as u64) << 42u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 42u8) <= 558551906910208) by (bit_vector);
        }
        if sh == 49 { assert(pw(49) == 562949953421312); assert(r < 562949953421312 ==> (r | (((b & 0x7f) as u64) << 49u8)) == add(r, (((b & 0x7f) as u64) << 49u8)) && (r ^ (((b & 0x7f) as u64) << 49u8)) == (r | (((b & 0x7f) as u64) << 49u8)) && ((((b & 0x7f) as u64) << 49u8) | r) == (r | (((b & 0x7f) as u64) << 49u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 49u8) <= 71494644084506624) by (bit_vector);
        }
        if sh == 56 { assert(pw(56) == 72057594037927936); assert(r < 72057594037927936 ==> (r | (((b & 0x7f) as u64) << 56u8)) == add(r, (((b & 0x7f) as u64) << 56u8)) && (r ^ (((b & 0x7f) as u64) << 56u8)) == (r | (((b & 0x7f) as u64) << 56u8)) && ((((b & 0x7f) as u64) << 56u8) | r) == (r | (((b & 0x7f) as u64) << 56u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 56u8) <= 9151314442816847872) by (bit_vector);
        }
        if sh == 63 { assert(pw(63) == 9223372036854775808); assert(r < 9223372036854775808 ==> (r | (((b & 0x7f) as u64) << 63u8)) == add(r, (((b & 0x7f) as u64) << 63u8)) && (r ^ (((b & 0x7f) as u64) << 63u8)) == (r | (((b & 0x7f) as u64) << 63u8)) && ((((b & 0x7f) as u64) << 63u8) | r) == (r | (((b & 0x7f) as u64) << 63u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 63u8) <= 9223372036854775808) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_i32(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_i32(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as i64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }), !0i64 == -1i64,
{
    assert(!0i64 == -1i64) by (bit_vector);
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, (((b & 0x7f) as i64) << 0u8)) && (r ^ (((b & 0x7f) as i64) << 0u8)) == (r | (((b & 0x7f) as i64) << 0u8)) && ((((b & 0x7f) as i64) << 0u8) | r) == (r | (((b & 0x7f) as i64) << 0u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 0u8) && (((b & 0x7f) as i64) << 0u8) < 128) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, (((b & 0x7f) as i64) << 7u8)) && (r ^ (((b & 0x7f) as i64) << 7u8)) == (r | (((b & 0x7f) as i64) << 7u8)) && ((((b & 0x7f) as i64) << 7u8) | r) == (r | (((b & 0x7f) as i64) << 7u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 7u8) && (((b & 0x7f) as i64) << 7u8) < 16384) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, (((b & 0x7f) as i64) << 14u8)) && (r ^ (((b & 0x7f) as i64) << 14u8)) == (r | (((b & 0x7f) as i64) << 14u8)) && ((((b & 0x7f) as i64) << 14u8) | r) == (r | (((b & 0x7f) as i64) << 14u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 14u8) && (((b & 0x7f) as i64) << 14u8) < 2097152) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, (((b & 0x7f) as i64) << 21u8)) && (r ^ (((b & 0x7f) as i64) << 21u8)) == (r | (((b & 0x7f) as i64) << 21u8)) && ((((b & 0x7f) as i64) << 21u8) | r) == (r | (((b & 0x7f) as i64) << 21u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 21u8) && (((b & 0x7f) as i64) << 21u8) < 268435456) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, (((b & 0x7f) as i64) << 28u8)) && (r ^ (((b & 0x7f) as i64) << 28u8)) == (r | (((b & 0x7f) as i64) << 28u8)) && ((((b & 0x7f) as i64) << 28u8) | r) == (r | (((b & 0x7f) as i64) << 28u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 28u8) && (((b & 0x7f) as i64) << 28u8) < 34359738368) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_i64(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_i64(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as i64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }), !0i64 == -1i64,
{
    assert(!0i64 == -1i64) by (bit_vector);
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, (((b & 0x7f) as i64) << 0u8)) && (r ^ (((b & 0x7f) as i64) << 0u8)) == (r | (((b & 0x7f) as i64) << 0u8)) && ((((b & 0x7f) as i64) << 0u8) | r) == (r | (((b & 0x7f) as i64) << 0u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 0u8) && (((b & 0x7f) as i64) << 0u8) < 128) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, (((b & 0x7f) as i64) << 7u8)) && (r ^ (((b & 0x7f) as i64) << 7u8)) == (r | (((b & 0x7f) as i64) << 7u8)) && ((((b & 0x7f) as i64) << 7u8) | r) == (r | (((b & 0x7f) as i64) << 7u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 7u8) && (((b & 0x7f) as i64) << 7u8) < 16384) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, (((b & 0x7f) as i64) << 14u8)) && (r ^ (((b & 0x7f) as i64) << 14u8)) == (r | (((b & 0x7f) as i64) << 14u8)) && ((((b & 0x7f) as i64) << 14u8) | r) == (r | (((b & 0x7f) as i64) << 14u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 14u8) && (((b & 0x7f) as i64) << 14u8) < 2097152) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, (((b & 0x7f) as i64) << 21u8)) && (r ^ (((b & 0x7f) as i64) << 21u8)) == (r | (((b & 0x7f) as i64) << 21u8)) && ((((b & 0x7f) as i64) << 21u8) | r) == (r | (((b & 0x7f) as i64) << 21u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 21u8) && (((b & 0x7f) as i64) << 21u8) < 268435456) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, (((b & 0x7f) as i64) << 28u8)) && (r ^ (((b & 0x7f) as i64) << 28u8)) == (r | (((b & 0x7f) as i64) << 28u8)) && ((((b & 0x7f) as i64) << 28u8) | r) == (r | (((b & 0x7f) as i64) << 28u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 28u8) && (((b & 0x7f) as i64) << 28u8) < 34359738368) by (bit_vector);
        }
        if sh == 35 { assert(pw(35) == 34359738368); assert(0 <= r && r < 34359738368 ==> (r | (((b & 0x7f) as i64) << 35u8)) == add(r, (((b & 0x7f) as i64) << 35u8)) && (r ^ (((b & 0x7f) as i64) << 35u8)) == (r | (((b & 0x7f) as i64) << 35u8)) && ((((b & 0x7f) as i64) << 35u8) | r) == (r | (((b & 0x7f) as i64) << 35u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 35u8) && (((b & 0x7f) as i64) << 35u8) < 4398046511104) by (bit_vector);
        }
        if sh == 42 { assert(pw(42) == 4398046511104); assert(0 <= r && r < 4398046511104 ==> (r | (((b & 0x7f) as i64) << 42u8)) == add(r, (((b & 0x7f) as i64) << 42u8)) && (r ^ (((b & 0x7f) as i64) << 42u8)) == (r | (((b & 0x7f) as i64) << 42u8)) && ((((b & 0x7f) as i64) << 42u8) | r) == (r | (((b & 0x7f) as i64) << 42u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 42u8) && (((b & 0x7f) as i64) << 42u8) < 562949953421312) by (bit_vector);
        }
        if sh == 49 { assert(pw(49) == 562949953421312); assert(0 <= r && r < 562949953421312 ==> (r | (((b & 0x7f) as i64) << 49u8)) == add(r, (((b & 0x7f) as i64) << 49u8)) && (r ^ (((b & 0x7f) as i64) << 49u8)) == (r | (((b & 0x7f) as i64) << 49u8)) && ((((b & 0x7f) as i64) << 49u8) | r) == (r | (((b & 0x7f) as i64) << 49u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 49u8) && (((b & 0x7f) as i64) << 49u8) < 72057594037927936) by (bit_vector);
        }
        if sh == 56 { assert(pw(56) == 72057594037927936); assert(0 <= r && r < 72057594037927936 ==> (r | (((b & 0x7f) as i64) << 56u8)) == add(r, (((b & 0x7f) as i64) << 56u8)) && (r ^ (((b & 0x7f) as i64) << 56u8)) == (r | (((b & 0x7f) as i64) << 56u8)) && ((((b & 0x7f) as i64) << 56u8) | r) == (r | (((b & 0x7f) as i64) << 56u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 56u8) && (((b & 0x7f) as i64) << 56u8) <= 0x7f00_0000_0000_0000) by (bit_vector);
        }
        if sh == 63 { assert(pw(63) == 9223372036854775808); assert(0 <= r ==> (r | (((b & 0x7f) as i64) << 63u8)) == add(r, (((b & 0x7f) as i64) << 63u8)) && (r ^ (((b & 0x7f) as i64) << 63u8)) == (r | (((b & 0x7f) as i64) << 63u8)) && ((((b & 0x7f) as i64) << 63u8) | r) == (r | (((b & 0x7f) as i64) << 63u8))) by (bit_vector);
            assert((((b & 0x7f) as i64) << 63u8) == 0 || (((b & 0x7f) as i64) << 63u8) == -0x8000_0000_0000_0000i64) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_s33(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_s33(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as i64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }), !0i64 == -1i64,
{
    assert(!0i64 == -1i64) by (bit_vector);
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, (((b & 0x7f) as i64) << 0u8)) && (r ^ (((b & 0x7f) as i64) << 0u8)) == (r | (((b & 0x7f) as i64) << 0u8)) && ((((b & 0x7f) as i64) << 0u8) | r) == (r | (((b & 0x7f) as i64) << 0u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 0u8) && (((b & 0x7f) as i64) << 0u8) < 128) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, (((b & 0x7f) as i64) << 7u8)) && (r ^ (((b & 0x7f) as i64) << 7u8)) == (r | (((b & 0x7f) as i64) << 7u8)) && ((((b & 0x7f) as i64) << 7u8) | r) == (r | (((b & 0x7f) as i64) << 7u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 7u8) && (((b & 0x7f) as i64) << 7u8) < 16384) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, (((b & 0x7f) as i64) << 14u8)) && (r ^ (((b & 0x7f) as i64) << 14u8)) == (r | (((b & 0x7f) as i64) << 14u8)) && ((((b & 0x7f) as i64) << 14u8) | r) == (r | (((b & 0x7f) as i64) << 14u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 14u8) && (((b & 0x7f) as i64) << 14u8) < 2097152) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, (((b & 0x7f) as i64) << 21u8)) && (r ^ (((b & 0x7f) as i64) << 21u8)) == (r | (((b & 0x7f) as i64) << 21u8)) && ((((b & 0x7f) as i64) << 21u8) | r) == (r | (((b & 0x7f) as i64) << 21u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 21u8) && (((b & 0x7f) as i64) << 21u8) < 268435456) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, (((b & 0x7f) as i64) << 28u8)) && (r ^ (((b & 0x7f) as i64) << 28u8)) == (r | (((b & 0x7f) as i64) << 28u8)) && ((((b & 0x7f) as i64) << 28u8) | r) == (r | (((b & 0x7f) as i64) << 28u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 28u8) && (((b & 0x7f) as i64) << 28u8) < 34359738368) by (bit_vector);
        }
    }
}
