/// or-ing in the next group adds it: the bits are free
pub proof fn plus_u32(s0: Seq<u8>, cur: Seq<u8>, r: u32, sh: u8)
    requires inv_u32(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as u32) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }),
{
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(r < 1 ==> (r | (((b & 0x7f) as u32) << 0u8)) == add(r, (((b & 0x7f) as u32) << 0u8)) && (r ^ (((b & 0x7f) as u32) << 0u8)) == (r | (((b & 0x7f) as u32) << 0u8)) && ((((b & 0x7f) as u32) << 0u8) | r) == (r | (((b & 0x7f) as u32) << 0u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 0u8) <= 127) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(r < 128 ==> (r | (((b & 0x7f) as u32) << 7u8)) == add(r, (((b & 0x7f) as u32) << 7u8)) && (r ^ (((b & 0x7f) as u32) << 7u8)) == (r | (((b & 0x7f) as u32) << 7u8)) && ((((b & 0x7f) as u32) << 7u8) | r) == (r | (((b & 0x7f) as u32) << 7u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 7u8) <= 16256) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(r < 16384 ==> (r | (((b & 0x7f) as u32) << 14u8)) == add(r, (((b & 0x7f) as u32) << 14u8)) && (r ^ (((b & 0x7f) as u32) << 14u8)) == (r | (((b & 0x7f) as u32) << 14u8)) && ((((b & 0x7f) as u32) << 14u8) | r) == (r | (((b & 0x7f) as u32) << 14u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 14u8) <= 2080768) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(r < 2097152 ==> (r | (((b & 0x7f) as u32) << 21u8)) == add(r, (((b & 0x7f) as u32) << 21u8)) && (r ^ (((b & 0x7f) as u32) << 21u8)) == (r | (((b & 0x7f) as u32) << 21u8)) && ((((b & 0x7f) as u32) << 21u8) | r) == (r | (((b & 0x7f) as u32) << 21u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 21u8) <= 266338304) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(r < 268435456 ==> (r | (((b & 0x7f) as u32) << 28u8)) == add(r, (((b & 0x7f) as u32) << 28u8)) && (r ^ (((b & 0x7f) as u32) << 28u8)) == (r | (((b & 0x7f) as u32) << 28u8)) && ((((b & 0x7f) as u32) << 28u8) | r) == (r | (((b & 0x7f) as u32) << 28u8))) by (bit_vector);
            assert((((b & 0x7f) as u32) << 28u8) <= 4026531840) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_u64(s0: Seq<u8>, cur: Seq<u8>, r: u64, sh: u8)
    requires inv_u64(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as u64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }),
{
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(r < 1 ==> (r | (((b & 0x7f) as u64) << 0u8)) == add(r, (((b & 0x7f) as u64) << 0u8)) && (r ^ (((b & 0x7f) as u64) << 0u8)) == (r | (((b & 0x7f) as u64) << 0u8)) && ((((b & 0x7f) as u64) << 0u8) | r) == (r | (((b & 0x7f) as u64) << 0u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 0u8) <= 127) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(r < 128 ==> (r | (((b & 0x7f) as u64) << 7u8)) == add(r, (((b & 0x7f) as u64) << 7u8)) && (r ^ (((b & 0x7f) as u64) << 7u8)) == (r | (((b & 0x7f) as u64) << 7u8)) && ((((b & 0x7f) as u64) << 7u8) | r) == (r | (((b & 0x7f) as u64) << 7u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 7u8) <= 16256) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(r < 16384 ==> (r | (((b & 0x7f) as u64) << 14u8)) == add(r, (((b & 0x7f) as u64) << 14u8)) && (r ^ (((b & 0x7f) as u64) << 14u8)) == (r | (((b & 0x7f) as u64) << 14u8)) && ((((b & 0x7f) as u64) << 14u8) | r) == (r | (((b & 0x7f) as u64) << 14u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 14u8) <= 2080768) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(r < 2097152 ==> (r | (((b & 0x7f) as u64) << 21u8)) == add(r, (((b & 0x7f) as u64) << 21u8)) && (r ^ (((b & 0x7f) as u64) << 21u8)) == (r | (((b & 0x7f) as u64) << 21u8)) && ((((b & 0x7f) as u64) << 21u8) | r) == (r | (((b & 0x7f) as u64) << 21u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 21u8) <= 266338304) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(r < 268435456 ==> (r | (((b & 0x7f) as u64) << 28u8)) == add(r, (((b & 0x7f) as u64) << 28u8)) && (r ^ (((b & 0x7f) as u64) << 28u8)) == (r | (((b & 0x7f) as u64) << 28u8)) && ((((b & 0x7f) as u64) << 28u8) | r) == (r | (((b & 0x7f) as u64) << 28u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 28u8) <= 34091302912) by (bit_vector);
        }
        if sh == 35 { assert(pw(35) == 34359738368); assert(r < 34359738368 ==> (r | (((b & 0x7f) as u64) << 35u8)) == add(r, (((b & 0x7f) as u64) << 35u8)) && (r ^ (((b & 0x7f) as u64) << 35u8)) == (r | (((b & 0x7f) as u64) << 35u8)) && ((((b & 0x7f) as u64) << 35u8) | r) == (r | (((b & 0x7f) as u64) << 35u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 35u8) <= 4363686772736) by (bit_vector);
        }
        if sh == 42 { assert(pw(42) == 4398046511104); assert(r < 4398046511104 ==> (r | (((b & 0x7f) as u64) << 42u8)) == add(r, (((b & 0x7f) as u64) << 42u8)) && (r ^ (((b & 0x7f) as u64) << 42u8)) == (r | (((b & 0x7f) as u64) << 42u8)) && ((((b & 0x7f) as u64) << 42u8) | r) == (r | (((b & 0x7f) as u64) << 42u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 42u8) <= 558551906910208) by (bit_vector);
        }
        if sh == 49 { assert(pw(49) == 562949953421312); assert(r < 562949953421312 ==> (r | (((b & 0x7f) as u64) << 49u8)) == add(r, (((b & 0x7f) as u64) << 49u8)) && (r ^ (((b & 0x7f) as u64) << 49u8)) == (r | (((b & 0x7f) as u64) << 49u8)) && ((((b & 0x7f) as u64) << 49u8) | r) == (r | (((b & 0x7f) as u64) << 49u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 49u8) <= 71494644084506624) by (bit_vector);
        }
        if sh == 56 { assert(pw(56) == 72057594037927936); assert(r < 72057594037927936 ==> (r | (((b & 0x7f) as u64) << 56u8)) == add(r, (((b & 0x7f) as u64) << 56u8)) && (r ^ (((b & 0x7f) as u64) << 56u8)) == (r | (((b & 0x7f) as u64) << 56u8)) && ((((b & 0x7f) as u64) << 56u8) | r) == (r | (((b & 0x7f) as u64) << 56u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 56u8) <= 9151314442816847872) by (bit_vector);
        }
        if sh == 63 { assert(pw(63) == 9223372036854775808); assert(r < 9223372036854775808 ==> (r | (((b & 0x7f) as u64) << 63u8)) == add(r, (((b & 0x7f) as u64) << 63u8)) && (r ^ (((b & 0x7f) as u64) << 63u8)) == (r | (((b & 0x7f) as u64) << 63u8)) && ((((b & 0x7f) as u64) << 63u8) | r) == (r | (((b & 0x7f) as u64) << 63u8))) by (bit_vector);
            assert((((b & 0x7f) as u64) << 63u8) <= 9223372036854775808) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_i32(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_i32(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as i64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }), !0i64 == -1i64,
{
    assert(!0i64 == -1i64) by (bit_vector);
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, (((b & 0x7f) as i64) << 0u8)) && (r ^ (((b & 0x7f) as i64) << 0u8)) == (r | (((b & 0x7f) as i64) << 0u8)) && ((((b & 0x7f) as i64) << 0u8) | r) == (r | (((b & 0x7f) as i64) << 0u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 0u8) && (((b & 0x7f) as i64) << 0u8) < 128) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, (((b & 0x7f) as i64) << 7u8)) && (r ^ (((b & 0x7f) as i64) << 7u8)) == (r | (((b & 0x7f) as i64) << 7u8)) && ((((b & 0x7f) as i64) << 7u8) | r) == (r | (((b & 0x7f) as i64) << 7u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 7u8) && (((b & 0x7f) as i64) << 7u8) < 16384) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, (((b & 0x7f) as i64) << 14u8)) && (r ^ (((b & 0x7f) as i64) << 14u8)) == (r | (((b & 0x7f) as i64) << 14u8)) && ((((b & 0x7f) as i64) << 14u8) | r) == (r | (((b & 0x7f) as i64) << 14u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 14u8) && (((b & 0x7f) as i64) << 14u8) < 2097152) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, (((b & 0x7f) as i64) << 21u8)) && (r ^ (((b & 0x7f) as i64) << 21u8)) == (r | (((b & 0x7f) as i64) << 21u8)) && ((((b & 0x7f) as i64) << 21u8) | r) == (r | (((b & 0x7f) as i64) << 21u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 21u8) && (((b & 0x7f) as i64) << 21u8) < 268435456) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, (((b & 0x7f) as i64) << 28u8)) && (r ^ (((b & 0x7f) as i64) << 28u8)) == (r | (((b & 0x7f) as i64) << 28u8)) && ((((b & 0x7f) as i64) << 28u8) | r) == (r | (((b & 0x7f) as i64) << 28u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 28u8) && (((b & 0x7f) as i64) << 28u8) < 34359738368) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_i64(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_i64(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as i64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }), !0i64 == -1i64,
{
    assert(!0i64 == -1i64) by (bit_vector);
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, (((b & 0x7f) as i64) << 0u8)) && (r ^ (((b & 0x7f) as i64) << 0u8)) == (r | (((b & 0x7f) as i64) << 0u8)) && ((((b & 0x7f) as i64) << 0u8) | r) == (r | (((b & 0x7f) as i64) << 0u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 0u8) && (((b & 0x7f) as i64) << 0u8) < 128) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, (((b & 0x7f) as i64) << 7u8)) && (r ^ (((b & 0x7f) as i64) << 7u8)) == (r | (((b & 0x7f) as i64) << 7u8)) && ((((b & 0x7f) as i64) << 7u8) | r) == (r | (((b & 0x7f) as i64) << 7u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 7u8) && (((b & 0x7f) as i64) << 7u8) < 16384) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, (((b & 0x7f) as i64) << 14u8)) && (r ^ (((b & 0x7f) as i64) << 14u8)) == (r | (((b & 0x7f) as i64) << 14u8)) && ((((b & 0x7f) as i64) << 14u8) | r) == (r | (((b & 0x7f) as i64) << 14u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 14u8) && (((b & 0x7f) as i64) << 14u8) < 2097152) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, (((b & 0x7f) as i64) << 21u8)) && (r ^ (((b & 0x7f) as i64) << 21u8)) == (r | (((b & 0x7f) as i64) << 21u8)) && ((((b & 0x7f) as i64) << 21u8) | r) == (r | (((b & 0x7f) as i64) << 21u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 21u8) && (((b & 0x7f) as i64) << 21u8) < 268435456) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, (((b & 0x7f) as i64) << 28u8)) && (r ^ (((b & 0x7f) as i64) << 28u8)) == (r | (((b & 0x7f) as i64) << 28u8)) && ((((b & 0x7f) as i64) << 28u8) | r) == (r | (((b & 0x7f) as i64) << 28u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 28u8) && (((b & 0x7f) as i64) << 28u8) < 34359738368) by (bit_vector);
        }
        if sh == 35 { assert(pw(35) == 34359738368); assert(0 <= r && r < 34359738368 ==> (r | (((b & 0x7f) as i64) << 35u8)) == add(r, (((b & 0x7f) as i64) << 35u8)) && (r ^ (((b & 0x7f) as i64) << 35u8)) == (r | (((b & 0x7f) as i64) << 35u8)) && ((((b & 0x7f) as i64) << 35u8) | r) == (r | (((b & 0x7f) as i64) << 35u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 35u8) && (((b & 0x7f) as i64) << 35u8) < 4398046511104) by (bit_vector);
        }
        if sh == 42 { assert(pw(42) == 4398046511104); assert(0 <= r && r < 4398046511104 ==> (r | (((b & 0x7f) as i64) << 42u8)) == add(r, (((b & 0x7f) as i64) << 42u8)) && (r ^ (((b & 0x7f) as i64) << 42u8)) == (r | (((b & 0x7f) as i64) << 42u8)) && ((((b & 0x7f) as i64) << 42u8) | r) == (r | (((b & 0x7f) as i64) << 42u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 42u8) && (((b & 0x7f) as i64) << 42u8) < 562949953421312) by (bit_vector);
        }
        if sh == 49 { assert(pw(49) == 562949953421312); assert(0 <= r && r < 562949953421312 ==> (r | (((b & 0x7f) as i64) << 49u8)) == add(r, (((b & 0x7f) as i64) << 49u8)) && (r ^ (((b & 0x7f) as i64) << 49u8)) == (r | (((b & 0x7f) as i64) << 49u8)) && ((((b & 0x7f) as i64) << 49u8) | r) == (r | (((b & 0x7f) as i64) << 49u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 49u8) && (((b & 0x7f) as i64) << 49u8) < 72057594037927936) by (bit_vector);
        }
        if sh == 56 { assert(pw(56) == 72057594037927936); assert(0 <= r && r < 72057594037927936 ==> (r | (((b & 0x7f) as i64) << 56u8)) == add(r, (((b & 0x7f) as i64) << 56u8)) && (r ^ (((b & 0x7f) as i64) << 56u8)) == (r | (((b & 0x7f) as i64) << 56u8)) && ((((b & 0x7f) as i64) << 56u8) | r) == (r | (((b & 0x7f) as i64) << 56u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 56u8) && (((b & 0x7f) as i64) << 56u8) <= 0x7f00_0000_0000_0000) by (bit_vector);
        }
        if sh == 63 { assert(pw(63) == 9223372036854775808); assert(0 <= r ==> (r | (((b & 0x7f) as i64) << 63u8)) == add(r, (((b & 0x7f) as i64) << 63u8)) && (r ^ (((b & 0x7f) as i64) << 63u8)) == (r | (((b & 0x7f) as i64) << 63u8)) && ((((b & 0x7f) as i64) << 63u8) | r) == (r | (((b & 0x7f) as i64) << 63u8))) by (bit_vector);
            assert((((b & 0x7f) as i64) << 63u8) == 0 || (((b & 0x7f) as i64) << 63u8) == -0x8000_0000_0000_0000i64) by (bit_vector);
        }
    }
}
/// or-ing in the next group adds it: the bits are free
pub proof fn plus_s33(s0: Seq<u8>, cur: Seq<u8>, r: i64, sh: u8)
    requires inv_s33(s0, cur, r, sh),
    ensures cur.len() > 0 ==> ({
        let y = ((cur[0] & 0x7f) as i64) << sh;
        (r | y) == r + y && (r ^ y) == (r | y) && (y | r) == (r | y)
    }), !0i64 == -1i64,
{
    assert(!0i64 == -1i64) by (bit_vector);
    if cur.len() > 0 {
        let b = cur[0];
        assert(pw(0) == 1);
        if sh == 0 { assert(pw(0) == 1); assert(0 <= r && r < 1 ==> (r | (((b & 0x7f) as i64) << 0u8)) == add(r, (((b & 0x7f) as i64) << 0u8)) && (r ^ (((b & 0x7f) as i64) << 0u8)) == (r | (((b & 0x7f) as i64) << 0u8)) && ((((b & 0x7f) as i64) << 0u8) | r) == (r | (((b & 0x7f) as i64) << 0u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 0u8) && (((b & 0x7f) as i64) << 0u8) < 128) by (bit_vector);
        }
        if sh == 7 { assert(pw(7) == 128); assert(0 <= r && r < 128 ==> (r | (((b & 0x7f) as i64) << 7u8)) == add(r, (((b & 0x7f) as i64) << 7u8)) && (r ^ (((b & 0x7f) as i64) << 7u8)) == (r | (((b & 0x7f) as i64) << 7u8)) && ((((b & 0x7f) as i64) << 7u8) | r) == (r | (((b & 0x7f) as i64) << 7u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 7u8) && (((b & 0x7f) as i64) << 7u8) < 16384) by (bit_vector);
        }
        if sh == 14 { assert(pw(14) == 16384); assert(0 <= r && r < 16384 ==> (r | (((b & 0x7f) as i64) << 14u8)) == add(r, (((b & 0x7f) as i64) << 14u8)) && (r ^ (((b & 0x7f) as i64) << 14u8)) == (r | (((b & 0x7f) as i64) << 14u8)) && ((((b & 0x7f) as i64) << 14u8) | r) == (r | (((b & 0x7f) as i64) << 14u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 14u8) && (((b & 0x7f) as i64) << 14u8) < 2097152) by (bit_vector);
        }
        if sh == 21 { assert(pw(21) == 2097152); assert(0 <= r && r < 2097152 ==> (r | (((b & 0x7f) as i64) << 21u8)) == add(r, (((b & 0x7f) as i64) << 21u8)) && (r ^ (((b & 0x7f) as i64) << 21u8)) == (r | (((b & 0x7f) as i64) << 21u8)) && ((((b & 0x7f) as i64) << 21u8) | r) == (r | (((b & 0x7f) as i64) << 21u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 21u8) && (((b & 0x7f) as i64) << 21u8) < 268435456) by (bit_vector);
        }
        if sh == 28 { assert(pw(28) == 268435456); assert(0 <= r && r < 268435456 ==> (r | (((b & 0x7f) as i64) << 28u8)) == add(r, (((b & 0x7f) as i64) << 28u8)) && (r ^ (((b & 0x7f) as i64) << 28u8)) == (r | (((b & 0x7f) as i64) << 28u8)) && ((((b & 0x7f) as i64) << 28u8) | r) == (r | (((b & 0x7f) as i64) << 28u8))) by (bit_vector);
            assert(0 <= (((b & 0x7f) as i64) << 28u8) && (((b & 0x7f) as i64) << 28u8) < 34359738368) by (bit_vector);
        }
    }
}
