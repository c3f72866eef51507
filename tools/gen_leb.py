#!/usr/bin/env python3
# Generates spec/leb.rs: the lemmas that connect the shift-and-or LEB128 loops with the arithmetic definition of uN and sN.
o=["// Generated by tools/gen_leb.py. Lemmas (fully proved, nothing assumed) that connect shift-and-or LEB128",
   "// accumulation with the arithmetic definition of uN and sN.",
   "pub open spec fn pw(sh: int) -> int {"]
for k in range(0,11):
    o.append(f"    {'if' if k==0 else 'else if'} sh == {7*k} {{ {2**(7*k)} }}")
o.append("    else { 0 }\n}")
o.append('''pub proof fn pow2s()
    ensures ''' + ', '.join(f"vstd::arithmetic::power2::pow2({i}) == {2**i}" for i in range(0,8)) + '''
{ vstd::arithmetic::power2::lemma2_to64(); }
/// how a LEB128 integer ends: 1 not at all, 2 after too many bytes, 3 with a byte that may be the last
pub open spec fn lebk(s: Seq<u8>, n: nat) -> int decreases n {
    if s.len() == 0 { 1 } else if s[0] < 0x80 { 3 } else if n <= 7 { 2 } else { lebk(s.skip(1), (n - 7) as nat) }
}
pub open spec fn ulift(r: int, p: int, x: Option<(nat, Seq<u8>)>) -> Option<(nat, Seq<u8>)> { match x { None => None, Some((m, t)) => Some(((r + p * m) as nat, t)) } }
pub open spec fn slift(r: int, p: int, x: Option<(int, Seq<u8>)>) -> Option<(int, Seq<u8>)> { match x { None => None, Some((m, t)) => Some((r + p * m, t)) } }
''')
def gen(ty, n, signed, name, spec):
    w=64 if ty in('i64','u64') else 32
    K=(n+6)//7
    top=n-7*(K-1)   # payload bits of the last byte
    sh_all=[7*k for k in range(K)]
    last=sh_all[-1]
    sp='sp_sleb' if signed else 'sp_uleb'
    lift='slift' if signed else 'ulift'
    NT='int' if signed else 'nat'
    ors=' || '.join(f'sh == {s}' for s in sh_all)
    o.append(f'''pub open spec fn inv_{name}(s0: Seq<u8>, cur: Seq<u8>, r: {ty}, sh: u8) -> bool {{
    ({ors}) && 0 <= r && r < pw(sh as int)
    && {sp}(s0, {n}) == {lift}(r as int, pw(sh as int), {sp}(cur, ({n} - sh) as nat))
    && lebk(s0, {n}) == lebk(cur, ({n} - sh) as nat)
}}''')
    # bit lemmas
    o.append(f'proof fn or_{name}(r: {ty}, b: u8, sh: u8)\n    requires ({ors}), 0 <= r, r < pw(sh as int),\n    ensures')
    o.append(f'        (b & 0x80 == 0) <==> b < 0x80, (b & 0x7f) == (if b < 0x80 {{ b as int }} else {{ b - 0x80 }}),')
    if signed:
        o.append(f'        b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40),')
    full = (w==n) if not signed else False
    # no overflow while the shifted payload fits
    if not signed:
        o.append(f'        sh < {last} ==> (r | (((b & 0x7f) as {ty}) << sh)) == r + (b & 0x7f) * pw(sh as int) && (r | (((b & 0x7f) as {ty}) << sh)) < pw(sh + 7),')
        o.append(f'        sh == {last} && b < {2**top} ==> (r | (((b & 0x7f) as {ty}) << sh)) == r + b * pw(sh as int),')
        mask=0xff&~((1<<top)-1)&0x7f
        o.append(f'        b < 0x80 ==> ((b & {mask:#x} == 0) <==> b < {2**top}), b < 0x80 ==> ((b & {mask|0x80:#x} == 0) <==> b < {2**top}),')
    elif n==64:
        o.append(f'        sh < {last} ==> (r | (((b & 0x7f) as {ty}) << sh)) == r + (b & 0x7f) * pw(sh as int) && 0 <= (r | (((b & 0x7f) as {ty}) << sh)) < pw(sh + 7),')
        o.append(f'        sh < {last} && 0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as {ty}) << sh)) | ((!0i64) << ((sh + 7) as u8))) == r + (b - 0x80) * pw(sh as int),')
        o.append(f'        sh == {last} && b == 0 ==> (r | (((b & 0x7f) as {ty}) << sh)) == r,')
        o.append(f'        sh == {last} && b == 0x7f ==> (r | (((b & 0x7f) as {ty}) << sh)) == r - pw(sh as int),')
    else:
        o.append(f'        (r | (((b & 0x7f) as {ty}) << sh)) == r + (b & 0x7f) * pw(sh as int) && 0 <= (r | (((b & 0x7f) as {ty}) << sh)) < pw(sh + 7),')
        o.append(f'        0x40 <= b < 0x80 ==> ((r | (((b & 0x7f) as {ty}) << sh)) | ((!0i64) << ((sh + 7) as u8))) == r + (b - 0x80) * pw(sh as int),')
    if signed and n!=32:
        pm = 0x3f if n==64 else 0x70
        o.append(f'        b < 0x40 ==> ((b & {pm:#x} == 0) <==> b < {1<<(top-1)}), 0x40 <= b < 0x80 ==> ((b & {pm:#x} == {pm:#x}) <==> b >= {128-(1<<(top-1))}),')
    o.append('{')
    o.append('    assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector);')
    o.append('    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);')
    o.append('    assert(b >= 0x80 ==> (b & 0x7f) == sub(b, 0x80)) by (bit_vector);')
    if signed:
        o.append('    assert(b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)) by (bit_vector);')
    if not signed:
        o.append(f'    assert(b < 0x80 ==> ((b & {mask:#x} == 0) <==> b < {2**top})) by (bit_vector);')
        o.append(f'    assert(b < 0x80 ==> ((b & {mask|0x80:#x} == 0) <==> b < {2**top})) by (bit_vector);')
    if signed and n!=32:
        o.append(f'    assert(b < 0x40 ==> ((b & {pm:#x} == 0) <==> b < {1<<(top-1)})) by (bit_vector);')
        o.append(f'    assert(0x40 <= b < 0x80 ==> ((b & {pm:#x} == {pm:#x}) <==> b >= {128-(1<<(top-1))})) by (bit_vector);')
    for s in sh_all:
        P=2**s
        o.append(f'    if sh == {s} {{')
        e=f'(r | (((b & 0x7f) as {ty}) << {s}u8))'
        rng=f'0 <= r && r < {P}' if signed else f'r < {P}'
        def BV(x): o.append(f'        assert({x}) by (bit_vector);')
        cast=f'((b & 0x7f) as {ty})'
        if not signed:
            if s<last:
                BV(f'{rng} ==> {e} == add(r, mul({cast}, {P})) && {e} < {P*128} && {cast} < 128')
            else:
                BV(f'{rng} && b < {2**top} ==> {e} == add(r, mul({cast}, {P})) && {cast} < {2**top} && {cast} == b as {ty}')
        elif n==64:
            if s<last:
                nx=P*128
                if s+7<63:
                    BV(f'{rng} ==> {e} == add(r, mul({cast}, {P})) && 0 <= {e} && {e} < {nx} && {cast} < 128 && 0 <= {cast}')
                    BV(f'{rng} && 0x40 <= b < 0x80 ==> ({e} | ((!0i64) << {s+7}u8)) == sub({e}, {nx})')
                else:
                    BV(f'{rng} ==> {e} == add(r, mul({cast}, {P})) && 0 <= {e} && {cast} < 128 && 0 <= {cast}')
                    BV(f'{rng} && 0x40 <= b < 0x80 ==> ({e} | ((!0i64) << {s+7}u8)) == add({e}, -0x8000_0000_0000_0000i64)')
            else:
                BV(f'b == 0 ==> {e} == r')
                BV(f'0 <= r && b == 0x7f ==> {e} == add(r, -0x8000_0000_0000_0000i64)')
        else:
            BV(f'{rng} ==> {e} == add(r, mul({cast}, {P})) && 0 <= {e} && {e} < {P*128} && {cast} < 128 && 0 <= {cast}')
            BV(f'{rng} && 0x40 <= b < 0x80 ==> ({e} | ((!0i64) << {s+7}u8)) == sub({e}, {P*128})')
        o.append('    }')
    o.append('}')
    # round lemma: one lemma per shift, dispatched by round_NAME
    def post(sh, s):
        r2=f'(r | (((b & 0x7f) as {ty}) << {sh}))'
        L=[]
        L.append('            &&& (b & 0x80 == 0) <==> b < 0x80')
        islast = (lambda x: x) 
        lt = f'{sh} < {last}'; eq = f'{sh} == {last}'
        L.append(f'            &&& b >= 0x80 && {lt} ==> inv_{name}(s0, cur.skip(1), {r2}, ({sh} + 7) as u8)')
        L.append(f'            &&& b >= 0x80 && {eq} ==> {sp}(s0, {n}) is None && lebk(s0, {n}) == 2')
        L.append(f'            &&& b < 0x80 ==> lebk(s0, {n}) == 3')
        if not signed:
            L.append(f'''            &&& b < 0x80 ==> ((b & {mask:#x} == 0) <==> b < {2**top})
            &&& b < 0x80 ==> ((b & {mask|0x80:#x} == 0) <==> b < {2**top})
            &&& b < 0x80 && {eq} && b >= {2**top} ==> {sp}(s0, {n}) is None
            &&& b < 0x80 && ({lt} || b < {2**top}) ==> {sp}(s0, {n}) == Some(({r2} as nat, cur.skip(1)))''')
        else:
            L.append('            &&& b < 0x80 ==> ((b & 0x40 == 0) <==> b < 0x40)')
            sg=f'({r2} | ((!0i64) << (({sh} + 7) as u8)))'
            if n==32:
                L.append(f'''            &&& b < 0x40 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= {r2} <= 0x7fff_ffff {{ Some(({r2} as int, cur.skip(1))) }} else {{ None }}))
            &&& 0x40 <= b < 0x80 ==> (sp_sleb(s0, 32) == (if -0x8000_0000 <= {sg} <= 0x7fff_ffff {{ Some(({sg} as int, cur.skip(1))) }} else {{ None }}))''')
            else:
                lo,hi=1<<(top-1),128-(1<<(top-1))
                L.append(f'''            &&& b < 0x40 ==> ((b & {pm:#x} == 0) <==> b < {lo})
            &&& 0x40 <= b < 0x80 ==> ((b & {pm:#x} == {pm:#x}) <==> b >= {hi})
            &&& b < 0x40 && ({lt} || b < {lo}) ==> {sp}(s0, {n}) == Some(({r2} as int, cur.skip(1)))
            &&& {eq} && {lo} <= b < {hi} ==> {sp}(s0, {n}) is None''')
                if n==64:
                    L.append(f'''            &&& 0x40 <= b < 0x80 && {lt} ==> {sp}(s0, {n}) == Some(({sg} as int, cur.skip(1)))
            &&& b == 0x7f && {eq} ==> {sp}(s0, {n}) == Some(({r2} as int, cur.skip(1)))''')
                else:
                    L.append(f'''            &&& 0x40 <= b < 0x80 && ({lt} || b >= {hi}) ==> {sp}(s0, {n}) == Some(({sg} as int, cur.skip(1)))''')
        return '\n'.join(L)
    for s in sh_all:
        o.append(f'''proof fn round_{name}_{s}(s0: Seq<u8>, cur: Seq<u8>, r: {ty})
    requires inv_{name}(s0, cur, r, {s}u8),
    ensures
        cur.len() == 0 ==> {sp}(s0, {n}) is None && lebk(s0, {n}) == 1,
        cur.len() > 0 ==> ({{
            let b = cur[0];
{post(f'{s}u8', s)}
        }}),
{{
    assert(pw({s}) == {2**s}); assert(pw({s+7}) == {2**(s+7)});
    if cur.len() > 0 {{
        let b = cur[0];
        pow2s();
        or_{name}(r, b, {s}u8);
        reveal_with_fuel({sp}, 2); reveal_with_fuel(lebk, 2);''')
        if not signed and s<last:
            o.append(f'''        if b < 0x80 {{
            let r2 = (r | (((b & 0x7f) as {ty}) << {s}u8));
            assert(r2 == r + b * {2**s});
            assert({sp}(cur, {n-s}) == Some((b as nat, cur.skip(1))));
            assert({sp}(s0, {n}) == ulift(r as int, {2**s}, Some((b as nat, cur.skip(1)))));
            assert((r as int + {2**s} * (b as nat)) as nat == r2 as nat);
        }}''')
        if s<last:
            o.append(f'''        if b >= 0x80 {{
            let r2 = (r | (((b & 0x7f) as {ty}) << {s}u8));
            let x = {sp}(cur.skip(1), {n-7-s});
            if x is Some {{
                let m: int = (x->0).0 as int;
                let c: int = b - 0x80;
                assert(r + {2**s} * (c + 128 * m) == (r + c * {2**s}) + {2**(s+7)} * m);
                assert(r2 == r + c * {2**s});
            }}
            assert(inv_{name}(s0, cur.skip(1), r2, {s+7}));
        }}''')
        else:
            if not signed:
                o.append(f'''        if b < {2**top} {{
            let r2 = (r | (((b & 0x7f) as {ty}) << {s}u8));
            assert(r2 == r + b * {2**s});
            assert({sp}(cur, {n-s}) == Some((b as nat, cur.skip(1))));
            assert({sp}(s0, {n}) == ulift(r as int, {2**s}, Some((b as nat, cur.skip(1)))));
            assert((r as int + {2**s} * (b as nat)) as nat == r2 as nat);
        }}''')
                o.append(f'        if b >= {2**top} {{ assert({sp}(cur, {n-s}) is None); }}')
        o.append('    }\n}')
    o.append(f'''/// one round of the decoding loop
pub proof fn round_{name}(s0: Seq<u8>, cur: Seq<u8>, r: {ty}, sh: u8)
    requires inv_{name}(s0, cur, r, sh),
    ensures
        cur.len() == 0 ==> {sp}(s0, {n}) is None && lebk(s0, {n}) == 1,
        cur.len() > 0 ==> ({{
            let b = cur[0];
{post('sh', None)}
        }}),
{{''')
    for s in sh_all: o.append(f'    if sh == {s} {{ round_{name}_{s}(s0, cur, r); }}')
    o.append('}')
    o.append(f'''pub proof fn start_{name}(s0: Seq<u8>)
    ensures inv_{name}(s0, s0, 0, 0),
{{ assert(pw(0) == 1); }}''')
    # the values are in the range of the type, one group of seven bits after the other
    k = n % 7
    while k <= n:
        rng = '%d <= m < %d' % ((-2**(k-1), 2**(k-1)) if signed else (0, 2**k))
        last = k == n
        o.append(f'''{"/// the values are in the range of the type" + chr(10) + "pub " if last else ""}proof fn range_{name}{"" if last else "_%d" % k}(s: Seq<u8>)
    ensures match {sp}(s, {k}) {{ None => true, Some((m, t)) => {rng} && t.len() < s.len() && t == s.skip(s.len() - t.len()) }},
{{
    pow2s();
    reveal_with_fuel({sp}, 1);''')
        if k > 7:
            o.append(f'''    if s.len() > 0 {{
        range_{name}_{k-7}(s.skip(1));
        if let Some((m, t)) = {sp}(s.skip(1), {k-7}) {{ assert(s.skip(1).skip(s.len() - 1 - t.len()) =~= s.skip(s.len() - t.len())); }}
    }}''')
        o.append('}')
        k += 7
gen('u32',32,False,'u32','sp_u32')
gen('u64',64,False,'u64','sp_u64')
gen('i64',32,True,'i32','sp_i32')
gen('i64',64,True,'i64','sp_i64')
gen('i64',33,True,'s33','sp_s33')
d = __file__.rsplit('/', 2)[0]
open(d + '/spec/leb.rs','w').write('\n'.join(o)+'\n'+open(d + '/tools/leb_plus.rs').read())
