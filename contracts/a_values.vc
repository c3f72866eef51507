## byte sources and leaf values
=== fn read_byte
parser: sp_byte
--- ensures
res is Err ==> ((*old($0)).eof() ==> res->Err_0.k is UnexpectedEof),

=== fn decode_f32
parser: sp_f32

=== fn decode_f64
parser: sp_f64

=== fn decode_byte_vector
parser: sp_bytes
--- ensures
res matches Ok(v) ==> v@.len() + (*final($0)).rem().len() < (*old($0)).rem().len(), //@C16

=== fn decode_name
parser: sp_name
--- ensures
res matches Ok(v) ==> v.bytes().len() + (*final($0)).rem().len() < (*old($0)).rem().len(), //@C16

=== fn TypeIdx::decode
parser: sp_typeidx
=== fn FuncIdx::decode
parser: sp_funcidx
=== fn TableIdx::decode
parser: sp_tableidx
=== fn MemIdx::decode
parser: sp_memidx
=== fn GlobalIdx::decode
parser: sp_globalidx
=== fn ElemIdx::decode
parser: sp_elemidx
=== fn DataIdx::decode
parser: sp_dataidx
=== fn LocalIdx::decode
parser: sp_localidx
=== fn LabelIdx::decode
parser: sp_labelidx
=== fn TagIdx::decode
parser: sp_tagidx

=== fn decode_list<*>
parser: sp_list__$N
--- ensures
res matches Ok(v) ==> v@.len() + (*final($0)).rem().len() < (*old($0)).rem().len(), //@C16
--- start
let ghost s0 = (*reader).rem();
let ghost rd0 = *reader;
--- loop 0
invariant
    rd0.rem() == s0, R::adv(&rd0, &*reader),
    it_0.iter.start <= it_0.iter.end, //@for
    (*reader).rem().len() < s0.len(),
    sp_list__$N(s0) == sp_items__$N($VS(items), (*reader).rem(), (len - items@.len()) as nat), $i == items@.len(), items@.len() <= len,
    items@.len() + (*reader).rem().len() < s0.len(), //@C16
    forall|e: DecodeListError<$E>| e is ParseElement ==> #[trigger] why_list__$N(e, s0) == why_items__$N(e, $i as nat, (*reader).rem(), (len - items@.len()) as nat), //@C15
--- loop_measure 0
len - items@.len()
