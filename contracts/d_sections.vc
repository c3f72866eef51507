## section bodies (5.5)
=== fn decode_type_section
parser: sp_list__rectype
why: why_s_type
=== fn parse_import
parser: sp_import
=== fn decode_import_section
parser: sp_list__import
why: why_s_import
=== fn decode_function_section
parser: sp_list__typeidx
why: why_s_function
=== fn decode_table
parser: sp_table
=== fn decode_table_section
parser: sp_list__table
why: why_s_table
=== fn decode_memory_section
parser: sp_list__memtype
why: why_s_memory
=== fn decode_tag_section
parser: sp_list__tagtype
why: why_s_tag
=== fn parse_global
parser: sp_global
=== fn decode_global_section
parser: sp_list__global
why: why_s_global
=== fn ExternIdx::from
--- ensures
match res { Ok(v) => externidx($0, $1) == Some(v), Err(_) => externidx($0, $1) is None },
match res { Ok(_) => true, Err(e) => e.0 == $0 }, //@C15
=== fn parse_export
parser: sp_export
=== fn decode_export_section
parser: sp_list__export
why: why_s_export
=== fn decode_start_section
parser: sp_funcidx
why: why_s_start
=== fn decode_datacount_section
parser: sp_u32
why: why_s_datacount
=== fn decode_section_custom
--- ensures
match res {
    Ok(v) => sp_custom((*old($0)).rem()) == Some((v_CustomSection(v), (*final($0)).rem())) && (*old($0)).eof() && $R::adv(&*old($0), &*final($0)),
    Err(_) => sp_custom((*old($0)).rem()) is None || !(*old($0)).eof(),
},
match res { Ok(_) => true, Err(e) => why_custom(e, (*old($0)).rem()) && (e is Io ==> !(*old($0)).eof()) }, //@C15
res matches Ok(v) ==> v.name.bytes().len() + v.contents@.len() < (*old($0)).rem().len(), //@C16
--- start
proof { reveal(sp_custom); reveal(sp_name); }
=== fn parse_elemkind
parser: sp_elemkind
=== fn parse_elem
parser: sp_elem
--- start
proof { reveal(sp_reffuncs); reveal(sp_elemkind); }
=== fn decode_element_section
parser: sp_list__elem
why: why_s_elem
=== fn parse_data
parser: sp_data
=== fn decode_data_section
parser: sp_list__data
why: why_s_data
=== fn parse_code_local
--- requires
*old($1) <= $2, $2 <= 0xffff_ffff,
--- ensures
match res {
    Ok(v) => sp_local((*old($0)).rem()) == Some((v, (*final($0)).rem())) && $R::adv(&*old($0), &*final($0))
        && *final($1) == *old($1) + v.count && *final($1) <= $2,
    Err(_) => match sp_local((*old($0)).rem()) { None => true, Some((l, t)) => *old($1) + l.count > $2 },
},
res is Ok ==> (*final($0)).rem().len() < (*old($0)).rem().len(),
match res { Ok(_) => true, Err(e) => why_local(e, (*old($0)).rem(), *old($1) as int, $2 as int) }, //@C15
--- start
proof { reveal(sp_local); }
proof { reveal(why_local); }
=== fn decode_list<@parse_code#0>
parser: sp_locals
why: why_locals
--- requires
*old($1) == 0, $2 == 0xffff_ffff,
--- ensures
res matches Ok(v) ==> v@.len() + (*final($0)).rem().len() < (*old($0)).rem().len(), //@C16
--- start
let ghost s0 = (*reader).rem();
let ghost rd0 = *reader;
--- loop 0
invariant
    rd0.rem() == s0, R::adv(&rd0, &*reader),
    it_0.iter.start <= it_0.iter.end, //@for
    (*reader).rem().len() < s0.len(),
    $2 == 0xffff_ffff, *$1 <= $2,
    sp_locals(s0) == sp_locals_n(items@, *$1 as nat, (*reader).rem(), (len - items@.len()) as nat), $i == items@.len(), items@.len() <= len,
    items@.len() + (*reader).rem().len() < s0.len(), //@C16
    forall|e: DecodeListError<DecodeCodeLocalsError>| e is ParseElement ==> #[trigger] why_locals(e, s0) == why_locals_n(e, $i as nat, *$1 as nat, (*reader).rem(), (len - items@.len()) as nat), //@C15
--- loop_measure 0
len - items@.len()
=== fn decode_list<@parse_elem#0>
parser: sp_list__expr
why: why_list__expr
--- ensures
res matches Ok(v) ==> v@.len() + (*final($0)).rem().len() < (*old($0)).rem().len(), //@C16
--- start
let ghost s0 = (*reader).rem();
let ghost rd0 = *reader;
--- loop 0
invariant
    rd0.rem() == s0, R::adv(&rd0, &*reader),
    it_0.iter.start <= it_0.iter.end, //@for
    (*reader).rem().len() < s0.len(),
    sp_list__expr(s0) == sp_items__expr(vs_Vec_Instruction(items@), (*reader).rem(), (len - items@.len()) as nat), $i == items@.len(), items@.len() <= len,
    items@.len() + (*reader).rem().len() < s0.len(), //@C16
    forall|e: DecodeListError<ParseExpressionError>| e is ParseElement ==> #[trigger] why_list__expr(e, s0) == why_items__expr(e, $i as nat, (*reader).rem(), (len - items@.len()) as nat), //@C15
--- loop_measure 0
len - items@.len()
=== fn funcidx_into_reffunc
--- ensures
vs_Vec_Instruction(res@) == reffuncs($0@),
--- loop 0
invariant
    $it.seq() == $0@,
    vs_Vec_Instruction(vv(out__)) == reffuncs($0@.take($i)), $i <= $0@.len(),
=== fn parse_code
parser: sp_code
=== fn decode_code_section
parser: sp_list__code
why: why_s_code
