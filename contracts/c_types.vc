## types (5.3)
=== fn AbsHeapType::from_marker
--- ensures
match res { Ok(v) => m_heap($0) == Some(v), Err(_) => m_heap($0) is None },
match res { Ok(_) => true, Err(e) => e.0 == $0 }, //@C15
=== fn Mut::from_marker
--- ensures
match res { Ok(v) => m_mut($0) == Some(v), Err(_) => m_mut($0) is None },
match res { Ok(_) => true, Err(e) => e.0 == $0 }, //@C15
=== fn PackType::from_marker
--- ensures
match res { Ok(v) => m_pack($0) == Some(v), Err(_) => m_pack($0) is None },
match res { Ok(_) => true, Err(e) => e.0 == $0 }, //@C15
=== fn SectionKind::from_marker
--- ensures
match res { Ok(v) => m_section($0) == Some(v), Err(_) => m_section($0) is None },
match res { Ok(_) => true, Err(e) => e.0 == $0 }, //@C15

=== fn AbsHeapType::decode
parser: sp_absheaptype
--- ensures
res is Err && (*old($0)).rem().len() > 0 ==> (*final($0)).rem() == (*old($0)).rem().skip(1) && <$R as crate::xstd::io::Read>::adv(&*old($0), &*final($0)),
=== fn HeapType::decode
parser: sp_heaptype
=== fn RefType::decode
parser: sp_reftype
--- ensures
res is Err && (*old($0)).rem().len() > 0 && (*old($0)).rem()[0] != 0x63 && (*old($0)).rem()[0] != 0x64 ==> (*final($0)).rem() == (*old($0)).rem().skip(1) && <$R as crate::xstd::io::Read>::adv(&*old($0), &*final($0)),
--- start
proof { reveal(sp_absheaptype); }
proof { reveal(why_absheaptype); }
=== fn ValType::decode
parser: sp_valtype
--- ensures
res is Err && (*old($0)).rem().len() > 0 && (*old($0)).rem()[0] != 0x63 && (*old($0)).rem()[0] != 0x64 ==> (*final($0)).rem() == (*old($0)).rem().skip(1) && <$R as crate::xstd::io::Read>::adv(&*old($0), &*final($0)),
=== fn decode_result_type
parser: sp_list__valtype
why: why_resulttype
=== fn decode_storagetype
parser: sp_storagetype
=== fn decode_fieldtype
parser: sp_fieldtype
=== fn CompType::decode
parser: sp_comptype
=== fn SubType::decode
parser: sp_subtype
=== fn RecType::decode
parser: sp_rectype
=== fn parse_limits
parser: sp_limits
=== fn parse_memtype
parser: sp_memtype
=== fn TableType::decode
parser: sp_tabletype
=== fn GlobalType::decode
parser: sp_globaltype
=== fn TagType::decode
parser: sp_tagtype
=== fn ExternType::decode
parser: sp_externtype
