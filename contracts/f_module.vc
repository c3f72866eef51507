## modules (5.5)
=== fn Module::default
--- ensures
v_Module(res) == empty_module(), res.funcs@.len() == 0,
=== fn parse_preamble
why: why_preamble
--- ensures
match res {
    Ok(_) => (*old($0)).rem().len() >= 8 && (*old($0)).rem().take(8) == preamble() && (*final($0)).rem() == (*old($0)).rem().skip(8) && $R::adv(&*old($0), &*final($0)),
    Err(_) => (*old($0)).rem().len() < 8 || (*old($0)).rem().take(8) != preamble(),
},
=== fn decode_section_header
why: why_header
--- ensures
match res {
    Ok(Some(h)) => sp_header((*old($0)).rem()) == Some((h, (*final($0)).rem())) && $R::adv(&*old($0), &*final($0)) && (*final($0)).rem().len() < (*old($0)).rem().len(),
    Ok(None) => (*old($0)).rem().len() == 0 && (*old($0)).eof(),
    Err(_) => sp_header((*old($0)).rem()) is None && ((*old($0)).rem().len() > 0 || !(*old($0)).eof()),
},
--- start
proof { reveal(sp_header); }
=== fn Module::validate_section_kind_expected
--- ensures
res is Ok <==> ordered(v_Module(*self), $1.kind),
match res { Ok(_) => true, Err(e) => why_order(e, v_Module(*self), $1.kind) && crate::xstd::io::Caused::io(e) is None }, //@C15
=== fn decode_module
attr: verifier::allow_complex_invariants
attr: verifier::rlimit(60)
--- ensures
res matches Ok(m) ==> sp_module($0.rem()) == Some(v_Module(m)),
res is Ok ==> $0.eof(), //@C14
res is Err ==> sp_module($0.rem()) is None || !$0.eof(),
match res { Ok(_) => true, Err(e) => why_module(e, $0.rem()) }, //@C15
match res { Ok(_) => true, Err(e) => why_io_lim(crate::xstd::io::Caused::io(e), crate::xstd::io::end($0)) }, //@C15
--- start
proof { reveal(sp_module); }
proof { reveal(why_module); }
let ghost s0 = $0.rem();
let ghost rd0 = $0;
--- loop 0
invariant
    rd0.rem() == s0, $R::adv(&rd0, &$m0), rd0.eof() == $m0.eof(), rd0.fail() == $m0.fail(), s0.len() >= 8, s0.take(8) == preamble(),
    sp_sections(SSt { m: empty_module(), code: false, didx: false }, s0.skip(8)) == sp_sections(SSt { m: v_Module(module), code: encountered_code_section, didx: encountered_data_idx_in_code_section }, $m0.rem()),
    code_later(v_Module(module), encountered_code_section),
    forall|e: DecodeModuleError| !(e is ParsePreamble) && why_sections(e, SSt { m: v_Module(module), code: encountered_code_section, didx: encountered_data_idx_in_code_section }, $m0.rem()) ==> #[trigger] why_module(e, s0), //@C15
ensures
    $m0.rem().len() == 0, $m0.eof(),
decreases
    $m0.rem().len(),
--- loop_start 0
let ghost m0 = v_Module(module);
let ghost st0 = SSt { m: v_Module(module), code: encountered_code_section, didx: encountered_data_idx_in_code_section };
let ghost r0 = $m0.rem();
--- loop_end 0
proof {
    let h = (sp_header(r0)->0).0;
    let t = (sp_header(r0)->0).1;
    assert($m0.rem() =~= t.skip(h.size as int));
    let xs = (sp_list__typeidx(t.take(h.size as int))->0).0;
    assert(xs.take(xs.len() as int) =~= xs);
    let st2 = sp_section(st0, h.kind, t.take(h.size as int));
    assert(t.len() >= h.size);
    assert(ordered(st0.m, h.kind));
    assert(st2 is Some);
    assert((st2->0).1.len() == 0);
    assert(note((st2->0).0, h).m =~= v_Module(module));
    assert(note((st2->0).0, h).code == encountered_code_section);
    assert(note((st2->0).0, h).didx == encountered_data_idx_in_code_section);
    assert(sp_next(st0, r0) == Some((note((st2->0).0, h), t.skip(h.size as int)))); //why_module
    assert(sp_sections(st0, r0) == sp_sections(SSt { m: v_Module(module), code: encountered_code_section, didx: encountered_data_idx_in_code_section }, $m0.rem()));
}
--- loop_cases 0
(sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Custom) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Type) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Import) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Table)
(sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Function)
(sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Memory) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Global) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Export) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Start) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Element)
(sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Code)
(sp_header(r0) is Some && (sp_header(r0)->0).0.kind is DataCount) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Data) || (sp_header(r0) is Some && (sp_header(r0)->0).0.kind is Tag)
--- loop 1
invariant
    v_Module(module) == (SModule { funcs: m0.funcs + decls($it.seq().take($i)), ..m0 }), $i <= $it.seq().len(),
    $it.seq() == (sp_list__typeidx((sp_header(r0)->0).1.take((sp_header(r0)->0).0.size as int))->0).0 || (sp_header(r0)->0).1.len() < (sp_header(r0)->0).0.size,
--- loop_start 1
let ghost k1 = $i;
let ghost ts = $it.seq();
--- loop_end 1
proof { assert(m0.funcs + decls(ts.take(k1 + 1)) =~= (m0.funcs + decls(ts.take(k1))).push(SFunc { type_: ts[k1], locals: seq![], body: seq![] })); }
--- loop 2
invariant
    i__2 == $i, $i <= $it.seq().len(), $it.seq() == codes@, codes@.len() == m0.funcs.len(),
    v_Module(module) == (SModule { funcs: vs_Func(module.funcs@), ..m0 }),
    module.funcs@.len() == m0.funcs.len(),
    forall|j: int| 0 <= j < m0.funcs.len() ==> #[trigger] vs_Func(module.funcs@)[j] == (if j < $i { bodies(m0.funcs, vs_Code(codes@))[j] } else { m0.funcs[j] }),
    encountered_data_idx_in_code_section == (st0.didx || any_didx(vs_Code(codes@.take($i)))),
--- loop_start 2
let ghost mf = vs_Func(module.funcs@);
let ghost k2 = $i;
let ghost mut fs3 = module.funcs@;
proof {
    assert(mf[k2] == m0.funcs[k2]);
    assert(expand(code.locals@.take(0)) =~= seq![]);
    assert(mf.update(k2, SFunc { locals: seq![], ..mf[k2] }) =~= mf);
}
--- loop_end 2
proof {
    any_didx_step(codes@, k2);
    assert(code.locals@.take(code.locals@.len() as int) =~= code.locals@);
    assert(vs_Code(codes@)[k2] == v_Code(codes@[k2]));
    assert(module.funcs@ =~= fs3.update(k2, module.funcs@[k2]));
    assert(vs_Func(module.funcs@) == vs_Func(fs3).update(k2, v_Func(module.funcs@[k2])));
    assert(module.funcs@[k2].locals@ == fs3[k2].locals@);
    assert(vs_Func(fs3)[k2] == v_Func(fs3[k2]));
    assert(v_Func(module.funcs@[k2]) == bodies(m0.funcs, vs_Code(codes@))[k2]);
    assert(vs_Func(module.funcs@) =~= mf.update(k2, bodies(m0.funcs, vs_Code(codes@))[k2]));
}
--- loop_after 2
proof {
    assert(codes@.take(codes@.len() as int) =~= codes@);
    assert(vs_Func(module.funcs@) =~= bodies(m0.funcs, vs_Code(codes@)));
}
--- loop_before 3
let ghost b3 = vs_Func(module.funcs@);
proof {
    assert(module.funcs@ =~= fs3.update(k2, module.funcs@[k2]));
    assert(vs_Func(module.funcs@) == vs_Func(fs3).update(k2, v_Func(module.funcs@[k2])));
    assert(vs_Func(fs3)[k2] == v_Func(fs3[k2]));
    assert(b3 =~= mf.update(k2, b3[k2]));
    assert(b3[k2].locals =~= seq![]);
    assert(b3.update(k2, SFunc { locals: expand(code.locals@.take(0)), ..b3[k2] }) =~= b3);
}
--- loop 3
invariant
    $i <= $it.seq().len(), $it.seq() == code.locals@, i < module.funcs@.len(), i == k2,
    v_Module(module) == (SModule { funcs: b3.update(k2, SFunc { locals: expand(code.locals@.take($i)), ..b3[k2] }), ..m0 }),
--- loop_start 3
let ghost k3 = $i;
--- loop_end 3
proof { expand_step(code.locals@, k3); }
--- loop_after 3
proof { fs3 = module.funcs@; }
--- loop 4
invariant
    $it.iter.start <= $it.iter.end, //@for
    $i <= local.count, i < module.funcs@.len(), i == k2,
    v_Module(module) == (SModule { funcs: b3.update(k2, SFunc { locals: expand(code.locals@.take(k3)) + rep(local.t, $i as nat), ..b3[k2] }), ..m0 }),
--- loop_start 4
let ghost k4 = $i;
let ghost fs4 = module.funcs@;
--- loop_end 4
proof {
    assert(module.funcs@ =~= fs4.update(k2, module.funcs@[k2]));
    assert(vs_Func(module.funcs@) == vs_Func(fs4).update(k2, v_Func(module.funcs@[k2])));
    assert(module.funcs@[k2].locals@ == fs4[k2].locals@.push(local.t));
    assert(vs_Func(fs4)[k2] == v_Func(fs4[k2]));
    assert((expand(code.locals@.take(k3)) + rep(local.t, k4 as nat)).push(local.t) =~= expand(code.locals@.take(k3)) + rep(local.t, (k4 + 1) as nat));
    assert(vs_Func(module.funcs@) =~= b3.update(k2, SFunc { locals: expand(code.locals@.take(k3)) + rep(local.t, (k4 + 1) as nat), ..b3[k2] }));
}
