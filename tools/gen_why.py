#!/usr/bin/env python3
# Generates spec/why_instr.gen.rs: where in an instruction each kind of error lies (C15). One row
# per kind: the error, the predicate for the part that failed, and the places where it can be:
# a condition (on the opcode, and on the parts before it being there) and the position of the part.
# s: the instruction, u: after its opcode, m, t: the sub-opcode after a prefix byte and what follows it.
def op(*xs): return '(' + ' || '.join(f'hd(s, {x:#04x})' for x in xs) + ')'
def sub(p, *xs):
    c = ' || '.join(f'{x[0]} <= m <= {x[1]}' if isinstance(x, tuple) else f'm == {x}' for x in xs)
    return f'hd(s, {p:#04x}) && sp_u32(u) is Some' + (f' && ({c})' if xs else '')
FB, FC, FD = 0xFB, 0xFC, 0xFD
def aft(p, s): return (f'sp_{p}({s}) is Some', f'(sp_{p}({s})->0).1')
def after(cond, p, s):
    c, q = aft(p, s)
    return (f'{cond} && {c}', q)
rows = [
 ('ReadOpcode', 'io::Error', None, [('s.len() == 0', None)]),
 ('InvalidOpcode', 'u8', None, [('hd(s, x) && !assigned(x)', None)]),
 ('InvalidMarkerByteAfterFC', 'u32', None, [(sub(FC) + ' && m == x && !assigned_fc(x)', None)]),
 ('InvalidMarkerByteAfterFB', 'u32', None, [(sub(FB) + ' && m == x && !assigned_fb(x)', None)]),
 ('Control::LabelIdx', 'DecodeLabelIdxError', 'labelidx', [(op(0x0C, 0x0D, 0xD5, 0xD6), 'u'), after(op(0x0E), 'list__labelidx', 'u'), after(sub(FB, 24, 25), 'castop', 't')]),
 ('Control::DecodeLabelIdxVector', 'DecodeListError<DecodeLabelIdxError>', 'list__labelidx', [(op(0x0E), 'u')]),
 ('Control::FuncIdx', 'DecodeFuncIdxError', 'funcidx', [(op(0x10, 0x12), 'u')]),
 ('Control::TypeIdx', 'DecodeTypeIdxError', 'typeidx', [(op(0x11, 0x13, 0x14, 0x15), 'u')]),
 ('Control::TableIdx', 'DecodeTableIdxError', 'tableidx', [after(op(0x11, 0x13), 'u32', 'u')]),
 ('Control::TagIdx', 'DecodeTagIdxError', 'tagidx', [(op(0x08), 'u')]),
 ('Control::BlockType', 'BlockTypeError', 'blocktype', [(op(0x02, 0x03, 0x04, 0x1F), 'u')]),
 ('Control::DecodeCatchListError', 'DecodeListError<CatchError>', 'list__catch', [after(op(0x1F), 'blocktype', 'u')]),
 ('Control::UnexpectedElse', None, None, []),
 ('Control::ReadCastNullabilityMarker', 'io::Error', None, [(sub(FB, 24, 25) + ' && t.len() == 0', None)]),
 ('Control::InvalidCastNullabilityMarker', 'u8', None, [(sub(FB, 24, 25) + ' && hd(t, x) && x > 3', None)]),
 ('Control::HeapType', 'DecodeHeapTypeError', None, [(sub(FB, 24, 25) + ' && why_cast_ht(x, t)', None)]),
 ('Reference::HeapType', 'DecodeHeapTypeError', 'heaptype', [(op(0xD0), 'u'), (sub(FB, (20, 23)), 't')]),
 ('Reference::FuncIdx', 'DecodeFuncIdxError', 'funcidx', [(op(0xD2), 'u')]),
 ('Reference::ReadSubOpcode', 'DecodeU32Error', 'u32', [(op(FB), 'u')]),
 ('Aggregate::TypeIdx', 'DecodeTypeIdxError', 'typeidx', [(sub(FB, (0, 14), (16, 19)), 't'), after(sub(FB, 17), 'u32', 't')]),
 ('Aggregate::FieldIndex', 'DecodeU32Error', 'u32', [after(sub(FB, (2, 5)), 'u32', 't')]),
 ('Aggregate::DataIdx', 'DecodeDataIdxError', 'dataidx', [after(sub(FB, 9, 18), 'u32', 't')]),
 ('Aggregate::ElemIdx', 'DecodeElemIdxError', 'elemidx', [after(sub(FB, 10, 19), 'u32', 't')]),
 ('Aggregate::ArrayFixedLength', 'DecodeU32Error', 'u32', [after(sub(FB, 8), 'u32', 't')]),
 ('Parametric::DecodeList', 'DecodeListError<DecodeValTypeError>', 'list__valtype', [(op(0x1C), 'u')]),
 ('Variable::LocalIdx', 'DecodeLocalIdxError', 'localidx', [(op(0x20, 0x21, 0x22), 'u')]),
 ('Variable::GlobalIdx', 'DecodeGlobalIdxError', 'globalidx', [(op(0x23, 0x24), 'u')]),
 ('Table::TableIdx', 'DecodeTableIdxError', 'tableidx', [(op(0x25, 0x26), 'u'), (sub(FC, (14, 17)), 't'), after(sub(FC, 12, 14), 'u32', 't')]),
 ('Table::ElemIdx', 'DecodeElemIdxError', 'elemidx', [(sub(FC, 12, 13), 't')]),
 ('Memory::DecodeMemarg', 'MemargError', 'memarg', [('s.len() > 0 && 0x28 <= s[0] <= 0x3E', 'u')]),
 ('Memory::DecodeDataIdx', 'DecodeDataIdxError', 'dataidx', [(sub(FC, 8, 9), 't')]),
 ('Memory::DecodeMemIdx', 'DecodeMemIdxError', 'memidx', [(op(0x3F, 0x40), 'u'), (sub(FC, 10, 11), 't'), after(sub(FC, 8, 10), 'u32', 't')]),
 ('Numeric::ReadOpcode', 'DecodeU32Error', 'u32', [(op(FC), 'u')]),
 ('Numeric::DecodeI32', 'DecodeI32Error', 'i32', [(op(0x41), 'u')]),
 ('Numeric::DecodeI64', 'DecodeI64Error', 'i64', [(op(0x42), 'u')]),
 ('Numeric::DecodeF32', 'DecodeFloat32Error', 'f32', [(op(0x43), 'u')]),
 ('Numeric::DecodeF64', 'DecodeFloat64Error', 'f64', [(op(0x44), 'u')]),
 ('Vector::ReadOpcode', 'DecodeU32Error', 'u32', [(op(FD), 'u')]),
 ('Vector::Memarg', 'MemargError', 'memarg', [(sub(FD, (0, 11), (84, 93)), 't')]),
 ('Vector::LaneIdx', 'LaneIdxError', 'lane', [(sub(FD, (21, 34)), 't'), after(sub(FD, (84, 91)), 'memarg', 't')]),
 ('Vector::ReadImmediateBytes', 'io::Error', None, [(sub(FD, 12, 13) + ' && t.len() < 16', None)]),
 ('Vector::InvalidOpcode', 'u32', None, [(sub(FD) + ' && m == x && !assigned_fd(x)', None)]),
]
LETS = '''let u = s.skip(1);
    let m = (sp_u32(u)->0).0;
    let t = (sp_u32(u)->0).1;'''
def pat(v, x):
    if '::' not in v: return f'ParseError::{v}' + (f'({x})' if x else '')
    c, w = v.split('::')
    return f'ParseError::{c}({c}Error::{w}' + (f'({x})' if x else '') + ')'
def cond(why, places):
    cs = [c if p is None else f'{c} && why_{why}(x, {p})' for c, p in places]
    return ' || '.join(f'({c})' for c in cs) if len(cs) > 1 else cs[0] if cs else 'false'
o = ['// Generated by tools/gen_why.py. Where in an instruction each kind of error lies (C15).',
 '/// e is about the instruction at the start of s, not about one nested in it', '#[verifier::opaque]',
 'pub open spec fn why_instr1(e: ParseError, s: Seq<u8>) -> bool {', '    ' + LETS, '    match e {']
for v, ty, why, places in rows:
    o.append(f"        {pat(v, 'x' if ty else None)} => {cond(why, places)},")
o += ['        _ => true,', '    }', '}', '/// the same, for Instruction::parse, where the definition would be too much at once', 'pub proof fn b_why_instr1(s: Seq<u8>)', '    ensures ({', '    ' + LETS]
for v, ty, why, places in rows:
    if ty and places: o.append(f"        &&& forall|x: {ty.replace('io::Error', 'crate::xstd::io::Error')}| ({cond(why, places)}) ==> #[trigger] why_instr({pat(v, 'x')}, s)")
o += ['    }),', '{ reveal(why_instr); reveal(why_instr1); }']
open(__file__.rsplit('/', 2)[0] + '/spec/why_instr.gen.rs', 'w').write('\n'.join(o) + '\n')
