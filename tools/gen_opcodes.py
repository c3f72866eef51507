#!/usr/bin/env python3
"""opcodes.tbl -> spec/opcodes.gen.rs (Verus) and, with an argument, a reference-decoder table."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for l in open(os.path.join(here, '../spec/opcodes.tbl')):
    l = l.split('#')[0].strip()
    if not l: continue
    enc, _, perm = l.partition('=>')
    w = enc.split()
    args = w[2:]
    perm = [int(x) for x in perm.split()] or list(range(1, len(args) + 1))
    pf, _, n = w[0].partition('.')
    rows.append((pf if n else '', int(n) if n else int(pf, 16), w[1], args, perm))
IDX = {'label': 'LabelIdx', 'func': 'FuncIdx', 'type': 'TypeIdx', 'table': 'TableIdx', 'tag': 'TagIdx', 'elem': 'ElemIdx', 'data': 'DataIdx', 'local': 'LocalIdx', 'global': 'GlobalIdx', 'mem': 'MemIdx'}

def ranges(ns):
    r = []
    for n in sorted(ns):
        if r and r[-1][1] == n - 1: r[-1][1] = n
        else: r.append([n, n])
    return r

def verus():
    out = []
    def body(name, args, perm):
        ctor = 'SInstruction::' + name
        if args: ctor += '(' + ', '.join('a%d' % p for p in perm) + ')'
        e = f'Some(({ctor}, t{len(args)}))'
        for i in range(len(args), 0, -1):
            a = args[i - 1]
            if a in IDX:
                e = f'match sp_u32(t{i-1}) {{ None => None, Some((n{i}, t{i})) => {{ let a{i} = {IDX[a]}(n{i}); {e} }} }}'
            else:
                e = f'match sp_{a}(t{i-1}) {{ None => None, Some((a{i}, t{i})) => {e} }}'
        return e
    group = []
    for pf, fn, ty in (('', 'sp_plain', 'u8'), ('FB', 'sp_fb', 'u32'), ('FC', 'sp_fc', 'u32'), ('FD', 'sp_fd', 'u32')):
        out.append(f'#[verifier::opaque]\npub open spec fn {fn}_tbl(op: {ty}, t0: Seq<u8>) -> Option<(SInstruction, Seq<u8>)> {{\n    match op {{')
        lem, known = [], []
        for p, n, name, args, perm in rows:
            if p == pf:
                k = ('0x%02X' % n) if pf == '' else str(n)
                e = body(name, args, perm)
                out.append(f'        {k} => {e},')
                known.append(n)
                lem.append(f'pub broadcast proof fn {fn}_{k}(t0: Seq<u8>) ensures #[trigger] {fn}_tbl({k}, t0) == ({e}) {{ reveal({fn}_tbl); }}')
                group.append(f'{fn}_{k}')
        out.append('        _ => None,\n    }\n}')
        out.append(f'pub open spec fn {fn}_known(op: {ty}) -> bool {{ ' + ' || '.join(f'{a} <= op <= {b}' for a, b in ranges(known)) + ' }')
        out.append(f'pub broadcast proof fn {fn}_unknown(op: {ty}, t0: Seq<u8>) ensures {fn}_known(op) || (#[trigger] {fn}_tbl(op, t0)) is None {{ reveal({fn}_tbl); }}')
        for i in range(0, len(lem), 60):
            out.append(f'pub mod l_{fn}_{i} {{ use super::*;\n' + '\n'.join(lem[i:i+60]) + f'\n}}\npub use l_{fn}_{i}::*;')
        # one lemma per list of immediates: an opcode of that kind needs its first immediate
        sigs = {}
        for p, n, name, args, perm in rows:
            if p == pf and args: sigs.setdefault(args[0], []).append(n)
        for a, ns in sigs.items():
            prs = 'sp_u32' if a in IDX else 'sp_' + a
            out.append(f'pub broadcast proof fn {fn}_needs_{a}(op: {ty}, t0: Seq<u8>) ensures ((' + ' || '.join(f'{x} <= op <= {y}' for x, y in ranges(ns)) + f') && {prs}(t0) is None) ==> (#[trigger] {fn}_tbl(op, t0)) is None {{ reveal({fn}_tbl); }}')
            group.append(f'{fn}_needs_{a}')
        group.append(f'{fn}_unknown')
    out.append('pub broadcast group g_opcodes { ' + ', '.join(group) + ' }')
    return '\n'.join(out) + '\n'

def blame(pf, op, a):
    """the variants of the crate's error that say which immediate it is"""
    if a in IDX: v = {'data': 'DecodeDataIdx', 'mem': 'DecodeMemIdx'}.get(a, IDX[a]) if pf in ('', 'FC') else IDX[a]
    else: v = {'memarg': 'Memarg' if pf == 'FD' else 'DecodeMemarg', 'lane': 'LaneIdx', 'lane16': 'ReadImmediateBytes', 'b16': 'ReadImmediateBytes', 'heaptype': 'HeapType',
               'u32': 'ArrayFixedLength' if op == 8 else 'FieldIndex', 'i32': 'DecodeI32', 'i64': 'DecodeI64', 'f32': 'DecodeF32', 'f64': 'DecodeF64'}[a]
    if pf == '':
        c = {'local': 'Variable', 'global': 'Variable', 'memarg': 'Memory', 'mem': 'Memory', 'heaptype': 'Reference'}.get(a, 'Control' if a in IDX else 'Numeric')
        c = {0x25: 'Table', 0x26: 'Table', 0xD2: 'Reference'}.get(op, c)
    else:
        c = {'FB': 'Aggregate', 'FC': 'Memory' if a in ('data', 'mem') else 'Table', 'FD': 'Vector'}[pf]
    return f'{c}({v}('

def reference():
    """the same table for the reference decoder and the generators of tools/diff"""
    out = ['// generated by tools/gen_opcodes.py from spec/opcodes.tbl', 'use super::*;']
    for pf, fn, ty in (('', 'plain', 'u8'), ('FB', 'fb', 'u32'), ('FC', 'fc', 'u32'), ('FD', 'fd', 'u32')):
        out.append(f"pub fn {fn}(p: &mut P, op: {ty}) -> R<Instruction> {{\n    Ok(match op {{")
        for q, n, name, args, perm in rows:
            if q != pf: continue
            lets = ''.join(f'let a{i} = ' + (f'{IDX[a]}(p.idx("{IDX[a]}").w("{blame(pf, n, a)}")?)' if a in IDX else f'p.{a}().w("{blame(pf, n, a)}")?') + '; ' for i, a in enumerate(args, 1))
            ctor = 'Instruction::' + name + ('(' + ', '.join(f'a{i}' for i in perm) + ')' if args else '')
            out.append(f'        {n} => {{ {lets}{ctor} }}')
        out.append("        _ => return Err(E::unknown()),\n    })\n}")
    out.append('pub const OPS: &[(u8, u32, &[&str])] = &[')
    for q, n, name, args, perm in rows:
        out.append(f"    (0x{q or '00'}, {n}, &[" + ', '.join('"%s"' % ('idx' if a in IDX else a) for a in args) + ']),')
    out.append('];')
    return '\n'.join(out) + '\n'

if __name__ == '__main__':
    open(os.path.join(here, '../spec/opcodes.gen.rs'), 'w').write(verus())
    open(os.path.join(here, 'diff/src/optable.rs'), 'w').write(reference())
