#!/usr/bin/env python3
"""One-off generator of src/ops_gen.rs (committed).  It lists, from the macro
invocations in the pinned packed_simd sources, every vector type and every
conversion the library offers; it is NOT run by the checks."""
import re, glob, sys
R='/repo/src/'
types={}   # name -> (kind, elem, lanes, mask)
froms={}
for f in sorted(glob.glob(R+'v*.rs')):
    s=re.sub(r'/\*.*?\*/','',open(f).read(),flags=re.S); s=re.sub(r'(?m)^\s*//(?!/).*$','',s)
    for m in re.finditer(r'impl_([iufm])!\(\s*\[(\w+); (\d+)\]: (\w+)(?:, (\w+))?\s*\|([^;]*?)\);',s,re.S):
        k,e,n,name,mask,rest=m.groups()
        if name in ('i64x1','u64x1','f64x1','m64x1'): continue
        types[name]=(k,e,int(n),mask)
        fm=re.search(r'From:([^|]*)\|',rest,re.S)
        fl=[x.strip() for x in fm.group(1).split(',') if x.strip()] if fm else []
        froms[name]=fl
casts={}
for f in sorted(glob.glob(R+'api/cast/v*.rs')):
    s=re.sub(r'/\*.*?\*/','',open(f).read(),flags=re.S); s=re.sub(r'(?m)^\s*//(?!/).*$','',s)
    for m in re.finditer(r'impl_from_cast(?:_mask)?!\(\s*(\w+)\[\w+\]:([^;]*?)\);',s,re.S):
        casts.setdefault(m.group(1),[]).extend(x.strip() for x in m.group(2).split(',') if x.strip())
bits={}
for f in sorted(glob.glob(R+'api/into_bits/v*.rs')):
    s=re.sub(r'/\*.*?\*/','',open(f).read(),flags=re.S); s=re.sub(r'(?m)^\s*//(?!/).*$','',s)
    for m in re.finditer(r'impl_from_bits!\(\s*(\w+)\[\w+\]:([^;]*?)\);',s,re.S):
        bits.setdefault(m.group(1),[]).extend(x.strip() for x in m.group(2).split(',') if x.strip())
for d in (froms,casts,bits):
    for k in d: d[k]=[x for x in d[k] if x in types]
def uidx(name):
    k,e,n,_=types[name]
    sz=re.sub(r'^[iufm]','',e)
    return 'u%sx%d'%(sz,n)
out=['// generated by gen_ops.py from the pinned sources; committed, not regenerated by the checks','']
order=sorted(types,key=lambda t:(types[t][2],t))
out.append('pub fn all_ops(v: &mut Vec<Op>) {')
body=[]
parts=[]
for t in order:
    k,e,n,mask=types[t]
    b=[]
    if k in 'iu':
        b.append(f'int_ops!(v, {t}, {e}, {n}, {mask}, {uidx(t)});')
        if k=='i': b.append(f'neg_ops!(v, {t});')
    elif k=='f':
        b.append(f'float_ops!(v, {t}, {e}, {n}, {mask}, {uidx(t)});')
    else:
        same=[x for x in order if types[x][2]==n]
        # select needs a vector of the same "lane count class"
        b.append(f'mask_ops!(v, {t}, {e}, {n}, {uidx(t)}, [{", ".join(same)}]);')
    if froms.get(t): b.append(f'from_ops!(v, {t}, [{", ".join(froms[t])}]);')
    if casts.get(t): b.append(f'cast_ops!(v, {t}, [{", ".join(dict.fromkeys(casts[t]))}]);')
    if bits.get(t): b.append(f'bits_ops!(v, {t}, [{", ".join(dict.fromkeys(bits[t]))}]);')
    if n>=2 and t!='m16x32': b.append(f'shuf{n}!(v, {t});')
    parts.append((t,b))
fns=[]
for t,b in parts:
    fns.append(f'#[inline(never)] fn reg_{t}(v: &mut Vec<Op>) {{\n    '+'\n    '.join(b)+'\n}')
    out.append(f'    reg_{t}(v);')
for n in (2,4,8):
    for c in ('c','m'):
        t=f'{c}ptrx{n}'
        fns.append(f'#[inline(never)] fn reg_{t}(v: &mut Vec<Op>) {{\n    ptr_ops!(v, {t}, {"*const u32" if c=="c" else "*mut u32"}, {n}, usizex{n}, isizex{n}, msizex{n});\n}}')
        out.append(f'    reg_{t}(v);')
out.append('}')
out+=fns
for t in order:
    k,e,n,mask=types[t]
    slot={'f32':8,'f64':9}.get(e, 7 if k=='m' else 10)
    out.append(f'impl Src for {t} {{ const SLOT: usize = {slot}; }}')
for n in (2,4,8,16,32,64):
    rev=', '.join(str(n-1-i) for i in range(n))
    inter=', '.join(str((i//2)+(n if i%2 else 0)) for i in range(n))
    mix=', '.join(str((i*7+3)%(2*n)) for i in range(n))
    out.append(f'''#[allow(unused_macros)]
macro_rules! shuf{n} {{ ($v:ident, $t:ident) => {{ $v.push(op!($t, "shuffle", |i, o| {{
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [{rev}]); o.put(r);
    let r: $t = shuffle!(a, b, [{inter}]); o.put(r);
    let r: $t = shuffle!(a, b, [{mix}]); o.put(r);
}})); }} }}''')
# ---- slice table (C04, C05, C08)
out.append('pub fn all_slices(v: &mut Vec<SliceTy>) {')
for t in order:
    k,e,n,mask=types[t]
    if k in 'iuf': out.append(f'    slice_ty!(v, {t}, {e}, {n});')
for n in (2,4,8):
    out.append(f'    slice_ty!(v, cptrx{n}<u16>, *const u16, {n});')
    out.append(f'    slice_ty!(v, mptrx{n}<u64>, *mut u64, {n});')
out.append('}')
# ---- indexables (C08): extract/replace of every type
out.append('pub fn all_index(v: &mut Vec<IndexTy>) {')
for t in order:
    k,e,n,mask=types[t]
    out.append(f'    index_ty!(v, {t}, {"bool" if k=="m" else e}, {n});')
for n in (2,4,8):
    out.append(f'    index_ty!(v, cptrx{n}<u8>, *const u8, {n});')
    out.append(f'    index_ty!(v, mptrx{n}<u8>, *mut u8, {n});')
out.append('}')
# ---- gather/scatter (C06, C07)
out.append('pub fn all_gs(v: &mut Vec<GsTy>) {')
gs=[]
for n in (2,4,8):
    masks=[t for t in order if types[t][0]=='m' and types[t][2]==n]
    for t in order:
        k,e,nn,mask=types[t]
        if nn==n and k in 'iuf' and 'size' not in e:
            gs.append(f'gs_ty!(v, {t}, {e}, {n}, cptrx{n}, mptrx{n}, [{", ".join(masks)}]);')
for i in range(0,len(gs),8):
    out.append(f'    gs_part{i//8}(v);')
out.append('}')
for i in range(0,len(gs),8):
    out.append(f'#[inline(never)] fn gs_part{i//8}(v: &mut Vec<GsTy>) {{\n    '+'\n    '.join(gs[i:i+8])+'\n}')
# ---- fmt / hash / fold tables (C09, C10, C11)
out.append('pub fn all_fmt(v: &mut Vec<FmtTy>) {')
for t in order:
    k,e,n,mask=types[t]
    if k in 'iu': out.append(f'    fmt_int!(v, {t}, {e}, {n});')
    elif k=='f': out.append(f'    fmt_dbg!(v, {t}, {e}, {n});')
    else: out.append(f'    fmt_dbg!(v, {t}, bool, {n});')
for n in (2,4,8):
    out.append(f'    fmt_ptr!(v, cptrx{n}, "cptrx{n}<u32>", *const u32, {n});')
    out.append(f'    fmt_ptr!(v, mptrx{n}, "mptrx{n}<u32>", *mut u32, {n});')
out.append('}')
out.append('pub fn all_hash(v: &mut Vec<HashTy>) {')
for t in order:
    k,e,n,mask=types[t]
    if k in 'iu': out.append(f'    hash_ty!(v, {t}, {t}, {e}, {n});')
for n in (2,4,8):
    out.append(f'    hash_ty!(v, cptrx{n}, cptrx{n}<u32>, usize, {n});')
    out.append(f'    hash_ty!(v, mptrx{n}, mptrx{n}<u32>, usize, {n});')
out.append('}')
out.append('pub fn all_fold(v: &mut Vec<FoldTy>) {')
for t in order:
    k,e,n,mask=types[t]
    if k in 'iu': out.append(f'    fold_int!(v, {t}, {e}, {n});')
    elif k=='f': out.append(f'    fold_float!(v, {t}, {e}, {n});')
out.append('}')

mac=[x for x in out if x.startswith('#[allow(unused_macros)]')]
rest=[x for x in out if not x.startswith('#[allow(unused_macros)]')]
open('src/ops_gen.rs','w').write('\n'.join([rest[0]]+mac+rest[1:])+'\n')
print(len(types),sum(map(len,casts.values())),sum(map(len,bits.values())),sum(map(len,froms.values())))
