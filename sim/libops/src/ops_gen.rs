// generated by gen_ops.py from the pinned sources; committed, not regenerated by the checks
#[allow(unused_macros)]
macro_rules! shuf2 { ($v:ident, $t:ident) => { $v.push(op!($t, "shuffle", |i, o| {
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [1, 0]); o.put(r);
    let r: $t = shuffle!(a, b, [0, 2]); o.put(r);
    let r: $t = shuffle!(a, b, [3, 2]); o.put(r);
})); } }
#[allow(unused_macros)]
macro_rules! shuf4 { ($v:ident, $t:ident) => { $v.push(op!($t, "shuffle", |i, o| {
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [3, 2, 1, 0]); o.put(r);
    let r: $t = shuffle!(a, b, [0, 4, 1, 5]); o.put(r);
    let r: $t = shuffle!(a, b, [3, 2, 1, 0]); o.put(r);
})); } }
#[allow(unused_macros)]
macro_rules! shuf8 { ($v:ident, $t:ident) => { $v.push(op!($t, "shuffle", |i, o| {
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [7, 6, 5, 4, 3, 2, 1, 0]); o.put(r);
    let r: $t = shuffle!(a, b, [0, 8, 1, 9, 2, 10, 3, 11]); o.put(r);
    let r: $t = shuffle!(a, b, [3, 10, 1, 8, 15, 6, 13, 4]); o.put(r);
})); } }
#[allow(unused_macros)]
macro_rules! shuf16 { ($v:ident, $t:ident) => { $v.push(op!($t, "shuffle", |i, o| {
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]); o.put(r);
    let r: $t = shuffle!(a, b, [0, 16, 1, 17, 2, 18, 3, 19, 4, 20, 5, 21, 6, 22, 7, 23]); o.put(r);
    let r: $t = shuffle!(a, b, [3, 10, 17, 24, 31, 6, 13, 20, 27, 2, 9, 16, 23, 30, 5, 12]); o.put(r);
})); } }
#[allow(unused_macros)]
macro_rules! shuf32 { ($v:ident, $t:ident) => { $v.push(op!($t, "shuffle", |i, o| {
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]); o.put(r);
    let r: $t = shuffle!(a, b, [0, 32, 1, 33, 2, 34, 3, 35, 4, 36, 5, 37, 6, 38, 7, 39, 8, 40, 9, 41, 10, 42, 11, 43, 12, 44, 13, 45, 14, 46, 15, 47]); o.put(r);
    let r: $t = shuffle!(a, b, [3, 10, 17, 24, 31, 38, 45, 52, 59, 2, 9, 16, 23, 30, 37, 44, 51, 58, 1, 8, 15, 22, 29, 36, 43, 50, 57, 0, 7, 14, 21, 28]); o.put(r);
})); } }
#[allow(unused_macros)]
macro_rules! shuf64 { ($v:ident, $t:ident) => { $v.push(op!($t, "shuffle", |i, o| {
    let a: $t = i.rd(0); let b: $t = i.rd(1);
    let r: $t = shuffle!(a, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]); o.put(r);
    let r: $t = shuffle!(a, b, [0, 64, 1, 65, 2, 66, 3, 67, 4, 68, 5, 69, 6, 70, 7, 71, 8, 72, 9, 73, 10, 74, 11, 75, 12, 76, 13, 77, 14, 78, 15, 79, 16, 80, 17, 81, 18, 82, 19, 83, 20, 84, 21, 85, 22, 86, 23, 87, 24, 88, 25, 89, 26, 90, 27, 91, 28, 92, 29, 93, 30, 94, 31, 95]); o.put(r);
    let r: $t = shuffle!(a, b, [3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 4, 11, 18, 25, 32, 39, 46, 53, 60]); o.put(r);
})); } }

pub fn all_ops(v: &mut Vec<Op>) {
    reg_i128x1(v);
    reg_m128x1(v);
    reg_u128x1(v);
    reg_f32x2(v);
    reg_f64x2(v);
    reg_i128x2(v);
    reg_i16x2(v);
    reg_i32x2(v);
    reg_i64x2(v);
    reg_i8x2(v);
    reg_isizex2(v);
    reg_m128x2(v);
    reg_m16x2(v);
    reg_m32x2(v);
    reg_m64x2(v);
    reg_m8x2(v);
    reg_msizex2(v);
    reg_u128x2(v);
    reg_u16x2(v);
    reg_u32x2(v);
    reg_u64x2(v);
    reg_u8x2(v);
    reg_usizex2(v);
    reg_f32x4(v);
    reg_f64x4(v);
    reg_i128x4(v);
    reg_i16x4(v);
    reg_i32x4(v);
    reg_i64x4(v);
    reg_i8x4(v);
    reg_isizex4(v);
    reg_m128x4(v);
    reg_m16x4(v);
    reg_m32x4(v);
    reg_m64x4(v);
    reg_m8x4(v);
    reg_msizex4(v);
    reg_u128x4(v);
    reg_u16x4(v);
    reg_u32x4(v);
    reg_u64x4(v);
    reg_u8x4(v);
    reg_usizex4(v);
    reg_f32x8(v);
    reg_f64x8(v);
    reg_i16x8(v);
    reg_i32x8(v);
    reg_i64x8(v);
    reg_i8x8(v);
    reg_isizex8(v);
    reg_m16x8(v);
    reg_m32x8(v);
    reg_m64x8(v);
    reg_m8x8(v);
    reg_msizex8(v);
    reg_u16x8(v);
    reg_u32x8(v);
    reg_u64x8(v);
    reg_u8x8(v);
    reg_usizex8(v);
    reg_f32x16(v);
    reg_i16x16(v);
    reg_i32x16(v);
    reg_i8x16(v);
    reg_m16x16(v);
    reg_m32x16(v);
    reg_m8x16(v);
    reg_u16x16(v);
    reg_u32x16(v);
    reg_u8x16(v);
    reg_i16x32(v);
    reg_i8x32(v);
    reg_m16x32(v);
    reg_m8x32(v);
    reg_u16x32(v);
    reg_u8x32(v);
    reg_i8x64(v);
    reg_m8x64(v);
    reg_u8x64(v);
    reg_cptrx2(v);
    reg_mptrx2(v);
    reg_cptrx4(v);
    reg_mptrx4(v);
    reg_cptrx8(v);
    reg_mptrx8(v);
}
#[inline(never)] fn reg_i128x1(v: &mut Vec<Op>) {
    int_ops!(v, i128x1, i128, 1, m128x1, u128x1);
    neg_ops!(v, i128x1);
    cast_ops!(v, i128x1, [u128x1, m128x1]);
    bits_ops!(v, i128x1, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, u128x1, m128x1]);
}
#[inline(never)] fn reg_m128x1(v: &mut Vec<Op>) {
    mask_ops!(v, m128x1, m128, 1, u128x1, [i128x1, m128x1, u128x1]);
    cast_ops!(v, m128x1, [i128x1, u128x1]);
}
#[inline(never)] fn reg_u128x1(v: &mut Vec<Op>) {
    int_ops!(v, u128x1, u128, 1, m128x1, u128x1);
    cast_ops!(v, u128x1, [i128x1, m128x1]);
    bits_ops!(v, u128x1, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, m128x1]);
}
#[inline(never)] fn reg_f32x2(v: &mut Vec<Op>) {
    float_ops!(v, f32x2, f32, 2, m32x2, u32x2);
    from_ops!(v, f32x2, [i8x2, u8x2, i16x2, u16x2]);
    cast_ops!(v, f32x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, f32x2, [i8x8, u8x8, m8x8, i16x4, u16x4, m16x4, i32x2, u32x2, m32x2]);
    shuf2!(v, f32x2);
}
#[inline(never)] fn reg_f64x2(v: &mut Vec<Op>) {
    float_ops!(v, f64x2, f64, 2, m64x2, u64x2);
    from_ops!(v, f64x2, [i8x2, u8x2, i16x2, u16x2, i32x2, u32x2, f32x2]);
    cast_ops!(v, f64x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, f64x2, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf2!(v, f64x2);
}
#[inline(never)] fn reg_i128x2(v: &mut Vec<Op>) {
    int_ops!(v, i128x2, i128, 2, m128x2, u128x2);
    neg_ops!(v, i128x2);
    from_ops!(v, i128x2, [i8x2, u8x2, i16x2, u16x2, i32x2, u32x2, i64x2, u64x2]);
    cast_ops!(v, i128x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, i128x2, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, u128x2, m128x2]);
    shuf2!(v, i128x2);
}
#[inline(never)] fn reg_i16x2(v: &mut Vec<Op>) {
    int_ops!(v, i16x2, i16, 2, m16x2, u16x2);
    neg_ops!(v, i16x2);
    from_ops!(v, i16x2, [i8x2, u8x2]);
    cast_ops!(v, i16x2, [i8x2, u8x2, m8x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, i16x2, [i8x4, u8x4, m8x4, u16x2, m16x2]);
    shuf2!(v, i16x2);
}
#[inline(never)] fn reg_i32x2(v: &mut Vec<Op>) {
    int_ops!(v, i32x2, i32, 2, m32x2, u32x2);
    neg_ops!(v, i32x2);
    from_ops!(v, i32x2, [i8x2, u8x2, i16x2, u16x2]);
    cast_ops!(v, i32x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, i32x2, [i8x8, u8x8, m8x8, i16x4, u16x4, m16x4, u32x2, f32x2, m32x2]);
    shuf2!(v, i32x2);
}
#[inline(never)] fn reg_i64x2(v: &mut Vec<Op>) {
    int_ops!(v, i64x2, i64, 2, m64x2, u64x2);
    neg_ops!(v, i64x2);
    from_ops!(v, i64x2, [i8x2, u8x2, i16x2, u16x2, i32x2, u32x2]);
    cast_ops!(v, i64x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, i64x2, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf2!(v, i64x2);
}
#[inline(never)] fn reg_i8x2(v: &mut Vec<Op>) {
    int_ops!(v, i8x2, i8, 2, m8x2, u8x2);
    neg_ops!(v, i8x2);
    cast_ops!(v, i8x2, [u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, i8x2, [u8x2, m8x2]);
    shuf2!(v, i8x2);
}
#[inline(never)] fn reg_isizex2(v: &mut Vec<Op>) {
    int_ops!(v, isizex2, isize, 2, msizex2, usizex2);
    neg_ops!(v, isizex2);
    cast_ops!(v, isizex2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, usizex2, msizex2]);
    shuf2!(v, isizex2);
}
#[inline(never)] fn reg_m128x2(v: &mut Vec<Op>) {
    mask_ops!(v, m128x2, m128, 2, u128x2, [f32x2, f64x2, i128x2, i16x2, i32x2, i64x2, i8x2, isizex2, m128x2, m16x2, m32x2, m64x2, m8x2, msizex2, u128x2, u16x2, u32x2, u64x2, u8x2, usizex2]);
    from_ops!(v, m128x2, [m8x2, m16x2, m32x2, m64x2]);
    cast_ops!(v, m128x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, m64x2, f64x2, i128x2, u128x2, isizex2, usizex2, msizex2]);
    shuf2!(v, m128x2);
}
#[inline(never)] fn reg_m16x2(v: &mut Vec<Op>) {
    mask_ops!(v, m16x2, m16, 2, u16x2, [f32x2, f64x2, i128x2, i16x2, i32x2, i64x2, i8x2, isizex2, m128x2, m16x2, m32x2, m64x2, m8x2, msizex2, u128x2, u16x2, u32x2, u64x2, u8x2, usizex2]);
    from_ops!(v, m16x2, [m8x2, m32x2, m64x2, m128x2]);
    cast_ops!(v, m16x2, [i8x2, u8x2, m8x2, i16x2, u16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    shuf2!(v, m16x2);
}
#[inline(never)] fn reg_m32x2(v: &mut Vec<Op>) {
    mask_ops!(v, m32x2, m32, 2, u32x2, [f32x2, f64x2, i128x2, i16x2, i32x2, i64x2, i8x2, isizex2, m128x2, m16x2, m32x2, m64x2, m8x2, msizex2, u128x2, u16x2, u32x2, u64x2, u8x2, usizex2]);
    from_ops!(v, m32x2, [m8x2, m16x2, m64x2, m128x2]);
    cast_ops!(v, m32x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    shuf2!(v, m32x2);
}
#[inline(never)] fn reg_m64x2(v: &mut Vec<Op>) {
    mask_ops!(v, m64x2, m64, 2, u64x2, [f32x2, f64x2, i128x2, i16x2, i32x2, i64x2, i8x2, isizex2, m128x2, m16x2, m32x2, m64x2, m8x2, msizex2, u128x2, u16x2, u32x2, u64x2, u8x2, usizex2]);
    from_ops!(v, m64x2, [m8x2, m16x2, m32x2, m128x2]);
    cast_ops!(v, m64x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, m64x2, [m128x1]);
    shuf2!(v, m64x2);
}
#[inline(never)] fn reg_m8x2(v: &mut Vec<Op>) {
    mask_ops!(v, m8x2, m8, 2, u8x2, [f32x2, f64x2, i128x2, i16x2, i32x2, i64x2, i8x2, isizex2, m128x2, m16x2, m32x2, m64x2, m8x2, msizex2, u128x2, u16x2, u32x2, u64x2, u8x2, usizex2]);
    from_ops!(v, m8x2, [m16x2, m32x2, m64x2, m128x2]);
    cast_ops!(v, m8x2, [i8x2, u8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    shuf2!(v, m8x2);
}
#[inline(never)] fn reg_msizex2(v: &mut Vec<Op>) {
    mask_ops!(v, msizex2, msize, 2, usizex2, [f32x2, f64x2, i128x2, i16x2, i32x2, i64x2, i8x2, isizex2, m128x2, m16x2, m32x2, m64x2, m8x2, msizex2, u128x2, u16x2, u32x2, u64x2, u8x2, usizex2]);
    cast_ops!(v, msizex2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2]);
    shuf2!(v, msizex2);
}
#[inline(never)] fn reg_u128x2(v: &mut Vec<Op>) {
    int_ops!(v, u128x2, u128, 2, m128x2, u128x2);
    from_ops!(v, u128x2, [u8x2, u16x2, u32x2, u64x2]);
    cast_ops!(v, u128x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, u128x2, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, m128x2]);
    shuf2!(v, u128x2);
}
#[inline(never)] fn reg_u16x2(v: &mut Vec<Op>) {
    int_ops!(v, u16x2, u16, 2, m16x2, u16x2);
    from_ops!(v, u16x2, [u8x2]);
    cast_ops!(v, u16x2, [i8x2, u8x2, m8x2, i16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, u16x2, [i8x4, u8x4, m8x4, i16x2, m16x2]);
    shuf2!(v, u16x2);
}
#[inline(never)] fn reg_u32x2(v: &mut Vec<Op>) {
    int_ops!(v, u32x2, u32, 2, m32x2, u32x2);
    from_ops!(v, u32x2, [u8x2, u16x2]);
    cast_ops!(v, u32x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, u32x2, [i8x8, u8x8, m8x8, i16x4, u16x4, m16x4, i32x2, f32x2, m32x2]);
    shuf2!(v, u32x2);
}
#[inline(never)] fn reg_u64x2(v: &mut Vec<Op>) {
    int_ops!(v, u64x2, u64, 2, m64x2, u64x2);
    from_ops!(v, u64x2, [u8x2, u16x2, u32x2]);
    cast_ops!(v, u64x2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, u64x2, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf2!(v, u64x2);
}
#[inline(never)] fn reg_u8x2(v: &mut Vec<Op>) {
    int_ops!(v, u8x2, u8, 2, m8x2, u8x2);
    cast_ops!(v, u8x2, [i8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, usizex2, msizex2]);
    bits_ops!(v, u8x2, [i8x2, m8x2]);
    shuf2!(v, u8x2);
}
#[inline(never)] fn reg_usizex2(v: &mut Vec<Op>) {
    int_ops!(v, usizex2, usize, 2, msizex2, usizex2);
    cast_ops!(v, usizex2, [i8x2, u8x2, m8x2, i16x2, u16x2, m16x2, i32x2, u32x2, f32x2, m32x2, i64x2, u64x2, f64x2, m64x2, i128x2, u128x2, m128x2, isizex2, msizex2]);
    shuf2!(v, usizex2);
}
#[inline(never)] fn reg_f32x4(v: &mut Vec<Op>) {
    float_ops!(v, f32x4, f32, 4, m32x4, u32x4);
    from_ops!(v, f32x4, [i8x4, u8x4, i16x4, u16x4]);
    cast_ops!(v, f32x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, f32x4, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf4!(v, f32x4);
}
#[inline(never)] fn reg_f64x4(v: &mut Vec<Op>) {
    float_ops!(v, f64x4, f64, 4, m64x4, u64x4);
    from_ops!(v, f64x4, [i8x4, u8x4, i16x4, u16x4, i32x4, u32x4, f32x4]);
    cast_ops!(v, f64x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, f64x4, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf4!(v, f64x4);
}
#[inline(never)] fn reg_i128x4(v: &mut Vec<Op>) {
    int_ops!(v, i128x4, i128, 4, m128x4, u128x4);
    neg_ops!(v, i128x4);
    from_ops!(v, i128x4, [i8x4, u8x4, i16x4, u16x4, i32x4, u32x4, i64x4, u64x4]);
    cast_ops!(v, i128x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, i128x4, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, u128x4, m128x4]);
    shuf4!(v, i128x4);
}
#[inline(never)] fn reg_i16x4(v: &mut Vec<Op>) {
    int_ops!(v, i16x4, i16, 4, m16x4, u16x4);
    neg_ops!(v, i16x4);
    from_ops!(v, i16x4, [i8x4, u8x4]);
    cast_ops!(v, i16x4, [i8x4, u8x4, m8x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, i16x4, [i8x8, u8x8, m8x8, u16x4, m16x4, i32x2, u32x2, f32x2, m32x2]);
    shuf4!(v, i16x4);
}
#[inline(never)] fn reg_i32x4(v: &mut Vec<Op>) {
    int_ops!(v, i32x4, i32, 4, m32x4, u32x4);
    neg_ops!(v, i32x4);
    from_ops!(v, i32x4, [i8x4, u8x4, i16x4, u16x4]);
    cast_ops!(v, i32x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, i32x4, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf4!(v, i32x4);
}
#[inline(never)] fn reg_i64x4(v: &mut Vec<Op>) {
    int_ops!(v, i64x4, i64, 4, m64x4, u64x4);
    neg_ops!(v, i64x4);
    from_ops!(v, i64x4, [i8x4, u8x4, i16x4, u16x4, i32x4, u32x4]);
    cast_ops!(v, i64x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, i64x4, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf4!(v, i64x4);
}
#[inline(never)] fn reg_i8x4(v: &mut Vec<Op>) {
    int_ops!(v, i8x4, i8, 4, m8x4, u8x4);
    neg_ops!(v, i8x4);
    cast_ops!(v, i8x4, [u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, i8x4, [u8x4, m8x4, i16x2, u16x2, m16x2]);
    shuf4!(v, i8x4);
}
#[inline(never)] fn reg_isizex4(v: &mut Vec<Op>) {
    int_ops!(v, isizex4, isize, 4, msizex4, usizex4);
    neg_ops!(v, isizex4);
    cast_ops!(v, isizex4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, usizex4, msizex4]);
    shuf4!(v, isizex4);
}
#[inline(never)] fn reg_m128x4(v: &mut Vec<Op>) {
    mask_ops!(v, m128x4, m128, 4, u128x4, [f32x4, f64x4, i128x4, i16x4, i32x4, i64x4, i8x4, isizex4, m128x4, m16x4, m32x4, m64x4, m8x4, msizex4, u128x4, u16x4, u32x4, u64x4, u8x4, usizex4]);
    from_ops!(v, m128x4, [m8x4, m16x4, m32x4, m64x4]);
    cast_ops!(v, m128x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, m64x4, f64x4, i128x4, u128x4, isizex4, usizex4, msizex4]);
    shuf4!(v, m128x4);
}
#[inline(never)] fn reg_m16x4(v: &mut Vec<Op>) {
    mask_ops!(v, m16x4, m16, 4, u16x4, [f32x4, f64x4, i128x4, i16x4, i32x4, i64x4, i8x4, isizex4, m128x4, m16x4, m32x4, m64x4, m8x4, msizex4, u128x4, u16x4, u32x4, u64x4, u8x4, usizex4]);
    from_ops!(v, m16x4, [m8x4, m32x4, m64x4]);
    cast_ops!(v, m16x4, [i8x4, u8x4, m8x4, i16x4, u16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, m16x4, [m32x2]);
    shuf4!(v, m16x4);
}
#[inline(never)] fn reg_m32x4(v: &mut Vec<Op>) {
    mask_ops!(v, m32x4, m32, 4, u32x4, [f32x4, f64x4, i128x4, i16x4, i32x4, i64x4, i8x4, isizex4, m128x4, m16x4, m32x4, m64x4, m8x4, msizex4, u128x4, u16x4, u32x4, u64x4, u8x4, usizex4]);
    from_ops!(v, m32x4, [m8x4, m16x4, m64x4]);
    cast_ops!(v, m32x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, m32x4, [m64x2, m128x1]);
    shuf4!(v, m32x4);
}
#[inline(never)] fn reg_m64x4(v: &mut Vec<Op>) {
    mask_ops!(v, m64x4, m64, 4, u64x4, [f32x4, f64x4, i128x4, i16x4, i32x4, i64x4, i8x4, isizex4, m128x4, m16x4, m32x4, m64x4, m8x4, msizex4, u128x4, u16x4, u32x4, u64x4, u8x4, usizex4]);
    from_ops!(v, m64x4, [m8x4, m16x4, m32x4]);
    cast_ops!(v, m64x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, m64x4, [m128x2]);
    shuf4!(v, m64x4);
}
#[inline(never)] fn reg_m8x4(v: &mut Vec<Op>) {
    mask_ops!(v, m8x4, m8, 4, u8x4, [f32x4, f64x4, i128x4, i16x4, i32x4, i64x4, i8x4, isizex4, m128x4, m16x4, m32x4, m64x4, m8x4, msizex4, u128x4, u16x4, u32x4, u64x4, u8x4, usizex4]);
    from_ops!(v, m8x4, [m16x4, m32x4, m64x4]);
    cast_ops!(v, m8x4, [i8x4, u8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, m8x4, [m16x2]);
    shuf4!(v, m8x4);
}
#[inline(never)] fn reg_msizex4(v: &mut Vec<Op>) {
    mask_ops!(v, msizex4, msize, 4, usizex4, [f32x4, f64x4, i128x4, i16x4, i32x4, i64x4, i8x4, isizex4, m128x4, m16x4, m32x4, m64x4, m8x4, msizex4, u128x4, u16x4, u32x4, u64x4, u8x4, usizex4]);
    cast_ops!(v, msizex4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4]);
    shuf4!(v, msizex4);
}
#[inline(never)] fn reg_u128x4(v: &mut Vec<Op>) {
    int_ops!(v, u128x4, u128, 4, m128x4, u128x4);
    from_ops!(v, u128x4, [u8x4, u16x4, u32x4, u64x4]);
    cast_ops!(v, u128x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, u128x4, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, m128x4]);
    shuf4!(v, u128x4);
}
#[inline(never)] fn reg_u16x4(v: &mut Vec<Op>) {
    int_ops!(v, u16x4, u16, 4, m16x4, u16x4);
    from_ops!(v, u16x4, [u8x4]);
    cast_ops!(v, u16x4, [i8x4, u8x4, m8x4, i16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, u16x4, [i8x8, u8x8, m8x8, i16x4, m16x4, i32x2, u32x2, f32x2, m32x2]);
    shuf4!(v, u16x4);
}
#[inline(never)] fn reg_u32x4(v: &mut Vec<Op>) {
    int_ops!(v, u32x4, u32, 4, m32x4, u32x4);
    from_ops!(v, u32x4, [u8x4, u16x4]);
    cast_ops!(v, u32x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, u32x4, [i8x16, u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf4!(v, u32x4);
}
#[inline(never)] fn reg_u64x4(v: &mut Vec<Op>) {
    int_ops!(v, u64x4, u64, 4, m64x4, u64x4);
    from_ops!(v, u64x4, [u8x4, u16x4, u32x4]);
    cast_ops!(v, u64x4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, u64x4, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf4!(v, u64x4);
}
#[inline(never)] fn reg_u8x4(v: &mut Vec<Op>) {
    int_ops!(v, u8x4, u8, 4, m8x4, u8x4);
    cast_ops!(v, u8x4, [i8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, usizex4, msizex4]);
    bits_ops!(v, u8x4, [i8x4, m8x4, i16x2, u16x2, m16x2]);
    shuf4!(v, u8x4);
}
#[inline(never)] fn reg_usizex4(v: &mut Vec<Op>) {
    int_ops!(v, usizex4, usize, 4, msizex4, usizex4);
    cast_ops!(v, usizex4, [i8x4, u8x4, m8x4, i16x4, u16x4, m16x4, i32x4, u32x4, f32x4, m32x4, i64x4, u64x4, f64x4, m64x4, i128x4, u128x4, m128x4, isizex4, msizex4]);
    shuf4!(v, usizex4);
}
#[inline(never)] fn reg_f32x8(v: &mut Vec<Op>) {
    float_ops!(v, f32x8, f32, 8, m32x8, u32x8);
    from_ops!(v, f32x8, [i8x8, u8x8, i16x8, u16x8]);
    cast_ops!(v, f32x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, f32x8, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf8!(v, f32x8);
}
#[inline(never)] fn reg_f64x8(v: &mut Vec<Op>) {
    float_ops!(v, f64x8, f64, 8, m64x8, u64x8);
    from_ops!(v, f64x8, [i8x8, u8x8, i16x8, u16x8, i32x8, u32x8, f32x8]);
    cast_ops!(v, f64x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, f64x8, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf8!(v, f64x8);
}
#[inline(never)] fn reg_i16x8(v: &mut Vec<Op>) {
    int_ops!(v, i16x8, i16, 8, m16x8, u16x8);
    neg_ops!(v, i16x8);
    from_ops!(v, i16x8, [i8x8, u8x8]);
    cast_ops!(v, i16x8, [i8x8, u8x8, m8x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, i16x8, [i8x16, u8x16, m8x16, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf8!(v, i16x8);
}
#[inline(never)] fn reg_i32x8(v: &mut Vec<Op>) {
    int_ops!(v, i32x8, i32, 8, m32x8, u32x8);
    neg_ops!(v, i32x8);
    from_ops!(v, i32x8, [i8x8, u8x8, i16x8, u16x8]);
    cast_ops!(v, i32x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, i32x8, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf8!(v, i32x8);
}
#[inline(never)] fn reg_i64x8(v: &mut Vec<Op>) {
    int_ops!(v, i64x8, i64, 8, m64x8, u64x8);
    neg_ops!(v, i64x8);
    from_ops!(v, i64x8, [i8x8, u8x8, i16x8, u16x8, i32x8, u32x8]);
    cast_ops!(v, i64x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, i64x8, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf8!(v, i64x8);
}
#[inline(never)] fn reg_i8x8(v: &mut Vec<Op>) {
    int_ops!(v, i8x8, i8, 8, m8x8, u8x8);
    neg_ops!(v, i8x8);
    cast_ops!(v, i8x8, [u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, i8x8, [u8x8, m8x8, i16x4, u16x4, m16x4, i32x2, u32x2, f32x2, m32x2]);
    shuf8!(v, i8x8);
}
#[inline(never)] fn reg_isizex8(v: &mut Vec<Op>) {
    int_ops!(v, isizex8, isize, 8, msizex8, usizex8);
    neg_ops!(v, isizex8);
    cast_ops!(v, isizex8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, usizex8, msizex8]);
    shuf8!(v, isizex8);
}
#[inline(never)] fn reg_m16x8(v: &mut Vec<Op>) {
    mask_ops!(v, m16x8, m16, 8, u16x8, [f32x8, f64x8, i16x8, i32x8, i64x8, i8x8, isizex8, m16x8, m32x8, m64x8, m8x8, msizex8, u16x8, u32x8, u64x8, u8x8, usizex8]);
    from_ops!(v, m16x8, [m8x8, m32x8]);
    cast_ops!(v, m16x8, [i8x8, u8x8, m8x8, i16x8, u16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, m16x8, [m32x4, m64x2, m128x1]);
    shuf8!(v, m16x8);
}
#[inline(never)] fn reg_m32x8(v: &mut Vec<Op>) {
    mask_ops!(v, m32x8, m32, 8, u32x8, [f32x8, f64x8, i16x8, i32x8, i64x8, i8x8, isizex8, m16x8, m32x8, m64x8, m8x8, msizex8, u16x8, u32x8, u64x8, u8x8, usizex8]);
    from_ops!(v, m32x8, [m8x8, m16x8]);
    cast_ops!(v, m32x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, m32x8, [m64x4, m128x2]);
    shuf8!(v, m32x8);
}
#[inline(never)] fn reg_m64x8(v: &mut Vec<Op>) {
    mask_ops!(v, m64x8, m64, 8, u64x8, [f32x8, f64x8, i16x8, i32x8, i64x8, i8x8, isizex8, m16x8, m32x8, m64x8, m8x8, msizex8, u16x8, u32x8, u64x8, u8x8, usizex8]);
    from_ops!(v, m64x8, [m8x8, m16x8, m32x8]);
    cast_ops!(v, m64x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, m64x8, [m128x4]);
    shuf8!(v, m64x8);
}
#[inline(never)] fn reg_m8x8(v: &mut Vec<Op>) {
    mask_ops!(v, m8x8, m8, 8, u8x8, [f32x8, f64x8, i16x8, i32x8, i64x8, i8x8, isizex8, m16x8, m32x8, m64x8, m8x8, msizex8, u16x8, u32x8, u64x8, u8x8, usizex8]);
    from_ops!(v, m8x8, [m16x8, m32x8]);
    cast_ops!(v, m8x8, [i8x8, u8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, m8x8, [m16x4, m32x2]);
    shuf8!(v, m8x8);
}
#[inline(never)] fn reg_msizex8(v: &mut Vec<Op>) {
    mask_ops!(v, msizex8, msize, 8, usizex8, [f32x8, f64x8, i16x8, i32x8, i64x8, i8x8, isizex8, m16x8, m32x8, m64x8, m8x8, msizex8, u16x8, u32x8, u64x8, u8x8, usizex8]);
    cast_ops!(v, msizex8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8]);
    shuf8!(v, msizex8);
}
#[inline(never)] fn reg_u16x8(v: &mut Vec<Op>) {
    int_ops!(v, u16x8, u16, 8, m16x8, u16x8);
    from_ops!(v, u16x8, [u8x8]);
    cast_ops!(v, u16x8, [i8x8, u8x8, m8x8, i16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, u16x8, [i8x16, u8x16, m8x16, i16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf8!(v, u16x8);
}
#[inline(never)] fn reg_u32x8(v: &mut Vec<Op>) {
    int_ops!(v, u32x8, u32, 8, m32x8, u32x8);
    from_ops!(v, u32x8, [u8x8, u16x8]);
    cast_ops!(v, u32x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, u32x8, [i8x32, u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf8!(v, u32x8);
}
#[inline(never)] fn reg_u64x8(v: &mut Vec<Op>) {
    int_ops!(v, u64x8, u64, 8, m64x8, u64x8);
    from_ops!(v, u64x8, [u8x8, u16x8, u32x8]);
    cast_ops!(v, u64x8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, u64x8, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf8!(v, u64x8);
}
#[inline(never)] fn reg_u8x8(v: &mut Vec<Op>) {
    int_ops!(v, u8x8, u8, 8, m8x8, u8x8);
    cast_ops!(v, u8x8, [i8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, usizex8, msizex8]);
    bits_ops!(v, u8x8, [i8x8, m8x8, i16x4, u16x4, m16x4, i32x2, u32x2, f32x2, m32x2]);
    shuf8!(v, u8x8);
}
#[inline(never)] fn reg_usizex8(v: &mut Vec<Op>) {
    int_ops!(v, usizex8, usize, 8, msizex8, usizex8);
    cast_ops!(v, usizex8, [i8x8, u8x8, m8x8, i16x8, u16x8, m16x8, i32x8, u32x8, f32x8, m32x8, i64x8, u64x8, f64x8, m64x8, isizex8, msizex8]);
    shuf8!(v, usizex8);
}
#[inline(never)] fn reg_f32x16(v: &mut Vec<Op>) {
    float_ops!(v, f32x16, f32, 16, m32x16, u32x16);
    from_ops!(v, f32x16, [i8x16, u8x16, i16x16, u16x16]);
    cast_ops!(v, f32x16, [i8x16, u8x16, m8x16, i16x16, u16x16, m16x16, i32x16, u32x16, m32x16]);
    bits_ops!(v, f32x16, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf16!(v, f32x16);
}
#[inline(never)] fn reg_i16x16(v: &mut Vec<Op>) {
    int_ops!(v, i16x16, i16, 16, m16x16, u16x16);
    neg_ops!(v, i16x16);
    from_ops!(v, i16x16, [i8x16, u8x16]);
    cast_ops!(v, i16x16, [i8x16, u8x16, m8x16, u16x16, m16x16, i32x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, i16x16, [i8x32, u8x32, m8x32, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf16!(v, i16x16);
}
#[inline(never)] fn reg_i32x16(v: &mut Vec<Op>) {
    int_ops!(v, i32x16, i32, 16, m32x16, u32x16);
    neg_ops!(v, i32x16);
    from_ops!(v, i32x16, [i8x16, u8x16, i16x16, u16x16]);
    cast_ops!(v, i32x16, [i8x16, u8x16, m8x16, i16x16, u16x16, m16x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, i32x16, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf16!(v, i32x16);
}
#[inline(never)] fn reg_i8x16(v: &mut Vec<Op>) {
    int_ops!(v, i8x16, i8, 16, m8x16, u8x16);
    neg_ops!(v, i8x16);
    cast_ops!(v, i8x16, [u8x16, m8x16, i16x16, u16x16, m16x16, i32x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, i8x16, [u8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf16!(v, i8x16);
}
#[inline(never)] fn reg_m16x16(v: &mut Vec<Op>) {
    mask_ops!(v, m16x16, m16, 16, u16x16, [f32x16, i16x16, i32x16, i8x16, m16x16, m32x16, m8x16, u16x16, u32x16, u8x16]);
    from_ops!(v, m16x16, [m8x16]);
    cast_ops!(v, m16x16, [i8x16, u8x16, m8x16, i16x16, u16x16, i32x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, m16x16, [m32x8, m64x4, m128x2]);
    shuf16!(v, m16x16);
}
#[inline(never)] fn reg_m32x16(v: &mut Vec<Op>) {
    mask_ops!(v, m32x16, m32, 16, u32x16, [f32x16, i16x16, i32x16, i8x16, m16x16, m32x16, m8x16, u16x16, u32x16, u8x16]);
    from_ops!(v, m32x16, [m8x16, m16x16]);
    cast_ops!(v, m32x16, [i8x16, u8x16, m8x16, i16x16, u16x16, m16x16, i32x16, u32x16, f32x16]);
    bits_ops!(v, m32x16, [m64x8, m128x4]);
    shuf16!(v, m32x16);
}
#[inline(never)] fn reg_m8x16(v: &mut Vec<Op>) {
    mask_ops!(v, m8x16, m8, 16, u8x16, [f32x16, i16x16, i32x16, i8x16, m16x16, m32x16, m8x16, u16x16, u32x16, u8x16]);
    from_ops!(v, m8x16, [m16x16]);
    cast_ops!(v, m8x16, [i8x16, u8x16, i16x16, u16x16, m16x16, i32x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, m8x16, [m16x8, m32x4, m64x2, m128x1]);
    shuf16!(v, m8x16);
}
#[inline(never)] fn reg_u16x16(v: &mut Vec<Op>) {
    int_ops!(v, u16x16, u16, 16, m16x16, u16x16);
    from_ops!(v, u16x16, [u8x16]);
    cast_ops!(v, u16x16, [i8x16, u8x16, m8x16, i16x16, m16x16, i32x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, u16x16, [i8x32, u8x32, m8x32, i16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf16!(v, u16x16);
}
#[inline(never)] fn reg_u32x16(v: &mut Vec<Op>) {
    int_ops!(v, u32x16, u32, 16, m32x16, u32x16);
    from_ops!(v, u32x16, [u8x16, u16x16]);
    cast_ops!(v, u32x16, [i8x16, u8x16, m8x16, i16x16, u16x16, m16x16, i32x16, f32x16, m32x16]);
    bits_ops!(v, u32x16, [i8x64, u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf16!(v, u32x16);
}
#[inline(never)] fn reg_u8x16(v: &mut Vec<Op>) {
    int_ops!(v, u8x16, u8, 16, m8x16, u8x16);
    cast_ops!(v, u8x16, [i8x16, m8x16, i16x16, u16x16, m16x16, i32x16, u32x16, f32x16, m32x16]);
    bits_ops!(v, u8x16, [i8x16, m8x16, i16x8, u16x8, m16x8, i32x4, u32x4, f32x4, m32x4, i64x2, u64x2, f64x2, m64x2, i128x1, u128x1, m128x1]);
    shuf16!(v, u8x16);
}
#[inline(never)] fn reg_i16x32(v: &mut Vec<Op>) {
    int_ops!(v, i16x32, i16, 32, m16x32, u16x32);
    neg_ops!(v, i16x32);
    from_ops!(v, i16x32, [i8x32, u8x32]);
    cast_ops!(v, i16x32, [i8x32, u8x32, m8x32, u16x32, m16x32]);
    bits_ops!(v, i16x32, [i8x64, u8x64, m8x64, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf32!(v, i16x32);
}
#[inline(never)] fn reg_i8x32(v: &mut Vec<Op>) {
    int_ops!(v, i8x32, i8, 32, m8x32, u8x32);
    neg_ops!(v, i8x32);
    cast_ops!(v, i8x32, [u8x32, m8x32, i16x32, u16x32, m16x32]);
    bits_ops!(v, i8x32, [u8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf32!(v, i8x32);
}
#[inline(never)] fn reg_m16x32(v: &mut Vec<Op>) {
    mask_ops!(v, m16x32, m16, 32, u16x32, [i16x32, i8x32, m16x32, m8x32, u16x32, u8x32]);
    from_ops!(v, m16x32, [m8x32]);
    cast_ops!(v, m16x32, [i8x32, u8x32, m8x32, i16x32, u16x32]);
    bits_ops!(v, m16x32, [m32x16, m64x8, m128x4]);
}
#[inline(never)] fn reg_m8x32(v: &mut Vec<Op>) {
    mask_ops!(v, m8x32, m8, 32, u8x32, [i16x32, i8x32, m16x32, m8x32, u16x32, u8x32]);
    cast_ops!(v, m8x32, [i8x32, u8x32, i16x32, u16x32, m16x32]);
    bits_ops!(v, m8x32, [m16x16, m32x8, m64x4, m128x2]);
    shuf32!(v, m8x32);
}
#[inline(never)] fn reg_u16x32(v: &mut Vec<Op>) {
    int_ops!(v, u16x32, u16, 32, m16x32, u16x32);
    from_ops!(v, u16x32, [u8x32]);
    cast_ops!(v, u16x32, [i8x32, u8x32, m8x32, i16x32, m16x32]);
    bits_ops!(v, u16x32, [i8x64, u8x64, m8x64, i16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf32!(v, u16x32);
}
#[inline(never)] fn reg_u8x32(v: &mut Vec<Op>) {
    int_ops!(v, u8x32, u8, 32, m8x32, u8x32);
    cast_ops!(v, u8x32, [i8x32, m8x32, i16x32, u16x32, m16x32]);
    bits_ops!(v, u8x32, [i8x32, m8x32, i16x16, u16x16, m16x16, i32x8, u32x8, f32x8, m32x8, i64x4, u64x4, f64x4, m64x4, i128x2, u128x2, m128x2]);
    shuf32!(v, u8x32);
}
#[inline(never)] fn reg_i8x64(v: &mut Vec<Op>) {
    int_ops!(v, i8x64, i8, 64, m8x64, u8x64);
    neg_ops!(v, i8x64);
    cast_ops!(v, i8x64, [u8x64, m8x64]);
    bits_ops!(v, i8x64, [u8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf64!(v, i8x64);
}
#[inline(never)] fn reg_m8x64(v: &mut Vec<Op>) {
    mask_ops!(v, m8x64, m8, 64, u8x64, [i8x64, m8x64, u8x64]);
    cast_ops!(v, m8x64, [i8x64, u8x64]);
    bits_ops!(v, m8x64, [m16x32, m32x16, m64x8, m128x4]);
    shuf64!(v, m8x64);
}
#[inline(never)] fn reg_u8x64(v: &mut Vec<Op>) {
    int_ops!(v, u8x64, u8, 64, m8x64, u8x64);
    cast_ops!(v, u8x64, [i8x64, m8x64]);
    bits_ops!(v, u8x64, [i8x64, m8x64, i16x32, u16x32, m16x32, i32x16, u32x16, f32x16, m32x16, i64x8, u64x8, f64x8, m64x8, i128x4, u128x4, m128x4]);
    shuf64!(v, u8x64);
}
#[inline(never)] fn reg_cptrx2(v: &mut Vec<Op>) {
    ptr_ops!(v, cptrx2, *const u32, 2, usizex2, isizex2, msizex2);
}
#[inline(never)] fn reg_mptrx2(v: &mut Vec<Op>) {
    ptr_ops!(v, mptrx2, *mut u32, 2, usizex2, isizex2, msizex2);
}
#[inline(never)] fn reg_cptrx4(v: &mut Vec<Op>) {
    ptr_ops!(v, cptrx4, *const u32, 4, usizex4, isizex4, msizex4);
}
#[inline(never)] fn reg_mptrx4(v: &mut Vec<Op>) {
    ptr_ops!(v, mptrx4, *mut u32, 4, usizex4, isizex4, msizex4);
}
#[inline(never)] fn reg_cptrx8(v: &mut Vec<Op>) {
    ptr_ops!(v, cptrx8, *const u32, 8, usizex8, isizex8, msizex8);
}
#[inline(never)] fn reg_mptrx8(v: &mut Vec<Op>) {
    ptr_ops!(v, mptrx8, *mut u32, 8, usizex8, isizex8, msizex8);
}
impl Src for i128x1 { const SLOT: usize = 10; }
impl Src for m128x1 { const SLOT: usize = 7; }
impl Src for u128x1 { const SLOT: usize = 10; }
impl Src for f32x2 { const SLOT: usize = 8; }
impl Src for f64x2 { const SLOT: usize = 9; }
impl Src for i128x2 { const SLOT: usize = 10; }
impl Src for i16x2 { const SLOT: usize = 10; }
impl Src for i32x2 { const SLOT: usize = 10; }
impl Src for i64x2 { const SLOT: usize = 10; }
impl Src for i8x2 { const SLOT: usize = 10; }
impl Src for isizex2 { const SLOT: usize = 10; }
impl Src for m128x2 { const SLOT: usize = 7; }
impl Src for m16x2 { const SLOT: usize = 7; }
impl Src for m32x2 { const SLOT: usize = 7; }
impl Src for m64x2 { const SLOT: usize = 7; }
impl Src for m8x2 { const SLOT: usize = 7; }
impl Src for msizex2 { const SLOT: usize = 7; }
impl Src for u128x2 { const SLOT: usize = 10; }
impl Src for u16x2 { const SLOT: usize = 10; }
impl Src for u32x2 { const SLOT: usize = 10; }
impl Src for u64x2 { const SLOT: usize = 10; }
impl Src for u8x2 { const SLOT: usize = 10; }
impl Src for usizex2 { const SLOT: usize = 10; }
impl Src for f32x4 { const SLOT: usize = 8; }
impl Src for f64x4 { const SLOT: usize = 9; }
impl Src for i128x4 { const SLOT: usize = 10; }
impl Src for i16x4 { const SLOT: usize = 10; }
impl Src for i32x4 { const SLOT: usize = 10; }
impl Src for i64x4 { const SLOT: usize = 10; }
impl Src for i8x4 { const SLOT: usize = 10; }
impl Src for isizex4 { const SLOT: usize = 10; }
impl Src for m128x4 { const SLOT: usize = 7; }
impl Src for m16x4 { const SLOT: usize = 7; }
impl Src for m32x4 { const SLOT: usize = 7; }
impl Src for m64x4 { const SLOT: usize = 7; }
impl Src for m8x4 { const SLOT: usize = 7; }
impl Src for msizex4 { const SLOT: usize = 7; }
impl Src for u128x4 { const SLOT: usize = 10; }
impl Src for u16x4 { const SLOT: usize = 10; }
impl Src for u32x4 { const SLOT: usize = 10; }
impl Src for u64x4 { const SLOT: usize = 10; }
impl Src for u8x4 { const SLOT: usize = 10; }
impl Src for usizex4 { const SLOT: usize = 10; }
impl Src for f32x8 { const SLOT: usize = 8; }
impl Src for f64x8 { const SLOT: usize = 9; }
impl Src for i16x8 { const SLOT: usize = 10; }
impl Src for i32x8 { const SLOT: usize = 10; }
impl Src for i64x8 { const SLOT: usize = 10; }
impl Src for i8x8 { const SLOT: usize = 10; }
impl Src for isizex8 { const SLOT: usize = 10; }
impl Src for m16x8 { const SLOT: usize = 7; }
impl Src for m32x8 { const SLOT: usize = 7; }
impl Src for m64x8 { const SLOT: usize = 7; }
impl Src for m8x8 { const SLOT: usize = 7; }
impl Src for msizex8 { const SLOT: usize = 7; }
impl Src for u16x8 { const SLOT: usize = 10; }
impl Src for u32x8 { const SLOT: usize = 10; }
impl Src for u64x8 { const SLOT: usize = 10; }
impl Src for u8x8 { const SLOT: usize = 10; }
impl Src for usizex8 { const SLOT: usize = 10; }
impl Src for f32x16 { const SLOT: usize = 8; }
impl Src for i16x16 { const SLOT: usize = 10; }
impl Src for i32x16 { const SLOT: usize = 10; }
impl Src for i8x16 { const SLOT: usize = 10; }
impl Src for m16x16 { const SLOT: usize = 7; }
impl Src for m32x16 { const SLOT: usize = 7; }
impl Src for m8x16 { const SLOT: usize = 7; }
impl Src for u16x16 { const SLOT: usize = 10; }
impl Src for u32x16 { const SLOT: usize = 10; }
impl Src for u8x16 { const SLOT: usize = 10; }
impl Src for i16x32 { const SLOT: usize = 10; }
impl Src for i8x32 { const SLOT: usize = 10; }
impl Src for m16x32 { const SLOT: usize = 7; }
impl Src for m8x32 { const SLOT: usize = 7; }
impl Src for u16x32 { const SLOT: usize = 10; }
impl Src for u8x32 { const SLOT: usize = 10; }
impl Src for i8x64 { const SLOT: usize = 10; }
impl Src for m8x64 { const SLOT: usize = 7; }
impl Src for u8x64 { const SLOT: usize = 10; }
pub fn all_slices(v: &mut Vec<SliceTy>) {
    slice_ty!(v, i128x1, i128, 1);
    slice_ty!(v, u128x1, u128, 1);
    slice_ty!(v, f32x2, f32, 2);
    slice_ty!(v, f64x2, f64, 2);
    slice_ty!(v, i128x2, i128, 2);
    slice_ty!(v, i16x2, i16, 2);
    slice_ty!(v, i32x2, i32, 2);
    slice_ty!(v, i64x2, i64, 2);
    slice_ty!(v, i8x2, i8, 2);
    slice_ty!(v, isizex2, isize, 2);
    slice_ty!(v, u128x2, u128, 2);
    slice_ty!(v, u16x2, u16, 2);
    slice_ty!(v, u32x2, u32, 2);
    slice_ty!(v, u64x2, u64, 2);
    slice_ty!(v, u8x2, u8, 2);
    slice_ty!(v, usizex2, usize, 2);
    slice_ty!(v, f32x4, f32, 4);
    slice_ty!(v, f64x4, f64, 4);
    slice_ty!(v, i128x4, i128, 4);
    slice_ty!(v, i16x4, i16, 4);
    slice_ty!(v, i32x4, i32, 4);
    slice_ty!(v, i64x4, i64, 4);
    slice_ty!(v, i8x4, i8, 4);
    slice_ty!(v, isizex4, isize, 4);
    slice_ty!(v, u128x4, u128, 4);
    slice_ty!(v, u16x4, u16, 4);
    slice_ty!(v, u32x4, u32, 4);
    slice_ty!(v, u64x4, u64, 4);
    slice_ty!(v, u8x4, u8, 4);
    slice_ty!(v, usizex4, usize, 4);
    slice_ty!(v, f32x8, f32, 8);
    slice_ty!(v, f64x8, f64, 8);
    slice_ty!(v, i16x8, i16, 8);
    slice_ty!(v, i32x8, i32, 8);
    slice_ty!(v, i64x8, i64, 8);
    slice_ty!(v, i8x8, i8, 8);
    slice_ty!(v, isizex8, isize, 8);
    slice_ty!(v, u16x8, u16, 8);
    slice_ty!(v, u32x8, u32, 8);
    slice_ty!(v, u64x8, u64, 8);
    slice_ty!(v, u8x8, u8, 8);
    slice_ty!(v, usizex8, usize, 8);
    slice_ty!(v, f32x16, f32, 16);
    slice_ty!(v, i16x16, i16, 16);
    slice_ty!(v, i32x16, i32, 16);
    slice_ty!(v, i8x16, i8, 16);
    slice_ty!(v, u16x16, u16, 16);
    slice_ty!(v, u32x16, u32, 16);
    slice_ty!(v, u8x16, u8, 16);
    slice_ty!(v, i16x32, i16, 32);
    slice_ty!(v, i8x32, i8, 32);
    slice_ty!(v, u16x32, u16, 32);
    slice_ty!(v, u8x32, u8, 32);
    slice_ty!(v, i8x64, i8, 64);
    slice_ty!(v, u8x64, u8, 64);
    slice_ty!(v, cptrx2<u16>, *const u16, 2);
    slice_ty!(v, mptrx2<u64>, *mut u64, 2);
    slice_ty!(v, cptrx4<u16>, *const u16, 4);
    slice_ty!(v, mptrx4<u64>, *mut u64, 4);
    slice_ty!(v, cptrx8<u16>, *const u16, 8);
    slice_ty!(v, mptrx8<u64>, *mut u64, 8);
}
pub fn all_index(v: &mut Vec<IndexTy>) {
    index_ty!(v, i128x1, i128, 1);
    index_ty!(v, m128x1, bool, 1);
    index_ty!(v, u128x1, u128, 1);
    index_ty!(v, f32x2, f32, 2);
    index_ty!(v, f64x2, f64, 2);
    index_ty!(v, i128x2, i128, 2);
    index_ty!(v, i16x2, i16, 2);
    index_ty!(v, i32x2, i32, 2);
    index_ty!(v, i64x2, i64, 2);
    index_ty!(v, i8x2, i8, 2);
    index_ty!(v, isizex2, isize, 2);
    index_ty!(v, m128x2, bool, 2);
    index_ty!(v, m16x2, bool, 2);
    index_ty!(v, m32x2, bool, 2);
    index_ty!(v, m64x2, bool, 2);
    index_ty!(v, m8x2, bool, 2);
    index_ty!(v, msizex2, bool, 2);
    index_ty!(v, u128x2, u128, 2);
    index_ty!(v, u16x2, u16, 2);
    index_ty!(v, u32x2, u32, 2);
    index_ty!(v, u64x2, u64, 2);
    index_ty!(v, u8x2, u8, 2);
    index_ty!(v, usizex2, usize, 2);
    index_ty!(v, f32x4, f32, 4);
    index_ty!(v, f64x4, f64, 4);
    index_ty!(v, i128x4, i128, 4);
    index_ty!(v, i16x4, i16, 4);
    index_ty!(v, i32x4, i32, 4);
    index_ty!(v, i64x4, i64, 4);
    index_ty!(v, i8x4, i8, 4);
    index_ty!(v, isizex4, isize, 4);
    index_ty!(v, m128x4, bool, 4);
    index_ty!(v, m16x4, bool, 4);
    index_ty!(v, m32x4, bool, 4);
    index_ty!(v, m64x4, bool, 4);
    index_ty!(v, m8x4, bool, 4);
    index_ty!(v, msizex4, bool, 4);
    index_ty!(v, u128x4, u128, 4);
    index_ty!(v, u16x4, u16, 4);
    index_ty!(v, u32x4, u32, 4);
    index_ty!(v, u64x4, u64, 4);
    index_ty!(v, u8x4, u8, 4);
    index_ty!(v, usizex4, usize, 4);
    index_ty!(v, f32x8, f32, 8);
    index_ty!(v, f64x8, f64, 8);
    index_ty!(v, i16x8, i16, 8);
    index_ty!(v, i32x8, i32, 8);
    index_ty!(v, i64x8, i64, 8);
    index_ty!(v, i8x8, i8, 8);
    index_ty!(v, isizex8, isize, 8);
    index_ty!(v, m16x8, bool, 8);
    index_ty!(v, m32x8, bool, 8);
    index_ty!(v, m64x8, bool, 8);
    index_ty!(v, m8x8, bool, 8);
    index_ty!(v, msizex8, bool, 8);
    index_ty!(v, u16x8, u16, 8);
    index_ty!(v, u32x8, u32, 8);
    index_ty!(v, u64x8, u64, 8);
    index_ty!(v, u8x8, u8, 8);
    index_ty!(v, usizex8, usize, 8);
    index_ty!(v, f32x16, f32, 16);
    index_ty!(v, i16x16, i16, 16);
    index_ty!(v, i32x16, i32, 16);
    index_ty!(v, i8x16, i8, 16);
    index_ty!(v, m16x16, bool, 16);
    index_ty!(v, m32x16, bool, 16);
    index_ty!(v, m8x16, bool, 16);
    index_ty!(v, u16x16, u16, 16);
    index_ty!(v, u32x16, u32, 16);
    index_ty!(v, u8x16, u8, 16);
    index_ty!(v, i16x32, i16, 32);
    index_ty!(v, i8x32, i8, 32);
    index_ty!(v, m16x32, bool, 32);
    index_ty!(v, m8x32, bool, 32);
    index_ty!(v, u16x32, u16, 32);
    index_ty!(v, u8x32, u8, 32);
    index_ty!(v, i8x64, i8, 64);
    index_ty!(v, m8x64, bool, 64);
    index_ty!(v, u8x64, u8, 64);
    index_ty!(v, cptrx2<u8>, *const u8, 2);
    index_ty!(v, mptrx2<u8>, *mut u8, 2);
    index_ty!(v, cptrx4<u8>, *const u8, 4);
    index_ty!(v, mptrx4<u8>, *mut u8, 4);
    index_ty!(v, cptrx8<u8>, *const u8, 8);
    index_ty!(v, mptrx8<u8>, *mut u8, 8);
}
pub fn all_gs(v: &mut Vec<GsTy>) {
    gs_part0(v);
    gs_part1(v);
    gs_part2(v);
    gs_part3(v);
    gs_part4(v);
}
#[inline(never)] fn gs_part0(v: &mut Vec<GsTy>) {
    gs_ty!(v, f32x2, f32, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, f64x2, f64, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, i128x2, i128, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, i16x2, i16, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, i32x2, i32, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, i64x2, i64, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, i8x2, i8, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, u128x2, u128, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
}
#[inline(never)] fn gs_part1(v: &mut Vec<GsTy>) {
    gs_ty!(v, u16x2, u16, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, u32x2, u32, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, u64x2, u64, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, u8x2, u8, 2, cptrx2, mptrx2, [m128x2, m16x2, m32x2, m64x2, m8x2, msizex2]);
    gs_ty!(v, f32x4, f32, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, f64x4, f64, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, i128x4, i128, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, i16x4, i16, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
}
#[inline(never)] fn gs_part2(v: &mut Vec<GsTy>) {
    gs_ty!(v, i32x4, i32, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, i64x4, i64, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, i8x4, i8, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, u128x4, u128, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, u16x4, u16, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, u32x4, u32, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, u64x4, u64, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
    gs_ty!(v, u8x4, u8, 4, cptrx4, mptrx4, [m128x4, m16x4, m32x4, m64x4, m8x4, msizex4]);
}
#[inline(never)] fn gs_part3(v: &mut Vec<GsTy>) {
    gs_ty!(v, f32x8, f32, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, f64x8, f64, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, i16x8, i16, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, i32x8, i32, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, i64x8, i64, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, i8x8, i8, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, u16x8, u16, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, u32x8, u32, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
}
#[inline(never)] fn gs_part4(v: &mut Vec<GsTy>) {
    gs_ty!(v, u64x8, u64, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
    gs_ty!(v, u8x8, u8, 8, cptrx8, mptrx8, [m16x8, m32x8, m64x8, m8x8, msizex8]);
}
pub fn all_fmt(v: &mut Vec<FmtTy>) {
    fmt_int!(v, i128x1, i128, 1);
    fmt_dbg!(v, m128x1, bool, 1);
    fmt_int!(v, u128x1, u128, 1);
    fmt_dbg!(v, f32x2, f32, 2);
    fmt_dbg!(v, f64x2, f64, 2);
    fmt_int!(v, i128x2, i128, 2);
    fmt_int!(v, i16x2, i16, 2);
    fmt_int!(v, i32x2, i32, 2);
    fmt_int!(v, i64x2, i64, 2);
    fmt_int!(v, i8x2, i8, 2);
    fmt_int!(v, isizex2, isize, 2);
    fmt_dbg!(v, m128x2, bool, 2);
    fmt_dbg!(v, m16x2, bool, 2);
    fmt_dbg!(v, m32x2, bool, 2);
    fmt_dbg!(v, m64x2, bool, 2);
    fmt_dbg!(v, m8x2, bool, 2);
    fmt_dbg!(v, msizex2, bool, 2);
    fmt_int!(v, u128x2, u128, 2);
    fmt_int!(v, u16x2, u16, 2);
    fmt_int!(v, u32x2, u32, 2);
    fmt_int!(v, u64x2, u64, 2);
    fmt_int!(v, u8x2, u8, 2);
    fmt_int!(v, usizex2, usize, 2);
    fmt_dbg!(v, f32x4, f32, 4);
    fmt_dbg!(v, f64x4, f64, 4);
    fmt_int!(v, i128x4, i128, 4);
    fmt_int!(v, i16x4, i16, 4);
    fmt_int!(v, i32x4, i32, 4);
    fmt_int!(v, i64x4, i64, 4);
    fmt_int!(v, i8x4, i8, 4);
    fmt_int!(v, isizex4, isize, 4);
    fmt_dbg!(v, m128x4, bool, 4);
    fmt_dbg!(v, m16x4, bool, 4);
    fmt_dbg!(v, m32x4, bool, 4);
    fmt_dbg!(v, m64x4, bool, 4);
    fmt_dbg!(v, m8x4, bool, 4);
    fmt_dbg!(v, msizex4, bool, 4);
    fmt_int!(v, u128x4, u128, 4);
    fmt_int!(v, u16x4, u16, 4);
    fmt_int!(v, u32x4, u32, 4);
    fmt_int!(v, u64x4, u64, 4);
    fmt_int!(v, u8x4, u8, 4);
    fmt_int!(v, usizex4, usize, 4);
    fmt_dbg!(v, f32x8, f32, 8);
    fmt_dbg!(v, f64x8, f64, 8);
    fmt_int!(v, i16x8, i16, 8);
    fmt_int!(v, i32x8, i32, 8);
    fmt_int!(v, i64x8, i64, 8);
    fmt_int!(v, i8x8, i8, 8);
    fmt_int!(v, isizex8, isize, 8);
    fmt_dbg!(v, m16x8, bool, 8);
    fmt_dbg!(v, m32x8, bool, 8);
    fmt_dbg!(v, m64x8, bool, 8);
    fmt_dbg!(v, m8x8, bool, 8);
    fmt_dbg!(v, msizex8, bool, 8);
    fmt_int!(v, u16x8, u16, 8);
    fmt_int!(v, u32x8, u32, 8);
    fmt_int!(v, u64x8, u64, 8);
    fmt_int!(v, u8x8, u8, 8);
    fmt_int!(v, usizex8, usize, 8);
    fmt_dbg!(v, f32x16, f32, 16);
    fmt_int!(v, i16x16, i16, 16);
    fmt_int!(v, i32x16, i32, 16);
    fmt_int!(v, i8x16, i8, 16);
    fmt_dbg!(v, m16x16, bool, 16);
    fmt_dbg!(v, m32x16, bool, 16);
    fmt_dbg!(v, m8x16, bool, 16);
    fmt_int!(v, u16x16, u16, 16);
    fmt_int!(v, u32x16, u32, 16);
    fmt_int!(v, u8x16, u8, 16);
    fmt_int!(v, i16x32, i16, 32);
    fmt_int!(v, i8x32, i8, 32);
    fmt_dbg!(v, m16x32, bool, 32);
    fmt_dbg!(v, m8x32, bool, 32);
    fmt_int!(v, u16x32, u16, 32);
    fmt_int!(v, u8x32, u8, 32);
    fmt_int!(v, i8x64, i8, 64);
    fmt_dbg!(v, m8x64, bool, 64);
    fmt_int!(v, u8x64, u8, 64);
    fmt_ptr!(v, cptrx2, "cptrx2<u32>", *const u32, 2);
    fmt_ptr!(v, mptrx2, "mptrx2<u32>", *mut u32, 2);
    fmt_ptr!(v, cptrx4, "cptrx4<u32>", *const u32, 4);
    fmt_ptr!(v, mptrx4, "mptrx4<u32>", *mut u32, 4);
    fmt_ptr!(v, cptrx8, "cptrx8<u32>", *const u32, 8);
    fmt_ptr!(v, mptrx8, "mptrx8<u32>", *mut u32, 8);
}
pub fn all_hash(v: &mut Vec<HashTy>) {
    hash_ty!(v, i128x1, i128x1, i128, 1);
    hash_ty!(v, u128x1, u128x1, u128, 1);
    hash_ty!(v, i128x2, i128x2, i128, 2);
    hash_ty!(v, i16x2, i16x2, i16, 2);
    hash_ty!(v, i32x2, i32x2, i32, 2);
    hash_ty!(v, i64x2, i64x2, i64, 2);
    hash_ty!(v, i8x2, i8x2, i8, 2);
    hash_ty!(v, isizex2, isizex2, isize, 2);
    hash_ty!(v, u128x2, u128x2, u128, 2);
    hash_ty!(v, u16x2, u16x2, u16, 2);
    hash_ty!(v, u32x2, u32x2, u32, 2);
    hash_ty!(v, u64x2, u64x2, u64, 2);
    hash_ty!(v, u8x2, u8x2, u8, 2);
    hash_ty!(v, usizex2, usizex2, usize, 2);
    hash_ty!(v, i128x4, i128x4, i128, 4);
    hash_ty!(v, i16x4, i16x4, i16, 4);
    hash_ty!(v, i32x4, i32x4, i32, 4);
    hash_ty!(v, i64x4, i64x4, i64, 4);
    hash_ty!(v, i8x4, i8x4, i8, 4);
    hash_ty!(v, isizex4, isizex4, isize, 4);
    hash_ty!(v, u128x4, u128x4, u128, 4);
    hash_ty!(v, u16x4, u16x4, u16, 4);
    hash_ty!(v, u32x4, u32x4, u32, 4);
    hash_ty!(v, u64x4, u64x4, u64, 4);
    hash_ty!(v, u8x4, u8x4, u8, 4);
    hash_ty!(v, usizex4, usizex4, usize, 4);
    hash_ty!(v, i16x8, i16x8, i16, 8);
    hash_ty!(v, i32x8, i32x8, i32, 8);
    hash_ty!(v, i64x8, i64x8, i64, 8);
    hash_ty!(v, i8x8, i8x8, i8, 8);
    hash_ty!(v, isizex8, isizex8, isize, 8);
    hash_ty!(v, u16x8, u16x8, u16, 8);
    hash_ty!(v, u32x8, u32x8, u32, 8);
    hash_ty!(v, u64x8, u64x8, u64, 8);
    hash_ty!(v, u8x8, u8x8, u8, 8);
    hash_ty!(v, usizex8, usizex8, usize, 8);
    hash_ty!(v, i16x16, i16x16, i16, 16);
    hash_ty!(v, i32x16, i32x16, i32, 16);
    hash_ty!(v, i8x16, i8x16, i8, 16);
    hash_ty!(v, u16x16, u16x16, u16, 16);
    hash_ty!(v, u32x16, u32x16, u32, 16);
    hash_ty!(v, u8x16, u8x16, u8, 16);
    hash_ty!(v, i16x32, i16x32, i16, 32);
    hash_ty!(v, i8x32, i8x32, i8, 32);
    hash_ty!(v, u16x32, u16x32, u16, 32);
    hash_ty!(v, u8x32, u8x32, u8, 32);
    hash_ty!(v, i8x64, i8x64, i8, 64);
    hash_ty!(v, u8x64, u8x64, u8, 64);
    hash_ty!(v, cptrx2, cptrx2<u32>, usize, 2);
    hash_ty!(v, mptrx2, mptrx2<u32>, usize, 2);
    hash_ty!(v, cptrx4, cptrx4<u32>, usize, 4);
    hash_ty!(v, mptrx4, mptrx4<u32>, usize, 4);
    hash_ty!(v, cptrx8, cptrx8<u32>, usize, 8);
    hash_ty!(v, mptrx8, mptrx8<u32>, usize, 8);
}
pub fn all_fold(v: &mut Vec<FoldTy>) {
    fold_int!(v, i128x1, i128, 1);
    fold_int!(v, u128x1, u128, 1);
    fold_float!(v, f32x2, f32, 2);
    fold_float!(v, f64x2, f64, 2);
    fold_int!(v, i128x2, i128, 2);
    fold_int!(v, i16x2, i16, 2);
    fold_int!(v, i32x2, i32, 2);
    fold_int!(v, i64x2, i64, 2);
    fold_int!(v, i8x2, i8, 2);
    fold_int!(v, isizex2, isize, 2);
    fold_int!(v, u128x2, u128, 2);
    fold_int!(v, u16x2, u16, 2);
    fold_int!(v, u32x2, u32, 2);
    fold_int!(v, u64x2, u64, 2);
    fold_int!(v, u8x2, u8, 2);
    fold_int!(v, usizex2, usize, 2);
    fold_float!(v, f32x4, f32, 4);
    fold_float!(v, f64x4, f64, 4);
    fold_int!(v, i128x4, i128, 4);
    fold_int!(v, i16x4, i16, 4);
    fold_int!(v, i32x4, i32, 4);
    fold_int!(v, i64x4, i64, 4);
    fold_int!(v, i8x4, i8, 4);
    fold_int!(v, isizex4, isize, 4);
    fold_int!(v, u128x4, u128, 4);
    fold_int!(v, u16x4, u16, 4);
    fold_int!(v, u32x4, u32, 4);
    fold_int!(v, u64x4, u64, 4);
    fold_int!(v, u8x4, u8, 4);
    fold_int!(v, usizex4, usize, 4);
    fold_float!(v, f32x8, f32, 8);
    fold_float!(v, f64x8, f64, 8);
    fold_int!(v, i16x8, i16, 8);
    fold_int!(v, i32x8, i32, 8);
    fold_int!(v, i64x8, i64, 8);
    fold_int!(v, i8x8, i8, 8);
    fold_int!(v, isizex8, isize, 8);
    fold_int!(v, u16x8, u16, 8);
    fold_int!(v, u32x8, u32, 8);
    fold_int!(v, u64x8, u64, 8);
    fold_int!(v, u8x8, u8, 8);
    fold_int!(v, usizex8, usize, 8);
    fold_float!(v, f32x16, f32, 16);
    fold_int!(v, i16x16, i16, 16);
    fold_int!(v, i32x16, i32, 16);
    fold_int!(v, i8x16, i8, 16);
    fold_int!(v, u16x16, u16, 16);
    fold_int!(v, u32x16, u32, 16);
    fold_int!(v, u8x16, u8, 16);
    fold_int!(v, i16x32, i16, 32);
    fold_int!(v, i8x32, i8, 32);
    fold_int!(v, u16x32, u16, 32);
    fold_int!(v, u8x32, u8, 32);
    fold_int!(v, i8x64, i8, 64);
    fold_int!(v, u8x64, u8, 64);
}
