// GENERATED by tools/gen_harness.py: uniform word-level entry points to the public API of directx_math.
#![allow(unused_variables, non_snake_case, non_upper_case_globals, unused_mut, unused_unsafe, unused_parens, clippy::all)]
use directx_math::*;
use directx_math::collision::*;

#[inline(always)] unsafe fn ld<T: Copy>(p: *const u32) -> T { (p as *const T).read_unaligned() }
#[inline(always)] unsafe fn st<T: Copy>(p: *mut u32, v: T) { (p as *mut T).write_unaligned(v) }

// An iterator over points of which nothing is known but that it is a sequence: the symbolic executor leaves both the
// length and the elements open (xmv_next is not stepped into); natively it yields the given
// points, repeating the first 31 in sequences of more than 32 (the last element is the 32nd point then).
static mut PTS: *const XMFLOAT3 = std::ptr::null();
static mut NPTS: usize = 0;
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn xmv_next(i: usize) -> *const XMFLOAT3 {
    if i >= NPTS { return std::ptr::null(); }
    PTS.add(if NPTS <= 32 { i } else if i + 1 == NPTS { 31 } else { i % 31 })
}
#[derive(Clone)] pub struct AnyIter(usize);
impl Iterator for AnyIter {
    type Item = &'static XMFLOAT3;
    fn next(&mut self) -> Option<&'static XMFLOAT3> {
        let p = unsafe { xmv_next(self.0) };
        if p.is_null() { return None; }
        self.0 = self.0.wrapping_add(1);
        Some(unsafe { &*p })
    }
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorZero(i: *const u32, o: *mut u32) {
    let r = XMVectorZero();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSet(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMVectorSet(a0, a1, a2, a3);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetInt(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let a1 = *i.add(1);
    let a2 = *i.add(2);
    let a3 = *i.add(3);
    let r = XMVectorSetInt(a0, a1, a2, a3);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReplicate(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMVectorReplicate(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReplicatePtr(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMVectorReplicatePtr(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReplicateInt(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMVectorReplicateInt(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorTrueInt(i: *const u32, o: *mut u32) {
    let r = XMVectorTrueInt();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorFalseInt(i: *const u32, o: *mut u32) {
    let r = XMVectorFalseInt();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSplatX(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSplatY(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSplatZ(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSplatW(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatOne(i: *const u32, o: *mut u32) {
    let r = XMVectorSplatOne();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatInfinity(i: *const u32, o: *mut u32) {
    let r = XMVectorSplatInfinity();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatQNaN(i: *const u32, o: *mut u32) {
    let r = XMVectorSplatQNaN();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatEpsilon(i: *const u32, o: *mut u32) {
    let r = XMVectorSplatEpsilon();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatSignMask(i: *const u32, o: *mut u32) {
    let r = XMVectorSplatSignMask();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetByIndex(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4) as usize;
    let r = XMVectorGetByIndex(a0, a1);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetX(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetY(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetZ(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetW(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetXPtr(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(1));
    XMVectorGetXPtr(&mut a0, a1);
    *o.add(0) = a0.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetYPtr(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(1));
    XMVectorGetYPtr(&mut a0, a1);
    *o.add(0) = a0.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetZPtr(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(1));
    XMVectorGetZPtr(&mut a0, a1);
    *o.add(0) = a0.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetWPtr(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(1));
    XMVectorGetWPtr(&mut a0, a1);
    *o.add(0) = a0.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetIntByIndex(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4) as usize;
    let r = XMVectorGetIntByIndex(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetIntX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetIntX(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetIntY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetIntY(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetIntZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetIntZ(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGetIntW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorGetIntW(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetByIndex(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = *i.add(5) as usize;
    let r = XMVectorSetByIndex(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMVectorSetX(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMVectorSetY(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMVectorSetZ(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMVectorSetW(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetIntByIndex(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let a2 = *i.add(5) as usize;
    let r = XMVectorSetIntByIndex(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetIntX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMVectorSetIntX(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetIntY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMVectorSetIntY(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetIntZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMVectorSetIntZ(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetIntW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMVectorSetIntW(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSwizzle(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let a2 = *i.add(5);
    let a3 = *i.add(6);
    let a4 = *i.add(7);
    let r = XMVectorSwizzle(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorPermute(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = *i.add(8);
    let a3 = *i.add(9);
    let a4 = *i.add(10);
    let a5 = *i.add(11);
    let r = XMVectorPermute(a0, a1, a2, a3, a4, a5);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSelectControl(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let a1 = *i.add(1);
    let a2 = *i.add(2);
    let a3 = *i.add(3);
    let r = XMVectorSelectControl(a0, a1, a2, a3);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSelect(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVectorSelect(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMergeXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorMergeXY(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMergeZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorMergeZW(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorShiftLeft(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = *i.add(8);
    let r = XMVectorShiftLeft(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorRotateLeft(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMVectorRotateLeft(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorRotateRight(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMVectorRotateRight(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorInsert(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = *i.add(8);
    let a3 = *i.add(9);
    let a4 = *i.add(10);
    let a5 = *i.add(11);
    let a6 = *i.add(12);
    let r = XMVectorInsert(a0, a1, a2, a3, a4, a5, a6);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorEqual(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorEqualR(i: *const u32, o: *mut u32) {
    let mut a0 = *i.add(0);
    let a1 = ld::<XMVECTOR>(i.add(1));
    let a2 = ld::<XMVECTOR>(i.add(5));
    let r = XMVectorEqualR(&mut a0, a1, a2);
    st::<XMVECTOR>(o, r);
    *o.add(4) = a0;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorEqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorEqualInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorEqualIntR(i: *const u32, o: *mut u32) {
    let mut a0 = *i.add(0);
    let a1 = ld::<XMVECTOR>(i.add(1));
    let a2 = ld::<XMVECTOR>(i.add(5));
    let r = XMVectorEqualIntR(&mut a0, a1, a2);
    st::<XMVECTOR>(o, r);
    *o.add(4) = a0;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorNearEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVectorNearEqual(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorNotEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorNotEqual(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorNotEqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorNotEqualInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGreater(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorGreater(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGreaterR(i: *const u32, o: *mut u32) {
    let mut a0 = *i.add(0);
    let a1 = ld::<XMVECTOR>(i.add(1));
    let a2 = ld::<XMVECTOR>(i.add(5));
    let r = XMVectorGreaterR(&mut a0, a1, a2);
    st::<XMVECTOR>(o, r);
    *o.add(4) = a0;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGreaterOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorGreaterOrEqual(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorGreaterOrEqualR(i: *const u32, o: *mut u32) {
    let mut a0 = *i.add(0);
    let a1 = ld::<XMVECTOR>(i.add(1));
    let a2 = ld::<XMVECTOR>(i.add(5));
    let r = XMVectorGreaterOrEqualR(&mut a0, a1, a2);
    st::<XMVECTOR>(o, r);
    *o.add(4) = a0;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorLess(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorLess(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorLessOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorLessOrEqual(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorInBounds(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorInBounds(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorInBoundsR(i: *const u32, o: *mut u32) {
    let mut a0 = *i.add(0);
    let a1 = ld::<XMVECTOR>(i.add(1));
    let a2 = ld::<XMVECTOR>(i.add(5));
    let r = XMVectorInBoundsR(&mut a0, a1, a2);
    st::<XMVECTOR>(o, r);
    *o.add(4) = a0;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorIsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorIsNaN(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorIsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorIsInfinite(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMin(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorMin(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMax(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorMax(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorRound(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorRound(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorTruncate(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorTruncate(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorFloor(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorFloor(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorCeiling(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorCeiling(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorClamp(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVectorClamp(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSaturate(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSaturate(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorAndInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorAndInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorAndCInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorAndCInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorOrInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorOrInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorNorInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorNorInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorXorInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorXorInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorNegate(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorNegate(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorAdd(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorAdd(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSum(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSum(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorAddAngles(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorAddAngles(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSubtract(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorSubtract(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSubtractAngles(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorSubtractAngles(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMultiply(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorMultiply(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMultiplyAdd(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVectorMultiplyAdd(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorDivide(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorDivide(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorNegativeMultiplySubtract(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVectorNegativeMultiplySubtract(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorScale(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMVectorScale(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReciprocalEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorReciprocalEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReciprocal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorReciprocal(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSqrtEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSqrtEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSqrt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSqrt(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReciprocalSqrtEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorReciprocalSqrtEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorReciprocalSqrt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorReciprocalSqrt(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorExp2(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorExp2(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorExp(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorExp(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorPow(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorPow(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorAbs(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorAbs(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorMod(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorMod(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorModAngles(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorModAngles(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSin(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSin(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorCos(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorCos(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSinCos(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    XMVectorSinCos(&mut a0, &mut a1, a2);
    st::<XMVECTOR>(o.add(0), a0);
    st::<XMVECTOR>(o.add(4), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorTan(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorTan(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSinH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSinH(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorCosH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorCosH(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorTanH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorTanH(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorASin(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorASin(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorACos(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorACos(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorATan(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorATan(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorATan2(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorATan2(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSinEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorSinEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorCosEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorCosEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSinCosEst(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    XMVectorSinCosEst(&mut a0, &mut a1, a2);
    st::<XMVECTOR>(o.add(0), a0);
    st::<XMVECTOR>(o.add(4), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorTanEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorTanEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorASinEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorASinEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorACosEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorACosEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorATanEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVectorATanEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorATan2Est(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVectorATan2Est(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorLerp(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let r = XMVectorLerp(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorLerpV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVectorLerpV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorHermite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = f32::from_bits(*i.add(16));
    let r = XMVectorHermite(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorHermiteV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let r = XMVectorHermiteV(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorCatmullRom(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = f32::from_bits(*i.add(16));
    let r = XMVectorCatmullRom(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorCatmullRomV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let r = XMVectorCatmullRomV(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorBaryCentric(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = f32::from_bits(*i.add(12));
    let a4 = f32::from_bits(*i.add(13));
    let r = XMVectorBaryCentric(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorBaryCentricV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let r = XMVectorBaryCentricV(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Equal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2Equal(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2EqualR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2EqualR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2EqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2EqualInt(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2EqualIntR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2EqualIntR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2NearEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector2NearEqual(a0, a1, a2);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2NotEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2NotEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2NotEqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2NotEqualInt(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Greater(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2Greater(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2GreaterR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2GreaterR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2GreaterOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2GreaterOrEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2GreaterOrEqualR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2GreaterOrEqualR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Less(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2Less(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2LessOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2LessOrEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2InBounds(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2InBounds(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2IsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2IsNaN(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2IsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2IsInfinite(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Dot(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2Dot(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Cross(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2Cross(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2LengthSq(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2LengthSq(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2ReciprocalLengthEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2ReciprocalLengthEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2ReciprocalLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2ReciprocalLength(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2LengthEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2LengthEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Length(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2Length(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2NormalizeEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2NormalizeEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Normalize(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2Normalize(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2ClampLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = f32::from_bits(*i.add(5));
    let r = XMVector2ClampLength(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2ClampLengthV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector2ClampLengthV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Reflect(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2Reflect(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Refract(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let r = XMVector2Refract(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2RefractV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector2RefractV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Orthogonal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector2Orthogonal(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2AngleBetweenNormalsEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2AngleBetweenNormalsEst(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2AngleBetweenNormals(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2AngleBetweenNormals(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2AngleBetweenVectors(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector2AngleBetweenVectors(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2LinePointDistance(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector2LinePointDistance(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2IntersectLine(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let r = XMVector2IntersectLine(a0, a1, a2, a3);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2Transform(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector2Transform(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2TransformCoord(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector2TransformCoord(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector2TransformNormal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector2TransformNormal(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Equal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Equal(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3EqualR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3EqualR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3EqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3EqualInt(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3EqualIntR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3EqualIntR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3NearEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector3NearEqual(a0, a1, a2);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3NotEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3NotEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3NotEqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3NotEqualInt(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Greater(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Greater(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3GreaterR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3GreaterR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3GreaterOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3GreaterOrEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3GreaterOrEqualR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3GreaterOrEqualR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Less(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Less(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3LessOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3LessOrEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3InBounds(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3InBounds(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3IsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3IsNaN(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3IsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3IsInfinite(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Dot(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Dot(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Cross(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Cross(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3LengthSq(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3LengthSq(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3ReciprocalLengthEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3ReciprocalLengthEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3ReciprocalLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3ReciprocalLength(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3LengthEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3LengthEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Length(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3Length(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3NormalizeEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3NormalizeEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Normalize(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3Normalize(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3ClampLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = f32::from_bits(*i.add(5));
    let r = XMVector3ClampLength(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3ClampLengthV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector3ClampLengthV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Reflect(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Reflect(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Refract(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let r = XMVector3Refract(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3RefractV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector3RefractV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Orthogonal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector3Orthogonal(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3AngleBetweenNormalsEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3AngleBetweenNormalsEst(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3AngleBetweenNormals(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3AngleBetweenNormals(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3AngleBetweenVectors(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3AngleBetweenVectors(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3LinePointDistance(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector3LinePointDistance(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3ComponentsFromNormal(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    XMVector3ComponentsFromNormal(&mut a0, &mut a1, a2, a3);
    st::<XMVECTOR>(o.add(0), a0);
    st::<XMVECTOR>(o.add(4), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Rotate(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3Rotate(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3InverseRotate(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector3InverseRotate(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Transform(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector3Transform(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3TransformCoord(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector3TransformCoord(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3TransformNormal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector3TransformNormal(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Project(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = f32::from_bits(*i.add(5));
    let a3 = f32::from_bits(*i.add(6));
    let a4 = f32::from_bits(*i.add(7));
    let a5 = f32::from_bits(*i.add(8));
    let a6 = f32::from_bits(*i.add(9));
    let a7 = ld::<XMMATRIX>(i.add(10));
    let a8 = ld::<XMMATRIX>(i.add(26));
    let a9 = ld::<XMMATRIX>(i.add(42));
    let r = XMVector3Project(a0, a1, a2, a3, a4, a5, a6, a7, &a8, &a9);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector3Unproject(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = f32::from_bits(*i.add(5));
    let a3 = f32::from_bits(*i.add(6));
    let a4 = f32::from_bits(*i.add(7));
    let a5 = f32::from_bits(*i.add(8));
    let a6 = f32::from_bits(*i.add(9));
    let a7 = ld::<XMMATRIX>(i.add(10));
    let a8 = ld::<XMMATRIX>(i.add(26));
    let a9 = ld::<XMMATRIX>(i.add(42));
    let r = XMVector3Unproject(a0, a1, a2, a3, a4, a5, a6, a7, &a8, &a9);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Equal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4Equal(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4EqualR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4EqualR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4EqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4EqualInt(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4EqualIntR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4EqualIntR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4NearEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector4NearEqual(a0, a1, a2);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4NotEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4NotEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4NotEqualInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4NotEqualInt(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Greater(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4Greater(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4GreaterR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4GreaterR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4GreaterOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4GreaterOrEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4GreaterOrEqualR(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4GreaterOrEqualR(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Less(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4Less(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4LessOrEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4LessOrEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4InBounds(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4InBounds(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4IsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4IsNaN(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4IsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4IsInfinite(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Dot(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4Dot(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Cross(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector4Cross(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4LengthSq(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4LengthSq(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4ReciprocalLengthEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4ReciprocalLengthEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4ReciprocalLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4ReciprocalLength(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4LengthEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4LengthEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Length(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4Length(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4NormalizeEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4NormalizeEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Normalize(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4Normalize(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4ClampLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = f32::from_bits(*i.add(5));
    let r = XMVector4ClampLength(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4ClampLengthV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector4ClampLengthV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Reflect(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4Reflect(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Refract(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let r = XMVector4Refract(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4RefractV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMVector4RefractV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Orthogonal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMVector4Orthogonal(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4AngleBetweenNormalsEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4AngleBetweenNormalsEst(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4AngleBetweenNormals(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4AngleBetweenNormals(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4AngleBetweenVectors(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector4AngleBetweenVectors(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector4Transform(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMVector4Transform(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixIsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMMatrixIsNaN(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixIsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMMatrixIsInfinite(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixIsIdentity(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMMatrixIsIdentity(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixMultiply(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = XMMatrixMultiply(a0, &a1);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixMultiplyTranspose(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = XMMatrixMultiplyTranspose(a0, &a1);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixTranspose(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMMatrixTranspose(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixInverse(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMMatrixInverse(Some(&mut a0), a1);
    st::<XMMATRIX>(o, r);
    st::<XMVECTOR>(o.add(16), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixVectorTensorProduct(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMMatrixVectorTensorProduct(a0, a1);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixDeterminant(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMMatrixDeterminant(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixDecompose(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(4));
    let mut a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMMATRIX>(i.add(12));
    let r = XMMatrixDecompose(&mut a0, &mut a1, &mut a2, a3);
    *o.add(0) = r as u32;
    st::<XMVECTOR>(o.add(1), a0);
    st::<XMVECTOR>(o.add(5), a1);
    st::<XMVECTOR>(o.add(9), a2);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixIdentity(i: *const u32, o: *mut u32) {
    let r = XMMatrixIdentity();
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixSet(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let a4 = f32::from_bits(*i.add(4));
    let a5 = f32::from_bits(*i.add(5));
    let a6 = f32::from_bits(*i.add(6));
    let a7 = f32::from_bits(*i.add(7));
    let a8 = f32::from_bits(*i.add(8));
    let a9 = f32::from_bits(*i.add(9));
    let a10 = f32::from_bits(*i.add(10));
    let a11 = f32::from_bits(*i.add(11));
    let a12 = f32::from_bits(*i.add(12));
    let a13 = f32::from_bits(*i.add(13));
    let a14 = f32::from_bits(*i.add(14));
    let a15 = f32::from_bits(*i.add(15));
    let r = XMMatrixSet(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixTranslation(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let r = XMMatrixTranslation(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixTranslationFromVector(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMMatrixTranslationFromVector(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixScaling(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let r = XMMatrixScaling(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixScalingFromVector(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMMatrixScalingFromVector(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationX(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMMatrixRotationX(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationY(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMMatrixRotationY(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationZ(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMMatrixRotationZ(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationRollPitchYaw(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let r = XMMatrixRotationRollPitchYaw(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationRollPitchYawFromVector(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMMatrixRotationRollPitchYawFromVector(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationNormal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMMatrixRotationNormal(a0, a1);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationAxis(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMMatrixRotationAxis(a0, a1);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixRotationQuaternion(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMMatrixRotationQuaternion(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixTransformation2D(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(5));
    let a3 = ld::<XMVECTOR>(i.add(9));
    let a4 = f32::from_bits(*i.add(13));
    let a5 = ld::<XMVECTOR>(i.add(14));
    let r = XMMatrixTransformation2D(a0, a1, a2, a3, a4, a5);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixTransformation(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let a5 = ld::<XMVECTOR>(i.add(20));
    let r = XMMatrixTransformation(a0, a1, a2, a3, a4, a5);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixAffineTransformation2D(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(9));
    let r = XMMatrixAffineTransformation2D(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixAffineTransformation(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let r = XMMatrixAffineTransformation(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixReflect(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMMatrixReflect(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixShadow(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMMatrixShadow(a0, a1);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixLookAtLH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMMatrixLookAtLH(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixLookAtRH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMMatrixLookAtRH(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixLookToLH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMMatrixLookToLH(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixLookToRH(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMMatrixLookToRH(a0, a1, a2);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixPerspectiveLH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMMatrixPerspectiveLH(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixPerspectiveRH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMMatrixPerspectiveRH(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixPerspectiveFovLH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMMatrixPerspectiveFovLH(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixPerspectiveFovRH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMMatrixPerspectiveFovRH(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixPerspectiveOffCenterLH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let a4 = f32::from_bits(*i.add(4));
    let a5 = f32::from_bits(*i.add(5));
    let r = XMMatrixPerspectiveOffCenterLH(a0, a1, a2, a3, a4, a5);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixPerspectiveOffCenterRH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let a4 = f32::from_bits(*i.add(4));
    let a5 = f32::from_bits(*i.add(5));
    let r = XMMatrixPerspectiveOffCenterRH(a0, a1, a2, a3, a4, a5);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixOrthographicLH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMMatrixOrthographicLH(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixOrthographicRH(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMMatrixOrthographicRH(a0, a1, a2, a3);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMQuaternionEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionNotEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMQuaternionNotEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionIsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionIsNaN(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionIsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionIsInfinite(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionIsIdentity(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionIsIdentity(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionDot(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMQuaternionDot(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionMultiply(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMQuaternionMultiply(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionLengthSq(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionLengthSq(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionReciprocalLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionReciprocalLength(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionLength(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionLength(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionNormalizeEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionNormalizeEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionNormalize(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionNormalize(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionConjugate(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionConjugate(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionInverse(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionInverse(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionLn(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionLn(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionExp(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionExp(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionSlerp(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let r = XMQuaternionSlerp(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionSlerpV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMQuaternionSlerpV(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionSquad(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = f32::from_bits(*i.add(16));
    let r = XMQuaternionSquad(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionSquadV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let r = XMQuaternionSquadV(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionSquadSetup(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(4));
    let mut a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let a5 = ld::<XMVECTOR>(i.add(20));
    let a6 = ld::<XMVECTOR>(i.add(24));
    XMQuaternionSquadSetup(&mut a0, &mut a1, &mut a2, a3, a4, a5, a6);
    st::<XMVECTOR>(o.add(0), a0);
    st::<XMVECTOR>(o.add(4), a1);
    st::<XMVECTOR>(o.add(8), a2);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionBaryCentric(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = f32::from_bits(*i.add(12));
    let a4 = f32::from_bits(*i.add(13));
    let r = XMQuaternionBaryCentric(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionBaryCentricV(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let r = XMQuaternionBaryCentricV(a0, a1, a2, a3, a4);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionIdentity(i: *const u32, o: *mut u32) {
    let r = XMQuaternionIdentity();
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionRotationRollPitchYaw(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let r = XMQuaternionRotationRollPitchYaw(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionRotationRollPitchYawFromVector(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMQuaternionRotationRollPitchYawFromVector(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionRotationNormal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMQuaternionRotationNormal(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionRotationAxis(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = XMQuaternionRotationAxis(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionRotationMatrix(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMQuaternionRotationMatrix(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMQuaternionToAxisAngle(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = f32::from_bits(*i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(5));
    XMQuaternionToAxisAngle(&mut a0, &mut a1, a2);
    st::<XMVECTOR>(o.add(0), a0);
    *o.add(4) = a1.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMPlaneEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneNearEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMPlaneNearEqual(a0, a1, a2);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneNotEqual(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMPlaneNotEqual(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneIsNaN(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMPlaneIsNaN(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneIsInfinite(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMPlaneIsInfinite(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneDot(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMPlaneDot(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneDotCoord(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMPlaneDotCoord(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneDotNormal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMPlaneDotNormal(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneNormalizeEst(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMPlaneNormalizeEst(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneNormalize(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = XMPlaneNormalize(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneIntersectLine(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMPlaneIntersectLine(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneIntersectPlane(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMVECTOR>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    XMPlaneIntersectPlane(&mut a0, &mut a1, a2, a3);
    st::<XMVECTOR>(o.add(0), a0);
    st::<XMVECTOR>(o.add(4), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneTransform(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(4));
    let r = XMPlaneTransform(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneFromPointNormal(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMPlaneFromPointNormal(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMPlaneFromPoints(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let r = XMPlaneFromPoints(a0, a1, a2);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFresnelTerm(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMFresnelTerm(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarNearEqual(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let r = XMScalarNearEqual(a0, a1, a2);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarModAngle(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarModAngle(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarSin(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarSin(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarSinEst(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarSinEst(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarCos(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarCos(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarCosEst(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarCosEst(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarSinCos(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let mut a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    XMScalarSinCos(&mut a0, &mut a1, a2);
    *o.add(0) = a0.to_bits();
    *o.add(1) = a1.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarSinCosEst(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let mut a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    XMScalarSinCosEst(&mut a0, &mut a1, a2);
    *o.add(0) = a0.to_bits();
    *o.add(1) = a1.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarASin(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarASin(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarASinEst(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarASinEst(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarACos(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarACos(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMScalarACosEst(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMScalarACosEst(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertVectorIntToFloat(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMConvertVectorIntToFloat(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertVectorFloatToInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMConvertVectorFloatToInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertVectorUIntToFloat(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMConvertVectorUIntToFloat(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertVectorFloatToUInt(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = *i.add(4);
    let r = XMConvertVectorFloatToUInt(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadInt2(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 2]>(i.add(0));
    let r = XMLoadInt2(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat2(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT2>(i.add(0));
    let r = XMLoadFloat2(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadInt3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 3]>(i.add(0));
    let r = XMLoadInt3(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3>(i.add(0));
    let r = XMLoadFloat3(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat3A(i: *const u32, o: *mut u32) {
    let a0 = Align16(ld::<XMFLOAT3>(i.add(0)));
    let r = XMLoadFloat3A(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadInt4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 4]>(i.add(0));
    let r = XMLoadInt4(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = XMLoadFloat4(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat4A(i: *const u32, o: *mut u32) {
    let a0 = Align16(ld::<XMFLOAT4>(i.add(0)));
    let r = XMLoadFloat4A(&a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = XMLoadFloat3x3(&a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = XMLoadFloat4x3(&a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = XMLoadFloat3x4(&a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = XMLoadFloat4x4(&a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMLoadFloat4x4A(i: *const u32, o: *mut u32) {
    let a0 = Align16(ld::<XMFLOAT4X4>(i.add(0)));
    let r = XMLoadFloat4x4A(&a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat(i: *const u32, o: *mut u32) {
    let mut a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(1));
    XMStoreFloat(&mut a0, a1);
    *o.add(0) = a0.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreInt2(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<[u32; 2]>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(2));
    XMStoreInt2(&mut a0, a1);
    st::<[u32; 2]>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat2(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT2>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(2));
    XMStoreFloat2(&mut a0, a1);
    st::<XMFLOAT2>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreInt3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<[u32; 3]>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(3));
    XMStoreInt3(&mut a0, a1);
    st::<[u32; 3]>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT3>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(3));
    XMStoreFloat3(&mut a0, a1);
    st::<XMFLOAT3>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat3A(i: *const u32, o: *mut u32) {
    let mut a0 = Align16(ld::<XMFLOAT3>(i.add(0)));
    let a1 = ld::<XMVECTOR>(i.add(3));
    XMStoreFloat3A(&mut a0, a1);
    st::<XMFLOAT3>(o.add(0), a0.0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreInt4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<[u32; 4]>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    XMStoreInt4(&mut a0, a1);
    st::<[u32; 4]>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT4>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    XMStoreFloat4(&mut a0, a1);
    st::<XMFLOAT4>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat4A(i: *const u32, o: *mut u32) {
    let mut a0 = Align16(ld::<XMFLOAT4>(i.add(0)));
    let a1 = ld::<XMVECTOR>(i.add(4));
    XMStoreFloat4A(&mut a0, a1);
    st::<XMFLOAT4>(o.add(0), a0.0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat3x3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT3X3>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(9));
    XMStoreFloat3x3(&mut a0, a1);
    st::<XMFLOAT3X3>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat4x3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT4X3>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(12));
    XMStoreFloat4x3(&mut a0, a1);
    st::<XMFLOAT4X3>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat3x4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT3X4>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(12));
    XMStoreFloat3x4(&mut a0, a1);
    st::<XMFLOAT3X4>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat4x4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<XMFLOAT4X4>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    XMStoreFloat4x4(&mut a0, a1);
    st::<XMFLOAT4X4>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMStoreFloat4x4A(i: *const u32, o: *mut u32) {
    let mut a0 = Align16(ld::<XMFLOAT4X4>(i.add(0)));
    let a1 = ld::<XMMATRIX>(i.add(16));
    XMStoreFloat4x4A(&mut a0, a1);
    st::<XMFLOAT4X4>(o.add(0), a0.0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertHalfToFloat(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0) as u16;
    let r = XMConvertHalfToFloat(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertFloatToHalf(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMConvertFloatToHalf(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertToRadians(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMConvertToRadians(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMConvertToDegrees(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let r = XMConvertToDegrees(a0);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonAllTrue(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonAllTrue(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonAnyTrue(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonAnyTrue(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonAllFalse(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonAllFalse(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonAnyFalse(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonAnyFalse(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonMixed(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonMixed(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonAllInBounds(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonAllInBounds(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMComparisonAnyOutOfBounds(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let r = XMComparisonAnyOutOfBounds(a0);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSetBinaryConstant(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0);
    let a1 = *i.add(1);
    let a2 = *i.add(2);
    let a3 = *i.add(3);
    let r = XMVectorSetBinaryConstant(a0, a1, a2, a3);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatConstant(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0) as i32;
    let a1 = *i.add(1);
    let r = XMVectorSplatConstant(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVectorSplatConstantInt(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0) as i32;
    let r = XMVectorSplatConstantInt(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrixInverse_None(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = XMMatrixInverse(None, a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMin(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let r = XMMin(a0, a1);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMax(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let r = XMMax(a0, a1);
    *o.add(0) = r.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMin_i32(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0) as i32;
    let a1 = *i.add(1) as i32;
    let r = XMMin(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMax_i32(i: *const u32, o: *mut u32) {
    let a0 = *i.add(0) as i32;
    let a1 = *i.add(1) as i32;
    let r = XMMax(a0, a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_add(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = (XMVector(a0) + XMVector(a1)).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_add_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = { let mut t = XMVector(a0); t += XMVector(a1); t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_sub(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = (XMVector(a0) - XMVector(a1)).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_sub_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = { let mut t = XMVector(a0); t -= XMVector(a1); t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_mul(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = (XMVector(a0) * XMVector(a1)).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_mul_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = { let mut t = XMVector(a0); t *= XMVector(a1); t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_div(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = (XMVector(a0) / XMVector(a1)).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_div_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = { let mut t = XMVector(a0); t /= XMVector(a1); t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_mul_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = (XMVector(a0) * a1).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_f32_mul_XMVector(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(1));
    let r = (a0 * XMVector(a1)).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_mul_assign_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = { let mut t = XMVector(a0); t *= a1; t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_div_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = (XMVector(a0) / a1).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_div_assign_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = f32::from_bits(*i.add(4));
    let r = { let mut t = XMVector(a0); t /= a1; t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_neg(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = (-XMVector(a0)).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_eq(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = XMVector(a0) == XMVector(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_set(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let r = XMVector::set(a0, a1, a2, a3).0;
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_from(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = { let t: [f32; 4] = a0.into(); XMVector::from(&t).0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_deref(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = *XMVector(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVector_deref_mut(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = { let mut t = XMVector(a0); *t = a1; t.0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_add(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = (XMMatrix(a0) + XMMatrix(a1)).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_add_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = { let mut t = XMMatrix(a0); t += XMMatrix(a1); t.0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_sub(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = (XMMatrix(a0) - XMMatrix(a1)).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_sub_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = { let mut t = XMMatrix(a0); t -= XMMatrix(a1); t.0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_mul(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = (XMMatrix(a0) * XMMatrix(a1)).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_mul_assign(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = { let mut t = XMMatrix(a0); t *= XMMatrix(a1); t.0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_mul_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = f32::from_bits(*i.add(16));
    let r = (XMMatrix(a0) * a1).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_f32_mul_XMMatrix(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(1));
    let r = (a0 * XMMatrix(a1)).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_mul_assign_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = f32::from_bits(*i.add(16));
    let r = { let mut t = XMMatrix(a0); t *= a1; t.0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_div_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = f32::from_bits(*i.add(16));
    let r = (XMMatrix(a0) / a1).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_div_assign_f32(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = f32::from_bits(*i.add(16));
    let r = { let mut t = XMMatrix(a0); t /= a1; t.0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_neg(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = (-XMMatrix(a0)).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_eq(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(16));
    let r = XMMatrix(a0) == XMMatrix(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_set(i: *const u32, o: *mut u32) {
    let a0 = f32::from_bits(*i.add(0));
    let a1 = f32::from_bits(*i.add(1));
    let a2 = f32::from_bits(*i.add(2));
    let a3 = f32::from_bits(*i.add(3));
    let a4 = f32::from_bits(*i.add(4));
    let a5 = f32::from_bits(*i.add(5));
    let a6 = f32::from_bits(*i.add(6));
    let a7 = f32::from_bits(*i.add(7));
    let a8 = f32::from_bits(*i.add(8));
    let a9 = f32::from_bits(*i.add(9));
    let a10 = f32::from_bits(*i.add(10));
    let a11 = f32::from_bits(*i.add(11));
    let a12 = f32::from_bits(*i.add(12));
    let a13 = f32::from_bits(*i.add(13));
    let a14 = f32::from_bits(*i.add(14));
    let a15 = f32::from_bits(*i.add(15));
    let r = XMMatrix::set(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15).0;
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_from16(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = { let t: [f32; 16] = a0.into(); XMMatrix::from(&t).0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_from44(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = { let t: [[f32; 4]; 4] = a0.into(); XMMatrix::from(&t).0 };
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_into16(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = { let t: [f32; 16] = XMMatrix(a0).into(); ld::<XMFLOAT4X4>(t.as_ptr() as *const u32) };
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_into44(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = { let t: [[f32; 4]; 4] = XMMatrix(a0).into(); ld::<XMFLOAT4X4>(t.as_ptr() as *const u32) };
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMMatrix_deref(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMMATRIX>(i.add(0));
    let r = *XMMatrix(a0);
    st::<XMMATRIX>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_from_i322(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 2]>(i.add(0));
    let r = XMINT2::from(a0);
    st::<XMINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_into_i322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT2>(i.add(0));
    let r = { let t: [i32; 2] = a0.into(); t };
    st::<[i32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_from_ref_i322(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 2]>(i.add(0));
    let r = *<&XMINT2>::from(&a0);
    st::<XMINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_into_ref_i322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT2>(i.add(0));
    let r = { let t: &[i32; 2] = (&a0).into(); *t };
    st::<[i32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_as_ref_i322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT2>(i.add(0));
    let r = *AsRef::<[i32; 2]>::as_ref(&a0);
    st::<[i32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_as_mut_i322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT2>(i.add(0));
    let a1 = ld::<[i32; 2]>(i.add(2));
    let r = { let mut t = a0; *AsMut::<[i32; 2]>::as_mut(&mut t) = a1; t };
    st::<XMINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT2>(i.add(0));
    let r = [a0.x, a0.y];
    st::<[i32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT2_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 2]>(i.add(0));
    let r = XMINT2::set(a0[0], a0[1]);
    st::<XMINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_from_i323(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 3]>(i.add(0));
    let r = XMINT3::from(a0);
    st::<XMINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_into_i323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT3>(i.add(0));
    let r = { let t: [i32; 3] = a0.into(); t };
    st::<[i32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_from_ref_i323(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 3]>(i.add(0));
    let r = *<&XMINT3>::from(&a0);
    st::<XMINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_into_ref_i323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT3>(i.add(0));
    let r = { let t: &[i32; 3] = (&a0).into(); *t };
    st::<[i32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_as_ref_i323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT3>(i.add(0));
    let r = *AsRef::<[i32; 3]>::as_ref(&a0);
    st::<[i32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_as_mut_i323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT3>(i.add(0));
    let a1 = ld::<[i32; 3]>(i.add(3));
    let r = { let mut t = a0; *AsMut::<[i32; 3]>::as_mut(&mut t) = a1; t };
    st::<XMINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT3>(i.add(0));
    let r = [a0.x, a0.y, a0.z];
    st::<[i32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT3_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 3]>(i.add(0));
    let r = XMINT3::set(a0[0], a0[1], a0[2]);
    st::<XMINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_from_i324(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 4]>(i.add(0));
    let r = XMINT4::from(a0);
    st::<XMINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_into_i324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT4>(i.add(0));
    let r = { let t: [i32; 4] = a0.into(); t };
    st::<[i32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_from_ref_i324(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 4]>(i.add(0));
    let r = *<&XMINT4>::from(&a0);
    st::<XMINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_into_ref_i324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT4>(i.add(0));
    let r = { let t: &[i32; 4] = (&a0).into(); *t };
    st::<[i32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_as_ref_i324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT4>(i.add(0));
    let r = *AsRef::<[i32; 4]>::as_ref(&a0);
    st::<[i32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_as_mut_i324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT4>(i.add(0));
    let a1 = ld::<[i32; 4]>(i.add(4));
    let r = { let mut t = a0; *AsMut::<[i32; 4]>::as_mut(&mut t) = a1; t };
    st::<XMINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMINT4>(i.add(0));
    let r = [a0.x, a0.y, a0.z, a0.w];
    st::<[i32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMINT4_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 4]>(i.add(0));
    let r = XMINT4::set(a0[0], a0[1], a0[2], a0[3]);
    st::<XMINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_from_u322(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 2]>(i.add(0));
    let r = XMUINT2::from(a0);
    st::<XMUINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_into_u322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT2>(i.add(0));
    let r = { let t: [u32; 2] = a0.into(); t };
    st::<[u32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_from_ref_u322(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 2]>(i.add(0));
    let r = *<&XMUINT2>::from(&a0);
    st::<XMUINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_into_ref_u322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT2>(i.add(0));
    let r = { let t: &[u32; 2] = (&a0).into(); *t };
    st::<[u32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_as_ref_u322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT2>(i.add(0));
    let r = *AsRef::<[u32; 2]>::as_ref(&a0);
    st::<[u32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_as_mut_u322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT2>(i.add(0));
    let a1 = ld::<[u32; 2]>(i.add(2));
    let r = { let mut t = a0; *AsMut::<[u32; 2]>::as_mut(&mut t) = a1; t };
    st::<XMUINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT2>(i.add(0));
    let r = [a0.x, a0.y];
    st::<[u32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT2_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 2]>(i.add(0));
    let r = XMUINT2::set(a0[0], a0[1]);
    st::<XMUINT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_from_u323(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 3]>(i.add(0));
    let r = XMUINT3::from(a0);
    st::<XMUINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_into_u323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT3>(i.add(0));
    let r = { let t: [u32; 3] = a0.into(); t };
    st::<[u32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_from_ref_u323(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 3]>(i.add(0));
    let r = *<&XMUINT3>::from(&a0);
    st::<XMUINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_into_ref_u323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT3>(i.add(0));
    let r = { let t: &[u32; 3] = (&a0).into(); *t };
    st::<[u32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_as_ref_u323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT3>(i.add(0));
    let r = *AsRef::<[u32; 3]>::as_ref(&a0);
    st::<[u32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_as_mut_u323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT3>(i.add(0));
    let a1 = ld::<[u32; 3]>(i.add(3));
    let r = { let mut t = a0; *AsMut::<[u32; 3]>::as_mut(&mut t) = a1; t };
    st::<XMUINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT3>(i.add(0));
    let r = [a0.x, a0.y, a0.z];
    st::<[u32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT3_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 3]>(i.add(0));
    let r = XMUINT3::set(a0[0], a0[1], a0[2]);
    st::<XMUINT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_from_u324(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 4]>(i.add(0));
    let r = XMUINT4::from(a0);
    st::<XMUINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_into_u324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT4>(i.add(0));
    let r = { let t: [u32; 4] = a0.into(); t };
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_from_ref_u324(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 4]>(i.add(0));
    let r = *<&XMUINT4>::from(&a0);
    st::<XMUINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_into_ref_u324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT4>(i.add(0));
    let r = { let t: &[u32; 4] = (&a0).into(); *t };
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_as_ref_u324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT4>(i.add(0));
    let r = *AsRef::<[u32; 4]>::as_ref(&a0);
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_as_mut_u324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT4>(i.add(0));
    let a1 = ld::<[u32; 4]>(i.add(4));
    let r = { let mut t = a0; *AsMut::<[u32; 4]>::as_mut(&mut t) = a1; t };
    st::<XMUINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMUINT4>(i.add(0));
    let r = [a0.x, a0.y, a0.z, a0.w];
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMUINT4_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 4]>(i.add(0));
    let r = XMUINT4::set(a0[0], a0[1], a0[2], a0[3]);
    st::<XMUINT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_from_f322(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 2]>(i.add(0));
    let r = XMFLOAT2::from(a0);
    st::<XMFLOAT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_into_f322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT2>(i.add(0));
    let r = { let t: [f32; 2] = a0.into(); t };
    st::<[f32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_from_ref_f322(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 2]>(i.add(0));
    let r = *<&XMFLOAT2>::from(&a0);
    st::<XMFLOAT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_into_ref_f322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT2>(i.add(0));
    let r = { let t: &[f32; 2] = (&a0).into(); *t };
    st::<[f32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_as_ref_f322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT2>(i.add(0));
    let r = *AsRef::<[f32; 2]>::as_ref(&a0);
    st::<[f32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_as_mut_f322(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT2>(i.add(0));
    let a1 = ld::<[f32; 2]>(i.add(2));
    let r = { let mut t = a0; *AsMut::<[f32; 2]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT2>(i.add(0));
    let r = [a0.x, a0.y];
    st::<[f32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT2_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 2]>(i.add(0));
    let r = XMFLOAT2::set(a0[0], a0[1]);
    st::<XMFLOAT2>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_from_f323(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 3]>(i.add(0));
    let r = XMFLOAT3::from(a0);
    st::<XMFLOAT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_into_f323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3>(i.add(0));
    let r = { let t: [f32; 3] = a0.into(); t };
    st::<[f32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_from_ref_f323(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 3]>(i.add(0));
    let r = *<&XMFLOAT3>::from(&a0);
    st::<XMFLOAT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_into_ref_f323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3>(i.add(0));
    let r = { let t: &[f32; 3] = (&a0).into(); *t };
    st::<[f32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_as_ref_f323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3>(i.add(0));
    let r = *AsRef::<[f32; 3]>::as_ref(&a0);
    st::<[f32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_as_mut_f323(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3>(i.add(0));
    let a1 = ld::<[f32; 3]>(i.add(3));
    let r = { let mut t = a0; *AsMut::<[f32; 3]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3>(i.add(0));
    let r = [a0.x, a0.y, a0.z];
    st::<[f32; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 3]>(i.add(0));
    let r = XMFLOAT3::set(a0[0], a0[1], a0[2]);
    st::<XMFLOAT3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_from_f324(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 4]>(i.add(0));
    let r = XMFLOAT4::from(a0);
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_into_f324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = { let t: [f32; 4] = a0.into(); t };
    st::<[f32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_from_ref_f324(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 4]>(i.add(0));
    let r = *<&XMFLOAT4>::from(&a0);
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_into_ref_f324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = { let t: &[f32; 4] = (&a0).into(); *t };
    st::<[f32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_as_ref_f324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = *AsRef::<[f32; 4]>::as_ref(&a0);
    st::<[f32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_as_mut_f324(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let a1 = ld::<[f32; 4]>(i.add(4));
    let r = { let mut t = a0; *AsMut::<[f32; 4]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_fields(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = [a0.x, a0.y, a0.z, a0.w];
    st::<[f32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4_set(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 4]>(i.add(0));
    let r = XMFLOAT4::set(a0[0], a0[1], a0[2], a0[3]);
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_from_f32_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 3]; 3]>(i.add(0));
    let r = XMFLOAT3X3::from(a0);
    st::<XMFLOAT3X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_into_f32_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = { let t: [[f32; 3]; 3] = a0.into(); t };
    st::<[[f32; 3]; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_from_ref_f32_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 3]; 3]>(i.add(0));
    let r = *<&XMFLOAT3X3>::from(&a0);
    st::<XMFLOAT3X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_into_ref_f32_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = { let t: &[[f32; 3]; 3] = (&a0).into(); *t };
    st::<[[f32; 3]; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_as_ref_f32_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = *AsRef::<[[f32; 3]; 3]>::as_ref(&a0);
    st::<[[f32; 3]; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_as_mut_f32_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let a1 = ld::<[[f32; 3]; 3]>(i.add(9));
    let r = { let mut t = a0; *AsMut::<[[f32; 3]; 3]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT3X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_from_f32_9_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 9]>(i.add(0));
    let r = XMFLOAT3X3::from(a0);
    st::<XMFLOAT3X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_into_f32_9_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = { let t: [f32; 9] = a0.into(); t };
    st::<[f32; 9]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_from_ref_f32_9_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 9]>(i.add(0));
    let r = *<&XMFLOAT3X3>::from(&a0);
    st::<XMFLOAT3X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_into_ref_f32_9_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = { let t: &[f32; 9] = (&a0).into(); *t };
    st::<[f32; 9]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_as_ref_f32_9_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let r = *AsRef::<[f32; 9]>::as_ref(&a0);
    st::<[f32; 9]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X3_as_mut_f32_9_3x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X3>(i.add(0));
    let a1 = ld::<[f32; 9]>(i.add(9));
    let r = { let mut t = a0; *AsMut::<[f32; 9]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT3X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_from_f32_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 3]; 4]>(i.add(0));
    let r = XMFLOAT4X3::from(a0);
    st::<XMFLOAT4X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_into_f32_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = { let t: [[f32; 3]; 4] = a0.into(); t };
    st::<[[f32; 3]; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_from_ref_f32_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 3]; 4]>(i.add(0));
    let r = *<&XMFLOAT4X3>::from(&a0);
    st::<XMFLOAT4X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_into_ref_f32_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = { let t: &[[f32; 3]; 4] = (&a0).into(); *t };
    st::<[[f32; 3]; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_as_ref_f32_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = *AsRef::<[[f32; 3]; 4]>::as_ref(&a0);
    st::<[[f32; 3]; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_as_mut_f32_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let a1 = ld::<[[f32; 3]; 4]>(i.add(12));
    let r = { let mut t = a0; *AsMut::<[[f32; 3]; 4]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT4X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_from_f32_12_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 12]>(i.add(0));
    let r = XMFLOAT4X3::from(a0);
    st::<XMFLOAT4X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_into_f32_12_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = { let t: [f32; 12] = a0.into(); t };
    st::<[f32; 12]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_from_ref_f32_12_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 12]>(i.add(0));
    let r = *<&XMFLOAT4X3>::from(&a0);
    st::<XMFLOAT4X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_into_ref_f32_12_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = { let t: &[f32; 12] = (&a0).into(); *t };
    st::<[f32; 12]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_as_ref_f32_12_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let r = *AsRef::<[f32; 12]>::as_ref(&a0);
    st::<[f32; 12]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X3_as_mut_f32_12_4x3(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X3>(i.add(0));
    let a1 = ld::<[f32; 12]>(i.add(12));
    let r = { let mut t = a0; *AsMut::<[f32; 12]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT4X3>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_from_f32_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 4]; 3]>(i.add(0));
    let r = XMFLOAT3X4::from(a0);
    st::<XMFLOAT3X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_into_f32_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = { let t: [[f32; 4]; 3] = a0.into(); t };
    st::<[[f32; 4]; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_from_ref_f32_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 4]; 3]>(i.add(0));
    let r = *<&XMFLOAT3X4>::from(&a0);
    st::<XMFLOAT3X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_into_ref_f32_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = { let t: &[[f32; 4]; 3] = (&a0).into(); *t };
    st::<[[f32; 4]; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_as_ref_f32_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = *AsRef::<[[f32; 4]; 3]>::as_ref(&a0);
    st::<[[f32; 4]; 3]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_as_mut_f32_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let a1 = ld::<[[f32; 4]; 3]>(i.add(12));
    let r = { let mut t = a0; *AsMut::<[[f32; 4]; 3]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT3X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_from_f32_12_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 12]>(i.add(0));
    let r = XMFLOAT3X4::from(a0);
    st::<XMFLOAT3X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_into_f32_12_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = { let t: [f32; 12] = a0.into(); t };
    st::<[f32; 12]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_from_ref_f32_12_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 12]>(i.add(0));
    let r = *<&XMFLOAT3X4>::from(&a0);
    st::<XMFLOAT3X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_into_ref_f32_12_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = { let t: &[f32; 12] = (&a0).into(); *t };
    st::<[f32; 12]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_as_ref_f32_12_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let r = *AsRef::<[f32; 12]>::as_ref(&a0);
    st::<[f32; 12]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT3X4_as_mut_f32_12_3x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT3X4>(i.add(0));
    let a1 = ld::<[f32; 12]>(i.add(12));
    let r = { let mut t = a0; *AsMut::<[f32; 12]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT3X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_from_f32_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 4]; 4]>(i.add(0));
    let r = XMFLOAT4X4::from(a0);
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_into_f32_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = { let t: [[f32; 4]; 4] = a0.into(); t };
    st::<[[f32; 4]; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_from_ref_f32_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[[f32; 4]; 4]>(i.add(0));
    let r = *<&XMFLOAT4X4>::from(&a0);
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_into_ref_f32_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = { let t: &[[f32; 4]; 4] = (&a0).into(); *t };
    st::<[[f32; 4]; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_as_ref_f32_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = *AsRef::<[[f32; 4]; 4]>::as_ref(&a0);
    st::<[[f32; 4]; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_as_mut_f32_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let a1 = ld::<[[f32; 4]; 4]>(i.add(16));
    let r = { let mut t = a0; *AsMut::<[[f32; 4]; 4]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_from_f32_16_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 16]>(i.add(0));
    let r = XMFLOAT4X4::from(a0);
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_into_f32_16_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = { let t: [f32; 16] = a0.into(); t };
    st::<[f32; 16]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_from_ref_f32_16_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 16]>(i.add(0));
    let r = *<&XMFLOAT4X4>::from(&a0);
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_into_ref_f32_16_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = { let t: &[f32; 16] = (&a0).into(); *t };
    st::<[f32; 16]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_as_ref_f32_16_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let r = *AsRef::<[f32; 16]>::as_ref(&a0);
    st::<[f32; 16]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMFLOAT4X4_as_mut_f32_16_4x4(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4X4>(i.add(0));
    let a1 = ld::<[f32; 16]>(i.add(16));
    let r = { let mut t = a0; *AsMut::<[f32; 16]>::as_mut(&mut t) = a1; t };
    st::<XMFLOAT4X4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_Align16_deref(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = { let t = Align16::from(a0); *t };
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_Align16_deref_mut(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let a1 = ld::<XMFLOAT4>(i.add(4));
    let r = { let mut t = Align16(a0); *t = a1; t.0 };
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_Align16_as_ref(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let r = { let t = Align16(a0); *AsRef::<XMFLOAT4>::as_ref(&t) };
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_Align16_as_mut(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMFLOAT4>(i.add(0));
    let a1 = ld::<XMFLOAT4>(i.add(4));
    let r = { let mut t = Align16(a0); *AsMut::<XMFLOAT4>::as_mut(&mut t) = a1; t.0 };
    st::<XMFLOAT4>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVECTORF32_deref(i: *const u32, o: *mut u32) {
    let a0 = ld::<[f32; 4]>(i.add(0));
    let r = *XMVECTORF32 { f: a0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVECTORU32_deref(i: *const u32, o: *mut u32) {
    let a0 = ld::<[u32; 4]>(i.add(0));
    let r = *XMVECTORU32 { u: a0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_XMVECTORI32_deref(i: *const u32, o: *mut u32) {
    let a0 = ld::<[i32; 4]>(i.add(0));
    let r = *XMVECTORI32 { i: a0 };
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_pi(i: *const u32, o: *mut u32) {
    let r = [XM_PI, XM_2PI, XM_PIDIV2, XM_PIDIV4];
    st::<[f32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_inv(i: *const u32, o: *mut u32) {
    let r = [XM_1DIVPI, XM_1DIV2PI];
    st::<[f32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_permute0(i: *const u32, o: *mut u32) {
    let r = [XM_PERMUTE_0X, XM_PERMUTE_0Y, XM_PERMUTE_0Z, XM_PERMUTE_0W];
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_permute1(i: *const u32, o: *mut u32) {
    let r = [XM_PERMUTE_1X, XM_PERMUTE_1Y, XM_PERMUTE_1Z, XM_PERMUTE_1W];
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_swizzle(i: *const u32, o: *mut u32) {
    let r = [XM_SWIZZLE_X, XM_SWIZZLE_Y, XM_SWIZZLE_Z, XM_SWIZZLE_W];
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_select(i: *const u32, o: *mut u32) {
    let r = [XM_SELECT_0, XM_SELECT_1];
    st::<[u32; 2]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_CONST_crmask(i: *const u32, o: *mut u32) {
    let r = [XM_CRMASK_CR6, XM_CRMASK_CR6TRUE, XM_CRMASK_CR6FALSE, XM_CRMASK_CR6BOUNDS];
    st::<[u32; 4]>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XXWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XYWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XZWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_XWWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleX, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YXWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YYWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YZWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_YWWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleY, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZXWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZYWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZZWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_ZWWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleZ, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WXWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleX, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WYWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleY, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WZWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleZ, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWXX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleX, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWXY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleX, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWXZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleX, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWXW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleX, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWYX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleY, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWYY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleY, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWYZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleY, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWYW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleY, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWZX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleZ, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWZY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleZ, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWZZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleZ, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWZW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleZ, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWWX(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleW, SwizzleX)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWWY(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleW, SwizzleY)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWWZ(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleW, SwizzleZ)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_SwizzleT_WWWW(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let r = <(SwizzleW, SwizzleW, SwizzleW, SwizzleW)>::XMVectorSwizzle(a0);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X0Y0Z0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute0Y, Permute0Z, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X0Y1X1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute0Y, Permute1X, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X0Y1W0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute0Y, Permute1W, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X0Z1X1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute0Z, Permute1X, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X0W0W1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute0W, Permute0W, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X1X0W1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute1X, Permute0W, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X1X1W1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute1X, Permute1W, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X1Y0Z1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute1Y, Permute0Z, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X1Y1W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute1Y, Permute1W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X1Z0X0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute1Z, Permute0X, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0X1W1Z1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0X, Permute1W, Permute1Z, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0X0W1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0X, Permute0W, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0Y1Y0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0Y, Permute1Y, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0Y1W1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0Y, Permute1W, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0Z0Z0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0Z, Permute0Z, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0W1X0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0W, Permute1X, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0W1Y0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0W, Permute1Y, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y0W1Z0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute0W, Permute1Z, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y1X1Y0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute1X, Permute1Y, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y1Y0X1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute1Y, Permute0X, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y1Y1Y1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute1Y, Permute1Y, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y1Z0Z1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute1Z, Permute0Z, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y1Z0W0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute1Z, Permute0W, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Y1W1Y0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Y, Permute1W, Permute1Y, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0X0X0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0X, Permute0X, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0X0Z1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0X, Permute0Z, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0X1Y1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0X, Permute1Y, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0Y1X0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0Y, Permute1X, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0Y1Y0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0Y, Permute1Y, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0Y1Y1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0Y, Permute1Y, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0Y1W0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0Y, Permute1W, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z0Z1W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute0Z, Permute1W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1Y0Z1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1Y, Permute0Z, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1Z0W0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1Z, Permute0W, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1Z1X1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1Z, Permute1X, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1Z1Z1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1Z, Permute1Z, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1W0W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1W, Permute0W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1W1X0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1W, Permute1X, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1W1Y0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1W, Permute1Y, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1W1Z0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1W, Permute1Z, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0Z1W1Z1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0Z, Permute1W, Permute1Z, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W0X0Y1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute0X, Permute0Y, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W0X1Y0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute0X, Permute1Y, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W0X1W0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute0X, Permute1W, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W0Y0Y1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute0Y, Permute0Y, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W0Y1X1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute0Y, Permute1X, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W0W1Z0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute0W, Permute1Z, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1X0Z0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1X, Permute0Z, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1Y1X1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1Y, Permute1X, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1Y1W1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1Y, Permute1W, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1W0X1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1W, Permute0X, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1W0Z0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1W, Permute0Z, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1W0Z1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1W, Permute0Z, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1W0W1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1W, Permute0W, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_0W1W1Y0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute0W, Permute1W, Permute1Y, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X0Y1Z0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute0Y, Permute1Z, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X0W1W0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute0W, Permute1W, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X1X0X0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute1X, Permute0X, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X1Y1Y1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute1Y, Permute1Y, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X1Y1Z1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute1Y, Permute1Z, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X1W0Y0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute1W, Permute0Y, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X1W1X1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute1W, Permute1X, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1X1W1W0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1X, Permute1W, Permute1W, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0X0Y0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0X, Permute0Y, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0X1W1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0X, Permute1W, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Y0Y1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Y, Permute0Y, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Y0W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Y, Permute0W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Y0W1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Y, Permute0W, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Y1Z1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Y, Permute1Z, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Z0X1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Z, Permute0X, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Z1Z0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Z, Permute1Z, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0Z1W1X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0Z, Permute1W, Permute1X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y0W1Y0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute0W, Permute1Y, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y1X0Y0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute1X, Permute0Y, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y1X0W0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute1X, Permute0W, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y1Z0W0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute1Z, Permute0W, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Y1W1X0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Y, Permute1W, Permute1X, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0X0Y0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0X, Permute0Y, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0X0W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0X, Permute0W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0Y0Z0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0Y, Permute0Z, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0Y0W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0Y, Permute0W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0Y1Z1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0Y, Permute1Z, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0Z0Z0X(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0Z, Permute0Z, Permute0X)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0W0X1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0W, Permute0X, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z0W1Y1Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute0W, Permute1Y, Permute1Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z1Y1Y0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute1Y, Permute1Y, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z1Y1W1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute1Y, Permute1W, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z1Z0Y1W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute1Z, Permute0Y, Permute1W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z1Z1W0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute1Z, Permute1W, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1Z1W0Z0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1Z, Permute1W, Permute0Z, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1W0Z0X0Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1W, Permute0Z, Permute0X, Permute0Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1W0Z0X0W(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1W, Permute0Z, Permute0X, Permute0W)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1W1X0Y1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1W, Permute1X, Permute0Y, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1W1W0X1Z(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1W, Permute1W, Permute0X, Permute1Z)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1W1W0Y0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1W, Permute1W, Permute0Y, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_PermuteT_1W1W1X0Y(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = <(Permute1W, Permute1W, Permute1X, Permute0Y)>::XMVectorPermute(a0, a1);
    st::<XMVECTOR>(o, r);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_TransformMatrix(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let mut a1 = ld::<BoundingSphere>(i.add(4));
    let a2 = ld::<XMMATRIX>(i.add(8));
    a0.TransformMatrix(&mut a1, a2);
    st::<BoundingSphere>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_TransformDecomposed(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let mut a1 = ld::<BoundingSphere>(i.add(4));
    let a2 = f32::from_bits(*i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(9));
    let a4 = ld::<XMVECTOR>(i.add(13));
    a0.TransformDecomposed(&mut a1, a2, a3, a4);
    st::<BoundingSphere>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainsPoint(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = a0.ContainsPoint(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let r = a0.ContainsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(4));
    let r = a0.ContainsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(4));
    let r = a0.IntersectsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(4));
    let r = a0.ContainsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(4));
    let r = a0.IntersectsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(4));
    let r = a0.ContainsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(4));
    let r = a0.IntersectsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(4));
    let r = a0.ContainsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(4));
    let r = a0.IntersectsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let r = a0.IntersectsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsPlane(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let r = a0.IntersectsPlane(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_IntersectsRay(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let mut a3 = f32::from_bits(*i.add(12));
    let r = a0.IntersectsRay(a1, a2, &mut a3);
    *o.add(0) = r as u32;
    *o.add(1) = a3.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_TransformMatrix(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let mut a1 = ld::<BoundingBox>(i.add(6));
    let a2 = ld::<XMMATRIX>(i.add(12));
    a0.TransformMatrix(&mut a1, a2);
    st::<BoundingBox>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_TransformDecomposed(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let mut a1 = ld::<BoundingBox>(i.add(6));
    let a2 = f32::from_bits(*i.add(12));
    let a3 = ld::<XMVECTOR>(i.add(13));
    let a4 = ld::<XMVECTOR>(i.add(17));
    a0.TransformDecomposed(&mut a1, a2, a3, a4);
    st::<BoundingBox>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainsPoint(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(6));
    let r = a0.ContainsPoint(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(6));
    let a2 = ld::<XMVECTOR>(i.add(10));
    let a3 = ld::<XMVECTOR>(i.add(14));
    let r = a0.ContainsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(6));
    let r = a0.ContainsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(6));
    let r = a0.IntersectsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(6));
    let r = a0.ContainsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(6));
    let r = a0.IntersectsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(6));
    let r = a0.ContainsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(6));
    let r = a0.IntersectsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(6));
    let r = a0.ContainsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(6));
    let r = a0.IntersectsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(6));
    let a2 = ld::<XMVECTOR>(i.add(10));
    let a3 = ld::<XMVECTOR>(i.add(14));
    let r = a0.IntersectsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsPlane(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(6));
    let r = a0.IntersectsPlane(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_IntersectsRay(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(6));
    let a2 = ld::<XMVECTOR>(i.add(10));
    let mut a3 = f32::from_bits(*i.add(14));
    let r = a0.IntersectsRay(a1, a2, &mut a3);
    *o.add(0) = r as u32;
    *o.add(1) = a3.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_TransformMatrix(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let mut a1 = ld::<BoundingOrientedBox>(i.add(10));
    let a2 = ld::<XMMATRIX>(i.add(20));
    a0.TransformMatrix(&mut a1, a2);
    st::<BoundingOrientedBox>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_TransformDecomposed(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let mut a1 = ld::<BoundingOrientedBox>(i.add(10));
    let a2 = f32::from_bits(*i.add(20));
    let a3 = ld::<XMVECTOR>(i.add(21));
    let a4 = ld::<XMVECTOR>(i.add(25));
    a0.TransformDecomposed(&mut a1, a2, a3, a4);
    st::<BoundingOrientedBox>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainsPoint(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(10));
    let r = a0.ContainsPoint(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(10));
    let a2 = ld::<XMVECTOR>(i.add(14));
    let a3 = ld::<XMVECTOR>(i.add(18));
    let r = a0.ContainsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(10));
    let r = a0.ContainsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(10));
    let r = a0.IntersectsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(10));
    let r = a0.ContainsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(10));
    let r = a0.IntersectsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(10));
    let r = a0.ContainsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(10));
    let r = a0.IntersectsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(10));
    let r = a0.ContainsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(10));
    let r = a0.IntersectsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(10));
    let a2 = ld::<XMVECTOR>(i.add(14));
    let a3 = ld::<XMVECTOR>(i.add(18));
    let r = a0.IntersectsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsPlane(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(10));
    let r = a0.IntersectsPlane(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_IntersectsRay(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(10));
    let a2 = ld::<XMVECTOR>(i.add(14));
    let mut a3 = f32::from_bits(*i.add(18));
    let r = a0.IntersectsRay(a1, a2, &mut a3);
    *o.add(0) = r as u32;
    *o.add(1) = a3.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_TransformMatrix(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let mut a1 = ld::<BoundingFrustum>(i.add(13));
    let a2 = ld::<XMMATRIX>(i.add(26));
    a0.TransformMatrix(&mut a1, a2);
    st::<BoundingFrustum>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_TransformDecomposed(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let mut a1 = ld::<BoundingFrustum>(i.add(13));
    let a2 = f32::from_bits(*i.add(26));
    let a3 = ld::<XMVECTOR>(i.add(27));
    let a4 = ld::<XMVECTOR>(i.add(31));
    a0.TransformDecomposed(&mut a1, a2, a3, a4);
    st::<BoundingFrustum>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainsPoint(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(13));
    let r = a0.ContainsPoint(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(13));
    let a2 = ld::<XMVECTOR>(i.add(17));
    let a3 = ld::<XMVECTOR>(i.add(21));
    let r = a0.ContainsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(13));
    let r = a0.ContainsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsSphere(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(13));
    let r = a0.IntersectsSphere(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(13));
    let r = a0.ContainsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(13));
    let r = a0.IntersectsBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(13));
    let r = a0.ContainsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsOrientedBox(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(13));
    let r = a0.IntersectsOrientedBox(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(13));
    let r = a0.ContainsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsFrustum(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(13));
    let r = a0.IntersectsFrustum(&a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(13));
    let a2 = ld::<XMVECTOR>(i.add(17));
    let a3 = ld::<XMVECTOR>(i.add(21));
    let r = a0.IntersectsTriangle(a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsPlane(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(13));
    let r = a0.IntersectsPlane(a1);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_IntersectsRay(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(13));
    let a2 = ld::<XMVECTOR>(i.add(17));
    let mut a3 = f32::from_bits(*i.add(21));
    let r = a0.IntersectsRay(a1, a2, &mut a3);
    *o.add(0) = r as u32;
    *o.add(1) = a3.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_ContainedBy(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let a5 = ld::<XMVECTOR>(i.add(20));
    let a6 = ld::<XMVECTOR>(i.add(24));
    let r = a0.ContainedBy(a1, a2, a3, a4, a5, a6);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_ContainedBy(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(6));
    let a2 = ld::<XMVECTOR>(i.add(10));
    let a3 = ld::<XMVECTOR>(i.add(14));
    let a4 = ld::<XMVECTOR>(i.add(18));
    let a5 = ld::<XMVECTOR>(i.add(22));
    let a6 = ld::<XMVECTOR>(i.add(26));
    let r = a0.ContainedBy(a1, a2, a3, a4, a5, a6);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_ContainedBy(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(10));
    let a2 = ld::<XMVECTOR>(i.add(14));
    let a3 = ld::<XMVECTOR>(i.add(18));
    let a4 = ld::<XMVECTOR>(i.add(22));
    let a5 = ld::<XMVECTOR>(i.add(26));
    let a6 = ld::<XMVECTOR>(i.add(30));
    let r = a0.ContainedBy(a1, a2, a3, a4, a5, a6);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_ContainedBy(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(13));
    let a2 = ld::<XMVECTOR>(i.add(17));
    let a3 = ld::<XMVECTOR>(i.add(21));
    let a4 = ld::<XMVECTOR>(i.add(25));
    let a5 = ld::<XMVECTOR>(i.add(29));
    let a6 = ld::<XMVECTOR>(i.add(33));
    let r = a0.ContainedBy(a1, a2, a3, a4, a5, a6);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateMerged(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(4));
    let a2 = ld::<BoundingSphere>(i.add(8));
    BoundingSphere::CreateMerged(&mut a0, &a1, &a2);
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromBoundingBox(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(4));
    BoundingSphere::CreateFromBoundingBox(&mut a0, &a1);
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromBoundingOrientedBox(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingOrientedBox>(i.add(4));
    BoundingSphere::CreateFromBoundingOrientedBox(&mut a0, &a1);
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromFrustum(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<BoundingFrustum>(i.add(4));
    BoundingSphere::CreateFromFrustum(&mut a0, &a1);
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateMerged(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(6));
    let a2 = ld::<BoundingBox>(i.add(12));
    BoundingBox::CreateMerged(&mut a0, &a1, &a2);
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromSphere(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<BoundingSphere>(i.add(6));
    BoundingBox::CreateFromSphere(&mut a0, &a1);
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_GetCorners(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingBox>(i.add(0));
    let mut a1 = ld::<[XMFLOAT3; 8]>(i.add(6));
    a0.GetCorners(&mut a1);
    st::<[XMFLOAT3; 8]>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_GetCorners(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingOrientedBox>(i.add(0));
    let mut a1 = ld::<[XMFLOAT3; 8]>(i.add(10));
    a0.GetCorners(&mut a1);
    st::<[XMFLOAT3; 8]>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_GetCorners(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let mut a1 = ld::<[XMFLOAT3; 8]>(i.add(13));
    a0.GetCorners(&mut a1);
    st::<[XMFLOAT3; 8]>(o.add(0), a1);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromBoundingBox(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<BoundingBox>(i.add(10));
    BoundingOrientedBox::CreateFromBoundingBox(&mut a0, &a1);
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_CreateFromMatrix(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingFrustum>(i.add(0));
    let a1 = ld::<XMMATRIX>(i.add(13));
    let a2 = *i.add(29) != 0;
    BoundingFrustum::CreateFromMatrix(&mut a0, a1, a2);
    st::<BoundingFrustum>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingFrustum_GetPlanes(i: *const u32, o: *mut u32) {
    let a0 = ld::<BoundingFrustum>(i.add(0));
    let mut a1 = ld::<XMVECTOR>(i.add(13));
    let mut a2 = ld::<XMVECTOR>(i.add(17));
    let mut a3 = ld::<XMVECTOR>(i.add(21));
    let mut a4 = ld::<XMVECTOR>(i.add(25));
    let mut a5 = ld::<XMVECTOR>(i.add(29));
    let mut a6 = ld::<XMVECTOR>(i.add(33));
    a0.GetPlanes(Some(&mut a1), Some(&mut a2), Some(&mut a3), Some(&mut a4), Some(&mut a5), Some(&mut a6));
    st::<XMVECTOR>(o.add(0), a1);
    st::<XMVECTOR>(o.add(4), a2);
    st::<XMVECTOR>(o.add(8), a3);
    st::<XMVECTOR>(o.add(12), a4);
    st::<XMVECTOR>(o.add(16), a5);
    st::<XMVECTOR>(o.add(20), a6);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromPoints_1(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 1]>(i.add(4));
    BoundingSphere::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromPoints_1(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 1]>(i.add(6));
    BoundingBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromPoints_1(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 1]>(i.add(10));
    BoundingOrientedBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromPoints_2(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 2]>(i.add(4));
    BoundingSphere::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromPoints_2(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 2]>(i.add(6));
    BoundingBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromPoints_2(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 2]>(i.add(10));
    BoundingOrientedBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromPoints_3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 3]>(i.add(4));
    BoundingSphere::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromPoints_3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 3]>(i.add(6));
    BoundingBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromPoints_3(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 3]>(i.add(10));
    BoundingOrientedBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromPoints_4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 4]>(i.add(4));
    BoundingSphere::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromPoints_4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 4]>(i.add(6));
    BoundingBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromPoints_4(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 4]>(i.add(10));
    BoundingOrientedBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromPoints_6(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 6]>(i.add(4));
    BoundingSphere::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromPoints_6(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 6]>(i.add(6));
    BoundingBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromPoints_6(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 6]>(i.add(10));
    BoundingOrientedBox::CreateFromPoints(&mut a0, a1.iter());
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingSphere_CreateFromPoints_any(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingSphere>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 32]>(i.add(4));
    let a2 = *i.add(100);
    { PTS = a1.as_ptr(); NPTS = if a2 <= 70000 { a2 as usize } else { (a2 % 33) as usize }; BoundingSphere::CreateFromPoints(&mut a0, AnyIter(0)) };
    st::<BoundingSphere>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingBox_CreateFromPoints_any(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 32]>(i.add(6));
    let a2 = *i.add(102);
    { PTS = a1.as_ptr(); NPTS = if a2 <= 70000 { a2 as usize } else { (a2 % 33) as usize }; BoundingBox::CreateFromPoints(&mut a0, AnyIter(0)) };
    st::<BoundingBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_BoundingOrientedBox_CreateFromPoints_any(i: *const u32, o: *mut u32) {
    let mut a0 = ld::<BoundingOrientedBox>(i.add(0));
    let a1 = ld::<[XMFLOAT3; 32]>(i.add(10));
    let a2 = *i.add(106);
    { PTS = a1.as_ptr(); NPTS = if a2 <= 70000 { a2 as usize } else { (a2 % 33) as usize }; BoundingOrientedBox::CreateFromPoints(&mut a0, AnyIter(0)) };
    st::<BoundingOrientedBox>(o.add(0), a0);
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_triangle_IntersectsRay(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let mut a5 = f32::from_bits(*i.add(20));
    let r = triangle_tests::IntersectsRay(a0, a1, a2, a3, a4, &mut a5);
    *o.add(0) = r as u32;
    *o.add(1) = a5.to_bits();
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_triangle_IntersectsTriangle(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let a5 = ld::<XMVECTOR>(i.add(20));
    let r = triangle_tests::IntersectsTriangle(a0, a1, a2, a3, a4, a5);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_triangle_IntersectsPlane(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let r = triangle_tests::IntersectsPlane(a0, a1, a2, a3);
    *o.add(0) = r as u32;
}
#[no_mangle] pub unsafe extern "C-unwind" fn h_triangle_ContainedBy(i: *const u32, o: *mut u32) {
    let a0 = ld::<XMVECTOR>(i.add(0));
    let a1 = ld::<XMVECTOR>(i.add(4));
    let a2 = ld::<XMVECTOR>(i.add(8));
    let a3 = ld::<XMVECTOR>(i.add(12));
    let a4 = ld::<XMVECTOR>(i.add(16));
    let a5 = ld::<XMVECTOR>(i.add(20));
    let a6 = ld::<XMVECTOR>(i.add(24));
    let a7 = ld::<XMVECTOR>(i.add(28));
    let a8 = ld::<XMVECTOR>(i.add(32));
    let r = triangle_tests::ContainedBy(a0, a1, a2, a3, a4, a5, &a6, &a7, &a8);
    *o.add(0) = r as u32;
}
pub static TABLE: &[(&str, unsafe extern "C-unwind" fn(*const u32, *mut u32), usize, usize)] = &[
    ("Align16_as_mut", h_Align16_as_mut, 8, 4),
    ("Align16_as_ref", h_Align16_as_ref, 4, 4),
    ("Align16_deref", h_Align16_deref, 4, 4),
    ("Align16_deref_mut", h_Align16_deref_mut, 8, 4),
    ("BoundingBox_ContainedBy", h_BoundingBox_ContainedBy, 30, 1),
    ("BoundingBox_ContainsBox", h_BoundingBox_ContainsBox, 12, 1),
    ("BoundingBox_ContainsFrustum", h_BoundingBox_ContainsFrustum, 19, 1),
    ("BoundingBox_ContainsOrientedBox", h_BoundingBox_ContainsOrientedBox, 16, 1),
    ("BoundingBox_ContainsPoint", h_BoundingBox_ContainsPoint, 10, 1),
    ("BoundingBox_ContainsSphere", h_BoundingBox_ContainsSphere, 10, 1),
    ("BoundingBox_ContainsTriangle", h_BoundingBox_ContainsTriangle, 18, 1),
    ("BoundingBox_CreateFromPoints_1", h_BoundingBox_CreateFromPoints_1, 9, 6),
    ("BoundingBox_CreateFromPoints_2", h_BoundingBox_CreateFromPoints_2, 12, 6),
    ("BoundingBox_CreateFromPoints_3", h_BoundingBox_CreateFromPoints_3, 15, 6),
    ("BoundingBox_CreateFromPoints_4", h_BoundingBox_CreateFromPoints_4, 18, 6),
    ("BoundingBox_CreateFromPoints_6", h_BoundingBox_CreateFromPoints_6, 24, 6),
    ("BoundingBox_CreateFromPoints_any", h_BoundingBox_CreateFromPoints_any, 103, 6),
    ("BoundingBox_CreateFromSphere", h_BoundingBox_CreateFromSphere, 10, 6),
    ("BoundingBox_CreateMerged", h_BoundingBox_CreateMerged, 18, 6),
    ("BoundingBox_GetCorners", h_BoundingBox_GetCorners, 30, 24),
    ("BoundingBox_IntersectsBox", h_BoundingBox_IntersectsBox, 12, 1),
    ("BoundingBox_IntersectsFrustum", h_BoundingBox_IntersectsFrustum, 19, 1),
    ("BoundingBox_IntersectsOrientedBox", h_BoundingBox_IntersectsOrientedBox, 16, 1),
    ("BoundingBox_IntersectsPlane", h_BoundingBox_IntersectsPlane, 10, 1),
    ("BoundingBox_IntersectsRay", h_BoundingBox_IntersectsRay, 15, 2),
    ("BoundingBox_IntersectsSphere", h_BoundingBox_IntersectsSphere, 10, 1),
    ("BoundingBox_IntersectsTriangle", h_BoundingBox_IntersectsTriangle, 18, 1),
    ("BoundingBox_TransformDecomposed", h_BoundingBox_TransformDecomposed, 21, 6),
    ("BoundingBox_TransformMatrix", h_BoundingBox_TransformMatrix, 28, 6),
    ("BoundingFrustum_ContainedBy", h_BoundingFrustum_ContainedBy, 37, 1),
    ("BoundingFrustum_ContainsBox", h_BoundingFrustum_ContainsBox, 19, 1),
    ("BoundingFrustum_ContainsFrustum", h_BoundingFrustum_ContainsFrustum, 26, 1),
    ("BoundingFrustum_ContainsOrientedBox", h_BoundingFrustum_ContainsOrientedBox, 23, 1),
    ("BoundingFrustum_ContainsPoint", h_BoundingFrustum_ContainsPoint, 17, 1),
    ("BoundingFrustum_ContainsSphere", h_BoundingFrustum_ContainsSphere, 17, 1),
    ("BoundingFrustum_ContainsTriangle", h_BoundingFrustum_ContainsTriangle, 25, 1),
    ("BoundingFrustum_CreateFromMatrix", h_BoundingFrustum_CreateFromMatrix, 30, 13),
    ("BoundingFrustum_GetCorners", h_BoundingFrustum_GetCorners, 37, 24),
    ("BoundingFrustum_GetPlanes", h_BoundingFrustum_GetPlanes, 37, 24),
    ("BoundingFrustum_IntersectsBox", h_BoundingFrustum_IntersectsBox, 19, 1),
    ("BoundingFrustum_IntersectsFrustum", h_BoundingFrustum_IntersectsFrustum, 26, 1),
    ("BoundingFrustum_IntersectsOrientedBox", h_BoundingFrustum_IntersectsOrientedBox, 23, 1),
    ("BoundingFrustum_IntersectsPlane", h_BoundingFrustum_IntersectsPlane, 17, 1),
    ("BoundingFrustum_IntersectsRay", h_BoundingFrustum_IntersectsRay, 22, 2),
    ("BoundingFrustum_IntersectsSphere", h_BoundingFrustum_IntersectsSphere, 17, 1),
    ("BoundingFrustum_IntersectsTriangle", h_BoundingFrustum_IntersectsTriangle, 25, 1),
    ("BoundingFrustum_TransformDecomposed", h_BoundingFrustum_TransformDecomposed, 35, 13),
    ("BoundingFrustum_TransformMatrix", h_BoundingFrustum_TransformMatrix, 42, 13),
    ("BoundingOrientedBox_ContainedBy", h_BoundingOrientedBox_ContainedBy, 34, 1),
    ("BoundingOrientedBox_ContainsBox", h_BoundingOrientedBox_ContainsBox, 16, 1),
    ("BoundingOrientedBox_ContainsFrustum", h_BoundingOrientedBox_ContainsFrustum, 23, 1),
    ("BoundingOrientedBox_ContainsOrientedBox", h_BoundingOrientedBox_ContainsOrientedBox, 20, 1),
    ("BoundingOrientedBox_ContainsPoint", h_BoundingOrientedBox_ContainsPoint, 14, 1),
    ("BoundingOrientedBox_ContainsSphere", h_BoundingOrientedBox_ContainsSphere, 14, 1),
    ("BoundingOrientedBox_ContainsTriangle", h_BoundingOrientedBox_ContainsTriangle, 22, 1),
    ("BoundingOrientedBox_CreateFromBoundingBox", h_BoundingOrientedBox_CreateFromBoundingBox, 16, 10),
    ("BoundingOrientedBox_CreateFromPoints_1", h_BoundingOrientedBox_CreateFromPoints_1, 13, 10),
    ("BoundingOrientedBox_CreateFromPoints_2", h_BoundingOrientedBox_CreateFromPoints_2, 16, 10),
    ("BoundingOrientedBox_CreateFromPoints_3", h_BoundingOrientedBox_CreateFromPoints_3, 19, 10),
    ("BoundingOrientedBox_CreateFromPoints_4", h_BoundingOrientedBox_CreateFromPoints_4, 22, 10),
    ("BoundingOrientedBox_CreateFromPoints_6", h_BoundingOrientedBox_CreateFromPoints_6, 28, 10),
    ("BoundingOrientedBox_CreateFromPoints_any", h_BoundingOrientedBox_CreateFromPoints_any, 107, 10),
    ("BoundingOrientedBox_GetCorners", h_BoundingOrientedBox_GetCorners, 34, 24),
    ("BoundingOrientedBox_IntersectsBox", h_BoundingOrientedBox_IntersectsBox, 16, 1),
    ("BoundingOrientedBox_IntersectsFrustum", h_BoundingOrientedBox_IntersectsFrustum, 23, 1),
    ("BoundingOrientedBox_IntersectsOrientedBox", h_BoundingOrientedBox_IntersectsOrientedBox, 20, 1),
    ("BoundingOrientedBox_IntersectsPlane", h_BoundingOrientedBox_IntersectsPlane, 14, 1),
    ("BoundingOrientedBox_IntersectsRay", h_BoundingOrientedBox_IntersectsRay, 19, 2),
    ("BoundingOrientedBox_IntersectsSphere", h_BoundingOrientedBox_IntersectsSphere, 14, 1),
    ("BoundingOrientedBox_IntersectsTriangle", h_BoundingOrientedBox_IntersectsTriangle, 22, 1),
    ("BoundingOrientedBox_TransformDecomposed", h_BoundingOrientedBox_TransformDecomposed, 29, 10),
    ("BoundingOrientedBox_TransformMatrix", h_BoundingOrientedBox_TransformMatrix, 36, 10),
    ("BoundingSphere_ContainedBy", h_BoundingSphere_ContainedBy, 28, 1),
    ("BoundingSphere_ContainsBox", h_BoundingSphere_ContainsBox, 10, 1),
    ("BoundingSphere_ContainsFrustum", h_BoundingSphere_ContainsFrustum, 17, 1),
    ("BoundingSphere_ContainsOrientedBox", h_BoundingSphere_ContainsOrientedBox, 14, 1),
    ("BoundingSphere_ContainsPoint", h_BoundingSphere_ContainsPoint, 8, 1),
    ("BoundingSphere_ContainsSphere", h_BoundingSphere_ContainsSphere, 8, 1),
    ("BoundingSphere_ContainsTriangle", h_BoundingSphere_ContainsTriangle, 16, 1),
    ("BoundingSphere_CreateFromBoundingBox", h_BoundingSphere_CreateFromBoundingBox, 10, 4),
    ("BoundingSphere_CreateFromBoundingOrientedBox", h_BoundingSphere_CreateFromBoundingOrientedBox, 14, 4),
    ("BoundingSphere_CreateFromFrustum", h_BoundingSphere_CreateFromFrustum, 17, 4),
    ("BoundingSphere_CreateFromPoints_1", h_BoundingSphere_CreateFromPoints_1, 7, 4),
    ("BoundingSphere_CreateFromPoints_2", h_BoundingSphere_CreateFromPoints_2, 10, 4),
    ("BoundingSphere_CreateFromPoints_3", h_BoundingSphere_CreateFromPoints_3, 13, 4),
    ("BoundingSphere_CreateFromPoints_4", h_BoundingSphere_CreateFromPoints_4, 16, 4),
    ("BoundingSphere_CreateFromPoints_6", h_BoundingSphere_CreateFromPoints_6, 22, 4),
    ("BoundingSphere_CreateFromPoints_any", h_BoundingSphere_CreateFromPoints_any, 101, 4),
    ("BoundingSphere_CreateMerged", h_BoundingSphere_CreateMerged, 12, 4),
    ("BoundingSphere_IntersectsBox", h_BoundingSphere_IntersectsBox, 10, 1),
    ("BoundingSphere_IntersectsFrustum", h_BoundingSphere_IntersectsFrustum, 17, 1),
    ("BoundingSphere_IntersectsOrientedBox", h_BoundingSphere_IntersectsOrientedBox, 14, 1),
    ("BoundingSphere_IntersectsPlane", h_BoundingSphere_IntersectsPlane, 8, 1),
    ("BoundingSphere_IntersectsRay", h_BoundingSphere_IntersectsRay, 13, 2),
    ("BoundingSphere_IntersectsSphere", h_BoundingSphere_IntersectsSphere, 8, 1),
    ("BoundingSphere_IntersectsTriangle", h_BoundingSphere_IntersectsTriangle, 16, 1),
    ("BoundingSphere_TransformDecomposed", h_BoundingSphere_TransformDecomposed, 17, 4),
    ("BoundingSphere_TransformMatrix", h_BoundingSphere_TransformMatrix, 24, 4),
    ("CONST_crmask", h_CONST_crmask, 0, 4),
    ("CONST_inv", h_CONST_inv, 0, 2),
    ("CONST_permute0", h_CONST_permute0, 0, 4),
    ("CONST_permute1", h_CONST_permute1, 0, 4),
    ("CONST_pi", h_CONST_pi, 0, 4),
    ("CONST_select", h_CONST_select, 0, 2),
    ("CONST_swizzle", h_CONST_swizzle, 0, 4),
    ("PermuteT_0W0W1Z0W", h_PermuteT_0W0W1Z0W, 8, 4),
    ("PermuteT_0W0X0Y1Z", h_PermuteT_0W0X0Y1Z, 8, 4),
    ("PermuteT_0W0X1W0Z", h_PermuteT_0W0X1W0Z, 8, 4),
    ("PermuteT_0W0X1Y0Z", h_PermuteT_0W0X1Y0Z, 8, 4),
    ("PermuteT_0W0Y0Y1X", h_PermuteT_0W0Y0Y1X, 8, 4),
    ("PermuteT_0W0Y1X1W", h_PermuteT_0W0Y1X1W, 8, 4),
    ("PermuteT_0W1W0W1Y", h_PermuteT_0W1W0W1Y, 8, 4),
    ("PermuteT_0W1W0X1W", h_PermuteT_0W1W0X1W, 8, 4),
    ("PermuteT_0W1W0Z0Y", h_PermuteT_0W1W0Z0Y, 8, 4),
    ("PermuteT_0W1W0Z1Z", h_PermuteT_0W1W0Z1Z, 8, 4),
    ("PermuteT_0W1W1Y0X", h_PermuteT_0W1W1Y0X, 8, 4),
    ("PermuteT_0W1X0Z0W", h_PermuteT_0W1X0Z0W, 8, 4),
    ("PermuteT_0W1Y1W1Y", h_PermuteT_0W1Y1W1Y, 8, 4),
    ("PermuteT_0W1Y1X1Z", h_PermuteT_0W1Y1X1Z, 8, 4),
    ("PermuteT_0X0W0W1X", h_PermuteT_0X0W0W1X, 8, 4),
    ("PermuteT_0X0Y0Z0W", h_PermuteT_0X0Y0Z0W, 8, 4),
    ("PermuteT_0X0Y1W0X", h_PermuteT_0X0Y1W0X, 8, 4),
    ("PermuteT_0X0Y1X1Y", h_PermuteT_0X0Y1X1Y, 8, 4),
    ("PermuteT_0X0Z1X1Z", h_PermuteT_0X0Z1X1Z, 8, 4),
    ("PermuteT_0X1W1Z1Z", h_PermuteT_0X1W1Z1Z, 8, 4),
    ("PermuteT_0X1X0W1X", h_PermuteT_0X1X0W1X, 8, 4),
    ("PermuteT_0X1X1W1X", h_PermuteT_0X1X1W1X, 8, 4),
    ("PermuteT_0X1Y0Z1W", h_PermuteT_0X1Y0Z1W, 8, 4),
    ("PermuteT_0X1Y1W0Y", h_PermuteT_0X1Y1W0Y, 8, 4),
    ("PermuteT_0X1Z0X0W", h_PermuteT_0X1Z0X0W, 8, 4),
    ("PermuteT_0Y0W1X0Y", h_PermuteT_0Y0W1X0Y, 8, 4),
    ("PermuteT_0Y0W1Y0Y", h_PermuteT_0Y0W1Y0Y, 8, 4),
    ("PermuteT_0Y0W1Z0Z", h_PermuteT_0Y0W1Z0Z, 8, 4),
    ("PermuteT_0Y0X0W1W", h_PermuteT_0Y0X0W1W, 8, 4),
    ("PermuteT_0Y0Y1W1W", h_PermuteT_0Y0Y1W1W, 8, 4),
    ("PermuteT_0Y0Y1Y0X", h_PermuteT_0Y0Y1Y0X, 8, 4),
    ("PermuteT_0Y0Z0Z0W", h_PermuteT_0Y0Z0Z0W, 8, 4),
    ("PermuteT_0Y1W1Y0W", h_PermuteT_0Y1W1Y0W, 8, 4),
    ("PermuteT_0Y1X1Y0Z", h_PermuteT_0Y1X1Y0Z, 8, 4),
    ("PermuteT_0Y1Y0X1Y", h_PermuteT_0Y1Y0X1Y, 8, 4),
    ("PermuteT_0Y1Y1Y1Y", h_PermuteT_0Y1Y1Y1Y, 8, 4),
    ("PermuteT_0Y1Z0W0X", h_PermuteT_0Y1Z0W0X, 8, 4),
    ("PermuteT_0Y1Z0Z1Y", h_PermuteT_0Y1Z0Z1Y, 8, 4),
    ("PermuteT_0Z0X0X0Y", h_PermuteT_0Z0X0X0Y, 8, 4),
    ("PermuteT_0Z0X0Z1W", h_PermuteT_0Z0X0Z1W, 8, 4),
    ("PermuteT_0Z0X1Y1W", h_PermuteT_0Z0X1Y1W, 8, 4),
    ("PermuteT_0Z0Y1W0X", h_PermuteT_0Z0Y1W0X, 8, 4),
    ("PermuteT_0Z0Y1X0Z", h_PermuteT_0Z0Y1X0Z, 8, 4),
    ("PermuteT_0Z0Y1Y0X", h_PermuteT_0Z0Y1Y0X, 8, 4),
    ("PermuteT_0Z0Y1Y1X", h_PermuteT_0Z0Y1Y1X, 8, 4),
    ("PermuteT_0Z0Z1W0Y", h_PermuteT_0Z0Z1W0Y, 8, 4),
    ("PermuteT_0Z1W0W0Y", h_PermuteT_0Z1W0W0Y, 8, 4),
    ("PermuteT_0Z1W1X0Y", h_PermuteT_0Z1W1X0Y, 8, 4),
    ("PermuteT_0Z1W1Y0Z", h_PermuteT_0Z1W1Y0Z, 8, 4),
    ("PermuteT_0Z1W1Z0X", h_PermuteT_0Z1W1Z0X, 8, 4),
    ("PermuteT_0Z1W1Z1X", h_PermuteT_0Z1W1Z1X, 8, 4),
    ("PermuteT_0Z1Y0Z1X", h_PermuteT_0Z1Y0Z1X, 8, 4),
    ("PermuteT_0Z1Z0W0W", h_PermuteT_0Z1Z0W0W, 8, 4),
    ("PermuteT_0Z1Z1X1Z", h_PermuteT_0Z1Z1X1Z, 8, 4),
    ("PermuteT_0Z1Z1Z1Y", h_PermuteT_0Z1Z1Z1Y, 8, 4),
    ("PermuteT_1W0Z0X0W", h_PermuteT_1W0Z0X0W, 8, 4),
    ("PermuteT_1W0Z0X0Z", h_PermuteT_1W0Z0X0Z, 8, 4),
    ("PermuteT_1W1W0X1Z", h_PermuteT_1W1W0X1Z, 8, 4),
    ("PermuteT_1W1W0Y0Y", h_PermuteT_1W1W0Y0Y, 8, 4),
    ("PermuteT_1W1W1X0Y", h_PermuteT_1W1W1X0Y, 8, 4),
    ("PermuteT_1W1X0Y1Z", h_PermuteT_1W1X0Y1Z, 8, 4),
    ("PermuteT_1X0W1W0Z", h_PermuteT_1X0W1W0Z, 8, 4),
    ("PermuteT_1X0Y1Z0W", h_PermuteT_1X0Y1Z0W, 8, 4),
    ("PermuteT_1X1W0Y0X", h_PermuteT_1X1W0Y0X, 8, 4),
    ("PermuteT_1X1W1W0W", h_PermuteT_1X1W1W0W, 8, 4),
    ("PermuteT_1X1W1X1Z", h_PermuteT_1X1W1X1Z, 8, 4),
    ("PermuteT_1X1X0X0Z", h_PermuteT_1X1X0X0Z, 8, 4),
    ("PermuteT_1X1Y1Y1W", h_PermuteT_1X1Y1Y1W, 8, 4),
    ("PermuteT_1X1Y1Z1W", h_PermuteT_1X1Y1Z1W, 8, 4),
    ("PermuteT_1Y0W1Y0W", h_PermuteT_1Y0W1Y0W, 8, 4),
    ("PermuteT_1Y0X0Y0X", h_PermuteT_1Y0X0Y0X, 8, 4),
    ("PermuteT_1Y0X1W1Y", h_PermuteT_1Y0X1W1Y, 8, 4),
    ("PermuteT_1Y0Y0W0Y", h_PermuteT_1Y0Y0W0Y, 8, 4),
    ("PermuteT_1Y0Y0W1Z", h_PermuteT_1Y0Y0W1Z, 8, 4),
    ("PermuteT_1Y0Y0Y1Z", h_PermuteT_1Y0Y0Y1Z, 8, 4),
    ("PermuteT_1Y0Y1Z1W", h_PermuteT_1Y0Y1Z1W, 8, 4),
    ("PermuteT_1Y0Z0X1X", h_PermuteT_1Y0Z0X1X, 8, 4),
    ("PermuteT_1Y0Z1W1X", h_PermuteT_1Y0Z1W1X, 8, 4),
    ("PermuteT_1Y0Z1Z0X", h_PermuteT_1Y0Z1Z0X, 8, 4),
    ("PermuteT_1Y1W1X0Y", h_PermuteT_1Y1W1X0Y, 8, 4),
    ("PermuteT_1Y1X0W0Z", h_PermuteT_1Y1X0W0Z, 8, 4),
    ("PermuteT_1Y1X0Y0Y", h_PermuteT_1Y1X0Y0Y, 8, 4),
    ("PermuteT_1Y1Z0W0Z", h_PermuteT_1Y1Z0W0Z, 8, 4),
    ("PermuteT_1Z0W0X1Y", h_PermuteT_1Z0W0X1Y, 8, 4),
    ("PermuteT_1Z0W1Y1Y", h_PermuteT_1Z0W1Y1Y, 8, 4),
    ("PermuteT_1Z0X0W0Y", h_PermuteT_1Z0X0W0Y, 8, 4),
    ("PermuteT_1Z0X0Y0W", h_PermuteT_1Z0X0Y0W, 8, 4),
    ("PermuteT_1Z0Y0W0Y", h_PermuteT_1Z0Y0W0Y, 8, 4),
    ("PermuteT_1Z0Y0Z0Z", h_PermuteT_1Z0Y0Z0Z, 8, 4),
    ("PermuteT_1Z0Y1Z1W", h_PermuteT_1Z0Y1Z1W, 8, 4),
    ("PermuteT_1Z0Z0Z0X", h_PermuteT_1Z0Z0Z0X, 8, 4),
    ("PermuteT_1Z1W0Z0W", h_PermuteT_1Z1W0Z0W, 8, 4),
    ("PermuteT_1Z1Y1W1W", h_PermuteT_1Z1Y1W1W, 8, 4),
    ("PermuteT_1Z1Y1Y0Z", h_PermuteT_1Z1Y1Y0Z, 8, 4),
    ("PermuteT_1Z1Z0Y1W", h_PermuteT_1Z1Z0Y1W, 8, 4),
    ("PermuteT_1Z1Z1W0Y", h_PermuteT_1Z1Z1W0Y, 8, 4),
    ("SwizzleT_WWWW", h_SwizzleT_WWWW, 4, 4),
    ("SwizzleT_WWWX", h_SwizzleT_WWWX, 4, 4),
    ("SwizzleT_WWWY", h_SwizzleT_WWWY, 4, 4),
    ("SwizzleT_WWWZ", h_SwizzleT_WWWZ, 4, 4),
    ("SwizzleT_WWXW", h_SwizzleT_WWXW, 4, 4),
    ("SwizzleT_WWXX", h_SwizzleT_WWXX, 4, 4),
    ("SwizzleT_WWXY", h_SwizzleT_WWXY, 4, 4),
    ("SwizzleT_WWXZ", h_SwizzleT_WWXZ, 4, 4),
    ("SwizzleT_WWYW", h_SwizzleT_WWYW, 4, 4),
    ("SwizzleT_WWYX", h_SwizzleT_WWYX, 4, 4),
    ("SwizzleT_WWYY", h_SwizzleT_WWYY, 4, 4),
    ("SwizzleT_WWYZ", h_SwizzleT_WWYZ, 4, 4),
    ("SwizzleT_WWZW", h_SwizzleT_WWZW, 4, 4),
    ("SwizzleT_WWZX", h_SwizzleT_WWZX, 4, 4),
    ("SwizzleT_WWZY", h_SwizzleT_WWZY, 4, 4),
    ("SwizzleT_WWZZ", h_SwizzleT_WWZZ, 4, 4),
    ("SwizzleT_WXWW", h_SwizzleT_WXWW, 4, 4),
    ("SwizzleT_WXWX", h_SwizzleT_WXWX, 4, 4),
    ("SwizzleT_WXWY", h_SwizzleT_WXWY, 4, 4),
    ("SwizzleT_WXWZ", h_SwizzleT_WXWZ, 4, 4),
    ("SwizzleT_WXXW", h_SwizzleT_WXXW, 4, 4),
    ("SwizzleT_WXXX", h_SwizzleT_WXXX, 4, 4),
    ("SwizzleT_WXXY", h_SwizzleT_WXXY, 4, 4),
    ("SwizzleT_WXXZ", h_SwizzleT_WXXZ, 4, 4),
    ("SwizzleT_WXYW", h_SwizzleT_WXYW, 4, 4),
    ("SwizzleT_WXYX", h_SwizzleT_WXYX, 4, 4),
    ("SwizzleT_WXYY", h_SwizzleT_WXYY, 4, 4),
    ("SwizzleT_WXYZ", h_SwizzleT_WXYZ, 4, 4),
    ("SwizzleT_WXZW", h_SwizzleT_WXZW, 4, 4),
    ("SwizzleT_WXZX", h_SwizzleT_WXZX, 4, 4),
    ("SwizzleT_WXZY", h_SwizzleT_WXZY, 4, 4),
    ("SwizzleT_WXZZ", h_SwizzleT_WXZZ, 4, 4),
    ("SwizzleT_WYWW", h_SwizzleT_WYWW, 4, 4),
    ("SwizzleT_WYWX", h_SwizzleT_WYWX, 4, 4),
    ("SwizzleT_WYWY", h_SwizzleT_WYWY, 4, 4),
    ("SwizzleT_WYWZ", h_SwizzleT_WYWZ, 4, 4),
    ("SwizzleT_WYXW", h_SwizzleT_WYXW, 4, 4),
    ("SwizzleT_WYXX", h_SwizzleT_WYXX, 4, 4),
    ("SwizzleT_WYXY", h_SwizzleT_WYXY, 4, 4),
    ("SwizzleT_WYXZ", h_SwizzleT_WYXZ, 4, 4),
    ("SwizzleT_WYYW", h_SwizzleT_WYYW, 4, 4),
    ("SwizzleT_WYYX", h_SwizzleT_WYYX, 4, 4),
    ("SwizzleT_WYYY", h_SwizzleT_WYYY, 4, 4),
    ("SwizzleT_WYYZ", h_SwizzleT_WYYZ, 4, 4),
    ("SwizzleT_WYZW", h_SwizzleT_WYZW, 4, 4),
    ("SwizzleT_WYZX", h_SwizzleT_WYZX, 4, 4),
    ("SwizzleT_WYZY", h_SwizzleT_WYZY, 4, 4),
    ("SwizzleT_WYZZ", h_SwizzleT_WYZZ, 4, 4),
    ("SwizzleT_WZWW", h_SwizzleT_WZWW, 4, 4),
    ("SwizzleT_WZWX", h_SwizzleT_WZWX, 4, 4),
    ("SwizzleT_WZWY", h_SwizzleT_WZWY, 4, 4),
    ("SwizzleT_WZWZ", h_SwizzleT_WZWZ, 4, 4),
    ("SwizzleT_WZXW", h_SwizzleT_WZXW, 4, 4),
    ("SwizzleT_WZXX", h_SwizzleT_WZXX, 4, 4),
    ("SwizzleT_WZXY", h_SwizzleT_WZXY, 4, 4),
    ("SwizzleT_WZXZ", h_SwizzleT_WZXZ, 4, 4),
    ("SwizzleT_WZYW", h_SwizzleT_WZYW, 4, 4),
    ("SwizzleT_WZYX", h_SwizzleT_WZYX, 4, 4),
    ("SwizzleT_WZYY", h_SwizzleT_WZYY, 4, 4),
    ("SwizzleT_WZYZ", h_SwizzleT_WZYZ, 4, 4),
    ("SwizzleT_WZZW", h_SwizzleT_WZZW, 4, 4),
    ("SwizzleT_WZZX", h_SwizzleT_WZZX, 4, 4),
    ("SwizzleT_WZZY", h_SwizzleT_WZZY, 4, 4),
    ("SwizzleT_WZZZ", h_SwizzleT_WZZZ, 4, 4),
    ("SwizzleT_XWWW", h_SwizzleT_XWWW, 4, 4),
    ("SwizzleT_XWWX", h_SwizzleT_XWWX, 4, 4),
    ("SwizzleT_XWWY", h_SwizzleT_XWWY, 4, 4),
    ("SwizzleT_XWWZ", h_SwizzleT_XWWZ, 4, 4),
    ("SwizzleT_XWXW", h_SwizzleT_XWXW, 4, 4),
    ("SwizzleT_XWXX", h_SwizzleT_XWXX, 4, 4),
    ("SwizzleT_XWXY", h_SwizzleT_XWXY, 4, 4),
    ("SwizzleT_XWXZ", h_SwizzleT_XWXZ, 4, 4),
    ("SwizzleT_XWYW", h_SwizzleT_XWYW, 4, 4),
    ("SwizzleT_XWYX", h_SwizzleT_XWYX, 4, 4),
    ("SwizzleT_XWYY", h_SwizzleT_XWYY, 4, 4),
    ("SwizzleT_XWYZ", h_SwizzleT_XWYZ, 4, 4),
    ("SwizzleT_XWZW", h_SwizzleT_XWZW, 4, 4),
    ("SwizzleT_XWZX", h_SwizzleT_XWZX, 4, 4),
    ("SwizzleT_XWZY", h_SwizzleT_XWZY, 4, 4),
    ("SwizzleT_XWZZ", h_SwizzleT_XWZZ, 4, 4),
    ("SwizzleT_XXWW", h_SwizzleT_XXWW, 4, 4),
    ("SwizzleT_XXWX", h_SwizzleT_XXWX, 4, 4),
    ("SwizzleT_XXWY", h_SwizzleT_XXWY, 4, 4),
    ("SwizzleT_XXWZ", h_SwizzleT_XXWZ, 4, 4),
    ("SwizzleT_XXXW", h_SwizzleT_XXXW, 4, 4),
    ("SwizzleT_XXXX", h_SwizzleT_XXXX, 4, 4),
    ("SwizzleT_XXXY", h_SwizzleT_XXXY, 4, 4),
    ("SwizzleT_XXXZ", h_SwizzleT_XXXZ, 4, 4),
    ("SwizzleT_XXYW", h_SwizzleT_XXYW, 4, 4),
    ("SwizzleT_XXYX", h_SwizzleT_XXYX, 4, 4),
    ("SwizzleT_XXYY", h_SwizzleT_XXYY, 4, 4),
    ("SwizzleT_XXYZ", h_SwizzleT_XXYZ, 4, 4),
    ("SwizzleT_XXZW", h_SwizzleT_XXZW, 4, 4),
    ("SwizzleT_XXZX", h_SwizzleT_XXZX, 4, 4),
    ("SwizzleT_XXZY", h_SwizzleT_XXZY, 4, 4),
    ("SwizzleT_XXZZ", h_SwizzleT_XXZZ, 4, 4),
    ("SwizzleT_XYWW", h_SwizzleT_XYWW, 4, 4),
    ("SwizzleT_XYWX", h_SwizzleT_XYWX, 4, 4),
    ("SwizzleT_XYWY", h_SwizzleT_XYWY, 4, 4),
    ("SwizzleT_XYWZ", h_SwizzleT_XYWZ, 4, 4),
    ("SwizzleT_XYXW", h_SwizzleT_XYXW, 4, 4),
    ("SwizzleT_XYXX", h_SwizzleT_XYXX, 4, 4),
    ("SwizzleT_XYXY", h_SwizzleT_XYXY, 4, 4),
    ("SwizzleT_XYXZ", h_SwizzleT_XYXZ, 4, 4),
    ("SwizzleT_XYYW", h_SwizzleT_XYYW, 4, 4),
    ("SwizzleT_XYYX", h_SwizzleT_XYYX, 4, 4),
    ("SwizzleT_XYYY", h_SwizzleT_XYYY, 4, 4),
    ("SwizzleT_XYYZ", h_SwizzleT_XYYZ, 4, 4),
    ("SwizzleT_XYZW", h_SwizzleT_XYZW, 4, 4),
    ("SwizzleT_XYZX", h_SwizzleT_XYZX, 4, 4),
    ("SwizzleT_XYZY", h_SwizzleT_XYZY, 4, 4),
    ("SwizzleT_XYZZ", h_SwizzleT_XYZZ, 4, 4),
    ("SwizzleT_XZWW", h_SwizzleT_XZWW, 4, 4),
    ("SwizzleT_XZWX", h_SwizzleT_XZWX, 4, 4),
    ("SwizzleT_XZWY", h_SwizzleT_XZWY, 4, 4),
    ("SwizzleT_XZWZ", h_SwizzleT_XZWZ, 4, 4),
    ("SwizzleT_XZXW", h_SwizzleT_XZXW, 4, 4),
    ("SwizzleT_XZXX", h_SwizzleT_XZXX, 4, 4),
    ("SwizzleT_XZXY", h_SwizzleT_XZXY, 4, 4),
    ("SwizzleT_XZXZ", h_SwizzleT_XZXZ, 4, 4),
    ("SwizzleT_XZYW", h_SwizzleT_XZYW, 4, 4),
    ("SwizzleT_XZYX", h_SwizzleT_XZYX, 4, 4),
    ("SwizzleT_XZYY", h_SwizzleT_XZYY, 4, 4),
    ("SwizzleT_XZYZ", h_SwizzleT_XZYZ, 4, 4),
    ("SwizzleT_XZZW", h_SwizzleT_XZZW, 4, 4),
    ("SwizzleT_XZZX", h_SwizzleT_XZZX, 4, 4),
    ("SwizzleT_XZZY", h_SwizzleT_XZZY, 4, 4),
    ("SwizzleT_XZZZ", h_SwizzleT_XZZZ, 4, 4),
    ("SwizzleT_YWWW", h_SwizzleT_YWWW, 4, 4),
    ("SwizzleT_YWWX", h_SwizzleT_YWWX, 4, 4),
    ("SwizzleT_YWWY", h_SwizzleT_YWWY, 4, 4),
    ("SwizzleT_YWWZ", h_SwizzleT_YWWZ, 4, 4),
    ("SwizzleT_YWXW", h_SwizzleT_YWXW, 4, 4),
    ("SwizzleT_YWXX", h_SwizzleT_YWXX, 4, 4),
    ("SwizzleT_YWXY", h_SwizzleT_YWXY, 4, 4),
    ("SwizzleT_YWXZ", h_SwizzleT_YWXZ, 4, 4),
    ("SwizzleT_YWYW", h_SwizzleT_YWYW, 4, 4),
    ("SwizzleT_YWYX", h_SwizzleT_YWYX, 4, 4),
    ("SwizzleT_YWYY", h_SwizzleT_YWYY, 4, 4),
    ("SwizzleT_YWYZ", h_SwizzleT_YWYZ, 4, 4),
    ("SwizzleT_YWZW", h_SwizzleT_YWZW, 4, 4),
    ("SwizzleT_YWZX", h_SwizzleT_YWZX, 4, 4),
    ("SwizzleT_YWZY", h_SwizzleT_YWZY, 4, 4),
    ("SwizzleT_YWZZ", h_SwizzleT_YWZZ, 4, 4),
    ("SwizzleT_YXWW", h_SwizzleT_YXWW, 4, 4),
    ("SwizzleT_YXWX", h_SwizzleT_YXWX, 4, 4),
    ("SwizzleT_YXWY", h_SwizzleT_YXWY, 4, 4),
    ("SwizzleT_YXWZ", h_SwizzleT_YXWZ, 4, 4),
    ("SwizzleT_YXXW", h_SwizzleT_YXXW, 4, 4),
    ("SwizzleT_YXXX", h_SwizzleT_YXXX, 4, 4),
    ("SwizzleT_YXXY", h_SwizzleT_YXXY, 4, 4),
    ("SwizzleT_YXXZ", h_SwizzleT_YXXZ, 4, 4),
    ("SwizzleT_YXYW", h_SwizzleT_YXYW, 4, 4),
    ("SwizzleT_YXYX", h_SwizzleT_YXYX, 4, 4),
    ("SwizzleT_YXYY", h_SwizzleT_YXYY, 4, 4),
    ("SwizzleT_YXYZ", h_SwizzleT_YXYZ, 4, 4),
    ("SwizzleT_YXZW", h_SwizzleT_YXZW, 4, 4),
    ("SwizzleT_YXZX", h_SwizzleT_YXZX, 4, 4),
    ("SwizzleT_YXZY", h_SwizzleT_YXZY, 4, 4),
    ("SwizzleT_YXZZ", h_SwizzleT_YXZZ, 4, 4),
    ("SwizzleT_YYWW", h_SwizzleT_YYWW, 4, 4),
    ("SwizzleT_YYWX", h_SwizzleT_YYWX, 4, 4),
    ("SwizzleT_YYWY", h_SwizzleT_YYWY, 4, 4),
    ("SwizzleT_YYWZ", h_SwizzleT_YYWZ, 4, 4),
    ("SwizzleT_YYXW", h_SwizzleT_YYXW, 4, 4),
    ("SwizzleT_YYXX", h_SwizzleT_YYXX, 4, 4),
    ("SwizzleT_YYXY", h_SwizzleT_YYXY, 4, 4),
    ("SwizzleT_YYXZ", h_SwizzleT_YYXZ, 4, 4),
    ("SwizzleT_YYYW", h_SwizzleT_YYYW, 4, 4),
    ("SwizzleT_YYYX", h_SwizzleT_YYYX, 4, 4),
    ("SwizzleT_YYYY", h_SwizzleT_YYYY, 4, 4),
    ("SwizzleT_YYYZ", h_SwizzleT_YYYZ, 4, 4),
    ("SwizzleT_YYZW", h_SwizzleT_YYZW, 4, 4),
    ("SwizzleT_YYZX", h_SwizzleT_YYZX, 4, 4),
    ("SwizzleT_YYZY", h_SwizzleT_YYZY, 4, 4),
    ("SwizzleT_YYZZ", h_SwizzleT_YYZZ, 4, 4),
    ("SwizzleT_YZWW", h_SwizzleT_YZWW, 4, 4),
    ("SwizzleT_YZWX", h_SwizzleT_YZWX, 4, 4),
    ("SwizzleT_YZWY", h_SwizzleT_YZWY, 4, 4),
    ("SwizzleT_YZWZ", h_SwizzleT_YZWZ, 4, 4),
    ("SwizzleT_YZXW", h_SwizzleT_YZXW, 4, 4),
    ("SwizzleT_YZXX", h_SwizzleT_YZXX, 4, 4),
    ("SwizzleT_YZXY", h_SwizzleT_YZXY, 4, 4),
    ("SwizzleT_YZXZ", h_SwizzleT_YZXZ, 4, 4),
    ("SwizzleT_YZYW", h_SwizzleT_YZYW, 4, 4),
    ("SwizzleT_YZYX", h_SwizzleT_YZYX, 4, 4),
    ("SwizzleT_YZYY", h_SwizzleT_YZYY, 4, 4),
    ("SwizzleT_YZYZ", h_SwizzleT_YZYZ, 4, 4),
    ("SwizzleT_YZZW", h_SwizzleT_YZZW, 4, 4),
    ("SwizzleT_YZZX", h_SwizzleT_YZZX, 4, 4),
    ("SwizzleT_YZZY", h_SwizzleT_YZZY, 4, 4),
    ("SwizzleT_YZZZ", h_SwizzleT_YZZZ, 4, 4),
    ("SwizzleT_ZWWW", h_SwizzleT_ZWWW, 4, 4),
    ("SwizzleT_ZWWX", h_SwizzleT_ZWWX, 4, 4),
    ("SwizzleT_ZWWY", h_SwizzleT_ZWWY, 4, 4),
    ("SwizzleT_ZWWZ", h_SwizzleT_ZWWZ, 4, 4),
    ("SwizzleT_ZWXW", h_SwizzleT_ZWXW, 4, 4),
    ("SwizzleT_ZWXX", h_SwizzleT_ZWXX, 4, 4),
    ("SwizzleT_ZWXY", h_SwizzleT_ZWXY, 4, 4),
    ("SwizzleT_ZWXZ", h_SwizzleT_ZWXZ, 4, 4),
    ("SwizzleT_ZWYW", h_SwizzleT_ZWYW, 4, 4),
    ("SwizzleT_ZWYX", h_SwizzleT_ZWYX, 4, 4),
    ("SwizzleT_ZWYY", h_SwizzleT_ZWYY, 4, 4),
    ("SwizzleT_ZWYZ", h_SwizzleT_ZWYZ, 4, 4),
    ("SwizzleT_ZWZW", h_SwizzleT_ZWZW, 4, 4),
    ("SwizzleT_ZWZX", h_SwizzleT_ZWZX, 4, 4),
    ("SwizzleT_ZWZY", h_SwizzleT_ZWZY, 4, 4),
    ("SwizzleT_ZWZZ", h_SwizzleT_ZWZZ, 4, 4),
    ("SwizzleT_ZXWW", h_SwizzleT_ZXWW, 4, 4),
    ("SwizzleT_ZXWX", h_SwizzleT_ZXWX, 4, 4),
    ("SwizzleT_ZXWY", h_SwizzleT_ZXWY, 4, 4),
    ("SwizzleT_ZXWZ", h_SwizzleT_ZXWZ, 4, 4),
    ("SwizzleT_ZXXW", h_SwizzleT_ZXXW, 4, 4),
    ("SwizzleT_ZXXX", h_SwizzleT_ZXXX, 4, 4),
    ("SwizzleT_ZXXY", h_SwizzleT_ZXXY, 4, 4),
    ("SwizzleT_ZXXZ", h_SwizzleT_ZXXZ, 4, 4),
    ("SwizzleT_ZXYW", h_SwizzleT_ZXYW, 4, 4),
    ("SwizzleT_ZXYX", h_SwizzleT_ZXYX, 4, 4),
    ("SwizzleT_ZXYY", h_SwizzleT_ZXYY, 4, 4),
    ("SwizzleT_ZXYZ", h_SwizzleT_ZXYZ, 4, 4),
    ("SwizzleT_ZXZW", h_SwizzleT_ZXZW, 4, 4),
    ("SwizzleT_ZXZX", h_SwizzleT_ZXZX, 4, 4),
    ("SwizzleT_ZXZY", h_SwizzleT_ZXZY, 4, 4),
    ("SwizzleT_ZXZZ", h_SwizzleT_ZXZZ, 4, 4),
    ("SwizzleT_ZYWW", h_SwizzleT_ZYWW, 4, 4),
    ("SwizzleT_ZYWX", h_SwizzleT_ZYWX, 4, 4),
    ("SwizzleT_ZYWY", h_SwizzleT_ZYWY, 4, 4),
    ("SwizzleT_ZYWZ", h_SwizzleT_ZYWZ, 4, 4),
    ("SwizzleT_ZYXW", h_SwizzleT_ZYXW, 4, 4),
    ("SwizzleT_ZYXX", h_SwizzleT_ZYXX, 4, 4),
    ("SwizzleT_ZYXY", h_SwizzleT_ZYXY, 4, 4),
    ("SwizzleT_ZYXZ", h_SwizzleT_ZYXZ, 4, 4),
    ("SwizzleT_ZYYW", h_SwizzleT_ZYYW, 4, 4),
    ("SwizzleT_ZYYX", h_SwizzleT_ZYYX, 4, 4),
    ("SwizzleT_ZYYY", h_SwizzleT_ZYYY, 4, 4),
    ("SwizzleT_ZYYZ", h_SwizzleT_ZYYZ, 4, 4),
    ("SwizzleT_ZYZW", h_SwizzleT_ZYZW, 4, 4),
    ("SwizzleT_ZYZX", h_SwizzleT_ZYZX, 4, 4),
    ("SwizzleT_ZYZY", h_SwizzleT_ZYZY, 4, 4),
    ("SwizzleT_ZYZZ", h_SwizzleT_ZYZZ, 4, 4),
    ("SwizzleT_ZZWW", h_SwizzleT_ZZWW, 4, 4),
    ("SwizzleT_ZZWX", h_SwizzleT_ZZWX, 4, 4),
    ("SwizzleT_ZZWY", h_SwizzleT_ZZWY, 4, 4),
    ("SwizzleT_ZZWZ", h_SwizzleT_ZZWZ, 4, 4),
    ("SwizzleT_ZZXW", h_SwizzleT_ZZXW, 4, 4),
    ("SwizzleT_ZZXX", h_SwizzleT_ZZXX, 4, 4),
    ("SwizzleT_ZZXY", h_SwizzleT_ZZXY, 4, 4),
    ("SwizzleT_ZZXZ", h_SwizzleT_ZZXZ, 4, 4),
    ("SwizzleT_ZZYW", h_SwizzleT_ZZYW, 4, 4),
    ("SwizzleT_ZZYX", h_SwizzleT_ZZYX, 4, 4),
    ("SwizzleT_ZZYY", h_SwizzleT_ZZYY, 4, 4),
    ("SwizzleT_ZZYZ", h_SwizzleT_ZZYZ, 4, 4),
    ("SwizzleT_ZZZW", h_SwizzleT_ZZZW, 4, 4),
    ("SwizzleT_ZZZX", h_SwizzleT_ZZZX, 4, 4),
    ("SwizzleT_ZZZY", h_SwizzleT_ZZZY, 4, 4),
    ("SwizzleT_ZZZZ", h_SwizzleT_ZZZZ, 4, 4),
    ("XMComparisonAllFalse", h_XMComparisonAllFalse, 1, 1),
    ("XMComparisonAllInBounds", h_XMComparisonAllInBounds, 1, 1),
    ("XMComparisonAllTrue", h_XMComparisonAllTrue, 1, 1),
    ("XMComparisonAnyFalse", h_XMComparisonAnyFalse, 1, 1),
    ("XMComparisonAnyOutOfBounds", h_XMComparisonAnyOutOfBounds, 1, 1),
    ("XMComparisonAnyTrue", h_XMComparisonAnyTrue, 1, 1),
    ("XMComparisonMixed", h_XMComparisonMixed, 1, 1),
    ("XMConvertFloatToHalf", h_XMConvertFloatToHalf, 1, 1),
    ("XMConvertHalfToFloat", h_XMConvertHalfToFloat, 1, 1),
    ("XMConvertToDegrees", h_XMConvertToDegrees, 1, 1),
    ("XMConvertToRadians", h_XMConvertToRadians, 1, 1),
    ("XMConvertVectorFloatToInt", h_XMConvertVectorFloatToInt, 5, 4),
    ("XMConvertVectorFloatToUInt", h_XMConvertVectorFloatToUInt, 5, 4),
    ("XMConvertVectorIntToFloat", h_XMConvertVectorIntToFloat, 5, 4),
    ("XMConvertVectorUIntToFloat", h_XMConvertVectorUIntToFloat, 5, 4),
    ("XMFLOAT2_as_mut_f322", h_XMFLOAT2_as_mut_f322, 4, 2),
    ("XMFLOAT2_as_ref_f322", h_XMFLOAT2_as_ref_f322, 2, 2),
    ("XMFLOAT2_fields", h_XMFLOAT2_fields, 2, 2),
    ("XMFLOAT2_from_f322", h_XMFLOAT2_from_f322, 2, 2),
    ("XMFLOAT2_from_ref_f322", h_XMFLOAT2_from_ref_f322, 2, 2),
    ("XMFLOAT2_into_f322", h_XMFLOAT2_into_f322, 2, 2),
    ("XMFLOAT2_into_ref_f322", h_XMFLOAT2_into_ref_f322, 2, 2),
    ("XMFLOAT2_set", h_XMFLOAT2_set, 2, 2),
    ("XMFLOAT3X3_as_mut_f32_3x3", h_XMFLOAT3X3_as_mut_f32_3x3, 18, 9),
    ("XMFLOAT3X3_as_mut_f32_9_3x3", h_XMFLOAT3X3_as_mut_f32_9_3x3, 18, 9),
    ("XMFLOAT3X3_as_ref_f32_3x3", h_XMFLOAT3X3_as_ref_f32_3x3, 9, 9),
    ("XMFLOAT3X3_as_ref_f32_9_3x3", h_XMFLOAT3X3_as_ref_f32_9_3x3, 9, 9),
    ("XMFLOAT3X3_from_f32_3x3", h_XMFLOAT3X3_from_f32_3x3, 9, 9),
    ("XMFLOAT3X3_from_f32_9_3x3", h_XMFLOAT3X3_from_f32_9_3x3, 9, 9),
    ("XMFLOAT3X3_from_ref_f32_3x3", h_XMFLOAT3X3_from_ref_f32_3x3, 9, 9),
    ("XMFLOAT3X3_from_ref_f32_9_3x3", h_XMFLOAT3X3_from_ref_f32_9_3x3, 9, 9),
    ("XMFLOAT3X3_into_f32_3x3", h_XMFLOAT3X3_into_f32_3x3, 9, 9),
    ("XMFLOAT3X3_into_f32_9_3x3", h_XMFLOAT3X3_into_f32_9_3x3, 9, 9),
    ("XMFLOAT3X3_into_ref_f32_3x3", h_XMFLOAT3X3_into_ref_f32_3x3, 9, 9),
    ("XMFLOAT3X3_into_ref_f32_9_3x3", h_XMFLOAT3X3_into_ref_f32_9_3x3, 9, 9),
    ("XMFLOAT3X4_as_mut_f32_12_3x4", h_XMFLOAT3X4_as_mut_f32_12_3x4, 24, 12),
    ("XMFLOAT3X4_as_mut_f32_3x4", h_XMFLOAT3X4_as_mut_f32_3x4, 24, 12),
    ("XMFLOAT3X4_as_ref_f32_12_3x4", h_XMFLOAT3X4_as_ref_f32_12_3x4, 12, 12),
    ("XMFLOAT3X4_as_ref_f32_3x4", h_XMFLOAT3X4_as_ref_f32_3x4, 12, 12),
    ("XMFLOAT3X4_from_f32_12_3x4", h_XMFLOAT3X4_from_f32_12_3x4, 12, 12),
    ("XMFLOAT3X4_from_f32_3x4", h_XMFLOAT3X4_from_f32_3x4, 12, 12),
    ("XMFLOAT3X4_from_ref_f32_12_3x4", h_XMFLOAT3X4_from_ref_f32_12_3x4, 12, 12),
    ("XMFLOAT3X4_from_ref_f32_3x4", h_XMFLOAT3X4_from_ref_f32_3x4, 12, 12),
    ("XMFLOAT3X4_into_f32_12_3x4", h_XMFLOAT3X4_into_f32_12_3x4, 12, 12),
    ("XMFLOAT3X4_into_f32_3x4", h_XMFLOAT3X4_into_f32_3x4, 12, 12),
    ("XMFLOAT3X4_into_ref_f32_12_3x4", h_XMFLOAT3X4_into_ref_f32_12_3x4, 12, 12),
    ("XMFLOAT3X4_into_ref_f32_3x4", h_XMFLOAT3X4_into_ref_f32_3x4, 12, 12),
    ("XMFLOAT3_as_mut_f323", h_XMFLOAT3_as_mut_f323, 6, 3),
    ("XMFLOAT3_as_ref_f323", h_XMFLOAT3_as_ref_f323, 3, 3),
    ("XMFLOAT3_fields", h_XMFLOAT3_fields, 3, 3),
    ("XMFLOAT3_from_f323", h_XMFLOAT3_from_f323, 3, 3),
    ("XMFLOAT3_from_ref_f323", h_XMFLOAT3_from_ref_f323, 3, 3),
    ("XMFLOAT3_into_f323", h_XMFLOAT3_into_f323, 3, 3),
    ("XMFLOAT3_into_ref_f323", h_XMFLOAT3_into_ref_f323, 3, 3),
    ("XMFLOAT3_set", h_XMFLOAT3_set, 3, 3),
    ("XMFLOAT4X3_as_mut_f32_12_4x3", h_XMFLOAT4X3_as_mut_f32_12_4x3, 24, 12),
    ("XMFLOAT4X3_as_mut_f32_4x3", h_XMFLOAT4X3_as_mut_f32_4x3, 24, 12),
    ("XMFLOAT4X3_as_ref_f32_12_4x3", h_XMFLOAT4X3_as_ref_f32_12_4x3, 12, 12),
    ("XMFLOAT4X3_as_ref_f32_4x3", h_XMFLOAT4X3_as_ref_f32_4x3, 12, 12),
    ("XMFLOAT4X3_from_f32_12_4x3", h_XMFLOAT4X3_from_f32_12_4x3, 12, 12),
    ("XMFLOAT4X3_from_f32_4x3", h_XMFLOAT4X3_from_f32_4x3, 12, 12),
    ("XMFLOAT4X3_from_ref_f32_12_4x3", h_XMFLOAT4X3_from_ref_f32_12_4x3, 12, 12),
    ("XMFLOAT4X3_from_ref_f32_4x3", h_XMFLOAT4X3_from_ref_f32_4x3, 12, 12),
    ("XMFLOAT4X3_into_f32_12_4x3", h_XMFLOAT4X3_into_f32_12_4x3, 12, 12),
    ("XMFLOAT4X3_into_f32_4x3", h_XMFLOAT4X3_into_f32_4x3, 12, 12),
    ("XMFLOAT4X3_into_ref_f32_12_4x3", h_XMFLOAT4X3_into_ref_f32_12_4x3, 12, 12),
    ("XMFLOAT4X3_into_ref_f32_4x3", h_XMFLOAT4X3_into_ref_f32_4x3, 12, 12),
    ("XMFLOAT4X4_as_mut_f32_16_4x4", h_XMFLOAT4X4_as_mut_f32_16_4x4, 32, 16),
    ("XMFLOAT4X4_as_mut_f32_4x4", h_XMFLOAT4X4_as_mut_f32_4x4, 32, 16),
    ("XMFLOAT4X4_as_ref_f32_16_4x4", h_XMFLOAT4X4_as_ref_f32_16_4x4, 16, 16),
    ("XMFLOAT4X4_as_ref_f32_4x4", h_XMFLOAT4X4_as_ref_f32_4x4, 16, 16),
    ("XMFLOAT4X4_from_f32_16_4x4", h_XMFLOAT4X4_from_f32_16_4x4, 16, 16),
    ("XMFLOAT4X4_from_f32_4x4", h_XMFLOAT4X4_from_f32_4x4, 16, 16),
    ("XMFLOAT4X4_from_ref_f32_16_4x4", h_XMFLOAT4X4_from_ref_f32_16_4x4, 16, 16),
    ("XMFLOAT4X4_from_ref_f32_4x4", h_XMFLOAT4X4_from_ref_f32_4x4, 16, 16),
    ("XMFLOAT4X4_into_f32_16_4x4", h_XMFLOAT4X4_into_f32_16_4x4, 16, 16),
    ("XMFLOAT4X4_into_f32_4x4", h_XMFLOAT4X4_into_f32_4x4, 16, 16),
    ("XMFLOAT4X4_into_ref_f32_16_4x4", h_XMFLOAT4X4_into_ref_f32_16_4x4, 16, 16),
    ("XMFLOAT4X4_into_ref_f32_4x4", h_XMFLOAT4X4_into_ref_f32_4x4, 16, 16),
    ("XMFLOAT4_as_mut_f324", h_XMFLOAT4_as_mut_f324, 8, 4),
    ("XMFLOAT4_as_ref_f324", h_XMFLOAT4_as_ref_f324, 4, 4),
    ("XMFLOAT4_fields", h_XMFLOAT4_fields, 4, 4),
    ("XMFLOAT4_from_f324", h_XMFLOAT4_from_f324, 4, 4),
    ("XMFLOAT4_from_ref_f324", h_XMFLOAT4_from_ref_f324, 4, 4),
    ("XMFLOAT4_into_f324", h_XMFLOAT4_into_f324, 4, 4),
    ("XMFLOAT4_into_ref_f324", h_XMFLOAT4_into_ref_f324, 4, 4),
    ("XMFLOAT4_set", h_XMFLOAT4_set, 4, 4),
    ("XMFresnelTerm", h_XMFresnelTerm, 8, 4),
    ("XMINT2_as_mut_i322", h_XMINT2_as_mut_i322, 4, 2),
    ("XMINT2_as_ref_i322", h_XMINT2_as_ref_i322, 2, 2),
    ("XMINT2_fields", h_XMINT2_fields, 2, 2),
    ("XMINT2_from_i322", h_XMINT2_from_i322, 2, 2),
    ("XMINT2_from_ref_i322", h_XMINT2_from_ref_i322, 2, 2),
    ("XMINT2_into_i322", h_XMINT2_into_i322, 2, 2),
    ("XMINT2_into_ref_i322", h_XMINT2_into_ref_i322, 2, 2),
    ("XMINT2_set", h_XMINT2_set, 2, 2),
    ("XMINT3_as_mut_i323", h_XMINT3_as_mut_i323, 6, 3),
    ("XMINT3_as_ref_i323", h_XMINT3_as_ref_i323, 3, 3),
    ("XMINT3_fields", h_XMINT3_fields, 3, 3),
    ("XMINT3_from_i323", h_XMINT3_from_i323, 3, 3),
    ("XMINT3_from_ref_i323", h_XMINT3_from_ref_i323, 3, 3),
    ("XMINT3_into_i323", h_XMINT3_into_i323, 3, 3),
    ("XMINT3_into_ref_i323", h_XMINT3_into_ref_i323, 3, 3),
    ("XMINT3_set", h_XMINT3_set, 3, 3),
    ("XMINT4_as_mut_i324", h_XMINT4_as_mut_i324, 8, 4),
    ("XMINT4_as_ref_i324", h_XMINT4_as_ref_i324, 4, 4),
    ("XMINT4_fields", h_XMINT4_fields, 4, 4),
    ("XMINT4_from_i324", h_XMINT4_from_i324, 4, 4),
    ("XMINT4_from_ref_i324", h_XMINT4_from_ref_i324, 4, 4),
    ("XMINT4_into_i324", h_XMINT4_into_i324, 4, 4),
    ("XMINT4_into_ref_i324", h_XMINT4_into_ref_i324, 4, 4),
    ("XMINT4_set", h_XMINT4_set, 4, 4),
    ("XMLoadFloat2", h_XMLoadFloat2, 2, 4),
    ("XMLoadFloat3", h_XMLoadFloat3, 3, 4),
    ("XMLoadFloat3A", h_XMLoadFloat3A, 3, 4),
    ("XMLoadFloat3x3", h_XMLoadFloat3x3, 9, 16),
    ("XMLoadFloat3x4", h_XMLoadFloat3x4, 12, 16),
    ("XMLoadFloat4", h_XMLoadFloat4, 4, 4),
    ("XMLoadFloat4A", h_XMLoadFloat4A, 4, 4),
    ("XMLoadFloat4x3", h_XMLoadFloat4x3, 12, 16),
    ("XMLoadFloat4x4", h_XMLoadFloat4x4, 16, 16),
    ("XMLoadFloat4x4A", h_XMLoadFloat4x4A, 16, 16),
    ("XMLoadInt2", h_XMLoadInt2, 2, 4),
    ("XMLoadInt3", h_XMLoadInt3, 3, 4),
    ("XMLoadInt4", h_XMLoadInt4, 4, 4),
    ("XMMatrixAffineTransformation", h_XMMatrixAffineTransformation, 16, 16),
    ("XMMatrixAffineTransformation2D", h_XMMatrixAffineTransformation2D, 13, 16),
    ("XMMatrixDecompose", h_XMMatrixDecompose, 28, 13),
    ("XMMatrixDeterminant", h_XMMatrixDeterminant, 16, 4),
    ("XMMatrixIdentity", h_XMMatrixIdentity, 0, 16),
    ("XMMatrixInverse", h_XMMatrixInverse, 20, 20),
    ("XMMatrixInverse_None", h_XMMatrixInverse_None, 16, 16),
    ("XMMatrixIsIdentity", h_XMMatrixIsIdentity, 16, 1),
    ("XMMatrixIsInfinite", h_XMMatrixIsInfinite, 16, 1),
    ("XMMatrixIsNaN", h_XMMatrixIsNaN, 16, 1),
    ("XMMatrixLookAtLH", h_XMMatrixLookAtLH, 12, 16),
    ("XMMatrixLookAtRH", h_XMMatrixLookAtRH, 12, 16),
    ("XMMatrixLookToLH", h_XMMatrixLookToLH, 12, 16),
    ("XMMatrixLookToRH", h_XMMatrixLookToRH, 12, 16),
    ("XMMatrixMultiply", h_XMMatrixMultiply, 32, 16),
    ("XMMatrixMultiplyTranspose", h_XMMatrixMultiplyTranspose, 32, 16),
    ("XMMatrixOrthographicLH", h_XMMatrixOrthographicLH, 4, 16),
    ("XMMatrixOrthographicRH", h_XMMatrixOrthographicRH, 4, 16),
    ("XMMatrixPerspectiveFovLH", h_XMMatrixPerspectiveFovLH, 4, 16),
    ("XMMatrixPerspectiveFovRH", h_XMMatrixPerspectiveFovRH, 4, 16),
    ("XMMatrixPerspectiveLH", h_XMMatrixPerspectiveLH, 4, 16),
    ("XMMatrixPerspectiveOffCenterLH", h_XMMatrixPerspectiveOffCenterLH, 6, 16),
    ("XMMatrixPerspectiveOffCenterRH", h_XMMatrixPerspectiveOffCenterRH, 6, 16),
    ("XMMatrixPerspectiveRH", h_XMMatrixPerspectiveRH, 4, 16),
    ("XMMatrixReflect", h_XMMatrixReflect, 4, 16),
    ("XMMatrixRotationAxis", h_XMMatrixRotationAxis, 5, 16),
    ("XMMatrixRotationNormal", h_XMMatrixRotationNormal, 5, 16),
    ("XMMatrixRotationQuaternion", h_XMMatrixRotationQuaternion, 4, 16),
    ("XMMatrixRotationRollPitchYaw", h_XMMatrixRotationRollPitchYaw, 3, 16),
    ("XMMatrixRotationRollPitchYawFromVector", h_XMMatrixRotationRollPitchYawFromVector, 4, 16),
    ("XMMatrixRotationX", h_XMMatrixRotationX, 1, 16),
    ("XMMatrixRotationY", h_XMMatrixRotationY, 1, 16),
    ("XMMatrixRotationZ", h_XMMatrixRotationZ, 1, 16),
    ("XMMatrixScaling", h_XMMatrixScaling, 3, 16),
    ("XMMatrixScalingFromVector", h_XMMatrixScalingFromVector, 4, 16),
    ("XMMatrixSet", h_XMMatrixSet, 16, 16),
    ("XMMatrixShadow", h_XMMatrixShadow, 8, 16),
    ("XMMatrixTransformation", h_XMMatrixTransformation, 24, 16),
    ("XMMatrixTransformation2D", h_XMMatrixTransformation2D, 18, 16),
    ("XMMatrixTranslation", h_XMMatrixTranslation, 3, 16),
    ("XMMatrixTranslationFromVector", h_XMMatrixTranslationFromVector, 4, 16),
    ("XMMatrixTranspose", h_XMMatrixTranspose, 16, 16),
    ("XMMatrixVectorTensorProduct", h_XMMatrixVectorTensorProduct, 8, 16),
    ("XMMatrix_add", h_XMMatrix_add, 32, 16),
    ("XMMatrix_add_assign", h_XMMatrix_add_assign, 32, 16),
    ("XMMatrix_deref", h_XMMatrix_deref, 16, 16),
    ("XMMatrix_div_assign_f32", h_XMMatrix_div_assign_f32, 17, 16),
    ("XMMatrix_div_f32", h_XMMatrix_div_f32, 17, 16),
    ("XMMatrix_eq", h_XMMatrix_eq, 32, 1),
    ("XMMatrix_from16", h_XMMatrix_from16, 16, 16),
    ("XMMatrix_from44", h_XMMatrix_from44, 16, 16),
    ("XMMatrix_into16", h_XMMatrix_into16, 16, 16),
    ("XMMatrix_into44", h_XMMatrix_into44, 16, 16),
    ("XMMatrix_mul", h_XMMatrix_mul, 32, 16),
    ("XMMatrix_mul_assign", h_XMMatrix_mul_assign, 32, 16),
    ("XMMatrix_mul_assign_f32", h_XMMatrix_mul_assign_f32, 17, 16),
    ("XMMatrix_mul_f32", h_XMMatrix_mul_f32, 17, 16),
    ("XMMatrix_neg", h_XMMatrix_neg, 16, 16),
    ("XMMatrix_set", h_XMMatrix_set, 16, 16),
    ("XMMatrix_sub", h_XMMatrix_sub, 32, 16),
    ("XMMatrix_sub_assign", h_XMMatrix_sub_assign, 32, 16),
    ("XMMax", h_XMMax, 2, 1),
    ("XMMax_i32", h_XMMax_i32, 2, 1),
    ("XMMin", h_XMMin, 2, 1),
    ("XMMin_i32", h_XMMin_i32, 2, 1),
    ("XMPlaneDot", h_XMPlaneDot, 8, 4),
    ("XMPlaneDotCoord", h_XMPlaneDotCoord, 8, 4),
    ("XMPlaneDotNormal", h_XMPlaneDotNormal, 8, 4),
    ("XMPlaneEqual", h_XMPlaneEqual, 8, 1),
    ("XMPlaneFromPointNormal", h_XMPlaneFromPointNormal, 8, 4),
    ("XMPlaneFromPoints", h_XMPlaneFromPoints, 12, 4),
    ("XMPlaneIntersectLine", h_XMPlaneIntersectLine, 12, 4),
    ("XMPlaneIntersectPlane", h_XMPlaneIntersectPlane, 16, 8),
    ("XMPlaneIsInfinite", h_XMPlaneIsInfinite, 4, 1),
    ("XMPlaneIsNaN", h_XMPlaneIsNaN, 4, 1),
    ("XMPlaneNearEqual", h_XMPlaneNearEqual, 12, 1),
    ("XMPlaneNormalize", h_XMPlaneNormalize, 4, 4),
    ("XMPlaneNormalizeEst", h_XMPlaneNormalizeEst, 4, 4),
    ("XMPlaneNotEqual", h_XMPlaneNotEqual, 8, 1),
    ("XMPlaneTransform", h_XMPlaneTransform, 20, 4),
    ("XMQuaternionBaryCentric", h_XMQuaternionBaryCentric, 14, 4),
    ("XMQuaternionBaryCentricV", h_XMQuaternionBaryCentricV, 20, 4),
    ("XMQuaternionConjugate", h_XMQuaternionConjugate, 4, 4),
    ("XMQuaternionDot", h_XMQuaternionDot, 8, 4),
    ("XMQuaternionEqual", h_XMQuaternionEqual, 8, 1),
    ("XMQuaternionExp", h_XMQuaternionExp, 4, 4),
    ("XMQuaternionIdentity", h_XMQuaternionIdentity, 0, 4),
    ("XMQuaternionInverse", h_XMQuaternionInverse, 4, 4),
    ("XMQuaternionIsIdentity", h_XMQuaternionIsIdentity, 4, 1),
    ("XMQuaternionIsInfinite", h_XMQuaternionIsInfinite, 4, 1),
    ("XMQuaternionIsNaN", h_XMQuaternionIsNaN, 4, 1),
    ("XMQuaternionLength", h_XMQuaternionLength, 4, 4),
    ("XMQuaternionLengthSq", h_XMQuaternionLengthSq, 4, 4),
    ("XMQuaternionLn", h_XMQuaternionLn, 4, 4),
    ("XMQuaternionMultiply", h_XMQuaternionMultiply, 8, 4),
    ("XMQuaternionNormalize", h_XMQuaternionNormalize, 4, 4),
    ("XMQuaternionNormalizeEst", h_XMQuaternionNormalizeEst, 4, 4),
    ("XMQuaternionNotEqual", h_XMQuaternionNotEqual, 8, 1),
    ("XMQuaternionReciprocalLength", h_XMQuaternionReciprocalLength, 4, 4),
    ("XMQuaternionRotationAxis", h_XMQuaternionRotationAxis, 5, 4),
    ("XMQuaternionRotationMatrix", h_XMQuaternionRotationMatrix, 16, 4),
    ("XMQuaternionRotationNormal", h_XMQuaternionRotationNormal, 5, 4),
    ("XMQuaternionRotationRollPitchYaw", h_XMQuaternionRotationRollPitchYaw, 3, 4),
    ("XMQuaternionRotationRollPitchYawFromVector", h_XMQuaternionRotationRollPitchYawFromVector, 4, 4),
    ("XMQuaternionSlerp", h_XMQuaternionSlerp, 9, 4),
    ("XMQuaternionSlerpV", h_XMQuaternionSlerpV, 12, 4),
    ("XMQuaternionSquad", h_XMQuaternionSquad, 17, 4),
    ("XMQuaternionSquadSetup", h_XMQuaternionSquadSetup, 28, 12),
    ("XMQuaternionSquadV", h_XMQuaternionSquadV, 20, 4),
    ("XMQuaternionToAxisAngle", h_XMQuaternionToAxisAngle, 9, 5),
    ("XMScalarACos", h_XMScalarACos, 1, 1),
    ("XMScalarACosEst", h_XMScalarACosEst, 1, 1),
    ("XMScalarASin", h_XMScalarASin, 1, 1),
    ("XMScalarASinEst", h_XMScalarASinEst, 1, 1),
    ("XMScalarCos", h_XMScalarCos, 1, 1),
    ("XMScalarCosEst", h_XMScalarCosEst, 1, 1),
    ("XMScalarModAngle", h_XMScalarModAngle, 1, 1),
    ("XMScalarNearEqual", h_XMScalarNearEqual, 3, 1),
    ("XMScalarSin", h_XMScalarSin, 1, 1),
    ("XMScalarSinCos", h_XMScalarSinCos, 3, 2),
    ("XMScalarSinCosEst", h_XMScalarSinCosEst, 3, 2),
    ("XMScalarSinEst", h_XMScalarSinEst, 1, 1),
    ("XMStoreFloat", h_XMStoreFloat, 5, 1),
    ("XMStoreFloat2", h_XMStoreFloat2, 6, 2),
    ("XMStoreFloat3", h_XMStoreFloat3, 7, 3),
    ("XMStoreFloat3A", h_XMStoreFloat3A, 7, 3),
    ("XMStoreFloat3x3", h_XMStoreFloat3x3, 25, 9),
    ("XMStoreFloat3x4", h_XMStoreFloat3x4, 28, 12),
    ("XMStoreFloat4", h_XMStoreFloat4, 8, 4),
    ("XMStoreFloat4A", h_XMStoreFloat4A, 8, 4),
    ("XMStoreFloat4x3", h_XMStoreFloat4x3, 28, 12),
    ("XMStoreFloat4x4", h_XMStoreFloat4x4, 32, 16),
    ("XMStoreFloat4x4A", h_XMStoreFloat4x4A, 32, 16),
    ("XMStoreInt2", h_XMStoreInt2, 6, 2),
    ("XMStoreInt3", h_XMStoreInt3, 7, 3),
    ("XMStoreInt4", h_XMStoreInt4, 8, 4),
    ("XMUINT2_as_mut_u322", h_XMUINT2_as_mut_u322, 4, 2),
    ("XMUINT2_as_ref_u322", h_XMUINT2_as_ref_u322, 2, 2),
    ("XMUINT2_fields", h_XMUINT2_fields, 2, 2),
    ("XMUINT2_from_ref_u322", h_XMUINT2_from_ref_u322, 2, 2),
    ("XMUINT2_from_u322", h_XMUINT2_from_u322, 2, 2),
    ("XMUINT2_into_ref_u322", h_XMUINT2_into_ref_u322, 2, 2),
    ("XMUINT2_into_u322", h_XMUINT2_into_u322, 2, 2),
    ("XMUINT2_set", h_XMUINT2_set, 2, 2),
    ("XMUINT3_as_mut_u323", h_XMUINT3_as_mut_u323, 6, 3),
    ("XMUINT3_as_ref_u323", h_XMUINT3_as_ref_u323, 3, 3),
    ("XMUINT3_fields", h_XMUINT3_fields, 3, 3),
    ("XMUINT3_from_ref_u323", h_XMUINT3_from_ref_u323, 3, 3),
    ("XMUINT3_from_u323", h_XMUINT3_from_u323, 3, 3),
    ("XMUINT3_into_ref_u323", h_XMUINT3_into_ref_u323, 3, 3),
    ("XMUINT3_into_u323", h_XMUINT3_into_u323, 3, 3),
    ("XMUINT3_set", h_XMUINT3_set, 3, 3),
    ("XMUINT4_as_mut_u324", h_XMUINT4_as_mut_u324, 8, 4),
    ("XMUINT4_as_ref_u324", h_XMUINT4_as_ref_u324, 4, 4),
    ("XMUINT4_fields", h_XMUINT4_fields, 4, 4),
    ("XMUINT4_from_ref_u324", h_XMUINT4_from_ref_u324, 4, 4),
    ("XMUINT4_from_u324", h_XMUINT4_from_u324, 4, 4),
    ("XMUINT4_into_ref_u324", h_XMUINT4_into_ref_u324, 4, 4),
    ("XMUINT4_into_u324", h_XMUINT4_into_u324, 4, 4),
    ("XMUINT4_set", h_XMUINT4_set, 4, 4),
    ("XMVECTORF32_deref", h_XMVECTORF32_deref, 4, 4),
    ("XMVECTORI32_deref", h_XMVECTORI32_deref, 4, 4),
    ("XMVECTORU32_deref", h_XMVECTORU32_deref, 4, 4),
    ("XMVector2AngleBetweenNormals", h_XMVector2AngleBetweenNormals, 8, 4),
    ("XMVector2AngleBetweenNormalsEst", h_XMVector2AngleBetweenNormalsEst, 8, 4),
    ("XMVector2AngleBetweenVectors", h_XMVector2AngleBetweenVectors, 8, 4),
    ("XMVector2ClampLength", h_XMVector2ClampLength, 6, 4),
    ("XMVector2ClampLengthV", h_XMVector2ClampLengthV, 12, 4),
    ("XMVector2Cross", h_XMVector2Cross, 8, 4),
    ("XMVector2Dot", h_XMVector2Dot, 8, 4),
    ("XMVector2Equal", h_XMVector2Equal, 8, 1),
    ("XMVector2EqualInt", h_XMVector2EqualInt, 8, 1),
    ("XMVector2EqualIntR", h_XMVector2EqualIntR, 8, 1),
    ("XMVector2EqualR", h_XMVector2EqualR, 8, 1),
    ("XMVector2Greater", h_XMVector2Greater, 8, 1),
    ("XMVector2GreaterOrEqual", h_XMVector2GreaterOrEqual, 8, 1),
    ("XMVector2GreaterOrEqualR", h_XMVector2GreaterOrEqualR, 8, 1),
    ("XMVector2GreaterR", h_XMVector2GreaterR, 8, 1),
    ("XMVector2InBounds", h_XMVector2InBounds, 8, 1),
    ("XMVector2IntersectLine", h_XMVector2IntersectLine, 16, 4),
    ("XMVector2IsInfinite", h_XMVector2IsInfinite, 4, 1),
    ("XMVector2IsNaN", h_XMVector2IsNaN, 4, 1),
    ("XMVector2Length", h_XMVector2Length, 4, 4),
    ("XMVector2LengthEst", h_XMVector2LengthEst, 4, 4),
    ("XMVector2LengthSq", h_XMVector2LengthSq, 4, 4),
    ("XMVector2Less", h_XMVector2Less, 8, 1),
    ("XMVector2LessOrEqual", h_XMVector2LessOrEqual, 8, 1),
    ("XMVector2LinePointDistance", h_XMVector2LinePointDistance, 12, 4),
    ("XMVector2NearEqual", h_XMVector2NearEqual, 12, 1),
    ("XMVector2Normalize", h_XMVector2Normalize, 4, 4),
    ("XMVector2NormalizeEst", h_XMVector2NormalizeEst, 4, 4),
    ("XMVector2NotEqual", h_XMVector2NotEqual, 8, 1),
    ("XMVector2NotEqualInt", h_XMVector2NotEqualInt, 8, 1),
    ("XMVector2Orthogonal", h_XMVector2Orthogonal, 4, 4),
    ("XMVector2ReciprocalLength", h_XMVector2ReciprocalLength, 4, 4),
    ("XMVector2ReciprocalLengthEst", h_XMVector2ReciprocalLengthEst, 4, 4),
    ("XMVector2Reflect", h_XMVector2Reflect, 8, 4),
    ("XMVector2Refract", h_XMVector2Refract, 9, 4),
    ("XMVector2RefractV", h_XMVector2RefractV, 12, 4),
    ("XMVector2Transform", h_XMVector2Transform, 20, 4),
    ("XMVector2TransformCoord", h_XMVector2TransformCoord, 20, 4),
    ("XMVector2TransformNormal", h_XMVector2TransformNormal, 20, 4),
    ("XMVector3AngleBetweenNormals", h_XMVector3AngleBetweenNormals, 8, 4),
    ("XMVector3AngleBetweenNormalsEst", h_XMVector3AngleBetweenNormalsEst, 8, 4),
    ("XMVector3AngleBetweenVectors", h_XMVector3AngleBetweenVectors, 8, 4),
    ("XMVector3ClampLength", h_XMVector3ClampLength, 6, 4),
    ("XMVector3ClampLengthV", h_XMVector3ClampLengthV, 12, 4),
    ("XMVector3ComponentsFromNormal", h_XMVector3ComponentsFromNormal, 16, 8),
    ("XMVector3Cross", h_XMVector3Cross, 8, 4),
    ("XMVector3Dot", h_XMVector3Dot, 8, 4),
    ("XMVector3Equal", h_XMVector3Equal, 8, 1),
    ("XMVector3EqualInt", h_XMVector3EqualInt, 8, 1),
    ("XMVector3EqualIntR", h_XMVector3EqualIntR, 8, 1),
    ("XMVector3EqualR", h_XMVector3EqualR, 8, 1),
    ("XMVector3Greater", h_XMVector3Greater, 8, 1),
    ("XMVector3GreaterOrEqual", h_XMVector3GreaterOrEqual, 8, 1),
    ("XMVector3GreaterOrEqualR", h_XMVector3GreaterOrEqualR, 8, 1),
    ("XMVector3GreaterR", h_XMVector3GreaterR, 8, 1),
    ("XMVector3InBounds", h_XMVector3InBounds, 8, 1),
    ("XMVector3InverseRotate", h_XMVector3InverseRotate, 8, 4),
    ("XMVector3IsInfinite", h_XMVector3IsInfinite, 4, 1),
    ("XMVector3IsNaN", h_XMVector3IsNaN, 4, 1),
    ("XMVector3Length", h_XMVector3Length, 4, 4),
    ("XMVector3LengthEst", h_XMVector3LengthEst, 4, 4),
    ("XMVector3LengthSq", h_XMVector3LengthSq, 4, 4),
    ("XMVector3Less", h_XMVector3Less, 8, 1),
    ("XMVector3LessOrEqual", h_XMVector3LessOrEqual, 8, 1),
    ("XMVector3LinePointDistance", h_XMVector3LinePointDistance, 12, 4),
    ("XMVector3NearEqual", h_XMVector3NearEqual, 12, 1),
    ("XMVector3Normalize", h_XMVector3Normalize, 4, 4),
    ("XMVector3NormalizeEst", h_XMVector3NormalizeEst, 4, 4),
    ("XMVector3NotEqual", h_XMVector3NotEqual, 8, 1),
    ("XMVector3NotEqualInt", h_XMVector3NotEqualInt, 8, 1),
    ("XMVector3Orthogonal", h_XMVector3Orthogonal, 4, 4),
    ("XMVector3Project", h_XMVector3Project, 58, 4),
    ("XMVector3ReciprocalLength", h_XMVector3ReciprocalLength, 4, 4),
    ("XMVector3ReciprocalLengthEst", h_XMVector3ReciprocalLengthEst, 4, 4),
    ("XMVector3Reflect", h_XMVector3Reflect, 8, 4),
    ("XMVector3Refract", h_XMVector3Refract, 9, 4),
    ("XMVector3RefractV", h_XMVector3RefractV, 12, 4),
    ("XMVector3Rotate", h_XMVector3Rotate, 8, 4),
    ("XMVector3Transform", h_XMVector3Transform, 20, 4),
    ("XMVector3TransformCoord", h_XMVector3TransformCoord, 20, 4),
    ("XMVector3TransformNormal", h_XMVector3TransformNormal, 20, 4),
    ("XMVector3Unproject", h_XMVector3Unproject, 58, 4),
    ("XMVector4AngleBetweenNormals", h_XMVector4AngleBetweenNormals, 8, 4),
    ("XMVector4AngleBetweenNormalsEst", h_XMVector4AngleBetweenNormalsEst, 8, 4),
    ("XMVector4AngleBetweenVectors", h_XMVector4AngleBetweenVectors, 8, 4),
    ("XMVector4ClampLength", h_XMVector4ClampLength, 6, 4),
    ("XMVector4ClampLengthV", h_XMVector4ClampLengthV, 12, 4),
    ("XMVector4Cross", h_XMVector4Cross, 12, 4),
    ("XMVector4Dot", h_XMVector4Dot, 8, 4),
    ("XMVector4Equal", h_XMVector4Equal, 8, 1),
    ("XMVector4EqualInt", h_XMVector4EqualInt, 8, 1),
    ("XMVector4EqualIntR", h_XMVector4EqualIntR, 8, 1),
    ("XMVector4EqualR", h_XMVector4EqualR, 8, 1),
    ("XMVector4Greater", h_XMVector4Greater, 8, 1),
    ("XMVector4GreaterOrEqual", h_XMVector4GreaterOrEqual, 8, 1),
    ("XMVector4GreaterOrEqualR", h_XMVector4GreaterOrEqualR, 8, 1),
    ("XMVector4GreaterR", h_XMVector4GreaterR, 8, 1),
    ("XMVector4InBounds", h_XMVector4InBounds, 8, 1),
    ("XMVector4IsInfinite", h_XMVector4IsInfinite, 4, 1),
    ("XMVector4IsNaN", h_XMVector4IsNaN, 4, 1),
    ("XMVector4Length", h_XMVector4Length, 4, 4),
    ("XMVector4LengthEst", h_XMVector4LengthEst, 4, 4),
    ("XMVector4LengthSq", h_XMVector4LengthSq, 4, 4),
    ("XMVector4Less", h_XMVector4Less, 8, 1),
    ("XMVector4LessOrEqual", h_XMVector4LessOrEqual, 8, 1),
    ("XMVector4NearEqual", h_XMVector4NearEqual, 12, 1),
    ("XMVector4Normalize", h_XMVector4Normalize, 4, 4),
    ("XMVector4NormalizeEst", h_XMVector4NormalizeEst, 4, 4),
    ("XMVector4NotEqual", h_XMVector4NotEqual, 8, 1),
    ("XMVector4NotEqualInt", h_XMVector4NotEqualInt, 8, 1),
    ("XMVector4Orthogonal", h_XMVector4Orthogonal, 4, 4),
    ("XMVector4ReciprocalLength", h_XMVector4ReciprocalLength, 4, 4),
    ("XMVector4ReciprocalLengthEst", h_XMVector4ReciprocalLengthEst, 4, 4),
    ("XMVector4Reflect", h_XMVector4Reflect, 8, 4),
    ("XMVector4Refract", h_XMVector4Refract, 9, 4),
    ("XMVector4RefractV", h_XMVector4RefractV, 12, 4),
    ("XMVector4Transform", h_XMVector4Transform, 20, 4),
    ("XMVectorACos", h_XMVectorACos, 4, 4),
    ("XMVectorACosEst", h_XMVectorACosEst, 4, 4),
    ("XMVectorASin", h_XMVectorASin, 4, 4),
    ("XMVectorASinEst", h_XMVectorASinEst, 4, 4),
    ("XMVectorATan", h_XMVectorATan, 4, 4),
    ("XMVectorATan2", h_XMVectorATan2, 8, 4),
    ("XMVectorATan2Est", h_XMVectorATan2Est, 8, 4),
    ("XMVectorATanEst", h_XMVectorATanEst, 4, 4),
    ("XMVectorAbs", h_XMVectorAbs, 4, 4),
    ("XMVectorAdd", h_XMVectorAdd, 8, 4),
    ("XMVectorAddAngles", h_XMVectorAddAngles, 8, 4),
    ("XMVectorAndCInt", h_XMVectorAndCInt, 8, 4),
    ("XMVectorAndInt", h_XMVectorAndInt, 8, 4),
    ("XMVectorBaryCentric", h_XMVectorBaryCentric, 14, 4),
    ("XMVectorBaryCentricV", h_XMVectorBaryCentricV, 20, 4),
    ("XMVectorCatmullRom", h_XMVectorCatmullRom, 17, 4),
    ("XMVectorCatmullRomV", h_XMVectorCatmullRomV, 20, 4),
    ("XMVectorCeiling", h_XMVectorCeiling, 4, 4),
    ("XMVectorClamp", h_XMVectorClamp, 12, 4),
    ("XMVectorCos", h_XMVectorCos, 4, 4),
    ("XMVectorCosEst", h_XMVectorCosEst, 4, 4),
    ("XMVectorCosH", h_XMVectorCosH, 4, 4),
    ("XMVectorDivide", h_XMVectorDivide, 8, 4),
    ("XMVectorEqual", h_XMVectorEqual, 8, 4),
    ("XMVectorEqualInt", h_XMVectorEqualInt, 8, 4),
    ("XMVectorEqualIntR", h_XMVectorEqualIntR, 9, 5),
    ("XMVectorEqualR", h_XMVectorEqualR, 9, 5),
    ("XMVectorExp", h_XMVectorExp, 4, 4),
    ("XMVectorExp2", h_XMVectorExp2, 4, 4),
    ("XMVectorFalseInt", h_XMVectorFalseInt, 0, 4),
    ("XMVectorFloor", h_XMVectorFloor, 4, 4),
    ("XMVectorGetByIndex", h_XMVectorGetByIndex, 5, 1),
    ("XMVectorGetIntByIndex", h_XMVectorGetIntByIndex, 5, 1),
    ("XMVectorGetIntW", h_XMVectorGetIntW, 4, 1),
    ("XMVectorGetIntX", h_XMVectorGetIntX, 4, 1),
    ("XMVectorGetIntY", h_XMVectorGetIntY, 4, 1),
    ("XMVectorGetIntZ", h_XMVectorGetIntZ, 4, 1),
    ("XMVectorGetW", h_XMVectorGetW, 4, 1),
    ("XMVectorGetWPtr", h_XMVectorGetWPtr, 5, 1),
    ("XMVectorGetX", h_XMVectorGetX, 4, 1),
    ("XMVectorGetXPtr", h_XMVectorGetXPtr, 5, 1),
    ("XMVectorGetY", h_XMVectorGetY, 4, 1),
    ("XMVectorGetYPtr", h_XMVectorGetYPtr, 5, 1),
    ("XMVectorGetZ", h_XMVectorGetZ, 4, 1),
    ("XMVectorGetZPtr", h_XMVectorGetZPtr, 5, 1),
    ("XMVectorGreater", h_XMVectorGreater, 8, 4),
    ("XMVectorGreaterOrEqual", h_XMVectorGreaterOrEqual, 8, 4),
    ("XMVectorGreaterOrEqualR", h_XMVectorGreaterOrEqualR, 9, 5),
    ("XMVectorGreaterR", h_XMVectorGreaterR, 9, 5),
    ("XMVectorHermite", h_XMVectorHermite, 17, 4),
    ("XMVectorHermiteV", h_XMVectorHermiteV, 20, 4),
    ("XMVectorInBounds", h_XMVectorInBounds, 8, 4),
    ("XMVectorInBoundsR", h_XMVectorInBoundsR, 9, 5),
    ("XMVectorInsert", h_XMVectorInsert, 13, 4),
    ("XMVectorIsInfinite", h_XMVectorIsInfinite, 4, 4),
    ("XMVectorIsNaN", h_XMVectorIsNaN, 4, 4),
    ("XMVectorLerp", h_XMVectorLerp, 9, 4),
    ("XMVectorLerpV", h_XMVectorLerpV, 12, 4),
    ("XMVectorLess", h_XMVectorLess, 8, 4),
    ("XMVectorLessOrEqual", h_XMVectorLessOrEqual, 8, 4),
    ("XMVectorMax", h_XMVectorMax, 8, 4),
    ("XMVectorMergeXY", h_XMVectorMergeXY, 8, 4),
    ("XMVectorMergeZW", h_XMVectorMergeZW, 8, 4),
    ("XMVectorMin", h_XMVectorMin, 8, 4),
    ("XMVectorMod", h_XMVectorMod, 8, 4),
    ("XMVectorModAngles", h_XMVectorModAngles, 4, 4),
    ("XMVectorMultiply", h_XMVectorMultiply, 8, 4),
    ("XMVectorMultiplyAdd", h_XMVectorMultiplyAdd, 12, 4),
    ("XMVectorNearEqual", h_XMVectorNearEqual, 12, 4),
    ("XMVectorNegate", h_XMVectorNegate, 4, 4),
    ("XMVectorNegativeMultiplySubtract", h_XMVectorNegativeMultiplySubtract, 12, 4),
    ("XMVectorNorInt", h_XMVectorNorInt, 8, 4),
    ("XMVectorNotEqual", h_XMVectorNotEqual, 8, 4),
    ("XMVectorNotEqualInt", h_XMVectorNotEqualInt, 8, 4),
    ("XMVectorOrInt", h_XMVectorOrInt, 8, 4),
    ("XMVectorPermute", h_XMVectorPermute, 12, 4),
    ("XMVectorPow", h_XMVectorPow, 8, 4),
    ("XMVectorReciprocal", h_XMVectorReciprocal, 4, 4),
    ("XMVectorReciprocalEst", h_XMVectorReciprocalEst, 4, 4),
    ("XMVectorReciprocalSqrt", h_XMVectorReciprocalSqrt, 4, 4),
    ("XMVectorReciprocalSqrtEst", h_XMVectorReciprocalSqrtEst, 4, 4),
    ("XMVectorReplicate", h_XMVectorReplicate, 1, 4),
    ("XMVectorReplicateInt", h_XMVectorReplicateInt, 1, 4),
    ("XMVectorReplicatePtr", h_XMVectorReplicatePtr, 1, 4),
    ("XMVectorRotateLeft", h_XMVectorRotateLeft, 5, 4),
    ("XMVectorRotateRight", h_XMVectorRotateRight, 5, 4),
    ("XMVectorRound", h_XMVectorRound, 4, 4),
    ("XMVectorSaturate", h_XMVectorSaturate, 4, 4),
    ("XMVectorScale", h_XMVectorScale, 5, 4),
    ("XMVectorSelect", h_XMVectorSelect, 12, 4),
    ("XMVectorSelectControl", h_XMVectorSelectControl, 4, 4),
    ("XMVectorSet", h_XMVectorSet, 4, 4),
    ("XMVectorSetBinaryConstant", h_XMVectorSetBinaryConstant, 4, 4),
    ("XMVectorSetByIndex", h_XMVectorSetByIndex, 6, 4),
    ("XMVectorSetInt", h_XMVectorSetInt, 4, 4),
    ("XMVectorSetIntByIndex", h_XMVectorSetIntByIndex, 6, 4),
    ("XMVectorSetIntW", h_XMVectorSetIntW, 5, 4),
    ("XMVectorSetIntX", h_XMVectorSetIntX, 5, 4),
    ("XMVectorSetIntY", h_XMVectorSetIntY, 5, 4),
    ("XMVectorSetIntZ", h_XMVectorSetIntZ, 5, 4),
    ("XMVectorSetW", h_XMVectorSetW, 5, 4),
    ("XMVectorSetX", h_XMVectorSetX, 5, 4),
    ("XMVectorSetY", h_XMVectorSetY, 5, 4),
    ("XMVectorSetZ", h_XMVectorSetZ, 5, 4),
    ("XMVectorShiftLeft", h_XMVectorShiftLeft, 9, 4),
    ("XMVectorSin", h_XMVectorSin, 4, 4),
    ("XMVectorSinCos", h_XMVectorSinCos, 12, 8),
    ("XMVectorSinCosEst", h_XMVectorSinCosEst, 12, 8),
    ("XMVectorSinEst", h_XMVectorSinEst, 4, 4),
    ("XMVectorSinH", h_XMVectorSinH, 4, 4),
    ("XMVectorSplatConstant", h_XMVectorSplatConstant, 2, 4),
    ("XMVectorSplatConstantInt", h_XMVectorSplatConstantInt, 1, 4),
    ("XMVectorSplatEpsilon", h_XMVectorSplatEpsilon, 0, 4),
    ("XMVectorSplatInfinity", h_XMVectorSplatInfinity, 0, 4),
    ("XMVectorSplatOne", h_XMVectorSplatOne, 0, 4),
    ("XMVectorSplatQNaN", h_XMVectorSplatQNaN, 0, 4),
    ("XMVectorSplatSignMask", h_XMVectorSplatSignMask, 0, 4),
    ("XMVectorSplatW", h_XMVectorSplatW, 4, 4),
    ("XMVectorSplatX", h_XMVectorSplatX, 4, 4),
    ("XMVectorSplatY", h_XMVectorSplatY, 4, 4),
    ("XMVectorSplatZ", h_XMVectorSplatZ, 4, 4),
    ("XMVectorSqrt", h_XMVectorSqrt, 4, 4),
    ("XMVectorSqrtEst", h_XMVectorSqrtEst, 4, 4),
    ("XMVectorSubtract", h_XMVectorSubtract, 8, 4),
    ("XMVectorSubtractAngles", h_XMVectorSubtractAngles, 8, 4),
    ("XMVectorSum", h_XMVectorSum, 4, 4),
    ("XMVectorSwizzle", h_XMVectorSwizzle, 8, 4),
    ("XMVectorTan", h_XMVectorTan, 4, 4),
    ("XMVectorTanEst", h_XMVectorTanEst, 4, 4),
    ("XMVectorTanH", h_XMVectorTanH, 4, 4),
    ("XMVectorTrueInt", h_XMVectorTrueInt, 0, 4),
    ("XMVectorTruncate", h_XMVectorTruncate, 4, 4),
    ("XMVectorXorInt", h_XMVectorXorInt, 8, 4),
    ("XMVectorZero", h_XMVectorZero, 0, 4),
    ("XMVector_add", h_XMVector_add, 8, 4),
    ("XMVector_add_assign", h_XMVector_add_assign, 8, 4),
    ("XMVector_deref", h_XMVector_deref, 4, 4),
    ("XMVector_deref_mut", h_XMVector_deref_mut, 8, 4),
    ("XMVector_div", h_XMVector_div, 8, 4),
    ("XMVector_div_assign", h_XMVector_div_assign, 8, 4),
    ("XMVector_div_assign_f32", h_XMVector_div_assign_f32, 5, 4),
    ("XMVector_div_f32", h_XMVector_div_f32, 5, 4),
    ("XMVector_eq", h_XMVector_eq, 8, 1),
    ("XMVector_from", h_XMVector_from, 4, 4),
    ("XMVector_mul", h_XMVector_mul, 8, 4),
    ("XMVector_mul_assign", h_XMVector_mul_assign, 8, 4),
    ("XMVector_mul_assign_f32", h_XMVector_mul_assign_f32, 5, 4),
    ("XMVector_mul_f32", h_XMVector_mul_f32, 5, 4),
    ("XMVector_neg", h_XMVector_neg, 4, 4),
    ("XMVector_set", h_XMVector_set, 4, 4),
    ("XMVector_sub", h_XMVector_sub, 8, 4),
    ("XMVector_sub_assign", h_XMVector_sub_assign, 8, 4),
    ("f32_mul_XMMatrix", h_f32_mul_XMMatrix, 17, 16),
    ("f32_mul_XMVector", h_f32_mul_XMVector, 5, 4),
    ("triangle_ContainedBy", h_triangle_ContainedBy, 36, 1),
    ("triangle_IntersectsPlane", h_triangle_IntersectsPlane, 16, 1),
    ("triangle_IntersectsRay", h_triangle_IntersectsRay, 21, 2),
    ("triangle_IntersectsTriangle", h_triangle_IntersectsTriangle, 24, 1),
];
