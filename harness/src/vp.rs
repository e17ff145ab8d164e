//! Harness interface: these symbols are interpreted by the symbolic engine, and implemented
//! natively (reading a recorded input) by the replay binary.
mod raw {
    extern "C" {
        pub fn vp_sym(p: *mut u8, n: usize);
        pub fn vp_choose(n: u64) -> u64;
        pub fn vp_assume(c: bool);
        pub fn vp_check(c: bool, l: *const u8, n: usize);
        pub fn vp_cover(l: *const u8, n: usize);
        pub fn vp_note(l: *const u8, n: usize);
        pub fn vp_param() -> u64;
        pub fn vp_alloc_limit(n: u64);
        pub fn vp_heap_live() -> u64;
        pub fn vp_heap_peak() -> u64;
        pub fn vp_heap_max() -> u64;
        pub fn vp_heap_reset();
        pub fn vp_concretize(x: u64) -> u64;
        pub fn vp_out(x: u64);
    }
}
static FIXED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From now on, values that would be symbolic are fixed ones instead.
pub fn fix_values() {
    FIXED.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// Undoes it, for the next entry in the same process.
pub fn free_values() {
    FIXED.store(false, std::sync::atomic::Ordering::Relaxed);
}
pub fn sym_bytes(b: &mut [u8]) {
    if FIXED.load(std::sync::atomic::Ordering::Relaxed) {
        for (i, x) in b.iter_mut().enumerate() {
            *x = (i * 41 + 98) as u8;
        }
        return;
    }
    unsafe { raw::vp_sym(b.as_mut_ptr(), b.len()) }
}
pub fn sym_arr<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    sym_bytes(&mut a);
    a
}
pub fn sym_u8() -> u8 {
    sym_arr::<1>()[0]
}
pub fn sym_u16() -> u16 {
    u16::from_le_bytes(sym_arr())
}
pub fn sym_u32() -> u32 {
    u32::from_le_bytes(sym_arr())
}
pub fn sym_u64() -> u64 {
    u64::from_le_bytes(sym_arr())
}
/// Case split: every value in 0..n is explored on its own path.
pub fn choose(n: usize) -> usize {
    unsafe { raw::vp_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { raw::vp_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, l: &'static str) {
    unsafe { raw::vp_check(c, l.as_ptr(), l.len()) }
}
#[inline(never)]
pub fn cover(l: &'static str) {
    unsafe { raw::vp_cover(l.as_ptr(), l.len()) }
}
pub fn note(l: &'static str) {
    unsafe { raw::vp_note(l.as_ptr(), l.len()) }
}
pub fn param() -> usize {
    unsafe { raw::vp_param() as usize }
}
pub fn alloc_limit(n: usize) {
    unsafe { raw::vp_alloc_limit(n as u64) }
}
pub fn heap_live() -> u64 {
    unsafe { raw::vp_heap_live() }
}
pub fn heap_peak() -> u64 {
    unsafe { raw::vp_heap_peak() }
}
pub fn heap_max() -> u64 {
    unsafe { raw::vp_heap_max() }
}
pub fn heap_reset() {
    unsafe { raw::vp_heap_reset() }
}
pub fn concretize(x: u64) -> u64 {
    unsafe { raw::vp_concretize(x) }
}
pub fn out(x: u64) {
    unsafe { raw::vp_out(x) }
}
