//! Harness intrinsics.  In the symbolic build they are interpreted by the engine; in the native
//! replay they are ordinary functions that read one concrete assignment (see /verif/replay).
mod raw {
    extern "C-unwind" {
        pub fn rs_int(w: u32, lo: i64, hi: i64) -> i64;
        pub fn rs_any(w: u32) -> u64;
        pub fn rs_choice(lo: u64, hi: u64) -> u64;
        pub fn rs_shard();
        pub fn rs_assume(c: bool);
        pub fn rs_assert(c: bool, id: u32);
        pub fn rs_panic_if(c: bool);
        pub fn rs_panic_ok();
        pub fn rs_panic_end();
        pub fn rs_observe(v: u64);
        pub fn rs_cover(id: u32);
        pub fn rs_tier() -> u64;
    }
}
/// a symbolic `w`-bit signed integer in `lo..=hi`, sign-extended
pub fn int(w: u32, lo: i64, hi: i64) -> i64 {
    unsafe { raw::rs_int(w, lo, hi) }
}
/// a symbolic `w`-bit pattern, zero-extended
pub fn any(w: u32) -> u64 {
    unsafe { raw::rs_any(w) }
}
/// a symbolic value in `lo..=hi` that is resolved by forking (sizes, layouts, ...)
pub fn choice(lo: usize, hi: usize) -> usize {
    unsafe { raw::rs_choice(lo as u64, hi as u64) as usize }
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choice(0, xs.len() - 1)]
}
pub fn flip() -> bool {
    choice(0, 1) == 1
}
/// work distribution: everything chosen so far decides which worker explores this subtree
pub fn shard() {
    unsafe { raw::rs_shard() }
}
pub fn assume(c: bool) {
    unsafe { raw::rs_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { raw::rs_assert(c, id) }
}
/// from here on the code has to panic exactly if `c`
pub fn panic_if(c: bool) {
    unsafe { raw::rs_panic_if(c) }
}
/// from here on the code may panic
pub fn panic_ok() {
    unsafe { raw::rs_panic_ok() }
}
/// end of a `panic_if`/`panic_ok` region: reaching this with `c` true is a missed rejection
pub fn panic_end() {
    unsafe { raw::rs_panic_end() }
}
pub fn observe(v: u64) {
    unsafe { raw::rs_observe(v) }
}
pub fn cover(id: u32) {
    unsafe { raw::rs_cover(id) }
}
/// at least one execution within the bounds has to reach `cover(id)` (and observe `id` there)
pub fn expect(id: u32) {
    cover(id | 1 << 31)
}
/// 0: quick, 1: thorough
pub fn thorough() -> bool {
    unsafe { raw::rs_tier() == 1 }
}

/// exported entry points of a property module, and their table for the native replay
macro_rules! harness {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() { $body; })*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
