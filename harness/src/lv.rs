//! The harness side of the symbolic executor's interface. Under the executor the `lv_*` functions
//! are intercepted by name; natively they are supplied by `native/src/main.rs` from a recorded input list.
extern "C-unwind" {
    /// Any integer in [lo, hi].
    pub fn lv_i64(lo: i64, hi: i64) -> i64;
    /// Any dyadic n / 2^shift with lo <= n <= hi.
    pub fn lv_fix(lo: i64, hi: i64, shift: u32) -> f32;
    /// Any f32 in [lo, hi], arithmetic with rounding error tracked over the reals.
    pub fn lv_real(lo: f64, hi: f64) -> f32;
    /// Any f32 bit pattern, IEEE semantics.
    pub fn lv_f32() -> f32;
    /// A case in [0, n), enumerated and distributed over jobs.
    pub fn lv_case(n: i64) -> i64;
    /// 1 in the thorough tier.
    pub fn lv_tier() -> i64;
    pub fn lv_assume(cond: bool);
    pub fn lv_check(cond: bool, label: *const u8, len: usize);
    pub fn lv_cover(label: *const u8, len: usize);
    /// From here on the path must end in a panic.
    pub fn lv_expect_panic(label: *const u8, len: usize);
}
#[inline(always)]
pub fn int(lo: i64, hi: i64) -> isize {
    unsafe { lv_i64(lo, hi) as isize }
}
#[inline(always)]
pub fn fix(lo: i64, hi: i64, shift: u32) -> f32 {
    unsafe { lv_fix(lo, hi, shift) }
}
#[inline(always)]
pub fn real(lo: f64, hi: f64) -> f32 {
    unsafe { lv_real(lo, hi) }
}
#[inline(always)]
pub fn any_f32() -> f32 {
    unsafe { lv_f32() }
}
#[inline(always)]
pub fn case(n: usize) -> usize {
    unsafe { lv_case(n as i64) as usize }
}
/// a in the quick tier, b in the thorough one.
#[inline(always)]
pub fn tier<T>(a: T, b: T) -> T {
    if unsafe { lv_tier() } == 0 {
        a
    } else {
        b
    }
}
#[inline(always)]
pub fn assume(cond: bool) {
    unsafe { lv_assume(cond) }
}
#[inline(always)]
pub fn check(cond: bool, label: &'static str) {
    unsafe { lv_check(cond, label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn cover(label: &'static str) {
    unsafe { lv_cover(label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn expect_panic(label: &'static str) {
    unsafe { lv_expect_panic(label.as_ptr(), label.len()) }
}

/// |a - b| <= tol, computed in f64.
#[inline(always)]
pub fn near(a: f32, b: f32, tol: f64) -> bool {
    let d = a as f64 - b as f64;
    d <= tol && d >= -tol
}
/// Resolutions: exact and inexact in binary, below and above one.
pub const RES: [f32; 6] = [0.1, 0.25, 1.0, 0.3, 0.05, 2.5];
