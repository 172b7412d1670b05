//! Primitives shared by all harnesses. Under the symbolic executor the `vf_*` functions are
//! interpreted by the engine; in the native replay binary they read a recorded assignment.
#![allow(dead_code)]
extern "C-unwind" {
    fn vf_int(w: u32) -> u64;
    fn vf_sint(w: u32) -> u64;
    fn vf_choose(n: u32) -> u32;
    fn vf_assume(b: bool);
    fn vf_assert(b: bool, p: *const u8, n: usize);
    fn vf_fail(p: *const u8, n: usize);
    fn vf_cover(id: u32);
    fn vf_expect_panic();
    fn vf_fuel(n: u64);
    fn vf_pin(x: u64) -> u64;
    pub fn vf_r_var() -> u32;
    pub fn vf_r_const(n: i64, d: i64) -> u32;
    pub fn vf_r_add(a: u32, b: u32) -> u32;
    pub fn vf_r_sub(a: u32, b: u32) -> u32;
    pub fn vf_r_mul(a: u32, b: u32) -> u32;
    pub fn vf_r_div(a: u32, b: u32) -> u32;
    pub fn vf_r_neg(a: u32) -> u32;
    pub fn vf_r_eq(a: u32, b: u32) -> bool;
    pub fn vf_r_lt(a: u32, b: u32) -> bool;
    pub fn vf_r_same(a: u32, b: u32, p: *const u8, n: usize);
}

/// arbitrary unsigned value of `w` bits
pub fn uint(w: u32) -> u64 {
    unsafe { vf_int(w) }
}
/// arbitrary signed value of `w` bits
pub fn sint(w: u32) -> i64 {
    unsafe { vf_sint(w) as i64 }
}
/// arbitrary signed value in `lo..=hi`
pub fn srange(w: u32, lo: i64, hi: i64) -> i64 {
    let x = sint(w);
    assume((x >= lo) & (x <= hi));
    x
}
pub fn urange(w: u32, hi: u64) -> u64 {
    let x = uint(w);
    assume(x <= hi);
    x
}
/// arbitrary value in `0..n`, decided by forking
pub fn choose(n: u64) -> usize {
    unsafe { vf_choose(n as u32) as usize }
}
pub fn assume(b: bool) {
    unsafe { vf_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, what: &str) {
    unsafe { vf_assert(b, what.as_ptr(), what.len()) }
}
pub fn fail(what: &str) -> ! {
    unsafe { vf_fail(what.as_ptr(), what.len()) };
    loop {}
}
pub fn cover(id: u32) {
    unsafe { vf_cover(id) }
}
/// from here on the path must end in a panic
pub fn expect_panic() {
    unsafe { vf_expect_panic() }
}
/// step budget for the code that follows; running out is a termination violation
pub fn fuel(n: u64) {
    unsafe { vf_fuel(n) }
}
/// makes a value concrete, forking over its feasible values
pub fn pin(x: u64) -> u64 {
    unsafe { vf_pin(x) }
}

macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident($($a:ident),*) $b:block )*) => {
        $( $(#[$m])* #[no_mangle] pub fn $n($($a: u64),*) $b )*
        pub fn call(name: &str, args: &[u64]) -> bool {
            match name {
                $( stringify!($n) => {
                    #[allow(unused_mut, unused_variables)]
                    let mut it = args.iter().copied();
                    $( let $a = it.next().expect("argument"); )*
                    $n($($a),*);
                    true
                } )*
                _ => false,
            }
        }
    };
}
pub(crate) use harnesses;
