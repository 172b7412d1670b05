#![allow(clippy::all)]
#![allow(unused_imports)]
pub mod vf;
pub mod real;
pub mod num;
pub mod mdeg;
pub mod poly;
pub mod lin;
pub mod cone;
pub mod flt;
pub mod gb;
pub mod enums;
pub mod disp;
pub mod long;
pub mod wide;
pub mod many;

pub fn dispatch(name: &str, args: &[u64]) -> bool {
    num::call(name, args) || mdeg::call(name, args) || poly::call(name, args) || lin::call(name, args) || flt::call(name, args) || gb::call(name, args) || enums::call(name, args) || disp::call(name, args) || long::call(name, args) || many::call(name, args) || hooked(name, args)
}

#[cfg(feature = "hooks")]
fn hooked(name: &str, args: &[u64]) -> bool {
    lin::hooked::call(name, args) || wide::hooked::call(name, args) || cone::hooked::call(name, args)
}
#[cfg(not(feature = "hooks"))]
fn hooked(_: &str, _: &[u64]) -> bool {
    false
}
