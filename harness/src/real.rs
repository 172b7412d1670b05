//! `R`: elements of the field of real numbers, represented by engine handles. Every operation of
//! the code under test on a field element becomes a term over mathematical reals; every comparison
//! becomes a branch condition.
use crate::vf::*;
use algeo::core::num::{EpsilonEquality, Field, One, StabilityCmp, Zero};
use std::cmp::Ordering;
use std::iter::{Product, Sum};
use std::ops::*;

/// handle 1 and 2 are reserved for the constants zero and one (`Field::ZERO` must be const)
#[derive(Clone, Copy)]
pub struct R(pub u32);
pub const RZERO: u32 = 0xffff_fff0;
pub const RONE: u32 = 0xffff_fff1;

impl R {
    pub fn h(self) -> u32 {
        match self.0 {
            RZERO => unsafe { vf_r_const(0, 1) },
            RONE => unsafe { vf_r_const(1, 1) },
            x => x,
        }
    }
    pub fn var() -> R {
        R(unsafe { vf_r_var() })
    }
    pub fn int(n: i64) -> R {
        R(unsafe { vf_r_const(n, 1) })
    }
    pub fn frac(n: i64, d: i64) -> R {
        R(unsafe { vf_r_const(n, d) })
    }
    /// a variable different from zero
    pub fn nz() -> R {
        let x = R::var();
        assume(!x.is_zero());
        x
    }
    pub fn same(self, o: R, what: &str) {
        unsafe { vf_r_same(self.h(), o.h(), what.as_ptr(), what.len()) }
    }
    pub fn less(self, o: R) -> bool {
        unsafe { vf_r_lt(self.h(), o.h()) }
    }
}
impl std::fmt::Debug for R {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("R")
    }
}
impl std::fmt::Display for R {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("R")
    }
}
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        unsafe { vf_r_eq(self.h(), o.h()) }
    }
}
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> {
        Some(if self.less(*o) {
            Ordering::Less
        } else if *self == *o {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
}
impl Add for R {
    type Output = R;
    fn add(self, o: R) -> R {
        R(unsafe { vf_r_add(self.h(), o.h()) })
    }
}
impl Sub for R {
    type Output = R;
    fn sub(self, o: R) -> R {
        R(unsafe { vf_r_sub(self.h(), o.h()) })
    }
}
impl Mul for R {
    type Output = R;
    fn mul(self, o: R) -> R {
        R(unsafe { vf_r_mul(self.h(), o.h()) })
    }
}
impl Div for R {
    type Output = R;
    fn div(self, o: R) -> R {
        if o.is_zero() {
            panic!("division of field elements by zero")
        }
        R(unsafe { vf_r_div(self.h(), o.h()) })
    }
}
impl Neg for R {
    type Output = R;
    fn neg(self) -> R {
        R(unsafe { vf_r_neg(self.h()) })
    }
}
impl AddAssign for R {
    fn add_assign(&mut self, o: R) {
        *self = *self + o
    }
}
impl SubAssign for R {
    fn sub_assign(&mut self, o: R) {
        *self = *self - o
    }
}
impl MulAssign for R {
    fn mul_assign(&mut self, o: R) {
        *self = *self * o
    }
}
impl DivAssign for R {
    fn div_assign(&mut self, o: R) {
        *self = *self / o
    }
}
impl Sum for R {
    fn sum<I: Iterator<Item = R>>(it: I) -> R {
        it.fold(R(RZERO), Add::add)
    }
}
impl Product for R {
    fn product<I: Iterator<Item = R>>(it: I) -> R {
        it.fold(R(RONE), Mul::mul)
    }
}
impl Zero for R {
    const ZERO: R = R(RZERO);
    fn is_zero(&self) -> bool {
        *self == R(RZERO)
    }
}
impl One for R {
    const ONE: R = R(RONE);
    fn is_one(&self) -> bool {
        *self == R(RONE)
    }
}
impl Field for R {
    fn powi32(&self, p: i32) -> R {
        let p = pin(p as u32 as u64) as u32 as i32;
        let mut r = R(RONE);
        for _ in 0..p.unsigned_abs() {
            r = r * *self;
        }
        if p < 0 {
            R(RONE) / r
        } else {
            r
        }
    }
}
impl EpsilonEquality for R {
    fn epsilon_equals(&self, o: &R) -> bool {
        self == o
    }
}
/// restricts pivot searches to columns whose candidates are all nonzero (for the larger shapes)
pub static mut GENERIC: bool = false;
pub fn generic(on: bool) {
    unsafe { GENERIC = on }
}
/// how nonzero candidates compare: 0 arbitrarily, 1 the first is greater, 2 the second, 3 in turns
pub static mut PREFERENCE: u32 = 0;
pub fn preference(p: u32) {
    unsafe { PREFERENCE = p }
}
/// Zero is least; nonzero elements compare arbitrarily (each comparison is an independent choice),
/// so a search for the "most stable" pivot may come back with any nonzero candidate.
impl StabilityCmp for R {
    fn stability_cmp(&self, o: &R) -> Option<Ordering> {
        if unsafe { GENERIC } {
            assume(!self.is_zero());
            assume(!o.is_zero());
        }
        let (a, b) = (self.is_zero(), o.is_zero());
        Some(match (a, b) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => {
                let less = unsafe {
                    match PREFERENCE {
                        0 => choose(2) == 0,
                        1 => false,
                        2 => true,
                        p => {
                            PREFERENCE = 7 - p;
                            p == 3
                        }
                    }
                };
                if less {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
        })
    }
}
