//! Integer, Rational and the scalar traits.
use crate::vf::*;
use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, StabilityCmp, Zero};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn int(x: i64) -> Integer {
    Integer(x)
}

/// an arbitrary rational in lowest terms with `w`-bit parts. Coprimality is stated by a Bezout
/// certificate (two more arbitrary integers), which exists exactly for coprime pairs.
pub fn any_rat(w: u32) -> Rational {
    let n = sint(w);
    let d = sint(w);
    assume(d > 0);
    let u = sint(w + 1);
    let v = sint(w + 1);
    assume(n * u + d * v == 1);
    Rational { numer: int(n), denom: int(d) }
}
/// lowest terms, positive denominator, zero as 0/1; `w` bounds the common divisors looked for
fn check_canonical(part: u64, r: Rational, w: u32) {
    if part != 1 {
        return;
    }
    check(r.denom.0 > 0, "the denominator of every result is positive");
    let c = uint(w) as i64;
    assume(c > 1);
    let both = (r.numer.0 % c == 0) & (r.denom.0 % c == 0);
    check(!both, "every result is in lowest terms");
}
/// harness argument `part`: 0 checks exact values, 1 checks the canonical form
fn check_value(part: u64, r: Rational, n: i64, d: i64, what: &str) {
    if part != 0 {
        return;
    }
    // r = n/d
    check(r.numer.0 * d == n * r.denom.0, what);
}

/// the common divisors to look for when one part is the fixed `d` (or the fixed `n`)
fn coprime_bound(d: i64, n: i64) -> i64 {
    if d.abs() <= 12 { d.abs() } else { n.abs() }
}

struct Rec {
    buf: [u64; 8],
    n: usize,
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        if self.n < 8 {
            self.buf[self.n] = x;
        }
        self.n += 1;
    }
    fn write_i64(&mut self, x: i64) {
        self.write_u64(x as u64)
    }
}
fn hash_of<T: Hash>(t: &T) -> Rec {
    let mut h = Rec { buf: [0; 8], n: 0 };
    t.hash(&mut h);
    h
}
fn same_hash(a: &Rec, b: &Rec) -> bool {
    let mut ok = a.n == b.n;
    for i in 0..8 {
        ok &= a.buf[i] == b.buf[i];
    }
    ok
}

harnesses! {
    // ---- C01 -------------------------------------------------------------------------------
    /// gcd against the definition, both arguments arbitrary of `w` bits
    fn h_gcd(w) {
        let a = sint(w as u32);
        let b = sint(w as u32);
        let g = Integer::gcd(int(a), int(b)).0;
        check(g >= 0, "gcd is nonnegative");
        if g == 0 {
            cover(1);
            check((a == 0) & (b == 0), "gcd is zero only for two zeros");
        } else {
            cover(2);
            check(a % g == 0, "gcd divides the first argument");
            check(b % g == 0, "gcd divides the second argument");
            let d = sint(w as u32);
            assume(d > 0);
            assume(a % d == 0);
            assume(b % d == 0);
            check(g % d == 0, "every common divisor divides the gcd");
        }
    }
    /// one argument small, the other `w` bits wide (kind 0) or at the edge of the machine range
    /// (kinds 1 and 2); both argument orders
    fn h_gcd_wide(kind, w, k) {
        let x = sint(w as u32);
        let a = match kind { 0 => x, 1 => { assume(x >= 0); i64::MIN + x } _ => { assume(x >= 0); i64::MAX - x } };
        let b = pin(urange(8, k)) as i64;
        let b = if choose(2) == 1 { -b } else { b };
        // the result is representable
        assume((a != i64::MIN) | (b != 0));
        let g = if choose(2) == 0 { Integer::gcd(int(a), int(b)) } else { Integer::gcd(int(b), int(a)) }.0;
        if b == 0 {
            check((g == a) | (g == a.wrapping_neg()), "gcd with zero is the magnitude");
            check(g >= 0, "gcd is nonnegative");
            cover(2);
        } else {
            cover(3);
            check((g > 0) & (g <= b.abs()), "gcd lies between one and the smaller magnitude");
            let g = pin(g as u64) as i64;
            check(b % g == 0, "gcd divides the small argument");
            check(a % g == 0, "gcd divides the large argument");
            for d in 2..=b.abs() {
                if b % d == 0 && g % d != 0 {
                    check(a % d != 0, "no common divisor is missed");
                }
            }
        }
    }
    /// one argument fixed to the (small, signed) `b`, the other arbitrary of `w` bits
    fn h_gcd_by(w, b, order) {
        let (a, b) = (sint(w as u32), b as i64);
        let g = if order == 0 { Integer::gcd(int(a), int(b)) } else { Integer::gcd(int(b), int(a)) }.0;
        check((g > 0) & (g <= b.abs()), "gcd lies between one and the smaller magnitude");
        let g = pin(g as u64) as i64;
        check(b % g == 0, "gcd divides the small argument");
        check(a % g == 0, "gcd divides the large argument");
        for d in 2..=b.abs() {
            if b % d == 0 && g % d != 0 {
                check(a % d != 0, "no common divisor is missed");
            }
        }
        cover(1);
    }
    /// lcm with a fixed `b` of every `w`-bit number whose lcm is representable
    fn h_lcm_by(w, b, order) {
        let (a, b) = (sint(w as u32), b as i64);
        let m = b.abs();
        let mut g = m;
        while a % g != 0 || m % g != 0 { g -= 1; }
        let want = (a as i128) * (m / g) as i128;
        let want = if want < 0 { -want } else { want };
        assume(want <= i64::MAX as i128);
        let l = if order == 0 { Integer::lcm(int(a), int(b)) } else { Integer::lcm(int(b), int(a)) }.0;
        check(l as i128 == want, "the lcm is the product over the gcd");
        cover(1);
    }
    /// gcd(k·p, k·q) = k·gcd(p,q) for large k
    fn h_gcd_scale(p, q, w) {
        let k = urange(62, (1u64 << w) - 1) as i64;
        let g = Integer::gcd(int(k * p as i64), int(k * q as i64)).0;
        let mut r = p.min(q);
        while p % r != 0 || q % r != 0 { r -= 1; }
        check(g == k * r as i64, "gcd scales with a common factor");
        cover(1);
    }
    /// gcd and lcm of (multiples of) neighbouring Fibonacci numbers: the longest Euclidean descents
    fn h_gcd_fib(n, w) {
        let (mut x, mut y) = (1i64, 1i64);
        for _ in 0..choose(n) { let t = x + y; y = x; x = t; }
        let k = 1 + pin(uint(w as u32)) as i64;
        assume(x <= i64::MAX / k);
        let (mut a, mut b) = (x * k, y * k);
        if choose(2) == 1 { std::mem::swap(&mut a, &mut b); }
        let s = choose(4);
        if s & 1 == 1 { a = -a; }
        if s & 2 == 2 { b = -b; }
        check(Integer::gcd(int(a), int(b)).0 == k, "neighbouring Fibonacci numbers are coprime");
        if x <= i64::MAX / k / y {
            cover(1);
            check(Integer::lcm(int(a), int(b)).0 == x * y * k, "lcm of coprime multiples");
        } else { cover(2); }
    }
    fn h_lcm(w) {
        let a = sint(w as u32);
        let b = sint(w as u32);
        let l = Integer::lcm(int(a), int(b)).0;
        check(l >= 0, "lcm is nonnegative");
        if (a == 0) | (b == 0) {
            cover(1);
            check(l == 0, "lcm with zero is zero");
        } else {
            cover(2);
            check(l > 0, "lcm of nonzero integers is positive");
            check(l % a == 0, "the first argument divides the lcm");
            check(l % b == 0, "the second argument divides the lcm");
            let m = uint(2 * w as u32) as i64;
            assume(m > 0);
            assume(m % a == 0);
            assume(m % b == 0);
            check(l <= m, "no smaller positive common multiple");
        }
    }
    /// basic integer operations against the machine integers, full width
    fn h_int_ops() {
        let a = sint(64);
        let b = sint(64);
        check(int(a).sgn().0 == (a > 0) as i64 - (a < 0) as i64, "sign");
        check(int(a).is_pos() == (a > 0), "is_pos");
        check(int(a).is_neg() == (a < 0), "is_neg");
        check(int(a).is_zero() == (a == 0), "is_zero");
        check(int(a).is_one() == (a == 1), "is_one");
        check((int(a) == int(b)) == (a == b), "equality");
        check(int(a).cmp(&int(b)) == a.cmp(&b), "order");
        check(same_hash(&hash_of(&int(a)), &hash_of(&int(b))) | (a != b), "equal integers hash alike");
        check(Integer::from(a).0 == a, "conversion");
        match choose(7) {
            0 => if let Some(r) = a.checked_add(b) { cover(1); check((int(a) + int(b)).0 == r, "addition"); },
            1 => if let Some(r) = a.checked_sub(b) { cover(2); check((int(a) - int(b)).0 == r, "subtraction"); },
            2 => { // products of half-width operands always fit
                let (a, b) = (a >> 33, b >> 33);
                cover(3);
                check((int(a) * int(b)).0 == a * b, "multiplication");
            }
            3 => { assume(b != 0); assume((a != i64::MIN) | (b != -1)); cover(4);
                   check((int(a) / int(b)).0 == a / b, "division"); }
            4 => { assume(b != 0); assume((a != i64::MIN) | (b != -1)); cover(5);
                   check((int(a) % int(b)).0 == a % b, "remainder"); }
            5 => { assume(a != i64::MIN); cover(6);
                   check((-int(a)).0 == 0 - a, "negation");
                   let m = int(a).abs().0;
                   check(m >= 0, "absolute value is nonnegative");
                   check((m == a) | (m == 0 - a), "absolute value"); }
            _ => {
                let e = choose(5);
                let a = a >> 56;
                let mut r = 1i64;
                for _ in 0..e { r *= a; }
                cover(7);
                check(int(a).pow(int(e as i64)).0 == r, "power");
            }
        }
    }

    /// powers of a fixed base, every exponent whose power fits (up to `max`)
    fn h_int_pow_by(base, max) {
        let base = base as u8 as i8 as i64;
        let e = sint(8);
        assume((e >= 0) & (e <= max as i64));
        let got = int(base).pow(int(e)).0;
        let mut r = 1i64;
        let mut k = 0;
        while k < e { r *= base; k += 1; }
        cover(1);
        check(got == r, "power");
    }
    /// powers of zero and the units with large exponents: a power of two plus a small number
    fn h_int_pow_unit(small) {
        let n = choose(3) as i64 - 1;
        let e = (1i64 << choose(32)) + sint(small as u32).abs();
        assume(e < 1 << 32);
        let got = int(n).pow(int(e)).0;
        cover(1);
        check(got == if n < 0 && e & 1 == 0 { 1 } else { n }, "power of zero or a unit");
    }

    // ---- C02 / C03: rationals --------------------------------------------------------------
    fn h_rat_new(w, which, part) {
        let n = sint(w as u32);
        let d = sint(w as u32);
        assume(d != 0);
        let r = if which == 0 { Rational::new(int(n), int(d)) } else { Rational::new_i64(n, d) };
        check_value(part, r, n, d, "the fraction keeps its value");
        if n == 0 { cover(1); check((part == 0) | (r.denom.0 == 1), "zero is stored as 0/1"); }
        if d < 0 { cover(2); }
        check_canonical(part, r, w as u32);
    }
    /// quotients of multiples of neighbouring Fibonacci numbers
    fn h_rat_new_fib(n, w, part) {
        let (mut x, mut y) = (1i64, 1i64);
        for _ in 0..choose(n) { let t = x + y; y = x; x = t; }
        let k = 1 + pin(uint(w as u32)) as i64;
        assume(x <= i64::MAX / k);
        if choose(2) == 1 { std::mem::swap(&mut x, &mut y); }
        let s = choose(4);
        let (a, b) = (if s & 1 == 1 { -k } else { k }, if s & 2 == 2 { -k } else { k });
        let r = Rational::new(int(x * a), int(y * b));
        let want = if a == b { x } else { -x };
        if part == 0 { check((r.numer.0 == want) & (r.denom.0 == y) | (r.numer.0 as i128 * y as i128 == want as i128 * r.denom.0 as i128), "the fraction keeps its value"); }
        else { check((r.numer.0 == want) & (r.denom.0 == y), "the fraction is in lowest terms"); }
        cover(1);
    }
    /// op: 0 add, 1 sub, 2 mul, 3 div; form: 0 plain, 1 assigning
    fn h_rat_bin(w, op, form, part) {
        let a = any_rat(w as u32);
        let b = any_rat(w as u32);
        let (n1, d1, n2, d2) = (a.numer.0, a.denom.0, b.numer.0, b.denom.0);
        if op == 3 { assume(n2 != 0); }
        let r = if form == 0 {
            match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b }
        } else {
            let mut r = a;
            match op { 0 => r += b, 1 => r -= b, 2 => r *= b, _ => r /= b }
            r
        };
        let (n, d) = match op {
            0 => (n1 * d2 + n2 * d1, d1 * d2),
            1 => (n1 * d2 - n2 * d1, d1 * d2),
            2 => (n1 * n2, d1 * d2),
            _ => (n1 * d2, d1 * n2),
        };
        check_value(part, r, n, d, "the result is the exact value");
        if n == 0 { cover(1); check((part == 0) | (r.denom.0 == 1), "zero is stored as 0/1"); } else { cover(2); }
        check_canonical(part, r, 2 * w as u32 + 1);
    }
    /// numerators of `w` bits over fixed denominators
    fn h_rat_wide(w, op, d1, d2, part) {
        let (d1, d2) = (d1 as i64, d2 as i64);
        let (n1, n2) = (sint(w as u32), if op < 2 { sint(w as u32) } else { pin(urange(8, 6)) as i64 - 3 });
        for p in 2..=d1 { if d1 % p == 0 { assume(n1 % p != 0); } }
        for p in 2..=d2 { if d2 % p == 0 { assume(n2 % p != 0); } }
        if op == 3 { assume(n2 != 0); }
        let a = Rational { numer: int(n1), denom: int(d1) };
        let b = Rational { numer: int(n2), denom: int(d2) };
        let r = match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b };
        let (n, d) = match op {
            0 => (n1 * d2 + n2 * d1, d1 * d2),
            1 => (n1 * d2 - n2 * d1, d1 * d2),
            2 => (n1 * n2, d1 * d2),
            _ => (n1 * d2, d1 * n2),
        };
        cover(1);
        if part == 0 {
            check(r.numer.0 * d == n * r.denom.0, "the result is the exact value");
        } else {
            check(r.denom.0 > 0, "the denominator of every result is positive");
            for p in 2..=d.abs() { if d % p == 0 {
                check((r.numer.0 % p != 0) | (r.denom.0 % p != 0), "every result is in lowest terms");
            } }
        }
    }
    /// one operand: a numerator of `w` bits over the fixed (signed) `d`
    fn h_rat_un_wide(w, d, part) {
        let (n, d) = (sint(w as u32), d as i64);
        let r = Rational::new(int(n), int(d));
        let mut low = vec![(r, n, d, "the fraction keeps its value")];
        cover(1);
        let mut coprime = d > 0;
        for p in 2..=d.abs() { if d % p == 0 { coprime &= n % p != 0; } }
        if coprime {
            let a = Rational { numer: int(n), denom: int(d) };
            cover(2);
            check((a.is_zero() == (n == 0)) & (a.is_one() == ((n == 1) & (d == 1))), "zero and one are recognised");
            check(a.sgn().0 == n.signum(), "sign");
            match choose(5) {
                0 => low.push((-a, 0 - n, d, "negation is exact")),
                1 => low.push((a.pow(int(1)), n, d, "power is exact")),
                2 => { assume(n != 0); low.push((a.recip(), d, n, "reciprocal is exact")) }
                3 => { assume(n != 0); low.push((a.powi(-1), d, n, "negative power is exact")) }
                _ => low.push((Rational::from(int(n)), n, 1, "integer conversion is exact")),
            }
        }
        for (r, n, d, what) in low {
            if part == 0 {
                check(r.numer.0 as i128 * d as i128 == n as i128 * r.denom.0 as i128, what);
            } else {
                check(r.denom.0 > 0, "the denominator of every result is positive");
                let mut low = (r.numer.0 != 0) | (r.denom.0 == 1);
                for p in 2..=coprime_bound(d, n) { low &= (r.numer.0 % p != 0) | (r.denom.0 % p != 0); }
                check(low, "every result is in lowest terms");
            }
        }
    }
    /// powers of one, minus one and zero, any exponent of up to `e` bits
    fn h_rat_pow_unit(e, part) {
        let n = choose(3) as i64 - 1;
        let k = sint(e as u32);
        if n == 0 { assume(k >= 0); }
        let a = Rational { numer: int(n), denom: int(1) };
        let r = if choose(2) == 0 { a.pow(int(k)) } else { a.powi(k as i32) };
        let want = if k == 0 || (n != 0 && k & 1 == 0) { 1 } else { n };
        if part == 0 { check(r.numer.0 == want * r.denom.0, "power is exact"); } else { check(r.denom.0 == 1, "powers of units are whole"); }
        cover(1);
    }
    /// the same with large exponents: a power of two plus a small number, or its negative
    fn h_rat_pow_sparse(small, part) {
        let n = choose(3) as i64 - 1;
        let e = (1i64 << choose(31)) + sint(small as u32).abs();
        assume(e < 1 << 31);
        let k = if n != 0 && choose(2) == 0 { -e } else { e };
        let a = Rational { numer: int(n), denom: int(1) };
        let r = if choose(2) == 0 { a.pow(int(k)) } else { a.powi(k as i32) };
        let want = if n != 0 && k & 1 == 0 { 1 } else { n };
        if part == 0 { check(r.numer.0 == want * r.denom.0, "power is exact"); } else { check(r.denom.0 == 1, "powers of units are whole"); }
        cover(1);
    }
    /// every power of a fixed rational that fits
    fn h_rat_pow_by(n, d, max, part) {
        let n = n as u8 as i8 as i64;
        let d = d as i64;
        let k = sint(8);
        assume(k.abs() <= max as i64);
        let a = Rational { numer: int(n), denom: int(d) };
        let r = match choose(3) { 0 => a.pow(int(k)), 1 => a.powi(k as i32), _ => Field::powi32(&a, k as i32) };
        let (mut p, mut q) = (1i64, 1i64);
        let mut i = 0;
        while i < k.abs() { p *= n; q *= d; i += 1; }
        if k < 0 { std::mem::swap(&mut p, &mut q); }
        let s = if q < 0 { -1 } else { 1 };
        if part == 0 {
            check(r.numer.0 == s * p && r.denom.0 == s * q || r.numer.0 == -s * p && r.denom.0 == -s * q, "power is exact");
        } else {
            check(r.numer.0 == s * p && r.denom.0 == s * q, "power is in lowest terms with a positive denominator");
        }
        cover(1);
    }
    /// sums and products of up to three rationals
    fn h_rat_fold(w, k, op, part) {
        let mut xs = Vec::with_capacity(8);
        for _ in 0..k { xs.push(any_rat(w as u32)); }
        let xs = &xs[..];
        let (mut n, mut d) = (if op == 0 { 0 } else { 1 }, 1i64);
        for x in xs {
            if op == 0 { n = n * x.denom.0 + x.numer.0 * d; } else { n *= x.numer.0; }
            d *= x.denom.0;
        }
        let r: Rational = if op == 0 { xs.iter().copied().sum() } else { xs.iter().copied().product() };
        check_value(part, r, n, d, "the folded result is the exact value");
        check_canonical(part, r, if k < 3 { 3 } else { k as u32 } * w as u32);
        cover(1);
    }
    /// sums and products of k rationals with w-bit numerators over fixed denominators
    fn h_rat_fold_den(w, k, set, op, part) {
        let dens: [i64; 8] = match set { 0 => [2, 2, 4, 2, 4, 2, 1, 8], 1 => [2, 3, 1, 3, 2, 1, 6, 2], _ => [1, 1, 1, 1, 1, 1, 1, 1] };
        let mut xs = Vec::with_capacity(8);
        let (mut n, mut d) = (if op == 0 { 0 } else { 1 }, 1i64);
        for i in 0..k as usize {
            let e = dens[i];
            let x = sint(w as u32);
            let u = sint(5);
            let v = sint(w as u32 + 5);
            assume(x * u + e * v == 1);
            xs.push(Rational { numer: int(x), denom: int(e) });
            if op == 0 { n = n * e + x * d; } else { n *= x; }
            d *= e;
        }
        let xs = &xs[..];
        let r: Rational = if op == 0 { xs.iter().copied().sum() } else { xs.iter().copied().product() };
        check_value(part, r, n, d, "the folded result is the exact value");
        check_canonical(part, r, 16);
        cover(1);
    }
    fn h_rat_un(w, part) {
        let a = any_rat(w as u32);
        let (n, d) = (a.numer.0, a.denom.0);
        match choose(4) {
            0 => { let r = -a; cover(1); check_value(part, r, 0 - n, d, "negation is exact"); check_canonical(part, r, w as u32); }
            1 => { assume(n != 0); let r = a.recip(); cover(2);
                   check_value(part, r, d, n, "reciprocal is exact"); check_canonical(part, r, w as u32); }
            2 => { let r = Rational::from(int(n)); cover(3);
                   check_value(part, r, n, 1, "integer conversion is exact"); check_canonical(part, r, w as u32);
                   check(Rational::new_int(int(n)) == r, "both integer conversions agree"); }
            _ => { assume(n != 0); let r = <Rational as Field>::inv(a); cover(4);
                   check_value(part, r, d, n, "field inverse is exact"); check_canonical(part, r, w as u32); }
        }
        check(a.sgn().0 == n.signum(), "sign");
        check(a.is_zero() == (n == 0), "is_zero");
        check(a.is_one() == ((n == 1) & (d == 1)), "is_one");
    }
    /// powers with exponents -e..=e; form 0: pow, 1: powi, 2: field power
    fn h_rat_pow(w, e, form, part) {
        let a = any_rat(w as u32);
        let (n, d) = (a.numer.0, a.denom.0);
        let k = choose(2 * e + 1) as i64 - e as i64;
        if k < 0 { assume(n != 0); cover(1); }
        let r = match form {
            0 => a.pow(int(k)),
            1 => a.powi(k as i32),
            _ => a.powi32(k as i32),
        };
        let (mut p, mut q) = (1i64, 1i64);
        for _ in 0..k.abs() { p *= n; q *= d; }
        if k == 0 { cover(2); check((r.numer.0 == 1) & (r.denom.0 == 1), "the zeroth power is one"); }
        if k >= 0 { check_value(part, r, p, q, "power is exact"); } else { check_value(part, r, q, p, "negative power is exact"); }
        check_canonical(part, r, (w as u32) * e as u32);
    }

    // ---- C04 -------------------------------------------------------------------------------
    fn h_rat_eq(w) {
        let a = any_rat(w as u32);
        let b = any_rat(w as u32);
        let cross = a.numer.0 * b.denom.0 == b.numer.0 * a.denom.0;
        check((a == b) == cross, "equality is equality of values");
        if cross { cover(1); check(same_hash(&hash_of(&a), &hash_of(&b)), "equal rationals hash alike"); } else { cover(2); }
        check(a.epsilon_equals(&b) == cross, "approximate equality of rationals is exact");
    }
    /// every positive denominator, full machine range
    fn h_rat_cmp(w) {
        let a = Rational { numer: int(sint(w as u32)), denom: int(sint(w as u32)) };
        let b = Rational { numer: int(sint(w as u32)), denom: int(sint(w as u32)) };
        assume(a.denom.0 > 0);
        assume(b.denom.0 > 0);
        let l = a.numer.0 as i128 * b.denom.0 as i128;
        let r = b.numer.0 as i128 * a.denom.0 as i128;
        check(a.cmp(&b) == l.cmp(&r), "the order is the order of the values");
        check(a.partial_cmp(&b) == Some(l.cmp(&r)), "the partial order agrees with the order");
        check((a < b) == (l < r), "less-than");
        check((a >= b) == (l >= r), "greater-or-equal");
        let same = (a.numer.0 == b.numer.0) & (a.denom.0 == b.denom.0);
        check(!same | (a == b), "a rational equals itself");
        check((l == r) | (a != b), "different values are different");
        check(!same | same_hash(&hash_of(&a), &hash_of(&b)), "equal rationals hash alike");
        if l < r { cover(1); }
    }
    /// comparison of rationals with fixed denominators
    fn h_rat_cmp_den(w, d1, d2) {
        let a = Rational { numer: int(sint(w as u32)), denom: int(d1 as i64) };
        let b = Rational { numer: int(sint(w as u32)), denom: int(d2 as i64) };
        let l = a.numer.0 as i128 * d2 as i128;
        let r = b.numer.0 as i128 * d1 as i128;
        check(a.cmp(&b) == l.cmp(&r), "the order is the order of the values");
        check(a.partial_cmp(&b) == Some(l.cmp(&r)), "the partial order agrees with the order");
        check((l == r) | (a != b), "different values are different");
        check((l != r) | (d1 != d2) | (a == b), "equal numbers are equal");
        if l < r { cover(1); }
    }
    fn h_rat_order_laws(w) {
        let a = any_rat(w as u32);
        let b = any_rat(w as u32);
        let c = any_rat(w as u32);
        let ab = a.cmp(&b);
        check(ab == b.cmp(&a).reverse(), "antisymmetry");
        check((ab == Ordering::Equal) == (a == b), "comparing equal means being equal");
        if (ab != Ordering::Greater) & (b.cmp(&c) != Ordering::Greater) {
            cover(1);
            check(a.cmp(&c) != Ordering::Greater, "transitivity");
        }
        check(a.max(b) == b.max(a), "max is symmetric");
    }

    // ---- C05 -------------------------------------------------------------------------------
    fn h_stab_rat(w) {
        let a = any_rat(w as u32);
        let b = any_rat(w as u32);
        let o = a.stability_cmp(&b);
        if (a.numer.0 == 0) & (b.numer.0 != 0) { cover(1); check(o == Some(Ordering::Less), "zero is the least stable"); }
        if (a.numer.0 != 0) & (b.numer.0 == 0) { cover(2); check(o == Some(Ordering::Greater), "nonzero beats zero"); }
        if (a.numer.0 != 0) & (b.numer.0 != 0) {
            cover(3);
            let h = |x: Rational| x.numer.0.abs() + x.denom.0.abs();
            check(o == Some(h(b).cmp(&h(a))), "among nonzero rationals the smaller height is more stable");
            check(b.stability_cmp(&a) == o.map(Ordering::reverse), "comparison is antisymmetric");
        }
        check(o.is_some(), "rationals always compare");
    }
    /// parts of `w` bits, lowest terms not required
    fn h_stab_wide(w) {
        let a = Rational { numer: int(sint(w as u32)), denom: int(sint(w as u32)) };
        let b = Rational { numer: int(sint(w as u32)), denom: int(sint(w as u32)) };
        assume(a.denom.0 > 0);
        assume(b.denom.0 > 0);
        assume((a.numer.0 != 0) | (a.denom.0 == 1));
        assume((b.numer.0 != 0) | (b.denom.0 == 1));
        let o = a.stability_cmp(&b);
        check((a.numer.0 != 0) | (b.numer.0 == 0) | (o == Some(Ordering::Less)), "zero is the least stable");
        check((a.numer.0 == 0) | (b.numer.0 != 0) | (o == Some(Ordering::Greater)), "nonzero beats zero");
        let h = |x: Rational| x.numer.0.abs() + x.denom.0.abs();
        check((a.numer.0 == 0) | (b.numer.0 == 0) | (o == Some(h(b).cmp(&h(a)))), "among nonzero rationals the smaller height is more stable");
        cover(1);
    }
    fn h_stab_f64() {
        let a = f64::from_bits(uint(64));
        let b = f64::from_bits(uint(64));
        assume(!a.is_nan());
        assume(!b.is_nan());
        let o = a.stability_cmp(&b);
        check(o.is_some(), "numbers compare");
        check((o == Some(Ordering::Less)) == (a.abs() < b.abs()), "less stable is smaller in magnitude");
        check((o == Some(Ordering::Greater)) == (a.abs() > b.abs()), "more stable is larger in magnitude");
        if (a == 0.0) & (b != 0.0) { cover(1); check(o == Some(Ordering::Less), "zero is the least stable"); }
    }
    fn h_stab_f32() {
        let a = f32::from_bits(uint(32) as u32);
        let b = f32::from_bits(uint(32) as u32);
        assume(!a.is_nan());
        assume(!b.is_nan());
        let o = a.stability_cmp(&b);
        check(o.is_some(), "numbers compare");
        check((o == Some(Ordering::Less)) == (a.abs() < b.abs()), "less stable is smaller in magnitude");
        check((o == Some(Ordering::Greater)) == (a.abs() > b.abs()), "more stable is larger in magnitude");
        if (a == 0.0) & (b != 0.0) { cover(1); check(o == Some(Ordering::Less), "zero is the least stable"); }
    }
    fn h_eps_f64() {
        let a = f64::from_bits(uint(64));
        let b = f64::from_bits(uint(64));
        assume(a.is_finite());
        assume(b.is_finite());
        let e = a.epsilon_equals(&b);
        check(e == b.epsilon_equals(&a), "approximate equality is symmetric");
        check(a.epsilon_equals(&a), "approximate equality is reflexive");
        let d = a - b;
        check(e == ((d < f64::EPSILON) & (d > -f64::EPSILON)), "approximately equal means closer than machine epsilon");
        if e { cover(1); } else { cover(2); }
    }
    fn h_eps_f32() {
        let a = f32::from_bits(uint(32) as u32);
        let b = f32::from_bits(uint(32) as u32);
        assume(a.is_finite());
        assume(b.is_finite());
        let e = a.epsilon_equals(&b);
        check(e == b.epsilon_equals(&a), "approximate equality is symmetric");
        check(a.epsilon_equals(&a), "approximate equality is reflexive");
        let d = a - b;
        check(e == ((d < f32::EPSILON) & (d > -f32::EPSILON)), "approximately equal means closer than machine epsilon");
        if e { cover(1); } else { cover(2); }
    }
    /// Zero and One on the primitive types
    fn h_prim() {
        macro_rules! chk { ($($t:ty: $w:expr),*) => { $( {
            let x = uint($w) as $t;
            check(x.is_zero() == (x == 0), "is_zero on a primitive");
            check(x.is_one() == (x == 1), "is_one on a primitive");
            check(<$t as Zero>::ZERO == 0, "the zero constant");
            check(<$t as One>::ONE == 1, "the one constant");
        } )* } }
        chk!(u8: 8, u16: 16, u32: 32, u64: 64, usize: 64, i8: 8, i16: 16, i32: 32, i64: 64, isize: 64, u128: 64, i128: 64);
        let f = f64::from_bits(uint(64));
        check(f.is_zero() == (f == 0.0), "is_zero on f64");
        check(f.is_one() == (f == 1.0), "is_one on f64");
        let f = f32::from_bits(uint(32) as u32);
        check(f.is_zero() == (f == 0.0), "is_zero on f32");
        check(f.is_one() == (f == 1.0), "is_one on f32");
        check((Rational::ZERO.numer.0 == 0) & (Rational::ZERO.denom.0 == 1), "rational zero");
        check((Rational::ONE.numer.0 == 1) & (Rational::ONE.denom.0 == 1), "rational one");
        check((Integer::ZERO.0 == 0) & (Integer::ONE.0 == 1), "integer constants");
        check((<f64 as Zero>::ZERO == 0.0) & (<f64 as One>::ONE == 1.0), "f64 constants");
        check((<f32 as Zero>::ZERO == 0.0) & (<f32 as One>::ONE == 1.0), "f32 constants");
        cover(1);
    }
    fn h_inv_f64() {
        let f = f64::from_bits(uint(64));
        assume(!f.is_nan());
        check(Field::inv(f).to_bits() == (1.0 / f).to_bits(), "the float inverse is the correctly rounded reciprocal");
        cover(1);
    }

    // ---- C24 -------------------------------------------------------------------------------
    /// zero denominators never produce a value
    fn h_rat_reject(which) {
        let n = sint(64);
        let d = sint(64);
        // any canonical numerator and denominator
        assume(d > 0);
        if n == 0 { assume(d == 1); }
        let a = Rational { numer: int(n), denom: int(d) };
        expect_panic();
        let r = match which {
            0 => Rational::new(int(n), int(0)),
            1 => Rational::new_i64(n, 0),
            2 => a / Rational::ZERO,
            3 => { let mut a = a; a /= Rational::ZERO; a }
            4 => Rational::ZERO.recip(),
            5 => Rational::ZERO.pow(int(-[1, 2, 3, 4, 7, 31, 32, 64, 255, 256, 65536, 1 << 30][choose(12)])),
            6 => <Rational as Field>::inv(Rational::ZERO),
            _ => Rational::ZERO.powi(-[1, 2, 3, 4, 7, 31, 32, 64, 255, 256, 65536, 1 << 30][choose(12)]),
        };
        std::hint::black_box(r);
    }
}
