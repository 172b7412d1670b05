//! Multidegrees and monomial orders.
use crate::real::R;
use crate::vf::*;
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{grad, GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use std::cmp::Ordering;

pub const NV: usize = 6;
pub type D = [u8; NV];

/// arbitrary exponents: `n` entries up to `hi`, the rest zero
pub fn any_deg(n: usize, hi: u64) -> D {
    let mut d = [0u8; NV];
    for i in 0..n {
        d[i] = if hi >= 255 { uint(8) as u8 } else { urange(8, hi) as u8 };
    }
    d
}
/// the multidegree with these exponents, in canonical form (trailing zeros dropped)
pub fn mdeg(d: &D) -> MultiDegree {
    let mut n = NV;
    while n > 0 && d[n - 1] == 0 {
        n -= 1;
    }
    MultiDegree(d[..n].to_vec())
}
/// exponents of a multidegree of length at most NV (longer ones are a failure)
pub fn degs(m: &MultiDegree) -> D {
    let v = &m.0;
    let mut d = [0u8; NV];
    if v.len() > NV {
        fail("a multidegree grew longer than its operands");
    }
    for i in 0..v.len() {
        d[i] = v[i];
    }
    d
}
pub fn is_canonical(m: &MultiDegree) -> bool {
    m.0.last().map_or(true, |x| *x != 0)
}
pub fn deg_eq(a: &D, b: &D) -> bool {
    let mut r = true;
    for i in 0..NV {
        r &= a[i] == b[i];
    }
    r
}
pub fn deg_divides(a: &D, b: &D) -> bool {
    let mut r = true;
    for i in 0..NV {
        r &= a[i] <= b[i];
    }
    r
}
fn cmp_at(a: u32, b: u32) -> i32 {
    (a > b) as i32 - (a < b) as i32
}
/// reference orders: 0 lex, 1 revlex, 2 grlex, 3 grevlex, 4 grad
pub fn ref_cmp(which: u64, a: &D, b: &D) -> i32 {
    let mut lex = 0;
    let mut rev = 0;
    let (mut sa, mut sb) = (0u32, 0u32);
    for i in 0..NV {
        let c = cmp_at(a[i] as u32, b[i] as u32);
        lex = if lex == 0 { c } else { lex };
        rev = if c != 0 { c } else { rev };
        sa += a[i] as u32;
        sb += b[i] as u32;
    }
    let g = cmp_at(sa, sb);
    match which {
        0 => lex,
        1 => rev,
        2 => if g != 0 { g } else { lex },
        3 => if g != 0 { g } else { -rev },
        _ => g,
    }
}
pub fn code_cmp(which: u64, a: &MultiDegree, b: &MultiDegree) -> Ordering {
    match which {
        0 => Lex::cmp(a, b),
        1 => RevLex::cmp(a, b),
        2 => GrLex::cmp(a, b),
        3 => GRevLex::cmp(a, b),
        _ => grad(a, b),
    }
}
fn num(o: Ordering) -> i32 {
    o as i32
}

harnesses! {
    // ---- C06 -------------------------------------------------------------------------------
    /// construction and sanitizing from an arbitrary vector
    fn h_mdeg_make(n) {
        let n = choose(n + 1);
        let d = any_deg(n, 255);
        let m = MultiDegree::from_vec(d[..n].to_vec());
        check(is_canonical(&m), "a multidegree built from a vector has no trailing zeros");
        check(m.0.len() <= n, "no exponents appear");
        check(deg_eq(&degs(&m), &d), "the exponents are kept");
        check(m.len() == m.0.len(), "length");
        let all_zero = deg_eq(&d, &[0; NV]);
        check(m.is_zero() == all_zero, "the zero multidegree is recognised");
        let mut t = MultiDegree(d[..n].to_vec());
        t.trim_zeros();
        check(is_canonical(&t), "trimming removes every trailing zero");
        check(deg_eq(&degs(&t), &d), "trimming keeps the exponents");
        if t.0.len() < n { cover(1); }
        if all_zero { cover(2); }
        let mut s = 0u32;
        for x in d { s += x as u32; }
        if s <= 255 { cover(3); check(m.total_deg() as u32 == s, "total degree is the sum of the exponents"); }
        let mut k = 0;
        for x in m.degs() { check(*x == d[k], "the exponent iterator yields the exponents in order"); k += 1; }
        check(k == m.0.len(), "the exponent iterator yields every exponent");
        let mut t2 = m.clone();
        for x in t2.degs_mut() { *x |= 1; }
        let mut ok = t2.0.len() == m.0.len();
        for i in 0..m.0.len() { ok &= t2.0[i] == m.0[i] | 1; }
        check(ok, "the mutable iterator reaches every exponent");
        check(MultiDegree::zero().0.is_empty() & MultiDegree::new().0.is_empty() & MultiDegree::default().0.is_empty(), "zero multidegree");
    }
    fn h_mdeg_var(n) {
        let i = choose(n);
        let e = uint(8) as u8;
        let m = MultiDegree::var(i, e);
        let mut d = [0u8; NV];
        d[i] = e;
        check(is_canonical(&m), "a variable's multidegree is canonical");
        check(deg_eq(&degs(&m), &d), "a variable's multidegree has its one exponent");
        if e == 0 { cover(1); } else { cover(2); }
    }
    fn h_mdeg_add(n, form) {
        let (na, nb) = (choose(n + 1), choose(n + 1));
        let (a, b) = (any_deg(na, 255), any_deg(nb, 255));
        let mut s = [0u8; NV];
        for i in 0..NV {
            assume(a[i] as u32 + b[i] as u32 <= 255);
            s[i] = a[i] + b[i];
        }
        let (x, y) = (mdeg(&a), mdeg(&b));
        let r = match form { 0 => &x + &y, 1 => x.clone() + y.clone(), 2 => &x + y.clone(), _ => x.clone() + &y };
        check(is_canonical(&r), "a sum of multidegrees is canonical");
        check(deg_eq(&degs(&r), &s), "exponents add");
        let r2 = &y + &x;
        check(r == r2, "addition commutes");
        let d = r.checked_sub(&y);
        check(d.is_some(), "subtracting a summand succeeds");
        if let Some(d) = d { check(d == x, "subtracting a summand gives the other one"); }
        check(x.is_succ(&r) & y.is_succ(&r), "summands divide the sum");
        if na != nb { cover(1); }
        if na == nb { cover(2); }
    }
    fn h_mdeg_sub(n) {
        let (na, nb) = (choose(n + 1), choose(n + 1));
        let (a, b) = (any_deg(na, 255), any_deg(nb, 255));
        let (x, y) = (mdeg(&a), mdeg(&b));
        let div = deg_divides(&b, &a);
        check(y.is_succ(&x) == div, "componentwise order");
        let r = x.checked_sub(&y);
        check(r.is_some() == div, "subtraction succeeds exactly when every exponent is large enough");
        if let Some(r) = r {
            cover(1);
            check(is_canonical(&r), "a difference of multidegrees is canonical");
            let r = degs(&r);
            let mut ok = true;
            for i in 0..NV { ok &= r[i] as u32 + b[i] as u32 == a[i] as u32; }
            check(ok, "exponents subtract");
        } else { cover(2); }
        check((x == y) == deg_eq(&a, &b), "equality of canonical multidegrees is equality of exponents");
    }

    /// many variables: vectors of length `n` and `n` or one less, every exponent positive
    fn h_mdeg_long(n, hi, which) {
        let n = n as usize;
        let len = [n, n - choose(2)];
        let mut v = [Vec::with_capacity(32), Vec::with_capacity(32)];
        for k in 0..2 { for _ in 0..len[k] { let x = urange(8, hi) as u8; assume(x > 0); v[k].push(x); } }
        let (x, y) = (MultiDegree(v[0].clone()), MultiDegree(v[1].clone()));
        let at = |k: usize, i: usize| v[k].get(i).copied().unwrap_or(0);
        if which == 5 {
            let s = &x + &y;
            check(s.0.len() == n, "length of a sum");
            let mut ok = true;
            for i in 0..n { ok &= s.0[i] == at(0, i) + at(1, i); }
            check(ok, "exponents add");
            check(s.checked_sub(&y).as_ref() == Some(&x), "subtracting a summand gives the other one");
            check(y.is_succ(&s), "summands divide the sum");
            cover(1);
        } else if which == 6 {
            let mut div = true;
            for i in 0..n { div &= at(1, i) <= at(0, i); }
            check(y.is_succ(&x) == div, "componentwise order");
            let r = x.checked_sub(&y);
            check(r.is_some() == div, "subtraction succeeds exactly when every exponent is large enough");
            if let Some(r) = r {
                check(is_canonical(&r) & (r.0.len() <= n), "a difference of multidegrees is canonical");
                let mut ok = true;
                for i in 0..n { ok &= r.0.get(i).copied().unwrap_or(0) + at(1, i) == at(0, i); }
                check(ok, "exponents subtract");
                cover(1);
            } else { cover(2); }
        } else {
            let (mut lex, mut rev, mut sa, mut sb) = (0, 0, 0u32, 0u32);
            for i in 0..n {
                let c = cmp_at(at(0, i) as u32, at(1, i) as u32);
                lex = if lex == 0 { c } else { lex };
                rev = if c != 0 { c } else { rev };
                sa += at(0, i) as u32;
                sb += at(1, i) as u32;
            }
            let g = cmp_at(sa, sb);
            let want = match which { 0 => lex, 1 => rev, 2 => if g != 0 { g } else { lex }, 3 => if g != 0 { g } else { -rev }, _ => g };
            check(num(code_cmp(which, &x, &y)) == want, "the order agrees with its definition");
            if want > 0 { cover(1); }
            if want < 0 { cover(2); }
        }
    }
    /// very many variables: exponents at the ends and at two places between arbitrary, the
    /// others zero (`dense` 0) or the same positive ones in both (1)
    fn h_mdeg_sparse(n, dense, hi, which) {
        let n = n as usize;
        let len = [n, n - choose(2)];
        let o = [1, n / 2 - 1, n - 4][choose(3)];
        let mut v = [Vec::with_capacity(512), Vec::with_capacity(512)];
        for k in 0..2 { for i in 0..len[k] {
            let last = i + 1 == len[k];
            let x = if i == 0 || i == o || i == o + 2 || last { urange(8, hi) as u8 } else if dense == 1 { (i * 5 % 7 + 1) as u8 } else { 0 };
            if last { assume(x > 0); }
            v[k].push(x);
        } }
        let (x, y) = (MultiDegree(v[0].clone()), MultiDegree(v[1].clone()));
        let at = |k: usize, i: usize| v[k].get(i).copied().unwrap_or(0);
        if which == 5 {
            let s = &x + &y;
            check(s.0.len() == n, "length of a sum");
            let mut ok = true;
            for i in 0..n { ok &= s.0[i] == at(0, i) + at(1, i); }
            check(ok, "exponents add");
            cover(1);
        } else if which == 6 {
            let mut div = true;
            let mut top = 0;
            for i in 0..n { div &= at(1, i) <= at(0, i); }
            check(y.is_succ(&x) == div, "componentwise order");
            let r = x.checked_sub(&y);
            check(r.is_some() == div, "subtraction succeeds exactly when every exponent is large enough");
            if let Some(r) = r {
                let mut ok = true;
                for i in 0..n { if at(0, i) != at(1, i) { top = i + 1; } }
                check(r.0.len() == top, "a difference of multidegrees is canonical");
                for i in 0..r.0.len() { ok &= r.0[i] + at(1, i) == at(0, i); }
                check(ok, "exponents subtract");
                cover(1);
            } else { cover(2); }
        } else {
            let (mut lex, mut rev, mut sa, mut sb) = (0, 0, 0u32, 0u32);
            for i in 0..n {
                let c = cmp_at(at(0, i) as u32, at(1, i) as u32);
                lex = if lex == 0 { c } else { lex };
                rev = if c != 0 { c } else { rev };
                sa += at(0, i) as u32;
                sb += at(1, i) as u32;
            }
            let g = cmp_at(sa, sb);
            let want = match which { 0 => lex, 1 => rev, 2 => if g != 0 { g } else { lex }, 3 => if g != 0 { g } else { -rev }, _ => g };
            check(num(code_cmp(which, &x, &y)) == want, "the order agrees with its definition");
            if want > 0 { cover(1); }
            if want < 0 { cover(2); }
        }
    }
    /// the monic lcm of two terms in n - 1 or n variables, every exponent positive; three
    /// neighbouring exponents of each arbitrary, the others fixed
    fn h_lcm_long(n) {
        let n = n as usize;
        let o = choose(n as u64 - 2);
        let len = [n - choose(2), n - choose(2)];
        let mut v = [Vec::with_capacity(32), Vec::with_capacity(32)];
        for k in 0..2 { for i in 0..len[k] { let x = if i >= o && i < o + 3 { uint(8) as u8 } else { (i * 5 + k * 3) as u8 % 7 + 1 }; assume(x > 0); v[k].push(x); } }
        let s = algeo::poly::elts::Term { coef: R::nz(), mdeg: MultiDegree(v[0].clone()) };
        let t = algeo::poly::elts::Term { coef: R::nz(), mdeg: MultiDegree(v[1].clone()) };
        let m = algeo::poly::comp::Computer::<R, Lex>::monic_lcm(&s, &t);
        m.coef.same(R::int(1), "the lcm is monic");
        check(m.mdeg.0.len() == len[0].max(len[1]), "the lcm has every variable");
        let mut ok = true;
        for i in 0..m.mdeg.0.len() {
            let (a, b) = (v[0].get(i).copied().unwrap_or(0), v[1].get(i).copied().unwrap_or(0));
            ok &= m.mdeg.0[i] == if a > b { a } else { b };
        }
        check(ok, "the lcm takes the larger exponent");
        cover(1);
    }
    // ---- C07 -------------------------------------------------------------------------------
    fn h_ord_def(which, n, hi) {
        let (na, nb) = (choose(n + 1), choose(n + 1));
        let (a, b) = (any_deg(na, hi), any_deg(nb, hi));
        let o = num(code_cmp(which, &mdeg(&a), &mdeg(&b)));
        check(o == ref_cmp(which, &a, &b), "the order agrees with its definition");
        if which < 4 { check((o == 0) == deg_eq(&a, &b), "only equal monomials compare equal"); }
        check(num(code_cmp(which, &mdeg(&b), &mdeg(&a))) == -o, "the order is antisymmetric");
        check(num(code_cmp(which, &MultiDegree(Vec::new()), &mdeg(&a))) <= 0, "the constant monomial is the least");
        if o < 0 { cover(1); }
        if o > 0 { cover(2); }
        if o == 0 { cover(3); }
    }
    fn h_ord_trans(which, n, hi) {
        let (na, nb, nc) = (choose(n + 1), choose(n + 1), choose(n + 1));
        let (a, b, c) = (any_deg(na, hi), any_deg(nb, hi), any_deg(nc, hi));
        let (x, y, z) = (mdeg(&a), mdeg(&b), mdeg(&c));
        if code_cmp(which, &x, &y) != Ordering::Greater && code_cmp(which, &y, &z) != Ordering::Greater {
            cover(1);
            check(code_cmp(which, &x, &z) != Ordering::Greater, "the order is transitive");
        }
    }
    fn h_ord_mul(which, n, hi) {
        let (na, nb, nc) = (choose(n + 1), choose(n + 1), choose(n + 1));
        let (a, b, c) = (any_deg(na, hi), any_deg(nb, hi), any_deg(nc, hi));
        let (mut ac, mut bc) = (a, b);
        for i in 0..NV {
            assume(a[i] as u32 + c[i] as u32 <= 255);
            assume(b[i] as u32 + c[i] as u32 <= 255);
            ac[i] += c[i];
            bc[i] += c[i];
        }
        let o = code_cmp(which, &mdeg(&a), &mdeg(&b));
        check(code_cmp(which, &mdeg(&ac), &mdeg(&bc)) == o, "multiplying by a monomial keeps the order");
        if o == Ordering::Less { cover(1); }
        if o == Ordering::Equal { cover(2); }
    }
}
