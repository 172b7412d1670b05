//! Long operands: many terms with concrete or ordered monomials, arbitrary coefficients, every
//! stored order of a family of permutations. What needs many terms to show up is decided here,
//! what needs odd combinations of monomials in `poly`.
use crate::mdeg::*;
use crate::poly::*;
use crate::real::R;
use crate::vf::*;
use algeo::core::num::{Field, One, Zero};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

/// the i-th monomial of a family: 1: x^i; 2: x^(i mod 4) y^(i/4); 3: x^(i mod 2) y^(i/2 mod 3) z^(i/6)
fn mono(nv: u64, i: u64) -> D {
    let mut d = [0u8; NV];
    match nv {
        1 => d[0] = i as u8,
        2 => { d[0] = (i % 4) as u8; d[1] = (i / 4) as u8; }
        _ => { d[0] = (i % 2) as u8; d[1] = (i / 2 % 3) as u8; d[2] = (i / 6) as u8; }
    }
    d
}
/// storage position j holds element `perm(n, w, j)`: ascending, descending, or strided
fn perm(n: u64, w: u64, j: u64) -> u64 {
    match w {
        0 => j,
        1 => n - 1 - j,
        _ => {
            // the odd positions first, then the even ones, both rotated by w
            let k = (j + w) % n;
            if k < n / 2 { 2 * k + 1 } else { 2 * (k - n / 2) }
        }
    }
}
fn family(n: u64, nv: u64, start: u64, stride: u64, w: u64) -> P {
    let mut terms = Vec::with_capacity(n as usize);
    for j in 0..n {
        terms.push(Term { coef: R::nz(), mdeg: mdeg(&mono(nv, start + stride * perm(n, w, j))) });
    }
    Polynomial { terms }
}
macro_rules! by_order {
    ($w:expr, $f:ident, $($a:expr),*) => {
        match $w { 0 => $f::<Lex>($w, $($a),*), 1 => $f::<RevLex>($w, $($a),*), 2 => $f::<GrLex>($w, $($a),*), _ => $f::<GRevLex>($w, $($a),*) }
    };
}

harnesses! {
    /// n terms and m terms overlapping in the last monomials of the first, 0 add, 1 sub, 2 mul
    fn h_long_bin(n, m, nv, start, stride, op, part) {
        let p = family(n, nv, 0, 1, choose(4) as u64);
        let q = family(m, nv, start, stride, choose(4) as u64);
        let r = match op { 0 => &p + &q, 1 => &p - &q, _ => &p * &q };
        if part == 1 { check_clean(&r, CLEAN); } else {
            let mut z = Ref::new();
            if op < 2 {
                z.add_poly(&p);
                if op == 0 { z.add_poly(&q); } else { z.sub_poly(&q); }
            } else {
                for s in &p.terms { for t in &q.terms {
                    z.add(&sum(&degs(&s.mdeg), &degs(&t.mdeg)), s.coef * t.coef);
                } }
            }
            z.sub_poly(&r);
            z.check_zero("the result of a polynomial operation is exact");
            check_once(&r);
        }
        cover(1);
    }
    /// the same n monomials on both sides: exactly one coefficient cancels, or all do
    fn h_long_cancel(n, nv, op, part) {
        let p = family(n, nv, 0, 1, choose(4) as u64);
        let mut q = family(n, nv, 0, 1, choose(4) as u64);
        let k = choose(n + 1);
        for i in 0..n as usize {
            let d = degs(&q.terms[i].mdeg);
            let mut c = R::int(0);
            for t in &p.terms { if deg_eq(&degs(&t.mdeg), &d) { c = t.coef; } }
            if op == 0 { c = R::int(0) - c; }
            if i == k || k == n as usize { q.terms[i].coef = c; } else { assume(q.terms[i].coef != c); }
        }
        let r = if op == 0 { &p + &q } else { &p - &q };
        if part == 1 { check_clean(&r, CLEAN); } else {
            let mut z = Ref::new();
            z.add_poly(&p);
            if op == 0 { z.add_poly(&q); } else { z.sub_poly(&q); }
            z.sub_poly(&r);
            z.check_zero("the result of a polynomial operation is exact");
            check_once(&r);
        }
        if k == n as usize { cover(1); check(r.terms.is_empty(), "a difference of equals is zero"); } else { cover(2); }
    }
    /// evaluation of n terms at an arbitrary point
    fn h_long_eval(n, nv) {
        let p = family(n, nv, 0, 1, choose(4) as u64);
        let mut x = Vec::with_capacity(NV);
        for _ in 0..nv { x.push(R::var()); }
        let v = p.eval(&x);
        let mut s = R::int(0);
        for t in &p.terms {
            let d = degs(&t.mdeg);
            let mut m = t.coef;
            for i in 0..nv as usize { for _ in 0..d[i] { m = m * x[i]; } }
            s = s + m;
        }
        v.same(s, "a polynomial evaluates to the sum of its terms");
        cover(1);
    }
    /// one term with exponents around the limits of narrower types, arbitrary point
    fn h_eval_wide(nv) {
        let e: [u8; 9] = [0, 1, 2, 15, 16, 127, 128, 129, 255];
        let mut d = [0u8; NV];
        let mut x = Vec::with_capacity(NV);
        let c = R::var();
        let mut m = c;
        for i in 0..nv as usize {
            d[i] = e[choose(9)];
            let y = R::var();
            x.push(y);
            for _ in 0..d[i] { m = m * y; }
        }
        let t = Term { coef: c, mdeg: mdeg(&d) };
        t.eval(&x).same(m, "a term evaluates to its coefficient times the powers");
        P::from(t).eval(&x).same(m, "a polynomial evaluates to the sum of its terms");
        cover(1);
    }
    /// n terms, arbitrary distinct 8-bit exponents of one variable, any of n+4 stored orders
    fn h_long_lead(which, n, var, sort) {
        let mut e = [0u8; 40];
        for i in 0..n as usize { e[i] = uint(8) as u8; }
        for i in 1..n as usize { assume(e[i - 1] < e[i]); }
        let w = choose(n + 4) as u64;
        let mut terms = Vec::with_capacity(n as usize);
        for j in 0..n {
            let mut d = [0u8; NV];
            d[var as usize] = e[perm(n, w, j) as usize];
            let mut v = vec![0u8; if d[var as usize] == 0 { 0 } else { var as usize + 1 }];
            if v.len() > 0 { v[var as usize] = d[var as usize]; }
            terms.push(Term { coef: R::nz(), mdeg: algeo::poly::mdeg::MultiDegree(v) });
        }
        let p = Polynomial { terms };
        if sort == 1 { by_order!(which, sorting, &p); } else { by_order!(which, leading, &p); }
    }
    /// n terms with the monomials of a family, in mixed stored order
    fn h_family_lead(which, n, nv, sort) {
        let p = family(n, nv, 0, 1, choose(n + 2) as u64);
        if sort == 1 { by_order!(which, sorting, &p); } else { by_order!(which, leading, &p); }
    }
    /// a dividend of n terms of a family by m divisors of k terms each
    fn h_long_divide(which, n, nv, m, k, part) {
        let f = family(n, nv, 0, 1, choose(3) as u64);
        let mut gs = Vec::with_capacity(4);
        for i in 0..m { gs.push(family(k, nv, i + 1, if nv == 1 { 1 } else { 4 }, choose(2) as u64)); }
        by_order!(which, division, &f, &gs, part);
    }
    fn h_long_spoly(which, n, m, nv, shift) {
        let f = family(n, nv, 0, 1, choose(4) as u64);
        let g = family(m, nv, shift, 1, choose(4) as u64);
        by_order!(which, spoly, &f, &g);
    }
}
