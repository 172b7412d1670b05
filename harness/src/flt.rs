//! What holds for the floating point fields regardless of rounding.
use crate::mdeg::*;
use crate::vf::*;
use algeo::core::num::{EpsilonEquality, Field, StabilityCmp, Zero};
use algeo::linalg::mat::Mat;
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

pub trait Flt: Field + StabilityCmp + EpsilonEquality {
    /// any finite value
    fn any() -> Self;
}
impl Flt for f32 {
    fn any() -> f32 {
        let x = f32::from_bits(uint(32) as u32);
        assume(x.is_finite());
        x
    }
}
impl Flt for f64 {
    fn any() -> f64 {
        let x = f64::from_bits(uint(64));
        assume(x.is_finite());
        x
    }
}
fn poly<F: Flt>(k: usize, nv: usize, hi: u64) -> Polynomial<F> {
    let mut ds: Vec<D> = Vec::with_capacity(4);
    let mut terms = Vec::with_capacity(4);
    for _ in 0..k {
        let d = any_deg(nv, hi);
        for e in &ds {
            assume(!deg_eq(e, &d));
        }
        let c = F::any();
        assume(c != F::ZERO);
        ds.push(d);
        terms.push(Term { coef: c, mdeg: mdeg(&d) });
    }
    Polynomial { terms }
}
fn lead<F: Flt>(w: u64, p: &Polynomial<F>) -> D {
    let mut b = degs(&p.terms[0].mdeg);
    for t in &p.terms {
        let d = degs(&t.mdeg);
        if ref_cmp(w, &d, &b) > 0 {
            b = d;
        }
    }
    b
}
fn division<F: Flt, O: MonomialOrder>(w: u64, kf: usize, kg: usize, nv: usize, hi: u64) {
    let (f, g) = (poly::<F>(kf, nv, hi), poly::<F>(kg, nv, hi));
    let lg = lead(w, &g);
    fuel(200_000);
    let (r, q) = Computer::<F, O>::divide(&f, &[g]);
    fuel(10_000_000);
    check(q.len() == 1, "one quotient per divisor");
    for t in &r.terms {
        check(!deg_divides(&lg, &degs(&t.mdeg)), "no remainder term is divisible by the divisor's leading term");
    }
    if r.terms.is_empty() { cover(1); } else { cover(2); }
}
fn spoly<F: Flt, O: MonomialOrder>(w: u64, kf: usize, kg: usize, nv: usize, hi: u64) {
    let (f, g) = (poly::<F>(kf, nv, hi), poly::<F>(kg, nv, hi));
    let (a, b) = (lead(w, &f), lead(w, &g));
    let mut l = a;
    for i in 0..NV {
        l[i] = if a[i] > b[i] { a[i] } else { b[i] };
    }
    match Computer::<F, O>::try_reduce(&f, &g) {
        None => fail("nonzero polynomials have an S-polynomial"),
        Some(s) => {
            for t in &s.terms {
                check(ref_cmp(w, &degs(&t.mdeg), &l) < 0, "the S-polynomial cancels the leading terms");
            }
            cover(1);
        }
    }
}
/// one column: the pivot becomes exactly one, everything else exactly zero
fn column<F: Flt>(r: usize, which: u64) {
    let mut v: Vec<F> = Vec::with_capacity(4);
    for _ in 0..r {
        v.push(F::any());
    }
    let mut big = false;
    for x in &v {
        big |= !x.epsilon_equals(&F::ZERO);
    }
    let a = Mat::new(r, 1, v.clone());
    if which == 0 {
        let lu = a.lu();
        if big {
            cover(1);
            check(lu.u[(0, 0)] == F::ONE, "pivots are exactly one");
            for i in 1..r {
                check(lu.u[(i, 0)] == F::ZERO, "entries below a pivot are exactly zero");
            }
            check(lu.u.is_upper_triangular(), "the upper factor is upper triangular");
        }
        check(lu.l.is_lower_triangular(), "the lower factor is lower triangular");
    } else {
        let f = a.row_echelon();
        check(f.rank() == big as usize, "a single column has rank one unless it vanishes up to epsilon");
        check(f.nullity() == 1 - big as usize, "nullity of a single column");
        let f = f.to_rref();
        check(f.rank() == big as usize, "reduction keeps the rank of a single column");
        check(f.compute_kernel().len() == 1 - big as usize, "kernel of a single column");
        if big { cover(1); } else { cover(2); }
    }
}
/// the pivot search returns an entry of the largest magnitude at or below the row
fn pivot<F: Flt + PartialOrd>(r: usize) {
    let mut v: Vec<F> = Vec::with_capacity(4);
    for _ in 0..2 * r {
        v.push(F::any());
    }
    let (i, j) = (choose(r as u64), choose(2));
    let abs = |x: F| if x < F::ZERO { -x } else { x };
    let a = Mat::new(r, 2, v.clone());
    let mut max = F::ZERO;
    for k in i..r {
        let y = abs(v[2 * k + j]);
        if y > max { max = y; }
    }
    match a.get_stable_column_index_under_row(j, i) {
        None => { cover(1); check(max.epsilon_equals(&F::ZERO), "no pivot only if the column vanishes up to epsilon"); }
        Some((k, x)) => {
            cover(2);
            check((k >= i) & (k < r), "the pivot lies at or below the row");
            check(x == v[2 * k + j], "the pivot value is the entry");
            check(abs(x) == max, "the pivot has the largest magnitude");
            check(!x.epsilon_equals(&F::ZERO), "the pivot does not vanish up to epsilon");
        }
    }
}
/// elimination of small integer matrices in floating point, where quotients are rounded
fn small(r: usize, c: usize, w: u32, which: u64) {
    let mut v: Vec<f32> = Vec::with_capacity(9);
    for _ in 0..r * c {
        v.push(sint(w) as f32);
    }
    let a = Mat::new(r, c, v.clone());
    if which == 0 {
        let lu = a.lu();
        check(lu.u.is_upper_triangular(), "the upper factor is upper triangular");
        check(lu.l.is_lower_triangular(), "the lower factor is lower triangular");
        let mut next = 0;
        for i in 0..r {
            let mut j = 0;
            while j < c && lu.u[(i, j)].epsilon_equals(&0.0) { j += 1; }
            if j == c { next = c; continue; }
            cover(1);
            check(j >= next, "leading entries move right");
            next = j + 1;
            check(lu.u[(i, j)] == 1.0, "pivots are exactly one");
            for k in i + 1..r { check(lu.u[(k, j)] == 0.0, "entries below a pivot are exactly zero"); }
        }
    } else {
        let f = a.row_echelon().to_rref();
        cover(1);
        let k = f.compute_kernel();
        check(f.rank() + f.nullity() == c, "rank and nullity add up");
        check(k.len() == f.nullity(), "the kernel has as many vectors as the nullity");
        check(f.compute_range().len() == f.rank(), "the range has as many vectors as the rank");
    }
}
macro_rules! go {
    ($w:expr, $d:expr, $f:ident, $($a:expr),*) => {
        match ($w, $d) {
            (0, 0) => $f::<f32, Lex>($w, $($a),*),
            (1, 0) => $f::<f32, RevLex>($w, $($a),*),
            (2, 0) => $f::<f32, GrLex>($w, $($a),*),
            (_, 0) => $f::<f32, GRevLex>($w, $($a),*),
            (0, _) => $f::<f64, Lex>($w, $($a),*),
            (1, _) => $f::<f64, RevLex>($w, $($a),*),
            (2, _) => $f::<f64, GrLex>($w, $($a),*),
            (_, _) => $f::<f64, GRevLex>($w, $($a),*),
        }
    };
}
harnesses! {
    fn h_flt_divide(which, dbl, kf, kg, nv, hi) {
        go!(which, dbl, division, kf as usize, kg as usize, nv as usize, hi);
    }
    fn h_flt_spoly(which, dbl, kf, kg, nv, hi) {
        go!(which, dbl, spoly, kf as usize, kg as usize, nv as usize, hi);
    }
    fn h_flt_column(dbl, r, which) {
        if dbl == 0 { column::<f32>(r as usize, which) } else { column::<f64>(r as usize, which) }
    }
    fn h_flt_pivot(dbl, r) {
        if dbl == 0 { pivot::<f32>(r as usize) } else { pivot::<f64>(r as usize) }
    }
    fn h_flt_small(r, c, w, which) {
        small(r as usize, c as usize, w as u32, which);
    }
}
