//! Buchberger's criterion and algorithm against an independent computation of the reduced basis.
use crate::mdeg::*;
use crate::poly::{ref_lead, sum, P};
use crate::real::R;
use crate::vf::*;
use algeo::core::num::{One, Zero};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

/// reference polynomial: nonzero terms, descending in the order
#[derive(Clone)]
struct Q(Vec<(D, R)>);

fn add_scaled(w: u64, p: &Q, q: &Q, m: &D, c: R) -> Q {
    let mut r = Vec::with_capacity(8);
    let (mut i, mut j) = (0, 0);
    while i < p.0.len() || j < q.0.len() {
        let o = if i == p.0.len() {
            -1
        } else if j == q.0.len() {
            1
        } else {
            ref_cmp(w, &p.0[i].0, &sum(&q.0[j].0, m))
        };
        if o > 0 {
            r.push(p.0[i]);
            i += 1;
        } else if o < 0 {
            r.push((sum(&q.0[j].0, m), c * q.0[j].1));
            j += 1;
        } else {
            let x = p.0[i].1 + c * q.0[j].1;
            if !x.is_zero() {
                r.push((p.0[i].0, x));
            }
            i += 1;
            j += 1;
        }
    }
    Q(r)
}
fn monic(p: &Q) -> Q {
    let c = p.0[0].1;
    Q(p.0.iter().enumerate().map(|(i, t)| (t.0, if i == 0 { R(crate::real::RONE) } else { t.1 / c })).collect())
}
fn minus(a: &D, b: &D) -> D {
    let mut r = [0u8; NV];
    for i in 0..NV {
        r[i] = a[i] - b[i];
    }
    r
}
/// full reduction of `p` by monic divisors
fn reduce(w: u64, p: &Q, gs: &[Q]) -> Q {
    let mut f = p.clone();
    let mut i = 0;
    'next: while i < f.0.len() {
        for g in gs {
            if deg_divides(&g.0[0].0, &f.0[i].0) {
                let (d, c) = (minus(&f.0[i].0, &g.0[0].0), f.0[i].1);
                f = add_scaled(w, &f, g, &d, R(crate::real::RZERO) - c);
                continue 'next;
            }
        }
        i += 1;
    }
    f
}
fn s_poly(w: u64, p: &Q, q: &Q) -> Q {
    let (a, b) = (p.0[0].0, q.0[0].0);
    let mut l = [0u8; NV];
    for i in 0..NV {
        l[i] = if a[i] > b[i] { a[i] } else { b[i] };
    }
    let e = Q(Vec::new());
    let x = add_scaled(w, &e, p, &minus(&l, &a), R(crate::real::RONE));
    add_scaled(w, &x, q, &minus(&l, &b), R::int(-1))
}
/// the reduced monic basis
fn reduced_basis(w: u64, gens: &[Q]) -> Vec<Q> {
    let mut g: Vec<Q> = gens.iter().map(monic).collect();
    let mut pairs: Vec<(usize, usize)> = Vec::with_capacity(16);
    for j in 0..g.len() {
        for i in 0..j {
            pairs.push((i, j));
        }
    }
    while let Some((i, j)) = pairs.pop() {
        let r = reduce(w, &s_poly(w, &g[i], &g[j]), &g);
        if r.0.len() > 0 {
            for k in 0..g.len() {
                pairs.push((k, g.len()));
            }
            g.push(monic(&r));
        }
    }
    let mut min: Vec<Q> = Vec::with_capacity(8);
    for i in 0..g.len() {
        let mut keep = true;
        for j in 0..g.len() {
            if j != i && deg_divides(&g[j].0[0].0, &g[i].0[0].0) {
                keep &= deg_eq(&g[j].0[0].0, &g[i].0[0].0) && j > i;
            }
        }
        if keep {
            min.push(g[i].clone());
        }
    }
    let mut out = Vec::with_capacity(8);
    for i in 0..min.len() {
        let mut others = Vec::with_capacity(8);
        for j in 0..min.len() {
            if j != i {
                others.push(min[j].clone());
            }
        }
        out.push(reduce(w, &min[i], &others));
    }
    out
}

/// nonzero polynomial with up to `k` terms and exponents up to `hi`, all exponents concrete; the
/// coefficients arbitrary nonzero
fn gen(k: usize, nv: usize, hi: u64, w: u64, total: u64) -> (P, Q) {
    let n = 1 + choose(k as u64);
    let mut q: Vec<(D, R)> = Vec::with_capacity(4);
    for _ in 0..n {
        let mut d = [0u8; NV];
        let mut t = 0;
        for i in 0..nv {
            d[i] = choose(hi + 1) as u8;
            t += d[i] as u64;
        }
        assume(t <= total);
        if let Some(l) = q.last() {
            assume(ref_cmp(w, &l.0, &d) > 0);
        }
        q.push((d, R::nz()));
    }
    let p = Polynomial { terms: q.iter().rev().map(|t| Term { coef: t.1, mdeg: mdeg(&t.0) }).collect() };
    (p, Q(q))
}

/// systems with concrete monomials; coefficients: small integers, 100+k for the k-th parameter
/// (arbitrary nonzero), -100-k for its negative
type S = &'static [&'static [([u8; 4], i16)]];
const SYSTEMS: &[S] = &[
    // 0: three linear forms with constants
    &[&[([1, 0, 0, 0], 100), ([0, 1, 0, 0], 101), ([0, 0, 1, 0], 1), ([0, 0, 0, 0], 1)], &[([1, 0, 0, 0], 1), ([0, 1, 0, 0], 2), ([0, 0, 1, 0], -1)], &[([0, 1, 0, 0], 1), ([0, 0, 1, 0], -3), ([0, 0, 0, 0], 2)]],
    // 1: twisted cubic with weights
    &[&[([2, 0, 0, 0], 1), ([0, 1, 0, 0], 100)], &[([1, 1, 0, 0], 1), ([0, 0, 1, 0], 101)], &[([0, 2, 0, 0], 1), ([1, 0, 1, 0], 102)]],
    // 2: elementary symmetric functions
    &[&[([1, 0, 0, 0], 1), ([0, 1, 0, 0], 1), ([0, 0, 1, 0], 1)], &[([1, 1, 0, 0], 1), ([0, 1, 1, 0], 1), ([1, 0, 1, 0], 1)], &[([1, 1, 1, 0], 1), ([0, 0, 0, 0], 100)]],
    // 3: quadratic system of Katsura type
    &[&[([1, 0, 0, 0], 1), ([0, 1, 0, 0], 2), ([0, 0, 0, 0], 100)], &[([2, 0, 0, 0], 1), ([0, 2, 0, 0], 2), ([1, 0, 0, 0], -1)]],
    // 4: circle and parabola
    &[&[([2, 0, 0, 0], 1), ([0, 2, 0, 0], 1), ([0, 0, 0, 0], 100)], &[([0, 1, 0, 0], 1), ([2, 0, 0, 0], 101)]],
    // 5: four generators, triangular, with redundancy
    &[&[([1, 0, 0, 0], 1), ([0, 0, 0, 0], 100)], &[([0, 1, 0, 0], 1), ([1, 0, 0, 0], 1)], &[([0, 0, 1, 0], 1), ([0, 1, 0, 0], 101)], &[([1, 1, 0, 0], 1), ([0, 0, 1, 0], 102)]],
    // 6: pure powers with tails
    &[&[([2, 0, 0, 0], 1), ([0, 1, 0, 0], 100)], &[([0, 2, 0, 0], 1), ([0, 0, 1, 0], 101)], &[([0, 0, 2, 0], 1), ([1, 0, 0, 0], 102)]],
    // 7: five one-term generators and a binomial
    &[&[([3, 0, 0, 0], 100)], &[([2, 1, 0, 0], 1)], &[([1, 2, 0, 0], 101)], &[([0, 3, 0, 0], 1)], &[([1, 1, 1, 0], 3)], &[([1, 1, 0, 0], 1), ([0, 0, 1, 0], 102)]],
    // 8: univariate, common factor
    &[&[([3, 0, 0, 0], 1), ([2, 0, 0, 0], 100), ([1, 0, 0, 0], -1), ([0, 0, 0, 0], -100)], &[([2, 0, 0, 0], 1), ([1, 0, 0, 0], 101), ([0, 0, 0, 0], 1)]],
    // 9: textbook example with weights
    &[&[([3, 0, 0, 0], 1), ([1, 1, 0, 0], 100)], &[([2, 1, 0, 0], 1), ([0, 2, 0, 0], 101), ([1, 0, 0, 0], 1)]],
    // 10: four linear forms in four variables
    &[&[([1, 0, 0, 0], 1), ([0, 1, 0, 0], 100), ([0, 0, 0, 1], 1)], &[([0, 1, 0, 0], 1), ([0, 0, 1, 0], 101)], &[([0, 0, 1, 0], 1), ([0, 0, 0, 1], 2), ([0, 0, 0, 0], 1)], &[([1, 0, 0, 0], 1), ([0, 0, 1, 0], -1)]],
    // 11: monomial curve in four variables
    &[&[([1, 0, 1, 0], 1), ([0, 2, 0, 0], 100)], &[([1, 0, 0, 1], 1), ([0, 1, 1, 0], 101)], &[([0, 1, 0, 1], 1), ([0, 0, 2, 0], 102)]],
    // 12: three spheres' intersection, one shifted
    &[&[([2, 0, 0, 0], 1), ([0, 1, 0, 0], 1), ([0, 0, 0, 0], 100)], &[([1, 1, 0, 0], 1), ([0, 0, 0, 0], -1)], &[([0, 2, 0, 0], 1), ([1, 0, 0, 0], 101)]],
    // 13: Katsura 2
    &[&[([1, 0, 0, 0], 1), ([0, 1, 0, 0], 2), ([0, 0, 1, 0], 2), ([0, 0, 0, 0], 100)], &[([2, 0, 0, 0], 1), ([0, 2, 0, 0], 2), ([0, 0, 2, 0], 2), ([1, 0, 0, 0], -1)], &[([1, 1, 0, 0], 2), ([0, 1, 1, 0], 2), ([0, 1, 0, 0], -1)]],
    // 14: homogeneous forms of degree two and three
    &[&[([2, 0, 0, 0], 1), ([1, 1, 0, 0], 100), ([0, 2, 0, 0], 1)], &[([2, 1, 0, 0], 1), ([0, 3, 0, 0], 101)]],
    // 15: six generators, squarefree monomials and binomials of a path
    &[&[([1, 1, 0, 0], 1)], &[([0, 1, 1, 0], 100)], &[([0, 0, 1, 1], 1)], &[([1, 0, 0, 0], 1), ([0, 0, 1, 0], 101)], &[([0, 1, 0, 0], 1), ([0, 0, 0, 1], 102)], &[([2, 0, 0, 0], 1), ([0, 0, 0, 1], 1)]],
    // 16: high exponents
    &[&[([60, 0, 0, 0], 1), ([0, 1, 0, 0], 100)], &[([0, 70, 0, 0], 1)], &[([30, 40, 0, 0], 101)]],
    // 17: binomials of a grid
    &[&[([1, 0, 0, 1], 1), ([0, 1, 1, 0], -1)], &[([2, 0, 0, 0], 1), ([0, 1, 0, 0], 100)], &[([0, 0, 2, 0], 1), ([0, 0, 0, 1], 101)], &[([1, 0, 1, 0], 1), ([0, 0, 0, 0], 102)]],
];
fn system(w: u64, case: usize, rot: usize) -> (Vec<P>, Vec<Q>) {
    let par = [R::nz(), R::nz(), R::nz(), R::nz()];
    let (mut ps, mut qs) = (Vec::with_capacity(8), Vec::with_capacity(8));
    let sys = SYSTEMS[case];
    for k in 0..sys.len() {
        let mut t: Vec<(D, R)> = Vec::with_capacity(8);
        for (e, c) in sys[(k + rot) % sys.len()] {
            let mut d = [0u8; NV];
            for i in 0..4 {
                d[i] = e[i];
            }
            let c = if *c >= 100 { par[*c as usize - 100] } else if *c <= -100 { R(crate::real::RZERO) - par[(-*c) as usize - 100] } else { R::int(*c as i64) };
            t.push((d, c));
        }
        ps.push(Polynomial { terms: t.iter().map(|t| Term { coef: t.1, mdeg: mdeg(&t.0) }).collect() });
        let mut q: Vec<(D, R)> = Vec::with_capacity(8);
        for x in &t {
            let mut i = 0;
            while i < q.len() && ref_cmp(w, &q[i].0, &x.0) > 0 {
                i += 1;
            }
            q.insert(i, *x);
        }
        qs.push(Q(q));
    }
    (ps, qs)
}
fn criterion<O: MonomialOrder>(w: u64, ps: &[P], qs: &[Q]) {
    let got = Computer::<R, O>::buchberger_criterion(ps);
    let g: Vec<Q> = qs.iter().map(monic).collect();
    let mut want = true;
    for j in 0..g.len() {
        for i in 0..j {
            want = want && reduce(w, &s_poly(w, &g[i], &g[j]), &g).0.is_empty();
        }
    }
    check(got == want, "Buchberger's criterion holds exactly when every S-polynomial reduces to zero");
    if got { cover(1); } else { cover(2); }
}
fn algorithm<O: MonomialOrder>(w: u64, ps: &[P], qs: &[Q]) {
    let mut g = ps.to_vec();
    fuel(3_000_000);
    Computer::<R, O>::buchberger_algorithm(&mut g);
    fuel(30_000_000);
    let h = reduced_basis(w, qs);
    check(g.len() == h.len(), "the result has as many elements as the reduced basis");
    for q in &h {
        let mut found = false;
        for p in &g {
            if p.terms.is_empty() {
                fail("the result has no zero polynomial");
            }
            if deg_eq(&degs(&p.terms[ref_lead(w, p)].mdeg), &q.0[0].0) {
                found = true;
                check(p.terms.len() == q.0.len(), "the result is the reduced basis: same monomials");
                for t in &q.0 {
                    let mut n = 0;
                    for s in &p.terms {
                        if deg_eq(&degs(&s.mdeg), &t.0) {
                            n += 1;
                            s.coef.same(t.1, "the result is the reduced basis: same coefficients");
                        }
                    }
                    check(n == 1, "the result is the reduced basis: same monomials");
                }
            }
        }
        check(found, "the result is the reduced basis: same leading monomials");
    }
    check(Computer::<R, O>::buchberger_criterion(&g), "the result passes Buchberger's criterion");
    if h.len() == ps.len() { cover(1); }
    if h.len() < ps.len() { cover(2); }
    if h.len() > ps.len() { cover(3); }
}
macro_rules! by_order {
    ($w:expr, $f:ident, $($a:expr),*) => {
        match $w { 0 => $f::<Lex>($w, $($a),*), 1 => $f::<RevLex>($w, $($a),*), 2 => $f::<GrLex>($w, $($a),*), _ => $f::<GRevLex>($w, $($a),*) }
    };
}
harnesses! {
    /// m generators of at most k terms
    fn h_gb_criterion(which, m, k, nv, hi, total) {
        let (mut ps, mut qs) = (Vec::with_capacity(4), Vec::with_capacity(4));
        for _ in 0..m { let (p, q) = gen(k as usize, nv as usize, hi, which, total); ps.push(p); qs.push(q); }
        by_order!(which, criterion, &ps, &qs);
    }
    fn h_gb(which, m, k, nv, hi, total) {
        let (mut ps, mut qs) = (Vec::with_capacity(4), Vec::with_capacity(4));
        for _ in 0..m { let (p, q) = gen(k as usize, nv as usize, hi, which, total); ps.push(p); qs.push(q); }
        by_order!(which, algorithm, &ps, &qs);
    }
    /// a system from the list, its generators rotated; the coefficients' parameters arbitrary nonzero
    fn h_gb_system(which, case, crit) {
        let (ps, qs) = system(which, case as usize, choose(SYSTEMS[case as usize].len() as u64));
        if crit == 1 { by_order!(which, criterion, &ps, &qs); } else { by_order!(which, algorithm, &ps, &qs); }
    }
}
