//! Polynomials in many variables: fixed monomials in up to dozens of variables, arbitrary
//! coefficients. What needs a variable of high index to show up is decided here.
use crate::real::R;
use crate::vf::*;
use algeo::core::num::{Field, One, Zero};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

type P = Polynomial<R>;
type M = Vec<u8>;
const CLEAN: &str = crate::poly::CLEAN;

fn trim(mut m: M) -> M {
    while m.last() == Some(&0) {
        m.pop();
    }
    m
}
fn plus(a: &M, b: &M) -> M {
    let mut r = if a.len() > b.len() { a.clone() } else { b.clone() };
    let s = if a.len() > b.len() { b } else { a };
    for i in 0..s.len() {
        r[i] += s[i];
    }
    r
}
fn at(m: &M, i: usize) -> i32 {
    if i < m.len() { m[i] as i32 } else { 0 }
}
fn divides(a: &M, b: &M) -> bool {
    (0..a.len()).all(|i| at(a, i) <= at(b, i))
}
/// 0 lex, 1 revlex, 2 grlex, 3 grevlex
fn order(w: u64, a: &M, b: &M) -> i32 {
    let n = a.len().max(b.len());
    let lex = (0..n).map(|i| at(a, i) - at(b, i)).find(|x| *x != 0).unwrap_or(0).signum();
    let rev = (0..n).rev().map(|i| at(a, i) - at(b, i)).find(|x| *x != 0).unwrap_or(0).signum();
    let deg = (0..n).map(|i| at(a, i) - at(b, i)).sum::<i32>().signum();
    match w {
        0 => lex,
        1 => rev,
        2 => if deg != 0 { deg } else { lex },
        _ => if deg != 0 { deg } else { -rev },
    }
}
/// reference polynomial
struct Ref(Vec<(M, R)>);
impl Ref {
    fn add(&mut self, m: M, c: R) {
        let m = trim(m);
        for x in self.0.iter_mut() {
            if x.0 == m {
                x.1 = x.1 + c;
                return;
            }
        }
        self.0.push((m, c));
    }
    fn poly(&mut self, p: &P, neg: bool) {
        for t in &p.terms {
            self.add(t.mdeg.0.clone(), if neg { -t.coef } else { t.coef });
        }
    }
    fn zero(&self, what: &str) {
        for x in &self.0 {
            x.1.same(R(crate::real::RZERO), what);
        }
    }
}
fn clean(p: &P) {
    for i in 0..p.terms.len() {
        let t = &p.terms[i];
        check(!t.coef.is_zero(), CLEAN);
        check(t.mdeg.0.last() != Some(&0), CLEAN);
        for j in 0..i {
            check(t.mdeg.0 != p.terms[j].mdeg.0, CLEAN);
        }
    }
}
/// the i-th monomial in `nv` variables: one variable after the other, with a companion
fn mono(nv: usize, i: usize) -> M {
    let mut m = vec![0u8; nv];
    m[nv - 1 - i % nv] += 1 + (i / nv) as u8;
    m[(7 * i + 3) % nv] += (i % 3) as u8;
    trim(m)
}
/// `n` different monomials from `start` on
fn monos(nv: usize, start: usize, n: usize) -> Vec<M> {
    let mut v: Vec<M> = Vec::with_capacity(n);
    let mut i = start;
    while v.len() < n {
        let m = mono(nv, i);
        if !v.iter().any(|x| *x == m) {
            v.push(m);
        }
        i += 1;
    }
    v
}
fn of(mut ms: Vec<M>, w: usize) -> P {
    let n = ms.len();
    if w == 1 {
        ms.reverse();
    } else if w == 2 {
        ms.rotate_left(n / 2);
        for i in (0..n / 2).step_by(2) {
            ms.swap(i, n - 1 - i);
        }
    }
    Polynomial { terms: ms.into_iter().map(|m| Term { coef: R::nz(), mdeg: MultiDegree(m) }).collect() }
}
fn family(nv: u64, start: u64, n: u64) -> P {
    of(monos(nv as usize, start as usize, n as usize), choose(3))
}
fn lead(w: u64, p: &P) -> usize {
    let mut b = 0;
    for i in 1..p.terms.len() {
        if order(w, &p.terms[i].mdeg.0, &p.terms[b].mdeg.0) > 0 {
            b = i;
        }
    }
    b
}
fn leading<O: MonomialOrder>(w: u64, p: &P) {
    let t = Computer::<R, O>::leading_term(p).unwrap();
    let k = &p.terms[lead(w, p)];
    check(t.mdeg == k.mdeg, "no term is above the leading term");
    t.coef.same(k.coef, "the leading term carries its coefficient");
    cover(1);
}
fn sorting<O: MonomialOrder>(w: u64, p: &P) {
    let s = Computer::<R, O>::sort_terms(p);
    check(s.terms.len() == p.terms.len(), "sorting keeps the number of terms");
    for i in 1..s.terms.len() {
        check(order(w, &s.terms[i - 1].mdeg.0, &s.terms[i].mdeg.0) < 0, "sorted terms ascend");
    }
    let mut z = Ref(Vec::new());
    z.poly(p, false);
    z.poly(&s, true);
    z.zero("sorting keeps the polynomial");
    cover(1);
}
fn dividing<O: MonomialOrder>(w: u64, f: &P, gs: &[P]) {
    fuel(4_000_000);
    let (r, q) = Computer::<R, O>::divide(f, gs);
    fuel(40_000_000);
    check(q.len() == gs.len(), "one quotient per divisor");
    let mut z = Ref(Vec::new());
    z.poly(f, false);
    z.poly(&r, true);
    for i in 0..gs.len() {
        for s in &q[i].terms {
            for t in &gs[i].terms {
                z.add(plus(&s.mdeg.0, &t.mdeg.0), -(s.coef * t.coef));
            }
        }
    }
    z.zero("dividend = sum of quotients times divisors plus remainder");
    clean(&r);
    let lf = &f.terms[lead(w, f)].mdeg.0;
    for i in 0..gs.len() {
        clean(&q[i]);
        let lg = &gs[i].terms[lead(w, &gs[i])].mdeg.0;
        for t in &r.terms {
            check(!divides(lg, &t.mdeg.0), "no remainder term is divisible by a divisor's leading term");
        }
        for s in &q[i].terms {
            check(order(w, &plus(&s.mdeg.0, lg), lf) <= 0, "no quotient-divisor product exceeds the dividend's degree");
        }
        if q[i].terms.len() > 0 { cover(2); }
    }
    cover(1);
}
fn spoly<O: MonomialOrder>(w: u64, f: &P, g: &P) {
    let s = Computer::<R, O>::try_reduce(f, g).unwrap();
    let (lf, lg) = (&f.terms[lead(w, f)], &g.terms[lead(w, g)]);
    let n = lf.mdeg.0.len().max(lg.mdeg.0.len());
    let up = |m: &M| -> M { (0..n).map(|i| (at(&lf.mdeg.0, i).max(at(&lg.mdeg.0, i)) - at(m, i)) as u8).collect() };
    let (mf, mg) = (up(&lf.mdeg.0), up(&lg.mdeg.0));
    let mut z = Ref(Vec::new());
    for t in &f.terms {
        z.add(plus(&mf, &t.mdeg.0), t.coef / lf.coef);
    }
    for t in &g.terms {
        z.add(plus(&mg, &t.mdeg.0), -(t.coef / lg.coef));
    }
    z.poly(&s, true);
    z.zero("S-polynomial = (M/LT f) f - (M/LT g) g");
    clean(&s);
    let m = trim(plus(&mf, &lf.mdeg.0));
    for t in &s.terms {
        check(order(w, &t.mdeg.0, &m) < 0, "the leading terms cancel");
    }
    cover(1);
}
// ---- Groebner bases ------------------------------------------------------------------------
/// nonzero terms, descending in the order
type Q = Vec<(M, R)>;
fn add_scaled(w: u64, p: &Q, q: &Q, m: &M, c: R) -> Q {
    let mut r: Q = Vec::new();
    let (mut i, mut j) = (0, 0);
    while i < p.len() || j < q.len() {
        let o = if i == p.len() { -1 } else if j == q.len() { 1 } else { order(w, &p[i].0, &plus(&q[j].0, m)) };
        if o > 0 {
            r.push(p[i].clone());
            i += 1;
        } else if o < 0 {
            r.push((plus(&q[j].0, m), c * q[j].1));
            j += 1;
        } else {
            let x = p[i].1 + c * q[j].1;
            if !x.is_zero() {
                r.push((p[i].0.clone(), x));
            }
            i += 1;
            j += 1;
        }
    }
    r
}
fn monic(p: &Q) -> Q {
    let c = p[0].1;
    p.iter().enumerate().map(|(i, t)| (t.0.clone(), if i == 0 { R(crate::real::RONE) } else { t.1 / c })).collect()
}
fn minus(a: &M, b: &M) -> M {
    trim((0..a.len()).map(|i| (at(a, i) - at(b, i)) as u8).collect())
}
fn reduce(w: u64, p: &Q, gs: &[Q]) -> Q {
    let mut f = p.clone();
    let mut i = 0;
    'next: while i < f.len() {
        for g in gs {
            if divides(&g[0].0, &f[i].0) {
                let (d, c) = (minus(&f[i].0, &g[0].0), f[i].1);
                f = add_scaled(w, &f, g, &d, -c);
                continue 'next;
            }
        }
        i += 1;
    }
    f
}
fn reduced_basis(w: u64, gens: &[Q]) -> Vec<Q> {
    let mut g: Vec<Q> = gens.iter().map(monic).collect();
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    for j in 0..g.len() { for i in 0..j { pairs.push((i, j)); } }
    while let Some((i, j)) = pairs.pop() {
        let (a, b) = (&g[i][0].0, &g[j][0].0);
        let l: M = (0..a.len().max(b.len())).map(|k| at(a, k).max(at(b, k)) as u8).collect();
        let s = add_scaled(w, &Vec::new(), &g[i], &minus(&l, a), R(crate::real::RONE));
        let s = add_scaled(w, &s, &g[j], &minus(&l, b), R::int(-1));
        let r = reduce(w, &s, &g);
        if r.len() > 0 {
            for k in 0..g.len() { pairs.push((k, g.len())); }
            g.push(monic(&r));
        }
    }
    let mut min: Vec<Q> = Vec::new();
    for i in 0..g.len() {
        let other = |k: usize| divides(&g[k][0].0, &g[i][0].0) && (g[k][0].0 != g[i][0].0 || k < i);
        if !(0..g.len()).any(|k| k != i && other(k)) {
            min.push(g[i].clone());
        }
    }
    (0..min.len())
        .map(|i| {
            let rest: Vec<Q> = (0..min.len()).filter(|k| *k != i).map(|k| min[k].clone()).collect();
            let tail: Q = min[i][1..].to_vec();
            let mut r = vec![min[i][0].clone()];
            r.extend(reduce(w, &tail, &rest));
            r
        })
        .collect()
}
/// generators: lists of (monomial as variable-exponent pairs, coefficient), coefficients as in `gb`
fn system(case: u64, nv: usize) -> Vec<Q> {
    let par = [R::nz(), R::nz(), R::nz()];
    let x = |v: &[(usize, u8)]| -> M {
        let mut m = vec![0u8; nv];
        for (i, e) in v { m[*i] += *e; }
        trim(m)
    };
    let k = |n: i64| R::int(n);
    let mut gs: Vec<Q> = Vec::new();
    match case {
        // a chain of linear forms
        0 => for i in 0..nv - 1 {
            gs.push(vec![(x(&[(i, 1)]), k(1)), (x(&[(i + 1, 1)]), if i % 3 == 0 { par[i / 3 % 3] } else { k(2) }), (x(&[]), k(i as i64 % 2 + 1))]);
        },
        // the edges of a path
        1 => for i in 0..nv - 1 { gs.push(vec![(x(&[(i, 1), (i + 1, 1)]), par[i % 3])]); },
        // powers of the last variable, each eliminating another
        2 => {
            for i in 0..nv - 1 { gs.push(vec![(x(&[(i, 1)]), k(1)), (x(&[(nv - 1, 1 + i as u8 % 3)]), if i == 1 || i == nv - 2 { par[0] } else { k(-1) })]); }
        }
        // all monomials of one degree in two variables, and a third variable
        3 => for i in 0..nv { gs.push(vec![(x(&[(0, i as u8), (1, (nv - i) as u8)]), if i == 4 { par[1] } else { k(1) })]); },
        // differences of neighbours' squares
        4 => for i in 0..nv - 1 { gs.push(vec![(x(&[(i, 1)]), k(1)), (x(&[(i + 1, 1)]), if i % 2 == 0 { par[i / 2 % 3] } else { k(-1) })]); },
        // parallel binomials with a common variable at the end
        _ => for i in 0..nv - 1 { gs.push(vec![(x(&[(i, 2)]), k(1)), (x(&[(nv - 1, 1)]), if i < 3 { par[i] } else { k(1) })]); },
    }
    gs
}
fn basis<O: MonomialOrder>(w: u64, gens: &[Q], rot: usize, crit: bool) {
    let n = gens.len();
    let mut ps: Vec<P> = (0..n).map(|i| Polynomial { terms: gens[(i + rot) % n].iter().map(|t| Term { coef: t.1, mdeg: MultiDegree(t.0.clone()) }).collect() }).collect();
    let qs: Vec<Q> = gens
        .iter()
        .map(|g| {
            let mut q: Q = Vec::new();
            for t in g {
                let i = q.iter().position(|u| order(w, &u.0, &t.0) < 0).unwrap_or(q.len());
                q.insert(i, t.clone());
            }
            q
        })
        .collect();
    if crit {
        let got = Computer::<R, O>::buchberger_criterion(&ps);
        let g: Vec<Q> = qs.iter().map(monic).collect();
        let mut want = true;
        for j in 0..n { for i in 0..j {
            let (a, b) = (&g[i][0].0, &g[j][0].0);
            let l: M = (0..a.len().max(b.len())).map(|k| at(a, k).max(at(b, k)) as u8).collect();
            let s = add_scaled(w, &Vec::new(), &g[i], &minus(&l, a), R(crate::real::RONE));
            let s = add_scaled(w, &s, &g[j], &minus(&l, b), R::int(-1));
            want = want && reduce(w, &s, &g).is_empty();
        } }
        check(got == want, "Buchberger's criterion holds exactly when every S-polynomial reduces to zero");
        if got { cover(1); } else { cover(2); }
        return;
    }
    fuel(8_000_000);
    Computer::<R, O>::buchberger_algorithm(&mut ps);
    fuel(80_000_000);
    let h = reduced_basis(w, &qs);
    check(ps.len() == h.len(), "the result has as many elements as the reduced basis");
    for q in &h {
        let mut found = false;
        for p in &ps {
            if p.terms.is_empty() { fail("the result has no zero polynomial"); }
            if p.terms[lead(w, p)].mdeg.0 == q[0].0 {
                found = true;
                check(p.terms.len() == q.len(), "the result is the reduced basis: same monomials");
                let mut z = Ref(Vec::new());
                z.poly(p, false);
                for t in q { z.add(t.0.clone(), -t.1); }
                z.zero("the result is the reduced basis: same coefficients");
            }
        }
        check(found, "the result is the reduced basis: same leading monomials");
    }
    check(Computer::<R, O>::buchberger_criterion(&ps), "the result passes Buchberger's criterion");
    cover(1);
}
macro_rules! by_order {
    ($w:expr, $f:ident, $($a:expr),*) => {
        match $w { 0 => $f::<Lex>($w, $($a),*), 1 => $f::<RevLex>($w, $($a),*), 2 => $f::<GrLex>($w, $($a),*), _ => $f::<GRevLex>($w, $($a),*) }
    };
}
harnesses! {
    /// n terms and m terms, overlapping from `start` on; 0 add, 1 sub, 2 mul
    fn h_many_bin(n, m, nv, start, op, part) {
        let (p, q) = (family(nv, 0, n), family(nv, start, m));
        let r = match op { 0 => &p + &q, 1 => &p - &q, _ => &p * &q };
        if part == 1 { clean(&r); } else {
            let mut z = Ref(Vec::new());
            if op < 2 {
                z.poly(&p, false);
                z.poly(&q, op == 1);
            } else {
                for s in &p.terms { for t in &q.terms { z.add(plus(&s.mdeg.0, &t.mdeg.0), s.coef * t.coef); } }
            }
            z.poly(&r, true);
            z.zero("the result of a polynomial operation is exact");
            for i in 0..r.terms.len() { for j in 0..i { check(r.terms[i].mdeg != r.terms[j].mdeg, "a monomial is stored once"); } }
        }
        cover(1);
    }
    /// products and quotients of two terms, each with one arbitrary exponent
    fn h_many_term(n, nv) {
        let nv = nv as usize;
        let i = choose(n) ;
        let (mut a, mut b) = (mono(nv, i), mono(nv, i + choose(3)));
        let (ka, kb) = (choose(nv as u64), choose(nv as u64));
        a.resize(a.len().max(ka + 1), 0);
        b.resize(b.len().max(kb + 1), 0);
        let (ea, eb) = (uint(7) as u8, uint(7) as u8);
        assume((ea > 0) & (eb > 0));
        a[ka] = ea;
        b[kb] = eb;
        let (s, t) = (Term { coef: R::nz(), mdeg: MultiDegree(a.clone()) }, Term { coef: R::nz(), mdeg: MultiDegree(b.clone()) });
        let p = &s * &t;
        p.coef.same(s.coef * t.coef, "coefficients multiply");
        check(p.mdeg.0 == plus(&a, &b), "exponents add");
        let q = p.try_div(&t);
        check(q.is_some() & t.divides(&p), "a product is divisible by its factors");
        if let Some(q) = q { check(q.mdeg.0 == a, "a product divided by a factor is the other one"); q.coef.same(s.coef, "a product divided by a factor is the other one"); }
        let d = t.divides(&s);
        let mut want = true;
        for j in 0..b.len() { want &= b[j] as i32 <= if j < a.len() { a[j] as i32 } else { 0 }; }
        check(d == want, "divisibility agrees with the exponents");
        cover(1);
    }
    fn h_many_eval(n, nv) {
        let p = family(nv, 0, n);
        let x: Vec<R> = (0..nv).map(|_| R::var()).collect();
        let v = p.eval(&x);
        let mut s = R::int(0);
        for t in &p.terms {
            let mut m = t.coef;
            for i in 0..t.mdeg.0.len() { for _ in 0..t.mdeg.0[i] { m = m * x[i]; } }
            t.eval(&x).same(m, "a term evaluates to its coefficient times the powers");
            s = s + m;
        }
        v.same(s, "a polynomial evaluates to the sum of its terms");
        cover(1);
    }
    fn h_many_lead(which, n, nv, sort) {
        let p = family(nv, choose(3) as u64, n);
        if sort == 1 { by_order!(which, sorting, &p); } else { by_order!(which, leading, &p); }
    }
    /// the dividend has multiples of the divisors' leading terms and others
    fn h_many_divide(which, n, nv, m, k) {
        let nv = nv as usize;
        let gs: Vec<P> = (0..m as usize).map(|i| of(monos(nv, 5 * i + 1, k as usize), choose(2))).collect();
        let mut ms: Vec<M> = Vec::new();
        for i in 0..n as usize {
            let e = mono(nv, 4 * i + 2);
            let x = if i % 3 == 2 { e } else { let g = &gs[i % gs.len()]; plus(&g.terms[lead(which, g)].mdeg.0, &e) };
            if !ms.iter().any(|y| *y == x) { ms.push(x); }
        }
        let f = of(ms, choose(2));
        by_order!(which, dividing, &f, &gs);
    }
    fn h_many_spoly(which, n, m, nv, shift) {
        let (f, g) = (family(nv, 0, n), family(nv, shift, m));
        by_order!(which, spoly, &f, &g);
    }
    /// many generators or many variables; the generators rotated
    fn h_many_gb(which, case, nv, crit) {
        let gens = system(case, nv as usize);
        let rot = choose(3) * (gens.len() / 3);
        by_order!(which, basis, &gens, rot, crit == 1);
    }
}
