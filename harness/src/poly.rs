//! Terms, polynomials, division, Gröbner bases over the symbolic real field.
use crate::mdeg::*;
use crate::real::R;
use crate::vf::*;
use algeo::core::num::{Field, One, Zero};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

pub type P = Polynomial<R>;
type T = Term<R>;

/// reference polynomial: exponents with coefficients, like terms combined, zeros may remain
pub struct Ref {
    pub t: Vec<(D, R)>,
}
impl Ref {
    pub fn new() -> Ref {
        Ref { t: Vec::with_capacity(16) }
    }
    pub fn add(&mut self, d: &D, c: R) {
        for x in self.t.iter_mut() {
            if deg_eq(&x.0, d) {
                x.1 = x.1 + c;
                return;
            }
        }
        self.t.push((*d, c));
    }
    pub fn add_poly(&mut self, p: &P) {
        for t in &p.terms {
            self.add(&degs(&t.mdeg), t.coef);
        }
    }
    pub fn sub_poly(&mut self, p: &P) {
        for t in &p.terms {
            self.add(&degs(&t.mdeg), R(crate::real::RZERO) - t.coef);
        }
    }
    pub fn sub_product(&mut self, p: &P, q: &P) {
        for s in &p.terms {
            for t in &q.terms {
                self.add(&sum(&degs(&s.mdeg), &degs(&t.mdeg)), R(crate::real::RZERO) - s.coef * t.coef);
            }
        }
    }
    pub fn check_zero(&self, what: &str) {
        for x in &self.t {
            x.1.same(R(crate::real::RZERO), what);
        }
    }
}
pub fn sum(a: &D, b: &D) -> D {
    let mut r = [0u8; NV];
    for i in 0..NV {
        r[i] = a[i] + b[i];
    }
    r
}
pub fn any_term(nv: usize, hi: u64) -> T {
    let d = any_deg(nv, hi);
    Term { coef: R::nz(), mdeg: mdeg(&d) }
}
/// `k` terms, nonzero coefficients, different monomials, arbitrary order
pub fn any_poly(k: usize, nv: usize, hi: u64) -> P {
    let mut ds: Vec<D> = Vec::with_capacity(4);
    let mut terms = Vec::with_capacity(4);
    for _ in 0..k {
        let d = any_deg(nv, hi);
        for e in &ds {
            assume(!deg_eq(e, &d));
        }
        ds.push(d);
        terms.push(Term { coef: R::nz(), mdeg: mdeg(&d) });
    }
    Polynomial { terms }
}
pub fn check_clean(p: &P, what: &str) {
    for i in 0..p.terms.len() {
        let t = &p.terms[i];
        check(!t.coef.is_zero(), what);
        check(is_canonical(&t.mdeg), what);
        for j in 0..i {
            check(!deg_eq(&degs(&t.mdeg), &degs(&p.terms[j].mdeg)), what);
        }
    }
}
/// "the coefficient of a monomial" is a term of the polynomial, not a sum of several
pub fn check_once(p: &P) {
    for i in 0..p.terms.len() {
        for j in 0..i {
            check(!deg_eq(&degs(&p.terms[i].mdeg), &degs(&p.terms[j].mdeg)), "a monomial is stored once");
        }
    }
}
fn coef_sum(p: &P, d: &D) -> R {
    let mut s = R(crate::real::RZERO);
    for t in &p.terms {
        if deg_eq(&degs(&t.mdeg), d) {
            s = s + t.coef;
        }
    }
    s
}
/// index of the leading term by the reference order
pub fn ref_lead(which: u64, p: &P) -> usize {
    let mut b = 0;
    for i in 1..p.terms.len() {
        if ref_cmp(which, &degs(&p.terms[i].mdeg), &degs(&p.terms[b].mdeg)) > 0 {
            b = i;
        }
    }
    b
}
fn lead_deg(which: u64, p: &P) -> D {
    degs(&p.terms[ref_lead(which, p)].mdeg)
}
macro_rules! by_order {
    ($w:expr, $f:ident, $($a:expr),*) => {
        match $w { 0 => $f::<Lex>($w, $($a),*), 1 => $f::<RevLex>($w, $($a),*), 2 => $f::<GrLex>($w, $($a),*), _ => $f::<GRevLex>($w, $($a),*) }
    };
}
pub const CLEAN: &str = "the result has no zero coefficient, no repeated monomial and no trailing zero exponent";

pub fn division<O: MonomialOrder>(which: u64, f: &P, gs: &[P], part: u64) {
    fuel(400_000);
    let (r, q) = Computer::<R, O>::divide(f, gs);
    fuel(10_000_000);
    if part == 0 {
        check(q.len() == gs.len(), "one quotient per divisor");
        let mut z = Ref::new();
        z.add_poly(f);
        z.sub_poly(&r);
        for i in 0..gs.len() {
            z.sub_product(&q[i], &gs[i]);
        }
        z.check_zero("dividend = sum of quotients times divisors plus remainder");
    } else {
        check_clean(&r, CLEAN);
        for x in &q {
            check_clean(x, CLEAN);
        }
        for t in &r.terms {
            for g in gs {
                if g.terms.len() > 0 {
                    check(!deg_divides(&lead_deg(which, g), &degs(&t.mdeg)), "no remainder term is divisible by a divisor's leading term");
                }
            }
        }
        if f.terms.len() > 0 {
            let lf = lead_deg(which, f);
            for i in 0..gs.len() {
                if q[i].terms.len() > 0 {
                    let d = sum(&lead_deg(which, &q[i]), &lead_deg(which, &gs[i]));
                    check(ref_cmp(which, &d, &lf) <= 0, "no quotient-divisor product exceeds the dividend's degree");
                }
            }
        }
    }
    if r.terms.len() > 0 { cover(1); } else { cover(2); }
}

pub fn leading<O: MonomialOrder>(which: u64, p: &P) {
    match Computer::<R, O>::leading_term(p) {
        None => { cover(1); check(p.terms.is_empty(), "only the zero polynomial has no leading term"); }
        Some(t) => {
            cover(2);
            let d = degs(&t.mdeg);
            let mut found = false;
            for s in &p.terms {
                let e = degs(&s.mdeg);
                check(ref_cmp(which, &e, &d) <= 0, "no term is above the leading term");
                found |= deg_eq(&e, &d);
            }
            check(found, "the leading term is one of the terms");
            t.coef.same(coef_sum(p, &d), "the leading term carries its coefficient");
        }
    }
    match Computer::<R, O>::leading_coef(p) {
        None => check(p.terms.is_empty(), "only the zero polynomial has no leading coefficient"),
        Some(c) => {
            check(!p.terms.is_empty(), "the zero polynomial has no leading coefficient");
            c.same(p.terms[ref_lead(which, p)].coef, "leading coefficient");
        }
    }
}
pub fn sorting<O: MonomialOrder>(which: u64, p: &P) {
    let s = Computer::<R, O>::sort_terms(p);
    check(s.terms.len() == p.terms.len(), "sorting keeps the number of terms");
    for i in 1..s.terms.len() {
        check(ref_cmp(which, &degs(&s.terms[i - 1].mdeg), &degs(&s.terms[i].mdeg)) < 0, "sorted terms ascend");
        cover(1);
    }
    let mut z = Ref::new();
    z.add_poly(p);
    z.sub_poly(&s);
    z.check_zero("sorting keeps the polynomial");
}
pub fn spoly<O: MonomialOrder>(which: u64, f: &P, g: &P) {
    let s = match Computer::<R, O>::try_reduce(f, g) {
        Some(s) => s,
        None => {
            cover(1);
            check(f.terms.is_empty() | g.terms.is_empty(), "nonzero polynomials have an S-polynomial");
            return;
        }
    };
    check(!f.terms.is_empty() & !g.terms.is_empty(), "the zero polynomial has no S-polynomial");
    if f.terms.is_empty() || g.terms.is_empty() {
        return;
    }
    cover(2);
    let (i, j) = (ref_lead(which, f), ref_lead(which, g));
    let (df, dg) = (degs(&f.terms[i].mdeg), degs(&g.terms[j].mdeg));
    let (mut m, mut mf, mut mg) = ([0u8; NV], [0u8; NV], [0u8; NV]);
    for k in 0..NV {
        m[k] = if df[k] > dg[k] { df[k] } else { dg[k] };
        mf[k] = m[k] - df[k];
        mg[k] = m[k] - dg[k];
    }
    let mut z = Ref::new();
    for t in &f.terms {
        z.add(&sum(&mf, &degs(&t.mdeg)), t.coef / f.terms[i].coef);
    }
    for t in &g.terms {
        z.add(&sum(&mg, &degs(&t.mdeg)), R(crate::real::RZERO) - t.coef / g.terms[j].coef);
    }
    z.sub_poly(&s);
    z.check_zero("S-polynomial = (M/LT f) f - (M/LT g) g");
    check_clean(&s, CLEAN);
    for t in &s.terms {
        check(ref_cmp(which, &degs(&t.mdeg), &m) < 0, "the leading terms cancel");
    }
    if s.terms.is_empty() { cover(3); }
}

harnesses! {
    // ---- C08 -------------------------------------------------------------------------------
    fn h_term_make(nv) {
        let c = R::var();
        let d = any_deg(nv as usize, 255);
        let t = Term::new(c, mdeg(&d));
        t.coef.same(c, "a new term keeps its coefficient");
        if c.is_zero() {
            cover(1);
            check(t.mdeg.0.is_empty(), "a zero term is the canonical zero");
            check(t.is_zero(), "zero terms are recognised");
        } else {
            cover(2);
            check(!t.is_zero(), "nonzero terms are not zero");
            check(deg_eq(&degs(&t.mdeg), &d), "a new term keeps its exponents");
        }
        let z = T::zero();
        z.coef.same(R::int(0), "zero term");
        check(z.mdeg.0.is_empty() & z.is_zero(), "zero term");
        let o = T::one();
        o.coef.same(R::int(1), "unit term");
        check(o.mdeg.0.is_empty(), "unit term is constant");
        let k = T::from(c);
        k.coef.same(c, "constant term");
        check(k.mdeg.0.is_empty(), "a constant has no exponents");
        let m = T::monic(mdeg(&d));
        m.coef.same(R::int(1), "monic term");
        check(deg_eq(&degs(&m.mdeg), &d), "monic term exponents");
        let i = choose(nv);
        let e = uint(8) as u8;
        let v = T::var(i, e);
        let mut dv = [0u8; NV];
        dv[i] = e;
        v.coef.same(R::int(1), "a variable is monic");
        check(deg_eq(&degs(&v.mdeg), &dv) & is_canonical(&v.mdeg), "a variable has its one exponent");
        check(T::default().is_zero(), "the default term is zero");
        let n = -t.clone();
        n.coef.same(R::int(0) - c, "negation negates the coefficient");
        check(n.mdeg == t.mdeg, "negation keeps the exponents");
        let n = -&t;
        n.coef.same(R::int(0) - c, "negation negates the coefficient");
        let u = Term { coef: R::var(), mdeg: mdeg(&any_deg(nv as usize, 1)) };
        check((t == u) == (t.coef == u.coef && t.mdeg == u.mdeg), "terms are equal when coefficient and exponents are");
    }
    fn h_term_mul(nv, hi, form) {
        let (a, b) = (R::var(), R::var());
        let (da, db) = (any_deg(nv as usize, hi), any_deg(nv as usize, hi));
        for i in 0..NV { assume(da[i] as u32 + db[i] as u32 <= 255); }
        let (s, t) = (Term { coef: a, mdeg: mdeg(&da) }, Term { coef: b, mdeg: mdeg(&db) });
        let p = match form { 0 => &s * &t, 1 => s.clone() * t.clone(), 2 => &s * t.clone(), _ => s.clone() * &t };
        p.coef.same(a * b, "coefficients multiply");
        if a.is_zero() || b.is_zero() {
            cover(1);
            check(p.mdeg.0.is_empty(), "a product with zero is the canonical zero");
        } else {
            cover(2);
            check(deg_eq(&degs(&p.mdeg), &sum(&da, &db)), "exponents add");
            check(is_canonical(&p.mdeg), "a product of terms is canonical");
        }
    }
    fn h_term_div(nv, hi) {
        let (a, b) = (R::var(), R::var());
        let (da, db) = (any_deg(nv as usize, hi), any_deg(nv as usize, hi));
        let (s, t) = (Term { coef: a, mdeg: mdeg(&da) }, Term { coef: b, mdeg: mdeg(&db) });
        let q = s.try_div(&t);
        if a.is_zero() {
            cover(1);
            check(q.is_some(), "zero is divisible");
            if let Some(q) = q { q.coef.same(R::int(0), "zero divided is zero"); }
        } else if b.is_zero() {
            cover(2);
            check(q.is_none(), "nothing nonzero is divisible by zero");
            check(!t.divides(&s), "zero divides nothing");
        } else {
            let div = deg_divides(&db, &da);
            check(q.is_some() == div, "division succeeds exactly when every exponent is large enough");
            check(t.divides(&s) == div, "divisibility agrees with division");
            if let Some(q) = q {
                cover(3);
                (q.coef * b).same(a, "quotient times divisor has the dividend's coefficient");
                check(is_canonical(&q.mdeg), "a quotient of terms is canonical");
                let dq = degs(&q.mdeg);
                let mut ok = true;
                for i in 0..NV { ok &= dq[i] as u32 + db[i] as u32 == da[i] as u32; }
                check(ok, "quotient times divisor has the dividend's exponents");
            } else { cover(4); }
        }
    }
    // ---- C09 -------------------------------------------------------------------------------
    /// term op term: op 0 add, 1 sub
    fn h_term_sum(nv, hi, op, form, part) {
        let (a, b) = (R::var(), R::var());
        let (s, t) = (Term { coef: a, mdeg: mdeg(&any_deg(nv as usize, hi)) }, Term { coef: b, mdeg: mdeg(&any_deg(nv as usize, hi)) });
        let r = match (op, form) {
            (0, 0) => &s + &t, (0, 1) => s.clone() + t.clone(), (0, 2) => &s + t.clone(), (0, _) => s.clone() + &t,
            (_, 0) => &s - &t, (_, 1) => s.clone() - t.clone(), (_, 2) => &s - t.clone(), _ => s.clone() - &t,
        };
        if part == 1 { check_clean(&r, CLEAN); } else {
            let mut z = Ref::new();
            z.add(&degs(&s.mdeg), a);
            z.add(&degs(&t.mdeg), if op == 0 { b } else { R::int(0) - b });
            z.sub_poly(&r);
            z.check_zero("the sum of terms is exact");
        }
        if r.terms.is_empty() { cover(1); } else { cover(2); }
    }
    /// polynomial op term (side 0) or term op polynomial (side 1); op 0 add, 1 sub, 2 mul
    fn h_poly_term(k, nv, hi, op, side, form, part) {
        let p = any_poly(choose(k + 1), nv as usize, hi);
        let b = R::var();
        let t = Term { coef: b, mdeg: mdeg(&any_deg(nv as usize, hi)) };
        let (p2, t2) = (p.clone(), t.clone());
        let r = match (op, side, form) {
            (0, 0, 0) => &p + &t, (0, 0, 1) => p2 + t2, (0, 0, 2) => &p + t2, (0, 0, _) => p2 + &t,
            (0, _, 0) => &t + &p, (0, _, 1) => t2 + p2, (0, _, 2) => &t + p2, (0, _, _) => t2 + &p,
            (1, 0, 0) => &p - &t, (1, 0, 1) => p2 - t2, (1, 0, 2) => &p - t2, (1, 0, _) => p2 - &t,
            (1, _, 0) => &t - &p, (1, _, 1) => t2 - p2, (1, _, 2) => &t - p2, (1, _, _) => t2 - &p,
            (_, 0, 0) => &p * &t, (_, 0, 1) => p2 * t2, (_, 0, 2) => &p * t2, (_, 0, _) => p2 * &t,
            (_, _, 0) => &t * &p, (_, _, 1) => t2 * p2, (_, _, 2) => &t * p2, _ => t2 * &p,
        };
        if part == 1 { check_clean(&r, CLEAN); } else {
            let mut z = Ref::new();
            let neg = |x: R| R::int(0) - x;
            match (op, side) {
                (0, _) => { z.add_poly(&p); z.add(&degs(&t.mdeg), b); }
                (1, 0) => { z.add_poly(&p); z.add(&degs(&t.mdeg), neg(b)); }
                (1, _) => { z.sub_poly(&p); z.add(&degs(&t.mdeg), b); }
                _ => for s in &p.terms { z.add(&sum(&degs(&s.mdeg), &degs(&t.mdeg)), s.coef * b); },
            }
            z.sub_poly(&r);
            z.check_zero("the result of a polynomial-term operation is exact");
        }
        if r.terms.is_empty() { cover(1); } else { cover(2); }
    }
    /// polynomial op polynomial: 0 add, 1 sub, 2 mul
    fn h_poly_bin(ka, kb, nv, hi, op, form, part) {
        let p = any_poly(choose(ka + 1), nv as usize, hi);
        let q = any_poly(choose(kb + 1), nv as usize, hi);
        let (p2, q2) = (p.clone(), q.clone());
        let r = match (op, form) {
            (0, 0) => &p + &q, (0, 1) => p2 + q2, (0, 2) => &p + q2, (0, _) => p2 + &q,
            (1, 0) => &p - &q, (1, 1) => p2 - q2, (1, 2) => &p - q2, (1, _) => p2 - &q,
            (_, 0) => &p * &q, (_, 1) => p2 * q2, (_, 2) => &p * q2, _ => p2 * &q,
        };
        if part == 1 { check_clean(&r, CLEAN); } else {
            let mut z = Ref::new();
            if op < 2 {
                z.add_poly(&p);
                if op == 0 { z.add_poly(&q); } else { z.sub_poly(&q); }
            } else {
                for s in &p.terms { for t in &q.terms {
                    z.add(&sum(&degs(&s.mdeg), &degs(&t.mdeg)), s.coef * t.coef);
                } }
            }
            z.sub_poly(&r);
            z.check_zero("the result of a polynomial operation is exact");
            check_once(&r);
        }
        if r.terms.is_empty() { cover(1); } else { cover(2); }
    }
    /// scalar multiplication and division, negation
    fn h_poly_scalar(k, nv, hi, part) {
        let p = any_poly(choose(k + 1), nv as usize, hi);
        let c = R::var();
        let w = choose(6);
        let (r, f) = match w {
            0 => (&p * c, c),
            1 => (p.clone() * c, c),
            2 => { assume(!c.is_zero()); (&p / c, R::int(1) / c) }
            3 => { assume(!c.is_zero()); (p.clone() / c, R::int(1) / c) }
            4 => (-&p, R::int(-1)),
            _ => (-p.clone(), R::int(-1)),
        };
        if part == 1 { check_clean(&r, CLEAN); } else {
            let mut z = Ref::new();
            for s in &p.terms { z.add(&degs(&s.mdeg), s.coef * f); }
            z.sub_poly(&r);
            z.check_zero("scaling a polynomial scales every coefficient");
        }
        cover(1 + w as u32);
    }
    /// constructors and conversions
    fn h_poly_make(nv) {
        let c = R::var();
        let d = any_deg(nv as usize, 255);
        let t = Term { coef: c, mdeg: mdeg(&d) };
        let one = |p: &P, z: bool, what: &str| {
            if z { check(p.terms.is_empty(), what); check(p.is_zero(), what); }
            else { check((p.terms.len() == 1) & !p.is_zero(), what); }
        };
        let z = c.is_zero();
        if z { cover(1); } else { cover(2); }
        let p = P::from(t.clone());
        one(&p, z, "a polynomial from a term");
        if !z { p.terms[0].coef.same(c, "coefficient of a converted term"); check(p.terms[0].mdeg == t.mdeg, "exponents of a converted term"); }
        let p = P::from(&t);
        one(&p, z, "a polynomial from a term reference");
        let p = P::from(c);
        one(&p, z, "a polynomial from a scalar");
        if !z { p.terms[0].coef.same(c, "coefficient of a constant"); check(p.terms[0].mdeg.0.is_empty(), "a constant has no exponents"); }
        let b = R::nz();
        let p = P::new(vec![t.clone(), Term { coef: b, mdeg: mdeg(&any_deg(nv as usize, 255)) }]);
        check(p.terms.len() == if z { 1 } else { 2 }, "zero terms are dropped, others kept");
        p.terms[p.terms.len() - 1].coef.same(b, "kept terms are unchanged");
        check(P::zero().terms.is_empty() & P::default().terms.is_empty(), "zero polynomial");
        let o = P::one();
        check(o.terms.len() == 1, "unit polynomial");
        o.terms[0].coef.same(R::int(1), "unit polynomial");
        check(o.terms[0].mdeg.0.is_empty(), "unit polynomial");
        let i = choose(nv);
        let e = uint(8) as u8;
        let v = P::var(i, e);
        check(v.terms.len() == 1, "a variable has one term");
        v.terms[0].coef.same(R::int(1), "a variable is monic");
        let mut dv = [0u8; NV];
        dv[i] = e;
        check(deg_eq(&degs(&v.terms[0].mdeg), &dv) & is_canonical(&v.terms[0].mdeg), "a variable has its one exponent");
        let mut p = any_poly(2, nv as usize, 3);
        let mut n = 0;
        for t in p.terms() { t.coef.same(p.terms[n].coef, "term iterator"); n += 1; }
        check(n == 2, "term iterator yields every term");
        for t in p.terms_mut() { t.coef = R::int(7); }
        p.terms[0].coef.same(R::int(7), "mutable term iterator");
        p.terms[1].coef.same(R::int(7), "mutable term iterator");
    }
    // ---- C10 -------------------------------------------------------------------------------
    /// evaluation against the definition; `extra` unused coordinates allowed
    fn h_eval(k, nv, hi, extra) {
        let p = any_poly(choose(k + 1), nv as usize, hi);
        let mut x = Vec::with_capacity(NV + 2);
        for _ in 0..nv + extra { x.push(R::var()); }
        let v = p.eval(&x);
        let mut s = R::int(0);
        for t in &p.terms {
            let d = degs(&t.mdeg);
            let mut m = t.coef;
            for i in 0..nv as usize {
                for _ in 0..pin(d[i] as u64) { m = m * x[i]; }
            }
            t.eval(&x).same(m, "a term evaluates to its coefficient times the powers");
            s = s + m;
        }
        v.same(s, "a polynomial evaluates to the sum of its terms");
        cover(1);
        if k > 0 && !p.terms.is_empty() { cover(2); }
    }
    /// evaluation respects the ring operations: 0 add, 1 sub, 2 mul
    fn h_eval_hom(ka, kb, nv, hi, op) {
        let p = any_poly(choose(ka + 1), nv as usize, hi);
        let q = any_poly(choose(kb + 1), nv as usize, hi);
        let mut x = Vec::with_capacity(NV);
        for _ in 0..nv { x.push(R::var()); }
        let (a, b) = (p.eval(&x), q.eval(&x));
        let (l, r) = match op { 0 => ((&p + &q).eval(&x), a + b), 1 => ((&p - &q).eval(&x), a - b), _ => ((&p * &q).eval(&x), a * b) };
        l.same(r, "evaluation commutes with the ring operations");
        cover(1);
    }
    // ---- C11 - C13 ---------------------------------------------------------------------------
    /// f has at most kf terms, each of the m divisors at most kg
    fn h_divide(which, kf, m, kg, nv, hi, part) {
        let f = any_poly(choose(kf + 1), nv as usize, hi);
        let mut gs = Vec::with_capacity(3);
        for _ in 0..m { gs.push(any_poly(choose(kg + 1), nv as usize, hi)); }
        by_order!(which, division, &f, &gs, part);
    }
    fn h_lead(which, k, nv, hi) {
        let p = any_poly(choose(k + 1), nv as usize, hi);
        by_order!(which, leading, &p);
    }
    fn h_sort(which, k, nv, hi) {
        let p = any_poly(choose(k + 1), nv as usize, hi);
        by_order!(which, sorting, &p);
    }
    fn h_spoly(which, kf, kg, nv, hi) {
        let f = any_poly(choose(kf + 1), nv as usize, hi);
        let g = any_poly(choose(kg + 1), nv as usize, hi);
        by_order!(which, spoly, &f, &g);
    }
    fn h_lcm_term(nv, hi) {
        let (a, b) = (R::var(), R::var());
        let (da, db) = (any_deg(nv as usize, hi), any_deg(nv as usize, hi));
        let (s, t) = (Term { coef: a, mdeg: mdeg(&da) }, Term { coef: b, mdeg: mdeg(&db) });
        let m = Computer::<R, Lex>::monic_lcm(&s, &t);
        if a.is_zero() || b.is_zero() { cover(1); m.coef.same(R::int(0), "lcm with zero is zero"); return; }
        cover(2);
        m.coef.same(R::int(1), "the lcm is monic");
        check(is_canonical(&m.mdeg), "the lcm is canonical");
        let dm = degs(&m.mdeg);
        let mut ok = true;
        for i in 0..NV { ok &= dm[i] == if da[i] > db[i] { da[i] } else { db[i] }; }
        check(ok, "the lcm takes the larger exponent");
    }
    // ---- C24 -------------------------------------------------------------------------------
    /// too few coordinates, division by the zero scalar
    fn h_poly_reject(which) {
        let e = uint(8) as u8;
        assume(e > 0);
        let i = 1 + choose(2);
        let mut d = [0u8; NV];
        d[i] = e;
        let t = Term { coef: R::nz(), mdeg: mdeg(&d) };
        let mut x = Vec::with_capacity(4);
        for _ in 0..choose(i as u64 + 1) { x.push(R::var()); }
        expect_panic();
        match which {
            0 => { std::hint::black_box(t.eval(&x)); }
            1 => { std::hint::black_box(P::from(t).eval(&x)); }
            2 => { std::hint::black_box(&P::from(t) / R::int(0)); }
            _ => { std::hint::black_box(P::from(t) / R::int(0)); }
        };
    }
    /// division of a polynomial of up to three terms, zero included, by the zero scalar
    fn h_poly_reject_div(n, nv, hi) {
        let p = any_poly(n as usize, nv as usize, hi);
        expect_panic();
        if choose(2) == 0 { std::hint::black_box(&p / R::int(0)); } else { std::hint::black_box(p / R::int(0)); }
    }
    /// `n` terms, one of which (any) is the only one with a variable that the point lacks,
    /// whether or not the point is zero
    fn h_poly_reject_eval(n, nv) {
        let (n, nv) = (n as usize, nv as usize);
        let k = choose(n as u64);
        let len = nv - 1 - choose(2);
        let mut ts = Vec::with_capacity(8);
        for i in 0..n {
            let mut d = vec![0u8; if i == k { nv } else if i % 3 == 2 { 0 } else { len.min(i) }];
            if let Some(l) = d.last_mut() { *l = 1 + i as u8 % 3; }
            ts.push(Term { coef: R::nz(), mdeg: MultiDegree(d) });
        }
        let mut x = Vec::with_capacity(32);
        let zeros = choose(2) == 0;
        for _ in 0..len { x.push(if zeros { R::int(0) } else { R::var() }); }
        expect_panic();
        std::hint::black_box(P::new_unchecked(ts).eval(&x));
    }
}
