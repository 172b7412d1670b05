//! Textual output.
use crate::mdeg::*;
use crate::vf::*;
use algeo::core::num::Rational;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;

/// a canonical rational with `w`-bit numerator and denominator
fn rat_of(w: u32) -> Rational {
    crate::num::any_rat(w)
}
fn parts(r: &Rational) -> (i64, i64) {
    (r.numer.0, r.denom.0)
}
/// reads a text from the left, checking it against what is expected
struct Text<'a> {
    s: &'a [u8],
    i: usize,
    what: &'static str,
}
impl<'a> Text<'a> {
    fn new(s: &'a str, what: &'static str) -> Text<'a> {
        Text { s: s.as_bytes(), i: 0, what }
    }
    fn s(&mut self, l: &str) {
        let l = l.as_bytes();
        if self.i + l.len() > self.s.len() {
            check(false, self.what);
            return;
        }
        let mut ok = true;
        for b in l {
            ok &= self.s[self.i] == *b;
            self.i += 1;
        }
        check(ok, self.what);
    }
    fn nat(&mut self, x: u64) {
        let (mut v, mut n, start) = (0u64, 0, self.i);
        while self.i < self.s.len() && self.s[self.i].wrapping_sub(b'0') < 10 {
            v = v * 10 + (self.s[self.i] - b'0') as u64;
            self.i += 1;
            n += 1;
        }
        check(n > 0, self.what);
        check(v == x, self.what);
        check((n == 1) | (self.s[start.min(self.s.len() - 1)] != b'0'), self.what);
    }
    fn int(&mut self, x: i64) {
        if x < 0 {
            self.s("-");
        }
        self.nat(x.unsigned_abs());
    }
    fn sup(&mut self, x: u8) {
        let (mut v, mut n, mut first) = (0u32, 0, 1);
        loop {
            let b = |k: usize| self.s.get(self.i + k).copied().unwrap_or(0);
            let (d, l) = match (b(0), b(1)) {
                (0xc2, 0xb9) => (1, 2),
                (0xc2, 0xb2) => (2, 2),
                (0xc2, 0xb3) => (3, 2),
                (0xe2, 0x81) if b(2) == 0xb0 => (0, 3),
                (0xe2, 0x81) if b(2) >= 0xb4 && b(2) <= 0xb9 => (b(2) as u32 - 0xb0, 3),
                _ => break,
            };
            if n == 0 {
                first = d;
            }
            v = v * 10 + d;
            n += 1;
            self.i += l;
        }
        check((n > 0) & (first > 0), self.what);
        check(v == x as u32, self.what);
    }
    fn mdeg(&mut self, d: &[u8]) {
        for i in 0..d.len() {
            if d[i] != 0 {
                self.s(["x", "y", "z", "u", "v"][i]);
                if d[i] != 1 {
                    self.sup(d[i]);
                }
            }
        }
    }
    fn rat(&mut self, n: i64, d: i64) {
        self.int(n);
        if d != 1 {
            self.s("/");
            self.int(d);
        }
    }
    fn term(&mut self, n: i64, d: i64, m: &[u8]) {
        let c = m.iter().all(|x| *x == 0);
        if c || d != 1 || (n != 1 && n != -1) {
            self.rat(n, d);
        } else if n == -1 {
            self.s("-");
        }
        self.mdeg(m);
    }
    fn end(&self) {
        check(self.i == self.s.len(), self.what);
    }
}

harnesses! {
    /// an exponent of 1..=255
    fn h_show_power(n) {
        let e = uint(8) as u8;
        assume(e > 0);
        let i = choose(n);
        let mut d = [0u8; 5];
        d[i] = e;
        let s = format!("{}", MultiDegree(d[..i + 1].to_vec()));
        let mut t = Text::new(&s, "a power prints its variable with a superscript exponent");
        t.mdeg(&d[..i + 1]);
        t.end();
        if e >= 100 { cover(1); } else { cover(2); }
    }
    /// up to five variables by letter
    fn h_show_mdeg(n, hi) {
        let n = choose(n + 1);
        let mut d = [0u8; 5];
        for i in 0..n { d[i] = urange(8, hi) as u8; }
        if n > 0 { assume(d[n - 1] != 0); }
        let s = format!("{}", MultiDegree(d[..n].to_vec()));
        let mut t = Text::new(&s, "a monomial prints its variables with superscript exponents");
        t.mdeg(&d[..n]);
        t.end();
        cover(1);
    }
    fn h_show_long(n, hi) {
        let mut d = Vec::with_capacity(8);
        for _ in 0..n { d.push(urange(8, hi) as u8); }
        assume(d[n as usize - 1] != 0);
        let s = format!("{}", MultiDegree(d.clone()));
        let mut t = Text::new(&s, "a monomial in many variables prints its exponent list");
        t.s("X[");
        for i in 0..n as usize { if i > 0 { t.s(", "); } t.nat(d[i] as u64); }
        t.s("]");
        t.end();
        cover(1);
    }
    fn h_show_rat(w) {
        let r = rat_of(w as u32);
        let (n, d) = parts(&r);
        let s = format!("{}", r);
        let mut t = Text::new(&s, "a rational prints as numerator/denominator, without a denominator of one");
        t.rat(n, d);
        t.end();
        if d == 1 { cover(1); } else { cover(2); }
    }
    fn h_show_int(w) {
        let x = sint(w as u32);
        let s = format!("{}", algeo::core::num::Integer(x));
        let mut t = Text::new(&s, "an integer prints in decimal");
        t.int(x);
        t.end();
        cover(1);
    }
    fn h_show_term(w, nv, hi) {
        let r = rat_of(w as u32);
        let (n, d) = parts(&r);
        assume(n != 0);
        let e = any_deg(nv as usize, hi);
        let s = format!("{}", Term { coef: r, mdeg: mdeg(&e) });
        let mut t = Text::new(&s, "a term prints its coefficient, unless it is a unit, and its monomial");
        t.term(n, d, &e);
        t.end();
        if n == -1 && d == 1 { cover(1); }
        if n == 1 && d == 1 { cover(2); }
    }
    fn h_show_poly(k, w, nv, hi) {
        let k = choose(k + 1);
        let mut terms = Vec::with_capacity(4);
        for _ in 0..k {
            let r = rat_of(w as u32);
            assume(r.numer.0 != 0);
            let e = any_deg(nv as usize, hi);
            terms.push(Term { coef: r, mdeg: mdeg(&e) });
        }
        let p = Polynomial::<Rational> { terms };
        let s = format!("{}", p);
        let mut t = Text::new(&s, "a polynomial prints its terms with their signs");
        if k == 0 { t.s("0"); cover(1); }
        for i in 0..k {
            let (n, d) = parts(&p.terms[i].coef);
            let e = degs(&p.terms[i].mdeg);
            if i > 0 {
                t.s(if n < 0 { " - " } else { " + " });
                t.term(n.abs(), d, &e);
                cover(2);
            } else {
                t.term(n, d, &e);
            }
        }
        t.end();
    }
    /// numbers of every magnitude: a power of two, plus or minus a small number, both signs
    fn h_show_wide(small) {
        let n = (1i64 << choose(63)).wrapping_add(choose(2 * small + 1) as i64 - small as i64);
        assume(n >= 0);
        let n = if choose(2) == 1 { -n } else { n };
        let s = format!("{}", algeo::core::num::Integer(n));
        let mut t = Text::new(&s, "an integer prints in decimal");
        t.int(n);
        t.end();
        let d = 1i64 << [0, 1, 7, 31, 32, 62][choose(6)];
        assume(d == 1 || n & 1 == 1);
        let r = Rational { numer: algeo::core::num::Integer(n), denom: algeo::core::num::Integer(d) };
        let s = format!("{}", r);
        let mut t = Text::new(&s, "a rational prints as numerator/denominator, without a denominator of one");
        t.rat(n, d);
        t.end();
        cover(1);
    }
    /// polynomials over floats with coefficients from a fixed list, arbitrary monomials
    fn h_show_fpoly(k, nv, hi) {
        const C: [(f64, &str); 8] = [(1.0, "1"), (-1.0, "-1"), (2.0, "2"), (-2.0, "-2"), (0.5, "0.5"), (-0.25, "-0.25"), (-120.5, "-120.5"), (1e300 * 1e10, "inf")];
        let k = choose(k + 1);
        let mut terms = Vec::with_capacity(4);
        let mut which = [0usize; 4];
        for i in 0..k {
            which[i] = choose(7);
            let e = any_deg(nv as usize, hi);
            terms.push(Term { coef: C[which[i]].0, mdeg: mdeg(&e) });
        }
        let p = Polynomial::<f64> { terms };
        let s = format!("{}", p);
        let mut t = Text::new(&s, "a polynomial prints its terms with their signs");
        if k == 0 { t.s("0"); cover(1); }
        for i in 0..k {
            let e = degs(&p.terms[i].mdeg);
            let one = e.iter().all(|x| *x == 0);
            let (c, mut l) = C[which[i]];
            let mut c1 = c;
            if i > 0 {
                t.s(if c < 0.0 { " - " } else { " + " });
                if c < 0.0 { l = &l[1..]; c1 = -c; }
                cover(2);
            }
            if one || (c1 != 1.0 && c1 != -1.0) { t.s(l); } else if c1 < 0.0 { t.s("-"); }
            t.mdeg(&e);
        }
        t.end();
    }
    /// layout of a matrix: one bracketed row per line
    fn h_show_mat(r, c) {
        let (r, c) = (r as usize, c as usize);
        let mut v = Vec::with_capacity(16);
        for i in 0..r * c { v.push(i as f64); }
        let z = choose((r * c) as u64);
        v[z] = -0.5;
        let s = format!("{}", algeo::linalg::mat::Mat::new(r, c, v));
        let mut t = Text::new(&s, "a matrix prints one bracketed row per line");
        for i in 0..r {
            t.s("\n[");
            for j in 0..c {
                if j > 0 { t.s(", "); }
                if i * c + j == z { t.s("-0.5"); } else { t.nat((i * c + j) as u64); t.s(".0"); }
            }
            t.s("]");
        }
        t.end();
        cover(1);
    }
}
