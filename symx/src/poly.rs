//! Normal form of real terms: a quotient of an expanded polynomial and a product of interned factors.
//! Used to turn comparisons of nested fractions into comparisons of polynomials with zero before they
//! reach the solver. Every rewriting is double-checked by evaluation at sample points (`Pool::req`).
use crate::expr::{Op, Pool, Rat, E};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;

pub type M = u32; // monomial id, 0 = constant
pub type Poly = Vec<(M, Rat)>; // descending in the lexicographic order of exponent vectors, no zero coefficients
const CAP: usize = 4000;
const PR: u64 = (1 << 61) - 1;
fn pmul(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % PR as u128) as u64
}
fn pinv(a: u64) -> Option<u64> {
    if a == 0 {
        return None;
    }
    let (mut r, mut b, mut e) = (1, a, PR - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = pmul(r, b);
        }
        b = pmul(b, b);
        e >>= 1;
    }
    Some(r)
}

#[derive(Clone)]
pub struct Frac {
    pub n: Rc<Poly>,
    pub d: Vec<(u32, u32)>, // (factor, exponent), sorted
}

#[derive(Default)]
pub struct Polys {
    exps: Vec<Rc<Vec<u8>>>,
    ids: HashMap<Rc<Vec<u8>>, M>,
    prod: HashMap<(M, M), M>,
    atoms: Vec<E>,
    atom_ix: HashMap<E, usize>,
    factors: Vec<Rc<Poly>>,
    factor_ix: HashMap<Rc<Poly>, u32>,
    memo: HashMap<E, Option<Frac>>,
    exprs: HashMap<Rc<Poly>, E>,
    splits: HashMap<Rc<Poly>, Vec<(u32, u32)>>,
    vals: HashMap<E, Option<u64>>,
    pub work: u64,
}

impl Polys {
    fn mono(&mut self, mut v: Vec<u8>) -> M {
        while v.last() == Some(&0) {
            v.pop();
        }
        if self.exps.is_empty() {
            self.exps.push(Rc::new(vec![]));
            self.ids.insert(Rc::new(vec![]), 0);
        }
        let v = Rc::new(v);
        if let Some(&m) = self.ids.get(&v) {
            return m;
        }
        let m = self.exps.len() as M;
        self.exps.push(v.clone());
        self.ids.insert(v, m);
        m
    }
    fn one(&mut self) -> M {
        self.mono(vec![])
    }
    fn mmul(&mut self, a: M, b: M) -> Option<M> {
        if a == 0 {
            return Some(b);
        }
        if b == 0 {
            return Some(a);
        }
        let k = if a <= b { (a, b) } else { (b, a) };
        if let Some(&m) = self.prod.get(&k) {
            return Some(m);
        }
        let (x, y) = (self.exps[a as usize].clone(), self.exps[b as usize].clone());
        let mut v = Vec::with_capacity(x.len().max(y.len()));
        for i in 0..x.len().max(y.len()) {
            v.push(x.get(i).unwrap_or(&0).checked_add(*y.get(i).unwrap_or(&0))?);
        }
        let m = self.mono(v);
        self.prod.insert(k, m);
        Some(m)
    }
    fn mdiv(&mut self, a: M, b: M) -> Option<M> {
        if b == 0 {
            return Some(a);
        }
        if a == b {
            return Some(0);
        }
        let (x, y) = (self.exps[a as usize].clone(), self.exps[b as usize].clone());
        if x.len() < y.len() {
            return None;
        }
        let mut v = (*x).clone();
        for i in 0..y.len() {
            v[i] = v[i].checked_sub(y[i])?;
        }
        Some(self.mono(v))
    }
    fn mcmp(&self, a: M, b: M) -> Ordering {
        if a == b {
            return Ordering::Equal;
        }
        self.exps[a as usize].cmp(&self.exps[b as usize])
    }

    fn sort(&self, mut p: Poly) -> Poly {
        p.sort_unstable_by(|x, y| self.mcmp(y.0, x.0));
        p
    }
    fn add(&mut self, a: &Poly, b: &Poly, neg: bool) -> Option<Poly> {
        self.work += (a.len() + b.len()) as u64;
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            let o = if i == a.len() {
                Ordering::Less
            } else if j == b.len() {
                Ordering::Greater
            } else {
                self.mcmp(a[i].0, b[j].0)
            };
            match o {
                Ordering::Greater => {
                    r.push(a[i]);
                    i += 1;
                }
                Ordering::Less => {
                    r.push((b[j].0, if neg { b[j].1.neg()? } else { b[j].1 }));
                    j += 1;
                }
                Ordering::Equal => {
                    let c = if neg { a[i].1.sub(b[j].1)? } else { a[i].1.add(b[j].1)? };
                    if c.n != 0 {
                        r.push((a[i].0, c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        if r.len() > CAP {
            return None;
        }
        Some(r)
    }
    fn mul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.len().saturating_mul(b.len()) > 20 * CAP {
            return None;
        }
        self.work += (a.len() * b.len()) as u64;
        if a.len() == 1 && a[0].0 == 0 {
            return b.iter().map(|&(m, c)| Some((m, c.mul(a[0].1)?))).collect();
        }
        if b.len() == 1 && b[0].0 == 0 {
            return self.mul(b, a);
        }
        let mut t: HashMap<M, Rat> = HashMap::with_capacity(a.len() * b.len());
        for &(m, c) in a {
            for &(n, e) in b {
                let k = self.mmul(m, n)?;
                let p = c.mul(e)?;
                match t.get_mut(&k) {
                    Some(x) => *x = x.add(p)?,
                    None => {
                        t.insert(k, p);
                    }
                }
            }
        }
        let r: Poly = t.into_iter().filter(|x| x.1.n != 0).collect();
        if r.len() > CAP {
            return None;
        }
        Some(self.sort(r))
    }
    /// a / b if exact
    fn div(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.is_empty() {
            return Some(vec![]);
        }
        let (bm, bc) = b[0];
        // quick refusals: leading and trailing terms must divide
        let (am, _) = a[0];
        self.mdiv(am, bm)?;
        let (at, bt) = (a[a.len() - 1].0, b[b.len() - 1].0);
        self.mdiv(at, bt)?;
        if b.len() == 1 {
            let mut q = Vec::with_capacity(a.len());
            for &(m, c) in a {
                q.push((self.mdiv(m, bm)?, c.div(bc)?));
            }
            return Some(q);
        }
        let mut r: Poly = a.clone();
        let mut q: Poly = vec![];
        while !r.is_empty() {
            let m = self.mdiv(r[0].0, bm)?;
            let c = r[0].1.div(bc)?;
            q.push((m, c));
            if q.len() > CAP {
                return None;
            }
            let mut s = Vec::with_capacity(b.len());
            for &(n, e) in b {
                s.push((self.mmul(n, m)?, e.mul(c)?));
            }
            r = self.add(&r, &s, true)?;
        }
        Some(q)
    }
    fn konst(&mut self, r: Rat) -> Poly {
        let o = self.one();
        if r.n == 0 {
            vec![]
        } else {
            vec![(o, r)]
        }
    }
    fn atom(&mut self, e: E) -> Poly {
        let i = match self.atom_ix.get(&e) {
            Some(&i) => i,
            None => {
                self.atoms.push(e);
                self.atom_ix.insert(e, self.atoms.len() - 1);
                self.atoms.len() - 1
            }
        };
        let mut v = vec![0; i + 1];
        v[i] = 1;
        let m = self.mono(v);
        vec![(m, Rat::int(1))]
    }
    fn factor(&mut self, p: Poly) -> u32 {
        let p = Rc::new(p);
        if let Some(&i) = self.factor_ix.get(&p) {
            return i;
        }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.factor_ix.insert(p, i);
        i
    }
    /// makes the leading coefficient one
    fn monic(&mut self, p: &Poly) -> Option<(Rat, Poly)> {
        let l = p[0].1;
        if l == Rat::int(1) {
            return Some((l, p.clone()));
        }
        let mut r = Vec::with_capacity(p.len());
        for &(m, c) in p {
            r.push((m, c.div(l)?));
        }
        Some((l, r))
    }
    /// constant, factors (single variables, factors known from elsewhere, the rest)
    fn split(&mut self, p: &Poly) -> Option<(Rat, Vec<(u32, u32)>)> {
        let (l, p) = self.monic(p)?;
        let k = Rc::new(p);
        if let Some(fs) = self.splits.get(&k) {
            return Some((l, fs.clone()));
        }
        let fs = self.split1((*k).clone())?;
        self.splits.insert(k, fs.clone());
        Some((l, fs))
    }
    fn split1(&mut self, mut p: Poly) -> Option<Vec<(u32, u32)>> {
        let mut fs: Vec<(u32, u32)> = vec![];
        // variables common to all monomials
        let mut common: Option<Vec<u8>> = None;
        for &(m, _) in &p {
            let e = &self.exps[m as usize];
            common = Some(match common {
                None => (**e).clone(),
                Some(c) => c.iter().zip(e.iter()).map(|(a, b)| *a.min(b)).collect(),
            });
        }
        let common = common.unwrap_or_default();
        if common.iter().any(|&x| x > 0) {
            let m = self.mono(common.clone());
            for t in p.iter_mut() {
                t.0 = self.mdiv(t.0, m)?;
            }
            for (i, &k) in common.iter().enumerate() {
                if k > 0 {
                    let a = self.atom(self.atoms[i]);
                    fs.push((self.factor(a), k as u32));
                }
            }
        }
        if p.len() > 1 {
            for i in 0..self.factors.len().min(400) {
                let f = self.factors[i].clone();
                if f.len() < 2 || f.len() > p.len().max(2) * 4 {
                    continue;
                }
                let mut k = 0;
                while p.len() > 1 {
                    match self.div(&p, &f) {
                        Some(q) => {
                            p = q;
                            k += 1;
                        }
                        None => break,
                    }
                }
                if k > 0 {
                    fs.push((i as u32, k));
                }
            }
        }
        if p.len() > 1 {
            fs.push((self.factor(p), 1));
        }
        fs.sort_unstable();
        Some(fs)
    }
    fn cancel(&mut self, mut n: Poly, d: &[(u32, u32)]) -> (Poly, Vec<(u32, u32)>) {
        let mut r = vec![];
        if n.is_empty() {
            return (n, r);
        }
        for &(f, k) in d {
            let mut k = k;
            let fp = self.factors[f as usize].clone();
            while k > 0 {
                match self.div(&n, &fp) {
                    Some(q) => {
                        n = q;
                        k -= 1;
                    }
                    None => break,
                }
            }
            if k > 0 {
                r.push((f, k));
            }
        }
        (n, r)
    }
    fn times(&mut self, p: &Poly, f: u32, k: u32) -> Option<Poly> {
        let mut p = p.clone();
        let fp = self.factors[f as usize].clone();
        for _ in 0..k {
            p = self.mul(&p, &fp)?;
        }
        Some(p)
    }
    fn fadd(&mut self, a: &Frac, b: &Frac) -> Option<Frac> {
        if a.n.is_empty() {
            return Some(b.clone());
        }
        if b.n.is_empty() {
            return Some(a.clone());
        }
        let mut d: Vec<(u32, u32)> = a.d.clone();
        for &(f, k) in &b.d {
            match d.iter_mut().find(|x| x.0 == f) {
                Some(x) => x.1 = x.1.max(k),
                None => d.push((f, k)),
            }
        }
        d.sort_unstable();
        let (mut x, mut y) = ((*a.n).clone(), (*b.n).clone());
        let get = |l: &[(u32, u32)], f: u32| l.iter().find(|x| x.0 == f).map_or(0, |x| x.1);
        for &(f, k) in &d {
            x = self.times(&x, f, k - get(&a.d, f))?;
            y = self.times(&y, f, k - get(&b.d, f))?;
        }
        let s = self.add(&x, &y, false)?;
        // a factor on one side only cannot cancel unless it has several irreducible parts; still try all
        let (n, d) = self.cancel(s, &d);
        Some(Frac { n: Rc::new(n), d })
    }
    fn fmul(&mut self, a: &Frac, b: &Frac) -> Option<Frac> {
        let (n1, d2) = self.cancel((*a.n).clone(), &b.d);
        let (n2, d1) = self.cancel((*b.n).clone(), &a.d);
        let n = self.mul(&n1, &n2)?;
        let mut d = d1;
        if n.is_empty() {
            return Some(Frac { n: Rc::new(n), d: vec![] });
        }
        for (f, k) in d2 {
            match d.iter_mut().find(|x| x.0 == f) {
                Some(x) => x.1 += k,
                None => d.push((f, k)),
            }
        }
        d.sort_unstable();
        Some(Frac { n: Rc::new(n), d })
    }
    fn finv(&mut self, a: &Frac) -> Option<Frac> {
        if a.n.is_empty() {
            return None;
        }
        let (l, fs) = self.split(&a.n)?;
        let inv = Rat::int(1).div(l)?;
        let mut n = self.konst(inv);
        for &(f, k) in &a.d {
            n = self.times(&n, f, k)?;
        }
        let (n, d) = self.cancel(n, &fs);
        Some(Frac { n: Rc::new(n), d })
    }
}

impl Pool {
    fn frac1(&mut self, e: E) -> Option<Frac> {
        let n = *self.n(e);
        let get = |p: &Pool, e: E| p.polys.memo.get(&e).cloned().flatten();
        match n.op {
            Op::RConst => {
                let r = self.rats[n.k as usize];
                let k = self.polys.konst(r);
                Some(Frac { n: Rc::new(k), d: vec![] })
            }
            Op::RNeg => {
                let a = get(self, n.a)?;
                let v: Option<Poly> = a.n.iter().map(|&(m, c)| Some((m, c.neg()?))).collect();
                Some(Frac { n: Rc::new(v?), d: a.d })
            }
            Op::RAdd => {
                let (a, b) = (get(self, n.a)?, get(self, n.b)?);
                self.polys.fadd(&a, &b)
            }
            Op::RSub => {
                let (a, b) = (get(self, n.a)?, get(self, n.b)?);
                let v: Option<Poly> = b.n.iter().map(|&(m, c)| Some((m, c.neg()?))).collect();
                let b = Frac { n: Rc::new(v?), d: b.d };
                self.polys.fadd(&a, &b)
            }
            Op::RMul => {
                let (a, b) = (get(self, n.a)?, get(self, n.b)?);
                self.polys.fmul(&a, &b)
            }
            Op::RDiv => {
                let (a, b) = (get(self, n.a)?, get(self, n.b)?);
                let b = self.polys.finv(&b)?;
                self.polys.fmul(&a, &b)
            }
            _ => {
                let a = self.polys.atom(e);
                Some(Frac { n: Rc::new(a), d: vec![] })
            }
        }
    }
    pub fn frac(&mut self, e: E) -> Option<Frac> {
        self.polys.one();
        let mut st = vec![(e, false)];
        while let Some((e, vis)) = st.pop() {
            if self.polys.memo.contains_key(&e) {
                continue;
            }
            let n = *self.n(e);
            let arith = matches!(n.op, Op::RNeg | Op::RAdd | Op::RSub | Op::RMul | Op::RDiv);
            if arith && !vis {
                st.push((e, true));
                st.push((n.a, false));
                if n.op != Op::RNeg {
                    st.push((n.b, false));
                }
                continue;
            }
            let f = self.frac1(e);
            self.polys.memo.insert(e, f);
        }
        self.polys.memo[&e].clone()
    }
    /// the expression of an expanded polynomial
    fn poly_expr(&mut self, p: &Rc<Poly>) -> E {
        if let Some(&e) = self.polys.exprs.get(p) {
            return e;
        }
        // integer coefficients: multiply by the common denominator (callers compare with zero only)
        let mut s = self.rc(Rat::int(0));
        for &(m, c) in p.iter() {
            let ex = self.polys.exps[m as usize].clone();
            let mut t = self.rc(Rat::int(1));
            for (i, &k) in ex.iter().enumerate() {
                let v = self.polys.atoms[i];
                for _ in 0..k {
                    t = self.rmul(t, v);
                }
            }
            let c = self.rc(c);
            t = self.rmul(c, t);
            s = self.radd(s, t);
        }
        self.polys.exprs.insert(p.clone(), s);
        s
    }
    // ---- check of the normal form: values modulo a prime at one pseudorandom point
    fn val_rat(r: Rat) -> Option<u64> {
        let n = r.n.rem_euclid(PR as i128) as u64;
        let d = r.d.rem_euclid(PR as i128) as u64;
        Some(pmul(n, pinv(d)?))
    }
    fn val(&mut self, e: E) -> Option<u64> {
        let mut st = vec![(e, false)];
        while let Some((e, vis)) = st.pop() {
            if self.polys.vals.contains_key(&e) {
                continue;
            }
            let n = *self.n(e);
            let arith = matches!(n.op, Op::RNeg | Op::RAdd | Op::RSub | Op::RMul | Op::RDiv);
            if arith && !vis {
                st.push((e, true));
                st.push((n.a, false));
                if n.op != Op::RNeg {
                    st.push((n.b, false));
                }
                continue;
            }
            let g = |p: &Pool, e: E| p.polys.vals.get(&e).copied().flatten();
            let (x, y) = (g(self, n.a), g(self, n.b));
            let v = match n.op {
                Op::RConst => Self::val_rat(self.rats[n.k as usize]),
                Op::RNeg => x.map(|x| (PR - x) % PR),
                Op::RAdd => x.zip(y).map(|(x, y)| (x + y) % PR),
                Op::RSub => x.zip(y).map(|(x, y)| (x + PR - y) % PR),
                Op::RMul => x.zip(y).map(|(x, y)| pmul(x, y)),
                Op::RDiv => x.zip(y).and_then(|(x, y)| Some(pmul(x, pinv(y)?))),
                _ => {
                    let mut z = (e as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                    z ^= z >> 29;
                    z = z.wrapping_mul(0xbf58_476d_1ce4_e5b9);
                    z ^= z >> 32;
                    Some(z % PR)
                }
            };
            self.polys.vals.insert(e, v);
        }
        self.polys.vals[&e]
    }
    fn val_poly(&mut self, p: &Poly) -> Option<u64> {
        let mut s = 0u64;
        for &(m, c) in p {
            let ex = self.polys.exps[m as usize].clone();
            let mut t = Self::val_rat(c)?;
            for (i, &k) in ex.iter().enumerate() {
                if k > 0 {
                    let a = self.polys.atoms[i];
                    let v = self.val(a)?;
                    for _ in 0..k {
                        t = pmul(t, v);
                    }
                }
            }
            s = (s + t) % PR;
        }
        Some(s)
    }
    fn val_factors(&mut self, fs: &[(u32, u32)]) -> Option<u64> {
        let mut r = 1;
        for &(f, k) in fs {
            let p = self.polys.factors[f as usize].clone();
            let v = self.val_poly(&p)?;
            for _ in 0..k {
                r = pmul(r, v);
            }
        }
        Some(r)
    }
    /// the normal form and its factors have the value of the term
    fn check_frac(&mut self, e: E, f: &Frac, fs: Option<&(Rat, Vec<(u32, u32)>)>) {
        if let (Some(v), Some(n), Some(d)) = (self.val(e), self.val_poly(&f.n), self.val_factors(&f.d)) {
            assert_eq!(pmul(v, d), n, "normal form of a real term");
            if let Some((l, fs)) = fs {
                if let (Some(l), Some(x)) = (Self::val_rat(*l), self.val_factors(fs)) {
                    assert_eq!(pmul(l, x), n, "factors of a polynomial");
                }
            }
        }
    }
    /// a = b as a disjunction of "factor = 0"; None if the normal form is too large
    pub fn req_normal(&mut self, a: E, b: E) -> Option<E> {
        let d = self.rsub(a, b);
        let f = self.frac(d)?;
        if f.n.is_empty() {
            self.check_frac(d, &f, None);
            return Some(self.tru());
        }
        let sp = self.polys.split(&f.n)?;
        self.check_frac(d, &f, Some(&sp));
        let fs = sp.1;
        let zero = self.rc(Rat::int(0));
        let mut r = self.fls();
        for (i, _) in fs {
            let p = self.polys.factors[i as usize].clone();
            let x = self.poly_expr(&p);
            let q = self.req_raw(x, zero);
            r = self.or(r, q);
        }
        Some(r)
    }
    /// a < b as "product of polynomials < 0"
    pub fn rlt_normal(&mut self, a: E, b: E) -> Option<E> {
        let d = self.rsub(a, b);
        let f = self.frac(d)?;
        let zero = self.rc(Rat::int(0));
        self.check_frac(d, &f, None);
        if f.n.is_empty() {
            return Some(self.fls());
        }
        let mut m = self.polys.monic(&f.n)?;
        let neg = m.0.n < 0;
        let p = Rc::new(std::mem::take(&mut m.1));
        let mut x = self.poly_expr(&p);
        for &(i, k) in &f.d {
            if k % 2 == 1 {
                let q = self.polys.factors[i as usize].clone();
                let y = self.poly_expr(&q);
                x = self.rmul(x, y);
            }
        }
        Some(if neg { self.rlt_raw(zero, x) } else { self.rlt_raw(x, zero) })
    }
}

