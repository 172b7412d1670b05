//! Hash-consed symbolic expressions: bit-vectors (width 1..=128, width 1 is Bool),
//! mathematical reals, and IEEE floats (binary32/binary64).
use std::collections::HashMap;

pub type E = u32;
pub type W = u16;
pub const REAL: W = 0xFFFF;
pub const FP32: W = 0xFFF0;
pub const FP64: W = 0xFFF1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, // k
    Var,   // k = var index
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Extract, // k = lo
    Concat,              // a high, b low
    Ite,
    Eq, Ult, Ule, Slt, Sle,
    // reals
    RConst, // index into rats
    RVar,
    RAdd, RSub, RMul, RDiv, RNeg,
    REq, RLt, RLe,
    // floats (sort FP32/FP64)
    FFromBits, FToBits, FAdd, FSub, FMul, FDiv, FNeg, FAbs, FEq, FLt, FLe, FIsNan,
    FFromSInt, FFromUInt, FSqrt,
    // k: rounding mode (0 nearest even, 1 to zero, 2 up, 3 down, 4 nearest away); w of FToSInt/FToUInt: integer width
    FRound, FCvt, FToSInt, FToUInt, FFma,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: W,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Rat {
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs());
        let g = i128::try_from(g).ok()?.max(1);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = n.checked_neg()?;
            d = d.checked_neg()?;
        }
        Some(Rat { n, d })
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        Rat::new(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?)
    }
    pub fn neg(self) -> Option<Rat> {
        Some(Rat { n: self.n.checked_neg()?, d: self.d })
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg()?)
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        Rat::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        Rat::new(self.n.checked_mul(o.d)?, self.d.checked_mul(o.n)?)
    }
    pub fn lt(self, o: Rat) -> Option<bool> {
        Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MV {
    B(u128),
    R(Rat),
}

pub type Model = HashMap<u32, MV>; // var index -> value

pub struct VarInfo {
    pub w: W,
    pub node: E,
}

#[derive(Default)]
pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub rats: Vec<Rat>,
    ratmap: HashMap<Rat, u32>,
    pub vars: Vec<VarInfo>,
    srange: Vec<Option<(i128, i128)>>,
    urange: Vec<Option<(u128, u128)>>,
    deps: HashMap<E, std::rc::Rc<Vec<u32>>>,
    inputs: HashMap<(usize, W), E>,
    pub polys: crate::poly::Polys,
    reqs: HashMap<(E, E), E>,
    rlts: HashMap<(E, E), E>,
    /// comparisons that expansion into polynomials alone has settled
    pub identities: Vec<(E, E)>,
}

pub fn mask(w: W) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: W) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
fn bits_signed(lo: i128, hi: i128) -> W {
    // minimal width such that lo..=hi fit in two's complement
    let f = |v: i128| -> W {
        if v >= 0 {
            (129 - v.leading_zeros()) as W
        } else {
            (129 - (!v).leading_zeros()) as W
        }
    };
    f(lo).max(f(hi)).max(1)
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool::default();
        // id 0 reserved
        p.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 999 });
        p.srange.push(None);
        p.urange.push(None);
        p
    }
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> W {
        self.nodes[e as usize].w
    }
    fn mk(&mut self, op: Op, w: W, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.srange.push(None);
        self.urange.push(None);
        self.map.insert(n, e);
        e
    }
    pub fn cst(&mut self, w: W, k: u128) -> E {
        self.mk(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn tru(&mut self) -> E {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.cst(1, 0)
    }
    pub fn get_const(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn fresh(&mut self, w: W) -> E {
        let i = self.vars.len() as u128;
        let op = if w == REAL { Op::RVar } else { Op::Var };
        let e = self.mk(op, w, 0, 0, 0, i);
        self.vars.push(VarInfo { w, node: e });
        e
    }
    /// The variable for input position `i` with sort `w` (shared between paths).
    pub fn input_var(&mut self, i: usize, w: W) -> E {
        if let Some(&e) = self.inputs.get(&(i, w)) {
            return e;
        }
        let e = self.fresh(w);
        self.inputs.insert((i, w), e);
        e
    }

    // ---------------------------------------------------------------- ranges
    pub fn sr(&mut self, e: E) -> (i128, i128) {
        if let Some(r) = self.srange[e as usize] {
            return r;
        }
        let n = *self.n(e);
        let w = n.w;
        let full = if w >= 127 {
            (i128::MIN, i128::MAX)
        } else {
            (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        };
        let fit = |r: Option<(i128, i128)>| match r {
            Some((l, h)) if l >= full.0 && h <= full.1 => (l, h),
            _ => full,
        };
        let r = match n.op {
            Op::Const => {
                let v = sx(n.k, w);
                (v, v)
            }
            Op::SExt => self.sr(n.a),
            Op::ZExt => {
                let (l, h) = self.ur(n.a);
                if h <= i128::MAX as u128 {
                    fit(Some((l as i128, h as i128)))
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a, b) = (self.sr(n.b), self.sr(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add => {
                let (a, b) = (self.sr(n.a), self.sr(n.b));
                fit((|| Some((a.0.checked_add(b.0)?, a.1.checked_add(b.1)?)))())
            }
            Op::Sub => {
                let (a, b) = (self.sr(n.a), self.sr(n.b));
                fit((|| Some((a.0.checked_sub(b.1)?, a.1.checked_sub(b.0)?)))())
            }
            Op::Mul => {
                let (a, b) = (self.sr(n.a), self.sr(n.b));
                fit((|| {
                    let c = [
                        a.0.checked_mul(b.0)?,
                        a.0.checked_mul(b.1)?,
                        a.1.checked_mul(b.0)?,
                        a.1.checked_mul(b.1)?,
                    ];
                    Some((*c.iter().min().unwrap(), *c.iter().max().unwrap()))
                })())
            }
            Op::SRem => {
                let (a, b) = (self.sr(n.a), self.sr(n.b));
                // |a rem b| <= min(|a|, max|b|-1)  (b == 0 gives a)
                let z = b.0 <= 0 && b.1 >= 0;
                let mb = b.0.unsigned_abs().max(b.1.unsigned_abs());
                let lim = if z { u128::MAX } else { mb - 1 };
                let lo = if a.0 < 0 {
                    -(a.0.unsigned_abs().min(lim).min(i128::MAX as u128) as i128)
                } else {
                    0
                };
                let hi = if a.1 > 0 { a.1.unsigned_abs().min(lim) as i128 } else { 0 };
                (lo, hi)
            }
            Op::SDiv => {
                let (a, b) = (self.sr(n.a), self.sr(n.b));
                let z = b.0 <= 0 && b.1 >= 0;
                let m = a.0.unsigned_abs().max(a.1.unsigned_abs());
                if m < (1u128 << 126) {
                    let m = m as i128;
                    // bvsdiv by zero yields +-1
                    let m = if z { m.max(1) } else { m };
                    fit(Some((-m, m)))
                } else {
                    full
                }
            }
            Op::And | Op::LShr | Op::Extract | Op::Concat | Op::URem | Op::UDiv => {
                let (l, h) = self.ur(e);
                if w > 1 && h < (1u128 << (w - 1)) {
                    (l as i128, h as i128)
                } else {
                    full
                }
            }
            _ => full,
        };
        self.srange[e as usize] = Some(r);
        r
    }
    pub fn ur(&mut self, e: E) -> (u128, u128) {
        if let Some(r) = self.urange[e as usize] {
            return r;
        }
        let n = *self.n(e);
        let w = n.w;
        let full = (0, mask(w));
        let fit = |r: Option<(u128, u128)>| match r {
            Some((l, h)) if h <= full.1 => (l, h),
            _ => full,
        };
        let r = match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => self.ur(n.a),
            Op::Ite => {
                let (a, b) = (self.ur(n.b), self.ur(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                fit((|| Some((a.0.checked_add(b.0)?, a.1.checked_add(b.1)?)))())
            }
            Op::Sub => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                fit((|| Some((a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?)))())
            }
            Op::And => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                (0, a.1.min(b.1))
            }
            Op::Or | Op::Xor => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                let m = a.1 | b.1;
                let bits = 128 - m.leading_zeros();
                let lo = if n.op == Op::Or { a.0.max(b.0) } else { 0 };
                (lo, if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 })
            }
            Op::URem => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    (0, a.1)
                }
            }
            Op::UDiv => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::LShr => {
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                if b.0 == b.1 && b.0 < 128 {
                    (a.0 >> b.0, a.1 >> b.0)
                } else {
                    (0, a.1)
                }
            }
            Op::Concat => {
                let wl = self.w(n.b) as u32;
                let (a, b) = (self.ur(n.a), self.ur(n.b));
                ((a.0 << wl) | b.0, (a.1 << wl) | b.1)
            }
            Op::Extract if n.k == 0 => {
                let a = self.ur(n.a);
                if a.1 <= full.1 {
                    a
                } else {
                    full
                }
            }
            Op::SExt => {
                let s = self.sr(n.a);
                if s.0 >= 0 {
                    (s.0 as u128, s.1 as u128)
                } else {
                    full
                }
            }
            _ => full,
        };
        self.urange[e as usize] = Some(r);
        r
    }

    // ---------------------------------------------------------------- builders
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let o = self.tru();
        self.xor(a, o)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(k) = self.get_const(b) {
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            if let Some(j) = self.get_const(a) {
                return self.cst(w, k & j);
            }
            // low mask covering the whole range
            if (k & (k + 1)) == 0 && self.ur(a).1 <= k {
                return a;
            }
            // low mask -> zext(extract)
            if (k & (k + 1)) == 0 {
                let nb = k.count_ones() as W;
                let x = self.extract(a, 0, nb);
                return self.zext(x, w);
            }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.fls();
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(k) = self.get_const(b) {
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
            if let Some(j) = self.get_const(a) {
                return self.cst(w, k | j);
            }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.tru();
            }
        } else {
            // or of disjoint shifted pieces: (x << k) | zext(y) with y < 2^k
            for (p, q) in [(a, b), (b, a)] {
                let pn = *self.n(p);
                if pn.op == Op::Concat && self.get_const(pn.b) == Some(0) {
                    let wl = self.w(pn.b);
                    if self.ur(q).1 <= mask(wl) {
                        let lo = self.extract(q, 0, wl);
                        return self.concat(pn.a, lo);
                    }
                }
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return self.cst(w, 0);
        }
        if let Some(k) = self.get_const(b) {
            if k == 0 {
                return a;
            }
            if let Some(j) = self.get_const(a) {
                return self.cst(w, k ^ j);
            }
            let an = *self.n(a);
            if an.op == Op::Xor {
                if let Some(j) = self.get_const(an.b) {
                    let kk = self.cst(w, j ^ k);
                    return self.xor(an.a, kk);
                }
            }
            if w == 1 {
                // push negation through comparisons
                match an.op {
                    Op::Ult => return self.mk_ule(an.b, an.a),
                    Op::Ule => return self.mk_ult(an.b, an.a),
                    Op::Slt => return self.mk_sle(an.b, an.a),
                    Op::Sle => return self.mk_slt(an.b, an.a),
                    Op::RLt => return self.mk(Op::RLe, 1, an.b, an.a, 0, 0),
                    Op::RLe => return self.mk(Op::RLt, 1, an.b, an.a, 0, 0),
                    Op::Ite => {
                        let (x, y) = (self.not(an.b), self.not(an.c));
                        return self.ite(an.a, x, y);
                    }
                    _ => {}
                }
            }
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    fn order(&self, a: E, b: E) -> (E, E) {
        // constants to the right, otherwise by id
        let ca = self.n(a).op == Op::Const;
        let cb = self.n(b).op == Op::Const;
        if ca && !cb {
            (b, a)
        } else if !ca && cb {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.order(a, b);
        if let Some(k) = self.get_const(b) {
            if k == 0 {
                return a;
            }
            if let Some(j) = self.get_const(a) {
                return self.cst(w, k.wrapping_add(j));
            }
            let an = *self.n(a);
            if an.op == Op::Add {
                if let Some(j) = self.get_const(an.b) {
                    let kk = self.cst(w, k.wrapping_add(j));
                    return self.add(an.a, kk);
                }
            }
        }
        // (x - y) + y
        let an = *self.n(a);
        if an.op == Op::Sub && an.b == b {
            return an.a;
        }
        let bn = *self.n(b);
        if bn.op == Op::Sub && bn.b == a {
            return bn.a;
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.cst(w, 0);
        }
        if let Some(k) = self.get_const(b) {
            let kk = self.cst(w, k.wrapping_neg());
            return self.add(a, kk);
        }
        let an = *self.n(a);
        if an.op == Op::Add {
            if an.a == b {
                return an.b;
            }
            if an.b == b {
                return an.a;
            }
        }
        // 0 - (0 - x)
        if self.get_const(a) == Some(0) {
            let bn = *self.n(b);
            if bn.op == Op::Sub && self.get_const(bn.a) == Some(0) {
                return bn.b;
            }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = self.order(a, b);
        if let Some(k) = self.get_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if let Some(j) = self.get_const(a) {
                return self.cst(w, k.wrapping_mul(j));
            }
            if k.is_power_of_two() {
                let s = self.cst(w, k.trailing_zeros() as u128);
                return self.shl(a, s);
            }
        }
        // narrow by signed ranges
        let (ra, rb) = (self.sr(a), self.sr(b));
        if let (Some(x), Some(y), Some(z), Some(t)) = (
            ra.0.checked_mul(rb.0),
            ra.0.checked_mul(rb.1),
            ra.1.checked_mul(rb.0),
            ra.1.checked_mul(rb.1),
        ) {
            let lo = x.min(y).min(z).min(t);
            let hi = x.max(y).max(z).max(t);
            let nb = bits_signed(lo, hi).max(bits_signed(ra.0, ra.1)).max(bits_signed(rb.0, rb.1)).max(2);
            if nb < w {
                let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                let (x, y) = self.order(x, y);
                let m = self.mk(Op::Mul, nb, x, y, 0, 0);
                self.srange[m as usize] = Some((lo, hi));
                return self.sext(m, w);
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get_const(a), self.get_const(b)) {
            if y != 0 {
                return self.cst(w, x / y);
            }
        }
        if let Some(y) = self.get_const(b) {
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.cst(w, y.trailing_zeros() as u128);
                return self.lshr(a, s);
            }
        }
        if let Some(nb) = self.unarrow(a, b) {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            let d = self.mk(Op::UDiv, nb, x, y, 0, 0);
            // division by zero gives all-ones of the narrow width: callers guard against it
            return self.zext(d, w);
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get_const(a), self.get_const(b)) {
            if y != 0 {
                return self.cst(w, x % y);
            }
        }
        if let Some(y) = self.get_const(b) {
            if y.is_power_of_two() {
                let s = self.cst(w, y - 1);
                return self.and(a, s);
            }
        }
        if let Some(nb) = self.unarrow(a, b) {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            let d = self.mk(Op::URem, nb, x, y, 0, 0);
            return self.zext(d, w);
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    fn unarrow(&mut self, a: E, b: E) -> Option<W> {
        let w = self.w(a);
        let m = self.ur(a).1.max(self.ur(b).1);
        let nb = ((128 - m.leading_zeros()) as W).max(2);
        if nb < w {
            Some(nb)
        } else {
            None
        }
    }
    fn snarrow(&mut self, a: E, b: E) -> Option<W> {
        let w = self.w(a);
        let (ra, rb) = (self.sr(a), self.sr(b));
        // one spare bit so that MIN / -1 cannot wrap
        let nb = bits_signed(ra.0, ra.1).max(bits_signed(rb.0, rb.1)) + 1;
        if nb < w {
            Some(nb)
        } else {
            None
        }
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get_const(a), self.get_const(b)) {
            if y != 0 {
                return self.cst(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        if self.get_const(b) == Some(1) {
            return a;
        }
        let (ra, rb) = (self.sr(a), self.sr(b));
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.udiv(a, b);
        }
        if let Some(nb) = self.snarrow(a, b) {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            let d = self.mk(Op::SDiv, nb, x, y, 0, 0);
            return self.sext(d, w);
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get_const(a), self.get_const(b)) {
            if y != 0 {
                return self.cst(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        let (ra, rb) = (self.sr(a), self.sr(b));
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.urem(a, b);
        }
        if let Some(nb) = self.snarrow(a, b) {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            let d = self.mk(Op::SRem, nb, x, y, 0, 0);
            return self.sext(d, w);
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.get_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            if let Some(x) = self.get_const(a) {
                return self.cst(w, x << s);
            }
            let lo = self.extract(a, 0, w - s as W);
            let z = self.cst(s as W, 0);
            return self.concat(lo, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.get_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            if let Some(x) = self.get_const(a) {
                return self.cst(w, x >> s);
            }
            let hi = self.extract(a, s as W, w - s as W);
            return self.zext(hi, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.get_const(b) {
            if s == 0 {
                return a;
            }
            let s = (s.min(w as u128 - 1)) as W;
            if let Some(x) = self.get_const(a) {
                return self.cst(w, (sx(x, w) >> s) as u128);
            }
            let hi = self.extract(a, s, w - s);
            return self.sext(hi, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: W) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(w > wa);
        if let Some(k) = self.get_const(a) {
            return self.cst(w, k);
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.get_const(n.b).is_some() && self.get_const(n.c).is_some() {
            let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: W) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(w > wa);
        if let Some(k) = self.get_const(a) {
            return self.cst(w, sx(k, wa) as u128);
        }
        let n = *self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if wa > 1 && self.sr(a).0 >= 0 {
            return self.zext(a, w);
        }
        if n.op == Op::Ite && self.get_const(n.b).is_some() && self.get_const(n.c).is_some() {
            let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: W) -> E {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: E, lo: W, w: W) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as W, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.cst(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, wi - 1, 1);
                return if w == 1 { x } else { self.sext(x, w) };
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.get_const(n.b).is_some() || self.get_const(n.c).is_some() || lo == 0 {
                    let (x, y) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w));
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let (x, y) = (self.extract(n.a, lo, w), self.extract(n.b, lo, w));
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w > 1 => {
                let (x, y) = (self.extract(n.a, 0, w), self.extract(n.b, 0, w));
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.get_const(h), self.get_const(l)) {
            return self.cst(w, (x << wl) | y);
        }
        if self.get_const(h) == Some(0) {
            return self.zext(l, w);
        }
        let (hn, ln) = (*self.n(h), *self.n(l));
        // contiguous extracts
        let (hb, hlo) = if hn.op == Op::Extract { (hn.a, hn.k as W) } else { (h, 0) };
        let (lb, llo) = if ln.op == Op::Extract { (ln.a, ln.k as W) } else { (l, 0) };
        if hb == lb && hn.op == Op::Extract && hlo == llo + wl && (ln.op == Op::Extract) {
            return self.extract(hb, llo, w);
        }
        // concat(extract hi of x, ...) where low is itself the low part already merged via zext
        if hn.op == Op::Extract {
            // l = zext/sext parts: extract(x, wl, wh) ++ x when w(x)==... (l == low part of hb)
            let base = hn.a;
            let lowp = if hlo >= wl { Some(self.extract(base, hlo - wl, wl)) } else { None };
            if lowp == Some(l) {
                return self.extract(base, hlo - wl, w);
            }
        }
        // high part of a sign extension: l == x, h == sext(signbit)
        if hn.op == Op::SExt && wh > 1 {
            let sb = self.extract(l, wl - 1, 1);
            if hn.a == sb {
                return self.sext(l, w);
            }
        }
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let (x, y) = (self.concat(hn.b, ln.b), self.concat(hn.c, ln.c));
            return self.ite(hn.a, x, y);
        }
        if hn.op == Op::ZExt {
            let x = self.concat(hn.a, l);
            return self.zext(x, w);
        }
        // reassociate to the right so that contiguous pieces meet
        if hn.op == Op::Concat {
            let x = self.concat(hn.b, l);
            if self.n(x).op != Op::Concat || self.n(x).a != hn.b {
                return self.concat(hn.a, x);
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.get_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        // ite(not c, a, b) -> ite(c, b, a)
        let cn = *self.n(c);
        if cn.op == Op::Xor && self.get_const(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.get_const(a), self.get_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let an = *self.n(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = *self.n(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if let Some(k) = self.get_const(b) {
            if let Some(j) = self.get_const(a) {
                return self.cst(1, (k == j) as u128);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            let an = *self.n(a);
            match an.op {
                Op::ZExt => {
                    let wi = self.w(an.a);
                    if k > mask(wi) {
                        return self.fls();
                    }
                    let kk = self.cst(wi, k);
                    return self.eq(an.a, kk);
                }
                Op::SExt => {
                    let wi = self.w(an.a);
                    if sx(k & mask(wi), wi) as u128 & mask(w) != k {
                        return self.fls();
                    }
                    let kk = self.cst(wi, k);
                    return self.eq(an.a, kk);
                }
                Op::Concat => {
                    let wl = self.w(an.b);
                    let wh = self.w(an.a);
                    let (kh, kl) = (self.cst(wh, k >> wl), self.cst(wl, k));
                    let (x, y) = (self.eq(an.a, kh), self.eq(an.b, kl));
                    return self.and(x, y);
                }
                Op::Ite => {
                    let cb = self.get_const(an.b);
                    let cc = self.get_const(an.c);
                    if cb.is_some() || cc.is_some() {
                        let (x, y) = (self.eq(an.b, b), self.eq(an.c, b));
                        return self.ite(an.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(j) = self.get_const(an.b) {
                        let kk = self.cst(w, k.wrapping_sub(j));
                        return self.eq(an.a, kk);
                    }
                }
                Op::Sub if k == 0 => return self.eq(an.a, an.b),
                Op::Xor => {
                    if k == 0 {
                        return self.eq(an.a, an.b);
                    }
                    if let Some(j) = self.get_const(an.b) {
                        let kk = self.cst(w, k ^ j);
                        return self.eq(an.a, kk);
                    }
                }
                Op::Or if k == 0 => {
                    let z = self.cst(w, 0);
                    let (x, y) = (self.eq(an.a, z), self.eq(an.b, z));
                    return self.and(x, y);
                }
                _ => {}
            }
            let (l, h) = self.ur(a);
            if k < l || k > h {
                return self.fls();
            }
        } else if w > 1 {
            let (an, bn) = (*self.n(a), *self.n(b));
            if an.op == bn.op && (an.op == Op::ZExt || an.op == Op::SExt) {
                let (wa, wb) = (self.w(an.a), self.w(bn.a));
                if an.op == Op::ZExt || (wa > 1 && wb > 1) {
                    let m = wa.max(wb);
                    let (x, y) = if an.op == Op::ZExt {
                        (self.zext(an.a, m), self.zext(bn.a, m))
                    } else {
                        (self.sext(an.a, m), self.sext(bn.a, m))
                    };
                    if m < w {
                        return self.eq(x, y);
                    }
                }
            }
            let (ra, rb) = (self.sr(a), self.sr(b));
            if ra.1 < rb.0 || rb.1 < ra.0 {
                return self.fls();
            }
            let (ra, rb) = (self.ur(a), self.ur(b));
            if ra.1 < rb.0 || rb.1 < ra.0 {
                return self.fls();
            }
            if let Some(nb) = self.snarrow(a, b) {
                let nb = nb - 1;
                if nb >= 2 && nb + 8 < w {
                    let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                    let (x, y) = self.order(x, y);
                    if x == y {
                        return self.tru();
                    }
                    return self.mk(Op::Eq, 1, x, y, 0, 0);
                }
            }
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    fn mk_ult(&mut self, a: E, b: E) -> E {
        if self.get_const(b) == Some(1) {
            let w = self.w(a);
            let z = self.cst(w, 0);
            return self.eq(a, z);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    fn mk_ule(&mut self, a: E, b: E) -> E {
        // canonicalise constants to Ult
        let w = self.w(a);
        if let Some(k) = self.get_const(b) {
            if k < mask(w) {
                let kk = self.cst(w, k + 1);
                return self.mk_ult(a, kk);
            }
        }
        if let Some(k) = self.get_const(a) {
            if k == 1 {
                let z = self.cst(w, 0);
                let e = self.eq(b, z);
                return self.not(e);
            }
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    fn mk_slt(&mut self, a: E, b: E) -> E {
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    fn mk_sle(&mut self, a: E, b: E) -> E {
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let (ra, rb) = (self.ur(a), self.ur(b));
        if ra.1 < rb.0 {
            return self.tru();
        }
        if ra.0 >= rb.1 {
            return self.fls();
        }
        if self.w(a) == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some((x, y)) = self.both_zext(a, b) {
            return self.ult(x, y);
        }
        if let Some(nb) = self.unarrow(a, b) {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            return self.mk_ult(x, y);
        }
        if let Some(r) = self.cmp_ite(a, b, |p, x, y| p.ult(x, y)) {
            return r;
        }
        self.mk_ult(a, b)
    }
    fn cmp_ite(&mut self, a: E, b: E, f: fn(&mut Pool, E, E) -> E) -> Option<E> {
        let (an, bn) = (*self.n(a), *self.n(b));
        if an.op == Op::Ite && self.get_const(b).is_some() && (self.get_const(an.b).is_some() || self.get_const(an.c).is_some()) {
            let (x, y) = (f(self, an.b, b), f(self, an.c, b));
            return Some(self.ite(an.a, x, y));
        }
        if bn.op == Op::Ite && self.get_const(a).is_some() && (self.get_const(bn.b).is_some() || self.get_const(bn.c).is_some()) {
            let (x, y) = (f(self, a, bn.b), f(self, a, bn.c));
            return Some(self.ite(bn.a, x, y));
        }
        None
    }
    fn both_zext(&mut self, a: E, b: E) -> Option<(E, E)> {
        let (an, bn) = (*self.n(a), *self.n(b));
        let w = self.w(a);
        let wa = match an.op {
            Op::ZExt => self.w(an.a),
            Op::Const => (128 - an.k.leading_zeros()) as W,
            _ => return None,
        };
        let wb = match bn.op {
            Op::ZExt => self.w(bn.a),
            Op::Const => (128 - bn.k.leading_zeros()) as W,
            _ => return None,
        };
        let m = wa.max(wb).max(2);
        if m >= w {
            return None;
        }
        Some((self.extract(a, 0, m), self.extract(b, 0, m)))
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let (ra, rb) = (self.sr(a), self.sr(b));
        if ra.1 < rb.0 {
            return self.tru();
        }
        if ra.0 >= rb.1 {
            return self.fls();
        }
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.ult(a, b);
        }
        if let Some(nb) = self.snarrow(a, b) {
            let nb = nb - 1;
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            return self.mk_slt(x, y);
        }
        if let Some(r) = self.cmp_ite(a, b, |p, x, y| p.slt(x, y)) {
            return r;
        }
        self.mk_slt(a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    // ---------------------------------------------------------------- reals
    pub fn rc(&mut self, r: Rat) -> E {
        let i = match self.ratmap.get(&r) {
            Some(&i) => i,
            None => {
                let i = self.rats.len() as u32;
                self.rats.push(r);
                self.ratmap.insert(r, i);
                i
            }
        };
        self.mk(Op::RConst, REAL, 0, 0, 0, i as u128)
    }
    pub fn rat(&self, e: E) -> Option<Rat> {
        let n = self.n(e);
        if n.op == Op::RConst {
            Some(self.rats[n.k as usize])
        } else {
            None
        }
    }
    fn is_rc(&self, e: E, v: i128) -> bool {
        self.rat(e) == Some(Rat::int(v))
    }
    pub fn radd(&mut self, a: E, b: E) -> E {
        if self.is_rc(a, 0) {
            return b;
        }
        if self.is_rc(b, 0) {
            return a;
        }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) {
            if let Some(z) = x.add(y) {
                return self.rc(z);
            }
        }
        let (an, bn) = (*self.n(a), *self.n(b));
        if (an.op == Op::RNeg && an.a == b) || (bn.op == Op::RNeg && bn.a == a) {
            return self.rc(Rat::int(0));
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::RAdd, REAL, a, b, 0, 0)
    }
    pub fn rneg(&mut self, a: E) -> E {
        if let Some(x) = self.rat(a) {
            if let Some(z) = x.neg() {
                return self.rc(z);
            }
        }
        let n = *self.n(a);
        if n.op == Op::RNeg {
            return n.a;
        }
        self.mk(Op::RNeg, REAL, a, 0, 0, 0)
    }
    pub fn rsub(&mut self, a: E, b: E) -> E {
        let nb = self.rneg(b);
        self.radd(a, nb)
    }
    pub fn rmul(&mut self, a: E, b: E) -> E {
        if self.is_rc(a, 0) || self.is_rc(b, 1) {
            return a;
        }
        if self.is_rc(b, 0) || self.is_rc(a, 1) {
            return b;
        }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) {
            if let Some(z) = x.mul(y) {
                return self.rc(z);
            }
        }
        if self.is_rc(a, -1) {
            return self.rneg(b);
        }
        if self.is_rc(b, -1) {
            return self.rneg(a);
        }
        let (an, bn) = (*self.n(a), *self.n(b));
        if an.op == Op::RNeg {
            let m = self.rmul(an.a, b);
            return self.rneg(m);
        }
        if bn.op == Op::RNeg {
            let m = self.rmul(a, bn.a);
            return self.rneg(m);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::RMul, REAL, a, b, 0, 0)
    }
    /// caller has established b != 0
    pub fn rdiv(&mut self, a: E, b: E) -> E {
        if self.is_rc(a, 0) || self.is_rc(b, 1) {
            return a;
        }
        if a == b {
            return self.rc(Rat::int(1));
        }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) {
            if let Some(z) = x.div(y) {
                return self.rc(z);
            }
        }
        if let Some(y) = self.rat(b) {
            if let Some(z) = Rat::int(1).div(y) {
                let zc = self.rc(z);
                return self.rmul(a, zc);
            }
        }
        self.mk(Op::RDiv, REAL, a, b, 0, 0)
    }
    fn plain(&self, e: E) -> bool {
        matches!(self.n(e).op, Op::RVar | Op::RConst)
    }
    pub fn req(&mut self, a: E, b: E) -> E {
        if a == b || (self.plain(a) && self.plain(b)) {
            return self.req_raw(a, b);
        }
        if let Some(&c) = self.reqs.get(&(a, b)) {
            return c;
        }
        let c = match self.req_normal(a, b) {
            Some(c) => {
                if self.get_const(c) == Some(1) {
                    self.identities.push((a, b));
                }
                c
            }
            None => self.req_raw(a, b),
        };
        self.reqs.insert((a, b), c);
        c
    }
    pub fn rlt(&mut self, a: E, b: E) -> E {
        if a == b || (self.plain(a) && self.plain(b)) {
            return self.rlt_raw(a, b);
        }
        if let Some(&c) = self.rlts.get(&(a, b)) {
            return c;
        }
        let c = match self.rlt_normal(a, b) {
            Some(c) => c,
            None => self.rlt_raw(a, b),
        };
        self.rlts.insert((a, b), c);
        c
    }
    pub fn req_raw(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) {
            return self.cst(1, (x == y) as u128);
        }
        let (a, b) = if self.rat(a).is_some() || (self.rat(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if self.is_rc(b, 0) {
            let an = *self.n(a);
            match an.op {
                Op::RNeg => return self.req_raw(an.a, b),
                Op::RMul => {
                    let (x, y) = (self.req_raw(an.a, b), self.req_raw(an.b, b));
                    return self.or(x, y);
                }
                // denominators are known nonzero
                Op::RDiv => return self.req_raw(an.a, b),
                _ => {}
            }
        }
        self.mk(Op::REq, 1, a, b, 0, 0)
    }
    pub fn rlt_raw(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.rat(a), self.rat(b)) {
            if let Some(z) = x.lt(y) {
                return self.cst(1, z as u128);
            }
        }
        self.mk(Op::RLt, 1, a, b, 0, 0)
    }

    // ---------------------------------------------------------------- floats
    pub fn ffrom(&mut self, bits: E) -> E {
        let w = self.w(bits);
        let s = if w == 32 { FP32 } else { FP64 };
        let n = *self.n(bits);
        if n.op == Op::FToBits {
            return n.a;
        }
        self.mk(Op::FFromBits, s, bits, 0, 0, 0)
    }
    pub fn fto(&mut self, f: E) -> E {
        let w = if self.w(f) == FP32 { 32 } else { 64 };
        let n = *self.n(f);
        if n.op == Op::FFromBits {
            return n.a;
        }
        self.mk(Op::FToBits, w, f, 0, 0, 0)
    }
    pub fn fop(&mut self, op: Op, a: E, b: E) -> E {
        // operands and result are bit patterns
        let (fa, fb) = (self.ffrom(a), self.ffrom(b));
        let s = self.w(fa);
        let r = self.mk(op, s, fa, fb, 0, 0);
        self.fto(r)
    }
    pub fn fun(&mut self, op: Op, a: E) -> E {
        let w = self.w(a);
        match op {
            Op::FNeg => {
                let m = self.cst(w, 1u128 << (w - 1));
                return self.xor(a, m);
            }
            Op::FAbs => {
                let m = self.cst(w, mask(w - 1));
                return self.and(a, m);
            }
            _ => {}
        }
        let fa = self.ffrom(a);
        let s = self.w(fa);
        let r = self.mk(op, s, fa, 0, 0, 0);
        self.fto(r)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        let (fa, fb) = (self.ffrom(a), self.ffrom(b));
        self.mk(op, 1, fa, fb, 0, 0)
    }
    pub fn fround(&mut self, a: E, mode: u128) -> E {
        let fa = self.ffrom(a);
        let s = self.w(fa);
        let r = self.mk(Op::FRound, s, fa, 0, 0, mode);
        self.fto(r)
    }
    pub fn fcvt(&mut self, a: E, to: W) -> E {
        let fa = self.ffrom(a);
        let r = self.mk(Op::FCvt, if to == 32 { FP32 } else { FP64 }, fa, 0, 0, 0);
        self.fto(r)
    }
    pub fn ffma(&mut self, a: E, b: E, c: E) -> E {
        let (fa, fb, fc) = (self.ffrom(a), self.ffrom(b), self.ffrom(c));
        let s = self.w(fa);
        let r = self.mk(Op::FFma, s, fa, fb, fc, 0);
        self.fto(r)
    }
    /// saturating conversion to an integer of width `w`, as Rust's `as`
    pub fn ftoint(&mut self, a: E, signed: bool, w: W) -> E {
        let aw = self.w(a);
        let bits = |x: f64| if aw == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
        let (lo, hi, min, max) = if signed {
            (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w - 1))
        } else {
            (0.0, 2f64.powi(w as i32), 0, mask(w))
        };
        let (lo, hi) = (self.cst(aw, bits(lo)), self.cst(aw, bits(hi)));
        let fa = self.ffrom(a);
        let r = self.mk(if signed { Op::FToSInt } else { Op::FToUInt }, w, fa, 0, 0, 0);
        let (zero, min, max) = (self.cst(w, 0), self.cst(w, min), self.cst(w, max));
        let (nan, below, above) = (self.fisnan(a), self.fcmp(Op::FLe, a, lo), self.fcmp(Op::FLe, hi, a));
        let r = self.ite(above, max, r);
        let r = self.ite(below, min, r);
        self.ite(nan, zero, r)
    }
    /// IEEE maximumNumber / minimumNumber
    pub fn fmaxmin(&mut self, a: E, b: E, max: bool) -> E {
        let w = self.w(a);
        let (na, nb) = (self.fisnan(a), self.fisnan(b));
        let lt = if max { self.fcmp(Op::FLt, a, b) } else { self.fcmp(Op::FLt, b, a) };
        let eq = self.fcmp(Op::FEq, a, b);
        // equal ones differ at most in the sign of zero
        let z = if max { self.and(a, b) } else { self.or(a, b) };
        let _ = w;
        let r = self.ite(lt, b, a);
        let r = self.ite(eq, z, r);
        let r = self.ite(nb, a, r);
        self.ite(na, b, r)
    }
    pub fn fisnan(&mut self, a: E) -> E {
        let fa = self.ffrom(a);
        self.mk(Op::FIsNan, 1, fa, 0, 0, 0)
    }
    pub fn fromint(&mut self, a: E, signed: bool, w: W) -> E {
        let s = if w == 32 { FP32 } else { FP64 };
        let r = self.mk(if signed { Op::FFromSInt } else { Op::FFromUInt }, s, a, 0, 0, 0);
        self.fto(r)
    }

    // ---------------------------------------------------------------- misc
    pub fn kids(&self, e: E) -> ([E; 3], usize) {
        let n = self.n(e);
        use Op::*;
        match n.op {
            Const | Var | RConst | RVar => ([0; 3], 0),
            ZExt | SExt | Extract | RNeg | FFromBits | FToBits | FNeg | FAbs | FIsNan | FFromSInt | FFromUInt | FSqrt | FRound | FCvt | FToSInt | FToUInt => {
                ([n.a, 0, 0], 1)
            }
            Ite | FFma => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    /// sorted list of variable indices an expression depends on
    pub fn deps(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(d) = self.deps.get(&e) {
            return d.clone();
        }
        let n = *self.n(e);
        let r = match n.op {
            Op::Var | Op::RVar => vec![n.k as u32],
            _ => {
                let (ks, c) = self.kids(e);
                let mut v: Vec<u32> = vec![];
                for k in &ks[..c] {
                    let d = self.deps(*k);
                    if v.is_empty() {
                        v = d.as_ref().clone();
                    } else {
                        v.extend_from_slice(&d);
                        v.sort_unstable();
                        v.dedup();
                    }
                }
                v
            }
        };
        let r = std::rc::Rc::new(r);
        self.deps.insert(e, r.clone());
        r
    }

    /// evaluates under a (partial) model; None when it cannot
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, Option<MV>>) -> Option<MV> {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let v = self.eval1(e, m, memo);
        memo.insert(e, v);
        v
    }
    fn eval1(&self, e: E, m: &Model, memo: &mut HashMap<E, Option<MV>>) -> Option<MV> {
        let n = *self.n(e);
        let w = n.w;
        use Op::*;
        let bv = |x: Option<MV>| -> Option<u128> {
            match x {
                Some(MV::B(v)) => Some(v),
                _ => None,
            }
        };
        let rv = |x: Option<MV>| -> Option<Rat> {
            match x {
                Some(MV::R(v)) => Some(v),
                _ => None,
            }
        };
        Some(match n.op {
            Const => MV::B(n.k),
            RConst => MV::R(self.rats[n.k as usize]),
            // variables no constraint mentioned yet take a fixed default
            Var => m.get(&(n.k as u32)).copied().unwrap_or(MV::B(0)),
            RVar => m.get(&(n.k as u32)).copied().unwrap_or(MV::R(Rat::int(0))),
            Ite => {
                let c = bv(self.eval(n.a, m, memo))?;
                return self.eval(if c == 1 { n.b } else { n.c }, m, memo);
            }
            And if w == 1 => {
                let a = bv(self.eval(n.a, m, memo));
                if a == Some(0) {
                    return Some(MV::B(0));
                }
                let b = bv(self.eval(n.b, m, memo));
                if b == Some(0) {
                    return Some(MV::B(0));
                }
                a?;
                b?;
                MV::B(1)
            }
            Or if w == 1 => {
                let a = bv(self.eval(n.a, m, memo));
                if a == Some(1) {
                    return Some(MV::B(1));
                }
                let b = bv(self.eval(n.b, m, memo));
                if b == Some(1) {
                    return Some(MV::B(1));
                }
                a?;
                b?;
                MV::B(0)
            }
            RAdd | RSub | RMul | RDiv | REq | RLt | RLe => {
                let a = rv(self.eval(n.a, m, memo))?;
                let b = rv(self.eval(n.b, m, memo))?;
                match n.op {
                    RAdd => MV::R(a.add(b)?),
                    RSub => MV::R(a.sub(b)?),
                    RMul => MV::R(a.mul(b)?),
                    RDiv => MV::R(a.div(b)?),
                    REq => MV::B((a == b) as u128),
                    RLt => MV::B(a.lt(b)? as u128),
                    _ => MV::B(!b.lt(a)? as u128),
                }
            }
            RNeg => MV::R(rv(self.eval(n.a, m, memo))?.neg()?),
            FFromBits | FToBits => self.eval(n.a, m, memo)?,
            FAdd | FSub | FMul | FDiv | FEq | FLt | FLe => {
                let a = bv(self.eval(n.a, m, memo))?;
                let b = bv(self.eval(n.b, m, memo))?;
                if self.w(n.a) == FP64 {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    match n.op {
                        FEq => MV::B((x == y) as u128),
                        FLt => MV::B((x < y) as u128),
                        FLe => MV::B((x <= y) as u128),
                        FAdd => MV::B((x + y).to_bits() as u128),
                        FSub => MV::B((x - y).to_bits() as u128),
                        FMul => MV::B((x * y).to_bits() as u128),
                        _ => MV::B((x / y).to_bits() as u128),
                    }
                } else {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    match n.op {
                        FEq => MV::B((x == y) as u128),
                        FLt => MV::B((x < y) as u128),
                        FLe => MV::B((x <= y) as u128),
                        FAdd => MV::B((x + y).to_bits() as u128),
                        FSub => MV::B((x - y).to_bits() as u128),
                        FMul => MV::B((x * y).to_bits() as u128),
                        _ => MV::B((x / y).to_bits() as u128),
                    }
                }
            }
            FIsNan => {
                let a = bv(self.eval(n.a, m, memo))?;
                MV::B(if self.w(n.a) == FP64 { f64::from_bits(a as u64).is_nan() } else { f32::from_bits(a as u32).is_nan() } as u128)
            }
            FNeg | FAbs => return None,
            FSqrt => {
                let a = bv(self.eval(n.a, m, memo))?;
                MV::B(if w == FP64 { f64::from_bits(a as u64).sqrt().to_bits() as u128 } else { f32::from_bits(a as u32).sqrt().to_bits() as u128 })
            }
            FRound => {
                let a = bv(self.eval(n.a, m, memo))?;
                // exact in double precision for both formats
                let x = if w == FP64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
                let y = match n.k {
                    0 => x.round_ties_even(),
                    1 => x.trunc(),
                    2 => x.ceil(),
                    3 => x.floor(),
                    _ => x.round(),
                };
                MV::B(if w == FP64 { y.to_bits() as u128 } else { (y as f32).to_bits() as u128 })
            }
            FCvt => {
                let a = bv(self.eval(n.a, m, memo))?;
                MV::B(match (self.w(n.a) == FP64, w == FP64) {
                    (true, false) => (f64::from_bits(a as u64) as f32).to_bits() as u128,
                    (false, true) => (f32::from_bits(a as u32) as f64).to_bits() as u128,
                    _ => a,
                })
            }
            FToSInt | FToUInt => {
                let a = bv(self.eval(n.a, m, memo))?;
                let x = if self.w(n.a) == FP64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
                // used below a range check only, so that out of range does not matter
                MV::B((if n.op == FToSInt { x as i128 as u128 } else { x as u128 }) & mask(w))
            }
            FFma => {
                let a = bv(self.eval(n.a, m, memo))?;
                let b = bv(self.eval(n.b, m, memo))?;
                let c = bv(self.eval(n.c, m, memo))?;
                MV::B(if w == FP64 {
                    f64::from_bits(a as u64).mul_add(f64::from_bits(b as u64), f64::from_bits(c as u64)).to_bits() as u128
                } else {
                    f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u128
                })
            }
            FFromSInt | FFromUInt => {
                let a = bv(self.eval(n.a, m, memo))?;
                let s = sx(a, self.w(n.a));
                if w == FP64 {
                    MV::B((if n.op == FFromSInt { s as f64 } else { a as f64 }).to_bits() as u128)
                } else {
                    MV::B((if n.op == FFromSInt { s as f32 } else { a as f32 }).to_bits() as u128)
                }
            }
            _ => {
                let a = bv(self.eval(n.a, m, memo))?;
                let b = if self.kids(e).1 > 1 { bv(self.eval(n.b, m, memo))? } else { 0 };
                let wa = self.w(n.a);
                let (sa, sb) = (sx(a, wa), if self.kids(e).1 > 1 { sx(b, self.w(n.b)) } else { 0 });
                let r = match n.op {
                    Add => a.wrapping_add(b),
                    Sub => a.wrapping_sub(b),
                    Mul => a.wrapping_mul(b),
                    UDiv => if b == 0 { mask(w) } else { a / b },
                    URem => if b == 0 { a } else { a % b },
                    SDiv => if b == 0 { if sa >= 0 { u128::MAX } else { 1 } } else { sa.wrapping_div(sb) as u128 },
                    SRem => if b == 0 { a } else { sa.wrapping_rem(sb) as u128 },
                    And => a & b,
                    Or => a | b,
                    Xor => a ^ b,
                    Shl => if b >= w as u128 { 0 } else { a << b },
                    LShr => if b >= w as u128 { 0 } else { a >> b },
                    AShr => (sa >> (b.min(w as u128 - 1))) as u128,
                    ZExt => a,
                    SExt => sa as u128,
                    Extract => a >> n.k,
                    Concat => (a << self.w(n.b)) | b,
                    Eq => (a == b) as u128,
                    Ult => (a < b) as u128,
                    Ule => (a <= b) as u128,
                    Slt => (sa < sb) as u128,
                    Sle => (sa <= sb) as u128,
                    _ => unreachable!(),
                };
                MV::B(r & mask(w))
            }
        })
    }
}
