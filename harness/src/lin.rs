//! Matrices, LU decomposition, row reduction, kernel and range over the symbolic real field.
use crate::real::R;
use crate::vf::*;
use algeo::core::num::Zero;
use algeo::linalg::mat::Mat;

pub type M = Mat<R>;
fn zero() -> R {
    R(crate::real::RZERO)
}
fn one() -> R {
    R(crate::real::RONE)
}
fn delta(b: bool) -> R {
    if b { one() } else { zero() }
}

/// arbitrary matrix; its entries in row-major order
pub fn any_mat(r: usize, c: usize) -> (M, Vec<R>) {
    let mut v = Vec::with_capacity(16);
    for _ in 0..r * c {
        v.push(R::var());
    }
    (Mat::new(r, c, v.clone()), v)
}
pub fn shape(m: &M, r: usize, c: usize, what: &str) {
    check((m.rows() == r) & (m.cols() == c) & (m.entries().len() == r * c), what);
}
/// the matrix has this shape and these entries
fn is(m: &M, r: usize, c: usize, what: &str, f: impl Fn(usize, usize) -> R) {
    shape(m, r, c, what);
    for i in 0..r {
        for j in 0..c {
            m[(i, j)].same(f(i, j), what);
        }
    }
}
/// reference matrix with plain storage
#[derive(Clone)]
pub struct Ref {
    pub r: usize,
    pub c: usize,
    pub v: Vec<R>,
}
impl Ref {
    pub fn of(m: &M) -> Ref {
        let (r, c) = (m.rows(), m.cols());
        let mut v = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                v.push(m.entries()[i * c + j]);
            }
        }
        Ref { r, c, v }
    }
    pub fn new(r: usize, c: usize, v: &[R]) -> Ref {
        Ref { r, c, v: v.to_vec() }
    }
    pub fn at(&self, i: usize, j: usize) -> R {
        self.v[i * self.c + j]
    }
    pub fn mul(&self, o: &Ref) -> Ref {
        let mut v = Vec::with_capacity(self.r * o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = zero();
                for k in 0..self.c {
                    s = s + self.at(i, k) * o.at(k, j);
                }
                v.push(s);
            }
        }
        Ref { r: self.r, c: o.c, v }
    }
    pub fn same(&self, o: &Ref, what: &str) {
        check((self.r == o.r) & (self.c == o.c), what);
        for i in 0..self.v.len() {
            self.v[i].same(o.v[i], what);
        }
    }
    /// determinant of the submatrix with these rows and columns (bit sets), by expansion
    fn minor(&self, rows: u32, cols: u32) -> R {
        if rows == 0 {
            return one();
        }
        let i = rows.trailing_zeros() as usize;
        let mut s = zero();
        let mut neg = false;
        for j in 0..self.c {
            if cols >> j & 1 == 1 {
                let m = self.at(i, j) * self.minor(rows & !(1 << i), cols & !(1 << j));
                s = if neg { s - m } else { s + m };
                neg = !neg;
            }
        }
        s
    }
    /// the rank, by elimination
    pub fn rank(&self) -> usize {
        let mut rows: Vec<Vec<R>> = (0..self.r).map(|i| self.v[i * self.c..(i + 1) * self.c].to_vec()).collect();
        let mut k = 0;
        for j in 0..self.c {
            let mut i = k;
            while i < rows.len() && rows[i][j].is_zero() {
                i += 1;
            }
            if i == rows.len() {
                continue;
            }
            rows.swap(i, k);
            for i in k + 1..rows.len() {
                if !rows[i][j].is_zero() {
                    let q = rows[i][j] / rows[k][j];
                    for l in j..self.c {
                        rows[i][l] = rows[i][l] - q * rows[k][l];
                    }
                }
            }
            k += 1;
            if k == rows.len() {
                break;
            }
        }
        k
    }
    /// the rank is `k`: some k-minor is nonzero, every (k+1)-minor is zero
    pub fn check_rank(&self, k: usize, what: &str) {
        let mut nz = k == 0;
        for rows in 0..1u32 << self.r {
            for cols in 0..1u32 << self.c {
                if rows.count_ones() == cols.count_ones() {
                    if rows.count_ones() as usize == k {
                        nz |= !self.minor(rows, cols).is_zero();
                    }
                    if rows.count_ones() as usize == k + 1 {
                        self.minor(rows, cols).same(zero(), what);
                    }
                }
            }
        }
        check(nz, what);
    }
}
/// vectors (as columns) -> reference matrix
pub fn columns(vs: &[M], n: usize, what: &str) -> Ref {
    let mut v = Vec::with_capacity(n * vs.len());
    for m in vs {
        shape(m, n, 1, what);
    }
    for i in 0..n {
        for m in vs {
            v.push(m.entries()[i]);
        }
    }
    Ref { r: n, c: vs.len(), v }
}

/// row echelon with unit pivots; returns pivot columns
pub fn check_echelon(b: &Ref, reduced: bool, what: &str) -> Vec<usize> {
    let mut pivots = Vec::with_capacity(4);
    let mut next = 0;
    for i in 0..b.r {
        let mut j = 0;
        while j < b.c && b.at(i, j).is_zero() {
            j += 1;
        }
        if j == b.c {
            next = b.c;
            continue;
        }
        check(j >= next, what);
        next = j + 1;
        b.at(i, j).same(one(), what);
        for i2 in 0..b.r {
            if i2 > i || (reduced && i2 != i) {
                b.at(i2, j).same(zero(), what);
            }
        }
        pivots.push(j);
    }
    pivots
}

harnesses! {
    // ---- C16 -------------------------------------------------------------------------------
    fn h_mat_add(r, c) {
        let (r, c) = (r as usize, c as usize);
        let ((a, x), (b, y)) = (any_mat(r, c), any_mat(r, c));
        let s = match choose(4) { 0 => &a + &b, 1 => a.clone() + b.clone(), 2 => &a + b.clone(), _ => a.clone() + &b };
        is(&s, r, c, "matrix addition is entrywise", |i, j| x[i * c + j] + y[i * c + j]);
        cover(1);
    }
    fn h_mat_scalar(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, x) = any_mat(r, c);
        let k = R::var();
        let w = choose(4);
        let s = match w {
            0 => &a * k,
            1 => a.clone() * k,
            2 => { let mut m = a.clone(); m *= k; m }
            _ => { let mut m = a.clone(); m.scale(k); m }
        };
        is(&s, r, c, "scalar multiplication is entrywise", |i, j| x[i * c + j] * k);
        cover(1 + w as u32);
    }
    /// over an exact field, epsilon equality of matrices is equality
    fn h_mat_eps(r, c, free) {
        let (r, c) = (r as usize, c as usize);
        let ((a, x), (b, mut y)) = (any_mat(r, c), any_mat(r, c));
        // all but `free` entries agree
        let b = if (free as usize) < r * c {
            let k = choose((r * c) as u64);
            for i in 0..r * c {
                if (i + r * c - k) % (r * c) >= free as usize { y[i] = x[i]; }
            }
            Mat::new(r, c, y.clone())
        } else { b };
        let mut eq = true;
        for i in 0..r * c { eq &= x[i] == y[i]; }
        use algeo::core::num::EpsilonEquality;
        check(a.epsilon_equals(&b) == eq, "matrices are epsilon-equal exactly when their entries are equal");
        if eq { cover(1) } else { cover(2) }
    }
    fn h_mat_mul(r, k, c) {
        let (r, k, c) = (r as usize, k as usize, c as usize);
        let ((a, x), (b, y)) = (any_mat(r, k), any_mat(k, c));
        let s = match choose(4) { 0 => &a * &b, 1 => a.clone() * b.clone(), 2 => &a * b.clone(), _ => a.clone() * &b };
        is(&s, r, c, "matrix product", |i, j| {
            let mut s = zero();
            for l in 0..k { s = s + x[i * k + l] * y[l * c + j]; }
            s
        });
        cover(1);
    }
    /// identity, zero, basis vectors, elementary and permutation matrices, transposition
    fn h_mat_make(n, m) {
        let (n, m) = (n as usize, m as usize);
        is(&M::identity(n), n, n, "identity matrix", |i, j| delta(i == j));
        is(&M::zero(n, m), n, m, "zero matrix", |_, _| zero());
        let k = choose(n as u64);
        is(&M::e(k, n), n, 1, "standard basis vector", |i, _| delta(i == k));
        let (s, t, x) = (choose(n as u64), choose(n as u64), R::var());
        is(&M::scale_mat(n, s, x), n, n, "scaling matrix", |i, j| if i == j && i == s { x } else { delta(i == j) });
        let img = |i: usize| if i == s { t } else if i == t { s } else { i };
        is(&M::permutation(n, s, t), n, n, "transposition matrix", |i, j| delta(img(i) == j));
        if s != t {
            cover(1);
            is(&M::replacement(n, s, t, x), n, n, "replacement matrix", |i, j| if i == t && j == s { x } else { delta(i == j) });
        }
        let (a, v) = any_mat(n, m);
        is(&a.transpose(), m, n, "transpose", |i, j| v[j * m + i]);
        let mut rows = Vec::with_capacity(4);
        for i in 0..n { rows.push(Mat::new(m, 1, v[i * m..i * m + m].to_vec())); }
        is(&M::from_row_vectors(&rows), n, m, "matrix from row vectors", |i, j| v[i * m + j]);
        is(&M::from_col_vectors(&rows), m, n, "matrix from column vectors", |i, j| v[j * m + i]);
        cover(2);
    }
    fn h_mat_perm(n) {
        let n = n as usize;
        let mut p: Vec<usize> = Vec::with_capacity(4);
        for _ in 0..n {
            let x = choose(n as u64);
            for y in &p { assume(*y != x); }
            p.push(x);
        }
        is(&M::permutation_from_vec(p.clone()), n, n, "permutation matrix", |i, j| delta(p[i] == j));
        let (a, v) = any_mat(n, 2);
        is(&(M::permutation_from_vec(p.clone()) * &a), n, 2, "a permutation matrix permutes rows", |i, j| v[p[i] * 2 + j]);
        cover(1);
    }
    /// in-place row operations; agreement with the elementary matrices
    fn h_mat_rowop(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let (s, t, x) = (choose(r as u64), choose(r as u64), R::var());
        let mut m = a.clone();
        match choose(4) {
            0 => {
                m.scale_row(s, x);
                is(&m, r, c, "scaling a row", |i, j| if i == s { x * v[i * c + j] } else { v[i * c + j] });
                Ref::of(&(M::scale_mat(r, s, x) * &a)).same(&Ref::of(&m), "scaling matrix performs the row operation");
                cover(1);
            }
            1 => {
                m.permute_rows(s, t);
                is(&m, r, c, "swapping rows", |i, j| { let k = if i == s { t } else if i == t { s } else { i }; v[k * c + j] });
                Ref::of(&(M::permutation(r, s, t) * &a)).same(&Ref::of(&m), "transposition matrix performs the row operation");
                cover(2);
            }
            2 => {
                if s == t { return; }
                m.replace_row(s, t, x);
                is(&m, r, c, "adding a multiple of a row", |i, j| if i == t { v[i * c + j] + x * v[s * c + j] } else { v[i * c + j] });
                Ref::of(&(M::replacement(r, s, t, x) * &a)).same(&Ref::of(&m), "replacement matrix performs the row operation");
                cover(3);
            }
            _ => {
                let (d, e) = (choose(c as u64), choose(c as u64));
                m.swap((s, d), (t, e));
                is(&m, r, c, "swapping two entries", |i, j| if (i, j) == (s, d) { v[t * c + e] } else if (i, j) == (t, e) { v[s * c + d] } else { v[i * c + j] });
                cover(4);
            }
        }
    }
    /// access by index, row and column views, mutable views, inner products, triangularity
    fn h_mat_view(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let (i, j) = (choose(r as u64), choose(c as u64));
        shape(&a, r, c, "shape");
        a[(i, j)].same(v[i * c + j], "indexing");
        a.get_unchecked(i, j).same(v[i * c + j], "indexing");
        let mut n = 0;
        for x in a.get_row_iter(i) { check(n < c, "row view"); x.same(v[i * c + n], "row view"); n += 1; }
        check(n == c, "row view has every entry");
        n = 0;
        for x in a.get_col_iter(j) { check(n < r, "column view"); x.same(v[n * c + j], "column view"); n += 1; }
        check(n == r, "column view has every entry");
        is(&a.get_row(i), c, 1, "row as a column vector", |k, _| v[i * c + k]);
        is(&a.get_col(j), r, 1, "column", |k, _| v[k * c + j]);
        let x = R::var();
        let mut m = a.clone();
        m[(i, j)] = x;
        is(&m, r, c, "assignment by index", |p, q| if (p, q) == (i, j) { x } else { v[p * c + q] });
        let mut m = a.clone();
        *m.get_mut_unchecked(i, j) = x;
        is(&m, r, c, "assignment by index", |p, q| if (p, q) == (i, j) { x } else { v[p * c + q] });
        let mut m = a.clone();
        n = 0;
        for e in m.get_row_iter_mut(i) { *e = x + R::int(n as i64); n += 1; }
        check(n == c, "mutable row view has every entry");
        is(&m, r, c, "mutable row view", |p, q| if p == i { x + R::int(q as i64) } else { v[p * c + q] });
        let mut m = a.clone();
        n = 0;
        for e in m.get_col_iter_mut(j) { *e = x + R::int(n as i64); n += 1; }
        check(n == r, "mutable column view has every entry");
        is(&m, r, c, "mutable column view", |p, q| if q == j { x + R::int(p as i64) } else { v[p * c + q] });
        let mut n = 0;
        for (p, q) in a.index_iter() { check((p == n / c) & (q == n % c), "index iterator"); n += 1; }
        check(n == r * c, "index iterator yields every index");
        let (b, w) = any_mat(r, c);
        let (mut d, mut f) = (zero(), zero());
        for k in 0..r * c { d = d + v[k] * w[k]; f = f + v[k] * v[k]; }
        a.dot(&b).same(d, "inner product");
        a.frobenius_norm().same(f, "squared norm");
        let mut col = Vec::with_capacity(8);
        for k in 0..r { col.push(v[k]); }
        is(&M::from(col.into_iter()), r, 1, "matrix from an iterator", |k, _| v[k]);
        cover(1);
    }
    fn h_mat_tri(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let (mut up, mut lo, mut eq) = (true, true, true);
        for i in 0..r { for j in 0..c {
            if i > j { up &= v[i * c + j].is_zero(); }
            if i < j { lo &= v[i * c + j].is_zero(); }
        } }
        check(a.is_upper_triangular() == up, "upper triangular means zero below the diagonal");
        check(a.is_lower_triangular() == lo, "lower triangular means zero above the diagonal");
        let (b, w) = any_mat(r, c);
        for k in 0..r * c { eq &= v[k] == w[k]; }
        check((a == b) == eq, "matrices are equal exactly when their entries are");
        if up { cover(1); }
        if lo { cover(2); }
        if eq { cover(3); }
    }
    /// equality compares the shapes as well as the entries, in matrices of any size
    fn h_mat_eq(r, c, r2, c2) {
        let (r, c, r2, c2) = (r as usize, c as usize, r2 as usize, c2 as usize);
        let (a, v) = any_mat(r, c);
        if (r, c) == (r2, c2) {
            check(a == a.clone(), "a matrix equals its copy");
            let k = choose((r * c) as u64) as usize;
            let mut w = v.clone();
            w[k] = R::var();
            let b = M::new(r, c, w.clone());
            let eq = v[k] == w[k];
            check((a == b) == eq, "matrices differing in one entry are not equal");
            check((b == a) == eq, "equality is symmetric");
            if eq { cover(2); }
        } else {
            let w: Vec<R> = (0..r2 * c2).map(|i| if i < r * c { v[i] } else { R::var() }).collect();
            let b = M::new(r2, c2, w);
            check(a != b, "matrices of different shapes are not equal");
            check(b != a, "matrices of different shapes are not equal");
        }
        cover(1);
    }
    // ---- C17 -------------------------------------------------------------------------------
    fn h_lu(r, c, part) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        // parts 4 and up: candidates for a pivot are nonzero
        crate::real::generic(part >= 4);
        let lu = a.lu();
        crate::real::generic(false);
        let part = part % 4;
        shape(&lu.p, r, r, "shape of the permutation factor");
        shape(&lu.l, r, r, "shape of the lower factor");
        shape(&lu.u, r, c, "shape of the upper factor");
        let (p, l, u) = (Ref::of(&lu.p), Ref::of(&lu.l), Ref::of(&lu.u));
        if part == 0 {
            p.mul(&Ref::new(r, c, &v)).same(&l.mul(&u), "P A = L U");
            let a2 = Ref::of(&(lu.p.transpose() * &lu.l * &lu.u));
            a2.same(&Ref::new(r, c, &v), "A = P^T L U");
        } else {
            let mut used = 0u32;
            for i in 0..r {
                let mut n = 0;
                for j in 0..r {
                    if p.at(i, j) == one() { n += 1; check(used >> j & 1 == 0, "the permutation factor is a permutation matrix"); used |= 1 << j; }
                    else { p.at(i, j).same(zero(), "the permutation factor has entries 0 and 1"); }
                    if j > i { l.at(i, j).same(zero(), "the lower factor is lower triangular"); }
                }
                check(n == 1, "the permutation factor is a permutation matrix");
                check(!l.at(i, i).is_zero(), "the lower factor is invertible");
            }
            check_echelon(&u, false, "the upper factor is in row echelon form with unit pivots");
            for i in 0..r { for j in 0..c { if i > j { u.at(i, j).same(zero(), "the upper factor is upper triangular"); } } }
        }
        cover(1);
    }
    // ---- C18 -------------------------------------------------------------------------------
    fn h_rank(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let f = a.row_echelon();
        let k = f.rank();
        check(f.nullity() + k == c, "rank and nullity add up to the number of columns");
        Ref::new(r, c, &v).check_rank(k, "the rank is the size of the largest nonzero minor");
        let g = f.to_rref();
        check(g.rank() == k, "reduction keeps the rank");
        check(g.nullity() + k == c, "reduction keeps the nullity");
        if k == 0 { cover(1); }
        if k == r.min(c) { cover(2); }
        if k == 1 { cover(3); }
    }
    fn h_zero_rows(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let mut n = 0;
        for i in 0..r {
            let mut z = true;
            for j in 0..c { z &= v[i * c + j].is_zero(); }
            n += z as usize;
        }
        check(a.zero_rows() == n, "number of zero rows");
        cover(1);
    }
    fn h_pivot(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let (i, j) = (choose(r as u64), choose(c as u64));
        match a.get_stable_column_index_under_row(j, i) {
            None => { cover(1); for k in i..r { v[k * c + j].same(zero(), "no pivot only if the column is zero below the row"); } }
            Some((k, x)) => {
                cover(2);
                check((k >= i) & (k < r), "the pivot lies at or below the row");
                x.same(v[k * c + j], "the pivot value is the entry");
                check(!x.is_zero(), "the pivot is nonzero");
            }
        }
    }
    // ---- C19 -------------------------------------------------------------------------------
    fn h_kernel(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let g = a.row_echelon().to_rref();
        let ker = g.compute_kernel();
        let ref_a = Ref::new(r, c, &v);
        check(ker.len() <= c, "kernel dimension");
        let km = columns(&ker, c, "kernel vectors have one entry per column");
        ref_a.check_rank(c - ker.len(), "kernel dimension plus rank is the number of columns");
        let z = ref_a.mul(&km);
        for x in &z.v { x.same(zero(), "kernel vectors are mapped to zero"); }
        km.check_rank(ker.len(), "kernel vectors are linearly independent");
        if ker.len() == 0 { cover(1); }
        if ker.len() > 1 { cover(2); }
        if ker.len() == 1 { cover(3); }
    }
    fn h_range(r, c) {
        let (r, c) = (r as usize, c as usize);
        let (a, v) = any_mat(r, c);
        let g = a.row_echelon().to_rref();
        let ran = g.compute_range();
        let ref_a = Ref::new(r, c, &v);
        let rm = columns(&ran, r, "range vectors have one entry per row");
        ref_a.check_rank(ran.len(), "range dimension is the rank");
        rm.check_rank(ran.len(), "range vectors are linearly independent");
        for x in 0..ran.len() {
            let mut some = false;
            for j in 0..c {
                let mut all = true;
                for i in 0..r { all &= rm.at(i, x) == v[i * c + j]; }
                some |= all;
            }
            check(some, "range vectors are columns of the matrix");
        }
        if ran.len() == 0 { cover(1); }
        if ran.len() > 1 { cover(2); }
    }
    // ---- C24 -------------------------------------------------------------------------------
    /// incompatible shapes: 0 add, 1 multiply
    fn h_mat_reject(which) {
        let dim = || [1, 2, 3, 8, 17][choose(5)];
        let (r, c, r2, c2) = (dim(), dim(), dim(), dim());
        let (a, b) = (any_mat(r, c).0, any_mat(r2, c2).0);
        if which == 0 {
            if r == r2 && c == c2 { return; }
            expect_panic();
            match choose(4) { 0 => std::hint::black_box(&a + &b), 1 => std::hint::black_box(&a + b), 2 => std::hint::black_box(a + &b), _ => std::hint::black_box(a + b) };
        } else {
            if c == r2 { return; }
            expect_panic();
            match choose(4) { 0 => std::hint::black_box(&a * &b), 1 => std::hint::black_box(&a * b), 2 => std::hint::black_box(a * &b), _ => std::hint::black_box(a * b) };
        }
    }
}

#[cfg(feature = "hooks")]
pub mod hooked {
    use super::*;
    harnesses! {
        fn h_echelon(r, c, reduced, part) {
            let (r, c) = (r as usize, c as usize);
            let (a, v) = any_mat(r, c);
            crate::real::generic(part >= 4);
            let f = a.row_echelon();
            crate::real::generic(false);
            let part = part % 4;
            let (p, b) = if reduced == 1 {
                let f = f.to_rref();
                (Ref::of(f.verif_p()), Ref::of(f.verif_b()))
            } else {
                (Ref::of(f.verif_p()), Ref::of(f.verif_b()))
            };
            check((p.r == r) & (p.c == r) & (b.r == r) & (b.c == c), "shapes of the row-equivalent form");
            if part == 0 {
                p.mul(&Ref::new(r, c, &v)).same(&b, "the transformation times the matrix is the reduced form");
            } else if part == 1 {
                let piv = check_echelon(&b, reduced == 1, "the form is in (reduced) row echelon form with unit pivots");
                if piv.len() == r.min(c) { cover(1); } else { cover(2); }
            } else {
                p.check_rank(r, "the transformation is invertible");
            }
        }
    }
}
