//! Wide, tall and large sparse matrices: mostly constant entries, a few arbitrary ones. What needs
//! many rows or columns to show up is decided here, what needs odd values in `lin`.
#[cfg(feature = "hooks")]
pub mod hooked {
    use crate::lin::{check_echelon, columns, Ref, M};
    use crate::real::{preference, R};
    use crate::vf::*;
    use algeo::core::num::Zero;

    fn hash(i: usize, j: usize, s: usize) -> usize {
        let x = (i + 3).wrapping_mul(0x9e3779b97f4a7c15) ^ (j + 7).wrapping_mul(0xc2b2ae3d27d4eb4f) ^ (s + 1).wrapping_mul(0x165667b19e3779f9);
        (x ^ x >> 29).wrapping_mul(0xbf58476d1ce4e5b9) >> 33
    }
    /// columns before `lead` are zero, entries are -2..=2 with about a third of them zero, `k` of
    /// them arbitrary; with `dup`, the last row is the sum of the first two
    fn wide(r: usize, c: usize, lead: usize, k: usize, dup: u64, seed: u64) -> (M, Ref) {
        let mut v = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                let h = hash(i, j, seed as usize);
                let x = [0, 1, -1, 0, 2, 1, -2, 0][h % 8];
                v.push(if j < lead { R(crate::real::RZERO) } else { R::int(x) });
            }
        }
        for t in 0..k {
            let j = if t % 2 == 0 { lead + t / 2 } else { c - 1 - t / 2 };
            v[t % r * c + j] = R::var();
        }
        if dup == 1 && r > 2 {
            for j in 0..c {
                v[(r - 1) * c + j] = v[j] + v[c + j];
            }
        }
        (M::new(r, c, v.clone()), Ref::new(r, c, &v))
    }
    harnesses! {
        /// what: 0 kernel, 1 range, 2 factors multiply to the matrix, 3 shape of the factors,
        /// 4 the transformation gives the reduced form, which is reduced, 5 rank and nullity
        fn h_wide(r, c, lead, k, dup, seed, what) {
            let (r, c) = (r as usize, c as usize);
            let (a, v) = wide(r, c, lead as usize, k as usize, dup, seed);
            let pref = 1 + choose(3) as u32;
            preference(pref);
            if what == 2 || what == 3 {
                let f = a.lu();
                let (p, l, u) = (Ref::of(&f.p), Ref::of(&f.l), Ref::of(&f.u));
                if what == 2 { p.mul(&v).same(&l.mul(&u), "P A = L U"); }
                else {
                    let mut used = vec![false; r];
                    for i in 0..r {
                        let mut n = 0;
                        for j in 0..r {
                            if p.at(i, j) == R(crate::real::RONE) { n += 1; check(!used[j], "the permutation factor is a permutation matrix"); used[j] = true; }
                            else { p.at(i, j).same(R(crate::real::RZERO), "the permutation factor has entries 0 and 1"); }
                            if j > i { l.at(i, j).same(R(crate::real::RZERO), "the lower factor is lower triangular"); }
                        }
                        check(n == 1, "the permutation factor is a permutation matrix");
                        check(!l.at(i, i).is_zero(), "the lower factor is invertible");
                    }
                    check_echelon(&u, false, "the upper factor is in row echelon form with unit pivots");
                }
                cover(1);
                return;
            }
            let f = a.row_echelon();
            let (rank0, null0) = (f.rank(), f.nullity());
            let g = f.to_rref();
            let rank = v.rank();
            if what == 0 {
                let ker = g.compute_kernel();
                let km = columns(&ker, c, "kernel vectors have one entry per column");
                check(ker.len() + rank == c, "kernel dimension plus rank is the number of columns");
                for x in &v.mul(&km).v { x.same(R(crate::real::RZERO), "kernel vectors are mapped to zero"); }
                check(km.rank() == ker.len(), "kernel vectors are linearly independent");
            } else if what == 1 {
                let ran = g.compute_range();
                let rm = columns(&ran, r, "range vectors have one entry per row");
                check(ran.len() == rank, "range dimension is the rank");
                check(rm.rank() == rank, "range vectors are linearly independent");
                for x in 0..ran.len() {
                    let mut some = false;
                    for j in 0..c {
                        let mut all = true;
                        for i in 0..r { all = all && rm.at(i, x) == v.at(i, j); }
                        some = some || all;
                    }
                    check(some, "range vectors are columns of the matrix");
                }
            } else if what == 4 {
                let (p, b) = (Ref::of(g.verif_p()), Ref::of(g.verif_b()));
                p.mul(&v).same(&b, "the transformation times the matrix is the reduced form");
                check(check_echelon(&b, true, "the form is in reduced row echelon form with unit pivots").len() == rank, "one pivot per rank");
            } else {
                check((rank0 == rank) & (g.rank() == rank), "the rank is found");
                check((null0 + rank == c) & (g.nullity() + rank == c), "rank and nullity add up to the number of columns");
            }
            if rank == r.min(c) { cover(1); } else { cover(2); }
        }
    }
}
