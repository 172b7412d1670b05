//! Cones: dimension, orthogonal complement and facets.
#[cfg(feature = "hooks")]
pub mod hooked {
    use crate::lin::{any_mat, columns, Ref, M};
    use crate::real::{preference, R};
    use crate::vf::*;
    use algeo::core::num::Zero;
    use algeo::linalg::cone::Cone;

    fn dot(a: &[R], b: &[R]) -> R {
        let mut s = R(crate::real::RZERO);
        for i in 0..a.len() {
            s = s + a[i] * b[i];
        }
        s
    }
    fn cross(a: &[R], b: &[R]) -> [R; 3] {
        [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    }
    /// orthogonal to three vectors of dimension four
    fn cross4(a: &[R], b: &[R], c: &[R]) -> Vec<R> {
        let mut w = Vec::with_capacity(4);
        for k in 0..4 {
            let drop = |v: &[R]| -> Vec<R> { (0..4).filter(|i| *i != k).map(|i| v[i]).collect() };
            let (a, b, c) = (drop(a), drop(b), drop(c));
            let d = dot(&a, &cross(&b, &c));
            w.push(if k % 2 == 0 { d } else { -d });
        }
        w
    }
    /// part 0: dimension and orthogonal complement, 1: facets are faces of codimension one with a
    /// supporting normal, 2: no facet is missing
    fn cone(n: usize, gs: &[M], vs: &[Vec<R>], pref: u32, part: u64) {
        let m = gs.len();
        preference(pref);
        let c = Cone::new(gs.to_vec());
        preference(0);
        let (amb, dim) = c.verif_dims();
        check(amb == n, "ambient dimension");
        check(c.verif_generators().len() == m, "generators are kept");
        for i in 0..m { for k in 0..n { c.verif_generators()[i].entries()[k].same(vs[i][k], "generators are kept"); } }
        let g = columns(gs, n, "generators");
        if part == 0 {
            g.check_rank(dim, "the dimension of a cone is the rank of its generators");
            let o = c.verif_orth_comp_basis();
            check(o.len() + dim == n, "dimension of the orthogonal complement");
            columns(o, n, "orthogonal complement").check_rank(o.len(), "the basis of the orthogonal complement is independent");
            for w in o { for v in vs { dot(w.entries(), v).same(R(crate::real::RZERO), "the orthogonal complement is orthogonal to the generators"); } }
            if dim == n { cover(1); }
            if dim == 0 { cover(2); }
            return;
        }
        let fs = c.verif_facets();
        if part == 1 {
            for (normal, fg) in &fs {
                cover(1);
                check(dim > 0, "the zero cone has no facets");
                check((normal.rows() == n) & (normal.cols() == 1), "a facet normal is a vector");
                check(fg.len() + 1 == dim, "a facet is spanned by one generator less than the dimension");
                columns(fg, n, "facet generators").check_rank(fg.len(), "facet generators are independent");
                let mut off = false;
                for v in vs {
                    let d = dot(normal.entries(), v);
                    check(!d.less(R(crate::real::RZERO)), "the cone lies on the positive side of every facet");
                    off |= !d.is_zero();
                }
                check(off, "a facet normal is not orthogonal to the whole cone");
                for f in fg.iter() {
                    dot(normal.entries(), f.entries()).same(R(crate::real::RZERO), "a facet is orthogonal to its normal");
                    let mut some = false;
                    for v in vs {
                        let mut all = true;
                        for k in 0..n { all &= f.entries()[k] == v[k]; }
                        some |= all;
                    }
                    check(some, "facet generators are generators of the cone");
                }
            }
            if fs.is_empty() { cover(2); }
            return;
        }
        // every set of n - 1 generators of a full-dimensional cone that spans a supporting
        // hyperplane gives a facet
        if dim != n { assume(false); }
        let mut want = 0;
        let side = |normal: &[R]| {
            let (mut neg, mut pos) = (false, false);
            for v in vs {
                let d = dot(normal, v);
                neg |= d.less(R(crate::real::RZERO));
                pos |= R(crate::real::RZERO).less(d);
            }
            (neg != pos) as usize
        };
        if n == 2 {
            for v in vs { want += side(&[-v[1], v[0]]); }
        } else if n == 3 {
            for i in 0..m { for j in i + 1..m { want += side(&cross(&vs[i], &vs[j])); } }
        } else {
            for i in 0..m { for j in i + 1..m { for k in j + 1..m { want += side(&cross4(&vs[i], &vs[j], &vs[k])); } } }
        }
        check(fs.len() == want, "every supporting hyperplane spanned by generators is reported");
        if want > 0 { cover(1); } else { cover(2); }
    }
    /// lists of generators; entries: small integers, 100 and 101 arbitrary reals, -100 and -101
    /// their negatives
    const FAMILIES: &[&[&[i16]]] = &[
        // 0: over a square, one corner moving
        &[&[1, 0, 1], &[0, 1, 1], &[-1, 0, 1], &[100, -1, 1]],
        // 1: over a pentagon
        &[&[2, 0, 1], &[1, 2, 1], &[-1, 2, 1], &[-2, 0, 1], &[0, 100, 1]],
        // 2: over a square with a fifth point anywhere
        &[&[1, 1, 1], &[-1, 1, 1], &[-1, -1, 1], &[1, -1, 1], &[100, 101, 1]],
        // 3: over a hexagon
        &[&[2, 0, 1], &[1, 2, 1], &[-1, 2, 1], &[-2, 0, 1], &[-1, -2, 1], &[100, -2, 1]],
        // 4: octant and one more ray
        &[&[1, 0, 0], &[0, 1, 0], &[0, 0, 1], &[100, 101, 1]],
        // 5: octant and one more ray the other way
        &[&[1, 0, 0], &[0, 1, 0], &[0, 0, 1], &[100, -1, -1]],
        // 6: wedges with a line
        &[&[1, 0, 0], &[-1, 0, 0], &[0, 1, 0], &[100, 0, 1]],
        // 7: parallel generators
        &[&[1, 0, 0], &[2, 0, 0], &[0, 1, 0], &[0, 100, 0], &[0, 0, 1]],
        // 8: three dimensions inside four
        &[&[1, 0, 0, 1], &[0, 1, 0, 1], &[-1, 0, 0, 1], &[0, 100, 0, 1]],
        // 9: the orthant of dimension four and one more ray
        &[&[1, 0, 0, 0], &[0, 1, 0, 0], &[0, 0, 1, 0], &[0, 0, 0, 1], &[1, 1, -1, 100]],
        // 10: over an octahedron
        &[&[1, 0, 0, 1], &[-1, 0, 0, 1], &[0, 1, 0, 1], &[0, -1, 0, 1], &[0, 0, 1, 1], &[0, 0, 100, 1]],
        // 11: eight rays in the plane
        &[&[1, 0], &[3, 1], &[1, 1], &[1, 3], &[0, 1], &[-1, 3], &[-1, 1], &[100, 1]],
        // 12: the plane of two parameters in space
        &[&[1, 0, 100], &[0, 1, 101], &[1, 1, 5], &[-1, 2, 0]],
    ];
    harnesses! {
        /// `m` arbitrary generators in dimension `n`
        fn h_cone(n, m, part) {
            let (n, m) = (n as usize, m as usize);
            let mut gs: Vec<M> = Vec::with_capacity(4);
            let mut vs: Vec<Vec<R>> = Vec::with_capacity(4);
            for _ in 0..m { let (g, v) = any_mat(n, 1); gs.push(g); vs.push(v); }
            cone(n, &gs, &vs, 0, part);
        }
        /// generators from a list with two real parameters, rotated; pivot searches prefer the
        /// first, the last or alternating candidates
        fn h_cone_family(case, part) {
            let fam = FAMILIES[case as usize];
            let (n, m) = (fam[0].len(), fam.len());
            let par = [R::var(), R::var()];
            let rot = choose(m as u64);
            let pref = 1 + choose(3) as u32;
            let mut gs: Vec<M> = Vec::with_capacity(8);
            let mut vs: Vec<Vec<R>> = Vec::with_capacity(8);
            for k in 0..m {
                let v: Vec<R> = fam[(k + rot) % m].iter().map(|&x| if x >= 100 { par[x as usize - 100] } else if x <= -100 { -par[-x as usize - 100] } else { R::int(x as i64) }).collect();
                gs.push(M::new(n, 1, v.clone()));
                vs.push(v);
            }
            cone(n, &gs, &vs, pref, part);
        }
    }
}
