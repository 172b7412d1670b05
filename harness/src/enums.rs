//! Enumeration utilities of the linear algebra part.
use crate::real::R;
use crate::vf::*;
use algeo::linalg::mat::Mat;
use algeo::linalg::util::{get_box_iter, get_max_index, mat_iterator, num_to_seq};

harnesses! {
    fn h_box(n) {
        let (r, c) = (choose(n + 1), choose(n + 1));
        let mut k = 0;
        for (i, j) in get_box_iter(r, c) {
            check(k < r * c, "no extra index");
            check((i == k / c) & (j == k % c), "indices come in row-major order");
            k += 1;
        }
        check(k == r * c, "every index comes");
        if r * c == 0 { cover(1); } else { cover(2); }
    }
    /// digits of an arbitrary number of `w` bits in an arbitrary base
    fn h_digits(w, bw) {
        let n = uint(w as u32) as usize;
        let base = uint(bw as u32) as usize;
        assume(base >= 2);
        let (mut value, mut place, mut k, mut last) = (0usize, 1usize, 0, 1);
        fuel(2_000_000);
        for d in num_to_seq(n, base) {
            check(d < base, "digits are below the base");
            value += d * place;
            place *= base;
            k += 1;
            last = d;
        }
        check(value == n, "the digits, least significant first, give the number back");
        check(last != 0, "there is no leading zero");
        if n == 0 { cover(1); check(k == 0, "zero has no digits"); } else { cover(2); }
    }
    /// numbers of every magnitude: a prefix from a list followed by `w` arbitrary bits, fixed bases
    fn h_digits_wide(w) {
        let bases: [usize; 12] = [2, 3, 7, 8, 10, 16, 60, 255, 256, 1000, 65536, 4294967311];
        let base = bases[choose(12)];
        let shift = choose(60 - w) as u32;
        let lead = [1usize, 0x2aaaaaaaaaaaaaa, 0xfffffffffffffff][choose(3)] & ((1usize << shift) - 1);
        let n = (lead << w) | uint(w as u32) as usize;
        // the implementation works with the number times the base
        assume(n < usize::MAX / base);
        let (mut value, mut place, mut last) = (0u128, 1u128, 1);
        fuel(2_000_000);
        for d in num_to_seq(n, base) {
            check(d < base, "digits are below the base");
            value = value.wrapping_add((d as u128).wrapping_mul(place));
            place = place.wrapping_mul(base as u128);
            check(place <= (n as u128).wrapping_mul(base as u128), "no more digits than needed");
            last = d;
        }
        check(value == n as u128, "the digits, least significant first, give the number back");
        check(last != 0, "there is no leading zero");
        if shift > 40 { cover(1); }
    }
    /// index of a maximum
    fn h_max_index(n, w) {
        let n = 1 + choose(n);
        let mut v: Vec<i64> = Vec::with_capacity(8);
        for _ in 0..n { v.push(sint(w as u32)); }
        let k = get_max_index(v.iter(), |a, b| a.partial_cmp(b));
        check(k < n, "the index is in range");
        let mut ok = true;
        for i in 0..n { ok &= v[i] <= v[k]; }
        check(ok, "no element is above the one found");
        if n > 1 { cover(1); if k == 0 { cover(2); } }
    }
    /// all matrices over a list of values, each once: for an arbitrary target there is exactly one match
    fn h_mats(r, c, n) {
        let (r, c, n) = (r as usize, c as usize, n as usize);
        let mut vals = Vec::with_capacity(4);
        for _ in 0..n { vals.push(R::var()); }
        let mut target = Vec::with_capacity(8);
        for _ in 0..r * c { target.push(choose(n as u64)); }
        let mut total = 1;
        for _ in 0..r * c { total *= n; }
        let (mut k, mut hits) = (0, 0);
        fuel(3_000_000);
        for m in mat_iterator(r, c, &vals) {
            check(k < total, "no more matrices than combinations of values");
            check((m.rows() == r) & (m.cols() == c) & (m.entries().len() == r * c), "shape of an enumerated matrix");
            let mut eq = true;
            for i in 0..r * c { eq = eq && m.entries()[i].0 == vals[target[i]].0; }
            if eq { hits += 1; }
            k += 1;
        }
        check(k == total, "as many matrices as combinations of values");
        check(hits == 1, "every combination of values comes exactly once");
        cover(1);
    }
}
