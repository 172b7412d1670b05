//! Native replay: runs one harness against the real code with the recorded assignment.
//! usage: replay HARNESS ARGS(comma separated or -) INPUTS(comma separated or -)
//! exit: 0 ok, 10 assertion violated, 11 panic, 12 assumption not met, 13 expected panic missing,
//! 14 harness failure reached, 20 the replay itself could not follow (input mismatch, arithmetic range)
use std::cell::RefCell;

/// A field element: its exact value while that fits 128 bits, and always its residue modulo the
/// prime 2^61 - 1. Large values (high powers) are compared by residue: equal elements have equal
/// residues, so a reported difference is real, and an equality of unequal elements would take a
/// coincidence modulo 2^61 - 1.
#[derive(Clone, Copy)]
struct V {
    q: Option<Q>,
    m: u64,
}
const P: u64 = (1 << 61) - 1;
fn mm(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % P as u128) as u64
}
fn inv(a: u64) -> u64 {
    if a == 0 {
        stop(20, "zero denominator in replay arithmetic");
    }
    let (mut r, mut b, mut e) = (1, a, P - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = mm(r, b);
        }
        b = mm(b, b);
        e >>= 1;
    }
    r
}
impl V {
    fn same(self, o: V) -> bool {
        match (self.q, o.q) {
            (Some(a), Some(b)) => a == b,
            _ => self.m == o.m,
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
struct Q {
    n: i128,
    d: i128,
}
fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
impl Q {
    fn new(n: i128, d: i128) -> Q {
        if d == 0 {
            stop(20, "zero denominator in replay arithmetic");
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
        let g = if d < 0 { -g } else { g };
        Q { n: n / g, d: d / g }
    }
    fn of(n: Option<i128>, d: Option<i128>) -> Option<Q> {
        match (n, d) {
            (Some(n), Some(d)) if n != i128::MIN && d != i128::MIN => Some(Q::new(n, d)),
            _ => None,
        }
    }
}
/// decimal text: its residue, and its value when that fits
fn decimal(t: &str) -> Option<(Option<i128>, u64)> {
    let (neg, ds) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    if ds.is_empty() || !ds.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let m = ds.bytes().fold(0, |m, c| (mm(m, 10) + (c - b'0') as u64) % P);
    Some((t.parse().ok(), if neg { (P - m) % P } else { m }))
}

struct St {
    inputs: Vec<String>,
    pos: usize,
    vals: Vec<V>,
    covers: Vec<u32>,
    expect: bool,
}
thread_local! {
    static S: RefCell<St> = const { RefCell::new(St { inputs: vec![], pos: 0, vals: vec![], covers: vec![], expect: false }) };
}
fn stop(code: i32, what: &str) -> ! {
    let mut c = S.with(|s| s.try_borrow().map(|s| s.covers.clone()).unwrap_or_default());
    c.sort_unstable();
    c.dedup();
    println!("RESULT {} {}", code, what);
    println!("COVERS {}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    std::process::exit(code)
}
fn next(kind: char) -> String {
    let r = S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        s.inputs.get(p).cloned()
    });
    match r {
        Some(x) if x.starts_with(kind) => x[1..].to_string(),
        Some(x) => stop(20, &format!("replay input mismatch: wanted {} got {}", kind, x)),
        None => stop(20, "replay inputs exhausted"),
    }
}
fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}

#[no_mangle]
extern "C-unwind" fn vf_int(w: u32) -> u64 {
    let v: u64 = next('i').parse().unwrap();
    if w < 64 {
        v & ((1 << w) - 1)
    } else {
        v
    }
}
#[no_mangle]
extern "C-unwind" fn vf_sint(w: u32) -> u64 {
    let v: u64 = next('i').parse().unwrap();
    let s = 64 - w;
    (((v << s) as i64) >> s) as u64
}
#[no_mangle]
extern "C-unwind" fn vf_choose(n: u32) -> u32 {
    let v: u32 = next('c').parse().unwrap();
    if v >= n {
        stop(20, "choice out of range");
    }
    v
}
#[no_mangle]
extern "C-unwind" fn vf_assume(b: bool) {
    if !b {
        stop(12, "assumption not met");
    }
}
#[no_mangle]
extern "C-unwind" fn vf_assert(b: bool, p: *const u8, n: usize) {
    if !b {
        stop(10, &text(p, n));
    }
}
#[no_mangle]
extern "C-unwind" fn vf_fail(p: *const u8, n: usize) {
    stop(14, &text(p, n));
}
#[no_mangle]
extern "C-unwind" fn vf_cover(id: u32) {
    S.with(|s| s.borrow_mut().covers.push(id));
}
#[no_mangle]
extern "C-unwind" fn vf_expect_panic() {
    S.with(|s| s.borrow_mut().expect = true);
}
#[no_mangle]
extern "C-unwind" fn vf_fuel(_n: u64) {}
#[no_mangle]
extern "C-unwind" fn vf_pin(x: u64) -> u64 {
    x
}
fn put(q: Option<Q>, m: u64) -> u32 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.vals.push(V { q, m });
        s.vals.len() as u32 - 1
    })
}
fn get(h: u32) -> V {
    match S.with(|s| s.borrow().vals.get(h as usize).copied()) {
        Some(q) => q,
        None => stop(20, "bad handle"),
    }
}
/// exact part of a binary operation
fn exact(a: V, b: V, f: impl Fn(Q, Q) -> Option<Q>) -> Option<Q> {
    match (a.q, b.q) {
        (Some(a), Some(b)) => f(a, b),
        _ => None,
    }
}
#[no_mangle]
extern "C-unwind" fn vf_r_var() -> u32 {
    let t = next('r');
    let (n, d) = t.split_once('/').unwrap();
    match (decimal(n), decimal(d)) {
        (Some((n, nm)), Some((d, dm))) => put(Q::of(n, d), mm(nm, inv(dm))),
        _ => stop(20, "bad rational"),
    }
}
#[no_mangle]
extern "C-unwind" fn vf_r_const(n: i64, d: i64) -> u32 {
    let m = |x: i64| x.rem_euclid(P as i64) as u64;
    put(Some(Q::new(n as i128, d as i128)), mm(m(n), inv(m(d))))
}
#[no_mangle]
extern "C-unwind" fn vf_r_add(a: u32, b: u32) -> u32 {
    let (a, b) = (get(a), get(b));
    let q = exact(a, b, |a, b| Q::of(a.n.checked_mul(b.d)?.checked_add(b.n.checked_mul(a.d)?), a.d.checked_mul(b.d)));
    put(q, (a.m + b.m) % P)
}
#[no_mangle]
extern "C-unwind" fn vf_r_sub(a: u32, b: u32) -> u32 {
    let (a, b) = (get(a), get(b));
    let q = exact(a, b, |a, b| Q::of(a.n.checked_mul(b.d)?.checked_sub(b.n.checked_mul(a.d)?), a.d.checked_mul(b.d)));
    put(q, (a.m + P - b.m) % P)
}
#[no_mangle]
extern "C-unwind" fn vf_r_mul(a: u32, b: u32) -> u32 {
    let (a, b) = (get(a), get(b));
    let q = exact(a, b, |a, b| Q::of(a.n.checked_mul(b.n), a.d.checked_mul(b.d)));
    put(q, mm(a.m, b.m))
}
#[no_mangle]
extern "C-unwind" fn vf_r_div(a: u32, b: u32) -> u32 {
    let (a, b) = (get(a), get(b));
    let q = exact(a, b, |a, b| Q::of(a.n.checked_mul(b.d), a.d.checked_mul(b.n)));
    put(q, mm(a.m, inv(b.m)))
}
#[no_mangle]
extern "C-unwind" fn vf_r_neg(a: u32) -> u32 {
    let a = get(a);
    put(a.q.and_then(|a| Q::of(a.n.checked_neg(), Some(a.d))), (P - a.m) % P)
}
#[no_mangle]
extern "C-unwind" fn vf_r_eq(a: u32, b: u32) -> bool {
    get(a).same(get(b))
}
#[no_mangle]
extern "C-unwind" fn vf_r_lt(a: u32, b: u32) -> bool {
    let (a, b) = (get(a), get(b));
    match (a.q, b.q) {
        (Some(a), Some(b)) => match (a.n.checked_mul(b.d), b.n.checked_mul(a.d)) {
            (Some(x), Some(y)) => x < y,
            _ => stop(20, "replay arithmetic out of range"),
        },
        _ => stop(20, "replay arithmetic out of range"),
    }
}
#[no_mangle]
extern "C-unwind" fn vf_r_same(a: u32, b: u32, p: *const u8, n: usize) {
    if !get(a).same(get(b)) {
        stop(10, &text(p, n));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<String> { s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.to_string()).collect() };
    let args: Vec<u64> = list(&a[2]).iter().map(|x| x.parse::<i64>().unwrap() as u64).collect();
    S.with(|s| s.borrow_mut().inputs = list(&a[3]));
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        *m2.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    let name = a[1].clone();
    let r = std::panic::catch_unwind(move || vfh::dispatch(&name, &args));
    let expect = S.with(|s| s.borrow().expect);
    match r {
        Ok(true) => {
            if expect {
                stop(13, "expected a panic, but the call returned")
            }
            stop(0, "ok")
        }
        Ok(false) => stop(20, "no such harness"),
        Err(_) => {
            if expect {
                stop(0, "ok (expected panic)")
            }
            stop(11, &format!("panic: {}", msg.lock().unwrap()))
        }
    }
}
