//! Path-based symbolic executor over rustc's LLVM IR (a small KLEE).
//! Every path is explored; a branch whose two sides are both satisfiable forks the state.
use crate::expr::{mask, sx, Model, Op as X, Pool, Rat, E, MV, REAL, W};
use crate::ir::{Bk, Callee, Ck, Func, Inst, Module, Op, Ty};
use crate::smt::{Res, Smt};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, (E, u16)>, // byte offset -> (expression, byte index in it)
    pub ro: bool,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    b: usize,
    ip: usize,
    regs: Vec<Val>,
    dst: Option<usize>,
    normal: Option<usize>,
    allocas: Vec<u64>,
}

pub struct ModelCell {
    pub m: Model,
    memo: RefCell<HashMap<E, Option<MV>>>,
}

#[derive(Clone, Debug)]
pub enum Inp {
    Int(E),       // symbolic bit-vector input
    Choose(u64),  // decided by forking
    Real(E),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    pc: Vec<E>,
    known: HashSet<E>,
    kval: HashMap<E, u128>,
    model: Option<Rc<ModelCell>>,
    inputs: Vec<Inp>,
    covers: BTreeSet<u32>,
    expect_panic: bool,
    fuel: u64,
    fuel_set: bool,
    next: u64,
    nvars: usize,
    pending: Option<u64>,
    pub steps: u64,
    pub hunk: bool,
}

pub enum Stop {
    End(End),
    Unsup(String),
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Infeasible,
    Panic(String),
    ExpectedPanic,
    Fail(String),
    Fuel,
}

type R<T> = Result<T, Stop>;

#[derive(Debug, Clone)]
pub struct Viol {
    pub kind: String,
    pub what: String,
    pub inputs: Vec<String>,
    pub covers: Vec<u32>,
    pub algebraic: bool,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub assumed_out: u64,
    pub exp_panics: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub identities: u64,
    pub identities_confirmed: u64,
    pub covers: BTreeMap<u32, u64>,
    pub viols: Vec<Viol>,
    pub witnesses: Vec<Viol>,
    pub unsup: Vec<String>,
    pub funcs: BTreeMap<String, u64>,
    pub timeout: bool,
    pub max_steps: u64,
    pub unknown_asserts: u64,
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Smt,
    pub work: Vec<State>,
    pub rep: Report,
    pub consts: HashMap<u64, Rc<Obj>>,
    pub deadline: Instant,
    pub max_viol: usize,
    /// how long to go on after the first counterexample
    pub after_viol: Option<std::time::Duration>,
    pub path_fuel: u64,
    pub max_wit: usize,
    pub seen_viol: HashSet<String>,
    pub cross_every: u64,
    cores: HashMap<E, Vec<Vec<E>>>,
    pub cross_bad: Vec<String>,
    tv: E,
    fv: E,
}

fn bytes_of(w: u16) -> u64 {
    (w as u64 + 7) / 8
}

impl Exec {
    pub fn new(m: Module, s: Smt, deadline: Instant) -> Exec {
        let mut p = Pool::new();
        let tv = p.tru();
        let fv = p.fls();
        Exec {
            m,
            p,
            s,
            work: vec![],
            rep: Report::default(),
            consts: HashMap::new(),
            deadline,
            max_viol: 4,
            after_viol: None,
            path_fuel: 20_000_000,
            max_wit: 6,
            seen_viol: HashSet::new(),
            cross_every: 0,
            cores: HashMap::new(),
            cross_bad: vec![],
            tv,
            fv,
        }
    }

    // ------------------------------------------------------------ values
    fn e(&mut self, v: &Val, w: W) -> R<E> {
        match v {
            Val::C(k) => Ok(self.p.cst(w, *k)),
            Val::S(e) => {
                if self.p.w(*e) != w {
                    return Err(Stop::Unsup(format!("width mismatch {} vs {}", self.p.w(*e), w)));
                }
                Ok(*e)
            }
            Val::Agg(_) => Err(Stop::Unsup("aggregate where scalar expected".into())),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.p.get_const(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(ts, _) => Val::Agg(Rc::new(ts.iter().map(Self::zero).collect())),
            Ty::Arr(n, t) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Vec(n, t) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r].clone(),
            Op::K(v) => v.clone(),
        }
    }

    // ------------------------------------------------------------ solver interface
    fn slice(&mut self, st: &State, extra: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for e in extra {
            vars.extend(self.p.deps(*e).iter());
        }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let d = self.p.deps(*c);
                if d.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in d.iter() {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.extend_from_slice(extra);
        out
    }
    fn merge(&self, st: &State, m: Model) -> Option<Rc<ModelCell>> {
        if m.contains_key(&u32::MAX) {
            return None;
        }
        let mut n = match &st.model {
            Some(o) => o.m.clone(),
            None => {
                if !st.pc.is_empty() {
                    return None;
                }
                Model::new()
            }
        };
        for (k, v) in m {
            n.insert(k, v);
        }
        Some(Rc::new(ModelCell { m: n, memo: RefCell::new(HashMap::new()) }))
    }
    /// unsatisfiable already, by conditions known on this path?
    fn core_hit(&mut self, st: &State, c: E) -> bool {
        if let Some(l) = self.cores.get(&c) {
            if l.iter().any(|k| k.iter().all(|e| *e == c || st.known.contains(e))) {
                self.s.stats.core_hits += 1;
                if self.s.stats.core_hits % 256 == 0 {
                    // reuse is re-decided now and then
                    if let Res::Sat(_) = self.solve_full(st, c) {
                        self.cross_bad.push("a reused unsatisfiable core".into());
                        return false;
                    }
                    self.s.last_core = None;
                }
                return true;
            }
        }
        false
    }
    /// a sample of the comparisons that the normal form of real terms settled, put to the solver as they were written
    pub fn confirm_identities(&mut self) {
        let ids = std::mem::take(&mut self.p.identities);
        self.rep.identities = ids.len() as u64;
        let t0 = Instant::now();
        let fb = self.s.fallback_cmd.take();
        let unknown = self.s.stats.unknown;
        let step = (ids.len() / 40).max(1);
        for (a, b) in ids.into_iter().step_by(step) {
            if t0.elapsed().as_secs() >= 4 {
                break;
            }
            let c = self.p.req_raw(a, b);
            if self.p.get_const(c) == Some(1) {
                continue;
            }
            let nc = self.p.not(c);
            match self.s.check_raw(&self.p, &[nc], "", 500) {
                Res::Unsat => self.rep.identities_confirmed += 1,
                Res::Sat(_) => self.cross_bad.push("an identity of real terms".into()),
                Res::Unknown(_) => {}
            }
        }
        self.s.fallback_cmd = fb;
        self.s.stats.unknown = unknown;
    }
    fn core_store(&mut self, c: E, r: &Res) {
        if let (Res::Unsat, Some(k)) = (r, self.s.last_core.take()) {
            self.cores.entry(c).or_default().push(k);
        }
    }
    fn solve(&mut self, st: &State, c: E) -> Res {
        if self.core_hit(st, c) {
            return Res::Unsat;
        }
        let r = self.solve_full(st, c);
        self.core_store(c, &r);
        r
    }
    fn solve_full(&mut self, st: &State, c: E) -> Res {
        let q = if st.model.is_none() {
            let mut q = st.pc.clone();
            q.push(c);
            q
        } else {
            self.slice(st, &[c])
        };
        self.s.check(&self.p, &q)
    }
    fn evalm(&self, st: &State, e: E) -> Option<MV> {
        let m = st.model.as_ref()?;
        self.p.eval(e, &m.m, &mut m.memo.borrow_mut())
    }
    fn add(&mut self, st: &mut State, c: E, to_pc: bool) {
        let n = *self.p.n(c);
        if n.op == X::Const {
            return;
        }
        if !st.known.insert(c) {
            return;
        }
        match n.op {
            X::And => {
                self.add(st, n.a, to_pc);
                self.add(st, n.b, to_pc);
                return;
            }
            X::Xor if self.p.get_const(n.b) == Some(1) => {
                let i = *self.p.n(n.a);
                if i.op == X::Or {
                    let (x, y) = (self.p.not(i.a), self.p.not(i.b));
                    self.add(st, x, to_pc);
                    self.add(st, y, to_pc);
                    return;
                }
            }
            X::Eq => {
                if let Some(k) = self.p.get_const(n.b) {
                    st.kval.insert(n.a, k);
                } else if let Some(k) = self.p.get_const(n.a) {
                    st.kval.insert(n.b, k);
                }
            }
            _ => {}
        }
        if to_pc {
            st.pc.push(c);
        }
    }
    fn full_model(&mut self, st: &mut State) -> bool {
        if st.model.is_some() {
            return true;
        }
        let pc = st.pc.clone();
        if let Res::Sat(m) = self.s.check(&self.p, &pc) {
            if !m.contains_key(&u32::MAX) {
                st.model = Some(Rc::new(ModelCell { m, memo: RefCell::new(HashMap::new()) }));
                return true;
            }
        }
        false
    }

    /// decides a condition on this path, forking when both outcomes are possible
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.p.get_const(c) {
            return Ok(k == 1);
        }
        if st.known.contains(&c) {
            return Ok(true);
        }
        let nc = self.p.not(c);
        if st.known.contains(&nc) {
            return Ok(false);
        }
        let side = match self.evalm(st, c) {
            Some(MV::B(k)) => k == 1,
            _ => match self.solve(st, c) {
                Res::Sat(m) => {
                    st.model = if st.model.is_some() { self.merge(st, m) } else if m.contains_key(&u32::MAX) { None } else { Some(Rc::new(ModelCell { m, memo: RefCell::new(HashMap::new()) })) };
                    true
                }
                Res::Unsat => {
                    // the other side must hold (or the path is infeasible, which later queries would show)
                    match self.solve(st, nc) {
                        Res::Unsat => return Err(Stop::End(End::Infeasible)),
                        Res::Sat(m) => {
                            st.model = if st.model.is_some() { self.merge(st, m) } else if m.contains_key(&u32::MAX) { None } else { Some(Rc::new(ModelCell { m, memo: RefCell::new(HashMap::new()) })) };
                        }
                        Res::Unknown(_) => {}
                    }
                    self.add(st, nc, false);
                    return Ok(false);
                }
                Res::Unknown(_) => {
                    st.model = None;
                    true
                }
            },
        };
        let (lit, other) = if side { (c, nc) } else { (nc, c) };
        match self.solve(st, other) {
            Res::Unsat => {
                self.add(st, lit, false);
            }
            r => {
                let mut s2 = st.clone();
                s2.model = match r {
                    Res::Sat(m) => {
                        if st.model.is_some() {
                            self.merge(st, m)
                        } else if m.contains_key(&u32::MAX) {
                            None
                        } else {
                            Some(Rc::new(ModelCell { m, memo: RefCell::new(HashMap::new()) }))
                        }
                    }
                    _ => None,
                };
                self.add(&mut s2, other, true);
                self.rep.forks += 1;
                self.work.push(s2);
                self.add(st, lit, true);
            }
        }
        Ok(side)
    }
    /// makes an expression concrete by forking over its feasible values
    /// does `c` hold for every input of this path? (no fork; "don't know" counts as no)
    fn must(&mut self, st: &mut State, c: E) -> bool {
        match self.p.get_const(c) {
            Some(k) => return k == 1,
            None if st.known.contains(&c) => return true,
            _ => {}
        }
        if let Some(MV::B(0)) = self.evalm(st, c) {
            return false;
        }
        let nc = self.p.not(c);
        if let Res::Unsat = self.solve(st, nc) {
            self.add(st, c, false);
            return true;
        }
        false
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: W) -> R<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            Val::Agg(_) => return Err(Stop::Unsup("concretize aggregate".into())),
        };
        let _ = w;
        loop {
            if let Some(&k) = st.kval.get(&e) {
                return Ok(k);
            }
            if !self.full_model(st) {
                return Err(Stop::Unsup("no model to concretise a value".into()));
            }
            let k = match self.evalm(st, e) {
                Some(MV::B(k)) => k,
                _ => return Err(Stop::Unsup("cannot evaluate a value to concretise".into())),
            };
            let kc = self.p.cst(self.p.w(e), k);
            let c = self.p.eq(e, kc);
            if self.decide(st, c)? {
                st.kval.insert(e, k);
                return Ok(k);
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let base = (st.next + al - 1) / al * al;
        st.next = base + size + 32;
        st.mem.insert(
            base,
            Rc::new(Obj { base, size, align, data: vec![0; size as usize], sym: BTreeMap::new(), ro: false, heap }),
        );
        base
    }
    fn find(&mut self, st: &mut State, addr: u64) -> R<Rc<Obj>> {
        if addr >= 0x4000_0000 {
            if let Some((_, o)) = st.mem.range(..=addr).next_back() {
                if addr <= o.base + o.size {
                    return Ok(o.clone());
                }
            }
            return Err(Stop::Unsup(format!("memory error: access to {:#x}", addr)));
        }
        if let Some(gi) = self.m.global_at(addr) {
            let base = self.m.globals[gi].addr;
            if let Some(o) = st.mem.get(&base) {
                return Ok(o.clone());
            }
            if let Some(o) = self.consts.get(&base) {
                return Ok(o.clone());
            }
            let data = self.m.global_bytes(gi);
            let ro = self.m.globals[gi].constant;
            let o = Rc::new(Obj { base, size: data.len() as u64, align: 16, data, sym: BTreeMap::new(), ro, heap: false });
            self.consts.insert(base, o.clone());
            return Ok(o);
        }
        Err(Stop::Unsup(format!("memory error: access to {:#x}", addr)))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, len: u64) -> R<&'a mut Obj> {
        let o = self.find(st, addr)?;
        if addr + len > o.base + o.size {
            return Err(Stop::Unsup(format!("memory error: out-of-bounds write at {:#x}+{}", addr, len)));
        }
        if o.ro {
            return Err(Stop::Unsup("memory error: write to constant".into()));
        }
        let base = o.base;
        drop(o);
        if !st.mem.contains_key(&base) {
            let c = self.consts.get(&base).unwrap().as_ref().clone();
            st.mem.insert(base, Rc::new(c));
        }
        Ok(Rc::make_mut(st.mem.get_mut(&base).unwrap()))
    }
    fn read_scalar(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        let n = match ty {
            Ty::Int(w) => bytes_of(*w),
            _ => ty.size(),
        };
        let o = self.find(st, addr)?;
        if addr + n > o.base + o.size {
            return Err(Stop::Unsup(format!("memory error: out-of-bounds read at {:#x}+{} (object {:#x} size {})", addr, n, o.base, o.size)));
        }
        let off = (addr - o.base) as u32;
        let w = ty.bits();
        let any = !o.sym.is_empty() && o.sym.range(off..off + n as u32).next().is_some();
        if !any {
            let mut k = 0u128;
            for i in (0..n as usize).rev() {
                k = (k << 8) | o.data[off as usize + i] as u128;
            }
            return Ok(Val::C(k & mask(w)));
        }
        let e = self.read_sym(&o, off, n as u32);
        let e = if self.p.w(e) != w { self.p.extract(e, 0, w) } else { e };
        Ok(self.v(e))
    }
    fn read_sym(&mut self, o: &Obj, off: u32, n: u32) -> E {
        // whole expression?
        if let Some(&(e, 0)) = o.sym.get(&off) {
            if self.p.w(e) as u32 == n * 8 && (0..n).all(|i| o.sym.get(&(off + i)) == Some(&(e, i as u16))) {
                return e;
            }
        }
        let mut i = 0;
        let mut acc: Option<E> = None;
        while i < n {
            let (piece, len) = match o.sym.get(&(off + i)) {
                Some(&(e, k)) => {
                    let mut l = 1;
                    while i + l < n && o.sym.get(&(off + i + l)) == Some(&(e, k + l as u16)) {
                        l += 1;
                    }
                    (self.p.extract(e, k * 8, (l * 8) as W), l)
                }
                None => {
                    let mut l = 0;
                    let mut k = 0u128;
                    while i + l < n && !o.sym.contains_key(&(off + i + l)) {
                        k |= (o.data[(off + i + l) as usize] as u128) << (8 * l);
                        l += 1;
                    }
                    (self.p.cst((l * 8) as W, k), l)
                }
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => self.p.concat(piece, a),
            });
            i += len;
        }
        acc.unwrap()
    }
    fn read(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(ts, _) => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.read(st, addr + offs[i], t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.read(st, addr + i * t.size(), t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    // packed bits
                    let tot = ty.bits();
                    let x = self.read_scalar(st, addr, &Ty::Int(tot))?;
                    let e = self.e(&x, tot)?;
                    let mut v = vec![];
                    for i in 0..*n as u16 {
                        let b = self.p.extract(e, i * t.bits(), t.bits());
                        v.push(self.v(b));
                    }
                    return Ok(Val::Agg(Rc::new(v)));
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.read(st, addr + i * t.size(), t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => self.read_scalar(st, addr, ty),
        }
    }
    fn write(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Struct(ts, _), Val::Agg(vs)) => {
                let (offs, _) = ty.layout();
                for (i, t) in ts.iter().enumerate() {
                    self.write(st, addr + offs[i], t, &vs[i])?;
                }
                Ok(())
            }
            (Ty::Vec(n, t), Val::Agg(vs)) if t.bits() % 8 != 0 => {
                let mut acc = None;
                for i in 0..*n as usize {
                    let b = self.e(&vs[i], t.bits())?;
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.p.concat(b, a),
                    });
                }
                let x = self.v(acc.unwrap());
                self.write(st, addr, &Ty::Int(ty.bits()), &x)
            }
            (Ty::Arr(_, t), Val::Agg(vs)) | (Ty::Vec(_, t), Val::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.write(st, addr + i as u64 * t.size(), t, x)?;
                }
                Ok(())
            }
            (_, Val::C(k)) => {
                let n = match ty {
                    Ty::Int(w) => bytes_of(*w),
                    _ => ty.size(),
                };
                let o = self.obj_mut(st, addr, n)?;
                let off = (addr - o.base) as usize;
                for i in 0..n as usize {
                    o.data[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
                    if !o.sym.is_empty() {
                        o.sym.remove(&((off + i) as u32));
                    }
                }
                Ok(())
            }
            (_, Val::S(e)) => {
                let mut e = *e;
                let n = match ty {
                    Ty::Int(w) => bytes_of(*w),
                    _ => ty.size(),
                };
                if (self.p.w(e) as u64) < n * 8 {
                    e = self.p.zext(e, (n * 8) as W);
                }
                let o = self.obj_mut(st, addr, n)?;
                let off = (addr - o.base) as usize;
                for i in 0..n as usize {
                    o.sym.insert((off + i) as u32, (e, i as u16));
                }
                Ok(())
            }
            _ => Err(Stop::Unsup("store of mismatched value".into())),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.find(st, src)?;
        if src + n > o.base + o.size {
            return Err(Stop::Unsup(format!("memory error: out-of-bounds copy from {:#x}+{}", src, n)));
        }
        let so = (src - o.base) as usize;
        let data = o.data[so..so + n as usize].to_vec();
        let syms: Vec<(u32, (E, u16))> = o.sym.range(so as u32..(so + n as usize) as u32).map(|(k, v)| (*k - so as u32, *v)).collect();
        drop(o);
        let d = self.obj_mut(st, dst, n)?;
        let off = (dst - d.base) as usize;
        d.data[off..off + n as usize].copy_from_slice(&data);
        if !d.sym.is_empty() {
            let ks: Vec<u32> = d.sym.range(off as u32..(off + n as usize) as u32).map(|x| *x.0).collect();
            for k in ks {
                d.sym.remove(&k);
            }
        }
        for (k, v) in syms {
            d.sym.insert(k + off as u32, v);
        }
        Ok(())
    }
    fn byte(&mut self, st: &mut State, a: u64) -> R<E> {
        let v = self.read_scalar(st, a, &Ty::Int(8))?;
        self.e(&v, 8)
    }
    fn cstr(&mut self, st: &mut State, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n {
            match self.read_scalar(st, a + i, &Ty::Int(8)) {
                Ok(Val::C(k)) => v.push(k as u8),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, entry: &str, args: &[u64]) {
        let f = match self.m.func(entry) {
            Some(f) => f,
            None => {
                self.rep.unsup.push(format!("no function {}", entry));
                return;
            }
        };
        if f.params.len() != args.len() {
            self.rep.unsup.push(format!("{} takes {} arguments, {} given", entry, f.params.len(), args.len()));
            return;
        }
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, a) in args.iter().enumerate() {
            regs[f.params[i]] = Val::C(*a as u128);
        }
        *self.rep.funcs.entry(entry.to_string()).or_insert(0) += 1;
        let st = State {
            frames: vec![Frame { f, b: 0, ip: 0, regs, dst: None, normal: None, allocas: vec![] }],
            mem: BTreeMap::new(),
            pc: vec![],
            known: HashSet::new(),
            kval: HashMap::new(),
            model: Some(Rc::new(ModelCell { m: Model::new(), memo: RefCell::new(HashMap::new()) })),
            inputs: vec![],
            covers: BTreeSet::new(),
            expect_panic: false,
            fuel: self.path_fuel,
            fuel_set: false,
            next: 0x4000_0000,
            nvars: 0,
            pending: None,
            steps: 0,
            hunk: false,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline {
                self.rep.timeout = true;
                return;
            }
            let r = self.path(&mut st);
            self.rep.steps += st.steps;
            if st.steps > self.rep.max_steps {
                self.rep.max_steps = st.steps;
            }
            match r {
                Stop::Unsup(s) => {
                    if s == "timeout" {
                        self.rep.timeout = true;
                        return;
                    }
                    let w = st.frames.iter().rev().take(4).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < ");
                    let full = format!("{} in {}", s, w);
                    if !self.rep.unsup.contains(&full) {
                        self.rep.unsup.push(full);
                    }
                    if self.rep.unsup.len() > 5 {
                        return;
                    }
                }
                Stop::End(e) => {
                    self.rep.paths += 1;
                    match e {
                        End::Done | End::ExpectedPanic => {
                            if let End::Done = e {
                                self.rep.done += 1
                            } else {
                                self.rep.exp_panics += 1
                            }
                            let newcov = st.covers.iter().any(|c| !self.rep.covers.contains_key(c));
                            for c in &st.covers {
                                *self.rep.covers.entry(*c).or_insert(0) += 1;
                            }
                            let n = self.rep.done + self.rep.exp_panics;
                            // a spread of paths becomes native witnesses: new covers, and 1st, 2nd, 4th, 8th ...
                            if newcov || n.is_power_of_two() {
                                if let Some(v) = self.witness(&mut st, "witness", "", None) {
                                    self.rep.witnesses.push(v);
                                    if self.rep.witnesses.len() > 40 {
                                        self.rep.witnesses.remove(7);
                                    }
                                }
                            }
                        }
                        End::Infeasible => self.rep.infeasible += 1,
                        End::Panic(s) => self.violation(&mut st, "panic", &s, None),
                        End::Fail(s) => self.violation(&mut st, "fail", &s, None),
                        End::Fuel => {
                            if st.fuel_set {
                                self.violation(&mut st, "nonterm", "does not terminate within the step budget", None)
                            } else {
                                self.rep.unsup.push("path step limit".into())
                            }
                        }
                    }
                    if self.rep.viols.len() >= self.max_viol {
                        return;
                    }
                }
            }
        }
    }

    fn inputs(&self, st: &State, m: &ModelCell) -> Vec<String> {
        st.inputs
            .iter()
            .map(|i| match i {
                Inp::Choose(k) => format!("c{}", k),
                Inp::Int(e) => match self.p.eval(*e, &m.m, &mut m.memo.borrow_mut()) {
                    Some(MV::B(k)) => format!("i{}", k),
                    _ => "i0".into(),
                },
                Inp::Real(e) => match self.p.eval(*e, &m.m, &mut m.memo.borrow_mut()) {
                    Some(MV::R(r)) => format!("r{}/{}", r.n, r.d),
                    _ => "r0/1".into(),
                },
            })
            .collect()
    }
    /// concrete inputs that follow this path (and make `extra` true)
    fn witness(&mut self, st: &mut State, kind: &str, what: &str, extra: Option<E>) -> Option<Viol> {
        let covers: Vec<u32> = st.covers.iter().copied().collect();
        let mk = |inputs: Vec<String>, algebraic: bool| Viol { kind: kind.into(), what: what.into(), inputs, covers: covers.clone(), algebraic };
        if extra.is_none() && st.model.is_some() && kind == "witness" {
            let m = st.model.clone().unwrap();
            return Some(mk(self.inputs(st, &m), false));
        }
        let mut q = st.pc.clone();
        q.extend(extra);
        // prefer small numbers for real inputs: they replay exactly in 128-bit rationals
        let mut reals: Vec<u32> = vec![];
        for c in &q {
            for v in self.p.deps(*c).iter() {
                if self.p.vars[*v as usize].w == REAL {
                    reals.push(*v)
                }
            }
        }
        reals.sort_unstable();
        reals.dedup();
        if !reals.is_empty() {
            for (lim, den) in [(4, 1), (12, 1), (24, 2)] {
                let mut x = String::new();
                for v in &reals {
                    x.push_str("(assert (or");
                    for k in -lim..=lim {
                        let a = i32::abs(k);
                        let num = if k < 0 { format!("(- {}.0)", a) } else { format!("{}.0", a) };
                        if den == 1 {
                            x.push_str(&format!(" (= v{} {})", v, num));
                        } else {
                            x.push_str(&format!(" (= v{} (/ {} {}.0))", v, num, den));
                        }
                    }
                    x.push_str("))\n");
                }
                if let Res::Sat(m) = self.s.check_raw(&self.p, &q, &x, 4000) {
                    if !m.contains_key(&u32::MAX) {
                        let m = ModelCell { m, memo: RefCell::new(HashMap::new()) };
                        return Some(mk(self.inputs(st, &m), false));
                    }
                }
            }
        }
        match self.s.check_raw(&self.p, &q, "", self.s.timeout_ms * 2) {
            Res::Sat(m) => {
                let alg = m.contains_key(&u32::MAX);
                let m = ModelCell { m, memo: RefCell::new(HashMap::new()) };
                Some(mk(self.inputs(st, &m), alg))
            }
            Res::Unsat => None,
            Res::Unknown(u) => {
                self.rep.unsup.push(format!("solver gave no answer ({}) for: {}", u, what));
                None
            }
        }
    }
    fn violation(&mut self, st: &mut State, kind: &str, what: &str, extra: Option<E>) {
        let key = format!("{}:{}", kind, what);
        if self.seen_viol.contains(&key) && self.rep.viols.iter().filter(|v| v.kind == kind && v.what == what).count() >= 2 {
            return;
        }
        if let Some(v) = self.witness(st, kind, what, extra) {
            self.seen_viol.insert(key);
            self.rep.viols.push(v);
            // one counterexample is enough for a verdict: look for others only briefly
            if let Some(d) = self.after_viol {
                self.deadline = self.deadline.min(Instant::now() + d);
                self.s.timeout_ms = self.s.timeout_ms.min(5000);
            }
        }
    }
    /// the assertion: a violation when its negation is satisfiable on this path
    fn assert(&mut self, st: &mut State, c: E, what: &str) -> R<()> {
        self.rep.asserts += 1;
        if self.p.get_const(c) == Some(1) || st.known.contains(&c) {
            return Ok(());
        }
        if self.p.get_const(c) == Some(0) {
            return Err(Stop::End(End::Fail(what.to_string())));
        }
        let nc = self.p.not(c);
        self.rep.asserts_solver += 1;
        if self.core_hit(st, nc) {
            self.add(st, c, false);
            return Ok(());
        }
        let q = if st.model.is_none() {
            let mut q = st.pc.clone();
            q.push(nc);
            q
        } else {
            self.slice(st, &[nc])
        };
        let t = self.s.timeout_ms;
        self.s.timeout_ms = t * 3;
        let r = self.s.check(&self.p, &q);
        self.s.timeout_ms = t;
        self.core_store(nc, &r);
        match r {
            Res::Unsat => {
                if self.cross_every > 0 && self.rep.asserts_solver % self.cross_every == 0 && self.s.cross_wanted() {
                    if self.s.cross(&self.p, &q) == Some(true) {
                        self.cross_bad.push(what.to_string());
                    }
                }
                self.add(st, c, false);
                Ok(())
            }
            Res::Sat(_) => {
                self.violation(st, "assert", what, Some(nc));
                // continue on the side where it holds, if there is one
                match self.solve(st, c) {
                    Res::Unsat => Err(Stop::End(End::Infeasible)),
                    Res::Sat(m) => {
                        st.model = self.merge(st, m);
                        self.add(st, c, true);
                        Ok(())
                    }
                    Res::Unknown(_) => {
                        st.model = None;
                        self.add(st, c, true);
                        Ok(())
                    }
                }
            }
            Res::Unknown(u) => {
                self.rep.unknown_asserts += 1;
                self.rep.unsup.push(format!("solver gave no answer ({}) for assertion: {}", u, what));
                self.add(st, c, true);
                st.model = None;
                Ok(())
            }
        }
    }

    fn path(&mut self, st: &mut State) -> Stop {
        loop {
            st.steps += 1;
            if st.fuel == 0 {
                return Stop::End(End::Fuel);
            }
            st.fuel -= 1;
            if st.steps & 0xfff == 0 && Instant::now() > self.deadline {
                return Stop::Unsup("timeout".into());
            }
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let inst = &f.blocks[fr.b].insts[fr.ip];
            if let Err(s) = self.step(st, inst) {
                return s;
            }
        }
    }
    fn set(&self, st: &mut State, d: usize, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        fr.regs[d] = v;
        fr.ip += 1;
    }
    fn jump(&mut self, st: &mut State, to: usize) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.b;
        let f = fr.f.clone();
        let blk = &f.blocks[to];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let (_, o) = p.inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi in {} block {} from {} inc {:?}", f.name, to, from, p.inc.iter().map(|x| x.0).collect::<Vec<_>>()));
                vals.push(match o {
                    Op::R(r) => fr.regs[*r].clone(),
                    Op::K(v) => v.clone(),
                });
            }
            for (p, v) in blk.phis.iter().zip(vals) {
                fr.regs[p.d] = v;
            }
        }
        fr.b = to;
        fr.ip = 0;
    }

    fn lanes(&self, ty: &Ty, v: &Val) -> R<Vec<Val>> {
        match (ty, v) {
            (Ty::Vec(n, _), Val::Agg(vs)) if vs.len() == *n as usize => Ok(vs.as_ref().clone()),
            (Ty::Vec(n, _), Val::C(0)) => Ok(vec![Val::C(0); *n as usize]),
            _ => Err(Stop::Unsup("vector value".into())),
        }
    }

    fn step(&mut self, st: &mut State, inst: &Inst) -> R<()> {
        match inst {
            Inst::Nop => {
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Bin { k, ty, a, b, d } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.bin(st, *k, ty, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::FNeg { ty, a, d } => {
                let x = self.op(st, a);
                let e = self.e(&x, ty.bits())?;
                let r = self.p.fun(X::FNeg, e);
                let r = self.v(r);
                self.set(st, *d, r);
            }
            Inst::Icmp { p, ty, a, b, d } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.icmp(p, ty, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::Fcmp { p, ty, a, b, d } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.fcmp(p, ty, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::Cast { k, from, to, a, d } => {
                let x = self.op(st, a);
                let r = self.cast(*k, from, to, &x)?;
                self.set(st, *d, r);
            }
            Inst::Load { ty, p, d } => {
                let pv = self.op(st, p);
                let v = match self.table_read(st, &pv, ty)? {
                    Some(v) => v,
                    None => {
                        let a = self.concretize(st, &pv, 64)? as u64;
                        self.read(st, a, ty)?
                    }
                };
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let pv = self.op(st, p);
                let a = self.concretize(st, &pv, 64)? as u64;
                let v = self.op(st, v);
                self.write(st, a, ty, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Gep { base, off, terms, d } => {
                let b = self.op(st, base);
                let mut k = *off as u64;
                let mut sym: Option<E> = None;
                for (o, w, s) in terms {
                    match self.op(st, o) {
                        Val::C(v) => k = k.wrapping_add((sx(v, *w) as i64 as u64).wrapping_mul(*s as u64)),
                        Val::S(e) => {
                            let e = if *w < 64 { self.p.sext(e, 64) } else { self.p.trunc(e, 64) };
                            let sc = self.p.cst(64, *s as u64 as u128);
                            let t = self.p.mul(e, sc);
                            sym = Some(match sym {
                                None => t,
                                Some(x) => self.p.add(x, t),
                            });
                        }
                        _ => return Err(Stop::Unsup("gep index".into())),
                    }
                }
                let r = match (b, sym) {
                    (Val::C(b), None) => Val::C((b as u64).wrapping_add(k) as u128),
                    (b, sym) => {
                        let mut e = self.e(&b, 64)?;
                        let kc = self.p.cst(64, k as u128);
                        e = self.p.add(e, kc);
                        if let Some(s) = sym {
                            e = self.p.add(e, s);
                        }
                        self.v(e)
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Alloca { size, align, d } => {
                let a = self.alloc(st, *size, *align, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, Val::C(a as u128));
            }
            Inst::Br { to } => self.jump(st, *to),
            Inst::CondBr { c, t, f } => {
                let v = self.op(st, c);
                let b = match v {
                    Val::C(k) => k & 1 == 1,
                    v => {
                        let e = self.e(&v, 1)?;
                        self.decide(st, e)?
                    }
                };
                self.jump(st, if b { *t } else { *f });
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = self.op(st, v);
                match x {
                    Val::C(k) => {
                        let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, to);
                    }
                    x => {
                        let e = self.e(&x, ty.bits())?;
                        let mut to = *def;
                        for (k, t) in cases {
                            let kc = self.p.cst(ty.bits(), *k);
                            let c = self.p.eq(e, kc);
                            if self.decide(st, c)? {
                                to = *t;
                                break;
                            }
                        }
                        self.jump(st, to);
                    }
                }
            }
            Inst::Select { cty, ty, c, a, b, d } => {
                let (cv, x, y) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let r = if let Ty::Vec(..) = cty {
                    let (cs, xs, ys) = (self.lanes(cty, &cv)?, self.lanes(ty, &x)?, self.lanes(ty, &y)?);
                    let t = match ty {
                        Ty::Vec(_, t) => t.clone(),
                        _ => return Err(Stop::Unsup("select".into())),
                    };
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        let ce = self.e(&cs[i], 1)?;
                        let (p, q) = (self.e(&xs[i], t.bits())?, self.e(&ys[i], t.bits())?);
                        let z = self.p.ite(ce, p, q);
                        out.push(self.v(z));
                    }
                    Val::Agg(Rc::new(out))
                } else {
                    match cv {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        cv => {
                            let ce = self.e(&cv, 1)?;
                            match (&x, &y) {
                                (Val::Agg(_), _) | (_, Val::Agg(_)) => {
                                    if self.decide(st, ce)? {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                _ => {
                                    let w = ty.bits();
                                    let (p, q) = (self.e(&x, w)?, self.e(&y, w)?);
                                    if p == q {
                                        x
                                    } else if *ty == Ty::Ptr {
                                        if self.decide(st, ce)? {
                                            x
                                        } else {
                                            y
                                        }
                                    } else {
                                        let z = self.p.ite(ce, p, q);
                                        self.v(z)
                                    }
                                }
                            }
                        }
                    }
                };
                self.set(st, *d, r);
            }
            Inst::ExtractValue { agg, idx, d } => {
                let mut v = self.op(st, agg);
                for i in idx {
                    v = match v {
                        Val::Agg(x) => x[*i].clone(),
                        _ => return Err(Stop::Unsup("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue { ty, agg, v, idx, d } => {
                let a = self.op(st, agg);
                let a = if let Val::Agg(_) = a { a } else { Self::zero(ty) };
                let x = self.op(st, v);
                fn ins(a: &Val, x: Val, idx: &[usize]) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    if let Val::Agg(vs) = a {
                        let mut vs = vs.as_ref().clone();
                        vs[idx[0]] = ins(&vs[idx[0]], x, &idx[1..]);
                        Val::Agg(Rc::new(vs))
                    } else {
                        panic!("insertvalue")
                    }
                }
                let r = ins(&a, x, idx);
                self.set(st, *d, r);
            }
            Inst::ExtractElement { ty, v, i, d } => {
                let x = self.op(st, v);
                let xs = self.lanes(ty, &x)?;
                let iv = self.op(st, i);
                let k = self.concretize(st, &iv, 64)? as usize;
                let r = xs.get(k).cloned().unwrap_or(Val::C(0));
                self.set(st, *d, r);
            }
            Inst::InsertElement { ty, v, x, i, d } => {
                let a = self.op(st, v);
                let mut xs = self.lanes(ty, &a)?;
                let iv = self.op(st, i);
                let k = self.concretize(st, &iv, 64)? as usize;
                xs[k] = self.op(st, x);
                self.set(st, *d, Val::Agg(Rc::new(xs)));
            }
            Inst::Shuffle { ty, a, b, m, d } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let mut xs = self.lanes(ty, &x)?;
                xs.extend(self.lanes(ty, &y)?);
                let r = m.iter().map(|i| xs.get(*i as usize).cloned().unwrap_or(Val::C(0))).collect();
                self.set(st, *d, Val::Agg(Rc::new(r)));
            }
            Inst::Copy { a, d } => {
                let x = self.op(st, a);
                self.set(st, *d, x);
            }
            Inst::AtomicRmw { k, ty, p, v, d } => {
                let pv = self.op(st, p);
                let a = self.concretize(st, &pv, 64)? as u64;
                let old = self.read(st, a, ty)?;
                let x = self.op(st, v);
                let w = ty.bits();
                let (oe, xe) = (self.e(&old, w)?, self.e(&x, w)?);
                let n = match k.as_str() {
                    "add" => self.p.add(oe, xe),
                    "sub" => self.p.sub(oe, xe),
                    "xchg" => xe,
                    "or" => self.p.or(oe, xe),
                    "and" => self.p.and(oe, xe),
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", k))),
                };
                let nv = self.v(n);
                self.write(st, a, ty, &nv)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { ty, p, c, n, d } => {
                let pv = self.op(st, p);
                let a = self.concretize(st, &pv, 64)? as u64;
                let old = self.read(st, a, ty)?;
                let cv = self.op(st, c);
                let w = ty.bits();
                let (oe, ce) = (self.e(&old, w)?, self.e(&cv, w)?);
                let q = self.p.eq(oe, ce);
                let same = self.decide(st, q)?;
                if same {
                    let nv = self.op(st, n);
                    self.write(st, a, ty, &nv)?;
                }
                self.set(st, *d, Val::Agg(Rc::new(vec![old, Val::C(same as u128)])));
            }
            Inst::Ret { v } => {
                let r = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.remove(&a);
                }
                if st.frames.is_empty() {
                    // keep a frame for reporting
                    return Err(Stop::End(if st.expect_panic { End::Fail("expected a panic, but the call returned".into()) } else { End::Done }));
                }
                let caller = st.frames.last_mut().unwrap();
                if let (Some(d), Some(v)) = (fr.dst, r) {
                    caller.regs[d] = v;
                }
                match fr.normal {
                    Some(n) => self.jump(st, n),
                    None => caller.ip += 1,
                }
            }
            Inst::Unreachable => return Err(Stop::Unsup("unreachable executed".into())),
            Inst::Unsupported(s) => return Err(Stop::Unsup(format!("instruction {}", s))),
            Inst::Call { callee, ret, args, d, normal } => return self.call(st, callee, ret, args, *d, *normal),
        }
        Ok(())
    }

    /// a symbolic read from a small read-only table becomes an ite chain
    fn table_read(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Option<Val>> {
        let e = match p {
            Val::S(e) => *e,
            _ => return Ok(None),
        };
        if st.kval.contains_key(&e) || matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
            return Ok(None);
        }
        let (lo, hi) = self.p.ur(e);
        if hi - lo > 512 || hi >= 0x4000_0000 {
            return Ok(None);
        }
        let gi = match self.m.global_at(lo as u64) {
            Some(g) => g,
            None => return Ok(None),
        };
        let g = &self.m.globals[gi];
        let n = ty.size();
        if !g.constant || hi as u64 + n > g.addr + g.ty.size() {
            return Ok(None);
        }
        let step = if (hi - lo) as u64 % n == 0 { n } else { 1 };
        let w = ty.bits();
        let mut acc: Option<E> = None;
        let mut a = lo as u64;
        while a <= hi as u64 {
            let v = self.read_scalar(st, a, ty)?;
            let ve = self.e(&v, w)?;
            acc = Some(match acc {
                None => ve,
                Some(x) => {
                    let ac = self.p.cst(64, a as u128);
                    let c = self.p.eq(e, ac);
                    self.p.ite(c, ve, x)
                }
            });
            a += step;
        }
        Ok(acc.map(|x| self.v(x)))
    }

    fn bin(&mut self, st: &mut State, k: Bk, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(_, t) = ty {
            let (xs, ys) = (self.lanes(ty, x)?, self.lanes(ty, y)?);
            let mut out = vec![];
            for i in 0..xs.len() {
                out.push(self.bin(st, k, t, &xs[i], &ys[i])?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let w = ty.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a & mask(w), *b & mask(w));
            let r = match k {
                Bk::Add => Some(a.wrapping_add(b)),
                Bk::Sub => Some(a.wrapping_sub(b)),
                Bk::Mul => Some(a.wrapping_mul(b)),
                Bk::And => Some(a & b),
                Bk::Or => Some(a | b),
                Bk::Xor => Some(a ^ b),
                Bk::UDiv if b != 0 => Some(a / b),
                Bk::URem if b != 0 => Some(a % b),
                Bk::SDiv if b != 0 => Some(sx(a, w).wrapping_div(sx(b, w)) as u128),
                Bk::SRem if b != 0 => Some(sx(a, w).wrapping_rem(sx(b, w)) as u128),
                Bk::Shl => Some(if b >= w as u128 { 0 } else { a << b }),
                Bk::LShr => Some(if b >= w as u128 { 0 } else { a >> b }),
                Bk::AShr => Some((sx(a, w) >> b.min(w as u128 - 1)) as u128),
                Bk::FAdd | Bk::FSub | Bk::FMul | Bk::FDiv | Bk::FRem => {
                    if *ty == Ty::F64 {
                        let (p, q) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                        Some(
                            match k {
                                Bk::FAdd => p + q,
                                Bk::FSub => p - q,
                                Bk::FMul => p * q,
                                Bk::FDiv => p / q,
                                _ => p % q,
                            }
                            .to_bits() as u128,
                        )
                    } else {
                        let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        Some(
                            match k {
                                Bk::FAdd => p + q,
                                Bk::FSub => p - q,
                                Bk::FMul => p * q,
                                Bk::FDiv => p / q,
                                _ => p % q,
                            }
                            .to_bits() as u128,
                        )
                    }
                }
                _ => None,
            };
            return match r {
                Some(r) => Ok(Val::C(r & mask(w))),
                None => Err(Stop::Unsup("division by zero in IR".into())),
            };
        }
        let (a, b) = (self.e(x, w)?, self.e(y, w)?);
        if matches!(k, Bk::UDiv | Bk::URem) && w > 16 {
            // the optimizer turns signed into unsigned division when a branch proved the operands
            // nonnegative: recover the small width from the path condition
            let nb = |r: (i128, i128)| 128 - r.0.unsigned_abs().max(r.1.unsigned_abs()).leading_zeros() as W + 1;
            let (ra, rb) = (self.p.sr(a), self.p.sr(b));
            let n = nb(ra).max(nb(rb)).max(2);
            if (ra.0 < 0 || rb.0 < 0) && n < w / 2 {
                let z = self.p.cst(w, 0);
                let (ca, cb) = (self.p.sle(z, a), self.p.sle(z, b));
                if self.must(st, ca) && self.must(st, cb) {
                    let (xa, xb) = (self.p.extract(a, 0, n), self.p.extract(b, 0, n));
                    let r = if k == Bk::UDiv { self.p.udiv(xa, xb) } else { self.p.urem(xa, xb) };
                    let r = self.p.zext(r, w);
                    return Ok(self.v(r));
                }
            }
        }
        let p = &mut self.p;
        let r = match k {
            Bk::Add => p.add(a, b),
            Bk::Sub => p.sub(a, b),
            Bk::Mul => p.mul(a, b),
            Bk::UDiv => p.udiv(a, b),
            Bk::SDiv => p.sdiv(a, b),
            Bk::URem => p.urem(a, b),
            Bk::SRem => p.srem(a, b),
            Bk::And => p.and(a, b),
            Bk::Or => p.or(a, b),
            Bk::Xor => p.xor(a, b),
            Bk::Shl => p.shl(a, b),
            Bk::LShr => p.lshr(a, b),
            Bk::AShr => p.ashr(a, b),
            Bk::FAdd => p.fop(X::FAdd, a, b),
            Bk::FSub => p.fop(X::FSub, a, b),
            Bk::FMul => p.fop(X::FMul, a, b),
            Bk::FDiv => p.fop(X::FDiv, a, b),
            Bk::FRem => return Err(Stop::Unsup("symbolic frem".into())),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: &str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(_, t) = ty {
            let (xs, ys) = (self.lanes(ty, x)?, self.lanes(ty, y)?);
            let mut out = vec![];
            for i in 0..xs.len() {
                out.push(self.icmp(p, t, &xs[i], &ys[i])?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let w = ty.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a & mask(w), *b & mask(w));
            let (s, t) = (sx(a, w), sx(b, w));
            let r = match p {
                "eq" => a == b,
                "ne" => a != b,
                "ult" => a < b,
                "ule" => a <= b,
                "ugt" => a > b,
                "uge" => a >= b,
                "slt" => s < t,
                "sle" => s <= t,
                "sgt" => s > t,
                _ => s >= t,
            };
            return Ok(Val::C(r as u128));
        }
        let (a, b) = (self.e(x, w)?, self.e(y, w)?);
        let q = &mut self.p;
        let r = match p {
            "eq" => q.eq(a, b),
            "ne" => {
                let z = q.eq(a, b);
                q.not(z)
            }
            "ult" => q.ult(a, b),
            "ule" => q.ule(a, b),
            "ugt" => q.ult(b, a),
            "uge" => q.ule(b, a),
            "slt" => q.slt(a, b),
            "sle" => q.sle(a, b),
            "sgt" => q.slt(b, a),
            _ => q.sle(b, a),
        };
        Ok(self.v(r))
    }
    fn fcmp(&mut self, p: &str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        let w = ty.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = if w == 64 {
                (f64::from_bits(*a as u64), f64::from_bits(*b as u64))
            } else {
                (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
            };
            let un = a.is_nan() || b.is_nan();
            let r = match p {
                "oeq" => a == b,
                "one" => !un && a != b,
                "olt" => a < b,
                "ole" => a <= b,
                "ogt" => a > b,
                "oge" => a >= b,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || a == b,
                "une" => un || a != b,
                "ult" => un || a < b,
                "ule" => un || a <= b,
                "ugt" => un || a > b,
                "uge" => un || a >= b,
                "true" => true,
                _ => false,
            };
            return Ok(Val::C(r as u128));
        }
        let (a, b) = (self.e(x, w)?, self.e(y, w)?);
        let q = &mut self.p;
        let (na, nb) = (q.fisnan(a), q.fisnan(b));
        let un = q.or(na, nb);
        let r = match p {
            "oeq" => q.fcmp(X::FEq, a, b),
            "olt" => q.fcmp(X::FLt, a, b),
            "ole" => q.fcmp(X::FLe, a, b),
            "ogt" => q.fcmp(X::FLt, b, a),
            "oge" => q.fcmp(X::FLe, b, a),
            "ord" => q.not(un),
            "uno" => un,
            "one" => {
                let e = q.fcmp(X::FEq, a, b);
                let o = q.or(e, un);
                q.not(o)
            }
            "ueq" => {
                let e = q.fcmp(X::FEq, a, b);
                q.or(e, un)
            }
            "une" => {
                let e = q.fcmp(X::FEq, a, b);
                q.not(e)
            }
            "ult" => {
                let e = q.fcmp(X::FLt, a, b);
                q.or(e, un)
            }
            "ule" => {
                let e = q.fcmp(X::FLe, a, b);
                q.or(e, un)
            }
            "ugt" => {
                let e = q.fcmp(X::FLt, b, a);
                q.or(e, un)
            }
            "uge" => {
                let e = q.fcmp(X::FLe, b, a);
                q.or(e, un)
            }
            "true" => self.tv,
            _ => self.fv,
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, k: Ck, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
            if k != Ck::BitCast || f.bits() == t.bits() {
                let xs = self.lanes(from, x)?;
                let mut out = vec![];
                for v in xs {
                    out.push(self.cast(k, f, t, &v)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            Ck::BitCast => match (from, to) {
                (Ty::Vec(_, t), _) => {
                    let xs = self.lanes(from, x)?;
                    let mut acc: Option<E> = None;
                    for v in xs {
                        let e = self.e(&v, t.bits())?;
                        acc = Some(match acc {
                            None => e,
                            Some(a) => self.p.concat(e, a),
                        });
                    }
                    let v = self.v(acc.unwrap());
                    if let Ty::Vec(..) = to {
                        return self.cast(Ck::BitCast, &Ty::Int(fw), to, &v);
                    }
                    Ok(v)
                }
                (_, Ty::Vec(n, t)) => {
                    let e = self.e(x, fw)?;
                    let mut out = vec![];
                    for i in 0..*n as u16 {
                        let z = self.p.extract(e, i * t.bits(), t.bits());
                        out.push(self.v(z));
                    }
                    Ok(Val::Agg(Rc::new(out)))
                }
                _ => Ok(x.clone()),
            },
            Ck::Trunc => match x {
                Val::C(c) => Ok(Val::C(c & mask(tw))),
                v => {
                    let e = self.e(v, fw)?;
                    let r = self.p.trunc(e, tw);
                    Ok(self.v(r))
                }
            },
            Ck::ZExt | Ck::PtrToInt | Ck::IntToPtr => match x {
                Val::C(c) => Ok(Val::C(c & mask(fw) & mask(tw))),
                v => {
                    let e = self.e(v, fw)?;
                    let r = if tw >= fw { self.p.zext(e, tw) } else { self.p.trunc(e, tw) };
                    Ok(self.v(r))
                }
            },
            Ck::SExt => match x {
                Val::C(c) => Ok(Val::C(sx(*c, fw) as u128 & mask(tw))),
                v => {
                    let e = self.e(v, fw)?;
                    let r = self.p.sext(e, tw);
                    Ok(self.v(r))
                }
            },
            Ck::SiToFp | Ck::UiToFp => match x {
                Val::C(c) => {
                    let s = sx(*c, fw);
                    let r = if *to == Ty::F64 {
                        (if k == Ck::SiToFp { s as f64 } else { *c as f64 }).to_bits() as u128
                    } else {
                        (if k == Ck::SiToFp { s as f32 } else { *c as f32 }).to_bits() as u128
                    };
                    Ok(Val::C(r))
                }
                v => {
                    let e = self.e(v, fw)?;
                    let r = self.p.fromint(e, k == Ck::SiToFp, tw);
                    Ok(self.v(r))
                }
            },
            Ck::FpExt => match x {
                Val::C(c) => Ok(Val::C((f32::from_bits(*c as u32) as f64).to_bits() as u128)),
                v => {
                    let e = self.e(v, fw)?;
                    let r = self.p.fcvt(e, tw);
                    Ok(self.v(r))
                }
            },
            Ck::FpTrunc => match x {
                Val::C(c) => Ok(Val::C((f64::from_bits(*c as u64) as f32).to_bits() as u128)),
                v => {
                    let e = self.e(v, fw)?;
                    let r = self.p.fcvt(e, tw);
                    Ok(self.v(r))
                }
            },
            Ck::FpToSi | Ck::FpToUi => match x {
                Val::C(c) => {
                    let f = if *from == Ty::F64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 };
                    Ok(Val::C((f as i128) as u128 & mask(tw)))
                }
                v => {
                    let e = self.e(v, fw)?;
                    let r = self.p.ftoint(e, k == Ck::FpToSi, tw);
                    Ok(self.v(r))
                }
            },
        }
    }

    // ------------------------------------------------------------ calls
    fn ret(&mut self, st: &mut State, d: Option<usize>, normal: Option<usize>, v: Val) -> R<()> {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d] = v;
        }
        match normal {
            Some(n) => self.jump(st, n),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(())
    }
    fn location(&mut self, st: &mut State, vals: &[Val]) -> String {
        for v in vals.iter().rev() {
            if let Val::C(a) = v {
                let a = *a as u64;
                if let Some(gi) = self.m.global_at(a) {
                    if self.m.globals[gi].ty.size() != 24 {
                        continue;
                    }
                    let f = self.read_scalar(st, a, &Ty::Int(64));
                    let n = self.read_scalar(st, a + 8, &Ty::Int(64));
                    let l = self.read_scalar(st, a + 16, &Ty::Int(32));
                    if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l))) = (f, n, l) {
                        if n > 0 && n < 300 && self.m.global_at(f as u64).is_some() {
                            let s = self.cstr(st, f as u64, n as u64);
                            return format!(" at {}:{}", s, l);
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn new_input(&mut self, st: &mut State, w: W) -> R<E> {
        let i = st.nvars;
        st.nvars += 1;
        Ok(self.p.input_var(i, w))
    }
    fn rh(&mut self, st: &mut State, v: &Val) -> R<E> {
        let k = self.concretize(st, v, 32)? as E;
        if k == 0 || k as usize >= self.p.nodes.len() || self.p.w(k) != REAL {
            return Err(Stop::Unsup(format!("invalid real handle {}", k)));
        }
        Ok(k)
    }

    fn call(&mut self, st: &mut State, callee: &Callee, ret: &Ty, args: &[(Ty, Op)], d: Option<usize>, normal: Option<usize>) -> R<()> {
        let vals: Vec<Val> = args.iter().map(|a| self.op(st, &a.1)).collect();
        let name: String = match callee {
            Callee::Name(n) => n.clone(),
            Callee::Ind(o) => {
                let v = self.op(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                match self.m.fbyaddr.get(&a) {
                    Some(n) => n.clone(),
                    None => return Err(Stop::Unsup(format!("call to address {:#x}", a))),
                }
            }
        };
        if name.starts_with("vf_") {
            return self.vf(st, &name, &vals, d, normal);
        }
        if name.contains("4core9panicking") || name.contains("_4core6option13unwrap_failed") || name.contains("_4core6option13expect_failed") || name.contains("_4core6result13unwrap_failed") || name.contains("3std9panicking") || name == "rust_begin_unwind" || name.contains("17rust_begin_unwind") || name.contains("18handle_alloc_error") || name.contains("5alloc7raw_vec12handle_error") || name.contains("17capacity_overflow") {
            if st.expect_panic {
                return Err(Stop::End(End::ExpectedPanic));
            }
            let short = if name.contains("bounds_check") {
                "index out of bounds"
            } else if name.contains("panic_const") {
                let i = name.find("panic_const").unwrap();
                name[i..].rsplit("panic_const_").next().unwrap_or("arithmetic")
            } else if name.contains("unwrap_failed") {
                "unwrap failed"
            } else if name.contains("raw_vec") || name.contains("alloc_error") || name.contains("capacity_overflow") {
                "allocation failure"
            } else {
                "panic"
            };
            let short = short.to_string();
            let loc = self.location(st, &vals);
            return Err(Stop::End(End::Panic(format!("{}{}", short, loc))));
        }
        if let Some(r) = self.intrinsic(st, &name, ret, args, &vals)? {
            return self.ret(st, d, normal, r);
        }
        let f = match self.m.func(&name) {
            Some(f) => f,
            None => return Err(Stop::Unsup(format!("external function {}", name))),
        };
        if st.frames.len() > 400 {
            return Err(Stop::Unsup("call depth".into()));
        }
        *self.rep.funcs.entry(name).or_insert(0) += 1;
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, v) in vals.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i]] = v;
            }
        }
        st.frames.push(Frame { f, b: 0, ip: 0, regs, dst: d, normal, allocas: vec![] });
        Ok(())
    }

    fn vf(&mut self, st: &mut State, name: &str, a: &[Val], d: Option<usize>, normal: Option<usize>) -> R<()> {
        let mut out = Val::C(0);
        match name {
            "vf_int" | "vf_sint" => {
                let w = self.concretize(st, &a[0], 32)? as W;
                let e = self.new_input(st, w)?;
                st.inputs.push(Inp::Int(e));
                let z = if name == "vf_sint" { self.p.sext(e, 64) } else { self.p.zext(e, 64) };
                out = self.v(z);
            }
            "vf_choose" => {
                let n = self.concretize(st, &a[0], 32)? as u64;
                if n == 0 {
                    return Err(Stop::End(End::Infeasible));
                }
                let k = match st.pending.take() {
                    Some(k) => k,
                    None => {
                        for k in (1..n).rev() {
                            let mut s2 = st.clone();
                            s2.pending = Some(k);
                            self.rep.forks += 1;
                            self.work.push(s2);
                        }
                        0
                    }
                };
                st.inputs.push(Inp::Choose(k));
                out = Val::C(k as u128);
            }
            "vf_assume" => {
                let c = self.e(&a[0], 1)?;
                match self.p.get_const(c) {
                    Some(1) => {}
                    Some(_) => {
                        self.rep.assumed_out += 1;
                        return Err(Stop::End(End::Infeasible));
                    }
                    None => {
                        if !st.known.contains(&c) {
                            match self.evalm(st, c) {
                                Some(MV::B(1)) => self.add(st, c, true),
                                _ => match self.solve(st, c) {
                                    Res::Unsat => {
                                        self.rep.assumed_out += 1;
                                        return Err(Stop::End(End::Infeasible));
                                    }
                                    Res::Sat(m) => {
                                        st.model = if st.model.is_some() { self.merge(st, m) } else { None };
                                        self.add(st, c, true);
                                    }
                                    Res::Unknown(_) => {
                                        st.model = None;
                                        self.add(st, c, true);
                                    }
                                },
                            }
                        }
                    }
                }
            }
            "vf_assert" => {
                let c = self.e(&a[0], 1)?;
                let (p, n) = (self.concretize(st, &a[1], 64)?, self.concretize(st, &a[2], 64)?);
                let s = self.cstr(st, p as u64, n as u64);
                self.assert(st, c, &s)?;
            }
            "vf_fail" => {
                let (p, n) = (self.concretize(st, &a[0], 64)?, self.concretize(st, &a[1], 64)?);
                let s = self.cstr(st, p as u64, n as u64);
                return Err(Stop::End(End::Fail(s)));
            }
            "vf_cover" => {
                let k = self.concretize(st, &a[0], 32)? as u32;
                st.covers.insert(k);
            }
            "vf_expect_panic" => st.expect_panic = true,
            "vf_fuel" => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                if n == 0 {
                    st.fuel = self.path_fuel;
                    st.fuel_set = false;
                } else {
                    st.fuel = n;
                    st.fuel_set = true;
                }
            }
            "vf_pin" => out = Val::C(self.concretize(st, &a[0], 64)?),
            "vf_symbolic" => out = Val::C(1),
            "vf_dbg" => {
                let v = match &a[0] {
                    Val::C(k) => format!("{}", k),
                    Val::S(e) => format!("sym#{} {:?}", e, self.p.n(*e)),
                    _ => "agg".into(),
                };
                eprintln!("dbg {}", v);
            }
            "vf_r_var" => {
                let e = self.new_input(st, REAL)?;
                st.inputs.push(Inp::Real(e));
                out = Val::C(e as u128);
            }
            "vf_r_const" => {
                let (n, dd) = (self.concretize(st, &a[0], 64)?, self.concretize(st, &a[1], 64)?);
                let r = Rat::new(n as u64 as i64 as i128, dd as u64 as i64 as i128).ok_or(Stop::Unsup("real constant".into()))?;
                out = Val::C(self.p.rc(r) as u128);
            }
            "vf_r_add" | "vf_r_sub" | "vf_r_mul" => {
                let (x, y) = (self.rh(st, &a[0])?, self.rh(st, &a[1])?);
                let r = match name {
                    "vf_r_add" => self.p.radd(x, y),
                    "vf_r_sub" => self.p.rsub(x, y),
                    _ => self.p.rmul(x, y),
                };
                out = Val::C(r as u128);
            }
            "vf_r_neg" => {
                let x = self.rh(st, &a[0])?;
                out = Val::C(self.p.rneg(x) as u128);
            }
            "vf_r_div" => {
                // the caller has established that the divisor is not zero on this path
                let (x, y) = (self.rh(st, &a[0])?, self.rh(st, &a[1])?);
                out = Val::C(self.p.rdiv(x, y) as u128);
            }
            "vf_r_eq" | "vf_r_lt" => {
                let (x, y) = (self.rh(st, &a[0])?, self.rh(st, &a[1])?);
                let c = if name == "vf_r_eq" { self.p.req(x, y) } else { self.p.rlt(x, y) };
                out = Val::C(self.decide(st, c)? as u128);
            }
            "vf_r_same" => {
                let (x, y) = (self.rh(st, &a[0])?, self.rh(st, &a[1])?);
                let c = self.p.req(x, y);
                let (p, n) = (self.concretize(st, &a[2], 64)?, self.concretize(st, &a[3], 64)?);
                let s = self.cstr(st, p as u64, n as u64);
                self.assert(st, c, &s)?;
            }
            "vf_r_assume_eq" => {
                let (x, y) = (self.rh(st, &a[0])?, self.rh(st, &a[1])?);
                let c = self.p.req(x, y);
                if !self.decide(st, c)? {
                    self.rep.assumed_out += 1;
                    return Err(Stop::End(End::Infeasible));
                }
            }
            _ => return Err(Stop::Unsup(format!("unknown primitive {}", name))),
        }
        self.ret(st, d, normal, out)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(Ty, Op)], a: &[Val]) -> R<Option<Val>> {
        if !name.starts_with("llvm.") {
            return self.libc(st, name, a);
        }
        let n = &name[5..];
        let first_ty = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        // lane-wise integer operations on vectors
        if let Ty::Vec(_, t) = ret {
            let base = n.split('.').next().unwrap_or("");
            if matches!(base, "umin" | "umax" | "smin" | "smax" | "usub" | "uadd" | "abs" | "ctpop") {
                let mut cols = vec![];
                for (i, x) in a.iter().enumerate() {
                    if let Ty::Vec(..) = args[i].0 {
                        cols.push(self.lanes(&args[i].0, x)?);
                    } else {
                        cols.push(vec![x.clone(); 64]);
                    }
                }
                let lanes = if let Ty::Vec(k, _) = ret { *k as usize } else { 0 };
                let mut out = vec![];
                for l in 0..lanes {
                    let av: Vec<Val> = cols.iter().map(|c| c[l].clone()).collect();
                    let at: Vec<(Ty, Op)> = av.iter().map(|v| ((**t).clone(), Op::K(v.clone()))).collect();
                    match self.intrinsic(st, name, t, &at, &av)? {
                        Some(v) => out.push(v),
                        None => return Err(Stop::Unsup(name.into())),
                    }
                }
                return Ok(Some(Val::Agg(Rc::new(out))));
            }
        }
        let w = match ret {
            Ty::Struct(ts, _) => ts[0].bits(),
            Ty::Vec(_, t) => t.bits(),
            t => t.bits(),
        };
        let starts = |s: &str| n.starts_with(s);
        if starts("memcpy") || starts("memmove") {
            let len = self.concretize(st, &a[2], 64)? as u64;
            if len > 0 {
                let (dd, s) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
                self.copy(st, dd, s, len)?;
            }
            return Ok(Some(Val::C(0)));
        }
        if starts("memset") {
            let len = self.concretize(st, &a[2], 64)? as u64;
            let dd = self.concretize(st, &a[0], 64)? as u64;
            for i in 0..len {
                self.write(st, dd + i, &Ty::Int(8), &a[1])?;
            }
            return Ok(Some(Val::C(0)));
        }
        if n.contains(".with.overflow") {
            let (x, y) = (self.e(&a[0], w)?, self.e(&a[1], w)?);
            let signed = n.starts_with('s');
            let w2 = if n.contains("mul") { w * 2 } else { w + 1 };
            if w2 > 128 {
                if let (Val::C(p), Val::C(q)) = (&a[0], &a[1]) {
                    let (r, o) = if signed {
                        let (p, q) = (sx(*p, w), sx(*q, w));
                        let r = if n.contains("mul") { p.checked_mul(q) } else if n.contains("add") { p.checked_add(q) } else { p.checked_sub(q) };
                        match r {
                            Some(r) if sx(r as u128 & mask(w), w) == r => (r as u128 & mask(w), 0),
                            Some(r) => (r as u128 & mask(w), 1),
                            None => return Err(Stop::Unsup("wide overflow".into())),
                        }
                    } else {
                        let r = if n.contains("mul") { p.checked_mul(*q) } else if n.contains("add") { p.checked_add(*q) } else { p.checked_sub(*q) };
                        match r {
                            Some(r) if r & mask(w) == r => (r, 0),
                            _ => return Err(Stop::Unsup("wide overflow".into())),
                        }
                    };
                    return Ok(Some(Val::Agg(Rc::new(vec![Val::C(r), Val::C(o)]))));
                }
                // 128-bit operands: decide overflow from value ranges only
                let (rx, ry) = (self.p.sr(x), self.p.sr(y));
                let ok = if n.contains("mul") {
                    [(rx.0, ry.0), (rx.0, ry.1), (rx.1, ry.0), (rx.1, ry.1)].iter().all(|(p, q)| p.checked_mul(*q).is_some())
                } else if n.contains("add") {
                    rx.0.checked_add(ry.0).is_some() && rx.1.checked_add(ry.1).is_some()
                } else {
                    rx.0.checked_sub(ry.1).is_some() && rx.1.checked_sub(ry.0).is_some()
                };
                if !signed || !ok {
                    if n.contains("mul") {
                        return Err(Stop::Unsup("symbolic 128-bit overflow check".into()));
                    }
                }
                let r = if n.contains("mul") { self.p.mul(x, y) } else if n.contains("add") { self.p.add(x, y) } else { self.p.sub(x, y) };
                let o = if signed && ok {
                    self.fv
                } else if signed {
                    // sign rules
                    let z = self.p.cst(w, 0);
                    let (sx_, sy, sr) = (self.p.slt(x, z), self.p.slt(y, z), self.p.slt(r, z));
                    let same = if n.contains("add") { self.p.eq(sx_, sy) } else { let q = self.p.eq(sx_, sy); self.p.not(q) };
                    let df = self.p.eq(sr, sx_);
                    let df = self.p.not(df);
                    self.p.and(same, df)
                } else if n.contains("add") {
                    self.p.ult(r, x)
                } else {
                    self.p.ult(x, y)
                };
                return Ok(Some(Val::Agg(Rc::new(vec![self.v(r), self.v(o)]))));
            }
            let (xe, ye) = if signed { (self.p.sext(x, w2), self.p.sext(y, w2)) } else { (self.p.zext(x, w2), self.p.zext(y, w2)) };
            let (r, o) = if n.starts_with("usub") {
                (self.p.sub(x, y), self.p.ult(x, y))
            } else {
                let big = if n.contains("mul") {
                    self.p.mul(xe, ye)
                } else if n.contains("add") {
                    self.p.add(xe, ye)
                } else {
                    self.p.sub(xe, ye)
                };
                let r = self.p.trunc(big, w);
                let back = if signed { self.p.sext(r, w2) } else { self.p.zext(r, w2) };
                let same = self.p.eq(back, big);
                (r, self.p.not(same))
            };
            return Ok(Some(Val::Agg(Rc::new(vec![self.v(r), self.v(o)]))));
        }
        let two = |s: &mut Self| -> R<(E, E)> { Ok((s.e(&a[0], w)?, s.e(&a[1], w)?)) };
        let r = if starts("umin.") {
            let (x, y) = two(self)?;
            let c = self.p.ult(x, y);
            self.p.ite(c, x, y)
        } else if starts("umax.") {
            let (x, y) = two(self)?;
            let c = self.p.ult(x, y);
            self.p.ite(c, y, x)
        } else if starts("smin.") {
            let (x, y) = two(self)?;
            let c = self.p.slt(x, y);
            self.p.ite(c, x, y)
        } else if starts("smax.") {
            let (x, y) = two(self)?;
            let c = self.p.slt(x, y);
            self.p.ite(c, y, x)
        } else if starts("usub.sat") {
            let (x, y) = two(self)?;
            let c = self.p.ult(x, y);
            let z = self.p.cst(w, 0);
            let s = self.p.sub(x, y);
            self.p.ite(c, z, s)
        } else if starts("uadd.sat") {
            let (x, y) = two(self)?;
            let s = self.p.add(x, y);
            let c = self.p.ult(s, x);
            let z = self.p.cst(w, mask(w));
            self.p.ite(c, z, s)
        } else if starts("ssub.sat") || starts("sadd.sat") {
            let (x, y) = two(self)?;
            if w > 120 {
                return Err(Stop::Unsup(name.into()));
            }
            let (xe, ye) = (self.p.sext(x, w + 1), self.p.sext(y, w + 1));
            let big = if starts("ssub") { self.p.sub(xe, ye) } else { self.p.add(xe, ye) };
            let (lo, hi) = (self.p.cst(w + 1, (-(1i128 << (w - 1))) as u128), self.p.cst(w + 1, (1u128 << (w - 1)) - 1));
            let (cl, ch) = (self.p.slt(big, lo), self.p.slt(hi, big));
            let t = self.p.ite(ch, hi, big);
            let t = self.p.ite(cl, lo, t);
            self.p.trunc(t, w)
        } else if starts("abs.") {
            let x = self.e(&a[0], w)?;
            let z = self.p.cst(w, 0);
            let c = self.p.slt(x, z);
            let m = self.p.sub(z, x);
            self.p.ite(c, m, x)
        } else if starts("ucmp") || starts("scmp") {
            let wi = first_ty.bits();
            let (x, y) = (self.e(&a[0], wi)?, self.e(&a[1], wi)?);
            let (l, g) = if starts("ucmp") { (self.p.ult(x, y), self.p.ult(y, x)) } else { (self.p.slt(x, y), self.p.slt(y, x)) };
            let (m1, z, one) = (self.p.cst(w, mask(w)), self.p.cst(w, 0), self.p.cst(w, 1));
            let t = self.p.ite(g, one, z);
            self.p.ite(l, m1, t)
        } else if starts("ctpop") {
            let x = self.e(&a[0], w)?;
            let mut acc = self.p.cst(w, 0);
            for i in 0..w {
                let b = self.p.extract(x, i, 1);
                let b = self.p.zext(b, w);
                acc = self.p.add(acc, b);
            }
            acc
        } else if starts("ctlz") || starts("cttz") {
            let x = self.e(&a[0], w)?;
            if let Some(k) = self.p.get_const(x) {
                let r = if k == 0 {
                    w as u32
                } else if starts("ctlz") {
                    k.leading_zeros() - (128 - w as u32)
                } else {
                    k.trailing_zeros()
                };
                return Ok(Some(Val::C(r as u128)));
            }
            let mut acc = self.p.cst(w, w as u128);
            for i in 0..w {
                // last assignment wins: for ctlz go up from bit 0, for cttz down from the top
                let bit = if starts("ctlz") { i } else { w - 1 - i };
                let b = self.p.extract(x, bit, 1);
                let val = if starts("ctlz") { w - 1 - bit } else { bit };
                let vc = self.p.cst(w, val as u128);
                acc = self.p.ite(b, vc, acc);
            }
            acc
        } else if starts("bswap") {
            let x = self.e(&a[0], w)?;
            let nb = w / 8;
            let mut acc = self.p.extract(x, 0, 8);
            for i in 1..nb {
                let b = self.p.extract(x, i * 8, 8);
                acc = self.p.concat(acc, b);
            }
            acc
        } else if starts("bitreverse") {
            let x = self.e(&a[0], w)?;
            let mut acc = self.p.extract(x, 0, 1);
            for i in 1..w {
                let b = self.p.extract(x, i, 1);
                acc = self.p.concat(acc, b);
            }
            acc
        } else if starts("fshl") || starts("fshr") {
            let (x, y) = two(self)?;
            let s = self.concretize(st, &a[2], w)? % w as u128;
            let (l, r) = if starts("fshl") { (s, w as u128 - s) } else { (w as u128 - s, s) };
            if s == 0 {
                if starts("fshl") {
                    x
                } else {
                    y
                }
            } else {
                let (lc, rc) = (self.p.cst(w, l), self.p.cst(w, r));
                let p = self.p.shl(x, lc);
                let q = self.p.lshr(y, rc);
                self.p.or(p, q)
            }
        } else if starts("expect") || starts("threadlocal.address") || starts("launder") || starts("strip.invariant") || starts("ssa.copy") {
            return Ok(Some(a[0].clone()));
        } else if starts("is.constant") {
            return Ok(Some(Val::C(0)));
        } else if starts("load.relative") {
            let (b, o) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
            let v = self.read_scalar(st, b.wrapping_add(o), &Ty::Int(32))?;
            let k = self.concretize(st, &v, 32)?;
            return Ok(Some(Val::C(b.wrapping_add(sx(k, 32) as i64 as u64) as u128)));
        } else if starts("fabs") {
            let x = self.e(&a[0], w)?;
            self.p.fun(X::FAbs, x)
        } else if starts("maximumnum") || starts("minimumnum") || starts("maxnum") || starts("minnum") {
            let (x, y) = (self.e(&a[0], w)?, self.e(&a[1], w)?);
            self.p.fmaxmin(x, y, starts("max"))
        } else if starts("copysign") {
            let (x, y) = (self.e(&a[0], w)?, self.e(&a[1], w)?);
            let (m, sg) = (self.p.cst(w, mask(w - 1)), self.p.cst(w, 1u128 << (w - 1)));
            let (x, y) = (self.p.and(x, m), self.p.and(y, sg));
            self.p.or(x, y)
        } else if starts("sqrt.") {
            let x = self.e(&a[0], w)?;
            self.p.fun(X::FSqrt, x)
        } else if starts("fma.") || starts("fmuladd.") {
            let (x, y, z) = (self.e(&a[0], w)?, self.e(&a[1], w)?, self.e(&a[2], w)?);
            self.p.ffma(x, y, z)
        } else if starts("floor.") || starts("ceil.") || starts("trunc.") || starts("rint.") || starts("nearbyint.") || starts("roundeven.") || starts("round.") {
            let x = self.e(&a[0], w)?;
            let mode = if starts("floor") { 3 } else if starts("ceil") { 2 } else if starts("trunc") { 1 } else if starts("round.") { 4 } else { 0 };
            self.p.fround(x, mode)
        } else if starts("fptosi.sat") || starts("fptoui.sat") {
            // llvm.fptosi.sat.i64.f64: the result width is in the name
            let tw: W = n.split('.').find_map(|x| x.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64);
            let x = self.e(&a[0], first_ty.bits())?;
            self.p.ftoint(x, starts("fptosi"), tw)
        } else if starts("vector.reduce.") {
            let t = match &first_ty {
                Ty::Vec(_, t) => (**t).clone(),
                _ => return Err(Stop::Unsup(name.into())),
            };
            let xs = self.lanes(&first_ty, &a[0])?;
            let mut acc: Option<E> = None;
            for x in xs {
                let e = self.e(&x, t.bits())?;
                acc = Some(match acc {
                    None => e,
                    Some(p) => {
                        if starts("vector.reduce.add") {
                            self.p.add(p, e)
                        } else if starts("vector.reduce.or") {
                            self.p.or(p, e)
                        } else if starts("vector.reduce.and") {
                            self.p.and(p, e)
                        } else if starts("vector.reduce.umax") {
                            let c = self.p.ult(p, e);
                            self.p.ite(c, e, p)
                        } else if starts("vector.reduce.umin") {
                            let c = self.p.ult(p, e);
                            self.p.ite(c, p, e)
                        } else if starts("vector.reduce.mul") {
                            self.p.mul(p, e)
                        } else {
                            return Err(Stop::Unsup(name.into()));
                        }
                    }
                });
            }
            acc.unwrap()
        } else if starts("powi") {
            let k = sx(self.concretize(st, &a[1], 32)?, 32) as i32;
            match &a[0] {
                Val::C(x) => {
                    let r = if w == 64 { f64::from_bits(*x as u64).powi(k).to_bits() as u128 } else { f32::from_bits(*x as u32).powi(k).to_bits() as u128 };
                    return Ok(Some(Val::C(r)));
                }
                v => {
                    // compiler-rt's __powidf2: square-and-multiply, reciprocal last
                    let one = self.p.cst(w, if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 });
                    let mut b = self.e(v, w)?;
                    let mut e = (k as i64).unsigned_abs();
                    let mut r = one;
                    loop {
                        if e & 1 == 1 {
                            r = if r == one { b } else { self.p.fop(X::FMul, r, b) };
                        }
                        e >>= 1;
                        if e == 0 {
                            break;
                        }
                        b = self.p.fop(X::FMul, b, b);
                    }
                    if k < 0 {
                        self.p.fop(X::FDiv, one, r)
                    } else {
                        r
                    }
                }
            }
        } else if starts("trap") {
            return Err(Stop::Unsup("trap".into()));
        } else if starts("x86.sse2.pause") || starts("assume") || starts("prefetch") || starts("stackrestore") || starts("invariant") {
            return Ok(Some(Val::C(0)));
        } else {
            return Err(Stop::Unsup(format!("intrinsic {}", name)));
        };
        Ok(Some(self.v(r)))
    }

    fn libc(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Option<Val>> {
        let r = match name {
            "malloc" => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                if n > 1 << 24 {
                    return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
                }
                Val::C(self.alloc(st, n, 16, true) as u128)
            }
            "calloc" => {
                let (x, y) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
                let n = x.saturating_mul(y);
                if n > 1 << 24 {
                    return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
                }
                Val::C(self.alloc(st, n, 16, true) as u128)
            }
            "posix_memalign" => {
                let (p, al, n) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64, self.concretize(st, &a[2], 64)? as u64);
                if n > 1 << 24 {
                    return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
                }
                let b = self.alloc(st, n, al, true);
                self.write(st, p, &Ty::Ptr, &Val::C(b as u128))?;
                Val::C(0)
            }
            "realloc" => {
                let n = self.concretize(st, &a[1], 64)? as u64;
                let p = self.concretize(st, &a[0], 64)? as u64;
                if n > 1 << 24 {
                    return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
                }
                let b = self.alloc(st, n, 16, true);
                if p != 0 {
                    let o = self.find(st, p)?;
                    let l = o.size.min(n);
                    let base = o.base;
                    drop(o);
                    self.copy(st, b, p, l)?;
                    st.mem.remove(&base);
                }
                Val::C(b as u128)
            }
            "free" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.heap => {
                            st.mem.remove(&p);
                        }
                        _ => return Err(Stop::Unsup(format!("memory error: invalid free of {:#x}", p))),
                    }
                }
                Val::C(0)
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(st, &a[2], 64)? as u64;
                let (p, q) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
                let mut acc = self.p.cst(32, 0);
                for i in (0..n).rev() {
                    let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                    let c = self.p.eq(x, y);
                    let dv = if name == "bcmp" {
                        self.p.cst(32, 1)
                    } else {
                        let l = self.p.ult(x, y);
                        let (m, o) = (self.p.cst(32, mask(32)), self.p.cst(32, 1));
                        self.p.ite(l, m, o)
                    };
                    acc = self.p.ite(c, acc, dv);
                }
                self.v(acc)
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(st, &a[2], 64)? as u64;
                let (p, q) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
                self.copy(st, p, q, n)?;
                Val::C(p as u128)
            }
            "strlen" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let mut i = 0;
                loop {
                    let b = self.read_scalar(st, p + i, &Ty::Int(8))?;
                    if self.concretize(st, &b, 8)? == 0 {
                        break;
                    }
                    i += 1;
                }
                Val::C(i as u128)
            }
            "syscall" => {
                let n = self.concretize(st, &a[0], 64)?;
                if n == 318 {
                    // getrandom: zero bytes
                    let (p, l) = (self.concretize(st, &a[1], 64)? as u64, self.concretize(st, &a[2], 64)? as u64);
                    for i in 0..l {
                        self.write(st, p + i, &Ty::Int(8), &Val::C(0))?;
                    }
                    Val::C(l as u128)
                } else {
                    return Err(Stop::Unsup(format!("syscall {}", n)));
                }
            }
            "getrandom" => {
                let (p, l) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
                for i in 0..l {
                    self.write(st, p + i, &Ty::Int(8), &Val::C(0))?;
                }
                Val::C(l as u128)
            }
            "getenv" => Val::C(0),
            _ => return Ok(None),
        };
        Ok(Some(r))
    }
}
