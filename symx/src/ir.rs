//! Parser for the subset of textual LLVM IR that rustc emits. Functions are parsed on demand.
use crate::exec::Val;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Other(String),
    Arr(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Rc<Ty>),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            Ty::Struct(..) => self.layout().1,
            Ty::Other(_) => 16,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u16 * t.bits(),
            _ => (self.size() * 8) as u16,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(ts, packed) = self {
            let mut off = 0u64;
            let mut v = vec![];
            for t in ts {
                let a = if *packed { 1 } else { t.align() };
                off = (off + a - 1) / a * a;
                v.push(off);
                off += t.size();
            }
            let a = self.align();
            (v, (off + a - 1) / a * a)
        } else {
            panic!("layout of non-struct")
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(usize),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bk {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ck {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { k: Bk, ty: Ty, a: Op, b: Op, d: usize },
    FNeg { ty: Ty, a: Op, d: usize },
    Icmp { p: String, ty: Ty, a: Op, b: Op, d: usize },
    Fcmp { p: String, ty: Ty, a: Op, b: Op, d: usize },
    Cast { k: Ck, from: Ty, to: Ty, a: Op, d: usize },
    Load { ty: Ty, p: Op, d: usize },
    Store { ty: Ty, v: Op, p: Op },
    Gep { base: Op, off: i64, terms: Vec<(Op, u16, i64)>, d: usize },
    Alloca { size: u64, align: u64, d: usize },
    Br { to: usize },
    CondBr { c: Op, t: usize, f: usize },
    Switch { ty: Ty, v: Op, def: usize, cases: Vec<(u128, usize)> },
    Select { cty: Ty, ty: Ty, c: Op, a: Op, b: Op, d: usize },
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Op)>, d: Option<usize>, normal: Option<usize> },
    ExtractValue { agg: Op, idx: Vec<usize>, d: usize },
    InsertValue { ty: Ty, agg: Op, v: Op, idx: Vec<usize>, d: usize },
    ExtractElement { ty: Ty, v: Op, i: Op, d: usize },
    InsertElement { ty: Ty, v: Op, x: Op, i: Op, d: usize },
    Shuffle { ty: Ty, a: Op, b: Op, m: Vec<i64>, d: usize },
    Ret { v: Option<Op> },
    Unreachable,
    Copy { a: Op, d: usize },
    AtomicRmw { k: String, ty: Ty, p: Op, v: Op, d: usize },
    CmpXchg { ty: Ty, p: Op, c: Op, n: Op, d: usize },
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub d: usize,
    pub ty: Ty,
    pub inc: Vec<(usize, Op)>,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: usize,
    pub params: Vec<usize>,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub line: usize,
    pub ty: Ty,
    pub addr: u64,
    pub init_tok: usize,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub text: Rc<str>,
    lines: Vec<(usize, usize)>,
    pub funcs: HashMap<String, (usize, usize)>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub faddr: HashMap<String, u64>,
    pub fbyaddr: HashMap<u64, String>,
    pub weak: HashMap<String, ()>,
    types: HashMap<String, Ty>,
    cache: HashMap<String, Rc<Func>>,
    pub parsed_insts: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),
    L(String), // %x
    G(String), // @x
    S(Vec<u8>),
    CS(Vec<u8>),
    P(char),
    M, // metadata
    Eof,
}

pub struct Lex {
    pub toks: Vec<(T, bool)>,
    pub i: usize,
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).ok().and_then(|x| u8::from_str_radix(x, 16).ok());
            if let Some(h) = h {
                v.push(h);
                i += 3;
                continue;
            }
            if s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
                continue;
            }
        }
        v.push(s[i]);
        i += 1;
    }
    v
}

pub fn lex(s: &str) -> Lex {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let mut nl = true;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            nl = true;
            i += 1;
            continue;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        let t = match c {
            b'+' | b'-' if b[i + 1..].starts_with(b"inf") || b[i + 1..].starts_with(b"qnan") || b[i + 1..].starts_with(b"nan") || b[i + 1..].starts_with(b"snan") => {
                let st = if c == b'-' { i } else { i + 1 };
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                let w = s[st..i].to_string();
                if i < b.len() && b[i] == b'(' {
                    while b[i] != b')' {
                        i += 1;
                    }
                    i += 1;
                }
                T::W(w)
            }
            b'%' | b'@' => {
                i += 1;
                let name = if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    let r = String::from_utf8_lossy(&b[st..i]).into_owned();
                    i += 1;
                    r
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                if c == b'%' { T::L(name) } else { T::G(name) }
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                let r = unesc(&b[st..i]);
                i += 1;
                T::S(r)
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                let r = unesc(&b[st..i]);
                i += 1;
                T::CS(r)
            }
            b'!' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                T::M
            }
            b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                T::W(s[st..i].to_string())
            }
            c if idc(c) => {
                let st = i;
                while i < b.len() && (idc(b[i]) || (b[i] == b'+' && b[i - 1] == b'e')) {
                    i += 1;
                }
                T::W(s[st..i].to_string())
            }
            c => {
                i += 1;
                T::P(c as char)
            }
        };
        out.push((t, nl));
        nl = false;
    }
    out.push((T::Eof, true));
    Lex { toks: out, i: 0 }
}

impl Lex {
    pub fn peek(&self) -> &T {
        &self.toks[self.i].0
    }
    pub fn peek2(&self) -> &T {
        &self.toks[(self.i + 1).min(self.toks.len() - 1)].0
    }
    pub fn next(&mut self) -> T {
        let t = self.toks[self.i].0.clone();
        if self.i + 1 < self.toks.len() {
            self.i += 1;
        }
        t
    }
    pub fn is(&self, w: &str) -> bool {
        matches!(self.peek(), T::W(x) if x == w)
    }
    pub fn isp(&self, c: char) -> bool {
        *self.peek() == T::P(c)
    }
    pub fn eat(&mut self, w: &str) -> bool {
        if self.is(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn exp(&mut self, c: char) {
        let t = self.next();
        if t != T::P(c) {
            panic!("IR parse: expected {:?} got {:?} near {:?}", c, t, &self.toks[self.i.saturating_sub(12)..(self.i + 6).min(self.toks.len())]);
        }
    }
    pub fn word(&mut self) -> String {
        match self.next() {
            T::W(w) => w,
            t => panic!("IR parse: expected word got {:?} near {:?}", t, &self.toks[self.i.saturating_sub(12)..(self.i + 6).min(self.toks.len())]),
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => panic!("IR parse: eof in parens"),
                _ => {}
            }
        }
    }
    fn eol(&mut self) {
        // skip to the first token of the next line
        while !self.toks[self.i].1 && *self.peek() != T::Eof {
            self.i += 1;
        }
    }
}

fn is_type_start(t: &T) -> bool {
    match t {
        T::W(w) => {
            matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "x86_fp80" | "fp128" | "label" | "metadata" | "token")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        T::P('[') | T::P('{') | T::P('<') => true,
        _ => false,
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: Rc<str> = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into();
        let mut lines = vec![];
        let mut st = 0;
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        let mut m = Module {
            text: text.clone(),
            lines,
            funcs: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            faddr: HashMap::new(),
            fbyaddr: HashMap::new(),
            weak: HashMap::new(),
            types: HashMap::new(),
            cache: HashMap::new(),
            parsed_insts: 0,
        };
        let mut gaddr = 0x2000_0000u64;
        let mut fa = 0x1000_0000u64;
        let mut i = 0;
        let getname = |l: &str| -> String {
            let p = l.find('@').unwrap() + 1;
            let r = &l[p..];
            if r.starts_with('"') {
                let e = r[1..].find('"').unwrap();
                r[1..1 + e].to_string()
            } else {
                let e = r.bytes().position(|c| !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-')).unwrap_or(r.len());
                r[..e].to_string()
            }
        };
        while i < m.lines.len() {
            let (a, b) = m.lines[i];
            let l = &text[a..b];
            if l.starts_with("define ") {
                let name = getname(l);
                let st = i;
                while &text[m.lines[i].0..m.lines[i].1] != "}" {
                    i += 1;
                }
                m.funcs.insert(name.clone(), (st, i));
                m.faddr.insert(name.clone(), fa);
                m.fbyaddr.insert(fa, name);
                fa += 16;
            } else if l.starts_with("declare ") {
                let name = getname(l);
                if l.contains("extern_weak") {
                    m.weak.insert(name.clone(), ());
                }
                m.faddr.insert(name.clone(), fa);
                m.fbyaddr.insert(fa, name);
                fa += 16;
            } else if l.starts_with('%') && l.contains(" = type ") {
                let mut lx = lex(l);
                if let T::L(n) = lx.next() {
                    lx.next();
                    lx.next();
                    let t = m.ty(&mut lx);
                    m.types.insert(n, t);
                }
            } else if l.starts_with('@') {
                let name = getname(l);
                // find the type: after "global" or "constant"
                let mut lx = lex(l);
                lx.next();
                lx.exp('=');
                let mut external = false;
                let mut constant = false;
                let mut alias = false;
                loop {
                    match lx.next() {
                        T::W(w) => match w.as_str() {
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "external" | "extern_weak" => external = true,
                            "alias" => {
                                alias = true;
                                break;
                            }
                            _ => {}
                        },
                        T::P('(') => {
                            lx.i -= 1;
                            lx.skip_parens();
                        }
                        T::Eof => panic!("global? {}", l),
                        _ => {}
                    }
                }
                if !alias {
                    let ty = m.ty(&mut lx);
                    let size = ty.size().max(1);
                    let al = ty.align().max(16);
                    gaddr = (gaddr + al - 1) / al * al;
                    m.gmap.insert(name.clone(), m.globals.len());
                    m.globals.push(Global { name, line: i, ty, addr: gaddr, init_tok: lx.i, constant, external });
                    gaddr += size + 32;
                }
            }
            i += 1;
        }
        m
    }

    pub fn global_at(&self, addr: u64) -> Option<usize> {
        // globals are in address order
        let i = self.globals.partition_point(|g| g.addr <= addr);
        if i == 0 {
            return None;
        }
        let g = &self.globals[i - 1];
        if addr <= g.addr + g.ty.size().max(1) {
            Some(i - 1)
        } else {
            None
        }
    }

    pub fn global_bytes(&self, gi: usize) -> Vec<u8> {
        let g = &self.globals[gi];
        let mut out = vec![0u8; g.ty.size() as usize];
        if g.external {
            return out;
        }
        let (a, b) = self.lines[g.line];
        let mut lx = lex(&self.text[a..b]);
        lx.i = g.init_tok;
        let v = self.cval(&g.ty, &mut lx);
        self.put(&g.ty, &v, &mut out, 0);
        out
    }

    fn put(&self, ty: &Ty, v: &Val, out: &mut [u8], off: u64) {
        match (ty, v) {
            (Ty::Struct(ts, _), Val::Agg(vs)) => {
                let (offs, _) = ty.layout();
                for (i, t) in ts.iter().enumerate() {
                    self.put(t, &vs[i], out, off + offs[i]);
                }
            }
            (Ty::Arr(_, t), Val::Agg(vs)) => {
                for (i, v) in vs.iter().enumerate() {
                    self.put(t, v, out, off + i as u64 * t.size());
                }
            }
            (Ty::Vec(_, t), Val::Agg(vs)) => {
                for (i, v) in vs.iter().enumerate() {
                    self.put(t, v, out, off + i as u64 * t.size());
                }
            }
            (t, Val::C(k)) => {
                for i in 0..t.size() {
                    if (off + i) < out.len() as u64 {
                        out[(off + i) as usize] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
                    }
                }
            }
            _ => panic!("global initialiser"),
        }
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            T::W(w) => match w.as_str() {
                "ptr" => {
                    if lx.is("addrspace") {
                        lx.next();
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other(w),
            },
            T::L(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other(n)),
            T::P('[') => {
                let n: u64 = lx.word().parse().unwrap();
                lx.next();
                let t = self.ty(lx);
                lx.exp(']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P('{') => {
                let mut v = vec![];
                while !lx.eatp('}') {
                    v.push(self.ty(lx));
                    lx.eatp(',');
                }
                Ty::Struct(v, false)
            }
            T::P('<') => {
                if lx.eatp('{') {
                    let mut v = vec![];
                    while !lx.eatp('}') {
                        v.push(self.ty(lx));
                        lx.eatp(',');
                    }
                    lx.exp('>');
                    Ty::Struct(v, true)
                } else {
                    let n: u32 = lx.word().parse().unwrap();
                    lx.next();
                    let t = self.ty(lx);
                    lx.exp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => panic!("IR parse: type? {:?} near {:?}", t, &lx.toks[lx.i.saturating_sub(12)..(lx.i + 6).min(lx.toks.len())]),
        };
        t
    }

    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(ts, _) => Val::Agg(Rc::new(ts.iter().map(Self::zero).collect())),
            Ty::Arr(n, t) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Vec(n, t) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            _ => Val::C(0),
        }
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        if let Some(&i) = self.gmap.get(name) {
            return self.globals[i].addr;
        }
        if self.weak.contains_key(name) {
            return 0;
        }
        *self.faddr.get(name).unwrap_or(&0)
    }

    /// parses a constant of the given type
    fn cval(&self, ty: &Ty, lx: &mut Lex) -> Val {
        match lx.next() {
            T::W(w) => {
                match w.as_str() {
                    "null" | "none" => return Val::C(0),
                    "undef" | "poison" | "zeroinitializer" => return Self::zero(ty),
                    "true" => return Val::C(1),
                    "false" => return Val::C(0),
                    "splat" => {
                        lx.exp('(');
                        let t = self.ty(lx);
                        let v = self.cval(&t, lx);
                        lx.exp(')');
                        if let Ty::Vec(n, _) = ty {
                            return Val::Agg(Rc::new(vec![v; *n as usize]));
                        }
                        return v;
                    }
                    "getelementptr" => {
                        while let T::W(w) = lx.peek() {
                            let w = w.clone();
                            lx.next();
                            if w == "inrange" {
                                lx.skip_parens();
                            }
                        }
                        lx.exp('(');
                        let t = self.ty(lx);
                        lx.exp(',');
                        let bt = self.ty(lx);
                        let base = match self.cval(&bt, lx) {
                            Val::C(k) => k as i128,
                            _ => panic!("gep const"),
                        };
                        let mut idx = vec![];
                        while lx.eatp(',') {
                            lx.eat("inrange");
                            let it = self.ty(lx);
                            match self.cval(&it, lx) {
                                Val::C(k) => idx.push(crate::expr::sx(k, it.bits()) as i64),
                                _ => panic!("gep const"),
                            }
                        }
                        lx.exp(')');
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        for (n, i) in idx.iter().enumerate() {
                            if n == 0 {
                                off += i * cur.size() as i64;
                            } else {
                                match cur.clone() {
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                        off += i * t.size() as i64;
                                        cur = (*t).clone();
                                    }
                                    Ty::Struct(ts, _) => {
                                        off += cur.layout().0[*i as usize] as i64;
                                        cur = ts[*i as usize].clone();
                                    }
                                    _ => panic!("gep const type"),
                                }
                            }
                        }
                        return Val::C((base + off as i128) as u64 as u128);
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                        lx.exp('(');
                        let t = self.ty(lx);
                        let v = self.cval(&t, lx);
                        lx.word();
                        let to = self.ty(lx);
                        lx.exp(')');
                        if let Val::C(k) = v {
                            let k = if w == "sext" { crate::expr::sx(k, t.bits()) as u128 } else { k };
                            return Val::C(k & crate::expr::mask(to.bits()));
                        }
                        return v;
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while let T::W(_) = lx.peek() {
                            lx.next();
                        }
                        lx.exp('(');
                        let t = self.ty(lx);
                        let a = self.cval(&t, lx);
                        lx.exp(',');
                        let t2 = self.ty(lx);
                        let b = self.cval(&t2, lx);
                        lx.exp(')');
                        if let (Val::C(a), Val::C(b)) = (a, b) {
                            let r = match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            };
                            return Val::C(r & crate::expr::mask(t.bits()));
                        }
                        panic!("const expr");
                    }
                    _ => {}
                }
                // numbers
                match ty {
                    Ty::Int(wd) => {
                        if let Some(h) = w.strip_prefix("u0x") {
                            return Val::C(u128::from_str_radix(h, 16).unwrap());
                        }
                        if let Some(h) = w.strip_prefix('-') {
                            let k: u128 = h.parse().unwrap();
                            return Val::C(k.wrapping_neg() & crate::expr::mask(*wd));
                        }
                        return Val::C(w.parse::<u128>().unwrap_or_else(|_| panic!("int const {}", w)) & crate::expr::mask(*wd));
                    }
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = w.strip_prefix("f0x") {
                            // bit pattern of the type itself
                            let v = u64::from_str_radix(h, 16).unwrap();
                            return Val::C(v as u128);
                        } else if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap()
                        } else if let Some(h) = w.strip_prefix("+").or(Some(&w)) {
                            match h {
                                "inf" => f64::INFINITY.to_bits(),
                                "-inf" => f64::NEG_INFINITY.to_bits(),
                                "nan" | "qnan" => f64::NAN.to_bits(),
                                h => h.parse::<f64>().unwrap_or_else(|_| panic!("float const {}", w)).to_bits(),
                            }
                        } else {
                            0
                        };
                        if *ty == Ty::F32 {
                            return Val::C((f64::from_bits(bits) as f32).to_bits() as u128);
                        }
                        return Val::C(bits as u128);
                    }
                    _ => panic!("constant {:?} of type {:?}", w, ty),
                }
            }
            T::G(n) => Val::C(self.addr_of(&n) as u128),
            T::CS(b) => Val::Agg(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect())),
            T::P('[') | T::P('{') => {
                let mut v = vec![];
                while !(lx.eatp(']') || lx.eatp('}')) {
                    let t = self.ty(lx);
                    v.push(self.cval(&t, lx));
                    lx.eatp(',');
                }
                Val::Agg(Rc::new(v))
            }
            T::P('<') => {
                let st = lx.eatp('{');
                let mut v = vec![];
                loop {
                    if st && lx.eatp('}') {
                        lx.exp('>');
                        break;
                    }
                    if !st && lx.eatp('>') {
                        break;
                    }
                    let t = self.ty(lx);
                    v.push(self.cval(&t, lx));
                    lx.eatp(',');
                }
                Val::Agg(Rc::new(v))
            }
            t => panic!("IR parse: constant? {:?}", t),
        }
    }

    pub fn func(&mut self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.get(name) {
            return Some(f.clone());
        }
        let &(a, b) = self.funcs.get(name)?;
        let text = self.text.clone();
        let src = &text[self.lines[a].0..self.lines[b].1];
        let f = Rc::new(FnParser { m: self, regs: HashMap::new(), labels: HashMap::new() }.parse(name, src));
        self.parsed_insts += f.blocks.iter().map(|b| b.insts.len() + b.phis.len()).sum::<usize>();
        self.cache.insert(name.to_string(), f.clone());
        Some(f)
    }
    pub fn parsed_funcs(&self) -> Vec<String> {
        self.cache.keys().cloned().collect()
    }
}

struct FnParser<'a> {
    m: &'a Module,
    regs: HashMap<String, usize>,
    labels: HashMap<String, usize>,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> usize {
        let k = self.regs.len();
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> usize {
        let k = self.labels.len();
        *self.labels.entry(n.to_string()).or_insert(k)
    }
    fn op(&mut self, ty: &Ty, lx: &mut Lex) -> Op {
        if let T::L(n) = lx.peek() {
            let n = n.clone();
            lx.next();
            return Op::R(self.reg(&n));
        }
        Op::K(self.m.cval(ty, lx))
    }
    fn tyop(&mut self, lx: &mut Lex) -> (Ty, Op) {
        let t = self.m.ty(lx);
        self.skip_attrs(lx);
        let o = self.op(&t, lx);
        (t, o)
    }
    fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                T::W(w) => {
                    let w = w.clone();
                    let isval = matches!(
                        w.as_str(),
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "zext" | "sext" | "bitcast" | "splat" | "none" | "sub" | "add" | "xor" | "mul" | "inf" | "-inf" | "nan" | "qnan"
                    ) || w.as_bytes()[0].is_ascii_digit()
                        || (w.as_bytes()[0] == b'-' && w.len() > 1)
                        || w.starts_with("f0x")
                        || w.starts_with("u0x");
                    if isval {
                        return;
                    }
                    lx.next();
                    if w == "align" && !lx.isp('(') {
                        lx.next();
                    } else if lx.isp('(') {
                        lx.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn target(&mut self, lx: &mut Lex) -> usize {
        // label %x
        lx.eat("label");
        match lx.next() {
            T::L(n) => self.label(&n),
            t => panic!("label? {:?}", t),
        }
    }

    fn parse(mut self, name: &str, src: &str) -> Func {
        let mut lx = lex(src);
        // header
        loop {
            if let T::G(_) = lx.peek() {
                break;
            }
            lx.next();
        }
        lx.next();
        lx.exp('(');
        let mut params = vec![];
        let mut unnamed = 0;
        loop {
            match lx.peek().clone() {
                T::P(')') => {
                    lx.next();
                    break;
                }
                T::P('.') => {
                    lx.next();
                }
                T::P(',') => {
                    lx.next();
                }
                _ => {
                    if let T::W(w) = lx.peek() {
                        if w == "..." {
                            lx.next();
                            continue;
                        }
                    }
                    let _t = self.m.ty(&mut lx);
                    self.skip_attrs(&mut lx);
                    if let T::L(n) = lx.peek().clone() {
                        lx.next();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(self.reg(&n));
                    } else {
                        unnamed += 1;
                        let n = format!("__p{}", params.len());
                        params.push(self.reg(&n));
                    }
                }
            }
        }
        while !lx.isp('{') {
            lx.next();
        }
        lx.next();
        let mut blocks: HashMap<usize, Block> = HashMap::new();
        let mut order = vec![];
        let mut cur = usize::MAX;
        loop {
            match lx.peek().clone() {
                T::P('}') | T::Eof => break,
                T::W(w) if w.starts_with("#dbg") => {
                    lx.next();
                    lx.eol();
                    continue;
                }
                T::W(w) if lx.toks[lx.i].1 && *lx.peek2() == T::P(':') => {
                    lx.next();
                    lx.next();
                    cur = self.label(&w);
                    blocks.insert(cur, Block::default());
                    order.push(cur);
                    continue;
                }
                T::S(s) if lx.toks[lx.i].1 && *lx.peek2() == T::P(':') => {
                    lx.next();
                    lx.next();
                    let w = String::from_utf8_lossy(&s).into_owned();
                    cur = self.label(&w);
                    blocks.insert(cur, Block::default());
                    order.push(cur);
                    continue;
                }
                _ => {}
            }
            if cur == usize::MAX {
                // the unlabelled entry block takes the number after the unnamed parameters
                cur = self.label(&unnamed.to_string());
                blocks.insert(cur, Block::default());
                order.push(cur);
            }
            let start = lx.i;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inst(&mut lx, blocks.get_mut(&cur).unwrap())));
            if r.is_err() {
                lx.i = start + 1;
                let txt = format!("{:?}", lx.toks[start..(start + 12).min(lx.toks.len())].iter().map(|t| &t.0).collect::<Vec<_>>());
                blocks.get_mut(&cur).unwrap().insts.push(Inst::Unsupported(txt));
            }
            lx.eol();
        }
        // entry block first: remap indices
        let n = self.labels.len();
        let mut remap = vec![usize::MAX; n];
        for (i, b) in order.iter().enumerate() {
            remap[*b] = i;
        }
        let mut out = vec![];
        for b in &order {
            out.push(blocks.remove(b).unwrap());
        }
        for b in out.iter_mut() {
            for p in b.phis.iter_mut() {
                for i in p.inc.iter_mut() {
                    i.0 = remap[i.0];
                }
            }
            for i in b.insts.iter_mut() {
                match i {
                    Inst::Br { to } => *to = remap[*to],
                    Inst::CondBr { t, f, .. } => {
                        *t = remap[*t];
                        *f = remap[*f];
                    }
                    Inst::Switch { def, cases, .. } => {
                        *def = remap[*def];
                        for c in cases {
                            c.1 = remap[c.1];
                        }
                    }
                    Inst::Call { normal: Some(n), .. } => *n = remap[*n],
                    _ => {}
                }
            }
        }
        Func { name: name.to_string(), nregs: self.regs.len(), params, blocks: out }
    }

    fn inst(&mut self, lx: &mut Lex, blk: &mut Block) {
        let mut d: Option<usize> = None;
        if let T::L(n) = lx.peek().clone() {
            if *lx.peek2() == T::P('=') {
                lx.next();
                lx.next();
                d = Some(self.reg(&n));
            }
        }
        let dd = d.unwrap_or(usize::MAX);
        let mut w = lx.word();
        if matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = lx.word();
        }
        let flags = ["nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak"];
        macro_rules! skipflags {
            () => {
                while let T::W(x) = lx.peek() {
                    if flags.contains(&x.as_str()) {
                        lx.next();
                    } else {
                        break;
                    }
                }
            };
        }
        let bk = match w.as_str() {
            "add" => Some(Bk::Add),
            "sub" => Some(Bk::Sub),
            "mul" => Some(Bk::Mul),
            "udiv" => Some(Bk::UDiv),
            "sdiv" => Some(Bk::SDiv),
            "urem" => Some(Bk::URem),
            "srem" => Some(Bk::SRem),
            "and" => Some(Bk::And),
            "or" => Some(Bk::Or),
            "xor" => Some(Bk::Xor),
            "shl" => Some(Bk::Shl),
            "lshr" => Some(Bk::LShr),
            "ashr" => Some(Bk::AShr),
            "fadd" => Some(Bk::FAdd),
            "fsub" => Some(Bk::FSub),
            "fmul" => Some(Bk::FMul),
            "fdiv" => Some(Bk::FDiv),
            "frem" => Some(Bk::FRem),
            _ => None,
        };
        if let Some(k) = bk {
            skipflags!();
            let ty = self.m.ty(lx);
            let a = self.op(&ty, lx);
            lx.exp(',');
            let b = self.op(&ty, lx);
            blk.insts.push(Inst::Bin { k, ty, a, b, d: dd });
            return;
        }
        let ck = match w.as_str() {
            "trunc" => Some(Ck::Trunc),
            "zext" => Some(Ck::ZExt),
            "sext" => Some(Ck::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(Ck::PtrToInt),
            "inttoptr" => Some(Ck::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Ck::BitCast),
            "sitofp" => Some(Ck::SiToFp),
            "uitofp" => Some(Ck::UiToFp),
            "fptosi" => Some(Ck::FpToSi),
            "fptoui" => Some(Ck::FpToUi),
            "fpext" => Some(Ck::FpExt),
            "fptrunc" => Some(Ck::FpTrunc),
            _ => None,
        };
        if let Some(k) = ck {
            skipflags!();
            let (from, a) = self.tyop(lx);
            lx.eat("to");
            let to = self.m.ty(lx);
            blk.insts.push(Inst::Cast { k, from, to, a, d: dd });
            return;
        }
        match w.as_str() {
            "fneg" => {
                skipflags!();
                let (ty, a) = self.tyop(lx);
                blk.insts.push(Inst::FNeg { ty, a, d: dd });
            }
            "icmp" => {
                skipflags!();
                let p = lx.word();
                let ty = self.m.ty(lx);
                let a = self.op(&ty, lx);
                lx.exp(',');
                let b = self.op(&ty, lx);
                blk.insts.push(Inst::Icmp { p, ty, a, b, d: dd });
            }
            "fcmp" => {
                skipflags!();
                let p = lx.word();
                let ty = self.m.ty(lx);
                let a = self.op(&ty, lx);
                lx.exp(',');
                let b = self.op(&ty, lx);
                blk.insts.push(Inst::Fcmp { p, ty, a, b, d: dd });
            }
            "load" => {
                skipflags!();
                let ty = self.m.ty(lx);
                lx.exp(',');
                let (_, p) = self.tyop(lx);
                blk.insts.push(Inst::Load { ty, p, d: dd });
            }
            "store" => {
                skipflags!();
                let (ty, v) = self.tyop(lx);
                lx.exp(',');
                let (_, p) = self.tyop(lx);
                blk.insts.push(Inst::Store { ty, v, p });
            }
            "getelementptr" => {
                skipflags!();
                let ty = self.m.ty(lx);
                lx.exp(',');
                let (bt, base) = self.tyop(lx);
                if matches!(bt, Ty::Vec(..)) {
                    panic!("vector gep");
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = ty;
                let mut n = 0;
                while lx.isp(',') && is_type_start(lx.peek2()) {
                    lx.next();
                    let (it, o) = self.tyop(lx);
                    let k = match &o {
                        Op::K(Val::C(k)) => Some(crate::expr::sx(*k, it.bits()) as i64),
                        _ => None,
                    };
                    if n == 0 {
                        let s = cur.size() as i64;
                        match k {
                            Some(k) => off = off.wrapping_add(k.wrapping_mul(s)),
                            None => terms.push((o, it.bits(), s)),
                        }
                    } else {
                        match cur.clone() {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                let s = t.size() as i64;
                                match k {
                                    Some(k) => off = off.wrapping_add(k.wrapping_mul(s)),
                                    None => terms.push((o, it.bits(), s)),
                                }
                                cur = (*t).clone();
                            }
                            Ty::Struct(ts, _) => {
                                let k = k.expect("struct index") as usize;
                                off += cur.layout().0[k] as i64;
                                cur = ts[k].clone();
                            }
                            _ => panic!("gep"),
                        }
                    }
                    n += 1;
                }
                blk.insts.push(Inst::Gep { base, off, terms, d: dd });
            }
            "alloca" => {
                let ty = self.m.ty(lx);
                let mut align = ty.align();
                let mut count = 1u64;
                while lx.eatp(',') {
                    if lx.eat("align") {
                        align = lx.word().parse().unwrap();
                    } else if is_type_start(lx.peek()) {
                        let (_, o) = self.tyop(lx);
                        match o {
                            Op::K(Val::C(k)) => count = k as u64,
                            _ => panic!("dynamic alloca"),
                        }
                    } else {
                        break;
                    }
                }
                blk.insts.push(Inst::Alloca { size: ty.size() * count, align, d: dd });
            }
            "br" => {
                if lx.is("label") {
                    let to = self.target(lx);
                    blk.insts.push(Inst::Br { to });
                } else {
                    let (_, c) = self.tyop(lx);
                    lx.exp(',');
                    let t = self.target(lx);
                    lx.exp(',');
                    let f = self.target(lx);
                    blk.insts.push(Inst::CondBr { c, t, f });
                }
            }
            "switch" => {
                let (ty, v) = self.tyop(lx);
                lx.exp(',');
                let def = self.target(lx);
                lx.exp('[');
                let mut cases = vec![];
                while !lx.eatp(']') {
                    let t = self.m.ty(lx);
                    let k = match self.m.cval(&t, lx) {
                        Val::C(k) => k,
                        _ => panic!("switch"),
                    };
                    lx.exp(',');
                    let to = self.target(lx);
                    cases.push((k, to));
                }
                blk.insts.push(Inst::Switch { ty, v, def, cases });
            }
            "phi" => {
                skipflags!();
                let ty = self.m.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.exp('[');
                    let v = self.op(&ty, lx);
                    lx.exp(',');
                    let b = self.target(lx);
                    lx.exp(']');
                    inc.push((b, v));
                    if lx.isp(',') && *lx.peek2() == T::P('[') {
                        lx.next();
                    } else {
                        break;
                    }
                }
                blk.phis.push(Phi { d: dd, ty, inc });
            }
            "select" => {
                skipflags!();
                let (cty, c) = self.tyop(lx);
                lx.exp(',');
                let (ty, a) = self.tyop(lx);
                lx.exp(',');
                let (_, b) = self.tyop(lx);
                blk.insts.push(Inst::Select { cty, ty, c, a, b, d: dd });
            }
            "call" | "invoke" => {
                // flags, calling convention, return attributes
                loop {
                    if is_type_start(lx.peek()) {
                        break;
                    }
                    match lx.next() {
                        T::W(x) => {
                            if x == "align" && !lx.isp('(') {
                                lx.next();
                            } else if lx.isp('(') {
                                lx.skip_parens();
                            }
                        }
                        T::L(_) => {}
                        t => panic!("call? {:?}", t),
                    }
                }
                let ret = self.m.ty(lx);
                if lx.isp('(') {
                    lx.skip_parens();
                }
                let callee = match lx.peek().clone() {
                    T::G(n) => {
                        lx.next();
                        Callee::Name(n)
                    }
                    T::L(n) => {
                        lx.next();
                        Callee::Ind(Op::R(self.reg(&n)))
                    }
                    T::W(x) if x == "asm" => {
                        blk.insts.push(Inst::Nop);
                        return;
                    }
                    _ => {
                        let v = self.m.cval(&Ty::Ptr, lx);
                        Callee::Ind(Op::K(v))
                    }
                };
                if let Callee::Name(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" {
                        blk.insts.push(Inst::Nop);
                        return;
                    }
                }
                lx.exp('(');
                let mut args = vec![];
                while !lx.eatp(')') {
                    args.push(self.tyop(lx));
                    lx.eatp(',');
                }
                let mut normal = None;
                if w == "invoke" {
                    while !lx.is("to") {
                        lx.next();
                    }
                    lx.next();
                    normal = Some(self.target(lx));
                    lx.eat("unwind");
                    let _ = self.target(lx);
                }
                let d2 = if ret == Ty::Void { None } else { d };
                blk.insts.push(Inst::Call { callee, ret, args, d: d2, normal });
            }
            "extractvalue" => {
                let (_, agg) = self.tyop(lx);
                let mut idx = vec![];
                while lx.isp(',') {
                    if let T::W(x) = lx.peek2() {
                        if let Ok(k) = x.parse() {
                            lx.next();
                            lx.next();
                            idx.push(k);
                            continue;
                        }
                    }
                    break;
                }
                blk.insts.push(Inst::ExtractValue { agg, idx, d: dd });
            }
            "insertvalue" => {
                let (ty, agg) = self.tyop(lx);
                lx.exp(',');
                let (_, v) = self.tyop(lx);
                let mut idx = vec![];
                while lx.isp(',') {
                    if let T::W(x) = lx.peek2() {
                        if let Ok(k) = x.parse() {
                            lx.next();
                            lx.next();
                            idx.push(k);
                            continue;
                        }
                    }
                    break;
                }
                blk.insts.push(Inst::InsertValue { ty, agg, v, idx, d: dd });
            }
            "extractelement" => {
                let (ty, v) = self.tyop(lx);
                lx.exp(',');
                let (_, i) = self.tyop(lx);
                blk.insts.push(Inst::ExtractElement { ty, v, i, d: dd });
            }
            "insertelement" => {
                let (ty, v) = self.tyop(lx);
                lx.exp(',');
                let (_, x) = self.tyop(lx);
                lx.exp(',');
                let (_, i) = self.tyop(lx);
                blk.insts.push(Inst::InsertElement { ty, v, x, i, d: dd });
            }
            "shufflevector" => {
                let (ty, a) = self.tyop(lx);
                lx.exp(',');
                let (_, b) = self.tyop(lx);
                lx.exp(',');
                let mt = self.m.ty(lx);
                let mv = self.m.cval(&mt, lx);
                let m = match mv {
                    Val::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(k) => *k as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!("shuffle"),
                };
                blk.insts.push(Inst::Shuffle { ty, a, b, m, d: dd });
            }
            "ret" => {
                if lx.eat("void") {
                    blk.insts.push(Inst::Ret { v: None });
                } else {
                    let (_, v) = self.tyop(lx);
                    blk.insts.push(Inst::Ret { v: Some(v) });
                }
            }
            "unreachable" => blk.insts.push(Inst::Unreachable),
            "freeze" => {
                let (_, a) = self.tyop(lx);
                blk.insts.push(Inst::Copy { a, d: dd });
            }
            "fence" => blk.insts.push(Inst::Nop),
            "atomicrmw" => {
                skipflags!();
                let k = lx.word();
                let (_, p) = self.tyop(lx);
                lx.exp(',');
                let (ty, v) = self.tyop(lx);
                blk.insts.push(Inst::AtomicRmw { k, ty, p, v, d: dd });
            }
            "cmpxchg" => {
                skipflags!();
                let (_, p) = self.tyop(lx);
                lx.exp(',');
                let (ty, c) = self.tyop(lx);
                lx.exp(',');
                let (_, n) = self.tyop(lx);
                blk.insts.push(Inst::CmpXchg { ty, p, c, n, d: dd });
            }
            "landingpad" => {
                blk.insts.push(Inst::Unsupported("landingpad".into()));
                lx.eol();
                while matches!(lx.peek(), T::W(x) if x == "cleanup" || x == "catch" || x == "filter") {
                    lx.next();
                    lx.eol();
                }
            }
            "resume" => blk.insts.push(Inst::Unsupported("resume".into())),
            _ => blk.insts.push(Inst::Unsupported(w)),
        }
    }
}
