//! SMT-LIB2 back end: one persistent solver process, one self-contained query at a time.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub core_hits: u64,
    pub time: f64,
    pub max: f64,
    pub cross: u64,
    pub cross_unknown: u64,
    pub cross_time: f64,
    pub fallback: u64,
    pub fallback_solved: u64,
}

/// kills a solver process that overruns its own time limit
#[derive(Clone)]
pub struct Watch(std::sync::Arc<std::sync::Mutex<Option<(Instant, u32)>>>);
impl Watch {
    pub fn start() -> Watch {
        let w = Watch(Default::default());
        let v = w.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            if std::sync::Arc::strong_count(&v.0) == 1 {
                return;
            }
            let mut g = v.0.lock().unwrap();
            if let Some((t, pid)) = *g {
                if Instant::now() > t {
                    *g = None;
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).stderr(Stdio::null()).status();
                }
            }
        });
        w
    }
    fn set(&self, ms: u64, pid: u32) {
        *self.0.lock().unwrap() = Some((Instant::now() + std::time::Duration::from_millis(ms), pid));
    }
    fn clear(&self) {
        *self.0.lock().unwrap() = None;
    }
}

pub struct Smt {
    watch: Watch,
    /// asked (once, from scratch) when the main solver gives no answer
    pub fallback_cmd: Option<Vec<String>>,
    cmd: Vec<String>,
    p: Option<Proc>,
    pub stats: Stats,
    pub timeout_ms: u64,
    cache: HashMap<Vec<E>, Res>,
    pub cross_cmd: Option<Vec<String>>,
    /// ask for unsatisfiable cores; the last one obtained
    pub cores: bool,
    pub last_core: Option<Vec<E>>,
    core_tries: u64,
    core_fail: u64,
    pub log: Option<std::fs::File>,
}

enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn parse_sx(s: &[u8], i: &mut usize) -> Option<Sx> {
    while *i < s.len() && s[*i].is_ascii_whitespace() {
        *i += 1;
    }
    if *i >= s.len() {
        return None;
    }
    if s[*i] == b'(' {
        *i += 1;
        let mut v = vec![];
        loop {
            while *i < s.len() && s[*i].is_ascii_whitespace() {
                *i += 1;
            }
            if *i >= s.len() {
                return None;
            }
            if s[*i] == b')' {
                *i += 1;
                return Some(Sx::L(v));
            }
            v.push(parse_sx(s, i)?);
        }
    }
    let st = *i;
    while *i < s.len() && !s[*i].is_ascii_whitespace() && s[*i] != b'(' && s[*i] != b')' {
        *i += 1;
    }
    Some(Sx::A(String::from_utf8_lossy(&s[st..*i]).into_owned()))
}

fn sx_rat(x: &Sx) -> Option<Rat> {
    match x {
        Sx::A(s) => {
            if s.ends_with('?') {
                return None; // a decimal approximation
            }
            if let Some((a, b)) = s.split_once('.') {
                let n: i128 = a.parse().ok()?;
                if b.bytes().all(|c| c == b'0') {
                    return Some(Rat::int(n));
                }
                let d = 10i128.checked_pow(b.len() as u32)?;
                let f: i128 = b.parse().ok()?;
                return Rat::new(n.checked_mul(d)?.checked_add(f)?, d);
            }
            Some(Rat::int(s.parse().ok()?))
        }
        Sx::L(v) => match (v.first(), v.len()) {
            (Some(Sx::A(op)), 2) if op == "-" => sx_rat(&v[1])?.neg(),
            (Some(Sx::A(op)), 3) if op == "/" => sx_rat(&v[1])?.div(sx_rat(&v[2])?),
            _ => None,
        },
    }
}

fn sx_bv(x: &Sx) -> Option<u128> {
    match x {
        Sx::A(s) => {
            if s == "true" {
                Some(1)
            } else if s == "false" {
                Some(0)
            } else if let Some(h) = s.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(h) = s.strip_prefix("#b") {
                u128::from_str_radix(h, 2).ok()
            } else {
                None
            }
        }
        Sx::L(v) => match (v.first(), v.get(1)) {
            (Some(Sx::A(u)), Some(Sx::A(b))) if u == "_" && b.starts_with("bv") => b[2..].parse().ok(),
            _ => None,
        },
    }
}

pub fn sort_name(w: W) -> String {
    match w {
        REAL => "Real".into(),
        FP32 => "(_ FloatingPoint 8 24)".into(),
        FP64 => "(_ FloatingPoint 11 53)".into(),
        1 => "Bool".into(),
        w => format!("(_ BitVec {})", w),
    }
}

fn rat_smt(r: Rat) -> String {
    let n = if r.n < 0 { format!("(- {}.0)", r.n.unsigned_abs()) } else { format!("{}.0", r.n) };
    if r.d == 1 {
        n
    } else {
        format!("(/ {} {}.0)", n, r.d)
    }
}

/// renders the asserts as an SMT-LIB script body (declarations, definitions, assertions); returns vars used
pub fn render(pool: &Pool, asserts: &[E], z3: bool) -> (String, Vec<u32>) {
    render_named(pool, asserts, z3, false)
}
pub fn render_named(pool: &Pool, asserts: &[E], z3: bool, named: bool) -> (String, Vec<u32>) {
    let mut out = String::new();
    let mut done: HashSet<E> = HashSet::new();
    let mut vars = vec![];
    let mut extra = String::new();
    // iterative post-order
    for &root in asserts {
        let mut st: Vec<(E, bool)> = vec![(root, false)];
        while let Some((e, vis)) = st.pop() {
            if done.contains(&e) {
                continue;
            }
            let (ks, c) = pool.kids(e);
            if !vis {
                st.push((e, true));
                for k in &ks[..c] {
                    if !done.contains(k) {
                        st.push((*k, false));
                    }
                }
                continue;
            }
            done.insert(e);
            let n = pool.n(e);
            match n.op {
                Op::Var | Op::RVar => {
                    vars.push(n.k as u32);
                    let _ = writeln!(out, "(declare-const v{} {})", n.k, sort_name(n.w));
                }
                Op::Const | Op::RConst => {}
                Op::RDiv => {
                    let _ = writeln!(out, "(declare-const n{} Real)", e);
                    let (a, b) = (refer(pool, n.a), refer(pool, n.b));
                    // named: a core that rests on a division is not reused on paths without it
                    if named {
                        let _ = writeln!(extra, "(assert (! (and (= (* n{} {}) {}) (not (= {} 0.0))) :named d{}))", e, b, a, b, e);
                    } else {
                        let _ = writeln!(extra, "(assert (= (* n{} {}) {}))\n(assert (not (= {} 0.0)))", e, b, a, b);
                    }
                }
                _ => {
                    let body = expr(pool, e, z3);
                    let _ = writeln!(out, "(define-fun n{} () {} {})", e, sort_name(n.w), body);
                }
            }
        }
    }
    out.push_str(&extra);
    for &a in asserts {
        if named {
            let _ = writeln!(out, "(assert (! {} :named a{}))", refer(pool, a), a);
        } else {
            let _ = writeln!(out, "(assert {})", refer(pool, a));
        }
    }
    vars.sort_unstable();
    (out, vars)
}

fn refer(pool: &Pool, e: E) -> String {
    let n = pool.n(e);
    match n.op {
        Op::Var | Op::RVar => format!("v{}", n.k),
        Op::Const => {
            if n.w == 1 {
                if n.k == 1 { "true".into() } else { "false".into() }
            } else if n.w % 4 == 0 {
                format!("#x{:0width$x}", n.k, width = n.w as usize / 4)
            } else {
                format!("#b{:0width$b}", n.k, width = n.w as usize)
            }
        }
        Op::RConst => rat_smt(pool.rats[n.k as usize]),
        _ => format!("n{}", e),
    }
}

fn asbv(pool: &Pool, e: E) -> String {
    if pool.w(e) == 1 {
        format!("(ite {} #b1 #b0)", refer(pool, e))
    } else {
        refer(pool, e)
    }
}

fn expr(pool: &Pool, e: E, z3: bool) -> String {
    let n = *pool.n(e);
    let r = |x: E| refer(pool, x);
    let b1 = n.w == 1;
    let bin = |s: &str| format!("({} {} {})", s, r(n.a), r(n.b));
    // 1-bit values are Bool terms: arithmetic and order go through one-bit vectors
    let ar = |s: &str| {
        if b1 {
            format!("(= ({} {} {}) #b1)", s, asbv(pool, n.a), asbv(pool, n.b))
        } else {
            format!("({} {} {})", s, r(n.a), r(n.b))
        }
    };
    let cm = |s: &str| format!("({} {} {})", s, asbv(pool, n.a), asbv(pool, n.b));
    use Op::*;
    match n.op {
        Add => ar("bvadd"),
        Sub => ar("bvsub"),
        Mul => ar("bvmul"),
        UDiv => ar("bvudiv"),
        SDiv => ar("bvsdiv"),
        URem => ar("bvurem"),
        SRem => ar("bvsrem"),
        And => bin(if b1 { "and" } else { "bvand" }),
        Or => bin(if b1 { "or" } else { "bvor" }),
        Xor => {
            if b1 && pool.get_const(n.b) == Some(1) {
                format!("(not {})", r(n.a))
            } else {
                bin(if b1 { "xor" } else { "bvxor" })
            }
        }
        Shl => ar("bvshl"),
        LShr => ar("bvlshr"),
        AShr => ar("bvashr"),
        ZExt => format!("((_ zero_extend {}) {})", n.w - pool.w(n.a), asbv(pool, n.a)),
        SExt => format!("((_ sign_extend {}) {})", n.w - pool.w(n.a), asbv(pool, n.a)),
        Extract => {
            let s = format!("((_ extract {} {}) {})", n.k + n.w as u128 - 1, n.k, asbv(pool, n.a));
            if b1 {
                format!("(= {} #b1)", s)
            } else {
                s
            }
        }
        Concat => format!("(concat {} {})", asbv(pool, n.a), asbv(pool, n.b)),
        Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
        Eq => bin("="),
        Ult => cm("bvult"),
        Ule => cm("bvule"),
        Slt => cm("bvslt"),
        Sle => cm("bvsle"),
        RAdd => bin("+"),
        RSub => bin("-"),
        RMul => bin("*"),
        RDiv => unreachable!(),
        RNeg => format!("(- {})", r(n.a)),
        REq => bin("="),
        RLt => bin("<"),
        RLe => bin("<="),
        FFromBits => format!("((_ to_fp {}) {})", if n.w == FP32 { "8 24" } else { "11 53" }, r(n.a)),
        FToBits => {
            let _ = z3;
            format!("(fp.to_ieee_bv {})", r(n.a))
        }
        FAdd => format!("(fp.add RNE {} {})", r(n.a), r(n.b)),
        FSub => format!("(fp.sub RNE {} {})", r(n.a), r(n.b)),
        FMul => format!("(fp.mul RNE {} {})", r(n.a), r(n.b)),
        FDiv => format!("(fp.div RNE {} {})", r(n.a), r(n.b)),
        FNeg => format!("(fp.neg {})", r(n.a)),
        FAbs => format!("(fp.abs {})", r(n.a)),
        FSqrt => format!("(fp.sqrt RNE {})", r(n.a)),
        FRound => format!("(fp.roundToIntegral {} {})", ["RNE", "RTZ", "RTP", "RTN", "RNA"][n.k as usize], r(n.a)),
        FCvt => format!("((_ to_fp {}) RNE {})", if n.w == FP32 { "8 24" } else { "11 53" }, r(n.a)),
        FToSInt => format!("((_ fp.to_sbv {}) RTZ {})", n.w, r(n.a)),
        FToUInt => format!("((_ fp.to_ubv {}) RTZ {})", n.w, r(n.a)),
        FFma => format!("(fp.fma RNE {} {} {})", r(n.a), r(n.b), r(n.c)),
        FEq => bin("fp.eq"),
        FLt => bin("fp.lt"),
        FLe => bin("fp.leq"),
        FIsNan => format!("(fp.isNaN {})", r(n.a)),
        FFromSInt => format!("((_ to_fp {}) RNE {})", if n.w == FP32 { "8 24" } else { "11 53" }, r(n.a)),
        FFromUInt => format!("((_ to_fp_unsigned {}) RNE {})", if n.w == FP32 { "8 24" } else { "11 53" }, r(n.a)),
        Const | Var | RConst | RVar => r(e),
    }
}

impl Smt {
    pub fn new(cmd: &[&str], timeout_ms: u64) -> Smt {
        Smt {
            watch: Watch::start(),
            fallback_cmd: None,
            cmd: cmd.iter().map(|s| s.to_string()).collect(),
            p: None,
            stats: Stats::default(),
            timeout_ms,
            cache: HashMap::new(),
            cross_cmd: None,
            cores: false,
            last_core: None,
            core_tries: 0,
            core_fail: 0,
            log: None,
        }
    }
    fn start(cmd: &[String]) -> Proc {
        let mut child = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {:?}: {}", cmd, e));
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Proc { child, stdin, stdout }
    }
    fn read_balanced(p: &mut Proc) -> Option<String> {
        let mut s = String::new();
        let mut depth = 0i64;
        loop {
            let mut l = String::new();
            if p.stdout.read_line(&mut l).ok()? == 0 {
                return None;
            }
            for c in l.bytes() {
                if c == b'(' {
                    depth += 1
                } else if c == b')' {
                    depth -= 1
                }
            }
            s.push_str(&l);
            if depth <= 0 && !s.trim().is_empty() {
                return Some(s);
            }
        }
    }

    pub fn check(&mut self, pool: &Pool, asserts: &[E]) -> Res {
        // a core belongs to the query just made, never to an earlier one or to one with extra constraints
        self.last_core = None;
        let mut key: Vec<E> = asserts.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return r.clone();
        }
        let r = self.check_raw(pool, &key, "", self.timeout_ms);
        self.cache.insert(key, r.clone());
        r
    }

    pub fn check_raw(&mut self, pool: &Pool, key: &[E], extra: &str, timeout_ms: u64) -> Res {
        self.last_core = None;
        // cores are reusable, but come without the solver's dedicated procedures: try briefly, and
        // not where that keeps failing
        let cores = self.cores && (self.core_fail < 20 || self.core_fail * 4 < self.core_tries);
        let (body, vars) = render_named(pool, key, true, cores);
        let real = vars.iter().any(|v| pool.vars[*v as usize].w == REAL);
        let brief = if real { 60 } else { 400 };
        let t0 = Instant::now();
        let mut script = String::from("(reset)\n");
        if cores {
            script.push_str("(set-option :produce-unsat-cores true)\n");
        }
        let _ = writeln!(script, "(set-option :timeout {})", if cores { timeout_ms.min(brief) } else { timeout_ms });
        script.push_str(&body);
        script.push_str(extra);
        script.push_str("(check-sat)\n");
        let mut early = None;
        if cores {
            let r = self.ask(pool, &script, &vars);
            self.core_tries += 1;
            if let Res::Unknown(_) = r {
                self.core_fail += 1;
                let (body, _) = render(pool, key, true);
                script = format!("(reset)\n(set-option :timeout {})\n{}{}(check-sat)\n", timeout_ms, body, extra);
            } else {
                early = Some(r);
            }
        }
        if let Some(f) = &mut self.log {
            let _ = f.write_all(script.as_bytes());
        }
        let mut r = match early {
            Some(r) => r,
            None => self.ask(pool, &script, &vars),
        };
        if let Res::Unknown(m) = &r {
            if m.contains("process") {
                self.p = None;
                if t0.elapsed().as_millis() < timeout_ms as u128 / 2 {
                    // solver died early: restart once
                    r = self.ask(pool, &script, &vars);
                }
            }
        }
        if let (Res::Unknown(m), Some(cmd)) = (&r, self.fallback_cmd.clone()) {
            if !m.contains("error") {
                self.stats.fallback += 1;
                let (body, vars) = render(pool, key, false);
                let logic = if vars.iter().any(|v| pool.vars[*v as usize].w == REAL) { "ALL" } else { "QF_BVFP" };
                let script = format!("(set-logic {})\n{}{}(check-sat)\n", logic, body, extra);
                let main = std::mem::replace(&mut self.cmd, cmd);
                let mp = self.p.take();
                let r2 = self.ask(pool, &script, &vars);
                if let Some(mut p) = std::mem::replace(&mut self.p, mp) {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
                self.cmd = main;
                if !matches!(r2, Res::Unknown(_)) {
                    self.stats.fallback_solved += 1;
                    r = r2;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max {
            self.stats.max = dt;
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        if dt > 5.0 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow query {:.1}s {:?}", dt, match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
            let _ = std::fs::write(format!("/tmp/slow_{}_{}.smt2", std::process::id(), self.stats.queries), &script);
        }
        r
    }

    fn ask(&mut self, pool: &Pool, script: &str, vars: &[u32]) -> Res {
        let r = self.ask_inner(pool, script, vars);
        self.watch.clear();
        if let Res::Unknown(m) = &r {
            if m.contains("process") {
                if let Some(mut p) = self.p.take() {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
            }
        }
        r
    }

    fn ask_inner(&mut self, pool: &Pool, script: &str, vars: &[u32]) -> Res {
        if self.p.is_none() {
            self.p = Some(Self::start(&self.cmd));
        }
        let p = self.p.as_mut().unwrap();
        self.watch.set(self.timeout_ms + self.timeout_ms / 4 + 1000, p.child.id());
        if p.stdin.write_all(script.as_bytes()).is_err() || p.stdin.flush().is_err() {
            return Res::Unknown("solver process died".into());
        }
        let line = match Self::read_balanced(p) {
            Some(l) => l,
            None => return Res::Unknown("solver process died".into()),
        };
        let ans = line.trim().to_string();
        if ans == "unsat" {
            if script.contains(":produce-unsat-cores") {
                let _ = p.stdin.write_all(b"(get-unsat-core)\n");
                let _ = p.stdin.flush();
                if let Some(s) = Self::read_balanced(p) {
                    let core: Option<Vec<E>> = s.trim().trim_matches(|c| c == '(' || c == ')').split_whitespace().map(|x| x.strip_prefix('a').and_then(|x| x.parse().ok())).collect();
                    self.last_core = core;
                }
            }
            return Res::Unsat;
        }
        if ans != "sat" {
            if ans.contains("error") {
                self.p.take().map(|mut p| p.child.kill());
            }
            return Res::Unknown(ans);
        }
        let mut m = Model::new();
        if !vars.is_empty() {
            let mut q = String::from("(get-value (");
            for v in vars {
                let _ = write!(q, "v{} ", v);
            }
            q.push_str("))\n");
            if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
                return Res::Unknown("solver process died".into());
            }
            let s = match Self::read_balanced(p) {
                Some(s) => s,
                None => return Res::Unknown("solver process died".into()),
            };
            let mut i = 0;
            if let Some(Sx::L(v)) = parse_sx(s.as_bytes(), &mut i) {
                for pair in v {
                    if let Sx::L(kv) = pair {
                        if kv.len() != 2 {
                            continue;
                        }
                        if let Sx::A(name) = &kv[0] {
                            if let Some(i) = name.strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                                if pool.vars[i as usize].w == REAL {
                                    match sx_rat(&kv[1]) {
                                        Some(r) => {
                                            m.insert(i, MV::R(r));
                                        }
                                        // irrational or huge: flag the model as partial
                                        None => {
                                            m.insert(u32::MAX, MV::B(1));
                                        }
                                    }
                                } else if let Some(b) = sx_bv(&kv[1]) {
                                    m.insert(i, MV::B(b));
                                }
                            }
                        }
                    }
                }
            }
        }
        Res::Sat(m)
    }

    /// second opinions are a sample: no more once they cost too much or mostly get no answer
    pub fn cross_wanted(&self) -> bool {
        let s = &self.stats;
        s.cross_time < 5.0 && (s.cross_unknown < 2 || s.cross_unknown * 4 < s.cross)
    }
    /// second opinion from another solver (used for discharged assertions)
    pub fn cross(&mut self, pool: &Pool, asserts: &[E]) -> Option<bool> {
        let cmd = self.cross_cmd.clone()?;
        let (body, _) = render(pool, asserts, false);
        let t0 = Instant::now();
        let script = format!("(set-logic ALL)\n{}(check-sat)\n(exit)\n", body);
        let mut c = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        c.stdin.take()?.write_all(script.as_bytes()).ok()?;
        let o = c.wait_with_output().ok()?;
        self.stats.cross_time += t0.elapsed().as_secs_f64();
        let s = String::from_utf8_lossy(&o.stdout).into_owned();
        match s.trim() {
            "sat" => {
                self.stats.cross += 1;
                Some(true)
            }
            "unsat" => {
                self.stats.cross += 1;
                Some(false)
            }
            _ => {
                self.stats.cross_unknown += 1;
                None
            }
        }
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        if let Some(p) = &mut self.p {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}
