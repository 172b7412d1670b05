mod exec;
mod expr;
mod ir;
mod poly;
mod smt;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}
fn viol(v: &exec::Viol) -> String {
    format!(
        "{{\"kind\":{},\"what\":{},\"inputs\":{},\"covers\":{},\"algebraic\":{}}}",
        js(&v.kind),
        js(&v.what),
        list(&v.inputs, |s| js(s)),
        list(&v.covers, |c| c.to_string()),
        v.algebraic
    )
}

fn main() {
    let mut o: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let k = a.trim_start_matches("--").to_string();
        o.insert(k, it.next().expect("option value"));
    }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
    let t0 = Instant::now();
    if std::env::var("SYMX_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let m = ir::Module::load(&o["ir"]);
    let secs: f64 = get("time", "600").parse().unwrap();
    let mut s = smt::Smt::new(&["z3-new", "-in", "-smt2"], get("smt-timeout", "20000").parse().unwrap());
    let cross: u64 = get("cross", "0").parse().unwrap();
    s.cores = get("cores", "1") == "1";
    if cross > 0 {
        s.cross_cmd = Some(vec!["cvc5".into(), "--lang=smt2".into(), format!("--tlimit={}", get("cross-timeout", "5000"))]);
    }
    let tl = format!("--tlimit={}", s.timeout_ms);
    s.fallback_cmd = match get("fallback", "cvc5").as_str() {
        "cvc5" => Some(["cvc5", "--lang=smt2", "--produce-models", "--incremental", &tl].map(String::from).to_vec()),
        "cvc5int" => Some(["cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", &tl].map(String::from).to_vec()),
        "z3old" => Some(["z3", "-in", "-smt2", &format!("-t:{}", s.timeout_ms)].map(String::from).to_vec()),
        _ => None,
    };
    if let Some(f) = o.get("log") {
        s.log = Some(std::fs::File::create(f).unwrap());
    }
    let mut x = exec::Exec::new(m, s, t0 + Duration::from_secs_f64(secs));
    x.cross_every = cross;
    x.max_viol = get("max-viol", "4").parse().unwrap();
    let after: u64 = get("after-viol", "0").parse().unwrap();
    if after > 0 {
        x.after_viol = Some(std::time::Duration::from_secs(after));
    }
    let args: Vec<u64> = get("args", "").split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<i64>().unwrap() as u64).collect();
    x.run(&o["entry"], &args);
    x.confirm_identities();
    let r = &x.rep;
    let st = &x.s.stats;
    let mut out = String::from("{");
    let _ = write!(
        out,
        "\"entry\":{},\"args\":{},\"paths\":{},\"done\":{},\"infeasible\":{},\"expected_panics\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"asserts\":{},\"asserts_solver\":{},\"identities\":{},\"identities_confirmed\":{},\"unknown_asserts\":{},\"timeout\":{},",
        js(&o["entry"]),
        list(&args, |a| (*a as i64).to_string()),
        r.paths,
        r.done,
        r.infeasible,
        r.exp_panics,
        r.forks,
        r.steps,
        r.max_steps,
        r.asserts,
        r.asserts_solver,
        r.identities,
        r.identities_confirmed,
        r.unknown_asserts,
        r.timeout
    );
    let _ = write!(
        out,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"core_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"fallback\":{},\"fallback_solved\":{},\"cross\":{},\"cross_unknown\":{},\"cross_bad\":{},\"wall_s\":{:.3},",
        st.queries,
        st.sat,
        st.unsat,
        st.unknown,
        st.cached,
        st.core_hits,
        st.time,
        st.max,
        st.fallback,
        st.fallback_solved,
        st.cross,
        st.cross_unknown,
        list(&x.cross_bad, |s| js(s)),
        t0.elapsed().as_secs_f64()
    );
    let _ = write!(
        out,
        "\"covers\":{{{}}},\"violations\":{},\"witnesses\":{},\"unsupported\":{},\"functions\":{}}}",
        r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        list(&r.viols, viol),
        list(&r.witnesses, viol),
        list(&r.unsup, |s| js(s)),
        list(r.funcs.keys().filter(|k| k.contains("algeo") || k.starts_with("h_")), |s| js(s))
    );
    match o.get("out") {
        Some(f) => std::fs::write(f, out).unwrap(),
        None => println!("{}", out),
    }
}
