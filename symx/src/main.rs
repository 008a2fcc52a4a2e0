mod builtins;
mod exec;
mod expr;
mod ir;
mod native;
mod relax;
mod solver;

use std::fmt::Write as _;
use std::time::Instant;

/// Just enough of v0 demangling to read a path: identifiers in order.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        let c = b[i];
        if c == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
                continue;
            }
        }
        if c.is_ascii_digit() && c != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    // deep expression recursion needs a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => native::replay(&a),
        _ => {
            eprintln!("usage: symx run --ir F --entry N --out F [--param a,b] | symx replay --so F --entry N --in F --out F");
            3
        }
    }
}

fn params(a: &[String]) -> Vec<u64> {
    arg(a, "--param").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default()
}

fn run(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let irf = arg(a, "--ir").expect("--ir");
    let entry = arg(a, "--entry").expect("--entry");
    let out = arg(a, "--out");
    let num = |k: &str, d: f64| arg(a, k).map(|x| x.parse::<f64>().unwrap()).unwrap_or(d);
    let text = match std::fs::read_to_string(&irf) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", irf, e);
            return 3;
        }
    };
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse: {}", e);
            return 3;
        }
    };
    let load_ms = t0.elapsed().as_millis();
    let z = arg(a, "--z3").unwrap_or("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
    let z2p = "/usr/lib/x86_64-linux-gnu/libz3.so.4";
    let to = num("--solver-timeout", 20000.0) as u32;
    let mut sv = match solver::Solver::new(&z, to).or_else(|| solver::Solver::new(z2p, to)) {
        Some(s) => s,
        None => {
            eprintln!("no solver library");
            return 3;
        }
    };
    let mut second = String::new();
    if a.iter().any(|x| x == "--cross") {
        if let Some(s) = solver::Solver::new(z2p, to) {
            second = s.version();
            sv.second = Some(Box::new(s));
        }
    }
    sv.dump = arg(a, "--dump-unknown");
    let lim = exec::Limits { secs: num("--time", 600.0), mem_mb: num("--mem", 3500.0) as u64, viol_secs: num("--viol-time", 1e9), paths: num("--paths", 1e9) as u64, path_instrs: num("--path-instrs", 5e8) as u64, samples: num("--samples", 64.0) as usize };
    let mut ex = exec::Exec::new(m, sv, lim);
    ex.params = params(a);
    let t1 = Instant::now();
    ex.run(&entry);
    let secs = t1.elapsed().as_secs_f64();

    let mut o = String::from("{");
    let status = if ex.incomplete.is_some() || !ex.unsupported.is_empty() {
        "incomplete"
    } else if !ex.viols.is_empty() {
        "violated"
    } else {
        "ok"
    };
    let _ = write!(o, "\"entry\":{},\"params\":{:?},\"status\":\"{}\",", jstr(&entry), ex.params, status);
    let _ = write!(o, "\"stopped\":{},\"incomplete\":{},", ex.stopped, ex.incomplete.as_ref().map(|s| jstr(s)).unwrap_or("null".into()));
    let _ = write!(o, "\"unsupported\":{{{}}},", ex.unsupported.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"paths\":{},\"paths_violating\":{},\"paths_infeasible\":{},\"forks\":{},\"instructions\":{},\"max_depth\":{},\"max_path_instructions\":{},\"max_symbolic_bytes\":{},", ex.paths, ex.paths_viol, ex.paths_infeasible, ex.forks, ex.instrs, ex.max_depth, ex.max_instrs, ex.max_vars);
    let s = &ex.sv;
    let _ = write!(
        o,
        "\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"seconds\":{:.3},\"max_ms\":{},\"fp_queries\":{},\"relaxed\":{},\"second\":{},\"cross_checked\":{},\"disagreements\":{}}},",
        jstr(&s.version()), s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.time_us as f64 / 1e6, s.max_us / 1000, s.fp_queries, s.relaxed, jstr(&second), s.cross_checked, s.disagreements
    );
    let _ = write!(o, "\"load_ms\":{},\"seconds\":{:.3},", load_ms, secs);
    let _ = write!(o, "\"checks\":{{{}}},", ex.checks.iter().map(|(k, v)| format!("{}:{{\"folded\":{},\"proved\":{},\"violated\":{}}}", jstr(k), v.folded, v.proved, v.violated)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"reach\":{{{}}},", ex.reached.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"violations\":[{}],",
        ex.viols
            .iter()
            .map(|v| format!("{{\"kind\":{},\"site\":{},\"input\":\"{}\",\"count\":{},\"stack\":[{}]}}", jstr(&v.kind), jstr(&v.site), hex(&v.input), v.count, v.stack.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        "\"samples\":[{}],",
        ex.samples
            .iter()
            .map(|s| format!("{{\"input\":\"{}\",\"log\":[{}],\"reach\":[{}]}}", hex(&s.input), s.log.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","), s.reach.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let fns: Vec<String> = ex.fns.iter().filter(|f| matches!(f.kind, exec::FKind::Def(_))).map(|f| demangle(&f.name)).collect();
    let ni: u64 = ex.fns.iter().filter(|f| matches!(f.kind, exec::FKind::Def(_))).map(|f| f.ir_insts as u64).sum();
    let _ = write!(o, "\"functions\":[{}],\"encoded_instructions\":{},", fns.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), ni);
    let mut fs: Vec<(u64, u64)> = ex.forksites.iter().map(|(k, v)| (*v, *k)).collect();
    fs.sort();
    fs.reverse();
    let _ = write!(
        o,
        "\"forksites\":[{}]}}",
        fs.iter().take(12).map(|(n, k)| jstr(&format!("{} {} bb{} i{}", n, demangle(&ex.fns[(k >> 32) as usize].name), (k >> 12) & 0xfffff, k & 0xfff))).collect::<Vec<_>>().join(",")
    );
    o.push('\n');
    match out {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => print!("{}", o),
    }
    0
}
