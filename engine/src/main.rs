//! Symbolic executor for LLVM IR: explores every path of the `h_*` entry points of a module and
//! decides the assertions on them with an SMT solver.
mod exec;
mod ir;
mod lia;
mod mem;
mod solver;
mod sys;
mod term;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
fn ufs(u: &[(String, Vec<u8>, Vec<u8>)]) -> String {
    u.iter().map(|(t, a, o)| format!("{t}:{}:{}", hex(a), hex(o))).collect::<Vec<_>>().join(";")
}
fn csv(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

static mut CHILDREN: Vec<i32> = Vec::new();
#[allow(static_mut_refs)]
pub fn finish_process(ex: &mut Ex) -> ! {
    let mut s = String::new();
    let st = &ex.st;
    for (k, v) in [
        ("paths", st.paths),
        ("panic_paths", st.panics_ok),
        ("assumed_away", st.assumed_away),
        ("instrs", st.instrs),
        ("checks", st.checks),
        ("checks_trivial", st.checks_trivial),
        ("forks", st.forks),
        ("merges", st.merges),
        ("merge_fail", st.merge_fail),
        ("queries", ex.s.queries),
        ("cache_hits", ex.s.cache_hits),
        ("unknown_queries", ex.s.unknowns),
        ("solver_ms", (ex.s.time * 1000.0) as u64),
        ("max_query_ms", (ex.s.max_query * 1000.0) as u64),
        ("processes", 1),
    ] {
        let _ = writeln!(s, "STAT\t{k}\t{v}");
    }
    for (k, v) in &st.covers {
        let _ = writeln!(s, "COVER\t{}\t{v}", esc(k));
    }
    for (k, v) in &st.checked {
        let _ = writeln!(s, "CHECKED\t{}\t{v}", esc(k));
    }
    for f in &st.fns {
        let _ = writeln!(s, "FN\t{}", esc(f));
    }
    for (k, v) in &st.inconclusive {
        let _ = writeln!(s, "INC\t{}\t{v}", esc(k));
    }
    for v in &st.violations {
        let _ = writeln!(s, "VIOL\t{}\t{}\t{}\t{}", esc(&v.msg), csv(&v.inputs), ufs(&v.ufs), esc(&v.trace.join(" < ")));
    }
    for (i, u, o, c) in &st.witnesses {
        let c: Vec<String> = c.iter().map(|x| esc(x)).collect();
        let _ = writeln!(s, "WIT\t{}\t{}\t{}\t{}", csv(i), ufs(u), csv(o), c.join("|"));
    }
    let _ = std::fs::write(format!("{}.{}", ex.results_prefix, std::process::id()), s);
    if std::env::var("SYM_SITES").is_ok() {
        let mut v: Vec<_> = ex.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let mut t = String::new();
        for (k, n) in v.iter().take(25) {
            let _ = writeln!(t, "{n:8} {k}");
        }
        eprint!("--- fork sites (pid {}, {} terms)\n{t}", std::process::id(), term::tm().nodes.len());
    }
    if let Some((_, wr)) = ex.tokens {
        unsafe { sys::write(wr, b"t".as_ptr(), 1) };
    }
    // wait for the processes forked from here
    let mut bad = false;
    loop {
        let mut status = 0i32;
        let p = unsafe { sys::waitpid(-1, &mut status, 0) };
        if p < 0 {
            break;
        }
        if status != 0 {
            bad = true;
        }
    }
    unsafe { sys::_exit(if bad { 3 } else { 0 }) }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut out = String::from("/tmp/engine.json");
    let mut jobs = 8usize;
    let mut time = 600u64;
    let mut depth = 0u64;
    let mut only: Vec<String> = vec![];
    let mut list = false;
    let mut check_ms = 60000u32;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--out" => {
                i += 1;
                out = args[i].clone()
            }
            "--jobs" => {
                i += 1;
                jobs = args[i].parse().unwrap()
            }
            "--time" => {
                i += 1;
                time = args[i].parse().unwrap()
            }
            "--check-ms" => {
                i += 1;
                check_ms = args[i].parse().unwrap()
            }
            "--depth" => {
                i += 1;
                depth = args[i].parse().unwrap()
            }
            "--entry" => {
                i += 1;
                only.push(args[i].clone())
            }
            "--list" => list = true,
            x => ll = x.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut entries: Vec<String> =
        m.fns.iter().filter(|f| f.line.is_some() && f.name.starts_with("h_")).map(|f| f.name.clone()).collect();
    if list {
        for e in entries {
            println!("{e}");
        }
        return;
    }
    if !only.is_empty() {
        entries.retain(|e| only.iter().any(|o| o == e));
    }
    if entries.is_empty() {
        eprintln!("no entry points");
        std::process::exit(2);
    }
    let mut fds = [0i32; 2];
    unsafe {
        sys::pipe(fds.as_mut_ptr());
    }
    for _ in 0..jobs {
        unsafe { sys::write(fds[1], b"t".as_ptr(), 1) };
    }
    let mut ex = Ex::new(m);
    ex.depth = depth;
    ex.check_ms = check_ms;
    ex.t0 = t0;
    ex.deadline = t0 + Duration::from_secs(time);
    let mut pids: BTreeMap<i32, String> = BTreeMap::new();
    let mut crashed: Vec<String> = vec![];
    let mut t_entry: BTreeMap<String, (Instant, f64)> = BTreeMap::new();
    let reap = |pids: &mut BTreeMap<i32, String>, crashed: &mut Vec<String>, t: &mut BTreeMap<String, (Instant, f64)>, block: bool| loop {
        let mut status = 0;
        let p = unsafe { sys::waitpid(-1, &mut status, if block { 0 } else { 1 }) };
        if p <= 0 {
            break;
        }
        if let Some(e) = pids.remove(&p) {
            if let Some(x) = t.get_mut(&e) {
                x.1 = x.0.elapsed().as_secs_f64();
            }
            if status != 0 {
                crashed.push(e);
            }
        }
        if block && pids.is_empty() {
            break;
        }
    };
    for e in &entries {
        let mut b = [0u8; 1];
        // blocking read of a token
        while unsafe { sys::read(fds[0], b.as_mut_ptr(), 1) } != 1 {}
        reap(&mut pids, &mut crashed, &mut t_entry, false);
        t_entry.insert(e.clone(), (Instant::now(), 0.0));
        std::io::stdout().flush().ok();
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::prctl(1, 9, 0, 0, 0);
            }
            ex.results_prefix = format!("{out}.part.{e}");
            // tokens are taken without blocking from now on; a separate pipe end is not needed
            // because all processes poll first
            ex.tokens = Some((fds[0], fds[1]));
            if let Some(s) = ex.start(e) {
                ex.explore(s, Stop::No);
            }
            finish_process(&mut ex);
        }
        pids.insert(pid, e.clone());
    }
    if !pids.is_empty() {
        reap(&mut pids, &mut crashed, &mut t_entry, true);
    }
    // ---------------------------------------------------------------- aggregate
    let mut js = String::from("{\"entries\":[");
    let dir = std::path::Path::new(&out).parent().unwrap().to_path_buf();
    let base = std::path::Path::new(&out).file_name().unwrap().to_string_lossy().into_owned();
    let mut files: Vec<_> = std::fs::read_dir(if dir.as_os_str().is_empty() { std::path::PathBuf::from(".") } else { dir })
        .unwrap()
        .filter_map(|e| e.ok().map(|e| e.path()))
        .collect();
    files.sort();
    for (n, e) in entries.iter().enumerate() {
        let prefix = format!("{base}.part.{e}.");
        let mut stats: BTreeMap<String, u64> = BTreeMap::new();
        let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
        let mut fns = std::collections::BTreeSet::new();
        let mut viols = vec![];
        let mut wits = vec![];
        let mut found = false;
        for f in &files {
            let name = f.file_name().unwrap().to_string_lossy().into_owned();
            if !name.starts_with(&prefix) || name[prefix.len()..].parse::<u32>().is_err() {
                continue;
            }
            found = true;
            let txt = std::fs::read_to_string(f).unwrap_or_default();
            let _ = std::fs::remove_file(f);
            for l in txt.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "STAT" => {
                        let v: u64 = p[2].parse().unwrap();
                        let x = stats.entry(p[1].to_string()).or_insert(0);
                        if p[1].starts_with("max_") {
                            *x = (*x).max(v)
                        } else {
                            *x += v
                        }
                    }
                    "COVER" | "CHECKED" | "INC" => {
                        let k = match p[0] {
                            "COVER" => "covers",
                            "CHECKED" => "checked",
                            _ => "inconclusive",
                        };
                        *maps.entry(k).or_default().entry(p[1].to_string()).or_insert(0) += p[2].parse::<u64>().unwrap();
                    }
                    "FN" => {
                        fns.insert(p[1].to_string());
                    }
                    "VIOL" => viols.push(format!(
                        "{{\"msg\":{},\"inputs\":[{}],\"ufs\":{},\"trace\":{}}}",
                        jstr(p[1]),
                        p[2],
                        jstr(p[3]),
                        jstr(p[4])
                    )),
                    "WIT" => {
                        if wits.len() < 12 {
                            wits.push(format!(
                                "{{\"inputs\":[{}],\"ufs\":{},\"obs\":[{}],\"covers\":{}}}",
                                p[1],
                                jstr(p[2]),
                                p[3],
                                jstr(p[4])
                            ))
                        }
                    }
                    _ => {}
                }
            }
        }
        if !found || crashed.contains(e) {
            maps.entry("inconclusive").or_default().insert("an exploring process crashed".into(), 1);
        }
        if n > 0 {
            js.push(',');
        }
        let _ = write!(js, "{{\"name\":{},\"wall_s\":{:.2}", jstr(e), t_entry.get(e).map(|x| x.1).unwrap_or(0.0));
        for (k, v) in &stats {
            let _ = write!(js, ",{}:{}", jstr(k), v);
        }
        for k in ["covers", "checked", "inconclusive"] {
            let _ = write!(js, ",{}:{{", jstr(k));
            if let Some(m) = maps.get(k) {
                let v: Vec<String> = m.iter().map(|(a, b)| format!("{}:{}", jstr(a), b)).collect();
                js.push_str(&v.join(","));
            }
            js.push('}');
        }
        let v: Vec<String> = fns.iter().map(|x| jstr(x)).collect();
        let _ = write!(js, ",\"functions\":[{}],\"violations\":[{}],\"witnesses\":[{}]}}", v.join(","), viols.join(","), wits.join(","));
    }
    let _ = write!(js, "],\"wall_s\":{:.2},\"solver\":{}}}", t0.elapsed().as_secs_f64(), jstr(&format!("Z3 {}", solver::z3_version())));
    std::fs::write(&out, js).unwrap();
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
