mod exec;
mod ir;
mod val;
mod z3;
use std::collections::HashMap;
use std::io::{BufRead, Write};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

/// job: `entry=NAME params=1,2 key=value ...`
fn job(m: &ir::Module, line: &str, prefix: &str) -> String {
    let kv: HashMap<&str, &str> = line.split_whitespace().filter_map(|t| t.split_once('=')).collect();
    let num = |k: &str, d: f64| -> f64 { kv.get(k).map_or(d, |v| v.parse().unwrap()) };
    let t0 = std::time::Instant::now();
    let opts = exec::Opts {
        merge: num("merge", 1.0) != 0.0, merge_int: num("merge_int", 0.0) != 0.0, merge_mem: num("merge_mem", 1.0) != 0.0, max_insts: num("max_insts", 2e10) as u64, max_path: num("max_path", 2e9) as u64,
        max_forks: num("max_forks", 1e6) as u64, max_seconds: num("seconds", 600.0), spec: num("spec", 48.0) as usize, conc_limit: num("conc_limit", 4096.0) as usize, slice: num("slice", 0.0) != 0.0,
    };
    let mut e = exec::Exec::new(m, opts);
    e.ctx.timeout_ms = (num("query_seconds", 120.0) * 1000.0) as u32;
    e.ctx.seed = num("seed", 0.0) as u32;
    e.ctx.tab_limit = num("tab", 16.0) as usize;
    e.ctx.support_tab = num("support_tab", 0.0) != 0.0;
    e.ctx.xcheck = num("xcheck", 1.0) != 0.0;
    e.trace = num("trace", 0.0) != 0.0;
    e.fs = num("fs", 0.0) != 0.0;
    if let Some(p) = kv.get("params") { e.params = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); }
    if let Some(p) = kv.get("conc") { e.conc = Some(p.split(',').map(unhex).collect()); }
    let entry = kv.get("entry").unwrap().to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_entry(&entry)));
    let mut o = String::from("{");
    let mut err = e.fail.clone();
    if r.is_err() { err = Some(LAST_PANIC.with(|l| l.borrow().clone())); }
    let status = if e.violation.is_some() { "violation" } else if err.is_some() { "error" } else { "ok" };
    o.push_str(&format!("\"status\":{},\"error\":{}", esc(status), err.as_ref().map_or("null".into(), |s| esc(s))));
    o.push_str(&format!(",\"paths\":{},\"insts\":{},\"sym_insts\":{},\"forks\":{},\"merges\":{},\"merge_refused\":{},\"asserts_by_simplification\":{},\"asserts_by_solver\":{},\"assumes\":{}", e.paths, e.insts, e.sym_insts, e.forks, e.merges, e.merge_fail, e.asserts_simpl, e.asserts_solver, e.assumes));
    let s = &e.ctx.stats;
    o.push_str(&format!(",\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.4},\"max_query_s\":{:.4},\"folded\":{},\"vars\":{},\"nodes\":{},\"wall_s\":{:.4}", s.sat, s.unsat, s.unknown, s.solver_s, s.max_query_s, s.folded, e.ctx.nvars, e.ctx.nodes.len(), t0.elapsed().as_secs_f64()));
    o.push_str(&format!(",\"reach\":{{{}}}", e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(",\"notes\":[{}]", e.notes_out.iter().map(|n| format!("[{}]", n.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    for (name, v) in [("violation", &e.violation), ("candidate", &e.candidate)] {
        let v = match v { Some(v) => v, None => continue };
        o.push_str(&format!(",\"{}\":{{\"kind\":{},\"inputs\":[{}],\"loc\":[{}]}}", name, esc(&v.kind), v.inputs.iter().map(|i| esc(&hex(i))).collect::<Vec<_>>().join(","),
            v.loc.iter().map(|(f, l, n)| format!("[{},{},{}]", esc(f), l, esc(&exec::demangle(n)))).collect::<Vec<_>>().join(",")));
    }
    o.push_str(&format!(",\"witnesses\":[{}]", e.witnesses.iter().map(|w| format!("[{}]", w.iter().map(|i| esc(&hex(i))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    if num("cover", 1.0) != 0.0 {
        let (f, l) = exec::coverage(m, &e.visited, prefix);
        o.push_str(&format!(",\"functions\":[{}],\"lines\":[{}]", f.iter().map(|(k, _)| esc(k)).collect::<Vec<_>>().join(","), l.iter().map(|(f, l)| esc(&format!("{}:{}", f, l))).collect::<Vec<_>>().join(",")));
    }
    if e.trace {
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((fi, b), n) in v.iter().take(15) {
            let f = m.func(*fi);
            let d = f.blocks[*b as usize].dbg.last().copied().unwrap_or(0);
            let loc: Vec<String> = m.loc(d).iter().take(4).map(|(f, l, _)| format!("{}:{}", f.rsplit('/').next().unwrap(), l)).collect();
            eprintln!("fork {:6} {} b{} {:?}", n, exec::demangle(&f.name), b, loc);
        }
        for (what, map) in [("refused", &e.mf_sites), ("conc", &e.conc_sites)] {
            let mut v: Vec<_> = map.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((n, d), k) in v.iter().take(15) {
                let loc: Vec<String> = m.loc(*d).iter().take(4).map(|(f, l, _)| format!("{}:{}", f.rsplit('/').next().unwrap(), l)).collect();
                eprintln!("{} {:6} {} {:?}", what, k, n, loc);
            }
        }
    }
    o.push('}');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        LAST_PANIC.with(|x| *x.borrow_mut() = format!("{}{}", m, l));
    }));
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
        let path = &args[2];
        let prefix = args.get(3).cloned().unwrap_or_else(|| "/repo/".into());
        let m = ir::Module::load(path);
        match args[1].as_str() {
            "run" => { println!("{}", job(&m, &args[4..].join(" "), &prefix)); }
            "serve" => {
                println!("{{\"ready\":true,\"z3\":{}}}", esc(&z3::version()));
                for l in std::io::stdin().lock().lines() {
                    let l = l.unwrap();
                    if l.trim().is_empty() { continue; }
                    let r = job(&m, &l, &prefix);
                    println!("{}", r);
                    std::io::stdout().flush().unwrap();
                }
            }
            _ => panic!("usage: symx run|serve module.ll repo-prefix [job]"),
        }
    }).unwrap();
    h.join().unwrap();
}
