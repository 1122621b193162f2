//! Symbolic execution of whole-program LLVM IR produced by rustc.
mod dl;
mod exec;
mod expr;
mod fp;
mod intr;
mod llvm;
mod mem;
mod par;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn split(s: &str) -> Vec<String> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}

fn part_text(e: &Engine) -> String {
    let t = &e.tot;
    let s = &e.s.stats;
    let mut o = String::new();
    for (k, v) in [
        ("paths", t.paths as f64),
        ("completed", t.completed as f64),
        ("infeasible", t.infeasible as f64),
        ("forks", t.forks as f64),
        ("steps", t.steps as f64),
        ("asserts", t.asserts as f64),
        ("symasserts", t.symasserts as f64),
        ("unknowns", t.unknowns as f64),
        ("queries", s.queries as f64),
        ("sat", s.sat as f64),
        ("unsat", s.unsat as f64),
        ("solver_unknown", s.unknown as f64),
        ("cache_hits", s.cache_hits as f64),
        ("model_hits", s.model_hits as f64),
        ("solver_ms", s.solver_ms),
        ("workers", 1.0),
    ] {
        o.push_str(&format!("T\t{k}\t{v}\n"));
    }
    o.push_str(&format!("M\tmax_ms\t{}\n", s.max_ms));
    for (k, v) in &t.incomplete {
        o.push_str(&format!("I\t{}\t{v}\n", k.replace(['\t', '\n'], " ")));
    }
    for (k, v) in &t.covers {
        o.push_str(&format!("C\t{}\t{v}\n", k.replace(['\t', '\n'], " ")));
    }
    for (k, v) in &e.violations {
        o.push_str(&format!("V\t{}\t{v}\n", k.replace(['\t', '\n'], " ")));
    }
    for (i, n) in e.fn_hit.iter().enumerate() {
        if *n > 0 {
            let f = &e.m.funcs[i].name;
            if f.contains("souris") || f.contains("Souris") {
                o.push_str(&format!("F\t{}\t{n}\n", demangle(f)));
            }
        }
    }
    if e.cfg.trace {
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.into_iter().take(60) {
            o.push_str(&format!("P\t{}:{b}\t{n}\n", demangle(&e.m.funcs[*f as usize].name)));
        }
    }
    for l in &e.out {
        o.push_str("O\t");
        o.push_str(l);
        o.push('\n');
    }
    o
}

/// Finish this process's share: publish it, free the worker slot, wait for descendants.
fn finish(e: &mut Engine) -> String {
    let file = format!("{}/{}", e.par.dir, std::process::id());
    let txt = part_text(e);
    std::fs::write(&file, &txt).expect("write part");
    e.par.release();
    let bad = e.par.wait_all();
    if bad > 0 {
        let t = format!("{txt}I\tworker process died\t{bad}\n");
        std::fs::write(&file, t).expect("write part");
    }
    file
}

fn merge(e: &Engine, entry: &str, wall: f64, out: &str) {
    let mut sums: BTreeMap<String, f64> = BTreeMap::new();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut lines: Vec<String> = vec![];
    let mut files: Vec<_> = std::fs::read_dir(&e.par.dir).map(|d| d.flatten().map(|x| x.path()).collect()).unwrap_or_default();
    files.sort();
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap_or_default();
        for l in t.lines() {
            let mut it = l.splitn(3, '\t');
            let (k, a) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            let b = it.next().unwrap_or("");
            match k {
                "T" => *sums.entry(a.into()).or_insert(0.0) += b.parse::<f64>().unwrap_or(0.0),
                "M" => {
                    let x = sums.entry(a.into()).or_insert(0.0);
                    *x = x.max(b.parse().unwrap_or(0.0));
                }
                "I" => *maps.entry("incomplete").or_default().entry(a.into()).or_insert(0) += b.parse().unwrap_or(1),
                "C" => *maps.entry("covers").or_default().entry(a.into()).or_insert(0) += b.parse().unwrap_or(1),
                "V" => *maps.entry("violations").or_default().entry(a.into()).or_insert(0) += b.parse().unwrap_or(1),
                "F" => *maps.entry("functions").or_default().entry(a.into()).or_insert(0) += b.parse().unwrap_or(1),
                "P" => *maps.entry("prof").or_default().entry(a.into()).or_insert(0) += b.parse().unwrap_or(1),
                "O" => lines.push(l[2..].to_string()),
                _ => {}
            }
        }
    }
    let mut s = format!("{{\"kind\":\"summary\",\"entry\":{},\"wall_s\":{wall:.3}", json_str(entry));
    s.push_str(&format!(",\"z3\":{},\"llvm\":{}", json_str(&e.s.version), json_str(&e.m.llvm)));
    for (k, v) in &sums {
        s.push_str(&format!(",{}:{}", json_str(k), v));
    }
    for k in ["incomplete", "covers", "violations", "functions", "prof"] {
        s.push_str(&format!(",{}:{{", json_str(k)));
        let m = maps.remove(k).unwrap_or_default();
        let v: Vec<String> = m.iter().map(|(a, b)| format!("{}:{b}", json_str(a))).collect();
        s.push_str(&v.join(","));
        s.push('}');
    }
    s.push_str("}\n");
    for l in lines {
        s.push_str(&l);
        s.push('\n');
    }
    std::fs::write(out, s).expect("write result");
}

fn main() {
    // a worker forked from a thread would otherwise only end that thread
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        std::process::exit(7);
    }));
    // deep expressions are walked recursively
    let t = std::thread::Builder::new().stack_size(4 << 30).spawn(run).expect("thread");
    let _ = t.join();
    std::process::exit(6);
}

fn run() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let Some(k) = k.strip_prefix("--") else {
            eprintln!("engine: unexpected argument {k}");
            std::process::exit(2);
        };
        a.insert(k.to_string(), it.next().unwrap_or_default());
    }
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| a.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let llvm_libs = split(&get("llvm", ""));
    let z3_libs = split(&get("z3", "libz3.so"));
    let module = get("module", "");
    let entries = split(&get("entry", ""));
    let out = get("out", ".");
    let workers = num("workers", 1).max(1) as usize;
    let mut p = expr::Pool::new();
    let t0 = Instant::now();
    let m = llvm::load(&llvm_libs, &module, &mut p);
    if num("trace", 0) != 0 {
        eprintln!("engine: loaded {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    }
    let mut s = solver::Solver::new(&z3_libs, num("solver-ms", 20000) as u32);
    s.dump_dir = a.get("dump").cloned();
    s.dump_every = num("dump-ms", 0);
    let cfg = Cfg {
        max_steps: num("max-steps", 40_000_000),
        deadline: None,
        max_samples: num("samples", 40) as usize,
        max_enum: num("max-enum", 4096) as usize,
        max_depth: num("max-depth", 700) as usize,
        stop_on_violation: num("stop", 6) as usize,
        trace: num("trace", 0) != 0,
    };
    let secs = num("timeout", 600);
    let par = par::Par::new(workers);
    let mut e = Engine::new(m, p, s, cfg, par);
    for entry in entries {
        e.par.take_wait();
        match e.par.fork_now() {
            par::Role::Child => {
                let t = Instant::now();
                e.cfg.deadline = Some(t + Duration::from_secs(secs));
                e.par.dir = format!("{out}/{entry}.parts");
                std::fs::create_dir_all(&e.par.dir).expect("mkdir");
                let root = std::process::id();
                if !e.start(&entry) {
                    eprintln!("engine: no function {entry} in {module}");
                    e.par.release();
                    std::process::exit(4);
                }
                e.run();
                finish(&mut e);
                if std::process::id() == root {
                    merge(&e, &entry, t.elapsed().as_secs_f64(), &format!("{out}/{entry}.jsonl"));
                    let _ = std::fs::remove_dir_all(&e.par.dir);
                }
                std::process::exit(0);
            }
            par::Role::Parent => {}
            par::Role::None => {
                eprintln!("engine: fork failed");
                std::process::exit(3);
            }
        }
    }
    let bad = e.par.wait_all();
    std::process::exit(if bad > 0 { 5 } else { 0 });
}
