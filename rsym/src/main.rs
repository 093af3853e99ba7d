mod exec;
mod expr;
mod ir;
mod z3;
use std::fmt::Write;
use std::sync::{Arc, Mutex};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Opt {
    steps: u64,
    paths: u64,
    wall: f64,
    depth: usize,
    huge: u64,
    maxv: usize,
    samples: usize,
    zt: u32,
    dump: Option<String>,
}

fn run_one(p: &exec::Prepared, h: &str, o: &Opt) -> String {
    let lim = exec::Limits { steps: o.steps, paths: o.paths, wall: o.wall, depth: o.depth, huge: o.huge, max_viol: o.maxv, samples: o.samples };
    let mut e = exec::Exec::new(p, lim, o.zt);
    if let Some(d) = &o.dump {
        let d = std::path::Path::new(d).join(h);
        let _ = std::fs::create_dir_all(&d);
        e.z.dump = Some(d);
    }
    let found = e.run(h);
    let mut s = String::new();
    write!(s, "{{\"harness\":{},\"found\":{},\"timeout\":{},\"paths\":{},\"instrs\":{},\"forks\":{},\"solver_queries\":{},\"solver_sat\":{},\"solver_unsat\":{},\"solver_s\":{:.3},\"domain_queries\":{},\"cached_queries\":{},\"checks\":{},\"check_queries\":{},\"symbols\":{},\"wall_s\":{:.3},\"nodes\":{}", js(h), found, e.timed_out, e.paths, e.instrs, e.forks, e.z.queries, e.z.sat, e.z.unsat, e.z.time, e.domq, e.cacheq, e.checks, e.check_queries, e.maxsym, e.elapsed(), e.x.nodes.len()).unwrap();
    write!(s, ",\"outcomes\":{{{}}}", e.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, ",\"covers\":{{{}}}", e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, ",\"violation_count\":{},\"violations\":[{}]", e.viol_count, e.viol.iter().map(|v| format!("{{\"kind\":{},\"detail\":{},\"input\":\"{}\",\"stack\":[{}]}}", js(&v.kind), js(&v.detail), hex(&v.input), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, ",\"samples\":[{}]", e.samples.iter().map(|v| format!("{{\"input\":\"{}\",\"outcome\":{},\"obs\":[{}]}}", hex(&v.input), js(&v.outcome), v.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")).unwrap();
    let fns: Vec<String> = e.funcs.iter().map(|f| js(&e.fname(*f))).collect();
    write!(s, ",\"functions\":[{}]}}", fns.join(",")).unwrap();
    s
}

fn main() {
    let mut a = std::env::args().skip(1);
    let file = a.next().expect("usage: rsym FILE.ll [opts] harness...");
    let mut hs = vec![];
    let mut o = Opt { steps: 3_000_000, paths: 200_000, wall: 120.0, depth: 400, huge: 64 << 20, maxv: 4, samples: 200, zt: 20_000, dump: None };
    let mut threads = 1usize;
    let mut list = false;
    let mut prefix = None;
    while let Some(x) = a.next() {
        let mut v = || a.next().unwrap();
        match x.as_str() {
            "--steps" => o.steps = v().parse().unwrap(),
            "--paths" => o.paths = v().parse().unwrap(),
            "--wall" => o.wall = v().parse().unwrap(),
            "--depth" => o.depth = v().parse().unwrap(),
            "--huge" => o.huge = v().parse().unwrap(),
            "--max-viol" => o.maxv = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--ztimeout" => o.zt = v().parse().unwrap(),
            "--dump" => o.dump = Some(v()),
            "--threads" => threads = v().parse().unwrap(),
            "--prefix" => prefix = Some(v()),
            "--list" => list = true,
            _ => hs.push(x),
        }
    }
    let text = std::fs::read_to_string(&file).expect("read");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(&text)));
    drop(text);
    if let Some(p) = prefix {
        for f in &m.funcs {
            if f.defined && f.name.starts_with(&p) {
                hs.push(f.name.clone());
            }
        }
    }
    if list {
        for h in hs {
            println!("{}", h);
        }
        return;
    }
    let p = Arc::new(exec::prepare(m));
    let o = Arc::new(o);
    let q = Arc::new(Mutex::new(hs.into_iter().rev().collect::<Vec<_>>()));
    let out = Arc::new(Mutex::new(()));
    let mut th = vec![];
    for _ in 0..threads {
        let (p, o, q, out) = (p.clone(), o.clone(), q.clone(), out.clone());
        th.push(
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn(move || loop {
                    let h = { q.lock().unwrap().pop() };
                    let Some(h) = h else { break };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_one(&p, &h, &o)));
                    let s = match r {
                        Ok(s) => s,
                        Err(e) => {
                            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                            format!("{{\"harness\":{},\"found\":true,\"engine_panic\":{}}}", js(&h), js(&msg))
                        }
                    };
                    let _g = out.lock().unwrap();
                    println!("{}", s);
                })
                .unwrap(),
        );
    }
    for t in th {
        t.join().unwrap();
    }
}
