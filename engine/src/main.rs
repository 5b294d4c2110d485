mod exec;
mod ir;
mod mem;
mod term;
mod z3;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn list(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: symex FILE.ll ENTRY OUT.json [key=value ...]"); std::process::exit(3); }
    let mut cfg = exec::Cfg { max_alloc: 1 << 20, max_steps: 20_000_000, max_secs: 600.0, shard: 0, shards: 1, shard_depth: 8, samples: 8, max_viol: 3, seed: 1, dumps: 0, params: vec![0; 16] };
    let mut src = String::from("/repo/");
    for kv in &a[4..] {
        let (k, v) = kv.split_once('=').expect("key=value");
        match k {
            "max_steps" => cfg.max_steps = v.parse().unwrap(),
            "max_alloc" => cfg.max_alloc = v.parse().unwrap(),
            "max_secs" => cfg.max_secs = v.parse().unwrap(),
            "shard" => cfg.shard = v.parse().unwrap(),
            "shards" => cfg.shards = v.parse().unwrap(),
            "shard_depth" => cfg.shard_depth = v.parse().unwrap(),
            "samples" => cfg.samples = v.parse().unwrap(),
            "max_viol" => cfg.max_viol = v.parse().unwrap(),
            "seed" => cfg.seed = v.parse().unwrap(),
            "dumps" => cfg.dumps = v.parse().unwrap(),
            "p0" | "p1" | "p2" | "p3" | "p4" | "p5" | "p6" | "p7" | "p8" | "p9" => cfg.params[k[1..].parse::<usize>().unwrap()] = v.parse().unwrap(),
            "src" => src = v.to_string(),
            _ => { eprintln!("unknown option {}", k); std::process::exit(3); }
        }
    }
    // run on a big stack: term evaluation is recursive
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real_main(a, cfg, src)).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

fn real_main(a: Vec<String>, cfg: exec::Cfg, src: String) -> i32 {
    let t0 = std::time::Instant::now();
    let m = match ir::Module::load(&a[1]) { Ok(m) => m, Err(e) => { eprintln!("load: {}", e); return 3; } };
    let load_s = t0.elapsed().as_secs_f64();
    let (shard, shards) = (cfg.shard, cfg.shards);
    let mut ex = exec::Ex::new(&m, cfg);
    if let Err(e) = ex.start(&a[2]) { eprintln!("start: {}", e); return 3; }
    ex.run();
    // resolve coverage
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut seen = std::collections::HashSet::new();
    let ids: Vec<u32> = ex.dbg_seen.iter().copied().collect();
    for id in ids {
        let mut id = id;
        let mut g = 0;
        while id != 0 && g < 64 && seen.insert(id) {
            if let Some((f, n, l)) = m.loc(id) {
                if f.starts_with(&src) {
                    let rel = f[src.len()..].to_string();
                    fns.insert(format!("{}:{}", rel, n));
                    lines.entry(rel).or_default().insert(l);
                }
            }
            id = m.inlined_at(id).unwrap_or(0);
            g += 1;
        }
    }
    let s = &ex.st;
    let mut o = String::from("{");
    let _ = write!(o, "\"entry\":{},\"shard\":{},\"shards\":{},", esc(&a[2]), shard, shards);
    let _ = write!(o, "\"unsupported\":{},", ex.unsup.as_ref().map(|u| esc(u)).unwrap_or("null".into()));
    let _ = write!(o, "\"timed_out\":{},\"unknown\":{},", ex.timed_out, s.unknown);
    let _ = write!(o, "\"paths\":{},\"expected_panics\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"sym_asserts\":{},\"final_queries\":{},\"final_unsat\":{},\"branch_queries\":{},\"max_steps\":{},\"max_forks\":{},\"max_vars\":{},\"concrete_only\":{},",
        s.paths, s.expected_panics, s.killed, s.forks, s.steps, s.asserts, s.sym_asserts, s.final_queries, s.final_unsat, s.branch_queries, s.max_steps, s.max_forks, s.max_vars, s.concrete_only);
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},\"wall_s\":{:.3},\"load_s\":{:.3},\"terms\":{},\"solver\":{},", ex.sv.queries, ex.sv.sat, ex.sv.unsat, ex.sv.time, ex.sv.max_time, t0.elapsed().as_secs_f64(), load_s, ex.tm.nodes.len(), esc(&z3::Solver::version()));
    let _ = write!(o, "\"covers\":[{}],", ex.covers.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}],", ex.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"line\":{},\"at\":{},\"inputs\":{}}}", esc(&v.kind), esc(&v.msg), v.line, esc(&v.at), list(&v.inputs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", ex.samples.iter().map(|v| format!("{{\"outcome\":{},\"steps\":{},\"inputs\":{},\"obs\":{}}}", esc(v.outcome), v.steps, list(&v.inputs), list(&v.obs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"ir_functions\":[{}],", ex.fn_seen.iter().map(|i| { let n = &m.fn_names[*i]; let p = m.ftexts.get(n).map(|f| f.pretty.clone()).unwrap_or_default(); esc(if p.is_empty() { n } else { &p }) }).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":[{}],", fns.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"lines\":{{{}}},", lines.iter().map(|(f, l)| format!("{}:[{}]", esc(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"dumps\":[{}]", ex.dumps.iter().map(|(t, sat)| format!("{{\"sat\":{},\"smt2\":{}}}", sat, esc(t))).collect::<Vec<_>>().join(","));
    o.push('}');
    std::fs::write(&a[3], o).unwrap();
    if let Some(u) = &ex.unsup { eprintln!("unsupported: {}", u); return 3; }
    0
}
