#![allow(unused_unsafe)]
//! symex: symbolic execution of rustc-emitted LLVM IR, deciding with Z3.
mod decode;
mod exec;
mod expr;
mod llvm;
mod mem;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::*;
use std::sync::*;
use std::time::*;

struct Shared {
    q: Mutex<Vec<Vec<D>>>,
    cv: Condvar,
    idle: AtomicUsize,
    done: AtomicBool,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct Out {
    st: Stats,
    viol: Vec<Violation>,
    samples: Vec<(Vec<u8>, Vec<u8>)>,
    fns: Vec<bool>,
    z: (u64, u64, u64, u64, f64),
    pending: u64,
    recheck_bad: u64,
    rechecks: u64,
}

fn worker(p: &decode::Program, root: u32, cfg: Cfg, sh: &Shared, n: usize, max_viol: usize) -> Out {
    let mut e = Engine::new(p, cfg.clone());
    let mut pending = 0u64;
    let (mut bad, mut rechecks) = (0u64, 0u64);
    'outer: loop {
        let prefix = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if sh.done.load(Ordering::SeqCst) {
                    break 'outer;
                }
                if let Some(x) = q.pop() {
                    break x;
                }
                let k = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                if k == n {
                    sh.done.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    break 'outer;
                }
                q = sh.cv.wait(q).unwrap();
                sh.idle.fetch_sub(1, Ordering::SeqCst);
            }
        };
        let s = e.initial(root, prefix);
        e.work.push(s);
        while let Some(mut s) = e.work.pop() {
            let timeout = Instant::now() > cfg.deadline || sh.done.load(Ordering::SeqCst);
            if timeout {
                pending += 1 + e.work.len() as u64;
                e.work.clear();
                sh.done.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
            let r = e.run(&mut s);
            if !matches!(r, End::Killed | End::Timeout | End::Error(_)) && (cfg.z3_all || e.st.paths % 16 == 0) {
                rechecks += 1;
                if !e.recheck(&s) {
                    bad += 1;
                }
            }
            e.finish(&s, r);
            drop(s);
            if e.viol.len() >= max_viol {
                sh.done.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
            }
            if e.work.len() > 1 && sh.idle.load(Ordering::SeqCst) > 0 {
                let mut q = sh.q.lock().unwrap();
                let k = sh.idle.load(Ordering::SeqCst).saturating_sub(q.len()).min(e.work.len() / 2);
                for _ in 0..k {
                    let d = e.work.remove(0);
                    q.push(d.trace);
                    e.st.stolen += 1;
                }
                drop(q);
                sh.cv.notify_all();
            }
        }
    }
    Out {
        st: e.st,
        viol: e.viol,
        samples: e.samples,
        fns: e.seen_fn,
        z: (e.z.n_z3, e.z.n_cached, e.z.n_unsat, e.z.n_unknown, e.z.time),
        pending,
        recheck_bad: bad,
        rechecks,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|s| s.as_str()) {
        Some("prep") => {
            let inp = get("--in").unwrap();
            let out = get("--out").unwrap();
            let roots: Vec<String> = get("--roots").unwrap().split(',').map(|s| s.to_string()).collect();
            decode::prep(&inp, &out, &roots, get("--no-hash-stub").is_none());
        }
        Some("run") => {
            let bc = get("--bc").unwrap();
            let root = get("--root").unwrap();
            let secs: f64 = get("--time").unwrap_or("60".into()).parse().unwrap();
            let threads: usize = get("--threads").unwrap_or("8".into()).parse().unwrap();
            let t0 = Instant::now();
            let p = decode::load(&bc);
            let load_s = t0.elapsed().as_secs_f64();
            let root_id = match p.by_name.get(&root) {
                Some(r) if p.funcs[*r as usize].has_body => *r,
                _ => {
                    eprintln!("no function {root}");
                    std::process::exit(3)
                }
            };
            let t1 = Instant::now();
            let cfg = Cfg {
                max_steps: get("--max-steps").unwrap_or("200000000".into()).parse().unwrap(),
                max_depth: get("--max-depth").unwrap_or("4000".into()).parse().unwrap(),
                hash_mode: get("--hash").unwrap_or("0".into()).parse().unwrap(),
                verbose: get("--verbose").is_some(),
                deadline: t1 + Duration::from_secs_f64(secs),
                sample: get("--sample").unwrap_or("97".into()).parse().unwrap(),
                z3_all: get("--z3-all").is_some(),
            };
            let max_viol: usize = get("--max-viol").unwrap_or("200".into()).parse().unwrap();
            let sh = Shared { q: Mutex::new(vec![vec![]]), cv: Condvar::new(), idle: AtomicUsize::new(0), done: AtomicBool::new(false) };
            let outs: Vec<Out> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|_| {
                        let (p, sh, cfg) = (&p, &sh, cfg.clone());
                        std::thread::Builder::new()
                            .stack_size(512 << 20)
                            .spawn_scoped(s, move || worker(p, root_id, cfg, sh, threads, max_viol))
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let wall = t1.elapsed().as_secs_f64();
            let mut t = Stats::default();
            let mut covers: BTreeMap<String, u64> = BTreeMap::new();
            let mut asserts: BTreeMap<String, u64> = BTreeMap::new();
            let mut fns = vec![false; p.funcs.len()];
            let (mut z3, mut cached, mut unsat, mut unk, mut zt) = (0, 0, 0, 0, 0.0);
            let (mut pending, mut bad, mut rechecks) = (0, 0, 0);
            let mut viol: BTreeMap<String, Vec<Violation>> = BTreeMap::new();
            let mut samples = vec![];
            let leftover = sh.q.lock().unwrap().len() as u64;
            for o in outs {
                t.paths += o.st.paths;
                t.killed += o.st.killed;
                t.limit += o.st.limit;
                t.forks += o.st.forks;
                t.steps += o.st.steps;
                t.max_steps = t.max_steps.max(o.st.max_steps);
                t.n_table += o.st.n_table;
                t.asserts_conc += o.st.asserts_conc;
                t.asserts_sym += o.st.asserts_sym;
                t.maxvars = t.maxvars.max(o.st.maxvars);
                t.timeouts += o.st.timeouts;
                t.stolen += o.st.stolen;
                t.errors.extend(o.st.errors);
                for (k, v) in o.st.covers {
                    *covers.entry(k).or_insert(0) += v;
                }
                for (k, v) in o.st.asserts {
                    *asserts.entry(k).or_insert(0) += v;
                }
                for (i, b) in o.fns.iter().enumerate() {
                    fns[i] |= b;
                }
                z3 += o.z.0;
                cached += o.z.1;
                unsat += o.z.2;
                unk += o.z.3;
                zt += o.z.4;
                pending += o.pending;
                bad += o.recheck_bad;
                rechecks += o.rechecks;
                for v in o.viol {
                    viol.entry(v.label.clone()).or_default().push(v);
                }
                samples.extend(o.samples);
            }
            pending += leftover + t.timeouts;
            let complete = pending == 0 && t.errors.is_empty();
            let mut j = String::new();
            let _ = write!(
                j,
                "{{\n\"root\":{},\"complete\":{},\"paths\":{},\"killed\":{},\"limit\":{},\"forks\":{},\"pending\":{},\"steps\":{},\"max_path_steps\":{},\"sym_bytes_max\":{},\n\"z3_queries\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_cached\":{},\"table_decisions\":{},\"z3_seconds\":{:.3},\"rechecks\":{},\"recheck_bad\":{},\n\"asserts_concrete\":{},\"asserts_symbolic\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"stolen\":{},\n",
                js(&root), complete, t.paths, t.killed, t.limit, t.forks, pending, t.steps, t.max_steps, t.maxvars, z3, unsat, unk, cached, t.n_table, zt, rechecks, bad, t.asserts_conc, t.asserts_sym, load_s, wall, t.stolen
            );
            let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
            let _ = write!(j, "\"covers\":{{{}}},\n\"asserts\":{{{}}},\n", kv(&covers), kv(&asserts));
            t.errors.sort();
            t.errors.dedup();
            t.errors.truncate(20);
            let _ = write!(j, "\"errors\":[{}],\n", t.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
            let vs: Vec<String> = viol
                .values()
                .flat_map(|v| v.iter().take(60))
                .map(|v| {
                    let st: Vec<String> = v.stack.iter().take(12).map(|s| js(s)).collect();
                    format!("{{\"label\":{},\"kind\":{},\"bytes\":{},\"stack\":[{}]}}", js(&v.label), js(v.kind), js(&hex(&v.bytes)), st.join(","))
                })
                .collect();
            let _ = write!(j, "\"violations\":[{}],\n", vs.join(",\n"));
            let ss: Vec<String> = samples.iter().take(256).map(|(a, b)| format!("[{},{}]", js(&hex(a)), js(&hex(b)))).collect();
            let _ = write!(j, "\"samples\":[{}],\n", ss.join(",\n"));
            let f: Vec<String> = p.funcs.iter().enumerate().filter(|(i, f)| fns[*i] && f.has_body).map(|(_, f)| js(&f.name)).collect();
            let _ = write!(j, "\"functions\":[{}]\n}}\n", f.join(","));
            match get("--out") {
                Some(o) => std::fs::write(o, j).unwrap(),
                None => print!("{j}"),
            }
        }
        _ => {
            eprintln!("usage: symex prep|run ...");
            std::process::exit(2)
        }
    }
}
