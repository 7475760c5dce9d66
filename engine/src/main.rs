//! mitex-sym: bounded symbolic execution of LLVM IR with SMT-decided
//! branches and assertions.  See /verif/DESIGN.md.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: mitex-sym IR SPEC OUT.json [WITNESS]");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("IR");
    let spec = std::fs::read_to_string(&a[2]).expect("spec");
    let mut threads = std::thread::available_parallelism().map_or(4, |x| x.get());
    let mut time = 600u64;
    let mut cfg = Cfg { step_limit: 30_000_000, wit_per_job: 300, wit_every: 1, viol_cap: 40, pc_check_every: 16 };
    let mut init = String::new();
    let mut jobs: Vec<Job> = vec![];
    let mut dump_every = 0u64;
    let m = ir::Module::load(text);
    for l in spec.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        match w[0] {
            "threads" => threads = w[1].parse().unwrap(),
            "time" => time = w[1].parse().unwrap(),
            "steps" => cfg.step_limit = w[1].parse().unwrap(),
            "wit" => {
                cfg.wit_per_job = w[1].parse().unwrap();
                cfg.wit_every = w[2].parse().unwrap();
            }
            "viol" => cfg.viol_cap = w[1].parse().unwrap(),
            "pccheck" => cfg.pc_check_every = w[1].parse().unwrap(),
            "dump" => dump_every = w[1].parse().unwrap(),
            "init" => init = w[1].into(),
            "job" => {
                let e = *m.fidx.get(w[2]).unwrap_or_else(|| {
                    eprintln!("no entry {}", w[2]);
                    std::process::exit(2)
                });
                jobs.push(Job { name: w[1].into(), entry: e, args: w[3..].iter().map(|x| x.parse().unwrap()).collect() });
            }
            _ => {
                eprintln!("bad spec line {}", l);
                std::process::exit(2);
            }
        }
    }
    let mut memory = mem::Mem::new();
    m.init_globals(&mut memory);
    let load_s = t0.elapsed().as_secs_f64();
    let nj = jobs.len();
    let sh = Shared {
        q: Mutex::new(vec![]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        threads,
        stop: AtomicBool::new(false),
        viol: Mutex::new(vec![]),
        nviol: (0..nj.max(1)).map(|_| AtomicUsize::new(0)).collect(),
        wit: Mutex::new(vec![]),
        nwit: (0..nj.max(1)).map(|_| AtomicUsize::new(0)).collect(),
        live: (0..nj.max(1)).map(|_| AtomicU64::new(0)).collect(),
        deadline: t0 + Duration::from_secs(time),
    };
    // concrete initialisation, shared by all jobs
    let bcfg = Cfg { step_limit: 4_000_000_000, ..cfg };
    let mut boot = Exec::new(&m, &sh, &bcfg, nj.max(1));
    let mut st = boot.blank_state(memory, HEAP_BASE);
    let mut init_steps = 0u64;
    if !init.is_empty() {
        let id = *m.fidx.get(&init).expect("init function");
        boot.enter(&mut st, id, vec![], ir::NONE, ir::NONE).ok();
        match boot.exec(&mut st) {
            Ok(()) => {}
            Err(e) => {
                eprintln!("initialisation failed: {:?} in {}", e, demangle(&st.fr.f.name));
                for f in st.stack.iter().rev().take(12) {
                    eprintln!("   {}", demangle(&f.f.name));
                }
                std::process::exit(2);
            }
        }
        init_steps = st.steps;
    }
    let init_s = t0.elapsed().as_secs_f64() - load_s;
    eprintln!("load {:.2}s init {:.2}s ({} instructions, heap {} kB)", load_s, init_s, init_steps, (st.heap - HEAP_BASE) / 1024);
    let base = boot.blank_state(st.mem.clone(), (st.heap + 4095) & !4095);
    let mut used0 = boot.used.clone();
    {
        let mut q = sh.q.lock().unwrap();
        for (j, job) in jobs.iter().enumerate().rev() {
            let mut s = base.clone();
            s.job = j as u32;
            boot.enter(&mut s, job.entry, job.args.iter().map(|x| expr::V::I(*x)).collect(), ir::NONE, ir::NONE).ok();
            sh.live[j].store(1, Ordering::Relaxed);
            q.push(s);
        }
    }
    let fin: Mutex<Vec<Option<Instant>>> = Mutex::new(vec![None; nj]);
    let results: Mutex<Vec<(Vec<JobStats>, z3::Stats, Vec<bool>, Vec<(String, bool)>)>> = Mutex::new(vec![]);
    let working = AtomicUsize::new(threads);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mut ex = Exec::new(&m, &sh, &cfg, nj);
                    ex.z3.dump_every = dump_every;
                    'outer: loop {
                        let s = match ex.local.pop() {
                            Some(s) => s,
                            None => {
                                let mut q = sh.q.lock().unwrap();
                                if let Some(s) = q.pop() {
                                    s
                                } else {
                                    sh.idle.fetch_add(1, Ordering::SeqCst);
                                    working.fetch_sub(1, Ordering::SeqCst);
                                    loop {
                                        if let Some(s) = q.pop() {
                                            sh.idle.fetch_sub(1, Ordering::SeqCst);
                                            working.fetch_add(1, Ordering::SeqCst);
                                            break s;
                                        }
                                        if working.load(Ordering::SeqCst) == 0 {
                                            sh.cv.notify_all();
                                            break 'outer;
                                        }
                                        let r = sh.cv.wait_timeout(q, Duration::from_millis(5)).unwrap();
                                        q = r.0;
                                    }
                                }
                            }
                        };
                        let j = s.job as usize;
                        ex.run_path(s);
                        if sh.live[j].load(Ordering::Relaxed) == 0 {
                            fin.lock().unwrap()[j] = Some(Instant::now());
                        }
                    }
                    results.lock().unwrap().push((
                        std::mem::take(&mut ex.js),
                        ex.z3.stats.clone(),
                        std::mem::take(&mut ex.used),
                        std::mem::take(&mut ex.z3.dumps),
                    ));
                })
                .unwrap();
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let mut tot: Vec<JobStats> = vec![JobStats::default(); nj];
    let mut zs = z3::Stats::default();
    let mut dumps = vec![];
    for (jsx, z, used, d) in results.into_inner().unwrap() {
        for (t, x) in tot.iter_mut().zip(jsx) {
            for (k, v) in x.paths {
                *t.paths.entry(k).or_insert(0) += v;
            }
            for (k, v) in x.unsup {
                *t.unsup.entry(k).or_insert(0) += v;
            }
            t.steps += x.steps;
            t.max_steps = t.max_steps.max(x.max_steps);
            t.forks += x.forks;
            t.dom_decisions += x.dom_decisions;
            t.z3_decisions += x.z3_decisions;
            t.asserts += x.asserts;
            t.asserts_folded += x.asserts_folded;
            t.asserts_z3 += x.asserts_z3;
            t.covers |= x.covers;
            t.weight += x.weight;
            t.relational += x.relational;
            t.pc_checks += x.pc_checks;
            t.audits += x.audits;
            t.asserts_same += x.asserts_same;
            t.vars = t.vars.max(x.vars);
            for b in 0..32 {
                t.cover_counts[b] += x.cover_counts[b];
            }
        }
        zs.queries += z.queries;
        zs.sat += z.sat;
        zs.unsat += z.unsat;
        zs.unknown += z.unknown;
        zs.time_us += z.time_us;
        zs.max_us = zs.max_us.max(z.max_us);
        for (a, b) in used0.iter_mut().zip(used) {
            *a |= b;
        }
        dumps.extend(d);
    }
    let fin = fin.into_inner().unwrap();
    let map = |m: &BTreeMap<String, u64>| -> String {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"wall_s\": {:.3}, \"load_s\": {:.3}, \"init_s\": {:.3}, \"init_steps\": {}, \"threads\": {}, \"timed_out\": {},\n",
        wall,
        load_s,
        init_s,
        init_steps,
        threads,
        sh.stop.load(Ordering::Relaxed)
    );
    let _ = write!(
        o,
        " \"z3\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"time_s\": {:.3}, \"max_ms\": {:.3}}},\n",
        zs.queries,
        zs.sat,
        zs.unsat,
        zs.unknown,
        zs.time_us as f64 / 1e6,
        zs.max_us as f64 / 1e3
    );
    let fl: Vec<String> = m
        .funcs
        .iter()
        .zip(&used0)
        .filter(|x| *x.1)
        .map(|x| js(&x.0.name))
        .collect();
    let _ = write!(o, " \"functions\": [{}],\n \"jobs\": [\n", fl.join(", "));
    for (j, job) in jobs.iter().enumerate() {
        let t = &tot[j];
        let _ = write!(
            o,
            "  {{\"name\": {}, \"args\": {:?}, \"entry\": {}, \"paths\": {}, \"steps\": {}, \"max_steps\": {}, \"forks\": {}, \"dom_decisions\": {}, \"z3_decisions\": {}, \"asserts\": {}, \"asserts_folded\": {}, \"asserts_z3\": {}, \"audits\": {}, \"covers\": {}, \"weight\": {:.9}, \"relational\": {}, \"pc_checks\": {}, \"vars\": {}, \"done_s\": {:.2}, \"violations\": {}, \"cover_counts\": {:?}, \"unsupported\": {}}}{}\n",
            js(&job.name), job.args, js(&m.funcs[job.entry as usize].name), map(&t.paths), t.steps, t.max_steps, t.forks, t.dom_decisions,
            t.z3_decisions, t.asserts, t.asserts_folded, t.asserts_z3 + t.asserts_same, t.audits, t.covers, t.weight, t.relational, t.pc_checks, t.vars,
            fin[j].map_or(-1.0, |i| (i - t0).as_secs_f64()), sh.nviol[j].load(Ordering::Relaxed),
            t.cover_counts, map(&t.unsup), if j + 1 < nj { "," } else { "" }
        );
    }
    o.push_str(" ],\n \"violations\": [\n");
    let vs = sh.viol.into_inner().unwrap();
    for (i, v) in vs.iter().enumerate() {
        let tr: Vec<String> = v.trace.iter().map(|x| js(x)).collect();
        let _ = write!(
            o,
            "  {{\"job\": {}, \"kind\": {}, \"what\": {}, \"input\": \"{}\", \"trace\": [{}]}}{}\n",
            js(&jobs[v.job as usize].name),
            js(&v.kind),
            js(&v.what),
            hex(&v.input),
            tr.join(", "),
            if i + 1 < vs.len() { "," } else { "" }
        );
    }
    o.push_str(" ]\n}\n");
    std::fs::write(&a[3], o).unwrap();
    if let Some(wf) = a.get(4) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(wf).unwrap());
        for (j, inp, outs) in sh.wit.into_inner().unwrap() {
            let job = &jobs[j as usize];
            let args: Vec<String> = job.args.iter().map(|x| x.to_string()).collect();
            let os: Vec<String> = outs.iter().map(|x| if x.is_empty() { "-".into() } else { hex(x) }).collect();
            writeln!(
                f,
                "{}|{}|{}|{}",
                m.funcs[job.entry as usize].name,
                args.join(" "),
                hex(&inp),
                os.join(" ")
            )
            .unwrap();
        }
    }
    if dump_every > 0 {
        let dir = format!("{}.smt", a[3]);
        let _ = std::fs::create_dir_all(&dir);
        for (i, (s, sat)) in dumps.iter().enumerate().take(400) {
            let _ = std::fs::write(
                format!("{}/{}.{}.smt2", dir, i, if *sat { "sat" } else { "unsat" }),
                format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s),
            );
        }
    }
}
