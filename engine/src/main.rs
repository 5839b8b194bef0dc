//! symex: symbolic executor for rustc-emitted LLVM IR (see /verif/DESIGN.md).
mod exec;
mod expr;
mod ir;
mod parse;
mod solver;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    run: u32,
    decs: Vec<Dec>,
    model: Vec<u64>,
}

struct RunSpec {
    name: String,
    f: u32,
    args: Vec<u64>,
}

struct Queue {
    jobs: std::collections::VecDeque<Job>,
    idle: usize,
    done: bool,
}

#[derive(Clone)]
struct PathRec {
    run: u32,
    inputs: Vec<(u8, u64)>,
    digest: u64,
    msg: String,
    at: Vec<(String, u32, String)>,
}

#[derive(Default)]
struct RunStat {
    paths: u64,
    killed: u64,
    instrs: u64,
    max_instrs: u64,
    covers: u64,
    forks: u64,
    seen: u64,
    samples: Vec<PathRec>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut ll = String::new();
    let mut out = String::new();
    let mut threads = 8usize;
    let mut timeout = 600f64;
    let mut max_instrs = 50_000_000u64;
    let mut nsamples = 8usize;
    let mut max_viol = 1usize;
    let mut covp = String::from("/repo/src/");
    let mut runs: Vec<RunSpec> = vec![];
    let mut names = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--max-instrs" => max_instrs = v().parse().unwrap(),
            "--samples" => nsamples = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--cov" => covp = v(),
            "--run" => names.push(v()),
            _ => panic!("unknown argument {a}"),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read .ll");
    let m: &'static ir::Module = Box::leak(Box::new(parse::parse(&text)));
    drop(text);
    let parse_secs = t0.elapsed().as_secs_f64();
    for n in names {
        let (f, a) = n.split_once(':').unwrap_or((&n, ""));
        let id = *m.fidx.get(f).unwrap_or_else(|| {
            eprintln!("no function {f}");
            std::process::exit(3)
        });
        let args = a.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect();
        runs.push(RunSpec { name: n.clone(), f: id, args });
    }
    let q = Mutex::new(Queue {
        jobs: (0..runs.len() as u32).map(|run| Job { run, decs: vec![], model: vec![] }).collect(),
        idle: 0,
        done: false,
    });
    let cvar = Condvar::new();
    let hungry = AtomicI64::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let live: Vec<AtomicI64> = runs.iter().map(|_| AtomicI64::new(1)).collect();
    let stats: Vec<Mutex<RunStat>> = runs.iter().map(|_| Mutex::new(RunStat::default())).collect();
    let viols: Mutex<Vec<PathRec>> = Mutex::new(vec![]);
    let vkeys: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let internals: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let tot_q = Mutex::new(solver::QStats::default());
    let cov: Mutex<Vec<Vec<bool>>> = Mutex::new(m.funcs.iter().map(|f| vec![false; f.nblocks as usize]).collect());
    let nodes = AtomicU64::new(0);
    let deadline = t0 + Duration::from_secs_f64(timeout);

    std::thread::scope(|sc| {
        for t in 0..threads {
            let (q, cvar, hungry, stop, timed_out, live, stats, viols, vkeys, internals, tot_q, cov, runs, nodes) =
                (&q, &cvar, &hungry, &stop, &timed_out, &live, &stats, &viols, &vkeys, &internals, &tot_q, &cov, &runs, &nodes);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || {
                    let t_id = t;
                    let mut x = X::new(m, max_instrs);
                    let mut rng = 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(t as u64 + 1);
                    let is_stop = || {
                        if Instant::now() > deadline {
                            timed_out.store(true, SeqCst);
                            stop.store(true, SeqCst);
                        }
                        stop.load(Relaxed)
                    };
                    loop {
                        let job = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if g.done || stop.load(SeqCst) {
                                    break None;
                                }
                                if let Some(j) = g.jobs.pop_front() {
                                    break Some(j);
                                }
                                g.idle += 1;
                                if g.idle == threads {
                                    g.done = true;
                                    cvar.notify_all();
                                    break None;
                                }
                                hungry.fetch_add(1, SeqCst);
                                g = cvar.wait(g).unwrap();
                                hungry.fetch_sub(1, SeqCst);
                                g.idle -= 1;
                            }
                        };
                        let Some(job) = job else { break };
                        if x.ar.n.len() > 3_000_000 {
                            x.reset();
                        }
                        let rs = &runs[job.run as usize];
                        x.prefix = job.decs;
                        x.prefix.reverse();
                        let s0 = x.initial(job.run, rs.f, &rs.args, job.model);
                        x.stack.push(s0);
                        while let Some(mut s) = x.stack.pop() {
                            if is_stop() {
                                x.stack.clear();
                                break;
                            }
                            let f0 = x.forks;
                            let i0 = x.instrs;
                            let base_instrs = s.instrs;
                            let r = x.run(&mut s, &is_stop);
                            let df = x.forks - f0;
                            live[s.run as usize].fetch_add(df as i64, SeqCst);
                            let rec = |x: &X, s: &State, msg: &str, at| {
                                let mut d = 0xcbf2_9ce4_8422_2325u64;
                                for v in &s.obs {
                                    d = (d ^ x.eval(s, *v) as u64).wrapping_mul(0x0000_0100_0000_01b3);
                                    d ^= d >> 29;
                                }
                                PathRec {
                                    run: s.run,
                                    inputs: s.widths.iter().enumerate().map(|(i, w)| (*w, s.model.vals.get(i).copied().unwrap_or(0))).collect(),
                                    digest: d,
                                    msg: msg.to_string(),
                                    at,
                                }
                            };
                            {
                                let mut st = stats[s.run as usize].lock().unwrap();
                                st.forks += df;
                                st.instrs += x.instrs - i0;
                                st.max_instrs = st.max_instrs.max(base_instrs + (x.instrs - i0));
                                st.covers |= s.covers;
                                match &r {
                                    Stop::Done => {
                                        st.paths += 1;
                                        st.seen += 1;
                                        rng ^= rng << 13;
                                        rng ^= rng >> 7;
                                        rng ^= rng << 17;
                                        let seen = st.seen as usize;
                                        if st.samples.len() < nsamples {
                                            st.samples.push(rec(&x, &s, "", vec![]));
                                        } else if nsamples > 0 && (rng as usize % seen) < nsamples {
                                            let k = (rng >> 32) as usize % nsamples;
                                            st.samples[k] = rec(&x, &s, "", vec![]);
                                        }
                                    }
                                    Stop::Killed => st.killed += 1,
                                    _ => {}
                                }
                            }
                            match r {
                                Stop::Viol(msg) => {
                                    let at = x.where_is(&s);
                                    let key = format!("{} {} {:?}", s.run, msg, at.iter().take(3).collect::<Vec<_>>());
                                    if vkeys.lock().unwrap().insert(key) {
                                        let mut v = viols.lock().unwrap();
                                        v.push(rec(&x, &s, &msg, at));
                                        if v.len() >= max_viol {
                                            stop.store(true, SeqCst);
                                        }
                                    }
                                }
                                Stop::Internal(msg) => {
                                    if msg != "deadline" {
                                        let at = x.where_is(&s);
                                        let l = at.first().map(|a| format!("{}:{} {}", a.0, a.1, a.2)).unwrap_or_default();
                                        *internals.lock().unwrap().entry(format!("{msg} @ {l} [{}]", runs[s.run as usize].name)).or_insert(0) += 1;
                                    }
                                }
                                _ => {}
                            }
                            if !stop.load(Relaxed) {
                                live[s.run as usize].fetch_sub(1, SeqCst);
                            }
                            if hungry.load(Relaxed) > 0 && x.stack.len() > 1 {
                                let n = (hungry.load(Relaxed) as usize).min(x.stack.len() - 1).min(4);
                                let mut g = q.lock().unwrap();
                                if g.jobs.len() < threads {
                                    for s in x.stack.drain(0..n) {
                                        g.jobs.push_back(Job { run: s.run, decs: s.decs, model: s.model.vals.clone() });
                                        cvar.notify_one();
                                    }
                                }
                            }
                        }
                        x.stack.clear();
                        if stop.load(SeqCst) {
                            cvar.notify_all();
                        }
                    }
                    cvar.notify_all();
                    if let Some(t) = &x.trace {
                        let mut v: Vec<_> = t.iter().collect();
                        v.sort_by(|a, b| b.1.cmp(a.1));
                        for (k, n) in v.iter().take(25) {
                            eprintln!("[t{t0}] {n} {k}", t0 = t_id);
                        }
                    }
                    let mut tq = tot_q.lock().unwrap();
                    let s = &x.smt.st;
                    tq.queries += s.queries;
                    tq.sat += s.sat;
                    tq.unsat += s.unsat;
                    tq.cached += s.cached;
                    tq.fallback += s.fallback;
                    tq.linear += s.linear;
                    tq.secs += s.secs;
                    tq.max_secs = tq.max_secs.max(s.max_secs);
                    nodes.fetch_add(x.ar.n.len() as u64, Relaxed);
                    let mut c = cov.lock().unwrap();
                    for (i, v) in x.cov.iter().enumerate() {
                        for (j, b) in v.iter().enumerate() {
                            if *b {
                                c[i][j] = true
                            }
                        }
                    }
                })
                .unwrap();
        }
    });

    // ---- report ----
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    {
        let c = cov.lock().unwrap();
        for (i, f) in m.funcs.iter().enumerate() {
            for (k, d) in f.dbg.iter().enumerate() {
                if *d == 0 || !c[i].get(f.block_of[k] as usize).copied().unwrap_or(false) {
                    continue;
                }
                for (file, line, func) in m.debug.chain(*d) {
                    if file.starts_with(&covp) {
                        lines.entry(file.clone()).or_default().insert(line);
                        funcs.insert(format!("{}::{}", file[covp.len()..].trim_end_matches(".rs"), func));
                    }
                }
            }
        }
    }
    let mut o = String::new();
    let inp = |o: &mut String, r: &PathRec| {
        o.push('[');
        for (i, (w, v)) in r.inputs.iter().enumerate() {
            let _ = write!(o, "{}[{w},{v}]", if i > 0 { "," } else { "" });
        }
        o.push(']');
    };
    let tq = tot_q.lock().unwrap();
    let _ = write!(
        o,
        "{{\"wall\":{:.3},\"parse_secs\":{:.3},\"timed_out\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"fallback\":{},\"linear\":{},\"solver_secs\":{:.3},\"max_query_secs\":{:.3},\"expr_nodes\":{},",
        t0.elapsed().as_secs_f64(),
        parse_secs,
        timed_out.load(SeqCst),
        tq.queries,
        tq.sat,
        tq.unsat,
        tq.cached,
        tq.fallback,
        tq.linear,
        tq.secs,
        tq.max_secs,
        nodes.load(SeqCst)
    );
    o.push_str("\"runs\":[");
    for (i, r) in runs.iter().enumerate() {
        let st = stats[i].lock().unwrap();
        let lv = live[i].load(SeqCst);
        let _ = write!(
            o,
            "{}{{\"run\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"instrs\":{},\"max_instrs\":{},\"covers\":{},\"complete\":{},\"samples\":[",
            if i > 0 { "," } else { "" },
            esc(&r.name),
            st.paths,
            st.killed,
            st.forks,
            st.instrs,
            st.max_instrs,
            st.covers,
            lv == 0
        );
        for (k, s) in st.samples.iter().enumerate() {
            let _ = write!(o, "{}{{\"digest\":\"{:016x}\",\"inputs\":", if k > 0 { "," } else { "" }, s.digest);
            inp(&mut o, s);
            o.push('}');
        }
        o.push_str("]}");
    }
    o.push_str("],\"violations\":[");
    for (i, v) in viols.lock().unwrap().iter().enumerate() {
        let _ = write!(o, "{}{{\"run\":{},\"kind\":{},\"at\":[", if i > 0 { "," } else { "" }, esc(&runs[v.run as usize].name), esc(&v.msg));
        for (k, a) in v.at.iter().take(40).enumerate() {
            let _ = write!(o, "{}{}", if k > 0 { "," } else { "" }, esc(&format!("{}:{} {}", a.0, a.1, a.2)));
        }
        o.push_str("],\"inputs\":");
        inp(&mut o, v);
        o.push('}');
    }
    o.push_str("],\"internal\":[");
    for (i, (k, n)) in internals.lock().unwrap().iter().enumerate() {
        let _ = write!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, esc(k), n);
    }
    o.push_str("],\"functions\":[");
    for (i, f) in funcs.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(f));
    }
    o.push_str("],\"lines\":{");
    for (i, (f, l)) in lines.iter().enumerate() {
        let _ = write!(o, "{}{}:{:?}", if i > 0 { "," } else { "" }, esc(f), l.iter().collect::<Vec<_>>());
    }
    o.push_str("}}\n");
    if out.is_empty() {
        print!("{o}");
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
