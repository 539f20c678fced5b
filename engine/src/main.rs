//! lsx: bounded symbolic execution of the LLVM IR that rustc emits, with Z3 deciding.
//!
//! usage: lsx --ll FILE... --job NAME=ENTRY:ARG,ARG,... [...] --out FILE
//!            [--threads N] [--time SECONDS] [--max-steps N] [--samples K] [--seed S]

mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmodel(m: &expr::Model) -> String {
    let mut v: Vec<_> = m.vals.iter().collect();
    v.sort();
    let mut o = String::from("{");
    for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "\"{}\":\"{}\"", k, x);
    }
    o.push('}');
    o
}

struct Shared {
    queue: Mutex<VecDeque<Item>>,
    cv: Condvar,
    hungry: AtomicI64,
    outstanding: AtomicI64,
    per_job: Vec<AtomicI64>,
    viol: Vec<AtomicU64>,
    errs: Vec<AtomicU64>,
    dropped: Vec<AtomicU64>,
    job_ms: Vec<AtomicU64>,
    stop: AtomicBool,
}

fn usage() -> ! {
    eprintln!("usage: lsx --ll FILE... --job NAME=ENTRY:ARGS[@STEPS]... --out FILE [--threads N] [--time S] [--max-steps N] [--samples K] [--seed S]");
    std::process::exit(2)
}

fn main() {
    let mut lls = vec![];
    let mut jobs_s = vec![];
    let mut out = String::new();
    let mut threads = 8usize;
    let mut time = 600u64;
    let mut max_steps = 20_000_000u64;
    let mut samples = 8usize;
    let mut seed = 1u64;
    let mut stop_after = 3u64;
    // seconds that are left once something was found (0: no change)
    let mut early = 0u64;
    let mut verbose = false;
    let mut logic = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut val = || it.next().unwrap_or_else(|| usage());
        match &a[..] {
            "--ll" => lls.push(val()),
            "--job" => jobs_s.push(val()),
            "--out" => out = val(),
            "--threads" => threads = val().parse().unwrap(),
            "--time" => time = val().parse().unwrap(),
            "--max-steps" => max_steps = val().parse().unwrap(),
            "--samples" => samples = val().parse().unwrap(),
            "--seed" => seed = val().parse().unwrap(),
            "--early" => early = val().parse().unwrap(),
            "--stop-after" => stop_after = val().parse().unwrap(),
            "--logic" => logic = true,
            "-v" => verbose = true,
            _ => usage(),
        }
    }
    let start = Instant::now();
    let mut mods = vec![];
    for f in &lls {
        match std::fs::read_to_string(f) {
            Ok(s) => mods.push((f.clone(), s)),
            Err(e) => {
                eprintln!("lsx: {}: {}", f, e);
                std::process::exit(2)
            }
        }
    }
    let prog = match ir::load(&mods) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("lsx: parse: {}", e);
            std::process::exit(2)
        }
    };
    if verbose {
        for w in &prog.warnings {
            eprintln!("lsx: warning: {}", w);
        }
    }
    let exts: Vec<Ext> = prog.exts.iter().map(|n| classify(n)).collect();
    let mut jobs = vec![];
    for j in &jobs_s {
        let (name, rest) = j.split_once('=').unwrap_or_else(|| usage());
        let (rest, steps) = match rest.split_once('@') {
            Some((r, n)) => (r, n.parse().unwrap()),
            None => (rest, max_steps),
        };
        let (entry, args) = rest.split_once(':').unwrap_or((rest, ""));
        let e = match prog.fn_by_name.get(entry) {
            Some(e) => *e,
            None => {
                eprintln!("lsx: no entry function {}", entry);
                std::process::exit(2)
            }
        };
        let args = args.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        jobs.push(Job { name: name.to_string(), entry: e, args, max_steps: steps });
    }
    let parse_ms = start.elapsed().as_millis();
    let n = jobs.len();
    let sh = Shared {
        queue: Mutex::new(
            (0..n)
                .map(|j| Item { job: j, decs: vec![], model: expr::Model::default() })
                .collect(),
        ),
        cv: Condvar::new(),
        hungry: AtomicI64::new(0),
        outstanding: AtomicI64::new(n as i64),
        per_job: (0..n).map(|_| AtomicI64::new(1)).collect(),
        viol: (0..n).map(|_| AtomicU64::new(0)).collect(),
        errs: (0..n).map(|_| AtomicU64::new(0)).collect(),
        dropped: (0..n).map(|_| AtomicU64::new(0)).collect(),
        job_ms: (0..n).map(|_| AtomicU64::new(0)).collect(),
        stop: AtomicBool::new(false),
    };
    let deadline = start + Duration::from_secs(time);

    let mut merged: Vec<JobStats> = vec![JobStats::default(); n];
    let mut hits: Vec<bool> = vec![false; prog.funcs.len()];
    let mut job_hits: Vec<Vec<bool>> = vec![];
    let results: Vec<(HashMap<usize, JobStats>, HashMap<usize, Vec<bool>>)> = std::thread::scope(|s| {
        let sh = &sh;
        let mut hs = vec![];
        // ends everything at the deadline and before the memory is used up
        s.spawn(move || {
            let mut found = None;
            while sh.outstanding.load(SeqCst) > 0 && !sh.stop.load(SeqCst) {
                let now = Instant::now();
                if early > 0 && found.is_none() && sh.viol.iter().any(|v| v.load(SeqCst) > 0) {
                    found = Some(now + Duration::from_secs(early));
                }
                if now > deadline || found.is_some_and(|f| now > f) || rss_gb() >= 22 {
                    sh.stop.store(true, SeqCst);
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        });
        for t in 0..threads {
            let (prog, exts, jobs) = (&prog, &exts, &jobs);
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    worker(t, prog, exts, jobs, sh, deadline, start, max_steps, samples, seed, stop_after, logic)
                })
                .unwrap();
            hs.push(h);
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for _ in 0..n {
        job_hits.push(vec![false; prog.funcs.len()]);
    }
    for (rs, fh) in results {
        for (j, f) in fh {
            for (i, b) in f.iter().enumerate() {
                hits[i] |= *b;
                job_hits[j][i] |= *b;
            }
        }
        for (j, r) in rs {
            let m = &mut merged[j];
            m.done += r.done;
            m.killed += r.killed;
            m.nerrors += r.nerrors;
            m.nviol += r.nviol;
            m.errors.extend(r.errors);
            m.violations.extend(r.violations);
            m.forks += r.forks;
            m.choices += r.choices;
            m.steps += r.steps;
            m.checks += r.checks;
            m.checks_solver += r.checks_solver;
            for (k, c) in r.covers {
                *m.covers.entry(k).or_insert(0) += c;
            }
            m.samples.extend(r.samples);
            m.max_steps = m.max_steps.max(r.max_steps);
            m.max_decs = m.max_decs.max(r.max_decs);
            m.cache_hits += r.cache_hits;
            m.solver.queries += r.solver.queries;
            m.solver.sat += r.solver.sat;
            m.solver.unsat += r.solver.unsat;
            m.solver.unknown += r.solver.unknown;
            m.solver.ns += r.solver.ns;
        }
    }

    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"parse_ms\":{},\"wall_ms\":{},\"jobs\":[",
        parse_ms,
        start.elapsed().as_millis()
    );
    for j in 0..n {
        let m = &mut merged[j];
        m.samples.sort_by_key(|s| s.prio);
        m.samples.truncate(samples);
        m.errors.truncate(8);
        m.violations.truncate(8);
        let complete = sh.per_job[j].load(SeqCst) == 0 && sh.dropped[j].load(SeqCst) == 0 && m.nerrors == 0;
        if j > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "{{\"name\":{},\"complete\":{},\"ms\":{},\"paths\":{},\"killed\":{},\"violations_n\":{},\"errors_n\":{},\"forks\":{},\"choices\":{},\"steps\":{},\"max_path_steps\":{},\"max_decisions\":{},\"checks\":{},\"checks_by_solver\":{},\"cache_hits\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{},",
            jstr(&jobs[j].name), complete, sh.job_ms[j].load(SeqCst), m.done, m.killed, m.nviol, m.nerrors, m.forks, m.choices,
            m.steps, m.max_steps, m.max_decs, m.checks, m.checks_solver, m.cache_hits, m.solver.queries, m.solver.sat, m.solver.unsat, m.solver.unknown,
            m.solver.ns / 1_000_000
        );
        let mut cv: Vec<_> = m.covers.iter().collect();
        cv.sort();
        o.push_str("\"covers\":{");
        for (i, (k, c)) in cv.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "\"{}\":{}", k, c);
        }
        o.push_str("},\"errors\":[");
        for (i, e) in m.errors.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&jstr(e));
        }
        o.push_str("],\"violations\":[");
        for (i, v) in m.violations.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(
                o,
                "{{\"kind\":{},\"code\":{},\"detail\":{},\"model\":{}}}",
                jstr(&v.kind),
                v.code,
                jstr(&v.detail),
                jmodel(&v.model)
            );
        }
        o.push_str("],\"samples\":[");
        for (i, s) in m.samples.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"model\":{},\"emits\":[", jmodel(&s.model));
            for (k, (a, b)) in s.emits.iter().enumerate() {
                if k > 0 {
                    o.push(',');
                }
                let _ = write!(o, "[{},\"{}\"]", a, b);
            }
            o.push_str("]}");
        }
        o.push_str("],\"functions\":[");
        let mut first = true;
        for (i, h) in job_hits[j].iter().enumerate() {
            if *h {
                if !first {
                    o.push(',');
                }
                first = false;
                let f = &prog.funcs[i];
                o.push_str(&jstr(if f.pretty.is_empty() { &f.name } else { &f.pretty }));
            }
        }
        o.push_str("]}");
    }
    o.push_str("]}\n");
    let _ = hits;
    if out.is_empty() {
        print!("{}", o);
    } else if let Err(e) = std::fs::write(&out, o) {
        eprintln!("lsx: {}: {}", out, e);
        std::process::exit(2)
    }
}

enum Work {
    Pend(Pend),
    Item(Item),
}

fn rss_gb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 30
}

#[allow(clippy::too_many_arguments)]
fn worker<'p>(
    t: usize,
    prog: &'p ir::Program,
    exts: &'p [Ext],
    jobs: &[Job],
    sh: &'p Shared,
    deadline: Instant,
    start: Instant,
    max_steps: u64,
    samples: usize,
    seed: u64,
    stop_after: u64,
    logic: bool,
) -> (HashMap<usize, JobStats>, HashMap<usize, Vec<bool>>) {
    let mut ex = Exec::new(prog, exts, &prog.exts, max_steps, 60_000, logic, &sh.stop);
    let mut stats: HashMap<usize, JobStats> = HashMap::new();
    let mut fhits: HashMap<usize, Vec<bool>> = HashMap::new();
    let mut cur: Option<usize> = None;
    let mut local: VecDeque<Pend> = VecDeque::new();
    let mut rng = 0x9e37_79b9_7f4a_7c15u64 ^ (seed.wrapping_mul(0x1234_5678_9abc_def1)) ^ ((t as u64 + 1) << 17);
    let save = |ex: &mut Exec, cur: Option<usize>, stats: &mut HashMap<usize, JobStats>, fh: &mut HashMap<usize, Vec<bool>>| {
        if let Some(j) = cur {
            let mut s = std::mem::take(&mut ex.st);
            s.solver = std::mem::take(&mut ex.solver.stats);
            stats.insert(j, s);
            fh.insert(j, std::mem::replace(&mut ex.fn_hit, vec![false; prog.funcs.len()]));
        }
    };
    loop {
        let item = match local.pop_back() {
            Some(i) => Work::Pend(i),
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.hungry.fetch_add(1, SeqCst);
                let got = loop {
                    if let Some(i) = q.pop_front() {
                        break Some(i);
                    }
                    if sh.outstanding.load(SeqCst) == 0 || sh.stop.load(SeqCst) {
                        break None;
                    }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                };
                sh.hungry.fetch_sub(1, SeqCst);
                match got {
                    Some(i) => Work::Item(i),
                    None => break,
                }
            }
        };
        let j = match &item {
            Work::Pend(p) => p.job,
            Work::Item(i) => i.job,
        };
        if Instant::now() > deadline {
            sh.stop.store(true, SeqCst);
        }
        let skip = sh.stop.load(SeqCst)
            || sh.viol[j].load(SeqCst) >= stop_after
            || sh.errs[j].load(SeqCst) >= 8;
        if skip {
            sh.dropped[j].fetch_add(1, SeqCst);
            finish(sh, j, start);
            continue;
        }
        if cur != Some(j) {
            save(&mut ex, cur, &mut stats, &mut fhits);
            if let Some(s) = stats.remove(&j) {
                ex.solver.stats = s.solver.clone();
                ex.st = s;
            }
            if let Some(f) = fhits.remove(&j) {
                ex.fn_hit = f;
            }
            cur = Some(j);
        }
        ex.max_steps = jobs[j].max_steps;
        let r = match item {
            Work::Pend(mut p) => {
                if ex.maybe_gc() {
                    p.snap = None;
                    local.iter_mut().for_each(|p| p.snap = None);
                }
                ex.run_pend(&jobs[j], p, &mut rng, samples)
            }
            Work::Item(i) => {
                ex.maybe_gc();
                ex.run(&jobs[j], i, &mut rng, samples)
            }
        };
        match r {
            Stop::Violation { .. } => {
                sh.viol[j].fetch_add(1, SeqCst);
            }
            Stop::Error(_) => {
                sh.errs[j].fetch_add(1, SeqCst);
            }
            _ => {}
        }
        let k = ex.pending.len() as i64;
        if k > 0 {
            sh.per_job[j].fetch_add(k, SeqCst);
            sh.outstanding.fetch_add(k, SeqCst);
            local.extend(ex.pending.drain(..));
        }
        finish(sh, j, start);
        // hand the oldest items over when others are waiting
        if sh.hungry.load(Relaxed) > 0 && local.len() > 1 {
            let mut q = sh.queue.lock().unwrap();
            let give = ((local.len() + 1) / 2).min(1.max(sh.hungry.load(Relaxed) as usize));
            for _ in 0..give {
                if let Some(p) = local.pop_front() {
                    q.push_back(ex.detach(p));
                }
            }
            drop(q);
            sh.cv.notify_all();
        }
    }
    save(&mut ex, cur, &mut stats, &mut fhits);
    (stats, fhits)
}

fn finish(sh: &Shared, j: usize, start: Instant) {
    if sh.per_job[j].fetch_sub(1, SeqCst) == 1 {
        sh.job_ms[j].store(start.elapsed().as_millis() as u64, SeqCst);
    }
    if sh.outstanding.fetch_sub(1, SeqCst) == 1 {
        sh.cv.notify_all();
    }
}
