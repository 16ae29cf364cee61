//! Master and worker processes: seeds, search, confirmation, minimisation, replay files, evidence.
use crate::json;
use crate::rng::mix;
use crate::sched::*;
use crate::shared::*;
use core::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

pub struct Scenario {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub about: &'static str,
    pub body: fn(),
    /// Every run in a process of its own (the scenario touches process-global state of the code).
    pub fork_each: bool,
    pub quick: u64,
    pub thorough: u64,
    /// Demonstrates the known finding with this id instead of searching for violations.
    pub known: Option<&'static str>,
}

pub struct Suite {
    pub scenarios: &'static [Scenario],
    pub names: &'static [&'static str],
    pub faults: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub real: &'static [(&'static str, &'static str)],
    pub stub: &'static [&'static str],
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn usleep(u: u32) -> i32;
    fn prctl(o: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, f: i32, ...) -> i32;
}

static mut SLOTV: [*mut Slot; SLOTS] = [core::ptr::null_mut(); SLOTS];

fn quiet() {
    unsafe {
        let fd = open(c"/dev/null".as_ptr().cast(), 1);
        if fd >= 0 && std::env::var_os("SIM_NOISY").is_none() {
            dup2(fd, 2);
        }
    }
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let _g = Rt::enter();
        let m = format!("{} at {}", i, i.location().map(|l| l.to_string()).unwrap_or_default());
        unsafe {
            if !SLOT.is_null() && slot().violated.load(Relaxed) == 0 {
                let n = m.len().min(MSG - 1);
                slot().msg[..n].copy_from_slice(&m.as_bytes()[..n]);
                slot().msg[n] = 0;
            }
            LAST_PANIC = Some(m);
        }
    }));
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

fn flush_counts(sh: &Shared) {
    unsafe {
        for i in 0..NCOUNT {
            if LOCAL_COUNTS[i] != 0 {
                sh.counts[i].fetch_add(LOCAL_COUNTS[i], Relaxed);
                LOCAL_COUNTS[i] = 0;
            }
        }
    }
}

fn name_hash(n: &str) -> u64 {
    n.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn run_seed(vseed: u64, scen: &str, idx: u64) -> u64 {
    mix(mix(vseed) ^ name_hash(scen) ^ mix(idx.wrapping_mul(0x9e37)))
}

fn cfg_for(sc: &Scenario, idx: u64, trace: bool) -> RunCfg {
    RunCfg {
        window_open: sc.known.is_some(),
        trace,
        // one run in four is fault free
        faults: idx % 4 != 3,
    }
}

fn one(sh: &Shared, sc: &Scenario, vseed: u64, idx: u64) {
    let body = sc.body;
    run_one(Source::Seed(run_seed(vseed, sc.name, idx)), &cfg_for(sc, idx, false), Box::new(move || body()));
    let s = sim();
    sh.runs.fetch_add(1, Relaxed);
    sh.steps.fetch_add(s.steps, Relaxed);
    sh.switches.fetch_add(s.switches, Relaxed);
    // leaps of the clock are faults, not time covered
    sh.sim_ns.fetch_add(s.steps, Relaxed);
    if s.switches > 0 || s.faults_fired > 0 {
        sh.nontrivial.fetch_add(1, Relaxed);
        if sh.insert(s.hash ^ name_hash(sc.name)) {
            sh.distinct.fetch_add(1, Relaxed);
        }
    } else if sh.insert(s.hash ^ name_hash(sc.name)) {
        sh.calm.fetch_add(1, Relaxed);
    }
}

fn reset_slot(sl: &mut Slot) {
    sl.violated.store(0, Relaxed);
    sl.class[0] = 0;
    sl.msg[0] = 0;
    sl.nchoices.store(0, Relaxed);
    sl.trace_len.store(0, Relaxed);
}

fn worker(sh: &Shared, sc: &Scenario, vseed: u64, start: u64, stride: u64, total: u64) -> ! {
    unsafe {
        prctl(1, 9); // die with the master
    }
    let mut i = start;
    while i < total {
        let stop = sh.stop.load(Relaxed);
        if stop != 0 && stop - 1 <= i {
            break;
        }
        let sl = slot();
        sl.run.store(i + 1, Relaxed);
        if sc.fork_each {
            unsafe {
                let p = fork();
                if p == 0 {
                    prctl(1, 9);
                    alarm(20);
                    one(sh, sc, vseed, i);
                    flush_counts(sh);
                    _exit(0);
                }
                let mut st = 0;
                waitpid(p, &mut st, 0);
                if st != 0 {
                    if st & 0x7f == 0 {
                        _exit((st >> 8) & 0xff);
                    }
                    sl.violated.store(0, Relaxed);
                    _exit(100 + (st & 0x7f));
                }
            }
        } else {
            one(sh, sc, vseed, i);
            if i / stride % 64 == 0 {
                flush_counts(sh);
            }
        }
        i += stride;
    }
    flush_counts(sh);
    unsafe { _exit(0) }
}

#[derive(Clone)]
pub struct Found {
    pub idx: u64,
    pub class: String,
    pub msg: String,
    pub choices: Vec<u16>,
}

enum End {
    Clean,
    Discard,
    Bad(String, String),
    Harness(i32),
}

fn classify(st: i32, sl: &Slot) -> End {
    let sig = st & 0x7f;
    let code = (st >> 8) & 0xff;
    let sig = if sig == 0 && code > 100 && code < 165 { code - 100 } else { sig };
    if sig != 0 {
        let name = match sig {
            6 => "abort",
            11 => "segfault",
            7 => "bus-error",
            4 => "illegal-instruction",
            9 | 14 => "hang",
            _ => "signal",
        };
        return End::Bad(name.into(), format!("process ended by signal {sig}; last panic: {}", cstr(&sl.msg)));
    }
    match code {
        0 => End::Clean,
        EXIT_VIOLATION => End::Bad(cstr(&sl.class), cstr(&sl.msg)),
        EXIT_DISCARD => End::Discard,
        c => End::Harness(c),
    }
}

/// Replays a choice sequence in a fresh child. Returns how it ended and the normalised choices.
fn attempt(sc: &Scenario, faults: bool, choices: &[u16], trace_on: bool) -> (End, Vec<u16>) {
    unsafe {
        let sl = &mut *SLOTV[SLOTS - 1];
        reset_slot(sl);
        SLOT = SLOTV[SLOTS - 1];
        let p = fork();
        if p == 0 {
            prctl(1, 9);
            quiet();
            alarm(10);
            let body = sc.body;
            run_one(
                Source::Choices(choices),
                &RunCfg { window_open: sc.known.is_some(), trace: trace_on, faults },
                Box::new(move || body()),
            );
            _exit(0);
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        let n = sl.nchoices.load(Relaxed).min(MAXC);
        let mut c = sl.choices[..n].to_vec();
        while c.last() == Some(&0) {
            c.pop();
        }
        (classify(st, sl), c)
    }
}

fn minimise(sc: &Scenario, faults: bool, f: &Found, secs: u64) -> Vec<u16> {
    let t0 = Instant::now();
    let mut best = f.choices.clone();
    while best.last() == Some(&0) {
        best.pop();
    }
    let class = f.class.clone();
    let ok = |c: &[u16]| -> Option<Vec<u16>> {
        match attempt(sc, faults, c, false) {
            (End::Bad(k, _), n) if k == class => Some(n),
            _ => None,
        }
    };
    let better = |a: &[u16], b: &[u16]| {
        let sa: u64 = a.iter().map(|x| *x as u64).sum();
        let sb: u64 = b.iter().map(|x| *x as u64).sum();
        let na = a.iter().filter(|x| **x != 0).count();
        let nb = b.iter().filter(|x| **x != 0).count();
        (a.len(), na, sa) < (b.len(), nb, sb)
    };
    loop {
        let before = best.clone();
        let mut size = best.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed().as_secs() >= secs {
                    return best;
                }
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if let Some(n) = ok(&c).filter(|n| better(n, &best)) {
                    best = n;
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(n) = ok(&c).filter(|n| better(n, &best)) {
                        best = n;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed().as_secs() >= secs {
                return best;
            }
            if best[i] > 1 {
                let mut c = best.clone();
                c[i] -= 1;
                if let Some(n) = ok(&c).filter(|n| better(n, &best)) {
                    best = n;
                    continue;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

pub struct Totals {
    pub found: Option<Found>,
    pub capped: bool,
    pub done: u64,
}

fn search(sh: &'static Shared, sc: &Scenario, vseed: u64, total: u64, workers: u64, cap: f64) -> Totals {
    sh.stop.store(0, Relaxed);
    let runs0 = sh.runs.load(Relaxed);
    let mut pids: Vec<(i32, u64, Instant, u64)> = Vec::new(); // pid, worker, last progress, last run
    let start = |w: u64, at: u64| -> i32 {
        unsafe {
            let sl = SLOTV[w as usize];
            reset_slot(&mut *sl);
            (*sl).run.store(0, Relaxed);
            let p = fork();
            if p == 0 {
                SLOT = sl;
                quiet();
                worker(sh, sc, vseed, at, workers, total);
            }
            assert!(p > 0, "fork failed");
            p
        }
    };
    for w in 0..workers {
        pids.push((start(w, w), w, Instant::now(), 0));
    }
    let t0 = Instant::now();
    let mut found: Option<Found> = None;
    let mut capped = false;
    while !pids.is_empty() {
        if !capped && t0.elapsed().as_secs_f64() > cap && sh.stop.load(Relaxed) == 0 {
            capped = true;
            sh.stop.store(1, Relaxed);
        }
        let mut k = 0;
        while k < pids.len() {
            let (pid, w, ref mut since, ref mut last) = pids[k];
            let sl = unsafe { &mut *SLOTV[w as usize] };
            let r = sl.run.load(Relaxed);
            if r != *last {
                *last = r;
                *since = Instant::now();
            } else if since.elapsed().as_secs() > 60 {
                unsafe { kill(pid, 9) };
            }
            let mut st = 0;
            let p = unsafe { waitpid(pid, &mut st, 1) };
            if p == 0 {
                k += 1;
                continue;
            }
            let at = sl.run.load(Relaxed).saturating_sub(1);
            match classify(st, sl) {
                End::Clean => {
                    pids.remove(k);
                }
                End::Discard => {
                    sh.discarded.fetch_add(1, Relaxed);
                    pids[k] = (start(w, at + workers), w, Instant::now(), 0);
                    k += 1;
                }
                End::Harness(c) => {
                    eprintln!("harness error: worker exited with {c} in {} run {at}", sc.name);
                    std::process::exit(2);
                }
                End::Bad(class, msg) => {
                    let n = sl.nchoices.load(Relaxed).min(MAXC);
                    let f = Found { idx: at, class, msg, choices: sl.choices[..n].to_vec() };
                    if found.as_ref().is_none_or(|g| g.idx > at) {
                        let cur = sh.stop.load(Relaxed);
                        if cur == 0 || cur > at + 1 {
                            sh.stop.store(at + 1, Relaxed);
                        }
                        found = Some(f);
                    }
                    pids.remove(k);
                }
            }
        }
        unsafe { usleep(2000) };
    }
    Totals { found, capped, done: sh.runs.load(Relaxed) - runs0 }
}

fn trace_lines(sl: &Slot) -> Vec<String> {
    let n = sl.trace_len.load(Relaxed);
    String::from_utf8_lossy(&sl.trace[..n]).lines().map(|l| l.to_string()).collect()
}

fn known_listed(root: &str, id: &str) -> Option<(String, String)> {
    let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: ") {
            if r.contains(&format!("id={id} ")) {
                let prop = r.split_whitespace().next().unwrap_or("").trim_start_matches("property=").to_string();
                return Some((prop, r.to_string()));
            }
        }
    }
    None
}

pub fn main(suite: &'static Suite) -> i32 {
    unsafe {
        NAMES = suite.names;
        assert!(suite.names.len() <= NCOUNT);
        for i in 0..SLOTS {
            SLOTV[i] = map::<Slot>();
        }
        SHARED = map::<Shared>();
        SITES = map::<Sites>();
        SLOT = SLOTV[SLOTS - 1];
    }
    hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run_property(suite, &root, &args[2], args.get(3).map(|s| s.as_str())),
        Some("replay") => replay(suite, &args[2]),
        Some("determinism") => determinism(suite, args.get(2).and_then(|x| x.parse().ok()).unwrap_or(200)),
        Some("list") => {
            for s in suite.scenarios {
                println!("{} {:?} {}", s.name, s.props, s.about);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck run PROPERTY [SCENARIO] | replay FILE | determinism N | list");
            2
        }
    }
}

fn vseed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn run_property(suite: &'static Suite, root: &str, prop: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed = vseed();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let sh: &'static Shared = unsafe { &*SHARED };
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 8)
    });
    println!("seed {seed} tier {} workers {workers}", if thorough { "thorough" } else { "quick" });
    let scs: Vec<&Scenario> = suite
        .scenarios
        .iter()
        .filter(|s| s.props.contains(&prop) && only.is_none_or(|o| o == s.name))
        .collect();
    if scs.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    let mut per = Vec::new();
    let mut violations = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut code = 0;
    let mut known_lines = Vec::new();
    let budget = if thorough { 3.0 * 3600.0 } else { 420.0 };
    let total_runs: u64 = scs.iter().map(|s| if thorough { s.thorough } else { s.quick }).sum();
    for sc in &scs {
        let total = if thorough { sc.thorough } else { sc.quick };
        let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let total = ((total as f64 * scale) as u64).max(8);
        let cap = budget * (0.1 + 0.9 * (total as f64 / total_runs.max(1) as f64));
        let (r0, d0, s0) = (sh.runs.load(Relaxed), sh.distinct.load(Relaxed), Instant::now());
        let t = search(sh, sc, seed, total, workers, cap);
        let line = format!(
            "  {:<28} runs {:>8}{} distinct {:>8} {:>6.1}s{}",
            sc.name,
            sh.runs.load(Relaxed) - r0,
            if t.capped { " (time cap)" } else { "" },
            sh.distinct.load(Relaxed) - d0,
            s0.elapsed().as_secs_f64(),
            match &t.found {
                Some(f) => format!("  !! {} at run {}", f.class, f.idx),
                None => String::new(),
            }
        );
        println!("{line}");
        per.push(format!(
            "{{\"scenario\":{},\"runs\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"about\":{}}}",
            json::s(sc.name),
            sh.runs.load(Relaxed) - r0,
            sh.distinct.load(Relaxed) - d0,
            s0.elapsed().as_secs_f64(),
            json::s(sc.about)
        ));
        // write out sample cases
        if samples.len() < 3 && sc.known.is_none() {
            let i = 1 + samples.len() as u64;
            unsafe {
                let sl = &mut *SLOTV[SLOTS - 1];
                reset_slot(sl);
                SLOT = SLOTV[SLOTS - 1];
                let p = fork();
                if p == 0 {
                    quiet();
                    alarm(10);
                    let body = sc.body;
                    run_one(Source::Seed(run_seed(seed, sc.name, i)), &cfg_for(sc, i, true), Box::new(move || body()));
                    _exit(0);
                }
                let mut st = 0;
                waitpid(p, &mut st, 0);
                let tr = trace_lines(sl);
                let tr: Vec<String> = tr.iter().take(60).map(|l| json::s(l)).collect();
                samples.push(format!(
                    "{{\"scenario\":{},\"run\":{i},\"seed\":{},\"trace\":[{}]}}",
                    json::s(sc.name),
                    run_seed(seed, sc.name, i),
                    tr.join(",")
                ));
            }
        }
        let Some(f) = t.found else {
            if let Some(k) = sc.known {
                println!("  (known finding {k} was not reproduced by this batch)");
            }
            continue;
        };
        let faults = cfg_for(sc, f.idx, false).faults;
        if let Some(k) = sc.known {
            if let Some((p, text)) = known_listed(root, k) {
                if p == prop {
                    known_lines.push(format!("KNOWN-FINDING: {text}"));
                    println!("  ({}: {})", f.class, f.msg.lines().next().unwrap_or(""));
                    continue;
                }
            }
        }
        // confirm
        let (end, _) = attempt(sc, faults, &f.choices, false);
        match end {
            End::Bad(ref c, _) if *c == f.class => {}
            End::Bad(ref c, ref m) => {
                println!("note: replay ended as {c}: {m}");
            }
            _ => {
                eprintln!("harness error: {} run {} ({}: {}) did not reproduce", sc.name, f.idx, f.class, f.msg);
                return 2;
            }
        }
        let min = minimise(sc, faults, &f, if thorough { 60 } else { 25 });
        let (end, min) = match attempt(sc, faults, &min, true) {
            (End::Bad(c, m), n) => (Some((c, m)), n),
            _ => (None, min),
        };
        let (class, msg) = end.unwrap_or((f.class.clone(), f.msg.clone()));
        let tr = trace_lines(unsafe { &*SLOTV[SLOTS - 1] });
        std::fs::create_dir_all(format!("{root}/replays")).ok();
        let path = format!("{root}/replays/{prop}-{}.json", sc.name);
        let tl: Vec<String> = tr.iter().map(|l| json::s(l)).collect();
        let cs: Vec<String> = min.iter().map(|c| c.to_string()).collect();
        let doc = format!(
            "{{\n\"property\":{},\n\"scenario\":{},\n\"verif_seed\":{seed},\n\"run\":{},\n\"seed\":{},\n\"class\":{},\n\"message\":{},\n\"faults\":{},\n\"original_choices\":{},\n\"choices\":[{}],\n\"trace\":[\n{}\n]\n}}\n",
            json::s(prop),
            json::s(sc.name),
            f.idx,
            run_seed(seed, sc.name, f.idx),
            json::s(&class),
            json::s(&msg),
            faults,
            f.choices.len(),
            cs.join(","),
            tl.join(",\n")
        );
        if let Err(e) = std::fs::write(&path, doc) {
            eprintln!("cannot write {path}: {e}");
        }
        println!("--- {} ({} decisions, minimised to {})", sc.name, f.choices.len(), min.len());
        println!("    seed {} run {}", run_seed(seed, sc.name, f.idx), f.idx);
        println!("    {class}: {msg}");
        for l in tr.iter().rev().take(40).collect::<Vec<_>>().into_iter().rev() {
            println!("    | {l}");
        }
        println!("VIOLATION property={prop} replay={path}");
        violations += 1;
        code = 1;
        break;
    }
    known_lines.dedup();
    for l in &known_lines {
        println!("{l}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = sh.runs.load(Relaxed);
    let counts: Vec<String> = suite
        .names
        .iter()
        .enumerate()
        .filter(|(i, n)| suite.faults.contains(n) && sh.counts[*i].load(Relaxed) > 0)
        .map(|(i, n)| format!("{}:{}", json::s(n), sh.counts[i].load(Relaxed)))
        .collect();
    let probes: Vec<String> = suite
        .names
        .iter()
        .enumerate()
        .filter(|(i, n)| !suite.faults.contains(n) && sh.counts[*i].load(Relaxed) > 0)
        .map(|(i, n)| format!("{}:{}", json::s(n), sh.counts[i].load(Relaxed)))
        .collect();
    let q = |v: &[&str]| v.iter().map(|x| json::s(x)).collect::<Vec<_>>().join(",");
    let real: Vec<&str> = suite.real.iter().filter(|(p, _)| *p == "*" || *p == prop).map(|(_, t)| *t).collect();
    let doc = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"exploration\",\n\"coverage\":{{\n\"evaluations\":{runs},\n\"distinct_nontrivial\":{},\n\"nontrivial\":{},\n\"distinct_calm\":{},\n\"rule\":{},\n\"samples\":[{}],\n\"simulated_runs_per_hour\":{:.0},\n\"seeds_per_hour\":{:.0},\n\"scheduling_points\":{},\n\"context_switches\":{},\n\"simulated_seconds\":{:.3},\n\"discarded_runs\":{},\n\"faults_injected\":{{{}}},\n\"probes\":{{{}}},\n\"scenarios\":[{}],\n\"real_components\":[{}],\n\"stubbed_components\":[{}],\n\"exhaustive\":false\n}},\n\"assumptions\":[{}],\n\"wall_s\":{wall:.2},\n\"violations\":{violations}\n}}\n",
        json::s(prop),
        json::s(if thorough { "thorough" } else { "quick" }),
        sh.distinct.load(Relaxed),
        sh.nontrivial.load(Relaxed),
        sh.calm.load(Relaxed),
        json::s("One run = one seed: operations, arguments, thread schedule, stale reads, allocation placement and faults all drawn from it. Non-trivial: at least one preemption with another thread runnable, or at least one injected fault. Distinct: by a hash over the sequence of (thread, kind of atomic operation, location ordinal), generated operations and fired faults (set of 2^24 slots, so an undercount once it fills). distinct_calm: distinct runs with neither (one thread, no fault: input generation only)."),
        samples.join(","),
        runs as f64 / wall * 3600.0,
        runs as f64 / wall * 3600.0,
        sh.steps.load(Relaxed),
        sh.switches.load(Relaxed),
        sh.sim_ns.load(Relaxed) as f64 / 1e9,
        sh.discarded.load(Relaxed),
        counts.join(","),
        probes.join(","),
        per.join(","),
        q(&real),
        q(suite.stub),
        q(suite.assumptions),
    );
    if only.is_none() {
        std::fs::create_dir_all(format!("{root}/evidence")).ok();
        if let Err(e) = std::fs::write(format!("{root}/evidence/{prop}.json"), doc) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{prop}: {runs} runs, {} distinct non-trivial, {:.1}s, {}",
        sh.distinct.load(Relaxed),
        wall,
        if code == 0 { "held on everything explored" } else { "VIOLATED" }
    );
    code
}

fn replay(suite: &'static Suite, path: &str) -> i32 {
    let doc = match std::fs::read_to_string(path) {
        Ok(d) => d,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let name = json::field(&doc, "scenario").unwrap_or("");
    let prop = json::field(&doc, "property").unwrap_or("");
    let class = json::field(&doc, "class").unwrap_or("");
    let faults = json::field(&doc, "faults") == Some("true");
    let choices: Vec<u16> = json::field(&doc, "choices")
        .unwrap_or("[]")
        .trim_matches(['[', ']'])
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    let Some(sc) = suite.scenarios.iter().find(|s| s.name == name) else {
        eprintln!("unknown scenario {name}");
        return 2;
    };
    let (end, _) = attempt(sc, faults, &choices, true);
    for l in trace_lines(unsafe { &*SLOTV[SLOTS - 1] }) {
        println!("| {l}");
    }
    match end {
        End::Bad(c, m) => {
            println!("{c}: {m}");
            if c == class {
                println!("VIOLATION property={prop} replay={path}");
                1
            } else {
                println!("a different violation than the recorded {class}");
                println!("VIOLATION property={prop} replay={path}");
                1
            }
        }
        End::Clean => {
            println!("no violation: the replay ran to its end");
            0
        }
        _ => 2,
    }
}

/// Runs every scenario's first seeds twice, in different processes and with different predecessors in
/// the process, and compares the hashes of the executions.
fn determinism(suite: &'static Suite, n: u64) -> i32 {
    let seed = vseed();
    let mut bad = 0;
    for sc in suite.scenarios.iter().filter(|s| s.known.is_none()) {
        let mut hashes: Vec<Vec<u64>> = Vec::new();
        for pass in 0..3u64 {
            let mut v = vec![0u64; n as usize];
            // pass 0: one process, ascending; pass 1: one process, descending; pass 2: a process per run
            let runs: Vec<u64> = match pass {
                1 => (0..n).rev().collect(),
                _ => (0..n).collect(),
            };
            let chunks: Vec<Vec<u64>> = if pass == 2 || sc.fork_each {
                runs.iter().map(|r| vec![*r]).collect()
            } else {
                vec![runs]
            };
            let out: &mut Slot = unsafe { &mut *SLOTV[0] };
            for c in chunks {
                out.trace_len.store(0, Relaxed);
                unsafe {
                    let p = fork();
                    if p == 0 {
                        quiet();
                        SLOT = SLOTV[1];
                        reset_slot(slot());
                        for (k, i) in c.iter().enumerate() {
                            let body = sc.body;
                            run_one(Source::Seed(run_seed(seed, sc.name, *i)), &cfg_for(sc, *i, false), Box::new(move || body()));
                            let h = sim().hash ^ sim().steps;
                            out.trace[k * 8..k * 8 + 8].copy_from_slice(&h.to_le_bytes());
                        }
                        _exit(0);
                    }
                    let mut st = 0;
                    waitpid(p, &mut st, 0);
                    if st != 0 {
                        println!("{}: pass {pass} ended with {st:#x}", sc.name);
                        bad += 1;
                        break;
                    }
                }
                for (k, i) in c.iter().enumerate() {
                    v[*i as usize] = u64::from_le_bytes(out.trace[k * 8..k * 8 + 8].try_into().unwrap());
                }
            }
            hashes.push(v);
        }
        let diffs = (0..n as usize).filter(|i| hashes[0][*i] != hashes[1][*i] || hashes[0][*i] != hashes[2][*i]).count();
        println!("{:<28} {n} seeds x 3 processes: {diffs} differ", sc.name);
        bad += (diffs != 0) as i32;
    }
    (bad != 0) as i32
}
