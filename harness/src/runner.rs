//! Driver: partitions the enumeration over threads, runs every case on the real code, catches
//! panics, hangs and crashes, writes evidence and replay files, prints verdict lines.
use crate::track;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    Miri,
}

/// counters one case may bump
#[derive(Default)]
pub struct Stats {
    pub transitions: u64,
    outcome: u64,
}
impl Stats {
    /// one API step was executed and the resulting state was compared with the model
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// fold something observed into the hash of this execution's outcome
    pub fn see(&mut self, x: u64) {
        self.outcome = (self.outcome ^ x.wrapping_add(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
    }
    pub fn sees(&mut self, x: impl IntoIterator<Item = u32>) {
        for v in x {
            self.see(v as u64);
        }
        self.see(u64::MAX);
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub case: String,
    pub what: String,
    pub shard: u64,
    pub no: u64,
}

pub struct Ctx {
    pub tier: Tier,
    nthreads: u64,
    tid: u64,
    item: u64,
    no: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub items: u64,
    outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    only: Option<String>,
    trace_no: Option<u64>,
    pub bounds: Vec<String>,
    pub check_leaks: bool,
    known: HashSet<String>,
    pub known_hits: std::collections::BTreeMap<String, (u64, String)>,
    label_filter: Option<String>,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

const MAX_VIOLS_PER_THREAD: usize = 2_000;

static FALLBACK: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static mut SHARED: *const AtomicU64 = std::ptr::null();
fn slot(tid: u64) -> &'static AtomicU64 {
    unsafe {
        if SHARED.is_null() {
            &FALLBACK[tid as usize % 64]
        } else {
            &*SHARED.add(tid as usize % 64)
        }
    }
}

impl Ctx {
    fn new(tier: Tier, tid: u64, nthreads: u64) -> Ctx {
        Ctx {
            tier,
            nthreads,
            tid,
            item: 0,
            no: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            items: 0,
            outcomes: HashSet::new(),
            samples: vec![],
            viols: vec![],
            only: None,
            trace_no: None,
            bounds: vec![],
            check_leaks: false,
            known: HashSet::new(),
            known_hits: Default::default(),
            label_filter: None,
        }
    }
    /// pick by tier
    pub fn pick<T>(&self, quick: T, thorough: T, miri: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
            Tier::Miri => miri,
        }
    }
    pub fn bound(&mut self, s: String) {
        if self.tid == 0 && !self.bounds.contains(&s) {
            self.bounds.push(s);
        }
    }
    /// does the next work item (a shape, usually) belong to this shard?
    pub fn mine(&mut self) -> bool {
        let m = self.item % self.nthreads == self.tid;
        self.item += 1;
        if m {
            self.items += 1;
        }
        m
    }
    /// Run one case: one execution of the real code compared with the model.
    #[inline]
    pub fn case(&mut self, desc: &dyn Fn() -> String, body: &mut dyn FnMut(&mut Stats) -> Result<(), String>) {
        self.no += 1;
        if let Some(n) = self.trace_no {
            if n != self.no {
                return;
            }
            println!("TRACE {}", desc());
            let _ = std::io::stdout().flush();
        }
        if let Some(o) = &self.only {
            if *o != desc() {
                return;
            }
        }
        if let Some(f) = &self.label_filter {
            if !desc().contains(f.as_str()) {
                return;
            }
        }
        if self.viols.len() >= MAX_VIOLS_PER_THREAD {
            return;
        }
        slot(self.tid).store(self.no, AO::Relaxed);
        track::begin();
        let mut st = Stats::default();
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut st)));
        slot(self.tid).store(0, AO::Relaxed);
        let mut what = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        if what.is_none() {
            if let Some(b) = track::bad() {
                what = Some(b);
            } else if self.check_leaks && track::live() != 0 {
                what = Some(format!("{} of {} values were never dropped", track::live(), track::created()));
            }
        }
        // the initial state, and the state after every step
        self.states += 1 + st.transitions;
        self.transitions += st.transitions;
        self.traces += 1;
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(st.outcome);
        }
        if self.samples.len() < 6 && (self.traces % 997 == 1 || self.only.is_some()) {
            self.samples.push(desc());
        }
        if let Some(what) = what {
            let v = Viol { case: desc(), what, shard: self.tid, no: self.no };
            match is_known(&self.known, &v) {
                Some(l) => self.known_hits.entry(l).or_insert_with(|| (0, v.case)).0 += 1,
                None => self.viols.push(v),
            }
        }
    }
}

/// Run the cases on the current thread, without any process machinery (used under Miri).
pub fn run_here(parts: &[(&str, fn(&mut Ctx))], shard: u64, nshards: u64, filter: Option<String>) -> (u64, u64, u64, Vec<Viol>) {
    install_hook();
    let (mut s, mut t, mut n, mut v) = (0, 0, 0, vec![]);
    for (_, f) in parts {
        let mut c = Ctx::new(Tier::Miri, shard, nshards);
        c.label_filter = filter.clone();
        f(&mut c);
        s += c.states;
        t += c.transitions;
        n += c.traces;
        v.extend(c.viols);
    }
    (s, t, n, v)
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = m + &loc);
    }));
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// known_findings.txt: lines "KNOWN<TAB>property<TAB>exact case<TAB>what fails"
/// A case ending in `*` stands for every case with that prefix (one call site, every history).
fn known(prop: &str) -> HashSet<String> {
    std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let p: Vec<&str> = l.split('\t').collect();
            (p.len() >= 4 && p[0] == "KNOWN" && p[1] == prop).then(|| format!("{}\t{}", p[2], p[3]))
        })
        .collect()
}
/// both the failing case and what fails there must be the listed ones
fn is_known(kn: &HashSet<String>, v: &Viol) -> Option<String> {
    kn.iter().find(|l| {
        let (case, what) = l.split_once('\t').unwrap();
        let hit = match case.strip_suffix('*') {
            Some(p) => v.case.starts_with(p),
            None => v.case == case,
        };
        hit && v.what == what
    }).cloned()
}

fn short(s: &str) -> String {
    match s.char_indices().nth(1500) {
        Some((i, _)) => format!("{} ...", &s[..i]),
        None => s.to_string(),
    }
}
pub fn main_for(prop: &'static str, assumptions: &[&str], run: fn(&mut Ctx)) {
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match args.get(1).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        Some("mini") => Tier::Miri,
        _ => Tier::Quick,
    };
    let mut only = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        for l in txt.lines() {
            if let Some(c) = l.strip_prefix("case: ") {
                only = Some(c.to_string());
            }
            if l == "tier: thorough" {
                tier = Tier::Thorough;
            }
        }
    }
    let nthreads: u64 = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    if std::env::var("MC_WORKER").is_ok() {
        worker(prop, tier, only, assumptions, run, nthreads);
    } else {
        parent(prop, tier, nthreads, &args);
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
        Tier::Miri => "miri",
    }
}

fn evidence(prop: &str, tier: Tier, cov: &str, assumptions: &[&str], wall: f64, viol: usize) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
    let a: Vec<String> = assumptions.iter().map(|a| esc(a)).collect();
    let txt = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        esc(prop), tier_name(tier), seed, cov, a.join(","), wall, viol
    );
    std::fs::write(format!("{dir}/{prop}.json"), txt).expect("write evidence");
}

fn write_replay(prop: &str, tier: Tier, n: usize, v: &Viol) -> String {
    let dir = format!("{}/evidence/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{n}.txt");
    let _ = std::fs::write(
        &path,
        format!("property: {prop}\ntier: {}\ncase: {}\nwhat: {}\nreplay: /verif/check.sh {prop} --replay {path}\n", tier_name(tier), v.case, v.what),
    );
    path
}

fn worker(prop: &'static str, tier: Tier, only: Option<String>, assumptions: &[&str], run: fn(&mut Ctx), nthreads: u64) {
    install_hook();
    let start = Instant::now();
    unsafe {
        // a runaway execution must fail here, not take the sandbox down
        let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        if let Ok(p) = std::env::var("MC_SHARED") {
            if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(&p) {
                use std::os::fd::AsRawFd;
                let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
                if m != libc::MAP_FAILED {
                    SHARED = m as *const AtomicU64;
                }
            }
        }
    }
    let trace: Option<(u64, u64)> = std::env::var("MC_TRACE").ok().and_then(|s| {
        let (a, b) = s.split_once(':')?;
        Some((a.parse().ok()?, b.parse().ok()?))
    });
    let one_shard: Option<u64> = std::env::var("MC_SHARD").ok().and_then(|s| s.parse().ok());
    let hang_s: u64 = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let done = std::sync::Arc::new(AtomicU64::new(0));
    {
        // watchdog: a case that makes no progress for hang_s is a hang
        let done = done.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = (0..nthreads).map(|_| (0, Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                for t in 0..nthreads {
                    if done.load(AO::Relaxed) & (1 << t) != 0 {
                        continue;
                    }
                    let v = slot(t).load(AO::Relaxed);
                    let l = &mut last[t as usize];
                    if v != l.0 {
                        *l = (v, Instant::now());
                    } else if v != 0 && l.1.elapsed() > Duration::from_secs(hang_s) {
                        eprintln!("hang in shard {t} case {v}");
                        std::process::exit(70);
                    }
                }
            }
        });
    }
    let kn = known(prop);
    let mut ctxs: Vec<Ctx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nthreads)
            .filter(|t| trace.map(|(tt, _)| tt == *t).unwrap_or(true) && one_shard.is_none_or(|s| s == *t))
            .map(|t| {
                let only = only.clone();
                let kn = kn.clone();
                let done = done.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut c = Ctx::new(tier, t, nthreads);
                        c.only = only;
                        c.known = kn;
                        c.trace_no = trace.map(|x| x.1);
                        c.label_filter = std::env::var("MC_FILTER").ok();
                        if catch_unwind(AssertUnwindSafe(|| run(&mut c))).is_err() {
                            // while an expectation was being prepared by running the code under test alone
                            let case = format!("shard {t} of {nthreads}, between its case {} and the next", c.no);
                            let what = format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()));
                            c.viols.push(Viol { case, what, shard: t, no: c.no });
                        }
                        done.fetch_or(1 << t, AO::Relaxed);
                        c
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness thread")).collect()
    });
    let wall = start.elapsed().as_secs_f64();
    let mut viols: Vec<Viol> = ctxs.iter_mut().flat_map(|c| std::mem::take(&mut c.viols)).collect();
    viols.sort_by_key(|v| (v.no, v.shard));
    let new = viols;
    let mut known: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    for (l, (n, case)) in ctxs.iter().flat_map(|c| c.known_hits.iter()) {
        let e = known.entry(l.clone()).or_insert_with(|| (0, case.clone()));
        e.0 += n;
        e.1 = e.1.clone().min(case.clone());
    }
    for (l, (n, case)) in &known {
        let (c, w) = l.split_once('\t').unwrap();
        println!("KNOWN-FINDING: property={prop} {c} :: {w} ({n} executions, e.g. {case})");
    }
    let sum = |f: fn(&Ctx) -> u64| ctxs.iter().map(f).sum::<u64>();
    let (states, trans, traces, items) = (sum(|c| c.states), sum(|c| c.transitions), sum(|c| c.traces), sum(|c| c.items));
    let mut outcomes = HashSet::new();
    ctxs.iter().for_each(|c| outcomes.extend(c.outcomes.iter().copied()));
    let mut samples: Vec<String> = ctxs.iter().flat_map(|c| c.samples.iter().take(2).cloned()).collect();
    samples.truncate(12);
    let bounds: Vec<String> = ctxs.iter().flat_map(|c| c.bounds.iter().cloned()).collect();
    if std::env::var("MC_ALL").is_ok() {
        for v in new.iter().take(3_000_000) {
            println!("  {} :: {}", v.case, v.what);
        }
    }
    if only.is_none() && trace.is_none() && one_shard.is_none() {
        let cov = format!(
            "\"states\":{states},\"transitions\":{trans},\"traces_validated_against_impl\":{traces},\"work_items\":{items},\"distinct_outcomes\":{},\"exhaustive\":true,\"bounds\":[{}],\"samples\":[{}]",
            outcomes.len(),
            bounds.iter().map(|b| esc(b)).collect::<Vec<_>>().join(","),
            samples.iter().map(|b| esc(b)).collect::<Vec<_>>().join(",")
        );
        evidence(prop, tier, &cov, assumptions, wall, new.len());
    }
    println!("property={prop} tier={} states={states} transitions={trans} executions={traces} work_items={items} distinct_outcomes={} violations={} known={} wall={wall:.1}s", tier_name(tier), outcomes.len(), new.len(), known.len());
    if only.is_some() && traces == 0 && new.is_empty() {
        eprintln!("replay: the recorded case was not found in the enumeration");
        std::process::exit(3);
    }
    if !new.is_empty() {
        for (i, v) in new.iter().take(5).enumerate() {
            println!("  case: {}\n  what: {}", short(&v.case), short(&v.what));
            if only.is_none() {
                let p = write_replay(prop, tier, i, v);
                println!("VIOLATION property={prop} replay={p}");
            } else {
                println!("VIOLATION property={prop} replay={}", std::env::args().last().unwrap());
            }
        }
        std::process::exit(1);
    }
    std::process::exit(0);
}

fn parent(prop: &str, tier: Tier, nthreads: u64, args: &[String]) {
    let exe = std::env::current_exe().unwrap();
    let shared = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::write(&shared, vec![0u8; 4096]).expect("shared file");
    let start = Instant::now();
    let st = std::process::Command::new(&exe)
        .args(&args[1..])
        .env("MC_WORKER", "1")
        .env("MC_SHARED", &shared)
        .status()
        .expect("spawn worker");
    let code = st.code();
    if matches!(code, Some(0) | Some(1) | Some(3)) {
        let _ = std::fs::remove_file(&shared);
        std::process::exit(code.unwrap());
    }
    // crash or hang of the code under test: re-run each in-flight case alone to find the culprit
    let bytes = std::fs::read(&shared).unwrap_or_default();
    let _ = std::fs::remove_file(&shared);
    let mut found = None;
    for t in 0..nthreads {
        let o = t as usize * 8;
        let no = bytes.get(o..o + 8).map(|b| u64::from_ne_bytes(b.try_into().unwrap())).unwrap_or(0);
        if no == 0 {
            continue;
        }
        let out = std::process::Command::new(&exe)
            .args(&args[1..])
            .env("MC_WORKER", "1")
            .env("MC_TRACE", format!("{t}:{no}"))
            .output()
            .expect("spawn tracer");
        let txt = String::from_utf8_lossy(&out.stdout);
        let case = txt.lines().find_map(|l| l.strip_prefix("TRACE ")).unwrap_or("").to_string();
        if out.status.code() == Some(70) {
            found = Some(Viol { case, what: "does not terminate".into(), shard: t, no });
            break;
        }
        if out.status.code().is_none() {
            found = Some(Viol { case, what: format!("the process crashed: {}", out.status), shard: t, no });
            break;
        }
        if out.status.code() == Some(1) && found.is_none() {
            let what = txt.lines().find_map(|l| l.strip_prefix("  what: ")).unwrap_or("?").to_string();
            found = Some(Viol { case, what, shard: t, no });
        }
    }
    match found {
        Some(v) => {
            println!("  case: {}\n  what: {}", short(&v.case), short(&v.what));
            let p = write_replay(prop, tier, 0, &v);
            let cov = format!(
                "\"states\":{0},\"transitions\":{0},\"traces_validated_against_impl\":{0},\"exhaustive\":false,\"samples\":[{1}]",
                v.no, esc(&v.case)
            );
            evidence(prop, tier, &cov, &["the run was cut short by a crash or hang of the code under test"], start.elapsed().as_secs_f64(), 1);
            println!("VIOLATION property={prop} replay={p}");
            std::process::exit(1);
        }
        None => {
            // delayed damage (a corrupted heap, say): re-run shard by shard; a shard which crashes on
            // its own again is evidence enough, named by its last case
            if st.code().is_none() {
                for t in 0..nthreads {
                    std::fs::write(&shared, vec![0u8; 4096]).expect("shared file");
                    let out = std::process::Command::new(&exe)
                        .args(&args[1..])
                        .env("MC_WORKER", "1")
                        .env("MC_SHARED", &shared)
                        .env("MC_SHARD", t.to_string())
                        .output()
                        .expect("spawn shard");
                    let bytes = std::fs::read(&shared).unwrap_or_default();
                    let _ = std::fs::remove_file(&shared);
                    if out.status.code().is_none() {
                        let o = t as usize * 8;
                        let no = bytes.get(o..o + 8).map(|b| u64::from_ne_bytes(b.try_into().unwrap())).unwrap_or(0);
                        let case = format!("shard {t} of {nthreads}, cases 1..={no} in order");
                        let v = Viol { case, what: format!("the process crashed: {}", out.status), shard: t, no };
                        println!("  case: {}\n  what: {}", short(&v.case), short(&v.what));
                        let p = write_replay(prop, tier, 0, &v);
                        let cov = format!("\"states\":{0},\"transitions\":{0},\"traces_validated_against_impl\":{0},\"exhaustive\":false,\"samples\":[{1}]", v.no, esc(&v.case));
                        evidence(prop, tier, &cov, &["the run was cut short by a crash of the code under test"], start.elapsed().as_secs_f64(), 1);
                        println!("VIOLATION property={prop} replay={p}");
                        std::process::exit(1);
                    }
                }
            }
            use std::os::unix::process::ExitStatusExt;
            if matches!(st.signal(), Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGABRT | libc::SIGFPE)) {
                // damage that depends on how the shards were interleaved
                let v = Viol { case: format!("all {nthreads} shards at once"), what: format!("the process crashed: {st}"), shard: 0, no: 0 };
                println!("  case: {}\n  what: {}", v.case, v.what);
                let p = write_replay(prop, tier, 0, &v);
                evidence(prop, tier, "\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"exhaustive\":false,\"samples\":[]", &["the run was cut short by a crash of the code under test"], start.elapsed().as_secs_f64(), 1);
                println!("VIOLATION property={prop} replay={p}");
                std::process::exit(1);
            }
            eprintln!("worker ended with {st} and no in-flight case reproduces it");
            std::process::exit(2);
        }
    }
}
