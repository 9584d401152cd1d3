//! Monitor runtime: runs the cases of a workload over all cores, records what was observed, keeps
//! a flight recorder for attributing aborts, and writes one JSON result.
//!
//! Every case is a pure function of (seed, unit name, case number), so a violation replays from
//! those three alone.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub scale: f64,
}

impl Cfg {
    /// `n` cases at quick tier, `n * k` at thorough, times the scale of this run.
    pub fn cases(&self, quick: u64, thorough_factor: u64) -> u64 {
        let n = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => quick * thorough_factor,
        };
        ((n as f64 * self.scale) as u64).max(1)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub type Case<'a> = Box<dyn Fn(u64, &mut Rng, &mut Obs) + Sync + Send + 'a>;

/// A named family of cases.
pub struct Unit {
    pub name: String,
    pub cases: u64,
    pub run: Case<'static>,
}

impl Unit {
    pub fn new(
        name: impl Into<String>,
        cases: u64,
        run: impl Fn(u64, &mut Rng, &mut Obs) + Sync + Send + 'static,
    ) -> Self {
        Unit {
            name: name.into(),
            cases,
            run: Box::new(run),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub signature: String,
    pub detail: String,
    pub unit: String,
    pub unit_idx: usize,
    pub case: u64,
}

/// What the monitors saw.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    counters: BTreeMap<&'static str, u64>,
    maxes: BTreeMap<&'static str, u64>,
    tags: BTreeMap<&'static str, BTreeSet<String>>,
    distinct: Vec<u64>,
    samples: Vec<(usize, u64, String)>,
    sampled_unit: usize,
    sampled: usize,
    violations: Vec<Violation>,
    harness_errors: Vec<String>,
    unit: String,
    unit_idx: usize,
    case: u64,
    pub verbose: bool,
}

impl Obs {
    /// One oracle evaluation: an observation of the real code was compared with the specification.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    /// Remember a name in a small set, e.g. which types were exercised.
    pub fn tag(&mut self, k: &'static str, v: &str) {
        let e = self.tags.entry(k).or_default();
        if !e.contains(v) {
            e.insert(v.to_string());
        }
    }
    /// Hash of a non-trivial observation, for the distinct count.
    pub fn distinct(&mut self, h: u64) {
        self.distinct.push(h);
        if self.distinct.len() > 4_000_000 {
            self.distinct.sort_unstable();
            self.distinct.dedup();
        }
    }
    /// Keep at most two written-out cases per unit.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sampled_unit != self.unit_idx + 1 {
            self.sampled_unit = self.unit_idx + 1;
            self.sampled = 0;
        }
        if self.sampled < 2 && self.samples.len() < 2000 {
            self.sampled += 1;
            self.samples.push((self.unit_idx, self.case, f()));
        }
    }
    pub fn fail(&mut self, signature: impl Into<String>, detail: impl Into<String>) {
        let signature = signature.into();
        if signature.contains("harness: ") || signature.contains("model: ") {
            return self.harness_error(format!("{} case {}: {signature}", self.unit, self.case));
        }
        self.add("violations_raw", 1);
        if self.violations.iter().filter(|v| v.signature == signature).count() >= 2
            || self.violations.len() > 200
        {
            return;
        }
        self.violations.push(Violation {
            signature,
            detail: detail.into(),
            unit: self.unit.clone(),
            unit_idx: self.unit_idx,
            case: self.case,
        });
    }
    /// The harness itself is at fault: the run is inconclusive.
    pub fn harness_error(&mut self, what: impl Into<String>) {
        if self.harness_errors.len() < 20 {
            self.harness_errors.push(what.into());
        }
    }
    pub fn case_id(&self) -> (String, u64) {
        (self.unit.clone(), self.case)
    }

    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for (k, v) in o.tags {
            self.tags.entry(k).or_default().extend(v);
        }
        self.distinct.extend(o.distinct);
        self.distinct.sort_unstable();
        self.distinct.dedup();
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
    }
}

// ------------------------------------------------------------------------------------------
// panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg} @ {loc}");
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run a call into the code under observation; `Err` carries the panic message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// A panic message without line numbers and digits, to make a stable signature.
pub fn panic_signature(p: &str) -> String {
    let p = p.split(" @ ").next().unwrap_or(p);
    let mut out = String::new();
    let mut digit = false;
    for c in p.chars().take(120) {
        if c.is_ascii_digit() {
            if !digit {
                out.push('#');
            }
            digit = true;
        } else {
            digit = false;
            out.push(if c.is_control() || c == '"' { ' ' } else { c });
        }
    }
    out
}

// ------------------------------------------------------------------------------------------
// flight recorder

extern "C" {
    fn mmap(
        a: *mut core::ffi::c_void,
        len: usize,
        prot: i32,
        flags: i32,
        fd: i32,
        off: i64,
    ) -> *mut core::ffi::c_void;
}

/// Slots of (active, unit index, case, started ms) per thread in a file mapping that survives
/// the death of the process.
struct Recorder(*mut u64);
unsafe impl Sync for Recorder {}
unsafe impl Send for Recorder {}
const SLOTS: usize = 64;

impl Recorder {
    fn new(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("harness: cannot open the recorder");
        f.set_len((SLOTS * 32) as u64).expect("harness: cannot size the recorder");
        // SAFETY: a shared mapping of the file just sized; failure is checked.
        unsafe {
            let m = mmap(std::ptr::null_mut(), SLOTS * 32, 3, 1, f.as_raw_fd(), 0);
            assert!(m as isize != -1, "harness: cannot map the recorder");
            Recorder(m as *mut u64)
        }
    }
    fn set(&self, slot: usize, active: bool, unit: usize, case: u64, ms: u64) {
        // SAFETY: slot < SLOTS, each thread writes its own slot.
        unsafe {
            let p = self.0.add(slot * 4);
            p.add(1).write_volatile(unit as u64);
            p.add(2).write_volatile(case);
            p.add(3).write_volatile(ms);
            p.write_volatile(active as u64);
        }
    }
}

// ------------------------------------------------------------------------------------------
// JSON

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 200 {
        let mut s = hexs(&b[..96]);
        let _ = write!(s, "..({} bytes)..", b.len());
        s.push_str(&hexs(&b[b.len() - 48..]));
        s
    } else {
        hexs(b)
    }
}
fn hexs(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…({} chars)", &s[..e], s.len())
}

// ------------------------------------------------------------------------------------------
// main

struct Args {
    cfg: Cfg,
    out: String,
    rec: String,
    threads: usize,
    cap_s: f64,
    only: Option<(String, u64)>,
    list: bool,
}

fn parse_args() -> Args {
    let mut a = Args {
        cfg: Cfg {
            prop: String::new(),
            seed: 1,
            tier: Tier::Quick,
            scale: 1.0,
        },
        out: String::new(),
        rec: String::new(),
        threads: 8,
        cap_s: 1e9,
        only: None,
        list: false,
    };
    let mut it = std::env::args().skip(1);
    let mut unit = None;
    let mut case = None;
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("harness: missing argument value");
        match k.as_str() {
            "--prop" => a.cfg.prop = v(),
            "--seed" => a.cfg.seed = v().parse::<i64>().expect("harness: seed") as u64,
            "--tier" => {
                a.cfg.tier = if v() == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            "--scale" => a.cfg.scale = v().parse().expect("harness: scale"),
            "--out" => a.out = v(),
            "--rec" => a.rec = v(),
            "--threads" => a.threads = v().parse().expect("harness: threads"),
            "--cap" => a.cap_s = v().parse().expect("harness: cap"),
            "--unit" => unit = Some(v()),
            "--case" => case = Some(v().parse().expect("harness: case")),
            "--list" => a.list = true,
            _ => panic!("harness: unknown argument {k}"),
        }
    }
    if let Some(u) = unit {
        a.only = Some((u, case.unwrap_or(0)));
    }
    a
}

fn run_case(units: &[Unit], u: usize, case: u64, seed: u64, obs: &mut Obs) {
    let unit = &units[u];
    if obs.unit_idx != u || obs.unit != unit.name {
        obs.unit = unit.name.clone();
        obs.unit_idx = u;
    }
    obs.case = case;
    let mut rng = Rng::for_case(seed, &unit.name, case);
    if let Err(p) = catch(|| (unit.run)(case, &mut rng, obs)) {
        if p.contains("model: ") || p.contains("harness: ") {
            obs.harness_error(format!("{} case {case}: {p}", unit.name));
        } else {
            obs.fail(
                format!("{}|panic|{}", unit.name, panic_signature(&p)),
                format!("the call panicked: {p}"),
            );
        }
    }
}

/// Run the workload of this process. `units` builds it from the configuration.
pub fn main_with(units: impl FnOnce(&Cfg) -> Vec<Unit>) {
    let a = parse_args();
    install_panic_hook();
    let t0 = Instant::now();
    let units = match catch(|| units(&a.cfg)) {
        Ok(u) => u,
        Err(p) => {
            eprintln!("harness: building the workload panicked: {p}");
            std::process::exit(3);
        }
    };
    {
        let mut seen = BTreeSet::new();
        for u in &units {
            if !seen.insert(&u.name) {
                eprintln!("harness: unit name twice: {}", u.name);
                std::process::exit(3);
            }
        }
    }
    if a.list {
        for u in &units {
            println!("{}\t{}", u.name, u.cases);
        }
        return;
    }
    let rec = (!a.rec.is_empty()).then(|| Recorder::new(&a.rec));
    let total = Mutex::new(Obs::default());
    let capped = AtomicBool::new(false);
    let done_chunks = AtomicUsize::new(0);
    let mut n_chunks = 0;

    if let Some((name, case)) = &a.only {
        let u = units
            .iter()
            .position(|u| &u.name == name)
            .unwrap_or_else(|| panic!("harness: no unit named {name}"));
        let mut obs = Obs {
            verbose: true,
            ..Obs::default()
        };
        if let Some(r) = &rec {
            r.set(0, true, u, *case, 0);
        }
        // On a thread of the same kind as in a full run, for the same stack size.
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || run_case(&units, u, *case, a.cfg.seed, &mut obs))
                .unwrap();
        });
        if let Some(r) = &rec {
            r.set(0, false, u, *case, 0);
        }
        total.lock().unwrap().merge(obs);
    } else {
        // Chunks of about 1/64 of each unit, dealt round-robin so that a run cut short by its
        // time cap has visited every unit.
        let mut chunks: Vec<(u64, usize, u64, u64)> = vec![];
        for (i, u) in units.iter().enumerate() {
            let step = (u.cases / 64).clamp(1, 4096);
            let mut k = 0;
            let mut round = 0;
            while k < u.cases {
                let e = (k + step).min(u.cases);
                chunks.push((round, i, k, e));
                k = e;
                round += 1;
            }
        }
        chunks.sort();
        n_chunks = chunks.len();
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..a.threads {
                let (chunks, next, units, total, rec, capped, cfg, done_chunks) = (
                    &chunks, &next, &units, &total, &rec, &capped, &a.cfg, &done_chunks,
                );
                let cap = Duration::from_secs_f64(a.cap_s.min(1e6));
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut obs = Obs::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= chunks.len() {
                                break;
                            }
                            if t0.elapsed() > cap {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let (_, u, lo, hi) = chunks[i];
                            for case in lo..hi {
                                if let Some(r) = rec {
                                    r.set(t, true, u, case, t0.elapsed().as_millis() as u64);
                                }
                                run_case(units, u, case, cfg.seed, &mut obs);
                            }
                            if let Some(r) = rec {
                                r.set(t, false, u, hi, 0);
                            }
                            done_chunks.fetch_add(1, Ordering::Relaxed);
                        }
                        total.lock().unwrap().merge(obs);
                    })
                    .unwrap();
            }
        });
    }

    let mut obs = total.into_inner().unwrap();
    obs.violations
        .sort_by(|x, y| (x.unit_idx, x.case).cmp(&(y.unit_idx, y.case)));
    let mut seen = BTreeSet::new();
    obs.violations.retain(|v| seen.insert(v.signature.clone()));
    obs.samples.sort();
    // A spread of samples over the units.
    let n = obs.samples.len();
    let step = (n / 16).max(1);
    let samples: Vec<_> = obs.samples.iter().step_by(step).take(20).collect();

    let mut j = String::from("{\n");
    let _ = writeln!(j, "\"property\":{},", jstr(&a.cfg.prop));
    let _ = writeln!(j, "\"seed\":{},", a.cfg.seed as i64);
    let _ = writeln!(j, "\"units\":{},", units.len());
    let _ = writeln!(
        j,
        "\"unit_names\":[{}],",
        units.iter().map(|u| jstr(&u.name)).collect::<Vec<_>>().join(",")
    );
    let _ = writeln!(j, "\"capped\":{},", capped.load(Ordering::Relaxed));
    let _ = writeln!(
        j,
        "\"chunks_done\":{},\"chunks\":{n_chunks},",
        done_chunks.load(Ordering::Relaxed)
    );
    let _ = writeln!(j, "\"wall_s\":{:.3},", t0.elapsed().as_secs_f64());
    let _ = writeln!(j, "\"evaluations\":{},", obs.evals);
    let _ = writeln!(j, "\"distinct\":{},", obs.distinct.len());
    let kv = |m: &BTreeMap<&'static str, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}:{v}", jstr(k)))
            .collect::<Vec<_>>()
            .join(",")
    };
    let _ = writeln!(j, "\"counters\":{{{}}},", kv(&obs.counters));
    let _ = writeln!(j, "\"maxima\":{{{}}},", kv(&obs.maxes));
    let _ = writeln!(
        j,
        "\"tags\":{{{}}},",
        obs.tags
            .iter()
            .map(|(k, v)| format!(
                "{}:[{}]",
                jstr(k),
                v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = writeln!(
        j,
        "\"samples\":[{}],",
        samples
            .iter()
            .map(|(u, c, s)| format!(
                "{{\"unit\":{},\"case\":{c},\"observed\":{}}}",
                jstr(&units[*u].name),
                jstr(&clip(s, 600))
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    let _ = writeln!(
        j,
        "\"harness_errors\":[{}],",
        obs.harness_errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    let _ = writeln!(
        j,
        "\"violations\":[{}]",
        obs.violations
            .iter()
            .map(|v| format!(
                "{{\"signature\":{},\"unit\":{},\"case\":{},\"detail\":{}}}",
                jstr(&v.signature),
                jstr(&v.unit),
                v.case,
                jstr(&clip(&v.detail, 4000))
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    j.push_str("}\n");
    if a.out.is_empty() {
        print!("{j}");
    } else {
        std::fs::write(&a.out, j).expect("harness: cannot write the result");
    }
}

const STACK: usize = 16 << 20;
