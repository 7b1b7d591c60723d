//! Exhaustive exploration engine.
//!
//! A property is a list of phases; a phase is a finite, indexed space of units; a unit enumerates
//! cases in a fixed order. Worker threads pull units from a shared counter until every unit of
//! every phase has been explored. Nothing is sampled and nothing depends on time or on random
//! numbers: the set of cases judged is a function of the property and tier alone.

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One explored case, self-contained, so that it can be judged again on its own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: String,
    #[serde(default)]
    pub q: String,
    #[serde(default)]
    pub doc: Value,
    #[serde(default)]
    pub x: Value,
}

impl Case {
    pub fn new(kind: &str, q: &str) -> Self {
        Case { kind: kind.into(), q: q.into(), doc: Value::Null, x: Value::Null }
    }
    pub fn doc(mut self, d: &Value) -> Self {
        self.doc = d.clone();
        self
    }
    pub fn x(mut self, x: Value) -> Self {
        self.x = x;
        self
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    /// cases judged
    pub cases: u64,
    /// states of the reference model visited
    pub states: u64,
    /// steps of the reference model taken
    pub transitions: u64,
    /// executions of the implementation compared with the model
    pub traces: u64,
    /// named outcome counters, to show that the exploration is not vacuous
    pub classes: Vec<(&'static str, u64)>,
}

impl Stats {
    pub fn class(&mut self, name: &'static str) {
        self.class_n(name, 1)
    }
    pub fn class_n(&mut self, name: &'static str, k: u64) {
        for (n, c) in self.classes.iter_mut() {
            if std::ptr::eq(n.as_ptr(), name.as_ptr()) || *n == name {
                *c += k;
                return;
            }
        }
        self.classes.push((name, k));
    }
    fn merge(&mut self, o: &Stats) {
        self.cases += o.cases;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (n, c) in &o.classes {
            self.class_n(n, *c);
        }
    }
}

pub type Verdict = Result<(), String>;

pub struct Phase {
    pub name: &'static str,
    pub bound: String,
    pub n: usize,
    pub run: Box<dyn Fn(usize, &mut Ctx) + Send + Sync>,
}

pub fn phase(
    name: &'static str,
    bound: impl Into<String>,
    n: usize,
    run: impl Fn(usize, &mut Ctx) + Send + Sync + 'static,
) -> Phase {
    Phase { name, bound: bound.into(), n, run: Box::new(run) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Failure {
    pub phase: String,
    pub case: Case,
    pub msg: String,
}

pub struct Shared {
    failures: Mutex<Vec<Failure>>,
    stop: AtomicBool,
    harness_error: Mutex<Option<String>>,
    max_failures: usize,
}

/// progress slot of a worker, in a file mapped into memory so that it survives a crash
#[repr(C)]
pub struct Slot {
    phase: AtomicU64,
    unit: AtomicU64,
    count: AtomicU64,
    busy: AtomicU64,
}

pub struct Ctx<'e> {
    shared: &'e Shared,
    slot: &'e Slot,
    pub st: Stats,
    log: Option<std::fs::File>,
    phase: &'static str,
    pub samples: Vec<(u64, Value)>,
    next_sample: u64,
    local_failures: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Judged {
    Ok,
    Violation(String),
    Harness(String),
}

/// Run one judgement, turning panics into violations (or harness errors, if the panic is ours).
pub fn judge(f: &mut dyn FnMut(&mut Stats) -> Verdict, st: &mut Stats) -> Judged {
    match catch_unwind(AssertUnwindSafe(|| f(st))) {
        Ok(Ok(())) => Judged::Ok,
        Ok(Err(m)) => Judged::Violation(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/verif/mc") {
                Judged::Harness(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Judged::Violation(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}

impl Ctx<'_> {
    pub fn stopped(&self) -> bool {
        self.shared.stop.load(Ordering::Relaxed) || self.local_failures >= 3
    }

    pub fn case(
        &mut self,
        mk: &dyn Fn() -> Case,
        f: &mut dyn FnMut(&mut Stats) -> Verdict,
    ) {
        if self.stopped() {
            return;
        }
        self.st.cases += 1;
        self.slot.count.fetch_add(1, Ordering::Relaxed);
        if self.st.cases >= self.next_sample {
            self.next_sample = self.next_sample.saturating_mul(8);
            if self.samples.len() < 12 {
                let s = serde_json::to_value(mk()).unwrap();
                if s.to_string().len() < 600 {
                    self.samples.push((self.st.cases, json!({"phase": self.phase, "case": s})));
                }
            }
        }
        if let Some(log) = self.log.as_mut() {
            let line = serde_json::to_string(&mk()).unwrap();
            writeln!(log, "{line}").unwrap();
            log.flush().unwrap();
        }
        match judge(f, &mut self.st) {
            Judged::Ok => {}
            Judged::Violation(msg) => {
                self.local_failures += 1;
                let mut fs = self.shared.failures.lock().unwrap();
                fs.push(Failure { phase: self.phase.into(), case: mk(), msg });
                if fs.len() >= self.shared.max_failures {
                    self.shared.stop.store(true, Ordering::Relaxed);
                }
            }
            Judged::Harness(msg) => {
                let mut h = self.shared.harness_error.lock().unwrap();
                h.get_or_insert(format!("{msg}; case {}", serde_json::to_string(&mk()).unwrap()));
                self.shared.stop.store(true, Ordering::Relaxed);
            }
        }
    }

    /// a failure of the harness itself (never a verdict on the code)
    pub fn harness_error(&mut self, msg: String) {
        self.shared.harness_error.lock().unwrap().get_or_insert(msg);
        self.shared.stop.store(true, Ordering::Relaxed);
    }
}

pub const MAX_WORKERS: usize = 16;

fn map_slots(path: Option<&str>) -> &'static [Slot; MAX_WORKERS] {
    let size = std::mem::size_of::<[Slot; MAX_WORKERS]>();
    unsafe {
        let (fd, flags) = match path {
            Some(p) => {
                let f = std::fs::OpenOptions::new()
                    .read(true)
                    .write(true)
                    .create(true)
                    .truncate(true)
                    .open(p)
                    .unwrap();
                f.set_len(size as u64).unwrap();
                use std::os::fd::IntoRawFd;
                (f.into_raw_fd(), libc::MAP_SHARED)
            }
            None => (-1, libc::MAP_SHARED | libc::MAP_ANONYMOUS),
        };
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            flags,
            fd,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const [Slot; MAX_WORKERS])
    }
}

pub struct RunOpts<'a> {
    pub slots: Option<&'a str>,
    /// explore only this (phase, unit), logging each case to the file first
    pub only: Option<(usize, usize, &'a str)>,
    pub deadline: Duration,
    pub stall: Duration,
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, MAX_WORKERS)
}

pub fn run(phases: Vec<Phase>, opts: RunOpts) -> Value {
    install_panic_hook();
    let start = Instant::now();
    let shared = Shared {
        failures: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        harness_error: Mutex::new(None),
        max_failures: 8,
    };
    let slots = map_slots(opts.slots);
    let w = if opts.only.is_some() { 1 } else { workers() };
    let total: usize = phases.iter().map(|p| p.n).sum();
    let next = AtomicUsize::new(0);
    let timed_out = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let merged: Mutex<(Stats, Vec<(u64, Value)>, Vec<(Stats, usize)>)> =
        Mutex::new((Stats::default(), vec![], vec![(Stats::default(), 0); phases.len()]));
    std::thread::scope(|s| {
        let mut hs = vec![];
        for slot in slots.iter().take(w) {
            let (shared, phases, next, timed_out, merged) =
                (&shared, &phases, &next, &timed_out, &merged);
            let only = opts.only;
            let deadline = opts.deadline;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut first = true;
                        loop {
                            let (pi, u) = match only {
                                Some((p, u, _)) => {
                                    if !first {
                                        break;
                                    }
                                    (p, u)
                                }
                                None => {
                                    let mut i = next.fetch_add(1, Ordering::Relaxed);
                                    if i >= total {
                                        break;
                                    }
                                    let mut pi = 0;
                                    while i >= phases[pi].n {
                                        i -= phases[pi].n;
                                        pi += 1;
                                    }
                                    (pi, i)
                                }
                            };
                            first = false;
                            if shared.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if only.is_none() && start.elapsed() > deadline {
                                timed_out.store(true, Ordering::Relaxed);
                                break;
                            }
                            let p = &phases[pi];
                            let mut cx = Ctx {
                                shared,
                                slot,
                                st: Stats::default(),
                                log: only.map(|(_, _, f)| std::fs::File::create(f).unwrap()),
                                phase: p.name,
                                samples: vec![],
                                next_sample: if u % (p.n / 3 + 1) == 0 { 1 } else { u64::MAX },
                                local_failures: 0,
                            };
                            slot.phase.store(pi as u64, Ordering::SeqCst);
                            slot.unit.store(u as u64, Ordering::SeqCst);
                            slot.busy.store(1, Ordering::SeqCst);
                            let r = catch_unwind(AssertUnwindSafe(|| (p.run)(u, &mut cx)));
                            slot.busy.store(0, Ordering::SeqCst);
                            slot.count.fetch_add(1, Ordering::Relaxed);
                            if r.is_err() {
                                let (loc, msg) =
                                    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                shared.harness_error.lock().unwrap().get_or_insert(format!(
                                    "panic outside a case, phase {} unit {u}, {loc}: {msg}",
                                    p.name
                                ));
                                shared.stop.store(true, Ordering::Relaxed);
                            }
                            let mut m = merged.lock().unwrap();
                            m.0.merge(&cx.st);
                            m.1.append(&mut cx.samples);
                            m.2[pi].0.merge(&cx.st);
                            m.2[pi].1 += 1;
                        }
                    })
                    .unwrap(),
            );
        }
        let mon = {
            let (done, stall) = (&done, opts.stall);
            s.spawn(move || {
                let mut last = vec![(0u64, Instant::now()); w];
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    for (i, slot) in slots.iter().take(w).enumerate() {
                        let c = slot.count.load(Ordering::Relaxed);
                        if c != last[i].0 || slot.busy.load(Ordering::SeqCst) == 0 {
                            last[i] = (c, Instant::now());
                        } else if last[i].1.elapsed() > stall {
                            eprintln!("mc: worker {i} made no progress for {stall:?}");
                            unsafe { libc::_exit(97) };
                        }
                    }
                }
            })
        };
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
        let _ = mon.join();
    });
    let (st, mut samples, per) = merged.into_inner().unwrap();
    samples.sort_by_key(|s| s.0);
    samples.truncate(16);
    let failures = shared.failures.into_inner().unwrap();
    let herr = shared.harness_error.into_inner().unwrap();
    let ph: Vec<Value> = phases
        .iter()
        .zip(&per)
        .map(|(p, (s, u))| {
            json!({"phase": p.name, "bound": p.bound, "units": p.n, "units_explored": u,
                   "cases": s.cases, "states": s.states, "transitions": s.transitions})
        })
        .collect();
    let complete = per.iter().zip(&phases).all(|((_, u), p)| *u == p.n);
    json!({
        "cases": st.cases,
        "states": st.states,
        "transitions": st.transitions,
        "traces": st.traces,
        "classes": st.classes.iter().map(|(n, c)| (n.to_string(), json!(c))).collect::<serde_json::Map<_, _>>(),
        "phases": ph,
        "samples": samples.into_iter().map(|s| s.1).collect::<Vec<_>>(),
        "failures": failures,
        "harness_error": herr,
        "timed_out": timed_out.load(Ordering::SeqCst),
        "exhaustive": complete && failures.is_empty(),
        "wall_s": start.elapsed().as_secs_f64(),
    })
}
