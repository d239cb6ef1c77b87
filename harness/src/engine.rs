//! Exhaustive exploration engine: finite spaces cut in chunks, taken in order by worker threads.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

/// A broken property: what the operations were, what the model says and what the code did.
#[derive(Clone, Debug, PartialEq)]
pub struct Bad {
    pub ops: Vec<String>,
    pub want: String,
    pub got: String,
}

pub type R = Result<(), Bad>;

pub fn bad(ops: impl Into<String>, want: impl Into<String>, got: impl Into<String>) -> R {
    Err(Bad { ops: ops.into().lines().map(str::to_string).collect(), want: want.into(), got: got.into() })
}

/// Compares an answer of the real code with the model's.
#[inline]
pub fn same<T: PartialEq + std::fmt::Debug>(got: &T, want: &T, ops: impl FnOnce() -> String) -> R {
    if got == want {
        Ok(())
    } else {
        bad(ops(), format!("{want:?}"), format!("{got:?}"))
    }
}

struct Slot {
    beat: AtomicU64,
    busy: AtomicBool,
    chunk: AtomicUsize,
}

pub struct Acc<'a> {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub inexact: u64,
    outcomes: BTreeSet<u64>,
    samples: Vec<String>,
    want_samples: bool,
    known: BTreeMap<String, u64>,
    run: &'a Run,
    slot: &'a Slot,
    beats: u64,
    tracing: bool,
    label: String,
}

impl Acc<'_> {
    /// One real execution is about to be checked.
    #[inline]
    pub fn at(&mut self, f: impl FnOnce() -> String) {
        self.beats += 1;
        if self.beats & 63 == 0 {
            self.slot.beat.store(self.beats, Relaxed);
        }
        if self.tracing {
            self.label = f();
        }
    }
    /// Work is going on in a sub-process.
    #[allow(dead_code)]
    pub fn alive(&mut self) {
        self.beats += 64;
        self.slot.beat.store(self.beats, Relaxed);
    }
    /// An observed outcome; the number of distinct ones is reported (vacuity indicator).
    #[inline]
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 20_000 {
            let mut h = std::hash::DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_samples && self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    /// The code differs from the property exactly as the finding `key` says: accepted if it is listed.
    pub fn finding(&mut self, key: &str, b: impl FnOnce() -> R) -> R {
        if self.run.listed.contains_key(key) {
            match self.known.get_mut(key) {
                Some(n) => *n += 1,
                None => {
                    self.known.insert(key.to_string(), 1);
                }
            }
            Ok(())
        } else {
            b()
        }
    }
}

struct Section {
    name: String,
    bound: String,
    chunks: usize,
    states: u64,
    transitions: u64,
    traces: u64,
    inexact: u64,
    outcomes: usize,
    wall: f64,
}

struct Found {
    section: String,
    chunk: usize,
    bad: Bad,
    note: String,
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    root: String,
    seed: u64,
    t0: Instant,
    only: Option<(String, usize)>,
    listed: BTreeMap<String, String>,
    sections: Mutex<Vec<Section>>,
    samples: Mutex<Vec<String>>,
    known: Mutex<BTreeMap<String, u64>>,
    found: Mutex<Option<Found>>,
    assumptions: Mutex<Vec<String>>,
    replayed: AtomicBool,
}

thread_local! {
    static PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Runs one call of the real code; a panic becomes its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| format!("panic: {} ({})", p.borrow().0, p.borrow().1)))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
}

fn harness_file(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

impl Run {
    pub fn new(id: &str, thorough: bool, only: Option<(String, usize)>) -> Run {
        install_hook();
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut listed = BTreeMap::new();
        let text = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
        for l in text.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={id} id=")) {
                let (k, t) = r.split_once(' ').unwrap_or((r, ""));
                listed.insert(k.to_string(), t.to_string());
            }
        }
        Run {
            id: id.into(),
            thorough,
            root,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            t0: Instant::now(),
            only,
            listed,
            sections: Mutex::default(),
            samples: Mutex::default(),
            known: Mutex::default(),
            found: Mutex::default(),
            assumptions: Mutex::default(),
            replayed: AtomicBool::new(false),
        }
    }

    /// `quick` or `thorough` value of a bound.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Only one chunk of this section is to be explored again.
    #[allow(dead_code)]
    pub fn replays(&self, section: &str) -> bool {
        self.only.as_ref().is_some_and(|o| o.0 == section)
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// Explores one finite space completely.  `f` explores chunk `k` of `chunks`.
    pub fn section(&self, name: &str, bound: &str, chunks: usize, f: impl Fn(usize, &mut Acc) -> R + Sync) {
        if self.found.lock().unwrap().is_some() {
            return;
        }
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        let t = Instant::now();
        let nthreads = if self.only.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(chunks.max(1)) };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot { beat: AtomicU64::new(0), busy: AtomicBool::new(false), chunk: AtomicUsize::new(0) })
            .collect();
        let fails: Mutex<Vec<(usize, Bad)>> = Mutex::default();
        let mut total = Section {
            name: name.into(),
            bound: bound.into(),
            chunks,
            states: 0,
            transitions: 0,
            traces: 0,
            inexact: 0,
            outcomes: 0,
            wall: 0.0,
        };
        let mut outcomes = BTreeSet::new();
        std::thread::scope(|sc| {
            let workers: Vec<_> = slots
                .iter()
                .map(|slot| {
                    let (next, stop, fails, f) = (&next, &stop, &fails, &f);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut out = Vec::new();
                            loop {
                                if stop.load(SeqCst) {
                                    break;
                                }
                                let k = match &self.only {
                                    Some((_, k)) => {
                                        if next.fetch_add(1, SeqCst) > 0 {
                                            break;
                                        }
                                        self.replayed.store(true, SeqCst);
                                        *k
                                    }
                                    None => next.fetch_add(1, SeqCst),
                                };
                                if k >= chunks {
                                    break;
                                }
                                slot.chunk.store(k, SeqCst);
                                slot.busy.store(true, SeqCst);
                                let (acc, res) = self.chunk(k, chunks, slot, f, false);
                                slot.busy.store(false, SeqCst);
                                out.push((acc.states, acc.transitions, acc.traces, acc.inexact, acc.outcomes, acc.samples, acc.known));
                                if let Err(b) = res {
                                    fails.lock().unwrap().push((k, b));
                                    stop.store(true, SeqCst);
                                }
                            }
                            out
                        })
                        .expect("spawn")
                })
                .collect();
            // watchdog
            let (slots, done, me) = (&slots, &done, self);
            let wd = sc.spawn(move || me.watch(name, slots, done));
            for w in workers {
                for (s, tr, tc, ix, oc, sm, kn) in w.join().expect("worker") {
                    total.states += s;
                    total.transitions += tr;
                    total.traces += tc;
                    total.inexact += ix;
                    outcomes.extend(oc);
                    let mut all = self.samples.lock().unwrap();
                    all.extend(sm.into_iter().map(|x| format!("[{name}] {x}")));
                    let mut known = self.known.lock().unwrap();
                    for (k, n) in kn {
                        *known.entry(k).or_default() += n;
                    }
                }
            }
            done.store(true, SeqCst);
            let _ = wd.join();
        });
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|x| x.0);
        if let Some((k, b)) = fails.into_iter().next() {
            // run the chunk again, alone: the same failure must come back
            let slot = Slot { beat: AtomicU64::new(0), busy: AtomicBool::new(false), chunk: AtomicUsize::new(k) };
            let (_, again) = self.chunk(k, chunks, &slot, &f, true);
            let (bad, note) = match again {
                Err(b2) if b2 == b => (b, "reproduced by running the chunk again".to_string()),
                Err(b2) if b.ops.is_empty() => (b2, "reproduced by running the chunk again".to_string()),
                Err(b2) => (b, format!("second run of the chunk failed differently: {b2:?}")),
                Ok(()) => (b, "a second run of the chunk passed: the answer depends on what was executed before".to_string()),
            };
            *self.found.lock().unwrap() = Some(Found { section: name.into(), chunk: k, bad, note });
        }
        total.outcomes = outcomes.len();
        total.wall = t.elapsed().as_secs_f64();
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "{:7.2}s {} {}: states {} transitions {} traces {} inexact {} outcomes {}",
                total.wall, self.id, name, total.states, total.transitions, total.traces, total.inexact, total.outcomes
            );
        }
        self.sections.lock().unwrap().push(total);
    }

    fn chunk<'a>(
        &'a self,
        k: usize,
        chunks: usize,
        slot: &'a Slot,
        f: &(impl Fn(usize, &mut Acc) -> R + Sync),
        tracing: bool,
    ) -> (Acc<'a>, R) {
        let mut acc = Acc {
            states: 0,
            transitions: 0,
            traces: 0,
            inexact: 0,
            outcomes: BTreeSet::new(),
            samples: Vec::new(),
            want_samples: k == 0 || k == chunks / 2,
            known: BTreeMap::new(),
            run: self,
            slot,
            beats: 0,
            tracing,
            label: String::new(),
        };
        let res = match catch_unwind(AssertUnwindSafe(|| f(k, &mut acc))) {
            Ok(r) => r,
            Err(_) => {
                let (msg, loc) = PANIC.with(|p| p.borrow().clone());
                if harness_file(&loc) && !msg.starts_with("library ") {
                    eprintln!("HARNESS ERROR in {} chunk {k}: {msg} at {loc}", self.id);
                    std::process::exit(2);
                }
                Err(Bad {
                    ops: if tracing { vec![acc.label.clone()] } else { vec![] },
                    want: "an answer".into(),
                    got: format!("panic: {msg} ({loc})"),
                })
            }
        };
        (acc, res)
    }

    fn watch(&self, name: &str, slots: &[Slot], done: &AtomicBool) {
        let mut last: Vec<(u64, usize, Instant)> = slots.iter().map(|_| (0, usize::MAX, Instant::now())).collect();
        let limit = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(120u64);
        while !done.load(SeqCst) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (s, l) in slots.iter().zip(&mut last) {
                let now = (s.beat.load(Relaxed), s.chunk.load(SeqCst));
                if !s.busy.load(SeqCst) || now != (l.0, l.1) {
                    *l = (now.0, now.1, Instant::now());
                } else if l.2.elapsed().as_secs() > limit {
                    self.abort(name, now.1, &format!("no answer within {limit} s"));
                }
            }
            if let Ok(t) = std::fs::read_to_string("/proc/self/statm") {
                let pages: u64 = t.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                if pages * 4096 > 12 << 30 {
                    let k = slots.iter().filter(|s| s.busy.load(SeqCst)).map(|s| s.chunk.load(SeqCst)).min().unwrap_or(0);
                    self.abort(name, k, "memory grew beyond 12 GB");
                }
            }
        }
    }

    fn abort(&self, section: &str, chunk: usize, why: &str) -> ! {
        *self.found.lock().unwrap() = Some(Found {
            section: section.into(),
            chunk,
            bad: Bad { ops: vec![], want: "an answer".into(), got: why.into() },
            note: "stopped by the watchdog; replay the chunk".into(),
        });
        let rc = self.report();
        std::process::exit(rc);
    }

    /// Writes evidence and replay files, prints the verdict, returns the exit code.
    pub fn finish(self) -> i32 {
        self.report()
    }

    fn report(&self) -> i32 {
        if self.only.is_some() && !self.replayed.load(SeqCst) && self.found.lock().unwrap().is_none() {
            eprintln!("replay: no such section");
            return 2;
        }
        let found = self.found.lock().unwrap();
        let known = self.known.lock().unwrap();
        let sections = self.sections.lock().unwrap();
        for (k, n) in known.iter() {
            println!("KNOWN-FINDING: property={} id={k} {} [{n} cases in this run]", self.id, self.listed[k]);
        }
        if self.only.is_none() {
            self.evidence(&sections, &known, found.is_some());
        }
        let sum = |f: fn(&Section) -> u64| sections.iter().map(f).sum::<u64>();
        println!(
            "{} {}: {} states, {} transitions, {} executions compared, {:.1} s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            sum(|s| s.states),
            sum(|s| s.transitions),
            sum(|s| s.traces),
            self.t0.elapsed().as_secs_f64()
        );
        let Some(v) = found.as_ref() else { return 0 };
        let dir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", self.id, v.section, v.chunk);
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"section\": {},\n \"chunk\": {},\n \"tier\": {},\n \"operations\": [{}],\n \"expected\": {},\n \"observed\": {},\n \"note\": {},\n \"replay\": {}\n}}\n",
            js(&self.id),
            js(&v.section),
            v.chunk,
            js(if self.thorough { "thorough" } else { "quick" }),
            v.bad.ops.iter().map(|o| js(o)).collect::<Vec<_>>().join(", "),
            js(&v.bad.want),
            js(&v.bad.got),
            js(&v.note),
            js(&format!("bash check.sh {} {} --replay {path}", self.id, if self.thorough { "thorough" } else { "quick" }))
        );
        if self.only.is_none() {
            let _ = std::fs::write(&path, j);
        }
        for o in &v.bad.ops {
            println!("  op: {o}");
        }
        println!("  expected: {}", v.bad.want);
        println!("  observed: {}", v.bad.got);
        println!("  ({}, section {} chunk {})", v.note, v.section, v.chunk);
        println!("VIOLATION property={} replay={path}", self.id);
        1
    }

    fn evidence(&self, sections: &[Section], known: &BTreeMap<String, u64>, violated: bool) {
        let sum = |f: fn(&Section) -> u64| sections.iter().map(f).sum::<u64>();
        let secs: Vec<String> = sections
            .iter()
            .map(|s| {
                format!(
                    "   {{\"name\": {}, \"bound\": {}, \"chunks\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"left_to_floats\": {}, \"distinct_outcomes\": {}, \"wall_s\": {:.3}}}",
                    js(&s.name), js(&s.bound), s.chunks, s.states, s.transitions, s.traces, s.inexact, s.outcomes, s.wall
                )
            })
            .collect();
        let samples = self.samples.lock().unwrap();
        let mut picked: Vec<String> = Vec::new();
        for s in sections {
            let tag = format!("[{}]", s.name);
            picked.extend(samples.iter().filter(|x| x.starts_with(&tag)).take(3).map(|x| js(x)));
        }
        let asm = self.assumptions.lock().unwrap();
        let e = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"known_finding_cases\": {},\n  \"sections\": [\n{}\n  ],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(&self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            sum(|s| s.states),
            sum(|s| s.transitions),
            sum(|s| s.traces),
            !violated,
            known.values().sum::<u64>(),
            secs.join(",\n"),
            picked.join(", "),
            asm.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
            self.t0.elapsed().as_secs_f64(),
            i32::from(violated)
        );
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.id), e) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
