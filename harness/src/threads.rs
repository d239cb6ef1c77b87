//! C25: questions asked by several threads at once.
//!
//! This module works in the binary whose code (harness and library alike) is compiled with `-Zsanitizer=thread` and
//! linked with `rt/sched.c`: every memory access of a controlled thread is seen by that scheduler, which also
//! decides which thread runs next.
use crate::bonds::Terms;
use crate::civil::{num, show, from_num};
use crate::curve::kind;
use crate::dates::mk;
use crate::engine::{bad, Run};
use crate::history::{ans, around, child, curve, decimal, family, flag, hash, ie, ql, spawn_as, terms, Bits, A, FAMILIES};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, hermite::Hermite, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use std::ffi::c_void;
use std::io::{BufRead as _, Write as _};
use std::sync::atomic::{AtomicU64, Ordering::{Acquire, Relaxed, Release}};
use std::sync::Mutex;

const MAXP: usize = 1 << 15;
#[repr(C)]
#[derive(Clone, Copy)]
struct Point {
    cur: u8,
    enabled: u8,
    chosen: u8,
    pad: u8,
}
#[repr(C)]
struct Out {
    np: u32,
    overflow: u32,
    deadlock: u32,
    diverged: u32,
    accesses: u32,
    p: [Point; MAXP],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Entry {
    g: u64,
    rw: u64,
}
extern "C" {
    fn mc_threads(n: i32);
    fn mc_set(g: *const u64, n: u32);
    fn mc_clear();
    fn mc_run(first: i32, n: i32, f: extern "C" fn(*mut c_void), args: *const *mut c_void, script: *const u8, len: u32, out: *mut Out, mode: u32);
    fn mc_own(i: i32, lo: usize, n: usize);
    fn mc_touched(i: i32) -> u64;
    fn mc_place(g: u64) -> i32;
    fn mc_lost(i: i32) -> i32;
    fn mc_count(i: i32) -> u32;
    fn mc_log(i: i32, e: *mut Entry, cap: u32) -> u32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}
const LOG: u32 = 1;
const TOUCH: u32 = 2;
const SET: u32 = 4;
const ALL: u32 = 8;

type Ask = Box<dyn Fn(usize) -> A>;
type Thread<'a> = Box<dyn FnMut() + 'a>;

extern "C" fn job(p: *mut c_void) {
    // SAFETY: `p` points to a boxed closure that outlives the run
    unsafe { (*p.cast::<Thread>())() }
}
/// Runs one closure on each controlled thread from `first` on, under the given choices.
fn together(first: usize, jobs: &mut [Thread], script: &[u8], out: *mut Out, mode: u32) {
    let args: Vec<*mut c_void> = jobs.iter_mut().map(|j| std::ptr::from_mut(j).cast()).collect();
    // SAFETY: the arguments live until mc_run returns, which waits for all threads
    unsafe { mc_run(first as i32, args.len() as i32, job, args.as_ptr(), script.as_ptr(), script.len() as u32, out, mode) }
}
fn log(i: usize) -> Vec<Entry> {
    // SAFETY: the buffer has the stated capacity, and mc_log tells how much of it is written
    let mut v: Vec<Entry> = unsafe {
        let mut v = Vec::with_capacity(mc_count(i as i32) as usize);
        let n = mc_log(i as i32, v.as_mut_ptr(), v.capacity() as u32);
        v.set_len(n as usize);
        v
    };
    v.sort_unstable_by_key(|e| e.g);
    v
}
/// Memory that two logs share and at least one writes.
fn conflicts(a: &[Entry], b: &[Entry]) -> Vec<u64> {
    let (mut i, mut j, mut v) = (0, 0, Vec::new());
    while i < a.len() && j < b.len() {
        match a[i].g.cmp(&b[j].g) {
            std::cmp::Ordering::Less => i += 1,
            std::cmp::Ordering::Greater => j += 1,
            std::cmp::Ordering::Equal => {
                if (a[i].rw | b[j].rw) & 2 != 0 {
                    v.push(a[i].g);
                }
                i += 1;
                j += 1;
            }
        }
    }
    v
}
fn shared<T>() -> *mut T {
    // SAFETY: a fresh anonymous mapping, zeroed
    unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0).cast() }
}

// ---------------------------------------------------------------------------------------------- the worlds
/// Objects and the questions that can be put to them; a question put to a newly made world is the oracle.
pub struct World {
    pub name: String,
    pub names: Vec<String>,
    make: Box<dyn Fn() -> Ask>,
}

fn interp<V: Bits, I: Interpolator<Value = V> + 'static>(name: &str, n: usize) -> World {
    let q: Vec<(V, V)> = (0..n).map(decimal).map(|p| (V::from_f64(p.0).unwrap(), V::from_f64(p.1).unwrap())).collect();
    let xs: Vec<V> = q.iter().map(|p| p.0).collect();
    World {
        name: format!("one {name}<{}> through {n} points", V::NAME),
        names: (0..4 * n).map(|i| format!("value at {:?}", around(&xs, i))).collect(),
        make: Box::new(move || {
            let (o, xs) = (I::default().try_fit(&q).ok().expect("library refuses a fit"), xs.clone());
            Box::new(move |i| ans(|| ie(o.try_value(around(&xs, i)))))
        }),
    }
}
fn hermite<V: Bits>(n: usize) -> World {
    let q: Vec<(V, V, V)> = (0..n).map(|i| (decimal(i), decimal(i + 1))).map(|(p, s)| (V::from_f64(p.0).unwrap(), V::from_f64(p.1).unwrap(), V::from_f64(s.1).unwrap())).collect();
    let xs: Vec<V> = q.iter().map(|p| p.0).collect();
    World {
        name: format!("one Hermite<{}> through {n} points", V::NAME),
        names: (0..4 * n).map(|i| format!("value at {:?}", around(&xs, i))).collect(),
        make: Box::new(move || {
            let (o, xs) = (Hermite::try_new(&q).ok().expect("library refuses a fit"), xs.clone());
            Box::new(move |i| ans(|| ie(o.try_value(around(&xs, i)))))
        }),
    }
}
fn yields<V: Bits, D: DayCount + 'static, I: Interpolator<Value = V> + 'static>(name: &str, n: usize) -> World {
    let s = num((2024, 1, 31));
    let day = |i: usize| s + 97 * i as i64 + [0, 3, 1, 11][i % 4];
    let q: Vec<(i64, i64)> = (0..4 * n)
        .map(|i| match i % 4 {
            0 => (s, day(i / 4)),
            1 => (day(i / 4), day(i / 4) + 1),
            2 => (day(i / 4) - i64::from(i > 3), day(i / 4)),
            _ => (day(i / 4), day((i / 4 + 1).min(n - 1))),
        })
        .collect();
    let mats: Vec<Date> = (0..n).map(|i| mk(day(i))).collect();
    let ys: Vec<V> = (0..n).map(|i| V::from_f64(decimal(i).1 / 10.0).unwrap()).collect();
    World {
        name: format!("one {name}<{}> curve with {n} quotes", V::NAME),
        names: q.iter().map(|q| format!("discount factor from {} to {}", show(from_num(q.0)), show(from_num(q.1)))).collect(),
        make: Box::new(move || {
            let (o, q) = (YieldCurve::<D, I>::new(mk(s), &mats, &ys).ok().expect("library refuses a curve"), q.clone());
            Box::new(move |i| ans(|| ql(kind(o.discount_factor(mk(q[i].0), mk(q[i].1))))))
        }),
    }
}
fn portfolio<V: Bits>() -> World {
    let s = num((2024, 1, 31));
    let mut q: Vec<(usize, usize, i64)> = Vec::new();
    for b in 0..3 {
        for c in 0..2 {
            q.extend([0, 1, 182, 200, 366, 700, -10].map(|d| (b, c, d)));
        }
    }
    let names = q.iter().map(|q| format!("value of bond {} on curve {} at {}", q.0, q.1, show(from_num(s + q.2)))).collect();
    World {
        name: format!("three bonds and two curves, {}", V::NAME),
        names,
        make: Box::new(move || {
            let bonds: Vec<Bond<V>> = (0..3).map(|i| -> Terms { terms(i) }).map(|t| t.real::<V>().expect("library refuses a bond")).collect();
            let curves: Vec<YieldCurve<Act365, Linear<V>>> = (0..2).map(|i| curve::<V, Act365, Linear<V>>(s, i).ok().expect("library refuses a curve")).collect();
            let q = q.clone();
            Box::new(move |i| ans(|| ql(kind(bonds[q[i].0].discounted_value(mk(s + q[i].2), &curves[q[i].1])))))
        }),
    }
}
fn markets() -> World {
    let all = crate::cals::all();
    let days = [(2024, 1, 1), (2024, 3, 29), (2024, 4, 1), (2024, 5, 6), (2024, 7, 4), (2023, 4, 7), (2023, 7, 4), (2024, 6, 28)];
    let mut names = Vec::new();
    let mut q = Vec::new();
    for e in all {
        for d in days {
            names.push(format!("is {}-{:02}-{:02} a business day on {}", d.0, d.1, d.2, e.name));
            q.push((e.cal, crate::markets::nd(num(d))));
        }
    }
    let q: &'static Vec<_> = Box::leak(Box::new(q));
    World { name: "all markets".into(), names, make: Box::new(move || Box::new(move |i| ans(|| flag(q[i].0.is_business_day(q[i].1))))) }
}

const OBJECTS: usize = 35;
/// The first worlds are the nine families of single questions, each on objects of its own; the others share objects.
const WORLDS: usize = FAMILIES.len() + OBJECTS;
const TOYS: usize = 1000;

fn world(k: usize) -> World {
    if k >= TOYS {
        return toy(k - TOYS);
    }
    if k < FAMILIES.len() {
        let v: &'static Vec<_> = Box::leak(Box::new(family(k)));
        return World { name: FAMILIES[k].into(), names: v.iter().map(|a| a.name.clone()).collect(), make: Box::new(move || Box::new(move |i| (v[i].f)())) };
    }
    let (k, n) = ((k - FAMILIES.len()) / 2, [4, 24][(k - FAMILIES.len()) % 2]);
    match k {
        0 => interp::<f64, Linear<f64>>("Linear", n),
        1 => interp::<f32, Linear<f32>>("Linear", n),
        2 => interp::<f64, NaturalCubic<f64>>("NaturalCubic", n),
        3 => interp::<f32, NaturalCubic<f32>>("NaturalCubic", n),
        4 => interp::<f64, CatmullRom<f64>>("CatmullRom", n),
        5 => interp::<f32, CatmullRom<f32>>("CatmullRom", n),
        6 => hermite::<f64>(n),
        7 => hermite::<f32>(n),
        8 => yields::<f64, Act365, Linear<f64>>("actual/365 linear", n),
        9 => yields::<f64, Act360, NaturalCubic<f64>>("actual/360 natural cubic", n),
        10 => yields::<f64, Thirty360, CatmullRom<f64>>("30/360 Catmull-Rom", n),
        11 => yields::<f32, Thirty360, Linear<f32>>("30/360 linear", n),
        12 => yields::<f32, Act365, NaturalCubic<f32>>("actual/365 natural cubic", n),
        13 => yields::<f64, Thirty360, Linear<f64>>("30/360 linear", n),
        14 => yields::<f64, Act360, Linear<f64>>("actual/360 linear", n),
        15 => yields::<f32, Act360, CatmullRom<f32>>("actual/360 Catmull-Rom", n),
        16 if n == 4 => portfolio::<f64>(),
        16 => portfolio::<f32>(),
        _ => markets(),
    }
}

// --------------------------------------------------------------- the explorer tried on code known to be racy
/// Toy 0: remembered key and value in two words, torn by one preemption.  1: the same in plain memory.
/// 2: a counter incremented by load and store that must not repeat.  3: two locks taken in opposite orders.
/// 4: a correct memo behind a lock.  5: a correct value initialised once.  6, 7: a correct memo behind a spinning lock,
/// 7 giving way while it waits.
fn toy(k: usize) -> World {
    static KEY: AtomicU64 = AtomicU64::new(u64::MAX);
    static VALUE: AtomicU64 = AtomicU64::new(0);
    struct Plain(std::cell::UnsafeCell<(u64, u64)>);
    // SAFETY: it is not; that is the point of the toy
    unsafe impl Sync for Plain {}
    static PLAIN: Plain = Plain(std::cell::UnsafeCell::new((u64::MAX, 0)));
    static HALF: AtomicU64 = AtomicU64::new(0);
    static LOCKS: [Mutex<u64>; 2] = [Mutex::new(0), Mutex::new(0)];
    static MEMO: Mutex<(u64, u64)> = Mutex::new((u64::MAX, 0));
    static SPIN: AtomicU64 = AtomicU64::new(0);
    static ONCE: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    fn f(i: u64) -> u64 {
        std::hint::black_box(i * i + 3)
    }
    let ask: fn(usize, u64) -> u64 = |k, i| match k {
        0 => {
            if KEY.load(Relaxed) == i {
                return VALUE.load(Relaxed);
            }
            KEY.store(i, Relaxed);
            VALUE.store(f(i), Relaxed);
            f(i)
        }
        1 => {
            let p = PLAIN.0.get();
            // SAFETY: unsound on purpose
            unsafe {
                if std::ptr::read_volatile(&raw const (*p).0) == i {
                    return std::ptr::read_volatile(&raw const (*p).1);
                }
                std::ptr::write_volatile(&raw mut (*p).0, i);
                std::ptr::write_volatile(&raw mut (*p).1, f(i));
            }
            f(i)
        }
        2 => {
            // busy while odd: the other thread's work in progress is taken for its own
            let t = HALF.load(Relaxed);
            HALF.store(t + 1, Relaxed);
            let u = HALF.load(Relaxed);
            HALF.store(t, Relaxed);
            f(i) + u - t - 1
        }
        3 => {
            let a = LOCKS[i as usize % 2].lock().unwrap();
            let b = LOCKS[(i as usize + 1) % 2].lock().unwrap();
            f(i) + *a + *b
        }
        4 => {
            let mut m = MEMO.lock().unwrap();
            if m.0 != i {
                *m = (i, f(i));
            }
            m.1
        }
        6 | 7 => {
            while SPIN.compare_exchange_weak(0, 1, Acquire, Relaxed).is_err() {
                if k == 7 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
            let p = PLAIN.0.get();
            // SAFETY: under the lock
            let v = unsafe {
                if std::ptr::read_volatile(&raw const (*p).0) != i {
                    std::ptr::write_volatile(&raw mut (*p).0, i);
                    std::ptr::write_volatile(&raw mut (*p).1, f(i));
                }
                std::ptr::read_volatile(&raw const (*p).1)
            };
            SPIN.store(0, Release);
            v
        }
        _ => *ONCE.get_or_init(|| f(7)) + i,
    };
    World { name: format!("toy {k}"), names: (0..4).map(|i| format!("toy question {i}")).collect(), make: Box::new(move || Box::new(move |i| A::Num(ask(k, i as u64)))) }
}

// ------------------------------------------------------------------------------------------- one schedule
#[repr(C)]
struct Report {
    out: Out,
    done: u32,
    bad: u32,
    who: u32,
    got: [u8; 120],
    lost: u32,
    nconf: u32,
    conf: [u64; 4096],
}

struct Scenario<'a> {
    warm: &'a [usize],
    threads: &'a [usize],
}

/// One execution in a process that has asked nothing before; None: the process died.
fn execute(w: &World, alone: &[u64], s: &Scenario, script: &[u8], set: &[u64], mode: u32, rep: *mut Report) -> i32 {
    // SAFETY: `rep` is a shared mapping that only the child writes until it has ended
    unsafe {
        (*rep).done = 0;
        (*rep).bad = 0;
        (*rep).nconf = 0;
        (*rep).lost = 0;
        (*rep).out.np = 0;
    }
    child(|| unsafe {
        alarm(30);
        let ask = (w.make)();
        let wrong = |rep: *mut Report, who: usize, got: A| {
            (*rep).bad = 1;
            (*rep).who = who as u32;
            let t = format!("{got:?}");
            (&mut (*rep).got).fill(0);
            (&mut (*rep).got)[..t.len().min(120)].copy_from_slice(&t.as_bytes()[..t.len().min(120)]);
        };
        for &q in s.warm {
            std::hint::black_box(ask(q));
        }
        let n = s.threads.len();
        mc_threads(n as i32);
        mc_set(set.as_ptr(), set.len() as u32);
        let mut got = vec![A::Absent; n];
        {
            let base = got.as_mut_ptr() as usize;
            let ask = &ask;
            let mut jobs: Vec<Thread> = s.threads.iter().enumerate().map(|(i, &q)| -> Thread { Box::new(move || { let a = ask(q); std::ptr::write((base as *mut A).add(i), a) }) }).collect();
            together(0, &mut jobs, script, &raw mut (*rep).out, mode | LOG);
        }
        if (*rep).out.deadlock != 0 {
            _exit(0);
        }
        for i in 0..n {
            if (*rep).bad == 0 && hash(&[got[i]]) != alone[s.threads[i]] {
                wrong(rep, i, got[i]);
            }
        }
        for (i, &q) in s.threads.iter().chain(s.warm).enumerate() {
            let a = ask(q);
            if (*rep).bad == 0 && hash(&[a]) != alone[q] {
                wrong(rep, n + i, a);
            }
        }
        let logs: Vec<Vec<Entry>> = (0..n).map(log).collect();
        let mut c: Vec<u64> = Vec::new();
        for i in 0..n {
            (*rep).lost |= mc_lost(i as i32) as u32;
            for j in 0..i {
                c.extend(conflicts(&logs[j], &logs[i]));
            }
        }
        c.sort_unstable();
        c.dedup();
        (*rep).nconf = c.len().min(4096) as u32;
        (&mut (*rep).conf)[..c.len().min(4096)].copy_from_slice(&c[..c.len().min(4096)]);
        (*rep).done = 1;
        _exit(0)
    })
}

#[derive(Default)]
struct Stats {
    schedules: u64,
    accesses: u64,
    points: u64,
    truncated: u64,
}

/// The next choices of a depth-first search over schedules with at most `bound` preemptions.
fn next(p: &[Point], bound: usize) -> Option<Vec<u8>> {
    let mut before = vec![0usize; p.len() + 1];
    for (i, x) in p.iter().enumerate() {
        before[i + 1] = before[i] + usize::from(x.cur != 0xff && x.chosen != x.cur);
    }
    for k in (0..p.len()).rev() {
        let x = p[k];
        let order: Vec<u8> = (x.cur != 0xff).then_some(x.cur).into_iter().chain((0..8).filter(|&c| x.enabled >> c & 1 == 1 && c != x.cur)).collect();
        let at = order.iter().position(|&c| c == x.chosen).unwrap_or(order.len());
        for &c in order.iter().skip(at + 1) {
            if before[k] + usize::from(x.cur != 0xff && c != x.cur) <= bound {
                let mut s: Vec<u8> = p[..k].iter().map(|x| x.chosen).collect();
                s.push(c);
                return Some(s);
            }
        }
    }
    None
}

/// All schedules of a scenario that differ in the order of conflicting accesses, up to the preemption bound.
fn explore(w: &World, alone: &[u64], s: &Scenario, bound: usize, cap: u64, rep: *mut Report, st: &mut Stats) -> Result<bool, String> {
    let mut set: Vec<u64> = Vec::new();
    let mut script: Vec<u8> = Vec::new();
    let start = st.schedules;
    loop {
        let rc = execute(w, alone, s, &script, &set, if set.is_empty() { 0 } else { SET }, rep);
        st.schedules += 1;
        // SAFETY: the child has ended
        let r = unsafe { &*rep };
        st.accesses += u64::from(r.out.accesses);
        st.points += u64::from(r.out.np);
        let tell = |want: &str, got: &str| {
            let mut t = String::new();
            for &q in s.warm {
                t += &format!("asked first: {}\x1f", w.names[q]);
            }
            for (i, &q) in s.threads.iter().enumerate() {
                t += &format!("thread {i}: {}\x1f", w.names[q]);
            }
            let text: Vec<String> = r.out.p[..(r.out.np as usize).min(MAXP)].iter().filter(|p| p.cur != p.chosen).map(|p| p.chosen.to_string()).collect();
            t += &format!("schedule: turns taken by threads {} ({} choices, {} places in conflict)", text.join(", "), r.out.np, set.len());
            Err(format!("{t}\t{want}\t{got}"))
        };
        if r.out.deadlock != 0 {
            return tell("an answer to every thread", "all threads wait for each other");
        }
        if rc != 0 || r.done == 0 {
            return tell("an answer to every thread", &if rc == 128 + 14 { "no answer within 30 s".to_string() } else { format!("the process died with {rc}") });
        }
        if r.bad != 0 {
            let (i, n) = (r.who as usize, s.threads.len());
            let who = if i < n { format!("the answer of thread {i}") } else { format!("the answer to \"{}\" asked afterwards", w.names[if i < 2 * n { s.threads[i - n] } else { s.warm[i - 2 * n] }]) };
            return tell(&format!("{who}: as when asked alone"), String::from_utf8_lossy(&r.got).trim_end_matches('\0'));
        }
        if r.lost != 0 || r.out.overflow != 0 {
            st.truncated += 1;
        }
        let new: Vec<u64> = r.conf[..r.nconf as usize].iter().copied().filter(|g| !set.contains(g)).collect();
        if !new.is_empty() && set.len() < 4096 {
            set.extend(new);
            set.truncate(4096);
            script.clear();
            continue;
        }
        if set.is_empty() {
            return Ok(false);
        }
        match next(&r.out.p[..(r.out.np as usize).min(MAXP)], bound) {
            Some(n) if st.schedules - start < cap => script = n,
            Some(_) => {
                st.truncated += 1;
                return Ok(true);
            }
            None => return Ok(true),
        }
    }
}

// ---------------------------------------------------------------------------------------- the sub-processes
const BATCH: usize = 32;

fn answers() -> Vec<u64> {
    std::env::var("MC_ANSWERS").unwrap().split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect()
}

/// `mc --threads answers WORLD`, `... footprints WORLD BATCH`, `... cold WORLD BATCH`,
/// `... dfs WORLD BOUND CAP THREADS FIRST Q...`, `... full WORLD FIRST`: from a process that has asked nothing and
/// has one thread.
pub fn sub(args: &[String]) -> i32 {
    crate::engine::install_hook();
    let arg = |i: usize| -> usize { args[i].parse().unwrap() };
    let w = world(arg(1));
    let n = w.names.len();
    if args[0] == "answers" {
        for i in 0..n {
            let rc = child(|| {
                // SAFETY: ends this child when the question is never answered
                unsafe { alarm(30) };
                println!("{:016x}", hash(&[(w.make)()(i)]));
                0
            });
            if rc != 0 {
                println!("died {rc}");
            }
        }
        return 0;
    }
    let alone = answers();
    let rep: *mut Report = shared();
    let mut st = Stats::default();
    let mut touching: Vec<(usize, u64)> = Vec::new();
    let mut failed = None;
    match args[0].as_str() {
        "cold" => {
            for q in (arg(2) * BATCH..n).take(BATCH) {
                let rc = execute(&w, &alone, &Scenario { warm: &[], threads: &[q, q] }, &[], &[], 0, rep);
                // SAFETY: the child has ended
                let r = unsafe { &*rep };
                st.schedules += 1;
                st.accesses += u64::from(r.out.accesses);
                if rc != 0 || r.done == 0 || r.bad != 0 {
                    failed = Some(format!("thread 0: {}\x1fthread 1, after it: the same\tthe answer given alone\t{}", w.names[q], if rc != 0 || r.done == 0 { format!("ended with {rc}, deadlock {}", r.out.deadlock) } else { String::from_utf8_lossy(&r.got).trim_end_matches('\0').to_string() }));
                    break;
                }
                if r.nconf > 0 || r.lost != 0 {
                    touching.push((q, r.conf[..r.nconf as usize].iter().fold(0, |m, &g| m | 1 << unsafe { mc_place(g) })));
                }
            }
        }
        "footprints" => footprints(&w, &alone, arg(2), &mut st, &mut touching, &mut failed),
        "dfs" => {
            let (bound, cap, threads, first) = (arg(2), arg(3) as u64, arg(4), arg(5));
            let qs: Vec<usize> = args[6..].iter().map(|a| a.parse().unwrap()).collect();
            'all: for warm in std::iter::once(None).chain(qs.iter().copied().map(Some)) {
                for (j, &b) in qs.iter().enumerate() {
                    if j < first {
                        continue;
                    }
                    let sets: Vec<Vec<usize>> = if threads == 2 { vec![vec![qs[first], b]] } else { qs[j..].iter().map(|&c| vec![qs[first], b, c]).collect() };
                    for t in sets {
                        println!("alive");
                        let _ = std::io::stdout().flush();
                        if let Err(e) = explore(&w, &alone, &Scenario { warm: warm.as_slice(), threads: &t }, bound, cap, rep, &mut st) {
                            failed = Some(e);
                            break 'all;
                        }
                    }
                }
            }
        }
        _ => failed = full(&w, &alone, arg(2), args[3..].iter().map(|a| a.parse().unwrap()).collect(), &mut st),
    }
    println!("stats {} {} {} {}", st.schedules, st.accesses, st.points, st.truncated);
    println!("touch {}", touching.iter().map(|(q, m)| format!("{q}:{m:x}")).collect::<Vec<_>>().join(" "));
    if let Some(f) = &failed {
        println!("bad {f}");
    }
    let _ = std::io::stdout().flush();
    // the controlled threads never end
    unsafe { _exit(i32::from(failed.is_some())) }
}

/// What memory the questions touch when asked one after the other in every order of two: all of them by one thread,
/// then by another, on the same objects.
fn footprints(w: &World, alone: &[u64], batch: usize, st: &mut Stats, touching: &mut Vec<(usize, u64)>, failed: &mut Option<String>) {
    let n = w.names.len();
    let ask = (w.make)();
    let out: *mut Out = shared();
    let mut memo: std::collections::HashMap<A, u64> = std::collections::HashMap::new();
    let firsts: Vec<usize> = (batch * BATCH..n).take(BATCH).collect();
    unsafe { mc_threads(2) };
    let mut logs = Vec::new();
    let mut lost = false;
    for t in 0..2 {
        let mut got: Vec<A> = Vec::with_capacity(2 * n * firsts.len());
        unsafe {
            mc_clear();
            mc_own(t as i32, got.as_ptr() as usize, got.capacity() * std::mem::size_of::<A>());
        }
        {
            let (ask, got, firsts) = (&ask, &mut got, &firsts);
            let mut jobs: Vec<Thread> = vec![Box::new(move || {
                if t == 0 || n <= 400 {
                    for &a in firsts {
                        for b in 0..n {
                            got.push(ask(a));
                            got.push(ask(b));
                        }
                    }
                } else {
                    for b in 0..n {
                        got.push(ask(b));
                    }
                }
            })];
            unsafe { alarm(120) };
            together(t, &mut jobs, &[], out, LOG);
            unsafe { alarm(0) };
        }
        if unsafe { (*out).deadlock } != 0 {
            *failed = Some(format!("{}: questions one after the other\tan answer\ta thread waits for ever", w.name));
            return;
        }
        st.schedules += got.len() as u64;
        st.accesses += u64::from(unsafe { (*out).accesses });
        lost |= unsafe { mc_lost(t as i32) } != 0;
        for (i, a) in got.iter().enumerate() {
            let q = if got.len() == n { i } else if i % 2 == 0 { firsts[i / 2 / n] } else { i / 2 % n };
            if *memo.entry(*a).or_insert_with(|| hash(&[*a])) != alone[q] {
                *failed = Some(format!("{}\x1fthread {t}, after other questions{}: {}\tthe answer given alone\t{a:?}", w.name, if t == 0 { "" } else { " of thread 0" }, w.names[q]));
                return;
            }
        }
        logs.push(log(t));
    }
    let set = conflicts(&logs[0], &logs[1]);
    if set.is_empty() && !lost {
        return;
    }
    // which questions touch the shared places
    unsafe { mc_set(set.as_ptr(), set.len().min(4000) as u32) };
    for q in 0..n {
        let ask = &ask;
        let mut jobs: Vec<Thread> = vec![Box::new(move || {
            std::hint::black_box(ask(q));
        })];
        together(0, &mut jobs, &[], out, TOUCH);
        let mask = unsafe { mc_touched(0) };
        if lost || mask != 0 {
            touching.push((q, mask));
        }
    }
}

/// Every schedule of two questions with one preemption, at any memory access whatever.
fn full(w: &World, alone: &[u64], first: usize, qs: Vec<usize>, st: &mut Stats) -> Option<String> {
    let out: *mut Out = shared();
    unsafe { mc_threads(2) };
    for &b in &qs {
        let ask = (w.make)();
        let pair = [first, b];
        let mut script: Vec<u8> = Vec::new();
        loop {
            let mut got = [A::Absent; 2];
            {
                let base = got.as_mut_ptr() as usize;
                let ask = &ask;
                let mut jobs: Vec<Thread> = pair.iter().enumerate().map(|(i, &q)| -> Thread { Box::new(move || { let a = ask(q); unsafe { std::ptr::write((base as *mut A).add(i), a) } }) }).collect();
                unsafe { alarm(60) };
                together(0, &mut jobs, &script, out, ALL);
            }
            let o = unsafe { &*out };
            st.schedules += 1;
            st.accesses += u64::from(o.accesses);
            st.points += u64::from(o.np);
            if o.overflow != 0 {
                st.truncated += 1;
            }
            let text = |want: &str, got: &str| Some(format!("thread 0: {}\x1fthread 1: {}\x1fschedule: thread 1 runs after {} accesses of thread 0 or the other way round\t{want}\t{got}", w.names[first], w.names[b], script.len()));
            if o.deadlock != 0 {
                return text("an answer to every thread", "all threads wait for each other");
            }
            for i in 0..2 {
                if hash(&[got[i]]) != alone[pair[i]] {
                    return text(&format!("the answer of thread {i}: as when asked alone"), &format!("{:?}", got[i]));
                }
            }
            match next(&o.p[..(o.np as usize).min(MAXP)], 1) {
                Some(s) => script = s,
                None => break,
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------ the check
struct Part {
    stats: [u64; 4],
    touch: Vec<(usize, u64)>,
    failed: Option<(Vec<String>, String, String)>,
}
fn part(args: &[String], alone: &str, mut alive: impl FnMut()) -> Part {
    let exe = std::env::current_exe().expect("own path");
    let mut sub = std::process::Command::new(exe).arg("--threads").args(args).env("MC_ANSWERS", alone).stdout(std::process::Stdio::piped()).spawn().expect("subprocess");
    let mut p = Part { stats: [0; 4], touch: Vec::new(), failed: None };
    let mut told = false;
    for l in std::io::BufReader::new(sub.stdout.take().expect("pipe")).lines().map_while(Result::ok) {
        alive();
        if let Some(t) = l.strip_prefix("stats ") {
            told = true;
            for (i, x) in t.split(' ').enumerate().take(4) {
                p.stats[i] = x.parse().unwrap_or(0);
            }
        } else if let Some(t) = l.strip_prefix("touch ") {
            p.touch = t.split_whitespace().filter_map(|x| x.split_once(':')).filter_map(|(q, m)| Some((q.parse().ok()?, u64::from_str_radix(m, 16).ok()?))).collect();
        } else if let Some(t) = l.strip_prefix("bad ") {
            let f: Vec<&str> = t.split('\t').collect();
            p.failed = Some((f[0].split('\x1f').map(str::to_string).collect(), (*f.get(1).unwrap_or(&"")).to_string(), (*f.get(2).unwrap_or(&"")).to_string()));
        }
    }
    let rc = sub.wait().ok().and_then(|s| s.code());
    if p.failed.is_none() && (rc != Some(0) || !told) {
        p.failed = Some((vec![args.join(" ")], "answers".into(), format!("the process died with {rc:?}")));
    }
    p
}

macro_rules! shareable {
    ($($t:ty),* $(,)?) => {{
        struct Probe<T>(std::marker::PhantomData<T>);
        trait Not {
            const SEND: bool = false;
            const SYNC: bool = false;
        }
        impl<T> Not for Probe<T> {}
        struct S<T>(std::marker::PhantomData<T>);
        trait NotS {
            const YES: bool = false;
        }
        impl<T> NotS for S<T> {}
        impl<T: Send> S<T> {
            const YES: bool = true;
        }
        impl<T: Sync> Probe<T> {
            const SYNC: bool = true;
        }
        let _ = <Probe<u8> as Not>::SEND;
        vec![$((stringify!($t), <S<$t>>::YES, <Probe<$t>>::SYNC)),*]
    }};
}

pub fn c25(run: &Run) {
    let arg = |s: &[&dyn std::fmt::Display]| -> Vec<String> { s.iter().map(|x| x.to_string()).collect() };
    // the explorer itself
    let toys: Vec<usize> = (0..8).collect();
    let ask_alone = |k: usize| -> Vec<String> {
        let (rc, out) = spawn_as("--threads", &["answers", &k.to_string()], "");
        let v: Vec<String> = out.lines().map(str::to_string).collect();
        if rc != Some(0) || v.is_empty() || v.iter().any(|a| a.len() != 16 || a.starts_with("died")) {
            eprintln!("HARNESS ERROR: no answers from the sub-process: {rc:?} {out}");
            std::process::exit(2);
        }
        v
    };
    run.section("explorer", "eight toys: the explorer must find the wrong answers of three racy memos and the deadlock of two locks, and nothing in memos behind a lock or a spinning lock and a value initialised once", toys.len(), |k, acc| {
        let alone = ask_alone(TOYS + k).join(" ");
        let mut found = None;
        let qs = if k < 6 { vec![0, 1, 2, 3] } else { vec![0, 1] };
        for first in 0..qs.len() {
            let mut a = arg(&[&"dfs", &(TOYS + k), &2, &100_000, &2, &first]);
            a.extend(qs.iter().map(ToString::to_string));
            let p = part(&a, &alone, || acc.alive());
            acc.states += p.stats[0];
            acc.traces += p.stats[0];
            acc.transitions += p.stats[2];
            found = found.or(p.failed);
        }
        acc.outcome(&found);
        acc.sample(|| format!("toy {k}: {found:?}"));
        if found.is_some() != (k < 4) {
            eprintln!("HARNESS ERROR: toy {k}: {found:?}");
            std::process::exit(2);
        }
        Ok(())
    });
    run.section("shareable", "every public type: may be sent to and shared by threads", 1, |_, acc| {
        use ::calendar::{australia, austria, brazil, canada, china, france, germany, israel, italy, japan, jointcalendar, russia, target, turkey, unitedkingdom, unitedstates};
        use qlab_time::{date_rolling, frequency, period};
        let all = shareable![
            Linear<f64>, Linear<f32>, NaturalCubic<f64>, NaturalCubic<f32>, CatmullRom<f64>, CatmullRom<f32>, Hermite<f64>, Hermite<f32>,
            YieldCurve<Act365, Linear<f64>>, YieldCurve<Act360, NaturalCubic<f64>>, YieldCurve<Thirty360, CatmullRom<f32>>, Bond<f64>, Bond<f32>,
            Date, period::days::Days, period::months::Months, period::years::Years, date_rolling::DateRolling, frequency::Frequency,
            qlab_error::QLabError, qlab_error::ComputeError, qlab_error::InterpolationError<f64>,
            jointcalendar::JointCalendar<target::Target, japan::Japan>, target::Target, japan::Japan, israel::Israel, turkey::Turkey, china::China,
            unitedstates::UnitedStates, unitedkingdom::UnitedKingdom, russia::Russia, canada::Canada, brazil::Brazil, germany::Germany, france::France, italy::Italy, austria::Austria, australia::Australia,
        ];
        for (name, send, sync) in all {
            acc.states += 1;
            acc.traces += 2;
            acc.outcome(&(send, sync));
            if !send || !sync {
                return bad(name, "Send and Sync", format!("Send: {send}, Sync: {sync}"));
            }
        }
        Ok(())
    });
    let worlds: Vec<(usize, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..WORLDS).map(|k| sc.spawn(move || ask_alone(k))).collect();
        hs.into_iter().map(|h| h.join().expect("answers")).map(|v| (v.len(), v.join(" "))).collect()
    });
    let touched: Mutex<std::collections::BTreeMap<usize, std::collections::BTreeMap<usize, u64>>> = Mutex::default();
    let batches: Vec<(usize, usize)> = (0..WORLDS).flat_map(|k| (0..worlds[k].0.div_ceil(BATCH)).map(move |b| (k, b))).collect();
    let total: usize = worlds.iter().map(|w| w.0).sum();
    let pairs: usize = worlds.iter().map(|w| w.0 * w.0).sum();
    let probe = |name: &str, c: usize, alive: &mut dyn FnMut()| {
        let (k, b) = batches[c];
        let p = part(&arg(&[&name, &k, &b]), &worlds[k].1, alive);
        if !p.touch.is_empty() {
            let mut t = touched.lock().unwrap();
            let t = t.entry(k).or_default();
            p.touch.iter().for_each(|(q, m)| *t.entry(*q).or_default() |= m);
        }
        p
    };
    if run.replays("interleavings") {
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let c = next.fetch_add(1, Relaxed);
                    if c >= batches.len() {
                        break;
                    }
                    probe("cold", c, &mut || ());
                    probe("footprints", c, &mut || ());
                });
            }
        });
    }
    for (name, bound) in [
        ("cold", format!("each of {total} questions in {WORLDS} families or on shared objects, asked by two threads one after the other as the first thing a process does: the memory both touch and one writes")),
        ("footprints", format!("all {pairs} ordered pairs of questions within {WORLDS} families or on shared objects, asked by one thread and then by another: every answer, and the memory both touch and one writes; where there is none, all interleavings are equivalent")),
    ] {
        run.section(name, &bound, batches.len(), |c, acc| {
            let (k, b) = batches[c];
            acc.at(|| format!("world {k} batch {b}"));
            let p = probe(name, c, &mut || acc.alive());
            acc.states += p.stats[0];
            acc.traces += p.stats[0];
            acc.transitions += p.stats[1];
            acc.outcome(&(c, p.touch.len()));
            acc.sample(|| format!("world {k}, questions from number {}", b * BATCH));
            match p.failed {
                Some((ops, want, got)) => bad(ops.join("\n"), want, got),
                None => Ok(()),
            }
        });
    }
    if std::env::var_os("MC_VERBOSE").is_some() {
        eprintln!("conflicts: {:?}", touched.lock().unwrap().iter().map(|(k, v)| (*k, v.len(), v.iter().next())).collect::<Vec<_>>());
    }
    // where questions share memory that one of them writes
    let touched = touched.into_inner().unwrap();
    // schedules to spend on each world, and how many questions that allows: pairs after none or any of the questions
    let (bound, cap) = (run.pick(2, 3), run.pick(400, 4000));
    let spend = run.pick(1_500_000, 3_000_000) / touched.len().max(1) as u64;
    let most = [24, 16, 12, 8, 6, 4, 3].into_iter().find(|m| (m + 1) * m * (m + 1) / 2 * cap <= spend).unwrap_or(2) as usize;
    let mut jobs: Vec<(usize, usize, usize, Vec<usize>)> = Vec::new();
    for (&k, set) in &touched {
        // questions that touch different places first, of each kind two neighbours at a time
        let mut kinds: std::collections::BTreeMap<u64, Vec<usize>> = std::collections::BTreeMap::new();
        for (&q, &m) in set {
            kinds.entry(m).or_default().push(q);
        }
        let mut q: std::collections::BTreeSet<usize> = std::collections::BTreeSet::new();
        let kinds: Vec<Vec<usize>> = kinds.into_values().collect();
        let some = kinds.len().min(most / 2).max(1);
        let rounds = most.div_ceil(2 * some);
        for i in 0..rounds {
            for v in (0..some).map(|k| &kinds[k * kinds.len() / some]) {
                let at = i * v.len() / rounds;
                for x in [v[at], v[(at + 1) % v.len()]] {
                    if q.len() < most {
                        q.insert(x);
                    }
                }
            }
        }
        let q: Vec<usize> = q.into_iter().collect();
        jobs.extend((0..q.len()).map(|first| (2, k, first, q.clone())));
        // three threads on fewer questions
        let few: Vec<usize> = q.iter().copied().take(run.pick(2, 4)).collect();
        jobs.extend((0..few.len()).map(|first| (3, k, first, few.clone())));
    }
    run.section("interleavings", &format!("families with conflicting memory accesses: {}; of each up to {} questions: all pairs on two threads and of some all triples on three, after none or any of them, all orders of the conflicting accesses with up to {bound} preemptions (at most {cap} schedules each), each from a fresh process", touched.len(), if touched.is_empty() { 0 } else { most }), jobs.len(), |c, acc| {
        let (threads, k, first, q) = &jobs[c];
        acc.at(|| format!("world {k}, question {}", q[*first]));
        let mut a = arg(&[&"dfs", k, &bound, &cap, threads, first]);
        a.extend(q.iter().map(ToString::to_string));
        let p = part(&a, &worlds[*k].1, || acc.alive());
        acc.states += p.stats[0];
        acc.traces += p.stats[0];
        acc.transitions += p.stats[2];
        acc.inexact += p.stats[3];
        acc.outcome(&c);
        match p.failed {
            Some((ops, want, got)) => bad(ops.join("\n"), want, got),
            None => Ok(()),
        }
    });
    // no reduction at all
    let per = run.pick(8, 24);
    let small: Vec<(usize, Vec<usize>)> = (0..WORLDS).map(|k| { let n = worlds[k].0; let m = per.min(n); (k, (0..m).map(|i| i * n / m).collect()) }).collect();
    let jobs: Vec<(usize, usize)> = small.iter().enumerate().flat_map(|(i, (_, q))| (0..q.len()).map(move |f| (i, f))).collect();
    run.section("unreduced", &format!("{per} questions of each of {WORLDS} families or shared objects: all pairs on two threads, all schedules with one preemption at any memory access"), jobs.len(), |c, acc| {
        let (k, q) = &small[jobs[c].0];
        let first = jobs[c].1;
        acc.at(|| format!("world {k}, question {}", q[first]));
        let mut a = arg(&[&"full", k, &q[first]]);
        a.extend(q[first..].iter().map(ToString::to_string));
        let p = part(&a, &worlds[*k].1, || acc.alive());
        acc.states += p.stats[0];
        acc.traces += p.stats[0];
        acc.transitions += p.stats[2];
        acc.inexact += p.stats[3];
        acc.outcome(&c);
        match p.failed {
            Some((ops, want, got)) => bad(ops.join("\n"), want, got),
            None => Ok(()),
        }
    });
}
