//! C15-C19: interpolators, run over exact rationals and over both float types.
use crate::engine::{bad, guard, Acc, Bad, Run, R};
use crate::rat::{exactly, Rat};
use num_traits::{FromPrimitive, Num};
use qlab_error::InterpolationError as IE;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, hermite::Hermite, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use std::ops::Neg;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Lin,
    Natural,
    Catmull,
    Her,
}
use Kind::*;
pub const KINDS: [Kind; 4] = [Lin, Natural, Catmull, Her];

/// The number types the real code is run with.
pub trait Fl: Value {
    const NAME: &'static str;
    fn of(r: Rat) -> Self;
    fn f(self) -> f64;
}
impl Fl for Rat {
    const NAME: &'static str = "exact";
    fn of(r: Rat) -> Self {
        r
    }
    fn f(self) -> f64 {
        Rat::f(self)
    }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    fn of(r: Rat) -> Self {
        r.f()
    }
    fn f(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    fn of(r: Rat) -> Self {
        r.f() as f32
    }
    fn f(self) -> f64 {
        f64::from(self)
    }
}

/// A fitted interpolator of the real code.
pub enum Fit<V: Value> {
    L(Linear<V>),
    N(NaturalCubic<V>),
    C(CatmullRom<V>),
    H(Hermite<V>),
}

impl<V: Value> Fit<V> {
    pub fn new(k: Kind, p: &[(V, V, V)]) -> Result<Fit<V>, IE<V>> {
        let two = || p.iter().map(|&(x, y, _)| (x, y)).collect::<Vec<_>>();
        Ok(match k {
            Lin => Fit::L(Linear::default().try_fit(&two())?),
            Natural => Fit::N(NaturalCubic::default().try_fit(&two())?),
            Catmull => Fit::C(CatmullRom::default().try_fit(&two())?),
            Her => Fit::H(Hermite::try_new(p)?),
        })
    }
    #[inline]
    pub fn at(&self, x: V) -> Result<V, IE<V>> {
        match self {
            Fit::L(i) => i.try_value(x),
            Fit::N(i) => i.try_value(x),
            Fit::C(i) => i.try_value(x),
            Fit::H(i) => i.try_value(x),
        }
    }
}

// ------------------------------------------------------------------------------- reference model
/// Every curve is a cubic Hermite spline with slopes `d` (linear: straight segments).
pub struct Model<T> {
    pub kind: Kind,
    pub x: Vec<T>,
    pub y: Vec<T>,
    pub d: Vec<T>,
    /// left slope of the last segment as the known Catmull-Rom defect has it
    pub defect: Option<T>,
}

/// Gaussian elimination from the last row of three-diagonal rows (left, centre, right) upwards.
fn solve<T: Num + Copy>(a: &mut [[T; 3]], b: &mut [T]) {
    let n = b.len();
    for r in (0..n - 1).rev() {
        let f = a[r][2] / a[r + 1][1];
        a[r][1] = a[r][1] - f * a[r + 1][0];
        b[r] = b[r] - f * b[r + 1];
    }
    b[0] = b[0] / a[0][1];
    for r in 1..n {
        b[r] = (b[r] - a[r][0] * b[r - 1]) / a[r][1];
    }
}

impl<T: Num + Copy + PartialOrd + Neg<Output = T> + FromPrimitive> Model<T> {
    pub fn new(kind: Kind, p: &[(T, T, T)]) -> Model<T> {
        let x: Vec<T> = p.iter().map(|q| q.0).collect();
        let y: Vec<T> = p.iter().map(|q| q.1).collect();
        let n = x.len();
        let k = |i: u8| T::from_u8(i).unwrap();
        let sec = |i: usize| (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
        let mut defect = None;
        let d = match kind {
            Lin => vec![T::zero(); n],
            Her => p.iter().map(|q| q.2).collect(),
            Catmull => {
                let prev = n - 3;
                defect = Some((y[n - 1] - y[prev]) / (x[n - 1] - x[n - 2] + x[n - 1] - x[prev]));
                (0..n).map(|i| if i == 0 { sec(0) } else if i == n - 1 { sec(n - 2) } else { (y[i + 1] - y[i - 1]) / (x[i + 1] - x[i - 1]) }).collect()
            }
            Natural => {
                // slopes from: zero second derivative at both ends, continuous second derivative inside
                let mut a = vec![[T::zero(); 3]; n];
                let mut b = vec![T::zero(); n];
                (a[0][1], a[0][2], b[0]) = (k(2), k(1), k(3) * sec(0));
                (a[n - 1][1], a[n - 1][0], b[n - 1]) = (k(2), k(1), k(3) * sec(n - 2));
                for i in 1..n - 1 {
                    let (h, g) = (x[i] - x[i - 1], x[i + 1] - x[i]);
                    a[i][0] = T::one() / h;
                    a[i][1] = k(2) / h + k(2) / g;
                    a[i][2] = T::one() / g;
                    b[i] = k(3) * (sec(i - 1) / h + sec(i) / g);
                }
                solve(&mut a, &mut b);
                b
            }
        };
        Model { kind, x, y, d, defect }
    }

    fn cubic(&self, i: usize, x: T, d0: T) -> T {
        let k = |i: u8| T::from_u8(i).unwrap();
        let h = self.x[i + 1] - self.x[i];
        let t = (x - self.x[i]) / h;
        let u = T::one() - t;
        if self.kind == Lin {
            return self.y[i] * u + self.y[i + 1] * t;
        }
        self.y[i] * (T::one() + k(2) * t) * u * u + d0 * h * t * u * u + self.y[i + 1] * t * t * (k(3) - k(2) * t) - self.d[i + 1] * h * t * t * u
    }
    pub fn value(&self, i: usize, x: T) -> T {
        self.cubic(i, x, self.d[i])
    }
    /// What the known Catmull-Rom defect answers in this segment.
    pub fn defective(&self, i: usize, x: T) -> Option<T> {
        (i + 2 == self.x.len()).then_some(self.defect).flatten().map(|d| self.cubic(i, x, d))
    }
}

fn abs<T: Value>(v: T) -> T {
    if v < T::zero() {
        -v
    } else {
        v
    }
}

impl Model<f64> {
    /// Size of the numbers that enter the value in segment `i`.
    pub fn scale(&self, i: usize) -> f64 {
        let n = self.x.len();
        let (a, b) = match self.kind {
            Lin | Her => (i, i + 1),
            Catmull => (i.saturating_sub(1), (i + 2).min(n - 1)),
            Natural => (0, n - 1),
        };
        let mut s = 0f64;
        for j in a..=b {
            s = s.max(abs(self.y[j]));
            if j < b && self.kind != Lin {
                let h = self.x[j + 1] - self.x[j];
                s = s.max(abs(self.d[j] * h)).max(abs(self.d[j + 1] * h));
            }
        }
        s
    }
}

/// The model itself is checked against the conditions that define the natural spline.
fn natural_conditions(m: &Model<Rat>) {
    let n = m.x.len();
    let two = Rat::int(2);
    // second derivative of a Hermite segment at its ends
    let second = |i: usize, right: bool| {
        let h = m.x[i + 1] - m.x[i];
        let s = (m.y[i + 1] - m.y[i]) / h;
        if right {
            (two * m.d[i] + Rat::int(4) * m.d[i + 1] - Rat::int(6) * s) / h
        } else {
            (Rat::int(6) * s - Rat::int(4) * m.d[i] - two * m.d[i + 1]) / h
        }
    };
    let ok = second(0, false) == Rat::int(0) && second(n - 2, true) == Rat::int(0) && (1..n - 1).all(|i| second(i - 1, true) == second(i, false));
    assert!(ok, "the reference spline does not satisfy its own conditions");
}

// --------------------------------------------------------------------------------- comparisons
pub type Pts = Vec<(Rat, Rat, Rat)>;

fn show(kind: Kind, p: &[(Rat, Rat, Rat)]) -> String {
    let t = |q: &(Rat, Rat, Rat)| if kind == Her { format!("({}, {}, slope {})", q.0, q.1, q.2) } else { format!("({}, {})", q.0, q.1) };
    let mut s: Vec<String> = p.iter().take(12).map(t).collect();
    if p.len() > 12 {
        s.push(format!("... {} points", p.len()));
    }
    format!("{kind:?} through {}", s.join(" "))
}

const DEFECT: &str = "catmull-rom-last-segment-left-slope";

fn fitted<V: Fl>(kind: Kind, p: &[(Rat, Rat, Rat)]) -> Result<Fit<V>, Bad> {
    let q: Vec<(V, V, V)> = p.iter().map(|q| (V::of(q.0), V::of(q.1), V::of(q.2))).collect();
    let e = |got: String| Bad { ops: vec![format!("{} ({})", show(kind, p), V::NAME)], want: "a fitted curve".into(), got };
    match guard(|| Fit::new(kind, &q)) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(x)) => Err(e(format!("{x:?}"))),
        Err(x) => Err(e(x)),
    }
}

fn ask<V: Fl>(f: &Fit<V>, x: V, kind: Kind, p: &[(Rat, Rat, Rat)], want: impl Fn() -> String) -> Result<V, Bad> {
    let e = |got: String| Bad { ops: vec![format!("{} ({})", show(kind, p), V::NAME), format!("value at {x:?}")], want: want(), got };
    match guard(|| f.at(x)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(x)) => Err(e(format!("{x:?}"))),
        Err(x) => Err(e(x)),
    }
}

fn near(got: f64, want: f64, tol: f64) -> bool {
    (got - want).abs() <= tol
}

fn float<V: Fl>(acc: &mut Acc, kind: Kind, p: &[(Rat, Rat, Rat)], mf: &Model<f64>, qs: &[(usize, Rat)], tol: f64) -> R {
    let f = fitted::<V>(kind, p)?;
    let mut seg = usize::MAX;
    let mut scale = 0.0;
    for &(i, x) in qs {
        if i != seg {
            seg = i;
            // a request at a point may be answered from the segment on either side
            scale = mf.scale(i).max(mf.scale(i.saturating_sub(1))).max(mf.scale((i + 1).min(p.len() - 2))) * tol;
        }
        acc.traces += 1;
        let want = mf.value(i, x.f());
        let got = ask(&f, V::of(x), kind, p, || format!("{want:?}"))?.f();
        if !near(got, want, scale) {
            let b = || bad(format!("{} ({})\nvalue at {x}", show(kind, p), V::NAME), format!("{want:?} (within {scale:?})"), format!("{got:?}"));
            match mf.defective(i, x.f()) {
                Some(w) if near(got, w, scale) => acc.finding(DEFECT, b)?,
                _ => return b(),
            }
        }
    }
    Ok(())
}

/// Compares the real curve with the model at all requests, exactly and in both float types.
pub fn compare(acc: &mut Acc, kind: Kind, p: &[(Rat, Rat, Rat)], qs: &[(usize, Rat)], tol: (f64, f64)) -> R {
    acc.states += 1;
    acc.at(|| show(kind, p));
    let (mr, exact_model) = exactly(|| Model::new(kind, p));
    if exact_model && kind == Natural {
        natural_conditions(&mr);
    }
    if exact_model {
        let f = fitted::<Rat>(kind, p)?;
        for &(i, x) in qs {
            acc.traces += 1;
            let (want, ok) = exactly(|| mr.value(i, x));
            let (got, exact) = exactly(|| ask(&f, x, kind, p, || format!("{want}")));
            let got = got?;
            if !(ok && exact) {
                acc.inexact += 1;
                continue;
            }
            if got != want {
                let b = || bad(format!("{} (exact arithmetic)\nvalue at {x}", show(kind, p)), format!("{want}"), format!("{got}"));
                if mr.defective(i, x) == Some(got) {
                    acc.finding(DEFECT, b)?;
                } else {
                    return b();
                }
            }
        }
    } else {
        acc.inexact += qs.len() as u64;
    }
    let pf: Vec<(f64, f64, f64)> = p.iter().map(|q| (q.0.f(), q.1.f(), q.2.f())).collect();
    let mf = Model::new(kind, &pf);
    float::<f64>(acc, kind, p, &mf, qs, tol.0)?;
    float::<f32>(acc, kind, p, &mf, qs, tol.1)
}

/// Requests in every segment.
pub fn requests(xs: &[Rat], ts: &[Rat]) -> Vec<(usize, Rat)> {
    let mut v = Vec::new();
    for i in 0..xs.len() - 1 {
        for &t in ts {
            v.push((i, xs[i] + t * (xs[i + 1] - xs[i])));
        }
    }
    v
}

fn q(n: i64, d: i64) -> Rat {
    Rat::new(i128::from(n), i128::from(d))
}

fn ts() -> Vec<Rat> {
    vec![q(0, 1), q(1, 8), q(1, 4), q(1, 2), q(3, 4), q(1, 1)]
}

fn grid(x0: Rat, hs: &[Rat]) -> Vec<Rat> {
    let mut v = vec![x0];
    for h in hs {
        v.push(*v.last().unwrap() + *h);
    }
    v
}

/// All words of length `n` over `k` letters.
fn words(k: usize, n: usize, mut f: impl FnMut(&[usize]) -> R) -> R {
    let mut w = vec![0; n];
    loop {
        f(&w)?;
        let mut i = 0;
        loop {
            if i == n {
                return Ok(());
            }
            w[i] += 1;
            if w[i] < k {
                break;
            }
            w[i] = 0;
            i += 1;
        }
    }
}

/// (points, spacings to choose from, ordinates to choose from, slopes to choose from)
type Plan = (usize, usize, usize, usize);
const HS: [(i64, i64); 5] = [(1, 1), (2, 1), (1, 2), (3, 1), (5, 1)];
const YS: [i64; 5] = [0, 1, -2, 3, 7];
const DS: [i64; 4] = [0, 1, -2, 3];

fn small(run: &Run, kind: Kind, plans: &[Plan], tol: (f64, f64)) {
    for &(n, hk, yk, dk) in plans {
        let text = format!("{n} points: all spacings from {:?} x all ordinates from {:?}{} x 6 requests per segment, exact, f64, f32", &HS[..hk], &YS[..yk], if dk > 1 { format!(" x all slopes from {:?}", &DS[..dk]) } else { String::new() });
        let chunks = hk.pow(n as u32 - 1);
        run.section(&format!("all-{n}"), &text, chunks, |c, acc| {
            let hs: Vec<Rat> = (0..n - 1).map(|i| HS[c / hk.pow(i as u32) % hk]).map(|(a, b)| q(a, b)).collect();
            let xs = grid(Rat::int(-(c as i64 % 3)), &hs);
            let qs = requests(&xs, &ts());
            words(yk, n, |w| {
                words(dk, n, |s| {
                    let p: Pts = (0..n).map(|i| (xs[i], Rat::int(YS[w[i]]), Rat::int(DS[s[i]]))).collect();
                    compare(acc, kind, &p, &qs, tol)?;
                    acc.outcome(&(w.to_vec(), s.to_vec()));
                    if acc.states == 40 {
                        acc.sample(|| show(kind, &p));
                    }
                    Ok(())
                })
            })
        });
    }
}

const GRIDS: usize = 9;
fn named_grid(g: usize, n: usize) -> (&'static str, Vec<Rat>) {
    let h = |f: &dyn Fn(usize) -> Rat| (0..n - 1).map(f).collect::<Vec<_>>();
    match g {
        0 => ("even", grid(Rat::int(0), &h(&|_| Rat::int(1)))),
        1 => ("1,2,1,2", grid(Rat::int(-1), &h(&|i| q(1 + (i as i64 % 2), 1)))),
        2 => ("growing", grid(Rat::int(0), &h(&|i| q(i as i64 + 1, 4)))),
        3 => ("shrinking", grid(Rat::int(2), &h(&|i| q((n - i) as i64, 2)))),
        4 => ("sawtooth", grid(Rat::int(0), &h(&|i| [q(5, 1), q(1, 1), q(1, 4)][i % 3]))),
        5 => ("even, far from zero", grid(Rat::int(1000), &h(&|_| q(1, 4)))),
        6 => ("one wide gap", grid(Rat::int(-8), &h(&|i| if i == n / 2 { Rat::int(64) } else { Rat::int(1) }))),
        7 => ("one narrow gap", grid(Rat::int(-8), &h(&|i| if i == n / 2 { q(1, 64) } else { Rat::int(1) }))),
        _ => ("tenors of a yield curve", {
            let days = [0, 1, 7, 30, 61, 91, 182, 273, 365, 547, 730, 1096, 1461, 1826, 2557, 3652, 5479, 7305, 9131, 10957, 14610, 18262];
            (0..n).map(|i| if i < days.len() { days[i] } else { 18262 + 365 * (i - days.len() + 1) as i64 }).map(|d| q(d, 64)).collect()
        }),
    }
}

/// Long data sets: unit impulses in every ordinate (and slope), and some dense patterns.
fn long(run: &Run, kind: Kind, sizes: &[usize], tol: (f64, f64)) {
    let ns: Vec<usize> = sizes.to_vec();
    run.section("long", &format!("{GRIDS} grids x sizes {ns:?} x unit impulses in every ordinate and slope, lines, parabolas, cubics, alternating and shifted data, 4 requests per segment"), ns.len() * GRIDS, |c, acc| {
        let n = ns[ns.len() - 1 - c / GRIDS];
        let (name, xs) = named_grid(c % GRIDS, n);
        let qs = requests(&xs, &[q(0, 1), q(1, 4), q(1, 2), q(1, 1)]);
        let zero = Rat::int(0);
        let mut sets: Vec<Pts> = Vec::new();
        for j in 0..n {
            sets.push((0..n).map(|i| (xs[i], Rat::int(i64::from(i == j)), zero)).collect());
            if kind == Her {
                sets.push((0..n).map(|i| (xs[i], zero, Rat::int(i64::from(i == j)))).collect());
            }
        }
        let f = |g: &dyn Fn(Rat) -> (Rat, Rat)| xs.iter().map(|&x| (x, g(x).0, g(x).1)).collect::<Pts>();
        let two = Rat::int(2);
        sets.push(f(&|_| (Rat::int(1), zero)));
        sets.push(f(&|x| (two * x - Rat::int(5), two)));
        sets.push(f(&|x| (x * x / Rat::int(4), x / two)));
        sets.push(f(&|x| (x * x * x / Rat::int(64) - x, Rat::int(3) * x * x / Rat::int(64) - Rat::int(1))));
        sets.push((0..n).map(|i| (xs[i], Rat::int(if i % 2 == 0 { 1 } else { -1 }), Rat::int((i % 3) as i64))).collect());
        sets.push((0..n).map(|i| (xs[i], Rat::int(4096 + (i * i % 11) as i64), Rat::int(-1))).collect());
        sets.push((0..n).map(|i| (xs[i], q((i * 7 % 5) as i64, 4096), q(1, 4096))).collect());
        for p in &sets {
            compare(acc, kind, p, &qs, tol)?;
        }
        acc.outcome(&(n, c % GRIDS));
        acc.sample(|| format!("{n} points, grid {name}"));
        Ok(())
    });
}

/// One curve in floats against the reference, at five places of each segment.
fn float_case<V: Fl>(acc: &mut Acc, kind: Kind, p: &[(V, V, V)], tol: f64, eps: f64) -> R {
    let v = |x: f64| V::from_f64(x).unwrap();
    let pf: Vec<(f64, f64, f64)> = p.iter().map(|q| (q.0.f(), q.1.f(), q.2.f())).collect();
    let m = Model::new(kind, &pf);
    acc.states += 1;
    acc.at(|| format!("{kind:?} {p:?}"));
    let f = match guard(|| Fit::new(kind, p)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return bad(format!("{kind:?} through {p:?}"), "a fitted curve", format!("{e:?}")),
        Err(e) => return bad(format!("{kind:?} through {p:?}"), "a fitted curve", e),
    };
    for i in 0..p.len() - 1 {
        let s = m.scale(i).max(m.scale(i.saturating_sub(1))).max(m.scale((i + 1).min(p.len() - 2))) * tol;
        for t in [0.0, 0.1, 0.5, 0.77, 1.0] {
            let x = if t == 1.0 { p[i + 1].0 } else { v(pf[i].0 + t * (pf[i + 1].0 - pf[i].0)) };
            acc.traces += 1;
            let want = m.value(i, x.f());
            let op = || format!("{kind:?} ({}) through {p:?}\nvalue at {x:?}", V::NAME);
            let got = match guard(|| f.at(x)) {
                Ok(Ok(v)) => v.f(),
                Ok(Err(e)) => return bad(op(), format!("{want:?}"), format!("{e:?}")),
                Err(e) => return bad(op(), format!("{want:?}"), e),
            };
            // abscissae far from zero lose digits in their differences
            let s = s + 4.0 * eps * abs(x.f()) / (pf[i + 1].0 - pf[i].0) * m.scale(i) * 8.0;
            if !near(got, want, s) {
                let b = || bad(op(), format!("{want:?} (within {s:?})"), format!("{got:?}"));
                match m.defective(i, x.f()) {
                    Some(w) if near(got, w, s) => acc.finding(DEFECT, b)?,
                    _ => return b(),
                }
            }
        }
    }
    Ok(())
}

/// Abscissae that are even but for one point or but for a drift, by every power of two.
fn nearly_even<V: Fl>(run: &Run, kind: Kind, section: &str, tol: f64, eps: f64, bits: i32) {
    run.section(section, &format!("{}: 4 to 9 evenly spaced points, one of them (or all after it) moved by +-2^-1 to 2^-{bits} of the spacing, three spacings x ordinate patterns, 5 requests per segment", V::NAME), 6 * bits as usize, |c, acc| {
        let n = 4 + c % 6;
        let e = 2f64.powi(-1 - (c / 6) as i32);
        let v = |x: f64| V::from_f64(x).unwrap();
        for h in [1.0, 0.25, 91.0] {
            for j in 0..n {
                for s in [e, -e] {
                    for rest in [false, true] {
                        for yw in 0..6usize {
                            let p: Vec<(V, V, V)> = (0..n)
                                .map(|i| {
                                    let moved = i == j || rest && i > j;
                                    let y = match yw {
                                        0 => i as f64 * 0.5,
                                        1 => [1.0, -2.0, 0.5][i % 3],
                                        2 => (i * i) as f64 / 8.0,
                                        3 => f64::from(u8::from(i == j)),
                                        4 => f64::from(u8::from(i == j + 1)),
                                        _ => [0.031, 0.033, 0.034, 0.0335][i * i % 4],
                                    };
                                    (v((i as f64 + if moved { s } else { 0.0 }) * h), v(y), v([1.0, 0.0, -0.5][(i + yw) % 3] / h))
                                })
                                .collect();
                            float_case(acc, kind, &p, tol, eps)?;
                        }
                    }
                }
            }
        }
        acc.outcome(&c);
        Ok(())
    });
}

/// Floats only: abscissae and ordinates of many sizes.
fn scales(run: &Run, kind: Kind, tol: (f64, f64)) {
    let ys: &[f64] = if kind == Lin { &[1e-200, 1e-12, 1.0, 1e12, 1e200] } else { &[1e-60, 1e-12, 1.0, 1e12, 1e60] };
    scaled::<f64>(run, "scales", "abscissa scales 1e-15..1e15 x 4 offsets x ordinate scales 1e-200..1e200 (splines 1e-60..1e60)", kind, &[1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1.0, 365.0, 1e6, 1e10, 1e15], &[0.0, 1.0, -3.5, 1000.0], ys, tol.0, f64::EPSILON);
    scaled::<f32>(run, "scales-f32", "abscissa scales 1e-4..1e4 x 3 offsets x ordinate scales 1e-12..1e12", kind, &[1e-4, 1e-2, 1.0, 365.0, 1e4], &[0.0, 1.0, -30.5], &[1e-12, 1e-4, 1.0, 1e4, 1e12], tol.1, f64::from(f32::EPSILON));
    nearly_even::<f64>(run, kind, "nearly-even", tol.0, f64::EPSILON, 40);
    nearly_even::<f32>(run, kind, "nearly-even-f32", tol.1, f64::from(f32::EPSILON), 18);
}

#[allow(clippy::too_many_arguments)]
fn scaled<V: Fl>(run: &Run, section: &str, text: &str, kind: Kind, xs: &[f64], offs: &[f64], ys: &[f64], tol: f64, eps: f64) {
    run.section(section, &format!("{}: {text} x spacing patterns of 5 points x ordinate patterns, 5 requests per segment", V::NAME), xs.len() * offs.len() * ys.len(), |c, acc| {
        let (sx, o, sy) = (xs[c % xs.len()], offs[c / xs.len() % offs.len()], ys[c / xs.len() / offs.len()]);
        let v = |x: f64| V::from_f64(x).unwrap();
        words(3, 4, |hw| {
            words(3, 5, |yw| {
                let mut x = o * sx;
                let mut p: Vec<(V, V, V)> = Vec::new();
                for i in 0..5 {
                    p.push((v(x), v([0.1, 1.3, -2.7][yw[i]] * sy), v([1.0, 0.0, -0.4][(yw[i] + i) % 3] * sy / sx)));
                    if i < 4 {
                        x += [0.3, 1.0, 7.1][hw[i]] * sx;
                    }
                }
                float_case(acc, kind, &p, tol, eps)
            })
        })?;
        acc.outcome(&c);
        Ok(())
    });
}

/// Hundreds of points, floats only: nothing may depend on how many there are.
fn very_long(run: &Run, kind: Kind, tol: f64) {
    let sizes: Vec<usize> = run.pick(vec![50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 366, 500, 513, 1000, 1025, 2049, 4097, 10_001, 32_769, 65_537], (41..=270).chain([300, 365, 366, 400, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8193, 10_001, 16_385, 32_768, 32_769, 65_536, 65_537, 100_001, 131_073]).collect());
    run.section("very-long", &format!("f64: {} sizes from {} to {} points x 5 grids x 6 data patterns incl. unit impulses at the start, middle and end, 3 requests per segment", sizes.len(), sizes[0], sizes[sizes.len() - 1]), sizes.len() * 5, |c, acc| {
        let n = sizes[sizes.len() - 1 - c / 5];
        let (name, xr) = named_grid([0, 1, 3, 4, 8][c % 5], n);
        let xs: Vec<f64> = xr.iter().map(|x| x.f()).collect();
        let unit = |j: usize| (0..n).map(|i| f64::from(u8::from(i == j))).collect::<Vec<_>>();
        let data: [Vec<f64>; 6] = [
            unit(1),
            unit(n / 2),
            unit(n - 2),
            (0..n).map(|i| (i * i % 11) as f64 - 3.0).collect(),
            (0..n).map(|i| [1.0, -1.0, 0.5][i % 3]).collect(),
            xs.iter().map(|x| 2.0 * x - 5.0).collect(),
        ];
        for y in &data {
            let p: Vec<(f64, f64, f64)> = (0..n).map(|i| (xs[i], y[i], y[(i * 7 + 3) % n])).collect();
            let m = Model::new(kind, &p);
            acc.states += 1;
            let op = || format!("{kind:?} through {n} points, grid {name}, ordinates {:?}...", &y[..8]);
            acc.at(op);
            let f = match guard(|| Fit::new(kind, &p)) {
                Ok(Ok(f)) => f,
                r => return bad(op(), "a fitted curve", format!("{:?}", r.map(|r| r.err()))),
            };
            let whole = m.scale(0);
            for i in 0..n - 1 {
                let s = tol * if kind == Natural { whole } else { m.scale(i).max(m.scale(i.saturating_sub(1))).max(m.scale((i + 1).min(n - 2))) };
                for x in [xs[i], xs[i] + 0.375 * (xs[i + 1] - xs[i]), xs[i + 1]] {
                    acc.traces += 1;
                    let want = m.value(i, x);
                    let got = match guard(|| f.at(x)) {
                        Ok(Ok(v)) => v,
                        r => return bad(format!("{}\nvalue at {x:?}", op()), format!("{want:?}"), format!("{r:?}")),
                    };
                    if !near(got, want, s) {
                        let b = || bad(format!("{}\nvalue at {x:?}", op()), format!("{want:?} (within {s:?})"), format!("{got:?}"));
                        match m.defective(i, x) {
                            Some(w) if near(got, w, s) => acc.finding(DEFECT, b)?,
                            _ => return b(),
                        }
                    }
                }
            }
        }
        acc.outcome(&(n, c % 5));
        Ok(())
    });
}

const LIN: (f64, f64) = (1e-12, 1e-5);
const CUB: (f64, f64) = (1e-9, 3e-4);

pub fn c16(run: &Run) {
    small(run, Lin, run.pick(&[(2, 5, 5, 1), (3, 5, 5, 1), (4, 5, 5, 1), (5, 4, 5, 1), (6, 3, 4, 1), (7, 2, 3, 1)], &[(2, 5, 5, 1), (3, 5, 5, 1), (4, 5, 5, 1), (5, 5, 5, 1), (6, 4, 4, 1), (7, 3, 3, 1), (8, 2, 3, 1)]), LIN);
    let sizes: Vec<usize> = run.pick((2..=24).chain([32, 33, 40, 64, 65, 100]).collect(), (2..=130).chain([150]).collect());
    long(run, Lin, &sizes, LIN);
    scales(run, Lin, LIN);
    very_long(run, Lin, LIN.0);
    // never outside the two ordinates, exactly
    run.section("range", "3 points: spacings x ordinates x every multiple of 1/24 of each segment, exact: inside the range of the two ordinates; the value ignores the other points", 5 * 5, |c, acc| {
        let hs = [q(HS[c % 5].0, HS[c % 5].1), q(HS[c / 5].0, HS[c / 5].1)];
        let xs = grid(Rat::int(0), &hs);
        words(5, 3, |w| {
            let p: Pts = (0..3).map(|i| (xs[i], Rat::int(YS[w[i]]), Rat::int(0))).collect();
            let f = fitted::<Rat>(Lin, &p)?;
            acc.states += 1;
            for i in 0..2 {
                let alone = fitted::<Rat>(Lin, &p[i..i + 2])?;
                for t in 0..=24 {
                    let x = xs[i] + q(t, 24) * hs[i];
                    let (v, u) = (ask(&f, x, Lin, &p, String::new)?, ask(&alone, x, Lin, &p[i..i + 2], String::new)?);
                    acc.traces += 2;
                    let (lo, hi) = if p[i].1 < p[i + 1].1 { (p[i].1, p[i + 1].1) } else { (p[i + 1].1, p[i].1) };
                    if v != u || v < lo || v > hi {
                        return bad(format!("{}\nvalue at {x}", show(Lin, &p)), format!("{u} as with the two neighbours alone, between {lo} and {hi}"), format!("{v}"));
                    }
                }
            }
            acc.outcome(&w.to_vec());
            Ok(())
        })
    });
}

pub fn c17(run: &Run) {
    small(run, Natural, run.pick(&[(3, 5, 5, 1), (4, 5, 5, 1), (5, 4, 4, 1), (6, 3, 3, 1), (7, 2, 3, 1), (8, 2, 2, 1)], &[(3, 5, 5, 1), (4, 5, 5, 1), (5, 4, 4, 1), (6, 3, 3, 1), (7, 3, 3, 1), (8, 2, 3, 1), (9, 2, 2, 1)]), CUB);
    let sizes: Vec<usize> = run.pick((3..=20).chain([24, 32, 33, 40]).collect(), (3..=48).chain([64, 90, 120]).collect());
    long(run, Natural, &sizes, CUB);
    scales(run, Natural, CUB);
    very_long(run, Natural, CUB.0);
}

pub fn c18(run: &Run) {
    small(run, Catmull, run.pick(&[(3, 5, 5, 1), (4, 5, 5, 1), (5, 4, 4, 1), (6, 3, 3, 1)], &[(3, 5, 5, 1), (4, 5, 5, 1), (5, 5, 5, 1), (6, 3, 4, 1), (7, 3, 3, 1)]), CUB);
    let sizes: Vec<usize> = run.pick((3..=20).chain([24, 32, 33, 40, 64]).collect(), (3..=48).chain([64, 90]).collect());
    long(run, Catmull, &sizes, CUB);
    scales(run, Catmull, CUB);
    very_long(run, Catmull, CUB.0);
}

pub fn c19(run: &Run) {
    small(run, Her, run.pick(&[(2, 5, 5, 4), (3, 5, 5, 4), (4, 3, 4, 3), (5, 2, 3, 2)], &[(2, 5, 5, 4), (3, 5, 5, 4), (4, 3, 4, 4), (5, 3, 3, 2), (6, 2, 2, 2)]), CUB);
    let sizes: Vec<usize> = run.pick((2..=20).chain([24, 32, 33, 40, 64]).collect(), (2..=48).chain([64, 90]).collect());
    long(run, Her, &sizes, CUB);
    scales(run, Her, CUB);
    very_long(run, Her, CUB.0);
}

// ------------------------------------------------------------------------------------------- C15
fn need(kind: Kind) -> usize {
    match kind {
        Lin | Her => 2,
        Natural | Catmull => 3,
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Verdict {
    Value,
    Order,
    Short(usize),
    Lower,
    Upper,
}

fn verdict<V: PartialEq + Copy, T>(r: &Result<T, IE<V>>, x: Option<V>) -> Result<Verdict, String>
where
    V: std::fmt::Debug,
{
    Ok(match r {
        Ok(_) => Verdict::Value,
        Err(IE::PointOrderError) => Verdict::Order,
        Err(IE::InsufficientPointsError(n)) => Verdict::Short(*n),
        Err(IE::OutOfLowerBound(v)) if Some(*v) == x => Verdict::Lower,
        Err(IE::OutOfUpperBound(v)) if Some(*v) == x => Verdict::Upper,
        Err(IE::OutOfLowerBound(v) | IE::OutOfUpperBound(v)) => return Err(format!("an out-of-bound error that carries {v:?}")),
    })
}

/// Fits one point sequence and asks all requests; every verdict is compared.
fn contract<V: Fl>(acc: &mut Acc, kind: Kind, p: &[(V, V, V)], reqs: &[V], tol: f64) -> R {
    let op = || {
        let some = p.iter().take(40).map(|q| (q.0, q.1)).collect::<Vec<_>>();
        format!("{kind:?} ({}) through {some:?}{}", V::NAME, if p.len() > 40 { format!(" ... {} points", p.len()) } else { String::new() })
    };
    acc.states += 1;
    acc.traces += 1;
    acc.at(op);
    let n = p.len();
    let asc = p.windows(2).all(|w| w[0].0 < w[1].0);
    let short = n < need(kind);
    let fit = match guard(|| Fit::new(kind, p)) {
        Ok(f) => f,
        Err(e) => return bad(op(), "a fit or an error", e),
    };
    let got = verdict(&fit, None);
    let mut allowed = Vec::new();
    if !asc {
        allowed.push(Verdict::Order);
    }
    if short {
        allowed.push(Verdict::Short(n));
        if kind == Lin && asc {
            allowed.push(Verdict::Value);
        }
    }
    if asc && !short {
        allowed.push(Verdict::Value);
    }
    acc.outcome(&(kind, n, format!("{got:?}")));
    match &got {
        Ok(v) if allowed.contains(v) => {}
        _ => return bad(format!("fit {}", op()), format!("{allowed:?}"), format!("{got:?}")),
    }
    let Ok(f) = fit else { return Ok(()) };
    let size = p.iter().fold(0f64, |s, q| s.max(q.1.f().abs()).max(q.2.f().abs()));
    for &x in reqs {
        acc.traces += 1;
        let want = if short {
            Verdict::Short(n)
        } else if x < p[0].0 {
            Verdict::Lower
        } else if x > p[n - 1].0 {
            Verdict::Upper
        } else {
            Verdict::Value
        };
        let op = || format!("{}\nvalue at {x:?}", op());
        acc.at(op);
        let r = match guard(|| f.at(x)) {
            Ok(r) => r,
            Err(e) => return bad(op(), format!("{want:?}"), e),
        };
        let got = verdict(&r, Some(x));
        if got != Ok(want) {
            return bad(op(), format!("{want:?}"), format!("{got:?}"));
        }
        if let (Ok(v), true) = (r, tol.is_finite()) {
            if let Some(k) = p.get(p.partition_point(|k| k.0 < x)).filter(|k| k.0 == x) {
                if !near(v.f(), k.1.f(), tol * size) {
                    return bad(op(), format!("the ordinate {:?} of that point", k.1), format!("{v:?}"));
                }
            } else if !v.f().is_finite() {
                return bad(op(), "a finite value", format!("{v:?}"));
            }
        }
    }
    Ok(())
}

fn up64(x: f64) -> f64 {
    let b = x.to_bits();
    if x == 0.0 {
        f64::from_bits(1)
    } else {
        f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
    }
}
fn up32(x: f32) -> f32 {
    let b = x.to_bits();
    if x == 0.0 {
        f32::from_bits(1)
    } else {
        f32::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
    }
}

fn close<V: Fl>(acc: &mut Acc, kind: Kind, n: usize, at: usize, off: V, gap: V, up: impl Fn(V) -> V) -> R {
    let mut x = off;
    let mut p = Vec::new();
    for i in 0..n {
        p.push((x, V::from_u8(1 + (i * 3 % 4) as u8).unwrap(), V::zero()));
        x = if i != at {
            x + V::one()
        } else if x + gap > x {
            x + gap
        } else {
            up(x)
        };
    }
    acc.states += 1;
    let op = || format!("{kind:?} ({}) through {:?}", V::NAME, p.iter().map(|q| (q.0, q.1)).collect::<Vec<_>>());
    let f = match guard(|| Fit::new(kind, &p)) {
        Ok(Ok(f)) => f,
        r => return bad(format!("fit {}", op()), "a fitted curve", format!("{:?}", r.map(|r| r.err()))),
    };
    for i in 0..n {
        for (x, want) in [(p[i].0, Verdict::Value), (up(p[i].0), if i + 1 == n { Verdict::Upper } else { Verdict::Value }), (-up(-p[i].0), if i == 0 { Verdict::Lower } else { Verdict::Value })] {
            acc.traces += 1;
            let r = guard(|| f.at(x));
            let got = r.as_ref().map(|r| verdict(r, Some(x)));
            if got != Ok(Ok(want)) {
                return bad(format!("{}\nvalue at {x:?}", op()), format!("{want:?}"), format!("{r:?}"));
            }
        }
    }
    Ok(())
}

pub fn c15(run: &Run) {
    let abs5: [Rat; 6] = [q(-2, 1), q(-1, 1), q(0, 1), q(1, 2), q(3, 1), q(7, 2)];
    let letters = 6usize;
    let maxlen = run.pick(7usize, 8);
    // all sequences, sorted or not
    run.section("sequences", &format!("all point sequences of length 0..={maxlen} over {letters} abscissae x 2 ordinate patterns x 4 interpolators x exact, f64, f32 x all requests on, between and outside the grid"), letters * letters, |c, acc| {
        let mut reqs = vec![q(-1000, 1), q(-17, 8), q(-9, 4), q(1000, 1)];
        for w in abs5.windows(2) {
            reqs.extend([w[0], (w[0] + w[1]) / q(2, 1), w[0] + (w[1] - w[0]) / q(4, 1)]);
        }
        reqs.extend([abs5[5], q(29, 8)]);
        let mut one = |w: &[usize]| -> R {
            for pat in 0..2 {
                let p: Pts = w.iter().enumerate().map(|(i, &l)| (abs5[l], if pat == 0 { Rat::int([1, -2, 3, 0, 5, 4, -1, 2][i]) } else { abs5[l] * abs5[l] }, Rat::int([0, 1, -1, 2, 0, 1, 3, -2][i]))).collect();
                for kind in KINDS {
                    contract::<Rat>(acc, kind, &p, &reqs, 0.0)?;
                    let g: Vec<_> = p.iter().map(|q| (q.0.f(), q.1.f(), q.2.f())).collect();
                    contract::<f64>(acc, kind, &g, &reqs.iter().map(|x| x.f()).collect::<Vec<_>>(), 1e-9)?;
                    let g: Vec<_> = g.iter().map(|q| (q.0 as f32, q.1 as f32, q.2 as f32)).collect();
                    contract::<f32>(acc, kind, &g, &reqs.iter().map(|x| x.f() as f32).collect::<Vec<_>>(), 1e-4)?;
                }
            }
            Ok(())
        };
        let head = [c % letters, c / letters];
        if c == 0 {
            one(&[])?;
        }
        if c < letters {
            one(&[c])?;
        }
        for len in 0..=maxlen - 2 {
            words(letters, len, |t| {
                let mut w = head.to_vec();
                w.extend(t);
                one(&w)
            })?;
        }
        acc.sample(|| format!("sequences that start {} {}", abs5[head[0]], abs5[head[1]]));
        Ok(())
    });
    // one misplaced point in a long sequence
    let nmax = run.pick(90usize, 200);
    run.section("one-out-of-order", &format!("ascending sequences of 2..={nmax} points with one point repeated, moved below its predecessor by one unit in the last place or swapped, at every position, 4 interpolators, f64 and f32"), nmax - 1, |c, acc| {
        let n = c + 2;
        for kind in KINDS {
            for g in [0usize, 1, 4] {
                let xs: Vec<f64> = named_grid(g, n).1.iter().map(|x| x.f()).collect();
                let y = |i: usize| ((i * 5 % 7) as f64, (i % 3) as f64);
                let base: Vec<(f64, f64, f64)> = (0..n).map(|i| (xs[i], y(i).0, y(i).1)).collect();
                contract::<f64>(acc, kind, &base, &xs, 1e-9)?;
                for i in 1..n {
                    for v in 0..4 {
                        let mut p = base.clone();
                        match v {
                            0 => p[i].0 = p[i - 1].0,
                            1 => p[i].0 = -up64(-p[i - 1].0),
                            2 => (p[i].0, p[i - 1].0) = (p[i - 1].0, p[i].0),
                            _ => p[i].0 = -1e9,
                        }
                        contract::<f64>(acc, kind, &p, &[], 1e-9)?;
                        if v != 1 {
                            let p: Vec<_> = p.iter().map(|q| (q.0 as f32, q.1 as f32, q.2 as f32)).collect();
                            contract::<f32>(acc, kind, &p, &[], 1e-9)?;
                        }
                    }
                }
            }
        }
        acc.outcome(&n);
        Ok(())
    });
    // requests next to the knots of long grids
    let sizes: Vec<usize> = run.pick((2..=130).chain([255, 256, 257, 511, 512, 513, 1000, 1025, 4097, 16_385]).collect(), (2..=300).chain([511, 512, 513, 1000, 1025, 4097, 16_385, 65_537]).collect());
    run.section("neighbours", &format!("{GRIDS} grids x {} sizes x 4 interpolators: requests at, just below and just above every point, in every segment, far outside, infinite, f64 and f32", sizes.len()), sizes.len() * GRIDS, |c, acc| {
        let n = sizes[sizes.len() - 1 - c / GRIDS];
        let xs: Vec<f64> = named_grid(c % GRIDS, n).1.iter().map(|x| x.f()).collect();
        let p: Vec<(f64, f64, f64)> = (0..n).map(|i| (xs[i], 1.0 + (i * 5 % 7) as f64, (i % 3) as f64 - 1.0)).collect();
        let mut reqs = vec![f64::NEG_INFINITY, f64::INFINITY, f64::MIN, f64::MAX, 0.0, -0.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 1e300, -1e300, 1e-300];
        for (i, &x) in xs.iter().enumerate() {
            reqs.extend([x, up64(x), -up64(-x)]);
            if i > 0 {
                reqs.push((x + xs[i - 1]) / 2.0);
            }
        }
        let p32: Vec<(f32, f32, f32)> = p.iter().map(|q| (q.0 as f32, q.1 as f32, q.2 as f32)).collect();
        let mut r32 = vec![f32::NEG_INFINITY, f32::INFINITY, f32::MIN, f32::MAX, 0.0, -0.0, f32::MIN_POSITIVE];
        for &(x, _, _) in &p32 {
            r32.extend([x, up32(x), -up32(-x)]);
        }
        for kind in KINDS {
            contract::<f64>(acc, kind, &p, &reqs, 1e-9)?;
            contract::<f32>(acc, kind, &p32, &r32, 1e-3)?;
            // next to a point the curve is next to the point
            if n >= need(kind) {
                if let Ok(f) = Fit::new(kind, &p) {
                    for i in 0..n {
                        for x in [up64(xs[i]), -up64(-xs[i])] {
                            if x > xs[0] && x < xs[n - 1] {
                                acc.traces += 1;
                                let v = f.at(x).unwrap_or(f64::NAN);
                                if !near(v, p[i].1, 1e-6) {
                                    return bad(format!("{kind:?} through {n} points, grid {}\nvalue at {x:?}, next to the point ({}, {})", named_grid(c % GRIDS, n).0, xs[i], p[i].1), format!("about {}", p[i].1), format!("{v:?}"));
                                }
                            }
                        }
                    }
                }
            }
        }
        acc.outcome(&(n, c % GRIDS));
        Ok(())
    });
    // abscissae that ascend by next to nothing still ascend
    let gaps: [f64; 12] = [0.0, 1e-300, 1e-100, 1e-30, 1e-20, 1e-16, 1e-12, 1e-9, 1e-8, 1e-6, 1e-5, 1e-3];
    run.section("close-points", "pairs of neighbouring points one unit in the last place up to 1e-3 apart, at every position of 2..=8 points, at 5 offsets, 4 interpolators, f64 and f32: accepted, and answered inside the range", gaps.len() * 5, |c, acc| {
        let (gap, off) = (gaps[c % 12], [0.0f64, 1.0, -1.0, 1e4, -0.001][c / 12]);
        for kind in KINDS {
            for n in need(kind)..=8 {
                for at in 0..n - 1 {
                    close::<f64>(acc, kind, n, at, off, gap, up64)?;
                    close::<f32>(acc, kind, n, at, off as f32, gap as f32, up32)?;
                }
            }
        }
        acc.outcome(&c);
        Ok(())
    });
    // the largest, smallest and closest numbers there are; what a curve through them is worth is lost to rounding, so
    // only the verdicts count
    let len = run.pick(4usize, 5);
    run.section("extremes", &format!("all sequences of 2..={len} points, sorted or not, over the extreme, subnormal and signed-zero abscissae of f64 and f32 x 5 patterns of extreme ordinates and slopes x 4 interpolators x requests at all of these abscissae and infinities: the verdicts, and no panic"), 13 * 13, |c, acc| {
        let xs = [f64::MIN, -1e300, -3.0, -f64::MIN_POSITIVE, -5e-324, -0.0, 0.0, 5e-324, f64::MIN_POSITIVE, f64::EPSILON, 3.0, 1e300, f64::MAX];
        let x32 = [f32::MIN, -1e38, -3.0, -f32::MIN_POSITIVE, -1e-45, -0.0, 0.0, 1e-45, f32::MIN_POSITIVE, f32::EPSILON, 3.0, 1e38, f32::MAX];
        let reqs: Vec<f64> = xs.iter().copied().chain([f64::INFINITY, f64::NEG_INFINITY, 1.5, -1.5]).collect();
        let r32: Vec<f32> = x32.iter().copied().chain([f32::INFINITY, f32::NEG_INFINITY, 1.5, -1.5]).collect();
        let mut one = |w: &[usize]| -> R {
            for pat in 0..5 {
                let y = |i: usize| ([0.0, 1.0, [1.0, -1.0][i % 2], 0.0, [0.0, 1.0, -1.0][i % 3]][pat], if pat == 3 { [1.0, -1.0][i % 2] } else { 0.0 });
                let p: Vec<_> = w.iter().enumerate().map(|(i, &l)| (xs[l], f64::MAX * y(i).0, f64::MAX * y(i).1)).collect();
                let p32: Vec<_> = w.iter().enumerate().map(|(i, &l)| (x32[l], f32::MAX * y(i).0 as f32, f32::MAX * y(i).1 as f32)).collect();
                for kind in KINDS {
                    contract::<f64>(acc, kind, &p, &reqs, f64::INFINITY)?;
                    contract::<f32>(acc, kind, &p32, &r32, f64::INFINITY)?;
                }
            }
            Ok(())
        };
        for n in 0..=len - 2 {
            words(13, n, |t| {
                let mut w = vec![c % 13, c / 13];
                w.extend(t);
                one(&w)
            })?;
        }
        acc.outcome(&c);
        Ok(())
    });
    run.section("unfitted", "requests to interpolators that were never fitted", 1, |_, acc| {
        for x in [-1.0, 0.0, 1.0, f64::INFINITY] {
            acc.traces += 4;
            for (name, r) in [
                ("Linear::new", guard(|| Linear::<f64>::new().try_value(x).is_err())),
                ("Linear::default", guard(|| Linear::<f64>::default().try_value(x).is_err())),
                ("NaturalCubic::default", guard(|| NaturalCubic::<f64>::default().try_value(x).is_err())),
                ("CatmullRom::default", guard(|| CatmullRom::<f64>::default().try_value(x).is_err())),
            ] {
                if r != Ok(true) {
                    return bad(format!("{name}() asked for the value at {x}"), "an error", format!("{r:?}"));
                }
            }
        }
        Ok(())
    });
}
