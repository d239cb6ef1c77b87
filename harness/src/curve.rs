//! C20, C21: discount factors and the errors of yield curves.
use crate::civil::{from_num, num, show, weekday, Ymd, FIRST, LAST};
use crate::dates::mk;
use crate::engine::{bad, guard, Acc, Run, R};
use crate::interp::{Fit, Fl, Kind, Model};
use qlab_error::{ComputeError, InterpolationError as IE, QLabError, QLabResult};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Invalid,
    Interp,
    Other,
}

pub fn kind<T>(r: QLabResult<T>) -> Result<T, E> {
    r.map_err(|e| match e {
        QLabError::ComputeError(ComputeError::InvalidInput(_)) => E::Invalid,
        QLabError::ComputeError(ComputeError::InterpolationError) => E::Interp,
        #[allow(unreachable_patterns)]
        _ => E::Other,
    })
}

/// A day count with its textbook definition: numerator in days, denominator.
pub trait Dc: DayCount {
    const NAME: &'static str;
    const DEN: i64;
    /// None: the dates are in the wrong order for this convention
    fn days(a: i64, b: i64) -> Option<i64>;
}
impl Dc for Act360 {
    const NAME: &'static str = "actual/360";
    const DEN: i64 = 360;
    fn days(a: i64, b: i64) -> Option<i64> {
        Some(b - a)
    }
}
impl Dc for Act365 {
    const NAME: &'static str = "actual/365";
    const DEN: i64 = 365;
    fn days(a: i64, b: i64) -> Option<i64> {
        Some(b - a)
    }
}
impl Dc for Thirty360 {
    const NAME: &'static str = "30/360";
    const DEN: i64 = 360;
    fn days(a: i64, b: i64) -> Option<i64> {
        let (x, y): (Ymd, Ymd) = (from_num(a), from_num(b));
        (a <= b).then(|| 360 * i64::from(y.0 - x.0) + 30 * (i64::from(y.1) - i64::from(x.1)) + i64::from(y.2.min(30)) - i64::from(x.2.min(30)))
    }
}

/// Day counts a user might write: weekdays over 252, and one whose parts do not add up.
#[derive(Clone, Copy)]
pub struct Weekdays;
#[derive(Clone, Copy)]
pub struct Lumpy;
macro_rules! own {
    ($t:ident, $name:expr, $den:expr, $f:expr) => {
        impl Dc for $t {
            const NAME: &'static str = $name;
            const DEN: i64 = $den;
            fn days(a: i64, b: i64) -> Option<i64> {
                let f: fn(i64, i64) -> i64 = $f;
                Some(f(a, b))
            }
        }
        impl DayCount for $t {
            fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
                let of = |d: Date| num((d.year(), d.month(), d.day()));
                let days = <$t as Dc>::days(of(a), of(b)).unwrap();
                Ok(V::from_i64(days).unwrap() / V::from_i64($den).unwrap())
            }
        }
    };
}
own!(Weekdays, "weekdays/252", 252, |a, b| {
    // weekdays before the day, from a Monday on
    let before = |n: i64| {
        let monday = n - i64::from(weekday(n));
        monday.div_euclid(7) * 5 + i64::from(weekday(n).min(5))
    };
    before(b) - before(a)
});
own!(Lumpy, "a lumpy day count", 1461, |a, b| (b - a) * 4 + if a < b { (a * 7 + b).rem_euclid(3) } else { 0 });

/// Test double: the value of the last fitted point at or before the request; no slopes, no smoothing.
#[derive(Default)]
pub struct Steps<V>(Vec<(V, V)>);
impl<V: Value> Interpolator for Steps<V> {
    type Value = V;
    fn try_fit(self, p: &[(V, V)]) -> Result<Self, IE<V>> {
        if p.len() < 2 {
            return Err(IE::InsufficientPointsError(p.len()));
        }
        if p.windows(2).any(|w| !(w[0].0 < w[1].0)) {
            return Err(IE::PointOrderError);
        }
        Ok(Steps(p.to_vec()))
    }
    fn try_value(&self, x: V) -> Result<V, IE<V>> {
        if x < self.0[0].0 {
            return Err(IE::OutOfLowerBound(x));
        }
        if x > self.0[self.0.len() - 1].0 {
            return Err(IE::OutOfUpperBound(x));
        }
        Ok(self.0.iter().rev().find(|p| p.0 <= x).unwrap().1)
    }
}

/// An interpolator type of the library with an independent instance used as oracle for its values.
pub trait Ip<V: Fl>: Interpolator<Value = V> {
    const NAME: &'static str;
    const NEED: usize;
    fn oracle(p: &[(V, V)]) -> Option<Box<dyn Fn(V) -> Option<V>>>;
}
macro_rules! real {
    ($t:ident, $k:expr, $name:expr, $need:expr) => {
        impl<V: Fl> Ip<V> for $t<V> {
            const NAME: &'static str = $name;
            const NEED: usize = $need;
            fn oracle(p: &[(V, V)]) -> Option<Box<dyn Fn(V) -> Option<V>>> {
                let q: Vec<(V, V, V)> = p.iter().map(|&(x, y)| (x, y, V::zero())).collect();
                let f = Fit::new($k, &q).ok()?;
                Some(Box::new(move |x| f.at(x).ok()))
            }
        }
    };
}
real!(Linear, Kind::Lin, "Linear", 2);
real!(NaturalCubic, Kind::Natural, "NaturalCubic", 3);
real!(CatmullRom, Kind::Catmull, "CatmullRom", 3);
impl<V: Fl> Ip<V> for Steps<V> {
    const NAME: &'static str = "steps";
    const NEED: usize = 2;
    fn oracle(p: &[(V, V)]) -> Option<Box<dyn Fn(V) -> Option<V>>> {
        let f = Steps::default().try_fit(p).ok()?;
        Some(Box::new(move |x| f.try_value(x).ok()))
    }
}

pub struct Case<'a> {
    pub settle: i64,
    pub mats: &'a [i64],
    pub yields: &'a [f64],
}

impl Case<'_> {
    fn show(&self, d: &str, i: &str, v: &str) -> String {
        format!(
            "YieldCurve<{d}, {i}<{v}>> settling {} with {}",
            show(from_num(self.settle)),
            self.mats.iter().zip(self.yields).map(|(m, y)| format!("{}: {y}", show(from_num(*m)))).collect::<Vec<_>>().join(", ")
        ) + &if self.mats.len() == self.yields.len() { String::new() } else { format!(" ({} maturities, {} yields)", self.mats.len(), self.yields.len()) }
    }
}

/// Builds one curve and asks for all given pairs; compares numbers and error kinds.
pub fn check<V: Fl, D: Dc, I: Ip<V>>(acc: &mut Acc, c: &Case, pairs: &[(i64, i64)], tol: f64) -> R {
    let op = || c.show(D::NAME, I::NAME, V::NAME);
    acc.states += 1;
    acc.traces += 1;
    acc.at(op);
    let dates: Vec<Date> = c.mats.iter().map(|&m| mk(m)).collect();
    let ys: Vec<V> = c.yields.iter().map(|&y| V::from_f64(y).unwrap()).collect();
    let settle = mk(c.settle);
    let curve = match guard(|| kind(YieldCurve::<D, I>::new(settle, &dates, &ys))) {
        Ok(r) => r,
        Err(e) => return bad(op(), "a curve or an error", e),
    };
    // what construction may answer
    let times: Option<Vec<i64>> = c.mats.iter().map(|&m| D::days(c.settle, m)).collect();
    let mut allowed: Vec<Option<E>> = Vec::new();
    let mut short = false;
    if dates.len() != ys.len() {
        allowed.push(Some(E::Invalid));
    } else {
        let ordered = times.as_ref().map_or(c.mats.windows(2).all(|w| w[0] < w[1]), |t| t.windows(2).all(|w| w[0] < w[1]));
        short = dates.len() < I::NEED;
        if times.is_none() {
            allowed.push(Some(E::Invalid));
        }
        if !ordered || short {
            allowed.push(Some(E::Interp));
        }
        if short && ordered && I::NEED == 2 && times.is_some() {
            allowed.push(None);
        }
        if allowed.is_empty() {
            allowed.push(None);
        }
    }
    acc.outcome(&(dates.len(), format!("{allowed:?}")));
    let got = curve.as_ref().err().copied();
    if !allowed.contains(&got) {
        return bad(format!("build {}", op()), format!("{allowed:?} (None: a curve)"), format!("{got:?}"));
    }
    let Ok(curve) = curve else { return Ok(()) };
    let Some(times) = times else { return Ok(()) };
    let den = V::from_i64(D::DEN).unwrap();
    let frac = |t: i64| V::from_i64(t).unwrap() / den;
    let pts: Vec<(V, V)> = times.iter().map(|&t| frac(t)).zip(ys.iter().copied()).collect();
    let oracle = if short { None } else { I::oracle(&pts) };
    let (lo, hi) = (times.first().copied().unwrap_or(1), times.last().copied().unwrap_or(0));
    // rounding of the times, magnified where quotes lie close together far from settlement
    let eps = if V::NAME == "f32" { f64::from(f32::EPSILON) } else { f64::EPSILON };
    let gap = times.windows(2).map(|w| w[1] - w[0]).min().unwrap_or(1).max(1) as f64;
    let shake = 8.0 * eps * (hi as f64 / gap) * (hi as f64 / D::DEN as f64);
    let most = if V::NAME == "f32" { 1e25 } else { 1e280 };
    let high = c.yields.iter().fold(0.0, |m: f64, y| m.max(y.abs()));
    for &(a, b) in pairs {
        acc.traces += 1;
        acc.transitions += 1;
        let op = || format!("{}\ndiscount factor from {} to {}", op(), show(from_num(a)), show(from_num(b)));
        let got = match guard(|| kind(curve.discount_factor(mk(a), mk(b)))) {
            Ok(r) => r,
            Err(e) => return bad(op(), "a number or an error", e),
        };
        if b < a || a < c.settle {
            match got {
                Err(E::Invalid) => continue,
                g => return bad(op(), "an invalid-input error", format!("{g:?}")),
            }
        }
        let (t1, t2) = (D::days(c.settle, a).unwrap(), D::days(c.settle, b).unwrap());
        let inside = |t: i64| !short && t >= lo && t <= hi;
        acc.outcome(&(inside(t1), inside(t2), a == c.settle, a == b));
        if !inside(t2) || (a != c.settle && !inside(t1)) {
            match got {
                Err(E::Interp) => continue,
                // an empty interval may be answered without looking at the curve
                Ok(v) if a == b && v.f() == 1.0 => continue,
                g => return bad(op(), "an interpolation error", format!("{g:?}")),
            }
        }
        let Some(oracle) = &oracle else { return bad(op(), "an interpolator that fits these points", "it refuses them") };
        let (Some(y2), y1) = (oracle(frac(t2)), if a == c.settle { Some(V::zero()) } else { oracle(frac(t1)) }) else {
            return bad(op(), "an interpolated yield", "the interpolator has none");
        };
        let Some(y1) = y1 else { return bad(op(), "an interpolated yield", "the interpolator has none") };
        let (f1, f2) = (if a == c.settle { 0.0 } else { t1 as f64 / D::DEN as f64 * y1.f() }, t2 as f64 / D::DEN as f64 * y2.f());
        let want = (f1 - f2).exp();
        match got {
            // beyond what the float types hold with precision the answer is as good as nothing, or huge
            Ok(v) if want < 1.0 / most => {
                if !(0.0..=10.0 / most).contains(&v.f()) {
                    return bad(op(), format!("less than {:e}: exp({f1:?} - {f2:?})", 10.0 / most), format!("{v:?}"));
                }
            }
            Ok(v) if want > most => {
                if v.f().partial_cmp(&(most / 10.0)) != Some(std::cmp::Ordering::Greater) {
                    return bad(op(), format!("more than {:e}: exp({f1:?} - {f2:?})", most / 10.0), format!("{v:?}"));
                }
            }
            Ok(v) if (v.f() - want).abs() <= want * (tol * (1.0 + f1.abs() + f2.abs()) + shake * high.max(y1.f().abs()).max(y2.f().abs())) => {}
            g => return bad(op(), format!("{want:?} = exp({f1:?} - {f2:?})"), format!("{g:?}")),
        }
    }
    Ok(())
}

fn check_all(acc: &mut Acc, c: &Case, pairs: &[(i64, i64)]) -> R {
    // single precision tells days apart up to a point only
    let single = c.mats.iter().all(|m| m - c.settle < 1 << 22);
    macro_rules! go {
        ($($v:ident $tol:expr, $d:ident;)*) => {$(
            check::<$v, $d, Linear<$v>>(acc, c, pairs, $tol)?;
            check::<$v, $d, NaturalCubic<$v>>(acc, c, pairs, $tol)?;
            check::<$v, $d, CatmullRom<$v>>(acc, c, pairs, $tol)?;
            check::<$v, $d, Steps<$v>>(acc, c, pairs, $tol)?;
        )*};
    }
    go! { f64 1e-10, Act360; f64 1e-10, Act365; f64 1e-10, Thirty360; f64 1e-10, Weekdays; f64 1e-10, Lumpy; }
    if single {
        go! { f32 1e-5, Act360; f32 1e-5, Act365; f32 1e-5, Thirty360; }
    }
    Ok(())
}

const YIELDS: [f64; 4] = [0.03, -0.005, 0.0, 0.25];

pub fn c20(run: &Run) {
    // small curves, every pair of dates of the window
    let settles = [(2024, 1, 30), (2023, 12, 31), (2024, 2, 28), (2023, 4, 15)];
    let offs: &[i64] = &[0, 1, 2, 29, 31, 60, 181, 366, 731];
    let nmax = run.pick(3usize, 4);
    let probe: Vec<i64> = vec![0, 1, 2, 3, 15, 28, 29, 30, 31, 32, 59, 60, 61, 120, 181, 182, 300, 366, 367, 500, 731];
    let subsets: Vec<Vec<i64>> = (0u32..1 << offs.len()).filter(|m| (2..=nmax as u32).contains(&m.count_ones())).map(|m| (0..offs.len()).filter(|i| m >> i & 1 == 1).map(|i| offs[i]).collect()).collect();
    run.section("small", &format!("4 settlement dates x all {} ascending maturity lists of 2..={nmax} of 9 offsets x all yields from {YIELDS:?} x all pairs of {} dates x 3 day counts (and two written for the purpose) x 4 interpolators x f64, f32", subsets.len(), probe.len()), subsets.len() * settles.len(), |c, acc| {
        let s = num(settles[c / subsets.len()]);
        let mats: Vec<i64> = subsets[c % subsets.len()].iter().map(|o| s + o).collect();
        let pairs: Vec<(i64, i64)> = probe.iter().flat_map(|a| probe.iter().filter(move |b| *b >= a).map(move |b| (s + a, s + b))).collect();
        for k in 0..YIELDS.len().pow(mats.len() as u32) {
            let ys: Vec<f64> = (0..mats.len()).map(|i| YIELDS[k / YIELDS.len().pow(i as u32) % YIELDS.len()]).collect();
            check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
        }
        acc.sample(|| format!("settling {} with maturities {:?} days later", show(from_num(s)), subsets[c % subsets.len()]));
        Ok(())
    });
    // long curves, every date of their life
    let tenors: [&[i64]; 4] = [
        &[0, 1, 7, 30, 61, 91, 182, 273, 365, 547, 730, 1096, 1461, 1826, 2557, 3652, 5479, 7305, 9131, 10957],
        &[1, 92, 183, 366, 731, 1098, 1827, 2557, 3653, 5480, 7307, 10959],
        &[10, 20, 40, 80, 160, 320, 640, 1280, 2560, 5120],
        &[0, 3652, 3659, 3712, 5000, 10957],
    ];
    let step = run.pick(3, 1);
    let starts = run.pick(16, 32);
    run.section("long", &format!("{starts} settlement dates x 4 tenor lists up to 30 years x 3 yield shapes: every {step}th date from settlement to the end, from settlement, from its neighbour, across each quoted maturity"), 4 * starts, |c, acc| {
        let s = num([(2023, 10, 10), (2024, 2, 29), (2023, 1, 31), (1999, 12, 31), (2019, 8, 30), (2096, 3, 31), (2023, 3, 30), (2023, 3, 31)][c / 4 % 8]) + (c / 32) as i64 * 61;
        let off = tenors[c % 4];
        let mats: Vec<i64> = off.iter().map(|o| s + o).collect();
        let (first, last) = (mats[0], *mats.last().unwrap());
        let mut pairs = Vec::new();
        let mut d = s;
        while d <= last + 2 * step {
            pairs.extend([(s, d), (d, d), (d, d + 1), (d, d + 365), (d, last), (first, d), ((s + d) / 2, d)]);
            d += step;
        }
        for &m in &mats {
            for e in -1..=1 {
                pairs.extend([(s, m + e), (first, m + e), (m + e, last), (m, m + e.max(0))]);
            }
        }
        pairs.retain(|p| p.0 <= p.1 && p.0 >= s);
        for shape in 0..3 {
            let ys: Vec<f64> = (0..mats.len()).map(|i| [0.02 + 0.001 * i as f64, 0.05 - 0.002 * i as f64, [0.01, 0.04, -0.01][i % 3]][shape]).collect();
            check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
        }
        Ok(())
    });
    let offs: &[i64] = &[0, 1, 2, 29, 60, 181, 366, 731, 3653, 10_958];
    let nmax = run.pick(4usize, 6);
    let lists: Vec<Vec<i64>> = (0u32..1 << offs.len()).filter(|m| (2..=nmax as u32).contains(&m.count_ones())).map(|m| (0..offs.len()).filter(|i| m >> i & 1 == 1).map(|i| offs[i]).collect()).collect();
    run.section("model", &format!("4 settlement dates x all {} ascending maturity lists of 2..={nmax} of {} offsets up to 30 years x 8 yield shapes x pairs of dates at, beside and between the quotes x 3 day counts (and one written for the purpose) x 3 interpolators; expected: exp(t1 y1 - t2 y2) with yields from the reference model of the interpolation", lists.len(), offs.len()), 4 * lists.len(), |c, acc| {
        let s = num(settles[c / lists.len()]);
        let mats: Vec<i64> = lists[c % lists.len()].iter().map(|o| s + o).collect();
        let mut probe: Vec<i64> = mats.iter().flat_map(|m| [m - 1, *m, m + 1]).chain(mats.windows(2).flat_map(|w| [(w[0] + w[1]) / 2, (w[0] + 2 * w[1]) / 3])).chain([s]).collect();
        probe.sort();
        probe.dedup();
        let pairs: Vec<(i64, i64)> = probe.iter().flat_map(|&a| probe.iter().filter(move |b| **b >= a).map(move |&b| (a, b))).filter(|p| p.0 >= s).collect();
        for shape in 0..8 {
            let ys: Vec<f64> = (0..mats.len()).map(|i| [0.03, 0.02 + 0.01 * i as f64, 0.05 - 0.015 * i as f64, [0.01, 0.04, -0.01][i % 3], f64::from(u8::from(i == 0)) * 0.1, f64::from(u8::from(i == 1)) * 0.1, f64::from(u8::from(i + 1 == mats.len())) * 0.1, [0.0, 0.002, 0.05, 0.0501][i % 4]][shape]).collect();
            let case = Case { settle: s, mats: &mats, yields: &ys };
            macro_rules! go {
                ($($d:ident)*) => {$(
                    by_model::<$d, Linear<f64>>(acc, &case, Kind::Lin, &pairs)?;
                    by_model::<$d, NaturalCubic<f64>>(acc, &case, Kind::Natural, &pairs)?;
                    by_model::<$d, CatmullRom<f64>>(acc, &case, Kind::Catmull, &pairs)?;
                )*};
            }
            go! { Act360 Act365 Thirty360 Weekdays }
        }
        Ok(())
    });
    c20_more(run);
}

fn c20_more(run: &Run) {
    // yields of every size
    let wide = [0.0, 1e-9, -1e-4, 0.1, -0.3, 0.99, 1.0, 1.7, -2.0, 12.0];
    run.section("wide", &format!("3 maturities x all yields from {wide:?} x pairs of 9 dates x 3 day counts (and two written for the purpose) x 4 interpolators x f64, f32"), wide.len() * 3, |c, acc| {
        let s = num([(2024, 1, 31), (1823, 5, 17), (2399, 12, 30)][c / wide.len()]);
        let mats = [s, s + 40, s + 366];
        let probe = [0, 1, 20, 39, 40, 41, 200, 365, 366];
        let pairs: Vec<(i64, i64)> = probe.iter().flat_map(|a| probe.iter().filter(move |b| *b >= a).map(move |b| (s + a, s + b))).collect();
        for a in wide {
            for b in wide {
                check_all(acc, &Case { settle: s, mats: &mats, yields: &[wide[c % wide.len()], a, b] }, &pairs)?;
            }
        }
        Ok(())
    });
    // yields so high, or times so long, that the factor from settlement leaves the float types but factors between
    // later dates do not
    let steep = [0.5_f64, 3.0, -3.0, 12.0, -12.0, 11.9, 40.0, -40.0];
    run.section("steep", &format!("4 maturities up to 120 years x yields from {steep:?}, level and gently sloped x factors over 1 to 92 days at every 97th day and factors of about exp of 1 to 740, either sign, x 3 day counts (and two written for the purpose) x 4 interpolators x f64, f32"), steep.len() * 3, |c, acc| {
        let s = num([(2024, 1, 31), (1823, 5, 17), (2399, 12, 30)][c / steep.len()]);
        let y = steep[c % steep.len()];
        for mats in [[s + 1, s + 3653, s + 14_611, s + 43_830], [s, s + 400, s + 7305, s + 23_742]] {
            let mut pairs = Vec::new();
            let mut d = s;
            while d + 92 <= mats[3] {
                pairs.extend([0, 1, 3, 20, 92].map(|e| (d, d + e)));
                d += 97;
            }
            pairs.extend(mats.iter().flat_map(|&m| [(s, m), (m - 1, m), (m, m), (m, m + 1)]));
            // factors of every size the float types hold
            for e in [1, 3, 7, 10, 15, 20, 30, 36, 50, 60, 80, 87, 100, 103, 150, 200, 250, 300, 350, 400, 500, 600, 700, 707, 740] {
                let days = (f64::from(e) * 365.0 / y.abs()) as i64;
                pairs.extend([s, s + 1, s + 2, s + 40, s + 401, mats[1], mats[2]].map(|d| (d, d + days)));
            }
            pairs.retain(|p| p.0 >= s && p.1 <= mats[3] + 1);
            for ys in [[y; 4], [y, y * 1.01, y * 1.02, y * 1.01], [0.0, y / 50.0, y, y]] {
                check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
            }
        }
        Ok(())
    });
    // curves that span up to the whole supported range
    let begins: Vec<i64> = [(2024, 1, 31), (1823, 5, 17), (1, 1, 1), (-4712, 2, 29)].map(num).into_iter().chain([num(FIRST), num(FIRST) + 59]).collect();
    let spans: Vec<i64> = (5..=27).map(|k| 1i64 << k).chain((2..=8).flat_map(|k| [36_525, 36_600].map(|c| c * 10i64.pow(k) / 100))).collect();
    run.section("ages", &format!("{} settlement dates from the first of the supported range on x {} curves of 2 to 6 quotes spanning up to 367 000 years x 3 yield shapes: at, before and after every power of two and of ten of days, from settlement, from half-way and from the day before", begins.len(), spans.len()), begins.len() * spans.len(), |c, acc| {
        let s = begins[c / spans.len()];
        let span = spans[c % spans.len()].min(num(LAST) - 2 - s);
        let years = span as f64 / 360.0;
        let marks: Vec<i64> = (0..28).map(|k| 1i64 << k).chain((0..9).map(|k| 10i64.pow(k))).chain([7305, 36_525, 73_049, 73_050, 90_000, 109_575, 182_621, 365_243, 3_652_425]).filter(|m| *m <= span + 1).collect();
        for (n, shape) in [(2, 0), (3, 1), (4, 2), (6, 3), (6, 0)] {
            let mats: Vec<i64> = (0..n).map(|i| s + if n == 6 { span >> (4 * (5 - i)) } else { span * i / (n - 1) }).collect();
            if mats.windows(2).any(|w| w[1] - w[0] < 3) {
                continue;
            }
            let mut pairs = Vec::new();
            for m in marks.iter().copied().chain(mats.iter().map(|m| m - s)).chain([span / 3]) {
                for d in [s + m - 1, s + m, s + m + 1] {
                    pairs.extend([(s, d), (d - 1, d), (s + m / 2, d), (d, d), (d, s + span)]);
                }
            }
            pairs.retain(|p| p.0 <= p.1 && p.0 >= s && p.1 <= num(LAST));
            let top = (2.0 / years).min(0.5);
            let ys: Vec<f64> = (0..n as usize).map(|i| top * match shape { 0 => 1.0 / (1 + i) as f64, 1 => -0.5 - 0.25 * i as f64, 2 => (i + 1) as f64 / 4.0, _ => [1.0, 0.5, -0.25][i % 3] }).collect();
            check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
        }
        acc.outcome(&span);
        Ok(())
    });
    // as many quotes as a curve may have
    let sizes: Vec<usize> = run.pick((20..=130).chain([200, 255, 256, 257, 365, 366, 500, 512, 513, 1000]).collect(), (20..=400).chain([500, 512, 513, 1000, 1023, 1024, 1025, 2000]).collect());
    run.section("many-quotes", &format!("{} numbers of quotes from {} to {}, daily, weekly and quarterly x 2 yield shapes: at, before and after every quoted maturity, from settlement and from earlier quotes", sizes.len(), sizes[0], sizes[sizes.len() - 1]), sizes.len() * 3, |c, acc| {
        let n = sizes[sizes.len() - 1 - c / 3];
        let s = num([(2024, 1, 31), (2023, 12, 30), (1999, 2, 28)][c % 3]);
        // 30/360 sees the 30th and the 31st as one day: daily quotes leave the 31st out
        let mats: Vec<i64> = match c % 3 {
            0 => (s..).filter(|&d| d == s || (from_num(d).2 != 31 && d > s + 1)).take(n).collect(),
            1 => (0..n as i64).map(|i| s + 7 * i).filter(|&d| from_num(d).2 != 31).collect(),
            _ => (0..n as i64).map(|i| s + 91 * i + 1).collect(),
        };
        let mut pairs = Vec::new();
        for (i, &m) in mats.iter().enumerate() {
            for e in -1..=1 {
                pairs.extend([(s, m + e), (mats[i / 2], m + e), (m.saturating_sub(60), m + e), (m + e, m + e + 20)]);
            }
        }
        pairs.retain(|p| p.0 <= p.1 && p.0 >= s);
        for shape in 0..2 {
            let ys: Vec<f64> = (0..mats.len()).map(|i| [0.03 + 0.0001 * (i % 50) as f64, [0.02, 0.021, 0.019, 0.02][i % 4]][shape]).collect();
            check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
        }
        acc.outcome(&(n, c % 3));
        Ok(())
    });
}

/// The same formula with yields from the reference model of the interpolation instead of the library's interpolator.
fn by_model<D: Dc, I: Ip<f64>>(acc: &mut Acc, c: &Case, k: Kind, pairs: &[(i64, i64)]) -> R {
    let Some(times) = c.mats.iter().map(|&m| D::days(c.settle, m)).collect::<Option<Vec<i64>>>() else { return Ok(()) };
    if times.len() < I::NEED || times.windows(2).any(|w| w[0] >= w[1]) {
        return Ok(());
    }
    let op = || c.show(D::NAME, I::NAME, "f64");
    acc.at(op);
    acc.states += 1;
    let time = |t: i64| t as f64 / D::DEN as f64;
    let pts: Vec<(f64, f64, f64)> = times.iter().zip(c.yields).map(|(&t, &y)| (time(t), y, 0.0)).collect();
    let m = Model::<f64>::new(k, &pts);
    let n = times.len();
    let dates: Vec<Date> = c.mats.iter().map(|&d| mk(d)).collect();
    let curve = match guard(|| kind(YieldCurve::<D, I>::new(mk(c.settle), &dates, c.yields))) {
        Ok(Ok(c)) => c,
        other => return bad(op(), "a curve", format!("{:?}", other.map(|r| r.err()))),
    };
    let two: Vec<(f64, f64)> = pts.iter().map(|p| (p.0, p.1)).collect();
    let Some(own) = I::oracle(&two) else { return bad(op(), "an interpolator that fits these points", "it refuses them") };
    let at = |t: i64| {
        let i = times.partition_point(|&u| u <= t).clamp(1, n - 1) - 1;
        // what a Catmull-Rom curve should be on its last segment is C18's business (a recorded finding)
        let y = if k == Kind::Catmull && i + 2 == n { own(time(t)).unwrap_or(f64::NAN) } else { m.value(i, time(t)) };
        (time(t) * y, time(t) * m.scale(i))
    };
    for &(a, b) in pairs {
        let (Some(t1), Some(t2)) = (D::days(c.settle, a), D::days(c.settle, b)) else { continue };
        let inside = |t: i64| (times[0]..=times[n - 1]).contains(&t);
        if !inside(t2) || (a != c.settle && !inside(t1)) {
            continue;
        }
        let ((f1, s1), (f2, s2)) = (if a == c.settle { (0.0, 0.0) } else { at(t1) }, at(t2));
        if (f1 - f2).abs() > 600.0 {
            continue;
        }
        acc.traces += 1;
        acc.transitions += 1;
        let want = (f1 - f2).exp();
        acc.outcome(&(a == c.settle, a == b, n));
        match guard(|| kind(curve.discount_factor(mk(a), mk(b)))) {
            Ok(Ok(v)) if (v - want).abs() <= want * 1e-9 * (1.0 + s1 + s2) => {}
            g => return bad(format!("{}\ndiscount factor from {} to {}", op(), show(from_num(a)), show(from_num(b))), format!("{want:?} = exp({f1:?} - {f2:?}), yields from the model of the interpolation"), format!("{g:?}")),
        }
    }
    Ok(())
}

/// Only whether requests are answered: for yields whose factors leave the float types.
fn answered<V: Fl, D: Dc, I: Ip<V>>(acc: &mut Acc, c: &Case, pairs: &[(i64, i64)]) -> R {
    let Some(times) = c.mats.iter().map(|&m| D::days(c.settle, m)).collect::<Option<Vec<i64>>>() else { return Ok(()) };
    if times.len() < I::NEED || times.windows(2).any(|w| w[0] >= w[1]) {
        return Ok(());
    }
    let op = || c.show(D::NAME, I::NAME, V::NAME);
    acc.at(op);
    acc.states += 1;
    let dates: Vec<Date> = c.mats.iter().map(|&d| mk(d)).collect();
    let ys: Vec<V> = c.yields.iter().map(|&y| V::from_f64(if V::NAME == "f32" { y.clamp(-3e38, 3e38) } else { y }).unwrap()).collect();
    let curve = match guard(|| kind(YieldCurve::<D, I>::new(mk(c.settle), &dates, &ys))) {
        Ok(Ok(c)) => c,
        other => return bad(op(), "a curve", format!("{:?}", other.map(|r| r.err()))),
    };
    for &(a, b) in pairs {
        acc.traces += 1;
        acc.transitions += 1;
        let got = guard(|| kind(curve.discount_factor(mk(a), mk(b))));
        let outside = |d: i64| D::days(c.settle, d).is_none_or(|t| t < times[0] || t > times[times.len() - 1]);
        let want = if b < a || a < c.settle {
            Some(E::Invalid)
        } else if outside(b) || (a != c.settle && outside(a)) {
            Some(E::Interp)
        } else {
            None
        };
        match (want, got) {
            (None, Ok(Ok(_))) => {}
            (Some(w), Ok(Err(e))) if e == w => {}
            // an empty interval may be answered without looking at the curve
            (Some(E::Interp), Ok(Ok(v))) if a == b && v.f() == 1.0 => {}
            (w, g) => return bad(format!("{}\ndiscount factor from {} to {}", op(), show(from_num(a)), show(from_num(b))), w.map_or("a number".to_string(), |e| format!("an error: {e:?}")), format!("{g:?}")),
        }
    }
    Ok(())
}

pub fn c21(run: &Run) {
    let settles = [(2024, 1, 30), (2023, 2, 27)];
    let offs: [i64; 6] = [-2, 0, 1, 2, 4, 33];
    let nmax = run.pick(5usize, 6);
    let probe: Vec<i64> = vec![-3, -1, 0, 1, 2, 3, 4, 5, 33, 34];
    run.section("all-lists", &format!("2 settlement dates x all maturity lists of length 0..={nmax} over 6 dates (before, at and after settlement, repeated, unordered) x all pairs of {} dates x 3 day counts (and two written for the purpose) x 4 interpolators x f64, f32", probe.len()), 2 * 36, |c, acc| {
        let s = num(settles[c / 36]);
        let pairs: Vec<(i64, i64)> = probe.iter().flat_map(|a| probe.iter().map(move |b| (s + a, s + b))).collect();
        let head = [c % 6, c % 36 / 6];
        let mut lists: Vec<Vec<usize>> = Vec::new();
        if c % 36 == 0 {
            lists.push(vec![]);
        }
        if c % 36 < 6 {
            lists.push(vec![c % 6]);
        }
        let mut level = vec![head.to_vec()];
        for _ in 2..=nmax {
            lists.extend(level.iter().cloned());
            level = level.iter().flat_map(|l| (0..6).map(move |x| [l.clone(), vec![x]].concat())).collect();
        }
        for l in &lists {
            let mats: Vec<i64> = l.iter().map(|&i| s + offs[i]).collect();
            let ys: Vec<f64> = (0..l.len()).map(|i| [0.01, 0.03, 0.02, -0.01, 0.05, 0.04][i]).collect();
            check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
        }
        acc.sample(|| format!("maturity lists that start {:?} days after settlement", [offs[head[0]], offs[head[1]]]));
        Ok(())
    });
    run.section("lengths", "all numbers of maturities 0..=7 x all numbers of yields 0..=7, ascending and descending maturities", 8, |n, acc| {
        let s = num((2024, 1, 30));
        for k in 0..=7usize {
            for dir in [1i64, -1] {
                let mats: Vec<i64> = (0..n as i64).map(|i| s + if dir > 0 { 10 * i } else { 80 - 10 * i }).collect();
                let ys = vec![0.02; k];
                check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &[(s, s), (s, s + 5), (s + 10, s + 20), (s + 5, s + 90)])?;
            }
        }
        Ok(())
    });
    let w = run.pick(130i64, 400);
    run.section("requests", &format!("well-formed curves x every pair of dates from {w} days before settlement to {w} days after the last maturity"), 6, |c, acc| {
        let s = num([(2024, 1, 31), (2023, 2, 28), (2023, 12, 30), (2024, 2, 29), (1900, 2, 28), (2100, 3, 1)][c]);
        let mats: Vec<i64> = [0, 3, 29, 30, 31, 62].iter().map(|o| s + o).collect();
        let late: Vec<i64> = mats[1..].to_vec();
        let ys = [0.01, 0.02, 0.03, 0.02, 0.04, 0.01];
        let span: Vec<i64> = (s - w..=s + 62 + w).collect();
        let pairs: Vec<(i64, i64)> = span.iter().flat_map(|a| span.iter().map(move |b| (*a, *b))).collect();
        check_all(acc, &Case { settle: s, mats: &mats, yields: &ys }, &pairs)?;
        check_all(acc, &Case { settle: s, mats: &late, yields: &ys[1..] }, &pairs)
    });
    let sizes = [0.0, -0.0, 5e-324, -1e-308, 1e-30, -0.999, 1.0, -1.0, 7.5, -40.0, 1e3, -1e10, 1e38, 1e300, f64::MAX, f64::MIN];
    run.section("yields", &format!("curves of 2 to {} quotes x all yields from {sizes:?} x all pairs of 10 dates x 3 day counts x 4 interpolators x f64, f32: the curve is built, and requests are answered with a number or refused with the right kind of error", run.pick(3, 4)), sizes.len() * 3, |c, acc| {
        let s = num([(2024, 1, 30), (2023, 2, 27), (1999, 12, 31)][c % 3]);
        let offs = [0, 2, 40, 800];
        let probe: Vec<i64> = [-1, 0, 1, 2, 3, 39, 40, 41, 800, 801].iter().map(|o| s + o).collect();
        let pairs: Vec<(i64, i64)> = probe.iter().flat_map(|a| probe.iter().map(move |b| (*a, *b))).collect();
        for n in 2..=run.pick(3usize, 4) {
            for at in 0..=offs.len() - n {
                let mats: Vec<i64> = offs[at..at + n].iter().map(|o| s + o).collect();
                for k in 0..sizes.len().pow(n as u32 - 1) {
                    let ys: Vec<f64> = (0..n).map(|i| if i == 0 { sizes[c / 3] } else { sizes[k / sizes.len().pow(i as u32 - 1) % sizes.len()] }).collect();
                    let case = Case { settle: s, mats: &mats, yields: &ys };
                    macro_rules! go {
                        ($($d:ident)*) => {$(
                            answered::<f64, $d, Linear<f64>>(acc, &case, &pairs)?;
                            answered::<f64, $d, NaturalCubic<f64>>(acc, &case, &pairs)?;
                            answered::<f64, $d, CatmullRom<f64>>(acc, &case, &pairs)?;
                            answered::<f64, $d, Steps<f64>>(acc, &case, &pairs)?;
                            answered::<f32, $d, Linear<f32>>(acc, &case, &pairs)?;
                            answered::<f32, $d, NaturalCubic<f32>>(acc, &case, &pairs)?;
                        )*};
                    }
                    go!(Act360 Act365 Thirty360);
                }
            }
        }
        acc.outcome(&c);
        Ok(())
    });
    run.section("range-ends", "curves and requests at both ends of the supported date range", 2, |c, acc| {
        let (f, l) = (num(FIRST), num(LAST));
        let (s, mats): (i64, Vec<i64>) = if c == 0 { (f, vec![f, f + 1, f + 400, l]) } else { (l - 90, vec![l - 90, l - 31, l - 1, l]) };
        let days: Vec<i64> = vec![f, f + 1, f + 30, f + 31, 0, l - 90, l - 89, l - 31, l - 30, l - 1, l];
        let pairs: Vec<(i64, i64)> = days.iter().flat_map(|a| days.iter().map(move |b| (*a, *b))).collect();
        macro_rules! go {
            ($($d:ident)*) => {$(
                check::<f64, $d, Linear<f64>>(acc, &Case { settle: s, mats: &mats, yields: &[1e-9, 2e-9, 3e-9, 1e-9] }, &pairs, 1e-9)?;
                check::<f64, $d, Steps<f64>>(acc, &Case { settle: s, mats: &mats, yields: &[1e-9, 2e-9, 3e-9, 1e-9] }, &pairs, 1e-9)?;
                check::<f32, $d, Steps<f32>>(acc, &Case { settle: s, mats: &mats, yields: &[1e-9, 2e-9, 3e-9, 1e-9] }, &pairs, 1e-4)?;
            )*};
        }
        go!(Act360 Act365 Thirty360);
        Ok(())
    });
}
