//! C26: the environment of a computation (number type, day count, interpolator, period) fails at any step.
use crate::bonds::{months, read, schedule, sums, Terms};
use crate::civil::{num, show, from_num, FIRST, LAST};
use crate::curve::{Dc, Steps};
use crate::dates::{check_roll, mk, ymd, Env, Fast};
use crate::engine::{bad, guard, Acc, Run, R};
use crate::rat::{refusing, Rat};
use qlab_error::{ComputeError, InterpolationError as IE, QLabError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use qlab_time::period::Period;
use std::cell::RefCell;

#[derive(Clone, PartialEq, Debug)]
enum Got<T> {
    Is(T),
    Invalid(String),
    Cast,
    Zero,
    Interp,
    Panic(String),
}
use Got::{Cast, Interp, Invalid, Is, Panic, Zero};

fn got<T>(f: impl FnOnce() -> QLabResult<T>) -> Got<T> {
    match guard(f) {
        Ok(Ok(v)) => Is(v),
        Ok(Err(QLabError::ComputeError(ComputeError::InvalidInput(m)))) => Invalid(m.to_string()),
        Ok(Err(QLabError::ComputeError(ComputeError::CastNumberError(_)))) => Cast,
        Ok(Err(QLabError::ComputeError(ComputeError::ZeroDivisionError))) => Zero,
        Ok(Err(QLabError::ComputeError(ComputeError::InterpolationError))) => Interp,
        Err(p) => Panic(p),
    }
}
impl<T> Got<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> Got<U> {
        match self {
            Is(v) => Is(f(v)),
            Invalid(m) => Invalid(m),
            Cast => Cast,
            Zero => Zero,
            Interp => Interp,
            Panic(p) => Panic(p),
        }
    }
    fn is_invalid(&self) -> bool {
        matches!(self, Invalid(_))
    }
}

// ------------------------------------------------------------------------------ conversions of the number type
fn fraction<D: Dc>(acc: &mut Acc, a: i64, b: i64, mask: u64) -> R {
    let (r, _, no) = refusing(mask, || got(|| D::calculate_day_count_fraction::<Rat>(mk(a), mk(b))));
    acc.traces += 1;
    let want = D::days(a, b).map(|n| Rat::int(n) / Rat::int(D::DEN));
    let usual = match want {
        Some(w) => r == Is(w),
        None => r.is_invalid(),
    };
    acc.outcome(&(no, std::mem::discriminant(&r)));
    if usual || no > 0 && r == Cast {
        return Ok(());
    }
    bad(
        format!("{} from {} to {}; conversions refused: {no} (bits {mask:b} of those asked for)", D::NAME, show(from_num(a)), show(from_num(b))),
        if no > 0 { "a cast error, or the fraction without the number refused" } else { "the fraction" },
        format!("{r:?}"),
    )
}

fn bonds(quick: bool) -> Vec<Terms> {
    let mut v = Vec::new();
    for first in [(2024, 1, 31), (2024, 2, 29), (2023, 8, 15), (2025, 3, 1), (2024, 6, 30), (2023, 12, 30)].into_iter().map(num).take(if quick { 4 } else { 6 }) {
        for k in 0..4 {
            let penult = months(first, 6 * k);
            for issue in [months(first, -6), months(first, -9), months(first, -2), months(first, -12)] {
                for mat in [months(penult, 6), months(penult, 8), months(penult, 1), months(penult, 12)] {
                    v.push(Terms { issue, first, penult, mat, rate: Rat::new(3, 100), face: Rat::int(100) });
                }
            }
        }
    }
    v
}

fn bond(acc: &mut Acc, t: &Terms) -> R {
    let value = |b: &Bond<Rat>| read::<Rat, Act365>(b, t.issue, None);
    let usual = sums(schedule(t).iter());
    let run = |mask: u64| refusing(mask, || guard(|| t.real::<Rat>()));
    let (_, n, _) = run(0);
    acc.states += 1;
    let n = n.min(40);
    let masks = (0..n).flat_map(|i| (i..n).map(move |j| 1u64 << i | 1u64 << j)).chain([0, u64::MAX]);
    for mask in masks {
        let (b, _, no) = run(mask);
        acc.traces += 1;
        acc.transitions += 1;
        acc.at(|| format!("{} conversions {mask:b} refused", t.show()));
        acc.outcome(&(no, matches!(b, Ok(Some(_)))));
        let ok = match &b {
            Err(_) => false,
            Ok(None) => no > 0,
            Ok(Some(b)) => value(b).is_ok_and(|v| v.is_ok_and(|v| usual.contains(&v))),
        };
        if !ok {
            return bad(
                format!("{}; conversions refused: {no} (bits {mask:b} of {n})", t.show()),
                if no > 0 { "no bond, or the usual payments" } else { "the usual payments" },
                match b {
                    Err(e) => e,
                    Ok(None) => "no bond".into(),
                    Ok(Some(b)) => format!("a bond with payments of {:?}, usual {usual:?}", value(&b)),
                },
            );
        }
    }
    Ok(())
}

fn converted_curve<D: Dc>(acc: &mut Acc, settle: i64, mats: &[i64], asks: &[(i64, i64)], most: u64) -> R {
    let dates: Vec<Date> = mats.iter().map(|&m| mk(m)).collect();
    let ys: Vec<Rat> = (0..mats.len()).map(|i| Rat::new(1 + i as i128, 64)).collect();
    let new = |mask| refusing(mask, || got(|| YieldCurve::<D, Steps<Rat>>::new(mk(settle), &dates, &ys)));
    let txt = || format!("{} curve settling {} with quotes at {}", D::NAME, show(from_num(settle)), mats.iter().map(|&m| show(from_num(m))).collect::<Vec<_>>().join(", "));
    acc.states += 1;
    let time = |n: i64| D::days(settle, n).unwrap() as f64 / D::DEN as f64;
    let rate = |n: i64| (0..mats.len()).rev().find(|&i| mats[i] <= n).map(|i| (1 + i) as f64 / 64.0).unwrap();
    let (_, n, _) = new(0);
    let mut whole = None;
    for mask in (0..1u64 << n.min(12)).filter(|m: &u64| u64::from(m.count_ones()) <= most) {
        let (c, _, no) = new(mask);
        acc.traces += 1;
        acc.transitions += 1;
        acc.at(|| format!("{} conversions {mask:b} refused", txt()));
        let tell = c.clone_kind();
        acc.outcome(&(no, tell.clone()));
        match c {
            Is(c) => {
                // what was built under refusals must be the usual curve
                for &(a, b) in asks {
                    let want = (time(a) * rate(a) - time(b) * rate(b)).exp();
                    let v = got(|| c.discount_factor(mk(a), mk(b)));
                    if !matches!(v, Is(v) if (v.f() - want).abs() < 1e-9 * want) {
                        return bad(format!("{}; conversions refused: {no} (bits {mask:b}); factor from {} to {}", txt(), show(from_num(a)), show(from_num(b))), format!("{want}"), format!("{v:?}"));
                    }
                }
                whole = Some(c);
            }
            Cast if no > 0 => {}
            _ => return bad(format!("build {}; conversions refused: {no} (bits {mask:b})", txt()), "a cast error, or the curve", tell),
        }
    }
    let Some(c) = whole else { return Ok(()) };
    for &(a, b) in asks {
        let want = (time(a) * rate(a) - time(b) * rate(b)).exp();
        for mask in 0..16u64 {
            for (mask, again) in [(mask, false), (0, true)] {
                let (v, _, no) = refusing(mask, || got(|| c.discount_factor(mk(a), mk(b))));
                acc.traces += 1;
                acc.transitions += 1;
                let usual = matches!(v, Is(v) if (v.f() - want).abs() < 1e-9 * want);
                acc.outcome(&(no, usual));
                if !usual && !(no > 0 && v == Cast) {
                    return bad(
                        format!("{}; factor from {} to {}; conversions refused: {no} (bits {mask:b}){}", txt(), show(from_num(a)), show(from_num(b)), if again { ", after a refusal" } else { "" }),
                        if no > 0 { format!("a cast error, or {want}") } else { format!("{want}") },
                        format!("{v:?}"),
                    );
                }
            }
        }
    }
    Ok(())
}
impl<T> Got<T> {
    fn clone_kind(&self) -> String {
        match self {
            Is(_) => "a result".into(),
            Invalid(m) => format!("invalid input: {m}"),
            Cast => "a cast error".into(),
            Zero => "a zero division error".into(),
            Interp => "an interpolation error".into(),
            Panic(p) => p.clone(),
        }
    }
}

// -------------------------------------------------------------------- a day count and an interpolator that refuse
thread_local! {
    static NO: RefCell<(Vec<i64>, usize)> = const { RefCell::new((Vec::new(), 0)) };
}
/// From here on the named days are refused in manner `how`: by the day count, as second date, below HOWS, by the
/// interpolator, as time, from there on.
fn refuse(days: &[i64], how: usize) {
    NO.with(|n| *n.borrow_mut() = (days.to_vec(), how));
}
fn refuses(day: i64, who: usize) -> Option<usize> {
    NO.with(|n| (n.borrow().0.contains(&day) && n.borrow().1 / HOWS == who).then(|| n.borrow().1 % HOWS))
}

/// Time in hundreds of days from the first to the second date, but some dates are refused.
#[derive(Copy, Clone)]
struct Fussy;
impl DayCount for Fussy {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let (x, y) = (num(ymd(a)), num(ymd(b)));
        match refuses(y, 0) {
            Some(0) => Err(ComputeError::InvalidInput(format!("day {y} refused").into()).into()),
            Some(1) => Err(ComputeError::CastNumberError("x".into()).into()),
            Some(2) => Err(ComputeError::ZeroDivisionError.into()),
            Some(_) => Err(QLabError::from(IE::<V>::PointOrderError)),
            None => Ok(V::from_i64(y - x).unwrap() / V::from_i64(100).unwrap()),
        }
    }
}
const HOWS: usize = 4;
fn is_how<T>(g: &Got<T>, how: usize, days: &[i64]) -> bool {
    match (g, how) {
        (Invalid(m), 0) => days.iter().any(|y| *m == format!("day {y} refused")),
        (Cast, 1) | (Zero, 2) | (Interp, 3) => true,
        _ => false,
    }
}

/// A tenth at every time, but a refused fit or refused times (hundreds of days counted from day `origin`).
#[derive(Default)]
struct Moody {
    origin: f64,
}
const ORIGIN: i64 = 739_000;
impl Interpolator for Moody {
    type Value = f64;
    fn try_fit(self, p: &[(f64, f64)]) -> Result<Self, IE<f64>> {
        match refuses(-1, 1) {
            Some(0) => Err(IE::PointOrderError),
            Some(1) => Err(IE::InsufficientPointsError(p.len())),
            Some(2) => Err(IE::OutOfLowerBound(0.0)),
            Some(_) => Err(IE::OutOfUpperBound(0.0)),
            None => Ok(Moody { origin: ORIGIN as f64 }),
        }
    }
    fn try_value(&self, x: f64) -> Result<f64, IE<f64>> {
        let day = (x * 100.0 + self.origin).round() as i64;
        match refuses(day, 1) {
            Some(0) => Err(IE::OutOfLowerBound(x)),
            Some(1) => Err(IE::OutOfUpperBound(x)),
            Some(2) => Err(IE::PointOrderError),
            Some(_) => Err(IE::InsufficientPointsError(0)),
            None => Ok(0.1 + 0.01 * x),
        }
    }
}
fn yield_at(d: i64) -> f64 {
    let t = (d - ORIGIN) as f64 / 100.0;
    t * (0.1 + 0.01 * t)
}
fn subset(days: &[i64], mask: u64) -> Vec<i64> {
    (0..days.len()).filter(|i| mask >> i & 1 == 1).map(|i| days[i]).collect()
}
fn list(days: &[i64]) -> String {
    days.iter().map(|&d| show(from_num(d))).collect::<Vec<_>>().join(", ")
}

pub fn c26(run: &Run) {
    let window: Vec<i64> = (0..run.pick(140, 400)).map(|i| num((2024, 1, 20)) + i).chain([(1900, 2, 28), (2000, 2, 29), (2023, 12, 31), (2100, 3, 1), (2199, 12, 31), (-5, 1, 31)].map(num)).chain([FIRST, LAST].map(num)).collect();
    run.section(
        "day-counts",
        &format!("all ordered pairs of {} dates x 3 conventions x all 32 subsets of the first five conversions refused by the number type", window.len()),
        window.len(),
        |c, acc| {
            for &b in &window {
                acc.states += 1;
                acc.transitions += 96;
                acc.at(|| format!("from {} to {}", show(from_num(window[c])), show(from_num(b))));
                for mask in 0..32 {
                    fraction::<Act360>(acc, window[c], b, mask)?;
                    fraction::<Act365>(acc, window[c], b, mask)?;
                    fraction::<Thirty360>(acc, window[c], b, mask)?;
                }
            }
            Ok(())
        },
    );
    let all = bonds(false);
    run.section(
        "bonds",
        &format!("{} bonds (first and last coupons regular, short, long and longer; 1 to 4 regular coupons) x any one or two conversions, or all, refused by the number type", all.len()),
        all.len(),
        |c, acc| {
            acc.sample(|| all[c].show());
            bond(acc, &all[c])
        },
    );
    let settles: Vec<i64> = [(2024, 2, 28), (2023, 12, 31), (2000, 1, 1)].map(num).to_vec();
    let lists: Vec<Vec<i64>> = (2..=run.pick(6, 7)).flat_map(|n| [(0, 31), (0, 365), (0, 10)].map(|(a, s)| (0..n as i64).map(|i| a + s * i).collect())).collect();
    run.section(
        "curves",
        &format!("{} settlement days x {} maturity lists x 3 day counts x up to {} conversions refused while the curve is built, all subsets of four while it is asked for factors between any two of its days, each followed by the request without refusals", settles.len(), lists.len(), run.pick(3, 5)),
        settles.len() * lists.len(),
        |c, acc| {
            let s = settles[c / lists.len()];
            let mats: Vec<i64> = lists[c % lists.len()].iter().map(|d| s + d).collect();
            let days: Vec<i64> = mats.iter().flat_map(|&m| [m, m + 1]).filter(|d| *d <= mats[mats.len() - 1]).collect();
            let asks: Vec<(i64, i64)> = days.iter().flat_map(|&a| days.iter().map(move |&b| (a, b))).filter(|p| p.0 <= p.1).collect();
            // 30/360 may count no days between some dates; those lists are refused for their order
            converted_curve::<Act360>(acc, s, &mats, &asks, run.pick(3, 5))?;
            converted_curve::<Act365>(acc, s, &mats, &asks, run.pick(3, 5))?;
            converted_curve::<Thirty360>(acc, s, &mats, &asks, run.pick(3, 5))
        },
    );
    // ------------------------------------------------------------------------------------ day counts that refuse
    let n = run.pick(8usize, 11);
    run.section(
        "day-count-refuses",
        &format!("curves with 1 to {n} quotes: all sets of maturities whose time the day count refuses, in {HOWS} manners; then all sets of refused days among {n} x all pairs of requests, and the requests again without refusals"),
        n * HOWS,
        |c, acc| {
            let (k, how) = (1 + c / HOWS, c % HOWS);
            let s = ORIGIN;
            let mats: Vec<i64> = (0..k as i64).map(|i| s + 30 * i).collect();
            let dates: Vec<Date> = mats.iter().map(|&m| mk(m)).collect();
            let ys = vec![0.05; k];
            let new = || got(|| YieldCurve::<Fussy, Moody>::new(mk(s), &dates, &ys));
            for mask in 0..1u64 << k {
                let no = subset(&mats, mask);
                refuse(&no, how);
                let g = new();
                refuse(&[], 0);
                acc.states += 1;
                acc.traces += 1;
                acc.transitions += 1;
                acc.at(|| format!("build, refused {no:?}"));
                let ok = if mask == 0 { matches!(g, Is(_)) } else { is_how(&g, how, &no) };
                acc.outcome(&(how, g.clone_kind()));
                if !ok {
                    return bad(format!("curve settling {} with quotes at {}; times refused (manner {how}) for {}", show(from_num(s)), list(&mats), list(&no)), if mask == 0 { "a curve" } else { "the error of the day count" }, g.clone_kind());
                }
            }
            let Is(curve) = new() else { return bad("a curve", "a curve", "none") };
            for mask in 0..1u64 << k {
                let no = subset(&mats, mask);
                for &a in &mats {
                    for &b in mats.iter().filter(|&&b| b >= a) {
                        for times in [&no[..], &[]] {
                            refuse(times, how);
                            let g = got(|| curve.discount_factor(mk(a), mk(b)));
                            refuse(&[], 0);
                            acc.states += 1;
                            acc.traces += 1;
                            acc.transitions += 1;
                            acc.at(|| format!("factor, refused {times:?}"));
                            let want = (yield_at(a) - yield_at(b)).exp();
                            let right = matches!(g, Is(v) if (v - want).abs() < 1e-9);
                            let must = times.contains(&b) || times.contains(&a) && a != s;
                            let err = is_how(&g, how, times);
                            acc.outcome(&(how, must, g.clone_kind()));
                            let may = times.contains(&a) && a == s || a == b;
                            if !(if must { err } else { right } || may && (err && !times.is_empty() || right)) {
                                return bad(
                                    format!("curve settling {}; times refused (manner {how}) for {}; factor from {} to {}", show(from_num(s)), list(times), show(from_num(a)), show(from_num(b))),
                                    if must { "the error of the day count".into() } else { format!("{want}") },
                                    format!("{g:?}"),
                                );
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // -------------------------------------------------------------------------------- interpolators that refuse
    let counts: Vec<usize> = (1..=run.pick(11usize, 15)).collect();
    for (who, name, what) in [(HOWS, "interpolator-refuses", "interpolator refuses, in 4 manners, the fit, or"), (0, "valuation-day-count-refuses", "day count refuses, in 4 manners, the times of")] {
    run.section(
        name,
        &format!("bonds with 2 to {} payments valued at 5 days on curves whose {what} any set of payment days and the valuation day", counts.len() + 1),
        counts.len() * HOWS,
        |c, acc| {
            let (k, how) = (counts[c / HOWS], c % HOWS);
            let s = ORIGIN;
            refuse(&[-1], HOWS + how);
            let g = got(|| YieldCurve::<Fussy, Moody>::new(mk(s), &[mk(s), mk(s + 9)], &[0.1, 0.1]));
            refuse(&[], 0);
            acc.traces += 1;
            acc.states += 1;
            if g.clone_kind() != "an interpolation error" {
                return bad(format!("a curve whose interpolator refuses the fit (manner {how})"), "an interpolation error", g.clone_kind());
            }
            let Is(curve) = got(|| YieldCurve::<Fussy, Moody>::new(mk(s), &[mk(s), mk(s + 9)], &[0.1, 0.1])) else { return bad("the fit again, not refused", "a curve", "none") };
            let first = months(s, 5);
            let t = Terms { issue: months(first, -6), first, penult: months(first, 6 * (k as i64 - 1)), mat: months(first, 6 * k as i64), rate: Rat::new(3, 100), face: Rat::int(100) };
            let b: Bond<f64> = match guard(|| Bond::new("b", mk(t.issue), mk(t.first), mk(t.penult), mk(t.mat), Frequency::SA, 0.03, 100.0)) {
                Ok(Some(b)) => b,
                e => return bad(t.show(), "a bond", format!("{:?}", e.map(|b| b.is_some()))),
            };
            let flows = schedule(&t);
            let pays: Vec<i64> = flows.iter().map(|f| f.pay).collect();
            let mut days = pays.clone();
            days.push(0);
            for at in [s, s + 1, first, months(first, 6), t.mat - 1] {
                *days.last_mut().unwrap() = at;
                for mask in 0..1u64 << days.len() {
                    let no = subset(&days, mask);
                    for times in [&no[..], &[]] {
                        refuse(times, who + how);
                        let g = got(|| b.discounted_value(mk(at), &curve));
                        refuse(&[], 0);
                        acc.states += 1;
                        acc.traces += 1;
                        acc.transitions += 1;
                        acc.at(|| format!("{} at {}: refused {times:?}", t.show(), show(from_num(at))));
                        let left: Vec<_> = flows.iter().filter(|f| f.due > at).collect();
                        let want: f64 = left.iter().map(|f| f.amounts[0].f() * (yield_at(at) - yield_at(f.pay)).exp()).sum();
                        let right = matches!(g, Is(v) if (v - want).abs() < 1e-9 * (1.0 + want));
                        let must = left.iter().any(|f| times.contains(&f.pay)) || times.contains(&at) && at != s && !left.is_empty();
                        let may = times.contains(&at);
                        let err = if who == HOWS { g == Interp } else { is_how(&g, how, times) };
                        acc.outcome(&(how, must, g.clone_kind()));
                        if !(if must { err } else { right || may && err }) {
                            return bad(
                                format!("{} valued at {}; the {what} {} (manner {how})", t.show(), show(from_num(at)), list(times)),
                                if must { "an error of that kind".into() } else { format!("{want}") },
                                format!("{g:?}"),
                            );
                        }
                    }
                }
            }
            Ok(())
        },
    );
    }
    // ------------------------------------------------------------------------- dates of a bond that do not exist
    let (f, l) = (num(FIRST), num(LAST));
    let offs: Vec<i64> = if run.pick(true, false) { vec![0, 1, 30, 59, 180, 181, 182, 183, 184, 185, 200, 340, 364, 365, 366, 367, 400, 540, 546, 550, 600, 729, 731, 733, 900] } else { (0..40).map(|i| i * 29).chain([1, 180, 181, 182, 183, 184, 364, 365, 366, 367, 729, 730, 731, 732]).collect() };
    run.section(
        "periods-nowhere",
        &format!("bonds with 1 to 3 regular coupons, issue and first coupon, or last regular coupon and maturity, on any two of {} days near either end of the supported range: no bond where a date it is computed from lies outside", offs.len()),
        2 * offs.len(),
        |c, acc| {
            let inside = |n: i64| n >= f && n <= l;
            for &o in &offs {
                for k in 0..3 {
                    let (a, b) = if c % 2 == 0 { (f + offs[c / 2], f + o) } else { (l - offs[c / 2], l - o) };
                    for far in [30, 183, 200, 365] {
                        // near the beginning a is the issue and b the first coupon, near the end the last two dates
                        let (issue, first, penult, mat) = if c % 2 == 0 {
                            (a, b, months(b, 6 * k), months(b, 6 * k) + far)
                        } else {
                            (months(a, -6 * k) - far, months(a, -6 * k), a, b)
                        };
                        if !(issue < first && penult < mat && months(first, 6 * k) == penult && inside(mat)) {
                            continue;
                        }
                        let t = Terms { issue, first, penult, mat, rate: Rat::new(1, 20), face: Rat::int(100) };
                        let (prior, next) = (months(first, -6), months(penult, 6));
                        let mut need = vec![prior, next];
                        for i in 0..=k {
                            need.push(months(first, 6 * i));
                            need.push(crate::bonds::roll(months(first, 6 * i)));
                        }
                        if issue < prior {
                            need.push(months(prior, -6));
                        }
                        if mat > next {
                            need.push(months(next, 6));
                        }
                        let all = need.iter().all(|&n| inside(n));
                        acc.states += 1;
                        acc.traces += 1;
                        acc.transitions += need.len() as u64;
                        acc.at(|| t.show());
                        let g = guard(|| t.real::<f64>().is_some());
                        acc.outcome(&(all, g.clone().ok()));
                        if g != Ok(all) && !(g == Ok(false) && !inside(months(first, 6 * k + 6))) {
                            return bad(t.show(), if all { "a bond" } else { "no bond: it needs a date outside the supported range" }, format!("{g:?} (whether there is a bond)"));
                        }
                    }
                }
            }
            Ok(())
        },
    );
    // -------------------------------------------------------------------------------------- periods that refuse
    #[derive(Copy, Clone, Debug)]
    struct To(#[allow(dead_code)] Option<i64>, Option<Date>);
    impl Period for To {
        fn checked_add(self, _: Date) -> Option<Date> {
            self.1
        }
    }
    let w = run.pick(14u32, 17);
    run.section(
        "periods-refuse",
        &format!("a period that leads nowhere or to any day of a window, before or after the date it is added to: all {} holiday patterns of the window, at a month end and at both ends of the supported range, x 5 conventions x 3 starting days", 1u64 << w),
        3 * 16,
        |c, acc| {
            let base = [num((2024, 2, 24)), num(FIRST), num(LAST) - i64::from(w) + 1][c / 16];
            for mask in (0..1u64 << w).filter(|m| m % 16 == c as u64 % 16) {
                let env = Env { base, mask, from: 1, to: 0 };
                let cal = Fast { env, origin: mk(base), n0: base, _p: std::marker::PhantomData };
                let open = |n: i64| env.open(n);
                let txt = || format!("open except {:?}", (0..w).filter(|i| mask >> i & 1 == 1).map(|i| show(from_num(base + i64::from(i)))).collect::<Vec<_>>());
                acc.states += 1;
                for start in [base, base + 4, base + i64::from(w) - 1] {
                    acc.at(txt);
                    check_roll(acc, start, mk(start), To(None, None), None, &cal, &open, &txt)?;
                    for t in base..base + i64::from(w) {
                        check_roll(acc, start, mk(start), To(Some(t), Some(mk(t))), Some(t), &cal, &open, &txt)?;
                    }
                }
            }
            Ok(())
        },
    );
}
