//! C22, C23: bond schedules, coupon amounts and valuation.
use crate::civil::{add_months, from_num, num, show, weekday, FIRST, LAST};
use crate::curve::{kind, Ip, Steps, E};
use crate::dates::mk;
use crate::engine::{bad, guard, Acc, Run, R};
use crate::interp::Fl;
use crate::rat::{exactly, Rat};
use qlab_error::InterpolationError as IE;
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;

/// Test double: the fitted yield at fitted times, the last fitted yield everywhere else.  With yields 0 at
/// one time and huge elsewhere the curve's discount factor is 1 on that date and 0 on all others.
#[derive(Default)]
pub struct Spike<V>(Vec<(V, V)>);
impl<V: Value> Interpolator for Spike<V> {
    type Value = V;
    fn try_fit(self, p: &[(V, V)]) -> Result<Self, IE<V>> {
        Ok(Spike(p.to_vec()))
    }
    fn try_value(&self, x: V) -> Result<V, IE<V>> {
        let tiny = V::one() / V::from_i64(100_000).unwrap();
        Ok(self.0.iter().find(|p| x - p.0 < tiny && p.0 - x < tiny).or(self.0.last()).map_or(V::zero(), |p| p.1))
    }
}

#[derive(Clone, Debug)]
pub struct Terms {
    pub issue: i64,
    pub first: i64,
    pub penult: i64,
    pub mat: i64,
    pub rate: Rat,
    pub face: Rat,
}

impl Terms {
    pub fn show(&self) -> String {
        format!(
            "bond issued {}, first coupon {}, penultimate {}, maturity {}, rate {}, face {}",
            show(from_num(self.issue)),
            show(from_num(self.first)),
            show(from_num(self.penult)),
            show(from_num(self.mat)),
            self.rate,
            self.face
        )
    }
    pub fn real<V: Fl>(&self) -> Option<Bond<V>> {
        Bond::new("bond", mk(self.issue), mk(self.first), mk(self.penult), mk(self.mat), Frequency::SA, V::of(self.rate), V::of(self.face))
    }
}

pub fn months(n: i64, k: i64) -> i64 {
    let (y, m, d) = add_months(from_num(n), k);
    num((y as i32, m, d))
}

pub fn roll(n: i64) -> i64 {
    match weekday(n) {
        5 => n + 2,
        6 => n + 1,
        _ => n,
    }
}

#[derive(Clone, Debug)]
pub struct Flow {
    pub due: i64,
    pub pay: i64,
    /// two amounts only where a long stub's reference period may be counted from either end of a chain
    /// of clamped month ends
    pub amounts: Vec<Rat>,
}

/// The payments of a bond as the property states them.
pub fn schedule(t: &Terms) -> Vec<Flow> {
    let r = |n: i64| Rat::int(n);
    let regular = t.rate * t.face / r(2);
    let mut v = Vec::new();
    let mut k = 0;
    loop {
        let due = months(t.first, 6 * k);
        if due > t.penult {
            break;
        }
        v.push(Flow { due, pay: roll(due), amounts: vec![regular] });
        k += 1;
    }
    let prior = months(t.first, -6);
    if prior < t.issue {
        v[0].amounts = vec![regular * r(t.first - t.issue) / r(t.first - prior)];
    } else if prior > t.issue {
        v[0].amounts = [months(prior, -6), months(t.first, -12)].iter().map(|before| regular + regular * r(prior - t.issue) / r(prior - before)).collect();
    }
    let next = months(t.penult, 6);
    let coupon = if t.mat < next {
        vec![regular * r(t.mat - t.penult) / r(next - t.penult)]
    } else if t.mat > next {
        [months(next, 6), months(t.penult, 12)].iter().map(|after| regular + regular * r(t.mat - next) / r(after - next)).collect()
    } else {
        vec![regular]
    };
    v.push(Flow { due: t.mat, pay: t.mat, amounts: coupon.into_iter().map(|c| t.face + c).collect() });
    for f in &mut v {
        f.amounts.dedup();
    }
    v
}

/// Value of the bond at `s` on a curve settling at `s` that counts only the payments made on `day`
/// (or all of them).
pub fn read<V: Fl, D: DayCount>(b: &Bond<V>, s: i64, day: Option<i64>) -> Result<Result<V, E>, String> {
    guard(|| {
        let huge = V::from_i64(1_000_000_000_000_000).unwrap();
        let far = LAST;
        let (mats, ys) = match day {
            Some(d) => ([mk(d), mk(num((far.0 - 1, 1, 1))), mk(num((far.0, 1, 1)))], [V::zero(), huge, huge]),
            None => ([mk(s + 1), mk(num((far.0 - 1, 1, 1))), mk(num((far.0, 1, 1)))], [V::zero(); 3]),
        };
        let curve = kind(YieldCurve::<D, Spike<V>>::new(mk(s), &mats, &ys))?;
        kind(b.discounted_value(mk(s), &curve))
    })
}

/// The payments made on one day, added up; all sums a choice of stub amounts allows.
fn on_day(flows: &[Flow], day: i64) -> Vec<Rat> {
    sums(flows.iter().filter(|f| f.pay == day))
}
pub fn sums<'a>(it: impl Iterator<Item = &'a Flow>) -> Vec<Rat> {
    it.fold(vec![Rat::int(0)], |acc, f| acc.iter().flat_map(|a| f.amounts.iter().map(move |b| *a + *b)).collect())
}

/// Reads every payment of the real bond back and compares it with the schedule.
fn payments(acc: &mut Acc, t: &Terms, floats: bool, days: bool) -> R {
    acc.states += 1;
    acc.at(|| t.show());
    let flows = schedule(t);
    let op = |w: &str| format!("{}\n{w}", t.show());
    let bond = match guard(|| t.real::<Rat>()) {
        Ok(Some(b)) => b,
        Ok(None) => return bad(t.show(), "a bond", "none"),
        Err(e) => return bad(t.show(), "a bond", e),
    };
    let s = t.issue.min(t.first - 1).max(num(FIRST));
    let check = |acc: &mut Acc, what: &dyn Fn() -> String, s: i64, day: Option<i64>, want: &[Rat]| -> R {
        acc.traces += 1;
        let (got, exact) = exactly(|| read::<Rat, Act365>(&bond, s, day));
        match got {
            Ok(Ok(v)) if want.contains(&v) => Ok(()),
            Ok(Ok(_)) if !exact => {
                acc.inexact += 1;
                Ok(())
            }
            g => bad(op(&what()), format!("{want:?}"), format!("{g:?}")),
        }
    };
    let all = sums(flows.iter());
    check(acc, &|| "all payments added up".into(), s, None, &all)?;
    for f in &flows {
        let d = f.pay;
        check(acc, &|| format!("payments made on {} (due {})", show(from_num(d)), show(from_num(f.due))), s, Some(d), &on_day(&flows, d))?;
        acc.outcome(&(d - f.due, weekday(f.due), f.amounts.len()));
        if days {
            // due dates: a payment counts until the day before it is due
            for e in -1..=1 {
                let at = f.due + e;
                if at >= s {
                    check(acc, &|| format!("all payments due after {}", show(from_num(at))), at, None, &sums(flows.iter().filter(|g| g.due > at)))?;
                }
            }
            for e in [-3, -2, -1, 1, 2, 3] {
                let w = on_day(&flows, d + e);
                if d + e > s {
                    check(acc, &|| format!("payments made on {}", show(from_num(d + e))), s, Some(d + e), &w)?;
                }
            }
        }
    }
    if floats {
        float::<f64>(acc, t, &flows, s, 1e-12)?;
        float::<f32>(acc, t, &flows, s, 1e-5)?;
    }
    Ok(())
}

fn float<V: Fl>(acc: &mut Acc, t: &Terms, flows: &[Flow], s: i64, tol: f64) -> R {
    let bond = match guard(|| t.real::<V>()) {
        Ok(Some(b)) => b,
        Ok(None) => return bad(format!("{} ({})", t.show(), V::NAME), "a bond", "none"),
        Err(e) => return bad(format!("{} ({})", t.show(), V::NAME), "a bond", e),
    };
    for f in flows {
        acc.traces += 1;
        let want = on_day(flows, f.pay);
        let got = read::<V, Act365>(&bond, s, Some(f.pay));
        let size = t.face.f().abs() + (t.rate * t.face).f().abs();
        match got {
            Ok(Ok(v)) if want.iter().any(|w| (w.f() - v.f()).abs() <= tol * size) => {}
            g => return bad(format!("{} ({})\npayments made on {}", t.show(), V::NAME, show(from_num(f.pay))), format!("{want:?}"), format!("{g:?}")),
        }
    }
    Ok(())
}

fn q(n: i64, d: i64) -> Rat {
    Rat::new(i128::from(n), i128::from(d))
}

/// Issue dates around the regular and the long first period.
fn issues(first: i64, dense: bool) -> Vec<i64> {
    let p = months(first, -6);
    let p2 = months(p, -6);
    let mut v = vec![first - 1, first - 92, p + 1, p, p - 1, p - 40, p2 + 1, p2, p2 - 1, p2 - 200];
    if dense {
        v = (p2 - 20..first).rev().collect();
    }
    v
}
fn maturities(penult: i64, dense: bool) -> Vec<i64> {
    let n = months(penult, 6);
    let n2 = months(n, 6);
    let mut v = vec![penult + 1, penult + 77, n - 1, n, n + 1, n + 40, n2 - 1, n2, n2 + 1, n2 + 100];
    if dense {
        v = (penult + 1..=n2 + 20).collect();
    }
    v
}

const RATES: [(i64, i64); 7] = [(5, 100), (31, 500), (0, 1), (-1, 200), (1, 10_000), (3, 2), (21, 2)];
const FACES: [(i64, i64); 5] = [(100, 1), (1000, 1), (1, 1), (5_000_000, 1), (-7, 2)];

pub fn c22(run: &Run) {
    let years = run.pick(2017..=2030, 1985..=2040);
    let firsts: Vec<i64> = years.clone().flat_map(|y| num((y, 1, 1))..=num((y, 12, 31))).collect();
    run.section("stubs", &format!("every first coupon date of {}-{} x 10 first periods (short, regular, long) x 1, 2 and 4 regular coupons x 10 last periods; every payment read back exactly", years.start(), years.end()), firsts.len(), |c, acc| {
        let first = firsts[c];
        for k in [0, 1, 3] {
            let penult = months(first, 6 * k);
            for (i, &issue) in issues(first, false).iter().enumerate() {
                for (j, &mat) in maturities(penult, false).iter().enumerate() {
                    let (r, f) = (RATES[(c + i) % 7], FACES[(c + j) % 5]);
                    let t = Terms { issue, first, penult, mat, rate: q(r.0, r.1), face: q(f.0, f.1) };
                    payments(acc, &t, (i + j + c) % 4 == 0, (i * 10 + j + c) % 5 == 0)?;
                    if i == 4 && j == 4 {
                        acc.sample(|| t.show());
                    }
                }
            }
        }
        Ok(())
    });
    // other centuries
    let eras: Vec<i32> = run.pick(vec![-4, -1, 0, 4, 1600, 1700, 1899, 1900, 1904, 1970, 2000, 2048, 2099, 2100, 2104, 2400, 9999, 10_000, 40_000], (-8..=8).chain(1596..=1604).chain(1696..=1704).chain(1896..=1904).chain(2030..=2110).chain(2396..=2404).chain(9996..=10_004).chain([-100_000, -40_000, 40_000, 100_000]).collect());
    let dates: Vec<i64> = eras.iter().flat_map(|&y| (1..=12).flat_map(move |m| [1, 2, 15, 27, 28, 29, 30, 31].map(|d| (y, m, d)))).filter(|&(y, m, d)| d <= crate::civil::mdays(y, m)).map(num).collect();
    run.section("eras", &format!("first coupon dates at starts, middles and ends of every month of {} years between {} and {} x 10 first periods x 1, 2 and 4 regular coupons x 10 last periods, in rotation x rates and faces", eras.len(), eras.iter().min().unwrap(), eras.iter().max().unwrap()), dates.len(), |c, acc| {
        let first = dates[c];
        for (n, k) in [0, 1, 3].into_iter().enumerate() {
            let penult = months(first, 6 * k);
            let (is, ms) = (issues(first, false), maturities(penult, false));
            for i in 0..10 {
                let j = (i + n + c) % 10;
                let (r, f) = (RATES[(c + i) % 7], FACES[(c + n) % 5]);
                let t = Terms { issue: is[i], first, penult, mat: ms[j], rate: q(r.0, r.1), face: q(f.0, f.1) };
                payments(acc, &t, i == 0, i % 5 == n)?;
            }
        }
        Ok(())
    });
    // every stub length
    let anchors: Vec<i64> = run.pick(vec![(2024, 2, 29), (2023, 8, 31), (2024, 6, 30)], vec![(2024, 2, 29), (2023, 8, 31), (2024, 6, 30), (2023, 2, 28), (2024, 8, 30), (2024, 3, 31), (2025, 12, 31), (2023, 5, 15), (2100, 2, 28), (1999, 11, 30)]).into_iter().map(num).collect();
    run.section("every-stub", &format!("{} first coupon dates x every issue date from 13 months before x every last period up to 13 months (each with a regular other end and one long other end)", anchors.len()), anchors.len() * 4, |c, acc| {
        let first = anchors[c / 4];
        let k = if c % 2 == 0 { 0 } else { 5 };
        let penult = months(first, 6 * k);
        let (rate, face) = (q(31, 500), Rat::int(1000));
        if c % 4 < 2 {
            for issue in issues(first, true) {
                for mat in [months(penult, 6), months(penult, 6) + 33] {
                    payments(acc, &Terms { issue, first, penult, mat, rate, face }, true, false)?;
                }
            }
        } else {
            for mat in maturities(penult, true) {
                for issue in [months(first, -6), months(first, -6) - 33] {
                    payments(acc, &Terms { issue, first, penult, mat, rate, face }, true, false)?;
                }
            }
        }
        Ok(())
    });
    // long bonds and penultimate dates off the schedule
    let longs: Vec<i64> = run.pick((num((2024, 1, 1))..=num((2024, 12, 31))).collect::<Vec<_>>(), (num((2023, 1, 1))..=num((2024, 12, 31))).chain(num((1890, 7, 1))..=num((1891, 6, 30))).chain(num((2070, 1, 1))..=num((2070, 12, 31))).collect());
    run.section("long", &format!("{} first coupon dates x 10, 20, 61 and 101 coupons x penultimate dates on and off the coupon schedule", longs.len()), longs.len(), |c, acc| {
        let first = longs[c];
        for k in [9, 19, 60, 100] {
            for off in [-1, 0, 1, 20] {
                let penult = months(first, 6 * k) + off;
                let t = Terms { issue: months(first, -6) + (c as i64 % 3 - 1) * 50, first, penult, mat: months(penult, 6) + (c as i64 % 5 - 2) * 11, rate: q(5, 100), face: Rat::int(100) };
                payments(acc, &t, c % 7 == 0, c % 11 == 0 && k < 60)?;
            }
        }
        Ok(())
    });
    let firsts: Vec<i64> = run.pick([(2024, 1, 31), (2024, 2, 29), (2023, 8, 30)].into_iter().map(num).collect(), (num((2024, 1, 1))..=num((2024, 12, 31))).step_by(7).chain([num((2024, 2, 29)), num((2023, 8, 30))]).collect());
    run.section("centuries", &format!("{} first coupon dates x 121, 122, 151, 201, 257, 401 and 1001 coupons", firsts.len()), firsts.len() * 7, |c, acc| {
        let first = firsts[c / 7];
        let penult = months(first, 6 * [120, 121, 150, 200, 256, 400, 1000][c % 7]);
        let t = Terms { issue: months(first, -6), first, penult, mat: months(penult, 6), rate: q(5, 100), face: Rat::int(100) };
        payments(acc, &t, true, false)
    });
    // counters of coupons, months and years that could be too narrow
    let counts: Vec<i64> = run.pick(vec![5_470, 10_930, 21_850, 65_540], vec![5_470, 10_930, 21_850, 32_770, 43_700, 65_540, 131_080]);
    run.section("ages", &format!("bonds of {counts:?} coupons from 3 first coupon dates, one of them in the first years of the range: the payments around every power of two and of ten, around every whole power of two of months and the last ones, each alone, and all together"), counts.len() * 15, |c, acc| {
        let (c, part) = (c / 5, c % 5);
        let n = counts[counts.len() - 1 - c / 3];
        let first = num([(2024, 2, 29), (2023, 8, 31), (-262_000, 1, 31)][c % 3]);
        let penult = months(first, 6 * (n - 1));
        let t = Terms { issue: months(first, -6), first, penult, mat: months(penult, 6), rate: q(5, 100), face: Rat::int(100) };
        acc.states += u64::from(part == 0);
        acc.at(|| t.show());
        let flows = schedule(&t);
        let bond = match guard(|| t.real::<Rat>()) {
            Ok(Some(b)) => b,
            g => return bad(t.show(), "a bond", format!("{:?}", g.map(|b| b.is_some()))),
        };
        let size = flows.len() as i64;
        let around = (0..18).flat_map(|k| [1_i64 << k, 10_i64.pow(k), (1_i64 << k) / 6, (1_i64 << k) / 3]).flat_map(|k| k - 2..=k + 2).chain([size - 1, size - 2]);
        let mut picked: Vec<i64> = around.filter(|k| (0..size).contains(k)).collect();
        picked.sort_unstable();
        picked.dedup();
        let s = t.issue;
        let check = |acc: &mut Acc, what: &dyn Fn() -> String, s: i64, day: Option<i64>, want: &[Rat]| -> R {
            acc.traces += 1;
            match exactly(|| read::<Rat, Act365>(&bond, s, day)) {
                (Ok(Ok(v)), _) if want.contains(&v) => Ok(()),
                (g, _) => bad(format!("{}\n{}", t.show(), what()), format!("{want:?}"), format!("{g:?}")),
            }
        };
        check(acc, &|| "all payments added up".into(), s, None, &sums(flows.iter()))?;
        for k in picked.into_iter().skip(part).step_by(5) {
            let f = &flows[k as usize];
            acc.outcome(&(f.pay - f.due, weekday(f.due)));
            check(acc, &|| format!("payments made on {} (due {}, coupon {})", show(from_num(f.pay)), show(from_num(f.due)), k + 1), s, Some(f.pay), &f.amounts)?;
        }
        Ok(())
    });
    // date orders
    let grid: Vec<i64> = [(2023, 1, 15), (2023, 7, 14), (2023, 7, 15), (2023, 7, 16), (2023, 8, 31), (2024, 1, 14), (2024, 1, 15), (2024, 2, 29), (2024, 7, 15), (2025, 1, 15), (2026, 1, 15)].into_iter().map(num).collect();
    let n = grid.len();
    run.section("orders", &format!("all {} combinations of issue, first, penultimate and maturity date from {n} dates, in any order: a first coupon after the penultimate is refused, nothing panics, sane terms pay the schedule", n * n * n * n), n * n, |c, acc| {
        for &penult in &grid {
            for &mat in &grid {
                let t = Terms { issue: grid[c % n], first: grid[c / n], penult, mat, rate: q(1, 20), face: Rat::int(100) };
                acc.states += 1;
                acc.traces += 3;
                acc.at(|| t.show());
                let got = (guard(|| t.real::<Rat>().is_some()), guard(|| t.real::<f64>().is_some()), guard(|| t.real::<f32>().is_some()));
                for g in [&got.0, &got.1, &got.2] {
                    match g {
                        Err(e) => return bad(t.show(), "a bond or none", e.clone()),
                        Ok(true) if t.first > penult => return bad(t.show(), "none: the first coupon is after the penultimate", "a bond"),
                        Ok(_) => {}
                    }
                }
                acc.outcome(&got.0);
                if t.issue < t.first && t.first <= penult && penult < mat {
                    payments(acc, &t, true, true)?;
                } else if got.0 == Ok(true) {
                    let b = t.real::<Rat>().unwrap();
                    for s in [grid[0] - 1, grid[4], grid[10]] {
                        if let Err(e) = read::<Rat, Act365>(&b, s, None) {
                            return bad(format!("{}\nvalue at {}", t.show(), show(from_num(s))), "an answer", e);
                        }
                    }
                }
            }
        }
        Ok(())
    });
    run.section("range-ends", "bonds at both ends of the supported date range: no panic", 2, |c, acc| {
        let ds: Vec<i64> = if c == 0 { [0, 1, 100, 181, 182, 365, 366, 400].iter().map(|o| num(FIRST) + o).collect() } else { [0, 1, 100, 181, 184, 365, 366, 400].iter().map(|o| num(LAST) - o).rev().collect() };
        for &issue in &ds {
            for &first in &ds {
                for &penult in &ds {
                    for &mat in &ds {
                        let t = Terms { issue, first, penult, mat, rate: q(1, 20), face: Rat::int(100) };
                        acc.states += 1;
                        acc.traces += 1;
                        if let Err(e) = guard(|| t.real::<f64>().is_some()) {
                            return bad(t.show(), "a bond or none", e);
                        }
                    }
                }
            }
        }
        Ok(())
    });
    amounts(run, false);
    run.section("names", "the identifier given is the identifier returned", 1, |_, acc| {
        for id in ["", "a", "20 yr bond", "é\n", &"x".repeat(300)] {
            acc.traces += 1;
            let d = |y, m| mk(num((y, m, 1)));
            let b = Bond::new(id, d(2023, 1), d(2023, 7), d(2024, 1), d(2024, 7), Frequency::SA, 0.05, 100.0);
            if b.as_ref().map(|b| b.bond_id()) != Some(id) {
                return bad(format!("identifier {id:?}"), id, format!("{:?}", b.map(|b| b.bond_id().to_string())));
            }
        }
        Ok(())
    });
}

/// Rates and face values of every size, beyond what can be computed with.
fn amounts(run: &Run, valued: bool) {
    let big = [0.0, -0.0, 5e-324, -1e-308, 1e-12, 0.05, -0.05, 1.0, 7.5, 1e6, -1e10, 1e38, 1e300, f64::MAX, f64::MIN];
    run.section("amounts", &format!("64 bonds (first and last coupons regular, short, long and longer, 1 to 4 regular coupons) x rates and face values from {big:?}, f64 and f32: {}", if valued { "valued at issue without failing, and worth nothing after maturity" } else { "each is built" }), 64, |c, acc| {
        let f = (2023, 5, 31);
        let (first, issue) = (num(f), num(f) - [40, 184, 250, 600][c % 4]);
        let (y, m, d) = add_months(f, 6 * (c / 16) as i64);
        let penult = num((y as i32, m, d));
        let mat = penult + [30, 183, 240, 500][c / 4 % 4];
        fn one<V: Fl>(acc: &mut Acc, at: [i64; 4], rate: f64, face: f64, valued: bool) -> R {
            let op = || format!("bond ({}) issued {}, first coupon {}, penultimate {}, maturity {}, rate {rate:?}, face {face:?}", V::NAME, show(from_num(at[0])), show(from_num(at[1])), show(from_num(at[2])), show(from_num(at[3])));
            acc.at(op);
            acc.states += 1;
            acc.traces += 1 + 2 * u64::from(valued);
            let v = |x: f64| V::from_f64(if V::NAME == "f32" { x.clamp(-3e38, 3e38) } else { x }).unwrap();
            let bond = match guard(|| Bond::new("bond", mk(at[0]), mk(at[1]), mk(at[2]), mk(at[3]), Frequency::SA, v(rate), v(face))) {
                Ok(Some(b)) => b,
                g => return bad(op(), "a bond", format!("{:?}", g.map(|b| b.is_some()))),
            };
            if !valued {
                return Ok(());
            }
            // a settlement date after the last payment: nothing is left, whatever the amounts
            let s = at[3] + 10;
            let curve = YieldCurve::<Act365, Linear<V>>::new(mk(s), &[mk(s), mk(s + 400)], &[v(0.02), v(0.03)]).ok();
            let Some(curve) = curve else { return Ok(()) };
            match guard(|| bond.discounted_value(mk(s), &curve).ok()) {
                Ok(Some(w)) if w.f() == 0.0 => {}
                g => return bad(format!("{}\nvalue after maturity", op()), "0", format!("{g:?}")),
            }
            // and before: an answer
            let curve = YieldCurve::<Act365, Linear<V>>::new(mk(at[0]), &[mk(at[0]), mk(at[3] + 400)], &[v(0.02), v(0.03)]).ok();
            let Some(curve) = curve else { return Ok(()) };
            match guard(|| bond.discounted_value(mk(at[0]), &curve).ok()) {
                Ok(Some(_)) => Ok(()),
                g => bad(format!("{}\nvalue at issue", op()), "a number", format!("{g:?}")),
            }
        }
        for rate in big {
            for face in big {
                one::<f64>(acc, [issue, first, penult, mat], rate, face, valued)?;
                one::<f32>(acc, [issue, first, penult, mat], rate, face, valued)?;
            }
        }
        acc.outcome(&c);
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C23
/// Sum of the outstanding payments times the curve's own discount factors, or the error one of them gives.
fn worth<V: Fl, D: DayCount, I: Ip<V>>(acc: &mut Acc, t: &Terms, flows: &[Flow], bond: &Bond<V>, curve: &YieldCurve<D, I>, what: &dyn Fn() -> String, s: i64, tol: f64) -> R {
    acc.traces += 1;
    acc.transitions += 1;
    let op = || format!("{}\non {}\nvalue at {} ({})", t.show(), what(), show(from_num(s)), V::NAME);
    let mut want = Ok(0.0);
    let mut size = 0.0;
    for f in flows.iter().filter(|f| f.due > s) {
        match kind(curve.discount_factor(mk(s), mk(f.pay))) {
            Ok(d) => {
                let a = f.amounts[0].f();
                want = want.map(|w: f64| w + d.f() * a);
                size += (d.f() * a).abs();
            }
            Err(e) => {
                want = Err(e);
                break;
            }
        }
    }
    let got = match guard(|| kind(bond.discounted_value(mk(s), curve))) {
        Ok(r) => r,
        Err(e) => return bad(op(), format!("{want:?}"), e),
    };
    acc.outcome(&(flows.iter().filter(|f| f.due > s).count(), want.is_ok()));
    match (&got, &want) {
        (Ok(v), Ok(w)) if (v.f() - w).abs() <= tol * size => Ok(()),
        // a discount factor beyond the float type: only an answer is required
        (Ok(_), Ok(_)) if !(size < V::max_value().f() / 1e3) => Ok(()),
        (Err(a), Err(b)) if a == b => Ok(()),
        _ => bad(op(), format!("{want:?}"), format!("{got:?}")),
    }
}

struct Setup {
    settle: i64,
    mats: Vec<i64>,
    ys: Vec<f64>,
}

fn on_curve<V: Fl, D: DayCount, I: Ip<V>>(acc: &mut Acc, d: &str, t: &Terms, flows: &[Flow], c: &Setup, days: &[i64], tol: f64) -> R {
    let what = || format!("YieldCurve<{d}, {}<{}>> settling {} with maturities {} to {}", I::NAME, V::NAME, show(from_num(c.settle)), show(from_num(c.mats[0])), show(from_num(*c.mats.last().unwrap())));
    acc.states += 1;
    acc.at(|| format!("{} {}", t.show(), what()));
    let ms: Vec<_> = c.mats.iter().map(|&m| mk(m)).collect();
    let ys: Vec<V> = c.ys.iter().map(|&y| V::from_f64(y).unwrap()).collect();
    let Ok(curve) = kind(YieldCurve::<D, I>::new(mk(c.settle), &ms, &ys)) else { return bad(what(), "a curve", "an error") };
    let Some(bond) = t.real::<V>() else { return bad(t.show(), "a bond", "none") };
    for &s in days {
        worth(acc, t, flows, &bond, &curve, &what, s, tol)?;
    }
    Ok(())
}

pub fn c23(run: &Run) {
    amounts(run, true);
    let firsts: Vec<i64> = run.pick(vec![(2023, 11, 7), (2024, 2, 29), (2023, 9, 30), (2024, 6, 15)], vec![(2023, 11, 7), (2024, 2, 29), (2023, 9, 30), (2024, 6, 15), (2023, 8, 31), (2023, 7, 1), (2025, 3, 1), (2024, 12, 28), (2023, 12, 31), (2024, 9, 1)]).into_iter().map(num).collect();
    let ks: &[i64] = run.pick(&[0, 1, 4, 19, 60, 130], &[0, 1, 2, 4, 9, 19, 40, 60, 100, 130, 190]);
    let setups = 7;
    run.section("life", &format!("{} first coupon dates x {ks:?} further coupons x 4 stubs x {setups} curves (ample, from settlement, starting late, ending early, ending before everything, settling later, settling earlier) x 3 day counts x 4 interpolators x f64, f32 x every settlement day (every 7th for bonds over 3 years, every 61st over 20) and all days around due dates", firsts.len()), firsts.len() * ks.len() * setups, |c, acc| {
        let first = firsts[c % firsts.len()];
        let k = ks[c / firsts.len() % ks.len()];
        let penult = months(first, 6 * k);
        for stub in 0..4 {
            let issue = months(first, -6) + [0, 60, -60, 0][stub];
            let mat = months(penult, 6) + [0, -45, 0, 45][stub];
            let t = Terms { issue, first, penult, mat, rate: q([31, 25, 0, -5][(stub + k as usize) % 4], 500), face: Rat::int([1000, 100][stub % 2]) };
            let flows = schedule(&t);
            if flows.iter().any(|f| f.amounts.len() > 1) {
                continue;
            }
            let span = mat - issue;
            let at = |f: i64, d: i64| issue + span * f / d;
            let base = issue - 5;
            let (settle, mats): (i64, Vec<i64>) = match c / firsts.len() / ks.len() {
                0 => (base, vec![base + 1, at(1, 4), at(1, 2), mat, mat + 400]),
                1 => (base, vec![base, base + 1, at(1, 3), at(2, 3), mat + 10]),
                2 => (base, vec![at(1, 3), at(1, 2), at(2, 3), mat + 10]),
                3 => (base, vec![base, at(1, 3), at(1, 2), at(2, 3)]),
                4 => (base, vec![base, base + 1, base + 2]),
                5 => (at(1, 2), vec![at(1, 2), at(1, 2) + 10, mat, mat + 10]),
                _ => (issue - 700, vec![issue - 700, issue - 300, at(1, 2), mat + 40]),
            };
            let mut days: Vec<i64> = (issue - 10..=mat + 10).step_by(if span > 7300 { 61 } else if span > 1100 { 7 } else { 1 }).collect();
            for f in &flows {
                days.extend(f.due - 3..=f.due + 3);
            }
            days.sort_unstable();
            days.dedup();
            let ys = (0..mats.len()).map(|i| [0.03, 0.01, 0.045, 0.02, -0.01][i]).collect();
            let s = Setup { settle, mats, ys };
            macro_rules! go {
                ($($d:ident $n:expr;)*) => {$(
                    on_curve::<f64, $d, Linear<f64>>(acc, $n, &t, &flows, &s, &days, 1e-12)?;
                    on_curve::<f64, $d, NaturalCubic<f64>>(acc, $n, &t, &flows, &s, &days, 1e-12)?;
                    on_curve::<f64, $d, CatmullRom<f64>>(acc, $n, &t, &flows, &s, &days, 1e-12)?;
                    on_curve::<f64, $d, Steps<f64>>(acc, $n, &t, &flows, &s, &days, 1e-12)?;
                    on_curve::<f32, $d, Linear<f32>>(acc, $n, &t, &flows, &s, &days, 1e-4)?;
                    on_curve::<f32, $d, NaturalCubic<f32>>(acc, $n, &t, &flows, &s, &days, 1e-4)?;
                )*};
            }
            go! { Act365 "actual/365"; Act360 "actual/360"; Thirty360 "30/360"; }
            acc.sample(|| t.show());
        }
        Ok(())
    });
    // exactly, over rationals: every subset of payments selected by an indicator curve, at every settlement day
    run.section("exact", "indicator curves over exact rationals: at every day of the life of each bond, each payment alone and all together", firsts.len() * 3, |c, acc| {
        let first = firsts[c % firsts.len()];
        let penult = months(first, 6 * [0, 1, 4][c / firsts.len()]);
        let t = Terms { issue: months(first, -6) + 60, first, penult, mat: months(penult, 6) - 45, rate: q(31, 500), face: Rat::int(1000) };
        let flows = schedule(&t);
        let Some(bond) = t.real::<Rat>() else { return bad(t.show(), "a bond", "none") };
        for s in t.issue..=t.mat + 5 {
            acc.states += 1;
            acc.at(|| format!("{} at {}", t.show(), show(from_num(s))));
            let left = |day: Option<i64>| sums(flows.iter().filter(|f| f.due > s && day.is_none_or(|d| f.pay == d)));
            for day in std::iter::once(None).chain(flows.iter().map(|f| f.pay).filter(|d| *d > s).map(Some)) {
                acc.traces += 1;
                let want = left(day);
                let got = read::<Rat, Act360>(&bond, s, day);
                match &got {
                    Ok(Ok(v)) if want.contains(v) => {}
                    _ => return bad(format!("{}\nat {}, discount factor 1 on {}, 0 elsewhere", t.show(), show(from_num(s)), day.map_or("every day".into(), |d| show(from_num(d)))), format!("{want:?}"), format!("{got:?}")),
                }
                acc.outcome(&want.iter().map(|w| format!("{w}")).collect::<Vec<_>>());
            }
        }
        Ok(())
    });
    // short and long ends on every day of the year: payments that roll onto, before or past each other
    let years = run.pick(2023..=2024, 2017..=2024);
    let firsts: Vec<i64> = (num((*years.start(), 1, 1))..=num((*years.end(), 12, 31))).collect();
    run.section("crowded", &format!("every first coupon date of {}-{} x 1 and 2 regular coupons x maturities 1 to 9 days and 5 to 7 months after the penultimate date x issue dates 1 to 9 days and 5 to 7 months before the first: the days around every payment, each day of payment alone and all together, exactly", years.start(), years.end()), firsts.len(), |c, acc| {
        let first = firsts[c];
        for k in 0..2 {
            let penult = months(first, 6 * k);
            for e in 0..12i64 {
                let mat = if e < 9 { penult + 1 + e } else { months(penult, e - 4) };
                let issue = if e < 9 { first - 1 - (e + k) % 9 } else { months(first, 4 - e) };
                let t = Terms { issue, first, penult, mat, rate: q(31, 500), face: Rat::int(1000) };
                let flows = schedule(&t);
                let Some(bond) = t.real::<Rat>() else { return bad(t.show(), "a bond", "none") };
                let mut days: Vec<i64> = flows.iter().flat_map(|f| f.due - 2..=f.pay + 1).collect();
                days.push(issue);
                days.sort_unstable();
                days.dedup();
                for s in days {
                    acc.states += 1;
                    acc.at(|| format!("{} at {}", t.show(), show(from_num(s))));
                    for day in std::iter::once(None).chain(flows.iter().filter(|f| f.due > s).map(|f| Some(f.pay))) {
                        acc.traces += 1;
                        let want = sums(flows.iter().filter(|f| f.due > s && day.is_none_or(|d| f.pay == d)));
                        let got = read::<Rat, Act360>(&bond, s, day);
                        match &got {
                            Ok(Ok(v)) if want.contains(v) => {}
                            _ => return bad(format!("{}\nat {}, discount factor 1 on {}, 0 elsewhere", t.show(), show(from_num(s)), day.map_or("every day".into(), |d| show(from_num(d)))), format!("{want:?}"), format!("{got:?}")),
                        }
                        acc.outcome(&want.iter().map(|w| format!("{w}")).collect::<Vec<_>>());
                    }
                }
            }
        }
        Ok(())
    });
}
