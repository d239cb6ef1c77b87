//! C24: answers do not depend on what was asked before.
use crate::bonds::Terms;
use crate::cals;
use crate::civil::{self, from_num, num, show};
use crate::curve::{kind, E};
use crate::dates::mk;
use crate::engine::{bad, guard, Acc, Run, R};
use crate::interp::Fl;
use crate::markets::nd;
use crate::rat::Rat;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar;
use qlab_error::InterpolationError as IE;
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, hermite::Hermite, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::calendar::Calendar as DateCalendar;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::{days::Days, months::Months, years::Years};
use std::io::Write as _;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// The bits of a float.
pub trait Bits: Fl {
    fn bits(self) -> u64;
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Bits for f32 {
    fn bits(self) -> u64 {
        u64::from(self.to_bits())
    }
}

/// An answer, bit for bit.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum A {
    Num(u64),
    Absent,
    Low(u64),
    Up(u64),
    Order,
    Few(usize),
    Invalid,
    Interp,
    Other,
    Panic,
}

pub fn ie<V: Bits>(r: Result<V, IE<V>>) -> A {
    match r {
        Ok(v) => A::Num(v.bits()),
        Err(IE::OutOfLowerBound(v)) => A::Low(v.bits()),
        Err(IE::OutOfUpperBound(v)) => A::Up(v.bits()),
        Err(IE::PointOrderError) => A::Order,
        Err(IE::InsufficientPointsError(n)) => A::Few(n),
        #[allow(unreachable_patterns)]
        Err(_) => A::Other,
    }
}
pub fn ql<V: Bits>(r: Result<V, E>) -> A {
    match r {
        Ok(v) => A::Num(v.bits()),
        Err(E::Invalid) => A::Invalid,
        Err(E::Interp) => A::Interp,
        Err(E::Other) => A::Other,
    }
}
pub fn ans(f: impl FnOnce() -> A) -> A {
    guard(f).unwrap_or(A::Panic)
}
fn date(d: Option<Date>) -> A {
    d.map_or(A::Absent, |d| A::Num(d.serial_date() as i64 as u64))
}
pub fn flag(b: bool) -> A {
    A::Num(u64::from(b))
}
fn d(y: i32, m: u32, dd: u32) -> Date {
    mk(num((y, m, dd)))
}
fn n(y: i32, m: u32, dd: u32) -> chrono::NaiveDate {
    nd(num((y, m, dd)))
}

// ------------------------------------------------------------------------------- the alphabet of questions
pub struct Op {
    name: String,
    group: &'static str,
    f: Box<dyn Fn() -> Vec<A>>,
}

fn curve_pts(i: usize) -> (Vec<i64>, Vec<f64>) {
    let s = num((2024, 1, 31));
    match i {
        0 => (vec![s, s + 100, s + 400, s + 800, s + 2000], vec![0.01, 0.02, 0.03, 0.025, 0.04]),
        // the same dates, other yields
        1 => (vec![s, s + 100, s + 400, s + 800, s + 2000], vec![0.05, 0.02, -0.01, 0.025, 0.01]),
        // the same yields, other dates
        2 => (vec![s, s + 90, s + 410, s + 700, s + 1900], vec![0.01, 0.02, 0.03, 0.025, 0.04]),
        _ => (vec![s + 10, s + 400, s + 1000], vec![0.01, 0.03, 0.02]),
    }
}
pub fn curve<V: Fl, D: DayCount, I: Interpolator<Value = V>>(settle: i64, i: usize) -> Result<YieldCurve<D, I>, E> {
    let (m, y) = curve_pts(i);
    let m: Vec<Date> = m.into_iter().map(mk).collect();
    let y: Vec<V> = y.into_iter().map(|v| V::from_f64(v).unwrap()).collect();
    kind(YieldCurve::<D, I>::new(mk(settle), &m, &y))
}
fn factors<V: Bits, D: DayCount, I: Interpolator<Value = V>>(settle: i64, i: usize) -> Vec<A> {
    let c = match curve::<V, D, I>(settle, i) {
        Ok(c) => c,
        Err(e) => return vec![ql::<V>(Err(e))],
    };
    let s = num((2024, 1, 31));
    [(0, 100), (0, 101), (100, 100), (50, 399), (400, 801), (3, 2000), (5, 2001), (7, 2)].iter().map(|&(a, b)| ans(|| ql(kind(c.discount_factor(mk(s + a), mk(s + b)))))).collect()
}

pub fn terms(i: usize) -> Terms {
    let q = |a: i64, b: i64| Rat::new(i128::from(a), i128::from(b));
    let t = |issue, first, penult, mat, rate, face| Terms { issue: num(issue), first: num(first), penult: num(penult), mat: num(mat), rate, face: Rat::int(face) };
    match i {
        0 => t((2024, 1, 31), (2024, 7, 31), (2026, 1, 31), (2026, 7, 31), q(5, 100), 100),
        // the same dates, another rate and face
        1 => t((2024, 1, 31), (2024, 7, 31), (2026, 1, 31), (2026, 7, 31), q(3, 100), 1000),
        // short first, long last
        2 => t((2024, 4, 2), (2024, 7, 31), (2026, 1, 31), (2026, 11, 5), q(5, 100), 100),
        // refused
        _ => t((2024, 1, 31), (2026, 7, 31), (2026, 1, 31), (2027, 7, 31), q(5, 100), 100),
    }
}

fn fits<V: Bits, I: Interpolator<Value = V>>(p: &[(f64, f64)], xs: &[f64]) -> Vec<A> {
    let p: Vec<(V, V)> = p.iter().map(|q| (V::from_f64(q.0).unwrap(), V::from_f64(q.1).unwrap())).collect();
    match guard(|| I::default().try_fit(&p)) {
        Err(_) => vec![A::Panic],
        Ok(Err(e)) => vec![ie::<V>(Err(e))],
        Ok(Ok(i)) => xs.iter().map(|&x| ans(|| ie(i.try_value(V::from_f64(x).unwrap())))).collect(),
    }
}

const PTS: [&[(f64, f64)]; 6] = [
    &[(0.0, 1.0), (1.0, 3.0), (2.5, -1.0), (4.0, 2.0)],
    // the same abscissae, other ordinates
    &[(0.0, 2.0), (1.0, -1.0), (2.5, 0.5), (4.0, 7.0)],
    // the same ordinates, other abscissae
    &[(0.0, 1.0), (0.5, 3.0), (3.0, -1.0), (4.0, 2.0)],
    // a prefix with the same ends as none
    &[(0.0, 1.0), (1.0, 3.0), (2.5, -1.0)],
    &[(-3.0, 0.0), (0.0, 1.0), (1.0, 3.0), (2.5, -1.0), (4.0, 2.0), (9.0, 0.0)],
    // out of order
    &[(0.0, 1.0), (2.5, 3.0), (1.0, -1.0), (4.0, 2.0)],
];
const XS: [f64; 7] = [0.25, 1.0, 2.0, 3.5, 4.0, -1.0, 5.0];

pub fn alphabet() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    macro_rules! op {
        ($g:expr, $n:expr, $f:expr) => {
            v.push(Op { name: $n.to_string(), group: $g, f: Box::new(move || $f) })
        };
    }
    // markets: one window around Easter and one around the end of each year
    let window = |c: &dyn Calendar, y: i32| -> Vec<A> {
        let mut w = Vec::new();
        for (a, b) in [((y, 3, 20), (y, 4, 30)), ((y, 12, 20), (y + 1, 1, 5))] {
            for k in num(a)..=num(b) {
                w.push(ans(|| flag(c.is_business_day(nd(k)))));
            }
        }
        w.push(ans(|| A::Num(c.easter_monday(y) as u64)));
        w.push(ans(|| A::Num(c.orthodox_easter_monday(y) as u64)));
        w
    };
    use calendar::unitedkingdom::{UnitedKingdom, UnitedKingdomMarket as UM};
    use calendar::unitedstates::{UnitedStates, UnitedStatesMarket as SM};
    for y in [1924, 2023, 2024, 2124] {
        op!("markets", format!("TARGET around Easter and New Year {y}"), window(&calendar::target::Target, y));
    }
    for y in [2023, 2024] {
        op!("markets", format!("London exchange {y}"), window(&UnitedKingdom { market: Some(UM::Exchange) }, y));
        op!("markets", format!("London metals {y}"), window(&UnitedKingdom { market: Some(UM::Metals) }, y));
        op!("markets", format!("NYSE {y}"), window(&UnitedStates { market: Some(SM::NYSE) }, y));
        op!("markets", format!("US settlement {y}"), window(&UnitedStates { market: Some(SM::Settlement) }, y));
        op!("markets", format!("unnamed US market {y}"), window(&UnitedStates { market: None }, y));
        op!("markets", format!("Ukraine {y}"), window(&calendar::ukraine::Ukraine, y));
        op!("markets", format!("Romania {y}"), window(&calendar::romania::Romania, y));
        op!("markets", format!("Japan {y}"), window(&calendar::japan::Japan, y));
        op!("markets", format!("Israel {y}"), window(&calendar::israel::Israel, y));
        op!("markets", format!("Turkey {y}"), window(&calendar::turkey::Turkey, y));
        op!("markets", format!("TARGET with Ukraine {y}"), window(&JointCalendar::new(calendar::target::Target, calendar::ukraine::Ukraine), y));
    }
    for (y, m) in [(2024, 2), (2023, 2), (2024, 12)] {
        op!("markets", format!("TARGET month end and counts of {y}-{m:02}"), {
            let c = calendar::target::Target;
            let (a, b) = (n(y, m, 1), n(y, m, 25));
            vec![
                ans(|| A::Num(nd_num(c.end_of_month(a)))),
                ans(|| A::Num(nd_num(c.last_day_of_month(b)))),
                ans(|| A::Num(c.business_days_between(a, b, None, None) as i64 as u64)),
                ans(|| A::Num(c.business_days_between(b, a, Some(false), Some(true)) as i64 as u64)),
            ]
        });
        op!("markets", format!("weekends-only month end and counts of {y}-{m:02}"), {
            let c = calendar::weekendsonly::WeekendsOnly;
            let (a, b) = (n(y, m, 1), n(y, m, 25));
            vec![
                ans(|| A::Num(nd_num(c.end_of_month(a)))),
                ans(|| A::Num(nd_num(c.last_day_of_month(b)))),
                ans(|| A::Num(c.business_days_between(a, b, None, None) as i64 as u64)),
                ans(|| A::Num(c.business_days_between(b, a, Some(false), Some(true)) as i64 as u64)),
            ]
        });
    }
    // dates
    for (y, m, dd) in [(2024, 1, 31), (2023, 1, 31), (2024, 2, 29), (2023, 12, 30)] {
        op!("dates", format!("shifts of {y}-{m:02}-{dd:02}"), {
            let x = d(y, m, dd);
            vec![
                ans(|| date(x.checked_add_months(Months::new(1)))),
                ans(|| date(x.checked_sub_months(Months::new(2)))),
                ans(|| date(x.checked_add_years(Years::new(1)))),
                ans(|| date(x.checked_add_years(Years::new(i32::MAX)))),
                ans(|| date(x.checked_add_days(Days::new(60)))),
                ans(|| date(x.checked_sub_days(Days::new(u64::MAX)))),
                ans(|| date(x.weekend_roll())),
                ans(|| date(x.succ_opt())),
                flag(x.leap_year()),
            ]
        });
    }
    for (name, r) in [("following", DateRolling::Following), ("modified following", DateRolling::ModifiedFollowing), ("modified preceding", DateRolling::ModifiedPreceding)] {
        op!("dates", format!("{name} rolls on TARGET and weekends-only"), {
            let mut w = Vec::new();
            for (y, m, dd) in [(2024, 2, 29), (2024, 2, 28), (2024, 5, 31)] {
                w.push(ans(|| date(d(y, m, dd).checked_roll(Months::new(1), &calendar::target::Target, r.clone()))));
                w.push(ans(|| date(d(y, m, dd).checked_roll(Months::new(1), &calendar::weekendsonly::WeekendsOnly, r.clone()))));
                w.push(ans(|| date(d(y, m, dd).checked_roll(Days::new(30), &calendar::target::Target, r.clone()))));
            }
            w
        });
    }
    for (a, b) in [((2024, 1, 31), (2024, 3, 1)), ((2024, 3, 1), (2024, 1, 31)), ((2023, 2, 28), (2024, 2, 29))] {
        op!("dates", format!("day counts from {a:?} to {b:?}"), {
            let (x, y) = (d(a.0, a.1, a.2), d(b.0, b.1, b.2));
            vec![
                ans(|| ql::<f64>(kind(Act360::calculate_day_count_fraction(x, y)))),
                ans(|| ql::<f64>(kind(Act365::calculate_day_count_fraction(x, y)))),
                ans(|| ql::<f64>(kind(Thirty360::calculate_day_count_fraction(x, y)))),
                ans(|| ql::<f32>(kind(Thirty360::calculate_day_count_fraction(x, y)))),
                A::Num((x - y) as u64),
            ]
        });
    }
    // interpolation
    for (i, p) in PTS.iter().enumerate() {
        op!("curves", format!("linear f64 through points {i}"), fits::<f64, Linear<f64>>(p, &XS));
        op!("curves", format!("natural cubic f64 through points {i}"), fits::<f64, NaturalCubic<f64>>(p, &XS));
        op!("curves", format!("Catmull-Rom f64 through points {i}"), fits::<f64, CatmullRom<f64>>(p, &XS));
    }
    for i in [0, 1] {
        op!("curves", format!("linear f32 through points {i}"), fits::<f32, Linear<f32>>(PTS[i], &XS));
        op!("curves", format!("natural cubic f32 through points {i}"), fits::<f32, NaturalCubic<f32>>(PTS[i], &XS));
        op!("curves", format!("Catmull-Rom f32 through points {i}"), fits::<f32, CatmullRom<f32>>(PTS[i], &XS));
        op!("curves", format!("Hermite through points {i}"), {
            let p: Vec<(f64, f64, f64)> = PTS[i].iter().map(|q| (q.0, q.1, q.0 - q.1)).collect();
            match Hermite::try_new(&p) {
                Ok(h) => XS.iter().map(|&x| ans(|| ie(h.try_value(x)))).collect(),
                Err(e) => vec![ie::<f64>(Err(e))],
            }
        });
    }
    // curves and bonds
    let s = num((2024, 1, 31));
    for i in 0..4 {
        op!("curves", format!("actual/365 linear curve {i}"), factors::<f64, Act365, Linear<f64>>(s, i));
        op!("curves", format!("30/360 natural cubic curve {i}"), factors::<f64, Thirty360, NaturalCubic<f64>>(s, i));
    }
    op!("curves", "actual/360 linear curve 0", factors::<f64, Act360, Linear<f64>>(s, 0));
    op!("curves", "actual/365 linear curve 0 settling a week earlier", factors::<f64, Act365, Linear<f64>>(s - 7, 0));
    op!("curves", "actual/365 linear curve 0 settling too late", factors::<f64, Act365, Linear<f64>>(s + 7, 0));
    op!("curves", "actual/365 linear curve 0 in f32", factors::<f32, Act365, Linear<f32>>(s, 0));
    for b in 0..4 {
        for c in [0, 1] {
            op!("curves", format!("bond {b} on curve {c}"), {
                let Some(bond) = terms(b).real::<f64>() else { return vec![A::Absent] };
                let Ok(y) = curve::<f64, Act365, Linear<f64>>(s, c) else { return vec![A::Other] };
                [0, 1, 181, 182, 183, 730, 1200].iter().map(|k| ans(|| ql(kind(bond.discounted_value(mk(s + k), &y))))).collect()
            });
        }
    }
    v
}

// ------------------------------------------------------------------------------- single questions
/// One question with one answer; `core`: also asked in triples.
pub struct Atom {
    pub name: String,
    core: bool,
    pub f: Box<dyn Fn() -> A>,
}

fn factor<V: Bits, D: DayCount, I: Interpolator<Value = V>>(settle: i64, i: usize, a: i64, b: i64) -> A {
    match curve::<V, D, I>(settle, i) {
        Ok(c) => ql(kind(c.discount_factor(mk(a), mk(b)))),
        Err(e) => ql::<V>(Err(e)),
    }
}

/// Questions that differ from each other in as little as possible: an answer remembered under too few of
/// the things it depends on is the answer to one of the others.
pub fn atoms() -> Vec<Atom> {
    let mut v: Vec<Atom> = Vec::new();
    macro_rules! atom {
        ($core:expr, $n:expr, $f:expr) => {
            v.push(Atom { name: $n.to_string(), core: $core, f: Box::new(move || ans(|| $f)) })
        };
    }
    // dates
    let xs = [(2024, 1, 31), (2023, 1, 31), (2024, 2, 29), (2023, 12, 30), (2024, 1, 30), (1924, 1, 31), (2023, 5, 28)];
    for (i, &(y, m, dd)) in xs.iter().enumerate() {
        let (x, core, t) = (d(y, m, dd), i < 3, format!("{y}-{m:02}-{dd:02}"));
        for k in [1, 2, 13] {
            atom!(core && k < 3, format!("{t} plus {k} months"), date(x.checked_add_months(Months::new(k))));
        }
        atom!(core, format!("{t} minus 1 month"), date(x.checked_sub_months(Months::new(1))));
        for k in [1, 4, -1, i32::MAX] {
            atom!(core && k == 1, format!("{t} plus {k} years"), date(x.checked_add_years(Years::new(k))));
        }
        for k in [1, 60, u64::MAX] {
            atom!(core && k == 60, format!("{t} plus {k} days"), date(x.checked_add_days(Days::new(k))));
        }
        atom!(core, format!("{t} minus 1 day"), date(x.checked_sub_days(Days::new(1))));
        atom!(core, format!("{t} rolled off the weekend"), date(x.weekend_roll()));
        atom!(false, format!("the day after {t}"), date(x.succ_opt()));
        atom!(core, format!("is {t} in a leap year"), flag(x.leap_year()));
        atom!(false, format!("days from {t} to 2024-06-30"), A::Num((d(2024, 6, 30) - x) as u64));
    }
    // rolls
    for (i, &(y, m, dd)) in [(2024, 2, 29), (2024, 5, 31), (2024, 3, 28), (2023, 12, 30)].iter().enumerate() {
        for (k, r) in [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding].into_iter().enumerate() {
            let (x, core, t) = (d(y, m, dd), i < 2 && (1..3).contains(&k), format!("{y}-{m:02}-{dd:02}"));
            let (a, b, c, e, f) = (r.clone(), r.clone(), r.clone(), r.clone(), r.clone());
            atom!(core, format!("{t} rolled {r:?} by 1 month on TARGET"), date(x.checked_roll(Months::new(1), &calendar::target::Target, a.clone())));
            atom!(core, format!("{t} rolled {r:?} by 1 month on weekends-only"), date(x.checked_roll(Months::new(1), &calendar::weekendsonly::WeekendsOnly, b.clone())));
            atom!(false, format!("{t} rolled {r:?} by 0 days on TARGET"), date(x.checked_roll(Days::new(0), &calendar::target::Target, c.clone())));
            atom!(core, format!("{t} rolled {r:?} by 1 day on TARGET"), date(x.checked_roll(Days::new(1), &calendar::target::Target, e.clone())));
            atom!(false, format!("{t} rolled {r:?} by 1 year on weekends-only"), date(x.checked_roll(Years::new(1), &calendar::weekendsonly::WeekendsOnly, f.clone())));
        }
    }
    // day counts
    for (i, &(a, b)) in [((2024, 1, 31), (2024, 3, 1)), ((2024, 3, 1), (2024, 1, 31)), ((2023, 2, 28), (2024, 2, 29)), ((2024, 1, 31), (2024, 2, 29)), ((2024, 1, 30), (2024, 3, 1)), ((2023, 1, 31), (2023, 3, 1))].iter().enumerate() {
        let (x, y, core, t) = (d(a.0, a.1, a.2), d(b.0, b.1, b.2), i < 2 || i == 5, format!("from {a:?} to {b:?}"));
        atom!(core, format!("actual/360 {t}"), ql::<f64>(kind(Act360::calculate_day_count_fraction(x, y))));
        atom!(core, format!("actual/365 {t}"), ql::<f64>(kind(Act365::calculate_day_count_fraction(x, y))));
        atom!(core, format!("30/360 {t}"), ql::<f64>(kind(Thirty360::calculate_day_count_fraction(x, y))));
        atom!(false, format!("30/360 in f32 {t}"), ql::<f32>(kind(Thirty360::calculate_day_count_fraction(x, y))));
        atom!(false, format!("actual/365 in f32 {t}"), ql::<f32>(kind(Act365::calculate_day_count_fraction(x, y))));
    }
    // markets
    use calendar::unitedkingdom::{UnitedKingdom, UnitedKingdomMarket as UM};
    use calendar::unitedstates::{UnitedStates, UnitedStatesMarket as SM};
    let days = [(2024, 1, 1), (2024, 1, 2), (2023, 1, 2), (2024, 3, 29), (2024, 4, 1), (2023, 3, 29), (2023, 4, 7), (2023, 4, 10), (2024, 5, 1), (2024, 5, 3), (2024, 5, 6), (2024, 6, 19), (2024, 7, 4), (2023, 7, 4), (2024, 12, 25), (2024, 12, 26), (2023, 12, 26), (2124, 4, 14), (1924, 4, 21), (2024, 6, 28), (2024, 6, 29)];
    macro_rules! market {
        ($core:expr, $n:expr, $c:expr) => {
            for (i, &(y, m, dd)) in days.iter().enumerate() {
                atom!($core && [0, 4, 7, 15].contains(&i), format!("is {y}-{m:02}-{dd:02} a business day on {}", $n), flag(Calendar::is_business_day(&$c, n(y, m, dd))));
            }
        };
    }
    market!(true, "TARGET", calendar::target::Target);
    market!(false, "weekends-only", calendar::weekendsonly::WeekendsOnly);
    market!(true, "the London exchange", UnitedKingdom { market: Some(UM::Exchange) });
    market!(false, "London metals", UnitedKingdom { market: Some(UM::Metals) });
    market!(true, "NYSE", UnitedStates { market: Some(SM::NYSE) });
    market!(false, "US settlement", UnitedStates { market: Some(SM::Settlement) });
    market!(true, "Ukraine", calendar::ukraine::Ukraine);
    market!(false, "Romania", calendar::romania::Romania);
    market!(false, "Japan", calendar::japan::Japan);
    market!(false, "Israel", calendar::israel::Israel);
    market!(true, "TARGET joined with Ukraine", JointCalendar::new(calendar::target::Target, calendar::ukraine::Ukraine));
    market!(false, "Ukraine joined with TARGET", JointCalendar::new(calendar::ukraine::Ukraine, calendar::target::Target));
    for y in [2023, 2024, 2025, 2123, 2124, 1924] {
        atom!(y < 2025, format!("Easter Monday {y}"), A::Num(calendar::target::Target.easter_monday(y) as u64));
        atom!(y < 2025, format!("Orthodox Easter Monday {y}"), A::Num(calendar::ukraine::Ukraine.orthodox_easter_monday(y) as u64));
        atom!(false, format!("Easter Monday {y} asked of Ukraine"), A::Num(calendar::ukraine::Ukraine.easter_monday(y) as u64));
    }
    for (y, m, dd) in [(2024, 2, 1), (2023, 2, 1), (2024, 3, 1), (2024, 6, 10), (2124, 2, 1)] {
        let x = n(y, m, dd);
        atom!(y == 2024, format!("end of month {y}-{m:02} on TARGET"), A::Num(nd_num(calendar::target::Target.end_of_month(x))));
        atom!(y == 2024, format!("end of month {y}-{m:02} on weekends-only"), A::Num(nd_num(calendar::weekendsonly::WeekendsOnly.end_of_month(x))));
        atom!(false, format!("end of month {y}-{m:02} on Japan"), A::Num(nd_num(calendar::japan::Japan.end_of_month(x))));
        atom!(false, format!("last day of month {y}-{m:02}"), A::Num(nd_num(calendar::target::Target.last_day_of_month(x))));
    }
    for (a, b) in [((2024, 3, 20), (2024, 4, 10)), ((2024, 4, 10), (2024, 3, 20)), ((2023, 3, 20), (2023, 4, 10)), ((2024, 3, 20), (2024, 4, 11))] {
        let (x, y) = (n(a.0, a.1, a.2), n(b.0, b.1, b.2));
        for (f, l) in [(None, None), (Some(false), None), (None, Some(true)), (Some(false), Some(true))] {
            atom!(f.is_none() && a.0 == 2024, format!("business days on TARGET from {a:?} to {b:?} {f:?} {l:?}"), A::Num(calendar::target::Target.business_days_between(x, y, f, l) as i64 as u64));
            atom!(false, format!("business days on weekends-only from {a:?} to {b:?} {f:?} {l:?}"), A::Num(calendar::weekendsonly::WeekendsOnly.business_days_between(x, y, f, l) as i64 as u64));
        }
    }
    // interpolation
    fn at<V: Bits, I: Interpolator<Value = V>>(p: &[(f64, f64)], x: f64) -> A {
        fits::<V, I>(p, &[x])[0]
    }
    for (i, p) in PTS.iter().enumerate() {
        for (k, x) in XS.into_iter().enumerate() {
            let core = (i < 3 || i == 5) && (k == 0 || k == 2);
            atom!(core, format!("linear through points {i} at {x}"), at::<f64, Linear<f64>>(p, x));
            atom!(core, format!("natural cubic through points {i} at {x}"), at::<f64, NaturalCubic<f64>>(p, x));
            atom!(core, format!("Catmull-Rom through points {i} at {x}"), at::<f64, CatmullRom<f64>>(p, x));
            if i < 2 && k < 3 {
                atom!(false, format!("linear f32 through points {i} at {x}"), at::<f32, Linear<f32>>(p, x));
                atom!(false, format!("natural cubic f32 through points {i} at {x}"), at::<f32, NaturalCubic<f32>>(p, x));
                atom!(false, format!("Catmull-Rom f32 through points {i} at {x}"), at::<f32, CatmullRom<f32>>(p, x));
            }
            if i < 3 {
                for slope in [1.0, -2.0] {
                    atom!(core && i < 2, format!("Hermite through points {i} with slopes {slope} at {x}"), {
                        let q: Vec<(f64, f64, f64)> = p.iter().map(|q| (q.0, q.1, slope)).collect();
                        match Hermite::try_new(&q) {
                            Ok(h) => ie(h.try_value(x)),
                            Err(e) => ie::<f64>(Err(e)),
                        }
                    });
                }
            }
        }
    }
    // curves
    let s = num((2024, 1, 31));
    for lag in [0, 7] {
        for i in 0..4 {
            for (k, (a, b)) in [(0, 100), (0, 101), (100, 400), (50, 399), (5, 1000), (0, 2000), (0, 2001), (50, 3)].into_iter().enumerate() {
                let core = i < 3 && [0, 3].contains(&k);
                let t = format!("curve {i} settling {lag} days early, from day {a} to {b}");
                atom!(core, format!("actual/365 linear {t}"), factor::<f64, Act365, Linear<f64>>(s - lag, i, s + a, s + b));
                atom!(core && lag == 0 && i < 2, format!("30/360 linear {t}"), factor::<f64, Thirty360, Linear<f64>>(s - lag, i, s + a, s + b));
                if lag == 0 {
                    atom!(false, format!("actual/360 linear {t}"), factor::<f64, Act360, Linear<f64>>(s, i, s + a, s + b));
                    atom!(false, format!("actual/365 natural cubic {t}"), factor::<f64, Act365, NaturalCubic<f64>>(s, i, s + a, s + b));
                    if k < 4 {
                        atom!(false, format!("actual/365 Catmull-Rom {t}"), factor::<f64, Act365, CatmullRom<f64>>(s, i, s + a, s + b));
                        atom!(false, format!("actual/365 linear f32 {t}"), factor::<f32, Act365, Linear<f32>>(s, i, s + a, s + b));
                    }
                }
            }
        }
    }
    // bonds
    for b in 0..4 {
        for c in [0, 1, 2] {
            for lag in [0, 7] {
                for k in [0, 1, 182, 183, 730] {
                    atom!(b < 2 && c < 2 && lag == 0 && [0, 182].contains(&k), format!("bond {b} on curve {c} settling {lag} days early, on day {k}"), {
                        let Some(bond) = terms(b).real::<f64>() else { return A::Absent };
                        let Ok(y) = curve::<f64, Act365, Linear<f64>>(s - lag, c) else { return A::Other };
                        ql(kind(bond.discounted_value(mk(s + k), &y)))
                    });
                }
            }
        }
    }
    v
}

/// The families of questions: 0 has a few of every kind, the others many of one kind.
pub const FAMILIES: [&str; 9] = ["all kinds", "date shifts", "rolls", "day counts", "market days", "month ends and counts", "interpolators", "curves", "bonds"];

pub fn family(k: usize) -> Vec<Atom> {
    let mut v: Vec<Atom> = Vec::new();
    macro_rules! atom {
        ($n:expr, $f:expr) => {
            v.push(Atom { name: $n.to_string(), core: false, f: Box::new(move || ans(|| $f)) })
        };
    }
    let some = [(2024, 1, 31), (2024, 1, 30), (2024, 2, 28), (2024, 2, 29), (2024, 3, 1), (2024, 3, 29), (2024, 3, 31), (2024, 6, 30), (2024, 12, 31), (2025, 1, 31), (2023, 1, 31), (2023, 2, 28), (2023, 3, 1), (2023, 12, 30), (2022, 12, 31), (2020, 2, 29), (2000, 2, 29), (1996, 1, 31), (1924, 1, 31), (2100, 2, 28), (2124, 1, 31)];
    let text = |x: (i32, u32, u32)| format!("{}-{:02}-{:02}", x.0, x.1, x.2);
    let s = num((2024, 1, 31));
    match k {
        0 => return atoms(),
        1 => {
            for t in some {
                let x = d(t.0, t.1, t.2);
                let t = text(t);
                for m in [0, 1, 2, 3, 6, 11, 12, 13, 24, 48, 1200, 65_536, u32::MAX] {
                    atom!(format!("{t} plus {m} months"), date(x.checked_add_months(Months::new(m))));
                    atom!(format!("{t} minus {m} months"), date(x.checked_sub_months(Months::new(m))));
                }
                for y in [0, 1, 2, 4, 100, -1, -4, 65_536, i32::MAX, i32::MIN] {
                    atom!(format!("{t} plus {y} years"), date(x.checked_add_years(Years::new(y))));
                }
                for n in [0, 1, 2, 28, 31, 365, 366, 1 << 16, 1 << 32, u64::MAX] {
                    atom!(format!("{t} plus {n} days"), date(x.checked_add_days(Days::new(n))));
                    atom!(format!("{t} minus {n} days"), date(x.checked_sub_days(Days::new(n))));
                }
                atom!(format!("{t} off the weekend"), date(x.weekend_roll()));
                atom!(format!("after {t}"), date(x.succ_opt()));
                atom!(format!("before {t}"), date(x.pred_opt()));
                atom!(format!("leap year of {t}"), flag(x.leap_year()));
                atom!(format!("serial number of {t}"), A::Num(x.serial_date() as i64 as u64));
                atom!(format!("year, month, day of {t}"), A::Num(x.year() as i64 as u64 * 10_000 + u64::from(x.month()) * 100 + u64::from(x.day())));
                for u in some {
                    let z = d(u.0, u.1, u.2);
                    atom!(format!("{t} - {}", text(u)), A::Num((x - z) as u64));
                }
            }
        }
        2 => {
            for t in [(2024, 2, 29), (2024, 1, 31), (2024, 3, 28), (2024, 5, 31), (2023, 12, 30), (2022, 12, 24), (2025, 4, 17)] {
                let x = d(t.0, t.1, t.2);
                for r in [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding] {
                    macro_rules! on {
                        ($c:expr, $n:expr) => {
                            for p in 0..9u8 {
                                let r = r.clone();
                                atom!(format!("{} rolled {r:?} by period {p} on {}", text(t), $n), {
                                    let r = r.clone();
                                    date(match p {
                                        0 => x.checked_roll(Days::new(0), &$c, r),
                                        1 => x.checked_roll(Days::new(1), &$c, r),
                                        2 => x.checked_roll(Days::new(31), &$c, r),
                                        3 => x.checked_roll(Months::new(0), &$c, r),
                                        4 => x.checked_roll(Months::new(1), &$c, r),
                                        5 => x.checked_roll(Months::new(12), &$c, r),
                                        6 => x.checked_roll(Years::new(0), &$c, r),
                                        7 => x.checked_roll(Years::new(1), &$c, r),
                                        _ => x.checked_roll(Years::new(-1), &$c, r),
                                    })
                                });
                            }
                        };
                    }
                    on!(calendar::target::Target, "TARGET");
                    on!(calendar::weekendsonly::WeekendsOnly, "weekends-only");
                    on!(calendar::israel::Israel, "Israel");
                    on!(calendar::japan::Japan, "Japan");
                    on!(JointCalendar::new(calendar::target::Target, calendar::japan::Japan), "TARGET with Japan");
                }
            }
        }
        3 => {
            for a in some {
                for b in some {
                    let (x, y, t) = (d(a.0, a.1, a.2), d(b.0, b.1, b.2), format!("from {} to {}", text(a), text(b)));
                    atom!(format!("actual/360 {t}"), ql::<f64>(kind(Act360::calculate_day_count_fraction(x, y))));
                    atom!(format!("actual/365 {t}"), ql::<f64>(kind(Act365::calculate_day_count_fraction(x, y))));
                    atom!(format!("30/360 {t}"), ql::<f64>(kind(Thirty360::calculate_day_count_fraction(x, y))));
                    atom!(format!("30/360 in f32 {t}"), ql::<f32>(kind(Thirty360::calculate_day_count_fraction(x, y))));
                }
            }
        }
        4 => {
            for e in cals::all() {
                for (y, m, dd) in [(2024, 1, 1), (2024, 3, 29), (2024, 4, 1), (2024, 5, 1), (2024, 5, 6), (2024, 7, 4), (2024, 10, 14), (2024, 11, 28), (2024, 12, 25), (2024, 12, 26), (2023, 1, 2), (2023, 4, 7), (2023, 5, 1), (2023, 11, 23), (2023, 12, 26), (1996, 4, 5), (1996, 7, 4), (2124, 12, 25), (1924, 12, 25), (2024, 6, 28)] {
                    let (c, x) = (e.cal, n(y, m, dd));
                    atom!(format!("is {y}-{m:02}-{dd:02} a business day on {}", e.name), flag(c.is_business_day(x)));
                }
            }
        }
        5 => {
            let all = cals::all();
            for name in ["Target", "WeekendsOnly", "Israel", "Japan", "China", "Ukraine", "UnitedStates/NYSE", "UnitedKingdom/-"] {
                let c = all.iter().find(|e| e.name == name).expect("a registered market").cal;
                for t in some {
                    let x = n(t.0, t.1, t.2);
                    atom!(format!("end of month {} on {name}", text(t)), A::Num(nd_num(c.end_of_month(x))));
                    atom!(format!("last day of month {} on {name}", text(t)), A::Num(nd_num(c.last_day_of_month(x))));
                }
                for (a, b) in [((2024, 3, 20), (2024, 4, 10)), ((2024, 4, 10), (2024, 3, 20)), ((2023, 3, 20), (2023, 4, 10)), ((2024, 3, 20), (2024, 4, 11)), ((2024, 3, 21), (2024, 4, 10)), ((2024, 3, 29), (2024, 3, 29)), ((2024, 1, 1), (2024, 12, 31)), ((2022, 12, 20), (2023, 1, 10))] {
                    let (x, y) = (n(a.0, a.1, a.2), n(b.0, b.1, b.2));
                    for f in [None, Some(false), Some(true)] {
                        for l in [None, Some(false), Some(true)] {
                            atom!(format!("business days on {name} from {} to {} {f:?} {l:?}", text(a), text(b)), A::Num(c.business_days_between(x, y, f, l) as u64));
                        }
                    }
                }
            }
        }
        6 => {
            let mut sets: Vec<Vec<(f64, f64)>> = sets();
            sets.truncate(10);
            // one abscissa or one ordinate changed, one point more or less
            for (j, dx, dy) in [(0, -1.0, 0.0), (1, 0.5, 0.0), (2, -0.25, 0.0), (3, 1.0, 0.0), (0, 0.0, 1.0), (1, 0.0, 1.0), (2, 0.0, 1.0), (3, 0.0, 1.0)] {
                let mut p = PTS[0].to_vec();
                p[j].0 += dx;
                p[j].1 += dy;
                sets.push(p);
            }
            for (i, p) in sets.into_iter().enumerate() {
                for x in [0.25, 0.5, 1.0, 1.25, 2.0, 2.5, 3.5, 4.0, 0.0, -1.0, 5.0, 100.5] {
                    let (a, b, c, e, f) = (p.clone(), p.clone(), p.clone(), p.clone(), p.clone());
                    atom!(format!("linear through points {i} at {x}"), fits::<f64, Linear<f64>>(&a, &[x])[0]);
                    atom!(format!("natural cubic through points {i} at {x}"), fits::<f64, NaturalCubic<f64>>(&b, &[x])[0]);
                    atom!(format!("Catmull-Rom through points {i} at {x}"), fits::<f64, CatmullRom<f64>>(&c, &[x])[0]);
                    atom!(format!("Hermite through points {i} at {x}"), {
                        let q: Vec<(f64, f64, f64)> = e.iter().map(|q| (q.0, q.1, q.0 - q.1)).collect();
                        match Hermite::try_new(&q) {
                            Ok(h) => ie(h.try_value(x)),
                            Err(e) => ie::<f64>(Err(e)),
                        }
                    });
                    atom!(format!("Hermite through points {i} with level slopes at {x}"), {
                        let q: Vec<(f64, f64, f64)> = f.iter().map(|q| (q.0, q.1, 0.0)).collect();
                        match Hermite::try_new(&q) {
                            Ok(h) => ie(h.try_value(x)),
                            Err(e) => ie::<f64>(Err(e)),
                        }
                    });
                }
            }
        }
        7 => {
            for lag in [0, 1, 7] {
                for i in 0..4 {
                    for (a, b) in [(0, 100), (0, 101), (1, 101), (100, 400), (50, 399), (50, 400), (5, 1000), (0, 2000), (1000, 2000), (0, 2001), (50, 3), (50, 50)] {
                        let t = format!("curve {i} settling {lag} days early, from day {a} to {b}");
                        atom!(format!("actual/365 linear {t}"), factor::<f64, Act365, Linear<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("actual/360 linear {t}"), factor::<f64, Act360, Linear<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("30/360 linear {t}"), factor::<f64, Thirty360, Linear<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("actual/365 natural cubic {t}"), factor::<f64, Act365, NaturalCubic<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("30/360 natural cubic {t}"), factor::<f64, Thirty360, NaturalCubic<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("actual/365 Catmull-Rom {t}"), factor::<f64, Act365, CatmullRom<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("actual/360 Catmull-Rom {t}"), factor::<f64, Act360, CatmullRom<f64>>(s - lag, i, s + a, s + b));
                        atom!(format!("actual/365 linear f32 {t}"), factor::<f32, Act365, Linear<f32>>(s - lag, i, s + a, s + b));
                    }
                }
            }
        }
        _ => {
            let base = terms(0);
            let mut all: Vec<(String, Terms)> = (0..4).map(|i| (format!("bond {i}"), terms(i))).collect();
            let t = |issue: i64, mat: i64, rate: (i64, i64), face: i64| Terms { issue: base.issue + issue, mat: base.mat + mat, rate: Rat::new(i128::from(rate.0), i128::from(rate.1)), face: Rat::int(face), ..terms(0) };
            all.push(("bond 0 issued a day earlier".into(), t(-1, 0, (5, 100), 100)));
            all.push(("bond 0 with a later maturity".into(), t(0, 30, (5, 100), 100)));
            all.push(("bond 0 at another rate".into(), t(0, 0, (6, 100), 100)));
            all.push(("bond 0 with another face value".into(), t(0, 0, (5, 100), 1000)));
            for (name, t) in all {
                for c in 0..3 {
                    for lag in [0, 7] {
                        for k in [0, 1, 100, 181, 182, 183, 365, 730, 911, 1200] {
                            let t = t.clone();
                            atom!(format!("{name} on curve {c} settling {lag} days early, on day {k}"), {
                                let Some(bond) = t.real::<f64>() else { return A::Absent };
                                let Ok(y) = curve::<f64, Act365, Linear<f64>>(s - lag, c) else { return A::Other };
                                ql(kind(bond.discounted_value(mk(s + k), &y)))
                            });
                        }
                    }
                }
            }
            for (name, i) in [("bond 0", 0), ("bond 1", 1)] {
                for lag in [0, 7] {
                    for k in [0, 1, 182, 183, 730] {
                        atom!(format!("{name} on natural cubic curve 0 settling {lag} days early, on day {k}"), {
                            let Some(bond) = terms(i).real::<f64>() else { return A::Absent };
                            let Ok(y) = curve::<f64, Act365, NaturalCubic<f64>>(s - lag, 0) else { return A::Other };
                            ql(kind(bond.discounted_value(mk(s + k), &y)))
                        });
                    }
                }
            }
        }
    }
    v
}

fn nd_num(x: chrono::NaiveDate) -> u64 {
    use chrono::Datelike;
    x.num_days_from_ce() as i64 as u64
}

pub fn hash(a: &[A]) -> u64 {
    // FNV over the debug text: the same in every process
    format!("{a:?}").bytes().fold(0xcbf29ce484222325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3))
}

/// Runs `f` in a child of this (single-threaded) process, in the state the process has now.
pub fn child(f: impl FnOnce() -> i32) -> i32 {
    // SAFETY: the process has one thread; the child leaves with _exit
    unsafe {
        let pid = fork();
        if pid < 0 {
            eprintln!("HARNESS ERROR: fork failed");
            _exit(2);
        }
        if pid == 0 {
            let rc = f();
            let _ = std::io::stdout().flush();
            _exit(rc);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st & 0x7f != 0 {
            128 + (st & 0x7f)
        } else {
            st >> 8 & 0xff
        }
    }
}

/// Sub-command of the harness: `mc --walk answers` or `mc --walk FIRST DEPTH GROUP ANSWERS...`: from the fresh
/// state of this process, explores the tree of all question sequences that start with FIRST, one forked
/// process per node, so that every sequence is executed from a fresh process.
pub fn walk(args: &[String]) -> i32 {
    crate::engine::install_hook();
    let ops = alphabet();
    if args[0] == "answers" {
        // each question alone in a fresh process
        for o in &ops {
            let rc = child(|| {
                println!("{:016x}", hash(&(o.f)()));
                0
            });
            if rc != 0 {
                println!("died {rc}");
            }
        }
        return 0;
    }
    if args[0] == "atoms" {
        for a in &family(args[1].parse().unwrap()) {
            let rc = child(|| {
                println!("{:016x}", hash(&[(a.f)()]));
                0
            });
            if rc != 0 {
                println!("died {rc}");
            }
        }
        return 0;
    }
    if args[0] == "pairs" {
        return pairs(args[1].parse().unwrap(), args[2].parse().unwrap(), args[3] == "triples");
    }
    let first: usize = args[0].parse().unwrap();
    let depth: usize = args[1].parse().unwrap();
    let text = std::env::var("MC_ANSWERS").unwrap();
    let answers: Vec<u64> = text.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    let among: Vec<usize> = (0..ops.len()).filter(|&i| args[2] == "all" || ops[i].group == args[2]).collect();
    let mut path = vec![first];
    // the count of executed sequences comes back through a pipe-like scratch: one line per node would be slow,
    // so each process explores its own subtree and only failures are printed
    fn node(ops: &[Op], answers: &[u64], among: &[usize], path: &mut Vec<usize>, depth: usize) -> i32 {
        let last = *path.last().unwrap();
        let got = (ops[last].f)();
        if hash(&got) != answers[last] {
            println!("{}\t{}", path.iter().map(ToString::to_string).collect::<Vec<_>>().join(","), format!("{got:?}").chars().take(600).collect::<String>());
            return 1;
        }
        if path.len() < depth {
            for &o in among {
                path.push(o);
                let rc = child(|| node(ops, answers, among, path, depth));
                path.pop();
                if rc != 0 {
                    if rc != 1 {
                        println!("{}\tthe process died with {rc}", path.iter().chain([&o]).map(ToString::to_string).collect::<Vec<_>>().join(","));
                    }
                    return 1;
                }
            }
        }
        0
    }
    child(|| node(&ops, &answers, &among, &mut path, depth))
}

/// Questions asked first by one process.
const BATCH: usize = 16;

/// `mc --walk pairs FAMILY BATCH pairs|triples`: in one process, each first question of the batch before every
/// other single question of the family, or before every two of the core questions, each time against the answer
/// given alone.
fn pairs(fam: usize, batch: usize, triples: bool) -> i32 {
    let at = family(fam);
    let text = std::env::var("MC_ANSWERS").unwrap();
    let alone: Vec<u64> = text.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    let mut memo: std::collections::HashMap<A, u64> = std::collections::HashMap::new();
    let mut wrong = |i: usize, path: &[usize]| -> bool {
        let got = (at[i].f)();
        if *memo.entry(got).or_insert_with(|| hash(&[got])) == alone[i] {
            return false;
        }
        println!("{}\t{got:?}", path.iter().map(ToString::to_string).collect::<Vec<_>>().join(","));
        true
    };
    let core: Vec<usize> = (0..at.len()).filter(|&i| at[i].core).collect();
    if triples {
        for &first in core.iter().skip(batch * BATCH).take(BATCH) {
            for &j in &core {
                for &k in &core {
                    for (n, i) in [first, j, k].into_iter().enumerate() {
                        if wrong(i, &[first, j, k][..=n]) {
                            return 1;
                        }
                    }
                }
            }
        }
    } else {
        for first in (batch * BATCH..at.len()).take(BATCH) {
            for j in 0..at.len() {
                if wrong(first, &[j.max(1) - 1, first]) || wrong(j, &[first, j]) {
                    return 1;
                }
            }
        }
    }
    0
}

fn spawn(args: &[&str], answers: &str) -> (Option<i32>, String) {
    spawn_as("--walk", args, answers)
}
pub fn spawn_as(what: &str, args: &[&str], answers: &str) -> (Option<i32>, String) {
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe).arg(what).args(args).env("MC_ANSWERS", answers).output().expect("subprocess");
    (out.status.code(), String::from_utf8_lossy(&out.stdout).into_owned())
}

fn sequences(run: &Run, name: &str, group: &'static str, depth: usize, answers: &[String], names: &[String], among: &[usize]) {
    let k = among.len();
    let total: u64 = (1..=depth as u32).map(|i| (k as u64).pow(i)).sum();
    let text = answers.join(" ");
    run.section(name, &format!("all {total} sequences of 1 to {depth} questions from {k} ({group}), each executed from a fresh process (fork tree); every answer against that question asked alone"), k, |c, acc| {
        acc.at(|| names[among[c]].clone());
        let (rc, out) = spawn(&[&among[c].to_string(), &depth.to_string(), group], &text);
        let seqs: u64 = (0..depth as u32).map(|i| (k as u64).pow(i)).sum();
        acc.states += seqs;
        acc.traces += seqs;
        acc.transitions += seqs;
        acc.outcome(&answers[among[c]]);
        acc.sample(|| format!("first question: {}", names[among[c]]));
        match rc {
            Some(0) => Ok(()),
            Some(1) => {
                let (path, got) = out.lines().next().unwrap_or("").split_once('\t').unwrap_or(("", "")).to_owned();
                let ops: Vec<String> = path.split(',').filter_map(|x| x.parse::<usize>().ok()).map(|i| names[i].clone()).collect();
                bad(ops.join("\n"), "the answer the last question gets when asked alone", got.to_string())
            }
            rc => bad(names[among[c]].clone(), "answers", format!("the process died with {rc:?}")),
        }
    });
}

// ------------------------------------------------------------------------------- one object, many questions
/// All sequences of up to `depth` questions to one object made by `make`; each answer against a fresh object's.
fn on_object<O>(acc: &mut Acc, what: &str, names: &[String], depth: usize, make: &dyn Fn() -> O, ask: &dyn Fn(&O, usize) -> A) -> R {
    let k = names.len();
    let fresh: Vec<A> = (0..k).map(|i| ans(|| ask(&make(), i))).collect();
    for seq in 0..k.pow(depth as u32) {
        acc.states += 1;
        acc.at(|| what.to_string());
        let o = make();
        let mut s = seq;
        for step in 0..depth {
            let i = s % k;
            s /= k;
            acc.traces += 1;
            acc.transitions += 1;
            let got = ans(|| ask(&o, i));
            if got != fresh[i] {
                let mut ops = vec![what.to_string()];
                let mut t = seq;
                for _ in 0..=step {
                    ops.push(names[t % k].clone());
                    t /= k;
                }
                return bad(ops.join("\n"), format!("{:?}, as a fresh object answers", fresh[i]), format!("{got:?}"));
            }
        }
    }
    for f in &fresh {
        acc.outcome(f);
    }
    Ok(())
}

/// All questions to one object in four orders; each answer against a fresh object's.
fn in_orders<O>(acc: &mut Acc, what: &str, n: usize, make: &dyn Fn() -> O, ask: &dyn Fn(&O, usize) -> A, name: &dyn Fn(usize) -> String) -> R {
    let fresh: Vec<A> = (0..n).map(|i| ask(&make(), i)).collect();
    let mut stride = 377;
    while n % stride == 0 {
        stride += 2;
    }
    let orders: [(&str, Box<dyn Fn(usize) -> usize>); 4] = [
        ("ascending", Box::new(|i| i)),
        ("descending", Box::new(move |i| n - 1 - i)),
        ("from both ends in turn", Box::new(move |i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 })),
        ("in large steps", Box::new(move |i| i * stride % n)),
    ];
    for (order, at) in orders {
        let o = make();
        acc.states += 1;
        acc.at(|| what.to_string());
        for i in 0..n {
            let k = at(i);
            acc.traces += 1;
            acc.transitions += 1;
            let got = ask(&o, k);
            if got != fresh[k] {
                return bad(format!("{what}\nall questions {order}, number {i}: {}", name(k)), format!("{:?}, as a fresh object answers", fresh[k]), format!("{got:?}"));
            }
        }
    }
    for f in fresh {
        acc.outcome(&f);
    }
    Ok(())
}

fn interp_long<V: Bits, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str) -> R {
    for n in [3, 4, 9, 40] {
        let q: Vec<(V, V)> = (0..n).map(|i| (V::from_f64(f64::from(i) + f64::from(i * i % 5) / 8.0).unwrap(), V::from_f64(f64::from(i * i * 3 % 11)).unwrap())).collect();
        let x = |i: usize| V::from_f64((i as f64 - 10.0) * f64::from(n) / 980.0).unwrap();
        in_orders(acc, &format!("{name}<{}> through {n} points", V::NAME), 1001, &|| I::default().try_fit(&q).ok().expect("library refuses a fit"), &|o, i| ans(|| ie(o.try_value(x(i)))), &|i| format!("value at {:?}", x(i)))?;
    }
    Ok(())
}
fn hermite_long<V: Bits>(acc: &mut Acc) -> R {
    for n in [3, 4, 9, 40] {
        let q: Vec<(V, V, V)> = (0..n).map(|i| (V::from_f64(f64::from(i) + f64::from(i * i % 5) / 8.0).unwrap(), V::from_f64(f64::from(i * i * 3 % 11)).unwrap(), V::from_f64(f64::from(i % 3)).unwrap())).collect();
        let x = |i: usize| V::from_f64((i as f64 - 10.0) * f64::from(n) / 980.0).unwrap();
        in_orders(acc, &format!("Hermite<{}> through {n} points", V::NAME), 1001, &|| Hermite::try_new(&q).ok().expect("library refuses a fit"), &|o, i| ans(|| ie(o.try_value(x(i)))), &|i| format!("value at {:?}", x(i)))?;
    }
    Ok(())
}
fn curve_long<V: Bits, D: DayCount, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str) -> R {
    let s = num((2024, 1, 31));
    let q = |i: usize| -> (i64, i64) {
        let k = i as i64 / 3;
        match i % 3 {
            0 => (s, s + k),
            1 => (s + k, s + k + 1),
            _ => (s + k / 2, s + k),
        }
    };
    for c in 0..2 {
        in_orders(acc, &format!("{name}<{}> curve {c}", V::NAME), 3 * 2003, &|| curve::<V, D, I>(s, c).ok().expect("library refuses a curve"), &|o, i| ans(|| ql(kind(o.discount_factor(mk(q(i).0), mk(q(i).1))))), &|i| format!("discount factor from {} to {}", show(from_num(q(i).0)), show(from_num(q(i).1))))?;
    }
    Ok(())
}

/// All ordered pairs of questions put to one object, one straight after the other; each answer against a fresh
/// object's.
fn in_pairs<O>(acc: &mut Acc, what: &str, n: usize, make: &dyn Fn() -> O, ask: &dyn Fn(&O, usize) -> A, name: &dyn Fn(usize) -> String) -> R {
    let fresh: Vec<A> = (0..n).map(|i| ask(&make(), i)).collect();
    let o = make();
    acc.states += 1;
    acc.at(|| what.to_string());
    for a in 0..n {
        for b in 0..n {
            for k in [a, b] {
                acc.traces += 1;
                acc.transitions += 1;
                let got = ask(&o, k);
                if got != fresh[k] {
                    return bad(format!("{what}\nall ordered pairs of questions\n{}\n{}", name(a), name(b)), format!("{:?} for {}, as a fresh object answers", fresh[k], name(k)), format!("{got:?}"));
                }
            }
        }
    }
    for f in fresh {
        acc.outcome(&f);
    }
    Ok(())
}
/// Points whose coordinates are no binary fractions: at a shared point the two segments round differently.
pub fn decimal(i: usize) -> (f64, f64) {
    (0.1 * i as f64 + 0.013 * (i * i % 7) as f64, [0.1, 0.7, 0.2, 0.4, 0.31, -0.6, 0.3][i % 7])
}
/// Each point, its two neighbours among the floats and the middle of the segment after it.
pub fn around<V: Bits>(xs: &[V], i: usize) -> V {
    let x = xs[i / 4];
    let tiny = x * V::epsilon();
    match i % 4 {
        0 => x,
        1 => x - tiny,
        2 => x + tiny,
        _ => (x + xs[(i / 4 + 1) % xs.len()]) / V::from_i64(2).unwrap(),
    }
}
fn interp_pairs<V: Bits, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str, n: usize) -> R {
    let q: Vec<(V, V)> = (0..n).map(decimal).map(|p| (V::from_f64(p.0).unwrap(), V::from_f64(p.1).unwrap())).collect();
    let xs: Vec<V> = q.iter().map(|p| p.0).collect();
    in_pairs(acc, &format!("{name}<{}> through {n} points {:?}...", V::NAME, &q[..3]), 4 * n, &|| I::default().try_fit(&q).ok().expect("library refuses a fit"), &|o, i| ans(|| ie(o.try_value(around(&xs, i)))), &|i| format!("value at {:?}", around(&xs, i)))
}
fn hermite_pairs<V: Bits>(acc: &mut Acc, n: usize) -> R {
    let q: Vec<(V, V, V)> = (0..n).map(|i| (decimal(i), decimal(i + 1))).map(|(p, s)| (V::from_f64(p.0).unwrap(), V::from_f64(p.1).unwrap(), V::from_f64(s.1).unwrap())).collect();
    let xs: Vec<V> = q.iter().map(|p| p.0).collect();
    in_pairs(acc, &format!("Hermite<{}> through {n} points {:?}...", V::NAME, &q[..3]), 4 * n, &|| Hermite::try_new(&q).ok().expect("library refuses a fit"), &|o, i| ans(|| ie(o.try_value(around(&xs, i)))), &|i| format!("value at {:?}", around(&xs, i)))
}
fn curve_pairs<V: Bits, D: DayCount, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str, n: usize) -> R {
    let s = num((2024, 1, 31));
    let day = |i: usize| s + 97 * i as i64 + [0, 3, 1, 11][i % 4];
    let mats: Vec<Date> = (0..n).map(|i| mk(day(i))).collect();
    let ys: Vec<V> = (0..n).map(|i| V::from_f64(decimal(i).1 / 10.0).unwrap()).collect();
    let q = |i: usize| match i % 4 {
        0 => (s, day(i / 4)),
        1 => (day(i / 4), day(i / 4) + 1),
        2 => (day(i / 4) - i64::from(i > 3), day(i / 4)),
        _ => (day(i / 4), day((i / 4 + 1).min(n - 1))),
    };
    in_pairs(acc, &format!("{name}<{}> curve with {n} quotes", V::NAME), 4 * n, &|| YieldCurve::<D, I>::new(mk(s), &mats, &ys).ok().expect("library refuses a curve"), &|o, i| ans(|| ql(kind(o.discount_factor(mk(q(i).0), mk(q(i).1))))), &|i| format!("discount factor from {} to {}", show(from_num(q(i).0)), show(from_num(q(i).1))))
}

const QS: [f64; 8] = [0.0, 0.75, 1.0, 2.5, 3.9, 4.0, -0.5, 4.5];

fn interp_object<V: Bits, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str, depth: usize) -> R {
    let names: Vec<String> = QS.iter().map(|x| format!("value at {x}")).collect();
    for p in [PTS[0], PTS[2], PTS[4]] {
        let q: Vec<(V, V)> = p.iter().map(|q| (V::from_f64(q.0).unwrap(), V::from_f64(q.1).unwrap())).collect();
        on_object(acc, &format!("{name}<{}> through {p:?}", V::NAME), &names, depth, &|| I::default().try_fit(&q).ok().expect("library refuses a fit"), &|o, i| ie(o.try_value(V::from_f64(QS[i]).unwrap())))?;
    }
    Ok(())
}
fn hermite_object<V: Bits>(acc: &mut Acc, depth: usize) -> R {
    let names: Vec<String> = QS.iter().map(|x| format!("value at {x}")).collect();
    for p in [PTS[0], PTS[2], PTS[4]] {
        let q: Vec<(V, V, V)> = p.iter().map(|q| (V::from_f64(q.0).unwrap(), V::from_f64(q.1).unwrap(), V::from_f64(q.0 - q.1).unwrap())).collect();
        on_object(acc, &format!("Hermite<{}> through {p:?}", V::NAME), &names, depth, &|| Hermite::try_new(&q).ok().expect("library refuses a fit"), &|o, i| ie(o.try_value(V::from_f64(QS[i]).unwrap())))?;
    }
    Ok(())
}

const DS: [(i64, i64); 8] = [(0, 100), (0, 800), (100, 800), (100, 100), (399, 401), (0, 2001), (-1, 5), (9, 8)];

fn curve_object<V: Bits, D: DayCount, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str, depth: usize) -> R {
    let s = num((2024, 1, 31));
    let names: Vec<String> = DS.iter().map(|x| format!("discount factor from {} to {}", show(from_num(s + x.0)), show(from_num(s + x.1)))).collect();
    for i in 0..2 {
        on_object(acc, &format!("{name}<{}> curve {i}", V::NAME), &names, depth, &|| curve::<V, D, I>(s, i).ok().expect("library refuses a curve"), &|c, i| ql(kind(c.discount_factor(mk(s + DS[i].0), mk(s + DS[i].1)))))?;
    }
    Ok(())
}

/// Bonds and curves shared by all questions of a sequence.
fn portfolio<V: Bits>(acc: &mut Acc, depth: usize, part: usize, parts: usize) -> R {
    let s = num((2024, 1, 31));
    let days = [0, 182, 200, 700, -10];
    let mut qs: Vec<(usize, usize, i64)> = Vec::new();
    for b in 0..3 {
        for c in 0..2 {
            for (i, &day) in days.iter().enumerate() {
                if (b + c + i) % 2 == 0 || b == 0 {
                    qs.push((b, c, day));
                }
            }
        }
    }
    let name = |q: &(usize, usize, i64)| format!("value of bond {} on curve {} at {}", q.0, q.1, show(from_num(s + q.2)));
    type C<V> = YieldCurve<Act365, Linear<V>>;
    let make = || -> (Vec<Bond<V>>, Vec<C<V>>) {
        ((0..3).map(|i| terms(i).real::<V>().expect("library refuses a bond")).collect(), (0..2).map(|i| curve::<V, Act365, Linear<V>>(s, i).ok().expect("library refuses a curve")).collect())
    };
    let ask = |o: &(Vec<Bond<V>>, Vec<C<V>>), q: &(usize, usize, i64)| ans(|| ql(kind(o.0[q.0].discounted_value(mk(s + q.2), &o.1[q.1]))));
    let fresh: Vec<A> = qs.iter().map(|q| ask(&make(), q)).collect();
    let k = qs.len();
    for seq in (part..k.pow(depth as u32)).step_by(parts) {
        acc.states += 1;
        acc.at(|| "portfolio".into());
        let o = make();
        let mut t = seq;
        for step in 0..depth {
            let i = t % k;
            t /= k;
            acc.traces += 1;
            acc.transitions += 1;
            let got = ask(&o, &qs[i]);
            if got != fresh[i] {
                let mut t = seq;
                let ops: Vec<String> = (0..=step)
                    .map(|_| {
                        let n = name(&qs[t % k]);
                        t /= k;
                        n
                    })
                    .collect();
                return bad(ops.join("\n"), format!("{:?}, as fresh objects answer", fresh[i]), format!("{got:?}"));
            }
        }
    }
    for f in &fresh {
        acc.outcome(f);
    }
    Ok(())
}

// ------------------------------------------------------------------------------- fitting again
fn sets() -> Vec<Vec<(f64, f64)>> {
    let mut v: Vec<Vec<(f64, f64)>> = PTS[..5].iter().map(|p| p.to_vec()).collect();
    // the first set moved, scaled, mirrored; a constant; a long one; bad ones come last
    v.push(PTS[0].iter().map(|p| (p.0 + 100.0, p.1)).collect());
    v.push(PTS[0].iter().map(|p| (p.0, p.1 * 10.0)).collect());
    v.push(vec![(0.0, 2.0), (1.5, 2.0), (3.0, 2.0), (4.0, 1.0)]);
    v.push((0..17).map(|i| (f64::from(i) * 0.25, f64::from(i * i % 7))).collect());
    v.push(vec![(0.0, 1.0), (4.0, 2.0)]);
    v.push(PTS[5].to_vec());
    v.push(vec![]);
    v
}

fn refit<V: Bits, I: Interpolator<Value = V>>(acc: &mut Acc, name: &str, depth: usize, first: usize) -> R {
    let sets: Vec<Vec<(V, V)>> = sets().iter().map(|s| s.iter().map(|p| (V::from_f64(p.0).unwrap(), V::from_f64(p.1).unwrap())).collect()).collect();
    let xs: Vec<V> = [0.25, 1.0, 2.25, 3.5, 4.0, -1.0, 5.0, 101.0].iter().map(|x| V::from_f64(*x).unwrap()).collect();
    // None: the fit panics
    let all = |i: &I| xs.iter().map(|&x| ans(|| ie(i.try_value(x)))).collect::<Vec<_>>();
    let fit = |i: I, s: usize| guard(|| i.try_fit(&sets[s]));
    let fresh: Vec<Result<Vec<A>, A>> = (0..sets.len())
        .map(|s| match fit(I::default(), s) {
            Ok(Ok(i)) => Ok(all(&i)),
            Ok(Err(e)) => Err(ie::<V>(Err(e))),
            Err(_) => Err(A::Panic),
        })
        .collect();
    // all chains of point sets, with every single question (or none, or all) before each new fit
    let k = sets.len();
    let asks = xs.len() + 2;
    for code in 0..k.pow(depth as u32 - 1) {
        for ask in 0..asks {
            acc.states += 1;
            acc.at(|| format!("{name} fitted repeatedly"));
            let mut chain = vec![first];
            let mut t = code;
            for _ in 1..depth {
                chain.push(t % k);
                t /= k;
            }
            let mut obj = I::default();
            for (step, &s) in chain.iter().enumerate() {
                acc.traces += 1;
                acc.transitions += 1;
                let op = |w: &str| format!("{name}<{}>: fitted one after the other to {}, asked {} in between\n{w}", V::NAME, chain[..=step].iter().map(|s| format!("{:?}", sets[*s])).collect::<Vec<_>>().join(" then "), if ask < xs.len() { format!("for {:?}", xs[ask]) } else if ask == xs.len() { "nothing".into() } else { "everything".into() });
                match fit(obj, s) {
                    Ok(Ok(i)) => {
                        let Ok(want) = &fresh[s] else { return bad(op("last fit"), format!("{:?}, as a first fit gives", fresh[s]), "a fit") };
                        if ask < xs.len() {
                            let g = ans(|| ie(i.try_value(xs[ask])));
                            if g != want[ask] {
                                return bad(op("the question"), format!("{:?}, as after a first fit", want[ask]), format!("{g:?}"));
                            }
                        }
                        if ask > xs.len() || step + 1 == chain.len() {
                            let g = all(&i);
                            if g != *want {
                                return bad(op(&format!("values at {xs:?}")), format!("{want:?}, as after a first fit"), format!("{g:?}"));
                            }
                        }
                        obj = i;
                    }
                    other => {
                        let g = match other {
                            Ok(Err(e)) => ie::<V>(Err(e)),
                            _ => A::Panic,
                        };
                        if fresh[s] != Err(g) {
                            return bad(op("last fit"), format!("{:?}, as a first fit gives", fresh[s]), format!("{g:?}"));
                        }
                        // the interpolator is gone; the next fit starts from a new one
                        obj = I::default();
                    }
                }
            }
        }
    }
    for f in &fresh {
        acc.outcome(f);
    }
    Ok(())
}

// ------------------------------------------------------------------------------- markets
/// Days of interest of a year.
fn year_days(y: i32) -> std::ops::RangeInclusive<i64> {
    num((y, 1, 1))..=num((y, 12, 31))
}

const DATE_QUESTIONS: usize = 16;
fn ask_date(x: Date, q: usize) -> i64 {
    let s = |d: Option<Date>| d.map_or(i64::MIN, |d| i64::from(d.serial_date()));
    let from = d(2000, 2, 29);
    match q {
        0 => s(x.weekend_roll()),
        1 => i64::from(x.year()),
        2 => i64::from(x.month()),
        3 => i64::from(x.day()),
        4 => i64::from(x.leap_year()),
        5 => i64::from(x.serial_date()),
        6 => s(x.succ_opt()),
        7 => s(x.pred_opt()),
        8 => s(x.checked_add_months(Months::new(1))),
        9 => s(x.checked_sub_months(Months::new(11))),
        10 => s(x.checked_add_years(Years::new(1))),
        11 => s(x.checked_add_years(Years::new(-1))),
        12 => s(x.checked_add_days(Days::new(45))),
        13 => s(x.checked_sub_days(Days::new(45))),
        14 => x - from,
        _ => {
            let (a, b) = if x < from { (x, from) } else { (from, x) };
            let f: f64 = Thirty360::calculate_day_count_fraction(a, b).unwrap_or(f64::NAN);
            (f * 360.0).round() as i64
        }
    }
}
fn model_date(n: i64, q: usize) -> i64 {
    let (y, m, dd) = from_num(n);
    let serial = |n: i64| n - num((1, 1, 1)) + 1;
    let by = |k: i64| {
        let (y, m, d) = civil::add_months((y, m, dd), k);
        serial(num((y as i32, m, d)))
    };
    match q {
        0 => serial(n + [0, 0, 0, 0, 0, 2, 1][civil::weekday(n) as usize]),
        1 => i64::from(y),
        2 => i64::from(m),
        3 => i64::from(dd),
        4 => i64::from(civil::leap(y)),
        5 => serial(n),
        6 => serial(n + 1),
        7 => serial(n - 1),
        8 => by(1),
        9 => by(-11),
        10 => by(12),
        11 => by(-12),
        12 => serial(n + 45),
        13 => serial(n - 45),
        14 => n - num((2000, 2, 29)),
        _ => {
            let (a, b) = if n < num((2000, 2, 29)) { ((y, m, dd), (2000, 2, 29)) } else { ((2000, 2, 29), (y, m, dd)) };
            360 * (i64::from(b.0) - i64::from(a.0)) + 30 * (i64::from(b.1) - i64::from(a.1)) + i64::from(b.2.min(30)) - i64::from(a.2.min(30))
        }
    }
}

pub fn c24(run: &Run) {
    // sequences from fresh processes
    let names: Vec<String> = alphabet().iter().map(|o| o.name.clone()).collect();
    let groups: Vec<&'static str> = alphabet().iter().map(|o| o.group).collect();
    let (rc, out) = spawn(&["answers"], "");
    let answers: Vec<String> = out.lines().map(str::to_string).collect();
    if rc != Some(0) || answers.len() != names.len() || answers.iter().any(|a| a.len() != 16 || a.starts_with("died")) {
        eprintln!("HARNESS ERROR: no answers from the sub-process: {rc:?} {out}");
        std::process::exit(2);
    }
    let all: Vec<usize> = (0..names.len()).collect();
    let of = |g: &str| -> Vec<usize> { all.iter().copied().filter(|&i| groups[i] == g).collect() };
    sequences(run, "fresh", "all", run.pick(2, 3), &answers, &names, &all);
    for (name, g) in [("fresh-dates", "dates"), ("fresh-markets", "markets"), ("fresh-curves", "curves")] {
        let depth = match (g, run.thorough) {
            ("dates", false) => 4,
            ("dates", true) => 6,
            (_, true) => 4,
            _ => 3,
        };
        sequences(run, name, g, depth, &answers, &names, &of(g));
    }
    // single questions in pairs and triples
    let fams: Vec<(Vec<(String, bool)>, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..FAMILIES.len())
            .map(|k| {
                sc.spawn(move || {
                    let titles: Vec<(String, bool)> = family(k).iter().map(|a| (a.name.clone(), a.core)).collect();
                    let (rc, out) = spawn(&["atoms", &k.to_string()], "");
                    let alone: Vec<String> = out.lines().map(str::to_string).collect();
                    if rc != Some(0) || alone.len() != titles.len() || alone.iter().any(|a| a.len() != 16 || a.starts_with("died")) {
                        eprintln!("HARNESS ERROR: no answers from the sub-process: {rc:?} {out}");
                        std::process::exit(2);
                    }
                    (titles, alone.join(" "))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("family")).collect()
    });
    let jobs = |k: usize, triples: bool| -> usize { if triples { fams[k].0.iter().filter(|t| t.1).count() } else { fams[k].0.len() } };
    for triples in [false, true] {
        let chunks: Vec<(usize, usize)> = (0..FAMILIES.len()).filter(|&k| !triples || k == 0).flat_map(|k| (0..jobs(k, triples).div_ceil(BATCH)).map(move |b| (k, b))).collect();
        let bound = if triples {
            format!("all {} ordered triples of {} single questions that differ in one respect each; every answer against that question asked alone in a fresh process, bit for bit", jobs(0, true).pow(3), jobs(0, true))
        } else {
            format!("all ordered pairs of single questions that differ in one respect each, in nine families ({}); every answer against that question asked alone in a fresh process, bit for bit", (0..FAMILIES.len()).map(|k| format!("{}: {}", FAMILIES[k], jobs(k, false))).collect::<Vec<_>>().join(", "))
        };
        run.section(if triples { "triples" } else { "pairs" }, &bound, chunks.len(), |c, acc| {
            let (fam, batch) = chunks[c];
            let titles = &fams[fam].0;
            acc.at(|| format!("{}, batch {batch}", FAMILIES[fam]));
            let (rc, out) = spawn(&["pairs", &fam.to_string(), &batch.to_string(), if triples { "triples" } else { "pairs" }], &fams[fam].1);
            let n = jobs(fam, triples);
            let k = ((n - batch * BATCH).min(BATCH) * if triples { n * n } else { n }) as u64;
            acc.states += k;
            acc.traces += k * if triples { 3 } else { 2 };
            acc.transitions += k * if triples { 3 } else { 2 };
            acc.outcome(&c);
            acc.sample(|| format!("{}: {} before each other", FAMILIES[fam], titles[batch * BATCH].0));
            match rc {
                Some(0) => Ok(()),
                Some(1) => {
                    let (path, got) = out.lines().next().unwrap_or("").split_once('\t').unwrap_or(("", "")).to_owned();
                    let ops: Vec<String> = path.split(',').filter_map(|x| x.parse::<usize>().ok()).map(|i| titles[i].0.clone()).collect();
                    bad(ops.join("\n"), "the answer the last question gets when asked alone", got.to_string())
                }
                rc => bad(format!("{}, batch {batch}", FAMILIES[fam]), "answers", format!("the process died with {rc:?}")),
            }
        });
    }
    // objects
    let depth = run.pick(6, 7);
    run.section("objects", &format!("34 fitted interpolators and curves x all sequences of {depth} of 8 questions (on, between and outside the points), each answer against a fresh object's, bit for bit"), 17, |c, acc| {
        match c {
            0 => interp_object::<f64, Linear<f64>>(acc, "Linear", depth),
            1 => interp_object::<f32, Linear<f32>>(acc, "Linear", depth),
            2 => interp_object::<f64, NaturalCubic<f64>>(acc, "NaturalCubic", depth),
            3 => interp_object::<f32, NaturalCubic<f32>>(acc, "NaturalCubic", depth),
            4 => interp_object::<f64, CatmullRom<f64>>(acc, "CatmullRom", depth),
            5 => interp_object::<f32, CatmullRom<f32>>(acc, "CatmullRom", depth),
            6 => hermite_object::<f64>(acc, depth),
            7 => hermite_object::<f32>(acc, depth),
            8 => curve_object::<f64, Act365, Linear<f64>>(acc, "actual/365 linear", depth),
            9 => curve_object::<f64, Act360, NaturalCubic<f64>>(acc, "actual/360 natural cubic", depth),
            10 => curve_object::<f64, Thirty360, CatmullRom<f64>>(acc, "30/360 Catmull-Rom", depth),
            11 => curve_object::<f32, Thirty360, Linear<f32>>(acc, "30/360 linear", depth),
            12 => curve_object::<f32, Act365, NaturalCubic<f32>>(acc, "actual/365 natural cubic", depth),
            13 => curve_object::<f64, Thirty360, Linear<f64>>(acc, "30/360 linear", depth),
            14 => curve_object::<f64, Act360, Linear<f64>>(acc, "actual/360 linear", depth),
            15 => curve_object::<f64, Act365, CatmullRom<f64>>(acc, "actual/365 Catmull-Rom", depth),
            _ => curve_object::<f64, Act365, NaturalCubic<f64>>(acc, "actual/365 natural cubic", depth),
        }
    });
    run.section("long", "17 interpolator and curve types: every one of some 2000 questions in ascending, descending and two interleaved orders to one object, each answer against a fresh object's, bit for bit", 17, |c, acc| match c {
        0 => interp_long::<f64, Linear<f64>>(acc, "Linear"),
        1 => interp_long::<f32, Linear<f32>>(acc, "Linear"),
        2 => interp_long::<f64, NaturalCubic<f64>>(acc, "NaturalCubic"),
        3 => interp_long::<f32, NaturalCubic<f32>>(acc, "NaturalCubic"),
        4 => interp_long::<f64, CatmullRom<f64>>(acc, "CatmullRom"),
        5 => interp_long::<f32, CatmullRom<f32>>(acc, "CatmullRom"),
        6 => hermite_long::<f64>(acc),
        7 => hermite_long::<f32>(acc),
        8 => curve_long::<f64, Act365, Linear<f64>>(acc, "actual/365 linear"),
        9 => curve_long::<f64, Act360, NaturalCubic<f64>>(acc, "actual/360 natural cubic"),
        10 => curve_long::<f64, Thirty360, CatmullRom<f64>>(acc, "30/360 Catmull-Rom"),
        11 => curve_long::<f32, Thirty360, Linear<f32>>(acc, "30/360 linear"),
        12 => curve_long::<f32, Act365, NaturalCubic<f32>>(acc, "actual/365 natural cubic"),
        13 => curve_long::<f64, Thirty360, Linear<f64>>(acc, "30/360 linear"),
        14 => curve_long::<f64, Act360, Linear<f64>>(acc, "actual/360 linear"),
        15 => curve_long::<f64, Act365, CatmullRom<f64>>(acc, "actual/365 Catmull-Rom"),
        _ => curve_long::<f64, Act365, NaturalCubic<f64>>(acc, "actual/365 natural cubic"),
    });
    let sizes: Vec<usize> = run.pick(vec![3, 8, 33, 100], vec![3, 4, 5, 8, 16, 17, 33, 64, 65, 100, 150, 300]);
    run.section("object-pairs", &format!("16 interpolator and curve types x {sizes:?} points at abscissae that are no binary fractions: all ordered pairs of questions at, just beside and between the points to one object, each answer against a fresh object's, bit for bit"), 16 * sizes.len(), |c, acc| {
        let n = sizes[sizes.len() - 1 - c / 16];
        match c % 16 {
            0 => interp_pairs::<f64, Linear<f64>>(acc, "Linear", n),
            1 => interp_pairs::<f32, Linear<f32>>(acc, "Linear", n),
            2 => interp_pairs::<f64, NaturalCubic<f64>>(acc, "NaturalCubic", n),
            3 => interp_pairs::<f32, NaturalCubic<f32>>(acc, "NaturalCubic", n),
            4 => interp_pairs::<f64, CatmullRom<f64>>(acc, "CatmullRom", n),
            5 => interp_pairs::<f32, CatmullRom<f32>>(acc, "CatmullRom", n),
            6 => hermite_pairs::<f64>(acc, n),
            7 => hermite_pairs::<f32>(acc, n),
            8 => curve_pairs::<f64, Act365, Linear<f64>>(acc, "actual/365 linear", n),
            9 => curve_pairs::<f64, Act360, NaturalCubic<f64>>(acc, "actual/360 natural cubic", n),
            10 => curve_pairs::<f64, Thirty360, CatmullRom<f64>>(acc, "30/360 Catmull-Rom", n),
            11 => curve_pairs::<f32, Thirty360, Linear<f32>>(acc, "30/360 linear", n),
            12 => curve_pairs::<f32, Act365, NaturalCubic<f32>>(acc, "actual/365 natural cubic", n),
            13 => curve_pairs::<f64, Thirty360, Linear<f64>>(acc, "30/360 linear", n),
            14 => curve_pairs::<f64, Act360, Linear<f64>>(acc, "actual/360 linear", n),
            _ => curve_pairs::<f32, Act360, CatmullRom<f32>>(acc, "actual/360 Catmull-Rom", n),
        }
    });
    let depth = run.pick(4, 5);
    run.section("portfolio", &format!("3 bonds and 2 curves shared: all sequences of {depth} valuations, each against fresh objects, f64 and f32"), 64, |c, acc| if c % 2 == 0 { portfolio::<f64>(acc, depth, c / 2, 32) } else { portfolio::<f32>(acc, depth, c / 2, 32) });
    let k = sets().len();
    let depth = run.pick(4, 5);
    run.section("refit", &format!("all chains of {depth} fits from {k} point sets (longer, shorter, same abscissae, same ordinates, refused ones) x no, one of 8 or all questions in between, three interpolators, f64 and f32: as a first fit, bit for bit"), k * 6, |c, acc| match c % 6 {
        0 => refit::<f64, Linear<f64>>(acc, "Linear", depth, c / 6),
        1 => refit::<f32, Linear<f32>>(acc, "Linear", depth, c / 6),
        2 => refit::<f64, NaturalCubic<f64>>(acc, "NaturalCubic", depth, c / 6),
        3 => refit::<f32, NaturalCubic<f32>>(acc, "NaturalCubic", depth, c / 6),
        4 => refit::<f64, CatmullRom<f64>>(acc, "CatmullRom", depth, c / 6),
        _ => refit::<f32, CatmullRom<f32>>(acc, "CatmullRom", depth, c / 6),
    });
    // markets: every pair of years on one market, every pair of markets on one year
    let cals = cals::all();
    let years: Vec<i32> = (1901..=2199).collect();
    let step = run.pick(4usize, 1);
    run.section("year-pairs", &format!("{} market variants: all ordered pairs of years 1901-2199 (the second year {}), Easter of both churches and every day of both years, the two years asked day about; every answer against the first ever given", cals.len(), if step == 1 { "every one".into() } else { format!("in steps of {step}") }), cals.len() * 8, |c, acc| {
        let (c, part) = (c / 8, c % 8);
        let cal = cals[c].cal;
        let easters = |y: i32| (cal.easter_monday(y), cal.orthodox_easter_monday(y));
        let days: Vec<Vec<chrono::NaiveDate>> = years.iter().map(|&y| year_days(y).map(nd).collect()).collect();
        let first: Vec<(_, Vec<bool>)> = years.iter().zip(&days).map(|(&y, ds)| (easters(y), ds.iter().map(|&x| cal.is_business_day(x)).collect())).collect();
        for (i, &a) in years.iter().enumerate().filter(|&(i, _)| i % 8 == part) {
            for j in (i % step..years.len()).step_by(step) {
                let b = years[j];
                acc.states += 1;
                acc.traces += 2;
                acc.transitions += 365;
                acc.at(|| format!("{} in {a} and {b}", cals[c].name));
                let (x, y) = (easters(a), easters(b));
                if x != first[i].0 || y != first[j].0 {
                    return bad(format!("{}: Easter Mondays of {a}\nthen of {b}", cals[c].name), format!("{:?}, {:?} as answered first", first[i].0, first[j].0), format!("{x:?}, {y:?}"));
                }
                for k in 0..days[i].len().min(days[j].len()) {
                    let (x, y) = (cal.is_business_day(days[i][k]), cal.is_business_day(days[j][k]));
                    if x != first[i].1[k] || y != first[j].1[k] {
                        return bad(format!("{}: business day {}\nthen {}", cals[c].name, days[i][k], days[j][k]), format!("{}, {} as answered first", first[i].1[k], first[j].1[k]), format!("{x}, {y}"));
                    }
                }
            }
            acc.outcome(&first[i].0);
        }
        Ok(())
    });
    let span: Vec<i32> = run.pick(vec![2021, 2022, 2023, 2024], (2012..=2024).collect());
    run.section("day-pairs", &format!("{} market variants x all ordered pairs of days of the years {span:?}: one asked, then the other, against the answers given in order", cals.len()), cals.len() * 8, |c, acc| {
        let (c, part) = (c / 8, c % 8);
        let cal = cals[c].cal;
        let days: Vec<chrono::NaiveDate> = span.iter().flat_map(|&y| year_days(y)).map(nd).collect();
        let first: Vec<bool> = days.iter().map(|&x| cal.is_business_day(x)).collect();
        for i in (part..days.len()).step_by(8) {
            acc.states += days.len() as u64;
            acc.traces += 2 * days.len() as u64;
            acc.transitions += days.len() as u64;
            acc.at(|| format!("{} on {}, then every day", cals[c].name, days[i]));
            for j in 0..days.len() {
                let (x, y) = (cal.is_business_day(days[i]), cal.is_business_day(days[j]));
                if x != first[i] || y != first[j] {
                    return bad(format!("{}: business day {}\nthen {}", cals[c].name, days[i], days[j]), format!("{}, {} as answered first", first[i], first[j]), format!("{x}, {y}"));
                }
            }
            acc.outcome(&(i, first[i]));
        }
        Ok(())
    });
    let far: Vec<i64> = (0..28)
        .flat_map(|k| [1i64 << k, (1 << k) + 1, (1 << k) - 1, 7 << k, 3 << k, 365 << k])
        .chain([10, 100, 1000, 10_000, 100_000, 1_000_000, 10_000_000, 30, 366, 1461, 3653, 36_524, 36_525, 146_097, 1_460_970])
        .flat_map(|k| [k, -k])
        .filter(|k| *k != 0)
        .collect::<std::collections::BTreeSet<i64>>()
        .into_iter()
        .collect();
    let bases: Vec<i64> = run.pick(2023..=2024, 2020..=2027).flat_map(year_days).chain((0..400).map(|i| num((-260_000 + i * 1303, 1 + i as u32 % 12, 28)))).collect();
    run.section("dates-apart", &format!("{} dates x the dates {} distances away (powers of two and their neighbours, weeks, years, centuries) x 16 questions: one asked, then the other, against the calendar model", bases.len(), far.len()), bases.len().div_ceil(8), |c, acc| {
        for &a in bases.iter().skip(c * 8).take(8) {
            for &k in &far {
                let b = a + k;
                if !civil::in_range(b - 400) || !civil::in_range(b + 400) {
                    continue;
                }
                let (x, y) = (mk(a), mk(b));
                acc.states += 1;
                for q in 0..DATE_QUESTIONS {
                    acc.traces += 2;
                    acc.transitions += 1;
                    acc.at(|| format!("question {q} about {} and {}", show(from_num(a)), show(from_num(b))));
                    let got = guard(|| (ask_date(x, q), ask_date(y, q)));
                    let want = (model_date(a, q), model_date(b, q));
                    if got != Ok(want) {
                        return bad(format!("question {q} about {}\nthen about {}", show(from_num(a)), show(from_num(b))), format!("{want:?}"), format!("{got:?}"));
                    }
                    acc.outcome(&(q, want.1));
                }
            }
        }
        Ok(())
    });
    run.section("days-apart", &format!("{} market variants x every day 1901-2199 x the days 2^7 to 2^16 later, and whole years of 364, 365, 366 and 1461 days: one asked, then the other, against the answers given in order", cals.len()), cals.len(), |c, acc| {
        let cal = cals[c].cal;
        let days: Vec<chrono::NaiveDate> = (num((1901, 1, 1))..=num((2199, 12, 31))).map(nd).collect();
        let first: Vec<bool> = days.iter().map(|&x| cal.is_business_day(x)).collect();
        for k in (7..=16).map(|k| 1usize << k).chain([364, 365, 366, 1461]) {
            acc.at(|| format!("{} {k} days apart", cals[c].name));
            for i in 0..days.len() - k {
                let (x, y) = (cal.is_business_day(days[i]), cal.is_business_day(days[i + k]));
                if x != first[i] || y != first[i + k] {
                    return bad(format!("{}: business day {}\nthen {}", cals[c].name, days[i], days[i + k]), format!("{}, {} as answered first", first[i], first[i + k]), format!("{x}, {y}"));
                }
            }
            acc.states += (days.len() - k) as u64;
            acc.traces += 2 * (days.len() - k) as u64;
            acc.transitions += (days.len() - k) as u64;
            acc.outcome(&(k, first[k]));
        }
        Ok(())
    });
    let ys: &[i32] = run.pick(&[2024], &[2024, 2023, 2012, 1950]);
    let alone: Vec<Vec<Vec<bool>>> = cals.iter().map(|e| ys.iter().map(|&y| year_days(y).map(|k| guard(|| e.cal.is_business_day(nd(k))).unwrap_or(false)).collect()).collect()).collect();
    run.section("market-pairs", &format!("all ordered pairs of {} market variants x every day of {ys:?}: the same day asked of one, then of the other, backwards through the year, against the answers given in order", cals.len()), cals.len(), |c, acc| {
        for (j, other) in cals.iter().enumerate() {
            for (yi, &y) in ys.iter().enumerate() {
                acc.states += 1;
                for (i, k) in year_days(y).enumerate().collect::<Vec<_>>().into_iter().rev() {
                    acc.traces += 2;
                    acc.transitions += 1;
                    acc.at(|| format!("{} then {} on {}", cals[c].name, other.name, show(from_num(k))));
                    let (a, b) = (cals[c].cal.is_business_day(nd(k)), other.cal.is_business_day(nd(k)));
                    if a != alone[c][yi][i] || b != alone[j][yi][i] {
                        return bad(format!("{} on {}\nthen {} on the same day", cals[c].name, show(from_num(k)), other.name), format!("{}, {} as answered first", alone[c][yi][i], alone[j][yi][i]), format!("{a}, {b}"));
                    }
                    let m = (DateCalendar::is_business_day(&calendar::weekendsonly::WeekendsOnly, mk(k)), b);
                    acc.outcome(&m);
                }
            }
        }
        Ok(())
    });
}
