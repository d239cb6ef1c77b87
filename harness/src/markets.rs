//! C07-C14: market calendars, joint calendars, month ends, business-day counts.
use crate::cals;
use crate::civil::{self, easter, from_num, mdays, num, orthodox_easter, show, weekday, FIRST, LAST};
use crate::dates::{mk, Shim};
use crate::engine::{bad, guard, same, Acc, Run, R};
use crate::rules::{Book, Market, Y0, Y1};
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar;
use chrono::{Datelike, NaiveDate};
use qlab_time::date::Date;
use std::cell::RefCell;

pub fn nd(n: i64) -> NaiveDate {
    let (y, m, d) = from_num(n);
    NaiveDate::from_ymd_opt(y, m, d).expect("chrono date")
}

fn dn(d: NaiveDate) -> i64 {
    num((d.year(), d.month(), d.day()))
}

fn first() -> i64 {
    num((Y0, 1, 1))
}
fn last() -> i64 {
    num((Y1, 12, 31))
}

/// Calls `f` for every day of the given years with its day number and both date types.
fn days(y0: i32, y1: i32, mut f: impl FnMut(i64, NaiveDate) -> R) -> R {
    let mut n = num((y0, 1, 1));
    let end = num((y1, 12, 31));
    let mut d = nd(n);
    while n <= end {
        f(n, d)?;
        n += 1;
        d = d.succ_opt().expect("chrono date");
    }
    Ok(())
}

const PART: usize = 5;
fn part(c: usize) -> (i32, i32) {
    let per = 60;
    let y0 = Y0 + (c % PART) as i32 * per;
    (y0, (y0 + per - 1).min(Y1))
}

const DAYNAME: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];

fn full(n: i64) -> String {
    format!("{} {}", show(from_num(n)), DAYNAME[weekday(n) as usize])
}

// ------------------------------------------------------------------------------------------- C07
const MOEX_WEEKENDS: [(i32, u32, u32); 9] =
    [(2012, 3, 11), (2012, 4, 28), (2012, 5, 5), (2012, 5, 12), (2012, 6, 9), (2016, 2, 20), (2018, 4, 28), (2018, 6, 9), (2018, 12, 29)];

/// Markets none of whose closings depends on Easter.
const NO_EASTER: [&str; 15] = [
    "China", "Israel", "Japan", "SouthKorea", "Taiwan", "Turkey", "WeekendsOnly", "Russia/-", "Russia/Settlement", "Russia/Exchange", "UnitedStates/-",
    "UnitedStates/Settlement", "UnitedStates/Libor", "UnitedStates/NERC", "UnitedStates/FederalReserve",
];

#[derive(Debug)]
struct Spy {
    /// answers of is_business_day and is_holiday, chosen by the environment
    answer: (bool, bool),
    seen: RefCell<Vec<NaiveDate>>,
}
impl Calendar for Spy {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        self.seen.borrow_mut().push(d);
        self.answer.0
    }
    fn is_holiday(&self, d: NaiveDate) -> bool {
        self.seen.borrow_mut().push(d);
        self.answer.1
    }
}

pub fn c07(run: &Run) {
    let all = cals::all();
    let moex: Vec<i64> = MOEX_WEEKENDS.iter().map(|&x| num(x)).collect();
    run.section("markets", &format!("{} market variants x every day 1901-2199: weekend, complement, adapter", all.len()), all.len() * PART, |c, acc| {
        let e = &all[c / PART];
        let (a, b) = part(c);
        let israel = e.name == "Israel";
        days(a, b, |n, d| {
            acc.at(|| format!("{} {}", e.name, full(n)));
            acc.states += 1;
            acc.traces += 5;
            let w = weekday(n);
            let weekend = if israel { w == 4 || w == 5 } else { w >= 5 };
            let op = |q: &str| format!("{} {q} on {}", e.name, full(n));
            let open = e.cal.is_business_day(d);
            if weekend {
                let want = e.name == "Russia/Exchange" && moex.binary_search(&n).is_ok();
                same(&open, &want, || op("is_business_day (a weekend day)"))?;
            }
            if e.name == "WeekendsOnly" {
                same(&open, &!weekend, || op("is_business_day"))?;
            }
            same(&e.cal.is_weekend(d), &weekend, || op("is_weekend"))?;
            same(&e.cal.is_holiday(d), &!open, || op("is_holiday"))?;
            let q = mk(n);
            same(&(e.adapter)(q), &(open, !open), || op("(is_business_day, is_holiday) through the date type"))?;
            acc.outcome(&(weekend, open, c / PART));
            Ok(())
        })?;
        acc.sample(|| format!("{} {a}-{b}", e.name));
        Ok(())
    });
    // the years for which no calendar has tables
    let eras: Vec<(i32, i32)> = vec![(FIRST.0, FIRST.0 + 1), (-10_000, -9_999), (-401, -399), (-1, 4), (1582, 1584), (1799, 1900), (2200, 2301), (2399, 2401), (9999, 10_001), (99_999, 100_000), (LAST.0 - 1, LAST.0)];
    run.section("other-years", &format!("{} market variants x every day of {} years outside 1901-2199, down to the first and up to the last of the supported range: weekend, complement, adapter, no panic (every 17th day where a listed finding lets a calendar panic)", all.len(), eras.iter().map(|e| e.1 - e.0 + 1).sum::<i32>()), all.len() * eras.len(), |c, acc| {
        let e = &all[c / eras.len()];
        let (a, b) = eras[c % eras.len()];
        let mut skip = 0;
        for n in num((a, 1, 1))..=num((b, 12, 31)) {
            if skip > 0 {
                skip -= 1;
                continue;
            }
            acc.at(|| format!("{} {}", e.name, full(n)));
            let (d, q) = (nd(n), mk(n));
            acc.states += 1;
            acc.traces += 4;
            let w = weekday(n);
            let weekend = if e.name == "Israel" { w == 4 || w == 5 } else { w >= 5 };
            let op = |q: &str| format!("{} {q} on {}", e.name, full(n));
            same(&e.cal.is_weekend(d), &weekend, || op("is_weekend"))?;
            match guard(|| (e.cal.is_business_day(d), e.cal.is_holiday(d), (e.adapter)(q))) {
                Ok((open, holiday, adapter)) => {
                    if weekend || e.name == "WeekendsOnly" {
                        same(&open, &!weekend, || op("is_business_day"))?;
                    }
                    same(&holiday, &!open, || op("is_holiday"))?;
                    same(&adapter, &(open, !open), || op("(is_business_day, is_holiday) through the date type"))?;
                    acc.outcome(&(weekend, open, c / eras.len()));
                }
                Err(p) => {
                    let fail = || bad(op("is_business_day, is_holiday"), "an answer", p);
                    if NO_EASTER.contains(&e.name) {
                        return fail();
                    }
                    acc.finding("no-answer-outside-the-easter-tables", fail)?;
                    skip = 16;
                }
            }
        }
        Ok(())
    });
    run.section("adapter", "every day 1995-2005, month ends 1901-2199 and the ends of the range x both environment answers: the adapter asks about the same day and returns the answer", 2, |c, acc| {
        let answer = (c == 1, c == 0);
        let mut ns: Vec<i64> = (num((1995, 1, 1))..=num((2005, 12, 31))).collect();
        for y in Y0..=Y1 {
            for m in 1..=12 {
                ns.push(num((y, m, mdays(y, m))));
            }
        }
        ns.extend([num(civil::FIRST), num(civil::LAST), num((0, 2, 29)), num((-4, 2, 29))]);
        for n in ns {
            acc.at(|| full(n));
            acc.states += 1;
            acc.traces += 2;
            let spy = Spy { answer, seen: RefCell::default() };
            let q = mk(n);
            let b = qlab_time::calendar::Calendar::is_business_day(&spy, q);
            let s = spy.seen.borrow().clone();
            let asked = |s: &[NaiveDate]| !s.is_empty() && s.iter().all(|x| *x == nd(n));
            if b != answer.0 || !asked(&s) {
                return bad(format!("business-day question about {} to a calendar that answers {}", full(n), answer.0), format!("{} after asking about that day", answer.0), format!("{b} after asking about {s:?}"));
            }
            spy.seen.borrow_mut().clear();
            let h = qlab_time::calendar::Calendar::is_holiday(&spy, q);
            let s = spy.seen.borrow().clone();
            if h != answer.1 || !asked(&s) {
                return bad(format!("holiday question about {} to a calendar that answers {}", full(n), answer.1), format!("{}", answer.1), format!("{h} after asking about {s:?}"));
            }
            acc.outcome(&(answer, b));
        }
        Ok(())
    });
    // a calendar that only says which days are open: the default answers
    run.section("defaults", "two artificial calendars, one for each calendar interface, x both answers x every day 1901-2199 and years 1-9999 by month ends: default holiday complement and weekend", 2, |c, acc| {
        #[derive(Debug)]
        struct Fixed(bool);
        impl Calendar for Fixed {
            fn is_business_day(&self, _: NaiveDate) -> bool {
                self.0
            }
        }
        /// the same for the date library's own calendar interface
        struct Dated(bool, RefCell<Option<Date>>);
        impl qlab_time::calendar::Calendar for Dated {
            fn is_business_day(&self, d: Date) -> bool {
                *self.1.borrow_mut() = Some(d);
                self.0
            }
        }
        let cal = Fixed(c == 1);
        let dated = Dated(c == 1, RefCell::default());
        let mut one = |n: i64, d: NaiveDate| {
            acc.states += 1;
            acc.traces += 3;
            same(&cal.is_holiday(d), &!cal.0, || format!("is_holiday on {} of a calendar that answers {}", full(n), cal.0))?;
            let h = qlab_time::calendar::Calendar::is_holiday(&dated, Date::from(d));
            same(&(h, *dated.1.borrow()), &(!cal.0, Some(Date::from(d))), || format!("is_holiday on {} of a calendar written against the date library that answers {}, and the day it was asked about", full(n), cal.0))?;
            same(&cal.is_weekend(d), &(weekday(n) >= 5), || format!("is_weekend on {}", full(n)))
        };
        days(Y0, Y1, &mut one)?;
        for y in 1..=9999 {
            for m in 1..=12 {
                let n = num((y, m, mdays(y, m)));
                one(n, nd(n))?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C08
pub fn c08(run: &Run) {
    let all = cals::all();
    let book = Book::load();
    let ord = |n: i64| (n - num((from_num(n).0, 1, 1)) + 1) as u32;
    run.section("tables", &format!("all years 1901-2199 x both churches x {} calendars, and joint calendars of them", all.len()), all.len(), |c, acc| {
        let e = &all[c];
        let other = &all[(c + 7) % all.len()];
        let joint = JointCalendar::new(Shim(e.cal), Shim(other.cal));
        let nested = JointCalendar::new(JointCalendar::new(Shim(other.cal), Shim(e.cal)), Shim(e.cal));
        for y in Y0..=Y1 {
            acc.at(|| format!("{} {y}", e.name));
            acc.states += 2;
            acc.traces += 6;
            let (w, o) = (ord(easter(y) + 1), ord(orthodox_easter(y) + 1));
            let txt = |q: &str, k: u32| format!("{q} of {} in {y} (model: day {k} = {})", e.name, full(num((y, 1, 1)) + i64::from(k) - 1));
            same(&guard(|| e.cal.easter_monday(y)), &Ok(w), || txt("Easter Monday", w))?;
            same(&guard(|| e.cal.orthodox_easter_monday(y)), &Ok(o), || txt("Orthodox Easter Monday", o))?;
            for (j, name) in [(&joint as &dyn Calendar, "joint"), (&nested as &dyn Calendar, "nested joint")] {
                same(&guard(|| j.easter_monday(y)), &Ok(w), || txt(&format!("Easter Monday ({name})"), w))?;
                same(&guard(|| j.orthodox_easter_monday(y)), &Ok(o), || txt(&format!("Orthodox Easter Monday ({name})"), o))?;
            }
            acc.outcome(&(y, w, o));
        }
        acc.sample(|| format!("{}: Easter Monday 2024 is day {}", e.name, ord(easter(2024) + 1)));
        Ok(())
    });
    run.section("closings", &format!("{} market variants x the days from Maundy Thursday to Easter Tuesday of their church, every year 1901-2199, against the holiday rules", all.len()), all.len(), |c, acc| {
        let e = &all[c];
        let m = book.compile(e.name);
        let orthodox = ["Romania", "Ukraine"].contains(&e.name);
        for y in Y0..=Y1 {
            let es = if orthodox { orthodox_easter(y) } else { easter(y) };
            for n in es - 3..=es + 2 {
                acc.at(|| format!("{} {}", e.name, full(n)));
                acc.states += 1;
                acc.traces += 1;
                let got = e.cal.is_business_day(nd(n));
                same(&got, &m.open(n), || format!("{} is_business_day on {} (Easter{:+}; model: {})", e.name, full(n), n - es, m.reason(n)))?;
                acc.outcome(&(n - es, got, c));
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------- C09 .. C11
pub const EUROPE: &[&str] = &["Austria", "CzechRepublic", "Denmark", "Finland", "France", "Germany", "Hungary", "Iceland", "Italy", "Norway", "Poland", "Romania", "Russia", "Slovakia", "Sweden", "Switzerland", "Target", "Ukraine", "UnitedKingdom"];
pub const AMERICAS: &[&str] = &["Argentina", "Brazil", "Canada", "Chile", "Mexico", "UnitedStates"];
pub const REST: &[&str] = &["Australia", "Botswana", "China", "HongKong", "India", "Indonesia", "Israel", "Japan", "NewZealand", "Singapore", "SouthAfrica", "SouthKorea", "Taiwan", "Thailand", "Turkey", "WeekendsOnly"];

pub fn region(run: &Run, countries: &[&str]) {
    let all: Vec<_> = cals::all().into_iter().filter(|e| countries.contains(&e.name.split('/').next().unwrap())).collect();
    let book = Book::load();
    let models: Vec<Market> = all.iter().map(|e| book.compile(e.name)).collect();
    let known = book.compile("~FranceKnownDeviation");
    run.assume("the rule files state the published holidays; see DESIGN.md for how they were established");
    run.section("days", &format!("{} market variants x every day 1901-2199 against the declarative holiday rules, directly and through the date type", all.len()), all.len() * PART, |c, acc| {
        let (e, m) = (&all[c / PART], &models[c / PART]);
        let (a, b) = part(c);
        let france = e.name == "France/-" || e.name == "France/Settlement";
        days(a, b, |n, d| {
            acc.at(|| format!("{} {}", e.name, full(n)));
            acc.states += 1;
            acc.traces += 2;
            let got = e.cal.is_business_day(d);
            let want = m.open(n);
            let say = || format!("{} is_business_day on {} (model: {})", e.name, full(n), m.reason(n));
            if got != want {
                let b = || bad(say(), want.to_string(), got.to_string());
                if france && got == known.open(n) {
                    acc.finding("france-settlement-fixed-ascension-and-whit-monday", b)?;
                } else {
                    return b();
                }
            }
            if (n + c as i64) % 5 == 0 || !got {
                same(&(e.adapter)(mk(n)), &(got, !got), || format!("{} through the date type", say()))?;
            }
            acc.outcome(&(c / PART, m.reason(n)));
            Ok(())
        })?;
        acc.sample(|| format!("{} {a}-{b}; {a}-01-01: {}", e.name, m.reason(num((a, 1, 1)))));
        Ok(())
    });
    // default markets and default-constructed values
    run.section("defaults", "countries with several markets: the unnamed market answers like the default one, every day 1901-2199", 1, |_, acc| {
        for (e, m) in all.iter().zip(&models).filter(|(e, _)| e.name.ends_with("/-")) {
            let country = e.name.trim_end_matches("/-");
            let default = if country == "Germany" { "FrankfurtStockExchange" } else if all.iter().any(|x| x.name == format!("{country}/Settlement")) { "Settlement" } else { "" };
            let Some((twin, _)) = all.iter().zip(&models).find(|(x, _)| x.name == format!("{country}/{default}")) else { continue };
            days(Y0, Y1, |n, d| {
                acc.at(|| format!("{} {}", e.name, full(n)));
                acc.states += 1;
                acc.traces += 2;
                same(&e.cal.is_business_day(d), &twin.cal.is_business_day(d), || format!("{} against {} on {} (model: {})", e.name, twin.name, full(n), m.reason(n)))
            })?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C12
/// Artificial market: closed days by bit mask over a window, open elsewhere.
#[derive(Debug, Clone, Copy, Default)]
pub struct Mask {
    pub base: i64,
    pub mask: u64,
}
impl Mask {
    pub fn open(&self, n: i64) -> bool {
        let i = n - self.base;
        !((0..64).contains(&i) && self.mask >> i & 1 == 1)
    }
    fn show(&self) -> String {
        format!("open except {:?}", (0..64).filter(|i| self.mask >> i & 1 == 1).map(|i| show(from_num(self.base + i))).collect::<Vec<_>>())
    }
}
impl Calendar for Mask {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        self.open(dn(d))
    }
}

/// Artificial market: closed on one interval.
#[derive(Debug, Clone, Copy, Default)]
struct Span {
    from: i64,
    to: i64,
}
impl Calendar for Span {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        !(self.from..=self.to).contains(&dn(d))
    }
}

fn count(open: &dyn Fn(i64) -> bool, a: i64, b: i64, first: Option<bool>, last: Option<bool>) -> i64 {
    if a > b {
        return -count(open, b, a, first, last);
    }
    let lo = if first.unwrap_or(true) { a } else { a + 1 };
    let hi = if last.unwrap_or(false) { b } else { b - 1 };
    let mut k = 0;
    let mut n = lo;
    while n <= hi {
        k += i64::from(open(n));
        n += 1;
    }
    k
}

fn end_of_month(open: &dyn Fn(i64) -> bool, n: i64) -> i64 {
    let (y, m, _) = from_num(n);
    let mut t = num((y, m, mdays(y, m)));
    while !open(t) {
        t -= 1;
    }
    t
}

const OPT: [Option<bool>; 3] = [None, Some(true), Some(false)];

pub fn c12(run: &Run) {
    let all = cals::all();
    let k = all.len();
    let (y0, y1) = (1901, 2199);
    let table: Vec<Vec<bool>> = std::thread::scope(|s| {
        let h: Vec<_> = all
            .iter()
            .map(|e| {
                s.spawn(move || {
                    let mut v = Vec::new();
                    let mut d = nd(num((y0, 1, 1)));
                    for _ in num((y0, 1, 1))..=num((y1, 12, 31)) {
                        v.push(e.cal.is_business_day(d));
                        d = d.succ_opt().expect("chrono date");
                    }
                    v
                })
            })
            .collect();
        h.into_iter().map(|x| x.join().unwrap_or_default()).collect()
    });
    run.section("pairs", &format!("all {} ordered pairs of market variants x every day {y0}-{y1}: conjunction, complement", k * k), k * k, |c, acc| {
        let (i, j) = (c / k, c % k);
        let joint = JointCalendar::new(Shim(all[i].cal), Shim(all[j].cal));
        let base = num((y0, 1, 1));
        let mut seen = [0u64; 4];
        days(y0, y1, |n, d| {
            let t = (n - base) as usize;
            acc.at(|| format!("{}+{} {}", all[i].name, all[j].name, full(n)));
            let want = table[i][t] && table[j][t];
            let got = joint.is_business_day(d);
            if got != want {
                return bad(format!("joint({}, {}) is_business_day on {}", all[i].name, all[j].name, full(n)), want.to_string(), got.to_string());
            }
            if n % 3 == 0 {
                same(&joint.is_holiday(d), &!want, || format!("joint({}, {}) is_holiday on {}", all[i].name, all[j].name, full(n)))?;
            }
            seen[usize::from(table[i][t]) * 2 + usize::from(table[j][t])] += 1;
            Ok(())
        })?;
        acc.states += table[i].len() as u64;
        acc.traces += table[i].len() as u64;
        acc.outcome(&seen);
        acc.sample(|| format!("joint({}, {})", all[i].name, all[j].name));
        Ok(())
    });
    // the public fields and a concrete pair, default construction
    run.section("concrete", "concrete joint calendars (constructor, public fields, default value) x every day 1901-2199, through the market and the date interface", 3, |c, acc| {
        use calendar::{japan::Japan, target::Target, unitedkingdom::UnitedKingdom};
        let a = JointCalendar::new(Target, Japan);
        let b = JointCalendar { c1: Japan, c2: UnitedKingdom { market: None } };
        let z: JointCalendar<UnitedKingdom, Target> = JointCalendar::default();
        let (x, y) = (UnitedKingdom { market: None }, UnitedKingdom::default());
        days(Y0, Y1, |n, d| {
            acc.at(|| full(n));
            acc.states += 1;
            acc.traces += 2;
            let (got, want, q) = match c {
                0 => (a.is_business_day(d), Target.is_business_day(d) && Japan.is_business_day(d), (qlab_time::calendar::Calendar::is_business_day(&a, mk(n)), qlab_time::calendar::Calendar::is_holiday(&a, mk(n)))),
                1 => (b.is_business_day(d), Japan.is_business_day(d) && x.is_business_day(d), (qlab_time::calendar::Calendar::is_business_day(&b, mk(n)), qlab_time::calendar::Calendar::is_holiday(&b, mk(n)))),
                _ => (z.is_business_day(d), y.is_business_day(d) && Target.is_business_day(d), (qlab_time::calendar::Calendar::is_business_day(&z, mk(n)), qlab_time::calendar::Calendar::is_holiday(&z, mk(n)))),
            };
            same(&got, &want, || format!("joint calendar {c} on {}", full(n)))?;
            same(&q, &(want, !want), || format!("joint calendar {c} through the date type on {}", full(n)))
        })
    });
    let w = run.pick(10, 11);
    run.section("artificial-pairs", &format!("all pairs of holiday patterns of a {w}-day window across a month end: every day, all counts between two days and options, month ends"), 1 << w, |c, acc| {
        let base = num((2024, 2, 29)) - w / 2;
        let a = Mask { base, mask: c as u64 };
        for m in 0..1u64 << w {
            let b = Mask { base, mask: m };
            let j = JointCalendar::new(a, b);
            let open = |n: i64| a.open(n) && b.open(n);
            let op = |q: String| format!("joint(A, B) {q}\nA: {}\nB: {}", a.show(), b.show());
            acc.states += 1;
            for n in base - 1..=base + w {
                acc.at(|| op(full(n)));
                acc.traces += 2;
                same(&j.is_business_day(nd(n)), &open(n), || op(format!("is_business_day on {}", full(n))))?;
                same(&j.is_holiday(nd(n)), &!open(n), || op(format!("is_holiday on {}", full(n))))?;
            }
            acc.outcome(&(a.mask | b.mask));
            if (m ^ c as u64) % 5 == 0 {
                for n in [base, base + w - 1] {
                    acc.traces += 1;
                    same(&guard(|| dn(j.end_of_month(nd(n)))), &Ok(end_of_month(&open, n)), || op(format!("end_of_month of {}", full(n))))?;
                }
                let (p, q) = (base + (m % w as u64) as i64, base + w);
                for f in OPT {
                    for l in OPT {
                        acc.traces += 1;
                        same(&guard(|| j.business_days_between(nd(p), nd(q), f, l)), &Ok(count(&open, p, q, f, l)), || op(format!("business_days_between {} {} {f:?} {l:?}", full(p), full(q))))?;
                    }
                }
            }
        }
        Ok(())
    });
    let w3 = run.pick(5, 6);
    run.section("artificial-nested", &format!("all quadruples of holiday patterns of a {w3}-day window in three nestings"), 1 << w3, |c, acc| {
        let base = num((2023, 12, 30));
        let mk = |m: usize| Mask { base, mask: m as u64 };
        let (a, s) = (mk(c), 1usize << w3);
        for bm in 0..s {
            for cm in 0..s {
                for dm in 0..s {
                    let (b, e, f) = (mk(bm), mk(cm), mk(dm));
                    let l = JointCalendar::new(JointCalendar::new(a, b), JointCalendar::new(e, f));
                    let m = JointCalendar::new(JointCalendar::new(JointCalendar::new(a, b), e), f);
                    let r = JointCalendar::new(a, JointCalendar::new(b, JointCalendar::new(e, f)));
                    acc.states += 1;
                    for n in base - 1..=base + w3 {
                        acc.at(|| full(n));
                        acc.traces += 3;
                        let want = a.open(n) && b.open(n) && e.open(n) && f.open(n);
                        let got = (l.is_business_day(nd(n)), m.is_business_day(nd(n)), r.is_business_day(nd(n)));
                        same(&got, &(want, want, want), || format!("three nestings of {c:b} {bm:b} {cm:b} {dm:b} on day {} of the window", n - base))?;
                    }
                    acc.outcome(&(c | bm | cm | dm));
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C13
pub fn c13(run: &Run) {
    let all = cals::all();
    run.section("markets", &format!("{} market variants x every day 1901-2199: last day and last business day of the month", all.len()), all.len() * PART, |c, acc| {
        let e = &all[c / PART];
        let (a, b) = part(c);
        let lo = num((a, 1, 1)) - 40;
        let table: Vec<bool> = (lo..=num((b, 12, 31))).map(|n| n >= first() && e.cal.is_business_day(nd(n))).collect();
        let open = |n: i64| table[(n - lo) as usize];
        let mut cur = (0, 0);
        let (mut ld, mut eom) = (0, 0);
        days(a, b, |n, d| {
            acc.at(|| format!("{} {}", e.name, full(n)));
            let (y, m, _) = from_num(n);
            if (y, m) != cur {
                cur = (y, m);
                ld = num((y, m, mdays(y, m)));
                eom = end_of_month(&open, n);
            }
            acc.states += 1;
            acc.traces += 2;
            let got = e.cal.last_day_of_month(d);
            if got != nd(ld) {
                return bad(format!("{} last_day_of_month of {}", e.name, full(n)), full(ld), got.to_string());
            }
            let got = e.cal.end_of_month(d);
            if dn(got) != eom {
                return bad(format!("{} end_of_month of {}", e.name, full(n)), full(eom), got.to_string());
            }
            acc.outcome(&(m, ld - eom));
            Ok(())
        })?;
        acc.sample(|| format!("{} {a}-{b}", e.name));
        Ok(())
    });
    let with: Vec<usize> = ["Israel", "Japan", "UnitedStates/NYSE", "Turkey"].iter().map(|n| all.iter().position(|e| e.name == *n).expect("market")).collect();
    run.section("joint", &format!("{} market variants, each joined with {} others in both orders and with a third, x first, middle and last day of every month 1901-2199: last day and last business day of the month", all.len(), with.len()), all.len() * with.len(), |c, acc| {
        let (e, f) = (&all[c / with.len()], &all[with[c % with.len()]]);
        let third = &all[with[(c + 1) % with.len()]];
        let (a, b) = (JointCalendar::new(Shim(e.cal), Shim(f.cal)), JointCalendar::new(Shim(f.cal), Shim(e.cal)));
        let nested = JointCalendar::new(Shim(third.cal), JointCalendar::new(Shim(e.cal), Shim(f.cal)));
        for y in Y0..=Y1 {
            for m in 1..=12 {
                let (lo, l) = (num((y, m, 1)), num((y, m, mdays(y, m))));
                let open = |n: i64| n >= first() && e.cal.is_business_day(nd(n)) && f.cal.is_business_day(nd(n));
                let open3 = |n: i64| open(n) && third.cal.is_business_day(nd(n));
                if !(lo..=l).any(open3) {
                    continue;
                }
                let (two, three) = (end_of_month(&open, l), end_of_month(&open3, l));
                for n in [lo, lo + 14, l] {
                    acc.at(|| format!("{} with {} {}", e.name, f.name, full(n)));
                    acc.states += 1;
                    acc.traces += 6;
                    for (cal, want, name) in [(&a as &dyn Calendar, two, "joint"), (&b, two, "joint (exchanged)"), (&nested, three, "nested joint")] {
                        let got = guard(|| (dn(cal.last_day_of_month(nd(n))), dn(cal.end_of_month(nd(n)))));
                        same(&got, &Ok((l, want)), || format!("last_day_of_month and end_of_month of {} on {name}({}, {}; {})", full(n), e.name, f.name, third.name))?;
                    }
                }
                acc.outcome(&(l - two, l - three));
            }
        }
        Ok(())
    });
    let w = run.pick(23u32, 25);
    let ends = [(2023, 1), (2023, 2), (2024, 2), (2100, 2), (2000, 2), (2023, 4), (2023, 11), (2023, 12), (1901, 1), (2199, 12)];
    run.section("patterns", &format!("10 month ends x all {} holiday patterns of the last {w} days x days asked about spread over the month", 1u64 << w), ends.len() * 16, |c, acc| {
        let (y, m) = ends[c / 16];
        let l = num((y, m, mdays(y, m)));
        let base = l - i64::from(w) + 1;
        let f = num((y, m, 1));
        let mut mask = (c % 16) as u64;
        while mask < 1 << w {
            let cal = Mask { base, mask };
            let open = |n: i64| cal.open(n);
            let want = end_of_month(&open, l);
            acc.states += 1;
            for n in [f, f + 1 + (mask % 26) as i64, l - 1, l] {
                acc.at(|| format!("{} {}", cal.show(), full(n)));
                acc.traces += 1;
                let got = guard(|| dn(cal.end_of_month(nd(n))));
                if got != Ok(want) {
                    return bad(format!("end_of_month of {}\ncalendar: {}", full(n), cal.show()), full(want), format!("{:?}", got.map(full)));
                }
            }
            acc.outcome(&(l - want));
            mask += 16;
        }
        Ok(())
    });
    let maxlen = 64;
    run.section("closures", "the last 0..63 days before each month end of 2019-2029 closed, asked from every day of the month", 11 * 12, |c, acc| {
        let (y, m) = (2019 + (c / 12) as i32, (c % 12) as u32 + 1);
        let l = num((y, m, mdays(y, m)));
        for len in 0..maxlen {
            let cal = Mask { base: l - 63, mask: if len == 0 { 0 } else { u64::MAX << (64 - len) } };
            for n in num((y, m, 1))..=l {
                acc.at(|| format!("{} {}", cal.show(), full(n)));
                acc.states += 1;
                acc.traces += 2;
                let got = guard(|| (dn(cal.end_of_month(nd(n))), dn(cal.last_day_of_month(nd(n)))));
                same(&got, &Ok((l - len, l)), || format!("end_of_month and last_day_of_month of {} with the last {len} days of the month closed", full(n)))?;
            }
            acc.outcome(&len);
        }
        Ok(())
    });
    let lens = [64, 89, 90, 91, 92, 93, 100, 120, 180, 181, 364, 365, 366, 367, 400, 731, 999, 1000, 1001, 1100, 3653, 5000, 10_000, 36_525];
    run.section("long-closures", &format!("the last {lens:?} days before each month end of 2023, 2024 and 1999 closed, asked from four days of the month"), 36, |c, acc| {
        let (y, m) = ([2023, 2024, 1999][c / 12], (c % 12) as u32 + 1);
        let l = num((y, m, mdays(y, m)));
        for len in lens {
            let cal = Span { from: l - len + 1, to: l };
            for n in [num((y, m, 1)), num((y, m, 15)), l - 1, l] {
                acc.at(|| format!("closed from {} to {}, {}", full(cal.from), full(cal.to), full(n)));
                acc.states += 1;
                acc.traces += 2;
                let got = guard(|| (dn(cal.end_of_month(nd(n))), dn(cal.last_day_of_month(nd(n)))));
                same(&got, &Ok((l - len, l)), || format!("end_of_month and last_day_of_month of {} with the last {len} days before the month end closed", full(n)))?;
            }
            acc.outcome(&len);
        }
        Ok(())
    });
    run.section("all-years", "last and last business day of the month for every day of the years 1-4000, the first and the last four years of the supported range, and one day of every month of the whole range, on the weekends-only calendar", 24 + 106, |c, acc| {
        let cal = calendar::weekendsonly::WeekendsOnly;
        let check = |n: i64, acc: &mut Acc| {
            let (y, m, _) = from_num(n);
            acc.at(|| full(n));
            acc.states += 1;
            acc.traces += 2;
            let l = num((y, m, mdays(y, m)));
            same(&guard(|| dn(cal.last_day_of_month(nd(n)))), &Ok(l), || format!("last_day_of_month of {}", full(n)))?;
            let w = l - (i64::from(weekday(l)) - 4).max(0);
            same(&guard(|| dn(cal.end_of_month(nd(n)))), &Ok(w), || format!("end_of_month of {}", full(n)))?;
            acc.outcome(&(m, l - w));
            Ok(())
        };
        let c = c as i32;
        if c < 20 {
            for n in num((1 + c * 200, 1, 1))..num((1 + (c + 1) * 200, 1, 1)) {
                check(n, acc)?;
            }
        } else if c < 24 {
            let (a, b) = (FIRST.0 + c - 20, LAST.0 - c + 20);
            for n in (num((a, 1, 1))..=num((a, 12, 31))).chain(num((b, 1, 1))..=num((b, 12, 31))) {
                check(n, acc)?;
            }
        } else {
            for y in FIRST.0 + (c - 24) * 5000..=(FIRST.0 + (c - 23) * 5000 - 1).min(LAST.0) {
                for m in 1..=12 {
                    let dd = (1 + (y.rem_euclid(31) as u32 + 7 * m) % 31).min(mdays(y, m));
                    check(num((y, m, dd)), acc)?;
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C14
pub fn c14(run: &Run) {
    let w = run.pick(16i64, 17);
    let ends = run.pick(12i64, 13);
    run.section("patterns", &format!("all {} holiday patterns of a {w}-day window across a month end, and of {ends}-day windows at both ends of the supported range, x all ordered pairs of days in and next to it x 9 option combinations", 1u64 << w), 3 * 128, |c, acc| {
        let (base, w) = match c % 3 {
            0 => (num((2023, 12, 27)), w),
            1 => (num(FIRST), ends),
            _ => (num(LAST) - ends + 1, ends),
        };
        let c = c / 3;
        let mut mask = c as u64;
        let from = (base - 1).max(num(FIRST));
        let day: Vec<NaiveDate> = (from..=(base + w).min(num(LAST))).map(nd).collect();
        while mask < 1 << w {
            let cal = Mask { base, mask };
            let mut pre = vec![0i64; day.len() + 2];
            for i in 0..day.len() {
                pre[i + 1] = pre[i] + i64::from(cal.open(from + i as i64));
            }
            acc.states += 1;
            for i in 0..day.len() {
                for j in 0..day.len() {
                    for f in OPT {
                        for l in OPT {
                            let (a, b, s) = if i <= j { (i, j, 1) } else { (j, i, -1) };
                            let lo = if f == Some(false) { a + 1 } else { a };
                            let hi = if l == Some(true) { b + 1 } else { b };
                            let want = if lo < hi { s * (pre[hi] - pre[lo]) } else { 0 };
                            acc.at(|| format!("{} {} {} {f:?} {l:?}", cal.show(), day[i], day[j]));
                            acc.traces += 1;
                            let got = guard(|| cal.business_days_between(day[i], day[j], f, l));
                            if got != Ok(want) {
                                return bad(format!("business_days_between {} {} include_first={f:?} include_last={l:?}\ncalendar: {}", day[i], day[j], cal.show()), want.to_string(), format!("{got:?}"));
                            }
                            acc.outcome(&want);
                        }
                    }
                }
            }
            if mask % 411 == 5 {
                acc.sample(|| cal.show());
            }
            mask += 128;
        }
        Ok(())
    });
    let all = cals::all();
    let span = run.pick(420i64, 1200);
    let starts = [(1901, 1, 2), (1952, 12, 1), (1999, 11, 15), (2012, 2, 20), (2024, 2, 1), (2099, 12, 20), (2195, 6, 30)];
    run.section("markets", &format!("{} market variants x 7 spans of {span} days: first and later days x both directions x 9 options", all.len()), all.len() * starts.len(), |c, acc| {
        let e = &all[c / starts.len()];
        let s = num(starts[c % starts.len()]);
        let mut pre = vec![0i64];
        for i in 0..=span {
            let o = i64::from(e.cal.is_business_day(nd(s + i)));
            pre.push(pre[i as usize] + o);
        }
        for a in [0i64, 1, 2, 3, 5, 8, 30] {
            for b in a..span - 1 {
                for f in OPT {
                    for l in OPT {
                        let lo = if f == Some(false) { a + 1 } else { a };
                        let hi = if l == Some(true) { b + 1 } else { b };
                        let want = if lo < hi { pre[hi as usize] - pre[lo as usize] } else { 0 };
                        // all options near the start, one rotating option per pair further on
                        if b > a + 20 && (b % 9) as usize != OPT.iter().position(|x| *x == f).unwrap() * 3 + OPT.iter().position(|x| *x == l).unwrap() {
                            continue;
                        }
                        acc.at(|| format!("{} {} {}", e.name, full(s + a), full(s + b)));
                        acc.states += 1;
                        acc.traces += 2;
                        let op = |x: i64, y: i64| format!("{} business_days_between {} {} include_first={f:?} include_last={l:?}", e.name, full(s + x), full(s + y));
                        same(&guard(|| e.cal.business_days_between(nd(s + a), nd(s + b), f, l)), &Ok(want), || op(a, b))?;
                        if a != b {
                            same(&guard(|| e.cal.business_days_between(nd(s + b), nd(s + a), f, l)), &Ok(-want), || op(b, a))?;
                        }
                        acc.outcome(&want);
                    }
                }
            }
        }
        acc.sample(|| format!("{} from {}", e.name, full(s)));
        Ok(())
    });
    let with: Vec<usize> = ["Israel", "Japan", "UnitedStates/NYSE", "WeekendsOnly"].iter().map(|n| all.iter().position(|e| e.name == *n).expect("market")).collect();
    run.section("joint", &format!("{} market variants, each joined with {} others in both orders and with a third, x 3 spans of 400 days: first and later days x both directions x options in rotation", all.len(), with.len()), all.len() * with.len(), |c, acc| {
        let (e, f) = (&all[c / with.len()], &all[with[c % with.len()]]);
        let third = &all[with[(c + 1) % with.len()]];
        let (x, y) = (JointCalendar::new(Shim(e.cal), Shim(f.cal)), JointCalendar::new(Shim(f.cal), Shim(e.cal)));
        let nested = JointCalendar::new(Shim(third.cal), JointCalendar::new(Shim(e.cal), Shim(f.cal)));
        for (k, from) in [(1952, 12, 1), (2023, 9, 18), (2099, 12, 20)].into_iter().enumerate() {
            let s = num(from);
            let (mut two, mut three) = (vec![0i64], vec![0i64]);
            for n in s..=s + 401 {
                let o = e.cal.is_business_day(nd(n)) && f.cal.is_business_day(nd(n));
                two.push(two[two.len() - 1] + i64::from(o));
                three.push(three[three.len() - 1] + i64::from(o && third.cal.is_business_day(nd(n))));
            }
            for a in [0usize, 5, 6, 30] {
                for b in (a..400).filter(|b| b - a < 12 || (b + c + k) % 7 == 0) {
                    let (first, last) = (OPT[(a + b + c) % 3], OPT[(b + c + k) / 3 % 3]);
                    let (lo, hi) = (a + usize::from(first == Some(false)), b + usize::from(last == Some(true)));
                    let n = |pre: &[i64]| if lo < hi { pre[hi] - pre[lo] } else { 0 };
                    acc.at(|| format!("{} with {} {} {}", e.name, f.name, full(s + a as i64), full(s + b as i64)));
                    acc.states += 1;
                    acc.traces += 6;
                    for (cal, want, name) in [(&x as &dyn Calendar, n(&two), "joint"), (&y, n(&two), "joint (exchanged)"), (&nested, n(&three), "nested joint")] {
                        let (p, q) = (nd(s + a as i64), nd(s + b as i64));
                        let op = || format!("business days between {p} and {q}, first {first:?}, last {last:?}, on {name}({}, {}; {})", e.name, f.name, third.name);
                        same(&guard(|| cal.business_days_between(p, q, first, last)), &Ok(want), op)?;
                        if a < b {
                            same(&guard(|| cal.business_days_between(q, p, first, last)), &Ok(-want), || format!("(backwards) {}", op()))?;
                        }
                    }
                    acc.outcome(&(n(&two), first, last));
                }
            }
        }
        Ok(())
    });
    run.section("long", "spans of 1 to 298 years on three markets, both directions", 3 * 16, |c, acc| {
        let (c, part) = (c / 16, c as i32 % 16);
        let e = all.iter().find(|e| e.name == ["Target", "UnitedStates/NYSE", "Israel"][c]).expect("market");
        let mut pre = vec![0i64];
        for n in first()..=last() {
            pre.push(pre[(n - first()) as usize] + i64::from(e.cal.is_business_day(nd(n))));
        }
        for y in (Y0..=Y1 - 1).filter(|y| y % 16 == part) {
            let (a, b) = (0, num((y, 12, 31)) - first());
            acc.at(|| format!("{} 1901-{y}", e.name));
            acc.states += 1;
            acc.traces += 2;
            let want = pre[b as usize] - pre[a as usize];
            same(&guard(|| e.cal.business_days_between(nd(first() + a), nd(first() + b), None, None)), &Ok(want), || format!("{} 1901-01-01 to {y}-12-31", e.name))?;
            same(&guard(|| e.cal.business_days_between(nd(first() + b), nd(first() + a), None, Some(true))), &Ok(-(pre[b as usize + 1] - pre[a as usize])), || format!("{} {y}-12-31 back to 1901-01-01, last included", e.name))?;
            acc.outcome(&want);
        }
        Ok(())
    });
    // spans of any length: no calendar but the weekends-only one answers outside the tables, so an artificial one that
    // closes on every Sunday and on one day in `every` besides
    #[derive(Debug)]
    struct Sparse(i64);
    impl Calendar for Sparse {
        fn is_business_day(&self, d: NaiveDate) -> bool {
            let n = i64::from(d.num_days_from_ce());
            n.rem_euclid(7) != 0 && n.rem_euclid(self.0) != 0
        }
    }
    // days in [a, b) that are divisible by k, counted from year 1
    let multiples = |a: i64, b: i64, k: i64| (b - 1).div_euclid(k) - (a - 1).div_euclid(k);
    let starts: Vec<i64> = [FIRST, (-200_000, 3, 1), (-4712, 1, 2), (-1, 12, 31), (0, 2, 29), (1, 1, 1), (1600, 2, 29), (1601, 1, 1), (1899, 12, 30), (2000, 2, 29), (2023, 7, 8), (9998, 1, 1)].map(num).to_vec();
    let mut spans: Vec<i64> = (0..run.pick(22, 28)).map(|k| 1i64 << k).chain((0..run.pick(7, 9)).map(|k| 10i64.pow(k))).chain([7, 28, 365, 366, 1461, 36_524, 36_525, 146_097, 292_194, 1_461_000]).flat_map(|k| [k - 1, k, k + 1]).collect();
    spans.sort_unstable();
    spans.dedup();
    run.section("any-length", &format!("{} first days from the first of the supported range on x {} spans of 0 to {} days on artificial calendars and the weekends-only one, both directions, all inclusions in rotation, against counting in closed form", starts.len(), spans.len(), spans.last().unwrap()), starts.len() * spans.len(), |c, acc| {
        let (k, s) = (c % starts.len(), c / starts.len());
        let (a, b) = (starts[k], (starts[k] + spans[s]).min(num(LAST)));
        let options = [(None, None), (Some(true), Some(true)), (Some(false), Some(false)), (Some(false), Some(true)), (Some(true), Some(false)), (None, Some(true)), (Some(false), None)];
        let turns = if spans[s] > 400_000 { 1 } else { options.len() };
        for turn in 0..turns {
            let (first, last) = options[(c + turn) % options.len()];
            let (lo, hi) = (a + i64::from(!first.unwrap_or(true)), (b + i64::from(last.unwrap_or(false))));
            let (lo, hi) = (lo.min(hi), hi);
            // day numbers of the model -> days from year 1
            let shift = i64::from(nd(a).num_days_from_ce()) - a;
            let (x, y) = (lo + shift, hi + shift);
            let every = [5, 11, 1000, 100_003][(c + turn) % 4];
            let want = (y - x) - multiples(x, y, 7) - multiples(x, y, every) + multiples(x, y, 7 * every);
            let sparse = Sparse(every);
            let plain = (y - x) - multiples(x, y, 7) - multiples(x + 1, y + 1, 7);
            let weekends = calendar::weekendsonly::WeekendsOnly;
            acc.at(|| format!("{} to {}", full(a), full(b)));
            acc.states += 1;
            acc.traces += 4;
            let op = |q: &str| format!("{q}: business days between {} and {}, first {first:?}, last {last:?}", full(a), full(b));
            same(&guard(|| sparse.business_days_between(nd(a), nd(b), first, last)), &Ok(want), || op(&format!("open but on Sundays and days divisible by {every}")))?;
            same(&guard(|| weekends.business_days_between(nd(a), nd(b), first, last)), &Ok(plain), || op("weekends only"))?;
            if a < b {
                same(&guard(|| sparse.business_days_between(nd(b), nd(a), first, last)), &Ok(-want), || op(&format!("(backwards) open but on Sundays and days divisible by {every}")))?;
                same(&guard(|| weekends.business_days_between(nd(b), nd(a), first, last)), &Ok(-plain), || op("(backwards) weekends only"))?;
            }
            acc.outcome(&(want % 1009, turn));
        }
        Ok(())
    });
}
