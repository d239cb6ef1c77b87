//! C01-C06: dates, day/month/year arithmetic, weekend roll, rolling conventions, day counts.
use crate::cals;
use crate::civil::{self, add_months, from_num, leap, mdays, num, show, valid, weekday, Ymd, FIRST, LAST};
use crate::engine::{bad, guard, same, Acc, Run, R};
use crate::rat::{exactly, Rat};
use chrono::NaiveDate;
use qlab_error::{ComputeError, QLabError, QLabResult};
use qlab_time::calendar::Calendar as QCal;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::{days::Days, months::Months, years::Years, Period};
use std::hash::{Hash, Hasher};

pub fn mk(n: i64) -> Date {
    let (y, m, d) = from_num(n);
    match Date::from_ymd(y, m, d) {
        Some(x) => x,
        None => std::panic::panic_any(format!("library refuses the valid date {y}-{m}-{d}")),
    }
}

pub fn ymd(d: Date) -> Ymd {
    (d.year(), d.month(), d.day())
}

fn day_of(d: Option<Date>) -> Option<Ymd> {
    d.map(ymd)
}

fn naive(n: i64) -> NaiveDate {
    let (y, m, d) = from_num(n);
    NaiveDate::from_ymd_opt(y, m, d).expect("chrono date")
}

fn in_range(n: i64) -> Option<Ymd> {
    civil::in_range(n).then(|| from_num(n))
}

fn hash(d: &Date) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------------------------------- C01
pub fn c01(run: &Run) {
    let (lo, hi) = (i64::from(FIRST.0), i64::from(LAST.0));
    let span = 500;
    let chunks = ((hi - lo) / span + 1) as usize;
    run.section(
        "walk",
        "every date from -262143-01-01 to 262142-12-31, along the successor relation, with its predecessor and all accessors",
        chunks,
        |k, acc| {
            let y0 = lo + k as i64 * span;
            let y1 = (y0 + span - 1).min(hi);
            let mut at: Ymd = (y0 as i32, 1, 1);
            let mut n = num(at);
            let mut prev: Option<Date> = None;
            let mut cur = match Date::from_ymd(at.0, at.1, at.2) {
                Some(d) => d,
                None => return bad(format!("from_ymd({at:?})"), "a date", "none"),
            };
            loop {
                acc.at(|| show(at));
                acc.states += 1;
                acc.traces += 1;
                let op = || format!("the date {} (day number {n})", show(at));
                same(&day_of(Date::from_ymd(at.0, at.1, at.2)), &Some(at), || format!("from_ymd{at:?}"))?;
                same(&Date::from_ymd(at.0, at.1, at.2), &Some(cur), || format!("from_ymd{at:?} against the successor of the day before"))?;
                same(&ymd(cur), &at, op)?;
                same(&cur.leap_year(), &leap(at.0), || format!("leap_year of {}", show(at)))?;
                same(&i64::from(cur.serial_date()), &(n - num((1, 1, 1)) + 1), || format!("serial_date of {}", show(at)))?;
                let p = cur.pred_opt();
                match prev {
                    Some(q) => {
                        acc.transitions += 2;
                        same(&p, &Some(q), || format!("pred_opt of {}", show(at)))?;
                        if !(q < cur) || q == cur || q.cmp(&cur) != std::cmp::Ordering::Less {
                            return bad(format!("compare {} with its successor", show(at)), "less", format!("{:?}", q.cmp(&cur)));
                        }
                    }
                    None => {
                        let w = if at == FIRST { None } else { Some(civil::prev(at)) };
                        same(&day_of(p), &w, || format!("pred_opt of {}", show(at)))?;
                    }
                }
                if (0..=9999).contains(&at.0) {
                    same(&cur.to_string(), &show(at), || format!("text of {}", show(at)))?;
                }
                let s = cur.succ_opt();
                if at == LAST {
                    same(&day_of(s), &None, || format!("succ_opt of {}", show(at)))?;
                    break;
                }
                let nx = civil::next(at);
                same(&day_of(s), &Some(nx), || format!("succ_opt of {}", show(at)))?;
                acc.outcome(&(at.1, at.2, leap(at.0)));
                if n % 99_991 == 0 {
                    acc.sample(|| format!("{} -> {}", show(at), show(nx)));
                }
                if i64::from(nx.0) > y1 {
                    break;
                }
                prev = Some(cur);
                cur = s.unwrap();
                at = nx;
                n += 1;
            }
            Ok(())
        },
    );
    let mut years: Vec<i32> = (1599..=2001).collect();
    years.extend([i32::MIN, i32::MIN + 1, -262_145, -262_144, -262_143, -262_142, -262_140, -1, 0, 1, 4, 100, 400, 9999, 10_000, 262_140, 262_141, 262_142, 262_143, 262_144, 524_288, i32::MAX - 1, i32::MAX]);
    let nums: Vec<u32> = (0..=33).chain([255, 256, 257, 258, 268, 287, 288, 65_536, 65_537, 65_565, 1 << 31, u32::MAX - 1, u32::MAX, 4_294_967_265]).collect();
    run.section("grid", "426 years (a 400-year cycle and extremes) x months 0-33 and extremes x days 0-33 and extremes", years.len(), |k, acc| {
        let y = years[k];
        for &m in &nums {
            for &d in &nums {
                acc.at(|| format!("from_ymd({y}, {m}, {d})"));
                acc.states += 1;
                acc.traces += 1;
                let ok = valid(y, m, d) && y >= FIRST.0 && y <= LAST.0;
                let want = ok.then_some((y, m, d));
                let got = guard(|| day_of(Date::from_ymd(y, m, d)));
                acc.outcome(&ok);
                same(&got, &Ok(want), || format!("from_ymd({y}, {m}, {d})"))?;
            }
        }
        Ok(())
    });
    // all ordered pairs
    let mut set: Vec<i64> = (num((1999, 11, 20))..num((2001, 1, 12))).collect();
    for y in (FIRST.0..=LAST.0).step_by(2621) {
        set.extend([num((y, 1, 1)), num((y, 2, 28)), num((y, 12, 31))]);
    }
    for y in 1890..=2110 {
        set.extend([num((y, 2, mdays(y, 2))), num((y, 7, 1))]);
    }
    set.sort_unstable();
    set.dedup();
    let dates: Vec<Date> = set.iter().map(|&n| mk(n)).collect();
    run.section("order", "all ordered pairs of ~1500 dates: comparison, equality, hashing, minimum, conversion from the chrono date", dates.len(), |i, acc| {
        acc.at(|| format!("date {:?}", from_num(set[i])));
        same(&Date::from(naive(set[i])), &dates[i], || format!("conversion of {:?}", from_num(set[i])))?;
        for j in 0..dates.len() {
            let (a, b) = (dates[i], dates[j]);
            let op = || format!("compare {} and {}", show(from_num(set[i])), show(from_num(set[j])));
            let want = set[i].cmp(&set[j]);
            acc.states += 1;
            acc.traces += 1;
            acc.outcome(&(want as i8));
            same(&a.cmp(&b), &want, op)?;
            same(&a.partial_cmp(&b), &Some(want), op)?;
            same(&(a == b), &(i == j), op)?;
            same(&(a < b, a <= b), &(set[i] < set[j], set[i] <= set[j]), op)?;
            if i == j {
                same(&hash(&mk(set[i])), &hash(&a), op)?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C02
fn shift_days(acc: &mut Acc, n: i64, d: Date, k: u64) -> R {
    acc.transitions += 2;
    acc.traces += 2;
    let up = i64::try_from(k).ok().and_then(|k| n.checked_add(k)).and_then(in_range);
    let dn = i64::try_from(k).ok().and_then(|k| n.checked_sub(k)).and_then(in_range);
    let a = guard(|| d.checked_add_days(Days::new(k)));
    let op = |w: &str| format!("{} {w} {k} days", show(from_num(n)));
    same(&a.clone().map(day_of), &Ok(up), || op("plus"))?;
    let s = guard(|| d.checked_sub_days(Days::new(k)));
    same(&s.map(day_of), &Ok(dn), || op("minus"))?;
    same(&guard(|| Days::new(k).checked_add(d)).map(day_of), &Ok(up), || op("moved by the period of"))?;
    if let Ok(Some(e)) = a {
        same(&guard(|| e - d), &Ok(k as i64), || format!("difference of {} and {}", show(ymd(e)), show(ymd(d))))?;
        same(&guard(|| d - e), &Ok(-(k as i64)), || format!("difference of {} and {}", show(ymd(d)), show(ymd(e))))?;
    }
    Ok(())
}

pub fn c02(run: &Run) {
    let (a, b) = (num((1890, 1, 1)), num((2210, 12, 31)));
    let kmax = run.pick(12_000, 60_000);
    run.section("shift", &format!("every date 1890-2210 x 0..={kmax} days, both directions, through the method and the period"), 256, |c, acc| {
        let mut n = a + c as i64;
        while n <= b {
            let d = mk(n);
            acc.at(|| show(from_num(n)));
            acc.states += 1;
            // incremental expectation: walk the reference calendar one day at a time
            let (mut up, mut dn) = (from_num(n), from_num(n));
            for k in 0..=kmax {
                let p = d.checked_add_days(Days::new(k));
                if day_of(p) != Some(up) {
                    return bad(format!("{} plus {k} days", show(from_num(n))), format!("{up:?}"), format!("{:?}", day_of(p)));
                }
                let m = d.checked_sub_days(Days::new(k));
                if day_of(m) != Some(dn) {
                    return bad(format!("{} minus {k} days", show(from_num(n))), format!("{dn:?}"), format!("{:?}", day_of(m)));
                }
                if k % 7 == n.rem_euclid(7) as u64 {
                    same(&Days::new(k).checked_add(d), &p, || format!("{} moved by the period of {k} days", show(from_num(n))))?;
                }
                let (p, m) = (p.unwrap(), m.unwrap());
                if p - d != k as i64 || d - p != -(k as i64) || d - m != k as i64 || p - m != 2 * k as i64 {
                    return bad(format!("differences of {} and the days {k} before and after", show(from_num(n))), format!("{k}"), format!("{} {} {} {}", p - d, d - p, d - m, p - m));
                }
                up = civil::next(up);
                dn = civil::prev(dn);
            }
            acc.transitions += 2 * (kmax + 1);
            acc.traces += 2 * (kmax + 1);
            acc.outcome(&(from_num(n).1, from_num(n).2));
            if n % 50_000 == 0 {
                acc.sample(|| format!("{} +- 0..={kmax} days", show(from_num(n))));
            }
            n += 256;
        }
        Ok(())
    });
    // extremes: every 1 January (and some other days) x shifts that just reach or just miss the ends
    let (f, l) = (num(FIRST), num(LAST));
    let specials: Vec<u64> = vec![
        0, 1, 27, 28, 29, 30, 31, 32, 59, 60, 61, 365, 366, 1461, 36_524, 36_525, 146_096, 146_097, 146_098, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001,
        0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0400, i64::MAX as u64 - 1, i64::MAX as u64,
        i64::MAX as u64 + 1, i64::MAX as u64 + 2, u64::MAX - 400, u64::MAX - 1, u64::MAX, 106_751_991_167, 106_751_991_168, u64::MAX / 86_400, u64::MAX / 86_400 + 1, i64::MAX as u64 / 86_400, i64::MAX as u64 / 86_400_000 + 1,
    ];
    let step = run.pick(1, 1);
    let ys: Vec<i32> = (FIRST.0..=LAST.0).filter(|y| y.rem_euclid(step) == 0 || *y < FIRST.0 + 400 || *y > LAST.0 - 400 || (1500..2500).contains(y)).collect();
    run.section("extremes", &format!("every {step}th year and the years near the ends and the present x 5 days x ~50 special shifts incl. the ones that just reach or leave the range"), 64, |c, acc| {
        let mut i = c;
        while i < ys.len() {
            let y = ys[i];
            for at in [(y, 1, 1), (y, 2, mdays(y, 2)), (y, 3, 1), (y, 7, 15), (y, 12, 31)] {
                let n = num(at);
                let d = mk(n);
                acc.at(|| show(at));
                acc.states += 1;
                for &k in specials.iter() {
                    shift_days(acc, n, d, k)?;
                }
                for e in [-2i64, -1, 0, 1, 2] {
                    for k in [l - n + e, n - f + e] {
                        if k >= 0 {
                            shift_days(acc, n, d, k as u64)?;
                        }
                    }
                }
                acc.outcome(&y);
            }
            i += 64;
        }
        Ok(())
    });
    // all pairs in windows: difference, antisymmetry; triples via additivity follow from the absolute values
    let w = run.pick(1500, 4000);
    let starts = [num((1999, 1, 1)), num((2099, 6, 1)), f, l - w + 1, num((-1, 1, 1)), num((1899, 3, 1))];
    run.section("pairs", &format!("all ordered pairs of dates in six windows of {w} days (range ends, year 0, leap centuries)"), starts.len() * 16, |c, acc| {
        let s = starts[c / 16];
        let ds: Vec<Date> = (0..w).map(|i| mk(s + i)).collect();
        let mut i = c % 16;
        while i < ds.len() {
            acc.at(|| show(from_num(s + i as i64)));
            for (j, e) in ds.iter().enumerate() {
                let want = i as i64 - j as i64;
                if ds[i] - *e != want {
                    return bad(format!("{} minus {}", show(from_num(s + i as i64)), show(from_num(s + j as i64))), want.to_string(), (ds[i] - *e).to_string());
                }
            }
            acc.states += ds.len() as u64;
            acc.traces += ds.len() as u64;
            acc.outcome(&(s, i));
            i += 16;
        }
        // far differences
        for o in starts {
            let d = mk(o) - ds[0];
            same(&d, &(o - s), || format!("{} minus {}", show(from_num(o)), show(from_num(s))))?;
            acc.traces += 1;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C03
fn month_target(at: Ymd, k: i64) -> Option<Ymd> {
    let (y, m, d) = add_months(at, k);
    (y >= i64::from(FIRST.0) && y <= i64::from(LAST.0)).then_some((y as i32, m, d))
}

fn shift_months(acc: &mut Acc, at: Ymd, d: Date, k: u32) -> R {
    acc.transitions += 2;
    acc.traces += 2;
    let op = |w: &str| format!("{} {w} {k} months", show(at));
    let up = month_target(at, i64::from(k));
    same(&guard(|| d.checked_add_months(Months::new(k))).map(day_of), &Ok(up), || op("plus"))?;
    same(&guard(|| Months::new(k).checked_add(d)).map(day_of), &Ok(up), || op("moved by the period of"))?;
    same(&guard(|| d.checked_sub_months(Months::new(k))).map(day_of), &Ok(month_target(at, -i64::from(k))), || op("minus"))
}

fn shift_years(acc: &mut Acc, at: Ymd, d: Date, k: i32) -> R {
    acc.transitions += 1;
    acc.traces += 1;
    let op = || format!("{} plus {k} years", show(at));
    let want = month_target(at, 12 * i64::from(k));
    same(&guard(|| d.checked_add_years(Years::new(k))).map(day_of), &Ok(want), op)?;
    same(&guard(|| Years::new(k).checked_add(d)).map(day_of), &Ok(want), op)
}

pub fn c03(run: &Run) {
    let (a, b) = (num((1800, 1, 1)), num((2199, 12, 31)));
    let mmax = run.pick(5000u32, 20_000);
    let ymax = run.pick(2000, 8000);
    run.section(
        "cycle",
        &format!("every date of the 400 years 1800-2199 x 0..={mmax} months both ways, and -{ymax}..={ymax} years"),
        256,
        |c, acc| {
            let mut n = a + c as i64;
            while n <= b {
                let at = from_num(n);
                let d = mk(n);
                acc.at(|| show(at));
                acc.states += 1;
                for k in 0..=mmax {
                    let up = month_target(at, i64::from(k));
                    let dn = month_target(at, -i64::from(k));
                    let g = d.checked_add_months(Months::new(k));
                    if day_of(g) != up {
                        return bad(format!("{} plus {k} months", show(at)), format!("{up:?}"), format!("{:?}", day_of(g)));
                    }
                    if k % 5 == 0 {
                        same(&Months::new(k).checked_add(d), &g, || format!("{} moved by the period of {k} months", show(at)))?;
                    }
                    let g = d.checked_sub_months(Months::new(k));
                    if day_of(g) != dn {
                        return bad(format!("{} minus {k} months", show(at)), format!("{dn:?}"), format!("{:?}", day_of(g)));
                    }
                }
                for k in -ymax..=ymax {
                    let w = month_target(at, 12 * i64::from(k));
                    let g = d.checked_add_years(Years::new(k));
                    if day_of(g) != w {
                        return bad(format!("{} plus {k} years", show(at)), format!("{w:?}"), format!("{:?}", day_of(g)));
                    }
                    if k % 3 == 0 {
                        same(&Years::new(k).checked_add(d), &g, || format!("{} moved by the period of {k} years", show(at)))?;
                    }
                }
                acc.transitions += 2 * u64::from(mmax + 1) + 2 * ymax as u64 + 1;
                acc.traces += 2 * u64::from(mmax + 1) + 2 * ymax as u64 + 1;
                acc.outcome(&(at.1, at.2, leap(at.0)));
                if n % 40_000 == 0 {
                    acc.sample(|| format!("{} +- 0..={mmax} months", show(at)));
                }
                n += 256;
            }
            Ok(())
        },
    );
    let ms: Vec<u32> = vec![
        0, 1, 2, 11, 12, 13, 23, 24, 25, 127, 128, 255, 256, 257, 268, 1199, 1200, 4799, 4800, 4801, 32_767, 32_768, 65_535, 65_536, 65_537, 65_548, 3_145_727, 6_291_431, 6_291_432, 6_291_433, 0x7fff_fff4,
        0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_000c, 0xffff_fff3, 0xffff_fff4, 0xffff_fffe, 0xffff_ffff,
    ];
    let yk: Vec<i32> = vec![
        0, 1, -1, 3, -3, 4, -4, 100, -100, 399, 400, -400, 401, 127, 128, 255, 256, -128, -129, 32_767, 32_768, 65_536, -65_536, 262_141, -262_141, 524_284, 524_285, 524_286, -524_284, -524_285, -524_286, 1_000_000, -1_000_000,
        i32::MAX, i32::MAX - 1, i32::MAX - 262_142, i32::MIN, i32::MIN + 1, i32::MIN + 262_143, i32::MIN + 262_144, 178_956_970, 178_956_971, -178_956_971, -178_956_970,
    ];
    let step = run.pick(1, 1);
    let ys: Vec<i32> = (FIRST.0..=LAST.0).filter(|y| y.rem_euclid(step) == 0 || *y < FIRST.0 + 60 || *y > LAST.0 - 60 || (-5..6).contains(y) || (1590..2410).contains(y)).collect();
    run.section(
        "extremes",
        &format!("every {step}th year, the years near the ends and year 0 x month ends and starts x extreme month and year counts incl. the ones that just reach or leave the range"),
        64,
        |c, acc| {
            let mut i = c;
            while i < ys.len() {
                let y = ys[i];
                for m in [1, 2, 3, 4, 8, 12] {
                    for day in [1, 28, mdays(y, m) - 1, mdays(y, m)] {
                        let at = (y, m, day);
                        let d = mk(num(at));
                        acc.at(|| show(at));
                        acc.states += 1;
                        for &k in &ms {
                            shift_months(acc, at, d, k)?;
                        }
                        for &k in &yk {
                            shift_years(acc, at, d, k)?;
                        }
                        let up = (i64::from(LAST.0) - i64::from(y)) * 12 + 12 - i64::from(m);
                        let dn = (i64::from(y) - i64::from(FIRST.0)) * 12 + i64::from(m) - 1;
                        for e in -1..=1 {
                            for k in [up + e, dn + e] {
                                if k >= 0 {
                                    shift_months(acc, at, d, k as u32)?;
                                }
                            }
                            shift_years(acc, at, d, LAST.0 - y + e as i32)?;
                            shift_years(acc, at, d, FIRST.0 - y + e as i32)?;
                        }
                        acc.outcome(&(y, m));
                    }
                }
                i += 64;
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------- C04
pub fn c04(run: &Run) {
    let (f, l) = (num(FIRST), num(LAST));
    let span = 400_000;
    let chunks = ((l - f) / span + 1) as usize;
    run.section("roll", "every date of the supported range", chunks, |k, acc| {
        let a = f + k as i64 * span;
        let b = (a + span - 1).min(l);
        let mut at = from_num(a);
        let mut d = mk(a);
        for n in a..=b {
            acc.at(|| show(at));
            let wd = weekday(n);
            let t = if wd >= 5 { n + 7 - i64::from(wd) } else { n };
            let got = d.weekend_roll();
            if t == n {
                same(&day_of(got), &Some(at), || format!("weekend roll of {}", show(at)))?;
            } else if t > l {
                same(&day_of(got), &None, || format!("weekend roll of {}", show(at)))?;
            } else {
                let mut w = at;
                for _ in 0..t - n {
                    w = civil::next(w);
                }
                same(&day_of(got), &Some(w), || format!("weekend roll of {}", show(at)))?;
            }
            acc.outcome(&(wd, t - n, at.1));
            if n < b {
                at = civil::next(at);
                d = match d.succ_opt() {
                    Some(x) => x,
                    None => mk(n + 1),
                };
            }
        }
        acc.states += (b - a + 1) as u64;
        acc.transitions += (b - a + 1) as u64;
        acc.traces += (b - a + 1) as u64;
        acc.sample(|| format!("{}..{}", show(from_num(a)), show(from_num(b))));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C05
pub const CONV: [DateRolling; 5] = [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding];

/// Environment: closed days are given by a bit mask over a window, or by an interval; all others open.
#[derive(Clone, Copy)]
pub struct Env {
    pub base: i64,
    pub mask: u64,
    pub from: i64,
    pub to: i64,
}

impl Env {
    pub fn open(&self, n: i64) -> bool {
        let i = n - self.base;
        !((0..64).contains(&i) && self.mask >> i & 1 == 1) && !(n >= self.from && n <= self.to)
    }
}

impl QCal for Env {
    fn is_business_day(&self, date: Date) -> bool {
        self.open(num(ymd(date)))
    }
}

/// Same environment seen through a day-number lookup that is cheap enough for millions of rolls.
pub struct Fast<'a> {
    pub env: Env,
    pub origin: Date,
    pub n0: i64,
    pub _p: std::marker::PhantomData<&'a ()>,
}

impl QCal for Fast<'_> {
    fn is_business_day(&self, date: Date) -> bool {
        self.env.open(self.n0 + i64::from(date.serial_date() - self.origin.serial_date()))
    }
}

fn search(open: &dyn Fn(i64) -> bool, mut n: i64, step: i64) -> Option<i64> {
    while civil::in_range(n) {
        if open(n) {
            return Some(n);
        }
        n += step;
    }
    None
}

/// All answers the property allows (two only when one search direction leaves the supported range).
pub fn model_roll(open: &dyn Fn(i64) -> bool, target: i64, c: DateRolling) -> [Option<i64>; 2] {
    let month = |n: i64| {
        let (y, m, _) = from_num(n);
        (y, m)
    };
    let one = |x| [x, x];
    match c {
        DateRolling::Unadjusted => one(Some(target)),
        DateRolling::Following => one(search(open, target, 1)),
        DateRolling::Preceding => one(search(open, target, -1)),
        DateRolling::ModifiedFollowing | DateRolling::ModifiedPreceding => {
            let s = if c == DateRolling::ModifiedFollowing { 1 } else { -1 };
            match search(open, target, s) {
                Some(n) if month(n) == month(target) => one(Some(n)),
                Some(_) => one(search(open, target, -s)),
                None => [None, search(open, target, -s)],
            }
        }
    }
}

pub fn check_roll<P: Period + std::fmt::Debug, C: QCal>(
    acc: &mut Acc,
    start: i64,
    sd: Date,
    p: P,
    target: Option<i64>,
    cal: &C,
    open: &dyn Fn(i64) -> bool,
    env: &dyn Fn() -> String,
) -> R {
    for c in CONV {
        acc.transitions += 1;
        acc.traces += 1;
        let want = target.map_or([None, None], |t| model_roll(open, t, c));
        let got = guard(|| sd.checked_roll(p, cal, c));
        let g = got.clone().map(|x| x.map(|d| num(ymd(d))));
        if g != Ok(want[0]) && g != Ok(want[1]) {
            return bad(
                format!("calendar: {}\n{} rolled by {p:?}, {c:?}", env(), show(from_num(start))),
                format!("{:?}", want[0].map(from_num).map(show)),
                format!("{:?}", got.map(day_of).map(|x| x.map(show))),
            );
        }
        acc.outcome(&(c as u8, g.ok().flatten().map(|x| x - start)));
    }
    Ok(())
}

pub fn c05(run: &Run) {
    let centers = [
        (2023, 1, 31), (2023, 2, 28), (2024, 2, 29), (2023, 4, 30), (2023, 12, 31), (2100, 2, 28), (2000, 2, 29), (2024, 5, 15),
    ];
    let w = run.pick(16u32, 20);
    let per = 1usize << (w - 6);
    run.section(
        "patterns",
        &format!("8 windows of {w} days (month, year and leap-day boundaries, mid-month) x all {} holiday patterns x every target in and next to the window x 5 conventions x days/months/years", 1u64 << w),
        centers.len() * 64,
        |c, acc| {
            let mid = num(centers[c / 64]);
            let base = mid - i64::from(w) / 2 + 1;
            let origin = mk(base);
            // (start, period) for every target: by days, by months, by years
            for lo in 0..per {
                let mask = ((c % 64) * per + lo) as u64;
                let env = Env { base, mask, from: 1, to: 0 };
                let cal = Fast { env, origin, n0: base, _p: std::marker::PhantomData };
                let open = |n: i64| env.open(n);
                let txt = || format!("open except {:?}", (0..w).filter(|i| mask >> i & 1 == 1).map(|i| show(from_num(base + i64::from(i)))).collect::<Vec<_>>());
                acc.states += 1;
                for i in -1..=i64::from(w) {
                    let t = base + i;
                    acc.at(|| format!("{} target {}", txt(), show(from_num(t))));
                    check_roll(acc, t - 3, mk(t - 3), Days::new(3), Some(t), &cal, &open, &txt)?;
                    {
                        let at = from_num(t);
                        let (y, m, d) = add_months(at, -1);
                        let s: Ymd = (y as i32, m, d);
                        let tm = month_target(s, 1).map(num);
                        check_roll(acc, num(s), mk(num(s)), Months::new(1), tm, &cal, &open, &txt)?;
                        let (y, m, d) = add_months(at, -12);
                        let s: Ymd = (y as i32, m, d);
                        let tm = month_target(s, 12).map(num);
                        check_roll(acc, num(s), mk(num(s)), Years::new(1), tm, &cal, &open, &txt)?;
                        check_roll(acc, t, mk(t), Days::new(0), Some(t), &cal, &open, &txt)?;
                    }
                }
                if mask % 509 == 77 {
                    acc.sample(txt);
                }
            }
            Ok(())
        },
    );
    // periods a user might write, which lead to any day, also back from the start
    let back = run.pick(12u32, 16);
    run.section(
        "own-periods",
        &format!("periods leading from 5 starts years, months and days before and after to every day of 5 windows of {back} days across month ends x all {} holiday patterns x 5 conventions", 1u64 << back),
        5 * 16,
        |c, acc| {
            #[derive(Copy, Clone, Debug)]
            struct To(#[allow(dead_code)] i64, Date);
            impl qlab_time::period::Period for To {
                fn checked_add(self, _: Date) -> Option<Date> {
                    Some(self.1)
                }
            }
            let base = num([(2024, 2, 24), (2023, 12, 26), (2023, 7, 25), (1899, 12, 27), (-1, 2, 23)][c / 16]);
            for mask in (0..1u64 << back).filter(|m| m % 16 == c as u64 % 16) {
                let env = Env { base, mask, from: 1, to: 0 };
                let cal = Fast { env, origin: mk(base), n0: base, _p: std::marker::PhantomData };
                let open = |n: i64| env.open(n);
                let txt = || format!("open except {:?}", (0..back).filter(|i| mask >> i & 1 == 1).map(|i| show(from_num(base + i64::from(i)))).collect::<Vec<_>>());
                acc.states += 1;
                for start in [base - 40_000, base - 31, base + 3, base + i64::from(back), base + 400] {
                    acc.at(txt);
                    for t in base..base + i64::from(back) {
                        check_roll(acc, start, mk(start), To(t, mk(t)), Some(t), &cal, &open, &txt)?;
                    }
                }
            }
            Ok(())
        },
    );
    // long closures: every interval [a, a+len) around month boundaries
    let lens: Vec<i64> = run.pick((1..=66).chain([335, 360, 366, 372, 397]).collect(), (1..=120).chain(330..=400).collect());
    let closed = [(2024, 2, 1), (2023, 2, 1), (2023, 12, 1), (2099, 12, 15), (1999, 7, 1), (0, 2, 1), (-1, 12, 1)];
    run.section(
        "closures",
        &format!("closed intervals of {} lengths up to {} days at every position around seven months x every target up to 3 days around the interval x 5 conventions", lens.len(), lens[lens.len() - 1]),
        closed.len() * lens.len(),
        |c, acc| {
            let anchor = num(closed[c / lens.len()]);
            let len = lens[c % lens.len()];
            for a in anchor - 5..anchor + 36 {
                let env = Env { base: 0, mask: 0, from: a, to: a + len - 1 };
                let cal = Fast { env, origin: mk(a), n0: a, _p: std::marker::PhantomData };
                let open = |n: i64| env.open(n);
                let txt = || format!("open except {} to {}", show(from_num(a)), show(from_num(a + len - 1)));
                acc.states += 1;
                for t in a - 3..a + len + 3 {
                    acc.at(|| format!("{} target {}", txt(), show(from_num(t))));
                    check_roll(acc, t - 1, mk(t - 1), Days::new(1), Some(t), &cal, &open, &txt)?;
                }
            }
            Ok(())
        },
    );
    // closures of years, decades and centuries
    let lens: Vec<i64> = run.pick(vec![500, 732, 1000, 1001, 1462, 2000, 4000, 5000, 10_000, 40_000, 140_000], vec![500, 732, 1000, 1001, 1024, 1462, 2000, 4000, 4096, 5000, 10_000, 20_000, 32_770, 40_000, 65_540, 140_000, 400_000, 2_000_000]);
    run.section(
        "long-closures",
        &format!("closures of {lens:?} days at three places x 15 targets around, at the edges of and inside the closure x 5 conventions"),
        3 * lens.len(),
        |c, acc| {
            let a = num([(2024, 1, 31), (1800, 3, 1), (-50, 12, 30)][c % 3]);
            let len = lens[c / 3];
            let env = Env { base: 0, mask: 0, from: a, to: a + len - 1 };
            let cal = Fast { env, origin: mk(a), n0: a, _p: std::marker::PhantomData };
            let open = |n: i64| env.open(n);
            let txt = || format!("open except {} to {}", show(from_num(a)), show(from_num(a + len - 1)));
            for o in [-2, -1, 0, 1, 2, 8, 40, len / 3, len / 2, len - 300, len - 40, len - 2, len - 1, len, len + 1] {
                let t = a + o;
                acc.states += 1;
                acc.at(|| format!("{} target {}", txt(), show(from_num(t))));
                check_roll(acc, t - 1, mk(t - 1), Days::new(1), Some(t), &cal, &open, &txt)?;
            }
            Ok(())
        },
    );
    // the ends of the supported range
    run.section("range-ends", "closed intervals that reach or nearly reach either end of the range x all targets within 45 days of it, incl. targets beyond it", 2 * 12, |c, acc| {
        let len = [0i64, 1, 2, 3, 7, 15, 27, 30, 31, 32, 40, 44][c % 12];
        let (f, l) = (num(FIRST), num(LAST));
        for gap in 0..3i64 {
            let env = if c < 12 { Env { base: 0, mask: 0, from: l - gap - len + 1, to: l - gap } } else { Env { base: 0, mask: 0, from: f + gap, to: f + gap + len - 1 } };
            let open = |n: i64| env.open(n);
            let txt = || format!("open except {:?} to {:?}", from_num(env.from), from_num(env.to));
            acc.states += 1;
            for o in 0..45i64 {
                let s = if c < 12 { l - o } else { f + o };
                acc.at(|| format!("{} from {:?}", txt(), from_num(s)));
                for k in [0u64, 1, 30, 45] {
                    let t = s + k as i64;
                    check_roll(acc, s, mk(s), Days::new(k), civil::in_range(t).then_some(t), &env, &open, &txt)?;
                }
                for k in [0u32, 1, 2, 12] {
                    let t = month_target(from_num(s), i64::from(k)).map(num);
                    check_roll(acc, s, mk(s), Months::new(k), t, &env, &open, &txt)?;
                }
                for k in [-1i32, 0, 1, i32::MAX, i32::MIN] {
                    let t = month_target(from_num(s), 12 * i64::from(k)).map(num);
                    check_roll(acc, s, mk(s), Years::new(k), t, &env, &open, &txt)?;
                }
            }
        }
        Ok(())
    });
    // real markets
    let all = cals::all();
    let (a, b) = (num((1903, 1, 1)), num((2198, 10, 31)));
    let (t0, t1) = (num((1901, 1, 1)), num((2199, 12, 31)));
    let kinds = run.pick(4, 4);
    run.section(
        "markets",
        &format!("{} market calendars x every date 1903 to October 2198 x 5 conventions x {kinds} periods; expected from the market's own business days", all.len()),
        all.len() * 4,
        |c, acc| {
            let e = &all[c / 4];
            let days: Vec<bool> = (t0..=t1).map(|n| e.cal.is_business_day(naive(n))).collect();
            let open = |n: i64| days[(n - t0) as usize];
            let shim = Shim(e.cal);
            let txt = || e.name.to_string();
            let mut n = a + (c % 4) as i64;
            while n <= b {
                acc.at(|| format!("{} {}", e.name, show(from_num(n))));
                acc.states += 1;
                let d = mk(n);
                let at = from_num(n);
                check_roll(acc, n, d, Days::new(1), Some(n + 1), &shim, &open, &txt)?;
                if kinds > 1 {
                    check_roll(acc, n, d, Days::new(0), Some(n), &shim, &open, &txt)?;
                    check_roll(acc, n, d, Months::new(1), month_target(at, 1).map(num), &shim, &open, &txt)?;
                    check_roll(acc, n, d, Years::new(-1), month_target(at, -12).map(num), &shim, &open, &txt)?;
                }
                n += 4;
            }
            acc.sample(|| e.name.to_string());
            Ok(())
        },
    );
    run.section(
        "joint",
        &format!("{} market calendars joined with two others, in both orders, x every third date of 12 years x 5 conventions x days, months and years; expected from the business days both markets share", all.len()),
        all.len() * 2,
        |c, acc| {
            let e = &all[c / 2];
            let f = &all[(c / 2 + [11, 29][c % 2]) % all.len()];
            let (lo, hi) = (num((2015, 6, 1)), num((2031, 6, 1)));
            let days: Vec<bool> = (lo..=hi).map(|n| e.cal.is_business_day(naive(n)) && f.cal.is_business_day(naive(n))).collect();
            let open = |n: i64| days[(n - lo) as usize];
            let txt = || format!("{} joined with {}", e.name, f.name);
            let (x, y) = (calendar::jointcalendar::JointCalendar::new(Shim(e.cal), Shim(f.cal)), calendar::jointcalendar::JointCalendar::new(Shim(f.cal), Shim(e.cal)));
            for n in (num((2017, 1, 1))..num((2029, 1, 1))).step_by(3) {
                acc.at(|| format!("{} {}", txt(), show(from_num(n))));
                acc.states += 1;
                let (d, at) = (mk(n), from_num(n));
                check_roll(acc, n, d, Days::new(1), Some(n + 1), &x, &open, &txt)?;
                check_roll(acc, n, d, Months::new(1), month_target(at, 1).map(num), &y, &open, &txt)?;
                check_roll(acc, n, d, Years::new(1), month_target(at, 12).map(num), &x, &open, &txt)?;
            }
            Ok(())
        },
    );
}

/// A market calendar behind a sized type that implements the market interface, so that the library's own
/// adapter answers.
#[derive(Debug, Clone, Copy)]
pub struct Shim(pub &'static (dyn calendar::Calendar + Sync));

impl calendar::Calendar for Shim {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.is_business_day(date)
    }
    fn is_holiday(&self, date: NaiveDate) -> bool {
        self.0.is_holiday(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.0.is_weekend(date)
    }
}

// ------------------------------------------------------------------------------------------- C06
fn thirty(a: Ymd, b: Ymd) -> i64 {
    360 * (i64::from(b.0) - i64::from(a.0)) + 30 * (i64::from(b.1) - i64::from(a.1)) + i64::from(b.2.min(30)) - i64::from(a.2.min(30))
}

fn kind<T>(r: &QLabResult<T>) -> &'static str {
    match r {
        Ok(_) => "a number",
        Err(QLabError::ComputeError(ComputeError::InvalidInput(_))) => "invalid input",
        Err(QLabError::ComputeError(ComputeError::InterpolationError)) => "interpolation error",
        Err(_) => "another error",
    }
}

fn fraction<D: DayCount>(name: &str, a: (i64, Ymd, Date), b: (i64, Ymd, Date), want: Option<(i64, i64)>) -> R {
    let op = || format!("{name} fraction from {} to {}", show(a.1), show(b.1));
    let r = guard(|| {
        (
            exactly(|| D::calculate_day_count_fraction::<Rat>(a.2, b.2)),
            D::calculate_day_count_fraction::<f64>(a.2, b.2),
            D::calculate_day_count_fraction::<f32>(a.2, b.2),
        )
    });
    let ((x, exact), f, g) = match r {
        Ok(v) => v,
        Err(e) => return bad(op(), if want.is_some() { "a number" } else { "invalid input" }, e),
    };
    let Some((p, q)) = want else {
        for k in [kind(&x), kind(&f), kind(&g)] {
            if k != "invalid input" {
                return bad(op(), "invalid input", k);
            }
        }
        return Ok(());
    };
    let (Ok(x), Ok(f), Ok(g)) = (x, f, g) else { return bad(op(), format!("{p}/{q}"), "an error") };
    if exact && x != Rat::new(i128::from(p), i128::from(q)) {
        return bad(format!("{} (exact arithmetic)", op()), format!("{p}/{q}"), format!("{x:?}"));
    }
    let w = p as f64 / q as f64;
    if !((f - w).abs() <= 1e-14 * w.abs()) {
        return bad(format!("{} (f64)", op()), format!("{w:?}"), format!("{f:?}"));
    }
    if !((f64::from(g) - w).abs() <= 5e-7 * w.abs()) {
        return bad(format!("{} (f32)", op()), format!("{w:?}"), format!("{g:?}"));
    }
    Ok(())
}

fn fractions(acc: &mut Acc, a: (i64, Ymd, Date), b: (i64, Ymd, Date)) -> R {
    acc.states += 1;
    acc.traces += 9;
    fraction::<Act360>("actual/360", a, b, Some((b.0 - a.0, 360)))?;
    fraction::<Act365>("actual/365", a, b, Some((b.0 - a.0, 365)))?;
    fraction::<Thirty360>("30/360", a, b, (a.0 <= b.0).then(|| (thirty(a.1, b.1), 360)))
}

pub fn c06(run: &Run) {
    let w = run.pick(1500, 4000);
    let at = |n: i64| (n, from_num(n), mk(n));
    let starts = [num((1999, 6, 1)), num((2019, 12, 1)), num((1899, 12, 1)), num((2099, 3, 1)), num((-1, 2, 1))];
    run.section("pairs", &format!("all ordered pairs of dates in {} windows of {w} days x 3 conventions x exact, f64, f32", starts.len()), starts.len() * w as usize / 10, |c, acc| {
        let s = starts[c / (w as usize / 10)];
        let i0 = c % (w as usize / 10);
        let ds: Vec<_> = (0..w).map(|i| at(s + i)).collect();
        let mut i = i0;
        while i < ds.len() {
            acc.at(|| show(ds[i].1));
            for b in &ds {
                fractions(acc, ds[i], *b)?;
            }
            acc.outcome(&(ds[i].1 .1, ds[i].1 .2));
            i += w as usize / 10;
        }
        acc.sample(|| format!("{} against all of {}..{}", show(ds[i0].1), show(ds[0].1), show(ds[ds.len() - 1].1)));
        Ok(())
    });
    let mut anchors: Vec<i64> = vec![num(FIRST), num(FIRST) + 58, num(LAST), num(LAST) - 1, num((0, 1, 1)), num((1, 1, 1)), num((9999, 12, 31)), num((-200_000, 2, 28)), num((200_000, 2, 29))];
    for y in [1600, 1900, 1999, 2000, 2023, 2024, 2100, 2400] {
        for m in 1..=12 {
            anchors.extend([num((y, m, 1)), num((y, m, mdays(y, m)))]);
        }
        anchors.push(num((y, 2, 28)));
        anchors.push(num((y, 1, 30)));
    }
    let (y0, y1) = run.pick((1800, 2200), (1500, 2500));
    run.section("anchors", &format!("{} anchor dates (month ends of 8 years, the ends of the range) against every date {y0}-{y1}, both ways", anchors.len()), anchors.len(), |c, acc| {
        let a = at(anchors[c]);
        for n in num((y0, 1, 1))..=num((y1, 12, 31)) {
            acc.at(|| format!("{} {}", show(a.1), show(from_num(n))));
            let b = at(n);
            fractions(acc, a, b)?;
            fractions(acc, b, a)?;
        }
        for &n in &anchors {
            fractions(acc, a, at(n))?;
            fractions(acc, at(n), a)?;
        }
        acc.outcome(&anchors[c]);
        Ok(())
    });
}
