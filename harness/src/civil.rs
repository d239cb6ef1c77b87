//! Reference civil calendar.  Written independently of chrono: day numbers are counted from the
//! Gregorian rules alone (leap year = divisible by 4, not by 100 unless by 400), with one table for a
//! 400-year cycle that is filled by counting days one after another.
use std::sync::OnceLock;

pub type Ymd = (i32, u32, u32);

pub fn leap(y: i32) -> bool {
    if y % 400 == 0 {
        true
    } else if y % 100 == 0 {
        false
    } else {
        y % 4 == 0
    }
}

pub fn mdays(y: i32, m: u32) -> u32 {
    match m {
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn valid(y: i32, m: u32, d: u32) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= mdays(y, m)
}

/// The next day, by the month lengths.
pub fn next((y, m, d): Ymd) -> Ymd {
    if d < mdays(y, m) {
        (y, m, d + 1)
    } else if m < 12 {
        (y, m + 1, 1)
    } else {
        (y + 1, 1, 1)
    }
}

pub fn prev((y, m, d): Ymd) -> Ymd {
    if d > 1 {
        (y, m, d - 1)
    } else if m > 1 {
        (y, m - 1, mdays(y, m - 1))
    } else {
        (y - 1, 12, 31)
    }
}

struct Cycle {
    /// year-of-cycle (0 = a year divisible by 400) -> days before 1 January
    year_start: [i32; 401],
    /// day of cycle -> (year of cycle, month, day)
    by_day: Vec<(u16, u8, u8)>,
}

pub const CYCLE_DAYS: i64 = 146_097;

fn cycle() -> &'static Cycle {
    static C: OnceLock<Cycle> = OnceLock::new();
    C.get_or_init(|| {
        let mut by_day = Vec::with_capacity(CYCLE_DAYS as usize);
        let mut year_start = [0; 401];
        for yc in 0..400 {
            year_start[yc] = by_day.len() as i32;
            for m in 1..=12u32 {
                for d in 1..=mdays(yc as i32, m) {
                    by_day.push((yc as u16, m as u8, d as u8));
                }
            }
        }
        year_start[400] = by_day.len() as i32;
        assert_eq!(by_day.len() as i64, CYCLE_DAYS);
        Cycle { year_start, by_day }
    })
}

/// Serial day number; 0000-01-01 is day 0.
pub fn num((y, m, d): Ymd) -> i64 {
    let c = cycle();
    let q = i64::from(y).div_euclid(400);
    let yc = y.rem_euclid(400);
    let mut n = q * CYCLE_DAYS + i64::from(c.year_start[yc as usize]);
    for k in 1..m {
        n += i64::from(mdays(yc, k));
    }
    n + i64::from(d) - 1
}

pub fn from_num(n: i64) -> Ymd {
    let c = cycle();
    let q = n.div_euclid(CYCLE_DAYS);
    let r = n.rem_euclid(CYCLE_DAYS);
    let (yc, m, d) = c.by_day[r as usize];
    ((q * 400) as i32 + i32::from(yc), u32::from(m), u32::from(d))
}

/// 0 = Monday .. 6 = Sunday.  1 January 2000 was a Saturday.
pub fn weekday(n: i64) -> u32 {
    ((n - num((2000, 1, 1)) + 5).rem_euclid(7)) as u32
}

/// Moves by whole months; the day is clamped to the end of the month.
pub fn add_months((y, m, d): Ymd, k: i64) -> (i64, u32, u32) {
    let t = i64::from(y) * 12 + i64::from(m) - 1 + k;
    let ny = t.div_euclid(12);
    let nm = (t.rem_euclid(12) + 1) as u32;
    let cap = mdays(ny.rem_euclid(400) as i32, nm);
    (ny, nm, d.min(cap))
}

/// First and last date the library can represent (its documentation: chrono's range).
pub const FIRST: Ymd = (-262_143, 1, 1);
pub const LAST: Ymd = (262_142, 12, 31);

pub fn in_range(n: i64) -> bool {
    n >= num(FIRST) && n <= num(LAST)
}

pub fn show((y, m, d): Ymd) -> String {
    format!("{y:04}-{m:02}-{d:02}")
}

/// Western Easter Sunday (Meeus/Jones/Butcher), as a day number.
pub fn easter(y: i32) -> i64 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let month = (h + l - 7 * m + 114) / 31;
    let day = (h + l - 7 * m + 114) % 31 + 1;
    num((y, month as u32, day as u32))
}

/// Orthodox Easter Sunday (Meeus' Julian computus, converted to the Gregorian calendar through the
/// Julian day number), as a day number.
pub fn orthodox_easter(y: i32) -> i64 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let month = (d + e + 114) / 31;
    let day = (d + e + 114) % 31 + 1;
    // Julian calendar date -> Julian day number
    let (yy, mm) = if month > 2 { (y, month) } else { (y - 1, month + 12) };
    let jdn = (1461 * (i64::from(yy) + 4716)) / 4 + (306_001 * (i64::from(mm) + 1)) / 10_000 + i64::from(day) - 1524;
    // JDN 2451545 is 1 January 2000 (Gregorian)
    num((2000, 1, 1)) + jdn - 2_451_545
}

/// Equinoxes in Japan (day number), by the approximation published by the Hydrographic Department.
pub fn equinox(y: i32, vernal: bool) -> i64 {
    let base = match (vernal, y) {
        (true, ..=1979) => 20.8357,
        (true, 1980..=2099) => 20.8431,
        (true, _) => 21.8510,
        (false, ..=1979) => 23.2588,
        (false, 1980..=2099) => 23.2488,
        (false, _) => 24.2488,
    };
    let leaps = if y <= 1979 { (y - 1983) / 4 } else { (y - 1980) / 4 };
    let d = (base + 0.242_194 * f64::from(y - 1980) - f64::from(leaps)) as u32;
    num((y, if vernal { 3 } else { 9 }, d))
}
