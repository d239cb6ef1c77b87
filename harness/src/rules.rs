//! Declarative holiday rules (rules/*.rules) compiled to one status per day.
use crate::civil::{self, num, weekday};
use std::collections::HashMap;

pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;

#[derive(Clone, Debug)]
enum Day {
    Fixed(u32, u32),
    Easter(i64),
    Orthodox(i64),
    Equinox(bool, i64),
    Exact(i32, u32, u32),
}

#[derive(Clone, Debug)]
enum Years {
    All,
    Range(i32, i32),
    List(Vec<i32>),
    Not(Vec<i32>),
}

#[derive(Clone, Debug)]
pub struct Rule {
    open: bool,
    from: Day,
    to: Day,
    wd: Option<u8>,
    years: Years,
    pub line: String,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    rules: Vec<Rule>,
    includes: Vec<String>,
    weekend: Option<u8>,
}

fn wd_mask(s: &str) -> Option<u8> {
    let mut m = 0;
    for w in s.split(',') {
        m |= 1 << ["mon", "tue", "wed", "thu", "fri", "sat", "sun"].iter().position(|x| *x == w)?;
    }
    Some(m)
}

fn day(s: &str) -> Day {
    for (p, f) in [
        ("easter", Day::Easter as fn(i64) -> Day),
        ("orthodox", Day::Orthodox as fn(i64) -> Day),
        ("vernal", (|n| Day::Equinox(true, n)) as fn(i64) -> Day),
        ("autumnal", (|n| Day::Equinox(false, n)) as fn(i64) -> Day),
    ] {
        if let Some(r) = s.strip_prefix(p) {
            return f(if r.is_empty() { 0 } else { r.parse().expect("offset") });
        }
    }
    let v: Vec<&str> = s.split('-').collect();
    match v[..] {
        [m, d] => Day::Fixed(m.parse().unwrap(), d.parse().unwrap()),
        [y, m, d] => Day::Exact(y.parse().unwrap(), m.parse().unwrap(), d.parse().unwrap()),
        _ => panic!("bad date {s}"),
    }
}

fn years(s: &str) -> Years {
    if let Some(r) = s.strip_prefix('!') {
        Years::Not(r.split(',').map(|x| x.parse().unwrap()).collect())
    } else if let Some(r) = s.strip_prefix('-') {
        Years::Range(i32::MIN, r.parse().unwrap())
    } else if let Some(r) = s.strip_suffix('-') {
        Years::Range(r.parse().unwrap(), i32::MAX)
    } else if let Some((a, b)) = s.split_once('-') {
        Years::Range(a.parse().unwrap(), b.parse().unwrap())
    } else {
        Years::List(s.split(',').map(|x| x.parse().unwrap()).collect())
    }
}

pub struct Book {
    pub blocks: HashMap<String, Block>,
}

impl Book {
    pub fn load() -> Book {
        let mut blocks: HashMap<String, Block> = HashMap::new();
        for (file, text) in [
            ("europe", include_str!("../rules/europe.rules")),
            ("americas", include_str!("../rules/americas.rules")),
            ("asia_pacific", include_str!("../rules/asia_pacific.rules")),
            ("adhoc", include_str!("../rules/adhoc.rules")),
        ] {
            let mut cur = String::new();
            for (ln, raw) in text.lines().enumerate() {
                let l = raw.trim();
                if l.is_empty() || l.starts_with('#') {
                    continue;
                }
                if let Some(h) = l.strip_prefix('[') {
                    cur = h.trim_end_matches(']').to_string();
                    blocks.entry(cur.clone()).or_default();
                    continue;
                }
                let b = blocks.get_mut(&cur).unwrap_or_else(|| panic!("{file}:{ln}: no block"));
                if let Some(i) = l.strip_prefix('+') {
                    b.includes.push(i.to_string());
                    continue;
                }
                if let Some(w) = l.strip_prefix("weekend ") {
                    b.weekend = Some(wd_mask(w).expect("weekend"));
                    continue;
                }
                let (head, _) = l.split_once(':').unwrap_or((l, ""));
                let mut toks: Vec<&str> = head.split_whitespace().collect();
                let open = toks[0] == "open";
                if open {
                    toks.remove(0);
                }
                let (a, z) = toks[0].split_once("..").unwrap_or((toks[0], toks[0]));
                let mut r = Rule {
                    open,
                    from: day(a),
                    to: day(z),
                    wd: None,
                    years: Years::All,
                    line: format!("{file}: {l}"),
                };
                for t in &toks[1..] {
                    if let Some(m) = wd_mask(t) {
                        r.wd = Some(m);
                    } else {
                        r.years = years(t);
                    }
                }
                b.rules.push(r);
            }
        }
        Book { blocks }
    }

    fn flat<'a>(&'a self, name: &str, out: &mut Vec<&'a Rule>, weekend: &mut Option<u8>) {
        let b = self.blocks.get(name).unwrap_or_else(|| panic!("no rules for {name}"));
        for i in &b.includes {
            self.flat(i, out, weekend);
        }
        out.extend(b.rules.iter());
        if b.weekend.is_some() {
            *weekend = b.weekend;
        }
    }

    pub fn compile(&self, name: &str) -> Market {
        let mut rules = Vec::new();
        let mut weekend = None;
        self.flat(name, &mut rules, &mut weekend);
        let base = num((Y0, 1, 1));
        let n = (num((Y1, 12, 31)) - base + 1) as usize;
        let wmask = weekend.unwrap_or(0b110_0000);
        let mut why = vec![OPEN; n];
        for (i, w) in why.iter_mut().enumerate() {
            if wmask >> weekday(base + i as i64) & 1 == 1 {
                *w = WEEKEND;
            }
        }
        for pass in [false, true] {
            for (ri, r) in rules.iter().enumerate().filter(|(_, r)| r.open == pass) {
                for y in Y0..=Y1 {
                    let ok = match &r.years {
                        Years::All => true,
                        Years::Range(a, b) => y >= *a && y <= *b,
                        Years::List(v) => v.contains(&y),
                        Years::Not(v) => !v.contains(&y),
                    };
                    if !ok {
                        continue;
                    }
                    let at = |d: &Day| match *d {
                        Day::Fixed(m, d) => Some(num((y, m, d))),
                        Day::Easter(k) => Some(civil::easter(y) + k),
                        Day::Orthodox(k) => Some(civil::orthodox_easter(y) + k),
                        Day::Equinox(v, k) => Some(civil::equinox(y, v) + k),
                        Day::Exact(yy, m, d) => (yy == y).then(|| num((yy, m, d))),
                    };
                    let (Some(a), Some(z)) = (at(&r.from), at(&r.to)) else { continue };
                    for d in a..=z {
                        if d < base || d >= base + n as i64 {
                            continue;
                        }
                        if r.wd.map_or(true, |m| m >> weekday(d) & 1 == 1) {
                            let slot = &mut why[(d - base) as usize];
                            if pass {
                                *slot = OPEN;
                            } else if *slot == OPEN {
                                *slot = ri as u16;
                            }
                        }
                    }
                }
            }
        }
        Market { base, why, lines: rules.iter().map(|r| r.line.clone()).collect() }
    }
}

const OPEN: u16 = u16::MAX;
const WEEKEND: u16 = u16::MAX - 1;

pub struct Market {
    base: i64,
    why: Vec<u16>,
    lines: Vec<String>,
}

impl Market {
    pub fn open(&self, n: i64) -> bool {
        self.why[(n - self.base) as usize] == OPEN
    }
    pub fn reason(&self, n: i64) -> String {
        match self.why[(n - self.base) as usize] {
            OPEN => "no rule closes the market".into(),
            WEEKEND => "weekend".into(),
            k => self.lines[k as usize].clone(),
        }
    }
}
