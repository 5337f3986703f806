//! C11: date and currentdate.
use crate::clock;
use crate::drive::*;
use crate::mime::random_case;
use crate::mtch::*;
use crate::pin::{pin, Pinned};
use crate::props::edit::q;
use crate::props::msgtests::*;
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;

const DAYS: &[&str] = &["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
const MONTHS: &[&str] = &["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
pub const PARTS: &[&str] = &["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"];

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Days from 1970-01-01, counted year by year and month by month.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    for i in 1970..y {
        n += 365 + leap(i) as i64;
    }
    for i in y..1970 {
        n -= 365 + leap(i) as i64;
    }
    for i in 1..m {
        n += month_len(y, i);
    }
    n + d - 1
}

/// A moment, as seen in a zone (minutes east).
#[derive(Debug, Clone, PartialEq)]
pub struct Date {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub zone: i64,
}

impl Date {
    pub fn stamp(&self) -> i64 {
        days(self.y, self.m, self.d) * 86400 + self.h * 3600 + self.mi * 60 + self.s - self.zone * 60
    }

    pub fn of(stamp: i64, zone: i64) -> Date {
        let local = stamp + zone * 60;
        let (mut n, sec) = (local.div_euclid(86400), local.rem_euclid(86400));
        let mut y = 1970;
        while n < 0 {
            y -= 1;
            n += 365 + leap(y) as i64;
        }
        while n >= 365 + leap(y) as i64 {
            n -= 365 + leap(y) as i64;
            y += 1;
        }
        let mut m = 1;
        while n >= month_len(y, m) {
            n -= month_len(y, m);
            m += 1;
        }
        Date { y, m, d: n + 1, h: sec / 3600, mi: sec / 60 % 60, s: sec % 60, zone }
    }

    fn weekday(&self) -> i64 {
        // 1970-01-01 was a Thursday
        (days(self.y, self.m, self.d) + 4).rem_euclid(7)
    }

    fn zone(&self, colon: &str) -> String {
        format!("{}{:02}{colon}{:02}", if self.zone < 0 { '-' } else { '+' }, self.zone.abs() / 60, self.zone.abs() % 60)
    }

    pub fn part(&self, p: &str) -> String {
        let Date { y, m, d, h, mi, s, .. } = self;
        match p {
            "year" => format!("{y:04}"),
            "month" => format!("{m:02}"),
            "day" => format!("{d:02}"),
            "date" => format!("{y:04}-{m:02}-{d:02}"),
            "julian" => (days(*y, *m, *d) - days(1858, 11, 17)).to_string(),
            "hour" => format!("{h:02}"),
            "minute" => format!("{mi:02}"),
            "second" => format!("{s:02}"),
            "time" => format!("{h:02}:{mi:02}:{s:02}"),
            "iso8601" => format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{}", if self.zone == 0 { "Z".into() } else { self.zone(":") }),
            "std11" => format!("{}, {d} {} {y:04} {h:02}:{mi:02}:{s:02} {}", DAYS[self.weekday() as usize], MONTHS[*m as usize - 1], self.zone("")),
            "zone" => self.zone(""),
            _ => self.weekday().to_string(),
        }
    }
}

pub fn moment(t: &mut Tape, from: i64, to: i64) -> Date {
    let y = match t.n(4) {
        0 => *t.pick(&[2000, 2100, 2400, 2024, 2023, 1999, 2038, 1996, 1972, 2036, 2200]),
        1 => from + t.n((to - from) as usize) as i64,
        _ => 1990 + t.n(60) as i64,
    };
    let y = y.clamp(from, to - 1);
    let m = if t.chance(1, 2) { *t.pick(&[1, 2, 3, 12]) } else { 1 + t.n(12) as i64 };
    let l = month_len(y, m);
    let d = match t.n(4) {
        0 => 1,
        1 => l,
        2 => l - 1,
        _ => 1 + t.n(l as usize) as i64,
    };
    let (h, mi, s) = match t.n(4) {
        0 => (0, t.n(60) as i64, 0),
        1 => (23, t.n(60) as i64, 59),
        _ => (t.n(24) as i64, t.n(60) as i64, t.n(60) as i64),
    };
    Date { y, m, d, h, mi, s, zone: 0 }
}

/// The text of a date-time, with the date it stands for.
pub fn date_text(t: &mut Tape) -> (String, Date) {
    let mut d = moment(t, 1901, 2999);
    let mut zone = None;
    d.zone = match t.n(4) {
        0 => 0,
        1 => {
            let (n, h) = *t.pick(&[("GMT", 0), ("EST", -5), ("EDT", -4), ("CST", -6), ("CDT", -5), ("MST", -7), ("MDT", -6), ("PST", -8), ("PDT", -7)]);
            zone = Some(n.to_string());
            h * 60
        }
        _ => {
            let z = t.n(12) as i64 * 60 + *t.pick(&[0, 0, 30, 45, 15, 59, 1]);
            if t.bool() {
                -z
            } else {
                z
            }
        }
    };
    if t.chance(1, 8) {
        d.s = 0;
    }
    let mut s = String::new();
    if t.chance(3, 4) {
        s.push_str(DAYS[d.weekday() as usize]);
        s.push_str(", ");
    }
    let mon = MONTHS[d.m as usize - 1];
    let mon = if t.chance(1, 6) { random_case(t, mon) } else { mon.to_string() };
    let day = if t.bool() { format!("{:02}", d.d) } else { d.d.to_string() };
    let year = if t.chance(1, 8) && (1950..2050).contains(&d.y) { format!("{:02}", d.y % 100) } else { d.y.to_string() };
    let time = if d.s == 0 && zone.is_none() && t.bool() { format!("{:02}:{:02}", d.h, d.mi) } else { format!("{:02}:{:02}:{:02}", d.h, d.mi, d.s) };
    let z = match zone {
        Some(z) => z,
        None if d.zone == 0 && t.chance(1, 4) => "-0000".into(),
        None => d.zone(""),
    };
    s.push_str(&format!("{day} {mon} {year} {time} {z}"));
    match t.n(8) {
        0 => s.push_str(" (CET)"),
        1 => s.push_str(" (a (nested) 12:34)"),
        _ => (),
    }
    (s, d)
}

fn c11(t: &mut Tape, rep: &mut Report) -> CaseResult {
    const N: &[&str] = &["Date", "X-Date", "Date", "Resent-Date", "Received", "X-Date"];
    let nl = if t.chance(1, 8) { "\n" } else { "\r\n" };
    let mut fields: Vec<(String, Option<Date>)> = vec![];
    let mut msg = String::new();
    let field = |t: &mut Tape| -> (String, String, Option<Date>) {
        let n = t.pick(N).to_string();
        let (mut v, d) = if t.chance(1, 10) {
            let bad = t.pick(&["not a date", "", "Tue, 32 Mar 2020 10:00:00 +0000", "Tue, 3 Mar 2020 24:00:00 +0000", "Tue, 3 Mar 2020 10:60:00 +0000", "tomorrow at 10:00", "3 Mar 2020"]);
            (bad.to_string(), None)
        } else {
            let (v, d) = date_text(t);
            (v, Some(d))
        };
        if n == "Received" {
            v = format!("{} {v}", t.pick(&["from a.example (b [192.0.2.1]) by c.example with ESMTP id 4F2b12;", "by mx.example;", "from x by y (1; 2) id 1-2+3;"]));
        }
        (n, v, d)
    };
    for _ in 0..1 + t.n(5) {
        let (n, mut v, d) = field(t);
        let m = random_case(t, &n);
        if t.chance(1, 6) {
            // folded at one of the spaces
            let sp: Vec<usize> = v.match_indices(' ').map(|x| x.0).collect();
            if !sp.is_empty() {
                let at = *t.pick(&sp);
                v.insert_str(at, nl);
            }
        }
        msg.push_str(&format!("{m}: {v}{nl}"));
        fields.push((n, d));
        if t.chance(1, 4) {
            msg.push_str(&format!("Subject: s{nl}"));
        }
    }
    msg.push_str(&format!("{nl}body{nl}"));
    let mut cs = Cases::new();
    for _ in 0..if t.chance(1, 4) { 1 + t.n(2) } else { 0 } {
        let (n, v, d) = field(t);
        if n == "Received" {
            continue;
        }
        if t.bool() {
            cs.script.push_str(&format!("addheader {} {};\n", q(&n), q(&v)));
            fields.insert(0, (n, d));
        } else {
            cs.script.push_str(&format!("addheader :last {} {};\n", q(&n), q(&v)));
            fields.push((n, d));
        }
        rep.label("added field");
    }
    let now = moment(t, 1971, 2999).stamp();
    let mut given = vec![];
    for _ in 0..1 + t.n(5) {
        let mut pre = String::new();
        let part = *t.pick(PARTS);
        let p = random_case(t, part);
        let zone = match t.n(4) {
            0 => None,
            1 => Some(t.n(15) as i64 * 60),
            2 => Some(-(t.n(13) as i64) * 60),
            _ => {
                let z = t.n(12) as i64 * 60 + *t.pick(&[30, 45, 15, 1, 59]);
                Some(if t.bool() { -z } else { z })
            }
        };
        let zt = zone.map_or(String::new(), |z| {
            let plus = if z >= 0 && t.chance(1, 4) { "" } else if z < 0 { "-" } else { "+" };
            format!(":zone \"{plus}{:02}{:02}\" ", z.abs() / 60, z.abs() % 60)
        });
        // known finding: minutes of the requested zone
        let minutes = zone.is_some_and(|z| z % 60 != 0);
        let part = if minutes && ["iso8601", "std11", "zone"].contains(&part) { "time" } else { part };
        let p = if p.eq_ignore_ascii_case(part) { p } else { part.to_string() };
        let kinds = Kinds { numeric: true, count: true, regex: false, value: true };
        let alpha = &['0', '1', '2', '9', ':', '-', '+', 'T', 'a'];
        if t.chance(1, 3) {
            let values = vec![Date::of(now, zone.unwrap_or(0)).part(part)];
            let test = test_for(t, &values, alpha, &kinds, 3);
            let (r, hit) = decide(&test, &values, 1);
            let ks = key_list(t, &test.keys, &mut pre);
            cs.push(t, &pre, &format!("currentdate {zt}{} {} {ks}", test.tags(), q(&p)), r, hit, rep);
            given.push(format!("now {values:?}"));
            rep.label("currentdate");
            rep.label_if(r, &format!("currentdate {part}"));
            continue;
        }
        let n = if t.chance(5, 6) { t.pick(&fields).0.clone() } else { "X-None".to_string() };
        let index = t.chance(1, 3).then(|| (1 + t.n(3), t.bool()));
        let of: Vec<&Option<Date>> = fields.iter().filter(|f| f.0 == n).map(|f| &f.1).collect();
        let original = zone.is_none() && t.bool();
        let dates: Vec<Date> = occurrences(of.len(), index)
            .into_iter()
            .filter_map(|i| of[i].clone())
            .map(|d| if original { d } else { Date::of(d.stamp(), zone.unwrap_or(0)) })
            .collect();
        if !original && dates.iter().any(|d| d.stamp() + d.zone * 60 < 0) {
            // known finding: before 1970
            continue;
        }
        let values: Vec<String> = dates.iter().map(|d| d.part(part)).collect();
        let test = test_for(t, &values, alpha, &kinds, 3);
        let (r, hit) = decide(&test, &values, values.len());
        let ks = key_list(t, &test.keys, &mut pre);
        let m = random_case(t, &n);
        let zt = if original { ":originalzone ".to_string() } else { zt };
        cs.push(t, &pre, &format!("date {}{zt}{} {} {} {ks}", index_tag(index), test.tags(), q(&m), q(&p)), r, hit, rep);
        given.push(format!("{values:?}"));
        rep.label("date");
        rep.label_if(r, &format!("date {part}"));
        rep.label_if(r && zone.is_some(), "requested zone");
        rep.label_if(r && original, "original zone");
        rep.label_if(r && minutes, "requested zone with minutes");
    }
    rep.nontrivial_if(cs.true_ > 0);
    rep.desc = format!("{}\n--- message\n{msg}\n--- now {now} values {given:?}\n--- expected {:?}", cs.script, cs.want);
    let c = full_compiler();
    let s = compile(&c, &format!("{ALL_CAPS}{}", cs.script))?;
    let rt = full_runtime();
    let mut tr = clock::at(now, || {
        let mut ctx = rt.filter(msg.as_bytes());
        drive(&mut ctx, s, &mut Host::new())
    });
    tr.items.retain(|i| !matches!(i, Item::Ev(sieve::Event::CreatedMessage { .. })));
    cs.check(tr)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        quick: 1_000_000,
        thorough: 400_000 * 60,
        run: c11,
        pinned: pins11,
        rule: "a test is true",
        assumptions: &["dates in the forms the generator writes", "the wall clock is replaced by the harness"],
    }]
}

fn pins11() -> Pinned {
    use crate::pin::{expect_folders, known};
    const MSG: &str = "Date: Thu, 29 Feb 2024 23:30:00 -0130\r\nX-East: 1 Mar 2024 12:30:00 +1300\r\nX-Old: Wed, 31 Dec 1969 23:00:00 +0000\r\n\r\nb\r\n";
    vec![
        pin("zone-minutes", || known("zone-minutes", "if date :zone \"+0530\" \"Date\" \"zone\" \"+0530\" { fileinto \"1\"; } if date :zone \"+0530\" \"Date\" \"zone\" \"+0508\" { fileinto \"2\"; } if date :zone \"+0530\" \"Date\" \"time\" \"06:30:00\" { fileinto \"3\"; }", MSG, &["1", "3"], &["2", "3"])),
        pin("far-east", || known("far-east", "if date :originalzone \"X-East\" \"zone\" \"+1300\" { fileinto \"1\"; } if date :originalzone \"X-East\" \"zone\" \"+0100\" { fileinto \"2\"; }", MSG, &["1"], &["2"])),
        pin("before-1970", || known("before-1970", "if date \"X-Old\" \"date\" \"1969-12-31\" { fileinto \"1\"; } if date \"X-Old\" \"date\" \"1970-01-01\" { fileinto \"2\"; }", MSG, &["1"], &["2"])),
        pin("no-seconds", || known("no-seconds", "if date :originalzone \"X-Short\" \"time\" \"12:30:00\" { fileinto \"1\"; } if date \"X-Short\" \"time\" \"17:30:00\" { fileinto \"2\"; }", "X-Short: 1 Mar 2024 12:30 EST\r\n\r\nb\r\n", &["1", "2"], &[])),
        pin("converted", || expect_folders("if date \"Date\" \"iso8601\" \"2024-03-01T01:00:00Z\" { fileinto \"1\"; } if date :originalzone \"Date\" \"std11\" \"Thu, 29 Feb 2024 23:30:00 -0130\" { fileinto \"2\"; } if date :zone \"-0200\" \"Date\" \"julian\" \"60369\" { fileinto \"3\"; } if date :zone \"-1200\" \"Date\" \"weekday\" \"4\" { fileinto \"4\"; }", MSG, &["1", "2", "3", "4"])),
    ]
}
