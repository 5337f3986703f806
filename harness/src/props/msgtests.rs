//! C10: header, address, envelope, exists and size tests.  C12: tests of parts.  C11: dates.
use crate::drive::*;
use crate::mime::*;
use crate::mtch::*;
use crate::pin::Pinned;
use crate::props::edit::q;
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Envelope, Event};

pub const KEYCHARS: &[char] = &['a', 'b', 'o', 'e', 'l', 'x', '1', '4', '2', ' ', 'é', 'J', 'H'];

pub const ADDR_NAMES: &[&str] = &["From", "To", "Cc", "Bcc", "Sender", "Reply-To", "Resent-From", "Resent-To"];

/// Address lists with groups.
pub fn group_field(t: &mut Tape, name: &str, nl: &str) -> Field {
    let mut raw = format!("{name}: ");
    let mut text = String::new();
    let mut addrs = vec![];
    for i in 0..1 + t.n(2) {
        if i > 0 {
            raw.push_str(", ");
            text.push_str(", ");
        }
        let g = *t.pick(&["Team", "undisclosed-recipients", "A Team"]);
        let mut s = format!("{g}:");
        for j in 0..t.n(3) {
            let f = addr_field(t, "x", "\r\n");
            let Kind::Addr(a) = &f.kind else { unreachable!() };
            let a = &a[0];
            s.push_str(if j > 0 { ", " } else { " " });
            s.push_str(&a.all());
            addrs.push(Addr { name: None, ..a.clone() });
        }
        s.push(';');
        raw.push_str(&s);
        text.push_str(&s);
    }
    raw.push_str(nl);
    Field { name: name.to_string(), raw: raw.into_bytes(), text, kind: Kind::Addr(addrs), added: false }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ap {
    Default,
    All,
    Local,
    Domain,
    User,
    Detail,
}

impl Ap {
    pub fn tag(self) -> &'static str {
        match self {
            Ap::Default => "",
            Ap::All => ":all ",
            Ap::Local => ":localpart ",
            Ap::Domain => ":domain ",
            Ap::User => ":user ",
            Ap::Detail => ":detail ",
        }
    }
    pub fn of(self, a: &Addr) -> Option<String> {
        Some(match self {
            Ap::Default | Ap::All => a.all(),
            Ap::Local => a.local.clone(),
            Ap::Domain => a.domain.clone(),
            Ap::User => a.local.split('+').next().unwrap().to_string(),
            Ap::Detail => a.local.split_once('+')?.1.to_string(),
        })
    }
    pub fn pick(t: &mut Tape) -> Ap {
        *t.pick(&[Ap::Default, Ap::All, Ap::Local, Ap::Domain, Ap::User, Ap::Detail])
    }
}

/// Which occurrences of a field `:index` selects.
pub fn occurrences(n: usize, index: Option<(usize, bool)>) -> Vec<usize> {
    match index {
        None => (0..n).collect(),
        Some((i, _)) if i == 0 || i > n => vec![],
        Some((i, true)) => vec![n - i],
        Some((i, false)) => vec![i - 1],
    }
}

pub fn index_tag(index: Option<(usize, bool)>) -> String {
    match index {
        None => String::new(),
        Some((i, false)) => format!(":index {i} "),
        Some((i, true)) => format!(":index {i} :last "),
    }
}

pub fn key_list(t: &mut Tape, keys: &[Key], pre: &mut String) -> String {
    let v: Vec<String> = keys
        .iter()
        .map(|k| {
            if t.chance(1, 6) {
                let n = format!("k{}", pre.len());
                pre.push_str(&format!("set \"{n}\" {}; ", q(&k.text)));
                format!("\"${{{n}}}\"")
            } else {
                q(&k.text)
            }
        })
        .collect();
    if v.len() == 1 && t.bool() {
        v[0].clone()
    } else {
        format!("[{}]", v.join(", "))
    }
}

/// The tests of a case: source text and what it should file into.
pub struct Cases {
    pub script: String,
    pub want: Vec<String>,
    pub true_: usize,
}

impl Cases {
    pub fn new() -> Self {
        Cases { script: String::new(), want: vec![], true_: 0 }
    }

    /// Adds a test whose result is known; captures when it is a capturing match.
    pub fn push(&mut self, t: &mut Tape, pre: &str, text: &str, result: bool, hit: Option<Option<Caps>>, rep: &mut Report) {
        let n = self.want.len();
        let (mut show, mut val) = (String::new(), String::new());
        if let Some(c) = &hit {
            for i in 0..4 {
                show.push_str(&format!("|${{{i}}}"));
                let v = match c {
                    Some(c) if result => c.get(i).cloned().flatten().unwrap_or_default(),
                    _ => String::new(),
                };
                val.push_str(&format!("|{v}"));
            }
            rep.label_if(result, "captured");
        }
        let (a, b, not) = if t.chance(1, 3) { ("F", "T", "not ") } else { ("T", "F", "") };
        // the match variables of a test end with the block
        self.script.push_str(&format!("if true {{ {pre}if {not}{text} {{ fileinto :copy \"{a}{n}{show}\"; }} else {{ fileinto :copy \"{b}{n}{show}\"; }} }}\n"));
        self.want.push(format!("{}{n}{val}", if result { "T" } else { "F" }));
        self.true_ += result as usize;
        rep.label(if result { "true" } else { "false" });
    }

    pub fn check(&self, tr: Trace) -> CaseResult {
        let mut got = vec![];
        for i in tr.items {
            match i {
                Item::Ev(Event::FileInto { folder, .. }) => got.push(folder),
                Item::Ev(Event::Keep { .. }) => (),
                i => return fail("events", format!("unexpected {i:?}")),
            }
        }
        compare(&self.want, &got)
    }
}

pub fn compare(want: &[String], got: &[String]) -> CaseResult {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            let same = |a: &String, b: &String| a.split('|').next() == b.split('|').next();
            let class = match (w, g) {
                (Some(w), Some(g)) if same(w, g) => "captures",
                _ => "decision",
            };
            return fail(class, format!("test {i}: expected {w:?}, is {g:?}"));
        }
    }
    Ok(())
}

pub fn first(test: &Test, values: &[String]) -> Option<Caps> {
    values.iter().find_map(|v| test.keys.iter().find_map(|k| test.one(v, k)))
}

/// Decision for a list of values in the order they are looked at, with what `push` needs.
pub fn decide(test: &Test, values: &[String], count: usize) -> (bool, Option<Option<Caps>>) {
    if let Mk::Count(_) = test.mk {
        return (test.count(count), None);
    }
    let hit = first(test, values);
    (hit.is_some(), test.captures().then_some(hit))
}

fn c10(t: &mut Tape, rep: &mut Report) -> CaseResult {
    const N: &[&str] = &["Subject", "X-A", "X-A", "X-B", "Comments", "Keywords", "X-Num", "List-Id", "Organization"];
    let nl = if t.chance(1, 8) { "\n" } else { "\r\n" };
    let mut fields: Vec<Field> = vec![];
    for _ in 0..1 + t.n(8) {
        let f = match t.n(5) {
            0 | 1 => {
                let n = *t.pick(ADDR_NAMES);
                let n = random_case(t, n);
                if t.chance(1, 6) {
                    group_field(t, &n, nl)
                } else {
                    addr_field(t, &n, nl)
                }
            }
            2 if t.chance(1, 3) => {
                let v = t.pick(&["0", "7", "10", "42", "007", "100"]).to_string();
                let n = random_case(t, "X-Num");
                plain_field(&n, &v, nl)
            }
            2 if t.chance(1, 3) => addr_field(t, "X-Addr", nl),
            _ => {
                let n = *t.pick(N);
                let n = random_case(t, n);
                text_field(t, &n, nl)
            }
        };
        fields.push(f);
    }
    let mut body = String::new();
    for _ in 0..t.n(4) {
        body.push_str("some body text");
        body.push_str(nl);
    }
    let mut msg: Vec<u8> = fields.iter().flat_map(|f| f.raw.clone()).collect();
    msg.extend(nl.as_bytes());
    msg.extend(body.as_bytes());
    if t.chance(1, 6) {
        let target = *t.pick(&[1023, 1024, 1025, 2048, 2047]);
        while msg.len() < target {
            msg.push(b'y');
        }
    }
    // the envelope
    let mut envelope: Vec<(Envelope, String, Option<String>)> = vec![];
    let mut ctx_env: Vec<(Envelope, String)> = vec![];
    for _ in 0..t.n(5) {
        let e = t.pick(&[Envelope::From, Envelope::To, Envelope::From, Envelope::To, Envelope::Orcpt, Envelope::Envid, Envelope::Ret, Envelope::Notify, Envelope::ByMode, Envelope::ByTrace, Envelope::ByTimeRelative, Envelope::ByTimeAbsolute]).clone();
        let (given, v) = if matches!(e, Envelope::From | Envelope::To) {
            match t.n(8) {
                0 => ("<>".to_string(), Some(String::new())),
                1 => (String::new(), Some(String::new())),
                2 => (t.pick(&["a b@c.d", "nobody", "a@", "@x.y", "a@b@c", "<a@b.c", "é@x.y", "a@b..c", "a@.b", "x <a@b.c>"]).to_string(), None),
                3 => ("MAILER-DAEMON".into(), Some("MAILER-DAEMON".into())),
                4 => ("<@relay.org,@b.net:joe@x.y>".into(), Some("joe@x.y".into())),
                k => {
                    let f = addr_field(t, "x", "\r\n");
                    let Kind::Addr(a) = &f.kind else { unreachable!() };
                    let a = a[0].all();
                    if k == 5 {
                        (format!("<{a}>"), Some(a))
                    } else {
                        (a.clone(), Some(a))
                    }
                }
            }
        } else {
            let v = t.pick(&["rfc822;joe@example.com", "abc123", "HDRS", "FULL", "NEVER", "SUCCESS,FAILURE", "120", "R", "T", "", "2026-11-19T10:00:00Z"]).to_string();
            (v.clone(), Some(v))
        };
        ctx_env.push((e.clone(), given.clone()));
        if let Some(v) = v {
            envelope.push((e, given, Some(v)));
        }
    }
    let names: Vec<String> = fields.iter().map(|f| f.name.clone()).collect();
    let mut cs = Cases::new();
    let some_name = |t: &mut Tape, addr: bool| -> String {
        let n = if t.chance(5, 6) && (!addr || fields.iter().any(|f| matches!(f.kind, Kind::Addr(_)))) {
            let of: Vec<&Field> = fields.iter().filter(|f| !addr || matches!(f.kind, Kind::Addr(_))).collect();
            t.pick(&of).name.clone()
        } else {
            t.pick(if addr { ADDR_NAMES } else { &["Subject", "X-A", "X-B", "X-None", "To", "X-Num"] }).to_string()
        };
        random_case(t, &n)
    };
    for _ in 0..1 + t.n(5) {
        let mut pre = String::new();
        match t.n(10) {
            0..=2 => {
                let list: Vec<String> = (0..1 + t.len(2)).map(|_| some_name(t, false)).collect();
                let index = t.chance(1, 3).then(|| (1 + t.n(3), t.bool()));
                let mut values = vec![];
                for n in &list {
                    let of: Vec<&Field> = fields.iter().filter(|f| f.name.eq_ignore_ascii_case(n)).collect();
                    values.extend(occurrences(of.len(), index).into_iter().map(|i| of[i].text.clone()));
                }
                let test = test_for(t, &values, KEYCHARS, &Kinds { numeric: true, count: true, regex: true, value: true }, 3);
                let (r, hit) = decide(&test, &values, values.len());
                let ks = key_list(t, &test.keys, &mut pre);
                let ns = names_list(t, &list, &mut pre);
                cs.push(t, &pre, &format!("header {}{} {ns} {ks}", index_tag(index), test.tags()), r, hit, rep);
                rep.label("header");
                rep.label_if(index.is_some() && r, "indexed");
            }
            3..=5 => {
                let list: Vec<String> = (0..1 + t.len(2)).map(|_| if t.chance(1, 8) { "X-Addr".into() } else { some_name(t, true) }).collect();
                let index = t.chance(1, 3).then(|| (1 + t.n(3), t.bool()));
                let mut ap = Ap::pick(t);
                let mut addrs: Vec<Addr> = vec![];
                for n in &list {
                    let of: Vec<&Field> = fields.iter().filter(|f| f.name.eq_ignore_ascii_case(n)).collect();
                    for i in occurrences(of.len(), index) {
                        if let Kind::Addr(a) = &of[i].kind {
                            addrs.extend(a.clone());
                        }
                    }
                }
                if ap == Ap::Detail && addrs.iter().any(|a| a.local.matches('+').count() > 1) {
                    // left open by subaddress
                    ap = Ap::User;
                }
                let values: Vec<String> = addrs.iter().filter_map(|a| ap.of(a)).collect();
                let test = test_for(t, &values, KEYCHARS, &Kinds { numeric: false, count: true, regex: true, value: true }, 3);
                let (r, hit) = decide(&test, &values, values.len());
                let ks = key_list(t, &test.keys, &mut pre);
                let ns = names_list(t, &list, &mut pre);
                cs.push(t, &pre, &format!("address {}{}{} {ns} {ks}", ap.tag(), index_tag(index), test.tags()), r, hit, rep);
                rep.label("address");
                rep.label_if(r && !matches!(ap, Ap::All | Ap::Default), "address part");
            }
            6 | 7 => {
                let of = *t.pick(&[&["from"][..], &["to"], &["From", "TO"], &["orcpt"], &["envid"], &["ret", "notify"], &["bymode", "bytrace"], &["bytimerelative"], &["bytimeabsolute"], &["from", "envid"]]);
                let ap = if of.iter().any(|o| !["from", "to"].contains(&o.to_ascii_lowercase().as_str())) { Ap::Default } else { Ap::pick(t) };
                let low: Vec<String> = of.iter().map(|o| o.to_ascii_lowercase()).collect();
                let mut ap = ap;
                if ap == Ap::Detail && envelope.iter().any(|e| e.2.as_ref().unwrap().matches('+').count() > 1) {
                    ap = Ap::User;
                }
                let mut values: Vec<String> = vec![];
                for (e, _, v) in &envelope {
                    if !low.contains(&format!("{e:?}").to_ascii_lowercase()) {
                        continue;
                    }
                    let v = v.clone().unwrap();
                    if v.is_empty() || matches!(ap, Ap::Default | Ap::All) {
                        values.push(v);
                    } else if let Some((l, d)) = v.split_once('@') {
                        values.extend(ap.of(&Addr { name: None, local: l.into(), domain: d.into() }));
                    }
                }
                let test = test_for(t, &values, KEYCHARS, &Kinds { numeric: false, count: true, regex: true, value: true }, 3);
                let (r, hit) = decide(&test, &values, values.iter().filter(|v| !v.is_empty()).count());
                let ks = key_list(t, &test.keys, &mut pre);
                let ns = if of.len() == 1 && t.bool() { q(of[0]) } else { format!("[{}]", of.iter().map(|o| q(o)).collect::<Vec<_>>().join(",")) };
                cs.push(t, &pre, &format!("envelope {}{} {ns} {ks}", ap.tag(), test.tags()), r, hit, rep);
                rep.label("envelope");
            }
            8 => {
                let list: Vec<String> = (0..1 + t.len(3)).map(|_| some_name(t, false)).collect();
                let r = list.iter().all(|n| names.iter().any(|m| m.eq_ignore_ascii_case(n)));
                let ns = names_list(t, &list, &mut pre);
                cs.push(t, &pre, &format!("exists {ns}"), r, None, rep);
                rep.label("exists");
            }
            _ => {
                let over = t.bool();
                let (n, w) = match t.n(4) {
                    0 => (1024, "1K".to_string()),
                    1 => (2048, "2k".to_string()),
                    _ => {
                        let n = (msg.len() + t.n(3)).saturating_sub(1);
                        (n, n.to_string())
                    }
                };
                let r = if over { msg.len() > n } else { msg.len() < n };
                cs.push(t, "", &format!("size {} {w}", if over { ":over" } else { ":under" }), r, None, rep);
                rep.label("size");
            }
        }
    }
    rep.nontrivial_if(cs.true_ > 0);
    rep.desc = format!("{}\n--- message\n{}\n--- envelope {ctx_env:?}\n--- expected {:?}", cs.script, String::from_utf8_lossy(&msg), cs.want);
    let c = full_compiler();
    let s = compile(&c, &format!("{ALL_CAPS}{}", cs.script))?;
    let rt = full_runtime();
    let mut ctx = rt.filter(&msg);
    for (e, v) in &ctx_env {
        ctx.set_envelope(e.clone(), v.clone());
    }
    cs.check(drive(&mut ctx, s, &mut Host::new()))
}

pub fn names_list(t: &mut Tape, list: &[String], pre: &mut String) -> String {
    let v: Vec<String> = list
        .iter()
        .map(|n| {
            if t.chance(1, 8) {
                let k = format!("n{}", pre.len());
                pre.push_str(&format!("set \"{k}\" {}; ", q(n)));
                format!("\"${{{k}}}\"")
            } else {
                q(n)
            }
        })
        .collect();
    if v.len() == 1 && t.bool() {
        v[0].clone()
    } else {
        format!("[{}]", v.join(", "))
    }
}

// ---- C12

#[derive(Debug, Clone, PartialEq)]
enum MimeOpt {
    None,
    Type,
    Subtype,
    ContentType,
    Param(String),
}

#[derive(Debug, Clone, PartialEq)]
enum Transform {
    Raw,
    Text,
    Content(Vec<String>),
}

#[derive(Debug, Clone)]
enum What {
    Header { any: bool, names: Vec<String>, opt: MimeOpt, index: Option<(usize, bool)>, test: Test },
    Address { any: bool, names: Vec<String>, ap: Ap, test: Test },
    Exists { any: bool, names: Vec<String> },
    Body { how: Transform, test: Test },
}

#[derive(Debug, Clone)]
enum Op {
    Visit,
    Test(usize, bool, What, String),
    Each(Vec<Op>),
    BreakAt(usize),
}

/// Type, subtype and parameters of a Content-Type or Content-Disposition field.
fn ctype(f: &Field) -> Option<(String, String, Vec<(String, String)>)> {
    let l = f.name.to_ascii_lowercase();
    if l != "content-type" && l != "content-disposition" {
        return None;
    }
    let mut it = f.text.split(';');
    let first = it.next().unwrap().trim();
    let (a, b) = first.split_once('/').unwrap_or((first, ""));
    let params = it.filter_map(|p| p.trim().split_once('=')).map(|(n, v)| (n.to_string(), v.trim_matches('"').to_string())).collect();
    Some((a.to_string(), b.to_string(), params))
}

fn mime_values(f: &Field, opt: &MimeOpt) -> Vec<String> {
    match (opt, ctype(f)) {
        (MimeOpt::None, _) => vec![f.text.clone()],
        (_, None) => vec![String::new()],
        (MimeOpt::Type, Some(c)) => vec![c.0],
        (MimeOpt::Subtype, Some(c)) => vec![c.1],
        (MimeOpt::ContentType, Some(c)) => vec![if c.1.is_empty() { c.0 } else { format!("{}/{}", c.0, c.1) }],
        (MimeOpt::Param(p), Some(c)) => c.2.into_iter().filter(|(n, _)| n.eq_ignore_ascii_case(p)).map(|(_, v)| v).collect(),
    }
}

/// Every part below (and including) this one, entering attached messages.
fn all_parts<'a>(p: &'a Part, out: &mut Vec<&'a Part>) {
    out.push(p);
    match &p.body {
        Body::Multi { kids, .. } => kids.iter().for_each(|k| all_parts(k, out)),
        Body::Msg(m) => all_parts(m, out),
        _ => (),
    }
}

fn body_raw(p: &Part) -> String {
    let mut v = vec![];
    p.write_body(&mut v);
    String::from_utf8_lossy(&v).to_string()
}

fn type_of(p: &Part) -> (String, String) {
    p.ctype.clone()
}

/// Left open when the reference matcher gives up.
fn decide12(test: &Test, values: &[String], n: usize) -> Option<(bool, Option<Option<Caps>>)> {
    let ok = test.keys.iter().filter_map(|k| k.re.as_ref()).all(|r| values.iter().all(|v| r.feasible(v)));
    ok.then(|| decide(test, values, n))
}

/// The result and the captures; `None` when the answer is left open.
fn eval12(w: &What, msg: &Part, cur: usize) -> Option<(bool, Option<Option<Caps>>)> {
    let part = msg.get(cur).unwrap();
    let scope = |any: bool| -> Vec<&Part> { (0..if any { part.count() } else { 1 }).map(|i| part.get(i).unwrap()).collect() };
    match w {
        What::Header { any, names, opt, index, test } => {
            let (mut values, mut count) = (vec![], 0);
            for p in scope(*any) {
                for n in names {
                    let of: Vec<&Field> = p.values(n).collect();
                    for i in occurrences(of.len(), *index) {
                        let v = mime_values(of[i], opt);
                        count += match opt {
                            MimeOpt::None => 1,
                            MimeOpt::Param(_) => ctype(of[i]).map_or(0, |_| v.len()),
                            _ => ctype(of[i]).is_some() as usize,
                        };
                        values.extend(v);
                    }
                }
            }
            if matches!(opt, MimeOpt::Param(_)) && !matches!(test.mk, Mk::Count(_)) && test.keys.iter().any(|k| test.one("", k).is_some()) {
                // known finding
                return None;
            }
            decide12(test, &values, count)
        }
        What::Address { any, names, ap, test } => {
            let mut values = vec![];
            for p in scope(*any) {
                for n in names {
                    for f in p.values(n) {
                        if let Kind::Addr(a) = &f.kind {
                            if *ap == Ap::Detail && a.iter().any(|a| a.local.matches('+').count() > 1) {
                                return None;
                            }
                            values.extend(a.iter().filter_map(|a| ap.of(a)));
                        }
                    }
                }
            }
            let n = values.len();
            decide12(test, &values, n)
        }
        What::Exists { any, names } => {
            let s = scope(*any);
            Some((names.iter().all(|n| s.iter().any(|p| p.values(n).next().is_some())), None))
        }
        What::Body { how, test } => {
            let mut parts = vec![];
            all_parts(part, &mut parts);
            let (mut values, mut count) = (vec![], 0);
            let mut open: Vec<String> = vec![];
            match how {
                Transform::Raw => {
                    // one text in all; known finding: parts of it are compared as well
                    let whole = body_raw(part);
                    let each: Vec<String> = parts.iter().map(|p| body_raw(p)).collect();
                    if matches!(test.mk, Mk::Count(_)) {
                        return None;
                    }
                    if whole.is_empty() {
                        // known finding: an empty body matches nothing
                        return None;
                    }
                    let (a, b) = (test.any(&[whole]), test.any(&each));
                    return (a == b).then_some((a, None));
                }
                Transform::Text => {
                    if matches!(test.mk, Mk::Count(_)) {
                        return None;
                    }
                    for p in parts {
                        if let Body::Leaf { text: Some(s), .. } = &p.body {
                            values.push(if p.ctype.1 == "html" { mail_parser::decoders::html::html_to_text(s) } else { s.clone() });
                        }
                    }
                }
                Transform::Content(list) => {
                    let accept = |p: &Part| {
                        let (a, b) = type_of(p);
                        list.iter().any(|l| {
                            let l = l.to_ascii_lowercase();
                            l.is_empty() || (!invalid_type(&l) && (l == a || l == format!("{a}/{b}")))
                        })
                    };
                    for p in parts {
                        if !accept(p) {
                            continue;
                        }
                        count += 1;
                        match &p.body {
                            Body::Leaf { text: Some(s), .. } => values.push(s.clone()),
                            Body::Leaf { decoded, .. } => values.push(String::from_utf8_lossy(decoded).to_string()),
                            Body::Msg(m) => {
                                let mut h: Vec<u8> = m.fields.iter().flat_map(|f| f.raw.clone()).collect();
                                h.extend(m.nl.as_bytes());
                                let h = String::from_utf8_lossy(&h).to_string();
                                // with or without the empty line
                                open.push(h.trim_end_matches(['\r', '\n']).to_string());
                                open.push(h);
                            }
                            Body::Multi { pre, epi, .. } => {
                                if pre.is_empty() {
                                    // known finding: takes the first part for the text before it
                                    return None;
                                }
                                open.push(format!("{}{}", String::from_utf8_lossy(pre), String::from_utf8_lossy(epi)));
                                open.push(format!("{}\r\n\r\n{}", String::from_utf8_lossy(pre), String::from_utf8_lossy(epi)));
                                open.push(String::from_utf8_lossy(pre).to_string());
                                // the line ends around the boundaries belong to it or not
                                for nl in ["\r", "\n", "\r\n", "\r\r\n", "\n\n"] {
                                    open.push(format!("{}{nl}{}{nl}", String::from_utf8_lossy(pre), String::from_utf8_lossy(epi)));
                                }
                            }
                            _ => (),
                        }
                    }
                }
            }
            if let Transform::Content(list) = how {
                if list.iter().any(invalid_type) {
                    // known finding: one invalid type in the list makes the test false
                    return None;
                }
            }
            if matches!(test.mk, Mk::Count(_)) {
                return Some((test.count(count), None));
            }
            let r = test.any(&values);
            if !r && !open.is_empty() {
                if !matches!(test.mk, Mk::Contains) {
                    return None;
                }
                let n = open.iter().filter(|o| test.any(&[o])).count();
                return (n == 0 || n == open.len()).then_some((n > 0, None));
            }
            Some((r, None))
        }
    }
}

fn invalid_type(l: &String) -> bool {
    l.matches('/').count() > 1 || (l.contains('/') && (l.starts_with('/') || l.ends_with('/')))
}

struct Gen12 {
    names: Vec<String>,
    texts: Vec<String>,
    bodies: Vec<String>,
    addrs: Vec<Addr>,
    ids: usize,
    next: usize,
}

impl Gen12 {
    fn name(&self, t: &mut Tape) -> String {
        let n = if t.chance(2, 3) { t.pick(&self.names).clone() } else { t.pick(&["Content-Type", "Subject", "X-A", "X-None", "Content-Type", "Content-Disposition", "Content-Transfer-Encoding"]).to_string() };
        random_case(t, &n)
    }

    fn what(&self, t: &mut Tape) -> What {
        let all = Kinds { numeric: false, count: true, regex: true, value: true };
        match t.n(8) {
            0..=2 => {
                let opt = match t.n(8) {
                    0 => MimeOpt::Type,
                    1 => MimeOpt::Subtype,
                    2 => MimeOpt::ContentType,
                    3 | 4 => MimeOpt::Param(t.pick(&["charset", "boundary", "Charset", "filename", "none"]).to_string()),
                    _ => MimeOpt::None,
                };
                let names: Vec<String> = (0..1 + t.len(2))
                    .map(|_| if opt != MimeOpt::None && t.chance(3, 4) { t.pick(&["Content-Type", "content-type", "Content-Disposition"]).to_string() } else { self.name(t) })
                    .collect();
                let values: Vec<String> = match &opt {
                    MimeOpt::None => self.texts.clone(),
                    MimeOpt::Type => vec!["text".into(), "multipart".into(), "application".into(), "attachment".into(), "message".into(), "image".into()],
                    MimeOpt::Subtype => vec!["plain".into(), "html".into(), "mixed".into(), "rfc822".into(), "alternative".into()],
                    MimeOpt::ContentType => vec!["text/plain".into(), "multipart/mixed".into(), "text/html".into(), "message/rfc822".into(), "application/pdf".into(), "attachment".into()],
                    MimeOpt::Param(_) => vec!["utf-8".into(), "iso-8859-1".into(), "b1".into(), "file.txt".into()],
                };
                What::Header { any: t.bool(), names, index: (opt == MimeOpt::None || t.chance(1, 4)).then(|| (1 + t.n(2), t.bool())).filter(|_| t.chance(1, 3)), opt, test: test_for(t, &values, KEYCHARS, &all, 3) }
            }
            3 => {
                let names: Vec<String> = (0..1 + t.len(2)).map(|_| { let n = *t.pick(ADDR_NAMES); random_case(t, n) }).collect();
                let ap = Ap::pick(t);
                let values: Vec<String> = self.addrs.iter().filter_map(|a| ap.of(a)).collect();
                What::Address { any: t.bool(), names, ap, test: test_for(t, &values, KEYCHARS, &all, 2) }
            }
            4 => What::Exists { any: t.bool(), names: (0..1 + t.len(3)).map(|_| self.name(t)).collect() },
            _ => {
                let how = match t.n(5) {
                    0 => Transform::Raw,
                    1 | 2 => Transform::Text,
                    _ => {
                        let valid = ["text", "text/plain", "TEXT/Html", "image", "application/octet-stream", "application/pdf", "multipart", "message/rfc822", "message", "text/x", "Multipart/Mixed", "image/png"];
                        Transform::Content(match t.n(8) {
                            0 => vec![String::new()],
                            1 => vec![t.pick(&["text/plain/x", "/plain", "text/", "/"]).to_string()],
                            _ => (0..1 + t.n(3)).map(|_| t.pick(&valid).to_string()).collect(),
                        })
                    }
                };
                let count = matches!(&how, Transform::Content(_));
                let mut test = test_for(t, &self.bodies, KEYCHARS, &Kinds { numeric: false, count, regex: false, value: false }, 3);
                if t.chance(1, 2) && !matches!(test.mk, Mk::Count(_)) {
                    test.mk = Mk::Contains;
                    for k in &mut test.keys {
                        k.text = k.text.chars().skip(t.n(4)).take(1 + t.n(12)).collect();
                    }
                }
                What::Body { how, test }
            }
        }
    }

    fn ops(&mut self, t: &mut Tape, n: usize, depth: usize, in_loop: bool) -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..1 + t.n(n) {
            v.push(match t.n(9) {
                0 if in_loop => Op::Visit,
                1 if in_loop && t.chance(1, 2) => Op::BreakAt(t.n(self.ids + 1)),
                2 | 3 if depth > 0 => {
                    let mut o = self.ops(t, 3, depth - 1, true);
                    o.insert(0, Op::Visit);
                    Op::Each(o)
                }
                _ => {
                    let w = self.what(t);
                    self.next += 1;
                    let mut pre = String::new();
                    let not = t.chance(1, 3);
                    let text = self.text(t, &w, &mut pre);
                    let n = self.next;
                    let show = if captures12(&w) { "|${0}|${1}|${2}|${3}" } else { "" };
                    let (a, b, not_) = if not { ("F", "T", "not ") } else { ("T", "F", "") };
                    Op::Test(n, not, w, format!("if true {{ {pre}if {not_}{text} {{ fileinto :copy \"{a}{n}{show}\"; }} else {{ fileinto :copy \"{b}{n}{show}\"; }} }}\n"))
                }
            });
        }
        v
    }

    fn text(&self, t: &mut Tape, w: &What, pre: &mut String) -> String {
        match w {
            What::Header { any, names, opt, index, test } => {
                let o = match opt {
                    MimeOpt::None => String::new(),
                    MimeOpt::Type => ":type ".into(),
                    MimeOpt::Subtype => ":subtype ".into(),
                    MimeOpt::ContentType => ":contenttype ".into(),
                    MimeOpt::Param(p) => format!(":param {} ", q(p)),
                };
                let ks = key_list(t, &test.keys, pre);
                let ns = names_list(t, names, pre);
                format!("header :mime {}{o}{}{} {ns} {ks}", if *any { ":anychild " } else { "" }, index_tag(*index), test.tags())
            }
            What::Address { any, names, ap, test } => {
                let ks = key_list(t, &test.keys, pre);
                let ns = names_list(t, names, pre);
                format!("address :mime {}{}{} {ns} {ks}", if *any { ":anychild " } else { "" }, ap.tag(), test.tags())
            }
            What::Exists { any, names } => {
                let ns = names_list(t, names, pre);
                format!("exists :mime {}{ns}", if *any { ":anychild " } else { "" })
            }
            What::Body { how, test } => {
                let h = match how {
                    Transform::Raw => ":raw ".to_string(),
                    Transform::Text if t.bool() => String::new(),
                    Transform::Text => ":text ".into(),
                    Transform::Content(l) => format!(":content [{}] ", l.iter().map(|l| q(l)).collect::<Vec<_>>().join(",")),
                };
                let ks = key_list(t, &test.keys, pre);
                format!("body {h}{} {ks}", test.tags())
            }
        }
    }
}


fn captures12(w: &What) -> bool {
    match w {
        What::Header { test, .. } | What::Address { test, .. } => test.captures(),
        _ => false,
    }
}

fn write12(ops: &[Op], s: &mut String) {
    for o in ops {
        match o {
            Op::Visit => s.push_str("if true { if header :mime :matches \"X-Id\" \"*\" { fileinto :copy \"p${1}\"; } }\n"),
            Op::Test(_, _, _, text) => s.push_str(text),
            Op::Each(o) => {
                s.push_str("foreverypart {\n");
                write12(o, s);
                s.push_str("}\n");
            }
            Op::BreakAt(i) => s.push_str(&format!("if header :mime \"X-Id\" \"{i}\" {{ break; }}\n")),
        }
    }
}

enum Flow {
    Next,
    Break,
}

fn run12(ops: &[Op], msg: &Part, cur: usize, in_loop: bool, want: &mut Vec<String>, rep: &mut Report, trues: &mut usize) -> Flow {
    let id = |i: usize| msg.get(i).unwrap().values("X-Id").next().unwrap().text.clone();
    for o in ops {
        match o {
            Op::Visit => {
                want.push(format!("p{}", id(cur)));
                rep.label_if(cur > 0, "part visited");
            }
            Op::Test(n, _, w, _) => {
                let kind = match w {
                    What::Header { opt: MimeOpt::None, any: true, .. } => "header anychild",
                    What::Header { opt: MimeOpt::None, .. } => "header mime",
                    What::Header { .. } => "header type or parameter",
                    What::Address { .. } => "address mime",
                    What::Exists { .. } => "exists mime",
                    What::Body { how: Transform::Raw, .. } => "body raw",
                    What::Body { how: Transform::Text, .. } => "body text",
                    What::Body { .. } => "body content",
                };
                match eval12(w, msg, cur) {
                    None => {
                        want.push(format!("?{n}"));
                        rep.label("left open");
                    }
                    Some((r, hit)) => {
                        let mut s = format!("{}{n}", if r { "T" } else { "F" });
                        if captures12(w) {
                            for i in 0..4 {
                                let v = match &hit {
                                    Some(Some(c)) if r => c.get(i).cloned().flatten().unwrap_or_default(),
                                    _ => String::new(),
                                };
                                s.push_str(&format!("|{v}"));
                            }
                        }
                        rep.label(kind);
                        rep.label_if(r, &format!("{kind} true"));
                        rep.label_if(r && cur > 0, "true in a part");
                        *trues += r as usize;
                        want.push(s);
                    }
                }
            }
            Op::Each(o) => {
                let n = msg.get(cur).unwrap().count();
                let parts = if in_loop { cur + 1..cur + n } else { 0..msg.count() };
                for p in parts {
                    if let Flow::Break = run12(o, msg, p, true, want, rep, trues) {
                        break;
                    }
                }
            }
            Op::BreakAt(i) => {
                if id(cur) == i.to_string() {
                    return Flow::Break;
                }
            }
        }
    }
    Flow::Next
}

fn mark(p: &mut Part, next: &mut usize, t: &mut Tape) {
    let f = plain_field("X-Id", &next.to_string(), p.nl);
    *next += 1;
    if t.chance(1, 4) {
        let mut f = plain_field("Content-Disposition", *t.pick(&["attachment", "inline", "attachment; filename=\"file.txt\""]), p.nl);
        f.kind = Kind::ContentType;
        p.fields.push(f);
    }
    let at = t.n(p.fields.len() + 1);
    p.fields.insert(at, f);
    match &mut p.body {
        Body::Multi { kids, .. } => kids.iter_mut().for_each(|k| mark(k, next, t)),
        Body::Msg(m) => mark(m, &mut 1000, t),
        _ => (),
    }
}

fn c12(t: &mut Tape, rep: &mut Report) -> CaseResult {
    const N: &[&str] = &["Subject", "X-A", "X-B", "From", "To", "Comments", "X-A", "Cc"];
    let o = Opts { depth: *t.pick(&[2, 1, 3, 2, 0]), rfc822: true, names: N, leaf_only: false };
    let mut msg = message(t, &o);
    for _ in 0..5 {
        if msg.count() < 3 && o.depth > 0 {
            msg = message(t, &o);
        }
    }
    mark(&mut msg, &mut 0, t);
    let raw = msg.render();
    if parser_panics(&raw) {
        return Ok(());
    }
    let mut g = Gen12 { names: vec![], texts: vec![], bodies: vec![], addrs: vec![], ids: msg.count(), next: 0 };
    let mut parts = vec![];
    all_parts(&msg, &mut parts);
    for p in &parts {
        for f in &p.fields {
            g.names.push(f.name.clone());
            g.texts.push(f.text.clone());
            if let Kind::Addr(a) = &f.kind {
                g.addrs.extend(a.clone());
            }
        }
        match &p.body {
            Body::Leaf { text: Some(s), .. } => g.bodies.push(s.clone()),
            Body::Leaf { decoded, .. } => g.bodies.push(String::from_utf8_lossy(decoded).to_string()),
            _ => (),
        }
    }
    if g.bodies.iter().any(|b| b.chars().any(|c| !c.is_ascii() && !c.to_lowercase().eq([c]))) {
        // known finding of C09: letters outside ASCII are folded
        return Ok(());
    }
    g.bodies.push("preamble".into());
    g.bodies.push("epilogue".into());
    g.bodies.push(msg.fields[0].text.clone());
    g.bodies.retain(|b| b.len() < 300);
    let ops = g.ops(t, 5, 2, false);
    let mut script = String::new();
    write12(&ops, &mut script);
    let mut want = vec![];
    let mut trues = 0;
    run12(&ops, &msg, 0, false, &mut want, rep, &mut trues);
    rep.nontrivial_if(trues > 0 || want.iter().filter(|w| w.starts_with('p')).count() > 1);
    rep.desc = format!("{script}\n--- message\n{}\n--- expected {want:?}", String::from_utf8_lossy(&raw));
    let c = full_compiler();
    let s = compile(&c, &format!("{ALL_CAPS}{script}"))?;
    let rt = full_runtime();
    let mut ctx = rt.filter(&raw);
    let tr = drive(&mut ctx, s, &mut Host::new());
    let mut got = vec![];
    for i in tr.items {
        match i {
            Item::Ev(Event::FileInto { folder, .. }) => got.push(folder),
            Item::Ev(Event::Keep { .. }) => (),
            i => return fail("events", format!("unexpected {i:?}")),
        }
    }
    for (i, w) in want.iter_mut().enumerate() {
        if let (Some(n), Some(g)) = (w.strip_prefix('?'), got.get(i)) {
            let a = g.split('|').next().unwrap();
            if a.strip_prefix(['T', 'F']) == Some(n) {
                *w = g.clone();
            }
        }
    }
    compare(&want, &got)
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop {
        id,
        quick,
        thorough: quick * 60,
        run,
        pinned,
        rule,
        assumptions: &["header fields written in the forms the generator knows"],
    };
    vec![mk("C10", c10 as fn(&mut Tape, &mut Report) -> CaseResult, 400_000, "a test is true", (|| vec![]) as fn() -> Pinned), mk("C12", c12, 300_000, "a test is true or more than one part visited", pins12)]
}

fn pins12() -> Pinned {
    use crate::pin::{expect_folders, known, pin};
    const MSG: &str = "Subject: s\r\nContent-Type: multipart/mixed; boundary=b; charset=x\r\n\r\n--b\r\n\r\nfirst\r\n--b\r\nContent-Type: text/html\r\n\r\n<p>second</p>\r\n--b--\r\n";
    const EMPTY: &str = "Subject: s\r\n\r\n";
    const PLAIN: &str = "Subject: s\r\nX-Id: 0\r\nContent-Type: text/plain\r\n\r\ninner\r\n";
    const ENCODED: &str = "Subject: s\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nContent-Type: message/rfc822\r\nContent-Transfer-Encoding: base64\r\n\r\nU3ViamVjdDogbmVzdGVkLXN1YmplY3QNCg0KaGVsbG8NCg==\r\n--b--\r\n";
    const NEST: &str = "Subject: s\r\nContent-Type: multipart/mixed; boundary=b\r\nX-Id: 0\r\n\r\n--b\r\nX-Id: 1\r\nContent-Type: multipart/mixed; boundary=c\r\n\r\n--c\r\nX-Id: 2\r\n\r\nu\r\n--c\r\nX-Id: 3\r\n\r\nu\r\n--c--\r\n--b\r\nX-Id: 4\r\n\r\nu\r\n--b--\r\n";
    vec![
        pin("raw-of-parts", || known("raw-of-parts", "if body :raw :is \"first\" { fileinto \"1\"; } if body :raw :contains \"first\" { fileinto \"2\"; }", MSG, &["2"], &["1", "2"])),
        pin("empty-raw-body", || known("empty-raw-body", "if body :raw :is \"\" { fileinto \"1\"; } if body :raw :contains \"x\" { fileinto \"2\"; }", EMPTY, &["1"], &[])),
        pin("first-part-as-prologue", || known("first-part-as-prologue", "if body :content \"multipart\" :contains \"first\" { fileinto \"1\"; } if body :content \"multipart\" :contains \"second\" { fileinto \"2\"; }", MSG, &[], &["1"])),
        pin("type-list", || known("type-list", "if body :content [\"text/html\", \"a/b/c\"] :contains \"second\" { fileinto \"1\"; } if body :content [\"a/b/c\"] :count \"lt\" \"1\" { fileinto \"2\"; } if body :content [\"image\", \"\"] :contains \"second\" { fileinto \"3\"; }", MSG, &["1", "2", "3"], &[])),
        pin("absent-parameter", || known("absent-parameter", "if header :mime :param \"charset\" \"Content-Type\" \"\" { fileinto \"1\"; } if header :mime :param \"charset\" \"Content-Type\" \"x\" { fileinto \"2\"; }", MSG, &["2"], &["1", "2"])),
        pin("raw-after-convert", || known("raw-after-convert", "if body :raw :contains \"X-Id\" { fileinto \"1\"; } convert \"text/plain\" \"text/html\" [\"\"]; if body :raw :contains \"X-Id\" { fileinto \"2\"; }", PLAIN, &[], &["2"])),
        pin("encoded-nested-message", || known("encoded-nested-message", "if body :content \"message/rfc822\" :contains \"nested-subject\" { fileinto \"1\"; } if body :content \"text\" :contains \"hello\" { fileinto \"2\"; }", ENCODED, &["1", "2"], &["2"])),
        pin("enclosed-message-headers", || known("enclosed-message-headers", "enclose :subject \"x\" \"text\"; if body :content \"message/rfc822\" :contains \"X-Id\" { fileinto \"1\"; } if body :content \"text\" :contains \"inner\" { fileinto \"2\"; }", PLAIN, &["1", "2"], &["2"])),
        pin("visits", || expect_folders("foreverypart { if header :mime :matches \"X-Id\" \"*\" { fileinto \"p${1}\"; } foreverypart { if header :mime :matches \"X-Id\" \"*\" { fileinto \"q${1}\"; } } }", NEST, &["p0", "q1", "q2", "q3", "q4", "p1", "q2", "q3", "p2", "p3", "p4"])),
    ]
}
