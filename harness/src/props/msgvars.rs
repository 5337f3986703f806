//! C27: variables that stand for the message, the envelope and the environment.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::mime::{addr_field, b64, plain_field, random_case, text_field, Body, Field, Kind, Opts, Part};
use crate::pin::*;
use crate::props::dates::{moment, Date};
use crate::props::edit::q;
use crate::props::msgtests::{compare, group_field, Ap};
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Envelope, Event, FunctionMap};
use sieve::runtime::Variable;

/// What else is known of a field beyond its kind.
#[derive(Debug, Clone)]
enum More {
    No,
    Date(i64),
    Id(String),
    Ids(Vec<String>),
    Received(Vec<(&'static str, String)>),
}

#[derive(Debug, Clone)]
struct F {
    f: Field,
    more: More,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ix {
    None,
    All,
    At(i64),
}

impl Ix {
    fn gen(t: &mut Tape) -> Ix {
        match t.n(6) {
            0 | 1 => Ix::None,
            2 | 3 => Ix::All,
            4 => Ix::At(t.n(4) as i64),
            _ => Ix::At(-1 - t.n(4) as i64),
        }
    }
    fn text(self) -> String {
        match self {
            Ix::None => String::new(),
            Ix::All => "[*]".into(),
            Ix::At(i) => format!("[{i}]"),
        }
    }
    fn select<T: Clone>(self, v: &[T]) -> Option<Vec<T>> {
        let at = |i: Option<usize>| i.and_then(|i| v.get(i)).map(|x| vec![x.clone()]);
        match self {
            Ix::All => Some(v.to_vec()),
            Ix::None => at(v.len().checked_sub(1)),
            Ix::At(0) => at(Some(0)),
            Ix::At(i) if i > 0 => at(Some(i as usize - 1)),
            Ix::At(i) => at(v.len().checked_sub(i.unsigned_abs() as usize)),
        }
    }
}

#[derive(Debug, Clone)]
struct Var {
    names: Vec<String>,
    all: bool,
    index: Ix,
    part: String,
    part_index: Ix,
}

impl Var {
    fn text(&self, t: &mut Tape) -> String {
        let n: Vec<String> = self.names.iter().map(|n| random_case(t, n)).collect();
        let mut s = format!("{}.{}", *t.pick(&["header", "header", "HEADER"]), if self.all { "*".to_string() } else { n.join(":") });
        s.push_str(&self.index.text());
        if !self.part.is_empty() {
            s.push('.');
            s.push_str(&random_case(t, &self.part));
        }
        s.push_str(&self.part_index.text());
        s
    }
}

fn canonical(name: &str) -> String {
    // well-known fields have one spelling, others keep theirs
    for n in ["Subject", "From", "To", "Cc", "Bcc", "Sender", "Date", "Message-ID", "References", "Received", "Comments", "Reply-To", "Resent-From", "Resent-To", "Content-Type", "Content-Transfer-Encoding", "Content-Description", "Content-Disposition", "MIME-Version"] {
        if n.eq_ignore_ascii_case(name) {
            return n.to_string();
        }
    }
    name.to_string()
}

fn raw_value(f: &Field) -> String {
    let s = String::from_utf8_lossy(&f.raw).to_string();
    s[s.find(':').unwrap() + 1..].to_string()
}

/// Runs of white space become one space, none at the end.
fn squeeze(s: &str) -> String {
    let lead = s.starts_with([' ', '\t', '\r', '\n']);
    let body = s.split_ascii_whitespace().collect::<Vec<_>>().join(" ");
    if lead && !body.is_empty() {
        format!(" {body}")
    } else {
        body
    }
}

fn show(a: &crate::mime::Addr) -> String {
    match &a.name {
        Some(n) => format!("{n} <{}>", a.all()),
        None => format!("<{}>", a.all()),
    }
}

fn content_type(f: &Field) -> (String, String, Vec<(String, String)>) {
    let mut it = f.text.split(';');
    let first = it.next().unwrap().trim();
    let (a, b) = first.split_once('/').unwrap_or((first, ""));
    let params = it.filter_map(|p| p.trim().split_once('=')).map(|(n, v)| (n.to_string(), v.trim_matches('"').to_string())).collect();
    (a.to_string(), b.to_string(), params)
}

/// What one field adds; `None` when the answer is left open.
fn values(f: &F, v: &Var) -> Option<Vec<String>> {
    let one = |s: String| Some(vec![s]);
    let empty = || Some(vec![String::new()]);
    let part = v.part.as_str();
    let index = if v.all && v.part_index == Ix::None { Ix::All } else { v.part_index };
    match part {
        "exists" => return one("1".into()),
        "raw_name" => return one(if f.f.added { canonical(&f.f.name) } else { f.f.name.clone() }),
        "raw" if f.f.added && v.all => return one(format!("{}: {}", canonical(&f.f.name), f.f.text)),
        "raw" if f.f.added => return one(f.f.text.clone()),
        "raw" if v.all => return one(squeeze(&String::from_utf8_lossy(&f.f.raw))),
        "raw" => return one(squeeze(&raw_value(&f.f))),
        _ => (),
    }
    if f.f.added && !matches!(part, "" | "text") {
        return None;
    }
    if v.all && matches!(part, "" | "text") {
        let text = match (&f.f.kind, &f.more) {
            (Kind::Text, More::No) if f.f.text.is_empty() => return None,
            (Kind::Text, More::No) => f.f.text.clone(),
            // with or without the angle brackets
            (_, More::Id(_) | More::Ids(_)) => return None,
            // as it stands, decoded
            _ => squeeze(&raw_value(&f.f)).trim().replace("=?utf-8?Q?J=C3=B6rg?=", "Jörg"),
        };
        return one(format!("{}: {text}", canonical(&f.f.name)));
    }
    match (part, &f.f.kind, &f.more) {
        ("" | "text", _, More::Date(_)) if f.f.name.eq_ignore_ascii_case("date") => one(raw_value(&f.f).trim().to_string()),
        ("" | "text", _, More::Id(id)) if f.f.name.eq_ignore_ascii_case("message-id") => {
            Some(if matches!(index, Ix::None | Ix::All | Ix::At(-1..=1)) { vec![id.clone()] } else { vec![String::new()] })
        }
        ("" | "text", Kind::Text, More::Id(_) | More::Date(_)) => {
            Some(if matches!(index, Ix::None | Ix::All | Ix::At(-1..=1)) { vec![f.f.text.clone()] } else { vec![String::new()] })
        }
        ("" | "text", _, More::Ids(ids)) => match ids.len() {
            1 if !matches!(index, Ix::None | Ix::All | Ix::At(-1..=1)) => empty(),
            1 => one(ids[0].clone()),
            _ => Some(index.select(ids).unwrap_or_else(|| vec![String::new()])),
        },
        ("" | "text", _, More::Received(_)) => empty(),
        ("" | "text", Kind::Text, More::No) => {
            Some(if matches!(index, Ix::None | Ix::All | Ix::At(-1..=1)) { vec![f.f.text.clone()] } else { vec![String::new()] })
        }
        ("" | "text", Kind::Addr(a), _) if f.f.name.eq_ignore_ascii_case("x-addr") => {
            let _ = a;
            None
        }
        ("" | "text", Kind::Addr(a), _) => Some(index.select(&a.iter().map(show).collect::<Vec<_>>()).unwrap_or_else(|| vec![String::new()])),
        ("" | "text", Kind::ContentType, _) => {
            let c = content_type(&f.f);
            one(if c.1.is_empty() { c.0 } else { format!("{}/{}", c.0, c.1) })
        }
        (p, Kind::Addr(a), _) if p.starts_with("addr") || p == "name" => {
            let of = |a: &crate::mime::Addr| -> String {
                match p {
                    "name" => a.name.clone(),
                    "addr.local" => Ap::Local.of(a),
                    "addr.domain" => Ap::Domain.of(a),
                    "addr.user" => Ap::User.of(a),
                    "addr.detail" => Ap::Detail.of(a),
                    _ => Some(a.all()),
                }
                .unwrap_or_default()
            };
            if p == "addr.detail" && a.iter().any(|a| a.local.matches('+').count() > 1) {
                return None; // left open by subaddress
            }
            let l: Vec<String> = a.iter().map(of).collect();
            Some(index.select(&l).unwrap_or_else(|| vec![String::new()]))
        }
        (p, Kind::Text, More::No) if p.starts_with("addr") || p == "name" || p == "id" || p == "date" => None,
        ("id", Kind::Text, More::Id(id)) => one(id.clone()),
        ("id", _, _) => None,
        ("date", _, More::Date(s)) => one(s.to_string()),
        ("date", _, _) => None,
        (p, _, More::Received(r)) if p.starts_with("rcvd.") => one(r.iter().find(|(n, _)| p[5..] == **n).map(|(_, v)| v.clone()).unwrap_or_default()),
        (p, _, More::Received(_)) if p.starts_with("addr") || p == "name" => empty(),
        (p, _, _) if p.starts_with("addr") || p == "name" => None,
        ("type", Kind::ContentType, _) => one(content_type(&f.f).0),
        ("subtype", Kind::ContentType, _) => one(content_type(&f.f).1),
        (p, Kind::ContentType, _) if p.starts_with("attr.") => {
            one(content_type(&f.f).2.into_iter().find(|(n, _)| p[5..].eq_ignore_ascii_case(n)).map(|(_, v)| v).unwrap_or_default())
        }
        _ => empty(),
    }
}

enum Res {
    One(String),
    Many(Vec<String>),
}

impl Res {
    fn text(&self) -> String {
        match self {
            Res::One(s) => s.clone(),
            // a list as text: an item starts a new line when there is text before it
            Res::Many(v) => v.iter().fold(String::new(), |mut s, x| {
                if !s.is_empty() {
                    s.push_str("\r\n");
                }
                s.push_str(x);
                s
            }),
        }
    }
}

fn header(fields: &[F], v: &Var) -> Option<Res> {
    let of: Vec<&F> = fields.iter().filter(|f| v.all || v.names.iter().any(|n| n.eq_ignore_ascii_case(&f.f.name))).collect();
    let chosen = if v.all { of } else { v.index.select(&of).unwrap_or_default() };
    let mut out = vec![];
    for f in chosen {
        out.extend(values(f, v)?);
    }
    let scalar = !v.all && v.index != Ix::All && v.part_index != Ix::All;
    Some(match out.len() {
        0 => Res::One(String::new()),
        1 if scalar => Res::One(out.remove(0)),
        _ => Res::Many(out),
    })
}

const RECEIVED: &[(&str, &[(&str, &str)])] = &[
    (
        "from out.host.com (other.host.com [192.30.252.208]) (using TLSv1.3 with cipher TLS13_AES_256_GCM_SHA384) by mx.example.org (Some SMTP) with ESMTPS id 41A2C80D73C",
        &[("from", "out.host.com"), ("from.name", "out.host.com"), ("ip", "192.30.252.208"), ("iprev", "other.host.com"), ("by", "mx.example.org"), ("by.name", "mx.example.org"), ("with", "ESMTPS"), ("tls", "TLSv1.3"), ("cipher", "TLS13_AES_256_GCM_SHA384"), ("id", "41A2C80D73C")],
    ),
    (
        "from ietfa.example.com (l.example.org [IPv6:::1]) by ietfa.example.net (Postfix) with ESMTP id 6296FC13AE3E for <hello@domain.com>",
        &[("from", "ietfa.example.com"), ("from.name", "ietfa.example.com"), ("ip", "::1"), ("iprev", "l.example.org"), ("by", "ietfa.example.net"), ("by.name", "ietfa.example.net"), ("with", "ESMTP"), ("id", "6296FC13AE3E"), ("for", "hello@domain.com")],
    ),
    (
        "from mail.example.org (HELO other.example.org) (192.0.2.1) by mx.example.com with SMTP",
        &[("from", "mail.example.org"), ("from.name", "mail.example.org"), ("ip", "192.0.2.1"), ("by", "mx.example.com"), ("by.name", "mx.example.com"), ("with", "SMTP")],
    ),
    (
        "from [192.0.2.7] (helo=x.example) by [203.0.113.9] with HTTP id 1",
        &[("from", "192.0.2.7"), ("from.ip", "192.0.2.7"), ("by", "203.0.113.9"), ("by.ip", "203.0.113.9"), ("with", "HTTP"), ("id", "1")],
    ),
    (
        "from [127.0.0.1] (ident=mail) by host.example with local id a1",
        &[("from", "127.0.0.1"), ("from.ip", "127.0.0.1"), ("by", "host.example"), ("by.name", "host.example"), ("ident", "mail"), ("with", "Local"), ("id", "a1")],
    ),
    (
        "from a.example ([192.0.2.1] helo=b.example ident=joe) by mx.example.org with esmtp",
        &[("from", "a.example"), ("from.name", "a.example"), ("ip", "192.0.2.1"), ("by", "mx.example.org"), ("by.name", "mx.example.org"), ("ident", "joe"), ("with", "ESMTP")],
    ),
    ("by mx.example.org with LMTP id a", &[("by", "mx.example.org"), ("by.name", "mx.example.org"), ("with", "LMTP"), ("id", "a")]),
    ("from a.b.example by c.d.example with SMTP id x1", &[("from", "a.b.example"), ("from.name", "a.b.example"), ("by", "c.d.example"), ("by.name", "c.d.example"), ("with", "SMTP"), ("id", "x1")]),
];

fn date_field(t: &mut Tape, name: &str, nl: &str) -> F {
    let d: Date = moment(t, 1970, 2100);
    let s = d.part("std11");
    F { f: plain_field(name, &s, nl), more: More::Date(d.stamp()) }
}

fn extra(t: &mut Tape, nl: &str) -> F {
    match t.n(9) {
        0 => date_field(t, "Date", nl),
        1 => date_field(t, "X-Date", nl),
        2 => {
            let id = t.pick(&["m1@example.net", "x.y@z", "0"]).to_string();
            F { f: plain_field("Message-ID", &format!("<{id}>"), nl), more: More::Id(id) }
        }
        3 => {
            let id = t.pick(&["xid@example.net", "q@r"]).to_string();
            F { f: plain_field("X-Message-ID", &format!("<{id}>"), nl), more: More::Id(id) }
        }
        4 => {
            let ids: Vec<String> = (0..1 + t.n(3)).map(|i| format!("r{i}@example.net")).collect();
            let raw: Vec<String> = ids.iter().map(|i| format!("<{i}>")).collect();
            F { f: plain_field("References", &raw.join(" "), nl), more: More::Ids(ids) }
        }
        5 | 6 => {
            let d: Date = moment(t, 1970, 2100);
            let (s, known) = t.pick(RECEIVED);
            let mut k: Vec<(&'static str, String)> = known.iter().map(|(a, b)| (*a, b.to_string())).collect();
            k.push(("date", d.stamp().to_string()));
            k.push(("date.raw", d.part("std11")));
            let fold = if t.bool() { format!("{nl}\t") } else { " ".into() };
            F { f: plain_field("Received", &format!("{s};{fold}{}", d.part("std11")), nl), more: More::Received(k) }
        }
        7 => {
            let f = group_field(t, "X-Group-None", nl);
            F { f: Field { kind: Kind::Text, ..text_field(t, &f.name, nl) }, more: More::No }
        }
        _ => {
            let f = addr_field(t, "X-Addr", nl);
            F { f, more: More::No }
        }
    }
}

#[derive(Clone)]
struct Piece {
    fields: Vec<F>,
    text: String,
    raw: String,
}

fn functions() -> FunctionMap {
    FunctionMap::new().with_function("count", |_, v| match &v[0] {
        Variable::Array(a) => Variable::from(a.len() as i64),
        v => Variable::from(if v.is_empty() { 0i64 } else { 1i64 }),
    })
}

const NAMES: &[&str] = &["Subject", "X-A", "X-B", "From", "To", "Comments", "x-a", "Cc", "Content-Type", "X-None", "Date", "X-Date", "Message-ID", "X-Message-ID", "References", "Received", "X-Addr", "Content-Disposition", "X-New"];
const PARTS: &[&str] = &["", "", "", "text", "addr", "name", "addr.local", "addr.domain", "addr.user", "addr.detail", "addr.all", "type", "subtype", "attr.charset", "attr.boundary", "attr.none", "id", "date", "raw", "raw_name", "exists", "rcvd.from", "rcvd.ip", "rcvd.iprev", "rcvd.by", "rcvd.by.name", "rcvd.for", "rcvd.with", "rcvd.tls", "rcvd.cipher", "rcvd.id", "rcvd.date", "rcvd.from.name", "rcvd.from.ip", "rcvd.by.ip", "rcvd.ident", "rcvd.date.raw", "attr.filename", "attr.size"];

fn var(t: &mut Tape, present: &[String]) -> Var {
    if t.chance(1, 12) {
        let part = t.pick(&["", "text", "raw", "raw_name", "exists"]).to_string();
        return Var { names: vec![], all: true, index: Ix::None, part, part_index: Ix::None };
    }
    let mut names: Vec<String> = vec![];
    for _ in 0..1 + t.len(2) {
        let n = if t.chance(2, 3) && !present.is_empty() { t.pick(present).clone() } else { t.pick(NAMES).to_string() };
        if !names.iter().any(|x| x.eq_ignore_ascii_case(&n)) {
            names.push(n);
        }
    }
    let low = names[0].to_ascii_lowercase();
    let part = match low.as_str() {
        "from" | "to" | "cc" | "x-addr" if t.chance(2, 3) => *t.pick(&["", "addr", "name", "addr.local", "addr.domain", "addr.user", "addr.detail", "addr.all", "raw"]),
        "received" if t.chance(3, 4) => *t.pick(&PARTS[PARTS.len() - 12..]),
        "content-type" | "content-disposition" if t.chance(2, 3) => *t.pick(&["", "type", "subtype", "attr.charset", "attr.boundary", "attr.filename", "attr.none"]),
        "date" | "x-date" if t.chance(2, 3) => *t.pick(&["date", "", "raw"]),
        "message-id" | "x-message-id" if t.chance(2, 3) => *t.pick(&["id", "", "raw"]),
        _ => *t.pick(PARTS),
    };
    let index = Ix::gen(t);
    let part_index = if part.is_empty() && index == Ix::None { Ix::None } else { Ix::gen(t) };
    Var { names, all: false, index, part: part.to_string(), part_index }
}

fn c27(t: &mut Tape, rep: &mut Report) -> CaseResult {
    const N: &[&str] = &["Subject", "X-A", "X-B", "From", "To", "Comments", "X-A", "Cc", "X-Addr"];
    let shapes = t.chance(1, 3);
    let (raw, pieces, body) = if shapes {
        shape(t)
    } else {
        let o = Opts { depth: *t.pick(&[1, 2, 0]), rfc822: true, names: N, leaf_only: false };
        let mut m = crate::mime::message(t, &o);
        let mut extras: Vec<Vec<F>> = vec![];
        // more fields, of kinds the plain generator does not know
        for i in 0..m.count() {
            let p = m.nth(i).unwrap();
            let mut v = vec![];
            for _ in 0..if i == 0 { t.n(5) } else { t.n(2) } {
                let e = extra(t, p.nl);
                let at = t.n(p.fields.len() + 1);
                p.fields.insert(at, e.f.clone());
                v.push(e);
            }
            if t.chance(1, 5) {
                let mut f = plain_field("Content-Disposition", *t.pick(&["attachment", "inline", "attachment; filename=\"file.txt\"", "attachment; filename=one; size=12; filename=two", "inline; size=1; size=2"]), p.nl);
                f.kind = Kind::ContentType;
                p.fields.push(f);
            }
            extras.push(v);
        }
        let raw = m.render();
        let pieces: Vec<Piece> = (0..m.count()).map(|i| piece(m.get(i).unwrap(), &extras[i])).collect();
        (raw, pieces, None)
    };
    if crate::mime::parser_panics(&raw) {
        return Ok(());
    }
    let mut script = String::new();
    let mut want: Vec<Option<String>> = vec![];
    let mut known = 0;
    // edits seen by the variables
    let mut top = pieces[0].clone();
    if t.chance(1, 3) {
        for _ in 0..1 + t.n(2) {
            if t.chance(2, 3) {
                let name = *t.pick(&["X-New", "X-A", "x-new", "Subject"]);
                let value = *t.pick(&["new value", "é", "x", "a@b"]);
                let last = t.bool();
                script.push_str(&format!("addheader {}\"{name}\" {};\r\n", if last { ":last " } else { "" }, q(value)));
                let f = F { f: Field { added: true, ..plain_field(name, value, "\r\n") }, more: More::No };
                if last {
                    top.fields.push(f);
                } else {
                    top.fields.insert(0, f);
                }
                rep.label("added field");
            } else {
                let name = t.pick(NAMES).to_string();
                if name.eq_ignore_ascii_case("x-none") || name.starts_with("Content") || name == "Received" || name == "From" || name == "Subject" {
                    continue;
                }
                script.push_str(&format!("deleteheader \"{name}\";\r\n"));
                top.fields.retain(|f| !f.f.name.eq_ignore_ascii_case(&name));
                rep.label("deleted field");
            }
        }
    }
    let env: Vec<(&str, String)> = vec![("domain", "example.org".into()), ("vnd.color", "42".into()), ("host", "mx é".into())];
    let over = t.bool();
    let envelope: Vec<(Envelope, &str, &str)> = vec![
        (Envelope::From, "from", "sender@example.net"),
        (Envelope::To, "to", "me@example.com"),
        (Envelope::Envid, "envid", "E 1"),
        (Envelope::Orcpt, "orcpt", "rfc822;x@y"),
        (Envelope::Ret, "ret", "FULL"),
    ];
    let each = t.chance(1, 3) && pieces.len() > 1;
    let mut ops: Vec<(String, Box<dyn Fn(&Piece) -> Option<Res>>)> = vec![];
    for _ in 0..2 + t.n(5) {
        let present: Vec<String> = pieces[0].fields.iter().chain(pieces.last().unwrap().fields.iter()).map(|f| f.f.name.clone()).collect();
        match t.n(12) {
            0 => {
                let n = *t.pick(&["text", "raw"]);
                rep.label("part variable");
                ops.push((format!("part.{n}"), Box::new(move |p: &Piece| Some(Res::One(if n == "text" { p.text.clone() } else { p.raw.clone() })))));
            }
            1 | 2 if body.is_some() => {
                let b = body.clone().unwrap();
                let i = t.n(4);
                let n = ["text", "html", "to_text", "to_html"][i];
                rep.label("body variable");
                ops.push((format!("body.{n}"), Box::new(move |_| Some(Res::One(b[i].clone())))));
            }
            3 => {
                let (n, v) = t.pick(&env).clone();
                let v = if over && n == "domain" { "other.example".to_string() } else { v };
                let (n, v) = if t.chance(1, 5) { ("vnd.none", String::new()) } else { (n, v) };
                rep.label("environment variable");
                let n = random_case(t, n);
                ops.push((format!("env.{n}"), Box::new(move |_| Some(Res::One(v.clone())))));
            }
            4 => {
                let (_, n, v) = *t.pick(&envelope);
                let (n, v) = if t.chance(1, 6) { (*t.pick(&["by_mode", "notify", "by_trace", "by_time_absolute", "by_time_relative"]), "") } else { (n, v) };
                rep.label("envelope variable");
                let n = random_case(t, n);
                ops.push((format!("envelope.{n}"), Box::new(move |_| Some(Res::One(v.to_string())))));
            }
            _ => {
                let v = var(t, &present);
                rep.label(match v.part.split('.').next().unwrap() {
                    "" | "text" => "header text",
                    "addr" | "name" => "header address",
                    "rcvd" => "received",
                    "type" | "subtype" | "attr" => "content type",
                    "date" | "id" => "date or id",
                    _ => "raw, name, exists",
                });
                rep.label_if(v.names.len() > 1, "several names");
                rep.label_if(v.index == Ix::All || v.part_index == Ix::All, "all of them");
                ops.push((v.text(t), Box::new(move |p: &Piece| header(&p.fields, &v))));
            }
        }
    }
    let (open, close) = if each { ("foreverypart {\r\n", "}\r\n") } else { ("", "") };
    script.push_str(open);
    let mut modes = vec![];
    for (i, (text, _)) in ops.iter().enumerate() {
        let mode = t.n(6);
        modes.push(mode);
        script.push_str(&match mode {
            0 => format!("let \"v{i}\" \"{text}\"; fileinto :copy \"{i}:${{v{i}}}\";\r\n"),
            1 if !text.contains("env") => format!("let \"v{i}\" \"count({text})\"; fileinto :copy \"{i}:${{v{i}}}\";\r\n"),
            2 => format!("set \"v{i}\" \"${{{text}}}\"; fileinto :copy \"{i}:${{v{i}}}\";\r\n"),
            3 => format!("if string :is :comparator \"i;octet\" \"${{{text}}}\" \"\" {{ fileinto :copy \"{i}:empty\"; }} else {{ fileinto :copy \"{i}:text\"; }}\r\n"),
            _ => format!("fileinto :copy \"{i}:${{{text}}}\";\r\n"),
        });
    }
    script.push_str(close);
    let list: Vec<&Piece> = if each { std::iter::once(&top).chain(pieces.iter().skip(1)).collect() } else { vec![&top] };
    for p in list {
        for (i, (text, f)) in ops.iter().enumerate() {
            let r = f(p);
            if let Some(r) = &r {
                known += !r.text().is_empty() as usize;
            }
            want.push(r.map(|r| {
                format!(
                    "{i}:{}",
                    match modes[i] {
                        1 if !text.contains("env") => match &r {
                            Res::One(s) => (!s.is_empty() as usize).to_string(),
                            Res::Many(v) => v.len().to_string(),
                        },
                        // a variable that holds an empty list of texts is the empty text
                        3 => (if r.text().is_empty() { "empty" } else { "text" }).to_string(),
                        _ => r.text(),
                    }
                )
            }));
        }
    }
    rep.nontrivial_if(known > 1);
    rep.desc = format!("{script}\n--- message\n{}\n--- expected {want:?}", String::from_utf8_lossy(&raw));
    let mut fm = functions();
    let c = full_compiler().register_functions(&mut fm);
    let s = compile(&c, &format!("{ALL_CAPS}{script}"))?;
    let mut rt = full_runtime().with_functions(&mut fm).either_max_variable_size(100_000);
    for (n, v) in &env {
        rt.set_env_variable(n.to_string(), v.clone());
    }
    // the other ways in: a parsed message, a list of envelope parts
    let mut ctx = match if raw.len() % 3 == 0 { mail_parser::MessageParser::new().parse(&raw[..]) } else { None } {
        Some(m) => rt.filter_parsed(m),
        None => rt.filter(&raw),
    };
    if raw.len() % 2 == 0 {
        ctx.set_envelope(Envelope::From, "nobody@example.org");
        ctx.clear_envelope();
        for (e, _, v) in &envelope {
            ctx = ctx.with_envelope(e.clone(), v.to_string());
        }
    } else {
        ctx.set_envelope(Envelope::From, "nobody@example.org");
        ctx = ctx.with_envelope_list(envelope.iter().map(|(e, _, v)| (e.clone(), sieve::runtime::Variable::from(v.to_string()))).collect());
    }
    if over {
        ctx = ctx.with_env_variable("domain", "other.example");
    }
    let tr = drive(&mut ctx, s, &mut Host::new());
    let mut got = vec![];
    for i in tr.items {
        match i {
            Item::Ev(Event::FileInto { folder, .. }) => got.push(folder),
            Item::Ev(Event::Keep { .. } | Event::CreatedMessage { .. }) => (),
            i => return fail("events", format!("unexpected {i:?}")),
        }
    }
    let want: Vec<String> = want.into_iter().enumerate().map(|(i, w)| w.unwrap_or_else(|| got.get(i).cloned().unwrap_or_default())).collect();
    compare(&want, &got)
}

fn piece(p: &Part, extras: &[F]) -> Piece {
    let mut fields = vec![];
    for f in &p.fields {
        let more = extras.iter().find(|e| e.f == *f).map(|e| e.more.clone()).unwrap_or(More::No);
        fields.push(F { f: f.clone(), more });
    }
    let (text, raw) = match &p.body {
        Body::Leaf { raw, decoded, text } => (text.clone().unwrap_or_else(|| String::from_utf8_lossy(decoded).to_string()), String::from_utf8_lossy(raw).to_string()),
        _ => {
            let mut v = vec![];
            p.write_body(&mut v);
            (String::new(), String::from_utf8_lossy(&v).to_string())
        }
    };
    Piece { fields, text, raw }
}

/// Messages of a known shape, for the variables about the body.
fn shape(t: &mut Tape) -> (Vec<u8>, Vec<Piece>, Option<[String; 4]>) {
    let words = |t: &mut Tape| (0..1 + t.n(4)).map(|_| *t.pick(&["hello", "a < b & c", "été", "x", "two words", "1"])).collect::<Vec<_>>().join(" ");
    let (plain, html) = (words(t), format!("<p>{}</p><b>x</b>", words(t).replace('&', "&amp;").replace('<', "&lt;")));
    let leaf = |t: &mut Tape, ct: &str, body: &str| -> Part {
        let mut f = plain_field("Content-Type", &format!("{ct}; charset=utf-8"), "\r\n");
        f.kind = Kind::ContentType;
        let mut fields = vec![f];
        let raw = if t.bool() {
            fields.push(plain_field("Content-Transfer-Encoding", "base64", "\r\n"));
            b64(body.as_bytes())
        } else {
            body.to_string()
        };
        let (a, b) = ct.split_once('/').unwrap();
        Part { ctype: (a.into(), b.into()), fields, body: Body::Leaf { raw: raw.into_bytes(), decoded: body.as_bytes().to_vec(), text: (a == "text").then(|| body.to_string()) }, nl: "\r\n", uid: 0 }
    };
    let multi = |sub: &str, id: &str, kids: Vec<Part>| -> Part {
        let mut f = plain_field("Content-Type", &format!("multipart/{sub}; boundary=\"{id}\""), "\r\n");
        f.kind = Kind::ContentType;
        Part { ctype: ("multipart".into(), sub.into()), fields: vec![f], body: Body::Multi { boundary: id.into(), pre: vec![], kids, epi: vec![] }, nl: "\r\n", uid: 0 }
    };
    let (p, h) = (leaf(t, "text/plain", &plain), leaf(t, "text/html", &html));
    let mut att = leaf(t, "application/pdf", "PDF");
    let mut d = plain_field("Content-Disposition", "attachment; filename=\"f.pdf\"", "\r\n");
    d.kind = Kind::ContentType;
    att.fields.push(d);
    let (has_p, has_h, mut m) = match t.n(6) {
        0 => (true, false, p),
        1 => (false, true, h),
        2 => (true, true, multi("alternative", "b1", vec![p, h])),
        3 => (true, false, multi("mixed", "b1", vec![p, att])),
        4 => (false, true, multi("mixed", "b1", vec![h, att])),
        _ => (true, true, multi("mixed", "b1", vec![multi("alternative", "b2", vec![p, h]), att])),
    };
    let s = text_field(t, "Subject", "\r\n");
    m.fields.insert(0, s);
    let body = [
        if has_p { plain.clone() } else { String::new() },
        if has_h { html.clone() } else { String::new() },
        if has_p { plain.clone() } else { mail_parser::decoders::html::html_to_text(&html) },
        if has_h { html } else { mail_parser::decoders::html::text_to_html(&plain) },
    ];
    let pieces = (0..m.count()).map(|i| piece(m.get(i).unwrap(), &[])).collect();
    (m.render(), pieces, Some(body))
}

fn pins() -> Pinned {
    let m = "From: Bob <bob+x@example.net>, c@d\r\nTo: me@example.com\r\nSubject: hello\r\n  world\r\nX-A: one\r\nx-a: two\r\n\r\nbody <text\r\n";
    vec![
        pin("address-parts", move || {
            expect_folders("fileinto :copy \"${header.from[1].addr.local[1]}|${header.from.addr.domain}|${header.from.addr.user[1]}|${header.from.addr.detail[*]}\";", m, &["bob+x|d|bob|x\r\n"])
        }),
        pin("names", move || expect_folders("fileinto :copy \"${header.x-a[*]}|${header.X-A}|${header.x-a[1]}|${header.x-a[*].raw_name}|${header.x-b}\";", m, &["one\r\ntwo|two|one|X-A\r\nx-a|"])),
    ]
}

pub fn props() -> Vec<Prop> {
        vec![Prop {
        id: "C27",
        quick: 1_000_000,
        thorough: 20_000_000,
        run: c27,
        pinned: pins,
        rule: "at least two variables with a value that is not empty",
        assumptions: &["header fields written in the forms the generator knows; html conversion as the mail parser does it"],
    }]
}
