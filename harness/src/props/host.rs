//! C25: tests answered by the host or by what it has configured.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::clock;
use crate::drive::*;
use crate::mime::{addr_field, random_case, text_field, Addr, Field, Kind};
use crate::mtch::{test_for, Cmp, Key, Kinds, Mk, Rel};
use crate::pin::*;
use crate::props::dates::{moment, Date, PARTS};
use crate::props::edit::q;
use crate::props::msgtests::{decide, index_tag, key_list, names_list, occurrences, Ap};
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Envelope, Event, Input, Mailbox, MatchAs, Metadata, SpamStatus, VirusStatus};

enum Leaf {
    Ask(Event),
    Is(bool),
}

enum Ex {
    Leaf(String, Leaf),
    Not(Box<Ex>),
    All(Vec<Ex>),
    Any(Vec<Ex>),
}

impl Ex {
    fn text(&self) -> String {
        let list = |v: &[Ex]| v.iter().map(|e| e.text()).collect::<Vec<_>>().join(", ");
        match self {
            Ex::Leaf(s, _) => s.clone(),
            Ex::Not(e) => format!("not {}", e.text()),
            Ex::All(v) => format!("allof({})", list(v)),
            Ex::Any(v) => format!("anyof({})", list(v)),
        }
    }

    fn eval(&self, w: &mut Asked) -> bool {
        match self {
            Ex::Leaf(_, Leaf::Is(b)) => *b,
            Ex::Leaf(_, Leaf::Ask(e)) => {
                w.want.push(format!("{e:?}"));
                let a = w.answers[w.n % w.answers.len()];
                w.n += 1;
                a
            }
            Ex::Not(e) => !e.eval(w),
            Ex::All(v) => v.iter().all(|e| e.eval(w)),
            Ex::Any(v) => v.iter().any(|e| e.eval(w)),
        }
    }
}

struct Asked {
    want: Vec<String>,
    answers: Vec<bool>,
    n: usize,
}

#[derive(Default)]
struct Known {
    env: Vec<(String, String)>,
    server: Vec<(String, String)>,
    mailbox: Vec<(String, String, String)>,
    lists: Vec<String>,
    spam: usize,
    percent: usize,
    virus: usize,
    untested: bool,
    expiry: u64,
    fields: Vec<Field>,
    id: Option<String>,
    envelope: Vec<(Envelope, String)>,
    now: i64,
}

const NAMES: &[&str] = &["INBOX", "Archive", "inbox", "a/b", "é", "two words", "x"];
const LISTS: &[&str] = &["tag:example.com,2024:friends", "urn:ietf:params:sieve:addrbook:default", "a list", "é", "TAG:example.com,2024:friends"];
const WORDS: &[&str] = &["", "value", "VALUE", "Some text", "42", "007", "été", "a*b", "vä", "100"];

fn strings(t: &mut Tape, l: &[String], pre: &mut String) -> String {
    names_list(t, l, pre)
}

fn one(t: &mut Tape, s: &str, pre: &mut String) -> String {
    if t.chance(1, 6) {
        let k = format!("o{}", pre.len());
        pre.push_str(&format!("set \"{k}\" {}; ", q(s)));
        format!("\"${{{k}}}\"")
    } else {
        q(s)
    }
}

fn some(t: &mut Tape, of: &[&str], max: usize) -> Vec<String> {
    (0..1 + t.len(max - 1)).map(|_| t.pick(of).to_string()).collect()
}

fn unique(values: Vec<String>) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in values {
        if !x.is_empty() && !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

/// The tags of a `:list` test and what they ask for.
fn list_tags(t: &mut Tape) -> (String, MatchAs) {
    let (c, m) = match t.n(4) {
        0 => (" :comparator \"i;octet\"", MatchAs::Octet),
        1 => (" :comparator \"i;ascii-casemap\"", MatchAs::Lowercase),
        2 => (" :comparator \"i;ascii-numeric\"", MatchAs::Number),
        _ => ("", MatchAs::Lowercase),
    };
    (if t.bool() { format!(":list{c}") } else { format!("{c} :list").trim().to_string() }, m)
}

fn kinds(count: bool) -> Kinds {
    Kinds { numeric: true, count, regex: true, value: true }
}

const KEYS: &[char] = &['a', 'v', 'e', 'é', ' ', '1', '0', '*', 'V'];

type Hit = Option<Option<Vec<Option<String>>>>;

fn leaf(t: &mut Tape, k: &Known, pre: &mut String, rep: &mut Report) -> (String, Leaf, Hit) {
    let mut hit = None;
    let (text, leaf) = match t.n(16) {
        0 => {
            rep.label("mailboxexists");
            let l = some(t, NAMES, 3);
            let e = Event::MailboxExists { mailboxes: l.iter().map(|n| Mailbox::Name(n.clone())).collect(), special_use: vec![] };
            (format!("mailboxexists {}", strings(t, &l, pre)), Leaf::Ask(e))
        }
        1 => {
            rep.label("mailboxidexists");
            let l = some(t, &["F1", "f1", "x-y", "é"], 3);
            let e = Event::MailboxExists { mailboxes: l.iter().map(|n| Mailbox::Id(n.clone())).collect(), special_use: vec![] };
            (format!("mailboxidexists {}", strings(t, &l, pre)), Leaf::Ask(e))
        }
        2 => {
            rep.label("specialuse_exists");
            let l = some(t, &["\\Sent", "\\Junk", "\\sent", "$X"], 3);
            let mut mailboxes = vec![];
            let mut s = String::from("specialuse_exists ");
            if t.bool() {
                let n = t.pick(NAMES).to_string();
                s.push_str(&format!("{} ", one(t, &n, pre)));
                mailboxes.push(Mailbox::Name(n));
            }
            s.push_str(&strings(t, &l, pre));
            (s, Leaf::Ask(Event::MailboxExists { mailboxes, special_use: l }))
        }
        3 | 4 => {
            rep.label("duplicate");
            let mut s = vec![];
            let mut handle = String::new();
            let mut expiry = k.expiry;
            let mut last = false;
            if t.chance(1, 3) {
                handle = t.pick(&["h", "handle é", ""]).to_string();
                s.push(format!(":handle {}", one(t, &handle, pre)));
            }
            if t.chance(1, 3) {
                expiry = *t.pick(&[0, 1, 60, 86400, 4294967296]);
                s.push(format!(":seconds {expiry}"));
            }
            if t.chance(1, 3) {
                last = true;
                s.push(":last".into());
            }
            let id = match t.n(3) {
                0 => {
                    let id = t.pick(&["abc", "", "é x", "<a@b>", "Ab"]).to_string();
                    s.push(format!(":uniqueid {}", one(t, &id, pre)));
                    id
                }
                1 => {
                    let n = *t.pick(&["X-Id", "X-Id", "x-id", "X-None", "Message-ID"]);
                    let of = if n.eq_ignore_ascii_case("X-Id") { "X-Id" } else { n };
                    s.push(format!(":header {}", one(t, n, pre)));
                    let v = if of == "Message-ID" { k.id.clone() } else { k.fields.iter().find(|f| f.name == of).map(|f| f.text.trim_matches(['<', '>']).to_string()) };
                    v.unwrap_or_default()
                }
                _ => k.id.clone().unwrap_or_default(),
            };
            // tags in any order
            for i in (1..s.len()).rev() {
                let j = t.n(i + 1);
                s.swap(i, j);
            }
            let text = format!("duplicate {}", s.join(" "));
            if id.is_empty() {
                rep.label("duplicate without id");
                (text, Leaf::Is(false))
            } else {
                (text, Leaf::Ask(Event::DuplicateId { id: format!("{handle}{id}"), expiry, last }))
            }
        }
        5 | 6 => {
            rep.label("string list");
            let (tags, match_as) = list_tags(t);
            let l = some(t, LISTS, 2);
            let of = some(t, WORDS, 3);
            let text = format!("string {tags} {} {}", strings(t, &of, pre), strings(t, &l, pre));
            let values = unique(of);
            (text, if values.is_empty() { Leaf::Is(false) } else { Leaf::Ask(Event::ListContains { lists: l, values, match_as }) })
        }
        7 => {
            rep.label("header list");
            let (tags, match_as) = list_tags(t);
            let l = some(t, LISTS, 2);
            let n: Vec<String> = (0..1 + t.n(2)).map(|_| if t.chance(5, 6) && !k.fields.is_empty() { t.pick(&k.fields).name.clone() } else { "X-None".into() }).collect();
            let index = t.chance(1, 4).then(|| (1 + t.n(3), t.bool()));
            let mut v = vec![];
            for n in &n {
                let of: Vec<&Field> = k.fields.iter().filter(|f| f.name.eq_ignore_ascii_case(n)).collect();
                v.extend(occurrences(of.len(), index).into_iter().map(|i| of[i].text.clone()));
            }
            let n: Vec<String> = n.iter().map(|n| random_case(t, n)).collect();
            let text = format!("header {}{tags} {} {}", index_tag(index), strings(t, &n, pre), strings(t, &l, pre));
            let values = unique(v);
            (text, if values.is_empty() { Leaf::Is(false) } else { Leaf::Ask(Event::ListContains { lists: l, values, match_as }) })
        }
        8 => {
            rep.label("address list");
            let (tags, match_as) = list_tags(t);
            let l = some(t, LISTS, 2);
            let n = some(t, &["To", "From", "Cc"], 2);
            let mut ap = Ap::pick(t);
            let mut addrs: Vec<Addr> = vec![];
            for n in &n {
                for f in k.fields.iter().filter(|f| f.name == *n) {
                    if let Kind::Addr(a) = &f.kind {
                        addrs.extend(a.clone());
                    }
                }
            }
            if ap == Ap::Detail && addrs.iter().any(|a| a.local.matches('+').count() > 1) {
                ap = Ap::User;
            }
            let values = unique(addrs.iter().filter_map(|a| ap.of(a)).collect());
            let text = format!("address {}{tags} {} {}", ap.tag(), strings(t, &n, pre), strings(t, &l, pre));
            (text, if values.is_empty() { Leaf::Is(false) } else { Leaf::Ask(Event::ListContains { lists: l, values, match_as }) })
        }
        9 => {
            rep.label("envelope list");
            let (tags, match_as) = list_tags(t);
            let l = some(t, LISTS, 2);
            let n = *t.pick(&["from", "to", "envid"]);
            let ap = if n == "envid" { Ap::Default } else { *t.pick(&[Ap::Default, Ap::All, Ap::Local, Ap::Domain]) };
            let mut v = vec![];
            for (e, x) in &k.envelope {
                if format!("{e:?}").eq_ignore_ascii_case(n) {
                    match x.split_once('@') {
                        Some((l, d)) if n != "envid" => v.extend(ap.of(&Addr { name: None, local: l.into(), domain: d.into() })),
                        _ => v.push(x.clone()),
                    }
                }
            }
            let values = unique(v);
            let text = format!("envelope {}{tags} {} {}", ap.tag(), q(n), strings(t, &l, pre));
            (text, if values.is_empty() { Leaf::Is(false) } else { Leaf::Ask(Event::ListContains { lists: l, values, match_as }) })
        }
        10 => {
            rep.label("date list");
            let (tags, match_as) = list_tags(t);
            let l = some(t, LISTS, 2);
            let part = *t.pick(PARTS);
            let zone = t.bool().then(|| (t.n(26) as i64 - 12) * 60);
            let zt = zone.map_or(String::new(), |z| format!(":zone \"{}{:02}00\" ", if z < 0 { '-' } else { '+' }, z.abs() / 60));
            let v = Date::of(k.now, zone.unwrap_or(0)).part(part);
            let text = format!("currentdate {zt}{tags} {} {}", q(part), strings(t, &l, pre));
            (text, Leaf::Ask(Event::ListContains { lists: l, values: vec![v], match_as }))
        }
        11 => {
            rep.label("valid_ext_list");
            let l = some(t, LISTS, 3);
            let r = l.iter().all(|x| k.lists.contains(x));
            (format!("valid_ext_list {}", strings(t, &l, pre)), Leaf::Is(r))
        }
        12 => {
            rep.label("environment");
            let (n, v) = if t.chance(5, 6) && !k.env.is_empty() { t.pick(&k.env).clone() } else { ("unknown".into(), String::new()) };
            let values: Vec<String> = if v.is_empty() { vec![] } else { vec![v] };
            // known finding of C09: only the last of several keys counts
            let test = test_for(t, &values, KEYS, &kinds(true), 1);
            let r = if values.is_empty() { (false, test.captures().then_some(None)) } else { decide(&test, &values, 1) };
            hit = r.1;
            let n = random_case(t, &n);
            let keys = key_list(t, &test.keys, pre);
            (format!("environment {} {} {keys}", test.tags(), q(&n)), Leaf::Is(r.0))
        }
        13 => {
            rep.label("metadata");
            let server = t.bool();
            let known = t.chance(5, 6);
            let mut s = String::from(if server { "servermetadata " } else { "metadata " });
            let mut values = vec![];
            let mut args = String::new();
            if server {
                let (n, v) = if known && !k.server.is_empty() { t.pick(&k.server).clone() } else { ("/private/none".into(), String::new()) };
                values.extend(k.server.iter().any(|x| x.0 == n).then_some(v));
                let n = random_case(t, &n);
                args.push_str(&one(t, &n, pre));
            } else {
                let (m, n, v) = if known && !k.mailbox.is_empty() { t.pick(&k.mailbox).clone() } else { ("None".into(), "/private/none".into(), String::new()) };
                // the name of a mailbox counts, the letter case of an annotation does not
                let m = if t.chance(1, 8) { m.to_uppercase() } else { m };
                let v = k.mailbox.iter().find(|x| x.0 == m && x.1 == n).map(|x| x.2.clone()).map(|_| v.clone());
                let v = v.map(|_| k.mailbox.iter().find(|x| x.0 == m && x.1 == n).unwrap().2.clone());
                values.extend(v);
                let n = random_case(t, &n);
                args.push_str(&one(t, &m, pre));
                args.push(' ');
                args.push_str(&one(t, &n, pre));
            }
            let test = test_for(t, &values, KEYS, &kinds(true), 3);
            let r = if values.is_empty() { (false, test.captures().then_some(None)) } else { decide(&test, &values, 1) };
            hit = r.1;
            let keys = key_list(t, &test.keys, pre);
            s.push_str(&format!("{} {args} {keys}", test.tags()));
            rep.label_if(!values.is_empty(), "metadata found");
            (s, Leaf::Is(r.0))
        }
        14 => {
            rep.label("metadataexists");
            let server = t.bool();
            let mut names: Vec<String> = vec![];
            let mut s;
            let r;
            if server {
                for _ in 0..1 + t.n(3) {
                    names.push(if t.chance(5, 6) && !k.server.is_empty() { t.pick(&k.server).0.clone() } else { "/private/none".into() });
                }
                r = names.iter().all(|n| k.server.iter().any(|x| x.0 == *n));
                s = String::from("servermetadataexists ");
            } else {
                let m = if k.mailbox.is_empty() { "None".to_string() } else { t.pick(&k.mailbox).0.clone() };
                for _ in 0..1 + t.n(3) {
                    names.push(if t.chance(5, 6) && !k.mailbox.is_empty() { t.pick(&k.mailbox).1.clone() } else { "/private/none".into() });
                }
                r = names.iter().all(|n| k.mailbox.iter().any(|x| x.0 == m && x.1 == *n));
                s = format!("metadataexists {} ", one(t, &m, pre));
            }
            let names: Vec<String> = names.iter().map(|n| random_case(t, n)).collect();
            s.push_str(&strings(t, &names, pre));
            (s, Leaf::Is(r))
        }
        _ => {
            let (tag, v) = match t.n(3) {
                0 => ("virustest ", k.virus),
                1 => ("spamtest ", k.spam),
                _ => ("spamtest :percent ", k.percent),
            };
            rep.label(tag.trim());
            let values = vec![v.to_string()];
            let mut test = test_for(t, &values, &['0', '1', '5'], &kinds(true), 1);
            if let Mk::Count(r) = test.mk {
                // known finding: a tested message counts as more than one
                let none = if tag.starts_with("virus") { k.virus == 0 } else { k.untested };
                if !none && !matches!(r, Rel::Gt | Rel::Ge | Rel::Ne | Rel::Lt | Rel::Le) {
                    test.mk = Mk::Count(Rel::Ge);
                }
                test.keys = vec![Key { text: (if none { t.n(3) } else { 2 * t.n(2) }).to_string(), re: None }];
                let r = decide(&test, &values, !none as usize);
                let key = key_list(t, &test.keys, pre);
                let key = key.trim_matches(['[', ']']).to_string();
                return (format!("{tag}{} {key}", test.tags()), Leaf::Is(r.0), None);
            }
            let r = decide(&test, &values, 1);
            hit = r.1;
            let key = if t.chance(1, 6) { one(t, &test.keys[0].text, pre) } else { q(&test.keys[0].text) };
            rep.label_if(test.cmp == Cmp::Numeric, "status by number");
            (format!("{tag}{} {key}", test.tags()), Leaf::Is(r.0))
        }
    };
    (text, leaf, hit)
}

fn expr(t: &mut Tape, k: &Known, pre: &mut String, rep: &mut Report, depth: usize) -> Ex {
    match if depth == 0 { 0 } else { t.n(6) } {
        0..=2 => {
            if t.chance(1, 8) {
                let b = t.bool();
                return Ex::Leaf(b.to_string(), Leaf::Is(b));
            }
            let (s, l, _) = leaf(t, k, pre, rep);
            Ex::Leaf(s, l)
        }
        3 => Ex::Not(Box::new(expr(t, k, pre, rep, depth - 1))),
        n => {
            let v = (0..1 + t.n(3)).map(|_| expr(t, k, pre, rep, depth - 1)).collect();
            if n == 4 { Ex::All(v) } else { Ex::Any(v) }
        }
    }
}

fn c25(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut k = Known { expiry: *t.pick(&[604800u64, 60, 1]), now: moment(t, 1971, 2200).stamp(), ..Default::default() };
    let mut raw = vec![];
    for _ in 0..t.n(5) {
        let f = if t.bool() {
            let n = *t.pick(&["To", "From", "Cc", "To"]);
            addr_field(t, n, "\r\n")
        } else {
            let n = *t.pick(&["Subject", "X-A", "Comments", "X-A"]);
            text_field(t, n, "\r\n")
        };
        raw.extend(f.raw.clone());
        k.fields.push(f);
    }
    if t.bool() {
        let id = t.pick(&["a.b@c", "xyz"]).to_string();
        raw.extend(format!("Message-ID: <{id}>\r\n").bytes());
        k.id = Some(id);
    }
    if t.bool() {
        let id = t.pick(&["plain", "two words", "<a@b>", "12"]).to_string();
        raw.extend(format!("X-Id: {id}\r\n").bytes());
        k.fields.push(Field { name: "X-Id".into(), raw: vec![], text: id, kind: Kind::Text, added: false });
    }
    raw.extend(b"\r\nbody\r\n");
    for _ in 0..t.n(3) {
        let (e, v) = match t.n(3) {
            0 => (Envelope::From, t.pick(&["joe@example.com", "", "Ann@x.org"]).to_string()),
            1 => (Envelope::To, t.pick(&["joe@example.com", "me@x.org"]).to_string()),
            _ => (Envelope::Envid, t.pick(&["abc", "é"]).to_string()),
        };
        k.envelope.push((e, v));
    }
    for n in ["domain", "host", "location", "name", "phase", "remote-host", "vnd.x", "é"] {
        if t.chance(1, 2) {
            k.env.push((n.into(), t.pick(WORDS).to_string()));
        }
    }
    for n in ["/private/comment", "/shared/comment", "/private/é"] {
        if t.chance(1, 2) {
            k.server.push((n.into(), t.pick(WORDS).to_string()));
        }
        for m in ["INBOX", "Archive", "inbox"] {
            if t.chance(1, 3) {
                k.mailbox.push((m.into(), n.into(), t.pick(WORDS).to_string()));
            }
        }
    }
    for l in LISTS {
        if t.chance(2, 3) {
            k.lists.push(l.to_string());
        }
    }
    // RFC 5235: 0 for not tested, 1 for clear, 10 for spam
    let spam = match t.n(5) {
        0 => {
            k.untested = true;
            SpamStatus::Unknown
        }
        1 => {
            k.spam = 1;
            SpamStatus::Ham
        }
        2 => {
            k.spam = 10;
            k.percent = 100;
            SpamStatus::Spam
        }
        3 => {
            let n = t.n(65);
            k.spam = (n * 10 / 64).clamp(2, 9);
            k.percent = (n * 100).div_ceil(64).clamp(1, 100);
            SpamStatus::MaybeSpam(n as f64 / 64.0)
        }
        _ => {
            let n = t.n(12);
            k.spam = if n > 10 { 0 } else { n };
            k.untested = k.spam == 0;
            k.percent = if k.spam < 2 { 0 } else { n * 10 };
            SpamStatus::from_number(n as u32)
        }
    };
    let n = t.n(7);
    k.virus = if n > 5 { 0 } else { n };
    let virus = VirusStatus::from_number(n as u32);
    let (mut script, mut w) = (String::new(), Asked { want: vec![], answers: (0..5).map(|_| t.bool()).collect(), n: 0 });
    for i in 0..1 + t.n(4) {
        let mut pre = String::new();
        let mut caps = None;
        let e = if t.bool() {
            let (s, l, h) = leaf(t, &k, &mut pre, rep);
            caps = h;
            Ex::Leaf(s, l)
        } else {
            expr(t, &k, &mut pre, rep, 3)
        };
        let (mut show, mut val) = (String::new(), String::new());
        let not = t.chance(1, 3);
        let r = e.eval(&mut w);
        if let Some(c) = caps {
            for i in 0..4 {
                show.push_str(&format!("|${{{i}}}"));
                let v = c.as_ref().filter(|_| r).and_then(|c| c.get(i).cloned().flatten()).unwrap_or_default();
                val.push_str(&format!("|{v}"));
            }
            rep.label_if(r, "captured");
        }
        let (a, b, n) = if not { ("F", "T", "not ") } else { ("T", "F", "") };
        script.push_str(&format!("if true {{ {pre}if {n}{} {{ fileinto :copy \"{a}{i}{show}\"; }} else {{ fileinto :copy \"{b}{i}{show}\"; }} }}\n", e.text()));
        w.want.push(format!("{}{i}{val}", if r { "T" } else { "F" }));
        rep.label(if r { "true" } else { "false" });
    }
    rep.nontrivial_if(w.n > 0 || w.want.len() > 1);
    rep.label_if(w.n > 0, "asked");
    rep.label_if(w.n > 1, "asked more than once");
    rep.desc = format!(
        "{script}\n--- message\n{}\n--- envelope {:?} env {:?} server {:?} mailboxes {:?} lists {:?} spam {spam:?} virus {virus:?} answers {:?} now {}\n--- expected {:#?}",
        String::from_utf8_lossy(&raw),
        k.envelope,
        k.env,
        k.server,
        k.mailbox,
        k.lists,
        w.answers,
        k.now,
        w.want
    );
    let s = compile(&full_compiler(), &format!("{ALL_CAPS}{script}"))?;
    let mut rt = full_runtime().either_default_duplicate_expiry(k.expiry).with_valid_ext_lists(k.lists.clone());
    let own = t.bool();
    if own && t.bool() {
        // what the run is given comes before what the runtime has under the same name
        rep.label("metadata given twice");
        for (n, _) in &k.server {
            rt = rt.with_metadata(Metadata::Server { annotation: n.clone() }, "stale");
        }
        for (m, n, _) in &k.mailbox {
            rt = rt.with_metadata(Metadata::Mailbox { name: m.clone(), annotation: n.clone() }, "stale");
        }
    }
    if !own {
        for (n, v) in &k.env {
            rt = rt.with_env_variable(n.clone(), v.clone());
        }
        for (n, v) in &k.server {
            rt = rt.with_metadata(Metadata::Server { annotation: n.clone() }, v.clone());
        }
        for (m, n, v) in &k.mailbox {
            rt = rt.with_metadata(Metadata::Mailbox { name: m.clone(), annotation: n.clone() }, v.clone());
        }
    }
    let got = clock::at(k.now, || -> Result<Vec<String>, Failure> {
        let mut ctx = rt.filter(&raw).with_spam_status(spam.clone()).with_virus_status(virus.clone());
        for (e, v) in &k.envelope {
            ctx.set_envelope(e.clone(), v.clone());
        }
        if own {
            for (n, v) in &k.env {
                ctx.set_env_variable(n.clone(), v.clone());
            }
            for (n, v) in &k.server {
                ctx.set_medatata(Metadata::Server { annotation: n.clone() }, v.clone());
            }
            for (m, n, v) in &k.mailbox {
                ctx.set_medatata(Metadata::Mailbox { name: m.clone(), annotation: n.clone() }, v.clone());
            }
        }
        let mut input = Input::script("main", s.clone());
        let mut got = vec![];
        let mut asked = 0;
        while let Some(r) = ctx.run(input) {
            input = Input::True;
            match r {
                Err(e) => return fail("error", format!("{e:?}")),
                Ok(Event::FileInto { folder, .. }) => got.push(folder),
                Ok(Event::Keep { .. }) => (),
                Ok(e @ (Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. })) => {
                    got.push(format!("{e:?}"));
                    input = w.answers[asked % w.answers.len()].into();
                    asked += 1;
                }
                Ok(e) => return fail("events", format!("unexpected {e:?}")),
            }
            if got.len() > 10_000 {
                return fail("events", "no end");
            }
        }
        Ok(got)
    })?;
    for i in 0..w.want.len().max(got.len()) {
        if w.want.get(i) != got.get(i) {
            return fail("events", format!("event {i}: expected {:?}, is {:?}", w.want.get(i), got.get(i)));
        }
    }
    Ok(())
}

fn questions(script: &str, msg: &str) -> Result<Vec<String>, Failure> {
    Ok(items(|r| r, script, msg)?
        .into_iter()
        .filter_map(|i| match i {
            Item::Ev(Event::DuplicateId { id, .. }) => Some(id),
            _ => None,
        })
        .collect())
}

fn pins() -> Pinned {
    const INNER: &str = "Subject: s\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nX-1: inner\r\n\r\nbody\r\n--b--\r\n";
    vec![
        // a status counts as 1.1 values
        pin("count-of-status", || {
            let c = full_compiler();
            let s = compile(&c, &format!("{ALL_CAPS}if spamtest :count \"eq\" :comparator \"i;ascii-numeric\" \"1\" {{ fileinto \"s\"; }} if virustest :count \"eq\" :comparator \"i;ascii-numeric\" \"1\" {{ fileinto \"v\"; }}"))?;
            let rt = full_runtime();
            let mut ctx = rt.filter(MSG.as_bytes()).with_spam_status(SpamStatus::Ham).with_virus_status(VirusStatus::Clean);
            let n = drive(&mut ctx, s, &mut Host::new()).items.iter().filter(|i| matches!(i, Item::Ev(Event::FileInto { .. }))).count();
            match n {
                2 => Ok(()),
                0 => fail("count-of-status", "no status counts as 1"),
                _ => fail("decision", format!("{n} of 2 statuses count as 1")),
            }
        }),
        pin("handle-joined", || match questions("if duplicate :handle \"ab\" :uniqueid \"c\" {} if duplicate :handle \"a\" :uniqueid \"bc\" {} if duplicate :uniqueid \"abc\" {}", MSG)?.as_slice() {
            [a, b, c] if a != b && b != c && a != c => Ok(()),
            [a, b, c] if a == "abc" && b == "abc" && c == "abc" => fail("handle-joined", "all three ask for abc"),
            q => fail("events", format!("asked for {q:?}")),
        }),
        pin("header-of-a-part", || match questions("if duplicate :header \"X-1\" {}", INNER)?.as_slice() {
            [] => Ok(()),
            [i] if i == "inner" => fail("header-of-a-part", "asked for the field of a part"),
            q => fail("events", format!("asked for {q:?}")),
        }),
        pin("set envelope", || {
            expect(
                "set \"envelope.from\" \"a@b.cc\"; let \"envelope.to\" \"'x@y.zz'\";",
                MSG,
                &["SetEnvelope From \"a@b.cc\"", "SetEnvelope To \"x@y.zz\"", "Keep []"],
            )
        }),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        quick: 500_000,
        thorough: 30_000_000,
        run: c25,
        pinned: pins,
        rule: "the host is asked, or several tests are decided",
        assumptions: &["identifiers in header fields are one plain text or one id in angle brackets"],
    }]
}
