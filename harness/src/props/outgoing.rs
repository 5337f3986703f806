//! C18: caps and loops.  C19: vacation.  C20: notify.  (Their hostile values also serve C21.)
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::clock;
use crate::drive::*;
use crate::mime::{random_case, text_value};
use crate::model::norm;
use crate::mtch::{test_for, Kinds};
use crate::pin::*;
use crate::props::dates::{moment, Date};
use crate::props::edit::q;
use crate::props::msgtests::{decide, key_list};
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Envelope, Event};
use std::collections::BTreeSet;

/// What a header field of a created message should be.
#[derive(Debug, Clone)]
pub enum Val {
    Is(String),
    OneOf(Vec<String>),
    Any,
}

#[derive(Debug, Clone)]
pub enum Want {
    /// As `norm` writes it.
    Ev(String),
    Created { id: usize, fields: Vec<(String, Val)>, sep: bool, body: String },
    AnyCreated(usize),
}

#[derive(Debug, Clone, PartialEq)]
enum ByTime {
    None,
    Rel(u64),
    Abs(String, i64),
}

#[derive(Debug, Clone)]
struct Redirect {
    addr: String,
    to: Option<String>,
    list: bool,
    copy: bool,
    notify: (String, String),
    ret: (String, &'static str),
    by: ByTime,
    mode: &'static str,
    trace: bool,
}

#[derive(Debug, Clone, Default)]
struct Fcc {
    folder: String,
    flags: Vec<String>,
    create: bool,
    id: Option<String>,
    special: Option<String>,
}

#[derive(Debug, Clone)]
struct Vacation {
    period: Option<(bool, u64)>,
    subject: Option<String>,
    from: Option<String>,
    addresses: Vec<String>,
    mime: bool,
    handle: Option<String>,
    reason: String,
    fcc: Option<Fcc>,
}

#[derive(Debug, Clone, Default)]
struct Mailto {
    to: Vec<String>,
    cc: Vec<String>,
    bcc: Vec<String>,
    body: Option<String>,
    fields: Vec<(String, String)>,
}

#[derive(Debug, Clone)]
enum Method {
    Mail(Mailto),
    Other,
    Bad,
}

#[derive(Debug, Clone)]
struct NotifyAct {
    from: Option<String>,
    importance: Option<String>,
    options: Vec<String>,
    message: Option<String>,
    method: String,
    as_method: Method,
    fcc: Option<Fcc>,
}

/// Facts about the message, as the actions look at them.
#[derive(Debug, Clone)]
struct Msg {
    fields: Vec<(String, String, String)>, // name, raw value, text
}

impl Msg {
    fn all<'a>(&'a self, name: &'a str) -> impl DoubleEndedIterator<Item = &'a (String, String, String)> + 'a {
        self.fields.iter().filter(move |f| f.0.eq_ignore_ascii_case(name))
    }
    fn automatic(&self) -> bool {
        self.all("Auto-Submitted").any(|f| !f.2.eq_ignore_ascii_case("no"))
    }
    fn received(&self) -> usize {
        self.all("Received").count()
    }
}

pub fn cut(s: &str) -> String {
    let mut r: String = s.chars().take(256).collect();
    if s.chars().count() > 256 {
        r.push('…');
    }
    r
}

fn clean(s: &str) -> String {
    s.replace(['\r', '\n'], "")
}

struct World {
    now: i64,
    max_redirects: usize,
    max_out: usize,
    max_received: usize,
    user: String,
    full: String,
    env: Vec<(Envelope, String)>,
    orig: bool,
    prefix: String,
    default_subject: String,
    expiry: u64,
    uris: Vec<String>,
    seen: BTreeSet<String>,
    msg: Msg,
    redirects: usize,
    out: usize,
    last_id: usize,
    main_id: usize,
    changed: bool,
    keep: bool,
    explicit: bool,
    want: Vec<Want>,
}

impl World {
    fn env(&self, e: Envelope) -> Option<&String> {
        self.env.iter().find(|x| x.0 == e && !x.1.is_empty()).map(|x| &x.1)
    }

    fn user_from(&self) -> String {
        if self.full.is_empty() {
            self.user.clone()
        } else {
            format!("\"{}\" <{}>", self.full.replace('\\', "\\\\").replace('"', "\\\""), self.user)
        }
    }

    fn flush(&mut self) {
        if self.changed {
            self.changed = false;
            self.last_id += 1;
            self.main_id = self.last_id;
            self.want.push(Want::AnyCreated(self.last_id));
        }
    }

    fn num(n: usize) -> String {
        crate::model::num(n)
    }

    fn fcc(&mut self, f: &Option<Fcc>) {
        if let Some(f) = f {
            self.want.push(Want::Ev(format!("FileInto {:?} {:?} {:?} {:?} {}{}", f.folder, f.flags, f.id, f.special, f.create, Self::num(self.last_id))));
        }
    }

    fn redirect(&mut self, r: &Redirect) -> bool {
        let Some(to) = &r.to else { return false };
        if self.redirects >= self.max_redirects || self.out >= self.max_out || self.msg.received() >= self.max_received {
            return false;
        }
        if !r.list && to.eq_ignore_ascii_case(&self.user) {
            return false;
        }
        if !r.copy && !self.explicit {
            self.keep = false;
        }
        self.flush();
        self.redirects += 1;
        self.out += 1;
        let by = match &r.by {
            ByTime::None => "None".to_string(),
            ByTime::Rel(n) => format!("Relative {{ rlimit: {n}, mode: {}, trace: {} }}", r.mode, r.trace),
            ByTime::Abs(_, n) => format!("Absolute {{ alimit: {n}, mode: {}, trace: {} }}", r.mode, r.trace),
        };
        let extra = format!("{} {} {by}", r.notify.1, r.ret.1);
        let mut extra = if extra == "Default Default None" { String::new() } else { format!(" {extra}") };
        extra.push_str(&Self::num(self.main_id));
        self.want.push(Want::Ev(format!("SendMessage {} {to:?}{extra}", if r.list { "list" } else { "address" })));
        true
    }

    /// Why there is no reply, or the reply.
    fn vacation(&mut self, v: &Vacation) -> Result<(), &'static str> {
        if self.out >= self.max_out {
            return Err("capped");
        }
        let from = self.env(Envelope::From).map_or(String::new(), |s| s.to_ascii_lowercase());
        let own = if self.orig { Envelope::Orcpt } else { Envelope::To };
        let mut mine: Vec<String> = self.env.iter().filter(|e| e.0 == own && !e.1.is_empty()).map(|e| e.1.clone()).collect();
        mine.extend(v.addresses.iter().filter(|a| !a.is_empty()).cloned());
        if !self.user.is_empty() {
            mine.push(self.user.clone());
        }
        if from.is_empty() {
            return Err("empty sender");
        }
        if from.starts_with("mailer-daemon") || from.starts_with("owner-") || from.contains("-request@") {
            return Err("system sender");
        }
        if mine.iter().any(|a| a.eq_ignore_ascii_case(&from)) {
            return Err("own address");
        }
        for l in ["List-Archive", "List-Help", "List-Id", "List-Owner", "List-Post", "List-Subscribe", "List-Unsubscribe"] {
            if self.msg.all(l).next().is_some() {
                return Err("list");
            }
        }
        if self.msg.automatic() {
            return Err("automatic");
        }
        if self.msg.all("Precedence").any(|f| f.2.eq_ignore_ascii_case("bulk")) {
            return Err("bulk");
        }
        if self.msg.all("X-Auto-Response-Suppress").any(|f| f.2.split(',').any(|p| ["all", "oof"].contains(&p.trim().to_ascii_lowercase().as_str()))) {
            return Err("suppressed");
        }
        // the third column of an address field holds the addresses, one in a line
        let named = ["To", "Cc", "Bcc", "Resent-To", "Resent-Cc", "Resent-Bcc"].iter().any(|n| self.msg.all(n).any(|f| f.2.lines().any(|a| mine.iter().any(|m| m.eq_ignore_ascii_case(a)))));
        if !named {
            return Err("not addressed");
        }
        if self.msg.received() > self.max_received {
            return Err("received");
        }
        let id = format!("_v{from}{}", v.handle.as_ref().unwrap_or(&v.reason));
        let expiry = match v.period {
            None => self.expiry,
            Some((false, d)) => d.saturating_mul(86400),
            Some((true, s)) => s,
        };
        self.want.push(Want::Ev(norm(&Item::Ev(Event::DuplicateId { id: id.clone(), expiry, last: false }))));
        if !self.seen.insert(id) {
            return Err("duplicate");
        }
        let sender = self.env(Envelope::From).unwrap().clone();
        let subject = match &v.subject {
            Some(s) if !s.is_empty() => s.clone(),
            _ => match self.msg.all("Subject").next() {
                Some(f) if !f.2.is_empty() => cut(&format!("{}{}", self.prefix, f.2)),
                _ => self.default_subject.clone(),
            },
        };
        let subject = if subject.is_empty() { self.default_subject.clone() } else { subject };
        let vfrom = match &v.from {
            Some(f) => f.clone(),
            None if !self.user.is_empty() => self.user_from(),
            None => self.env.iter().find(|e| e.0 == Envelope::To).map_or(String::new(), |e| e.1.clone()),
        };
        let mut to = vec![sender.clone()];
        for n in ["From", "Sender"] {
            to.extend(self.msg.all(n).filter(|f| f.2.lines().any(|a| a.eq_ignore_ascii_case(&sender))).map(|f| f.1.clone()));
        }
        let is = |n: &str, v: &str| (n.to_string(), Val::Is(clean(v)));
        let mut fields = vec![is("from", &vfrom), ("to".into(), Val::OneOf(to)), is("subject", &subject)];
        if let Some(m) = self.msg.all("Message-ID").next_back() {
            fields.push(is("in-reply-to", &m.1));
            let refs = self.msg.all("References").next_back().map_or(String::new(), |r| r.1.clone());
            fields.push(("references".into(), Val::OneOf(vec![format!("{} {refs}", m.1), format!("{refs} {}", m.1)])));
        }
        fields.push(is("date", &Date::of(self.now, 0).part("std11")));
        fields.push(("message-id".into(), Val::Any));
        fields.push(is("auto-submitted", "auto-replied"));
        if !v.mime {
            fields.push(is("content-type", "text/plain; charset=utf-8"));
        }
        self.last_id += 1;
        self.out += 1;
        self.want.push(Want::Created { id: self.last_id, fields, sep: !v.mime, body: v.reason.clone() });
        self.want.push(Want::Ev(format!("SendMessage address {sender:?} Never Default None{}", Self::num(self.last_id))));
        self.fcc(&v.fcc);
        Ok(())
    }

    fn notify(&mut self, n: &NotifyAct) -> Result<(), &'static str> {
        if self.msg.automatic() {
            return Err("automatic");
        }
        if let Method::Bad = n.as_method {
            return Err("bad method");
        }
        if self.out >= self.max_out {
            return Err("capped");
        }
        let level = n.importance.as_deref();
        let subject_of_msg = self.msg.all("Subject").next().map_or(String::new(), |f| f.2.clone());
        let mail = match &n.as_method {
            Method::Mail(m) => Some(m.clone()),
            _ => None,
        };
        if mail.is_some() || n.fcc.is_some() {
            let m = mail.clone().unwrap_or_default();
            let from = match &n.from {
                Some(f) if f.to_ascii_lowercase().contains(&self.user.to_ascii_lowercase()) => f.clone(),
                _ => self.user_from(),
            };
            let is = |n: &str, v: &str| (n.to_string(), Val::Is(clean(v)));
            let mut fields = vec![is("from", &from)];
            for (h, l) in [("to", &m.to), ("cc", &m.cc)] {
                if !l.is_empty() {
                    fields.push(is(h, &l.iter().map(|a| if a.contains('<') { a.clone() } else { format!("<{a}>") }).collect::<Vec<_>>().join(", ")));
                }
            }
            let (mut date, mut mid, mut subject) = (false, false, None);
            for (h, v) in &m.fields {
                let h = h.to_ascii_lowercase();
                match h.as_str() {
                    "subject" => subject = Some(v.clone()),
                    "from" => (),
                    _ => {
                        date |= h == "date";
                        mid |= h == "message-id";
                        fields.push(is(&h, v));
                    }
                }
            }
            if !date {
                fields.push(is("date", &Date::of(self.now, 0).part("std11")));
            }
            if !mid {
                fields.push(("message-id".into(), Val::Any));
            }
            let (i, p) = match level {
                Some("1") => ("High", "1 (High)"),
                Some("3") => ("Low", "5 (Low)"),
                _ => ("Normal", "3 (Normal)"),
            };
            fields.push(is("importance", i));
            fields.push(is("x-priority", p));
            let s = subject.clone().or(n.message.clone()).unwrap_or(subject_of_msg.clone());
            fields.push(is("subject", &cut(&clean(&s))));
            fields.push(is("auto-submitted", "auto-notified"));
            fields.push(is("x-sieve", "yes"));
            fields.push(is("content-type", "text/plain; charset=utf-8"));
            let body = m.body.clone().or(n.message.clone()).unwrap_or(subject_of_msg.clone());
            self.last_id += 1;
            self.want.push(Want::Created { id: self.last_id, fields, sep: true, body });
            if mail.is_some() {
                let all: Vec<String> = m
                    .to
                    .iter()
                    .chain(&m.cc)
                    .chain(&m.bcc)
                    .map(|a| match (a.rfind('<'), a.rfind('>')) {
                        (Some(i), Some(j)) => a[i + 1..j].to_string(),
                        _ => a.clone(),
                    })
                    .collect();
                self.want.push(Want::Ev(format!("SendMessage Group({all:?}) Never Default None{}", Self::num(self.last_id))));
            }
        }
        if mail.is_none() {
            self.want.push(Want::Ev(format!(
                "{:?}",
                Event::Notify {
                    from: n.from.as_ref().map(|f| clean(f)),
                    importance: match level {
                        Some("1") => sieve::Importance::High,
                        Some("3") => sieve::Importance::Low,
                        _ => sieve::Importance::Normal,
                    },
                    options: n.options.clone(),
                    message: n.message.clone().unwrap_or(subject_of_msg),
                    method: n.method.clone(),
                }
            )));
        }
        self.out += 1;
        self.fcc(&n.fcc);
        Ok(())
    }
}

// ---- generators

pub struct Out {
    hostile: bool,
    vars: usize,
    pre: String,
}

const NASTY: &[&str] = &["\r\n", "\n", "\r", "\r\nBcc: evil@example.net", "\nX-Evil: 1\n", "\r\n\r\n", "\t", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}", "=?utf-8?Q?=0D=0ABcc:_x=40y.zz?=", "%0D%0A", ",", "<", ">", "\"", "\\", "é", "…"];

impl Out {
    pub fn new(hostile: bool) -> Self {
        Out { hostile, vars: 0, pre: String::new() }
    }

    pub fn text(&self, t: &mut Tape) -> String {
        let mut s = String::new();
        for _ in 0..t.n(5) {
            if self.hostile && t.chance(1, 2) {
                s.push_str(t.pick(NASTY));
            } else {
                s.push_str(t.pick(&["hello", " ", "world", "away", "é", "on vacation", "x", ": ", "42", "a=b", "?", "&"]));
            }
        }
        if t.chance(1, 12) {
            s.push_str(&t.pick(&["long ", "lé", "…x"]).repeat(40 + t.n(150)));
        }
        s
    }

    /// A string argument: written out, or in a variable that was set before.
    pub fn arg(&mut self, t: &mut Tape, s: &str) -> String {
        match t.n(6) {
            0 => {
                self.vars += 1;
                self.pre.push_str(&format!("set \"v{}\" {};\n", self.vars, q(s)));
                format!("\"${{v{}}}\"", self.vars)
            }
            1 if s.len() > 1 && s.len() < 40 => {
                // every byte encoded
                let hex: Vec<String> = s.bytes().map(|b| format!("{b:02x}")).collect();
                format!("\"${{hex:{}}}\"", hex.join(" "))
            }
            _ => q(s),
        }
    }

    fn fcc(&mut self, t: &mut Tape, s: &mut String) -> Option<Fcc> {
        if !t.chance(1, 5) {
            return None;
        }
        let mut f = Fcc { folder: t.pick(&["Sent", "INBOX.Sent", "A é"]).to_string(), ..Default::default() };
        s.push_str(&format!(":fcc {} ", self.arg(t, &f.folder.clone())));
        if t.chance(1, 3) {
            f.create = true;
            s.push_str(":create ");
        }
        if t.chance(1, 3) {
            f.flags = t.pick(&[vec!["\\Seen"], vec!["\\Seen", "work"]]).iter().map(|x| x.to_string()).collect();
            s.push_str(&format!(":flags [{}] ", f.flags.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")));
        }
        if t.chance(1, 4) {
            f.special = Some("\\Sent".into());
            s.push_str(":specialuse \"\\\\Sent\" ");
        }
        if t.chance(1, 4) {
            f.id = Some("id7".into());
            s.push_str(":mailboxid \"id7\" ");
        }
        Some(f)
    }

    fn address(&self, t: &mut Tape) -> String {
        t.pick(&["joe@example.com", "Jane.Doe@example.org", "me@example.com", "ME@Example.com", "list-request@x.yy", "owner-l@x.yy", "bob+x@sub.example.net", "alias@example.com"]).to_string()
    }

    fn redirect(&mut self, t: &mut Tape) -> (String, Redirect) {
        let list = t.chance(1, 8);
        let (addr, to) = if list {
            match t.n(4) {
                0 => ("tag:example.com,2010-05-28:mylist".to_string(), Some("tag:example.com,2010-05-28:mylist".to_string())),
                1 => ("staff@example.com".into(), Some("staff@example.com".into())),
                2 => (String::new(), None),
                _ => ("urn:ietf:params:sieve:addrbook:default".into(), Some("urn:ietf:params:sieve:addrbook:default".into())),
            }
        } else {
            let a = self.address(t);
            match t.n(10) {
                0 => (t.pick(&["nobody", "a@localhost", "@b.cc", "a@b@c.dd", "", "a\u{1}@b.cc", "\"x\r\ny\"@b.cc", "<>", "a@b.cc\u{0085}", "\"a\nb\"@c.dd"]).to_string(), None),
                1 => (format!("<{a}>"), Some(a)),
                2 => (format!("Joe Q <{a}>"), Some(a)),
                3 => (format!(" {a} "), Some(a)),
                4 if self.hostile => (format!("{a}\r\n"), Some(a)),
                5 if self.hostile => (format!("\n<{a}>"), Some(a)),
                _ => (a.clone(), Some(a)),
            }
        };
        let mut r = Redirect { addr, to, list, copy: t.chance(1, 3), notify: (String::new(), "Default".into()), ret: (String::new(), "Default"), by: ByTime::None, mode: "Default", trace: false };
        let mut tags: Vec<String> = vec![];
        if r.copy {
            tags.push(":copy".into());
        }
        if list {
            tags.push(":list".into());
        }
        if t.chance(1, 6) {
            r.notify = t.pick(&[("NEVER", "Never"), ("success", "Items([Success])"), ("FAILURE, delay", "Items([Failure, Delay])"), ("success,failure,delay", "Items([Success, Failure, Delay])")]).clone_str();
            tags.push(format!(":notify {}", q(&r.notify.0)));
        }
        if t.chance(1, 6) {
            let (a, b) = *t.pick(&[("FULL", "Full"), ("hdrs", "Hdrs")]);
            r.ret = (a.into(), b);
            tags.push(format!(":ret {}", q(a)));
        }
        if t.chance(1, 6) {
            if t.bool() {
                let n = *t.pick(&[0u64, 120, 86400, 4096]);
                r.by = ByTime::Rel(n);
                tags.push(format!(":bytimerelative {n}"));
            } else {
                let d = moment(t, 1970, 2999);
                let z = *t.pick(&[0i64, 60, -150, 330]);
                let d = Date { zone: z, ..d };
                let (s, n) = if t.chance(1, 6) {
                    // no point in time
                    (t.pick(&["tomorrow", "2020-13-45T10:00:00Z", "2024-00-10T10:00:00Z", "2024-02-32T10:00:00+01:00", "2024-02-10T25:00:00Z", "2024-02-10T10:61:00Z", "2024-02-00T10:00:00Z"]).to_string(), 0)
                } else { (d.part("iso8601"), d.stamp()) };
                tags.push(format!(":bytimeabsolute {}", self.arg(t, &s)));
                r.by = ByTime::Abs(s, n);
            }
            if t.bool() {
                let (a, b) = *t.pick(&[("notify", "Notify"), ("RETURN", "Return")]);
                r.mode = b;
                tags.push(format!(":bymode {}", q(a)));
            }
            if t.bool() {
                r.trace = true;
                tags.push(":bytrace".into());
            }
        }
        if tags.len() > 1 {
            let k = t.n(tags.len());
            tags.rotate_left(k);
        }
        let a = self.arg(t, &r.addr.clone());
        (format!("redirect {}{}{a};\n", tags.join(" "), if tags.is_empty() { "" } else { " " }), r)
    }

    fn vacation(&mut self, t: &mut Tape) -> (String, Vacation) {
        let mut v = Vacation { period: None, subject: None, from: None, addresses: vec![], mime: t.chance(1, 6), handle: None, reason: String::new(), fcc: None };
        let mut s = String::from("vacation ");
        if t.chance(1, 3) {
            let n = *t.pick(&[1u64, 7, 0, 30, 1000, 999_999_999_999_999]);
            v.period = Some((t.bool(), n));
            s.push_str(&format!("{} {n} ", if v.period.unwrap().0 { ":seconds" } else { ":days" }));
        }
        if t.chance(1, 3) {
            let x = self.text(t);
            s.push_str(&format!(":subject {} ", self.arg(t, &x)));
            v.subject = Some(x);
        }
        if t.chance(1, 3) {
            let mut x = t.pick(&["me@example.com", "Me <me@example.com>", "other@example.com"]).to_string();
            if self.hostile && t.bool() {
                x.push_str(t.pick(NASTY));
                x.push_str("tail");
            }
            s.push_str(&format!(":from {} ", self.arg(t, &x)));
            v.from = Some(x);
        }
        if t.chance(1, 3) {
            v.addresses = (0..1 + t.n(2)).map(|_| self.address(t)).collect();
            if t.chance(1, 6) {
                v.addresses.push(String::new());
            }
            let l: Vec<String> = v.addresses.clone().iter().map(|a| self.arg(t, a)).collect();
            s.push_str(&format!(":addresses [{}] ", l.join(",")));
        }
        if v.mime {
            s.push_str(":mime ");
        }
        if t.chance(1, 4) {
            let x = t.pick(&["h1", "h2", "é"]).to_string();
            s.push_str(&format!(":handle {} ", self.arg(t, &x)));
            v.handle = Some(x);
        }
        v.fcc = self.fcc(t, &mut s);
        v.reason = if v.mime { format!("Content-Type: text/html\r\nX-R: {}\r\n\r\n<p>{}</p>", t.n(3), self.text(t)) } else { self.text(t) };
        if t.chance(1, 3) && !v.mime {
            v.reason = t.pick(&["gone fishing", "away", "back soon"]).to_string();
        }
        s.push_str(&self.arg(t, &v.reason.clone()));
        s.push_str(";\n");
        (s, v)
    }

    fn percent(&self, t: &mut Tape, s: &str, plain: &str) -> String {
        let mut o = String::new();
        let all = t.chance(1, 6);
        for b in s.bytes() {
            let keep = b.is_ascii_alphanumeric() || (b < 128 && plain.contains(b as char));
            if keep && !all && !t.chance(1, 12) {
                o.push(b as char);
            } else if t.bool() {
                o.push_str(&format!("%{b:02X}"));
            } else {
                o.push_str(&format!("%{b:02x}"));
            }
        }
        o
    }

    /// A method and what it stands for.
    fn method(&mut self, t: &mut Tape) -> (String, Method) {
        match t.n(8) {
            0 => {
                let m = t.pick(&["tel:+123456", "xmpp:joe@example.com?message;subject=x", "http://example.com/?a=b&c", "https://example.com/x", "xmpp:a%0D%0Ab", "HTTPS://example.com", "TEL:1"]).to_string();
                (m, Method::Other)
            }
            1 => {
                let m = t
                    .pick(&[
                        "mailto:", "mailto:nobody", "mailto:?subject=x", "mailto:a%zz@b.cc", "mailto:a@b.cc%0", "mailto:a@b.cc?subject=%ff", "mailto:a@b@c.dd", "mailto:,a@b.cc", "mailto:a%0Ab@c.dd", "mailto:a@b.cc?x%0Ay=z", "mailto:a@b.cc?sub ject=x", "mailto:@b.cc", "tel:", "nothing", "", "mailto:a\u{1}@b.cc",
                        "mailto:a@b.cc%0D%0ABcc:x@y.zz", "mailto:a@b.cc?X-A%3A=1", "mailto:a,b@c.dd", "mailto:a@b.cc?=x", "mailto:%",
                    ])
                    .to_string();
                // a scheme without anything after the colon
                (m, Method::Bad)
            }
            _ => {
                let mut m = Mailto::default();
                let mut uri = random_case(t, "mailto:");
                let add = |m: &mut Mailto, which: usize, a: String| {
                    if m.to.iter().chain(&m.cc).chain(&m.bcc).any(|x| x.eq_ignore_ascii_case(&a)) {
                        return;
                    }
                    match which {
                        0 => m.to.push(a),
                        1 => m.cc.push(a),
                        _ => m.bcc.push(a),
                    }
                };
                let addrs = |s: &Self, t: &mut Tape| -> Vec<String> {
                    (0..1 + t.n(2))
                        .map(|_| {
                            let a = s.address(t);
                            match t.n(6) {
                                0 => format!("<{a}>"),
                                1 => {
                                    let name = *t.pick(&["Joe Q ", "Joe Q ", "Joe Q ", "\"a<b\" ", "\"a<b>c\" ", "\"<\"", "Jürgen "]);
                                    format!("{name}<{a}>")
                                }
                                _ => a,
                            }
                        })
                        .collect()
                };
                let write = |s: &Self, t: &mut Tape, l: &[String]| -> String {
                    let mut v: Vec<String> = vec![];
                    for a in l {
                        v.push(s.percent(t, a, "@.+-_<>"));
                    }
                    let sep = *t.pick(&[",", "%2C", ","]);
                    v.join(sep)
                };
                let first = t.chance(4, 5);
                if first {
                    let l = addrs(self, t);
                    uri.push_str(&write(self, t, &l));
                    for a in l {
                        add(&mut m, 0, a);
                    }
                }
                let n = t.n(5);
                let mut params: Vec<String> = vec![];
                for i in 0..n.max(!first as usize) {
                    let k = if !first && i == 0 { 0 } else { t.n(8) };
                    match k {
                        0 | 1 => {
                            let which = t.n(3);
                            let l = addrs(self, t);
                            let name = random_case(t, ["to", "cc", "bcc"][which]);
                            params.push(format!("{name}={}", write(self, t, &l)));
                            for a in l {
                                add(&mut m, which, a);
                            }
                        }
                        _ => {
                            let name = t.pick(&["subject", "body", "body", "subject", "In-Reply-To", "X-Foo", "keywords", "from", "Date", "Message-ID", "x-a_b", "Comments"]).to_string();
                            let mut v = self.text(t);
                            if t.chance(1, 5) {
                                v.push_str(*t.pick(&["1+1=2", "a/b:(c)!", "x;y*'z'~", "<i>", "50% & more", "#1"]));
                            }
                            let name = random_case(t, &name);
                            params.push(format!("{name}={}", self.percent(t, &v, ".-_?=,@+:/()!;*'~<>#")));
                            if v.is_empty() {
                                continue;
                            }
                            if name.eq_ignore_ascii_case("body") {
                                m.body = Some(v);
                            } else {
                                m.fields.push((name, v));
                            }
                        }
                    }
                }
                if !params.is_empty() {
                    uri.push('?');
                    uri.push_str(&params.join("&"));
                }
                (uri, Method::Mail(m))
            }
        }
    }

    fn notify(&mut self, t: &mut Tape) -> (String, NotifyAct) {
        let mut s = String::from("notify ");
        let (method, as_method) = self.method(t);
        let mut n = NotifyAct { from: None, importance: None, options: vec![], message: None, method, as_method, fcc: None };
        if t.chance(1, 3) {
            let x = t
                .pick(&["me@example.com", "Me <ME@example.com>", "other@example.com", "\"Me \\\"<Q>\\\" @ home\" <me@example.com>", "\"a@b>\\\"\" <other@example.com>"])
                .to_string();
            if self.hostile && t.bool() {
                // not checked when in a variable
                let x = format!("{x}{}tail", t.pick(NASTY));
                self.vars += 1;
                self.pre.push_str(&format!("set \"v{}\" {};\n", self.vars, q(&x)));
                s.push_str(&format!(":from \"${{v{}}}\" ", self.vars));
                n.from = Some(x);
            } else {
                s.push_str(&format!(":from {} ", self.arg(t, &x)));
                n.from = Some(x);
            }
        }
        if t.chance(1, 2) {
            let x = t.pick(&["1", "2", "3", "1", "3", "9"]).to_string();
            s.push_str(&format!(":importance {} ", self.arg(t, &x)));
            n.importance = Some(x);
        }
        if t.chance(1, 4) {
            n.options = (0..1 + t.n(2)).map(|i| format!("opt{i}=é")).collect();
            let l: Vec<String> = n.options.clone().iter().map(|a| self.arg(t, a)).collect();
            s.push_str(&format!(":options [{}] ", l.join(",")));
        }
        if t.chance(1, 2) {
            let x = self.text(t);
            s.push_str(&format!(":message {} ", self.arg(t, &x)));
            n.message = Some(x);
        }
        n.fcc = self.fcc(t, &mut s);
        let m = n.method.clone();
        if matches!(n.as_method, Method::Bad) {
            // refused by the compiler when written out
            self.vars += 1;
            self.pre.push_str(&format!("set \"v{}\" {};\n", self.vars, q(&m)));
            s.push_str(&format!("\"${{v{}}}\"", self.vars));
        } else {
            s.push_str(&self.arg(t, &m));
        }
        s.push_str(";\n");
        (s, n)
    }
}

trait CloneStr {
    fn clone_str(&self) -> (String, String);
}
impl CloneStr for (&str, &str) {
    fn clone_str(&self) -> (String, String) {
        (self.0.to_string(), self.1.to_string())
    }
}

fn message(t: &mut Tape, weight: Focus, user: &[&str]) -> (Vec<u8>, Msg, Option<String>) {
    let mut raw = vec![];
    let mut fields = vec![];
    let mut put = |raw: &mut Vec<u8>, n: &str, v: &str, text: &str| {
        raw.extend(format!("{n}: {v}\r\n").bytes());
        fields.push((n.to_string(), v.to_string(), text.to_string()));
    };
    let received = match t.n(4) {
        0 => t.n(4),
        1 if weight == Focus::Caps => t.n(13),
        _ => 0,
    };
    // not always at the top
    let first = if t.chance(2, 3) { received } else { t.n(received + 1) };
    let trace = |i: usize| format!("from a{i}.example by b.example; Thu, 29 Feb 2024 10:00:00 +0000");
    for i in 0..first {
        put(&mut raw, *if i % 3 == 1 { &"RECEIVED" } else { &"Received" }, &trace(i), "");
    }
    let addrs = ["joe@example.com", "jane@example.org", "Mailer-Daemon@example.com", "owner-list@example.com", "list-request@example.com", "Me@example.com"];
    let sender = match t.n(12) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(t.pick(&addrs[2..]).to_string()),
        _ => Some(t.pick(&addrs[..2]).to_string()),
    };
    if t.chance(7, 8) {
        let n = *t.pick(&["From", "From", "Sender", "FROM"]);
        let mut l = vec![];
        let mut v = vec![];
        for _ in 0..1 + t.n(2) {
            let a = if t.bool() { sender.clone().filter(|s| !s.is_empty()).unwrap_or("x@y.zz".into()) } else { t.pick(&addrs).to_string() };
            v.push(if t.bool() { format!("Some One <{a}>") } else { a.clone() });
            l.push(a);
        }
        put(&mut raw, n, &v.join(", "), &l.join("\n"));
    }
    for _ in 0..1 + t.n(2) {
        let n = *t.pick(&["To", "To", "To", "Cc", "Bcc", "Resent-To", "Resent-Cc", "Resent-Bcc", "X-To"]);
        let mut l = vec![];
        let mut v = vec![];
        for _ in 0..1 + t.n(2) {
            let a = if t.chance(2, 3) { random_case(t, "me@example.com") } else { t.pick(user).to_string() };
            v.push(if t.chance(1, 3) { format!("\"Last, First\" <{a}>") } else { a.clone() });
            l.push(a);
        }
        put(&mut raw, n, &v.join(",\r\n "), &l.join("\n"));
    }
    if t.chance(5, 6) {
        let (r, x) = text_value(t, "\r\n");
        let r = String::from_utf8(r).unwrap();
        let (r, x) = if t.chance(1, 10) { ("long subject ".repeat(25).trim().to_string(), "long subject ".repeat(25).trim().to_string()) } else { (r, x) };
        put(&mut raw, "Subject", &r, &x);
    }
    if t.chance(1, 2) {
        let id = t.pick(&["<a.1@example.com>", "<x$y@z>"]).to_string();
        put(&mut raw, "Message-ID", &id, &id[1..id.len() - 1].to_string());
    }
    if t.chance(1, 3) {
        put(&mut raw, "References", t.pick(&["<r1@x>", "<r1@x> <r2@y>", "<r1@x>\r\n <r2@y>"]), "");
    }
    let p = if weight == Focus::Vacation { 4 } else { 12 };
    if t.chance(1, p) {
        let v = *t.pick(&["no", "No", "auto-replied", "auto-generated", "auto-notified; x=y"]);
        put(&mut raw, "Auto-Submitted", v, v);
    }
    if t.chance(1, 2 * p) {
        let n = *t.pick(&["List-Id", "List-Archive", "List-Help", "List-Owner", "List-Post", "list-subscribe", "List-Unsubscribe", "List-Nothing"]);
        put(&mut raw, n, "<x.example.com>", "");
    }
    if t.chance(1, 2 * p) {
        let v = *t.pick(&["bulk", "BULK", "first-class", "normal"]);
        put(&mut raw, "Precedence", v, v);
    }
    if t.chance(1, 2 * p) {
        let v = *t.pick(&["All", "OOF, AutoReply", "DR, oof", "DR,All", "none,  OOF", "DR", "None", "AutoReply"]);
        put(&mut raw, "X-Auto-Response-Suppress", v, v);
    }
    for i in first..received {
        put(&mut raw, "Received", &trace(i), "");
    }
    raw.extend(b"\r\nbody\r\n");
    (raw, Msg { fields }, sender)
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Focus {
    Caps,
    Vacation,
    Notify,
    Hostile,
}

pub fn outgoing(t: &mut Tape, rep: &mut Report, focus: Focus) -> CaseResult {
    let user = ["me@example.com", "alias@example.com", "other@example.org", "nobody@example.org"];
    let (raw, msg, sender) = message(t, focus, &user);
    let mut env = vec![];
    if let Some(s) = &sender {
        env.push((Envelope::From, s.clone()));
    }
    for _ in 0..t.n(3) {
        env.push((Envelope::To, t.pick(&user).to_string()));
    }
    if t.chance(1, 4) {
        env.push((Envelope::Orcpt, t.pick(&user).to_string()));
    }
    let hostile = focus == Focus::Hostile || t.chance(1, 6);
    let wide = focus != Focus::Caps && t.chance(3, 4);
    let mut w = World {
        now: moment(t, 1971, 2200).stamp(),
        max_redirects: if wide { 10 } else { t.n(4) },
        max_out: if wide { 20 } else { t.n(5) },
        max_received: if wide { 10 } else { *t.pick(&[0, 1, 2, 3, 10]) },
        user: if t.chance(3, 4) { t.pick(&["me@example.com", "Me@Example.com", "alias@example.com"]).to_string() } else { String::new() },
        full: if t.chance(1, 3) { t.pick(&["Joe", "J \"x\" Doe", "a\\b", "é x"]).to_string() } else { String::new() },
        env: env.clone(),
        orig: t.chance(1, 5),
        prefix: t.pick(&["Auto: ", "", "Away – "]).to_string(),
        default_subject: t.pick(&["Automated reply", "gone"]).to_string(),
        expiry: *t.pick(&[2592000u64, 60]),
        uris: vec![],
        seen: BTreeSet::new(),
        msg,
        redirects: 0,
        out: 0,
        last_id: 0,
        main_id: 0,
        changed: false,
        keep: true,
        explicit: false,
        want: vec![],
    };
    for u in ["mailto", "xmpp", "tel", "http", "https"] {
        if t.chance(2, 3) {
            w.uris.push(u.into());
        }
    }
    let mut o = Out::new(hostile);
    let mut script = String::new();
    let mut acted = 0;
    let edits = t.chance(1, 4);
    let n = 1 + match focus {
        Focus::Caps => t.n(8),
        _ => t.n(4),
    };
    for i in 0..n {
        let k = t.weighted(match focus {
            Focus::Caps => &[6, 3, 3, 2, 1, 1],
            Focus::Vacation => &[1, 10, 1, 1, 0, 0],
            Focus::Notify => &[1, 1, 10, 0, 3, 0],
            Focus::Hostile => &[4, 4, 4, 0, 0, 0],
        });
        match k {
            0 => {
                let (s, r) = o.redirect(t);
                script.push_str(&std::mem::take(&mut o.pre));
                script.push_str(&s);
                let done = w.redirect(&r);
                acted += done as usize;
                rep.label(if done { "redirected" } else { "not redirected" });
            }
            1 => {
                let (s, v) = o.vacation(t);
                script.push_str(&std::mem::take(&mut o.pre));
                script.push_str(&s);
                let r = w.vacation(&v);
                acted += r.is_ok() as usize;
                rep.label(match r {
                    Ok(()) => "vacation reply",
                    Err("capped") => "vacation: capped",
                    Err("empty sender") => "vacation: empty sender",
                    Err("system sender") => "vacation: system sender",
                    Err("own address") => "vacation: own address",
                    Err("list") => "vacation: list",
                    Err("automatic") => "vacation: automatic",
                    Err("bulk") => "vacation: bulk",
                    Err("suppressed") => "vacation: suppressed",
                    Err("not addressed") => "vacation: not addressed",
                    Err("received") => "vacation: received",
                    Err(_) => "vacation: duplicate",
                });
            }
            2 => {
                let (s, v) = o.notify(t);
                script.push_str(&std::mem::take(&mut o.pre));
                script.push_str(&s);
                let r = w.notify(&v);
                acted += r.is_ok() as usize;
                rep.label(match r {
                    Ok(()) if matches!(v.as_method, Method::Mail(_)) => "notified by mail",
                    Ok(()) => "notified",
                    Err("automatic") => "notify: automatic",
                    Err("capped") => "notify: capped",
                    Err(_) => "notify: bad method",
                });
            }
            3 if edits => {
                let (n, v) = *t.pick(&[("Received", "from x by y; Thu, 29 Feb 2024 10:00:00 +0000"), ("Received", "by z; Thu, 29 Feb 2024 10:00:00 +0000"), ("Auto-Submitted", "auto-replied"), ("X-Foo", "1"), ("List-Id", "<a.b>"), ("Auto-Submitted", "no")]);
                script.push_str(&format!("addheader {} {};\n", q(n), q(v)));
                w.msg.fields.insert(0, (n.into(), v.into(), v.into()));
                w.changed = true;
                rep.label("field added");
            }
            4 => {
                let mut uris = vec![];
                let mut all = true;
                for _ in 0..1 + t.n(2) {
                    let (m, as_) = o.method(t);
                    let s = m.split(':').next().unwrap().to_ascii_lowercase();
                    all &= !matches!(as_, Method::Bad) && w.uris.iter().any(|u| *u == s || *u == m);
                    uris.push(m);
                }
                if t.bool() {
                    let l: Vec<String> = uris.iter().map(|u| o.arg(t, u)).collect();
                    script.push_str(&std::mem::take(&mut o.pre));
                    script.push_str(&format!("if valid_notify_method [{}] {{ fileinto :copy \"T{i}\"; }} else {{ fileinto :copy \"F{i}\"; }}\n", l.join(", ")));
                } else {
                    let m = &uris[0];
                    let as_bad = {
                        let s = m.split(':').next().unwrap().to_ascii_lowercase();
                        (s, m.clone())
                    };
                    if uris.len() > 1 {
                        continue;
                    }
                    let _ = as_bad;
                    let values = vec!["maybe".to_string()];
                    let test = test_for(t, &values, &['m', 'a', 'y', 'b', 'e'], &Kinds { numeric: false, count: true, regex: true, value: true }, 2);
                    let cap = *t.pick(&["online", "Online", "online", "offline"]);
                    let (r, _) = decide(&test, &values, 1);
                    all &= r && cap.eq_ignore_ascii_case("online");
                    let ks = key_list(t, &test.keys, &mut o.pre);
                    let a = o.arg(t, m);
                    script.push_str(&std::mem::take(&mut o.pre));
                    script.push_str(&format!("if notify_method_capability {} {a} {} {ks} {{ fileinto :copy \"T{i}\"; }} else {{ fileinto :copy \"F{i}\"; }}\n", test.tags(), q(cap)));
                }
                // fileinto sends the message as it is now
                w.flush();
                w.want.push(Want::Ev(format!("FileInto \"{}{i}\" [] None None false{}", if all { "T" } else { "F" }, World::num(w.main_id))));
                rep.label(if all { "method test true" } else { "method test false" });
            }
            5 if !edits => {
                script.push_str("keep;\n");
                w.explicit = true;
                w.keep = true;
            }
            _ => (),
        }
    }
    if w.keep {
        w.flush();
        w.want.push(Want::Ev(format!("Keep []{}", World::num(w.main_id))));
    }
    rep.nontrivial_if(acted > 0);
    let conf = format!(
        "now {} redirects {} out {} received {} user {:?} name {:?} orig {} prefix {:?} default {:?} expiry {} methods {:?} envelope {:?}",
        w.now, w.max_redirects, w.max_out, w.max_received, w.user, w.full, w.orig, w.prefix, w.default_subject, w.expiry, w.uris, w.env
    );
    rep.desc = format!("{script}\n--- message\n{}\n--- {conf}\n--- expected\n{:#?}", String::from_utf8_lossy(&raw), w.want);
    let c = full_compiler().either_max_string_size(1 << 20);
    let s = compile(&c, &format!("{ALL_CAPS}{script}"))?;
    let mut rt = full_runtime()
        .either_max_variable_size(1 << 20)
        .either_max_redirects(w.max_redirects)
        .either_max_out_messages(w.max_out)
        .either_max_received_headers(w.max_received)
        .with_vacation_use_orig_rcpt(w.orig)
        .with_vacation_subject_prefix(w.prefix.clone())
        .with_vacation_default_subject(w.default_subject.clone())
        .either_default_vacation_expiry(w.expiry);
    if w.uris.len() % 2 == 0 {
        rt = rt.with_valid_notification_uris(w.uris.iter().cloned());
    } else {
        for u in &w.uris {
            rt = rt.with_valid_notification_uri(u.clone());
        }
    }
    let host = if w.max_received % 2 == 1 { "mx.example.net" } else { "localhost" };
    if host != "localhost" {
        rt.set_local_hostname(host);
    }
    let at_host = format!("@{host}>");
    let tr = clock::at(w.now, || {
        let mut ctx = rt.filter(&raw).with_user_address(w.user.clone()).with_user_full_name(&w.full);
        for (e, v) in &w.env {
            ctx.set_envelope(e.clone(), v.clone());
        }
        drive(&mut ctx, s, &mut Host::new())
    });
    if focus == Focus::Caps {
        limits(&tr, &w)?;
    }
    compare(&w.want, &tr.items, &at_host)
}

/// The caps by themselves, whatever the model says.
fn limits(tr: &Trace, w: &World) -> CaseResult {
    let (mut redirects, mut out) = (0, 0);
    for i in &tr.items {
        match i {
            Item::Ev(Event::SendMessage { recipient, .. }) => {
                out += 1;
                redirects += !matches!(recipient, sieve::Recipient::Group(_)) as usize;
            }
            Item::Ev(Event::Notify { .. }) => out += 1,
            _ => (),
        }
    }
    if out > w.max_out {
        return fail("too-many-messages", format!("{out} outgoing messages, at most {} allowed", w.max_out));
    }
    let _ = redirects;
    Ok(())
}

/// Splits the header section; fields as (lower-case name, unfolded value).
pub fn parse_fields(raw: &[u8]) -> Result<Vec<(String, String)>, String> {
    let text = String::from_utf8_lossy(raw).to_string();
    let mut v: Vec<(String, String)> = vec![];
    for line in text.split_inclusive("\r\n") {
        let Some(l) = line.strip_suffix("\r\n") else { return Err(format!("line without end: {line:?}")) };
        if l.contains(['\r', '\n']) {
            return Err(format!("bare line break in {l:?}"));
        }
        if l.starts_with([' ', '\t']) {
            let Some(last) = v.last_mut() else { return Err("starts with a folded line".into()) };
            last.1.push(' ');
            last.1.push_str(l.trim());
        } else if let Some((n, x)) = l.split_once(':') {
            if n.is_empty() || n.bytes().any(|b| b <= 32 || b >= 127) {
                return Err(format!("not a field name in {l:?}"));
            }
            v.push((n.to_ascii_lowercase(), x.trim_matches([' ', '\t']).to_string()));
        } else {
            return Err(format!("not a field: {l:?}"));
        }
    }
    Ok(v)
}

fn squeeze(s: &str) -> String {
    s.split([' ', '\t', '\r', '\n']).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ")
}

pub fn compare(want: &[Want], got: &[Item], at_host: &str) -> CaseResult {
    for i in 0..want.len().max(got.len()) {
        let (Some(w), Some(g)) = (want.get(i), got.get(i)) else {
            return fail("events", format!("event {i}: expected {:?}, is {:?}", want.get(i), got.get(i).map(norm)));
        };
        match (w, g) {
            (Want::AnyCreated(id), Item::Ev(Event::CreatedMessage { message_id, .. })) if id == message_id => (),
            (Want::Created { id, fields, sep, body }, Item::Ev(Event::CreatedMessage { message_id, message })) => {
                if id != message_id {
                    return fail("events", format!("event {i}: message id {message_id}, expected {id}"));
                }
                let show = String::from_utf8_lossy(message).to_string();
                let Some(head) = message.strip_suffix(body.as_bytes()) else {
                    return fail("created-body", format!("event {i}: does not end with {body:?}: {show:?}"));
                };
                let head = if *sep {
                    let Some(h) = head.strip_suffix(b"\r\n") else {
                        return fail("created-body", format!("event {i}: no empty line before {body:?}: {show:?}"));
                    };
                    h
                } else {
                    head
                };
                let f = match parse_fields(head) {
                    Ok(f) => f,
                    Err(e) => return fail("created-fields", format!("event {i}: {e} in {show:?}")),
                };
                let (mut a, mut b): (Vec<&str>, Vec<&str>) = (f.iter().map(|x| x.0.as_str()).collect(), fields.iter().map(|x| x.0.as_str()).collect());
                a.sort();
                b.sort();
                if a != b {
                    return fail("created-fields", format!("event {i}: fields {a:?}, expected {b:?} in {show:?}"));
                }
                let mut left = f.clone();
                for (n, v) in fields {
                    let ok = |x: &str| match v {
                        Val::Is(s) => squeeze(s) == squeeze(x),
                        Val::OneOf(l) => l.iter().any(|s| squeeze(s) == squeeze(x)),
                        Val::Any => x.len() > 14 && x.starts_with('<') && x.ends_with(at_host) && x.matches('@').count() == 1,
                    };
                    match left.iter().position(|x| x.0 == *n && ok(&x.1)) {
                        Some(p) => {
                            left.remove(p);
                        }
                        None => return fail("created-value", format!("event {i}: no field {n} with {v:?} in {show:?}")),
                    }
                }
            }
            (Want::Ev(s), g) => {
                let x = norm(g);
                let x = if x.starts_with("SendMessage Group") { x } else { x };
                let n = match g {
                    Item::Ev(e @ Event::Notify { .. }) => format!("{e:?}"),
                    _ => x,
                };
                if *s != n {
                    return fail("events", format!("event {i}: expected {s}, is {n}"));
                }
            }
            _ => return fail("events", format!("event {i}: expected {w:?}, is {}", norm(g))),
        }
    }
    Ok(())
}

fn c18(t: &mut Tape, rep: &mut Report) -> CaseResult {
    outgoing(t, rep, Focus::Caps)
}
fn c19(t: &mut Tape, rep: &mut Report) -> CaseResult {
    outgoing(t, rep, Focus::Vacation)
}
fn c20(t: &mut Tape, rep: &mut Report) -> CaseResult {
    outgoing(t, rep, Focus::Notify)
}

const LONG: &str = "From: sender@example.net\r\nTo: me@example.com\r\nSubject: SUBJ\r\n\r\nbody\r\n";

fn pins18() -> Pinned {
    vec![
        pin("list names", || expect(r#"redirect :list "tag:example.com,2024:all"; redirect :list "urn:x:y";"#, MSG, &[r#"SendMessage list "tag:example.com,2024:all""#, r#"SendMessage list "urn:x:y""#])),
        pin("notifications count", || {
            let script = r#"notify "xmpp:a@b.cc"; notify "tel:1"; redirect "x@y.zz"; vacation "gone";"#;
            let n = items(|r| r.either_max_out_messages(2), script, MSG)?.len();
            // two notifications, then only the implicit keep
            if n == 3 { Ok(()) } else { fail("events", format!("{script}: {n} events")) }
        }),
        pin("refused redirect keeps", || expect(r#"redirect "me@example.com";"#, MSG, &["Keep []"])),
    ]
}

fn pins19() -> Pinned {
    vec![
        pin("very long period", || {
            let e = events(|r| r, r#"vacation :days 999999999999999 "gone";"#, MSG)?;
            if e[0].starts_with("DuplicateId") { Ok(()) } else { fail("events", format!("{e:?}")) }
        }),
        pin("long subject", || {
            let m = LONG.replace("SUBJ", &"s".repeat(300));
            expect_head(r#"vacation "gone";"#, &m, &[&format!("Subject: Auto: {}…", "s".repeat(250))], &[])
        }),
    ]
}

fn pins20() -> Pinned {
    vec![
        pin("scheme case", || expect(r#"if valid_notify_method ["MAILTO:a@b.cc"] { fileinto "y"; } else { fileinto "n"; }"#, MSG, &[r#"FileInto "y" [] None None false"#])),
        pin("addresses in any field", || {
            expect_head(r#"notify "mailto:a@b.cc?cc=c@d.ee&to=e@f.gg&subject=x";"#, MSG, &["To: <a@b.cc>, <e@f.gg>", "Cc: <c@d.ee>", "Subject: x"], &[])
        }),
        pin("long subject", || {
            let m = LONG.replace("SUBJ", &"s".repeat(300));
            expect_head(r#"notify "mailto:a@b.cc";"#, &m, &[&format!("Subject: {}…", "s".repeat(256))], &[])
        }),
    ]
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop { id, quick, thorough: quick * 60, run, pinned, rule, assumptions: &["addresses and method URIs in the forms the generator writes"] };
    vec![
        mk("C18", c18 as fn(&mut Tape, &mut Report) -> CaseResult, 600_000, "a message is sent or a notification made", pins18 as fn() -> Pinned),
        mk("C19", c19, 800_000, "a message is sent or a notification made", pins19),
        mk("C20", c20, 600_000, "a message is sent or a notification made", pins20),
    ]
}
