//! C15: header edits change exactly the named header.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::mime::*;
use crate::pin::{pin, Pinned};
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use mail_parser::HeaderName;
use sieve::{Event, Runtime};

pub fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mt {
    Is,
    Contains,
    Matches,
}

impl Mt {
    pub fn name(self) -> &'static str {
        match self {
            Mt::Is => ":is",
            Mt::Contains => ":contains",
            Mt::Matches => ":matches",
        }
    }
    pub fn test(self, octet: bool, text: &str, key: &str) -> bool {
        let (t, k) = if octet { (text.to_string(), key.to_string()) } else { (low(text), low(key)) };
        match self {
            Mt::Is => t == k,
            Mt::Contains => t.contains(&k),
            Mt::Matches => glob_ascii(key, text, !octet),
        }
    }
}

#[derive(Debug, Clone)]
enum Op {
    Add { last: bool, name: String, value: String, var: bool },
    Del { name: String, index: Option<(usize, bool)>, mt: Option<Mt>, octet: bool, keys: Vec<String>, any: bool, var: bool },
    Header { name: String, mt: Mt, octet: bool, key: String, index: Option<(usize, bool)> },
    Exists(Vec<String>),
    Size { over: bool, n: usize },
    Point,
    Each(Vec<Op>),
    If(bool, Vec<Op>),
    /// On the visit of that number only.
    When(usize, Vec<Op>),
    Replace { mime: bool, subject: Option<String>, from: Option<String>, text: String },
    Enclose { subject: Option<String>, headers: Vec<String>, text: String },
    Extract { first: Option<usize>, mods: Vec<&'static str> },
    Convert { from: String, to: String, test: bool, not: bool },
}

const NAMES: &[&str] = TEXT_NAMES;
const OTHER: &[&str] = &["To", "From", "Content-Type", "Cc", "Received", "Date", "Original-From", "X-New", "X A", "Sub\u{e9}ject", "X:B", "\r\nX-Inj: y\r\n", "::", "", "Content-Transfer-Encoding", "Message-ID"];

struct Known {
    names: Vec<String>,
    texts: Vec<String>,
    size: usize,
}

fn key(t: &mut Tape, k: &Known, mt: Mt) -> String {
    let mut s = if !k.texts.is_empty() && t.chance(3, 4) { t.pick(&k.texts).clone() } else { t.string_of(&["a", "hello", " ", "World", "42", "*", "x"], 4) };
    let cs: Vec<char> = s.chars().collect();
    match mt {
        Mt::Contains => {
            let a = t.n(cs.len() + 1);
            let b = a + t.n(cs.len() - a + 1);
            s = cs[a..b].iter().collect();
        }
        Mt::Matches => {
            s = String::new();
            let mut i = 0;
            while i < cs.len() {
                match t.n(6) {
                    0 => {
                        s.push('*');
                        i += t.n(cs.len() - i + 1);
                    }
                    1 => {
                        s.push('?');
                        i += 1;
                    }
                    _ => {
                        s.push(cs[i]);
                        i += 1;
                    }
                }
            }
            if t.chance(1, 4) {
                s.push('*');
            }
            if s.ends_with('\\') {
                s.pop();
            }
            // keep the pattern small for the reference matcher
            while s.matches('*').count() > 6 {
                s = s.replacen('*', "", 1);
            }
        }
        Mt::Is => (),
    }
    if t.chance(1, 5) {
        s = s.to_ascii_uppercase();
    }
    s
}

fn name(t: &mut Tape, k: &Known) -> String {
    let n = match t.n(6) {
        0..=2 if !k.names.is_empty() => t.pick(&k.names).clone(),
        5 => t.pick(OTHER).to_string(),
        _ => t.pick(NAMES).to_string(),
    };
    random_case(t, &n)
}

fn index(t: &mut Tape) -> Option<(usize, bool)> {
    if t.chance(1, 3) {
        Some((1 + t.n(3), t.bool()))
    } else {
        None
    }
}

fn ops(t: &mut Tape, k: &Known, n: usize, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..1 + t.n(n) {
        let op = match t.n(12) {
            0..=2 => {
                let name = name(t, k);
                let ok = !name.is_empty() && name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-');
                let value = match t.n(6) {
                    0 => t.string_of(&["a", "b", "\n", "\r\n", "X: y", "\r"], 6),
                    1 => t.pick(&["é", "x", "漢"]).repeat(t.n(60)),
                    2 if !k.texts.is_empty() => t.pick(&k.texts).clone(),
                    _ => t.string_of(&["a", "hello", " b", "World", "42", ", c", ":"], 5),
                };
                let value = value.trim_matches(' ').to_string();
                Op::Add { last: t.chance(1, 3), var: !ok || t.chance(1, 3), name, value }
            }
            3..=5 => {
                let name = name(t, k);
                let ok = !name.is_empty() && name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-');
                let mt = *t.pick(&[None, Some(Mt::Is), Some(Mt::Contains), Some(Mt::Matches)]);
                let keys = if mt.is_some() || t.bool() { (0..1 + t.n(2)).map(|_| key(t, k, mt.unwrap_or(Mt::Is))).collect() } else { vec![] };
                Op::Del { var: !ok || t.chance(1, 5), name, index: index(t), mt, octet: t.chance(1, 4), keys, any: t.chance(1, 6) }
            }
            6 | 7 => {
                let mt = *t.pick(&[Mt::Is, Mt::Contains, Mt::Matches]);
                let mut n = name(t, k);
                if !n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') || n.is_empty() {
                    n = "X-A".into();
                }
                Op::Header { name: n, mt, octet: t.chance(1, 4), key: key(t, k, mt), index: index(t) }
            }
            8 => Op::Exists((0..1 + t.n(2)).map(|_| random_case(t, t_pick(NAMES, k))).collect()),
            9 => Op::Size { over: t.bool(), n: k.size },
            10 if depth > 0 => {
                if t.chance(2, 3) {
                    Op::Each(ops(t, k, 3, depth - 1))
                } else {
                    Op::If(t.bool(), ops(t, k, 2, depth - 1))
                }
            }
            _ => Op::Point,
        };
        v.push(op);
    }
    v
}

fn t_pick<'a>(names: &'a [&'a str], k: &'a Known) -> &'a str {
    // a name that is there, if any
    k.names.first().map(|s| s.as_str()).unwrap_or(names[0])
}

struct Sim<'a> {
    msg: Part,
    /// The current part.
    cur: usize,
    /// Of every loop being run: the part current before it, the parts still to come.
    frames: Vec<(usize, std::collections::VecDeque<usize>)>,
    next: usize,
    gens: usize,
    user: String,
    max_var: usize,
    counted: bool,
    visits: usize,
    src: String,
    changed: bool,
    id: usize,
    want: Vec<Want>,
    results: String,
    protected: Vec<String>,
    max_header: usize,
    rep: &'a mut Report,
    edits: usize,
}

#[derive(Debug, PartialEq)]
enum Want {
    Created(usize, Vec<u8>),
    File(String, usize),
    Keep(usize),
    /// The error at the end of the script.
    Stopped,
}

fn clean_name(n: &str) -> String {
    n.chars().filter(|c| c.is_alphanumeric() || *c == '-').collect()
}

fn cut(s: &str, max: usize) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if o.len() + c.len_utf8() > max {
            break;
        }
        o.push(c);
    }
    o
}

fn selected(fields: &[Field], name: &str, index: Option<(usize, bool)>) -> Vec<usize> {
    let all: Vec<usize> = (0..fields.len()).filter(|i| fields[*i].name.eq_ignore_ascii_case(name)).collect();
    match index {
        None => all,
        Some((n, last)) => {
            if n == 0 || n > all.len() {
                vec![]
            } else if last {
                vec![all[all.len() - n]]
            } else {
                vec![all[n - 1]]
            }
        }
    }
}

impl Sim<'_> {
    /// Executes (unless dead) and writes out the operations.  Text is written once.
    fn write(&mut self, ops: &[Op]) -> String {
        let mut s = String::new();
        for op in ops {
            s.push_str(&self.text(op));
        }
        s
    }

    fn text(&mut self, op: &Op) -> String {
        match op {
            Op::Add { last, name, value, var } => {
                let l = if *last { ":last " } else { "" };
                if *var {
                    format!("set \"n\" {}; set \"w\" {}; addheader {l}\"${{n}}\" \"${{w}}\";\n", q(name), q(value))
                } else {
                    format!("addheader {l}{} {};\n", q(name), q(value))
                }
            }
            Op::Del { name, index, mt, octet, keys, any, var } => {
                let mut a = String::new();
                if let Some((n, last)) = index {
                    a.push_str(&format!(":index {n} "));
                    if *last {
                        a.push_str(":last ");
                    }
                }
                if let Some(m) = mt {
                    a.push_str(m.name());
                    a.push(' ');
                }
                if *octet {
                    a.push_str(":comparator \"i;octet\" ");
                }
                if *any {
                    a.push_str(":mime :anychild ");
                }
                let keys = if keys.is_empty() { String::new() } else { format!(" [{}]", keys.iter().map(|k| q(k)).collect::<Vec<_>>().join(",")) };
                if *var {
                    format!("set \"n\" {}; deleteheader {a}\"${{n}}\"{keys};\n", q(name))
                } else {
                    format!("deleteheader {a}{}{keys};\n", q(name))
                }
            }
            Op::Header { name, mt, octet, key, index } => {
                let mut a = String::new();
                if let Some((n, last)) = index {
                    a.push_str(&format!(":index {n} "));
                    if *last {
                        a.push_str(":last ");
                    }
                }
                if *octet {
                    a.push_str(":comparator \"i;octet\" ");
                }
                format!("if header {a}{} {} {} {{ set \"r\" \"${{r}}1\"; }} else {{ set \"r\" \"${{r}}0\"; }}\n", mt.name(), q(name), q(key))
            }
            Op::Exists(n) => format!(
                "if exists [{}] {{ set \"r\" \"${{r}}1\"; }} else {{ set \"r\" \"${{r}}0\"; }}\n",
                n.iter().map(|k| q(k)).collect::<Vec<_>>().join(",")
            ),
            Op::Size { over, n } => format!(
                "if size {} {n} {{ set \"r\" \"${{r}}1\"; }} else {{ set \"r\" \"${{r}}0\"; }}\n",
                if *over { ":over" } else { ":under" }
            ),
            Op::Point => "fileinto :copy \"p\";\n".into(),
            Op::Each(o) => format!("foreverypart {{\n{}{}}}\n", if self.counted { "set \"i\" \"${i}x\";\n" } else { "" }, self.write(o)),
            Op::When(n, o) => format!("if string \"${{i}}\" \"{}\" {{\n{}}}\n", "x".repeat(*n), self.write(o)),
            Op::If(c, o) => format!("if {c} {{\n{}}}\n", self.write(o)),
            Op::Replace { mime, subject, from, text } => {
                let mut a = String::new();
                if *mime {
                    a.push_str(":mime ");
                }
                if let Some(s) = subject {
                    a.push_str(&format!(":subject {} ", q(s)));
                }
                if let Some(s) = from {
                    a.push_str(&format!(":from {} ", q(s)));
                }
                format!("replace {a}{};\n", q(text))
            }
            Op::Enclose { subject, headers, text } => {
                let mut a = String::new();
                if let Some(s) = subject {
                    a.push_str(&format!(":subject {} ", q(s)));
                }
                if !headers.is_empty() {
                    a.push_str(&format!(":headers [{}] ", headers.iter().map(|k| q(k)).collect::<Vec<_>>().join(",")));
                }
                format!("enclose {a}{};\n", q(text))
            }
            Op::Extract { first, mods } => {
                let f = first.map(|n| format!(":first {n} ")).unwrap_or_default();
                format!("extracttext {f}{}\"x\";\nfileinto :copy \"x${{x}}\";\n", mods.iter().map(|m| format!("{m} ")).collect::<String>())
            }
            Op::Convert { from, to, test: true, not } => {
                let n = if *not { "not " } else { "" };
                format!("if {n}convert {} {} [\"\"] {{ set \"r\" \"${{r}}1\"; }} else {{ set \"r\" \"${{r}}0\"; }}\n", q(from), q(to))
            }
            Op::Convert { from, to, .. } => format!("convert {} {} [\"\"];\n", q(from), q(to)),
        }
    }

    fn created(&mut self) {
        if self.changed {
            self.changed = false;
            self.id += 1;
            self.want.push(Want::Created(self.id, self.msg.render()));
        }
    }

    fn run(&mut self, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Add { last, name, value, var: _ } => {
                    let name = cut(&clean_name(name), self.max_header);
                    if name.is_empty() {
                        continue;
                    }
                    if self.protected.iter().any(|p| p.eq_ignore_ascii_case(&name)) {
                        self.rep.label("protected");
                        continue;
                    }
                    let value = cut(&value.replace(['\r', '\n'], ""), self.max_header);
                    let Some(written) = HeaderName::parse(name.clone()).map(|h| h.as_str().to_string()) else {
                        continue;
                    };
                    let f = Field { raw: format!("{written}: {value}\r\n").into_bytes(), name, text: value, kind: Kind::Text, added: true };
                    let at = self.at();
                    let fields = &mut self.msg.nth(at).unwrap().fields;
                    if *last {
                        fields.push(f);
                    } else {
                        fields.insert(0, f);
                    }
                    self.changed = true;
                    self.edits += 1;
                    self.rep.label(if at > 0 { "added to a part" } else { "added" });
                }
                Op::Del { name, index, mt, octet, keys, any, var: _ } => {
                    if self.protected.iter().any(|p| p.eq_ignore_ascii_case(name)) {
                        self.rep.label("protected");
                        continue;
                    }
                    let at = self.at();
                    let n = if *any { self.msg.get(at).unwrap().count() } else { 1 };
                    for p in at..at + n {
                        let part = self.msg.nth(p).unwrap();
                        let del: Vec<usize> = selected(&part.fields, name, *index)
                            .into_iter()
                            .filter(|i| keys.is_empty() || keys.iter().any(|k| mt.unwrap_or(Mt::Is).test(*octet, &part.fields[*i].text, k)))
                            .collect();
                        for i in del.iter().rev() {
                            part.fields.remove(*i);
                        }
                        if !del.is_empty() {
                            self.changed = true;
                            self.edits += 1;
                            self.rep.label(if p > 0 { "deleted from a part" } else { "deleted" });
                            self.rep.label_if(index.is_some(), "deleted by index");
                            self.rep.label_if(!keys.is_empty(), "deleted by value");
                        } else {
                            self.rep.label("nothing to delete");
                        }
                    }
                }
                Op::Header { name, mt, octet, key, index } => {
                    let part = self.msg.get(self.at()).unwrap();
                    let sel = selected(&part.fields, name, *index);
                    if sel.iter().any(|i| part.fields[*i].text.contains('\0')) {
                        self.results.push('?');
                        continue;
                    }
                    let r = sel.into_iter().any(|i| mt.test(*octet, &part.fields[i].text, key));
                    self.results.push(if r { '1' } else { '0' });
                    self.rep.label(if r { "header found" } else { "header not found" });
                }
                Op::Exists(n) => {
                    let part = self.msg.get(self.at()).unwrap();
                    let r = n.iter().all(|n| part.values(n).next().is_some());
                    self.results.push(if r { '1' } else { '0' });
                }
                Op::Size { over, n } => {
                    let len = self.msg.render().len();
                    if self.gens > 0 {
                        self.results.push('?');
                        continue;
                    }
                    let r = if *over { len > *n } else { len < *n };
                    self.results.push(if r { '1' } else { '0' });
                }
                Op::Point => {
                    self.created();
                    self.want.push(Want::File("p".into(), self.id));
                }
                Op::If(c, o) => {
                    if *c {
                        self.run(o);
                    }
                }
                Op::When(n, o) => {
                    if self.visits == *n {
                        self.rep.label("edit on one visit");
                        self.run(o);
                    }
                }
                Op::Each(o) => {
                    let at = self.at();
                    let n = self.msg.get(at).unwrap().count();
                    let parts = if self.frames.is_empty() { 0..self.msg.count() } else { at + 1..at + n };
                    let parts = parts.map(|i| self.msg.get(i).unwrap().uid).collect();
                    self.frames.push((self.cur, parts));
                    while let Some(p) = self.frames.last_mut().unwrap().1.pop_front() {
                        if self.msg.index_of(p).is_some() {
                            self.cur = p;
                            self.visits = (self.visits + 1).min(self.max_var);
                            self.run(o);
                        }
                    }
                    self.cur = self.frames.pop().unwrap().0;
                }
                Op::Replace { mime, subject, from, text } => {
                    let at = self.at();
                    let date = self.gen('D');
                    let id = self.gen('M');
                    let (user, max) = (self.user.clone(), self.max_header);
                    let part = self.msg.nth(at).unwrap();
                    let multi = part.count() > 1;
                    let mut fields = vec![];
                    if at == 0 {
                        for mut f in std::mem::take(&mut part.fields) {
                            let to = match f.name.to_ascii_lowercase().as_str() {
                                "subject" if subject.is_some() => "Original-Subject",
                                "from" if from.is_some() => "Original-From",
                                "subject" | "from" | "to" | "cc" | "bcc" | "received" | "date" => "",
                                _ => continue,
                            };
                            if !to.is_empty() {
                                let rest = f.raw[f.name.len()..].to_vec();
                                f.raw = to.as_bytes().to_vec();
                                f.raw.extend(rest);
                                f.name = to.into();
                            }
                            fields.push(f);
                        }
                        let dated = fields.iter().any(|f| f.name.eq_ignore_ascii_case("date"));
                        match from {
                            Some(f) if !f.is_empty() => fields.push(made("From", &clean(f, max))),
                            _ => fields.push(made("From", &user)),
                        }
                        if let Some(s) = subject {
                            if !s.is_empty() {
                                fields.push(made("Subject", &clean(s, max)));
                            }
                        }
                        if !dated {
                            fields.push(made("Date", &date));
                        }
                        fields.push(made("Message-ID", &id));
                    }
                    if !*mime {
                        fields.push(made("Content-Type", "text/plain; charset=utf-8"));
                    }
                    part.fields = fields;
                    part.nl = "\r\n";
                    part.ctype = ("text".into(), "plain".into());
                    part.body = if *mime { Body::Raw(text.clone()) } else { Body::Leaf { raw: text.clone().into_bytes(), decoded: vec![], text: Some(text.clone()) } };
                    if at > 0 {
                        self.gens -= 2;
                    }
                    self.changed = true;
                    self.edits += 1;
                    self.rep.label(match (at, multi) {
                        (0, _) => "message replaced",
                        (_, true) => "multipart replaced",
                        _ => "part replaced",
                    });
                    self.rep.label_if(self.next > 1000, "edit after enclose");
                    if self.msg.index_of(self.cur).is_none() {
                        self.cur = self.msg.uid;
                    }
                    let (msg, root) = (&self.msg, self.msg.uid);
                    for f in &mut self.frames {
                        if msg.index_of(f.0).is_none() {
                            f.0 = root;
                        }
                    }
                }
                Op::Enclose { subject, headers, text } => {
                    let old = self.msg.clone();
                    let (b, date, id) = (self.gen('B'), self.gen('D'), self.gen('M'));
                    let max = self.max_header;
                    let subject = match subject {
                        Some(s) => s.clone(),
                        None => old.values("Subject").next_back().map(|f| f.text.clone()).unwrap_or_default(),
                    };
                    let mut fields = vec![made("Content-Type", &format!("multipart/mixed; boundary=\"{b}\"")), made("Subject", &clean(&subject, max))];
                    let mut have = vec![];
                    for h in headers {
                        let Some((n, v)) = h.split_once(':') else { continue };
                        let (n, v) = (n.trim(), v.trim());
                        if v.is_empty() || n.chars().any(|c| c.is_whitespace() || c.is_control()) {
                            continue;
                        }
                        let Some(n) = HeaderName::parse(n.to_string()).map(|h| h.as_str().to_string()) else { continue };
                        let l = n.to_ascii_lowercase();
                        if ["content-type", "content-transfer-encoding"].contains(&l.as_str()) || self.protected.iter().any(|p| p.eq_ignore_ascii_case(&n)) {
                            self.rep.label("header refused by enclose");
                            continue;
                        }
                        fields.push(made(&n, &clean(v, max)));
                        have.push(l);
                    }
                    for (n, v) in [("From", self.user.clone()), ("Date", date), ("Message-ID", id)] {
                        if !have.contains(&n.to_ascii_lowercase()) {
                            fields.push(made(n, &v));
                        }
                    }
                    self.next += 1000;
                    let mk = |uid, ctype: (&str, &str), fields, body| Part { ctype: (ctype.0.into(), ctype.1.into()), fields, body, nl: "\r\n", uid };
                    let one = mk(self.next + 1, ("text", "plain"), vec![made("Content-Type", "text/plain; charset=utf-8")], Body::Leaf { raw: text.clone().into_bytes(), decoded: vec![], text: Some(text.clone()) });
                    let two = mk(self.next + 2, ("message", "rfc822"), vec![made("Content-Type", "message/rfc822")], Body::Msg(Box::new(old)));
                    self.msg = mk(self.next + 3, ("multipart", "mixed"), fields, Body::Enclosed { boundary: b, kids: vec![one, two] });
                    self.cur = self.msg.uid;
                    for f in &mut self.frames {
                        *f = (self.msg.uid, Default::default());
                    }
                    self.changed = true;
                    self.edits += 1;
                    self.rep.label(if self.next > 2000 { "enclosed again" } else if self.frames.is_empty() { "enclosed" } else { "enclosed in a loop" });
                }
                Op::Extract { first, mods } => {
                    let part = self.msg.get(self.at()).unwrap();
                    let mut v = match &part.body {
                        Body::Leaf { text: Some(s), .. } if part.ctype.1 == "html" => mail_parser::decoders::html::html_to_text(s),
                        Body::Leaf { text: Some(s), .. } => s.clone(),
                        Body::Raw(s) => s.clone(),
                        _ => String::new(),
                    };
                    if self.frames.is_empty() {
                        v = String::new();
                    }
                    if let Some(n) = first {
                        v = v.chars().take(*n).collect();
                    }
                    if !v.is_empty() {
                        for (m, f) in [(":lower", (|v| v.to_lowercase()) as fn(String) -> String), (":upper", |v| v.to_uppercase()), (":length", |v| v.chars().count().to_string())] {
                            if mods.contains(&m) {
                                v = f(v);
                            }
                        }
                        self.edits += 1;
                        self.rep.label("text extracted");
                    }
                    self.rep.label_if(v.len() > self.max_var, "text cut");
                    let v = cut(&v, self.max_var);
                    self.created();
                    self.want.push(Want::File(format!("x{v}"), self.id));
                }
                Op::Convert { from, to, test, not } => {
                    let (f, t) = (from.to_ascii_lowercase(), to.to_ascii_lowercase());
                    let html = f == "text/html";
                    let mut any = false;
                    if f != t && (html && t == "text/plain" || !html && t == "text/html" && (f == "text" || f.starts_with("text/"))) {
                        for i in 0..self.msg.count() {
                            let p = self.msg.nth(i).unwrap();
                            let Some(s) = (match &p.body {
                                Body::Leaf { text, .. } => text.clone(),
                                Body::Raw(t) => Some(t.clone()),
                                _ => None,
                            }) else {
                                continue;
                            };
                            let is_html = p.ctype.1 == "html";
                            if is_html != html || (!html && f != "text" && f[5..] != *p.ctype.1) {
                                continue;
                            }
                            let s = if html { mail_parser::decoders::html::html_to_text(&s) } else { mail_parser::decoders::html::text_to_html(&s) };
                            if i == 0 {
                                p.fields.retain(|f| !f.name.eq_ignore_ascii_case("content-type") && !f.name.eq_ignore_ascii_case("content-transfer-encoding"));
                            } else {
                                p.fields.clear();
                            }
                            let sub = if html { "plain" } else { "html" };
                            p.fields.push(made("Content-Type", &format!("text/{sub}; charset=utf8")));
                            p.ctype = ("text".into(), sub.into());
                            p.nl = "\r\n";
                            p.body = Body::Leaf { raw: s.clone().into_bytes(), decoded: vec![], text: Some(s) };
                            any = true;
                        }
                    }
                    if any {
                        self.changed = true;
                        self.edits += 1;
                    }
                    self.rep.label(if any { "converted" } else { "nothing to convert" });
                    if *test {
                        self.results.push(if any != *not { '1' } else { '0' });
                    }
                }
            }
        }
    }

    fn at(&self) -> usize {
        self.msg.index_of(self.cur).unwrap()
    }

    /// Stands for a value the interpreter makes up.
    fn gen(&mut self, kind: char) -> String {
        self.gens += 1;
        format!("\0{kind}{}\0", self.gens)
    }
}

fn made(name: &str, value: &str) -> Field {
    Field { name: name.to_string(), raw: format!("{name}: {value}\r\n").into_bytes(), text: value.to_string(), kind: Kind::Text, added: true }
}

fn clean(s: &str, max: usize) -> String {
    cut(&s.replace(['\r', '\n'], ""), max)
}

pub fn c15(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let o = Opts { depth: t.n(3), rfc822: true, names: NAMES, leaf_only: false };
    let mut msg = message(t, &o);
    msg.number(&mut 0);
    let root = msg.uid;
    let raw = msg.render();
    let mut k = Known { names: vec![], texts: vec![], size: raw.len() };
    for i in 0..msg.count() {
        for f in &msg.get(i).unwrap().fields {
            k.names.push(f.name.clone());
            k.texts.push(f.text.clone());
        }
    }
    let mut list = ops(t, &k, 8, 2);
    sizes(t, &mut list, raw.len());
    let max_header = if t.chance(1, 5) { 3 + t.n(40) } else { 1024 };
    let mut protected = vec!["Original-Subject".to_string(), "Original-From".to_string()];
    let mut rt: Runtime = full_runtime().with_local_hostname("mx.example.net").either_max_header_size(max_header);
    match t.n(4) {
        0 => {
            protected.push("X-Prot".into());
            rt.set_protected_header("x-prot");
        }
        1 => {
            protected = vec!["subject".into(), "X-B".into()];
            rt = rt.with_protected_headers(["subject", "X-B"]);
        }
        _ => (),
    }
    let mut sim = Sim { msg, cur: root, frames: vec![], next: 0, gens: 0, user: String::new(), max_var: 4096, counted: false, visits: 0, src: String::new(), changed: false, id: 0, want: vec![], results: String::new(), protected, max_header, rep, edits: 0 };
    ending(t, &mut sim, &list);
    let Sim { src, want, edits, results, .. } = sim;
    rep.nontrivial_if(edits > 0);
    rep.label_if(!results.is_empty(), "tests after edits");
    rep.desc = format!("{}\n--- message\n{}\n--- max header size {max_header}", src.replace(ALL_CAPS, ""), String::from_utf8_lossy(&raw));
    let c = full_compiler();
    let s = compile(&c, &src)?;
    let mut ctx = rt.filter(&raw);
    let tr = drive(&mut ctx, s, &mut Host::new());
    let made = tr.items.iter().any(|i| matches!(i, Item::Ev(Event::CreatedMessage { .. })));
    if ctx.has_message_changed() != made {
        return fail("changed", format!("has_message_changed is {}, with {} new message", !made, if made { "a" } else { "no" }));
    }
    let mut got = vec![];
    for i in tr.items {
        match i {
            Item::Ev(Event::CreatedMessage { message_id, message }) => got.push(Want::Created(message_id, message)),
            Item::Ev(Event::FileInto { folder, message_id, .. }) => got.push(Want::File(folder, message_id)),
            Item::Ev(Event::Keep { message_id, .. }) => got.push(Want::Keep(message_id)),
            Item::Err(e) if e.contains("the end") => got.push(Want::Stopped),
            i => return fail("events", format!("unexpected {i:?}")),
        }
    }
    compare(&want, &got)
}

/// The script around the operations and how it ends: files what the tests said, keeps at the start or
/// at the end, or stops with an error.  The message as last edited is the one kept in all cases.
fn ending(t: &mut Tape, sim: &mut Sim, list: &[Op]) {
    let body = sim.write(list);
    let keep = t.chance(1, 5);
    let file = !t.chance(1, 4);
    let error = t.chance(1, 6);
    sim.src = format!(
        "{ALL_CAPS}global [\"r\", \"i\"];\n{}{body}{}{}",
        if keep { "keep;\n" } else { "" },
        if file { "fileinto :copy \"r${r}\";\n" } else { "" },
        if error { "error \"the end\";\n" } else { "" }
    );
    sim.run(list);
    // a keep holds the message as it was then, unless the latest version has not been handed out yet
    let mut id = 0;
    if file {
        sim.created();
        id = sim.id;
        sim.want.push(Want::File(format!("r{}", sim.results), id));
    }
    if error {
        sim.want.push(Want::Stopped);
    }
    if sim.changed {
        sim.created();
        id = sim.id;
    } else if keep {
        id = 0;
    } else if !file {
        id = sim.id;
    }
    sim.want.push(Want::Keep(id));
}

/// Matches what the interpreter wrote against a text with made-up values in it.
fn template(tpl: &[u8], got: &[u8], caps: &mut std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> CaseResult {
    let (mut i, mut j) = (0, 0);
    while i < tpl.len() {
        if tpl[i] == 0 {
            let e = i + 1 + tpl[i + 1..].iter().position(|c| *c == 0).unwrap();
            let id = tpl[i + 1..e].to_vec();
            let stop: &[u8] = if id[0] == b'B' && !caps.contains_key(&id) { b"\"" } else { b"\r\n" };
            let val = match caps.get(&id) {
                Some(v) => v.clone(),
                None => {
                    let n = got[j..].windows(stop.len()).position(|w| w == stop).unwrap_or(got.len() - j);
                    let v = got[j..j + n].to_vec();
                    let s = String::from_utf8_lossy(&v).to_string();
                    match id[0] {
                        b'D' => {
                            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
                            match mail_parser::DateTime::parse_rfc822(&s) {
                                Some(d) if (d.to_timestamp() - now).abs() < 300 => (),
                                _ => return fail("date", format!("generated date {s}")),
                            }
                        }
                        b'M' => {
                            if !(s.starts_with('<') && s.ends_with("@mx.example.net>") && s.len() > 14 && !s.contains(char::is_whitespace)) {
                                return fail("message-id", format!("generated id {s}"));
                            }
                        }
                        _ => {
                            if s.len() < 8 || s.len() > 70 || !s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'.') || caps.values().any(|o| *o == v) {
                                return fail("boundary", format!("generated boundary {s}"));
                            }
                        }
                    }
                    caps.insert(id, v.clone());
                    v
                }
            };
            if !got[j..].starts_with(&val) {
                return fail("message", format!("at {j}: expected {:?}", String::from_utf8_lossy(&val)));
            }
            j += val.len();
            i = e + 1;
        } else {
            if got.get(j) != Some(&tpl[i]) {
                return fail("message", format!("differs from octet {j}: {:?}", String::from_utf8_lossy(&got[j.min(got.len())..])));
            }
            i += 1;
            j += 1;
        }
    }
    if j < got.len() {
        return fail("message", format!("goes on after octet {j}: {:?}", String::from_utf8_lossy(&got[j..])));
    }
    Ok(())
}

fn compare(want: &[Want], got: &[Want]) -> CaseResult {
    let mut caps = Default::default();
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        match (w, g) {
            (Some(Want::Created(a, w)), Some(Want::Created(b, g))) if a == b => {
                if let Err(f) = template(w, g, &mut caps) {
                    return fail(&f.class, format!("event {i}: {}\nexpected message\n{:?}\nis\n{:?}", f.message, String::from_utf8_lossy(w), String::from_utf8_lossy(g)));
                }
            }
            (Some(Want::File(a, n)), Some(Want::File(b, m))) if a.starts_with('r') && n == m => {
                if a.len() != b.len() || a.chars().zip(b.chars()).any(|(a, b)| a != b && a != '?') {
                    return fail("tests", format!("event {i}: results expected {a} are {b}"));
                }
            }
            _ if w == g => (),
            _ => return fail("events", format!("event {i}: expected {w:?}, is {g:?}")),
        }
    }
    Ok(())
}

/// Text a part is replaced with.
fn new_text(t: &mut Tape) -> String {
    match t.n(8) {
        0 => String::new(),
        1 => t.string_of(&["Content-Type: text/html\r\n\r\n", "<p>x</p>", "\r\n", "a", "é"], 5),
        2 => t.pick(&["漢字", "x", "é "]).repeat(t.n(200)),
        _ => t.string_of(&["new", " text", "\r\n", "\n", "é", "<b>", "&amp;", "X: y", "WORD", ".", "  ", "=20"], 8),
    }
}

fn new_line(t: &mut Tape) -> String {
    match t.n(6) {
        0 => String::new(),
        1 => t.pick(&["a", "é"]).repeat(t.n(80)),
        _ => t.string_of(&["Sub", "ject", " ", "é", "\r\n", "\n", "X: y", "me@x.org", "<a@b.c>"], 5),
    }
}

fn ops22(t: &mut Tape, k: &Known, n: usize, depth: usize, tests: bool) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..1 + t.n(n) {
        let op = match t.n(18) {
            0..=2 => Op::Replace { mime: t.chance(1, 4), subject: t.chance(1, 2).then(|| new_line(t)), from: t.chance(1, 2).then(|| new_line(t)), text: new_text(t) },
            3 | 4 => {
                let headers = (0..t.n(4))
                    .map(|_| {
                        let n = match t.n(8) {
                            0 => t.pick(&["From", "Date", "Message-ID", "from", "message-id", "Content-Type", "content-transfer-encoding"]).to_string(),
                            1 => t.pick(&["Original-Subject", "X-Prot", "X A", "", " X-Sp ", "Sub\rject", "To", "x-b"]).to_string(),
                            _ => name(t, k),
                        };
                        let sep = *t.pick(&[": ", ":", " : ", ": \r\n ", ":", ""]);
                        format!("{n}{sep}{}", new_line(t))
                    })
                    .collect();
                Op::Enclose { subject: t.bool().then(|| new_line(t)), headers, text: new_text(t) }
            }
            5..=7 => Op::Extract { first: t.bool().then(|| t.n(30)), mods: [":lower", ":upper", ":length"].into_iter().filter(|_| t.chance(1, 4)).collect::<Vec<_>>() },
            8 | 9 => {
                let from = *t.pick(&["text/plain", "text/html", "text", "TEXT/PLAIN", "Text/Html", "text/x", "image/png", "text/", "texte", "té"]);
                let to = *t.pick(&["text/html", "text/plain", "text/html", "text/plain", "Text/HTML", "text", "image/png", ""]);
                Op::Convert { from: from.into(), to: to.into(), test: tests && t.bool(), not: t.chance(1, 4) }
            }
            10 | 11 => Op::Point,
            12 | 13 if depth > 0 => {
                if t.chance(2, 3) {
                    Op::When(1 + t.n(6), ops22(t, k, 2, depth, tests))
                } else {
                    Op::If(t.bool(), ops22(t, k, 2, depth - 1, tests))
                }
            }
            14..=16 if depth > 0 => {
                let mut o = ops22(t, k, 3, depth - 1, tests);
                if t.chance(2, 3) {
                    o = vec![Op::When(1 + t.n(6), o)];
                    if t.bool() {
                        o.push(Op::When(1 + t.n(6), ops22(t, k, 2, depth - 1, tests)));
                    }
                }
                Op::Each(o)
            }
            _ => match ops(t, k, 1, 0).pop().unwrap() {
                Op::Header { .. } | Op::Exists(..) | Op::Size { .. } if !tests => Op::Point,
                Op::Add { var: true, .. } | Op::Del { var: true, .. } if !tests => Op::Point,
                Op::Del { name, .. } | Op::Add { name, .. } if ["content-type", "content-transfer-encoding"].contains(&clean_name(&name).to_ascii_lowercase().as_str()) => Op::Point,
                Op::Del { name, keys, .. } if !keys.is_empty() && ["date", "message-id"].contains(&name.to_ascii_lowercase().as_str()) => Op::Point,
                o => o,
            },
        };
        v.push(op);
    }
    v
}

pub fn c22(t: &mut Tape, rep: &mut Report) -> CaseResult {
    const N22: &[&str] = &["Subject", "From", "To", "Cc", "X-A", "subject", "X-B", "Received", "Comments", "X-Prot", "Bcc"];
    let o = Opts { depth: *t.pick(&[2, 1, 0, 2]), rfc822: true, names: N22, leaf_only: false };
    let mut msg = message(t, &o);
    for _ in 0..6 {
        if msg.count() == 1 && o.depth > 0 {
            msg = message(t, &o);
        }
    }
    msg.number(&mut 0);
    let root = msg.uid;
    let raw = msg.render();
    let mut k = Known { names: vec![], texts: vec![], size: raw.len() };
    for i in 0..msg.count() {
        for f in &msg.get(i).unwrap().fields {
            k.names.push(f.name.clone());
            k.texts.push(f.text.clone());
        }
    }
    let max_var = if t.chance(1, 6) { 4 + t.n(40) } else { 4096 };
    let mut list = vec![];
    for _ in 0..t.n(3) {
        let mut o = ops22(t, &k, 2, 1, max_var == 4096);
        if t.chance(4, 5) {
            o = vec![Op::When(1 + t.n(msg.count() + 1), o)];
        }
        list.push(Op::Each(o));
    }
    list.extend(ops22(t, &k, 4, 2, max_var == 4096));
    sizes(t, &mut list, raw.len());
    let max_header = if t.chance(1, 5) { 10 + t.n(40) } else { 1024 };
    let mut protected = vec!["Original-Subject".to_string(), "Original-From".to_string()];
    let mut rt: Runtime = full_runtime().with_local_hostname("mx.example.net").either_max_header_size(max_header).either_max_variable_size(max_var);
    if t.bool() {
        protected.push("X-Prot".into());
        rt = rt.with_protected_header("x-prot");
    }
    let addr = *t.pick(&["me@example.org", ""]);
    let full = *t.pick(&["", "Me Myself", "Jörg"]);
    let user = if full.is_empty() { addr.to_string() } else { format!("\"{full}\" <{addr}>") };
    let orig = msg.clone();
    let mut sim = Sim { msg, cur: root, frames: vec![], next: 0, gens: 0, user, max_var, counted: true, visits: 0, src: String::new(), changed: false, id: 0, want: vec![], results: String::new(), protected, max_header, rep, edits: 0 };
    ending(t, &mut sim, &list);
    let Sim { src, want, edits, results, msg, .. } = sim;
    rep.nontrivial_if(edits > 0);
    rep.label_if(!results.is_empty(), "tests after edits");
    rep.desc = format!("{}\n--- message\n{}\n--- max header size {max_header}, max variable size {max_var}, user {full:?} {addr:?}", src.replace(ALL_CAPS, ""), String::from_utf8_lossy(&raw));
    let c = full_compiler();
    let s = compile(&c, &src)?;
    let mut ctx = rt.filter(&raw).with_user_address(addr).with_user_full_name(full);
    let tr = drive(&mut ctx, s, &mut Host::new());
    let made = tr.items.iter().any(|i| matches!(i, Item::Ev(Event::CreatedMessage { .. })));
    if ctx.has_message_changed() != made {
        return fail("changed", format!("has_message_changed is {}, with {} new message", !made, if made { "a" } else { "no" }));
    }
    let mut got = vec![];
    for i in tr.items {
        match i {
            Item::Ev(Event::CreatedMessage { message_id, message }) => got.push(Want::Created(message_id, message)),
            Item::Ev(Event::FileInto { folder, message_id, .. }) => got.push(Want::File(folder, message_id)),
            Item::Ev(Event::Keep { message_id, .. }) => got.push(Want::Keep(message_id)),
            Item::Err(e) if e.contains("the end") => got.push(Want::Stopped),
            i => return fail("events", format!("unexpected {i:?}")),
        }
    }
    compare(&want, &got)?;
    // the last version, parsed, has the parts it should have
    let last = got.iter().rev().find_map(|g| if let Want::Created(_, m) = g { Some(m.as_slice()) } else { None });
    if let Some(m) = last {
        if !parser_panics(m) && shape_known(&orig) && shape_known(&msg) {
            let a = shape(&msg);
            let b = mail_parser::MessageParser::new().parse(m).map(|m| parsed_shape(&m, 0)).unwrap_or_default();
            rep.label("reparsed");
            if a != b {
                return fail("tree", format!("expected the tree {a}, parsed {b} from {:?}", String::from_utf8_lossy(m)));
            }
        }
    }
    Ok(())
}

/// Texts written by the edits may look like anything: only trees without such texts are compared.
fn shape_known(p: &Part) -> bool {
    let mut ok = true;
    for i in 0..p.count() {
        match &p.get(i).unwrap().body {
            Body::Raw(_) => ok = false,
            Body::Msg(m) => ok = ok && shape_known(m),
            Body::Leaf { raw, .. } => ok = ok && !String::from_utf8_lossy(raw).contains("--"),
            _ => (),
        }
    }
    ok
}

fn shape(p: &Part) -> String {
    match &p.body {
        Body::Multi { kids, .. } | Body::Enclosed { kids, .. } => format!("({})", kids.iter().map(shape).collect::<String>()),
        Body::Msg(m) => format!("[{}]", shape(m)),
        Body::Leaf { .. } if p.ctype.0 == "text" && p.ctype.1 == "html" => "h".into(),
        Body::Leaf { .. } if p.ctype.0 == "text" => "t".into(),
        _ => "x".into(),
    }
}

fn parsed_shape(m: &mail_parser::Message, part: usize) -> String {
    use mail_parser::PartType;
    match m.parts.get(part).map(|p| &p.body) {
        Some(PartType::Multipart(kids)) => format!("({})", kids.iter().map(|k| parsed_shape(m, *k as usize)).collect::<String>()),
        Some(PartType::Message(m)) => format!("[{}]", parsed_shape(m, 0)),
        Some(PartType::Html(_)) => "h".into(),
        Some(PartType::Text(_)) => "t".into(),
        _ => "x".into(),
    }
}

/// Replaces the sizes of size tests by sizes near the real one.
fn sizes(t: &mut Tape, ops: &mut [Op], size: usize) {
    for op in ops {
        match op {
            Op::Size { n, .. } => *n = (size + t.n(120)).saturating_sub(60),
            Op::Each(o) | Op::If(_, o) | Op::When(_, o) => sizes(t, o, size),
            _ => (),
        }
    }
}

fn pins15() -> Pinned {
    vec![pin("junk-header-lines", || {
        let got = crate::pin::events(|r| r, "addheader \"X-A\" \"1\"; keep;", "Subject: s\r\njunk\r\nTo: a@b.c\r\n\r\nb\r\n")?;
        if got.iter().any(|e| e.contains("Subject: s\\r\\njunk\\r\\nTo")) {
            Ok(())
        } else if got.iter().any(|e| e.contains("Subject: s\\r\\nTo")) {
            fail("junk-header-lines", "lines of the header section that are no fields are lost by an edit")
        } else {
            fail("events", format!("{got:?}"))
        }
    }),
    pin("line-ending", || {
        crate::pin::expect(
            "addheader \"X-A\" \"1\"; keep;",
            "Subject: s\n\nb\n",
            &["CreatedMessage 1 \"X-A: 1\\r\\nSubject: s\\n\\nb\\n\"", "Keep [] #1"],
        )
    })]
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop {
        id,
        quick,
        thorough: quick * 60,
        run,
        pinned,
        rule,
        assumptions: &["header sections made of header fields", "fold before a single space"],
    };
    vec![mk("C15", c15 as fn(&mut Tape, &mut Report) -> CaseResult, 1_200_000, "at least one edit has an effect", pins15 as fn() -> Pinned), mk("C22", c22, 500_000, "at least one edit has an effect", || vec![])]
}
