//! Arbitrary scripts over the whole language (all commands, tests and arguments), as a small tree
//! that can be rendered in different layouts, together with the extensions every piece needs;
//! arbitrary MIME messages; arbitrary runtime configurations.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::props::c13;
use crate::tape::Tape;
use sieve::{runtime::Variable, Compiler, Context, Envelope, Runtime, SpamStatus, VirusStatus};
use std::collections::BTreeSet;

pub type Caps = BTreeSet<&'static str>;

#[derive(Clone, Debug)]
pub enum A {
    S(String),
    /// a list of strings
    L(Vec<String>),
    /// a number or an other bare word
    N(String),
}

#[derive(Clone, Debug)]
pub struct Tag {
    pub name: &'static str,
    pub args: Vec<A>,
    pub cap: Option<&'static str>,
}

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub name: String,
    pub cap: Vec<&'static str>,
    pub tags: Vec<Tag>,
    /// the tags may be given in any order
    pub free: bool,
    pub pos: Vec<A>,
    pub tests: Vec<Node>,
    pub paren: bool,
    pub block: Option<Vec<Node>>,
}

impl Node {
    pub fn new(name: &str) -> Self {
        Node { name: name.into(), free: true, ..Default::default() }
    }
    pub fn cap(mut self, c: &'static str) -> Self {
        self.cap.push(c);
        self
    }
    pub fn tag(mut self, name: &'static str) -> Self {
        self.tags.push(Tag { name, args: vec![], cap: None });
        self
    }
    pub fn tagc(mut self, name: &'static str, cap: &'static str) -> Self {
        self.tags.push(Tag { name, args: vec![], cap: Some(cap) });
        self
    }
    pub fn tagv(mut self, name: &'static str, args: Vec<A>, cap: Option<&'static str>) -> Self {
        self.tags.push(Tag { name, args, cap });
        self
    }
    pub fn s(mut self, s: impl Into<String>) -> Self {
        self.pos.push(A::S(s.into()));
        self
    }
    pub fn l(mut self, l: Vec<String>) -> Self {
        self.pos.push(A::L(l));
        self
    }
    pub fn n(mut self, n: impl ToString) -> Self {
        self.pos.push(A::N(n.to_string()));
        self
    }
    pub fn caps(&self, out: &mut Caps) {
        out.extend(self.cap.iter());
        out.extend(self.tags.iter().filter_map(|t| t.cap));
        for n in &self.tests {
            n.caps(out);
        }
        for n in self.block.iter().flatten() {
            n.caps(out);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.tests.iter().map(Node::count).sum::<usize>() + self.block.iter().flatten().map(Node::count).sum::<usize>()
    }
}

// ------------------------------------------------------------------ rendering

pub fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// A layout of the same script: every choice below leaves the meaning alone.
pub struct Layout<'a> {
    pub t: Option<&'a mut Tape>,
    pub nl: &'static str,
}

impl Layout<'_> {
    pub fn plain() -> Layout<'static> {
        Layout { t: None, nl: "\r\n" }
    }
    fn chance(&mut self, a: u64, b: u64) -> bool {
        self.t.as_mut().is_some_and(|t| t.chance(a, b))
    }
    fn n(&mut self, k: usize) -> usize {
        self.t.as_mut().map_or(0, |t| t.n(k))
    }
    /// something between two tokens; `need` when they may not touch
    fn sep(&mut self, need: bool, out: &mut String) {
        if self.t.is_none() {
            if need {
                out.push(' ');
            }
            return;
        }
        let mut done = false;
        loop {
            match self.n(12) {
                0..=4 => out.push(' '),
                5 => out.push('\t'),
                6 => out.push_str(self.nl),
                7 => {
                    let k = self.n(9);
                    out.push_str(["/**/", "/* \" ; */", "/* text: */", "/***/", "/* a */", "/* *//**/", "/*/ keep; */", "/*/*/", "/* # // \\*/"][k])
                }
                8 => {
                    let k = self.n(4);
                    out.push_str(["# \"", "#", "# /*", "# keep; {"][k]);
                    out.push_str(self.nl);
                }
                9 if !need => (),
                _ => {
                    out.push_str("  ");
                }
            }
            done |= self.n(3) < 2;
            if done {
                break;
            }
        }
    }
    fn word(&mut self, w: &str) -> String {
        match self.n(4) {
            0 | 1 => w.to_string(),
            2 => w.to_ascii_uppercase(),
            _ => {
                let mut s = String::new();
                for c in w.chars() {
                    s.push(if self.n(2) == 0 { c } else { c.to_ascii_uppercase() });
                }
                s
            }
        }
    }
    fn string(&mut self, s: &str, out: &mut String) {
        // a multi-line literal always ends in a line break, and its lines keep their line endings
        let multiline_ok = s.ends_with("\r\n") && !s.contains('\0');
        if multiline_ok && self.chance(1, 2) {
            out.push_str(&self.word("text:"));
            out.push_str("\r\n");
            for line in s.split_inclusive("\r\n") {
                if line.starts_with('.') {
                    out.push('.');
                }
                out.push_str(line);
            }
            out.push_str(".\r\n");
        } else {
            out.push_str(&quote(s));
        }
    }
    fn arg(&mut self, a: &A, out: &mut String) {
        match a {
            A::S(s) => {
                self.string(s, out);
            }
            A::N(n) => out.push_str(n),
            A::L(l) => {
                if l.len() == 1 && self.chance(1, 2) {
                    self.string(&l[0], out);
                    return;
                }
                out.push('[');
                for (i, s) in l.iter().enumerate() {
                    if i > 0 {
                        self.sep(false, out);
                        out.push(',');
                    }
                    self.sep(false, out);
                    self.string(s, out);
                }
                self.sep(false, out);
                out.push(']');
            }
        }
    }
    fn tag(&mut self, t: &Tag, out: &mut String) {
        out.push(':');
        let w = self.word(t.name);
        out.push_str(&w);
        for a in &t.args {
            self.sep(true, out);
            self.arg(a, out);
        }
    }
    pub fn node(&mut self, n: &Node, out: &mut String) {
        let w = self.word(&n.name);
        out.push_str(&w);
        let mut order: Vec<usize> = (0..n.tags.len()).collect();
        if n.free && self.t.is_some() {
            for i in (1..order.len()).rev() {
                let j = self.n(i + 1);
                order.swap(i, j);
            }
        }
        for i in order {
            self.sep(true, out);
            self.tag(&n.tags[i], out);
        }
        for a in &n.pos {
            self.sep(true, out);
            self.arg(a, out);
        }
        if !n.tests.is_empty() {
            self.sep(!n.paren, out);
            if n.paren {
                out.push('(');
            }
            for (i, t) in n.tests.iter().enumerate() {
                if i > 0 {
                    self.sep(false, out);
                    out.push(',');
                }
                self.sep(false, out);
                self.node(t, out);
            }
            if n.paren {
                self.sep(false, out);
                out.push(')');
            }
        }
    }
    pub fn cmd(&mut self, n: &Node, depth: usize, out: &mut String) {
        if self.t.is_none() {
            out.push_str(&"  ".repeat(depth));
        }
        self.node(n, out);
        self.sep(false, out);
        match &n.block {
            None => out.push(';'),
            Some(b) => {
                out.push('{');
                if self.t.is_none() {
                    out.push_str(self.nl);
                }
                for c in b {
                    self.sep(false, out);
                    self.cmd(c, depth + 1, out);
                }
                self.sep(false, out);
                if self.t.is_none() {
                    out.push_str(&"  ".repeat(depth));
                }
                out.push('}');
            }
        }
        if self.t.is_none() {
            out.push_str(self.nl);
        }
    }
    pub fn script(&mut self, nodes: &[Node]) -> String {
        let mut out = String::new();
        for n in nodes {
            self.sep(false, &mut out);
            self.cmd(n, 0, &mut out);
        }
        self.sep(false, &mut out);
        out
    }
}

pub fn require(caps: &Caps) -> Option<Node> {
    if caps.is_empty() {
        return None;
    }
    Some(Node::new("require").l(caps.iter().map(|s| s.to_string()).collect()))
}

/// The script with a require command for exactly what it needs.
pub fn full(nodes: &[Node]) -> Vec<Node> {
    let mut caps = Caps::new();
    for n in nodes {
        n.caps(&mut caps);
    }
    require(&caps).into_iter().chain(nodes.iter().cloned()).collect()
}

pub fn plain(nodes: &[Node]) -> String {
    Layout::plain().script(nodes)
}

// ------------------------------------------------------------------ generation

pub const HEADERS: &[&str] = &[
    "Subject", "From", "To", "Cc", "Bcc", "Received", "Date", "X-A", "X-B", "List-Id", "Content-Type", "Content-Disposition",
    "Auto-Submitted", "Message-ID", "References", "In-Reply-To", "Reply-To", "subject", "x-a", "Content-Transfer-Encoding",
    "Precedence", "Resent-To", "Comments", "MIME-Version", "X-Spam",
];

const WORDS: &[&str] = &[
    "a", "", "b", "hello", "Hello World", "INBOX", "user@example.com", "me@example.com", "x y  z", "a*b?c", "ünï ☃",
    "\u{1F600}!", "line1\r\nline2\r\n", ".\r\n..dot\r\n", "tab\there", "1", "42", "-3", "1.5", "\\Seen", "quo\"te", "back\\slash",
    "%41", "<a@b.org>", "Subject", "text/plain", "text", "plain", "image/png", "*", "?", "**", "\\*", "$", "${", "{}", "ß", "ſtraße",
    "NOTIFY", "0", "007", "1e3", "a,b;c", "Re: test", "\u{301}x", "2023-01-02", "yes", "\r\n", "X-Evil: 1\r\n\r\nBody",
];

pub const VARS: &[&str] = &[
    "${a}", "${b}", "${A}", "${c}", "${g}", "${1}", "${0}", "${2}", "${header.subject}", "${header.from.addr}", "${header.to[*]}",
    "${header.received[0]}", "${header.x-a[2]}", "${header.content-type.attr.boundary}", "${header.date.date}", "${header.*}",
    "${header.from.addr.local}", "${header.from[*].name[*]}", "${header.x-a.raw}", "${header.x-a.raw_name}", "${header.x-a.exists}", "${header.message-id.id}",
    "${header.content-type.type}", "${header.content-type.subtype}", "${header.received.rcvd.ip}", "${header.received.rcvd.from}",
    "${header.subject:comments[*].text}", "${header.references[*].id[*]}", "${header.subject.raw}", "${envelope.from}", "${envelope.to}",
    "${env.name}", "${env.vnd}", "${body.text}", "${body.html}", "${body.to_text}", "${body.to_html}", "${part.text}", "${part.raw}", "${global.g}", "${t.x}", "${a}${b}",
    "${hex: 41 42}", "${unicode: 2603}", "${nope.x}", "${a b}", "${}", "${unknown}",
];

pub struct Wild<'t> {
    pub t: &'t mut Tape,
    fors: usize,
    loops: usize,
    /// an included script, which may run in a loop of another
    pub looped: bool,
    blocks: usize,
    tests: usize,
    pub includes: usize,
    budget: usize,
    pub features: BTreeSet<&'static str>,
    /// no while loops, no clock
    pub steady: bool,
}

impl<'t> Wild<'t> {
    pub fn new(t: &'t mut Tape, budget: usize) -> Self {
        Wild { t, fors: 0, loops: 0, looped: false, blocks: 0, tests: 0, includes: 0, budget, features: BTreeSet::new(), steady: false }
    }

    pub fn lit(&mut self) -> String {
        match self.t.n(12) {
            0 => "x".repeat(self.t.n(300)),
            1 => {
                let n = self.t.n(6);
                (0..n).map(|_| *self.t.pick(WORDS)).collect::<Vec<_>>().join(" ")
            }
            _ => self.t.pick(WORDS).to_string(),
        }
    }
    /// a string that may refer to variables
    pub fn val(&mut self) -> String {
        match self.t.n(6) {
            0..=2 => self.lit(),
            3 => self.t.pick(VARS).to_string(),
            _ => {
                let n = 1 + self.t.n(3);
                (0..n).map(|_| if self.t.bool() { self.t.pick(VARS).to_string() } else { self.lit() }).collect()
            }
        }
    }
    /// A text to put into the message. Within a loop without the message's own text, which could be doubled
    /// again and again (known finding growing-message).
    fn edit_val(&mut self) -> String {
        let v = self.val();
        if (self.loops > 0 || self.looped) && ["${header", "${body", "${part"].iter().any(|p| v.contains(p)) {
            return self.lit();
        }
        v
    }
    fn vals(&mut self) -> Vec<String> {
        let n = 1 + self.t.len(4);
        (0..n).map(|_| self.val()).collect()
    }
    fn header(&mut self) -> String {
        self.t.pick(HEADERS).to_string()
    }
    fn headers(&mut self) -> Vec<String> {
        let n = 1 + self.t.n(3);
        (0..n).map(|_| self.header()).collect()
    }
    fn header_v(&mut self) -> String {
        if self.t.chance(1, 6) { self.t.pick(VARS).to_string() } else { self.header() }
    }
    pub fn address(&mut self) -> String {
        self.t
            .pick(&[
                "a@example.org", "me@example.com", "\"Joe D\" <joe@example.net>", "<x@y.org>", "not an address", "a@b", "two@x.org, three@y.org",
                "\"q@x\"@example.org", "${envelope.from}", "${header.from.addr}", "${a}", "u+detail@example.com", "", "ü@exämple.org", "Group: a@x.org, b@y.org;",
            ])
            .to_string()
    }
    fn rel(&mut self) -> String {
        self.t.pick(&["gt", "ge", "lt", "le", "eq", "ne"]).to_string()
    }
    /// Adds a match type and comparator; true when the keys are regular expressions
    fn matching(&mut self, mut n: Node, list: bool) -> (Node, u8) {
        let mut kind = 0;
        match self.t.n(10) {
            0 | 1 => (),
            2 => n = n.tag("is"),
            3 => n = n.tag("contains"),
            4 | 5 => {
                n = n.tag("matches");
                kind = 2;
            }
            6 => {
                n = n.tagc("regex", "regex");
                kind = 1;
            }
            7 => {
                let r = self.rel();
                n = n.tagv("value", vec![A::S(r)], Some("relational"));
            }
            8 => {
                let r = self.rel();
                n = n.tagv("count", vec![A::S(r)], Some("relational"));
                kind = 3;
            }
            _ if list => n = n.tagc("list", "extlists"),
            _ => (),
        }
        match self.t.n(6) {
            0 => n = n.tagv("comparator", vec![A::S("i;octet".into())], None),
            1 => n = n.tagv("comparator", vec![A::S("i;ascii-casemap".into())], None),
            2 | 3 if kind == 3 => n = n.tagv("comparator", vec![A::S("i;ascii-numeric".into())], None),
            2 if kind == 0 => n = n.tagv("comparator", vec![A::S("i;ascii-numeric".into())], None),
            _ => (),
        }
        (n, kind)
    }
    fn keys(&mut self, kind: u8) -> Vec<String> {
        let n = 1 + self.t.len(3);
        (0..n)
            .map(|_| match kind {
                // expressions only known at run time are a known finding
                1 => self.t.pick(&["a.*b", "^(\\w+) (.*)$", "(a)|(b)", ".", "[0-9]+", "(?i)hello", "(.)(.)(.)", "\\.", "", "((((x))))", "^$", "(é|ü)"]).to_string(),
                2 => match self.t.n(4) {
                    0 => self.val(),
                    _ => self.t.pick(&["*", "a*", "*b*", "?", "??*", "*@*", "\\*", "*.*.*", "hello*", "**", "Re: *", "*a*b*c*", "", "*ü*", "*\\"]).to_string(),
                },
                3 => self.t.pick(&["0", "1", "2", "5"]).to_string(),
                _ => self.val(),
            })
            .collect()
    }
    /// The number, or now and then one at the edge of what the types behind it hold.
    fn number(&mut self, usual: usize) -> String {
        if self.t.chance(1, 12) {
            self.t
                .pick(&["0", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "106751991167301", "213503982334602", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "17179869184G"])
                .to_string()
        } else {
            usual.to_string()
        }
    }
    fn index(&mut self, mut n: Node, cap: Option<&'static str>) -> Node {
        if self.t.chance(1, 4) {
            let k = *self.t.pick(&[1usize, 2, 3, 0, 100]);
            let k = self.number(k);
            n = n.tagv("index", vec![A::N(k)], cap);
            if self.t.bool() {
                n = n.tagv("last", vec![], cap);
            }
        }
        n
    }
    fn mime(&mut self, mut n: Node) -> (Node, bool) {
        if self.t.chance(1, 4) {
            n = n.tagc("mime", "mime");
            if self.t.bool() {
                n = n.tagc("anychild", "mime");
            }
            (n, true)
        } else {
            (n, false)
        }
    }
    fn addr_part(&mut self, n: Node) -> Node {
        match self.t.n(8) {
            0 => n.tag("localpart"),
            1 => n.tag("domain"),
            2 => n.tag("all"),
            3 => n.tagc("user", "subaddress"),
            4 => n.tagc("detail", "subaddress"),
            _ => n,
        }
    }
    fn zone(&mut self) -> A {
        A::S(self.t.pick(&["+0000", "-0500", "+0530", "+1400", "-1200", "+0100"]).to_string())
    }
    fn date_part(&mut self) -> String {
        self.t
            .pick(&["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"])
            .to_string()
    }
    fn expr(&mut self) -> String {
        let n = 1 + self.t.n(4);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(self.t.pick(&[" + ", " - ", " * ", " / ", " == ", " != ", " < ", " >= ", " && ", " || ", "+", " * "]));
            }
            s.push_str(self.t.pick(&[
                "a", "b", "1", "0", "'x'", "\"y z\"", "2.5", "-3", "!a", "(a + 1)", "ext_one(a)", "ext_zero()", "ext_false(1, 2)", "[1, 'a', b]", "env.name",
                "header.subject", "header.to[*].addr[*]", "envelope.from", "[a, b][0]", "9223372036854775807", "part.text", "body.text", "c", "ident(a)", "glue(a, 1)", "answer()",
            ]));
        }
        s
    }

    pub fn test(&mut self, depth: usize) -> Node {
        let leaf = depth == 0 || self.tests == 0;
        self.tests = self.tests.saturating_sub(1);
        let k = if leaf { 3 + self.t.n(27) } else { self.t.n(30) };
        match k {
            0 => {
                let mut n = Node::new("not");
                n.tests.push(self.test(depth - 1));
                n
            }
            1 | 2 => {
                let mut n = Node::new(if k == 1 { "allof" } else { "anyof" });
                n.paren = true;
                let c = 1 + self.t.n(3);
                for _ in 0..c {
                    n.tests.push(self.test(depth - 1));
                }
                n
            }
            3 => Node::new(if self.t.bool() { "true" } else { "false" }),
            4 | 5 => {
                let n = Node::new("header");
                let (n, kind) = self.matching(n, true);
                let n = self.index(n, Some("index"));
                let (mut n, m) = self.mime(n);
                if m {
                    match self.t.n(6) {
                        0 => n = n.tagc("type", "mime"),
                        1 => n = n.tagc("subtype", "mime"),
                        2 => n = n.tagc("contenttype", "mime"),
                        3 => {
                            let p = self.t.pick(&["filename", "charset", "name", "boundary", "${a}"]).to_string();
                            n = n.tagv("param", vec![A::L(vec![p])], Some("mime"));
                        }
                        _ => (),
                    }
                }
                let h = if self.t.chance(1, 8) { vec![self.header_v()] } else { self.headers() };
                n.l(h).l(self.keys(kind))
            }
            6 | 7 => {
                let n = Node::new("address");
                let n = self.addr_part(n);
                let (n, kind) = self.matching(n, true);
                let n = self.index(n, Some("index"));
                let (n, _) = self.mime(n);
                let h = self.headers();
                n.l(h).l(self.keys(kind))
            }
            8 => {
                let n = Node::new("envelope").cap("envelope");
                let n = self.addr_part(n);
                let (n, kind) = self.matching(n, true);
                let (e, n): (Vec<String>, _) = match self.t.n(6) {
                    0 => (vec!["to".into()], n),
                    1 => (vec!["from".into(), "to".into()], n),
                    2 => (vec![self.t.pick(&["notify", "orcpt", "ret", "envid"]).to_string()], n.cap("envelope-dsn")),
                    3 => {
                        let part = self.t.pick(&["bytimeabsolute", "bytimerelative", "bymode", "bytrace"]).to_string();
                        let n = if self.t.bool() { n.tagv("zone", vec![A::S("+0100".into())], Some("envelope-deliverby")) } else { n };
                        (vec!["from".into(), part], n.cap("envelope-deliverby"))
                    }
                    _ => (vec!["from".into()], n),
                };
                n.l(e).l(self.keys(kind))
            }
            9 => {
                let (n, _) = self.mime(Node::new("exists"));
                let h = self.headers();
                n.l(h)
            }
            10 => {
                let n = Node::new("size");
                let n = if self.t.bool() { n.tag("over") } else { n.tag("under") };
                let v = self.t.pick(&["0", "1", "100", "1K", "10M", "500", "3G"]).to_string();
                // below 4 GiB: known finding size-beyond-4gib (C23)
                n.n(if self.t.chance(1, 12) { self.t.pick(&["65535", "65536", "2147483648", "4294967295"]).to_string() } else { v })
            }
            11 | 12 => {
                let mut n = Node::new("body").cap("body");
                match self.t.n(5) {
                    0 => n = n.tag("raw"),
                    1 => n = n.tag("text"),
                    2 | 3 => {
                        let c = self.t.pick(&["text", "text/plain", "text/html", "", "image", "message/rfc822", "multipart", "/x", "${a}"]).to_string();
                        n = n.tagv("content", vec![A::L(vec![c])], None);
                    }
                    _ => (),
                }
                if self.t.chance(1, 8) {
                    n = n.tag("subject");
                }
                let (n, kind) = self.matching(n, false);
                n.l(self.keys(kind))
            }
            13 => {
                let n = Node::new("convert").cap("convert");
                let f = self.t.pick(&["text/html", "text/plain", "image/png", "text/*", "${a}"]).to_string();
                let to = self.t.pick(&["text/plain", "text/html", "image/gif"]).to_string();
                n.s(f).s(to).l(vec!["x=1".into()])
            }
            14 => {
                let n = Node::new("date").cap("date");
                let (mut n, kind) = self.matching(n, true);
                match self.t.n(4) {
                    0 => {
                        let z = self.zone();
                        n = n.tagv("zone", vec![z], None);
                    }
                    1 => n = n.tag("originalzone"),
                    _ => (),
                }
                let n = self.index(n, Some("index"));
                let (n, _) = self.mime(n);
                let h = self.t.pick(&["date", "received", "x-a", "resent-date"]).to_string();
                let p = self.date_part();
                n.s(h).s(p).l(self.keys(kind))
            }
            15 => {
                let n = Node::new("currentdate").cap("date");
                let (mut n, kind) = self.matching(n, false);
                if self.t.bool() {
                    let z = self.zone();
                    n = n.tagv("zone", vec![z], None);
                }
                let p = if self.steady { "zone".to_string() } else { self.date_part() };
                n.s(p).l(self.keys(kind))
            }
            16 => {
                let mut n = Node::new("duplicate").cap("duplicate");
                if self.t.bool() {
                    let v = self.val();
                    n = n.tagv("handle", vec![A::S(v)], None);
                }
                match self.t.n(3) {
                    0 => {
                        let h = self.header();
                        n = n.tagv("header", vec![A::S(h)], None);
                    }
                    1 => {
                        let v = self.val();
                        n = n.tagv("uniqueid", vec![A::S(v)], None);
                    }
                    _ => (),
                }
                if self.t.bool() {
                    let k = self.number(60);
                    n = n.tagv("seconds", vec![A::N(k)], None);
                }
                if self.t.bool() {
                    n = n.tag("last");
                }
                n
            }
            17 | 18 => {
                let n = Node::new("string").cap("variables");
                let (n, kind) = self.matching(n, true);
                let v = self.vals();
                n.l(v).l(self.keys(kind))
            }
            19 => {
                let n = Node::new("notify_method_capability").cap("enotify");
                let (n, kind) = self.matching(n, false);
                n.s(*self.t.pick(&["mailto:a@b.org", "xmpp:x@y", "bad uri", "${a}"]))
                    .s(*self.t.pick(&["online", "Online", "other"]))
                    .l(self.keys(kind))
            }
            20 => {
                let u = self.t.pick(&["mailto:a@b.org", "xmpp:x@y", "bad uri", "${a}", "mailto:"]).to_string();
                Node::new("valid_notify_method").cap("enotify").l(vec![u])
            }
            21 => {
                let n = Node::new("environment").cap("environment");
                let (n, kind) = self.matching(n, false);
                n.s(*self.t.pick(&["name", "domain", "vnd", "phase", "remote-ip", "NAME"])).l(self.keys(kind))
            }
            22 => match self.t.n(3) {
                0 => Node::new("valid_ext_list").cap("extlists").l(self.vals()),
                1 => {
                    let c = self.t.pick(&["fileinto", "vnd.nope", "variables", "comparator-i;octet"]).to_string();
                    Node::new("ihave").cap("ihave").l(vec![c])
                }
                _ => {
                    let v = self.vals();
                    Node::new("mailboxexists").cap("mailbox").l(v)
                }
            },
            23 => {
                let n = Node::new("hasflag").cap("imap4flags");
                let (mut n, mut kind) = self.matching(n, false);
                if kind == 1 {
                    // known finding: expressions are used as wildcard patterns
                    n.tags.retain(|t| t.name != "regex");
                    kind = 0;
                }
                let n = if self.t.bool() { n.cap("variables").l(vec!["a".into()]) } else { n };
                n.l(self.keys(kind))
            }
            24 => match self.t.n(4) {
                0 => {
                    let (n, kind) = self.matching(Node::new("metadata").cap("mboxmetadata"), false);
                    n.s(*self.t.pick(&["INBOX", "x", "${a}"])).s(*self.t.pick(&["/private/a", "/shared/b"])).l(self.keys(kind))
                }
                1 => {
                    let (n, kind) = self.matching(Node::new("servermetadata").cap("servermetadata"), false);
                    n.s(*self.t.pick(&["/private/a", "/shared/b"])).l(self.keys(kind))
                }
                2 => Node::new("metadataexists").cap("mboxmetadata").s("INBOX").l(vec!["/private/a".into()]),
                _ => Node::new("servermetadataexists").cap("servermetadata").l(vec!["/private/a".into()]),
            },
            25 => match self.t.n(2) {
                0 => Node::new("mailboxidexists").cap("mailboxid").l(self.vals()),
                _ => {
                    let n = Node::new("specialuse_exists").cap("special-use");
                    let n = if self.t.bool() { n.s("INBOX") } else { n };
                    n.l(vec![self.t.pick(&["\\Junk", "\\Sent", "${a}"]).to_string()])
                }
            },
            26 => {
                let plus = self.t.bool();
                let n = Node::new("spamtest").cap(if plus { "spamtestplus" } else { "spamtest" });
                let (mut n, kind) = self.matching(n, false);
                if plus {
                    n = n.tagc("percent", "spamtestplus");
                }
                n.s(self.keys(kind.min(3)).remove(0))
            }
            27 => {
                let (n, kind) = self.matching(Node::new("virustest").cap("virustest"), false);
                n.s(self.keys(kind).remove(0))
            }
            _ => {
                let e = self.expr();
                Node::new("eval").cap("vnd.stalwart.expressions").s(e)
            }
        }
    }

    fn fcc(&mut self, mut n: Node) -> Node {
        if self.t.chance(1, 4) {
            let v = self.val();
            n = n.tagv("fcc", vec![A::S(v)], Some("fcc"));
            if self.t.bool() {
                n = n.tagc("create", "mailbox");
            }
            if self.t.bool() {
                let f = self.flags();
                n = n.tagv("flags", vec![A::L(f)], Some("imap4flags"));
            }
            if self.t.chance(1, 3) {
                n = n.tagv("specialuse", vec![A::S("\\Sent".into())], Some("special-use"));
            }
            if self.t.chance(1, 3) {
                let v = self.val();
                n = n.tagv("mailboxid", vec![A::S(v)], Some("mailboxid"));
            }
        }
        n
    }
    fn flags(&mut self) -> Vec<String> {
        let n = 1 + self.t.n(3);
        (0..n)
            .map(|_| self.t.pick(&["\\Seen", "\\seen", "a b", "", "$Junk", "${a}", "x", "\\Flagged  y"]).to_string())
            .collect()
    }
    fn name(&mut self) -> String {
        self.t.pick(&["a", "b", "c", "A", "g", "t.x"]).to_string()
    }

    pub fn block(&mut self, depth: usize, max: usize) -> Vec<Node> {
        let n = self.t.len(max);
        let mut out = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.cmds(depth, &mut out);
        }
        out
    }

    pub fn cmds(&mut self, depth: usize, out: &mut Vec<Node>) {
        let k = if depth == 0 || self.blocks == 0 { 8 + self.t.n(34) } else { self.t.n(42) };
        let c = match k {
            0..=3 => {
                self.blocks -= 1;
                let mut n = Node::new("if");
                n.tests.push(self.test(3));
                n.block = Some(self.block(depth - 1, 4));
                out.push(n);
                let e = self.t.n(3);
                for _ in 0..e {
                    let mut n = Node::new("elsif");
                    n.tests.push(self.test(2));
                    n.block = Some(self.block(depth - 1, 3));
                    out.push(n);
                }
                if self.t.bool() {
                    let mut n = Node::new("else");
                    n.block = Some(self.block(depth - 1, 3));
                    out.push(n);
                }
                return;
            }
            4 | 5 if self.fors < 3 => {
                self.blocks -= 1;
                self.features.insert("foreverypart");
                let mut n = Node::new("foreverypart").cap("foreverypart");
                if self.t.chance(1, 3) {
                    let l = format!("l{}", self.fors);
                    n = n.tagv("name", vec![A::S(l)], None);
                }
                self.fors += 1;
                self.loops += 1;
                n.block = Some(self.block(depth - 1, 4));
                self.loops -= 1;
                self.fors -= 1;
                n
            }
            6 if !self.steady => {
                self.blocks -= 1;
                self.features.insert("while");
                let mut n = Node::new("while").cap("vnd.stalwart.while");
                let e = self.expr();
                n = n.s(e);
                self.loops += 1;
                n.block = Some(self.block(depth - 1, 4));
                self.loops -= 1;
                n
            }
            7 if self.loops > 0 => {
                if self.fors > 0 && self.t.bool() {
                    Node::new("break").cap("foreverypart")
                } else {
                    Node::new("continue").cap("vnd.stalwart.while")
                }
            }
            8 | 9 => {
                let mut n = Node::new("set").cap("variables");
                let m = self.t.n(3);
                let mut replaces = 0;
                for _ in 0..m {
                    let w = *self.t.pick(&["lower", "upper", "lowerfirst", "upperfirst", "quotewildcard", "quoteregex", "encodeurl", "length", "replace"]);
                    if n.tags.iter().any(|t| t.name == w) {
                        continue;
                    }
                    match w {
                                                "replace" => {
                            replaces += 1;
                            let (a, b) = (self.val(), self.val());
                            n = n.tagv("replace", vec![A::S(a), A::S(b)], None);
                        }
                        _ => n = n.tag(w),
                    }
                }
                n.free = replaces == 0;
                let v = if self.t.chance(1, 10) { "envelope.from".to_string() } else { self.name() };
                let x = self.val();
                n.s(v).s(x)
            }
            10 => {
                let (v, e) = (self.name(), self.expr());
                Node::new("let").cap("vnd.stalwart.expressions").s(v).s(e)
            }
            11 => {
                let n = Node::new("keep");
                if self.t.bool() {
                    let f = self.flags();
                    n.tagv("flags", vec![A::L(f)], Some("imap4flags"))
                } else {
                    n
                }
            }
            12 | 13 => {
                let mut n = Node::new("fileinto").cap("fileinto");
                if self.t.bool() {
                    n = n.tagc("copy", "copy");
                }
                if self.t.chance(1, 4) {
                    n = n.tagc("create", "mailbox");
                }
                if self.t.chance(1, 4) {
                    let f = self.flags();
                    n = n.tagv("flags", vec![A::L(f)], Some("imap4flags"));
                }
                if self.t.chance(1, 5) {
                    let v = self.val();
                    n = n.tagv("mailboxid", vec![A::S(v)], Some("mailboxid"));
                }
                if self.t.chance(1, 5) {
                    n = n.tagv("specialuse", vec![A::S("\\Junk".into())], Some("special-use"));
                }
                let v = self.val();
                n.s(v)
            }
            14 | 15 => {
                let mut n = Node::new("redirect");
                let list = self.t.chance(1, 6);
                if self.t.bool() {
                    n = n.tagc("copy", "copy");
                }
                if list {
                    n = n.tagc("list", "extlists");
                }
                match self.t.n(5) {
                    0 => {
                        let k = self.number(600);
                        n = n.tagv("bytimerelative", vec![A::N(k)], Some("redirect-deliverby"));
                    }
                    1 => {
                        let v = self.val();
                        n = n.tagv("bytimeabsolute", vec![A::S(v)], Some("redirect-deliverby"));
                    }
                    _ => (),
                }
                if self.t.chance(1, 5) {
                    n = n.tagv("bymode", vec![A::S("return".into())], Some("redirect-deliverby"));
                }
                if self.t.chance(1, 5) {
                    n = n.tagc("bytrace", "redirect-deliverby");
                }
                if self.t.chance(1, 5) {
                    n = n.tagv("ret", vec![A::S("full".into())], Some("redirect-dsn"));
                }
                if self.t.chance(1, 5) {
                    n = n.tagv("notify", vec![A::S("success, delay".into())], Some("redirect-dsn"));
                }
                let a = self.address();
                n.s(a)
            }
            16 => Node::new("discard"),
            17 => {
                if self.t.chance(1, 3) {
                    Node::new("stop")
                } else {
                    Node::new("keep")
                }
            }
            18 => {
                let r = self.val();
                if self.t.bool() {
                    Node::new("reject").cap("reject").s(r)
                } else {
                    Node::new("ereject").cap("ereject").s(r)
                }
            }
            19..=21 => {
                self.features.insert("header edit");
                let mut n = Node::new("addheader").cap("editheader");
                if self.t.bool() {
                    n = n.tag("last");
                }
                let (h, v) = (self.header_v(), self.val());
                n.s(h).s(v)
            }
            22 | 23 => {
                self.features.insert("header edit");
                let n = Node::new("deleteheader").cap("editheader");
                let (n, kind) = self.matching(n, false);
                let n = self.index(n, None);
                let (n, _) = self.mime(n);
                let h = self.header_v();
                let n = n.s(h);
                if self.t.bool() || kind != 0 {
                    n.l(self.keys(kind))
                } else {
                    n
                }
            }
            24 | 25 => {
                self.features.insert("mime edit");
                self.features.insert("replace or enclose");
                let mut n = Node::new("replace").cap("replace");
                if self.t.chance(1, 3) {
                    n = n.tag("mime");
                }
                if self.t.chance(1, 3) {
                    let v = self.edit_val();
                    n = n.tagv("subject", vec![A::S(v)], None);
                }
                if self.t.chance(1, 3) {
                    let v = self.address();
                    n = n.tagv("from", vec![A::S(v)], None);
                }
                let v = if self.t.chance(1, 4) { "Content-Type: multipart/mixed; boundary=x\r\n\r\n--x\r\n\r\nhi\r\n--x--\r\n".to_string() } else { self.edit_val() };
                n.s(v)
            }
            26 => {
                self.features.insert("mime edit");
                self.features.insert("replace or enclose");
                let mut n = Node::new("enclose").cap("enclose");
                if self.t.bool() {
                    let v = self.edit_val();
                    n = n.tagv("subject", vec![A::S(v)], None);
                }
                if self.t.bool() {
                    let v = vec![format!("X-New: {}", self.edit_val()), self.edit_val()];
                    n = n.tagv("headers", vec![A::L(v)], None);
                }
                let v = self.edit_val();
                n.s(v)
            }
            27 => {
                if self.fors == 0 {
                    Node::new("discard")
                } else {
                    let mut n = Node::new("extracttext").cap("extracttext");
                    if self.t.bool() {
                        let k = self.t.n(30);
                        let k = self.number(k);
                        n = n.tagv("first", vec![A::N(k)], None);
                    }
                    if self.t.chance(1, 3) {
                        n = n.tag("upper");
                    }
                    let v = self.name();
                    n.s(v)
                }
            }
            28 => {
                self.features.insert("mime edit");
                let n = Node::new("convert").cap("convert");
                let f = self.t.pick(&["text/html", "text/plain", "image/png", "${a}"]).to_string();
                let to = self.t.pick(&["text/plain", "text/html", "image/gif"]).to_string();
                n.s(f).s(to).l(vec!["x=1".into()])
            }
            29..=31 => {
                self.features.insert("notify");
                let mut n = Node::new("notify").cap("enotify");
                if self.t.chance(1, 3) {
                    n = n.tagv("from", vec![A::S("joe@example.net".into())], None);
                }
                if self.t.chance(1, 3) {
                    let v = self.t.pick(&["1", "2", "3", "${a}"]).to_string();
                    n = n.tagv("importance", vec![A::S(v)], None);
                }
                if self.t.chance(1, 3) {
                    n = n.tagv("options", vec![A::L(vec!["x=1".into(), "${a}".into()])], None);
                }
                if self.t.bool() {
                    let v = self.val();
                    n = n.tagv("message", vec![A::S(v)], None);
                }
                n = self.fcc(n);
                let m = self
                    .t
                    .pick(&[
                        "mailto:a@b.org", "mailto:a@b.org,c@d.org?subject=x%20y&body=z", "mailto:?to=a@b.org&cc=c@d.org", "xmpp:u@h?message;body=x",
                        "mailto:a%0d%0ab@c.org", "http://x.org/y", "tel:+123", "mailto:${a}", "${a}", "mailto:a@b.org?X-H=%0D%0Ay&subject=${header.subject}",
                    ])
                    .to_string();
                n.s(m)
            }
            32..=34 => {
                self.features.insert("vacation");
                let mut n = Node::new("vacation").cap("vacation");
                match self.t.n(3) {
                    0 => {
                        let k = self.number(7);
                        n = n.tagv("days", vec![A::N(k)], None);
                    }
                    1 => {
                        let k = self.number(3600);
                        n = n.tagv("seconds", vec![A::N(k)], Some("vacation-seconds"));
                    }
                    _ => (),
                }
                if self.t.chance(1, 3) {
                    let v = self.val();
                    n = n.tagv("subject", vec![A::S(v)], None);
                }
                if self.t.chance(1, 3) {
                    let v = self.address();
                    n = n.tagv("from", vec![A::S(v)], None);
                }
                if self.t.chance(1, 3) {
                    let v = vec![self.address(), self.address()];
                    n = n.tagv("addresses", vec![A::L(v)], None);
                }
                if self.t.chance(1, 3) {
                    n = n.tag("mime");
                }
                if self.t.chance(1, 3) {
                    let v = self.val();
                    n = n.tagv("handle", vec![A::S(v)], None);
                }
                n = self.fcc(n);
                let v = self.val();
                n.s(v)
            }
            35 | 36 => {
                let w = *self.t.pick(&["setflag", "addflag", "removeflag"]);
                let mut n = Node::new(w).cap("imap4flags");
                if self.t.chance(1, 3) {
                    let v = self.t.pick(&["a", "b", "c"]).to_string();
                    n = n.cap("variables").s(v);
                }
                let f = self.flags();
                n.l(f)
            }
            37 | 38 if self.includes > 0 => {
                let mut n = Node::new("include").cap("include");
                match self.t.n(3) {
                    0 => n = n.tag("personal"),
                    1 => n = n.tag("global"),
                    _ => (),
                }
                if self.t.chance(1, 3) {
                    n = n.tag("once");
                }
                if self.t.bool() {
                    n = n.tag("optional");
                }
                let k = self.t.n(self.includes + 1);
                let v = if self.t.chance(1, 8) { "${a}".to_string() } else { format!("i{k}") };
                n.s(v)
            }
            39 if self.includes > 0 && self.t.chance(1, 3) => Node::new("return").cap("include"),
            40 => {
                let e = self.expr();
                Node::new("eval").cap("vnd.stalwart.expressions").s(e)
            }
            41 => {
                let v = self.val();
                if self.t.chance(1, 4) {
                    Node::new("error").cap("ihave").s(v)
                } else {
                    Node::new("set").cap("variables").s("a").s(v)
                }
            }
            _ => {
                let v = self.val();
                Node::new("fileinto").cap("fileinto").tagc("copy", "copy").s(v)
            }
        };
        out.push(c);
    }

    /// A whole script without its require command.
    pub fn script(&mut self) -> Vec<Node> {
        self.blocks = 10;
        self.tests = 30;
        let mut out = vec![];
        if self.t.chance(2, 3) {
            out.push(Node::new("global").cap("include").cap("variables").l(vec!["g".into()]));
        }
        // without them the other uses of an extension are the only ones
        let bare = self.t.chance(1, 6);
        if bare {
            out.clear();
        } else {
            for v in ["a", "b", "c"] {
                let x = self.val();
                out.push(Node::new("set").cap("variables").s(v).s(x));
            }
        }
        let n = 1 + self.t.n(if bare { 3 } else { 10 });
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.cmds(4, &mut out);
        }
        out
    }
}

// ------------------------------------------------------------------ messages

/// A message the parser (an other crate) can read without panicking.
pub fn message(t: &mut Tape) -> Vec<u8> {
    let m = any_message(t);
    match std::panic::catch_unwind(|| mail_parser::MessageParser::new().parse(&m[..]).is_some()) {
        Ok(_) => m,
        Err(_) => b"Subject: replaced\r\n\r\nThe parser panics.\r\n".to_vec(),
    }
}

fn any_message(t: &mut Tape) -> Vec<u8> {
    let mut m = Vec::new();
    if t.chance(1, 25) {
        // not much of a message
        return t
            .pick(&[&b""[..], b"\r\n", b"\n", b"X", b"Subject: x", b"Subject: x\r\n", b"\r\n\r\nbody", b": \r\n\r\n", b"\xff\xfe\x00", b" folded\r\n\r\n"])
            .to_vec();
    }
    let nl = *t.pick(&["\r\n", "\r\n", "\r\n", "\n"]);
    entity(t, &mut m, 3, true, nl);
    match t.n(8) {
        0 => {
            // damage a few bytes
            let k = 1 + t.n(4);
            for _ in 0..k {
                if m.is_empty() {
                    break;
                }
                let at = t.n(m.len());
                match t.n(4) {
                    0 => m[at] = t.n(256) as u8,
                    1 => {
                        m.remove(at);
                    }
                    2 => m.insert(at, t.n(256) as u8),
                    _ => m.truncate(at),
                }
            }
        }
        1 => {
            let k = t.n(m.len() + 1);
            m.truncate(k);
        }
        _ => (),
    }
    m
}

fn hval(t: &mut Tape, nl: &str) -> String {
    let n = 1 + t.n(3);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(t.pick(&[" ", "  ", "\t"]));
        }
        if t.chance(1, 8) {
            s.push_str(nl);
            s.push(' ');
        }
        s.push_str(t.pick(&[
            "hello", "world", "a", "Re: test", "=?utf-8?q?J=C3=B6rg?=", "=?utf-8?b?w7x4?=", "42", "3.5", "äö", "=?x", "\"quoted\"", "(comment)", "a*b", "=?utf-8?q?a=0D=0AX-Evil:_1?=", ";", "long long long text", "=?iso-8859-1?q?=E9?=",
        ]));
    }
    s
}

fn addr(t: &mut Tape) -> String {
    t.pick(&[
        "me@example.com", "Joe <joe@example.net>", "\"D, J\" <dj+tag@example.org>", "<>", "x@y.org, Jane <jane@z.org>", "Group: a@x.org, B <b@x.org>;", "broken", "=?utf-8?q?J=C3=B6rg?= <j@x.org>", "a@b (c)", "", "MAILER-DAEMON@x.org", "owner-list@x.org",
    ])
    .to_string()
}

fn entity(t: &mut Tape, m: &mut Vec<u8>, depth: usize, top: bool, nl: &str) {
    let w = |m: &mut Vec<u8>, n: &str, v: &str| m.extend_from_slice(format!("{n}: {v}{nl}").as_bytes());
    if top {
        let n = t.n(9);
        for _ in 0..n {
            match t.n(18) {
                0 | 1 => {
                    let v = hval(t, nl);
                    w(m, "Subject", &v)
                }
                2 => {
                    let v = addr(t);
                    w(m, "From", &v)
                }
                3 => {
                    let v = addr(t);
                    w(m, "To", &v)
                }
                4 => {
                    let v = addr(t);
                    w(m, t.pick(&["Cc", "Bcc", "Reply-To", "Resent-To", "Sender"]), &v)
                }
                5 => w(m, "Date", t.pick(&["Tue, 1 Apr 1997 09:06:31 -0800", "Sat, 20 Nov 2021 14:22:01 +0000", "bad date", "1 Jan 1970 00:00:00 +1400", "Fri, 31 Dec 9999 23:59:59 -1200", "29 Feb 2024 12:00 EST"])),
                6 | 7 => w(
                    m,
                    "Received",
                    t.pick(&[
                        "from mx.example.net (mx.example.net [192.0.2.1]) by x.org with ESMTPS id abc for <me@example.com>; Sat, 20 Nov 2021 14:22:01 -0800",
                        "by x; 1 Jan 2020 00:00:00 +0000",
                        "from a",
                        "",
                        "(qmail 123 invoked by uid 0); 2 Feb 2021 02:02:02 -0000",
                    ]),
                ),
                8..=10 => {
                    let v = hval(t, nl);
                    w(m, t.pick(&["X-A", "X-B", "x-a", "Comments", "X-Spam", "List-Id"]), &v)
                }
                11 => w(m, "Message-ID", t.pick(&["<id1@x.org>", "<a b@c>", "no brackets", "<x@y>\r\n"])),
                12 => w(m, t.pick(&["References", "In-Reply-To"]), "<r1@x> <r2@y>"),
                13 => w(m, t.pick(&["Auto-Submitted", "Precedence", "X-Auto-Response-Suppress"]), t.pick(&["no", "auto-replied", "bulk", "OOF", "all"])),
                14 => w(m, "MIME-Version", "1.0"),
                15 => m.extend_from_slice(format!("no colon here{nl}").as_bytes()),
                16 => w(m, "Content-Disposition", "attachment; filename=\"a.txt\""),
                _ => m.extend_from_slice(format!("X-Odd :  spaced{nl}").as_bytes()),
            }
        }
    }
    let kind = if depth == 0 { t.n(6) } else { t.n(12) };
    match kind {
        0 => {
            m.extend_from_slice(nl.as_bytes());
            m.extend_from_slice(format!("plain body{nl}").as_bytes());
        }
        1 => {
            w(m, "Content-Type", t.pick(&["text/plain; charset=utf-8", "text/plain", "TEXT/PLAIN; charset=\"iso-8859-1\"; name=x", "text/plain; charset=unknown", "text/x-other"]));
            m.extend_from_slice(nl.as_bytes());
            let k = t.n(4);
            for _ in 0..k {
                m.extend_from_slice(t.pick(&["line of text", "ünïcode", ".", "--x", "From me", "", "http://x.org/", "a=3D b"]).as_bytes());
                m.extend_from_slice(nl.as_bytes());
            }
        }
        2 => {
            w(m, "Content-Type", "text/html; charset=utf-8");
            m.extend_from_slice(nl.as_bytes());
            m.extend_from_slice(t.pick(&["<html><body><p>Hello <b>world</b> &amp; co</p></body></html>", "<br>x", "<script>a</script><a href='x'>y</a>", "<<>>&#x;&#99999999;", ""]).as_bytes());
            m.extend_from_slice(nl.as_bytes());
        }
        3 => {
            w(m, "Content-Type", t.pick(&["text/plain; charset=utf-8", "application/octet-stream", "image/png; name=\"x.png\""]));
            w(m, "Content-Transfer-Encoding", "base64");
            m.extend_from_slice(nl.as_bytes());
            m.extend_from_slice(t.pick(&["aGVsbG8gd29ybGQ=", "////", "!!!", "", "aGVsbG8"]).as_bytes());
            m.extend_from_slice(nl.as_bytes());
        }
        4 => {
            w(m, "Content-Type", "text/plain");
            w(m, "Content-Transfer-Encoding", "quoted-printable");
            m.extend_from_slice(nl.as_bytes());
            m.extend_from_slice(t.pick(&["caf=C3=A9 =3D", "soft=\r\nbreak", "=ZZ=", ""]).as_bytes());
            m.extend_from_slice(nl.as_bytes());
        }
        5 => {
            w(m, "Content-Type", t.pick(&["application/pdf", "garbage", "image/gif", "/", "text", "; x=y"]));
            m.extend_from_slice(nl.as_bytes());
            m.extend_from_slice(b"\x00\x01\xffdata");
            m.extend_from_slice(nl.as_bytes());
        }
        6 | 7 => {
            w(m, "Content-Type", "message/rfc822");
            if t.chance(1, 6) {
                w(m, "Content-Transfer-Encoding", "base64");
            }
            m.extend_from_slice(nl.as_bytes());
            entity(t, m, depth - 1, true, nl);
        }
        _ => {
            let b = format!("b{depth}{}", t.n(3));
            w(m, "Content-Type", &format!("multipart/{}; boundary=\"{b}\"", t.pick(&["mixed", "alternative", "related", "digest", "report"])));
            m.extend_from_slice(nl.as_bytes());
            if t.chance(1, 4) {
                m.extend_from_slice(format!("preamble{nl}").as_bytes());
            }
            let n = t.n(4);
            for _ in 0..n {
                m.extend_from_slice(format!("{}--{b}{nl}", if t.bool() { nl } else { "" }).as_bytes());
                if t.chance(1, 6) {
                    w(m, "X-Part", "1");
                    w(m, "Content-Disposition", "attachment; filename*=utf-8''x%20y.txt");
                }
                entity(t, m, depth - 1, false, nl);
            }
            if t.chance(5, 6) {
                m.extend_from_slice(format!("--{b}--{nl}").as_bytes());
            }
            if t.chance(1, 4) {
                m.extend_from_slice(format!("epilogue{nl}").as_bytes());
            }
        }
    }
}

// ------------------------------------------------------------------ configuration

#[derive(Clone, Debug)]
pub struct Conf {
    pub cpu: usize,
    pub redirects: usize,
    pub out: usize,
    pub nested: usize,
    pub received: usize,
    pub var: usize,
    pub header: usize,
    pub from: &'static str,
    pub to: &'static str,
    pub user: &'static str,
    pub full_name: &'static str,
    pub globals: Vec<(String, String)>,
    pub spam: u8,
    pub virus: u8,
    pub seen: Vec<String>,
    pub yes: u64,
    pub without: Vec<&'static str>,
    pub orig_rcpt: bool,
}

impl Conf {
    pub fn gen(t: &mut Tape) -> Conf {
        let small = t.chance(1, 3);
        Conf {
            cpu: if t.chance(1, 4) { t.n(60) } else { *t.pick(&[5000, 1000]) },
            redirects: t.n(4),
            out: t.n(5),
            nested: t.n(4),
            received: *t.pick(&[10, 0, 1, 2]),
            var: if small { t.n(40) } else { 4096 },
            header: if small { t.n(40) } else { 1024 },
            from: *t.pick(&["sender@example.net", "", "bad", "MAILER-DAEMON@x.org", "owner-l@x.org", "me@example.com", "a@b\r\nX: 1"]),
            to: *t.pick(&["me@example.com", "", "other@example.org", "me+tag@example.com"]),
            user: *t.pick(&["me@example.com", "", "user@example.org", "odd\r\nX: 1"]),
            full_name: *t.pick(&["", "Me \"Q\" \\ User", "Jörg", "x\r\nX: 1"]),
            globals: if t.bool() { vec![("g".into(), t.pick(WORDS).to_string())] } else { vec![] },
            spam: t.n(4) as u8,
            virus: t.n(5) as u8,
            seen: vec![],
            yes: t.below(u64::MAX),
            without: if t.chance(1, 8) { vec![*t.pick(&["editheader", "vacation", "fileinto", "variables", "vnd.stalwart.while"])] } else { vec![] },
            orig_rcpt: t.bool(),
        }
    }

    pub fn tools(&self) -> (Compiler, Runtime) {
        let mut fm = c13::functions();
        let c = Compiler::new().either_max_includes(50).register_functions(&mut fm);
        let mut rt = full_runtime()
            .with_functions(&mut fm)
            .either_cpu_limit(self.cpu)
            .either_max_redirects(self.redirects)
            .either_max_out_messages(self.out)
            .either_max_nested_includes(self.nested)
            .either_max_received_headers(self.received)
            .either_max_variable_size(self.var)
            .either_max_header_size(self.header)
            .with_valid_notification_uri("mailto")
            .with_valid_notification_uri("xmpp")
            .with_valid_ext_list("a")
            .with_vacation_use_orig_rcpt(self.orig_rcpt)
            .with_env_variable("vnd", "Stalwart")
            .with_env_variable("name", "42")
            .with_metadata(sieve::Metadata::mailbox("INBOX", "/private/a"), "value a")
            .with_metadata(sieve::Metadata::server("/private/a"), "7");
        for w in &self.without {
            rt = rt.without_capability(*w);
        }
        (c, rt)
    }

    pub fn context<'x>(&self, rt: &'x Runtime, raw: &'x [u8]) -> Context<'x> {
        let mut ctx = rt
            .filter(raw)
            .with_envelope(Envelope::From, self.from)
            .with_envelope(Envelope::To, self.to)
            .with_user_address(self.user)
            .with_user_full_name(self.full_name)
            .with_spam_status(match self.spam {
                0 => SpamStatus::Unknown,
                1 => SpamStatus::Ham,
                2 => SpamStatus::MaybeSpam(0.5),
                _ => SpamStatus::Spam,
            })
            .with_virus_status(match self.virus {
                0 => VirusStatus::Unknown,
                1 => VirusStatus::Clean,
                2 => VirusStatus::Replaced,
                3 => VirusStatus::Cured,
                _ => VirusStatus::Virus,
            });
        for (k, v) in &self.globals {
            ctx.set_global_variable(k.clone(), Variable::from(v.clone()));
        }
        ctx
    }
}

/// A host that says yes or no by the hash of the question.
pub struct WildHost {
    pub yes: u64,
    pub includes: std::collections::BTreeMap<(bool, String), std::sync::Arc<sieve::Sieve>>,
    pub max: usize,
}

impl WildHost {
    pub fn reply(&self, ev: &sieve::Event) -> sieve::Input {
        use sieve::{Event, Input, Script};
        match ev {
            Event::IncludeScript { name, .. } => {
                let key = match name {
                    Script::Personal(n) => (false, n.clone()),
                    Script::Global(n) => (true, n.clone()),
                };
                match self.includes.get(&key) {
                    Some(s) => Input::Script { name: name.clone(), script: s.clone() },
                    None => Input::False,
                }
            }
            Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => {
                let h = crate::report::hash64(mask_ids(&format!("{ev:?}")).as_bytes());
                (((h ^ self.yes) >> 7) & 1 == 1).into()
            }
            Event::Function { id, arguments } => Input::FncResult(external_fn(*id, arguments)),
            _ => Input::True,
        }
    }

    pub fn run(&self, ctx: &mut Context<'_>, name: sieve::Script, script: std::sync::Arc<sieve::Sieve>) -> Trace {
        let mut trace = Trace::default();
        let mut input = sieve::Input::Script { name, script };
        while let Some(r) = ctx.run(input) {
            match r {
                Ok(ev) => {
                    input = self.reply(&ev);
                    trace.items.push(Item::Ev(ev));
                }
                Err(e) => {
                    trace.items.push(Item::Err(err_tag(&e)));
                    input = sieve::Input::True;
                }
            }
            if trace.items.len() >= self.max {
                trace.truncated = true;
                break;
            }
        }
        trace
    }
}

/// Generated ids and boundaries (`hex.hex.hex`) replaced by a fixed one.
pub fn mask_ids(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while !rest.is_empty() {
        let e = rest.find(|c: char| !(c.is_ascii_hexdigit() || c == '.')).unwrap_or(rest.len());
        if e >= 30 && rest[..e].matches('.').count() == 2 {
            out.push_str("ID");
        } else {
            out.push_str(&rest[..e]);
        }
        rest = &rest[e..];
        let n = rest.find(|c: char| c.is_ascii_hexdigit() || c == '.').unwrap_or(rest.len());
        out.push_str(&rest[..n]);
        rest = &rest[n..];
    }
    out
}
