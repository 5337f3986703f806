//! Messages built from known pieces: the model of a message keeps every header field and body
//! as the octets they are made of together with what they mean.
use crate::tape::Tape;

#[derive(Debug, Clone, PartialEq)]
pub struct Addr {
    pub name: Option<String>,
    pub local: String,
    pub domain: String,
}

impl Addr {
    pub fn all(&self) -> String {
        format!("{}@{}", self.local, self.domain)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Text,
    Addr(Vec<Addr>),
    ContentType,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Field {
    pub name: String,
    pub raw: Vec<u8>,
    /// Unfolded and decoded.
    pub text: String,
    pub kind: Kind,
    /// Made by an edit.
    pub added: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Body {
    Leaf { raw: Vec<u8>, decoded: Vec<u8>, text: Option<String> },
    Multi { boundary: String, pre: Vec<u8>, kids: Vec<Part>, epi: Vec<u8> },
    Msg(Box<Part>),
    /// Made by an enclosure.
    Enclosed { boundary: String, kids: Vec<Part> },
    /// Follows the fields without a separator.
    Raw(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Part {
    pub ctype: (String, String),
    pub fields: Vec<Field>,
    pub body: Body,
    pub nl: &'static str,
    /// Identifies the part whatever happens around it.
    pub uid: usize,
}

impl Part {
    /// Numbers the parts.
    pub fn number(&mut self, next: &mut usize) {
        *next += 1;
        self.uid = *next;
        match &mut self.body {
            Body::Multi { kids, .. } | Body::Enclosed { kids, .. } => kids.iter_mut().for_each(|k| k.number(next)),
            Body::Msg(m) => m.number(next),
            _ => (),
        }
    }

    pub fn index_of(&self, uid: usize) -> Option<usize> {
        (0..self.count()).find(|i| self.get(*i).unwrap().uid == uid)
    }

    pub fn render(&self) -> Vec<u8> {
        let mut out = vec![];
        self.write(&mut out);
        out
    }

    fn write(&self, out: &mut Vec<u8>) {
        for f in &self.fields {
            out.extend(&f.raw);
        }
        if let Body::Raw(r) = &self.body {
            out.extend(r.as_bytes());
            return;
        }
        if !matches!(self.body, Body::Enclosed { .. }) {
            out.extend(self.nl.as_bytes());
        }
        self.write_body(out);
    }

    pub fn write_body(&self, out: &mut Vec<u8>) {
        match &self.body {
            Body::Leaf { raw, .. } => out.extend(raw),
            Body::Multi { boundary, pre, kids, epi } => {
                out.extend(pre);
                for (i, k) in kids.iter().enumerate() {
                    if i > 0 || !pre.is_empty() {
                        out.extend(self.nl.as_bytes());
                    }
                    out.extend(b"--");
                    out.extend(boundary.as_bytes());
                    out.extend(self.nl.as_bytes());
                    k.write(out);
                }
                out.extend(self.nl.as_bytes());
                out.extend(b"--");
                out.extend(boundary.as_bytes());
                out.extend(b"--");
                out.extend(self.nl.as_bytes());
                out.extend(epi);
            }
            Body::Enclosed { boundary, kids } => {
                for k in kids {
                    out.extend(format!("\r\n--{boundary}\r\n").as_bytes());
                    k.write(out);
                }
                out.extend(format!("\r\n--{boundary}--\r\n").as_bytes());
            }
            Body::Msg(m) => m.write(out),
            Body::Raw(_) => (),
        }
    }

    /// The parts in depth-first order, not entering attached messages.
    pub fn count(&self) -> usize {
        match &self.body {
            Body::Multi { kids, .. } | Body::Enclosed { kids, .. } => 1 + kids.iter().map(|k| k.count()).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn nth(&mut self, n: usize) -> Option<&mut Part> {
        if n == 0 {
            return Some(self);
        }
        let mut n = n - 1;
        if let Body::Multi { kids, .. } | Body::Enclosed { kids, .. } = &mut self.body {
            for k in kids {
                let c = k.count();
                if n < c {
                    return k.nth(n);
                }
                n -= c;
            }
        }
        None
    }

    pub fn get(&self, n: usize) -> Option<&Part> {
        if n == 0 {
            return Some(self);
        }
        let mut n = n - 1;
        if let Body::Multi { kids, .. } | Body::Enclosed { kids, .. } = &self.body {
            for k in kids {
                let c = k.count();
                if n < c {
                    return k.get(n);
                }
                n -= c;
            }
        }
        None
    }

    pub fn values<'a>(&'a self, name: &'a str) -> impl DoubleEndedIterator<Item = &'a Field> + 'a {
        self.fields.iter().filter(move |f| f.name.eq_ignore_ascii_case(name))
    }
}

pub struct Opts {
    pub depth: usize,
    pub rfc822: bool,
    /// Names for extra fields.
    pub names: &'static [&'static str],
    pub leaf_only: bool,
}

pub const TEXT_NAMES: &[&str] = &["Subject", "X-A", "X-B", "x-a", "X-Loooooooooooong-Name", "Comments", "SUBJECT", "Original-Subject", "X-Prot", "Precedence", "Keywords", "Organization", "Content-Description", "List-Id"];
const WORDS: &[&str] = &["a", "b", "hello", "World", "x1", "42", "foo@bar.org", "<tag>", "(c)", "\"q\"", "a:b", "semi;", "=?x", "*", "?", "café", "007", "UPPER", "back\\slash", ","];

pub fn random_case(t: &mut Tape, s: &str) -> String {
    match t.n(5) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s.to_string(),
    }
}

/// A text value: what stands in the message and what it says.
pub fn text_value(t: &mut Tape, nl: &str) -> (Vec<u8>, String) {
    let mut raw = vec![];
    let mut text = String::new();
    let n = match t.n(5) {
        0 => 0,
        1 => 1,
        _ => 1 + t.n(5),
    };
    let mut last_enc = false;
    for i in 0..n {
        let enc = t.chance(1, 8);
        if i > 0 {
            if t.chance(1, 6) {
                raw.extend(nl.as_bytes());
            }
            raw.push(b' ');
            if !(enc && last_enc) {
                text.push(' ');
            }
        }
        last_enc = enc;
        if enc {
            let (r, v) = *t.pick(&[
                ("=?utf-8?Q?J=C3=B6rg?=", "Jörg"),
                ("=?iso-8859-1?Q?caf=E9?=", "café"),
                ("=?UTF-8?B?w6TDtsO8?=", "äöü"),
                ("=?utf-8?q?a_b=3D?=", "a b="),
                ("=?us-ascii?b?cGxhaW4=?=", "plain"),
            ]);
            raw.extend(r.as_bytes());
            text.push_str(v);
        } else {
            let w = *t.pick(WORDS);
            raw.extend(w.as_bytes());
            text.push_str(w);
        }
    }
    (raw, text)
}

pub fn text_field(t: &mut Tape, name: &str, nl: &str) -> Field {
    let (v, text) = text_value(t, nl);
    let mut raw = name.as_bytes().to_vec();
    raw.push(b':');
    match t.n(8) {
        0 => (),
        1 => raw.extend(b"  "),
        2 if !v.is_empty() => {
            raw.extend(nl.as_bytes());
            raw.push(b' ');
        }
        _ => raw.push(b' '),
    }
    raw.extend(v);
    raw.extend(nl.as_bytes());
    Field { name: name.to_string(), raw, text, kind: Kind::Text, added: false }
}

pub fn plain_field(name: &str, value: &str, nl: &str) -> Field {
    Field { name: name.to_string(), raw: format!("{name}: {value}{nl}").into_bytes(), text: value.to_string(), kind: Kind::Text, added: false }
}

pub fn addr_field(t: &mut Tape, name: &str, nl: &str) -> Field {
    let n = 1 + t.len(4);
    let mut addrs = vec![];
    let mut raw = format!("{name}: ");
    let mut text = String::new();
    for i in 0..n {
        let a = Addr {
            name: None,
            local: t.pick(&["joe", "jane.doe", "me", "user+detail", "Bob", "x", "user+a+b", "a-b_c"]).to_string(),
            domain: t.pick(&["example.com", "Example.ORG", "x.y", "sub.example.net"]).to_string(),
        };
        let (r, nm, plain): (String, Option<&str>, String) = match t.n(7) {
            0 | 1 => (a.all(), None, a.all()),
            2 => (format!("<{}>", a.all()), None, format!("<{}>", a.all())),
            3 => (format!("Joe Q Public <{}>", a.all()), Some("Joe Q Public"), format!("Joe Q Public <{}>", a.all())),
            4 => (format!("\"Doe, Jane\" <{}>", a.all()), Some("Doe, Jane"), format!("\"Doe, Jane\" <{}>", a.all())),
            5 => (format!("=?utf-8?Q?J=C3=B6rg?= <{}>", a.all()), Some("Jörg"), format!("Jörg <{}>", a.all())),
            _ => (format!("\"x\" <{}>", a.all()), Some("x"), format!("\"x\" <{}>", a.all())),
        };
        if i > 0 {
            raw.push(',');
            if t.chance(1, 3) {
                raw.push_str(nl);
            }
            raw.push(' ');
            text.push_str(", ");
        }
        raw.push_str(&r);
        text.push_str(&plain);
        addrs.push(Addr { name: nm.map(|s| s.to_string()), ..a });
    }
    raw.push_str(nl);
    Field { name: name.to_string(), raw: raw.into_bytes(), text, kind: Kind::Addr(addrs), added: false }
}

fn leaf_text(t: &mut Tape, nl: &str) -> String {
    let mut s = String::new();
    for _ in 0..t.n(5) {
        s.push_str(t.pick(&["hello", "body", "needle", "x", "From me", ".", "a=b", "--", "--x", "tail ", "", "two words", "Subject: no"]));
        s.push_str(nl);
    }
    if t.bool() {
        s.push_str("end");
    }
    s
}

pub fn b64(data: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

pub fn qp(data: &[u8], nl: &str, t: &mut Tape) -> String {
    let mut o = String::new();
    let mut col = 0;
    let s: Vec<u8> = data.to_vec();
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with(nl.as_bytes()) {
            o.push_str(nl);
            col = 0;
            i += nl.len();
            continue;
        }
        let c = s[i];
        let end = i + 1 >= s.len() || s[i + 1..].starts_with(nl.as_bytes());
        if c == b'=' || !(32..127).contains(&c) || (c == b' ' && end) || t.chance(1, 20) {
            o.push_str(&format!("={c:02X}"));
            col += 3;
        } else {
            o.push(c as char);
            col += 1;
        }
        if (col > 60 || t.chance(1, 25)) && !end {
            o.push('=');
            o.push_str(nl);
            col = 0;
        }
        i += 1;
    }
    o
}

/// A part with its own fields.
pub fn part(t: &mut Tape, o: &Opts, depth: usize, top: bool, nl: &'static str, ids: &mut usize) -> Part {
    let mut fields = vec![];
    let n = if top { 1 + t.n(6) } else { t.n(3) };
    for _ in 0..n {
        let name = *t.pick(o.names);
        let name = random_case(t, name);
        let low = name.to_ascii_lowercase();
        fields.push(if ["from", "to", "cc", "bcc", "sender", "reply-to", "resent-to", "resent-from"].contains(&low.as_str()) { addr_field(t, &name, nl) } else { text_field(t, &name, nl) });
    }
    let kind = if o.leaf_only {
        t.n(3)
    } else if depth == 0 {
        t.n(5)
    } else {
        t.n(9)
    };
    let place = |t: &mut Tape, fields: &mut Vec<Field>, f: Field| {
        let at = t.n(fields.len() + 1);
        fields.insert(at, f);
    };
    let ct = |v: String| {
        let mut f = plain_field("Content-Type", &v, nl);
        f.kind = Kind::ContentType;
        f
    };
    let (ctype, body) = match kind {
        6.. if depth > 0 => {
            *ids += 1;
            let boundary = t.pick(&["b", "--x", "=_part.", "b b"]).to_string() + &ids.to_string();
            let sub = t.pick(&["mixed", "mixed", "alternative", "related", "digest-x"]).to_string();
            let f = ct(format!("multipart/{sub}; boundary=\"{boundary}\""));
            place(t, &mut fields, f);
            let pre = if t.chance(1, 4) { b"preamble".to_vec() } else { vec![] };
            let epi = if t.chance(1, 4) { format!("epilogue{nl}").into_bytes() } else { vec![] };
            let k = 1 + t.n(3);
            let kids = (0..k).map(|_| part(t, o, depth - 1, false, nl, ids)).collect();
            (("multipart".to_string(), sub), Body::Multi { boundary, pre, kids, epi })
        }
        5 if o.rfc822 && !top => {
            let f = ct("message/rfc822".into());
            place(t, &mut fields, f);
            let mut inner = part(t, &Opts { depth: 0, rfc822: false, names: o.names, leaf_only: true }, 0, true, nl, ids);
            if inner.fields.is_empty() {
                inner.fields.push(plain_field("Subject", "inner", nl));
            }
            (("message".to_string(), "rfc822".to_string()), Body::Msg(Box::new(inner)))
        }
        k => {
            let text = leaf_text(t, nl);
            // text with characters outside ASCII
            let utext = if t.chance(1, 3) { format!("{text}é ü") } else { text.clone() };
            let mut cte = None;
            let (ctype, raw, decoded, dec_text) = match k {
                0 => (("text", "plain"), text.clone().into_bytes(), text.clone().into_bytes(), Some(text)),
                1 => {
                    let html = t.chance(1, 4);
                    let sub = if html { "html" } else { "plain" };
                    let utext = if html { format!("<p>{}</p>", utext.replace(['<', '&'], "")) } else { utext };
                    let f = ct(format!("text/{sub}; charset=utf-8"));
                    place(t, &mut fields, f);
                    (("text", sub), utext.clone().into_bytes(), utext.clone().into_bytes(), Some(utext))
                }
                2 => {
                    let f = ct("text/plain; charset=\"utf-8\"".into());
                    place(t, &mut fields, f);
                    cte = Some("quoted-printable");
                    (("text", "plain"), qp(utext.as_bytes(), nl, t).into_bytes(), utext.clone().into_bytes(), Some(utext))
                }
                3 => {
                    let f = ct("text/plain; charset=iso-8859-1".into());
                    place(t, &mut fields, f);
                    let bytes: Vec<u8> = utext.chars().map(|c| c as u32 as u8).collect();
                    cte = Some("base64");
                    (("text", "plain"), b64(&bytes).into_bytes(), bytes, Some(utext))
                }
                _ => {
                    let data: Vec<u8> = (0..t.n(40)).map(|_| t.n(256) as u8).collect();
                    let (a, b) = *t.pick(&[("application", "octet-stream"), ("image", "png"), ("application", "pdf")]);
                    let f = ct(format!("{a}/{b}"));
                    place(t, &mut fields, f);
                    cte = Some("base64");
                    ((a, b), b64(&data).into_bytes(), data, None)
                }
            };
            if let Some(c) = cte {
                let f = plain_field("Content-Transfer-Encoding", c, nl);
                place(t, &mut fields, f);
            }
            ((ctype.0.to_string(), ctype.1.to_string()), Body::Leaf { raw, decoded, text: dec_text })
        }
    };
    if top && fields.is_empty() {
        fields.push(plain_field("Subject", "x", nl));
    }
    Part { ctype, fields, body, nl, uid: 0 }
}

pub fn message(t: &mut Tape, o: &Opts) -> Part {
    let nl = if t.chance(1, 6) { "\n" } else { "\r\n" };
    let mut ids = 0;
    let m = part(t, o, o.depth, true, nl, &mut ids);
    if parser_panics(&m.render()) {
        return part(t, &Opts { depth: 0, rfc822: false, names: o.names, leaf_only: true }, 0, true, nl, &mut ids);
    }
    m
}

/// The mail parser (a dependency) panics on some nested alternatives: a known finding of C03.
pub fn parser_panics(raw: &[u8]) -> bool {
    raw.windows(12).any(|w| w.eq_ignore_ascii_case(b"/alternative"))
        && std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mail_parser::MessageParser::new().parse(raw).is_some())).is_err()
}

/// `*` any run, `?` one character, `\` escapes; ASCII case folded.
pub fn glob_ascii(pattern: &str, text: &str, fold: bool) -> bool {
    fn m(p: &[char], s: &[char], fold: bool) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => (0..=s.len()).any(|i| m(&p[1..], &s[i..], fold)),
            Some('?') => !s.is_empty() && m(&p[1..], &s[1..], fold),
            Some('\\') if p.len() > 1 => !s.is_empty() && eq(p[1], s[0], fold) && m(&p[2..], &s[1..], fold),
            Some(c) => !s.is_empty() && eq(*c, s[0], fold) && m(&p[1..], &s[1..], fold),
        }
    }
    fn eq(a: char, b: char, fold: bool) -> bool {
        a == b || (fold && a.to_lowercase().eq(b.to_lowercase()))
    }
    m(&pattern.chars().collect::<Vec<_>>(), &text.chars().collect::<Vec<_>>(), fold)
}

pub fn low(s: &str) -> String {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}
