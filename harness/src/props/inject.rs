//! C21: text from anywhere cannot add header fields, end the header section or add recipients.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::clock;
use crate::drive::*;
use crate::mime::b64;
use crate::pin::*;
use crate::props::edit::{c15, c22, q};
use crate::props::outgoing::{outgoing, parse_fields, Focus};
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Envelope, Event, Recipient};
use std::collections::BTreeMap;

/// Stands for the hostile text in a template.
const HOLE: char = '\u{F000}';

const HOSTILE: &[&str] = &[
    "\r\nX-Evil: 1",
    "\nX-Evil: 1",
    "\rX-Evil: 1",
    "\r\nX-Evil: 1\r\n",
    "\r\n\r\nX-Evil: 1",
    "\n\nX-Evil: 1\n\n",
    "\r\rX-Evil: 1",
    "\n\rX-Evil: 1",
    "\r\n\r\nbody",
    "\r\n",
    "\n",
    "\r",
    "\n\n",
    "\0\r\nX-Evil: 1",
    "\u{b}\r\nX-Evil: 1",
    "\u{85}X-Evil: 1",
    "é\r\nX-Evil: 1",
    "\r\n X-Evil: 1\r\nX-Evil: 1",
    ",evil@example.org\r\nX-Evil: 1",
    "\"\r\nX-Evil: 1",
    ">\r\nX-Evil: <1",
    "%0D%0AX-Evil:%201",
    "%0aX-Evil: 1",
    "&X-Evil=1",
    "?X-Evil=1",
    "&to=evil@example.org",
    "&bcc=evil@example.org",
    ",evil@example.org",
    "=?utf-8?q?=0D=0AX-Evil:_1?=",
    "=?utf-8?b?DQpYLUV2aWw6IDE=?=",
    "${hex:0d 0a}X-Evil: 1",
];

#[derive(Clone, Debug)]
enum Piece {
    Lit(String),
    /// A string argument and the way its text gets there.
    Arg(usize, String),
    /// Inside of a quoted URI, percent-encoded.
    Enc(String, bool),
    /// The same by way of a variable and :encodeurl
    EncVar(String),
}

struct Case {
    pieces: Vec<Piece>,
    fields: Vec<(&'static str, String, usize)>,
    full: String,
    from: String,
    loose: bool,
    kinds: BTreeMap<&'static str, usize>,
}

#[derive(Default)]
struct Shown {
    script: String,
    raw: Vec<u8>,
    env: Vec<(String, String)>,
}

fn pct(s: &str, all: bool) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() && !all { (b as char).to_string() } else { format!("%{b:02x}") }).collect()
}

impl Case {
    fn show(&self, hole: &[&str]) -> (Shown, String, String) {
        let mut s = Shown::default();
        let mut n = 0;
        let mut fill = |x: &str| {
            let mut o = String::new();
            for c in x.chars() {
                if c == HOLE {
                    o.push_str(hole[n % hole.len()]);
                    n += 1;
                } else {
                    o.push(c);
                }
            }
            o
        };
        let mut pre = String::new();
        let mut main = String::new();
        let mut extra: Vec<(String, String)> = vec![];
        let mut vars = 0;
        for p in &self.pieces {
            match p {
                Piece::Lit(l) => main.push_str(l),
                Piece::Arg(way, x) => {
                    let x = fill(x);
                    match way {
                        0 => main.push_str(&q(&x)),
                        1 => {
                            let hex: Vec<String> = x.bytes().map(|b| format!("{b:02x}")).collect();
                            main.push_str(&format!("\"${{hex:{}}}\"", hex.join(" ")));
                        }
                        w => {
                            vars += 1;
                            match w {
                                2 => pre.push_str(&format!("global \"v{vars}\"; set \"v{vars}\" {};\n", q(&x))),
                                3 => pre.push_str(&format!("global \"v{vars}\"; if string :matches {} \"*\" {{ set \"v{vars}\" \"${{1}}\"; }}\n", q(&x))),
                                4 => {
                                    s.env.push((format!("v{vars}"), x));
                                    pre.push_str(&format!("global \"v{vars}\"; set \"v{vars}\" \"${{env.v{vars}}}\";\n"));
                                }
                                _ => {
                                    extra.push(("Comments".into(), x));
                                    pre.push_str(&format!("global \"v{vars}\"; set \"v{vars}\" \"${{header.comments[{}].text}}\";\n", extra.len()));
                                }
                            }
                            main.push_str(&format!("\"${{v{vars}}}\""));
                        }
                    }
                }
                Piece::Enc(x, all) => main.push_str(&pct(&fill(x), *all)),
                Piece::EncVar(x) => {
                    vars += 1;
                    pre.push_str(&format!("global \"v{vars}\"; set :encodeurl \"v{vars}\" {};\n", q(&fill(x))));
                    main.push_str(&format!("${{v{vars}}}"));
                }
            }
        }
        for (n, v, way) in &self.fields {
            let v = fill(v);
            s.raw.extend(format!("{n}: ").bytes());
            match way {
                // the hostile part as an encoded word
                0 => s.raw.extend(format!("=?utf-8?b?{}?=", b64(v.as_bytes())).bytes()),
                // folded lines
                _ => {
                    let v: Vec<&str> = v.split(['\r', '\n']).filter(|x| !x.is_empty()).collect();
                    s.raw.extend(v.join("\r\n ").bytes());
                }
            }
            if *n == "From" {
                s.raw.extend(b" <sender@example.net>");
            }
            s.raw.extend(b"\r\n");
        }
        for (n, v) in extra {
            s.raw.extend(format!("{n}: =?utf-8?b?{}?=\r\n", b64(v.as_bytes())).bytes());
        }
        s.raw.extend(b"To: me@example.com\r\nX-Last: end\r\n\r\nbody\r\n");
        s.script = pre + &main;
        (s, fill(&self.full), fill(&self.from))
    }
}

fn arg(t: &mut Tape, text: &str) -> Piece {
    let text = if t.chance(3, 4) {
        match t.n(3) {
            0 => format!("{text}{HOLE}"),
            1 => format!("{text}{HOLE}tail"),
            _ => format!("{text}{HOLE}mid{HOLE}tail"),
        }
    } else {
        text.to_string()
    };
    Piece::Arg(t.n(6), text)
}

fn sinks(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut c = Case { pieces: vec![], fields: vec![], full: String::new(), from: "sender@example.net".into(), loose: false, kinds: BTreeMap::new() };
    let lit = |s: &str| Piece::Lit(s.to_string());
    for n in ["From", "Subject", "Message-ID", "References"] {
        if t.chance(4, 5) {
            let base = match n {
                "From" => "Some Sender",
                "Subject" => "the subject",
                "Message-ID" => "<a.b@c>",
                _ => "<r1@c>",
            };
            let v = match t.n(3) {
                0 => base.to_string(),
                1 => format!("{base}{HOLE}"),
                _ => format!("{base}{HOLE}tail"),
            };
            let way = if n == "Subject" || n == "From" { t.n(2) } else { 1 };
            // folded ids are parsed as ids: anything else in them is left open
            c.fields.push((n, v, way));
        }
    }
    if t.chance(1, 2) {
        c.full = format!("Joe{HOLE}tail");
    }
    if t.chance(1, 8) {
        c.from = format!("sender{HOLE}@example.net");
        c.loose = true;
    }
    for _ in 0..1 + t.n(3) {
        let k = t.n(9);
        let name = ["vacation", "notify", "redirect", "addheader", "replace", "enclose", "envelope", "plain notify", "list"][k];
        *c.kinds.entry(name).or_default() += 1;
        let p = &mut c.pieces;
        match k {
            0 => {
                p.push(lit("vacation "));
                if t.bool() {
                    p.push(lit(":subject "));
                    p.push(arg(t, "away"));
                }
                if t.bool() {
                    p.push(lit(" :from "));
                    // literals that are not addresses do not compile
                    let a = arg(t, "me@example.com");
                    p.push(match a {
                        Piece::Arg(w, x) if w < 2 => Piece::Arg(2, x),
                        a => a,
                    });
                }
                if t.bool() {
                    p.push(lit(" :handle "));
                    let n = p.len();
                    p.push(arg(t, &format!("h{n}")));
                }
                if t.chance(1, 3) {
                    p.push(lit(" :mime "));
                    let n = p.len();
                    p.push(arg(t, &format!("Content-Type: text/plain\r\n\r\ntext{n}")));
                } else {
                    p.push(lit(" "));
                    let n = p.len();
                    p.push(arg(t, &format!("gone{n}")));
                }
                p.push(lit(";\n"));
            }
            1 => {
                p.push(lit("set \"uri\" \"mailto:"));
                let piece = |t: &mut Tape, s: &str| {
                    let text = if t.chance(3, 4) { format!("{s}{HOLE}tail") } else { s.to_string() };
                    if t.bool() { Piece::Enc(text, t.bool()) } else { Piece::EncVar(text) }
                };
                if t.chance(1, 4) {
                    c.loose = true;
                    p.push(piece(t, "joe"));
                    p.push(lit("@example.com"));
                } else {
                    p.push(lit("joe@example.com"));
                }
                for i in 0..t.n(4) {
                    p.push(lit(if i == 0 { "?" } else { "&" }));
                    let f = *t.pick(&["subject", "body", "X-Some", "Comments", "keywords", "In-Reply-To", "cc", "name"]);
                    match f {
                        "cc" => {
                            p.push(lit("cc=ann@example.com"));
                            continue;
                        }
                        "name" => {
                            c.loose = true;
                            p.push(piece(t, "X-Name"));
                            p.push(lit("="));
                        }
                        f => p.push(lit(&format!("{f}="))),
                    }
                    p.push(piece(t, "text"));
                }
                p.push(lit("\";\n"));
                p.push(lit("notify "));
                if t.chance(1, 3) {
                    p.push(lit(":from "));
                    let a = arg(t, "me@example.com");
                    p.push(match a {
                        Piece::Arg(w, x) if w < 2 => Piece::Arg(2, x),
                        a => a,
                    });
                }
                if t.chance(1, 3) {
                    p.push(lit(" :importance "));
                    p.push(arg(t, "1"));
                }
                if t.bool() {
                    p.push(lit(" :message "));
                    p.push(arg(t, "you have mail"));
                }
                p.push(lit(" \"${uri}\";\n"));
            }
            2 => {
                p.push(lit("redirect "));
                if t.chance(1, 4) {
                    p.push(lit(":notify \"failure\" :ret \"hdrs\" "));
                }
                let a = match t.n(3) {
                    0 => arg(t, "joe@example.com"),
                    1 => arg(t, "<joe@example.com>"),
                    _ => Piece::Arg(t.n(6), format!("joe{HOLE}@example{HOLE}.com")),
                };
                p.push(match a {
                    Piece::Arg(w, x) if w < 2 => Piece::Arg(2, x),
                    a => a,
                });
                p.push(lit(";\n"));
            }
            3 => {
                p.push(lit("addheader "));
                if t.bool() {
                    p.push(lit(":last "));
                }
                if t.chance(1, 3) {
                    c.loose = true;
                    // literals that are not names do not compile
                    p.push(match arg(t, "X-Added") {
                        Piece::Arg(w, x) if w < 2 => Piece::Arg(2, x),
                        a => a,
                    });
                } else {
                    p.push(lit("\"X-Added\""));
                }
                p.push(lit(" "));
                p.push(arg(t, "value"));
                p.push(lit(";\n"));
            }
            4 => {
                p.push(lit("replace "));
                if t.chance(2, 3) {
                    p.push(lit(":subject "));
                    p.push(arg(t, "new"));
                }
                if t.chance(2, 3) {
                    p.push(lit(" :from "));
                    p.push(arg(t, "me@example.com"));
                }
                if t.chance(1, 3) {
                    p.push(lit(" :mime "));
                    let a = arg(t, "Content-Type: text/plain\r\n\r\ntext");
                    p.push(a);
                } else {
                    p.push(lit(" "));
                    p.push(arg(t, "gone"));
                }
                p.push(lit(";\n"));
            }
            5 => {
                p.push(lit("enclose "));
                if t.chance(2, 3) {
                    p.push(lit(":subject "));
                    p.push(arg(t, "new"));
                }
                if t.chance(2, 3) {
                    p.push(lit(" :headers ["));
                    for i in 0..1 + t.n(2) {
                        p.push(lit(if i > 0 { "," } else { "" }));
                        p.push(arg(t, "X-Enc: value"));
                    }
                    p.push(lit("]"));
                }
                p.push(lit(" "));
                p.push(arg(t, "gone"));
                p.push(lit(";\n"));
            }
            6 => {
                c.loose = true;
                let n = *t.pick(&["from", "to", "orcpt", "envid"]);
                p.push(lit(&format!("set \"envelope.{n}\" ")));
                p.push(match t.n(2) {
                    0 => arg(t, "joe@example.com"),
                    _ => Piece::Arg(t.n(6), format!("joe{HOLE}@example{HOLE}.com")),
                });
                p.push(lit(";\n"));
            }
            7 => {
                p.push(lit("notify :message "));
                p.push(arg(t, "text"));
                p.push(lit(" :fcc "));
                p.push(arg(t, "Sent"));
                p.push(lit(" \"tel:1\";\n"));
            }
            _ => {
                p.push(lit("redirect :list "));
                p.push(arg(t, "tag:example.com,2024:all"));
                p.push(lit(";\n"));
            }
        }
    }
    let moved = |k: &[&str]| k.iter().any(|k| c.kinds.contains_key(k));
    if moved(&["redirect", "list"]) && moved(&["addheader", "replace", "enclose"]) {
        // an edited message is reported when it is sent on
        c.loose = true;
    }
    let mut hole = vec![];
    for _ in 0..4 {
        hole.push(*t.pick(HOSTILE));
    }
    for k in c.kinds.keys() {
        rep.label(k);
    }
    let orig = t.chance(1, 4);
    let (a, full_a, from_a) = c.show(&hole);
    let (b, full_b, from_b) = c.show(&["word"]);
    rep.desc = format!("{}\n--- message\n{}\n--- name {full_a:?} from {from_a:?} env {:?}", a.script, String::from_utf8_lossy(&a.raw), a.env);
    let run = |s: &Shown, full: &str, from: &str| -> Result<Trace, Failure> {
        let sieve = compile(&full_compiler().either_max_string_size(1 << 20), &format!("{ALL_CAPS}{}", s.script))?;
        let rt = full_runtime().either_max_variable_size(1 << 20).either_max_redirects(50).either_max_out_messages(50).with_vacation_use_orig_rcpt(orig).with_valid_notification_uri("mailto");
        Ok(clock::at(946684800, || {
            let mut ctx = rt.filter(&s.raw).with_user_address("me@example.com").with_user_full_name(full);
            ctx.set_envelope(Envelope::From, from.to_string());
            ctx.set_envelope(Envelope::To, "me@example.com".to_string());
            for (n, v) in &s.env {
                ctx.set_env_variable(n.clone(), v.clone());
            }
            drive(&mut ctx, sieve, &mut Host::new())
        }))
    };
    let ta = run(&a, &full_a, &from_a)?;
    let heads_a = inspect(&ta, true)?;
    rep.nontrivial_if(!heads_a.is_empty() || ta.items.len() > 1);
    rep.label_if(!heads_a.is_empty(), "created");
    if !c.loose {
        let tb = run(&b, &full_b, &from_b)?;
        let heads_b = inspect(&tb, false)?;
        rep.label("compared");
        if heads_a != heads_b {
            return fail("fields-differ", format!("hostile text gives {heads_a:?}, a word {heads_b:?}"));
        }
    }
    Ok(())
}

/// Field names of the created messages and recipients of groups; nothing may be hostile.
fn inspect(tr: &Trace, hostile: bool) -> Result<Vec<Vec<String>>, Failure> {
    let mut r = vec![];
    let bad = |s: &str| s.contains(['\r', '\n']);
    for i in &tr.items {
        match i {
            Item::Ev(Event::CreatedMessage { message, .. }) => {
                let text = String::from_utf8_lossy(message).to_string();
                let Some((head, _)) = text.split_once("\r\n\r\n") else {
                    return fail("no-header-end", format!("{text:?}"));
                };
                let f = match parse_fields(format!("{head}\r\n").as_bytes()) {
                    Ok(f) => f,
                    Err(e) => return fail("broken-header", format!("{e} in {text:?}")),
                };
                if f.iter().any(|x| x.0.starts_with("x-evil")) {
                    return fail("field-added", format!("{text:?}"));
                }
                let _ = hostile;
                r.push(f.into_iter().map(|x| x.0).collect());
            }
            Item::Ev(Event::SendMessage { recipient, notify, .. }) => {
                let l = match recipient {
                    Recipient::Address(a) | Recipient::List(a) => vec![a.clone()],
                    Recipient::Group(l) => l.clone(),
                };
                if l.iter().any(|a| bad(a)) {
                    return fail("line-break-in-recipient", format!("{i:?}"));
                }
                let _ = notify;
                if let Recipient::Group(l) = recipient {
                    r.push(l.clone());
                }
            }
            Item::Ev(Event::SetEnvelope { envelope: Envelope::From | Envelope::To, value }) => {
                if bad(value) {
                    return fail("line-break-in-envelope", format!("{i:?}"));
                }
            }
            _ => (),
        }
    }
    Ok(r)
}

fn c21(t: &mut Tape, rep: &mut Report) -> CaseResult {
    match t.n(8) {
        0..=3 => sinks(t, rep),
        4 | 5 => outgoing(t, rep, Focus::Hostile),
        6 => c15(t, rep),
        _ => c22(t, rep),
    }
}

fn pins() -> Pinned {
    let coded = "From: sender@example.net\r\nTo: me@example.com\r\nSubject: =?utf-8?b?YQ0KWC1FdmlsOiAx?=\r\n\r\nbody\r\n";
    vec![
        pin("redirect address", || expect("redirect \"\\\"joe\\r\\nX: y\\\"@example.com\";", MSG, &["Keep []"])),
        pin("vacation subject", || expect_head("vacation :subject \"a\\r\\nX-Evil: 1\" \"gone\";", MSG, &[], &["X-Evil"])),
        pin("original subject", move || expect_head("vacation \"gone\";", coded, &[], &["X-Evil"])),
        pin("notified subject", move || expect_head("notify \"mailto:a@b.cc\";", coded, &[], &["X-Evil"])),
        pin("URI field", || expect_head("notify \"mailto:a@b.cc?comments=x%0d%0aX-Evil:1\";", MSG, &[], &["X-Evil"])),
        pin("enclosed subject", || expect_head("enclose :subject \"a\\nX-Evil: 1\" :headers \"X-A: b\\r\\nX-Evil: 1\" \"text\";", MSG, &[], &["X-Evil"])),
        pin("added value", || expect_head("addheader \"X-A\" \"a\\r\\nX-Evil: 1\";", MSG, &[], &["X-Evil"])),
        pin("replaced sender", || expect_head("replace :subject \"a\\nX-Evil: 1\" :from \"b@c.dd\\rX-Evil: 1\" \"text\";", MSG, &[], &["X-Evil"])),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        quick: 1_200_000,
        thorough: 20_000_000,
        run: c21,
        pinned: pins,
        rule: "a message is created, sent or edited",
        assumptions: &["names and values given as complete MIME entities (:mime) are the script author's own fields"],
    }]
}
