//! C07: literals denote what is written.  C02: limits are exact.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::pin::{expect_folders, pin, Pinned, MSG};
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Compiler, Event};
use std::sync::Arc;

// ------------------------------------------------------------------ C07

const ATOMS: &[&str] = &[
    "a", "b", "Z", "0", "1", "9", "7", ".", "..", "-", " ", "\t", "\n", "\n.", "\n..", "\r\n", "\r\n.", "\r\n.\r\n", "\n.\n", "\"", "\\", "\\\\", "\\\"", "#", "/*", "*/",
    "//", ";", ",", "{", "}", "[", "]", "(", ")", ":", "text:", "keep;", "$", "%", "${", "${}", "${a b}", "%{", "é", "ß", "漢字", "😀", "\u{301}", "\u{fffd}", "\u{feff}", "\u{1}",
    "\u{7f}", "\0", "\r", "*", "?", "@", "<x@y>", "E", "e", "+", "_", "'", "~", "hex: 41", "n", "r", "t", "\u{2028}", "\u{85}",
];

const NUMBERS: &[&str] = &[
    "0", "-0", "007", "1", "-1", "10", "1.0", "0.1", "1.50", ".5", "5.", "-1.5", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "-9223372036854775809", "18446744073709551616", "0.30000000000000004", "1.7976931348623157e308", "-", ".", "--1", "1-1", "1.2.3", "0x10", "1K", "00", "-0.0", "100.0", "4.2",
    "123456789.123456789", "99999999999999999999.5", "1 ", " 1", "+1", "NaN", "inf", "1_000",
];

fn value(t: &mut Tape) -> String {
    let mut s = match t.n(10) {
        0 | 1 => {
            let mut s = t.pick(NUMBERS).to_string();
            if t.chance(1, 3) {
                s.push_str(&t.string_of(&["1", ".", "-", "0", "x", "\n"], 4));
            }
            s
        }
        2 => t.string_of(&["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ".", "-"], 22),
        3 => t.string_of(&[".", "\n", "\r\n", "x", "\r"], 14),
        4 => t.string_of(&["\\", "\"", "n", "r", "t", "x", "\n", "{", "$"], 14),
        5 => {
            let mut s = String::new();
            for _ in 0..t.len(20) {
                if let Some(c) = char::from_u32(t.n(0x11_0000) as u32) {
                    s.push(c);
                }
            }
            s
        }
        6 => {
            let mut s = t.string_of(ATOMS, 10);
            let n = t.n(1500);
            s = s.repeat(1 + n / (s.len() + 1));
            s
        }
        _ => t.string_of(ATOMS, 24),
    };
    if forms_reference(&s) {
        s = s.replace('$', "S");
    }
    while s.len() > 3900 {
        s.pop();
    }
    s
}

/// Whether the text holds something that reads as a variable or an encoded character.
fn forms_reference(s: &str) -> bool {
    let b = s.as_bytes();
    for i in 0..b.len().saturating_sub(2) {
        if &b[i..i + 2] == b"${" {
            let e = b[i + 2..].iter().position(|c| *c == b'}').map(|n| i + 2 + n);
            if let Some(e) = e {
                let name = &b[i + 2..e];
                if !name.is_empty() && name.iter().all(|c| c.is_ascii_alphanumeric() || b"_.-[]*:".contains(c)) {
                    return true;
                }
                if name.contains(&b':') && !name.contains(&b'$') {
                    return true;
                }
            }
        }
    }
    false
}

/// One of the ways of writing a value; says which.
pub fn literal(t: &mut Tape, v: &str) -> (String, &'static str) {
    match t.n(8) {
        0..=2 => (quoted(t, v), "quoted"),
        3 | 4 if v.is_empty() || v.ends_with('\n') => (multiline(t, v), "multiline"),
        5 => {
            let e = encoded(t, v, false);
            (quoted(t, &e), "hex")
        }
        6 => {
            let e = encoded(t, v, true);
            (quoted(t, &e), "unicode")
        }
        7 if v.ends_with('\n') || v.is_empty() => {
            let u = t.bool();
            let e = encoded(t, v, u);
            // an encoded end of line is followed by none in the text itself: keep the last one
            if e.ends_with('\n') || e.is_empty() {
                (multiline(t, &e), "encoded multiline")
            } else {
                (multiline(t, v), "multiline")
            }
        }
        _ => (quoted(t, v), "quoted"),
    }
}

fn quoted(t: &mut Tape, v: &str) -> String {
    let extra = t.chance(1, 3);
    let controls = t.chance(1, 3);
    let mut out = String::from("\"");
    let mut last = ' ';
    for c in v.chars() {
        match c {
            '"' | '\\' => {
                out.push('\\');
                out.push(c);
            }
            '\n' if controls => out.push_str("\\n"),
            '\r' if controls => out.push_str("\\r"),
            '\t' if controls => out.push_str("\\t"),
            // a needless escape; not for the opening of a reference, which is read after the
            // escapes, nor for the letters with a meaning of their own
            _ if extra && !c.is_control() && !matches!(c, 'n' | 'r' | 't' | '{') && last != '{' && t.chance(1, 4) => {
                out.push('\\');
                out.push(c);
            }
            _ => out.push(c),
        }
        last = c;
    }
    out.push('"');
    out
}

fn multiline(t: &mut Tape, v: &str) -> String {
    let mut out = String::from(*t.pick(&["text:", "TEXT:", "Text:"]));
    let end = *t.pick(&["\n", "\r\n"]);
    out.push_str(*t.pick(&["", " ", "\t", " # \"comment\" { ;"]));
    out.push_str(end);
    for line in v.split_inclusive('\n') {
        if let Some(rest) = line.strip_prefix('.') {
            // a dot before anything but a dot or the end of the line may also stand for itself
            if rest.starts_with(['.', '\r', '\n']) || rest.is_empty() || t.bool() {
                out.push('.');
            }
        }
        out.push_str(line);
    }
    out.push('.');
    out.push_str(t.pick(&["\n", "\r\n"]));
    out
}

/// Writes some runs of characters as encoded characters.
fn encoded(t: &mut Tape, v: &str, unicode: bool) -> String {
    let mut out = String::new();
    let cs: Vec<char> = v.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if !t.chance(1, 3) || out.len() > 3000 {
            out.push(cs[i]);
            i += 1;
            continue;
        }
        let n = (1 + t.n(4)).min(cs.len() - i);
        out.push_str("${");
        let name = if unicode { "unicode" } else { "hex" };
        if t.chance(1, 4) {
            out.push_str(&name.to_uppercase());
        } else {
            out.push_str(name);
        }
        out.push(':');
        if t.bool() {
            out.push(' ');
        }
        let mut codes: Vec<String> = vec![];
        for c in &cs[i..i + n] {
            if unicode {
                let mut s = format!("{:x}", *c as u32);
                if t.chance(1, 3) {
                    s = s.to_uppercase();
                }
                if t.chance(1, 3) {
                    s = format!("{}{s}", "0".repeat(t.n(5)));
                }
                codes.push(s);
            } else {
                let mut b = [0; 4];
                for b in c.encode_utf8(&mut b).bytes() {
                    codes.push(if t.bool() { format!("{b:02x}") } else { format!("{b:02X}") });
                }
            }
        }
        out.push_str(&codes.join(*t.pick(&[" ", "  ", "\t"])));
        if t.chance(1, 4) {
            out.push(' ');
        }
        out.push('}');
        i += n;
    }
    out
}

fn gap(t: &mut Tape) -> &'static str {
    t.pick(&[" ", "\n", "\r\n", " /* c \" */ ", " # c \" ;\n", "\t", " /* text: ${a} **/", " /***/ "])
}

fn run(src: &str, rep: &mut Report, c: &Compiler, msg: &str) -> Result<(Vec<Event>, Vec<(String, String)>), Failure> {
    let s = match c.compile(src.as_bytes()) {
        Ok(s) => Arc::new(s),
        Err(e) => return fail("compile-rejected", format!("{e}\n{src}")),
    };
    let rt = full_runtime().either_max_variable_size(8192).either_max_redirects(20).either_max_out_messages(20);
    let mut ctx = rt.filter(msg.as_bytes());
    let mut h = Host::new();
    let t = drive(&mut ctx, s, &mut h);
    let mut evs = vec![];
    for i in t.items {
        match i {
            Item::Ev(e) => evs.push(e),
            Item::Err(e) => return fail("runtime-error", format!("{e}\n{src}")),
        }
    }
    let g = ctx
        .global_variable_names()
        .map(|n| (n.to_string(), ctx.global_variable(n).map(|v| v.to_string().into_owned()).unwrap_or_default()))
        .collect();
    Ok((evs, g))
}

fn c07(t: &mut Tape, rep: &mut Report) -> CaseResult {
    if t.chance(1, 6) {
        return numbers(t, rep);
    }
    let c = full_compiler().either_max_string_size(100_000);
    let n = 1 + t.n(3);
    let vals: Vec<String> = (0..n).map(|_| value(t)).collect();
    let mut src = String::from("require [\"variables\",\"include\",\"fileinto\",\"copy\",\"encoded-character\",\"ereject\",\"imap4flags\"];\nglobal [\"g0\",\"g1\",\"g2\",\"g3\"];\n");
    let mut want: Vec<String> = vec![];
    for (i, v) in vals.iter().enumerate() {
        let (a, ka) = literal(t, v);
        let (b, kb) = literal(t, v);
        let (d, kd) = literal(t, v);
        rep.label(ka);
        rep.label(kb);
        rep.label(kd);
        let (g, h) = (gap(t), gap(t));
        // as an argument, through a variable, in a list, in a test against itself
        src.push_str(&format!("fileinto :copy{g}{a}{h};\n"));
        want.push(v.clone());
        src.push_str(&format!("set{g}\"g{i}\"{h}{b};{g}\n"));
        src.push_str(&format!("fileinto :copy \"${{g{i}}}\";\n"));
        want.push(v.clone());
        let other = if t.bool() { "\"nope-x\",".to_string() } else { String::new() };
        src.push_str(&format!("if{h}string :comparator \"i;octet\" :is{g}\"${{g{i}}}\" [{other}{d}{h}]{g}{{ fileinto :copy \"is{i}\"; }}{h}\n"));
        want.push(format!("is{i}"));
        if !v.contains("${") && !v.ends_with('$') && !v.is_empty() {
            // next to a variable
            let q = quoted(t, v);
            let inner = &q[1..q.len() - 1];
            src.push_str(&format!("fileinto :copy{g}\"{inner}|${{g{i}}}|{inner}\";\n"));
            want.push(format!("{v}|{v}|{v}"));
            if v.ends_with('\n') {
                let m = multiline(t, v);
                let end = m.trim_end_matches(['\r', '\n']).len() - 1;
                src.push_str(&format!("fileinto :copy{g}{}${{g{i}}}|\n{}{h};\n", &m[..end], &m[end..]));
                want.push(format!("{v}{v}|\n"));
            }
        }
        rep.nontrivial_if(v.len() >= 4 && v.bytes().any(|b| !b.is_ascii_alphanumeric()));
        rep.label_if(v.contains('\n'), "line break");
        rep.label_if(v.contains("\n."), "dot after line break");
        rep.label_if(v.contains('\\') || v.contains('"'), "needs escaping");
        rep.label_if(!v.is_ascii(), "not ASCII");
        rep.label_if(v.parse::<f64>().is_ok(), "looks like a number");
    }
    // a reason keeps its text up to the end of the script
    let (r, k) = literal(t, &vals[0]);
    rep.label(k);
    src.push_str(&format!("ereject {r};"));
    rep.desc = src.clone();
    let (evs, globals) = run(&src, rep, &c, MSG)?;
    let mut got = vec![];
    let mut reason = None;
    for e in &evs {
        match e {
            Event::FileInto { folder, .. } => got.push(folder.clone()),
            Event::Reject { reason: r, .. } => reason = Some(r.clone()),
            e => return fail("events", format!("unexpected {e:?}")),
        }
    }
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return fail("value", format!("use {i}: written {:?}, seen {:?}", want.get(i), got.get(i)));
        }
    }
    if reason.as_deref() != Some(&vals[0]) {
        return fail("value", format!("reject reason: written {:?}, seen {:?}", vals[0], reason));
    }
    for (i, v) in vals.iter().enumerate() {
        let g = globals.iter().find(|(n, _)| *n == format!("g{i}")).map(|(_, v)| v.as_str()).unwrap_or("");
        if g != v {
            return fail("value", format!("global g{i}: written {v:?}, seen {g:?}"));
        }
    }
    Ok(())
}

fn numbers(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let (suffix, unit): (&str, u128) = *t.pick(&[("", 1), ("", 1), ("K", 1 << 10), ("k", 1 << 10), ("M", 1 << 20), ("m", 1 << 20), ("G", 1 << 30), ("g", 1 << 30)]);
    let n: u128 = match t.n(4) {
        0 => t.n(20) as u128,
        1 => t.n(100_000) as u128,
        2 => (u64::MAX as u128 / unit).saturating_sub(t.n(3) as u128),
        _ => (t.below(u64::MAX) >> t.n(60)) as u128 / unit,
    };
    let value = n * unit;
    rep.label("number");
    rep.label_if(unit > 1, "number with a unit");
    let zeros = "0".repeat(if t.chance(1, 5) { t.n(4) } else { 0 });
    let lit = format!("{zeros}{n}{suffix}");
    let (g, h) = (gap(t), gap(t));
    let mut src = format!("require [\"duplicate\",\"fileinto\",\"copy\"];\nif duplicate :handle \"h\" :seconds{g}{lit}{h}{{ stop; }}\n");
    // sizes near the number
    let mut want = vec![];
    let size = if value < 60_000 { (value as usize + t.n(3)).saturating_sub(1) } else { t.n(3000) };
    let head = "Subject: x\r\n\r\n";
    let size = size.max(head.len());
    let msg = format!("{head}{}", "x".repeat(size - head.len()));
    src.push_str(&format!("if size :over{g}{lit}{h}{{ fileinto :copy \"over\"; }}\nif size :under{h}{lit}{g}{{ fileinto :copy \"under\"; }}\nif not size{g}:over {lit} {{ fileinto :copy \"at most\"; }}\n"));
    if size as u128 > value {
        want.push("over");
    }
    if (size as u128) < value {
        want.push("under");
    }
    if size as u128 <= value {
        want.push("at most");
    }
    rep.nontrivial_if(unit > 1 || n > 9);
    rep.desc = format!("{src}\n--- message of {size} octets");
    if value >= u64::MAX as u128 {
        return Ok(());
    }
    let (evs, _) = run(&src, rep, &full_compiler(), &msg)?;
    let mut got = vec![];
    for e in &evs {
        match e {
            Event::DuplicateId { expiry, .. } => {
                if *expiry as u128 != value {
                    return fail("number", format!("{lit} is read as {expiry}"));
                }
            }
            Event::FileInto { folder, .. } => got.push(folder.as_str()),
            _ => (),
        }
    }
    if got != want {
        return fail("number", format!("size {size} against {lit}: {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn pins07() -> Pinned {
    vec![
        pin("escaped-backslash", || expect_folders("fileinto \"a\\\\\"; fileinto \"\\\\\\\"b\\\\\";", MSG, &["a\\", "\\\"b\\"])),
        pin("number-kept", || expect_folders("set \"v\" \"007\"; fileinto \"${v}\"; set \"v\" \"1.50\"; fileinto \"${v}\"; fileinto \"-0\";", MSG, &["007", "1.50", "-0"])),
        pin("dot-stuffing", || expect_folders("fileinto text:\n..\n.x\n...\n.\n;", MSG, &[".\n.x\n..\n"])),
    ]
}

// ------------------------------------------------------------------ C02

/// What a script measures in each limited dimension.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Sizes([usize; 10]);

const SCRIPT: usize = 0;
const STRING: usize = 1;
const NAME: usize = 2;
const LOCALS: usize = 3;
const BLOCKS: usize = 4;
const TESTS: usize = 5;
const PARTS: usize = 6;
const INCLUDES: usize = 7;
const HEADER: usize = 8;
const MATCHES: usize = 9;
const DIMS: [&str; 10] = ["script size", "string length", "variable name length", "local variables", "block nesting", "test nesting", "foreverypart nesting", "includes", "added header length", "match variables"];
const DEFAULTS: [usize; 10] = [1024 * 1024, 4096, 32, 128, 15, 15, 3, 6, 1024, 30];

fn dim_of(e: &sieve::compiler::ErrorType) -> Option<usize> {
    use sieve::compiler::ErrorType::*;
    Some(match e {
        ScriptTooLong => SCRIPT,
        StringTooLong => STRING,
        VariableTooLong => NAME,
        TooManyVariables => LOCALS,
        TooManyNestedBlocks => BLOCKS,
        TooManyNestedTests => TESTS,
        TooManyNestedForEveryParts => PARTS,
        TooManyIncludes => INCLUDES,
        HeaderTooLong => HEADER,
        InvalidMatchVariable(_) => MATCHES,
        _ => return None,
    })
}

struct Gen<'a> {
    t: &'a mut Tape,
    m: Sizes,
    out: String,
    scopes: Vec<Vec<String>>,
    live: usize,
    peak: usize,
    roots: usize,
    blocks: usize,
    parts: usize,
    budget: isize,
    count: usize,
    names: usize,
    globals: Vec<String>,
}

impl Gen<'_> {
    fn see(&mut self, dim: usize, n: usize) {
        self.m.0[dim] = self.m.0[dim].max(n);
    }

    /// A string of plain text whose token is as long as the text.
    fn lit(&mut self, v: &str) -> String {
        self.see(STRING, v.len());
        if self.t.chance(1, 8) {
            let v = format!("{v}\n");
            self.see(STRING, v.len());
            return multiline(self.t, &v);
        }
        quoted(self.t, v)
    }

    fn text(&mut self) -> String {
        let n = match self.t.n(8) {
            0 => self.t.n(300),
            1 => self.t.n(60),
            _ => self.t.n(12),
        };
        let a = *self.t.pick(&["a", "b\\", "x\"", "é", "q"]);
        let mut s = a.repeat(n / a.len());
        while s.len() < n {
            s.push('z');
        }
        s
    }

    fn name(&mut self) -> String {
        // often one that is in scope already, in another case
        if self.t.chance(1, 3) {
            let all: Vec<String> = self.scopes.iter().flatten().cloned().collect();
            if !all.is_empty() {
                let n = self.t.pick(&all).clone();
                return if self.t.bool() { n.to_uppercase() } else { n };
            }
        }
        if !self.globals.is_empty() && self.t.chance(1, 5) {
            return self.t.pick(&self.globals).clone();
        }
        self.names += 1;
        let mut n = format!("v{}", self.names);
        let pad = match self.t.n(6) {
            0 => 20 + self.t.n(16),
            1 => self.t.n(30),
            _ => 0,
        };
        n.push_str(&"_".repeat(pad));
        n
    }

    fn declare(&mut self, name: &str, root: bool) {
        self.see(NAME, name.len());
        let low = name.to_lowercase();
        if self.globals.contains(&low) || self.scopes.iter().any(|s| s.contains(&low)) {
            return;
        }
        if root && self.scopes.len() > 1 {
            self.scopes[0].push(low);
            self.roots += 1;
        } else {
            self.scopes.last_mut().unwrap().push(low);
            self.live += 1;
        }
        self.peak = self.peak.max(self.live);
        let n = self.peak + self.roots;
        self.see(LOCALS, n);
    }

    fn open(&mut self) {
        self.out.push_str("{\n");
        self.blocks += 1;
        self.see(BLOCKS, self.blocks);
        self.scopes.push(vec![]);
    }

    fn close(&mut self) {
        self.out.push_str("}\n");
        self.blocks -= 1;
        let n = self.scopes.pop().unwrap().len();
        self.live -= n;
    }

    fn test(&mut self, depth: usize, max: usize) {
        if self.t.chance(1, 4) {
            self.out.push_str("not ");
        }
        if depth < max {
            self.see(TESTS, depth + 1);
            self.out.push_str(self.t.pick(&["anyof(", "allof("]));
            let n = 1 + self.t.n(3);
            let deep = self.t.n(n);
            for i in 0..n {
                if i > 0 {
                    self.out.push(',');
                }
                let m = if i == deep { max } else { depth + 1 + self.t.n(2) };
                self.test(depth + 1, m.min(max));
            }
            self.out.push(')');
        } else {
            match self.t.n(4) {
                0 => self.out.push_str("true"),
                1 => self.out.push_str("size :over 10K"),
                2 => {
                    let v = self.text();
                    let l = self.lit(&v);
                    self.see(STRING, 7);
                    self.out.push_str(&format!("header \"Subject\" {l}"));
                }
                _ => {
                    self.see(STRING, 1);
                    self.out.push_str("string \"a\" \"b\"");
                }
            }
        }
    }

    fn tests(&mut self) {
        let max = match self.t.n(6) {
            0 => 12 + self.t.n(6),
            1 => self.t.n(5),
            _ => 0,
        };
        self.test(0, max);
        self.out.push(' ');
    }

    fn block(&mut self, chain: usize) {
        let kind = self.t.n(4);
        match kind {
            0 => {
                self.out.push_str("foreverypart ");
                if self.t.chance(1, 4) {
                    self.names += 1;
                    let l = format!("l{}", self.names);
                    let q = self.lit_plain(&l);
                    self.out.push_str(&format!(":name {q} "));
                }
                // counted by the loops around it
                self.see(PARTS, self.parts);
                self.parts += 1;
            }
            1 => {
                self.see(STRING, 1);
                self.out.push_str("while \"0\" ");
            }
            _ => {
                self.out.push_str("if ");
                self.tests();
            }
        }
        self.open();
        if chain > 0 {
            self.some(1);
            self.block(chain - 1);
            self.some(1);
        } else {
            self.some(3);
        }
        self.close();
        if kind == 0 {
            self.parts -= 1;
        }
        if kind >= 2 {
            while self.t.chance(1, 5) {
                self.out.push_str("elsif ");
                self.tests();
                self.open();
                self.some(2);
                self.close();
            }
            if self.t.chance(1, 4) {
                self.out.push_str("else ");
                self.open();
                self.some(2);
                self.close();
            }
        }
    }

    fn lit_plain(&mut self, v: &str) -> String {
        self.see(STRING, v.len());
        format!("\"{v}\"")
    }

    fn some(&mut self, n: usize) {
        for _ in 0..self.t.n(n + 1) {
            self.stmt();
        }
    }

    fn stmt(&mut self) {
        self.budget -= 1;
        if self.budget < 0 {
            return;
        }
        self.count += 1;
        match self.t.n(14) {
            0..=2 => {
                let n = self.name();
                let v = self.text();
                let root = self.t.chance(1, 3);
                let q = self.lit_plain(&n);
                let l = self.lit(&v);
                self.out.push_str(&format!("set {}{q} {l};\n", if root { ":local " } else { "" }));
                self.declare(&n, root);
            }
            3 => {
                let n = self.name();
                let q = self.lit_plain(&n);
                let x = self.lit_plain("1 + 2");
                self.out.push_str(&format!("let {q} {x};\n"));
                self.declare(&n, false);
            }
            4 => {
                let n = self.name();
                let q = self.lit_plain(&n);
                self.see(STRING, 5);
                self.out.push_str(&format!("setflag {q} \"\\\\Seen\";\n"));
                self.declare(&n, false);
            }
            5 if self.parts > 0 => {
                let n = self.name();
                let q = self.lit_plain(&n);
                self.out.push_str(&format!("extracttext :first 10 {q};\n"));
                self.declare(&n, false);
            }
            6 => {
                self.m.0[INCLUDES] += 1;
                let once = *self.t.pick(&["", ":once ", ":optional ", ":global "]);
                let n = self.text();
                let l = self.lit(&n);
                self.out.push_str(&format!("include {once}{l};\n"));
            }
            7 => {
                let v = self.text();
                let l = self.lit(&v);
                let v = if l.starts_with('"') { v } else { format!("{v}\n") };
                self.see(HEADER, v.len());
                let x = self.lit_plain("X-A");
                self.out.push_str(&format!("addheader {x} {l};\n"));
            }
            8 => {
                // a value that is not constant has no size yet
                let v = self.t.n(400);
                let s = format!("${{env.x}}{}", "h".repeat(v));
                let x = self.lit_plain("X-A");
                let l = self.lit_plain(&s);
                self.out.push_str(&format!("addheader {x} {l};\n"));
            }
            9 => {
                let n = if self.t.chance(1, 3) { 25 + self.t.n(40) } else { self.t.n(10) };
                self.see(MATCHES, n + 1);
                if n >= 63 {
                    self.see(MATCHES, usize::MAX);
                }
                let l = self.lit_plain(&format!("x${{{n}}}"));
                self.out.push_str(&format!("fileinto {l};\n"));
            }
            10 => {
                let v = self.text();
                let l = self.lit(&v);
                self.out.push_str(&format!("fileinto {l};\n"));
            }
            11 => self.out.push_str("keep; # a comment \"with\" ${text}\n"),
            12 => {
                let chain = match self.t.n(6) {
                    0 => 10 + self.t.n(8),
                    1 => self.t.n(6),
                    _ => self.t.n(2),
                };
                self.block(chain);
            }
            _ => {
                // many variables
                let n = if self.t.chance(1, 3) { 100 + self.t.n(170) } else { self.t.n(20) };
                for _ in 0..n {
                    self.names += 1;
                    let n = format!("w{}", self.names);
                    let q = self.lit_plain(&n);
                    self.see(STRING, 1);
                    self.out.push_str(&format!("set {q} \"a\";\n"));
                    self.declare(&n, false);
                }
            }
        }
    }
}

fn c02(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut g = Gen {
        t,
        m: Sizes([0; 10]),
        out: String::new(),
        scopes: vec![vec![]],
        live: 0,
        peak: 0,
        roots: 0,
        blocks: 0,
        parts: 0,
        budget: 40,
        count: 0,
        names: 0,
        globals: vec![],
    };
    g.out.push_str(ALL_CAPS);
    g.see(STRING, "comparator-i;ascii-numeric".len());
    if g.t.chance(1, 4) {
        let mut l = vec![];
        for i in 0..1 + g.t.n(3) {
            let n = format!("g{i}{}", "x".repeat(g.t.n(36)));
            g.see(NAME, n.len());
            l.push(g.lit_plain(&n));
            g.globals.push(n);
        }
        g.out.push_str(&format!("global [{}];\n", l.join(",")));
    }
    let n = 1 + g.t.n(8);
    for _ in 0..n {
        g.stmt();
    }
    if g.t.chance(1, 400) {
        // around the default size
        let n = (1024 * 1024 - 2 + g.t.n(5)).saturating_sub(g.out.len());
        if n > 2 {
            g.out.push_str(&format!("#{}\n", "c".repeat(n - 2)));
        }
    }
    let mut m = g.m;
    let out = std::mem::take(&mut g.out);
    m.0[SCRIPT] = out.len();
    // limits: mostly wide, some close to what the script measures
    let mut lim = DEFAULTS;
    let mode = t.n(4);
    let mut c = full_compiler();
    let mut set = vec![];
    if mode > 0 {
        for d in 0..10 {
            if mode == 1 && !t.chance(1, 3) {
                continue;
            }
            let at = m.0[d].min(1 << 40);
            lim[d] = match t.n(8) {
                0 => at.saturating_sub(1),
                1..=3 => at,
                4 => at + 1,
                _ => at + 1 + t.n(50),
            };
            if d == MATCHES && t.bool() {
                lim[d] = 200;
            }
            set.push(d);
        }
    }
    for d in set {
        let n = lim[d];
        match d {
            SCRIPT => c = c.either_max_script_size(n),
            STRING => c = c.either_max_string_size(n),
            NAME => c = c.either_max_variable_name_size(n),
            LOCALS => c = c.either_max_local_variables(n),
            BLOCKS => c = c.either_max_nested_blocks(n),
            TESTS => c = c.either_max_nested_tests(n),
            PARTS => c = c.either_max_nested_foreverypart(n),
            INCLUDES => c = c.either_max_includes(n),
            HEADER => c = c.either_max_header_size(n),
            _ => c = c.either_max_match_variables(n),
        }
    }
    let mut over: Vec<usize> = (0..10).filter(|d| m.0[*d] > lim[*d]).collect();
    if m.0[LOCALS] > 256 && !over.contains(&LOCALS) {
        over.push(LOCALS);
    }
    rep.desc = format!("{}\n--- sizes {:?}\n--- limits {:?}", if out.len() > 100_000 { out.chars().take(2000).collect() } else { out.clone() }, m.0, lim);
    for d in 0..10 {
        rep.label_if(m.0[d] == lim[d], &format!("{} at the limit", DIMS[d]));
        rep.label_if(over == [d], &format!("only {} over the limit", DIMS[d]));
        rep.label_if(over == [d] && m.0[d] == lim[d] + 1, &format!("only {} over the limit, by one", DIMS[d]));
    }
    rep.nontrivial_if((0..10).any(|d| m.0[d] > 0 && m.0[d].abs_diff(lim[d]) <= 1));
    match c.compile(out.as_bytes()) {
        Ok(_) if over.is_empty() => {
            rep.label("accepted");
            Ok(())
        }
        Ok(_) => fail("accepted", format!("accepted over the limits of {:?}", over.iter().map(|d| DIMS[*d]).collect::<Vec<_>>())),
        Err(e) => match dim_of(e.error_type()) {
            Some(d) if over.contains(&d) => Ok(()),
            Some(d) => fail("refused", format!("refused for its {} ({}), which is {} of at most {}", DIMS[d], e, m.0[d], lim[d])),
            None => fail("other-error", format!("{e}")),
        },
    }
}

fn pins02() -> Pinned {
    vec![
        pin("string-at-limit", || {
            let c = Compiler::new().either_max_string_size(30);
            let s = format!("keep; if header \"a\" \"{}\" {{ }}", "x".repeat(30));
            crate::pin::compiles(&c, &s, true)?;
            crate::pin::compiles(&c, &s.replace("xx", "xxx"), false)
        }),
        pin("locals", || {
            let c = full_compiler().either_max_local_variables(2);
            let r = "require \"variables\";";
            crate::pin::compiles(&c, &format!("{r} set \"a\" \"1\"; set \"b\" \"1\"; set \"a\" \"2\";"), true)?;
            crate::pin::compiles(&c, &format!("{r} set \"a\" \"1\"; if true {{ set \"b\" \"1\"; }} if true {{ set \"c\" \"1\"; }}"), true)?;
            crate::pin::compiles(&c, &format!("{r} set \"a\" \"1\"; set \"b\" \"1\"; if true {{ set \"c\" \"2\"; }}"), false)
        }),
    ]
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop {
        id,
        quick,
        thorough: quick * 60,
        run,
        pinned,
        rule,
        assumptions: &[],
    };
    vec![
        mk("C07", c07 as fn(&mut Tape, &mut Report) -> CaseResult, 1_800_000, "a value of at least 4 octets, not all letters and digits; or a number of more than one digit or with a unit", pins07 as fn() -> Pinned),
        mk("C02", c02, 1_000_000, "some measure is within one of its limit", pins02),
    ]
}

