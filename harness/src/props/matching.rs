//! C09: match types and comparators.
use crate::drive::*;
use crate::mtch::*;
use crate::pin::{pin, Pinned};
use crate::props::edit::q;
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{Event, Metadata};

const ALPHA: &[char] = &['a', 'b', 'A', 'a', 'b', 'c', 'é', '漢', ' ', '1', '*', '?', '\\', '.', 'Z'];
/// Regular expressions are compared as they are written.
const LOWER: &[char] = &['a', 'b', 'c', 'a', 'b', 'é', '1', ' '];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Carrier {
    Text,
    Vars,
    Header,
    Env,
    Meta,
    Server,
    Body,
}

fn value(t: &mut Tape, style: usize) -> String {
    match style {
        0 => (0..t.len(7)).map(|_| *t.pick(ALPHA)).collect(),
        1 => (0..t.len(8)).map(|_| *t.pick(&['a', 'b'])).collect(),
        2 => (0..t.len(8)).map(|_| *t.pick(LOWER)).collect(),
        _ => match t.n(4) {
            0 => t.pick(&["0", "00", "10", "9", "010", "99", "100", "4294967295", "4294967296", "123456789012345"]).to_string(),
            _ => t.n(200).to_string(),
        },
    }
}

/// Match variables through nested blocks, with tests that refer to them.
struct Nest<'a> {
    t: &'a mut Tape,
    src: String,
    want: Vec<String>,
    /// What `${0}` to `${5}` hold, `None` where the interpreter may have cleared them.
    vars: Vec<Option<String>>,
    /// The block of the test that set them.
    set_in: Vec<usize>,
    fields: Vec<String>,
    next: usize,
    budget: usize,
    nested_ref: bool,
    survived: bool,
    in_loop: bool,
    ever: [bool; 6],
}

impl Nest<'_> {
    /// A text that may refer to match variables: how it is written and what it is.
    fn template(&mut self, live: bool, refs: &mut u32) -> (String, String) {
        let (mut text, mut val) = (String::new(), String::new());
        for _ in 0..1 + self.t.n(3) {
            let k = self.t.n(6);
            if self.t.chance(2, 5) && (!live || self.vars[k].is_some()) {
                *refs |= 1 << k;
                text.push_str(&format!("${{{k}}}"));
                if live {
                    let v = self.vars[k].clone().unwrap_or_default();
                    self.nested_ref |= !v.is_empty();
                    val.push_str(&v);
                }
            } else {
                for _ in 0..1 + self.t.n(3) {
                    let c = *self.t.pick(&['a', 'b', 'c', 'A']);
                    text.push(c);
                    val.push(c);
                }
            }
        }
        (text, val)
    }

    /// A test, evaluated when `live`.
    fn test(&mut self, depth: usize, live: bool, refs: &mut u32) -> (String, bool) {
        let (text, val) = self.template(live, refs);
        let (key, key_val) = if self.t.chance(1, 5) {
            let (k, v) = self.template(live, refs);
            (format!("{k}*"), format!("{v}*"))
        } else {
            let k = crate::mtch::glob_for(self.t, &val);
            let k = if k.chars().all(|c| c.is_ascii_alphabetic() || "*?".contains(c)) { k } else { "*?".into() };
            (k.clone(), k)
        };
        let hit = glob(&key_val, &val, true);
        let text = if !text.contains('$') && self.t.chance(1, 3) {
            self.fields.push(val.clone());
            format!("header :matches \"X-F{}\" \"{key}\"", self.fields.len() - 1)
        } else if self.t.bool() {
            format!("string :matches \"{text}\" \"{key}\"")
        } else {
            format!("string :comparator \"i;ascii-casemap\" :matches [\"{text}\"] [\"{key}\"]")
        };
        let not = self.t.chance(1, 5);
        if let (true, Some(c)) = (live, &hit) {
            for k in 0..self.vars.len() {
                match c.get(k) {
                    Some(v) => {
                        self.vars[k] = v.clone();
                        self.ever[k] |= v.as_deref() != Some("");
                        self.set_in[k] = depth;
                    }
                    // known finding: not emptied
                    None if self.ever[k] => self.vars[k] = None,
                    None => (),
                }
            }
        }
        (if not { format!("not {text}") } else { text }, hit.is_some() != not)
    }

    fn tests(&mut self, depth: usize, live: bool, refs: &mut u32) -> (String, bool) {
        if self.t.chance(1, 5) {
            let any = self.t.bool();
            let (a, r) = self.test(depth, live, refs);
            let (b, r) = if r == any { (self.test(depth, false, refs).0, r) } else { self.test(depth, live, refs) };
            (format!("{} ({a}, {b})", if any { "anyof" } else { "allof" }), r)
        } else {
            self.test(depth, live, refs)
        }
    }

    fn show(&mut self, live: bool, refs: &mut u32) {
        let n = self.next;
        self.next += 1;
        let mut text = format!("fileinto :copy \"{n}");
        let mut want = n.to_string();
        for k in 0..self.vars.len() {
            if self.t.chance(1, 2) {
                *refs |= 1 << k;
                text.push_str(&format!("|${{{k}}}"));
                want.push_str(&format!("|{}", self.vars[k].as_deref().unwrap_or("\0")));
            }
        }
        if live {
            self.want.push(want);
        }
        self.src.push_str(&format!("{text}\";\n"));
    }

    /// The end of a block whose body referred to `refs` after a test of its own.
    fn close(&mut self, depth: usize, under_test: u32) {
        for k in 0..self.vars.len() {
            let known = self.vars[k].as_deref();
            if (known != Some("") && under_test & 1 << k != 0) || self.set_in[k] >= depth {
                self.vars[k] = None;
            }
            self.survived |= matches!(&self.vars[k], Some(v) if !v.is_empty());
        }
    }

    /// Returns the variables referred to, and those of them behind a test of this block or one in it.
    fn block(&mut self, depth: usize, live: bool) -> (u32, u32) {
        let (mut refs, mut under) = (0, 0);
        for _ in 0..1 + self.t.n(3) {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            match self.t.n(if depth < 4 { 6 } else { 2 }) {
                1 if self.t.chance(1, 4) => {
                    // only tests set match variables
                    let how = *self.t.pick(&[":matches \"X-Z\" \"*e*\"", ":regex \"X-Z\" \"(.)(.)\"", ":contains \"X-Z\" \"q\""]);
                    self.src.push_str(&format!("deleteheader {how};\n"));
                }
                0 | 1 => self.show(live, &mut refs),
                2..=4 => {
                    let (text, mut on) = self.tests(depth, live, &mut refs);
                    self.src.push_str(&format!("if {text} {{\n"));
                    let mut live_here = live && on;
                    let mut done = on;
                    loop {
                        let (r, u) = self.block(depth + 1, live_here);
                        self.src.push_str("}\n");
                        self.close(depth + 1, u);
                        refs |= r;
                        under |= r | u;
                        match 3 - self.t.n(4) {
                            0 => {
                                let (text, r) = self.tests(depth, live && !done, &mut refs);
                                on = r;
                                self.src.push_str(&format!("elsif {text} {{\n"));
                                live_here = live && !done && on;
                                done |= on;
                            }
                            1 => {
                                self.src.push_str("else {\n");
                                let (r, u) = self.block(depth + 1, live && !done);
                                self.src.push_str("}\n");
                                self.close(depth + 1, u);
                                refs |= r;
                                under |= u;
                                break;
                            }
                            _ => break,
                        }
                    }
                }
                _ => {
                    let (mut head, on) = *self.t.pick(&[("if true", true), ("foreverypart", true), ("if false", false), ("if not false", true)]);
                    let in_loop = self.in_loop;
                    if head == "foreverypart" {
                        if in_loop {
                            head = "if true";
                        } else {
                            self.in_loop = true;
                        }
                    }
                    self.src.push_str(&format!("{head} {{\n"));
                    let (r, u) = self.block(depth + 1, live && on);
                    self.in_loop = in_loop;
                    self.src.push_str("}\n");
                    self.close(depth + 1, u);
                    refs |= r;
                    under |= u;
                }
            }
        }
        (refs, under)
    }
}

fn nested(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut n = Nest {
        t,
        src: String::new(),
        want: vec![],
        vars: vec![Some(String::new()); 6],
        set_in: vec![0; 6],
        fields: vec![],
        next: 0,
        budget: 14,
        nested_ref: false,
        survived: false,
        in_loop: false,
        ever: [false; 6],
    };
    while n.budget > 0 {
        n.block(0, true);
    }
    rep.label("nested");
    rep.label_if(n.nested_ref, "test of match variables");
    rep.label_if(n.survived, "kept over a block");
    rep.nontrivial_if(n.nested_ref || n.survived);
    let msg = n.fields.iter().enumerate().map(|(i, v)| format!("X-F{i}: {v}\r\n")).collect::<String>() + "X-Z: one\r\nX-Z: two\r\nX-Z: three\r\n\r\nbody\r\n";
    rep.desc = format!("{}\n--- message\n{msg}\n--- expected {:?}", n.src, n.want);
    let c = full_compiler();
    let s = compile(&c, &format!("{ALL_CAPS}{}", n.src))?;
    let rt = full_runtime();
    let mut ctx = rt.filter(msg.as_bytes());
    let tr = drive(&mut ctx, s, &mut Host::new());
    compare(&n.want, tr)
}

fn c09(t: &mut Tape, rep: &mut Report) -> CaseResult {
    if t.chance(1, 4) {
        return nested(t, rep);
    }
    let mut src = format!("{ALL_CAPS}global \"r\";\n");
    let mut headers: Vec<(String, String)> = vec![];
    let mut envs: Vec<String> = vec![];
    let mut body = "body".to_string();
    let mut want: Vec<String> = vec![];
    // what the match variables hold, `None` where the interpreter is known to differ
    let mut vars: Vec<Option<String>> = vec![Some(String::new()); 30];
    let mut script = String::new();
    let tests = 1 + t.n(3);
    let mut nontrivial = false;
    for n in 0..tests {
        let carrier = *t.pick(&[Carrier::Text, Carrier::Vars, Carrier::Header, Carrier::Env, Carrier::Meta, Carrier::Server, Carrier::Body]);
        let single = !matches!(carrier, Carrier::Text | Carrier::Vars | Carrier::Header);
        if carrier == Carrier::Body && body != "body" {
            continue;
        }
        let style = t.n(4);
        let mut values: Vec<String> = (0..if single { 1 } else { 1 + t.len(3) }).map(|_| value(t, style)).collect();
        if carrier == Carrier::Header {
            values = values.iter().map(|v| v.trim().to_string()).collect();
        }
        if single && values[0].is_empty() {
            values[0] = "a".into();
        }
        let alpha: &[char] = match style {
            0 => ALPHA,
            1 => &['a', 'b'],
            2 => LOWER,
            _ => &['0', '1', '9', '5'],
        };
        let kinds = Kinds { numeric: true, count: carrier != Carrier::Body, regex: style != 0, value: true };
        let mut test = test_for(t, &values, alpha, &kinds, 3);
        // the result and the captures: values outside keys for headers, keys outside values elsewhere
        let mut hit: Option<Caps> = None;
        let result = if let Mk::Count(_) = test.mk {
            let n = match carrier {
                Carrier::Text | Carrier::Vars => values.iter().filter(|v| !v.is_empty()).count(),
                _ => values.len(),
            };
            test.count(n)
        } else {
            if carrier == Carrier::Header {
                hit = values.iter().find_map(|v| test.keys.iter().find_map(|k| test.one(v, k)));
            } else {
                for i in 0..test.keys.len() {
                    hit = values.iter().find_map(|v| test.one(v, &test.keys[i]));
                    if hit.is_some() {
                        if matches!(carrier, Carrier::Text | Carrier::Vars | Carrier::Env) {
                            // known finding: later keys are compared all the same
                            test.keys.truncate(i + 1);
                        }
                        break;
                    }
                }
            }
            hit.is_some()
        };
        rep.label(match test.mk {
            Mk::Is => "is",
            Mk::Contains => "contains",
            Mk::Matches => "matches",
            Mk::Regex => "regex",
            Mk::Value(_) => "value",
            Mk::Count(_) => "count",
        });
        rep.label(match test.cmp {
            Cmp::Octet => "octet",
            Cmp::Casemap => "casemap",
            Cmp::Numeric => "numeric",
        });
        rep.label(if result { "true" } else { "false" });
        // how keys and values are written
        let mut pre = String::new();
        let mut quote = |t: &mut Tape, pre: &mut String, s: &str, always: bool| {
            if always || t.chance(1, 5) {
                let v = format!("v{n}x{}", pre.len());
                pre.push_str(&format!("set {} {};\n", q(&v), q(s)));
                format!("\"${{{v}}}\"")
            } else {
                q(s)
            }
        };
        let keys = test.keys.iter().map(|k| quote(t, &mut pre, &k.text, false)).collect::<Vec<_>>();
        let keys = if keys.len() == 1 && t.bool() { keys[0].clone() } else { format!("[{}]", keys.join(", ")) };
        let tags = test.tags();
        let text = match carrier {
            Carrier::Text | Carrier::Vars => {
                let v = values.iter().map(|v| quote(t, &mut pre, v, carrier == Carrier::Vars)).collect::<Vec<_>>().join(", ");
                format!("string {tags} [{v}] {keys}")
            }
            Carrier::Header => {
                let two = t.bool();
                // fields of the first name come before those of the second
                let split = if two { t.n(values.len() + 1) } else { values.len() };
                for (i, v) in values.iter().enumerate() {
                    headers.push((format!("X-{}{n}", if i < split { "A" } else { "B" }), v.clone()));
                }
                if two {
                    format!("header {tags} [\"X-A{n}\", \"x-b{n}\"] {keys}")
                } else {
                    format!("header {tags} \"X-A{n}\" {keys}")
                }
            }
            Carrier::Env => {
                envs.push(values[0].clone());
                format!("environment {tags} \"item{}\" {keys}", envs.len() - 1)
            }
            Carrier::Meta => {
                envs.push(values[0].clone());
                format!("metadata {tags} \"box{}\" \"/ann\" {keys}", envs.len() - 1)
            }
            Carrier::Server => {
                envs.push(values[0].clone());
                format!("servermetadata {tags} \"/ann{}\" {keys}", envs.len() - 1)
            }
            Carrier::Body => {
                body = values[0].clone();
                format!("body {tags} {} {keys}", t.pick(&[":raw", ":text", ":content \"text/plain\"", ":content \"text\""]))
            }
        };
        script.push_str(&pre);
        let captures = test.captures() && carrier != Carrier::Body;
        let shown: Vec<usize> = (0..7).filter(|_| t.chance(2, 3)).collect();
        // an earlier test may show other variables: only those shown here are taken
        if let (true, Some(c)) = (captures && result, &hit) {
            rep.label_if(c.len() > 1, "captured");
            for i in 0..vars.len() {
                match c.get(i) {
                    Some(Some(v)) if v.contains('\u{fffd}') => vars[i] = None,
                    Some(Some(v)) => vars[i] = Some(v.clone()),
                    // known finding: not emptied
                    _ if vars[i].as_deref() != Some("") => vars[i] = None,
                    _ => (),
                }
            }
            nontrivial = true;
        }
        nontrivial |= result;
        let show: String = shown.iter().map(|i| format!("|${{{i}}}")).collect();
        let not = t.chance(1, 3);
        let val: String = shown.iter().map(|i| format!("|{}", vars[*i].clone().unwrap_or("\0".into()))).collect();
        // both the test and its negation
        if not {
            script.push_str(&format!("if not {text} {{ fileinto :copy \"F{show}\"; }} else {{ fileinto :copy \"T{show}\"; }}\n"));
        } else {
            script.push_str(&format!("if {text} {{ fileinto :copy \"T{show}\"; }} else {{ fileinto :copy \"F{show}\"; }}\n"));
        }
        want.push(format!("{}{val}", if result { "T" } else { "F" }));
    }
    src.push_str(&script);
    rep.nontrivial_if(nontrivial);
    let mut msg = String::new();
    for (n, v) in &headers {
        msg.push_str(&format!("{n}: {v}\r\n"));
    }
    msg.push_str(&format!("Content-Type: text/plain; charset=utf-8\r\n\r\n{body}"));
    rep.desc = format!("{script}\n--- message\n{msg}\n--- values {envs:?}\n--- expected {want:?}");
    let c = full_compiler();
    let s = compile(&c, &src)?;
    let mut rt = full_runtime();
    for (i, v) in envs.iter().enumerate() {
        if i % 2 == 0 {
            rt = rt.with_env_variable(format!("item{i}"), v.clone()).with_metadata(Metadata::Mailbox { name: format!("box{i}"), annotation: "/ANN".into() }, v.clone());
        } else {
            rt = rt.with_metadata(Metadata::Server { annotation: format!("/Ann{i}") }, v.clone());
        }
    }
    let mut ctx = rt.filter(msg.as_bytes());
    for (i, v) in envs.iter().enumerate() {
        if i % 2 == 1 {
            ctx = ctx.with_env_variable(format!("item{i}"), v.clone()).with_metadata(Metadata::Mailbox { name: format!("box{i}"), annotation: "/ANN".into() }, v.clone());
        } else {
            ctx = ctx.with_metadata(Metadata::Server { annotation: format!("/Ann{i}") }, v.clone());
        }
    }
    let tr = drive(&mut ctx, s, &mut Host::new());
    compare(&want, tr)
}

/// The folders filed into; parts after a `|` are values, \0 one that is not known.
fn compare(want: &[String], tr: Trace) -> CaseResult {
    let mut got = vec![];
    for i in tr.items {
        match i {
            Item::Ev(Event::FileInto { folder, .. }) => got.push(folder),
            Item::Ev(Event::Keep { .. } | Event::CreatedMessage { .. }) => (),
            i => return fail("events", format!("unexpected {i:?}")),
        }
    }
    if got.len() != want.len() {
        return fail("events", format!("expected {want:?}, is {got:?}"));
    }
    for (w, g) in want.iter().zip(&got) {
        let (w, g): (Vec<&str>, Vec<&str>) = (w.split('|').collect(), g.split('|').collect());
        if w[0] != g[0] {
            return fail("decision", format!("expected {want:?}, is {got:?}"));
        }
        if w.len() != g.len() || w.iter().zip(&g).any(|(a, b)| a != b && *a != "\0") {
            return fail("captures", format!("expected {want:?}, is {got:?}"));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop {
        id,
        quick,
        thorough: quick * 60,
        run,
        pinned,
        rule,
        assumptions: &["values without newlines"],
    };
    vec![mk("C09", c09 as fn(&mut Tape, &mut Report) -> CaseResult, 600_000, "a test is true", pins09 as fn() -> Pinned)]
}

fn pins09() -> Pinned {
    use crate::pin::known;
    const MSG: &str = "Subject: abc\r\nX-N: 12abc\r\n\r\nb\r\n";
    vec![
        pin("last-key", || known("last-key", "if string :is \"a\" [\"a\",\"b\"] { fileinto \"1\"; } if string :is [\"b\",\"a\"] [\"a\",\"c\",\"b\"] { fileinto \"2\"; }", MSG, &["1", "2"], &["2"])),
        pin("sigma", || known("sigma", "if string :matches \"ΑΣ\" \"ας\" { fileinto \"1\"; } if string :matches \"ΑΣ\" \"ΑΣ\" { fileinto \"2\"; }", MSG, &["2"], &["1"])),
        pin("beyond-ascii", || known("beyond-ascii", "if string :is \"É\" \"é\" { fileinto \"1\"; }", MSG, &[], &["1"])),
        pin("replacement-character", || known("replacement-character", "if string :matches \"x\u{fffd}y\" \"x*y\" { fileinto \"1${1}\"; }", MSG, &["1\u{fffd}"], &["1"])),
        pin("second-of-allof", || crate::pin::expect_folders("if allof (string :matches \"x\" \"x\", string :matches \"Abc\" \"A*\") { fileinto \"${1}\"; }", MSG, &["bc"])),
        pin("nested-argument", || crate::pin::expect_folders("if string :matches \"abc\" \"a*\" { if string :matches \"${1}\" \"b*\" { fileinto \"${1}\"; } if true { if string :is \"${1}\" \"c\" { fileinto \"x${1}\"; } } fileinto \"y${1}\"; }", MSG, &["c", "xc", "yc"])),
        pin("stale-groups", || known("stale-groups", "if string :matches \"ab\" \"??\" { fileinto \"1${1}\"; } if string :regex \"x\" \"(y)|(x)\" { fileinto \"2${1}\"; }", MSG, &["1a", "2"], &["1a", "2a"])),
        pin("not-a-number", || known("not-a-number", "if header :value \"gt\" :comparator \"i;ascii-numeric\" \"Subject\" \"5\" { fileinto \"1\"; } if header :is :comparator \"i;ascii-numeric\" \"X-N\" \"12\" { fileinto \"2\"; }", MSG, &["1", "2"], &[])),
        pin("regex-as-glob", || known("regex-as-glob", "setflag \"ab\"; if hasflag :regex \"a.\" { fileinto \"1\"; } if hasflag :regex \"a*\" { fileinto \"2\"; } if currentdate :regex \"year\" \"[0-9]+\" { fileinto \"3\"; }", MSG, &["1", "2", "3"], &["2"])),
    ]
}
