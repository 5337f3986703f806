//! Properties decided with arbitrary scripts over the whole language: C01, C03, C17, C23, C24, C26.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::pin::{pin, Pinned};
use crate::props::c13;
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use crate::wild::*;
use sieve::{compiler::ErrorType, Compiler, Event, Recipient, Runtime, Script, Sieve};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Incs = BTreeMap<(bool, String), Arc<Sieve>>;

pub struct Case {
    pub nodes: Vec<Node>,
    pub src: String,
    pub inc_src: Vec<(bool, String, String)>,
    pub msg: Vec<u8>,
    pub conf: Conf,
    pub features: BTreeSet<&'static str>,
}

pub fn gen_case(t: &mut Tape, steady: bool) -> Case {
    let conf = Conf::gen(t);
    let mut features = BTreeSet::new();
    let n_inc = t.n(3);
    let mut inc_src = vec![];
    for k in 0..n_inc {
        let mut w = Wild::new(t, 12);
        w.looped = true;
        w.includes = n_inc;
        w.steady = steady;
        let s = w.script();
        features.append(&mut w.features);
        let global = t.bool();
        let src = plain(&full(&s));
        inc_src.push((global, format!("i{k}"), src.clone()));
        if t.bool() {
            inc_src.push((!global, format!("i{k}"), src));
        }
    }
    let mut w = Wild::new(t, 25);
    w.includes = n_inc;
    w.steady = steady;
    let nodes = w.script();
    features.append(&mut w.features);
    let src = plain(&full(&nodes));
    let msg = message(t);
    Case { nodes, src, inc_src, msg, conf, features }
}

pub fn compile_incs(c: &Compiler, src: &[(bool, String, String)]) -> Incs {
    src.iter()
        .filter_map(|(g, n, s)| Some(((*g, n.clone()), Arc::new(c.compile(s.as_bytes()).ok()?))))
        .collect()
}

pub fn describe(c: &Case) -> String {
    let mut s = c.src.clone();
    for (g, n, src) in &c.inc_src {
        s.push_str(&format!("--- include {} {n}\n{src}", if *g { "global" } else { "personal" }));
    }
    s.push_str(&format!("--- message\n{}\n--- {:?}", String::from_utf8_lossy(&c.msg), c.conf));
    s
}

/// What must hold of the events of every run.
pub fn invariants(items: &[Item]) -> CaseResult {
    let mut known: BTreeSet<usize> = BTreeSet::new();
    known.insert(0);
    for i in items {
        let Item::Ev(e) = i else { continue };
        let id = match e {
            Event::CreatedMessage { message_id, .. } => {
                if !known.insert(*message_id) {
                    return fail("message-id-reused", format!("message id {message_id} reported twice"));
                }
                continue;
            }
            Event::Keep { message_id, .. } | Event::FileInto { message_id, .. } | Event::SendMessage { message_id, .. } => *message_id,
            _ => continue,
        };
        if !known.contains(&id) {
            return fail("message-id-unknown", format!("{e:?} refers to a message never reported"));
        }
    }
    Ok(())
}

/// No line break in an address handed to the host.
pub fn clean_addresses(items: &[Item]) -> CaseResult {
    let bad = |s: &str| s.contains(['\r', '\n']);
    for i in items {
        if let Item::Ev(Event::SendMessage { recipient, notify, .. }) = i {
            let b = match recipient {
                Recipient::Address(a) => bad(a),
                Recipient::List(a) => bad(a),
                Recipient::Group(a) => a.iter().any(|a| bad(a)),
            };
            let _ = notify;
            if b {
                return fail("line-break-in-recipient", format!("{i:?}"));
            }
        }
    }
    Ok(())
}

pub fn run_case(c: &Compiler, rt: &Runtime, conf: &Conf, incs: &Incs, s: &Arc<Sieve>, msg: &[u8]) -> Result<Trace, Failure> {
    let _ = c;
    let mut ctx = conf.context(rt, msg);
    let host = WildHost { yes: conf.yes, includes: incs.clone(), max: 60_000 };
    let tr = host.run(&mut ctx, Script::Personal("_main".into()), s.clone());
    if !tr.truncated && ctx.run(sieve::Input::True).is_some() {
        return fail("run-after-end", "a finished run yields another event");
    }
    Ok(tr)
}

// ------------------------------------------------------------------ C01

const FRAGS: &[&str] = &[
    "require", "if", "elsif", "else", "keep", "fileinto", "redirect", "stop", "discard", "set", "let", "eval", "while", "foreverypart", "break", "continue",
    "include", "return", "global", "error", "vacation", "notify", "reject", "ereject", "addheader", "deleteheader", "replace", "enclose", "extracttext", "convert",
    "setflag", "addflag", "removeflag", "allof", "anyof", "not", "true", "false", "header", "address", "envelope", "exists", "size", "body", "date", "currentdate",
    "duplicate", "string", "environment", "hasflag", "spamtest", "virustest", "metadata", "ihave", "mailboxexists", "specialuse_exists", "valid_ext_list",
    "notify_method_capability", "valid_notify_method", "foo", "test", "text:", "text:\r\n.\r\n", "text:\r\nabc\r\n..\r\n.\r\n", "text: #x\nabc\n.\n",
    ":is", ":matches", ":regex", ":list", ":value", "\"gt\"", ":count", "\"le\"", ":comparator", "\"i;octet\"", "\"i;ascii-numeric\"", ":contains", ":over", ":under",
    ":index", ":last", ":mime", ":anychild", ":param", ":copy", ":create", ":flags", ":days", ":seconds", ":subject", ":from", ":addresses", ":handle", ":zone",
    ":originalzone", ":content", ":raw", ":text", ":lower", ":replace", ":length", ":local", ":name", ":first", ":fcc", ":importance", ":options", ":message",
    ":once", ":optional", ":personal", ":global", ":user", ":detail", ":localpart", ":headers", ":foo", ":1",
    "[", "]", "(", ")", "{", "}", ",", ";", "1", "0", "100K", "1G", "99999999999999999999G", "18446744073709551615M", "-1", "1.5", "\"\"", "\"a\"", "[\"a\", \"b\"]",
    "\"${a}\"", "\"${1}\"", "\"${63}\"", "\"${99999999999999999999}\"", "\"${a.b.c}\"", "\"${header.subject[*].x[1]}\"", "\"${header.from.addr.local[*]}\"",
    "\"${hex: 41 4}\"", "\"${hex:zz}\"", "\"${unicode: 110000}\"", "\"${unicode: d800}\"", "\"${unicode:41}\"", "\"${\"", "\"${a\"", "\"$${a}}\"",
    "\"(a|b\"", "\"*a?\"", "\"a + \"", "\"(((\"", "\"1 +\"", "\"a[\"", "\"[1,2\"", "\"'x\"", "\"!\"", "\"-\"", "\"f(\"", "\"ext_one()\"", "\"a && (b ||\"",
    "\"header.\"", "\"envelope.x\"", "\"body.x\"", "\"t.\"", "\"global.x\"", "\"env.\"", "\"fileinto\"", "\"variables\"", "\"comparator-i;octet\"", "\"vnd.x\"",
    "/* x */", "/*", "*/", "# x\r\n", "#", "/", "\\", "\"", "\r\n", "\n", "\r", "\t", "\0", "é", "\u{feff}", "_", "\"\\", "\"x\\\"y\"", "\u{1F600}", "'", "@", "!", "=", "<", ">", "?", "*", "a.b", "K", "0x10",
];

fn c01(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut src: Vec<u8> = Vec::new();
    match t.n(6) {
        0 => {
            // any bytes
            let n = t.n(120);
            for _ in 0..n {
                let b = match t.n(3) {
                    0 => t.n(256) as u8,
                    _ => *t.pick(b"\"\\${}[]();:,/*#.\r\n aK19text:"),
                };
                src.push(b);
            }
            rep.label("bytes");
        }
        1 | 2 => {
            if t.chance(3, 4) {
                src.extend_from_slice(ALL_CAPS.as_bytes());
            }
            let n = t.n(60);
            for _ in 0..n {
                src.extend_from_slice(t.pick(FRAGS).as_bytes());
                if t.chance(5, 6) {
                    src.push(b' ');
                }
            }
            rep.label("token soup");
        }
        k => {
            // a real script with damage
            let case = gen_case(t, false);
            let mut lay = Layout { t: None, nl: "\r\n" };
            let text = if k == 3 {
                lay.t = Some(t);
                lay.script(&full(&case.nodes))
            } else {
                case.src.clone()
            };
            src = text.into_bytes();
            let n = t.n(6);
            for _ in 0..n {
                if src.is_empty() {
                    break;
                }
                let at = t.n(src.len());
                match t.n(8) {
                    0 => src[at] = t.n(256) as u8,
                    1 => {
                        src.remove(at);
                    }
                    2 => src.insert(at, *t.pick(b"\"\\${}[]();:,/*#.\r\n aK19")),
                    3 => src.truncate(at),
                    4 => {
                        let f = t.pick(FRAGS).as_bytes();
                        src.splice(at..at, f.iter().copied());
                    }
                    5 => {
                        let end = (at + t.n(20)).min(src.len());
                        src.drain(at..end);
                    }
                    6 => {
                        let end = (at + t.n(80)).min(src.len());
                        let piece = src[at..end].to_vec();
                        let to = t.n(src.len());
                        src.splice(to..to, piece);
                    }
                    _ => {
                        // a bracket pair or keyword repeated very often
                        let f = *t.pick(&["(", "[", "{", "not ", "allof(", "if true {", "\"", "/*", "-", "((", "elsif true {}", "a,", "${"]);
                        let k = if t.chance(1, 40) { t.n(60_000) } else { t.n(400) };
                        rep.label_if(k > 5000, "very long repetition");
                        let piece = f.repeat(k);
                        src.splice(at..at, piece.into_bytes());
                    }
                }
            }
            rep.label("damaged script");
        }
    }
    // deep expressions and deep nesting are the classic ways to exhaust a stack
    if t.chance(1, 12) {
        let f = *t.pick(&["(", "!", "-", "a + (", "[", "ident(", "a[", "1 && (", "ident([", "!("]);
        let k = t.n(2100);
        src.extend_from_slice(format!(";let \"x\" \"{}1\";", f.repeat(k)).as_bytes());
        rep.label("deep expression");
    }
    let mut fm = c13::functions();
    let mut c = Compiler::new().register_functions(&mut fm);
    if t.bool() {
        let mut lim = |v: &[usize], default: usize| if t.chance(1, 4) { *t.pick(v) } else { default };
        c = c
            .either_max_string_size(lim(&[0, 1, 20, usize::MAX], 4096))
            .either_max_variable_name_size(lim(&[0, 1, usize::MAX], 32))
            .either_max_nested_blocks(lim(&[0, 1, 3, 200], 15))
            .either_max_nested_tests(lim(&[0, 1, 3, 200], 15))
            .either_max_nested_foreverypart(lim(&[0, 1, 10], 3))
            .either_max_match_variables(lim(&[0, 1, 63, 64, usize::MAX], 30))
            .either_max_local_variables(lim(&[0, 1, 5, 256, usize::MAX], 128))
            .either_max_header_size(lim(&[0, 5, usize::MAX], 1024))
            .either_max_includes(lim(&[0, 1, usize::MAX], 6))
            .either_max_script_size(lim(&[0, 50, 1000, usize::MAX], 1 << 20));
        c = c.with_no_capability_check(t.chance(1, 3));
        rep.label("random limits");
    }
    rep.desc = String::from_utf8_lossy(&src).into_owned();
    match c.compile(&src) {
        Ok(_) => {
            rep.label("compiled");
            rep.nontrivial_if(src.len() > 20);
        }
        Err(e) => {
            let lines: Vec<&[u8]> = src.split(|b| *b == b'\n').collect();
            if e.line_num() > lines.len() {
                return fail("position-line", format!("error on line {} of {}: {e}", e.line_num(), lines.len()));
            }
            // columns count from one after the first line, and the line break has one too
            let at = e.line_num().max(1);
            let len = lines[at - 1].len() + (at < lines.len()) as usize;
            if e.line_pos() > len {
                return fail("position-column", format!("error at column {} of line {} that has {len} bytes: {e}", e.line_pos(), e.line_num()));
            }
            if !e.to_string().contains("line") && e.to_string().is_empty() {
                return fail("message", "empty error message");
            }
            rep.label(match e.error_type() {
                ErrorType::UnexpectedToken { .. } => "unexpected token",
                ErrorType::UndeclaredCapability(_) => "undeclared capability",
                ErrorType::UnexpectedEOF | ErrorType::UnterminatedBlock | ErrorType::UnterminatedString | ErrorType::UnterminatedComment | ErrorType::UnterminatedMultiline => "unterminated",
                ErrorType::InvalidExpression(_) => "invalid expression",
                ErrorType::InvalidCharacter(_) => "invalid character",
                ErrorType::InvalidUtf8String => "invalid UTF-8",
                ErrorType::ScriptTooLong | ErrorType::StringTooLong | ErrorType::VariableTooLong | ErrorType::TooManyVariables | ErrorType::TooManyNestedBlocks | ErrorType::TooManyNestedTests | ErrorType::TooManyNestedForEveryParts | ErrorType::TooManyIncludes | ErrorType::HeaderTooLong => "limit",
                _ => "other error",
            });
            rep.nontrivial_if(src.len() > 20);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn c03(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let case = gen_case(t, false);
    rep.desc = describe(&case);
    if std::env::var("DUMP").is_ok() { eprintln!("{}", rep.desc); }
    let (c, rt) = case.conf.tools();
    let s = match c.compile(case.src.as_bytes()) {
        Ok(s) => Arc::new(s),
        Err(e) => {
            rep.label("not compiled");
            rep.label(&format!("not compiled: {}", e.to_string().chars().take(40).collect::<String>()));
            return Ok(());
        }
    };
    let incs = compile_incs(&c, &case.inc_src);
    let tr = run_case(&c, &rt, &case.conf, &incs, &s, &case.msg)?;
    rep.evals = tr.items.len() as u64;
    if tr.truncated || tr.items.len() > 12 * (case.conf.cpu + 1) + 12 {
        return fail("unbounded", format!("{} events with a CPU limit of {}", tr.items.len(), case.conf.cpu));
    }
    for f in &case.features {
        rep.label(f);
    }
    let evs = tr.items.iter().filter(|i| matches!(i, Item::Ev(_))).count();
    rep.label_if(tr.items.iter().any(|i| matches!(i, Item::Err(_))), "runtime error");
    rep.nontrivial_if(evs >= 3);
    Ok(())
}

// ------------------------------------------------------------------ C23

fn events_of(case: &Case, c: &Compiler, rt: &Runtime, incs: &Incs, s: &Arc<Sieve>) -> Result<Vec<Item>, Failure> {
    Ok(run_case(c, rt, &case.conf, incs, s, &case.msg)?.items)
}

fn c23(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let case = gen_case(t, true);
    rep.desc = describe(&case);
    if std::env::var("DUMP").is_ok() { eprintln!("{}", rep.desc); }
    let (c, rt) = case.conf.tools();
    let Ok(s) = c.compile(case.src.as_bytes()) else {
        rep.label("not compiled");
        return Ok(());
    };
    let json = match serde_json::to_vec(&s) {
        Ok(j) => j,
        Err(e) => return fail("serialise-json", e.to_string()),
    };
    let from_json: Sieve = match serde_json::from_slice(&json) {
        Ok(s) => s,
        Err(e) => return fail("deserialise-json", e.to_string()),
    };
    if from_json != s {
        return fail("json-differs", "the script read back from JSON differs");
    }
    let bytes = match rkyv::to_bytes::<rkyv::rancor::Error>(&s) {
        Ok(b) => b,
        Err(e) => return fail("serialise-rkyv", e.to_string()),
    };
    let from_rkyv: Sieve = match rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&bytes) {
        Ok(s) => s,
        Err(e) => return fail("deserialise-rkyv", e.to_string()),
    };
    if from_rkyv != s {
        return fail("rkyv-differs", "the script read back from rkyv differs");
    }
    // once more: what was read back is stored in the same way
    if serde_json::to_vec(&from_rkyv).ok().as_deref() != Some(&json[..]) {
        return fail("json-of-rkyv-differs", "JSON of the rkyv copy differs");
    }
    let incs = compile_incs(&c, &case.inc_src);
    let again: Incs = incs
        .iter()
        .map(|(k, v)| (k.clone(), Arc::new(serde_json::from_slice::<Sieve>(&serde_json::to_vec(&**v).unwrap()).unwrap())))
        .collect();
    let s = Arc::new(s);
    let a = events_of(&case, &c, &rt, &incs, &s)?;
    for (name, incs2, x) in [("JSON", &again, Arc::new(from_json)), ("rkyv", &incs, Arc::new(from_rkyv))] {
        if let Some(m) = same_runs(&case, &mut || events_of(&case, &c, &rt, &incs, &s), &mut || events_of(&case, &c, &rt, incs2, &x))? {
            return fail("events-differ", format!("fresh against {name}: {m}"));
        }
    }
    rep.evals = a.len() as u64;
    for f in &case.features {
        rep.label(f);
    }
    rep.nontrivial_if(a.len() >= 3);
    Ok(())
}

/// The first difference of two traces; what depends on the clock or on random boundaries and
/// message ids is left out.
pub fn differ(a: &[Item], b: &[Item]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map(stable), b.get(i).map(stable));
        if x != y {
            return Some(format!("event {i}: {x:?} against {y:?}"));
        }
    }
    None
}

/// An event as text, with generated Message-ID, Date and multipart boundaries blanked.
pub fn stable(i: &Item) -> String {
    match i {
        Item::Ev(Event::CreatedMessage { message_id, message }) => {
            format!("CreatedMessage {message_id} {:?}", mask_ids(&blank(&String::from_utf8_lossy(message))))
        }
        i => mask_ids(&format!("{i:?}")),
    }
}

/// Compares two ways of running the same thing.  A run that makes up message ids and dates which
/// the script can look at may differ from one time to the next: such a case fails only when sixty
/// runs of each kind, in turn, are equal among themselves but not to the others.
pub fn same_runs(
    case: &Case,
    a: &mut dyn FnMut() -> Result<Vec<Item>, Failure>,
    b: &mut dyn FnMut() -> Result<Vec<Item>, Failure>,
) -> Result<Option<String>, Failure> {
    let d = differ(&a()?, &b()?);
    if d.is_none() || !case.features.contains("replace or enclose") {
        return Ok(d);
    }
    let (mut x, mut y) = (BTreeSet::new(), BTreeSet::new());
    // made-up ids hash a stack address: run from another depth each time
    for i in 0..60 {
        x.insert(deeper(i, a)?.iter().map(stable).collect::<Vec<_>>());
        y.insert(deeper(i, b)?.iter().map(stable).collect::<Vec<_>>());
        if x.len() > 1 || y.len() > 1 {
            return Ok(None);
        }
    }
    Ok(if x == y { None } else { d })
}

#[inline(never)]
fn deeper(n: usize, f: &mut dyn FnMut() -> Result<Vec<Item>, Failure>) -> Result<Vec<Item>, Failure> {
    let pad = std::hint::black_box([n as u8; 48]);
    let r = if n == 0 { f() } else { deeper(n - 1, f) };
    std::hint::black_box(pad);
    r
}

fn blank(m: &str) -> String {
    let mut out = String::new();
    for line in m.split_inclusive('\n') {
        let l = line.to_ascii_lowercase();
        if l.starts_with("date:") || l.starts_with("message-id:") {
            out.push_str(&line[..line.find(':').unwrap() + 1]);
            out.push('\n');
        } else {
            out.push_str(line);
        }
    }
    out
}

// ------------------------------------------------------------------ C24

fn c24(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let case = gen_case(t, true);
    let other = gen_case(t, true);
    rep.desc = format!("{}\n--- other\n{}", describe(&case), describe(&other));
    // everything new
    let fresh = || {
        let (c, rt) = case.conf.tools();
        let s = c.compile(case.src.as_bytes()).ok()?;
        let incs = compile_incs(&c, &case.inc_src);
        let t = run_globals(&rt, &case.conf, &incs, &Arc::new(s.clone()), &case.msg);
        Some((s, t))
    };
    let Some((s1, t1)) = fresh() else {
        rep.label("not compiled");
        return Ok(());
    };
    let (c, rt) = case.conf.tools();
    // the same compiler after an other script, one that failed, and one with includes
    let _ = c.compile(other.src.as_bytes());
    let _ = c.compile(b"if not {");
    let s2 = match c.compile(case.src.as_bytes()) {
        Ok(s) => Arc::new(s),
        Err(e) => return fail("compiler-state", format!("compiles only with a new compiler: {e}")),
    };
    if *s2 != s1 {
        return fail("compiler-state", "a second compilation gives another script");
    }
    let incs = compile_incs(&c, &case.inc_src);
    let before = s2.clone();
    // other runs on the same runtime first, with the other message and with the other script
    if let Ok(o) = c.compile(other.src.as_bytes()) {
        run_globals(&rt, &other.conf, &compile_incs(&c, &other.inc_src), &Arc::new(o), &other.msg);
        run_globals(&rt, &case.conf, &incs, &s2, &other.msg);
    }
    // and with a message of the same shape and lengths, before and after an altogether different one
    if !case.features.contains("replace or enclose") && t.chance(1, 2) {
        // half of the time with a script that asks for much of the message
        let reader = t.bool().then(|| reader(t));
        let mut msg = case.msg.clone();
        if reader.is_some() && t.bool() {
            let s = String::from_utf8_lossy(&msg).replace("text/plain", "text/html");
            msg = if s.contains("text/html") { s.into_bytes() } else { [b"Content-Type: text/html\r\n", &msg[..]].concat() };
        }
        let s2 = match reader.as_ref().map(|r| c.compile(r.as_bytes())) {
            Some(Ok(s)) => Arc::new(s),
            Some(Err(e)) => return fail("twin", format!("the reading script does not compile: {e}")),
            None => s2.clone(),
        };
        if let Some(r) = &reader {
            rep.desc = format!("{}\n--- reader\n{r}\n--- of\n{}", rep.desc, String::from_utf8_lossy(&msg));
        }
        let twin = twin(t, &msg);
        let run = |m: &[u8]| run_globals(&rt, &case.conf, &incs, &s2, m);
        // on a thread of its own, which holds nothing yet
        let apart = std::thread::scope(|sc| sc.spawn(|| crate::runner::guarded(|| Ok(run(&msg)))).join());
        let first = run(&twin);
        run(&other.msg);
        if let Some(m) = differ(&first, &run(&twin)) {
            return fail("twin", format!("a message of the same shape is answered like the one before: {m}"));
        }
        if let Ok(Ok(a)) = apart {
            if let Some(m) = differ(&a, &run(&msg)) {
                return fail("twin", format!("after a message of the same shape: {m}"));
            }
        }
        rep.label("twin message");
    }
    for round in 0..2 {
        let r = same_runs(&case, &mut || Ok(fresh().unwrap().1), &mut || Ok(run_globals(&rt, &case.conf, &incs, &s2, &case.msg)))?;
        if let Some(m) = r {
            return fail("run-state", format!("run {round} with a used runtime: {m}"));
        }
    }
    if *before != s1 {
        return fail("script-changed", "the compiled script changed while running");
    }
    // at the same time on several threads
    if !case.features.contains("replace or enclose") && t.chance(1, 4) {
        let barrier = std::sync::Barrier::new(3);
        let r: Vec<Option<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|_| {
                    sc.spawn(|| {
                        barrier.wait();
                        for _ in 0..2 {
                            let t2 = run_globals(&rt, &case.conf, &incs, &s2, &case.msg);
                            if let Some(m) = differ(&t1, &t2) {
                                return Some(m);
                            }
                            if c.compile(case.src.as_bytes()).ok().as_ref() != Some(&s1) {
                                return Some("compilation".into());
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("panicked".into()))).collect()
        });
        if let Some(m) = r.into_iter().flatten().next() {
            return fail("threads", m);
        }
        rep.label("threads");
    }
    rep.evals = t1.len() as u64;
    rep.nontrivial_if(t1.len() >= 3);
    for f in &case.features {
        rep.label(f);
    }
    Ok(())
}

/// A script whose answer depends on much of the message, through every kind of thing that reads or converts it.
fn reader(t: &mut Tape) -> String {
    let mut s = String::from("require [\"variables\", \"fileinto\", \"mime\", \"foreverypart\", \"body\", \"extracttext\", \"editheader\", \"date\", \"index\", \"regex\", \"relational\", \"vnd.stalwart.expressions\"];\n");
    for k in 0..t.range(1, 8) {
        s.push_str(&match t.n(8) {
            0..=2 => {
                let v = *t.pick(crate::wild::VARS);
                format!("if true {{ fileinto \"k{k} {v}\"; }}\n")
            }
            3 => {
                let v = *t.pick(&["body.text", "body.html", "body.to_text", "body.to_html", "header.subject", "header.from", "part.raw"]);
                format!("if string :matches \"${{{v}}}\" \"*{}*\" {{ fileinto \"m{k} ${{1}}|${{2}}\"; }}\n", t.pick(&["a", "e", "o", "<", "?", "??", "t*e", " "]))
            }
            4 => {
                let v = *t.pick(&["body.text", "body.html", "body.to_text", "body.to_html", "header.subject", "header.from.name"]);
                format!("if string :regex \"${{{v}}}\" \"([a-{}]+)(.*)\" {{ fileinto \"r{k} ${{1}}|${{2}}\"; }}\n", t.pick(&["f", "m", "z"]))
            }
            5 => format!("foreverypart {{ extracttext \"x\"; fileinto \"p{k} ${{x}} ${{part.text}} ${{part.raw}} ${{header.content-type}}\"; }}\n"),
            6 => format!("if body :contains {} \"{}\" {{ fileinto \"b{k}\"; }}\n", t.pick(&[":text", ":raw", ":content \"text\""]), t.pick(&["a", "be", "the", "lo", "or"])),
            7 => format!("set {} \"x\" \"${{{}}}\"; fileinto \"s{k} ${{x}}\";\n", t.pick(&[":upper", ":lower", ":upperfirst", ":quotewildcard", ":quoteregex", ":encodeurl", ":length"]), t.pick(&["body.text", "body.to_text", "header.subject", "header.to"])),
            _ => format!("if header :matches [\"Subject\", \"From\", \"X-A\"] \"*{}*\" {{ fileinto \"h{k} ${{1}}|${{2}}\"; }}\n", t.pick(&["a", "e", "o", "r"])),
        });
    }
    s
}

/// The message with some letters of its text (no field names, tags or boundaries) exchanged for others.
fn twin(t: &mut Tape, msg: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let step = t.range(1, 25) as u8;
    let every = t.range(1, 4);
    let mut n = 0;
    for line in msg.split_inclusive(|&c| c == b'\n') {
        if line.starts_with(b"--") || (line.contains(&b':') && !line.starts_with(b"Subject:")) {
            out.extend_from_slice(line);
            continue;
        }
        let mut tag = false;
        let start = line.iter().position(|&c| c == b':').map_or(0, |p| p + 1);
        for (i, &c) in line.iter().enumerate() {
            tag = c == b'<' || (tag && c != b'>');
            out.push(if tag || i < start {
                c
            } else if c.is_ascii_lowercase() {
                n += 1;
                if n % every == 0 { b'a' + (c - b'a' + step) % 26 } else { c }
            } else if c.is_ascii_uppercase() {
                n += 1;
                if n % every == 0 { b'A' + (c - b'A' + step) % 26 } else { c }
            } else {
                c
            });
        }
    }
    out
}

/// The events and then the global variables, as items.
fn run_globals(rt: &Runtime, conf: &Conf, incs: &Incs, s: &Arc<Sieve>, msg: &[u8]) -> Vec<Item> {
    let mut ctx = conf.context(rt, msg);
    let host = WildHost { yes: conf.yes, includes: incs.clone(), max: 60_000 };
    let mut items = host.run(&mut ctx, Script::Personal("_main".into()), s.clone()).items;
    let mut names: Vec<String> = ctx.global_variable_names().map(|s| s.to_string()).collect();
    names.sort();
    for n in names {
        items.push(Item::Err(format!("global {n} {:?}", ctx.global_variable(&n))));
    }
    items
}

// ------------------------------------------------------------------ C26

/// Names of variables in an other letter case.
fn recase_vars(t: &mut Tape, s: &str) -> String {
    // only complete references made of letters, digits and dots
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find("${") {
        out.push_str(&rest[..p + 2]);
        rest = &rest[p + 2..];
        let e = rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '.')).unwrap_or(rest.len());
        if rest[e..].starts_with('}') && !rest[..e].is_empty() && !rest.starts_with("nope") {
            for c in rest[..e].chars() {
                out.push(if t.bool() { c.to_ascii_uppercase() } else { c });
            }
            rest = &rest[e..];
        }
    }
    out.push_str(rest);
    out
}

fn recase(t: &mut Tape, n: &mut Node) {
    for a in n.pos.iter_mut().chain(n.tags.iter_mut().flat_map(|t| t.args.iter_mut())) {
        match a {
            A::S(s) => *s = recase_vars(t, s),
            A::L(l) => {
                for s in l {
                    *s = recase_vars(t, s);
                }
            }
            A::N(_) => (),
        }
    }
    for c in n.tests.iter_mut().chain(n.block.iter_mut().flatten()) {
        recase(t, c);
    }
}

fn c26(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let case = gen_case(t, true);
    let nodes = full(&case.nodes);
    let mut other = nodes.clone();
    // names of variables in an other letter case cannot be told apart from text by the layout
    if t.bool() {
        for n in &mut other {
            recase(t, n);
        }
    }
    let nl = *t.pick(&["\r\n", "\n"]);
    let mut a = case.src.clone();
    let mut b = Layout { t: Some(t), nl }.script(&other);
    // both sources damaged in the same way are both refused
    let damage = t.chance(1, 5);
    if damage {
        let junk = *t.pick(&["}", ";;", "if", "keep", "keep \"x\";", "unknowncmd;", "(", "]", "\"open", "/* open", "else {}", ":tag", "if true { keep }"]);
        a.push_str(junk);
        b.push('\n');
        b.push_str(junk);
    }
    rep.desc = format!("{}\n--- other layout\n{b}", describe(&case));
    let (c, rt) = case.conf.tools();
    let (x, y) = (c.compile(a.as_bytes()), c.compile(b.as_bytes()));
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (Arc::new(x), Arc::new(y)),
        (Err(e), Err(f)) => {
            rep.label(if damage { "both refused" } else { "not compiled" });
            if std::mem::discriminant(e.error_type()) != std::mem::discriminant(f.error_type()) && !damage {
                return fail("refused-differently", format!("{e} against {f}"));
            }
            return Ok(());
        }
        (Ok(_), Err(e)) => return fail("layout-refused", format!("only the plain layout compiles: {e}")),
        (Err(e), Ok(_)) => return fail("layout-accepted", format!("only the other layout compiles: {e}")),
    };
    if x == y {
        rep.label("equal scripts");
    } else {
        rep.label("equivalent scripts");
    }
    let incs = compile_incs(&c, &case.inc_src);
    let ta = events_of(&case, &c, &rt, &incs, &x)?;
    if let Some(m) = same_runs(&case, &mut || events_of(&case, &c, &rt, &incs, &x), &mut || events_of(&case, &c, &rt, &incs, &y))? {
        return fail("layout-events", m);
    }
    rep.evals = ta.len() as u64;
    rep.nontrivial_if(ta.len() >= 3);
    Ok(())
}

// ------------------------------------------------------------------ C17

fn drop_cap(nodes: &[Node], cap: &str) -> String {
    let mut caps = Caps::new();
    for n in nodes {
        n.caps(&mut caps);
    }
    caps.remove(cap);
    let all: Vec<Node> = require(&caps).into_iter().chain(nodes.iter().cloned()).collect();
    plain(&all)
}

fn c17(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let case = gen_case(t, true);
    rep.desc = describe(&case);
    let (c, rt) = case.conf.tools();
    let mut caps = Caps::new();
    for n in &case.nodes {
        n.caps(&mut caps);
    }
    let s = match c.compile(case.src.as_bytes()) {
        Ok(s) => Arc::new(s),
        Err(e) => {
            if let ErrorType::UndeclaredCapability(x) = e.error_type() {
                return fail("declared-refused", format!("everything is declared, yet {x} is missed: {e}"));
            }
            rep.label("not compiled");
            return Ok(());
        }
    };
    let list: Vec<&'static str> = caps.iter().copied().collect();
    if list.is_empty() {
        return Ok(());
    }
    rep.nontrivial_if(list.len() >= 3);
    // one missing
    let mut cap = *t.pick(&list);
    if cap == "spamtest" && caps.contains("spamtestplus") {
        // implied
        cap = "spamtestplus";
    }
    rep.label(&format!("without {cap}"));
    let src = drop_cap(&case.nodes, cap);
    // spamtestplus implies spamtest
    match c.compile(src.as_bytes()) {
        Ok(_) => return fail("undeclared-accepted", format!("compiles without {cap}:\n{src}")),
        Err(e) => match e.error_type() {
            ErrorType::UndeclaredCapability(x) if x.to_string() == cap || (cap == "spamtestplus" && x.to_string() == "spamtest") => (),
            _ => return fail("undeclared-other-error", format!("without {cap}: {e}")),
        },
    }
    // a require in a block that does not enclose the use does not help
    let scoped = format!("if true {{ require \"{cap}\"; }}\r\n{src}");
    match c.compile(scoped.as_bytes()) {
        Ok(_) => return fail("scoped-require", format!("compiles with {cap} declared elsewhere:\n{scoped}")),
        Err(e) => match e.error_type() {
            ErrorType::UndeclaredCapability(_) => (),
            _ => return fail("undeclared-other-error", format!("scoped {cap}: {e}")),
        },
    }
    // switched off
    let free = if case.msg.len() % 2 == 0 {
        c.clone().with_no_capability_check(true)
    } else {
        let mut c = c.clone();
        c.set_no_capability_check(true);
        c
    };
    let unguarded = plain(&case.nodes);
    if list.iter().all(|c| *c != "ihave") {
        match free.compile(unguarded.as_bytes()) {
            Ok(_) => (),
            Err(e) => return fail("check-off-refused", format!("refused with the check switched off: {e}\n{unguarded}")),
        }
    }
    // a runtime that does not allow one of them
    let cap = *t.pick(&list);
    {
        let rt2 = {
            let (_, r) = case.conf.tools();
            match case.msg.len() % 3 {
                0 => r.without_capability(cap),
                1 => r.without_capabilities(["vnd.unused", cap]),
                _ => {
                    let mut r = r;
                    r.unset_capability(cap);
                    r
                }
            }
        };
        let incs = compile_incs(&c, &case.inc_src);
        let tr = run_case(&c, &rt2, &case.conf, &incs, &s, &case.msg)?;
        if case.conf.cpu > 0 {
            let want = [format!("CapabilityNotAllowed({cap})")];
            let allowed = |i: &Item| matches!(i, Item::Err(e) if *e == want[0]) || matches!(i, Item::Err(e) if e.starts_with("CapabilityNotAllowed") && case.conf.without.iter().any(|w| e.contains(w)));
            if !tr.items.first().is_some_and(allowed) {
                return fail("not-stopped", format!("without {cap} the run starts with {:?}", tr.items.first()));
            }
            // then only the pending keep
            if tr.items.len() != 2 || !matches!(&tr.items[1], Item::Ev(Event::Keep { flags, message_id: 0 }) if flags.is_empty()) {
                return fail("later-action", format!("{:?}", tr.items));
            }
        }
    }
    // nor may it run when another script includes it
    if cap != "include" && case.conf.cpu > 100 && case.conf.nested > 1 && !case.conf.without.contains(&"include") && case.conf.without.is_empty() {
        let mut incs = compile_incs(&c, &case.inc_src);
        incs.insert((false, "the script".into()), s.clone());
        let deep = case.conf.nested > 2 && t.bool();
        if deep {
            incs.insert((false, "between".into()), compile(&c, "require \"include\"; include \"the script\"; keep;")?);
        }
        let src = format!("require \"include\"; if true {{ keep; }} include \"{}\"; discard;", if deep { "between" } else { "the script" });
        let outer = compile(&c, &src)?;
        let r = case.conf.tools().1.without_capability(cap);
        let mut tr = run_case(&c, &r, &case.conf, &incs, &outer, &case.msg)?;
        tr.items.retain(|i| !matches!(i, Item::Ev(Event::IncludeScript { .. })));
        let ok = tr.items.len() == 2
            && matches!(&tr.items[0], Item::Err(e) if *e == format!("CapabilityNotAllowed({cap})"))
            && matches!(&tr.items[1], Item::Ev(Event::Keep { flags, message_id: 0 }) if flags.is_empty());
        if !ok {
            return fail("not-stopped", format!("included without {cap}: {:?}", tr.items));
        }
        rep.label("included without it");
    }
    let _ = rt;
    Ok(())
}

// ------------------------------------------------------------------

fn none() -> Pinned {
    vec![]
}

fn pins23() -> Pinned {
    let back = |script: &str| -> Result<bool, Failure> {
        let s = compile(&full_compiler(), script)?;
        let bytes = rkyv::to_bytes::<rkyv::rancor::Error>(&*s).map_err(|e| crate::report::Failure { class: "serialise-rkyv".into(), message: e.to_string() })?;
        let t = rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&bytes).map_err(|e| crate::report::Failure { class: "deserialise-rkyv".into(), message: e.to_string() })?;
        Ok(*s == t)
    };
    vec![
        // Known finding: a size limit is kept in 32 bits.
        pin("size-beyond-4gib", move || {
            if back("if size :over 4G { keep; } if size :under 4294967297 { discard; }")? {
                Ok(())
            } else {
                fail("size-beyond-4gib", "a size of 4 GiB or more differs in the script read back from rkyv")
            }
        }),
        pin("size-below-4gib", move || if back("if size :over 4294967295 { keep; }")? { Ok(()) } else { fail("rkyv-differs", "size :over 4294967295") }),
        pin("first-beyond-4gib", move || {
            if back("require [\"mime\", \"foreverypart\", \"extracttext\", \"variables\"]; foreverypart { extracttext :first 4294967296 \"x\"; break; }")? {
                Ok(())
            } else {
                fail("rkyv-differs", "extracttext :first 4294967296")
            }
        }),
    ]
}

/// A panic of a known kind under its own name; what the script should do otherwise.
fn panics(class: &str, what: &str, f: impl Fn() -> CaseResult + std::panic::UnwindSafe) -> CaseResult {
    match std::panic::catch_unwind(f) {
        Ok(r) => r,
        Err(_) => fail(class, what),
    }
}

fn pins01() -> Pinned {
    vec![
        pin("deleteheader-then-match-var", || crate::pin::expect_folders("deleteheader :matches \"X\" \"*\"; fileinto \"a${1}\";", crate::pin::MSG, &["a"])),
        pin("long-string-peeked", || {
            let mut s = b"addflag \"".to_vec();
            s.extend([0xe9; 5000]);
            s.extend(b"\" \"x\";");
            match full_compiler().compile(&s) {
                Err(e) if e.line_num() == 1 => Ok(()),
                r => fail("position-line", format!("{:?}", r.map(|_| ()).map_err(|e| e.to_string()))),
            }
        }),
        pin("stray-slash", || match full_compiler().compile(b"keep;\nkeep /\nx") {
            Err(e) if e.line_num() == 2 && e.line_pos() == 6 => Ok(()),
            r => fail("position-line", format!("{:?}", r.map(|_| ()).map_err(|e| e.to_string()))),
        }),
    ]
}

const NESTED: &str = "Content-Type: multipart/alternative; boundary=\"b32\"\r\n\r\n--b32\r\nContent-Type: message/rfc822\r\n\r\nDate: 1\r\nContent-Type: message/rfc822\r\n\r\nSubject: x\r\n\r\ndata\r\n--b32\r\nContent-Type: message/rfc822\r\n\r\nFrom: <>\r\n\r\nbody\r\n--b32--\r\n";

fn pins03() -> Pinned {
    vec![
        pin("cyclic-parts", || {
            crate::pin::expect_folders("foreverypart { foreverypart { if body :text :contains \"none\" { discard; } } } fileinto \"x\";", NESTED, &["x"])?;
            crate::pin::events(|r| r, "addheader \"X\" \"1\"; enclose \"x\";", NESTED).map(|_| ())
        }),
        pin("wildcards", || {
            panics("many-wildcards", "a pattern with 70 wildcards overflows the mask of captured positions", || {
                let p = "*".repeat(70);
                crate::pin::expect_folders(&format!("if string :matches \"{}\" \"{p}\" {{ fileinto \"y${{1}}\"; }}", "x".repeat(70)), crate::pin::MSG, &["y"])
            })
        }),
        pin("runtime-regex", || {
            panics("runtime-regex", "a regular expression from a variable that does not parse trips an assertion", || {
                crate::pin::expect_folders("set \"r\" \"(\"; if string :regex \"x\" \"${r}\" { discard; } fileinto \"y\";", crate::pin::MSG, &["y"])
            })
        }),
        pin("growing-message", || {
            // Known finding: nothing bounds the size of a message that is replaced by twice its own text.
            let made = crate::pin::created("let \"i\" \"0\"; while \"i < 17\" { let \"i\" \"i + 1\"; replace \"${body.text}${body.text}\"; fileinto :copy \"x\"; }", crate::pin::MSG)?;
            let n = made.iter().map(|m| m.len()).max().unwrap_or(0);
            if n < 1_000_000 {
                Ok(())
            } else {
                fail("growing-message", format!("a message of {n} octets"))
            }
        }),
        pin("parser-panic", || {
            panics("parser-panic", "the mail parser (a dependency) panics on an alternative with two HTML parts before a nested alternative that has only text", || {
                crate::pin::expect("keep;", PARSER_PANIC, &["Keep []"])
            })
        }),
    ]
}

const PARSER_PANIC: &str = "Content-Type: multipart/alternative; boundary=\"b\"\r\n\r\n--b\r\nContent-Type: text/html\r\n\r\nx\r\n--b\r\nContent-Type: text/html\r\n\r\nx\r\n--b\r\nContent-Type: multipart/alternative; boundary=\"c\"\r\n\r\n--c\r\nContent-Type: text/plain\r\n\r\ny\r\n--c--\r\n--b\r\nContent-Type: text/html\r\n\r\nx\r\n--b--\r\n";

fn pins17() -> Pinned {
    vec![
    pin("mailboxid", || {
        let c = sieve::Compiler::new();
        crate::pin::compiles(&c, "require [\"fileinto\", \"mailboxid\"]; fileinto :mailboxid \"x\" \"y\";", true)?;
        crate::pin::compiles(&c, "require [\"fileinto\", \"mailbox\"]; fileinto :mailboxid \"x\" \"y\";", false)
    }),
    pin("require-in-block", || {
        let c = full_compiler();
        crate::pin::compiles(&c, "if true { require \"fileinto\"; fileinto \"a\"; }", true)?;
        crate::pin::compiles(&c, "if true { require \"fileinto\"; } fileinto \"a\";", false)
    }),
    pin("undeclared-modifier", || {
        let c = full_compiler();
        for m in [":encodeurl", ":quoteregex", ":replace \"a\" \"b\""] {
            if c.compile(format!("require \"variables\"; set {m} \"v\" \"x\";").as_bytes()).is_ok() {
                return fail("undeclared-modifier", "set modifiers of other extensions compile without them");
            }
        }
        Ok(())
    }),
    pin("undeclared-comparator", || {
        match full_compiler().compile(b"if header :comparator \"i;ascii-numeric\" \"subject\" \"1\" { keep; }") {
            Ok(_) => fail("undeclared-comparator", "i;ascii-numeric needs no require"),
            Err(_) => Ok(()),
        }
    })]
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop {
        id,
        quick,
        thorough: quick * 60,
        run,
        pinned,
        rule,
        assumptions: &["the scripted host answers yes or no by the hash of the question, include requests from a table, external functions from pure functions"],
    };
    vec![
        mk("C01", c01 as fn(&mut Tape, &mut Report) -> CaseResult, 1_200_000, "the source has more than 20 bytes", pins01 as fn() -> Pinned),
        mk("C03", c03, 180_000, "the run yields at least three events", pins03),
        mk("C17", c17, 200_000, "the script needs at least three extensions", pins17),
        mk("C23", c23, 120_000, "the run yields at least three events", pins23),
        mk("C24", c24, 70_000, "the run yields at least three events", none),
        mk("C26", c26, 150_000, "the run yields at least three events", none),
    ]
}
