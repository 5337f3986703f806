//! Fixed scripts with fixed expected events, used as regression cases.
use crate::drive::*;
use crate::model::{diff, norm};
use crate::props::c13;
use crate::report::*;
use sieve::{Envelope, Runtime};
use std::sync::Arc;

pub const MSG: &str = "From: sender@example.net\r\nTo: me@example.com\r\nSubject: hello world\r\n\r\nbody text\r\n";

/// Events of a run as text; extensions are declared unless the script does so itself.
pub fn events(rt: impl FnOnce(Runtime) -> Runtime, script: &str, msg: &str) -> Result<Vec<String>, Failure> {
    Ok(items(rt, script, msg)?.iter().map(norm).collect())
}

/// The messages created by a run.
pub fn created(script: &str, msg: &str) -> Result<Vec<String>, Failure> {
    Ok(items(|r| r, script, msg)?
        .iter()
        .filter_map(|i| match i {
            Item::Ev(sieve::Event::CreatedMessage { message, .. }) => Some(String::from_utf8_lossy(message).to_string()),
            _ => None,
        })
        .collect())
}

/// The only created message has these lines in its header, and none of those.
pub fn expect_head(script: &str, msg: &str, has: &[&str], hasnt: &[&str]) -> CaseResult {
    let c = created(script, msg)?;
    if c.len() != 1 {
        return fail("events", format!("{script}\n{} created messages: {c:?}", c.len()));
    }
    let head = c[0].split("\r\n\r\n").next().unwrap_or("");
    let lines: Vec<&str> = head.split(['\r', '\n']).collect();
    for h in has {
        if !lines.contains(h) {
            return fail("created-value", format!("{script}\nno line {h:?} in {head:?}"));
        }
    }
    for h in hasnt {
        if lines.iter().any(|l| l.starts_with(h)) {
            return fail("created-value", format!("{script}\na line {h:?} in {head:?}"));
        }
    }
    Ok(())
}

pub fn items(rt: impl FnOnce(Runtime) -> Runtime, script: &str, msg: &str) -> Result<Vec<Item>, Failure> {
    let script = if script.contains("require") { script.to_string() } else { format!("{ALL_CAPS}{script}") };
    let mut fm = c13::functions();
    let c = full_compiler().register_functions(&mut fm);
    let s = compile(&c, &script)?;
    let rt = rt(full_runtime().with_functions(&mut fm).with_max_redirects(10).with_max_out_messages(10).with_valid_notification_uri("mailto"));
    let mut ctx = rt
        .filter(msg.as_bytes())
        .with_envelope(Envelope::From, "sender@example.net")
        .with_envelope(Envelope::To, "me@example.com")
        .with_user_address("me@example.com");
    let mut h = Host::new();
    let t = drive(&mut ctx, s, &mut h);
    Ok(t.items)
}

pub fn expect(script: &str, msg: &str, want: &[&str]) -> CaseResult {
    expect_with(|r| r, script, msg, want)
}

pub fn expect_with(rt: impl FnOnce(Runtime) -> Runtime, script: &str, msg: &str, want: &[&str]) -> CaseResult {
    let got = events(rt, script, msg)?;
    let want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
    match diff(&want, &got) {
        None => Ok(()),
        Some(d) => fail("events", format!("{script}\n{d}")),
    }
}

/// The folders of all fileinto events.
pub fn folders(script: &str, msg: &str) -> Result<Vec<String>, Failure> {
    Ok(events(|r| r, script, msg)?
        .into_iter()
        .filter_map(|e| {
            let e = e.strip_prefix("FileInto \"")?;
            // the folder is the first quoted string
            let mut out = String::new();
            let mut it = e.chars();
            while let Some(c) = it.next() {
                match c {
                    '"' => break,
                    '\\' => out.push(match it.next()? {
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        c => c,
                    }),
                    c => out.push(c),
                }
            }
            Some(out)
        })
        .collect())
}

pub fn expect_folders(script: &str, msg: &str, want: &[&str]) -> CaseResult {
    let got = folders(script, msg)?;
    if got != want {
        return fail("events", format!("{script}\nfolders {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// A finding is there when the folders of the script are exactly those of the defect
pub fn known(class: &'static str, script: &str, msg: &str, right: &[&str], wrong: &[&str]) -> CaseResult {
    let got = folders(script, msg)?;
    if got == right {
        Ok(())
    } else if got == wrong {
        fail(class, format!("{script}: {got:?}"))
    } else {
        fail("decision", format!("{script}: {got:?}"))
    }
}

pub fn compiles(c: &sieve::Compiler, script: &str, want: bool) -> CaseResult {
    match c.compile(script.as_bytes()) {
        Ok(s) if !want => {
            let _ = Arc::new(s);
            fail("accepted", format!("compiles, should be refused: {script}"))
        }
        Err(e) if want => fail("compile-rejected", format!("{e}: {script}")),
        _ => Ok(()),
    }
}

pub type Pinned = Vec<(&'static str, Box<dyn Fn() -> CaseResult>)>;

pub fn pin(name: &'static str, f: impl Fn() -> CaseResult + 'static) -> (&'static str, Box<dyn Fn() -> CaseResult>) {
    (name, Box::new(f))
}
