#![allow(dead_code, unused_imports, unused_variables)]
use sieve::{runtime::Variable, *};
use std::collections::BTreeMap;
use std::sync::Arc;

const CAPS: &str = "require [\"envelope\",\"envelope-dsn\",\"envelope-deliverby\",\"fileinto\",\"encoded-character\",\"body\",\"convert\",\"copy\",\"relational\",\"date\",\"index\",\"duplicate\",\"variables\",\"editheader\",\"foreverypart\",\"mime\",\"replace\",\"enclose\",\"extracttext\",\"enotify\",\"redirect-dsn\",\"redirect-deliverby\",\"environment\",\"reject\",\"ereject\",\"extlists\",\"subaddress\",\"vacation\",\"vacation-seconds\",\"fcc\",\"mailbox\",\"mailboxid\",\"mboxmetadata\",\"servermetadata\",\"special-use\",\"imap4flags\",\"ihave\",\"imapsieve\",\"include\",\"regex\",\"spamtest\",\"spamtestplus\",\"virustest\",\"vnd.stalwart.while\",\"vnd.stalwart.expressions\",\"comparator-i;ascii-numeric\",\"comparator-i;octet\"];\r\n";
const MSG: &str = "From: sender@example.net\r\nTo: me@example.com\r\nSubject: hello world\r\n\r\nbody text\r\n";

fn with_caps(script: &str) -> String {
    if script.contains("require") { script.to_string() } else { format!("{CAPS}{script}") }
}

fn runtime() -> Runtime {
    Runtime::new()
        .with_capability(compiler::grammar::Capability::While)
        .with_capability(compiler::grammar::Capability::Expressions)
        .with_max_redirects(10)
        .with_max_out_messages(10)
        .with_valid_notification_uri("mailto")
}

fn show(e: &Event) -> String {
    match e {
        Event::CreatedMessage { message_id, message } => {
            format!("CreatedMessage {message_id} {:?}", String::from_utf8_lossy(message))
        }
        e => format!("{e:?}"),
    }
}

/// Runs a script; includes are (name, script) pairs, answers decide questions put to the host.
fn run_full(
    rt: &Runtime,
    compiler: &Compiler,
    script: &str,
    includes: &[(&str, &str)],
    msg: &str,
    answer: &mut dyn FnMut(&Event) -> Option<Input>,
) -> Vec<String> {
    let main = Arc::new(compiler.compile(with_caps(script).as_bytes()).expect("script compiles"));
    let includes: BTreeMap<String, Arc<Sieve>> = includes
        .iter()
        .map(|(n, s)| (n.to_string(), Arc::new(compiler.compile(with_caps(s).as_bytes()).expect("include compiles"))))
        .collect();
    let mut ctx = rt
        .filter(msg.as_bytes())
        .with_envelope(Envelope::From, "sender@example.net")
        .with_envelope(Envelope::To, "me@example.com")
        .with_user_address("me@example.com");
    let mut input = Input::script("main", main);
    let mut out = vec![];
    while let Some(r) = ctx.run(input) {
        match r {
            Ok(e) => {
                input = match answer(&e) {
                    Some(i) => i,
                    None => match &e {
                        Event::IncludeScript { name, .. } => match includes.get(name.as_str()) {
                            Some(s) => Input::Script { name: name.clone(), script: s.clone() },
                            None => Input::False,
                        },
                        Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } => Input::False,
                        _ => Input::True,
                    },
                };
                out.push(show(&e));
            }
            Err(e) => {
                out.push(format!("Error {e:?}"));
                input = Input::True;
            }
        }
        if out.len() > 100_000 {
            out.push("endless".into());
            break;
        }
    }
    out
}

fn run(script: &str, msg: &str) -> Vec<String> {
    run_full(&runtime(), &Compiler::new(), script, &[], msg, &mut |_| None)
}

/// The folders of all fileinto events.
fn folders(script: &str, msg: &str) -> Vec<String> {
    let main = Arc::new(Compiler::new().compile(with_caps(script).as_bytes()).expect("script compiles"));
    let rt = runtime();
    let mut ctx = rt
        .filter(msg.as_bytes())
        .with_envelope(Envelope::From, "sender@example.net")
        .with_envelope(Envelope::To, "me@example.com")
        .with_user_address("me@example.com");
    let mut input = Input::script("main", main);
    let mut out = vec![];
    while let Some(r) = ctx.run(input) {
        if let Ok(Event::FileInto { folder, .. }) = &r {
            out.push(folder.clone());
        }
        input = match r {
            Ok(Event::IncludeScript { .. } | Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. }) => Input::False,
            _ => Input::True,
        };
    }
    out
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("{what}:\n got  {got:?}\n want {want:?}");
        std::process::exit(1);
    }
}
