//! Drives the real compiler and runtime with a scripted host.
use crate::report::{fail, Failure};
use sieve::{
    compiler::grammar::Capability, runtime::RuntimeError, runtime::Variable, Compiler, Context,
    Envelope, Event, Input, Mailbox, Runtime, Script, Sieve,
};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Default, Clone)]
pub struct Host {
    pub includes: BTreeMap<(bool, String), Arc<Sieve>>, // (global, name)
    pub mailboxes: BTreeSet<String>,
    pub mailbox_ids: BTreeSet<String>,
    pub special_use: BTreeSet<String>,
    pub lists: BTreeMap<String, BTreeSet<String>>,
    pub seen_ids: BTreeSet<String>,
    pub max_steps: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Ev(Event),
    Err(String),
}

#[derive(Debug, Clone, Default)]
pub struct Trace {
    pub items: Vec<Item>,
    pub truncated: bool,
}

pub fn err_tag(e: &RuntimeError) -> String {
    match e {
        RuntimeError::TooManyIncludes => "TooManyIncludes".into(),
        RuntimeError::InvalidInstruction(i) => format!("InvalidInstruction({})", i.name()),
        RuntimeError::ScriptErrorMessage(m) => format!("ScriptErrorMessage({m})"),
        RuntimeError::CapabilityNotAllowed(c) => format!("CapabilityNotAllowed({c})"),
        RuntimeError::CapabilityNotSupported(c) => format!("CapabilityNotSupported({c})"),
        RuntimeError::CPULimitReached => "CPULimitReached".into(),
    }
}

impl Host {
    pub fn new() -> Self {
        Host {
            max_steps: 20_000,
            ..Default::default()
        }
    }

    pub fn reply(&mut self, ev: &Event) -> Input {
        match ev {
            Event::IncludeScript { name, .. } => {
                let key = match name {
                    Script::Personal(n) => (false, n.clone()),
                    Script::Global(n) => (true, n.clone()),
                };
                match self.includes.get(&key) {
                    Some(s) => Input::Script {
                        name: name.clone(),
                        script: s.clone(),
                    },
                    None => Input::False,
                }
            }
            Event::MailboxExists {
                mailboxes,
                special_use,
            } => (mailboxes.iter().all(|m| match m {
                Mailbox::Name(n) => self.mailboxes.contains(n),
                Mailbox::Id(n) => self.mailbox_ids.contains(n),
            }) && special_use.iter().all(|s| self.special_use.contains(s)))
            .into(),
            Event::ListContains { lists, values, .. } => lists
                .iter()
                .any(|l| {
                    self.lists
                        .get(l)
                        .is_some_and(|s| values.iter().any(|v| s.contains(v)))
                })
                .into(),
            Event::DuplicateId { id, .. } => (!self.seen_ids.insert(id.clone())).into(),
            Event::Function { id, arguments } => Input::FncResult(external_fn(*id, arguments)),
            _ => Input::True,
        }
    }
}

/// The deterministic external functions the host offers.
pub fn external_fn(id: u32, args: &[Variable]) -> Variable {
    match id {
        0 => Variable::from("ext"),
        1 => args.first().cloned().unwrap_or_default(),
        2 => Variable::from(format!(
            "{}|{}",
            args.first().map(|v| v.to_string().into_owned()).unwrap_or_default(),
            args.get(1).map(|v| v.to_string().into_owned()).unwrap_or_default()
        )),
        3 => Variable::from(true),
        4 => Variable::from(false),
        _ => Variable::default(),
    }
}

pub fn drive(ctx: &mut Context<'_>, sieve: Arc<Sieve>, host: &mut Host) -> Trace {
    drive_named(ctx, Script::Personal("_main".into()), sieve, host)
}

pub fn drive_named(
    ctx: &mut Context<'_>,
    name: Script,
    sieve: Arc<Sieve>,
    host: &mut Host,
) -> Trace {
    let mut trace = Trace::default();
    let mut input = Input::Script {
        name,
        script: sieve,
    };
    let mut steps = 0;
    while let Some(r) = ctx.run(input) {
        steps += 1;
        match r {
            Ok(ev) => {
                input = host.reply(&ev);
                trace.items.push(Item::Ev(ev));
            }
            Err(e) => {
                trace.items.push(Item::Err(err_tag(&e)));
                input = Input::True;
            }
        }
        if steps >= host.max_steps {
            trace.truncated = true;
            break;
        }
    }
    trace
}

pub fn full_compiler() -> Compiler {
    Compiler::new()
}

pub fn full_runtime() -> Runtime {
    Runtime::new()
        .with_capability(Capability::While)
        .with_capability(Capability::Expressions)
}

pub fn compile(c: &Compiler, s: &str) -> Result<Arc<Sieve>, Failure> {
    match c.compile(s.as_bytes()) {
        Ok(s) => Ok(Arc::new(s)),
        Err(e) => fail("compile-rejected", format!("compile error: {e}")),
    }
}

pub fn fmt_trace(t: &[Item]) -> String {
    let mut s = String::new();
    for i in t {
        match i {
            Item::Ev(Event::CreatedMessage {
                message_id,
                message,
            }) => s.push_str(&format!(
                "  CreatedMessage {message_id}: {:?}\n",
                String::from_utf8_lossy(message)
            )),
            i => s.push_str(&format!("  {i:?}\n")),
        }
    }
    s
}

pub const ALL_CAPS: &str = "require [\"envelope\",\"envelope-dsn\",\"envelope-deliverby\",\"fileinto\",\"encoded-character\",\"body\",\"convert\",\"copy\",\"relational\",\"date\",\"index\",\"duplicate\",\"variables\",\"editheader\",\"foreverypart\",\"mime\",\"replace\",\"enclose\",\"extracttext\",\"enotify\",\"redirect-dsn\",\"redirect-deliverby\",\"environment\",\"reject\",\"ereject\",\"extlists\",\"subaddress\",\"vacation\",\"vacation-seconds\",\"fcc\",\"mailbox\",\"mailboxid\",\"mboxmetadata\",\"servermetadata\",\"special-use\",\"imap4flags\",\"ihave\",\"imapsieve\",\"include\",\"regex\",\"spamtest\",\"spamtestplus\",\"virustest\",\"vnd.stalwart.while\",\"vnd.stalwart.expressions\",\"comparator-i;ascii-numeric\",\"comparator-i;octet\"];\r\n";

pub fn probe(script: &str, msg: &str) -> i32 {
    let script = std::fs::read_to_string(script).unwrap();
    let msg = std::fs::read(msg).unwrap_or_default();
    let script = if script.contains("require") {
        script
    } else {
        format!("{ALL_CAPS}{script}")
    };
    let mut fm = sieve::FunctionMap::new()
        .with_external_function("ext_zero", 0, 0)
        .with_external_function("ext_one", 1, 1);
    let c = full_compiler().register_functions(&mut fm);
    let s = match c.compile(script.as_bytes()) {
        Ok(s) => s,
        Err(e) => {
            println!("compile error: {e}");
            return 1;
        }
    };
    if std::env::var("DUMP").is_ok() {
        println!("{:#?}", s);
    }
    let rt = full_runtime()
        .with_functions(&mut fm)
        .with_valid_notification_uri("mailto")
        .with_max_redirects(10)
        .with_max_out_messages(10);
    let mut ctx = rt
        .filter(&msg)
        .with_envelope(Envelope::From, "sender@example.org")
        .with_envelope(Envelope::To, "me@example.com")
        .with_user_address("me@example.com");
    let mut h = Host::new();
    let t = drive(&mut ctx, Arc::new(s), &mut h);
    print!("{}", fmt_trace(&t.items));
    let mut names: Vec<_> = ctx.global_variable_names().map(|s| s.to_string()).collect();
    names.sort();
    for n in names {
        println!("  global {n} = {:?}", ctx.global_variable(&n));
    }
    0
}
