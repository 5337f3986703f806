//! C08, second half: a string argument means the same however its text is supplied.
//!
//! Every string argument of every action and test is a slot of some template below.  One run has
//! the texts written out; in the other each slot's text comes out of a variable (top level, local
//! to a nested block, global, a match variable, one assigned with let, or a piece of text put
//! together with constants around it).  Both runs must produce the same events and messages.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::clock;
use crate::drive::*;
use crate::props::edit::q;
use crate::props::wildp::differ;
use crate::report::*;
use crate::tape::Tape;
use sieve::{Envelope, Metadata, SpamStatus, VirusStatus};

type V = &'static [&'static str];
struct T(&'static str, &'static [V]);

const FOLDER: V = &["INBOX", "Archive", "a/b", "été", "two words"];
const FLAG: V = &["\\Seen", "\\Flagged", "$work", "\\Seen $work", "x y"];
const ADDR: V = &["a@example.org", "Bob <bob@example.org>", "list-a@example.com"];
const TEXT: V = &["Hello there", "x", "a line\r\nand another", "é and ü", "semi;colon, comma"];
const SUBJ: V = &["Hello there", "x", "é and ü", "A somewhat longer subject, with commas"];
const NAME: V = &["Subject", "X-List", "from", "to", "x-none", "X-Two"];
const KEY: V = &["hello world", "hello", "HELLO WORLD", "world", "nothing", "one", "*", "h*d", "2"];
const AKEY: V = &["sender@example.net", "SENDER@example.net", "me@example.com", "x@y", "sender*"];
const ID: V = &["F1", "x-y"];
const USE: V = &["\\Sent", "\\Junk"];
const REASON: V = &["I am away", "No.", "Grüße"];
const TYPE: V = &["text/plain", "text/html", "text", "image/png", "application"];
const URI: V = &["mailto:ops@example.org", "mailto:ops@example.org?to=b@example.com", "tel:1", "MAILTO:a@example.org?subject=x"];
const LISTS: V = &["tag:friends", "tag:none"];
const ANN: V = &["/private/vendor/x", "/shared/comment", "/none"];
const VAL: V = &["value", "VALUE", "val", "42", "*"];
const DKEY: V = &["2024", "2023", "04", "03"];
const WORD: V = &["x", "word", "two words", "été", "x y"];
const NUM: V = &["1", "5", "10", "0", "3"];
const HANDLE: V = &["h1", "h2", ""];

const ACTIONS: &[T] = &[
    T("keep :flags [%0, %1];", &[FLAG, FLAG]),
    T("keep :flags %0;", &[FLAG]),
    T("fileinto %0;", &[FOLDER]),
    T("fileinto :copy :flags [%0, %1] :mailboxid %2 %3;", &[FLAG, FLAG, ID, FOLDER]),
    T("fileinto :specialuse %0 :create %1;", &[USE, FOLDER]),
    T("fileinto :flags %0 %1;", &[FLAG, FOLDER]),
    T("redirect %0;", &[ADDR]),
    T("redirect :copy :bytimeabsolute %0 :bymode \"notify\" %1;", &[&["2024-05-01T10:00:00Z", "2023-01-01T00:00:00Z", "never"], ADDR]),
    T("redirect :list %0;", &[LISTS]),
    T("reject %0;", &[REASON]),
    T("ereject %0;", &[REASON]),
    T("vacation %0;", &[REASON]),
    T("vacation :subject %0 :from %1 :addresses [%2, %3] :handle %4 %5;", &[SUBJ, ADDR, AKEY, AKEY, HANDLE, REASON]),
    T("vacation :handle %0 %1;", &[HANDLE, REASON]),
    T("vacation :addresses %0 %1;", &[AKEY, REASON]),
    T("vacation :mime %0;", &[&["Content-Type: text/html\r\n\r\n<p>away</p>", "X-A: b\r\n\r\nx"]]),
    T("vacation :subject %0 :fcc %1 :flags [%2] :mailboxid %3 :create %4;", &[SUBJ, FOLDER, FLAG, ID, REASON]),
    T("vacation :fcc %0 :specialuse %1 :flags %2 %3;", &[FOLDER, USE, FLAG, REASON]),
    T("setflag [%0, %1]; keep;", &[FLAG, FLAG]),
    T("setflag \"fv\" [%0, %1]; fileinto :flags \"${fv}\" \"F\";", &[FLAG, FLAG]),
    T("addflag %0; fileinto \"A\";", &[FLAG]),
    T("addflag \"fv\" %0; addflag \"fv\" [%1]; keep :flags \"${fv}\";", &[FLAG, FLAG]),
    T("setflag [\"\\\\Seen\", \"$work\", \"x\"]; removeflag %0; keep;", &[FLAG]),
    T("setflag \"fv\" [\"\\\\Seen\", \"$work\"]; removeflag \"fv\" [%0, \"z\"]; keep :flags \"${fv}\";", &[FLAG]),
    T("addheader %0 %1; if header :contains \"X-New\" \"e\" { fileinto \"seen\"; }", &[&["X-New", "Subject", "X-Other"], TEXT]),
    T("addheader :last %0 %1;", &[&["X-New", "Subject"], SUBJ]),
    T("deleteheader %0;", &[NAME]),
    T("deleteheader :is %0 %1;", &[NAME, KEY]),
    T("deleteheader :contains %0 [%1, %2];", &[NAME, KEY, KEY]),
    T("deleteheader :index 2 :matches %0 %1;", &[NAME, KEY]),
    T("deleteheader :value \"ge\" :comparator \"i;ascii-numeric\" %0 [%1];", &[NAME, NUM]),
    T("replace %0;", &[TEXT]),
    T("replace :subject %0 :from %1 %2;", &[SUBJ, ADDR, TEXT]),
    T("replace :mime %0;", &[&["Content-Type: text/html\r\n\r\n<p>x</p>", "X-A: b\r\n\r\nx"]]),
    T("foreverypart { if header :mime :type \"Content-Type\" \"image\" { replace %0; } }", &[TEXT]),
    T("foreverypart { if header :mime :type \"Content-Type\" \"image\" { replace :subject %0 :from %1 %2; } }", &[SUBJ, ADDR, TEXT]),
    T("enclose %0;", &[TEXT]),
    T("enclose :subject %0 :headers [%1, %2] %3;", &[SUBJ, &["X-A: b", "X-B: c"], &["From: x@example.org", "no field"], TEXT]),
    T("enclose :headers %0 %1;", &[&["X-A: b", "X-B: c"], TEXT]),
    T("foreverypart { if header :mime :type \"Content-Type\" \"text\" { extracttext \"ev\"; } } if string :contains \"${ev}\" %0 { fileinto \"seen\"; }", &[&["body", "html", "zzz"]]),
    T("foreverypart { if header :mime :type \"Content-Type\" \"text\" { extracttext :replace %0 %1 \"ev\"; fileinto \"<${ev}>\"; } }", &[&["body", "html", "e"], &["", "é", "x"]]),
    T("let \"lv\" \"&0 + '!'\"; fileinto \"${lv}\";", &[WORD]),
    T("let \"lv\" \"&0 + &1\"; fileinto \"${lv}\";", &[WORD, WORD]),
    T("let \"lv\" \"&0\"; fileinto \"${lv}\";", &[WORD]),
    T("if eval \"&0 == &1\" { fileinto \"eq\"; }", &[WORD, WORD]),
    T("if not eval \"&0 == &1 || &2 == 'x'\" { fileinto \"neq\"; }", &[WORD, WORD, WORD]),
    T("let \"lv\" \"0\"; while \"lv < 2 && &0 != 'x'\" { let \"lv\" \"lv + 1\"; fileinto :copy \"w\"; }", &[WORD]),
    T("convert %0 %1 [%2];", &[&["text/html", "image/png", "text/plain"], &["text/plain", "text/html", "x/y"], &["a=b", "c"]]),
    T("if convert %0 %1 [%2] { fileinto \"conv\"; }", &[&["text/html", "image/png"], &["text/plain", "x/y"], &["a=b"]]),
    T("notify %0;", &[URI]),
    T("notify :message %0 %1;", &[TEXT, URI]),
    T("notify :from %0 :importance %1 :options [%2, %3] :message %4 %5;", &[ADDR, &["1", "2", "3", "x"], &["a=b", "c"], &["d=é"], TEXT, URI]),
    T("notify :options %0 %1;", &[&["a=b", "c"], URI]),
    T("notify :fcc %0 :flags [%1, %2] :mailboxid %3 %4;", &[FOLDER, FLAG, FLAG, ID, URI]),
    T("notify :fcc %0 :specialuse %1 :create :message %2 %3;", &[FOLDER, USE, TEXT, URI]),
    T("error %0;", &[REASON]),
    T("include :personal %0;", &[&["sub", "gone", "été"]]),
    T("include :global :optional %0;", &[&["sub", "gone"]]),
    T("set \"sv\" %0; fileinto \"<${sv}>\";", &[TEXT]),
    T("set :local \"sv\" %0; fileinto \"<${sv}>\";", &[TEXT]),
    T("set :upper :quotewildcard \"sv\" %0; fileinto \"<${sv}>\";", &[&["a*b?c", "x", "é"]]),
    T("set :replace %0 %1 \"sv\" %2; fileinto \"<${sv}>\";", &[&["a", "lo", "é"], &["b", "", "éé"], &["a hello alpha", "élan", "x"]]),
    T("set \"global.gv\" %0; fileinto \"<${global.gv}>\";", &[TEXT]),
    T("set \"envelope.from\" %0;", &[AKEY]),
    T("set \"envelope.orcpt\" %0; if envelope \"orcpt\" %1 { fileinto \"o\"; }", &[AKEY, AKEY]),
    T("let \"lv\" \"'<' + sv0 + '>'\"; fileinto \"${lv}\";", &[]),
    T("ihave [\"fileinto\"]; fileinto %0;", &[FOLDER]),
];

const TESTS: &[T] = &[
    T("header :is [%0, %1] [%2, %3]", &[NAME, NAME, KEY, KEY]),
    T("header :contains %0 %1", &[NAME, KEY]),
    T("header :matches %0 %1", &[NAME, KEY]),
    T("header :value \"eq\" %0 %1", &[NAME, KEY]),
    T("header :count \"ge\" :comparator \"i;ascii-numeric\" %0 %1", &[NAME, NUM]),
    T("header :index 1 :last %0 [%1]", &[NAME, KEY]),
    T("header :mime :anychild :type \"Content-Type\" [%0, %1]", &[&["image", "text", "x"], &["image", "y"]]),
    T("header :mime :subtype %0 %1", &[&["Content-Type", "X-None"], &["mixed", "plain"]]),
    T("header :mime :anychild :contenttype :contains \"Content-Type\" %0", &[&["image/", "text/p", "zz"]]),
    T("header :mime :anychild :param %0 %1 %2", &[&["name", "charset", "none"], &["Content-Type", "Content-Disposition"], &["pic.png", "utf-8"]]),
    T("header :mime :anychild :param [%0, %1] \"Content-Type\" [%2]", &[&["name", "charset"], &["none", "boundary"], &["pic.png", "utf-8", "B"]]),
    T("header :list %0 %1", &[NAME, LISTS]),
    T("address :is %0 %1", &[&["from", "To", "cc"], AKEY]),
    T("address :domain :contains [%0, %1] [%2, %3]", &[&["from", "To"], &["cc", "to"], &["example", "net"], &["com", "zz"]]),
    T("address :localpart :matches %0 %1", &[&["from", "To"], &["s*", "me", "?e"]]),
    T("address :name %0 %1", &[&["from", "To"], &["The Sender", "me"]]),
    T("envelope :is \"from\" %0", &[AKEY]),
    T("envelope [\"from\", \"to\"] [%0, %1]", &[AKEY, AKEY]),
    T("envelope :domain :contains \"to\" %0", &[&["example", "net"]]),
    T("exists %0", &[NAME]),
    T("exists [%0, %1]", &[NAME, NAME]),
    T("exists :mime :anychild [%0]", &[&["Content-Disposition", "X-None"]]),
    T("string :is [%0, %1] [%2, %3]", &[KEY, KEY, KEY, KEY]),
    T("string :matches %0 %1", &[KEY, KEY]),
    T("string :contains %0 %1", &[KEY, KEY]),
    T("string :value \"gt\" :comparator \"i;ascii-numeric\" %0 %1", &[NUM, NUM]),
    T("string :list %0 %1", &[AKEY, LISTS]),
    T("body :contains %0", &[&["body", "BODY", "zz"]]),
    T("body :raw :contains [%0, %1]", &[&["body", "--B"], &["zz", "html"]]),
    T("body :content %0 :contains %1", &[TYPE, &["body", "html", "zz"]]),
    T("body :content [%0, %1] :contains [%2]", &[TYPE, TYPE, &["body", "html", "zz"]]),
    T("body :subject :contains %0", &[&["hello", "zz"]]),
    T("date :is %0 \"year\" %1", &[&["date", "X-Date", "resent-date"], DKEY]),
    T("date :originalzone :value \"ge\" %0 \"month\" [%1, %2]", &[&["date", "X-Date"], DKEY, DKEY]),
    T("currentdate :is \"year\" [%0, %1]", &[DKEY, DKEY]),
    T("currentdate :zone \"+0100\" :matches \"iso8601\" %0", &[&["2024*", "*Z", "2024-04-01*"]]),
    T("duplicate :uniqueid %0", &[HANDLE]),
    T("duplicate :header %0 :handle %1", &[NAME, HANDLE]),
    T("duplicate :handle %0 :uniqueid %1 :last", &[HANDLE, HANDLE]),
    T("hasflag %0", &[FLAG]),
    T("hasflag :contains [%0, %1]", &[FLAG, FLAG]),
    T("hasflag :is \"fw\" [%0]", &[FLAG]),
    T("hasflag :count \"ge\" \"fw\" %0", &[NUM]),
    T("mailboxexists %0", &[FOLDER]),
    T("mailboxexists [%0, %1]", &[FOLDER, FOLDER]),
    T("mailboxidexists [%0, %1]", &[ID, ID]),
    T("specialuse_exists %0", &[USE]),
    T("specialuse_exists %0 [%1, %2]", &[FOLDER, USE, USE]),
    T("metadata :is %0 %1 %2", &[FOLDER, ANN, VAL]),
    T("metadata :matches %0 %1 [%2]", &[FOLDER, ANN, VAL]),
    T("metadataexists %0 [%1, %2]", &[FOLDER, ANN, ANN]),
    T("servermetadata :is %0 [%1, %2]", &[ANN, VAL, VAL]),
    T("servermetadataexists %0", &[ANN]),
    T("servermetadataexists [%0, %1]", &[ANN, ANN]),
    T("environment :is \"domain\" %0", &[VAL]),
    T("environment :contains \"vnd.x.color\" [%0, %1]", &[VAL, VAL]),
    T("spamtest :value \"ge\" :comparator \"i;ascii-numeric\" %0", &[NUM]),
    T("spamtest :percent :value \"lt\" :comparator \"i;ascii-numeric\" %0", &[NUM]),
    T("virustest :value \"eq\" :comparator \"i;ascii-numeric\" %0", &[NUM]),
    T("valid_ext_list [%0, %1]", &[LISTS, LISTS]),
    T("valid_ext_list %0", &[LISTS]),
    T("valid_notify_method [%0, %1]", &[URI, URI]),
    T("valid_notify_method %0", &[URI]),
    T("notify_method_capability :is %0 %1 [%2, %3]", &[URI, &["Online", "x"], &["maybe", "yes"], &["no", "MAYBE"]]),
    T("vacation :subject %0 :fcc %1 %2", &[SUBJ, FOLDER, REASON]),
    T("ihave \"fileinto\"", &[]),
];

const MSG: &str = "From: The Sender <sender@example.net>\r\nTo: me@example.com\r\nSubject: hello world\r\nX-List: one\r\nX-Two: 2\r\nX-Two: hello\r\nDate: Mon, 04 Mar 2024 10:20:30 +0100\r\nX-Date: 1 Apr 2023 00:00:00 +0000\r\nMessage-ID: <m1@example.net>\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"B\"\r\n\r\n--B\r\nContent-Type: text/plain; charset=\"utf-8\"\r\n\r\nThe body here\r\n--B\r\nContent-Type: text/html\r\n\r\n<p>html body</p>\r\n--B\r\nContent-Type: image/png; name=\"pic.png\"\r\nContent-Disposition: attachment\r\n\r\nPNGDATA\r\n--B--\r\n";
const PLAIN: &str = "From: sender@example.net\r\nTo: me@example.com\r\nSubject: hello world\r\nX-List: one\r\n\r\nThe body\r\n";

fn fill(text: &str, with: &mut dyn FnMut(usize, bool) -> String) -> String {
    let mut out = String::new();
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match (c, it.peek()) {
            ('%' | '&', Some(d)) if d.is_ascii_digit() => {
                let d = d.to_digit(10).unwrap() as usize;
                it.next();
                out.push_str(&with(d, c == '&'));
            }
            _ => out.push(c),
        }
    }
    out
}

/// One way to have the text come out of a variable: what goes before, and the reference.
struct Supply {
    declare: String,
    top: String,
    open: String,
    text: String,
    close: &'static str,
}

fn plain_text(s: &str) -> bool {
    !s.contains(['$', '\\', '\'', '"'])
}

fn supply(t: &mut Tape, n: usize, value: &str, captures: bool, whole: bool, rep: &mut Report) -> Supply {
    let mut s = Supply { declare: String::new(), top: String::new(), open: String::new(), text: String::new(), close: "" };
    let (pre, mid, post) = if !whole && t.chance(1, 3) && !value.is_empty() {
        rep.label("composed");
        let cuts: Vec<usize> = value.char_indices().map(|(i, _)| i).chain([value.len()]).collect();
        let (a, b) = (*t.pick(&cuts), *t.pick(&cuts));
        let (a, b) = (a.min(b), a.max(b));
        (&value[..a], &value[a..b], &value[b..])
    } else {
        ("", value, "")
    };
    let name = format!("v{n}");
    let reference = match t.n(if captures { 8 } else { 7 }) {
        0 => {
            rep.label("top level");
            s.top = format!("set \"{name}\" {};", q(mid));
            format!("${{{name}}}")
        }
        1 => {
            rep.label("block-local");
            s.open = format!("set :local \"{name}\" {};", q(mid));
            format!("${{{}}}", name.to_uppercase())
        }
        2 => {
            rep.label("local after other locals");
            s.open = format!("if true {{ set :local \"w{n}\" \"other\"; set \"u{n}\" \"more\"; }} if true {{ set :local \"{name}\" {};", q(mid));
            s.close = " }";
            format!("${{{name}}}")
        }
        3 => {
            rep.label("global");
            s.declare = format!("global \"g{n}\";");
            s.top = format!("set \"g{n}\" {};", q(mid));
            format!("${{g{n}}}")
        }
        4 => {
            rep.label("global namespace");
            s.top = format!("set \"global.h{n}\" {};", q(mid));
            format!("${{{}.h{n}}}", if t.bool() { "global" } else { "t" })
        }
        5 if plain_text(mid) && !mid.contains(['\r', '\n']) => {
            rep.label("let");
            s.open = format!("let \"{name}\" \"'{mid}'\";");
            format!("${{{name}}}")
        }
        6 => {
            rep.label("shadowing");
            s.top = format!("set \"{name}\" \"outer\";");
            s.open = format!("set :local \"{name}\" {};", q(mid));
            format!("${{{name}}}")
        }
        7 => {
            rep.label("match variable");
            let k = t.range(0, 2);
            let (src, key) = match k {
                0 => (mid.to_string(), "*".to_string()),
                1 => (format!("<{mid}"), "<*".to_string()),
                _ => (format!("z@{mid}"), "?@*".to_string()),
            };
            s.open = format!("if string :comparator \"i;octet\" :matches {} {} {{", q(&src), q(&key));
            s.close = " }";
            format!("${{{k}}}")
        }
        _ => {
            rep.label("assigned twice");
            s.top = format!("set \"{name}\" \"first\";");
            s.open = format!("set \"{name}\" {};", q(mid));
            format!("${{{name}}}")
        }
    };
    s.text = format!("{}{reference}{}", quoted(pre), quoted(post));
    s
}

fn quoted(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"")
}

pub fn case(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let (mut declare, mut a, mut b) = (String::new(), String::new(), String::new());
    let mut n = 0;
    for _ in 0..1 + t.len(2) {
        let test = t.chance(2, 5);
        let T(text, slots) = if test { t.pick(TESTS) } else { t.pick(ACTIONS) };
        let values: Vec<&str> = slots.iter().map(|v| *t.pick(v)).collect();
        let whole = if test {
            if t.bool() {
                format!("if {text} {{ fileinto :copy \"yes\"; }} else {{ fileinto :copy \"no\"; }}")
            } else {
                format!("if allof(not not {text}, true) {{ fileinto :copy \"yes\"; }}")
            }
        } else {
            text.to_string()
        };
        // the statement's own tests would set the match variables afresh
        let captures = !test && !text.contains(":matches");
        let body_a = fill(&whole, &mut |i, expr| if expr { format!("'{}'", values[i]) } else { q(values[i]) });
        let (mut top, mut open, mut close) = (String::new(), String::new(), String::new());
        let mut captured = false;
        let body_b = fill(&whole, &mut |i, expr| {
            if !expr && t.chance(1, 8) {
                return q(values[i]);
            }
            n += 1;
            let s = supply(t, n, values[i], captures && !captured && !expr, expr, rep);
            if s.open.contains(":matches") {
                captured = true;
            }
            declare.push_str(&s.declare);
            top.push_str(&s.top);
            open.push_str(&s.open);
            open.push(' ');
            close.push_str(s.close);
            if expr {
                s.text[2..s.text.len() - 1].to_string()
            } else {
                format!("\"{}\"", s.text)
            }
        });
        let (x, y) = match t.n(3) {
            0 => ("", ""),
            1 => ("if true { ", " }"),
            _ => ("if true { set :local \"pad\" \"p\"; if not false { ", " } }"),
        };
        a.push_str(&format!("{x}{body_a}{y}\r\n"));
        b.push_str(&format!("{top} {x}{open} {body_b}{close}{y}\r\n"));
    }
    let pre = "set \"sv0\" \"S\"; set \"fv\" \"\"; set \"sv\" \"\"; set \"ev\" \"\"; set \"lv\" \"\"; setflag \"fw\" [\"\\\\Seen\", \"x\"]; setflag [\"$work\"];\r\n";
    let a = format!("{ALL_CAPS}{pre}{a}");
    let b = format!("{ALL_CAPS}{declare}{pre}{b}");
    let msg = if t.chance(1, 4) { PLAIN } else { MSG };
    rep.desc = format!("--- written out\n{a}\n--- with variables\n{b}\n--- message\n{msg}");
    rep.nontrivial_if(n > 1);
    let mut items = vec![];
    let now = 1_710_000_000 + t.n(100_000) as i64;
    for s in [&a, &b] {
        items.push(clock::at(now, || run(s, msg))?);
    }
    match differ(&items[0], &items[1]) {
        Some(d) => fail("argument-from-a-variable", d),
        None => Ok(()),
    }
}

fn run(s: &str, msg: &str) -> Result<Vec<Item>, Failure> {
    let c = full_compiler().either_max_nested_blocks(30);
    let sub = compile(&c, &format!("{ALL_CAPS}fileinto :copy \"from sub\";"))?;
    let s = compile(&c, s)?;
    let rt = full_runtime()
        .either_max_redirects(20)
        .either_max_out_messages(20)
        .either_cpu_limit(100_000)
        .with_valid_notification_uri("mailto")
        .with_valid_ext_list("tag:friends")
        .with_metadata(Metadata::Mailbox { name: "INBOX".to_string().into(), annotation: "/private/vendor/x".to_string().into() }, "value")
        .with_metadata(Metadata::Mailbox { name: "été".to_string().into(), annotation: "/shared/comment".to_string().into() }, "42")
        .with_metadata(Metadata::Server { annotation: "/shared/comment".to_string().into() }, "value")
        .with_env_variable("domain", "value")
        .with_env_variable("vnd.x.color", "42");
    let mut ctx = rt
        .filter(msg.as_bytes())
        .with_envelope(Envelope::From, "sender@example.net")
        .with_envelope(Envelope::To, "me@example.com")
        .with_user_address("me@example.com")
        .with_user_full_name("Me Myself")
        .with_spam_status(SpamStatus::MaybeSpam(0.5))
        .with_virus_status(VirusStatus::Clean);
    let mut h = Host::new();
    h.includes.insert((false, "sub".into()), sub.clone());
    h.includes.insert((true, "sub".into()), sub.clone());
    h.includes.insert((false, "été".into()), sub);
    h.mailboxes = ["INBOX", "été", "a/b"].iter().map(|s| s.to_string()).collect();
    h.mailbox_ids = ["F1"].iter().map(|s| s.to_string()).collect();
    h.special_use = ["\\Sent"].iter().map(|s| s.to_string()).collect();
    h.lists.insert("tag:friends".into(), ["hello world", "x@y", "me@example.com", "one"].iter().map(|s| s.to_string()).collect());
    Ok(drive(&mut ctx, s, &mut h).items)
}
