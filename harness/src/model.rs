//! A small Sieve: generator of scripts (with the text they are written as) and a reference
//! interpreter that predicts every event of a run.  Used with different profiles by several
//! properties.
use crate::drive::*;
use crate::expr::{self, Env, Scope, Val, E};
use crate::props::c13;
use crate::tape::Tape;
use sieve::{Event, Recipient, Script};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Tpl = Vec<P>;

#[derive(Debug, Clone)]
pub enum P {
    Lit(String),
    /// A named variable, resolved where it is written; None: unknown there
    Var(Option<Slot>),
    Match(usize),
    PartId,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Slot {
    Local(usize),
    Global(String),
}

#[derive(Debug, Clone)]
pub enum T {
    True,
    False,
    Not(Box<T>),
    All(Vec<T>),
    Any(Vec<T>),
    /// string :is / :contains
    Str { contains: bool, src: Vec<Tpl>, keys: Vec<Tpl> },
    /// string :matches "src" "<prefix>*<suffix>"
    Capt { src: Tpl, prefix: String, suffix: String },
    Mbox(Vec<Tpl>),
    Eval(E, Names),
    HasFlag { vars: Vec<Slot>, contains: bool, flags: Vec<Tpl> },
    FlagCount { vars: Vec<Slot>, rel: &'static str, n: i64 },
}

pub type Names = Vec<(String, Slot)>;

#[derive(Debug, Clone)]
pub enum Mod {
    Lower,
    Upper,
    LowerFirst,
    UpperFirst,
    QuoteWildcard,
    QuoteRegex,
    EncodeUrl,
    Length,
    Replace(Tpl, Tpl),
}

#[derive(Debug, Clone)]
pub enum S {
    If(Vec<(T, Blk)>, Option<Blk>),
    While(E, Names, Blk),
    ForEvery(Option<String>, Blk),
    Break(Option<String>),
    Continue,
    Stop,
    Return,
    Set(Slot, Vec<Mod>, Tpl),
    Let(Slot, E, Names),
    Keep(Option<Vec<Tpl>>),
    Discard,
    FileInto { folder: Tpl, copy: bool, create: bool, flags: Option<Vec<Tpl>>, mid: Option<Tpl>, su: Option<Tpl> },
    Redirect { addr: Tpl, copy: bool, list: bool },
    Reject(bool, Tpl),
    Error(Tpl),
    Flag(u8, Option<Slot>, Vec<Tpl>),
    Include { global: bool, once: bool, optional: bool, name: Tpl },
    SetEnv(bool, Tpl),
    /// addheader at the top of the message, or after its last header
    Edit(bool, String, Tpl),
}

#[derive(Debug, Clone, Default)]
pub struct Blk {
    pub stmts: Vec<S>,
    pub slots: Vec<usize>,
}

#[derive(Debug, Clone)]
pub struct Prog {
    pub blk: Blk,
    pub text: String,
}

// ---------------------------------------------------------------- profile

#[derive(Clone)]
pub struct Profile {
    pub max_depth: usize,
    pub max_stmts: usize,
    pub w_if: u32,
    pub w_while: u32,
    pub w_for: u32,
    pub w_break: u32,
    pub w_stop: u32,
    pub w_return: u32,
    pub w_set: u32,
    pub w_let: u32,
    pub w_keep: u32,
    pub w_discard: u32,
    pub w_file: u32,
    pub w_marker: u32,
    pub w_redirect: u32,
    pub w_reject: u32,
    pub w_error: u32,
    pub w_flag: u32,
    pub w_include: u32,
    pub w_setenv: u32,
    /// only without foreverypart: edits go to the current part
    pub w_edit: u32,
    pub w_modifiers: u32,
    pub test_depth: usize,
    pub w_hasflag: u32,
    pub w_capt: u32,
    pub w_eval: u32,
    pub n_includes: usize,
    pub max_parts: usize,
    pub long_values: bool,
    pub unicode: bool,
}

impl Profile {
    pub fn base() -> Self {
        Profile {
            max_depth: 4,
            max_stmts: 4,
            w_if: 5,
            w_while: 0,
            w_for: 0,
            w_break: 0,
            w_stop: 1,
            w_return: 0,
            w_set: 4,
            w_let: 1,
            w_keep: 0,
            w_discard: 0,
            w_file: 0,
            w_marker: 6,
            w_redirect: 0,
            w_reject: 0,
            w_error: 0,
            w_flag: 0,
            w_include: 0,
            w_setenv: 0,
            w_edit: 0,
            w_modifiers: 0,
            test_depth: 2,
            w_hasflag: 0,
            w_capt: 1,
            w_eval: 2,
            n_includes: 0,
            max_parts: 0,
            long_values: false,
            unicode: false,
        }
    }
}

// ---------------------------------------------------------------- world

#[derive(Clone)]
pub struct PartInfo {
    pub parent: Option<usize>,
}

pub struct World {
    pub progs: BTreeMap<(bool, String), Prog>,
    pub main: Prog,
    pub parts: Vec<PartInfo>,
    pub message: Vec<u8>,
    pub mailboxes: BTreeSet<String>,
    pub max_redirects: usize,
    pub max_out: usize,
    pub max_nested: usize,
    pub max_var: usize,
    pub max_received: usize,
    pub n_received: usize,
    pub user_address: String,
    pub globals0: BTreeMap<String, String>,
}

impl World {
    pub fn describe(&self) -> String {
        let mut s = format!("--- main\n{}", self.main.text);
        for ((g, n), p) in &self.progs {
            s.push_str(&format!(
                "--- {} {n}\n{}",
                if *g { "global" } else { "personal" },
                p.text
            ));
        }
        s.push_str(&format!(
            "--- limits redirects={} out={} includes={} variable={} received={}/{} user={}\n--- message\n{}",
            self.max_redirects, self.max_out, self.max_nested, self.max_var, self.n_received, self.max_received,
            self.user_address, String::from_utf8_lossy(&self.message)
        ));
        if !self.globals0.is_empty() {
            s.push_str(&format!("--- globals {:?}\n", self.globals0));
        }
        s
    }
}

// ---------------------------------------------------------------- generator

struct Static {
    blocks: Vec<(BTreeMap<String, usize>, Vec<usize>)>,
    globals: BTreeSet<String>,
}

#[derive(Clone, PartialEq)]
enum Loop {
    While,
    For(Option<String>),
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub p: Profile,
    next_slot: usize,
    st: Static,
    loops: Vec<Loop>,
    capt: usize,
    captures: usize,
    marker: usize,
    counter: usize,
    label: usize,
    out: String,
    budget: usize,
    /// this program may leave blocks by break and continue
    breaks: bool,
    include_names: Vec<(bool, String)>,
    pub stats: BTreeMap<&'static str, u64>,
}

pub const CAPS: &str = "require [\"fileinto\",\"copy\",\"variables\",\"include\",\"reject\",\"ereject\",\"imap4flags\",\"relational\",\"mailbox\",\"mailboxid\",\"special-use\",\"foreverypart\",\"mime\",\"extlists\",\"envelope\",\"ihave\",\"vnd.stalwart.while\",\"vnd.stalwart.expressions\",\"editheader\"];\n";

const NAMES: &[&str] = &["a", "b", "c", "foo", "under_score"];
const GNAMES: &[&str] = &["g0", "g1", "g2", "shared"];
const WORDS: &[&str] = &["x", "yy", "abc", "Value", "low", "TOP", "a b", "a  b", " lead ", "x\ty", "q", "zed1", "", "12", "0"];
const UWORDS: &[&str] = &["é", "ß", "日本", "\u{1F600}", "*", "?", "%", "a.b", "x/y", "~", "İ", "ŉ", "ﬁ", "(", "$", "+", "ç", "=", "-", "_", "'"];

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, p: Profile) -> Self {
        Gen {
            t,
            p,
            next_slot: 0,
            st: Static { blocks: vec![], globals: BTreeSet::new() },
            loops: vec![],
            capt: 0,
            captures: 0,
            marker: 0,
            counter: 0,
            label: 0,
            out: String::new(),
            budget: 60,
            breaks: true,
            include_names: vec![],
            stats: BTreeMap::new(),
        }
    }

    fn stat(&mut self, s: &'static str) {
        *self.stats.entry(s).or_default() += 1;
    }

    fn lookup(&self, name: &str) -> Option<Slot> {
        let name = name.to_ascii_lowercase();
        if self.st.globals.contains(&name) {
            return Some(Slot::Global(name));
        }
        self.st.blocks.iter().rev().find_map(|(m, _)| m.get(&name)).map(|s| Slot::Local(*s))
    }

    /// The variable an assignment to `name` goes to; declares it where needed.
    fn assign(&mut self, name: &str, local: bool) -> Slot {
        let name = name.to_ascii_lowercase();
        if let Some(n) = name.strip_prefix("global.").or_else(|| name.strip_prefix("t.")) {
            return Slot::Global(n.to_string());
        }
        if let Some(s) = self.lookup(&name) {
            return s;
        }
        let id = self.next_slot;
        self.next_slot += 1;
        let i = if local { 0 } else { self.st.blocks.len() - 1 };
        self.st.blocks[i].0.insert(name, id);
        self.st.blocks[i].1.push(id);
        Slot::Local(id)
    }

    /// Declares `name` before it is used unassigned, where a value left behind by a break or
    /// continue could show (known finding stale-local).
    fn declare(&mut self, name: &str, local: bool) -> Vec<S> {
        if self.breaks && (!local || self.st.blocks.len() == 1) && !name.contains('.') && self.lookup(name).is_none() {
            let slot = self.assign(name, false);
            self.line(&format!("set \"{name}\" \"\";"));
            vec![S::Set(slot, vec![], vec![P::Lit(String::new())])]
        } else {
            vec![]
        }
    }

    fn known_names(&self) -> Names {
        let mut v: BTreeMap<String, Slot> = BTreeMap::new();
        for (m, _) in &self.st.blocks {
            for (n, s) in m {
                v.insert(n.clone(), Slot::Local(*s));
            }
        }
        for g in &self.st.globals {
            v.insert(g.clone(), Slot::Global(g.clone()));
        }
        v.into_iter().collect()
    }

    fn cased(&mut self, s: &str) -> String {
        match self.t.n(8) {
            6 => s.to_uppercase(),
            7 => {
                let mut c = s.chars();
                c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
            }
            _ => s.to_string(),
        }
    }

    fn word(&mut self) -> String {
        if self.p.unicode && self.t.chance(1, 3) {
            self.t.pick(UWORDS).to_string()
        } else if self.p.long_values && self.t.chance(1, 6) {
            let n = self.t.n(40);
            let w = self.t.pick(&["ab", "é", "x ", "日"]).to_string();
            w.repeat(n)
        } else {
            self.t.pick(WORDS).to_string()
        }
    }

    fn var_name(&mut self) -> String {
        match self.t.n(10) {
            0..=4 => {
                // a name that is visible here, if there is one
                let k = self.known_names();
                if k.is_empty() {
                    self.t.pick(NAMES).to_string()
                } else {
                    k[self.t.n(k.len())].0.clone()
                }
            }
            5..=7 => self.t.pick(NAMES).to_string(),
            8 => self.t.pick(GNAMES).to_string(),
            _ => {
                // the part after the namespace may have dots of its own
                let inner = if self.t.chance(1, 3) { *self.t.pick(&["x.", "g0.", "t.", "x.Y."]) } else { "" };
                format!("{}.{inner}{}", self.t.pick(&["global", "t"]), self.t.pick(GNAMES))
            }
        }
    }

    /// A template, written as a quoted string.
    fn tpl(&mut self) -> (Tpl, String) {
        let n = self.t.n(3) + 1;
        let mut parts: Tpl = vec![];
        let mut text = String::new();
        let lit_only = self.t.chance(2, 5);
        for _ in 0..n {
            let k = if lit_only { 0 } else { self.t.n(8) };
            match k {
                0..=2 => {
                    let mut w = self.word();
                    if !lit_only && !w.is_empty() && w.bytes().all(|c| c.is_ascii_digit()) {
                        w.push('w');
                    }
                    text.push_str(&w);
                    parts.push(P::Lit(w));
                }
                3..=6 => {
                    let n = self.var_name();
                    let slot = match n.split_once('.') {
                        Some((_, g)) => Some(Slot::Global(g.to_ascii_lowercase())),
                        None => self.lookup(&n),
                    };
                    let n = self.cased(&n);
                    text.push_str(&format!("${{{n}}}"));
                    parts.push(P::Var(slot));
                }
                _ => {
                    if self.capt > 0 && self.t.bool() {
                        let i = self.t.n(2);
                        text.push_str(&format!("${{{i}}}"));
                        parts.push(P::Match(i));
                    } else if self.p.max_parts > 0 {
                        text.push_str("${header.x-id}");
                        parts.push(P::PartId);
                    } else {
                        text.push_str("lit");
                        parts.push(P::Lit("lit".into()));
                    }
                }
            }
        }
        // two literals in a row are one
        (parts, quote(&text))
    }

    fn tpls(&mut self, max: usize) -> (Vec<Tpl>, String) {
        let n = 1 + self.t.n(max);
        let v: Vec<_> = (0..n).map(|_| self.tpl()).collect();
        let texts: Vec<_> = v.iter().map(|x| x.1.clone()).collect();
        let text = if n == 1 && self.t.bool() { texts[0].clone() } else { format!("[{}]", texts.join(", ")) };
        (v.into_iter().map(|x| x.0).collect(), text)
    }

    fn lit(s: &str) -> (Tpl, String) {
        (vec![P::Lit(s.to_string())], quote(s))
    }

    fn flags(&mut self) -> (Vec<Tpl>, String) {
        let n = 1 + self.t.n(3);
        let mut v = vec![];
        let mut texts = vec![];
        for _ in 0..n {
            let (p, x) = if self.t.chance(1, 6) {
                self.tpl()
            } else {
                let k = self.t.n(3) + 1;
                let mut s = String::new();
                for i in 0..k {
                    if i > 0 {
                        s.push_str(self.t.pick(&[" ", " ", "  "]));
                    }
                    s.push_str(self.t.pick(FLAGS));
                }
                if self.t.chance(1, 8) {
                    s = format!(" {s} ");
                }
                if self.t.chance(1, 12) {
                    s.clear();
                }
                Self::lit(&s)
            };
            v.push(p);
            texts.push(x);
        }
        let text = if n == 1 && self.t.bool() { texts[0].clone() } else { format!("[{}]", texts.join(",")) };
        (v, text)
    }

    fn expr(&mut self, fuel: usize) -> (E, Names, String) {
        let names = self.known_names();
        let sc = Scope {
            scalars: names.iter().map(|n| n.0.clone()).collect(),
            arrays: vec![],
            functions: c13::function_list(),
            arrays_allowed: false,
        };
        let e = expr::gen(self.t, &sc, fuel);
        let st = expr::Style { parens: self.t.n(2) as u8, spaces: 1 };
        let text = expr::print(&e, self.t, &st);
        (e, names, expr::quote(&text))
    }

    fn test(&mut self, depth: usize) -> (T, String) {
        let composite = if depth > 0 { 3 } else { 0 };
        let w = [
            2, // true
            2,
            composite,
            composite,
            composite,
            4, // string
            2, // mailboxexists
            self.p.w_eval,
            self.p.w_hasflag,
            self.p.w_hasflag,
        ];
        match self.t.weighted(&w) {
            0 => (T::True, "true".into()),
            1 => (T::False, "false".into()),
            2 => {
                let (x, s) = self.test(depth - 1);
                (T::Not(x.into()), format!("not {s}"))
            }
            k @ (3 | 4) => {
                let n = 1 + self.t.n(3);
                let v: Vec<_> = (0..n).map(|_| self.test(depth - 1)).collect();
                let text = v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", ");
                let v = v.into_iter().map(|x| x.0).collect();
                if k == 3 {
                    (T::All(v), format!("allof({text})"))
                } else {
                    (T::Any(v), format!("anyof ({text})"))
                }
            }
            5 => {
                let contains = self.t.bool();
                let (src, a) = self.tpls(2);
                let (keys, b) = self.tpls(2);
                let tag = if contains { ":contains" } else { ":is" };
                (T::Str { contains, src, keys }, format!("string {tag} {a} {b}"))
            }
            6 => {
                let n = 1 + self.t.n(2);
                let v: Vec<_> = (0..n)
                    .map(|_| {
                        if self.t.chance(1, 4) {
                            self.tpl()
                        } else {
                            self.marker += 1;
                            let m = format!("{}{}", self.t.pick(&["yes", "no"]), self.marker);
                            Self::lit(&m)
                        }
                    })
                    .collect();
                let text = v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", ");
                let text = if n == 1 { text } else { format!("[{text}]") };
                (T::Mbox(v.into_iter().map(|x| x.0).collect()), format!("mailboxexists {text}"))
            }
            7 => {
                let f = self.t.n(3);
                let (e, n, s) = self.expr(f);
                (T::Eval(e, n), format!("eval {s}"))
            }
            8 => {
                let (vars, vt) = self.flag_vars();
                let contains = self.t.bool();
                let (flags, ft) = self.flags();
                (
                    T::HasFlag { vars, contains, flags },
                    format!("hasflag {} {vt}{ft}", if contains { ":contains" } else { ":is" }),
                )
            }
            _ => {
                let (vars, vt) = self.flag_vars();
                let rel = *self.t.pick(&["gt", "ge", "lt", "le", "eq", "ne"]);
                let n = self.t.n(5) as i64;
                (
                    T::FlagCount { vars, rel, n },
                    format!("hasflag :count \"{rel}\" :comparator \"i;ascii-numeric\" {vt}\"{n}\""),
                )
            }
        }
    }

    fn flag_vars(&mut self) -> (Vec<Slot>, String) {
        match self.t.n(4) {
            0 | 1 => (vec![Slot::Global("__flags".into())], String::new()),
            k => {
                let n = if k == 2 { 1 } else { 1 + self.t.n(2) };
                let mut v = vec![];
                let mut names = vec![];
                for _ in 0..n {
                    let mut name = self.flag_var_name();
                    if self.breaks && self.lookup(&name).is_none() {
                        name = "global.g0".to_string();
                    }
                    v.push(self.assign(&name, false));
                    names.push(format!("\"{name}\""));
                }
                let t = if n == 1 && self.t.bool() { names[0].clone() } else { format!("[{}]", names.join(", ")) };
                (v, format!("{t} "))
            }
        }
    }

    fn flag_var_name(&mut self) -> String {
        self.t.pick(&["fl", "Fl2", "a", "g0"]).to_string()
    }

    fn open(&mut self) {
        self.st.blocks.push((BTreeMap::new(), vec![]));
    }
    fn close(&mut self) -> Vec<usize> {
        self.st.blocks.pop().unwrap().1
    }

    fn indent(&mut self) {
        for _ in 0..self.st.blocks.len() - 1 {
            self.out.push_str("  ");
        }
    }

    fn line(&mut self, s: &str) {
        self.indent();
        self.out.push_str(s);
        self.out.push('\n');
    }

    fn block(&mut self, depth: usize) -> Blk {
        self.open();
        let seen = self.captures;
        let stmts = self.stmts(depth);
        let slots = self.close();
        self.line("}");
        if self.captures != seen {
            self.capt = 0;
        }
        Blk { stmts, slots }
    }

    fn stmts(&mut self, depth: usize) -> Vec<S> {
        let n = self.t.n(self.p.max_stmts + 1);
        let mut v = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            v.extend(self.stmt(depth));
        }
        v
    }

    fn marker_stmt(&mut self) -> S {
        self.marker += 1;
        let mut parts = vec![P::Lit(format!("m{}:", self.marker))];
        let mut text = format!("m{}:", self.marker);
        if self.t.bool() {
            let (p, q) = self.tpl();
            // the quoted text without its quotes
            text = format!("{}{}", quote(&text).trim_end_matches('"'), &q[1..]);
            parts.extend(p);
        } else {
            text = quote(&text);
        }
        self.line(&format!("fileinto :copy {text};"));
        S::FileInto { folder: parts, copy: true, create: false, flags: None, mid: None, su: None }
    }

    fn stmt(&mut self, depth: usize) -> Vec<S> {
        let p = self.p.clone();
        let block_ok = depth > 0;
        let in_while = self.loops.contains(&Loop::While);
        let fors = self.loops.iter().filter(|l| matches!(l, Loop::For(_))).count();
        let w = [
            p.w_marker,                                      // 0
            if block_ok { p.w_if } else { 0 },               // 1
            if block_ok { p.w_while } else { 0 },            // 2
            if block_ok && fors < 3 { p.w_for } else { 0 },  // 3
            if !self.loops.is_empty() && self.breaks { p.w_break } else { 0 }, // 4
            if in_while && self.breaks { p.w_break } else { 0 }, // 5 continue
            p.w_stop,                                        // 6
            p.w_return,                                      // 7
            p.w_set,                                         // 8
            p.w_let,                                         // 9
            p.w_keep,                                        // 10
            p.w_discard,                                     // 11
            p.w_file,                                        // 12
            p.w_redirect,                                    // 13
            p.w_reject,                                      // 14
            p.w_error,                                       // 15
            p.w_flag,                                        // 16
            if self.include_names.is_empty() { 0 } else { p.w_include }, // 17
            p.w_setenv,                                      // 18
            if block_ok { p.w_capt } else { 0 },             // 19
            p.w_edit,                                        // 20
        ];
        match self.t.weighted(&w) {
            0 => vec![self.marker_stmt()],
            1 => {
                self.stat("if");
                let mut br = vec![];
                let n = if self.t.chance(1, 12) { 3 + self.t.n(10) } else { 1 + self.t.n(3) };
                for i in 0..n {
                    let (x, s) = self.test(if n > 3 { 0 } else { p.test_depth });
                    let kw = if i == 0 { "if" } else { "elsif" };
                    self.line(&format!("{kw} {s} {{"));
                    br.push((x, self.block(depth - 1)));
                }
                let els = if self.t.bool() {
                    self.line("else {");
                    Some(self.block(depth - 1))
                } else {
                    None
                };
                vec![S::If(br, els)]
            }
            19 => {
                // a wildcard match whose body may use the captured text
                self.stat("capture");
                let src = if self.t.bool() { self.tpl() } else { Self::lit(self.t.pick(&["abc", "xfoo", "a-b-c", ""])) };
                let prefix = self.t.pick(&["", "a", "x", "l"]).to_string();
                let suffix = self.t.pick(&["", "c", "o", "t", "@Q"]).to_string();
                self.line(&format!("if string :matches :comparator \"i;octet\" {} \"{prefix}*{suffix}\" {{", src.1));
                let before = self.capt;
                self.capt += 1;
                let b = self.block(depth - 1);
                self.capt = before;
                let els = if self.t.chance(1, 4) {
                    self.line("else {");
                    Some(self.block(depth - 1))
                } else {
                    None
                };
                // which match a reference means after a nested match is not defined here
                if suffix != "@Q" {
                    self.capt = 0;
                }
                self.captures += 1;
                vec![S::If(vec![(T::Capt { src: src.0, prefix, suffix }, b)], els)]
            }
            2 => {
                self.stat("while");
                let k = self.counter;
                self.counter += 1;
                let cname = format!("w{k}");
                let slot = self.assign(&cname, false);
                let n = self.t.n(4);
                self.line(&format!("let \"{cname}\" \"0\";"));
                let zero = S::Let(slot.clone(), E::Int(0), vec![]);
                let var = || Box::new(E::Var(cname.clone()));
                let inc_e = E::Bin(expr::Op::Add, var(), E::Int(1).into());
                let names = self.known_names();
                let inc = S::Let(slot.clone(), inc_e, names.clone());
                let inc_line = format!("let \"{cname}\" \"{cname} + 1\";");
                let form = self.t.n(if self.breaks { 3 } else { 2 });
                let less = E::Bin(expr::Op::Lt, var(), E::Int(n as i64).into());
                let (cond, names, text, extra) = match form {
                    0 => (less, names, format!("\"{cname} < {n}\""), false),
                    1 => {
                        let (e, nm, s) = self.expr(1);
                        let c = E::Bin(expr::Op::And, less.into(), e.into());
                        let inner = &s[1..s.len() - 1];
                        (c, nm, format!("\"{cname} < {n} && ({inner})\""), false)
                    }
                    _ => (E::Bool(true), names, "\"true\"".to_string(), true),
                };
                self.line(&format!("while {text} {{"));
                self.loops.push(Loop::While);
                let c = std::mem::take(&mut self.capt);
                let seen = self.captures;
                self.open();
                let mut stmts = vec![];
                if extra {
                    self.line(&format!("if eval \"{cname} >= {n}\" {{ break; }}"));
                    let nm = self.known_names();
                    stmts.push(S::If(
                        vec![(
                            T::Eval(E::Bin(expr::Op::Ge, Box::new(E::Var(cname.clone())), E::Int(n as i64).into()), nm),
                            Blk { stmts: vec![S::Break(None)], slots: vec![] },
                        )],
                        None,
                    ));
                }
                self.line(&inc_line);
                stmts.push(inc);
                stmts.extend(self.stmts(depth - 1));
                let slots = self.close();
                self.line("}");
                self.capt = if seen == self.captures { c } else { 0 };
                self.loops.pop();
                vec![zero, S::While(cond, names, Blk { stmts, slots })]
            }
            20 => {
                self.stat("addheader");
                let last = self.t.bool();
                let name = self.t.pick(&["X-Ed", "Subject", "X-Other", "Received"]).to_string();
                let (v, s) = self.tpl();
                self.line(&format!("addheader {}\"{name}\" {s};", if last { ":last " } else { "" }));
                vec![S::Edit(last, name, v)]
            }
            3 => {
                self.stat("foreverypart");
                let label = if self.t.bool() {
                    self.label += 1;
                    Some(format!("L{}", self.label))
                } else {
                    None
                };
                match &label {
                    Some(l) => self.line(&format!("foreverypart :name \"{l}\" {{")),
                    None => self.line("foreverypart {"),
                }
                self.loops.push(Loop::For(label.clone()));
                let c = std::mem::take(&mut self.capt);
                let seen = self.captures;
                let b = self.block(depth - 1);
                self.capt = if seen == self.captures { c } else { 0 };
                self.loops.pop();
                vec![S::ForEvery(label, b)]
            }
            4 => {
                self.stat("break");
                let labels: Vec<String> = self
                    .loops
                    .iter()
                    .filter_map(|l| match l {
                        Loop::For(Some(n)) => Some(n.clone()),
                        _ => None,
                    })
                    .collect();
                if !labels.is_empty() && self.t.bool() {
                    let l = self.t.pick(&labels).clone();
                    self.line(&format!("break :name \"{l}\";"));
                    self.stat("break :name");
                    vec![S::Break(Some(l))]
                } else {
                    self.line("break;");
                    vec![S::Break(None)]
                }
            }
            5 => {
                self.stat("continue");
                self.line("continue;");
                vec![S::Continue]
            }
            6 => {
                self.line("stop;");
                vec![S::Stop]
            }
            7 => {
                self.stat("return");
                self.line("return;");
                vec![S::Return]
            }
            8 => {
                let local = self.t.chance(1, 8);
                let mut mods = vec![];
                let mut mt = String::new();
                if p.w_modifiers > 0 {
                    // more than twenty modifiers are sorted in another way than a few
                    let many = self.t.chance(1, 25);
                    let n = if many { 20 + self.t.n(25) } else { self.t.n(4) };
                    for _ in 0..n {
                        let (m, s) = if many && self.t.chance(4, 5) {
                            let (a, s) = Self::lit(self.t.pick(&["a", "b", "c", "d", "e", "x", "1", "B"]));
                            let (b, r) = Self::lit(self.t.pick(&["a", "b", "c", "d", "e", "x", "2", "A"]));
                            (Mod::Replace(a, b), format!(":replace {s} {r}"))
                        } else if many && self.t.chance(1, 2) {
                            match self.t.n(4) {
                                0 => (Mod::Lower, ":lower".into()),
                                1 => (Mod::LowerFirst, ":lowerfirst".into()),
                                2 => (Mod::Upper, ":upper".into()),
                                _ => (Mod::UpperFirst, ":upperfirst".into()),
                            }
                        } else {
                            self.modifier()
                        };
                        if many && matches!(m, Mod::Replace(..)) && !s.chars().count().eq(&":replace \"a\" \"b\"".len()) {
                            continue;
                        }
                        if let Mod::Replace(..) = m {
                        } else if mods.iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&m)) {
                            continue;
                        }
                        mods.push(m);
                        mt.push_str(&s);
                        mt.push(' ');
                    }
                }
                // the value and the modifiers are read before the name is declared, except that
                // the name comes first in the text
                let name = self.var_name();
                let mut out = self.declare(&name, local);
                let cname = self.cased(&name);
                let ltag = if local { ":local " } else { "" };
                let slot = self.assign(&name, local);
                let (v, s) = self.tpl();
                self.line(&format!("set {mt}{ltag}\"{cname}\" {s};"));
                out.push(S::Set(slot, mods, v));
                out
            }
            9 => {
                // reading first: the name is declared by let itself before the expression is read
                let name = match self.t.n(3) {
                    0 => self.t.pick(GNAMES).to_string(),
                    _ => self.t.pick(NAMES).to_string(),
                };
                let mut out = self.declare(&name, false);
                let slot = self.assign(&name, false);
                let f = self.t.n(3);
                let (e, n, s) = self.expr(f);
                self.line(&format!("let \"{name}\" {s};"));
                out.push(S::Let(slot, e, n));
                out
            }
            10 => {
                self.stat("keep");
                if p.w_flag > 0 && self.t.bool() {
                    let (f, s) = self.flags();
                    self.line(&format!("keep :flags {s};"));
                    vec![S::Keep(Some(f))]
                } else {
                    self.line("keep;");
                    vec![S::Keep(None)]
                }
            }
            11 => {
                self.stat("discard");
                self.line("discard;");
                vec![S::Discard]
            }
            12 => {
                self.stat("fileinto");
                let copy = self.t.chance(1, 3);
                let create = self.t.chance(1, 4);
                let mut tags = vec![];
                if copy {
                    tags.push(":copy".to_string());
                }
                if create {
                    tags.push(":create".to_string());
                }
                let flags = if p.w_flag > 0 && self.t.bool() {
                    let (f, s) = self.flags();
                    tags.push(format!(":flags {s}"));
                    Some(f)
                } else {
                    None
                };
                let mid = if self.t.chance(1, 5) {
                    let (v, s) = self.tpl();
                    tags.push(format!(":mailboxid {s}"));
                    Some(v)
                } else {
                    None
                };
                let su = if self.t.chance(1, 5) {
                    let (v, s) = self.tpl();
                    tags.push(format!(":specialuse {s}"));
                    Some(v)
                } else {
                    None
                };
                if self.t.bool() {
                    tags.reverse();
                }
                let (folder, s) = self.tpl();
                let tags = tags.join(" ");
                self.line(&format!("fileinto {tags} {s};"));
                vec![S::FileInto { folder, copy, create, flags, mid, su }]
            }
            13 => {
                self.stat("redirect");
                let copy = self.t.chance(1, 3);
                let list = self.t.chance(1, 8);
                let a = *self.t.pick(&["u1@example.org", "u2@example.org", "me@example.com", "ME@Example.Com", "User <u3@example.org>", "bad", "no@dots", "u4@sub.example.org"]);
                let (mut addr, mut s) = Self::lit(a);
                if self.t.chance(1, 5) {
                    let (p, q) = self.tpl();
                    addr.extend(p);
                    s = format!("{}{}", s.trim_end_matches('"'), &q[1..]);
                }
                self.line(&format!(
                    "redirect {}{}{s};",
                    if copy { ":copy " } else { "" },
                    if list { ":list " } else { "" }
                ));
                vec![S::Redirect { addr, copy, list }]
            }
            14 => {
                self.stat("reject");
                let e = self.t.bool();
                let (r, s) = self.tpl();
                self.line(&format!("{} {s};", if e { "ereject" } else { "reject" }));
                vec![S::Reject(e, r)]
            }
            15 => {
                self.stat("error");
                let (r, s) = self.tpl();
                self.line(&format!("error {s};"));
                vec![S::Error(r)]
            }
            16 => {
                let k = self.t.n(3) as u8;
                self.stat(["setflag", "addflag", "removeflag"][k as usize]);
                let mut out = vec![];
                let (slot, vt) = if self.t.chance(1, 3) {
                    let n = self.flag_var_name();
                    out = self.declare(&n, false);
                    (Some(self.assign(&n, false)), format!("\"{n}\" "))
                } else {
                    (None, String::new())
                };
                let (f, s) = self.flags();
                self.line(&format!("{} {vt}{s};", ["setflag", "addflag", "removeflag"][k as usize]));
                out.push(S::Flag(k, slot, f));
                out
            }
            17 => {
                self.stat("include");
                let once = self.t.chance(1, 3);
                let optional = self.t.chance(1, 4);
                let (g, n) = self.t.pick(&self.include_names.clone()).clone();
                let (name, s) = if self.t.chance(1, 8) { self.tpl() } else { Self::lit(&n) };
                let where_ = if g { ":global " } else if self.t.bool() { ":personal " } else { "" };
                self.line(&format!(
                    "include {}{}{}{s};",
                    where_,
                    if once { ":once " } else { "" },
                    if optional { ":optional " } else { "" }
                ));
                vec![S::Include { global: g, once, optional, name }]
            }
            _ => {
                self.stat("set envelope");
                let from = self.t.bool();
                let (v, s) = self.tpl();
                self.line(&format!("set \"envelope.{}\" {s};", if from { "from" } else { "to" }));
                vec![S::SetEnv(from, v)]
            }
        }
    }

    fn modifier(&mut self) -> (Mod, String) {
        match self.t.n(10) {
            0 => (Mod::Lower, ":lower".into()),
            1 => (Mod::Upper, ":upper".into()),
            2 => (Mod::LowerFirst, ":lowerfirst".into()),
            3 => (Mod::UpperFirst, ":upperfirst".into()),
            4 => (Mod::QuoteWildcard, ":quotewildcard".into()),
            5 => (Mod::QuoteRegex, ":quoteregex".into()),
            6 => (Mod::EncodeUrl, ":encodeurl".into()),
            7 => (Mod::Length, ":length".into()),
            _ => {
                let (a, s) = self.tpl();
                let (b, r) = self.tpl();
                (Mod::Replace(a, b), format!(":replace {s} {r}"))
            }
        }
    }

    fn prog(&mut self) -> Prog {
        self.out = String::from(CAPS);
        self.st = Static { blocks: vec![], globals: BTreeSet::new() };
        self.loops.clear();
        self.capt = 0;
        self.open();
        let mut gl = vec![];
        for g in GNAMES {
            if self.t.chance(2, 5) {
                gl.push(format!("\"{g}\""));
                self.st.globals.insert(g.to_string());
            }
        }
        if !gl.is_empty() {
            self.line(&format!("global [{}];", gl.join(", ")));
        }
        let mut stmts = vec![];
        let max = self.p.max_depth;
        let n = 1 + self.t.n(self.p.max_stmts + 2);
        self.budget = 60;
        self.breaks = self.p.w_break > 0 && self.t.chance(2, 3);
        for _ in 0..n {
            stmts.extend(self.stmt(max));
        }
        let slots = self.close();
        Prog { blk: Blk { stmts, slots }, text: std::mem::take(&mut self.out) }
    }

    pub fn world(&mut self) -> World {
        let mut progs = BTreeMap::new();
        let ni = if self.p.n_includes > 0 { 1 + self.t.n(self.p.n_includes) } else { 0 };
        // names that are nearly the same are different scripts
        let names = ["one", *self.t.pick(&["two", "two", "two", "One", "one.sieve", "one "]), *self.t.pick(&["three", "three", "été", "a/b c"])];
        for n in names.iter().take(ni) {
            self.include_names.push((false, n.to_string()));
        }
        if ni > 0 {
            // the same name in the other place, and names that do not exist
            if self.t.bool() {
                self.include_names.push((true, "one".into()));
            }
            self.include_names.push((self.t.bool(), "missing".into()));
        }
        let main = self.prog();
        for (g, n) in self.include_names.clone() {
            if n != "missing" {
                let depth = self.p.max_depth;
                self.p.max_depth = depth.min(3);
                let p = self.prog();
                self.p.max_depth = depth;
                progs.insert((g, n), p);
            }
        }
        let n_received = self.t.n(3);
        let (parts, message) = gen_message(self.t, self.p.max_parts, n_received);
        World {
            progs,
            main,
            parts,
            message,
            mailboxes: (1..400).map(|i| format!("yes{i}")).chain(["x".to_string(), "abc".to_string()]).collect(),
            max_redirects: if self.p.w_redirect > 0 { self.t.n(4) } else { 1 },
            max_out: if self.p.w_redirect > 0 { self.t.n(5) } else { 3 },
            max_nested: if ni > 0 { 1 + self.t.n(4) } else { 3 },
            max_var: if self.p.long_values { *self.t.pick(&[4096, 16, 24, 33, 64]) } else { 1 << 12 },
            max_received: if self.p.w_redirect > 0 { 1 + self.t.n(4) } else { 10 },
            n_received,
            user_address: "me@example.com".into(),
            globals0: BTreeMap::new(),
        }
    }
}

pub const FLAGS: &[&str] = &["\\Seen", "\\SEEN", "$Junk", "$junk", "\\Deleted", "custom", "CUSTOM", "a", "é", "É", "\\flagged"];

pub fn quote(s: &str) -> String {
    expr::quote(s)
}

fn gen_message(t: &mut Tape, max_parts: usize, n_received: usize) -> (Vec<PartInfo>, Vec<u8>) {
    let mut head = String::new();
    for i in 0..n_received {
        head.push_str(&format!("Received: from h{i} by h; Tue, 1 Jan 2030 00:00:0{i} +0000\r\n"));
    }
    head.push_str("From: sender@example.net\r\nTo: me@example.com\r\nSubject: hello\r\nX-Id: p0\r\n");
    let mut parts = vec![PartInfo { parent: None }];
    if max_parts == 0 {
        head.push_str("\r\nbody text\r\n");
        return (parts, head.into_bytes());
    }
    let mut body = String::new();
    gen_part(t, 0, max_parts, 3, &mut parts, &mut body);
    head.push_str(&body);
    (parts, head.into_bytes())
}

/// Writes the Content-Type header onwards of part `id`.
fn gen_part(t: &mut Tape, id: usize, max: usize, depth: usize, parts: &mut Vec<PartInfo>, out: &mut String) {
    if depth > 0 && parts.len() < max && t.chance(2, 3) {
        let b = format!("bnd{id}");
        out.push_str(&format!("Content-Type: multipart/mixed; boundary=\"{b}\"\r\n\r\n"));
        let n = 1 + t.n(3);
        for _ in 0..n {
            if parts.len() > max {
                break;
            }
            let k = parts.len();
            parts.push(PartInfo { parent: Some(id) });
            out.push_str(&format!("--{b}\r\nX-Id: p{k}\r\n"));
            gen_part(t, k, max, depth - 1, parts, out);
            out.push_str("\r\n");
        }
        out.push_str(&format!("--{b}--\r\n"));
    } else {
        match t.n(3) {
            0 => out.push_str(&format!("Content-Type: text/plain\r\n\r\ntext of {id}")),
            1 => out.push_str(&format!("Content-Type: text/html\r\n\r\n<p>html of {id}</p>")),
            _ => out.push_str(&format!("Content-Type: application/octet-stream\r\nContent-Transfer-Encoding: base64\r\n\r\nAAEC")),
        }
    }
}

// ---------------------------------------------------------------- interpreter

pub enum Flow {
    Next,
    Break(Option<String>),
    Continue,
    Return,
    Stop,
    /// the run ended with an error (already recorded)
    Abort,
}

struct Frame {
    locals: HashMap<usize, Val>,
    matches: Vec<String>,
}

#[derive(Clone, PartialEq)]
enum Final {
    Keep(Vec<String>, usize),
    Discard,
}

pub struct Interp<'w> {
    w: &'w World,
    pub events: Vec<String>,
    pub globals: BTreeMap<String, Val>,
    frames: Vec<Frame>,
    cache: BTreeSet<(bool, String)>,
    fin: Option<Final>,
    explicit: bool,
    redirects: usize,
    outs: usize,
    part: usize,
    loop_depth: usize,
    pub steps: usize,
    pub overrun: bool,
    pub tests: usize,
    /// tests other than the boolean operators
    pub leaves: usize,
    /// require commands executed
    pub required: usize,
    /// (events so far, what would be delivered if the run ended here)
    pub history: BTreeSet<(usize, Option<String>)>,
    pub keep_history: bool,
    /// a modifier's own result was longer than a variable may be
    pub fuzzy: bool,
    /// the run came across a known finding
    pub excluded: bool,
    pub executed: BTreeMap<&'static str, u64>,
    changed: bool,
    msg_id: usize,
    added_received: usize,
    top: String,
    bottom: String,
}

struct EnvA<'a, 'w> {
    i: &'a mut Interp<'w>,
    names: &'a Names,
}

impl Env for EnvA<'_, '_> {
    fn var(&mut self, name: &str) -> Val {
        match self.names.iter().find(|n| n.0 == name) {
            Some((_, s)) => self.i.get(s),
            None => Val::S(String::new()),
        }
    }
    fn call(&mut self, name: &str, args: Vec<Val>) -> Val {
        let id = match name {
            "ext_zero" => 0,
            "ext_one" => 1,
            "ext_two" => 2,
            "ext_true" => 3,
            "ext_false" => 4,
            _ => return c13::call_model(name, args),
        };
        self.i.note();
        self.i.events.push(format!("Function {id} {args:?}"));
        self.i.note();
        c13::call_model(name, args)
    }
}

impl<'w> Interp<'w> {
    pub fn new(w: &'w World) -> Self {
        Interp {
            w,
            events: vec![],
            globals: w.globals0.iter().map(|(k, v)| (k.clone(), Val::S(v.clone()))).collect(),
            frames: vec![],
            cache: BTreeSet::new(),
            fin: Some(Final::Keep(vec![], 0)),
            explicit: false,
            redirects: 0,
            outs: 0,
            part: 0,
            loop_depth: 0,
            steps: 0,
            overrun: false,
            tests: 0,
            leaves: 0,
            required: 0,
            history: BTreeSet::new(),
            keep_history: false,
            fuzzy: false,
            excluded: false,
            executed: BTreeMap::new(),
            changed: false,
            msg_id: 0,
            added_received: 0,
            top: String::new(),
            bottom: String::new(),
        }
    }

    fn hit(&mut self, s: &'static str) {
        *self.executed.entry(s).or_default() += 1;
    }

    pub fn run(&mut self) {
        self.cache.insert((false, "_main".into()));
        self.frames.push(Frame { locals: HashMap::new(), matches: vec![] });
        let w = self.w;
        self.note();
        self.required += 1;
        let f = self.block(&w.main.blk);
        if !matches!(f, Flow::Abort) {
            self.finish();
        }
    }

    fn pending(&self) -> Option<String> {
        match &self.fin {
            Some(Final::Keep(flags, id)) => {
                let (flags, mut id) = if self.explicit { (flags.clone(), *id) } else { (self.internal_flags(), self.msg_id) };
                if self.changed {
                    id = self.msg_id + 1;
                }
                Some(format!("Keep {flags:?}{}", num(id)))
            }
            Some(Final::Discard) => Some("Discard".into()),
            None => None,
        }
    }

    fn note(&mut self) {
        if self.keep_history {
            let mut p = self.pending();
            if self.changed && matches!(self.fin, Some(Final::Keep(..))) {
                p = p.map(|p| format!("{}\n{p}", self.created(self.msg_id + 1)));
            }
            self.history.insert((self.events.len(), p));
        }
    }

    fn finish(&mut self) {
        self.note();
        let p = self.pending();
        if matches!(self.fin, Some(Final::Keep(..))) {
            self.create();
        }
        self.events.extend(p);
    }

    fn created(&self, id: usize) -> String {
        let m = String::from_utf8_lossy(&self.w.message);
        let (head, body) = m.split_once("\r\n\r\n").unwrap();
        format!("CreatedMessage {id} {:?}", format!("{}{head}\r\n{}\r\n{body}", self.top, self.bottom))
    }

    /// An edited message is handed over before the action that uses it.
    fn create(&mut self) {
        if self.changed {
            self.changed = false;
            self.msg_id += 1;
            let e = self.created(self.msg_id);
            self.events.push(e);
            self.note();
        }
    }

    fn abort(&mut self, e: String) -> Flow {
        self.events.push(e);
        self.finish();
        Flow::Abort
    }

    fn get(&self, s: &Slot) -> Val {
        match s {
            Slot::Local(i) => self.frames.last().unwrap().locals.get(i).cloned(),
            Slot::Global(n) => self.globals.get(n).cloned(),
        }
        .unwrap_or(Val::S(String::new()))
    }

    fn put(&mut self, s: &Slot, v: Val) {
        let v = if v.size() > self.w.max_var {
            self.hit("truncated");
            let mut o = String::new();
            for c in v.text().chars() {
                if o.len() + c.len_utf8() > self.w.max_var {
                    break;
                }
                o.push(c);
            }
            Val::S(o)
        } else {
            v
        };
        match s {
            Slot::Local(i) => {
                self.frames.last_mut().unwrap().locals.insert(*i, v);
            }
            Slot::Global(n) => {
                self.globals.insert(n.clone(), v);
            }
        }
    }

    /// Value of a template; a lone variable keeps its type, canonical number texts are numbers.
    fn value(&self, t: &Tpl) -> Val {
        let lits_only = t.iter().all(|p| matches!(p, P::Lit(_)));
        if lits_only {
            let s: String = t.iter().map(|p| match p { P::Lit(s) => s.as_str(), _ => "" }).collect();
            return match s.parse::<i64>() {
                Ok(i) if i.to_string() == s => Val::I(i),
                _ => Val::S(s),
            };
        }
        // parts that are not there at all
        let parts: Vec<&P> = t.iter().filter(|p| !matches!(p, P::Var(None)) && !matches!(p, P::Lit(s) if s.is_empty())).collect();
        if let [P::Var(Some(s))] = parts[..] {
            return self.get(s);
        }
        Val::S(parts.iter().map(|p| self.part_text(p)).collect())
    }

    fn part_text(&self, p: &P) -> String {
        match p {
            P::Lit(s) => s.clone(),
            P::Var(Some(s)) => self.get(s).text(),
            P::Var(None) => String::new(),
            P::Match(i) => self.frames.last().unwrap().matches.get(*i).cloned().unwrap_or_default(),
            P::PartId => format!("p{}", self.part),
        }
    }

    fn text(&self, t: &Tpl) -> String {
        self.value(t).text()
    }

    fn texts(&self, t: &[Tpl]) -> Vec<String> {
        t.iter().map(|t| self.text(t)).collect()
    }

    fn internal_flags(&self) -> Vec<String> {
        split_flags(&self.get(&Slot::Global("__flags".into())).text())
    }

    fn flags(&self, f: &Option<Vec<Tpl>>) -> Vec<String> {
        match f {
            Some(f) => f.iter().flat_map(|t| split_flags(&self.text(t))).collect(),
            None => self.internal_flags(),
        }
    }

    fn block(&mut self, b: &Blk) -> Flow {
        let mut flow = Flow::Next;
        for s in &b.stmts {
            flow = self.stmt(s);
            self.note();
            if !matches!(flow, Flow::Next) {
                break;
            }
        }
        for s in &b.slots {
            self.frames.last_mut().unwrap().locals.remove(s);
        }
        flow
    }

    fn test(&mut self, t: &T) -> bool {
        self.tests += 1;
        self.leaves += !matches!(t, T::Not(_) | T::All(_) | T::Any(_)) as usize;
        match t {
            T::True => true,
            T::False => false,
            T::Not(t) => !self.test(t),
            T::All(v) => {
                for t in v {
                    if !self.test(t) {
                        self.hit("short circuit");
                        return false;
                    }
                }
                true
            }
            T::Any(v) => {
                for t in v {
                    if self.test(t) {
                        self.hit("short circuit");
                        return true;
                    }
                }
                false
            }
            T::Str { contains, src, keys } => {
                let (s, k) = (self.texts(src), self.texts(keys));
                let hits: Vec<bool> = k
                    .iter()
                    .map(|k| {
                        s.iter().any(|s| {
                            let (s, k) = (s.to_lowercase(), k.to_lowercase());
                            if *contains { s.contains(&k) } else { s == k }
                        })
                    })
                    .collect();
                let result = hits.contains(&true);
                // known finding string-last-key: the result of the last key counts
                if result != *hits.last().unwrap_or(&false) {
                    self.excluded = true;
                }
                result
            }
            T::Capt { src, prefix, suffix } => {
                let s = self.text(src);
                let ok = s.len() >= prefix.len() + suffix.len() && s.starts_with(prefix.as_str()) && s.ends_with(suffix.as_str());
                if ok {
                    let m = s[prefix.len()..s.len() - suffix.len()].to_string();
                    self.frames.last_mut().unwrap().matches = vec![s, m];
                }
                ok
            }
            T::Mbox(v) => {
                let v = self.texts(v);
                self.note();
                self.events.push(format!("MailboxExists {v:?}"));
                self.note();
                v.iter().all(|m| self.w.mailboxes.contains(m))
            }
            T::Eval(e, n) => expr::eval(e, &mut EnvA { i: self, names: n }).truth(),
            T::HasFlag { vars, contains, flags } => {
                let keys: Vec<String> = flags.iter().flat_map(|t| split_flags(&self.text(t))).collect();
                // known finding count-empty-pieces: only spaces separate flags here
                if vars.iter().any(|v| {
                    let s = self.get(v).text();
                    !s.split(' ').filter(|f| !f.is_empty()).eq(split_flags(&s).iter())
                }) {
                    self.excluded = true;
                }
                vars.iter().any(|v| {
                    split_flags(&self.get(v).text()).iter().any(|f| {
                        keys.iter().any(|k| {
                            let (f, k) = (f.to_lowercase(), k.to_lowercase());
                            if *contains { f.contains(&k) } else { f == k }
                        })
                    })
                })
            }
            T::FlagCount { vars, rel, n } => {
                // known finding count-empty-pieces
                if vars.iter().any(|v| {
                    let s = self.get(v).text();
                    !s.is_empty() && !s.split(' ').eq(split_flags(&s).iter())
                }) {
                    self.excluded = true;
                }
                let c: i64 = vars.iter().map(|v| split_flags(&self.get(v).text()).len() as i64).sum();
                match *rel {
                    "gt" => c > *n,
                    "ge" => c >= *n,
                    "lt" => c < *n,
                    "le" => c <= *n,
                    "eq" => c == *n,
                    _ => c != *n,
                }
            }
        }
    }

    fn stmt(&mut self, s: &S) -> Flow {
        if !matches!(s, S::While(..)) {
            self.steps += 1;
        }
        if self.steps > 4000 {
            self.overrun = true;
            return Flow::Stop;
        }
        match s {
            S::If(br, els) => {
                for (i, (t, b)) in br.iter().enumerate() {
                    if self.test(t) {
                        self.hit(["if branch", "elsif branch", "elsif branch"][i.min(2)]);
                        return self.block(b);
                    }
                }
                match els {
                    Some(b) => {
                        self.hit("else branch");
                        self.block(b)
                    }
                    None => Flow::Next,
                }
            }
            S::While(e, n, b) => {
                loop {
                    self.steps += 1;
                    if self.steps > 4000 {
                        self.overrun = true;
                        return Flow::Stop;
                    }
                    if !expr::eval(e, &mut EnvA { i: self, names: n }).truth() {
                        break;
                    }
                    self.hit("while iteration");
                    match self.block(b) {
                        Flow::Next => {}
                        Flow::Continue => self.hit("continue taken"),
                        Flow::Break(None) => {
                            self.hit("break taken");
                            break;
                        }
                        f => return f,
                    }
                }
                Flow::Next
            }
            S::ForEvery(label, b) => {
                let ids: Vec<usize> = if self.part == 0 {
                    let from = if self.loop_depth == 0 { 0 } else { 1 };
                    (from..self.w.parts.len()).collect()
                } else {
                    let mut v: Vec<usize> = if self.loop_depth == 0 { vec![self.part] } else { vec![] };
                    v.extend((0..self.w.parts.len()).filter(|p| self.below(*p, self.part)));
                    v
                };
                let saved = self.part;
                self.loop_depth += 1;
                let mut res = Flow::Next;
                for id in ids {
                    self.part = id;
                    self.hit("part visited");
                    match self.block(b) {
                        Flow::Next => {}
                        Flow::Break(None) => {
                            self.hit("break taken");
                            break;
                        }
                        Flow::Break(l) if l == *label => {
                            self.hit("labelled break taken");
                            break;
                        }
                        f => {
                            res = f;
                            break;
                        }
                    }
                }
                self.loop_depth -= 1;
                self.part = saved;
                res
            }
            S::Break(l) => Flow::Break(l.clone()),
            S::Continue => Flow::Continue,
            S::Stop => Flow::Stop,
            S::Return => Flow::Return,
            S::Set(slot, mods, v) => {
                let mut val = self.value(v);
                let mut sorted: Vec<&Mod> = mods.iter().collect();
                sorted.sort_by_key(|m| order(m));
                for m in sorted {
                    if let Mod::Replace(a, b) = m {
                        let (a, b) = (self.text(a), self.text(b));
                        if (val.size() / a.len().max(1)).saturating_mul(b.len()) > 1 << 22 {
                            self.overrun = true;
                            return Flow::Stop;
                        }
                    }
                    let (v, long) = (self.apply(m, &val.text()), val.text().len());
                    if v.len().max(long) > self.w.max_var && !matches!(m, Mod::Lower | Mod::Upper | Mod::Replace(..) | Mod::Length) {
                        self.fuzzy = true;
                    }
                    val = Val::S(v);
                    self.hit("modifier");
                }
                self.put(slot, val);
                Flow::Next
            }
            S::Let(slot, e, n) => {
                let v = expr::eval(e, &mut EnvA { i: self, names: n });
                self.put(slot, v);
                Flow::Next
            }
            S::Keep(f) => {
                self.hit("keep");
                self.create();
                self.explicit = true;
                self.fin = Some(Final::Keep(self.flags(f), self.msg_id));
                Flow::Next
            }
            S::Discard => {
                if !self.explicit {
                    self.hit("discard");
                    self.fin = Some(Final::Discard);
                }
                Flow::Next
            }
            S::FileInto { folder, copy, create, flags, mid, su } => {
                let folder = self.text(folder);
                let flags = self.flags(flags);
                let mid = mid.as_ref().map(|t| self.text(t));
                let su = su.as_ref().map(|t| self.text(t));
                let had = self.changed;
                if !copy && !self.explicit {
                    self.fin = None;
                }
                self.create();
                if had {
                    self.note();
                }
                self.events.push(format!("FileInto {folder:?} {flags:?} {mid:?} {su:?} {create}{}", num(self.msg_id)));
                Flow::Next
            }
            S::Redirect { addr, copy, list } => {
                let a = self.text(addr);
                if !*list && a.contains(['"', '\\', '(', ')']) {
                    // quoted parts and comments are not modelled
                    self.overrun = true;
                }
                let to = if *list { Some(a).filter(|a| !a.is_empty() && !a.chars().any(|c| c.is_control())) } else { address(&a) };
                if let Some(a) = to {
                    if self.redirects < self.w.max_redirects
                        && self.outs < self.w.max_out
                        && self.w.n_received + self.added_received < self.w.max_received
                        && (*list || !a.eq_ignore_ascii_case(&self.w.user_address))
                    {
                        if !copy && !self.explicit && matches!(self.fin, Some(Final::Keep(..))) {
                            self.fin = None;
                        }
                        self.create();
                        self.redirects += 1;
                        self.outs += 1;
                        self.hit("redirected");
                        self.events.push(format!("SendMessage {} {a:?}", if *list { "list" } else { "address" }) + &num(self.msg_id));
                    } else {
                        self.hit("redirect refused");
                    }
                }
                Flow::Next
            }
            S::Edit(last, name, v) => {
                self.hit("edit");
                let v: String = self.text(v).chars().filter(|c| !matches!(c, '\r' | '\n')).collect();
                let mut cut = String::new();
                for c in v.chars() {
                    if cut.len() + c.len_utf8() > 1024 {
                        break;
                    }
                    cut.push(c);
                }
                let line = format!("{name}: {cut}\r\n");
                if *last {
                    self.bottom.push_str(&line);
                } else {
                    self.top.insert_str(0, &line);
                }
                self.changed = true;
                self.added_received += usize::from(name == "Received");
                Flow::Next
            }
            S::Reject(ext, r) => {
                let r = self.text(r);
                self.fin = None;
                self.explicit = false;
                self.events.push(format!("Reject {ext} {r:?}"));
                Flow::Next
            }
            S::Error(m) => {
                self.hit("error");
                let m = self.text(m);
                self.abort(format!("Error ScriptErrorMessage({m})"))
            }
            S::Flag(k, slot, f) => {
                self.hit("flag action");
                let slot = slot.clone().unwrap_or(Slot::Global("__flags".into()));
                let given: Vec<String> = f.iter().flat_map(|t| split_flags(&self.text(t))).collect();
                let raw = self.get(&slot).text();
                let mut set: Vec<String> = if *k == 0 { vec![] } else { split_flags(&raw) };
                // addflag leaves the text of the flags that are already there alone
                let mut joined = if *k == 1 { raw } else { String::new() };
                for g in given {
                    let present = set.iter().any(|x| x.to_lowercase() == g.to_lowercase());
                    if *k == 2 {
                        set.retain(|x| x.to_lowercase() != g.to_lowercase());
                    } else if !present {
                        if !joined.is_empty() {
                            joined.push(' ');
                        }
                        joined.push_str(&g);
                        set.push(g);
                    }
                }
                if *k == 2 {
                    joined = set.join(" ");
                }
                if joined.len() > self.w.max_var {
                    self.fuzzy = true;
                }
                self.put(&slot, Val::S(joined));
                Flow::Next
            }
            S::Include { global, once, optional, name } => {
                let name = self.text(name);
                if name.is_empty() {
                    return Flow::Next;
                }
                let key = (*global, name.clone());
                if *once && self.cache.contains(&key) {
                    self.hit("include :once skipped");
                    return Flow::Next;
                }
                if self.frames.len() >= self.w.max_nested {
                    self.hit("too many includes");
                    return self.abort("Error TooManyIncludes".into());
                }
                let w = self.w;
                self.note();
                if !self.cache.contains(&key) {
                    self.events.push(format!("IncludeScript {} {name:?} {optional}", if *global { "global" } else { "personal" }));
                }
                self.note();
                let prog = w.progs.get(&key);
                if let Some(p) = prog {
                    self.cache.insert(key);
                    self.hit("included");
                    self.required += 1;
                    self.frames.push(Frame { locals: HashMap::new(), matches: vec![] });
                    let f = self.block(&p.blk);
                    self.frames.pop();
                    match f {
                        Flow::Return => {
                            self.hit("returned");
                            Flow::Next
                        }
                        f => f,
                    }
                } else {
                    self.hit("include missing");
                    Flow::Next
                }
            }
            S::SetEnv(from, v) => {
                let mut v = self.value(v);
                if v.size() > self.w.max_var {
                    let tmp = Slot::Global("__tmp_env".into());
                    self.put(&tmp, v);
                    v = self.get(&tmp);
                    self.globals.remove("__tmp_env");
                }
                let v: String = v.text().chars().filter(|c| !matches!(c, '\r' | '\n')).collect();
                self.events.push(format!("SetEnvelope {} {v:?}", if *from { "From" } else { "To" }));
                Flow::Next
            }
        }
    }

    fn below(&self, p: usize, anc: usize) -> bool {
        let mut cur = self.w.parts[p].parent;
        while let Some(c) = cur {
            if c == anc {
                return true;
            }
            cur = self.w.parts[c].parent;
        }
        false
    }

    fn apply(&self, m: &Mod, s: &str) -> String {
        let first = |up: bool| {
            let mut it = s.chars();
            match it.next() {
                None => String::new(),
                Some(c) => {
                    let h: String = if up { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
                    h + it.as_str()
                }
            }
        };
        match m {
            Mod::Lower => s.to_lowercase(),
            Mod::Upper => s.to_uppercase(),
            Mod::LowerFirst => first(false),
            Mod::UpperFirst => first(true),
            Mod::QuoteWildcard => {
                let mut o = String::new();
                for c in s.chars() {
                    if "*?\\".contains(c) {
                        o.push('\\');
                    }
                    o.push(c);
                }
                o
            }
            Mod::QuoteRegex => {
                let mut o = String::new();
                for c in s.chars() {
                    if "*\\?.[](){}+|^=:$".contains(c) {
                        o.push('\\');
                    }
                    o.push(c);
                }
                o
            }
            Mod::EncodeUrl => {
                let mut o = String::new();
                for b in s.bytes() {
                    if b.is_ascii_alphanumeric() || b"-._~".contains(&b) {
                        o.push(b as char);
                    } else {
                        o.push_str(&format!("%{b:02x}"));
                    }
                }
                o
            }
            Mod::Length => s.chars().count().to_string(),
            Mod::Replace(a, b) => s.replace(&self.text(a), &self.text(b)),
        }
    }
}

fn order(m: &Mod) -> i32 {
    -match m {
        Mod::Lower => 41,
        Mod::Upper => 40,
        Mod::Replace(..) => 40,
        Mod::LowerFirst => 31,
        Mod::UpperFirst => 30,
        Mod::QuoteRegex => 21,
        Mod::QuoteWildcard => 20,
        Mod::EncodeUrl => 15,
        Mod::Length => 10,
    }
}

pub fn split_flags(s: &str) -> Vec<String> {
    s.split_ascii_whitespace().map(|s| s.to_string()).collect()
}

/// The mailbox address in a redirect argument, if it is one (no quoted parts are generated).
pub fn address(s: &str) -> Option<String> {
    if s.chars().any(|c| c.is_control() && !c.is_ascii_whitespace()) {
        return None;
    }
    let s = match s.rfind('<') {
        Some(i) => {
            // everything before the bracket is the display name; a second @ there is an error
            if s[..i].matches('@').count() > 1 || s[..i].trim_start().starts_with('@') {
                return None;
            }
            &s[i + 1..]
        }
        None => s,
    };
    let s: String = s.chars().filter(|c| !c.is_ascii_whitespace() && *c != '>').collect();
    let (l, d) = s.split_once('@')?;
    if l.is_empty() || d.contains('@') || !d.contains('.') {
        return None;
    }
    Some(s)
}

// ---------------------------------------------------------------- comparison

pub fn norm(i: &Item) -> String {
    match i {
        Item::Err(e) => format!("Error {e}"),
        Item::Ev(e) => match e {
            Event::IncludeScript { name, optional } => match name {
                Script::Personal(n) => format!("IncludeScript personal {n:?} {optional}"),
                Script::Global(n) => format!("IncludeScript global {n:?} {optional}"),
            },
            Event::MailboxExists { mailboxes, special_use } => {
                let v: Vec<String> = mailboxes
                    .iter()
                    .map(|m| match m {
                        sieve::Mailbox::Name(n) => n.clone(),
                        sieve::Mailbox::Id(n) => format!("id:{n}"),
                    })
                    .collect();
                if special_use.is_empty() {
                    format!("MailboxExists {v:?}")
                } else {
                    format!("MailboxExists {v:?} {special_use:?}")
                }
            }
            Event::Function { id, arguments } => {
                format!("Function {id} {:?}", arguments.iter().map(Val::of).collect::<Vec<_>>())
            }
            Event::Keep { flags, message_id } => format!("Keep {flags:?}{}", num(*message_id)),
            Event::CreatedMessage { message_id, message } => format!("CreatedMessage {message_id} {:?}", String::from_utf8_lossy(message)),
            Event::Discard => "Discard".into(),
            Event::Reject { extended, reason } => format!("Reject {extended} {reason:?}"),
            Event::FileInto { folder, flags, mailbox_id, special_use, create, message_id } => {
                format!("FileInto {folder:?} {flags:?} {mailbox_id:?} {special_use:?} {create}{}", num(*message_id))
            }
            Event::SendMessage { recipient, message_id, notify, return_of_content, by_time } => {
                let extra = format!("{notify:?} {return_of_content:?} {by_time:?}");
                let mut extra = if extra == "Default Default None" { String::new() } else { format!(" {extra}") };
                extra.push_str(&num(*message_id));
                match recipient {
                    Recipient::Address(a) => format!("SendMessage address {a:?}{extra}"),
                    Recipient::List(a) => format!("SendMessage list {a:?}{extra}"),
                    r => format!("SendMessage {r:?}{extra}"),
                }
            }
            Event::SetEnvelope { envelope, value } => format!("SetEnvelope {envelope:?} {value:?}"),
            e => format!("{e:?}"),
        },
    }
}

/// The number of an edited message; the original one has none.
pub fn num(id: usize) -> String {
    if id == 0 { String::new() } else { format!(" #{id}") }
}

/// First difference between the expected and the actual event lists.
pub fn diff(want: &[String], got: &[String]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let ctx = |v: &[String]| {
        v.iter().enumerate().skip(i.saturating_sub(2)).take(6).map(|(k, s)| format!("    {k}: {s}")).collect::<Vec<_>>().join("\n")
    };
    Some(format!(
        "event {i}: expected {:?}, got {:?}\n  expected:\n{}\n  got:\n{}",
        want.get(i), got.get(i), ctx(want), ctx(got)
    ))
}
