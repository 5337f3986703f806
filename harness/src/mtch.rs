//! Reference meaning of match types and comparators, and generators of keys for given values.
use crate::tape::Tape;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Cmp {
    Octet,
    Casemap,
    Numeric,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rel {
    Gt,
    Ge,
    Lt,
    Le,
    Eq,
    Ne,
}

impl Rel {
    pub const ALL: &'static [Rel] = &[Rel::Gt, Rel::Ge, Rel::Lt, Rel::Le, Rel::Eq, Rel::Ne];
    pub fn name(self) -> &'static str {
        ["gt", "ge", "lt", "le", "eq", "ne"][self as usize]
    }
    pub fn holds<T: PartialOrd>(self, a: T, b: T) -> bool {
        match self {
            Rel::Gt => a > b,
            Rel::Ge => a >= b,
            Rel::Lt => a < b,
            Rel::Le => a <= b,
            Rel::Eq => a == b,
            Rel::Ne => a != b,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mk {
    Is,
    Contains,
    Matches,
    Regex,
    Value(Rel),
    Count(Rel),
}

#[derive(Debug, Clone)]
pub struct Key {
    pub text: String,
    pub re: Option<Re>,
}

#[derive(Debug, Clone)]
pub struct Test {
    pub mk: Mk,
    pub cmp: Cmp,
    /// The comparator is written out even when it is the default.
    pub show: bool,
    pub keys: Vec<Key>,
}

/// Captured texts: of the whole first, `None` for a group that took no part.
pub type Caps = Vec<Option<String>>;

impl Test {
    pub fn tags(&self) -> String {
        let m = match self.mk {
            Mk::Is => ":is".to_string(),
            Mk::Contains => ":contains".into(),
            Mk::Matches => ":matches".into(),
            Mk::Regex => ":regex".into(),
            Mk::Value(r) => format!(":value \"{}\"", r.name()),
            Mk::Count(r) => format!(":count \"{}\"", r.name()),
        };
        let c = match self.cmp {
            Cmp::Octet => " :comparator \"i;octet\"",
            Cmp::Casemap if self.show => " :comparator \"i;ascii-casemap\"",
            Cmp::Casemap => "",
            Cmp::Numeric => " :comparator \"i;ascii-numeric\"",
        };
        m + c
    }

    /// Whether the value matches the key, and what was captured.
    pub fn one(&self, value: &str, key: &Key) -> Option<Caps> {
        let fold = |s: &str| s.to_lowercase();
        let num = |s: &str| s.parse::<u64>().unwrap_or_else(|_| panic!("not a number: {s}"));
        let k = key.text.as_str();
        let r = match (self.mk, self.cmp) {
            (Mk::Is, Cmp::Octet) => value == k,
            (Mk::Is, Cmp::Casemap) => fold(value) == fold(k),
            (Mk::Is, Cmp::Numeric) => num(value) == num(k),
            (Mk::Contains, Cmp::Octet) => value.contains(k),
            (Mk::Contains, _) => fold(value).contains(&fold(k)),
            (Mk::Value(r), Cmp::Octet) => r.holds(value.as_bytes(), k.as_bytes()),
            (Mk::Value(r), Cmp::Casemap) => r.holds(fold(value).as_bytes(), fold(k).as_bytes()),
            (Mk::Value(r), Cmp::Numeric) => r.holds(num(value), num(k)),
            (Mk::Matches, c) => return glob(k, value, c != Cmp::Octet),
            (Mk::Regex, _) => return key.re.as_ref().unwrap().find(value),
            (Mk::Count(_), _) => unreachable!(),
        };
        r.then(Vec::new)
    }

    pub fn count(&self, n: usize) -> bool {
        let Mk::Count(r) = self.mk else { unreachable!() };
        self.keys.iter().any(|k| r.holds(n as u64, k.text.parse::<u64>().unwrap()))
    }

    /// Some value matches some key.
    pub fn any<S: AsRef<str>>(&self, values: &[S]) -> bool {
        values.iter().any(|v| self.keys.iter().any(|k| self.one(v.as_ref(), k).is_some()))
    }

    pub fn captures(&self) -> bool {
        matches!(self.mk, Mk::Matches | Mk::Regex)
    }
}

// ---- wildcards

/// Leftmost wildcards take as little as possible.
pub fn glob(pattern: &str, value: &str, fold: bool) -> Option<Caps> {
    #[derive(Clone, Copy)]
    enum P {
        Star,
        One,
        C(char),
    }
    let mut p = vec![];
    let mut it = pattern.chars();
    while let Some(c) = it.next() {
        p.push(match c {
            '*' => P::Star,
            '?' => P::One,
            '\\' => match it.next() {
                Some(c) => P::C(c),
                None => break,
            },
            c => P::C(c),
        });
    }
    let v: Vec<char> = value.chars().collect();
    // can[i][j]: the pattern from i matches the value from j
    let mut can = vec![vec![false; v.len() + 1]; p.len() + 1];
    let eq = |a: char, b: char| a == b || (fold && a.to_lowercase().eq(b.to_lowercase()));
    for i in (0..=p.len()).rev() {
        for j in (0..=v.len()).rev() {
            can[i][j] = match p.get(i) {
                None => j == v.len(),
                Some(P::Star) => can[i + 1][j] || (j < v.len() && can[i][j + 1]),
                Some(P::One) => j < v.len() && can[i + 1][j + 1],
                Some(P::C(c)) => j < v.len() && eq(*c, v[j]) && can[i + 1][j + 1],
            };
        }
    }
    if !can[0][0] {
        return None;
    }
    let mut caps = vec![Some(value.to_string())];
    let mut j = 0;
    for i in 0..p.len() {
        let from = j;
        match p[i] {
            P::Star => {
                while !can[i + 1][j] {
                    j += 1;
                }
                caps.push(Some(v[from..j].iter().collect()));
            }
            P::One => {
                j += 1;
                caps.push(Some(v[from..j].iter().collect()));
            }
            P::C(_) => j += 1,
        }
    }
    Some(caps)
}

/// A pattern that may well match the value.
pub fn glob_for(t: &mut Tape, value: &str) -> String {
    let cs: Vec<char> = value.chars().collect();
    let mut p = String::new();
    let mut i = 0;
    let dense = t.chance(1, 3);
    while i <= cs.len() && p.len() <= value.len() * 3 + 60 {
        match t.n(if dense { 4 } else { 9 }) {
            0 => {
                p.push_str(*t.pick(&["*", "*", "*", "**"]));
                i += t.n(cs.len() - i + 1);
                if i >= cs.len() {
                    break;
                }
            }
            1 if i < cs.len() => {
                p.push('?');
                i += 1;
            }
            _ => {
                if i == cs.len() {
                    break;
                }
                let c = cs[i];
                if "*?\\".contains(c) || t.chance(1, 20) {
                    p.push('\\');
                }
                p.push(c);
                i += 1;
            }
        }
    }
    if t.chance(1, 10) {
        p.push_str(*t.pick(&["*", "?", "x", "*a"]));
    }
    while p.matches(['*', '?']).count() > 20 {
        p.remove(p.find(['*', '?']).unwrap());
    }
    if p.chars().rev().take_while(|c| *c == '\\').count() % 2 == 1 {
        p.pop();
    }
    p
}

// ---- regular expressions

#[derive(Debug, Clone)]
pub enum Re {
    Lit(char),
    Any,
    Class(bool, Vec<char>),
    Group(usize, Box<Re>),
    Plain(Box<Re>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize, bool),
    Start,
    End,
}

const INF: usize = usize::MAX;

impl Re {
    pub fn text(&self) -> String {
        match self {
            Re::Lit(c) if ".*+?()[]{}|^$\\".contains(*c) => format!("\\{c}"),
            Re::Lit(c) => c.to_string(),
            Re::Any => ".".into(),
            Re::Class(not, cs) => format!("[{}{}]", if *not { "^" } else { "" }, cs.iter().collect::<String>()),
            Re::Group(_, r) => format!("({})", r.text()),
            Re::Plain(r) => format!("(?:{})", r.text()),
            Re::Cat(v) => v.iter().map(|r| r.text()).collect(),
            Re::Alt(v) => v.iter().map(|r| r.text()).collect::<Vec<_>>().join("|"),
            Re::Rep(r, a, b, lazy) => {
                let q = match (*a, *b) {
                    (0, INF) => "*".to_string(),
                    (1, INF) => "+".into(),
                    (0, 1) => "?".into(),
                    (a, INF) => format!("{{{a},}}"),
                    (a, b) if a == b => format!("{{{a}}}"),
                    (a, b) => format!("{{{a},{b}}}"),
                };
                format!("{}{q}{}", r.text(), if *lazy { "?" } else { "" })
            }
            Re::Start => "^".into(),
            Re::End => "$".into(),
        }
    }

    fn nullable(&self) -> bool {
        match self {
            Re::Lit(_) | Re::Any | Re::Class(..) => false,
            Re::Group(_, r) | Re::Plain(r) => r.nullable(),
            Re::Cat(v) => v.iter().all(|r| r.nullable()),
            Re::Alt(v) => v.iter().any(|r| r.nullable()),
            Re::Rep(r, a, ..) => *a == 0 || r.nullable(),
            Re::Start | Re::End => true,
        }
    }

    pub fn groups(&self) -> usize {
        match self {
            Re::Group(_, r) => 1 + r.groups(),
            Re::Plain(r) | Re::Rep(r, ..) => r.groups(),
            Re::Cat(v) | Re::Alt(v) => v.iter().map(|r| r.groups()).sum(),
            _ => 0,
        }
    }

    /// Whether the reference matcher gets through the value.
    pub fn feasible(&self, value: &str) -> bool {
        self.find(value);
        STEPS.with(|c| c.get()) <= MAX_STEPS
    }

    /// First match, backtracking.
    pub fn find(&self, value: &str) -> Option<Caps> {
        let s: Vec<char> = value.chars().collect();
        STEPS.with(|c| c.set(0));
        for i in 0..=s.len() {
            let mut caps = vec![None; self.groups() + 1];
            let mut end = None;
            if m(self, &s, i, &mut caps, &mut |e, c| {
                end = Some((e, c.clone()));
                true
            }) {
                let (e, mut c) = end.unwrap();
                c[0] = Some((i, e));
                return Some(c.into_iter().map(|x| x.map(|(a, b)| s[a..b].iter().collect())).collect());
            }
        }
        None
    }

    pub fn gen(t: &mut Tape, depth: usize, alpha: &[char], next: &mut usize) -> Re {
        let n = 1 + t.n(4);
        let mut v = vec![];
        for _ in 0..n {
            let a = match t.n(10) {
                0 if depth > 0 => {
                    *next += 1;
                    let id = *next;
                    Re::Group(id, Box::new(Re::alt(t, depth - 1, alpha, next)))
                }
                1 if depth > 0 => {
                    *next += 1;
                    let id = *next;
                    Re::Group(id, Box::new(Re::gen(t, depth - 1, alpha, next)))
                }
                2 if depth > 0 => Re::Plain(Box::new(Re::alt(t, depth - 1, alpha, next))),
                3 => Re::Any,
                4 => Re::Class(t.chance(1, 3), (0..1 + t.n(3)).map(|_| *t.pick(alpha)).collect()),
                5 if t.chance(1, 4) => {
                    if t.bool() {
                        Re::Start
                    } else {
                        Re::End
                    }
                }
                _ => Re::Lit(*t.pick(alpha)),
            };
            let a = if !a.nullable() && t.chance(1, 3) {
                let (x, y) = *t.pick(&[(0, INF), (1, INF), (0, 1), (2, 2), (1, 2), (0, 3), (2, INF)]);
                Re::Rep(Box::new(a), x, y, t.chance(1, 4))
            } else {
                a
            };
            v.push(a);
        }
        Re::Cat(v)
    }

    pub fn alt(t: &mut Tape, depth: usize, alpha: &[char], next: &mut usize) -> Re {
        Re::Alt((0..1 + t.n(3)).map(|_| Re::gen(t, depth, alpha, next)).collect())
    }
}

type C = Vec<Option<(usize, usize)>>;

thread_local!(static STEPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
const MAX_STEPS: u32 = 20_000;

fn m(r: &Re, s: &[char], i: usize, caps: &mut C, k: &mut dyn FnMut(usize, &mut C) -> bool) -> bool {
    let n = STEPS.with(|c| c.replace(c.get() + 1));
    if n > MAX_STEPS {
        return false;
    }
    match r {
        Re::Lit(c) => i < s.len() && s[i] == *c && k(i + 1, caps),
        Re::Any => i < s.len() && s[i] != '\n' && k(i + 1, caps),
        Re::Class(not, cs) => i < s.len() && cs.contains(&s[i]) != *not && k(i + 1, caps),
        Re::Start => i == 0 && k(i, caps),
        Re::End => i == s.len() && k(i, caps),
        Re::Plain(r) => m(r, s, i, caps, k),
        Re::Group(id, r) => {
            let old = caps[*id];
            let ok = m(r, s, i, caps, &mut |e, c| {
                let before = c[*id];
                c[*id] = Some((i, e));
                if k(e, c) {
                    return true;
                }
                c[*id] = before;
                false
            });
            if !ok {
                caps[*id] = old;
            }
            ok
        }
        Re::Cat(v) => cat(v, s, i, caps, k),
        Re::Alt(v) => v.iter().any(|r| m(r, s, i, caps, k)),
        Re::Rep(r, a, b, lazy) => rep(r, *a, *b, *lazy, s, i, caps, k),
    }
}

fn cat(v: &[Re], s: &[char], i: usize, caps: &mut C, k: &mut dyn FnMut(usize, &mut C) -> bool) -> bool {
    match v.split_first() {
        None => k(i, caps),
        Some((r, rest)) => m(r, s, i, caps, &mut |e, c| cat(rest, s, e, c, k)),
    }
}

#[allow(clippy::too_many_arguments)]
fn rep(r: &Re, a: usize, b: usize, lazy: bool, s: &[char], i: usize, caps: &mut C, k: &mut dyn FnMut(usize, &mut C) -> bool) -> bool {
    let dec = |x: usize| if x == INF { INF } else { x.saturating_sub(1) };
    if lazy && a == 0 && k(i, caps) {
        return true;
    }
    if b > 0 && m(r, s, i, caps, &mut |e, c| e > i && rep(r, a.saturating_sub(1), dec(b), lazy, s, e, c, k)) {
        return true;
    }
    !lazy && a == 0 && k(i, caps)
}

// ---- generators

pub struct Kinds {
    pub numeric: bool,
    pub count: bool,
    pub regex: bool,
    pub value: bool,
}

/// A test for values (all digits when `numeric`); `alpha` is what the values are made of.
pub fn test_for(t: &mut Tape, values: &[String], alpha: &[char], kinds: &Kinds, max_keys: usize) -> Test {
    let numeric = kinds.numeric && !values.is_empty() && values.iter().all(|v| is_num(v));
    let mk = match t.n(12) {
        0 | 1 => Mk::Is,
        2 | 3 => Mk::Contains,
        4 | 5 if kinds.regex => Mk::Regex,
        6 | 7 if kinds.value => Mk::Value(*t.pick(Rel::ALL)),
        8 if kinds.count => Mk::Count(*t.pick(Rel::ALL)),
        _ => Mk::Matches,
    };
    let mut cmp = if t.chance(1, 3) { Cmp::Octet } else { Cmp::Casemap };
    if numeric && matches!(mk, Mk::Is | Mk::Value(_)) && t.chance(2, 3) {
        cmp = Cmp::Numeric;
    }
    if matches!(mk, Mk::Count(_)) {
        cmp = *t.pick(&[Cmp::Casemap, Cmp::Numeric]);
    }
    let n = 1 + t.len(max_keys - 1);
    let keys = (0..n).map(|_| key_for(t, values, alpha, mk, cmp)).collect();
    Test { mk, cmp, show: t.chance(1, 4), keys }
}

pub fn is_num(v: &str) -> bool {
    !v.is_empty() && v.len() < 16 && v.bytes().all(|c| c.is_ascii_digit())
}

pub fn key_for(t: &mut Tape, values: &[String], alpha: &[char], mk: Mk, cmp: Cmp) -> Key {
    let mut s = if !values.is_empty() && t.chance(4, 5) { t.pick(values).clone() } else { (0..t.len(6)).map(|_| *t.pick(alpha)).collect() };
    let mut re = None;
    match (mk, cmp) {
        (Mk::Count(_), _) => s = t.n(values.len() + 3).to_string(),
        (_, Cmp::Numeric) => {
            s = match t.n(5) {
                0 => t.pick(&["0", "00", "5", "10", "9", "100", "4294967296", "007"]).to_string(),
                1 if is_num(&s) => format!("0{s}"),
                2 if is_num(&s) => (s.parse::<u64>().unwrap() + 1).to_string(),
                3 if is_num(&s) => s.parse::<u64>().unwrap().saturating_sub(1).to_string(),
                _ if is_num(&s) => s,
                _ => t.n(1000).to_string(),
            }
        }
        (Mk::Contains, _) => {
            let cs: Vec<char> = s.chars().collect();
            let a = t.n(cs.len() + 1);
            let b = a + t.n(cs.len() - a + 1);
            s = cs[a..b].iter().collect();
        }
        (Mk::Matches, _) => s = glob_for(t, &s),
        (Mk::Regex, _) => {
            let mut n = 0;
            let mut r = if t.chance(1, 4) { Re::alt(t, 2, alpha, &mut n) } else { Re::gen(t, 2, alpha, &mut n) };
            if !values.iter().all(|v| r.feasible(v)) {
                r = Re::Cat(vec![Re::Lit(alpha[0]), Re::Rep(Box::new(Re::Any), 0, INF, false), Re::Lit(alpha[0])]);
            }
            s = r.text();
            re = Some(r);
        }
        (Mk::Value(_), _) => match t.n(5) {
            0 => {
                s.pop();
            }
            1 => s.push(*t.pick(alpha)),
            _ => (),
        },
        _ => (),
    }
    if re.is_none() && t.chance(1, 5) {
        s = match t.n(3) {
            0 => s.to_ascii_uppercase(),
            1 => s.to_ascii_lowercase(),
            _ if mk != Mk::Matches && cmp != Cmp::Numeric && !matches!(mk, Mk::Count(_)) => {
                // one character changed
                let mut cs: Vec<char> = s.chars().collect();
                if !cs.is_empty() {
                    let i = t.n(cs.len());
                    cs[i] = *t.pick(alpha);
                }
                cs.into_iter().collect()
            }
            _ => s,
        };
    }
    Key { text: s, re }
}
