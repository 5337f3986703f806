//! Expression language: generator, printer and reference evaluator (written from the documented
//! operator semantics, on its own value type).
use crate::tape::Tape;
use sieve::runtime::Variable;
use std::cmp::Ordering;

#[derive(Debug, Clone)]
pub enum Val {
    I(i64),
    F(f64),
    S(String),
    A(Vec<Val>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Int(i64),
    Float(String),
    Str(String),
    Bool(bool),
    Var(String),
    Not(Box<E>),
    Neg(Box<E>),
    Bin(Op, Box<E>, Box<E>),
    Call(String, Vec<E>),
    Arr(Vec<E>),
    Idx(Box<E>, Box<E>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Mul,
    Div,
    Add,
    Sub,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Ne,
    Xor,
    And,
    Or,
}
pub const OPS: [Op; 13] = [
    Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne, Op::Xor,
    Op::And, Op::Or,
];

impl Op {
    pub fn prec(self) -> u8 {
        match self {
            Op::Mul | Op::Div => 7,
            Op::Add | Op::Sub => 6,
            Op::Lt | Op::Le | Op::Gt | Op::Ge => 5,
            Op::Eq | Op::Ne => 4,
            Op::Xor => 3,
            Op::And => 2,
            Op::Or => 1,
        }
    }
    fn text(self) -> &'static str {
        match self {
            Op::Mul => "*",
            Op::Div => "/",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Xor => "^",
            Op::And => "&&",
            Op::Or => "||",
        }
    }
}

impl Val {
    pub fn of(v: &Variable) -> Val {
        match v {
            Variable::String(s) => Val::S(s.to_string()),
            Variable::Integer(i) => Val::I(*i),
            Variable::Float(f) => Val::F(*f),
            Variable::Array(a) => Val::A(a.iter().map(Val::of).collect()),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Val::I(i) => i.to_string(),
            Val::F(f) => f.to_string(),
            Val::S(s) => s.clone(),
            Val::A(a) => a.iter().map(|v| v.text()).collect::<Vec<_>>().join("\n"),
        }
    }
    pub fn truth(&self) -> bool {
        match self {
            Val::I(i) => *i != 0,
            Val::F(f) => *f != 0.0,
            Val::S(s) => !s.is_empty(),
            Val::A(a) => !a.is_empty(),
        }
    }
    /// Identical value and type (NaN is identical to NaN).
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::I(a), Val::I(b)) => a == b,
            (Val::F(a), Val::F(b)) => a == b || (a.is_nan() && b.is_nan()),
            (Val::S(a), Val::S(b)) => a == b,
            (Val::A(a), Val::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
    pub fn num(&self) -> Val {
        match self {
            Val::S(s) => match s.parse::<i64>() {
                Ok(i) => Val::I(i),
                Err(_) => match s.parse::<f64>() {
                    Ok(f) => Val::F(f),
                    Err(_) => Val::I(0),
                },
            },
            Val::A(a) => Val::I(a.is_empty() as i64),
            v => v.clone(),
        }
    }
    /// Size as counted against the maximum variable size.
    pub fn size(&self) -> usize {
        match self {
            Val::S(s) => s.len(),
            Val::I(_) | Val::F(_) => 2,
            Val::A(a) => a.iter().map(|v| v.size() + 2).sum(),
        }
    }
}

fn f(v: &Val) -> f64 {
    match v {
        Val::I(i) => *i as f64,
        Val::F(x) => *x,
        _ => unreachable!(),
    }
}

pub fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::I(a), Val::I(b)) => a == b,
        (Val::S(a), Val::S(b)) => a == b,
        (Val::A(a), Val::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| val_eq(x, y)),
        (Val::A(_), _) | (_, Val::A(_)) => false,
        (Val::S(_), n) => val_eq(&a.num(), n),
        (n, Val::S(_)) => val_eq(n, &b.num()),
        (a, b) => f(a) == f(b),
    }
}

/// None: unordered (NaN).
pub fn val_cmp(a: &Val, b: &Val) -> Option<Ordering> {
    match (a, b) {
        (Val::I(a), Val::I(b)) => Some(a.cmp(b)),
        (Val::S(a), Val::S(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
        (Val::A(_), _) | (_, Val::A(_)) => None,
        (Val::S(_), n) => val_cmp(&a.num(), n),
        (n, Val::S(_)) => val_cmp(n, &b.num()),
        (a, b) => f(a).partial_cmp(&f(b)),
    }
}

fn b(v: bool) -> Val {
    Val::I(v as i64)
}

pub fn arith(op: Op, l: Val, r: Val) -> Val {
    if op == Op::Add {
        match (&l, &r) {
            (Val::A(x), Val::A(y)) => return Val::A(x.iter().chain(y).cloned().collect()),
            (Val::A(x), _) => return Val::A(x.iter().cloned().chain([r]).collect()),
            (_, Val::A(y)) => return Val::A([l].into_iter().chain(y.iter().cloned()).collect()),
            (Val::S(x), _) => {
                return if x.is_empty() { r } else { Val::S(format!("{}{}", x, r.text())) }
            }
            (_, Val::S(y)) => {
                return if y.is_empty() { l } else { Val::S(format!("{}{}", l.text(), y)) }
            }
            _ => {}
        }
    }
    match op {
        Op::Add | Op::Sub | Op::Mul | Op::Div => {}
        Op::Lt => return b(val_cmp(&l, &r) == Some(Ordering::Less)),
        Op::Le => return b(matches!(val_cmp(&l, &r), Some(Ordering::Less | Ordering::Equal))),
        Op::Gt => return b(val_cmp(&l, &r) == Some(Ordering::Greater)),
        Op::Ge => return b(matches!(val_cmp(&l, &r), Some(Ordering::Greater | Ordering::Equal))),
        Op::Eq => return b(val_eq(&l, &r)),
        Op::Ne => return b(!val_eq(&l, &r)),
        Op::Xor => return b(l.truth() != r.truth()),
        Op::And => return b(l.truth() && r.truth()),
        Op::Or => return b(l.truth() || r.truth()),
    }
    if op == Op::Sub {
        if let Val::A(x) = &l {
            return Val::A(x.iter().filter(|v| !val_eq(v, &r)).cloned().collect());
        }
    }
    let (l, r) = (l.num(), r.num());
    match (op, &l, &r) {
        (Op::Add, Val::I(x), Val::I(y)) => Val::I(sat(*x as i128 + *y as i128)),
        (Op::Sub, Val::I(x), Val::I(y)) => Val::I(sat(*x as i128 - *y as i128)),
        (Op::Mul, Val::I(x), Val::I(y)) => Val::I(sat(*x as i128 * *y as i128)),
        (Op::Add, _, _) => Val::F(f(&l) + f(&r)),
        (Op::Sub, _, _) => Val::F(f(&l) - f(&r)),
        (Op::Mul, _, _) => Val::F(f(&l) * f(&r)),
        _ => {
            if f(&r) == 0.0 {
                Val::F(0.0)
            } else {
                Val::F(f(&l) / f(&r))
            }
        }
    }
}

fn sat(v: i128) -> i64 {
    v.clamp(i64::MIN as i128, i64::MAX as i128) as i64
}

pub trait Env {
    fn var(&mut self, name: &str) -> Val;
    fn call(&mut self, name: &str, args: Vec<Val>) -> Val;
}

pub fn eval(e: &E, env: &mut dyn Env) -> Val {
    match e {
        E::Int(i) => Val::I(*i),
        E::Float(s) => Val::F(s.parse().unwrap()),
        E::Str(s) => Val::S(s.clone()),
        E::Bool(v) => b(*v),
        E::Var(n) => env.var(n),
        E::Not(e) => b(!eval(e, env).truth()),
        E::Neg(e) => match eval(e, env).num() {
            Val::I(i) => Val::I(sat(-(i as i128))),
            Val::F(x) => Val::F(-x),
            _ => unreachable!(),
        },
        E::Bin(Op::And, l, r) => {
            let l = eval(l, env);
            if !l.truth() {
                l
            } else {
                let r = eval(r, env);
                b(r.truth())
            }
        }
        E::Bin(Op::Or, l, r) => {
            let l = eval(l, env);
            if l.truth() {
                l
            } else {
                let r = eval(r, env);
                b(r.truth())
            }
        }
        E::Bin(op, l, r) => {
            let l = eval(l, env);
            let r = eval(r, env);
            arith(*op, l, r)
        }
        E::Call(n, args) => {
            let a = args.iter().map(|a| eval(a, env)).collect();
            env.call(n, a)
        }
        E::Arr(items) => Val::A(items.iter().map(|a| eval(a, env)).collect()),
        E::Idx(base, i) => {
            let base = eval(base, env);
            let i = eval(i, env);
            let arr = match base {
                Val::A(a) => a,
                v => {
                    if matches!(&v, Val::S(s) if s.is_empty()) {
                        vec![]
                    } else {
                        vec![v]
                    }
                }
            };
            let i = match i {
                Val::I(i) if i >= 0 => i as usize,
                _ => usize::MAX,
            };
            arr.get(i).cloned().unwrap_or(Val::S(String::new()))
        }
    }
}

fn prec(e: &E) -> u8 {
    match e {
        E::Bin(op, ..) => op.prec(),
        E::Not(_) | E::Neg(_) => 8,
        _ => 9,
    }
}

pub struct Style {
    /// 0: minimal parentheses, 1: some, 2: everything parenthesised
    pub parens: u8,
    pub spaces: u8,
}

fn sp(t: &mut Tape, st: &Style, out: &mut String) {
    if st.spaces == 0 {
        return;
    }
    match t.n(6) {
        0..=2 => out.push(' '),
        3 => {}
        4 => out.push_str("  "),
        _ => out.push_str(if st.spaces > 1 { "\r\n " } else { " " }),
    }
}

pub fn print_str(s: &str, t: &mut Tape, out: &mut String) {
    let q = if t.bool() { '"' } else { '\'' };
    out.push(q);
    for c in s.chars() {
        match c {
            '\\' => out.push_str("\\\\"),
            '\t' => out.push_str("\\t"),
            '\n' if t.bool() => out.push_str("\\n"),
            '\r' if t.bool() => out.push_str("\\r"),
            c if c == q => {
                out.push('\\');
                out.push(c)
            }
            // an escape before any other character is that character
            c if matches!(c, 'a' | 'z' | '!' | '"' | '\'') && t.chance(1, 6) => {
                out.push('\\');
                out.push(c)
            }
            c => out.push(c),
        }
    }
    out.push(q);
}

pub fn print(e: &E, t: &mut Tape, st: &Style) -> String {
    let mut o = String::new();
    print_in(e, 0, t, st, &mut o);
    o
}

fn print_in(e: &E, min: u8, t: &mut Tape, st: &Style, o: &mut String) {
    let need = prec(e) < min;
    let extra = match st.parens {
        0 => false,
        1 => t.chance(1, 8),
        _ => prec(e) < 9,
    };
    // array access is only defined directly after a variable or a call
    let n = need as usize + (extra as usize);
    for _ in 0..n {
        o.push('(');
        sp(t, st, o);
    }
    match e {
        E::Int(i) => o.push_str(&i.to_string()),
        E::Float(s) => o.push_str(s),
        E::Str(s) => print_str(s, t, o),
        E::Bool(v) => o.push_str(if *v { "true" } else { "false" }),
        E::Var(n) => {
            if t.chance(1, 6) {
                o.push_str(&n.to_uppercase())
            } else {
                o.push_str(n)
            }
        }
        E::Not(x) => {
            o.push('!');
            sp(t, st, o);
            print_in(x, 8, t, st, o);
        }
        E::Neg(x) => {
            o.push('-');
            sp(t, st, o);
            print_in(x, 8, t, st, o);
        }
        E::Bin(op, l, r) => {
            print_in(l, op.prec(), t, st, o);
            sp(t, st, o);
            let alias = t.chance(1, 8);
            o.push_str(match op {
                Op::Le if alias => "=<",
                Op::Ge if alias => "=>",
                op => op.text(),
            });
            sp(t, st, o);
            print_in(r, op.prec() + 1, t, st, o);
        }
        E::Call(name, args) => {
            o.push_str(name);
            o.push('(');
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    sp(t, st, o);
                }
                print_in(a, 0, t, st, o);
            }
            sp(t, st, o);
            o.push(')');
        }
        E::Arr(items) => {
            o.push('[');
            sp(t, st, o);
            for (i, a) in items.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    sp(t, st, o);
                }
                print_in(a, 0, t, st, o);
            }
            o.push(']');
        }
        E::Idx(base, i) => {
            print_in(base, 0, t, &Style { parens: 0, spaces: st.spaces }, o);
            o.push('[');
            sp(t, st, o);
            print_in(i, 0, t, st, o);
            o.push(']');
        }
    }
    for _ in 0..n {
        sp(t, st, o);
        o.push(')');
    }
}

pub fn depth(e: &E) -> usize {
    match e {
        E::Not(x) | E::Neg(x) => 1 + depth(x),
        E::Bin(_, l, r) | E::Idx(l, r) => 1 + depth(l).max(depth(r)),
        E::Call(_, a) | E::Arr(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn count(e: &E, f: &mut dyn FnMut(&E)) {
    f(e);
    match e {
        E::Not(x) | E::Neg(x) => count(x, f),
        E::Bin(_, l, r) | E::Idx(l, r) => {
            count(l, f);
            count(r, f)
        }
        E::Call(_, a) | E::Arr(a) => a.iter().for_each(|e| count(e, f)),
        _ => {}
    }
}

/// What a generated expression may refer to.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Scalar,
    Array,
}

pub struct Scope {
    pub scalars: Vec<String>,
    pub arrays: Vec<String>,
    /// name, number of arguments
    pub functions: Vec<(String, usize)>,
    pub arrays_allowed: bool,
}

pub const STR_ALPHA: &[&str] = &[
    "a", "b", "z", "0", "1", "7", " ", ".", "-", "'", "\"", "\\", "é", "n", "r", "t", "}", "{",
    "\r\n", "\t", "[", "(", "&", "\u{1F600}", "!",
];

pub fn gen_text(t: &mut Tape) -> String {
    match t.n(6) {
        0 => String::new(),
        1 => t.pick(&["1", "0", "10", "-3", "2.5", "007", "9223372036854775807", "1e3", "abc"]).to_string(),
        2 => t.pick(&["a", "b", "ab", "ext", "true"]).to_string(),
        _ => t.string_of(STR_ALPHA, 8),
    }
}

pub fn gen(t: &mut Tape, sc: &Scope, fuel: usize) -> E {
    let leaf = fuel == 0;
    let w = if leaf {
        [5, 1, 3, 1, 6, 0, 0, 0, 0, 0, 0]
    } else {
        [2, 1, 2, 1, 3, 2, 2, 14, if sc.functions.is_empty() { 0 } else { 4 }, 2, 2]
    };
    match t.weighted(&w) {
        0 => E::Int(match t.n(4) {
            0 => t.below(4) as i64,
            1 => t.below(100) as i64,
            2 => *t.pick(&[i64::MAX, i64::MAX - 1, 1 << 53, (1 << 53) + 1, 4294967296]),
            _ => t.below(i64::MAX as u64) as i64,
        }),
        1 => E::Float(
            t.pick(&["0.5", "1.0", "2.25", "0.0", "10.25", "123456.789", "3.0", ".5", "99999999999999999999.0"])
                .to_string(),
        ),
        2 => E::Str(gen_text(t)),
        3 => E::Bool(t.bool()),
        4 => {
            if sc.scalars.is_empty() {
                E::Int(1)
            } else {
                E::Var(t.pick(&sc.scalars).clone())
            }
        }
        5 => E::Not(gen(t, sc, fuel - 1).into()),
        6 => E::Neg(gen(t, sc, fuel - 1).into()),
        7 => {
            let op = *t.pick(&OPS);
            let l = gen(t, sc, fuel - 1);
            let r = gen(t, sc, fuel - 1);
            E::Bin(op, l.into(), r.into())
        }
        8 => {
            let (n, a) = t.pick(&sc.functions).clone();
            let args = (0..a).map(|_| gen(t, sc, fuel - 1)).collect();
            E::Call(n, args)
        }
        9 if sc.arrays_allowed => {
            // arrays are compared, indexed and tested
            if !sc.arrays.is_empty() && t.bool() {
                let b = E::Var(t.pick(&sc.arrays).clone());
                let i = match t.n(3) {
                    0 => E::Int(t.below(4) as i64),
                    1 => E::Bin(Op::Add, E::Int(t.below(2) as i64).into(), E::Int(t.below(3) as i64).into()),
                    _ => E::Bool(t.bool()),
                };
                E::Idx(b.into(), i.into())
            } else {
                let l = gen_array(t, sc, fuel - 1);
                match t.n(3) {
                    0 => E::Not(l.into()),
                    1 => E::Bin(*t.pick(&[Op::Eq, Op::Ne]), l.into(), gen_array(t, sc, fuel - 1).into()),
                    _ => E::Bin(*t.pick(&[Op::And, Op::Or, Op::Xor]), E::Not(l.into()).into(), gen(t, sc, fuel - 1).into()),
                }
            }
        }
        10 if !sc.scalars.is_empty() => {
            let b = E::Var(t.pick(&sc.scalars).clone());
            E::Idx(b.into(), E::Int(t.below(2) as i64).into())
        }
        _ => E::Int(1),
    }
}

pub fn gen_array(t: &mut Tape, sc: &Scope, fuel: usize) -> E {
    match t.n(if fuel == 0 { 2 } else { 6 }) {
        0 => E::Arr((0..t.n(4)).map(|_| gen(t, sc, 0)).collect()),
        1 if !sc.arrays.is_empty() => E::Var(t.pick(&sc.arrays).clone()),
        1 => E::Arr(vec![]),
        2 => E::Arr((0..1 + t.n(3)).map(|_| gen(t, sc, fuel - 1)).collect()),
        3 => E::Bin(Op::Add, gen_array(t, sc, fuel - 1).into(), gen_array(t, sc, fuel - 1).into()),
        4 => {
            // everything equal to the item is taken away
            let few = |t: &mut Tape| match t.n(5) {
                0 => E::Str(t.pick(&["", "1", "a"]).to_string()),
                1 => E::Float("1.0".into()),
                _ => E::Int(t.below(3) as i64),
            };
            let a = if t.chance(2, 3) { E::Arr((0..t.n(6)).map(|_| few(t)).collect()) } else { gen_array(t, sc, fuel - 1) };
            let s = if t.chance(3, 4) { few(t) } else { gen(t, sc, fuel - 1) };
            E::Bin(Op::Sub, a.into(), s.into())
        }
        _ => {
            let s = gen(t, sc, fuel - 1);
            let a = gen_array(t, sc, fuel - 1);
            if t.bool() {
                E::Bin(Op::Add, a.into(), s.into())
            } else {
                E::Bin(Op::Add, s.into(), a.into())
            }
        }
    }
}

/// A Sieve quoted string holding the text of an expression.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}
