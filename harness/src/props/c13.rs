//! Expressions evaluate to their mathematical value.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::expr::*;
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{runtime::Variable, Compiler, Event, FunctionMap, Runtime};
use std::collections::BTreeMap;

pub fn functions() -> FunctionMap {
    FunctionMap::new()
        .with_external_function("ext_zero", 0, 0)
        .with_function("ident", |_, mut v| v.remove(0))
        .with_external_function("ext_one", 1, 1)
        .with_function_no_args("answer", |_, _| Variable::from(42i64))
        .with_external_function("ext_two", 2, 2)
        .with_function_args(
            "glue",
            |_, v| Variable::from(format!("<{}|{}>", v[0].to_string(), v[1].to_string())),
            2,
        )
        .with_function_args("second", |_, v| v[1].clone(), 3)
        .with_external_function("ext_true", 3, 1)
        .with_external_function("ext_false", 4, 2)
}

pub fn function_list() -> Vec<(String, usize)> {
    [
        ("ident", 1), ("answer", 0), ("glue", 2), ("second", 3), ("ext_zero", 0), ("ext_one", 1),
        ("ext_two", 2), ("ext_true", 1), ("ext_false", 2),
    ]
    .iter()
    .map(|(n, a)| (n.to_string(), *a))
    .collect()
}

pub fn call_model(name: &str, mut a: Vec<Val>) -> Val {
    match name {
        "ident" => a.remove(0),
        "answer" => Val::I(42),
        "glue" => Val::S(format!("<{}|{}>", a[0].text(), a[1].text())),
        "second" => a.remove(1),
        "ext_zero" => Val::S("ext".into()),
        "ext_one" => a.remove(0),
        "ext_two" => Val::S(format!("{}|{}", a[0].text(), a[1].text())),
        "ext_true" => Val::I(1),
        "ext_false" => Val::I(0),
        _ => unreachable!(),
    }
}

fn ext_id(n: &str) -> Option<u32> {
    match n {
        "ext_zero" => Some(0),
        "ext_one" => Some(1),
        "ext_two" => Some(2),
        "ext_true" => Some(3),
        "ext_false" => Some(4),
        _ => None,
    }
}

struct M {
    vars: BTreeMap<String, Val>,
    calls: Vec<(u32, Vec<Val>)>,
}
impl Env for M {
    fn var(&mut self, n: &str) -> Val {
        self.vars.get(n).cloned().unwrap_or(Val::S(String::new()))
    }
    fn call(&mut self, n: &str, a: Vec<Val>) -> Val {
        if let Some(id) = ext_id(n) {
            self.calls.push((id, a.clone()));
        }
        call_model(n, a)
    }
}

fn setup() -> (Compiler, Runtime) {
    let mut fm = functions();
    let c = full_compiler().register_functions(&mut fm);
    let rt = full_runtime().with_functions(&mut fm).either_max_variable_size(1 << 16);
    (c, rt)
}

fn run(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let (c, rt) = setup();
    let mut m = M { vars: BTreeMap::new(), calls: vec![] };
    let mut src = String::from("require [\"variables\", \"include\", \"vnd.stalwart.expressions\", \"fileinto\"];\n");
    let mut sc = Scope { scalars: vec![], arrays: vec![], functions: function_list(), arrays_allowed: true };
    let mut names = vec![];
    // operands
    let nv = 1 + t.n(5);
    for i in 0..nv {
        let local = t.chance(1, 4);
        let name = format!("{}{}", if local { "l" } else { "g" }, ["a", "b_1", "c", "long_name", "E"][i]);
        if !local {
            src.push_str(&format!("global \"{name}\";\n"));
        }
        let v = match t.n(6) {
            0 => {
                // assigned by set: a text, a canonical number text is a number
                let s = t.pick(&["0", "7", "-12", "hello", "", "9223372036854775807", "2.5"]).to_string();
                src.push_str(&format!("set \"{name}\" {};\n", quote(&s)));
                match s.as_str() {
                    "0" | "7" | "-12" | "9223372036854775807" => Val::I(s.parse().unwrap()),
                    "2.5" => Val::F(2.5),
                    _ => Val::S(s),
                }
            }
            1 => {
                let s = gen_text(t);
                let mut e = String::new();
                print_str(&s, t, &mut e);
                src.push_str(&format!("let \"{name}\" {};\n", quote(&e)));
                Val::S(s)
            }
            2 | 3 => {
                let i = t.i64_interesting();
                let i = if i == i64::MIN { i + 1 } else { i };
                src.push_str(&format!("let \"{name}\" \"{i}\";\n"));
                Val::I(i)
            }
            4 => {
                let (s, f) = *t.pick(&[("0.0", 0.0), ("1.5", 1.5), ("-2.25", -2.25), ("1 / 3", 1.0 / 3.0), ("10 / 0", 0.0)]);
                src.push_str(&format!("let \"{name}\" \"{s}\";\n"));
                Val::F(f)
            }
            _ => Val::S(String::new()), // never assigned
        };
        if local && matches!(&v, Val::S(s) if s.is_empty()) && !src.contains(&format!("\"{name}\"")) {
            // an unknown local name does not compile in an expression
            src.push_str(&format!("set \"{name}\" \"\";\n"));
        }
        m.vars.insert(name.clone(), v);
        sc.scalars.push(name.clone());
        names.push(name);
    }
    // names compare without case; "gE" is printed in either case
    let m_lower: BTreeMap<_, _> = m.vars.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
    m.vars = m_lower;
    sc.scalars.iter_mut().for_each(|s| *s = s.to_lowercase());
    let style = Style { parens: t.n(3) as u8, spaces: t.n(3) as u8 };
    let mut expected: Vec<(String, Val)> = vec![];
    let mut stmts = vec![];
    let ns = 1 + t.n(4);
    let mut maxd = 0;
    let mut ops = 0;
    for i in 0..ns {
        let fuel = t.n(5);
        let arr = t.chance(1, 5);
        let mut e = if arr { gen_array(t, &sc, fuel.min(3)) } else { gen(t, &sc, fuel) };
        if t.chance(1, 10) && !arr {
            // explicit access to a literal or a call result
            let a = gen_array(t, &sc, 1);
            let a = match a {
                a @ (E::Arr(_) | E::Var(_)) => a,
                a => E::Call("ident".into(), vec![a]),
            };
            e = E::Bin(Op::Add, E::Idx(a.into(), E::Int(t.below(3) as i64).into()).into(), e.into());
        }
        maxd = maxd.max(depth(&e));
        count(&e, &mut |x| {
            if let E::Bin(op, ..) = x {
                ops += 1;
                rep.label(&format!("{op:?}"));
            }
            if let E::Call(n, _) = x {
                rep.label(if n.starts_with("ext") { "external" } else { "internal" });
            }
        });
        let text = print(&e, t, &style);
        let kind = if arr { 0 } else { t.n(6) };
        let name = format!("r{i}");
        match kind {
            0..=2 => {
                src.push_str(&format!("global \"{name}\";\nlet \"{name}\" {};\n", quote(&text)));
                let v = eval(&e, &mut m);
                if v.size() > 60000 {
                    return Ok(());
                }
                m.vars.insert(name.clone(), v.clone());
                expected.push((name.clone(), v.clone()));
                if matches!(v, Val::A(_)) { sc.arrays.push(name) } else { sc.scalars.push(name) }
            }
            3 => {
                src.push_str(&format!(
                    "global \"{name}\";\nif eval {} {{ set \"{name}\" \"yes\"; }} else {{ set \"{name}\" \"no\"; }}\n",
                    quote(&text)
                ));
                let v = eval(&e, &mut m);
                expected.push((name, Val::S(if v.truth() { "yes" } else { "no" }.into())));
            }
            4 => {
                // nested in tests, negated, next to other tests
                let shape = t.n(4);
                let q = quote(&text);
                let cond = match shape {
                    0 => format!("not eval {q}"),
                    1 => format!("allof(true, eval {q})"),
                    2 => format!("anyof(false, not eval {q}, eval \"0\")"),
                    _ => format!("not allof(eval {q}, true)"),
                };
                src.push_str(&format!(
                    "global \"{name}\";\nif {cond} {{ set \"{name}\" \"yes\"; }} else {{ set \"{name}\" \"no\"; }}\n"
                ));
                let v = eval(&e, &mut m).truth();
                let v = if shape == 1 { v } else { !v };
                expected.push((name, Val::S(if v { "yes" } else { "no" }.into())));
            }
            _ => {
                // as text, through a string
                src.push_str(&format!(
                    "global \"{name}\";\nlet \"tmp{i}\" {};\nset \"{name}\" \"[${{tmp{i}}}]\";\n",
                    quote(&text)
                ));
                let v = eval(&e, &mut m);
                if v.size() > 60000 {
                    return Ok(());
                }
                expected.push((name, Val::S(format!("[{}]", v.text()))));
            }
        }
        stmts.push(text);
    }
    src.push_str("keep;\n");
    rep.desc = src.clone();
    rep.label(&format!("depth {}", maxd.min(6)));
    rep.nontrivial_if(ops >= 2);
    rep.label_if(!m.calls.is_empty(), "host called");

    let script = compile(&c, &src)?;
    let mut ctx = rt.filter(b"From: a@b.org\r\nSubject: x\r\n\r\nbody\r\n");
    let tr = drive(&mut ctx, script, &mut Host::new());
    // the host is asked for exactly the calls that are evaluated, in order, with their arguments
    let mut calls = vec![];
    for it in &tr.items {
        match it {
            Item::Ev(Event::Function { id, arguments }) => {
                calls.push((*id, arguments.iter().map(Val::of).collect::<Vec<_>>()))
            }
            Item::Ev(Event::Keep { .. }) => {}
            x => return fail("event", format!("unexpected {x:?}")),
        }
    }
    if calls.len() != m.calls.len()
        || calls.iter().zip(&m.calls).any(|((i, a), (j, b))| i != j || a.len() != b.len() || a.iter().zip(b).any(|(x, y)| !x.same(y)))
    {
        return fail("calls", format!("host calls {calls:?}\nexpected {:?}", m.calls));
    }
    for (n, v) in expected {
        let got = ctx.global_variable(&n).map(Val::of);
        let got = got.unwrap_or(Val::S(String::new()));
        if !got.same(&v) {
            return fail("value", format!("{n} = {got:?}, expected {v:?}"));
        }
    }
    Ok(())
}

fn check_expr(expr: &str, want: Val) -> CaseResult {
    let (c, rt) = setup();
    let src = format!(
        "require [\"variables\", \"include\", \"vnd.stalwart.expressions\"];\nglobal \"r\";\nlet \"r\" {};\n",
        quote(expr)
    );
    let s = compile(&c, &src)?;
    let mut ctx = rt.filter(b"Subject: x\r\n\r\nbody\r\n");
    drive(&mut ctx, s, &mut Host::new());
    let got = ctx.global_variable("r").map(Val::of).unwrap_or(Val::S("".into()));
    if !got.same(&want) {
        return fail("value", format!("{expr} = {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        quick: 2_500_000,
        thorough: 60_000_000,
        run,
        pinned: || {
            vec![
                ("neg-min", Box::new(|| check_expr("-(-9223372036854775807 - 1)", Val::I(i64::MAX)))),
                ("string-escape", Box::new(|| check_expr("'a\\\\b'", Val::S("a\\b".into())))),
                ("unary-after-unary", Box::new(|| check_expr("!-1", Val::I(0)))),
                ("unary-in-array", Box::new(|| check_expr("[-1, (2)]", Val::A(vec![Val::I(-1), Val::I(2)])))),
            ]
        },
        rule: "the case contains at least two binary operators",
        assumptions: &[
            "the host answers external functions as the harness's fixed functions do",
            "ordering comparisons are generated on scalars; arrays only with +, ==, !=, indexing and truth value",
        ],
    }
}
