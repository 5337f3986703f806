//! Properties decided with the language model: C05, C06, C08, C14, C16.
#[allow(unused_imports)]
use crate::setters::{CompilerSet, RuntimeSet};
use crate::drive::*;
use crate::expr::Val;
use crate::model::*;
use crate::pin::*;
use crate::props::c13;
use crate::report::*;
use crate::runner::Prop;
use crate::tape::Tape;
use sieve::{runtime::Variable, Compiler, Context, Runtime, Sieve};
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Built {
    pub rt: Runtime,
    pub main: Arc<Sieve>,
    pub host: Host,
}

pub fn compiler() -> (Compiler, Runtime) {
    let mut fm = c13::functions();
    let c = full_compiler()
        .register_functions(&mut fm)
        .either_max_includes(1000)
        .either_max_nested_blocks(30)
        .either_max_nested_tests(40)
        .either_max_local_variables(250);
    let rt = full_runtime().with_functions(&mut fm);
    (c, rt)
}

pub fn build(w: &World, cpu: usize) -> Result<Built, Failure> {
    let (c, rt) = compiler();
    let rt = rt
        .either_cpu_limit(cpu)
        .either_max_redirects(w.max_redirects)
        .either_max_out_messages(w.max_out)
        .either_max_nested_includes(w.max_nested)
        .either_max_variable_size(w.max_var)
        .either_max_received_headers(w.max_received);
    let mut host = Host::new();
    for ((g, n), p) in &w.progs {
        host.includes.insert((*g, n.clone()), compile(&c, &p.text)?);
    }
    host.mailboxes = w.mailboxes.clone();
    Ok(Built { rt, main: compile(&c, &w.main.text)?, host })
}

pub fn context<'x>(w: &'x World, b: &'x Built) -> Context<'x> {
    let mut ctx = b.rt.filter(&w.message).with_user_address(w.user_address.clone());
    for (k, v) in &w.globals0 {
        ctx.set_global_variable(k.clone(), Variable::from(v.clone()));
    }
    ctx
}

pub fn globals_of(ctx: &Context<'_>) -> BTreeMap<String, Val> {
    ctx.global_variable_names()
        .map(|n| n.to_string())
        .collect::<Vec<_>>()
        .into_iter()
        .map(|n| (n.clone(), Val::of(ctx.global_variable(&n).unwrap())))
        .collect()
}

fn check(t: &mut Tape, rep: &mut Report, p: Profile, nontrivial: fn(&Interp) -> bool) -> CaseResult {
    let mut g = Gen::new(t, p);
    let w = g.world();
    rep.desc = w.describe();
    let mut i = Interp::new(&w);
    i.run();
    if i.overrun {
        rep.label("skipped: too many steps");
        return Ok(());
    }
    if i.excluded {
        rep.label("skipped: known finding string-last-key");
        return Ok(());
    }
    for (k, v) in &i.executed {
        *rep.labels.entry(k.to_string()).or_default() += v;
    }
    rep.nontrivial_if(nontrivial(&i));
    let b = build(&w, 1 << 30)?;
    let mut host = b.host.clone();
    let mut ctx = context(&w, &b);
    let tr = drive(&mut ctx, b.main.clone(), &mut host);
    let got: Vec<String> = tr.items.iter().map(norm).collect();
    let d = diff(&i.events, &got);
    let gl = globals_of(&ctx);
    for (n, v) in &gl {
        if !matches!(v, Val::A(_)) && v.size() > w.max_var && !w.globals0.contains_key(n) {
            return fail("variable-size", format!("{n} is {} octets long, the limit is {}", v.size(), w.max_var));
        }
    }
    if i.fuzzy {
        rep.label("truncated inside a modifier");
        return Ok(());
    }
    if let Some(d) = d {
        return fail("events", d);
    }
    for (n, v) in &i.globals {
        let x = gl.get(n).cloned().unwrap_or(Val::S(String::new()));
        if !x.same(v) {
            return fail("global", format!("after the run, {n} = {x:?}, expected {v:?}"));
        }
    }
    for (n, v) in &gl {
        if !i.globals.contains_key(n) && !v.text().is_empty() {
            return fail("global", format!("after the run, {n} = {v:?}, never assigned"));
        }
    }
    Ok(())
}

fn c05(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut p = Profile::base();
    p.w_if = 6;
    p.w_while = 4;
    p.w_for = 4;
    p.w_break = 5;
    p.max_parts = 6;
    p.w_set = 2;
    p.test_depth = 3;
    p.w_hasflag = 1;
    if t.chance(1, 4) {
        // stop, break and return from several scripts deep
        p.n_includes = 2;
        p.w_include = 4;
        p.w_return = 1;
        p.w_stop = 2;
    }
    check(t, rep, p, |i| {
        let n = |k| i.executed.get(k).copied().unwrap_or(0);
        n("while iteration") + n("part visited") > 0 && n("break taken") + n("continue taken") + n("labelled break taken") + n("elsif branch") > 0
    })
}

fn c06(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut p = Profile::base();
    p.w_if = 4;
    p.w_marker = 1;
    p.w_keep = 4;
    p.w_discard = 3;
    p.w_file = 5;
    p.w_redirect = 4;
    p.w_reject = 1;
    p.w_error = 1;
    p.w_flag = 2;
    p.w_include = 2;
    p.w_return = 1;
    p.n_includes = 2;
    p.max_depth = 2;
    p.test_depth = 1;
    p.w_setenv = 1;
    p.w_edit = 2;
    check(t, rep, p, |i| {
        ["keep", "discard", "redirected", "redirect refused"].iter().filter(|k| i.executed.contains_key(*k)).count() >= 2
    })
}

fn c08(t: &mut Tape, rep: &mut Report) -> CaseResult {
    if t.chance(1, 5) {
        rep.label("argument from a variable");
        return super::places::case(t, rep);
    }
    let mut p = Profile::base();
    p.w_if = 4;
    p.w_set = 12;
    p.w_let = 3;
    p.w_while = 1;
    p.w_for = 1;
    p.w_break = 1;
    p.max_parts = 3;
    p.w_modifiers = 1;
    p.w_include = 1;
    p.n_includes = 1;
    p.w_setenv = 1;
    p.w_flag = 1;
    p.w_hasflag = 1;
    p.w_capt = 2;
    p.unicode = true;
    p.long_values = t.chance(1, 2);
    check(t, rep, p, |i| i.executed.get("modifier").copied().unwrap_or(0) > 1)
}

fn c14(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut p = Profile::base();
    p.w_if = 5;
    p.w_flag = 14;
    p.w_hasflag = 8;
    p.w_keep = 2;
    p.w_file = 3;
    p.w_set = 2;
    p.w_eval = 0;
    p.w_let = 0;
    p.w_capt = 0;
    p.max_depth = 3;
    p.n_includes = 1;
    p.w_include = 1;
    check(t, rep, p, |i| i.executed.get("flag action").copied().unwrap_or(0) > 1)
}

fn c16(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut p = Profile::base();
    p.w_include = 8;
    p.n_includes = 3;
    p.w_return = 2;
    p.w_capt = 2;
    p.w_set = 5;
    p.w_keep = 1;
    p.w_discard = 1;
    p.w_while = 1;
    p.w_for = 1;
    p.w_break = 1;
    p.max_parts = 3;
    p.max_depth = 3;
    check(t, rep, p, |i| i.executed.get("included").copied().unwrap_or(0) > 1)
}

fn c04(t: &mut Tape, rep: &mut Report) -> CaseResult {
    let mut p = Profile::base();
    p.w_if = 4;
    p.w_while = 3;
    p.w_for = 2;
    p.w_break = 2;
    p.max_parts = 3;
    p.w_include = 3;
    p.n_includes = 2;
    p.w_keep = 2;
    p.w_discard = 1;
    p.w_file = 2;
    p.w_redirect = 1;
    p.w_reject = 1;
    p.w_error = 1;
    p.w_flag = 2;
    p.w_setenv = 1;
    p.max_depth = 3;
    let flat = t.chance(1, 4);
    if flat {
        // every statement is one instruction
        p.max_depth = 0;
        p.max_stmts = 12;
        p.w_edit = 2;
        p.w_include = 6;
        p.w_set = 3;
        p.w_let = 0;
        p.w_eval = 0;
    }
    let endless = !flat && t.chance(1, 4);
    let mut w = Gen::new(t, p).world();
    if endless {
        w.main.text.push_str(t.pick(&[
            "while \"true\" { fileinto :copy \"endless\"; }\n",
            "while \"true\" { if mailboxexists \"endless\" { stop; } }\n",
            "while \"ext_true(1)\" { }\n",
            "while \"1\" { while \"true\" { continue; } }\n",
        ]));
    }
    rep.desc = w.describe();
    let mut i = Interp::new(&w);
    i.keep_history = true;
    i.run();
    if i.overrun || i.fuzzy || i.excluded {
        rep.label("skipped");
        return Ok(());
    }
    rep.label_if(i.executed.contains_key("included"), "include");
    let run = |limit: usize| -> Result<(Vec<String>, BTreeMap<String, Val>, bool), Failure> {
        let b = build(&w, limit)?;
        let mut host = b.host.clone();
        host.max_steps = 20_000;
        let mut ctx = context(&w, &b);
        let tr = drive(&mut ctx, b.main.clone(), &mut host);
        Ok((tr.items.iter().map(norm).collect(), globals_of(&ctx), tr.truncated))
    };
    const LIMIT: &str = "Error CPULimitReached";
    const HIGH: usize = 5000;
    let (full, fglobals, trunc) = run(HIGH)?;
    if trunc {
        return fail("unbounded", format!("more than 20000 events with a limit of {HIGH}"));
    }
    let endless = endless && full.iter().any(|e| e == LIMIT);
    if full.iter().any(|e| e == LIMIT) && !endless {
        return fail("early", format!("a run of {} steps exceeds {HIGH} instructions", i.steps));
    }
    // the least limit the run does not exceed, by bisection
    let mut seen: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let hit = |v: &Vec<String>| v.iter().any(|e| e == LIMIT);
    let (mut lo, mut hi) = (0usize, HIGH);
    if !endless {
        while lo < hi {
            let mid = (lo + hi) / 2;
            let (r, gl, _) = run(mid)?;
            if hit(&r) {
                lo = mid + 1;
            } else {
                hi = mid;
                if format!("{gl:?}") != format!("{fglobals:?}") {
                    return fail("globals", format!("limit {mid}: globals {gl:?}\nwithout limit: {fglobals:?}"));
                }
            }
            seen.insert(mid, r);
        }
        // every executed statement and every evaluated test takes at least one instruction
        if lo < i.steps + i.leaves {
            return fail("uncounted", format!("{} statements and {} tests were executed within a limit of {lo}", i.steps, i.leaves));
        }
        if flat && lo != i.steps + i.required {
            return fail("count", format!("{} statements and {} require commands take {lo} instructions", i.steps, i.required));
        }
        rep.label_if(flat, "straight-line programs");
        rep.label(&format!("instructions per statement {}", lo / i.steps.max(1)));
        if lo > 12 * (i.steps + i.tests + i.events.len()) + 60 {
            return fail("overcounted", format!("{} statements and {} tests took {lo} instructions", i.steps, i.tests));
        }
    } else {
        lo = HIGH + 1;
    }
    let least = lo;
    for _ in 0..3 {
        let l = t.n((least + 2).min(HIGH));
        seen.insert(l, run(l)?.0);
    }
    if least > 0 && !endless {
        seen.insert(least - 1, run(least - 1)?.0);
    }
    let mut prev: Option<(usize, usize)> = None;
    for (l, r) in &seen {
        let k = match r.iter().position(|e| e == LIMIT) {
            None => {
                if r != &full {
                    return fail("differs", format!("limit {l} (not reached): {}", diff(&full, r).unwrap()));
                }
                r.len()
            }
            Some(k) => {
                rep.label("limit reached");
                if *l >= least {
                    return fail("monotone", format!("limit {l} is reached, {least} is not"));
                }
                if r[..k] != full[..k.min(full.len())] {
                    return fail("prefix", format!("limit {l}: {}", diff(&full[..k.min(full.len())], &r[..k]).unwrap_or_default()));
                }
                let tail = match &r[k + 1..] {
                    [] => None,
                    [f] => Some(f.clone()),
                    [c, f] if c.starts_with("CreatedMessage") => Some(format!("{c}\n{f}")),
                    x => return fail("tail", format!("limit {l}: after the error {x:?}")),
                };
                let in_model = k <= i.events.len() && i.history.range((k, None)..(k + 1, None)).next().is_some();
                if in_model && !i.history.contains(&(k, tail.clone())) && !(endless && k >= i.events.len() - 1) {
                    return fail(
                        "disposition",
                        format!("limit {l}: after {k} events the run ended with {tail:?}, expected one of {:?}", i.history.range((k, None)..(k + 1, None)).collect::<Vec<_>>()),
                    );
                }
                rep.nontrivial_if(k > 0);
                if k > *l {
                    return fail("uncounted", format!("{k} events with a limit of {l}"));
                }
                k
            }
        };
        if let Some((pl, pk)) = prev {
            if k < pk {
                return fail("prefix", format!("limit {pl} gives {pk} events, limit {l} only {k}"));
            }
        }
        prev = Some((*l, k));
    }
    Ok(())
}

const HOSTNOTE: &str = "the host answers questions as the harness's fixed host does";

fn pins04() -> Pinned {
    vec![pin("exact", || {
        for n in 0..8usize {
            let script = "keep;".repeat(n);
            for limit in 0..10usize {
                let got = events(|r| r.either_cpu_limit(limit), &format!("{}{script}", "require \"fileinto\";"), MSG)?;
                let hit = got.iter().any(|e| e == "Error CPULimitReached");
                if hit != (n + 1 > limit) || got.last().unwrap() != "Keep []" {
                    return fail("limit", format!("{} commands with a limit of {limit}: {got:?}", n + 1));
                }
            }
        }
        Ok(())
    })]
}

fn pins05() -> Pinned {
    vec![
        pin("continue-nested", || {
            expect_folders(
                "let \"a\" \"0\"; while \"a < 2\" { let \"a\" \"a + 1\"; let \"b\" \"0\"; while \"b < 2\" { let \"b\" \"b + 1\"; fileinto :copy \"i${a}${b}\"; continue; } fileinto :copy \"o${a}\"; continue; }",
                MSG,
                &["i11", "i12", "o1", "i21", "i22", "o2"],
            )
        }),
    ]
}

fn pins06() -> Pinned {
    vec![
        pin("fileinto-after-keep", || expect("keep; fileinto \"x\";", MSG, &["FileInto \"x\" [] None None false", "Keep []"])),
        pin("discard-after-keep", || expect("keep; discard;", MSG, &["Keep []"])),
        pin("discard-then-keep", || expect("discard; keep;", MSG, &["Keep []"])),
        pin("keep-own-flags", || {
            expect("keep :flags \"a\"; addflag \"b\";", MSG, &["Keep [\"a\"]"])?;
            expect("addflag \"b\"; keep; setflag \"c\";", MSG, &["Keep [\"b\"]"])?;
            expect("addflag \"b\";", MSG, &["Keep [\"b\"]"])
        }),
        pin("implicit-keep-edited", || {
            expect(
                "addheader \"X-A\" \"1\"; fileinto :copy \"x\";",
                "Subject: s\r\n\r\nb\r\n",
                &["CreatedMessage 1 \"X-A: 1\\r\\nSubject: s\\r\\n\\r\\nb\\r\\n\"", "FileInto \"x\" [] None None false #1", "Keep [] #1"],
            )
        }),
        pin("redirect-after-discard", || {
            expect("discard; redirect \"a@example.org\";", MSG, &["SendMessage address \"a@example.org\"", "Discard"])
        }),
    ]
}

fn pins08() -> Pinned {
    vec![
        pin("many-modifiers", || {
            let mods: String = (b'a'..b'y').map(|c| format!(":replace \"{}\" \"{}\" ", c as char, (c + 1) as char)).collect();
            expect_folders(&format!("set {mods} :lowerfirst :lower :upperfirst \"v\" \"a-\"; fileinto \"${{v}}\";"), MSG, &["Y-"])
        }),
        pin("local-in-replace", || {
            expect_folders("set :local \"l\" \"zz\"; set :replace \"a\" \"${l}\" \"v\" \"bab\"; fileinto \"${v}\";", MSG, &["bzzb"])
        }),
        pin("global-case", || expect_folders("global \"Foo\"; set \"fOO\" \"x\"; fileinto \"${FOO}\";", MSG, &["x"])),
        pin("envelope-set-by-let", || {
            expect("let \"envelope.from\" \"'a@b.org'\"; stop;", MSG, &["SetEnvelope From \"a@b.org\"", "Keep []"])
        }),
        // Known finding: a value left in a variable of a block that was left by continue or
        // break is seen by the next use of its slot before assignment.
        pin("stale-local", || {
            let got = folders(
                "let \"w\" \"0\"; while \"w < 2\" { let \"w\" \"w + 1\"; set \"a\" \"x${a}x\"; fileinto :copy \"${a}\"; continue; }",
                MSG,
            )?;
            if got == ["xx", "xx"] {
                Ok(())
            } else if got == ["xx", "xxxx"] {
                fail("stale-local", "a local variable keeps its value over continue")
            } else {
                fail("events", format!("{got:?}"))
            }
        }),
    ]
}

fn pins14() -> Pinned {
    vec![
        // Known finding: the pieces between two spaces of a variable's text count as flags.
        pin("count-empty-pieces", || {
            let got = folders("set \"f\" \"a  b \"; if hasflag :count \"eq\" :comparator \"i;ascii-numeric\" \"f\" \"2\" { fileinto \"two\"; } elsif hasflag :count \"eq\" :comparator \"i;ascii-numeric\" \"f\" \"4\" { fileinto \"four\"; }", MSG)?;
            if got == ["two"] {
                Ok(())
            } else if got == ["four"] {
                fail("count-empty-pieces", "empty pieces of a variable's text count as flags")
            } else {
                fail("events", format!("{got:?}"))
            }
        }),
        pin("flags-set", || {
            expect("setflag [\"a b\", \"A\", \"\"]; addflag \"B  c\";", MSG, &["Keep [\"a\", \"b\", \"c\"]"])
        }),
    ]
}

fn pins16() -> Pinned {
    vec![]
}

pub fn props() -> Vec<Prop> {
    let mk = |id, run, quick, rule, pinned| Prop {
        id,
        quick,
        thorough: quick * 60,
        run,
        pinned,
        rule,
        assumptions: &[HOSTNOTE],
    };
    vec![
        mk("C04", c04 as fn(&mut Tape, &mut Report) -> CaseResult, 45_000, "the limit is reached after at least one event", pins04 as fn() -> Pinned),
        mk("C05", c05, 300_000, "the run iterates a loop and takes a break, continue or elsif branch", pins05),
        mk("C06", c06, 300_000, "the run executes at least two kinds of disposition-changing actions", pins06),
        mk("C08", c08, 300_000, "the run applies at least two modifiers, or at least two arguments are supplied by variables", pins08),
        mk("C14", c14, 300_000, "the run executes at least two flag actions", pins14),
        mk("C16", c16, 250_000, "the run executes at least two includes", pins16),
    ]
}
