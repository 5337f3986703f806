INSTR = "src/compiler/grammar/instruction.rs"
CTX = "src/runtime/context.rs"
BUGS = [
 dict(id="c05-while-break-jumps-back", property="C05",
  edits=[(INSTR, """                                if matches!(&state.block.btype, Word::ForEveryPart | Word::While) {
                                    block_found = Some(&mut state.block);
                                } else {""",
  """                                if matches!(&state.block.btype, Word::While) {
                                    block_found = Some(&mut state.block);
                                } else if matches!(&state.block.btype, Word::ForEveryPart)
                                    && state.block_stack.len() < 4
                                {
                                    block_found = Some(&mut state.block);
                                } else {""")],
  demo="""
    let m = "From: a@b.org\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=x\\r\\n\\r\\n--x\\r\\nContent-Type: text/plain\\r\\n\\r\\na\\r\\n--x\\r\\nContent-Type: text/plain\\r\\n\\r\\nb\\r\\n--x--\\r\\n";
    expect("break", folders("let \\"n\\" \\"0\\"; while \\"n < 2\\" { let \\"n\\" \\"n + 1\\"; if true { if true { if true { foreverypart { fileinto \\"x${n}\\"; break; } } } } fileinto \\"y${n}\\"; }", m), vec!["x1".into(), "y1".into(), "x2".into(), "y2".into()]);
""",
  needs="a break written directly in the body of a foreverypart that sits at least four blocks deep", breaks="the break leaves the wrong loop"),
 dict(id="c05-elsif-jump-list", property="C05",
  edits=[(INSTR, """                            if !next_is_block {
                                for pos in prev_block.if_jmps.drain(..) {""",
  """                            if !next_is_block {
                                for pos in prev_block.if_jmps.drain(..).take(7) {""")],
  demo="""
    let mut s = String::from("let \\"n\\" \\"0\\"; while \\"n < 10\\" { let \\"n\\" \\"n + 1\\"; if string \\"${n}\\" \\"0\\" { stop; }");
    for i in 1..=10 { s.push_str(&format!(" elsif string \\"${{n}}\\" \\"{i}\\" {{ fileinto \\"a{i}\\"; }}")); }
    s.push_str(" fileinto \\"z\\"; }");
    expect("elsif", folders(&s, MSG).join(""), (1..=10).map(|i| format!("a{i}z")).collect::<String>());
""",
  needs="an if with eight or more elsif branches and no else, one of the later ones taken", breaks="after the eighth taken branch control jumps to a wrong place"),
 dict(id="c06-too-many-includes-keep", property="C06",
  edits=[(CTX, """                        IncludeResult::Error(err) => {
                            self.finish_loop();""", """                        IncludeResult::Error(err) => {
                            self.script_stack.clear();""")],
  demo="""
    let got = run_full(&runtime(), &Compiler::new(), "include \\"a\\"; fileinto :copy \\"end\\";", &[("a", "include \\"a\\";")], MSG, &mut |_| None);
    expect("keep after the error", got.iter().filter(|e| e.starts_with("Keep")).count(), 1);
    let got = run_full(&runtime(), &Compiler::new(), "discard; include \\"a\\";", &[("a", "include \\"a\\";")], MSG, &mut |_| None);
    expect("one disposition", (got.last().unwrap().as_str(), got.iter().filter(|e| e.starts_with("Discard")).count()), ("Discard", 1));
    let got = run_full(&runtime(), &Compiler::new(), "addheader \\"X-A\\" \\"1\\"; include \\"a\\";", &[("a", "include \\"a\\";")], MSG, &mut |_| None);
    expect("edited message", got.iter().filter(|e| e.starts_with("CreatedMessage")).count(), 1);
""",
  needs="an include nesting error in an edited message", breaks="the edited message is not delivered after the error"),
 dict(id="c06-fileinto-cancels-once", property="C06",
  edits=[("src/runtime/actions/action_fileinto.rs", "        if let Some(event) = ctx.build_message_id() {\n            events.push(event);\n        }\n",
          "        let created = ctx.build_message_id();\n        ctx.explicit_keep &= created.is_some() || ctx.main_message_id == 0;\n        if let Some(event) = created {\n            events.push(event);\n        }\n")],
  demo="""
    let got = run("addheader \\"X-A\\" \\"1\\"; keep; fileinto \\"x\\";", MSG);
    expect("explicit keep survives", got.last().map(|e| e.starts_with("Keep")), Some(true));
""",
  needs="an edited message that was already handed to the host by keep, then a fileinto without :copy", breaks="the explicit keep is lost"),
 dict(id="c08-first-upper-expands", property="C08",
  edits=[("src/runtime/actions/action_set.rs", """                            for char in char.to_uppercase() {
                                result.push(char);
                            }""", """                            result.extend(char.to_uppercase().next());""")],
  demo="""
    expect("sharp s", folders("set :upperfirst \\"a\\" \\"\\u{df}a\\"; fileinto \\"${a}\\";", MSG), vec!["SSa".to_string()]);
""",
  needs="an :upperfirst value starting with a character whose capital is two characters", breaks="part of the capital letter is lost"),
 dict(id="c08-clear-one-less", property="C08",
  edits=[("src/runtime/context.rs", """                                for local_var in local_vars.iter_mut() {
                                    if !local_var.is_empty() {""", """                                for local_var in local_vars.iter_mut() {
                                    if !local_var.is_empty() && local_var.len() != 2 {""")],
  demo="""
    expect("cleared", folders("let \\"n\\" \\"0\\"; while \\"n < 3\\" { let \\"n\\" \\"n + 1\\"; if true { set \\"x\\" \\"${x}ab\\"; fileinto \\"i${x}\\"; } }", MSG), vec!["iab".to_string(), "iab".into(), "iab".into()]);
""",
  needs="a block-local value of two octets in a loop, read before it is set again", breaks="the value survives its block"),
 dict(id="c14-implicit-keep-case", property="C14",
  edits=[("src/runtime/actions/action_flags.rs", """                .split_ascii_whitespace()
                .map(|s| s.to_string())
""", """                .split_ascii_whitespace()
                .map(|s| s.to_lowercase())
""")],
  demo="""
    let got = run("addflag [\\"Work\\", \\"b\\"];", MSG);
    expect("flags", got[0].contains("\\"Work\\""), true);
""",
  needs="a flag with capitals", breaks="flags of the implicit keep lose their letter case"),
 dict(id="c16-match-vars-not-restored", property="C16",
  edits=[(CTX, """                self.pos = prev_script.prev_pos;
                self.vars_local = prev_script.prev_vars_local;
                self.vars_match = prev_script.prev_vars_match;""", """                self.pos = prev_script.prev_pos;
                self.vars_local = prev_script.prev_vars_local;
                if prev_script.script.num_match_vars > 0 {
                    self.vars_match = prev_script.prev_vars_match;
                } else {
                    self.vars_match.resize(prev_script.prev_vars_match.len(), Variable::default());
                }""")],
  demo="""
    let got = run_full(&runtime(), &Compiler::new(), "if header :matches \\"subject\\" \\"* world\\" { include \\"a\\"; fileinto \\"${1}\\"; }", &[("a", "keep;")], MSG, &mut |_| None);
    expect("match variable", got.iter().any(|e| e.starts_with("FileInto { folder: \\"hello\\"")), true);
""",
  needs="match variables used after an include whose script has none of its own", breaks="the caller's match variables are lost by the include"),
 dict(id="c16-once-by-name", property="C16",
  edits=[("src/runtime/actions/action_include.rs", """            let script_name = if self.location == Location::Global {
                Script::Global(script_name.to_string().into_owned())
            } else {""", """            let script_name = if self.location == Location::Global && !self.once {
                Script::Global(script_name.to_string().into_owned())
            } else {""")],
  demo="""
    let got = run_full(&runtime(), &Compiler::new(), "include :once :global \\"a\\";", &[], MSG, &mut |_| None);
    expect("location", got[0].contains("Global("), true);
""",
  needs="include with both :once and :global", breaks="the personal script is included instead of the global one"),
 dict(id="c13-array-in-shortcircuit", property="C13",
  edits=[("src/runtime/expression.rs", """                        self.expr_pos += *pos as usize;
                        for _ in 0..*pos {""", """                        if self.expr_stack.len() > 1 {
                            self.expr_pos += *pos as usize - 1;
                        } else {
                            self.expr_pos += *pos as usize;
                        }
                        for _ in 0..*pos {""")],
  demo="""
    let mut fm = FunctionMap::new().with_external_function("ext", 0, 1);
    let c = Compiler::new().register_functions(&mut fm);
    let rt = runtime().with_functions(&mut fm);
    let got = run_full(&rt, &c, "let \\"r\\" \\"10 + (0 && 5) + ext(7)\\"; fileinto \\"${r}\\";", &[], MSG, &mut |e| match e { Event::Function { arguments, .. } => Some(Input::FncResult(arguments[0].clone())), _ => None });
    expect("one call", got.iter().filter(|e| e.starts_with("Function")).count(), 1);
    expect("sum", got.iter().filter(|e| e.starts_with("FileInto { folder: \\"17\\"")).count(), 1);
""",
  needs="a short circuit below another operand, followed by an external function call in the same expression", breaks="the expression resumes at the wrong place after the host call"),
 dict(id="c13-unary-comma", property="C13",
  edits=[("src/compiler/grammar/expr/parser.rs", """                            Token::UnaryOperator(uop) => {
                                self.output.push(Expression::UnaryOperator(*uop));
                                self.operator_stack.pop();
                            }
                            _ => break,""", """                            Token::UnaryOperator(uop) if self.arg_count.len() < 2 => {
                                self.output.push(Expression::UnaryOperator(*uop));
                                self.operator_stack.pop();
                            }
                            _ => break,""")],
  demo="""
    expect("nested array", folders("let \\"r\\" \\"[1, [-5, 7]]\\"; let \\"q\\" \\"r[1]\\"; let \\"v\\" \\"q[0]\\"; fileinto \\"v${v}\\";", MSG), vec!["v-5".to_string()]);
""",
  needs="a unary operator before a comma inside a nested array or call", breaks="the operator is applied to the following items"),
 dict(id="c04-include-resets", property="C04",
  edits=[(CTX, """                self.num_instructions += 1;
""", """                self.num_instructions += usize::from(self.pos != 0);
""")],
  demo="""
    for (n, limit) in [(0usize, 1usize), (3, 4), (4, 4)] {
        let s = "keep;".repeat(n) + "stop;";
        let got = run_full(&runtime().with_cpu_limit(limit), &Compiler::new(), &s, &[], MSG, &mut |_| None);
        // require, keep..., stop
        expect("limit", got.iter().any(|e| e == "Error CPULimitReached"), n + 2 > limit);
    }
""",
  needs="a limit that is exceeded by one", breaks="the first instruction of every script is not counted, so more than the limit is executed"),
]
