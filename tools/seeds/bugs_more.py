INSTR = "src/compiler/grammar/instruction.rs"
CTX = "src/runtime/context.rs"
EVAL = "src/runtime/eval.rs"
EXPR = "src/runtime/expression.rs"
TOK = "src/compiler/lexer/tokenizer.rs"
A = "src/runtime/actions/"
C = "src/compiler/grammar/actions/"
BUGS = [
 dict(id="c07-stuffed-variable", property="C07",
  edits=[(TOK, """                            (Some((ch, _)), _) => {
                                self.push_byte(b'.');
                                self.push_byte(ch);
                                false
                            }""", """                            (Some((ch, _)), _) => {
                                self.buf.extend_from_slice(&[b'.', ch]);
                                self.last_ch = 0;
                                false
                            }""")],
  demo="""
    expect("text", folders("set \\"a\\" \\"x\\"; fileinto text:\\r\\n.${a}\\r\\n.\\r\\n;", MSG), vec![".x\\r\\n".to_string()]);
""",
  needs="a text block with a line that begins with a dot directly followed by a variable", breaks="the variable is not recognised there"),
 dict(id="c07-suffix-of-two", property="C07",
  edits=[(TOK, """                if let Ok(number) = (if multiplier > 1 && self.buf.len() > 1 {
                    std::str::from_utf8(&self.buf[..self.buf.len() - 1]).unwrap()
                } else {
                    word
                })
                .parse::<usize>()
                {
                    Token::Number(number.saturating_mul(multiplier))""", """                if let Ok(number) = (if multiplier > 1 && self.buf.len() > 1 {
                    std::str::from_utf8(&self.buf[..self.buf.len() - 1]).unwrap()
                } else {
                    word
                })
                .parse::<u32>()
                .map(|n| n as usize)
                {
                    Token::Number(number.saturating_mul(multiplier))""")],
  demo="""
    expect("number", folders("if size :under 4294967296 { fileinto \\"x\\"; }", MSG), vec!["x".to_string()]);
""",
  needs="a number literal above 2^32 - 1", breaks="it is not taken for a number"),
 dict(id="c12-labelled-break-part", property="C12",
  edits=[(CTX, """                        for _ in 0..*num_pops {
                            if let Some((prev_part, prev_part_iter)) = self.part_iter_stack.pop() {
                                self.part_iter = prev_part_iter;
                                self.part = prev_part;
                            } else {
                                break;
                            }
                        }""", """                        for _ in 1..*num_pops {
                            self.part_iter_stack.pop();
                        }
                        if let Some((_, prev_part_iter)) = self.part_iter_stack.pop() {
                            self.part_iter = prev_part_iter;
                        }
                        self.part = self.part_iter_stack.last().map_or(0, |(part, _)| *part);""")],
  demo="""
    let m = "From: a@b.org\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n--b\\r\\nContent-Type: multipart/alternative; boundary=c\\r\\nX-P: alt\\r\\n\\r\\n--c\\r\\nContent-Type: text/plain\\r\\nX-P: one\\r\\n\\r\\n1\\r\\n--c\\r\\nContent-Type: text/html\\r\\nX-P: two\\r\\n\\r\\n2\\r\\n--c--\\r\\n--b--\\r\\n";
    let got = folders("foreverypart { foreverypart { break; } if header :mime \\"X-P\\" \\"alt\\" { fileinto \\"alt\\"; } }", m);
    expect("part", got, vec!["alt".to_string()]);
""",
  needs="a break out of a foreverypart within another one, and a look at the current part of the outer loop after it", breaks="the outer loop goes on with the wrong current part"),
 dict(id="c14-flags-lost-on-error", property="C14",
  edits=[(CTX, """                mut flags,
                mut message_id,
            } = event
            {
                let global_flags = self.get_global_flags();
                if !self.explicit_keep {
                    flags = global_flags;
                    message_id = self.main_message_id;
                }
""", """                flags,
                mut message_id,
            } = event
            {
                if !self.explicit_keep {
                    message_id = self.main_message_id;
                }
""")],
  demo="""
    let got = run("addflag \\"a\\"; error \\"x\\";", MSG);
    expect("flags", got.last().unwrap().contains("\\"a\\""), true);
""",
  needs="flags set before the script ends with an error", breaks="the implicit keep after an error loses the flags"),
 dict(id="c15-edit-lost-on-error", property="C15",
  edits=[(CTX, """                if self.has_changes {
                    if let Some(event) = self.build_message_id() {
                        vec![
                            event,""", """                if self.has_changes && !self.explicit_keep {
                    if let Some(event) = self.build_message_id() {
                        vec![
                            event,""")],
  demo="""
    let got = run("keep; addheader \\"X-A\\" \\"1\\"; error \\"x\\";", MSG);
    expect("created", got.iter().any(|e| e.starts_with("CreatedMessage")), true);
""",
  needs="an explicit keep, a header edit after it and then an error", breaks="the edited message is not the one kept"),
 dict(id="c17-included-require", property="C17",
  edits=[(CTX, """                        for capability in capabilities {
                            if !self.runtime.allowed_capabilities.contains(capability) {""",
   """                        for capability in capabilities {
                            if self.script_stack.len() < 2
                                && !self.runtime.allowed_capabilities.contains(capability)
                            {""")],
  demo="""
    let rt = runtime().without_capability("vacation");
    let got = run_full(&rt, &Compiler::new(), "require \\"include\\"; include \\"i\\";", &[("i", "require [\\"fileinto\\",\\"vacation\\"]; fileinto \\"x\\";")], MSG, &mut |_| None);
    expect("refused", got.iter().any(|e| e.starts_with("Error")), true);
""",
  needs="an included script that requires a capability the runtime does not allow", breaks="the included script runs all the same"),
 dict(id="c27-array-of-one", property="C27",
  edits=[(EVAL, "            1 if header.index_hdr != 0 && header.index_part != 0 => result.pop(),",
   "            1 if header.index_hdr != 0 || header.index_part != 0 => result.pop(),")],
  demo="""
    expect("count", folders("let \\"a\\" \\"header.to[*].addr\\"; let \\"b\\" \\"a[0]\\"; fileinto \\"${b}\\";", MSG), vec!["me@example.com".to_string()]);
    expect("array", folders("let \\"a\\" \\"header.x-a[*] + 'z'\\"; let \\"b\\" \\"a[1]\\"; fileinto \\"${b}\\";", "From: a@b.org\\r\\nX-A: 1\\r\\n\\r\\nb"), vec!["z".to_string()]);
""",
  needs="all occurrences of a header asked for, one there, and the array used as such", breaks="a single occurrence is a string rather than an array"),
 dict(id="c27-undecoded-from-end", property="C27",
  edits=[(EVAL, """                            Ordering::Less => list
                                .rev()
                                .nth((self.index_part.unsigned_abs() - 1) as usize)
                                .and_then(|a| part.eval_strict(a))
                                .map(|s| Variable::String(s.to_string().into())),""",
   """                            Ordering::Less => list
                                .last()
                                .and_then(|a| part.eval_strict(a))
                                .map(|s| Variable::String(s.to_string().into())),""")],
  demo="""
    expect("address", folders("fileinto \\"${header.x-to[1].addr[-2]}\\";", "From: a@b.org\\r\\nX-To: a@x.org, b@x.org, c@x.org\\r\\n\\r\\nb"), vec!["b@x.org".to_string()]);
""",
  needs="a header the parser does not know, with three addresses, indexed from the end", breaks="always the last address is taken"),
 dict(id="c27-env-order", property="C27",
  edits=[(EVAL, """                .vars_env
                .get(var_name.as_str())
                .or_else(|| self.runtime.environment.get(var_name.as_str()))""",
   """                .runtime
                .environment
                .get(var_name.as_str())
                .or_else(|| self.vars_env.get(var_name.as_str()))""")],
  demo="""
    let rt = runtime().with_env_variable("vnd.x", "runtime");
    let s = std::sync::Arc::new(Compiler::new().compile(with_caps("fileinto \\"${env.vnd.x}\\";").as_bytes()).unwrap());
    let mut ctx = rt.filter(MSG.as_bytes()).with_env_variable("vnd.x", "context");
    let mut input = Input::script("main", s);
    let mut got = vec![];
    while let Some(r) = ctx.run(input) {
        if let Ok(Event::FileInto { folder, .. }) = r { got.push(folder); }
        input = Input::True;
    }
    expect("value", got, vec!["context".to_string()]);
""",
  needs="an environment variable set both for the runtime and for the run", breaks="the value of the run is ignored"),
 dict(id="c26-comment-glues", property="C26",
  edits=[(TOK, """                            self.state = State::BracketComment;
                            self.text_start();
                            if let Some(token) = self.get_current_token() {
                                return Some(Ok(token));
                            }""", """                            self.state = State::BracketComment;
                            self.text_start();""")],
  demo="""
    expect("folders", folders("if/* c */true { fileinto \\"x\\"; }", MSG), vec!["x".to_string()]);
""",
  needs="a comment in place of white space between two words", breaks="the two words are taken for one"),
 dict(id="c01-comment-cr", property="C01",
  edits=[(TOK, """                    b'\\n' => {
                        self.new_line();
                    }
                    _ => (),
                },
                State::HashComment""", """                    b'\\r' | b'\\n' => {
                        self.new_line();
                    }
                    _ => (),
                },
                State::HashComment""")],
  demo="""
    let err = Compiler::new().compile(b"/* a\\r\\nb\\r\\nc */ keep keep;").unwrap_err();
    expect("line", err.line_num() <= 3, true);
""",
  needs="a bracketed comment over several lines ended by CR LF, and an error after it", breaks="the position of the error lies beyond the end of the source"),
 dict(id="c23-once-not-stored", property="C23", rkyv=True,
  edits=[(C+"action_include.rs", "    pub once: bool,", "    #[cfg_attr(feature = \"rkyv\", rkyv(with = rkyv::with::Skip))] pub once: bool,")],
  demo="""
    let s = Compiler::new().compile(with_caps("include :once \\"a\\";").as_bytes()).unwrap();
    let bytes = rkyv::to_bytes::<rkyv::rancor::Error>(&s).unwrap();
    let back: Sieve = rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&bytes).unwrap();
    expect("equal", back == s, true);
""",
  needs="a script with include :once stored with rkyv", breaks=":once is lost when the script is stored"),
 dict(id="c24-html-memo", property="C24",
  edits=[(EVAL, """                        PartType::Html(html) if *convert => {
                            Some(html_to_text(html.as_ref()).into())
                        }""", """                        PartType::Html(html) if *convert => {
                            thread_local!(static LAST: std::cell::RefCell<(usize, String)> = Default::default());
                            Some(LAST.with_borrow_mut(|last| {
                                if last.0 != html.len() {
                                    *last = (html.len(), html_to_text(html.as_ref()));
                                }
                                last.1.clone().into()
                            }))
                        }""")],
  demo="""
    let m = |t: &str| format!("From: a@b.org\\r\\nMIME-Version: 1.0\\r\\nContent-Type: text/html\\r\\n\\r\\n<p>{t}</p>");
    expect("first", folders("if true { fileinto \\"${body.to_text}\\"; }", &m("one")).concat().contains("one"), true);
    expect("second", folders("if true { fileinto \\"${body.to_text}\\"; }", &m("two")).concat().contains("two"), true);
""",
  needs="two messages whose HTML bodies have the same length, on one thread", breaks="the second run sees the text of the first message"),
 dict(id="c18-fcc-uncounted", property="C18",
  edits=[(A+"action_notify.rs", """        ctx.num_out_messages += 1;

        if let Some(fcc) = &self.fcc {
            // File carbon copy
""", """        if let Some(fcc) = &self.fcc {
            // File carbon copy
"""), (A+"action_notify.rs", """        if !is_mailto {
            events.push(Event::Notify {""", """        if self.fcc.is_none() || is_mailto {
            ctx.num_out_messages += 1;
        }
        if !is_mailto {
            events.push(Event::Notify {""")],
  demo="""
    let rt = runtime().with_max_out_messages(1);
    let got = run_full(&rt, &Compiler::new(), "notify :fcc \\"a\\" \\"tel:1\\"; notify \\"tel:2\\";", &[], MSG, &mut |_| None);
    expect("one", got.iter().filter(|e| e.starts_with("Notify")).count(), 1);
""",
  needs="a notification with :fcc and a method other than mailto", breaks="it is not counted as an outgoing message"),
 dict(id="c19-reply-to-header", property="C19",
  edits=[(A+"action_vacation.rs", """                    if matches!(&header.value, HeaderValue::Address(address) if address.contains(vacation_to.as_ref()))
                        && header.offset_start > 0""", """                    if matches!(&header.value, HeaderValue::Address(address) if vacation_to_full.is_none() || address.contains(vacation_to.as_ref()))
                        && header.offset_start > 0""")],
  demo="""
    let got = run("vacation \\"x\\";", "From: other@example.org\\r\\nTo: me@example.com\\r\\nSubject: s\\r\\n\\r\\nb\\r\\n");
    expect("to", got.iter().any(|e| e.contains("To: sender@example.net")), true);
""",
  needs="an envelope sender that is not in From", breaks="the To field of the reply names somebody else"),
 dict(id="c20-name-with-bracket", property="C20",
  edits=[(A+"action_notify.rs", """                                    .rsplit_once('<')
                                    .and_then(|(_, addr)| addr.rsplit_once('>'))""",
   """                                    .split_once('<')
                                    .and_then(|(_, addr)| addr.rsplit_once('>'))""")],
  demo="""
    let got = run("notify \\"mailto:%22a%3Cb%22%3Cx@example.org%3E\\";", MSG);
    expect("recipient", got.iter().any(|e| e.contains("Group([\\"x@example.org\\"])")), true);
""",
  needs="a display name with an opening angle bracket in the mailto URI", breaks="the recipient is not the address"),
 dict(id="c16-locals-into-cached", property="C16",
  edits=[(CTX, """                                prev_vars_local: std::mem::replace(
                                    &mut self.vars_local,
                                    vec![Variable::default(); script.num_vars as usize],
                                ),
                                prev_vars_match""", """                                prev_vars_local: {
                                    let prev = self.vars_local.clone();
                                    self.vars_local
                                        .resize(script.num_vars as usize, Variable::default());
                                    prev
                                },
                                prev_vars_match""")],
  demo="""
    let inc = "fileinto \\"x${a}\\"; set \\"a\\" \\"leak\\";";
    let got = run_full(&runtime(), &Compiler::new(), "set \\"v\\" \\"caller\\"; include \\"i\\"; include \\"i\\";", &[("i", "if true { set \\"a\\" \\"${a}!\\"; fileinto \\"x${a}\\"; }")], MSG, &mut |_| None);
    let _ = inc;
    expect("isolated", got.iter().any(|e| e.contains("caller")), false);
""",
  needs="the second include of the same script, which reads a local variable before it sets it", breaks="the included script sees the caller's local variables"),
 dict(id="c13-jump-then-call", property="C13",
  edits=[(EXPR, "                        self.expr_pos += *pos as usize;", "                        self.expr_pos += (*pos as usize).min(3);")],
  demo="""
    let mut fm = FunctionMap::new().with_external_function("ext", 7, 1);
    let c = Compiler::new().register_functions(&mut fm);
    let rt = runtime().with_functions(&mut fm);
    let mut n = 0;
    run_full(&rt, &c, "let \\"a\\" \\"(0 && (1 + 2 + 3 + 4)) + ext(5)\\"; fileinto \\"x${a}\\";", &[], MSG, &mut |e| match e {
        Event::Function { .. } => { n += 1; Some(Input::result(Variable::from(40i64))) }
        Event::FileInto { folder, .. } => { expect("value", folder.as_str(), "x40"); None }
        _ => None,
    });
    expect("asked", n, 1);
""",
  needs="a short-circuited operand of more than three tokens before an external function call in the same expression", breaks="the expression resumes at the wrong place after the host's answer"),
 dict(id="c13-eq-string-float", property="C13",
  edits=[(EXPR, "            (Self::String(_), Self::Integer(_) | Self::Float(_)) => &self.parse_number() == other,",
   "            (Self::String(_), Self::Integer(_)) => &self.parse_number() == other,")],
  demo="""
    expect("equal", folders("let \\"a\\" \\"'1.5' == 1.5\\"; fileinto \\"${a}\\";", MSG), vec!["1".to_string()]);
""",
  needs="a string on the left of == and a float on the right", breaks="they are never equal"),
 dict(id="c13-array-minus-first", property="C13",
  edits=[(EXPR, """            (Variable::Array(a), b) | (b, Variable::Array(a)) => Variable::Array(
                a.iter()
                    .filter(|v| *v != &b)
                    .cloned()""", """            (Variable::Array(a), b) | (b, Variable::Array(a)) => Variable::Array(
                a.iter()
                    .enumerate()
                    .filter(|(pos, v)| *v != &b || a[..*pos].contains(&b))
                    .map(|(_, v)| v)
                    .cloned()""")],
  demo="""
    expect("minus", folders("let \\"a\\" \\"[1,2,1,3] - 1\\"; let \\"b\\" \\"'x' + a\\"; fileinto \\"x${a}\\";", MSG), vec!["x2\\r\\n3".to_string()]);
""",
  needs="an array that contains the subtracted item twice", breaks="only the first one is taken away"),
 dict(id="c15-deleted-added-size", property="C15",
  edits=[(A+"action_editheader.rs", "                    deleted_bytes += header.name.as_str().len() + header.value.len() + 4;",
   "                    deleted_bytes += header.name.as_str().len() + header.value.len() + 2;")],
  demo="""
    let m = "From: a@b.org\\r\\n\\r\\nx\\r\\n";
    let got = run("addheader \\"X-A\\" \\"v\\"; deleteheader \\"X-A\\"; if size :over 20 { discard; }", m);
    expect("size", got.iter().any(|e| e == "Discard"), false);
""",
  needs="a header added and deleted again and a size test near the size of the message", breaks="the size is two octets too large"),
 dict(id="c22-replace-drops-bcc", property="C22",
  edits=[(A+"action_mime.rs", "                    HeaderName::To | HeaderName::Cc | HeaderName::Bcc | HeaderName::Received => (),",
   "                    HeaderName::To | HeaderName::Cc | HeaderName::Received => (),")],
  demo="""
    let got = run("replace \\"new\\";", "From: a@b.org\\r\\nBcc: x@example.org\\r\\n\\r\\nb\\r\\n");
    expect("bcc", got[0].contains("Bcc: x@example.org"), true);
""",
  needs="replace on a message with a Bcc field", breaks="the field is lost"),
 dict(id="c22-convert-root-headers", property="C22",
  edits=[(A+"action_mime.rs", """            // Add Date
            if add_date {""", """            // Add Date
            if add_date && self.subject.is_none() {""")],
  demo="""
    let got = run("replace :subject \\"s\\" \\"new\\";", "From: a@b.org\\r\\n\\r\\nb\\r\\n");
    expect("date", got[0].contains("Date: "), true);
""",
  needs="replace :subject on a message without a Date field", breaks="no Date is added"),
 dict(id="c02-includes-in-blocks", property="C02",
  edits=[(INSTR, """                                state.includes_num += 1;""", """                                if state.block.btype != Word::Else {
                                    state.includes_num += 1;
                                }""")],
  demo="""
    let c = Compiler::new().with_max_includes(1);
    expect("refused", c.compile(with_caps("if false { stop; } else { include \\"a\\"; include \\"b\\"; }").as_bytes()).is_err(), true);
""",
  needs="more includes than allowed, some within an else block", breaks="includes within else are not counted"),
 dict(id="c06-list-redirect-keeps", property="C06",
  edits=[(A+"action_redirect.rs", """                if !self.copy
                    && !ctx.explicit_keep""", """                if !(self.copy || self.list)
                    && !ctx.explicit_keep""")],
  demo="""
    let got = run("redirect :list \\"tag:example.com,2010:x\\";", MSG);
    expect("no keep", got.iter().any(|e| e.starts_with("Keep")), false);
""",
  needs="redirect :list without :copy", breaks="the implicit keep is not cancelled"),
 dict(id="c09-clear-highest-only", property="C09",
  edits=[("src/runtime/variables.rs", """            positions ^= 1 << index;
            if let Some(match_var) = self.vars_match.get_mut(index as usize) {
                if !match_var.is_empty() {
                    *match_var = Variable::default();
                }""", """            positions ^= 1 << index;
            if let Some(match_var) = self.vars_match.get_mut(index as usize) {
                if match_var.is_empty() {
                    break;
                }
                *match_var = Variable::default();""")],
  demo="""
    let got = folders("if true { if string :regex \\"ab\\" \\"(a)(x)?b\\" { fileinto \\"${1}-${2}\\"; } if string :matches \\"q\\" \\"q\\" { fileinto \\"${1}-${2}\\"; } }", MSG);
    expect("first", got[0].as_str(), "a-");
    let got = folders("while \\"true\\" { if string :regex \\"ab\\" \\"(a)(x)?b\\" { fileinto :copy \\"${1}-${2}\\"; } if not string :is \\"${1}\\" \\"\\" { fileinto \\"kept ${1}\\"; } break; }", MSG);
    expect("cleared", got, vec!["a-".to_string()]);
""",
  needs="a match whose last group is empty", breaks="the other match variables survive the block"),
 dict(id="c08-namespace-case", property="C08",
  edits=[("src/compiler/grammar/actions/action_set.rs", """                "global" | "t" => Ok(VariableType::Global(part.to_string())),""",
   """                "global" | "t" => Ok(VariableType::Global(
                    part.rsplit('.').next().unwrap_or(part).to_string(),
                )),""")],
  demo="""
    expect("value", folders("set \\"global.a.b\\" \\"x\\"; set \\"global.b\\" \\"y\\"; fileinto \\"${global.a.b}\\";", MSG), vec!["x".to_string()]);
""",
  needs="a global variable whose name contains a dot", breaks="only the last part of the name counts"),
]
