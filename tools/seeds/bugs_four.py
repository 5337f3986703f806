INSTR = "src/compiler/grammar/instruction.rs"
CTX = "src/runtime/context.rs"
EVAL = "src/runtime/eval.rs"
EXPR = "src/runtime/expression.rs"
TOK = "src/compiler/lexer/tokenizer.rs"
A = "src/runtime/actions/"
C = "src/compiler/grammar/actions/"
RT = "src/runtime/mod.rs"
VAC = "From: sender@example.net\\\\r\\\\nTo: me@example.com\\\\r\\\\nSubject: hi\\\\r\\\\n"
BUGS = [
 dict(id="c27-attr-last", property="C27",
  edits=[(EVAL, "attrs.iter().find_map(|a| {", "attrs.iter().rev().find_map(|a| {")],
  demo="""
    let m = "From: a@b.org\\r\\nContent-Type: text/plain; x-a=one; x-a=two\\r\\n\\r\\nbody\\r\\n";
    expect("attr", folders("fileinto \\"${header.content-type.attr.x-a}\\";", m), vec!["one".to_string()]);
""",
  needs="a Content-Type header naming one attribute twice", breaks="the variable gives the last one"),
 dict(id="c27-from-helo-first", property="C27",
  edits=[(EVAL, """                .from()
                .or_else(|| rcvd.helo())""", """                .helo()
                .or_else(|| rcvd.from())""")],
  demo="""
    let m = "Received: from mail.example.org (HELO other.example.org) (192.0.2.1) by mx.example.com with SMTP; Mon, 2 Mar 2020 10:00:00 +0000\\r\\nFrom: a@b.org\\r\\n\\r\\nbody\\r\\n";
    let got = folders("fileinto \\"${header.received.rcvd.from}\\";", m);
    expect("from", got, vec!["mail.example.org".to_string()]);
""",
  needs="a Received header that names both a host and a HELO", breaks="the HELO name is given"),
 dict(id="c19-resent-cc", property="C19",
  edits=[(A + "action_vacation.rs", "                | HeaderName::ResentBcc\n                | HeaderName::ResentCc\n", "                | HeaderName::ResentBcc\n")],
  demo="""
    let m = "From: sender@example.net\\r\\nTo: list@example.org\\r\\nResent-Cc: me@example.com\\r\\nSubject: hi\\r\\n\\r\\nb\\r\\n";
    let got = run("vacation \\"away\\";", m);
    expect("asked", got.iter().any(|e| e.contains("DuplicateId")), true);
""",
  needs="a message that names the user in Resent-Cc only", breaks="no response is sent"),
 dict(id="c19-orcpt-too", property="C19",
  edits=[(A + "action_vacation.rs", """                        if !ctx.runtime.vacation_use_orig_rcpt {
                            user_addresses.push(value.to_string());
                        }
                    }
                    Envelope::Orcpt => {
                        if ctx.runtime.vacation_use_orig_rcpt {
                            user_addresses.push(value.to_string());
                        }
                    }""", """                        user_addresses.push(value.to_string());
                    }
                    Envelope::Orcpt => {
                        if ctx.runtime.vacation_use_orig_rcpt {
                            user_addresses.push(value.to_string());
                        }
                    }""")],
  demo="""
    let rt = runtime().with_vacation_use_orig_rcpt(true);
    let main = Arc::new(Compiler::new().compile(with_caps("vacation \\"away\\";").as_bytes()).unwrap());
    let mut ctx = rt.filter(MSG.as_bytes()).with_envelope(Envelope::From, "sender@example.net").with_envelope(Envelope::To, "me@example.com").with_envelope(Envelope::Orcpt, "other@example.com");
    let mut input = Input::script("main", main);
    let mut got = vec![];
    while let Some(r) = ctx.run(input) {
        got.push(format!("{r:?}"));
        input = Input::True;
    }
    expect("asked", got.iter().any(|e| e.contains("DuplicateId")), false);
""",
  needs="a runtime that uses the original recipient and a message addressed to the rewritten one", breaks="a response is sent all the same"),
 dict(id="c18-invalid-alimit", property="C18",
  edits=[(A + "action_redirect.rs", """                                if d.is_valid() {
                                    d.to_timestamp().into()
                                } else {
                                    None
                                }""", """                                Some(d.to_timestamp())""")],
  demo="""
    let got = run("set \\"d\\" \\"2020-13-45T10:00:00Z\\"; redirect :bytimeabsolute \\"${d}\\" \\"x@example.org\\";", MSG);
    expect("alimit", got.iter().any(|e| e.contains("alimit: 0")), true);
""",
  needs="a deadline, held in a variable, that is no date", breaks="a made-up time is handed on"),
 dict(id="c18-redirect-copy-uncounted", property="C18",
  edits=[(A + "action_redirect.rs", "                ctx.num_redirects += 1;\n", "                ctx.num_redirects += usize::from(!self.copy);\n")],
  demo="""
    let rt = runtime().with_max_redirects(1).with_max_out_messages(10);
    let got = run_full(&rt, &Compiler::new(), "redirect :copy \\"a@example.org\\"; redirect :copy \\"b@example.org\\";", &[], MSG, &mut |_| None);
    expect("sent", got.iter().filter(|e| e.contains("SendMessage")).count(), 1);
""",
  needs="several redirects with :copy", breaks="they are not limited"),
 dict(id="c16-return-nested", property="C16",
  edits=[(INSTR, """                            let mut num_pops = 0;

                            for block in [&state.block]
                                .into_iter()
                                .chain(state.block_stack.iter().rev())
                            {
                                if let Word::ForEveryPart = &block.btype {
                                    num_pops += 1;
                                }
                            }

                            if num_pops > 0 {
                                state
                                    .instructions
                                    .push(Instruction::ForEveryPartPop(num_pops));
                            }

                            state.instructions.push(Instruction::Return);""", """                            let mut num_pops = 0;

                            for block in [&state.block]
                                .into_iter()
                                .chain(state.block_stack.iter().rev())
                            {
                                match &block.btype {
                                    Word::ForEveryPart => num_pops += 1,
                                    Word::While => break,
                                    _ => (),
                                }
                            }

                            if num_pops > 0 {
                                state
                                    .instructions
                                    .push(Instruction::ForEveryPartPop(num_pops));
                            }

                            state.instructions.push(Instruction::Return);""")],
  demo="""
    let m = "From: a@b.org\\r\\nMIME-Version: 1.0\\r\\nContent-Type: multipart/mixed; boundary=b\\r\\n\\r\\n--b\\r\\nContent-Type: text/plain\\r\\nX-P: one\\r\\n\\r\\n1\\r\\n--b\\r\\nContent-Type: text/html\\r\\nX-P: two\\r\\n\\r\\n2\\r\\n--b--\\r\\n";
    let got = run_full(&runtime(), &Compiler::new(), "foreverypart { include \\"inc\\"; if header :mime :is \\"X-P\\" \\"one\\" { fileinto \\"one\\"; } elsif header :mime :is \\"X-P\\" \\"two\\" { fileinto \\"two\\"; } else { fileinto \\"other\\"; } }",
        &[("inc", "foreverypart { while \\"true\\" { return; } }")], m, &mut |_| None);
    let got = got.iter().filter(|e| e.contains("FileInto")).map(|e| e.split('"').nth(1).unwrap().to_string()).collect::<Vec<_>>();
    expect("parts", got, vec!["other".to_string(), "one".to_string(), "two".to_string()]);
""",
  needs="return from inside a while that is inside a foreverypart of an included script", breaks="the part loop is not left"),
 dict(id="c05-stop-pops-one", property="C05",
  edits=[(CTX, """                    Instruction::Stop => {
                        self.script_stack.clear();
                        break 'outer;""", """                    Instruction::Stop => {
                        if self.script_stack.len() < 3 {
                            self.script_stack.clear();
                            break 'outer;
                        }
                        self.script_stack.pop();
                        break;""")],
  demo="""
    let got = run_full(&runtime(), &Compiler::new(), "include \\"one\\"; fileinto \\"end\\";",
        &[("one", "include \\"two\\"; fileinto \\"mid\\";"), ("two", "stop;")], MSG, &mut |_| None);
    expect("stopped", got.iter().filter(|e| e.contains("FileInto")).count(), 0);
""",
  needs="stop in a script included by an included script", breaks="the outer script goes on"),
 dict(id="c17-require-leaks", property="C17",
  edits=[(C + "action_require.rs", """            capabilities.push(capability.clone());
            self.block.capabilities.insert(capability);

            if let Some(capability) = parent_capability""", """            capabilities.push(capability.clone());
            self.block_stack
                .first_mut()
                .unwrap_or(&mut self.block)
                .capabilities
                .insert(capability);

            if let Some(capability) = parent_capability""")],
  demo="""
    let c = Compiler::new();
    let s = "if true { require \\"fileinto\\"; fileinto \\"a\\"; } fileinto \\"b\\";";
    expect("compiles", c.compile(s.as_bytes()).is_ok(), false);
""",
  needs="a capability only declared inside a block, used after it", breaks="it is accepted"),
 dict(id="c15-value-ends-at-break", property="C15",
  edits=[(A + "action_editheader.rs", """                if header_value.len() + ch.len_utf8() <= max_len {
                    header_value.push(ch);
                } else {
                    return header_value;
                }""", """                if header_value.len() + ch.len_utf8() <= max_len {
                    header_value.push(ch);
                }""")],
  demo="""
    let rt = runtime().with_max_header_size(8);
    let got = run_full(&rt, &Compiler::new(), "addheader \\"X-A\\" \\"abcdefg\\u{e9}z\\"; keep;", &[], MSG, &mut |_| None);
    expect("value", got.iter().any(|e| e.contains("X-A: abcdefg\\\\r")), true);
""",
  needs="a value cut inside a run of multi-byte characters followed by a single-byte one", breaks="characters after the cut appear"),
 dict(id="c08-set-cut-skips", property="C08",
  edits=[(A + "action_set.rs", """                if ch.len_utf8() + new_variable.len() <= self.runtime.max_variable_size {
                    new_variable.push(ch);
                } else {
                    break;
                }""", """                if ch.len_utf8() + new_variable.len() <= self.runtime.max_variable_size {
                    new_variable.push(ch);
                }""")],
  demo="""
    let rt = runtime().with_max_variable_size(8);
    let got = run_full(&rt, &Compiler::new(), "set \\"a\\" \\"abcdefg\\u{e9}z\\"; fileinto \\"${a}\\";", &[], MSG, &mut |_| None);
    expect("value", got.iter().any(|e| e.contains("\\"abcdefg\\"")), true);
""",
  needs="a value cut before a multi-byte character and followed by a single-byte one", breaks="characters after the cut appear"),
 dict(id="c20-date-of-uri", property="C20",
  edits=[(A + "action_notify.rs", """                    HeaderName::Date => {
                        has_date = true;
                    }
                    HeaderName::MessageId => {
                        has_message_id = true;
                    }
                    HeaderName::From => {
                        continue;
                    }""", """                    HeaderName::Date => {
                        has_date = value.contains(',');
                    }
                    HeaderName::MessageId => {
                        has_message_id = true;
                    }
                    HeaderName::From => {
                        continue;
                    }""")],
  demo="""
    let got = run("notify \\"mailto:x@example.org?date=1%20Jan%202020%2010:00:00%20+0000\\";", MSG);
    let got = got.iter().find(|e| e.starts_with("CreatedMessage")).unwrap().to_lowercase().matches("\\\\ndate: ").count();
    expect("dates", got, 1);
""",
  needs="a mailto URI giving a date without a day name", breaks="the message has two dates"),
 dict(id="c20-double-escape", property="C20",
  edits=[(A + "action_notify.rs", """                State::Address((header, true)) => {
                    insert_address(
                        &mut params,
                        header.clone(),
                        String::from_utf8(std::mem::take(&mut buf)).ok()?,
                    );
                    state = State::Address((header.clone(), false));
                    has_addresses = true;
                }
                State::ParamValue(_) => buf.push(ch),""", """                State::Address((header, true)) => {
                    insert_address(
                        &mut params,
                        header.clone(),
                        String::from_utf8(std::mem::take(&mut buf)).ok()?,
                    );
                    state = State::Address((HeaderName::To, false));
                    has_addresses = true;
                }
                State::ParamValue(_) => buf.push(ch),""")],
  demo="""
    let got = run("notify \\"mailto:x@example.org?cc=a@example.org,b@example.org\\";", MSG);
    expect("cc", got.iter().any(|e| e.contains("Cc: <a@example.org>, <b@example.org>")), true);
""",
  needs="a second address in the cc of the URI", breaks="it moves to To"),
]
