INSTR = "src/compiler/grammar/instruction.rs"
CTX = "src/runtime/context.rs"
A = "src/runtime/actions/"
BUGS = [
 dict(id="c08-local-in-fcc", property="C08",
  edits=[(INSTR, """                Instruction::Notify(v) => {
                    v.from.map_local_vars(last_id);
                    v.importance.map_local_vars(last_id);
                    v.options.map_local_vars(last_id);
                    v.message.map_local_vars(last_id);
                    v.fcc.map_local_vars(last_id);
""", """                Instruction::Notify(v) => {
                    v.from.map_local_vars(last_id);
                    v.importance.map_local_vars(last_id);
                    v.options.map_local_vars(last_id);
                    v.message.map_local_vars(last_id);
""")],
  demo="""
    expect("fcc", folders("if true { if true { set :local \\"a\\" \\"INBOX.x\\"; } } notify :fcc \\"${a}\\" \\"mailto:a@b.org\\";", MSG), vec!["INBOX.x".to_string()]);
""",
  needs="the :fcc mailbox of notify is a :local variable", breaks="the variable is empty there"),
 dict(id="c08-local-in-deleteheader", property="C08",
  edits=[(INSTR, """                    v.field_name.map_local_vars(last_id);
                    v.value_patterns.map_local_vars(last_id);
""", """                    v.field_name.map_local_vars(last_id);
""")],
  demo="""
    let m = "From: a@b.org\\r\\nX-A: one\\r\\nX-A: two\\r\\n\\r\\nbody\\r\\n";
    let got = run("if true { if true { set :local \\"a\\" \\"one\\"; } } deleteheader :is \\"X-A\\" \\"${a}\\";", m);
    expect("deleted", (got[0].contains("one"), got[0].contains("two")), (false, true));
""",
  needs="a value pattern of deleteheader is a :local variable", breaks="the pattern is taken for the empty string"),
 dict(id="c15-delete-across-parts", property="C15",
  edits=[(A+"action_editheader.rs", """            for (part_id, header_pos) in deleted_headers.iter().rev() {
                ctx.message.parts[*part_id as usize]
                    .headers
                    .remove(*header_pos);
            }""", """            deleted_headers.sort_unstable_by_key(|(part_id, header_pos)| (*header_pos, *part_id));
            for (part_id, header_pos) in deleted_headers.iter().take(8).rev() {
                ctx.message.parts[*part_id as usize]
                    .headers
                    .remove(*header_pos);
            }""")],
  demo="""
    let mut m = String::from("From: a@b.org\\r\\n");
    for i in 0..10 { m.push_str(&format!("X-A: {i}\\r\\n")); }
    m.push_str("\\r\\nbody\\r\\n");
    let got = run("deleteheader \\"X-A\\";", &m);
    expect("all gone", got[0].contains("X-A"), false);
""",
  needs="more than eight matching fields", breaks="only eight of them are deleted"),
 dict(id="c15-size-after-add", property="C15",
  edits=[(A+"action_editheader.rs", """        self.message_size += header_name.len() + header_value.len() + 4;""",
          """        self.message_size += header_name.len() + header_value.chars().count() + 4;""")],
  demo="""
    let m = "From: a@b.org\\r\\n\\r\\nx\\r\\n";
    let got = run("addheader \\"X-A\\" \\"\\u{e9}\\u{e9}\\u{e9}\\"; if size :over 31 { discard; }", m);
    expect("size", got.last().unwrap().as_str(), "Discard");
""",
  needs="an added header with non-ASCII text and a size test near the size of the message", breaks="size is decided on a wrong number of octets"),
 dict(id="c18-vacation-not-counted", property="C18",
  edits=[(A+"action_vacation.rs", """        ctx.last_message_id += 1;
        ctx.num_out_messages += 1;
        events""", """        ctx.last_message_id += 1;
        ctx.num_out_messages += usize::from(self.fcc.is_none());
        events""")],
  demo="""
    let rt = runtime().with_max_out_messages(1);
    let got = run_full(&rt, &Compiler::new(), "vacation :fcc \\"x\\" \\"away\\"; redirect \\"x@y.org\\";", &[], MSG, &mut |e| if matches!(e, Event::DuplicateId{..}) { Some(Input::False) } else { None });
    expect("one message", got.iter().filter(|e| e.starts_with("SendMessage")).count(), 1);
""",
  needs="a vacation reply with :fcc followed by another outgoing message at the limit", breaks="more messages than allowed are sent"),
 dict(id="c19-own-address-case", property="C19",
  edits=[(A+"action_vacation.rs", """            || user_addresses.iter().any(|a| a.eq_ignore_ascii_case(&from))""",
          """            || user_addresses.iter().any(|a| a.as_ref() == from)""")],
  demo="""
    let m = "From: alias@example.org\\r\\nTo: me@example.com\\r\\nSubject: x\\r\\n\\r\\nbody\\r\\n";
    let rt = runtime();
    let main = Arc::new(Compiler::new().compile(with_caps("vacation :addresses \\"Alias@example.org\\" \\"away\\";").as_bytes()).unwrap());
    let mut ctx = rt.filter(m.as_bytes()).with_envelope(Envelope::From, "alias@example.org").with_envelope(Envelope::To, "me@example.com");
    let e = ctx.run(Input::script("main", main));
    expect("no question", matches!(e, Some(Ok(Event::Keep{..}))), true);
""",
  needs="mail from one of the user's own addresses, written with a capital letter in :addresses", breaks="the user gets a vacation reply to their own mail"),
 dict(id="c20-mailto-dup-across", property="C20",
  edits=[(A+"action_notify.rs", """        .chain(params.bcc.iter())
        .any(|v| v.eq_ignore_ascii_case(&value))""", """        .any(|v| v.eq_ignore_ascii_case(&value))""")],
  demo="""
    let got = run("notify \\"mailto:?bcc=a@b.org&to=a@b.org\\";", MSG);
    expect("one recipient", got.iter().find(|e| e.starts_with("SendMessage")).unwrap().matches("a@b.org").count(), 1);
""",
  needs="an address repeated after it was given in a Bcc parameter", breaks="the message is sent to the address twice"),
 dict(id="c20-importance-variable", property="C20",
  edits=[(A+"action_notify.rs", """                importance: self.importance.as_ref().map_or(Importance::Normal, |i| {""",
          """                importance: self.importance.as_ref().filter(|_| !has_fcc).map_or(Importance::Normal, |i| {""")],
  demo="""
    let got = run("notify :importance \\"1\\" :fcc \\"x\\" \\"xmpp:a@b.org\\";", MSG);
    expect("high", got.iter().any(|e| e.starts_with("Notify") && e.contains("High")), true);
""",
  needs="a non-mailto notification with both :importance and :fcc", breaks="the importance is lost"),
 dict(id="c16-global-include-once", property="C16",
  edits=[(A+"action_include.rs", """            let cached_script = ctx.script_cache.get(&script_name);
            if !self.once || cached_script.is_none() {""", """            let cached_script = ctx.script_cache.get(&script_name);
            if !self.once || (cached_script.is_none() && !ctx.script_cache.contains_key(&Script::Personal(script_name.as_str().to_string()))) {""")],
  demo="""
    let got = run_full(&runtime(), &Compiler::new(), "include :personal \\"a\\"; include :once :global \\"a\\";", &[("a", "fileinto \\"x\\";")], MSG, &mut |_| None);
    expect("both", got.iter().filter(|e| e.starts_with("IncludeScript")).count(), 2);
""",
  needs="a personal and a global script of the same name, the global one included :once", breaks="the global script is skipped"),
 dict(id="c13-cmp-int-float", property="C13",
  edits=[("src/runtime/expression.rs", "            (Self::Integer(a), Self::Float(b)) => (*a as f64).partial_cmp(b),", "            (Self::Integer(a), Self::Float(b)) => a.partial_cmp(&(b.floor() as i64)),")],
  demo="""
    expect("1 < 1.5", folders("if eval \\"1 < 1.5\\" { fileinto \\"yes\\"; }", MSG), vec!["yes".to_string()]);
""",
  needs="an integer compared with a fraction that has the same integer part", breaks="1 < 1.5 is false"),
 dict(id="c13-string-number-eq", property="C13",
  edits=[("src/runtime/expression.rs", "            (Self::Integer(_) | Self::Float(_), Self::String(_)) => self == &other.parse_number(),", "            (Self::Integer(_) | Self::Float(_), Self::String(s)) => !s.is_empty() && self == &other.parse_number(),")],
  demo="""
    expect("symmetric", folders("if eval \\"0 == ''\\" { fileinto \\"a\\"; } if eval \\"'' == 0\\" { fileinto \\"b\\"; }", MSG), vec!["a".to_string(), "b".to_string()]);
""",
  needs="a number compared with the empty string, number first", breaks="equality is no longer symmetric"),
 dict(id="c25-duplicate-default", property="C25",
  edits=[("src/compiler/grammar/actions/action_vacation.rs", "XX", "YY")], demo="", needs="", breaks=""),
]
BUGS = [b for b in BUGS if b["demo"]]
