TOK = "src/compiler/lexer/tokenizer.rs"
T = "src/runtime/tests/"
A = "src/runtime/actions/"
BUGS = [
 dict(id="c10-index-stops", property="C10",
  edits=[(T + "test_header.rs", "continue 'outer;", "break 'outer;")],
  demo="""
    let m = "From: a@b.org\\r\\nTo: other@example.com\\r\\nCc: me@example.com\\r\\n\\r\\nbody\\r\\n";
    expect("found", folders("if address :index 1 :is [\\"To\\", \\"Cc\\"] \\"me@example.com\\" { fileinto \\"yes\\"; }", m), vec!["yes".to_string()]);
""",
  needs="a test with :index on several headers of which only a later one matches", breaks="the later header is not looked at"),
 dict(id="c10-second-group", property="C10",
  edits=[(T + "test_address.rs", "HeaderValue::Address(Address::Group(group_list)) => {\n                for group in group_list {", "HeaderValue::Address(Address::Group(group_list)) => {\n                for group in group_list.iter().take(1) {")],
  demo="""
    let m = "From: a@b.org\\r\\nTo: one: x@example.com;, two: me@example.com;\\r\\n\\r\\nbody\\r\\n";
    expect("found", folders("if address :is \\"To\\" \\"me@example.com\\" { fileinto \\"yes\\"; }", m), vec!["yes".to_string()]);
""",
  needs="a header with two groups of addresses", breaks="the second group is not seen"),
 dict(id="c25-mailbox-name-case", property="C25",
  edits=[(T + "test_metadata.rs", "a.eq(b) && c.eq_ignore_ascii_case(d)", "a.eq_ignore_ascii_case(b) && c.eq_ignore_ascii_case(d)")],
  demo="""
    let rt = runtime();
    let main = Arc::new(Compiler::new().compile(with_caps("if metadata :is \\"work\\" \\"/private/comment\\" \\"x\\" { fileinto \\"yes\\"; }").as_bytes()).unwrap());
    let mut ctx = rt.filter(MSG.as_bytes()).with_metadata(Metadata::Mailbox { name: "Work".to_string(), annotation: "/private/comment".to_string() }, "x");
    let mut input = Input::script("main", main);
    let mut got = vec![];
    while let Some(r) = ctx.run(input) {
        got.push(format!("{r:?}"));
        input = Input::True;
    }
    expect("matched", got.iter().any(|e| e.contains("yes")), false);
""",
  needs="two mailboxes whose names differ in letter case", breaks="the annotation of another mailbox is taken"),
 dict(id="c25-metadata-runtime-first", property="C25",
  edits=[(T + "test_metadata.rs", "let value = if let Some((_, value)) = [&ctx.metadata, &ctx.runtime.metadata]", "let value = if let Some((_, value)) = [&ctx.runtime.metadata, &ctx.metadata]")],
  demo="""
    let md = || Metadata::Server { annotation: "/comment".to_string() };
    let rt = runtime().with_metadata(md(), "old");
    let main = Arc::new(Compiler::new().compile(with_caps("if servermetadata :is \\"/comment\\" \\"new\\" { fileinto \\"yes\\"; }").as_bytes()).unwrap());
    let mut ctx = rt.filter(MSG.as_bytes()).with_metadata(md(), "new");
    let mut input = Input::script("main", main);
    let mut got = vec![];
    while let Some(r) = ctx.run(input) {
        got.push(format!("{r:?}"));
        input = Input::True;
    }
    expect("matched", got.iter().any(|e| e.contains("yes")), true);
""",
  needs="an annotation set both for the run and for the runtime", breaks="the value for the run is shadowed"),
 dict(id="c11-inserted-invalid", property="C11",
  edits=[(T + "test_date.rs", """            if let HeaderValue::DateTime(dt) = MessageStream::new(&bytes).parse_date() {
                if dt.is_valid() {""", """            if let HeaderValue::DateTime(dt) = MessageStream::new(&bytes).parse_date() {
                if dt.month > 0 {""")],
  demo="""
    let got = folders("addheader \\"X-Date\\" \\"Mon, 45 Mar 2020 10:00:00 +0000\\"; if date :matches \\"X-Date\\" \\"year\\" \\"*\\" { fileinto \\"yes\\"; }", MSG);
    expect("matched", got.iter().any(|f| f == "yes"), false);
""",
  needs="a header added by the script whose value is no valid date", breaks="the test takes it for a date"),
 dict(id="c21-enclose-subject", property="C21",
  edits=[(A + "action_mime.rs", """            .map(|s| {
                ctx.eval_value(s)
                    .to_string()
                    .as_ref()
                    .remove_crlf(ctx.runtime.max_header_size)
            })
            .or_else(|| {""", """            .map(|s| ctx.eval_value(s).to_string().into_owned())
            .or_else(|| {""")],
  demo="""
    let got = run("set \\"s\\" \\"x\\r\\nBcc: evil@example.org\\"; enclose :subject \\"${s}\\" \\"text\\"; fileinto \\"a\\";", MSG);
    expect("injected", got.iter().any(|e| e.contains("\\\\r\\\\nBcc: evil")), false);
""",
  needs="a subject of enclose that comes from a variable holding a line break", breaks="a header line is injected"),
 dict(id="c26-slash-star-slash", property="C26",
  edits=[(TOK, """                            self.last_ch = 0;
                            self.state = State::BracketComment;""", """                            self.state = State::BracketComment;""")],
  demo="""
    let got = folders("fileinto /*/ discard; /*/ \\"a\\";", MSG);
    expect("folders", got, vec!["a".to_string()]);
""",
  needs="a comment that begins /*/", breaks="the comment ends at once"),
 dict(id="c01-line-after-string", property="C01",
  edits=[(TOK, """                        if is_eof {
                            self.new_line();""", """                        if is_eof {""")],
  demo="""
    let e = Compiler::new().compile(b"require \\"reject\\";\\r\\nreject text:\\r\\nhello\\r\\n.\\r\\n;\\r\\nkeep 5;\\r\\n").unwrap_err();
    expect("line", e.line_num(), 6);
""",
  needs="an error after a multi-line string", breaks="the reported line is too low"),
 dict(id="c01-line-in-comment", property="C01",
  edits=[(TOK, """                    b'/' if last_ch == b'*' => {
                        self.state = State::None;
                    }
                    b'\\n' => {
                        self.new_line();
                    }""", """                    b'/' if last_ch == b'*' => {
                        self.state = State::None;
                    }
                    b'\\n' if last_ch != b'*' => {
                        self.new_line();
                    }""")],
  demo="""
    let e = Compiler::new().compile(b"/* one *\\n two */ keep;\\nkeep 5;\\n").unwrap_err();
    expect("line", e.line_num(), 3);
""",
  needs="a comment with a line that ends in a star", breaks="the reported line is too low"),
]
