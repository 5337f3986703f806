#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Compiling any bytes terminates with a script or a positioned error",
  "Compiling any byte string, under any compiler limits, terminates with either a compiled script or a compile error; it never panics, aborts or loops. A reported error position never lies beyond the end of the source text.",
  ["inputs", "configurations"], "all byte strings as script source, including truncated, mutated and non-UTF-8 text, and all settings of the compiler limits",
  "The .svtest files compile a few hundred hand-written scripts; the error paths of the tokenizer and of each command parser are reached by only a handful of malformed ones.",
  ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/string.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/expr/tokenizer.rs", "src/compiler/grammar/expr/parser.rs"],
  [("tokenizer with explicit error tokens", "src/compiler/lexer/tokenizer.rs"), ("recursive-descent command parser", "src/compiler/grammar/instruction.rs")],
  ["Compiler::compile"])

p("C02", "Configured compiler limits are enforced exactly",
  "A script that exceeds the configured maximum for script size, string length, variable name length, number of local variables, block nesting, test nesting, foreverypart nesting, include count, match-variable number or added-header length is refused with a compile error. A script that stays within every limit is not refused because of a limit.",
  ["programs", "configurations"], "all limit values and all scripts whose use of the limited resource is at, just below or just above it, in any syntactic position",
  "The suite checks two of the nine limits at one value each; off-by-one and positional errors (nested inside other constructs, after a closed block) need every value and shape.",
  ["src/compiler/mod.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/compiler/lexer/tokenizer.rs", "src/compiler/grammar/actions/action_editheader.rs"],
  [("limit comparisons at the point of consumption", "src/compiler/grammar/instruction.rs")],
  ["Compiler::compile", "Compiler::with_max_*"])

p("C03", "Running any compiled script never panics and always finishes",
  "Running any script that compiled, against any message bytes, envelope and host answers, never panics, aborts or loops. The run yields a bounded number of events and then ends.",
  ["programs", "inputs", "histories"], "all compiled scripts, all message byte strings (malformed MIME included), all runtime limits and all sequences of host answers",
  "Tests run each script on one or two clean messages with a cooperative host; malformed structure, edits followed by further edits, and odd host answers are not sampled.",
  ["src/runtime/context.rs", "src/runtime/eval.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_editheader.rs", "src/runtime/tests/mime.rs", "src/runtime/tests/glob.rs"],
  [("interpreter loop", "src/runtime/context.rs")], ["Context::run"])

p("C04", "The CPU limit bounds every run and stops nothing else",
  "A run executes at most the configured number of instructions, counted over the main script and all included scripts; when the limit is hit the run reports a CPU-limit error and still delivers the pending final disposition. Up to that point the events are a prefix of the unlimited run's, and a run that finishes within the limit is identical to the unlimited run.",
  ["programs", "configurations"], "all scripts with loops, includes and host round trips, and every value of the CPU limit",
  "No test lowers the CPU limit at all; the relation between a limited and an unlimited run quantifies over every cut point.",
  ["src/runtime/context.rs"], [("instruction counter", "src/runtime/context.rs"), ("finish_loop", "src/runtime/context.rs")], ["Context::run", "Runtime::set_cpu_limit"])

p("C05", "Control flow follows the written program",
  "if/elsif/else executes exactly the first branch whose test is true, allof/anyof/not nested to any depth have their boolean meaning with left-to-right short-circuit evaluation, and stop ends processing at once. while, foreverypart, break (also labelled) and continue execute exactly the iterations the source describes, and leave no trace on enclosing or following loops.",
  ["programs"], "all nestings of conditionals, boolean test trees, loops and jumps within the compiler limits",
  "Jump targets are patched by position, so each shape of nesting is a separate case; tests contain a few dozen shapes and almost no nested loops.",
  ["src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/runtime/context.rs"],
  [("jump patching at block end", "src/compiler/grammar/instruction.rs"), ("De Morgan rewriting of not(anyof/allof)", "src/compiler/grammar/test.rs"), ("part iterator stack", "src/runtime/context.rs")],
  ["Context::run"])

p("C06", "The message disposition is never lost or duplicated",
  "A run ends with exactly one implicit or explicit keep unless an executed action cancelled it: discard or reject cancel it, fileinto and redirect cancel the implicit keep unless :copy is given, and a later keep restores it. Every executed fileinto, redirect and reject is reported exactly once, in order, with its folder, flags and options as written. A script error or a hit limit never cancels the keep that was pending.",
  ["programs", "histories"], "all sequences of actions, with and without :copy, :flags, :create, under conditionals, includes, errors and message edits",
  "The interplay of final disposition, queued events and errors depends on the order of actions; tests check single actions, mostly by counting events.",
  ["src/runtime/context.rs", "src/runtime/actions/action_fileinto.rs", "src/runtime/actions/action_redirect.rs"],
  [("final_event", "src/runtime/context.rs"), ("queued_events", "src/runtime/context.rs")], ["Context::run"])

p("C07", "String and number literals denote exactly what is written",
  "A string written as a quoted string, as a multi-line text block or with encoded characters denotes the same value to the script as the text it encodes: escapes, dot-stuffing, line endings, embedded quotes, comment characters and arbitrary UTF-8 text survive unchanged. Number literals with K, M and G suffixes denote the corresponding powers of 1024.",
  ["inputs"], "all strings, in each notation, in every position that accepts a string; all numbers",
  "Only a few literals are tested; whether a literal is read correctly depends on every adjacent pair of characters.",
  ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/string.rs"], [("tokenizer states", "src/compiler/lexer/tokenizer.rs"), ("encoded-character decoding", "src/compiler/lexer/string.rs")], ["Compiler::compile", "Event::FileInto folder"])

p("C08", "Variables hold, scope and transform values as specified",
  "A variable reference yields the last value assigned to that name, compared case-insensitively, in the nearest enclosing scope, or the empty string if there is none; block-local values do not survive their block. A string argument that names a variable means, in every action and test that takes one, the same as the value written out. set applies its modifiers in precedence order (case, first letter, replace, quoting, URL encoding, length), and no stored value exceeds the configured maximum variable size or ends inside a character.",
  ["programs", "inputs", "configurations"], "all sequences of assignments and references in nested blocks, all values, all modifier combinations and all variable size limits",
  "Slots are assigned by block structure and reused, so correctness depends on the whole history of declarations; tests use short flat scripts.",
  ["src/runtime/actions/action_set.rs", "src/runtime/variables.rs", "src/runtime/eval.rs", "src/compiler/grammar/instruction.rs", "src/compiler/lexer/string.rs"],
  [("slot allocation and Clear at block end", "src/compiler/grammar/instruction.rs"), ("modifier ordering", "src/compiler/grammar/actions/action_set.rs")], ["Event::FileInto folder", "Context::global_variable"])

p("C09", "Match types and comparators decide as their definitions say",
  "A test is true exactly when some tested value matches some key under its match type (:is, :contains, :matches with * and ?, :regex, :value, :count) and comparator (i;octet, i;ascii-casemap, i;ascii-numeric), and its negation is its exact complement. Match variables hold precisely the text each wildcard or regular-expression group matched, leftmost-shortest for wildcards, and empty for groups that did not take part.",
  ["inputs"], "all values, keys, match types, comparators, source and key lists, and every choice of which match variables are used",
  "The relation is over pairs of arbitrary strings; tests list a few dozen pairs and rarely use more than one key.",
  ["src/runtime/tests/comparator.rs", "src/runtime/tests/glob.rs", "src/runtime/tests/test_string.rs", "src/runtime/tests/test_header.rs"],
  [("glob matcher with captures", "src/runtime/tests/glob.rs"), ("relational comparison", "src/runtime/tests/comparator.rs")], ["Context::run"])

p("C10", "Header, address, envelope, exists and size tests see the message as it is",
  "header, address, exists and size decide on the headers and octets the message really has: every occurrence of a field, in order, unfolded, with encoded words decoded, addresses split into the requested part, and :index/:last selecting the stated occurrence. envelope decides on the envelope values supplied by the host.",
  ["inputs"], "all messages built from a structured model, all header names, address parts, indices, and test arguments",
  "Each test quantifies over message content and arguments; the suite has a few fixed messages.",
  ["src/runtime/tests/test_header.rs", "src/runtime/tests/test_address.rs", "src/runtime/tests/test_envelope.rs", "src/runtime/tests/test_exists.rs", "src/runtime/tests/test_size.rs"],
  [("header lookup with index", "src/runtime/tests/test_header.rs")], ["Context::run"])

p("C11", "Date tests extract the right date part in the right zone",
  "The date test compares the named part of the date of the selected header occurrence, converted to the requested zone (the original zone with :originalzone, the local zone UTC by default), for every part: year to second, julian, iso8601, std11, zone and weekday. currentdate parts are mutually consistent and consistent with the clock.",
  ["inputs"], "all valid date headers, zones, date parts, match types and indices",
  "Calendar arithmetic has to hold for every date, leap year and zone offset; the suite tests a few dates.",
  ["src/runtime/tests/test_date.rs", "src/compiler/grammar/tests/test_date.rs"], [("zone conversion", "src/runtime/tests/test_date.rs")], ["Context::run"])

p("C12", "Body and MIME-part tests see the right parts",
  "body :raw, :text and :content test exactly the decoded content of the parts they select, header and address tests with :mime and :anychild look at exactly the current part or all parts below it, and foreverypart visits every part of the message once, in depth-first order, at every nesting depth.",
  ["inputs", "programs"], "all MIME trees within a size bound, transfer encodings, content-type selectors and nested loops",
  "The part sets selected by each option depend on the tree shape; tests use three or four fixed trees.",
  ["src/runtime/tests/test_body.rs", "src/runtime/tests/mime.rs", "src/runtime/context.rs"], [("part iterators", "src/runtime/tests/mime.rs")], ["Context::run"])

p("C13", "Expressions evaluate to their mathematical value",
  "An expression has the value given by the documented operators with the usual precedence, left associativity, parentheses and unary operators; && and || decide by short circuit. Arithmetic saturates instead of overflowing, and a call of an external function, answered by the host in the middle of an expression, yields the same result as the same expression with the answer written in.",
  ["programs", "inputs"], "all well-formed expressions over constants, variables, arrays and functions, in every place that takes an expression",
  "The compiled form uses relative jumps and a value stack; every operator combination and nesting is a case of its own.",
  ["src/compiler/grammar/expr/parser.rs", "src/compiler/grammar/expr/tokenizer.rs", "src/runtime/expression.rs"], [("shunting-yard compilation with short-circuit jumps", "src/compiler/grammar/expr/parser.rs"), ("stack evaluation and resume", "src/runtime/expression.rs")], ["Context::run", "Input::FncResult"])

p("C14", "IMAP flags behave as a case-insensitive ordered set",
  "setflag, addflag and removeflag treat a flag variable as a set of flags compared without case: a flag is present after addflag or setflag and absent after removeflag, no flag is stored twice or empty, and strings containing several flags separated by spaces mean the list of them. hasflag tests that set, and keep and fileinto carry exactly the internal variable's flags, or those given by :flags.",
  ["programs", "histories"], "all sequences of flag actions on the internal and named variables, all flag spellings and list layouts",
  "The set is stored in a string list updated in place; its correctness is a property of operation histories.",
  ["src/runtime/actions/action_flags.rs", "src/runtime/tests/test_hasflag.rs", "src/runtime/context.rs"], [("flag list editing", "src/runtime/actions/action_flags.rs")], ["Event::Keep flags", "Event::FileInto flags"])

p("C15", "Header edits change exactly the header they name",
  "After any sequence of addheader and deleteheader the resulting message equals the original with exactly those fields inserted or removed: all other bytes, in header and body, are unchanged and in order, protected fields are neither added nor removed, and later tests and size see the edited message. A message that was not effectively edited is not reported as changed.",
  ["programs", "inputs", "histories"], "all edit sequences with :last, :index and value patterns on all messages",
  "Edits are applied to offset tables and replayed on output; tests check a few edits of one message.",
  ["src/runtime/actions/action_editheader.rs", "src/runtime/actions/action_mime.rs"], [("header tables and build_message", "src/runtime/actions/action_mime.rs")], ["Event::CreatedMessage", "Context::has_message_changed"])

p("C16", "Included scripts run in place, isolated except for globals",
  "include runs the named script at that point, once per execution or only once with :once, and :optional scripts that do not exist are skipped. Included scripts share global variables but neither local nor match variables with their caller, return ends only the script it appears in, stop ends everything, and nesting beyond the configured depth is an error that leaves the pending disposition in force.",
  ["programs", "histories"], "all include graphs, cyclic ones included, locations, flags and variable declarations",
  "Caller state is saved and restored on a stack; correctness is a property of the whole call history.",
  ["src/runtime/actions/action_include.rs", "src/runtime/context.rs"], [("script stack", "src/runtime/context.rs"), ("script cache for :once", "src/runtime/actions/action_include.rs")], ["Context::run", "Event::IncludeScript"])

p("C17", "Extensions are usable only when declared and allowed",
  "A command, test or argument belonging to an extension compiles only if the script requires that extension in an enclosing scope (or the check is switched off), and a script requiring a capability the runtime does not allow stops with a capability error before any later action. ihave is true exactly for the capabilities the runtime allows, and unsupported constructs guarded by it are refused only when executed.",
  ["programs", "configurations"], "all extension commands, tests and arguments, all require placements and all sets of allowed capabilities",
  "The requirement is a table with an entry per construct; tests check a few entries, mostly in the accepting direction.",
  ["src/compiler/grammar/instruction.rs", "src/compiler/grammar/mod.rs", "src/compiler/grammar/actions/action_require.rs", "src/runtime/context.rs"], [("validate_argument", "src/compiler/grammar/mod.rs"), ("Require instruction", "src/runtime/context.rs")], ["Compiler::compile", "Context::run"])

p("C18", "Outgoing mail is capped and loops are not fed",
  "In one run at most the configured number of redirects and, counting redirects, vacation replies and notifications together, at most the configured number of outgoing messages are produced. No redirect is made for a message with more Received fields than configured or to the user's own address, and a redirect that is not performed does not cancel the implicit keep.",
  ["programs", "configurations", "histories"], "all sequences of redirect, vacation and notify actions, all cap values and Received counts",
  "Counters are updated in several actions; tests never reach a cap except one redirect.",
  ["src/runtime/actions/action_redirect.rs", "src/runtime/actions/action_vacation.rs", "src/runtime/actions/action_notify.rs"], [("num_redirects and num_out_messages", "src/runtime/actions/action_redirect.rs")], ["Event::SendMessage", "Event::Notify"])

p("C19", "Vacation replies only to the right mail, once per period",
  "vacation sends no reply to empty, system, list or bulk senders, to automatic messages, to the user's own addresses, or to mail that is not addressed to one of the user's addresses; otherwise it asks the host for a duplicate decision with an identifier and the period given by :days or :seconds, and replies exactly when told it is not a duplicate. The reply goes to the envelope sender, carries the given subject or a prefixed original one, threading headers, an Auto-Submitted header and the given reason.",
  ["inputs", "programs"], "all envelopes, message headers and vacation arguments",
  "Suppression is a conjunction over many header forms; tests cover each rule with one example.",
  ["src/runtime/actions/action_vacation.rs"], [("TestVacation", "src/runtime/actions/action_vacation.rs")], ["Event::DuplicateId", "Event::SendMessage", "Event::CreatedMessage"])

p("C20", "Notifications carry the requested content to valid targets",
  "notify produces one notification exactly when the method is an acceptable URI (a scheme and a non-empty rest, well formed for mailto) and the message is not an automatic one; a mailto method becomes one message to exactly the addresses of the URI, with the requested importance, the given or original subject and the body from the action or the URI, and any other method is handed to the host unchanged. valid_notify_method and notify_method_capability agree with what notify does.",
  ["inputs", "programs"], "all method URIs, messages, importance values and options",
  "URI decoding and message construction depend on arbitrary text; tests have a handful of URIs.",
  ["src/runtime/actions/action_notify.rs", "src/runtime/tests/test_notify.rs"], [("parse_mailto", "src/runtime/actions/action_notify.rs"), ("validate_uri", "src/runtime/actions/action_notify.rs")], ["Event::Notify", "Event::SendMessage", "Event::CreatedMessage"])

p("C21", "Script or sender text cannot inject headers or recipients",
  "No text taken from a variable, an argument, a URI or the original message can add a header field, end the header section or add a recipient: every message created or edited by the interpreter has exactly the header fields the executed actions imply, and no recipient or address handed to the host contains a line break.",
  ["inputs", "programs"], "all values, including control characters, line breaks and encoded words, in every argument that reaches a header or an address",
  "Injection needs hostile text in one particular argument; no test uses any.",
  ["src/runtime/actions/action_vacation.rs", "src/runtime/actions/action_notify.rs", "src/runtime/actions/action_editheader.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_redirect.rs"],
  [("remove_crlf", "src/runtime/actions/action_editheader.rs"), ("sanitize_address", "src/runtime/actions/action_redirect.rs")], ["Event::CreatedMessage", "Event::SendMessage"])

p("C22", "MIME edits keep the message well formed and the rest intact",
  "replace substitutes exactly the current part, enclose wraps the complete message, extracttext stores the (bounded) text of the current part and convert rewrites only parts of the named type; the resulting message parses to the expected tree, and all untouched parts and headers keep their content. Sequences of such edits, inside and outside foreverypart, behave as the composition of the single edits.",
  ["programs", "inputs", "histories"], "all MIME trees within a size bound and all sequences of MIME edits",
  "Edits mutate a shared part table that iterators also index; tests apply one edit to a fixed message.",
  ["src/runtime/actions/action_mime.rs", "src/runtime/actions/action_convert.rs"], [("part table edits", "src/runtime/actions/action_mime.rs")], ["Event::CreatedMessage", "Context::global_variable"])

p("C23", "A stored compiled script behaves like the freshly compiled one",
  "Serialising a compiled script and reading it back, with either supported format, yields an equal script; running it produces the same events and results as running the original on every message.",
  ["programs", "inputs"], "all compiled scripts, including regular expressions, all value kinds and large scripts",
  "Serialisation covers every instruction and argument type; there is no test that runs a restored script.",
  ["src/lib.rs", "src/compiler/mod.rs", "src/compiler/grammar/instruction.rs"], [("derived serialisation with lazily rebuilt regular expressions", "src/compiler/mod.rs")], ["Sieve", "Context::run"])

p("C24", "Runs are deterministic and isolated from each other",
  "The same script, message, configuration and host answers always give the same events, whatever ran before with the same compiler, runtime or compiled script and whatever runs at the same time on other threads. Compilation is deterministic too.",
  ["histories", "schedules", "programs"], "all sequences and concurrent mixes of runs sharing a compiler, a runtime and compiled scripts",
  "Shared state (compiled regular expressions, registered functions, runtime settings) leaks only in particular orders of runs.",
  ["src/runtime/context.rs", "src/compiler/mod.rs"], [("immutable Runtime and Arc<Sieve>, per-run Context", "src/runtime/context.rs")], ["Context::run"])

p("C25", "Tests answered by the host or its configuration ask and answer faithfully",
  "duplicate, mailboxexists, mailboxidexists, specialuse_exists, external-list tests, valid_ext_list, metadata, environment, spamtest and virustest put exactly the question written in the script to the host or its configured data, once, and are true exactly when the answer (or the configured value under the match type) says so; under not they are exactly false.",
  ["programs", "histories", "configurations"], "all arguments, all host answers and all configured values, in any boolean context",
  "The answer is folded into the test result through a protocol of suspended execution; tests answer a few fixed questions.",
  ["src/runtime/tests/test_duplicate.rs", "src/runtime/tests/mod.rs", "src/runtime/tests/test_metadata.rs", "src/runtime/tests/test_spamtest.rs", "src/runtime/tests/test_extlists.rs", "src/runtime/context.rs"], [("TestResult::Event and Input folding", "src/runtime/context.rs")], ["Event::DuplicateId", "Event::MailboxExists", "Event::ListContains"])

p("C26", "Layout and letter case of the source do not change a script",
  "Comments (hash and bracketed), white space, line endings, and the letter case of command, test, tag and variable names do not change what a script means: two sources that differ only in these compile to equivalent scripts or are both rejected. Tagged arguments may be given in any order, and a one-element list equals the element.",
  ["programs"], "all scripts and all layout-preserving rewrites of them",
  "A metamorphic relation over all source texts; tests have a handful of layouts.",
  ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/word.rs", "src/compiler/grammar/instruction.rs"], [("tokenizer", "src/compiler/lexer/tokenizer.rs")], ["Compiler::compile", "Context::run"])

p("C27", "Message, envelope and environment variables yield what is really there",
  "A variable that names a header field, the current part, the body, the envelope or the environment yields exactly what the message, the envelope or the configured environment holds: the named fields in any spelling and in message order, the occurrence selected by an index from the start, from the end or all of them, and the selected part of it (text, raw, name, address and its parts, content type and attributes, date, identifier, Received components). It is empty when there is nothing, sees the header fields the script added and not the ones it deleted, and means the same in a string, in set and in an expression.",
  ["programs", "inputs", "histories"], "all variable names, indices and part selectors over all messages, envelopes and environments, in every part of a foreverypart iteration and after every edit",
  "The value depends on the message, the index arithmetic, the part selector and the edits together; tests read a fixed message.",
  ["src/runtime/eval.rs", "src/compiler/lexer/string.rs", "src/compiler/grammar/expr/tokenizer.rs", "src/runtime/context.rs"], [("HeaderVariable evaluation", "src/runtime/eval.rs"), ("variable name parsing", "src/compiler/lexer/string.rs")], ["Event::FileInto folder"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
