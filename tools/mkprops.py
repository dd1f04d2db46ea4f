import json
P=[]
IMPL="pomelo-impl/src/parser/mod.rs"; FE="pomelo-impl/src/lib.rs"; DE="pomelo-impl/src/decl.rs"; LIB="src/lib.rs"
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or ["Parser::parse","Parser::end_of_input","user code blocks of the grammar"]
    d["anchors"]["hook_needed"]=None
    P.append(d)
p("C01","Generated parsers accept exactly the language of their grammar",
 "For every grammar the macro accepts, feeding the tokens of a sentence of the grammar and then end_of_input succeeds, and feeding any other token sequence reports a syntax error. The error is detected at the first token that cannot continue any sentence prefix read so far, before that token is consumed, and never by a panic, an endless loop or a wrong reduction.",
 ["programs","inputs"],"every grammar accepted by pomelo!, every token sequence of any length",
 "The tests feed a handful of sentences to about thirty grammars; the claim ranges over every parser state, lookahead and stack.",
 [IMPL],[("LR(0) state construction, lookahead propagation, action computation, table packing",IMPL+": find_first_sets, find_states, find_links, find_follow_sets, find_actions, compress_tables, resort_states, ActTab::insert_action_set"),("table-driven runtime",IMPL+": generate_source (yy_parse_token, yy_find_shift_action, yy_find_reduce_action, yy_reduce, yy_shift)")],
 [("parser stack","states and values of the viable prefix read so far","generated Parser.yystack")])
p("C02","Actions run once per reduction, bottom-up, on the values of their own rule",
 "On every accepted parse each derivation step runs the action of exactly its rule exactly once, children before parents and left before right. Every alias in an action is bound to the value of the right-hand-side symbol it annotates (token payload or result of the action that produced it), and the value of the start symbol's action is what end_of_input returns.",
 ["programs","inputs"],"every accepted grammar, every accepted input, every alias position",
 "Tests check final results of a few inputs; a swapped alias of equal type or a rule run under another index shows only for particular rules, rule lengths and type combinations.",
 [IMPL],[("value popping and pattern binding",IMPL+": translate_code"),("rule dispatch, goto and accept",IMPL+": generate_source yy_reduce")])
p("C03","Ambiguous grammars are rejected, LALR(1) grammars are not",
 "A grammar with a shift/reduce or reduce/reduce conflict that precedence declarations do not resolve is rejected at compile time, so no ambiguity is ever resolved silently. A grammar that is LALR(1) after precedence resolution is never rejected for conflicts.",
 ["programs"],"every grammar",
 "A few fixed conflicting grammars are tested; conflicts depend on lookahead sets of arbitrary grammars.",
 [IMPL],[("conflict counting",IMPL+": find_actions, resolve_conflict"),("lookahead sets",IMPL+": find_links, find_follow_sets")],observe=["compile-time result of pomelo!"])
p("C04","Precedence and associativity resolve conflicts as declared",
 "When a rule and the next token both have a precedence a shift/reduce conflict is resolved in favour of the one declared later, and on equal precedence %left reduces, %right shifts and %nonassoc makes that token a syntax error. A rule's precedence is that of its bracketed %-override if given, else of its first right-hand-side terminal with a precedence, and between two rules the higher precedence wins. Precedence never changes anything where there is no conflict.",
 ["programs","inputs"],"every grammar with precedence declarations, every operator combination and input",
 "Tests use one or two arithmetic grammars; rules with several terminals, overrides and nonassoc interplay are unbounded.",
 [IMPL],[("rule precedence",IMPL+": find_rule_precedences"),("conflict resolution",IMPL+": resolve_conflict, precedence_cmp"),("explicit error actions survive compression",IMPL+": compress_tables")])
p("C05","%fallback substitutes a token only where it would otherwise be an error",
 "With %fallback F A B, a token A that has an action of its own in the current state is used as A; where A is not acceptable but F is (following chains of fallbacks), it is used as F and keeps its own payload. A fallback never makes the parser reject what it would otherwise accept, and no fallback declaration can make macro or parser loop forever.",
 ["programs","inputs"],"every grammar with fallbacks, every state and token",
 "One small fallback grammar is tested; the interplay with default reductions and chains depends on the state.",
 [IMPL],[("fallback lookup",IMPL+": generate_source yy_find_shift_action_2, YY_FALLBACK"),("default reductions must not hide fallbacks",IMPL+": compress_tables"),("loop check",IMPL+": parse_one_decl Decl::Fallback")])
p("C06","%wildcard matches any token that has no other action, and nothing more",
 "Where the grammar allows the wildcard, any token not otherwise acceptable in that state (directly or by fallback) is accepted in its place; a token with an action of its own always takes that action. End of input is never matched by the wildcard.",
 ["programs","inputs"],"every grammar with %wildcard, every state and token",
 "Tests use a single wildcard grammar; whether a default reduction or the wildcard wins depends on each state's action set.",
 [IMPL],[("wildcard lookup",IMPL+": generate_source yy_find_shift_action_2"),("compression guard",IMPL+": compress_tables")])
p("C07","Compound tokens and token classes match exactly their members",
 "A compound A|B|C or a %token_class in a right-hand side matches each of its member tokens and no other token, wherever it stands in whichever rule. An alias on it is bound to the payload of the token actually read.",
 ["programs","inputs"],"every grammar using compounds or classes, every member in every position",
 "Tests try a class or two in one position each.",
 [IMPL],[("multi-terminals in FIRST sets, shifts and packing",IMPL+": prepare, find_first_sets, build_shifts, find_follow_sets, same_symbol handling"),("declarations",IMPL+": parse_one_decl Decl::TokenClass, Decl::Rule")])
p("C08","X? and rules without action code mean what the manual says",
 "X? matches zero or one X and its alias is Some(value of X) or None accordingly (a marker for untyped X), the same for every use of X? in the grammar. A rule without action code whose left-hand side has a type yields the value of its single value-carrying symbol of that type; where there is no such unique symbol the macro reports an error.",
 ["programs","inputs"],"every use of ? and every action-less rule",
 "Tests contain a few instances; typed/untyped, terminal/nonterminal and repeated uses multiply.",
 [IMPL],[("optional desugaring",IMPL+": prepare"),("implicit actions",IMPL+": normalize_rules")])
p("C09","Syntax errors without an error symbol: report, discard, resume",
 "In a grammar without the error symbol, a syntax error calls %syntax_error exactly once unless fewer than three tokens have been shifted since the previous error, in which case it is silent; if the code returns Ok the offending token is discarded, the parse state is otherwise unchanged and parse returns Ok, if it returns Err parse returns that error. A premature end of input calls %parse_fail and end_of_input returns its value.",
 ["programs","histories"],"every grammar without error symbol, every sequence of good and bad tokens",
 "The suppression counter and discarded tokens matter only in histories with several errors at particular distances; tests have one or two such inputs.",
 [IMPL],[("error branch of the driver",IMPL+": generate_source yy_parse_token_2")],[("error_count","tokens still to shift before errors are reported again","generated Parser.error_count")])
p("C10","Error-symbol recovery resynchronises as documented",
 "In a grammar using the error symbol, a syntax error pops the stack until either its top is the error symbol, and then the offending token is discarded silently, or its state can shift error, and then %syntax_error is called once with the offending token and error is shifted with the value it returned. If no state on the stack can shift error, or input ends in an error, %parse_fail decides the error returned; the popped values are dropped and never reach an action.",
 ["programs","histories"],"every grammar with error rules, every stack and offending token",
 "Recovery depends on the whole stack at the time of the error; tests exercise one grammar.",
 [IMPL],[("error branch of the driver",IMPL+": generate_source yy_parse_token_2, yy_find_reduce_action")])
p("C11","A failed parse stays failed, and end_of_input ends the parser",
 "After parse or an action returned Err, every later parse or end_of_input call panics instead of continuing with a damaged stack, and no user code runs. end_of_input consumes the parser and returns Ok only if the input was accepted; there is no way to obtain the result earlier, twice, or from a parser not at the end of its input.",
 ["histories","programs"],"every call history on every generated parser",
 "Requires all orders of calls after all kinds of failure; tests stop at the first error.",
 [IMPL],[("status typestate",IMPL+": generate_source YYStatus, yy_parse_token, end_of_input_priv")],[("yystatus","Normal, Failed or Accepted(value)","generated Parser.yystatus")])
p("C12","%stack_size bounds the stack and overflow is reported, not fatal",
 "With %stack_size N (N>0; 100 without the directive) the parser stack never holds more than N entries, counting the one it starts with, every parse that needs no more than N entries is unaffected, and an attempt to exceed it calls %stack_overflow with the token being shifted (or none) and returns its value as Err. With limit 0 there is no bound and %stack_overflow is never called.",
 ["programs","inputs"],"every limit, grammar and input depth",
 "Off-by-one limits show only at exactly N entries on the reduce or the shift path; tests use one limit and one input.",
 [IMPL],[("limit check on push",IMPL+": generate_source yy_shift, YYSTACKLIMIT")])
p("C13","The expected-token list is exact",
 "When %syntax_error runs, iterating over expected yields, by name, exactly the tokens for which the parser has an action (shift or reduce, directly or through fallback) in the state where the error was detected: each once, no other, and not the offending one. For tokens without a payload the token field is the token itself, and for those with one it is None.",
 ["programs","inputs"],"every state in which a syntax error can be reported",
 "Tests compare the list in one or two states.",
 [IMPL],[("ExpectedTokens iterator",IMPL+": generate_source ExpectedTokens::next, YY_TOKEN_NAMES")])
p("C14","Error handlers receive the offending token itself",
 "%syntax_error receives as token exactly the token passed to the failing parse call, same variant and same payload, also when the token was tried through fallback or wildcard or after reductions. %stack_overflow receives the token being shifted, or None when the overflow happens while storing the result of a reduction.",
 ["programs","inputs"],"every token variant, payload type and state",
 "The reconstruction is per token and payload type; tests look at a couple of variants.",
 [IMPL],[("token deconstruction and reconstruction",IMPL+": generate_source token_value, token_build")])
p("C15","The extra argument is kept by the parser, seen by all user code, and given back",
 "The value passed to Parser::new is the one that extra, extra_mut and into_extra expose and that every action, %syntax_error, %parse_fail and %stack_overflow block sees as extra, so mutations by any of them are visible to all later ones. end_of_input returns that same value together with the result; it is never replaced, reset or dropped before.",
 ["programs","histories"],"every grammar with %extra_argument and every call history",
 "Tests check simple counters in one grammar.",
 [IMPL],[("extra field and its borrow in user code",IMPL+": generate_source new_priv, yy_reduce, yy_shift, yy_parse_failed, yy_syntax_error_2, end_of_input_priv")])
p("C16","%extra_token travels with every token",
 "With %extra_token T every Token variant carries a T: alone for untyped tokens, paired with the declared payload as (T, payload) for typed ones; Token::extra, extra_mut and into_extra give exactly that T for every variant. Actions bound to a token see the same pair.",
 ["programs","inputs"],"every token of every grammar with %extra_token",
 "One grammar with two tokens is tested; accessor arms are generated per token type.",
 [IMPL],[("token payload types and accessors",IMPL+": prepare, generate_source token_extra")])
p("C17","The generated interface is the documented one",
 "The macro generates a module with a Token enum with one variant per terminal of the grammar and its declared type, and a Parser with new, parse, end_of_input (and into_extra, extra, extra_mut with %extra_argument) of the documented signatures, honouring %module, %token, %parser, %error, %type, %default_type, %include, attributes, visibility and generic parameters as written. Code blocks see exactly the documented names, and the alias of a symbol may be any irrefutable pattern for its type. Nothing else is visible to users.",
 ["programs"],"every combination of directives",
 "Tests instantiate some combinations; signatures are types, to be compared for all.",
 [IMPL,FE,LIB,"src/generated"],[("item emission",IMPL+": generate_source"),("documented mirror","src/generated/mod.rs, with_extra_argument.rs, without_extra_argument.rs")],observe=["type signatures of the generated items"])
p("C18","Invalid grammars are rejected with a located error, never a panic or hang",
 "Every ill-formed directive or grammar (duplicate or contradictory declarations, wrong kind of symbol, missing start or rules, ill-typed aliases, cyclic fallbacks or classes, malformed syntax) is rejected with an ordinary compile error whose span is on the offending construct. The macro itself never panics, loops or emits code that fails to compile or panics because of such a mistake.",
 ["programs"],"every ill-formed grammar of the listed kinds, in every directive order",
 "compile-fail tests pin one spelling per diagnostic; omissions (self references, empty classes) are invisible to them.",
 [FE,DE,IMPL],[("syntax",FE+": impl Parse for Decl"),("semantic checks",IMPL+": parse_one_decl, new_from_decls, prepare, find_first_sets, generate_source, translate_code")],observe=["compile-time diagnostics of pomelo!"])
p("C19","The description of the automaton is true",
 "%verbose prints one description of the automaton of the grammar, and a rejection for conflicts contains one: every state with exactly its items, rules by their number in the grammar, every action on every symbol, exactly the unresolved conflicts marked as such and the actions that lost by precedence marked as dropped. Without %verbose an accepted grammar prints nothing.",
 ["programs"],"every grammar, accepted or rejected for conflicts",
 "No test looks at the text; whether a mark, an item or a number is right depends on the lookahead sets and on every competition between actions.",
 [IMPL],[("the report",IMPL+": report_output"),("when it is printed",IMPL+": build"),("marks of conflicts",IMPL+": resolve_conflict")],observe=["standard output of the expansion with %verbose","the message of the compile error for conflicts"])
p("C20","Expansion is deterministic and hermetic",
 "The same grammar text always expands to the same code, whatever the process, hash seeds, environment variables, working directory, time or other invocations of the macro. Expanding a grammar reads nothing but its input and changes nothing outside the compiler, apart from the report printed on request by %verbose.",
 ["programs","configurations"],"every grammar and every build environment",
 "Hash-seed dependent order shows in a fraction of runs and differs between compilations, never within one test.",
 [IMPL,FE],[("ordered iteration, no ambient input",IMPL+", "+FE)],observe=["macro output"])
p("C21","Generated parsers are safe Rust without shared state",
 "Generated code contains no unsafe and no mutable or interior-mutable static, so any number of parsers of one grammar can be interleaved or used on different threads without affecting one another. A parser and its tokens are Send and Sync whenever the user's types are.",
 ["programs","schedules"],"every grammar, any number of parser instances and threads",
 "Tests run one parser at a time on one thread.",
 [IMPL],[("all state lives in the Parser value; tables are immutable statics",IMPL+": generate_source")])
p("C22","No value is lost, leaked or duplicated inside the parser",
 "Every token payload, action result and extra argument moved into the parser is either moved out to user code exactly once or dropped exactly once, on success, failure, recovery, overflow and when an unfinished parser is dropped. Generated code never forgets, leaks or copies a user value.",
 ["programs","histories"],"every grammar, value and call history",
 "Leaks are invisible to tests that do not count drops, and depend on the error path taken.",
 [IMPL],[("values move through the stack by ownership",IMPL+": generate_source, translate_code")])
p("C23","Grammar size does not change behaviour",
 "The encoding chosen for states, symbols, rules and table offsets always represents every value stored in it: grammars at and beyond the limits of 8- and 16-bit encodings in number of tokens, nonterminals, rules and states parse exactly as small ones do. Nothing is silently truncated.",
 ["programs"],"every grammar size",
 "All tests have a few dozen symbols and states, below every width boundary.",
 [IMPL],[("integer type selection",IMPL+": minimum_signed_type, minimum_unsigned_type and their uses in generate_source")])
p("C24","Generated code works without std",
 "A #![no_std] crate can use pomelo: apart from the default Vec stack, which %stack_size replaces, generated code refers to nothing outside core and the user's own crate. This holds for every directive combination.",
 ["programs","configurations"],"every grammar in a no_std crate",
 "No test builds a no_std crate.",
 [IMPL,LIB],[("paths in quoted templates",IMPL+": generate_source")],observe=["name resolution of the expanded code"])
p("C25","A custom stack needs only the documented interface",
 "Any type with the documented stack interface (new, push, pop, last, clear, is_empty, len with Vec-like signatures) can be named in %stack_size, with no other method, trait or bound. The parser keeps all its entries in that type and in no other storage.",
 ["programs"],"every stack type with the documented interface",
 "Tests use types that offer far more (Vec, ArrayVec).",
 [IMPL,LIB],[("stack operations in the template",IMPL+": generate_source")])
p("C26","Errors from user code reach the caller unchanged",
 "An Err produced in an action with ? or return, or by %syntax_error, and the value of %parse_fail or %stack_overflow, is returned by the parse or end_of_input call during which it arose, unchanged, immediately and with no further user code run. With %error absent the error type is (), and default blocks produce Default::default().",
 ["programs","histories"],"every rule and handler of every grammar",
 "Tests fail from one or two actions; every rule and both entry points have their own path.",
 [IMPL],[("error propagation",IMPL+": generate_source yy_reduce, yy_parse_token_2, end_of_input_priv")])
p("C27","Directive order does not matter except where declared to",
 "Reordering directives, or rules relative to directives, changes neither acceptance of the grammar nor the behaviour of the parser, except for the order among precedence directives and the first rule acting as start symbol without %start_symbol. %verbose, %module and renaming symbols consistently change nothing in the behaviour.",
 ["programs"],"every permutation of the declarations of every grammar",
 "Tests have one order each.",
 [IMPL],[("declarations are collected before anything is computed",IMPL+": new_from_decls, parse_one_decl, prepare")])
p("C28","The cost of parsing is linear in the input",
 "Feeding n tokens costs O(n) table lookups and reductions for a fixed grammar: no token starts an endless or repeated run of reductions, each shift, reduction and lookup takes a bounded number of steps whatever the depth of the stack, the number of tokens or the number of states, and nothing is rescanned or copied. The generated tables are packed, sharing rows and holes, instead of being full matrices of states and symbols.",
 ["programs","inputs"],"every grammar and every input",
 "Tests measure nothing; inputs of a few tokens cannot tell linear from quadratic.",
 [IMPL],[("table-driven parsing",IMPL+": generate_source")])
p("C29","The macro terminates on every grammar in reasonable time and memory",
 "For every token stream given to pomelo! expansion terminates within time polynomial in the grammar size.",
 ["programs"],"every grammar",
 "Quantifies over all grammars.",
 [IMPL],[("worklists and fixpoints",IMPL+": find_states, find_follow_sets, configlist_closure")])
p("C30","Errors in the user's own code are reported where the user wrote it",
 "Types, bounds, attributes, items, patterns and code blocks in a grammar keep their places in the expansion: a mistake in one of them (unknown name, wrong type, refutable pattern, borrow error, denied lint...) is reported by the compiler at the offending tokens of the user, in whatever directive, rule or handler they stand, and not at the macro call. Code that pomelo adds causes no warning.",
 ["programs"],"every mistake in every piece of user code of every grammar",
 "Tests compile correct grammars; the location of an error shows only when there is one.",
 [IMPL,"pomelo-impl/src/lib.rs"],[("user tokens are carried with their spans",IMPL+": generate_source, translate_code")],observe=["diagnostics of the compiler for the expanded code"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
