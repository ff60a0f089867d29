# The properties: one source for properties.jsonl, MANIFEST.json and DESIGN.md (see mkdocs.py).
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, design, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, design=design, note=note))


prop("C01", "Lexing loses nothing and is total",
     "Every text is split into tokens that, put end to end, are exactly that text: no character is lost, duplicated or reordered, and lexing never panics. A text has the token kinds and boundaries that the language defines (literals, operators, symbols, blanks, comments), and a token that is invalid is reported at its place.",
     ["inputs"], "every text over the alphabet up to the bound, including multi-byte characters, unterminated literals and comments",
     "The tests lex a handful of short programs; a byte-offset mistake shows only for particular character sequences, such as an escape before a multi-byte character.",
     ["src/tokenizer.rs"],
     [("hand-written combinators over byte offsets", "src/tokenizer.rs: tokenize, parse_token"), ("escape handling in string literals", "src/tokenizer.rs: string_literal")],
     "All strings over several alphabets (operators, letters, digits, quotes, backslash, newline, multi-byte letters, '#') up to a length, and all sequences of token fragments, are lexed by the implementation and by an independent reference lexer (`spec/lex.rs`) that works on characters and maximal munch. The tiling (concatenation of the tokens is the text), kinds and boundaries must agree.",
     "Exhaustive to the bounded length per alphabet; the reference lexer is the oracle.")

prop("C02", "Programs are parsed into the structure the grammar defines",
     "A program is parsed into the one structure that the documented precedence, associativity and nesting rules give it, whatever the formatting: blanks, comments and redundant parentheses do not change what is run. A program that the grammar does not allow is refused.",
     ["programs"], "every sequence of tokens up to the bound, and every expression tree up to a size in every equivalent layout",
     "The tests parse a few fixed expressions; an operator with the wrong precedence relative to just one other, or an argument dropped in one position, is never sampled.",
     ["src/parser.rs", "src/tokenizer.rs"],
     [("one function per precedence level", "src/parser.rs: parse_expression and its callees"), ("negated arguments, blocks, lambdas and macros", "src/parser.rs")],
     "Every sequence of tokens up to a length from several vocabularies is parsed by the implementation and by an independent precedence-climbing reference parser (`spec/parse.rs`); results (tree or refusal) must be equal. All expression trees up to a size are also written with minimal parentheses, in several layouts, and must come back as that tree.",
     "Exhaustive to the bounded number of tokens; the reference parser is the oracle.")

prop("C03", "Parsing always ends, with a program or a diagnosis of the right place",
     "Parsing any text ends in time polynomial in its length, with bounded memory and stack, either with a program or with an error report; it never panics, hangs or overflows the stack however deeply things nest. The report of a syntax error names a line and a text that are in the program.",
     ["inputs"], "every token sequence up to the bound, every pair and triple of nesting constructs repeated to great depth, and every mutation of valid programs",
     "The tests parse small valid programs: neither nesting depth nor malformed input is exercised, and exponential backtracking is invisible at small sizes.",
     ["src/parser.rs", "src/tokenizer.rs", "src/error.rs"],
     [("nesting bound", "src/parser.rs: MAX_NESTING"), ("memoised alternatives", "src/parser.rs"), ("error position and excerpt", "src/error.rs, src/parser.rs")],
     "All texts over token vocabularies up to a length, every word of 1-3 nesting constructs repeated to a depth (10, 100, 1000, 10000 levels), opened only, and closed, are parsed under a time-out in a child process with a bounded stack: a result must come back, and an error report must quote a line of the program with the right number.",
     "Exhaustive over the enumerated nesting words and texts; polynomial time is judged by a generous time-out at the largest depth.")

prop("C04", "Builtins never crash the shell",
     "Calling any builtin with any number of arguments of any kind ends with a value or a reported error: it never panics, aborts or overflows, so that a mistake in a script cannot take the user's shell down. An operation that cannot be done, such as a missing argument or one of the wrong kind, is reported as an error.",
     ["inputs"], "every builtin with every tuple of up to three arguments from a pool with at least one value of every kind and every extreme",
     "The tests call few builtins, each with one or two well-formed arguments; an index, shift, slice or arithmetic that panics needs particular arguments.",
     ["src/binary/init/*.rs", "src/expr.rs"],
     [("argument count checks", "src/binary/init/mod.rs: check_exact_args_len"), ("checked arithmetic and bounds", "src/binary/init/*.rs")],
     "Every builtin reachable from the initial environment (found by walking it, so new ones are included) is called in an unprivileged scratch process with every tuple of 0, 1, 2 (and, over a smaller pool, 3) arguments; a panic, abort, signal, stack overflow, time-out or out-of-memory is a violation. Builtins that wait for a terminal or for time to pass are called with input at its end or are excluded by name with the reason in the evidence.",
     "Exhaustive over the pools; the pools have a representative of every kind of value and its extremes.")

prop("C05", "Programs evaluate to what the language defines",
     "Every program built from the language's core (variables, assignment, blocks, conditionals, loops, functions, macros, quotation, application) evaluates to the value or error, prints the output, and leaves the variables that the documented semantics gives. Evaluation order is left to right, and each argument is evaluated exactly as often as the semantics says.",
     ["programs"], "every program up to the size bound from each of several starting environments",
     "The tests run a dozen fixed programs; interactions of two or three constructs (a loop that rebinds its list, a macro in a function, a quoted closure) are not among them.",
     ["src/expr.rs", "src/binary/init/mod.rs"],
     [("the evaluator loop", "src/expr.rs: eval_mut"), ("captured environments of functions", "src/expr.rs: Lambda"), ("macros run in the caller's environment", "src/expr.rs: Macro")],
     "All terms of the core up to a size (2.4 million in the quick tier) are run by the implementation and by an independent reference evaluator (`spec/eval.rs`) from several starting environments; value or kind of error, printed output and all variables afterwards must agree.",
     "Exhaustive to the term size; the reference evaluator is the model, and every one of its traces is replayed against the implementation.")

prop("C06", "Functions cannot change their caller's variables; macros can",
     "Calling a function never changes the variables of its caller and a function sees the variables it captured as they were when it was made, while a macro runs in, and can change, its caller's variables, wherever it is called, also in an argument of a function of the library. Sequences of definitions, redefinitions, removals and calls always leave exactly the bindings that this rule gives.",
     ["histories"], "every sequence of statements up to the bound from a vocabulary of definitions, assignments, calls, removals and nested scopes; and every function of the library with a macro that changes a variable in each of its arguments",
     "Needs histories: capture-then-rebind, shadow-then-remove, call-in-loop; the tests have one short program of this kind.",
     ["src/expr.rs", "src/env.rs", "src/binary/init/mod.rs"],
     [("environment of a call", "src/expr.rs: eval_mut (Lambda, Macro)"), ("capture", "src/expr.rs: get_used_symbols"), ("unbind, set", "src/binary/init/mod.rs, sys_module.rs")],
     "Explicit-state exploration of all statement sequences up to a depth over a vocabulary of scoping statements; each history runs in the implementation and the reference environment model, all bindings compared after each.",
     "Exhaustive to the depth; reference model replayed against the implementation for every history.")

prop("C08", "Operators compute what they are documented to compute",
     "Every operator gives, for every combination of operands, the result that arithmetic, comparison, logic, indexing and repetition define, or reports an error for operands it does not accept or results that do not fit. Operands are evaluated once each, from left to right, and the short-circuit operators evaluate no more than they need.",
     ["inputs"], "every operator on every tuple of up to three operands from pools with every kind of value and the extremes",
     "The tests evaluate small sums; the operator-by-type matrix and the ends of the integer range are not covered.",
     ["src/binary/init/operator_module.rs", "src/expr.rs"],
     [("the operator functions", "src/binary/init/operator_module.rs"), ("checked arithmetic on values", "src/expr.rs: impl Add, Sub, Mul, Div, Rem, Neg")],
     "Every operator on every operand tuple of the pools, values and errors compared with reference semantics written over mathematical integers/IEEE doubles (`spec/builtins.rs`); a second pass wraps each operand in a print, and the printed order must be that of the reference.",
     "Exhaustive over the pools.")

prop("C09", "List functions respect their algebra",
     "Every list function gives the list that its documentation describes for every list, count and function, leaves its argument unchanged, and reports an index, count or kind that is not possible as an error. Splitting and joining functions together neither lose, duplicate nor reorder items.",
     ["inputs"], "every list function on every tuple of arguments from pools, and on all lists of two kinds of items up to a length with every count around it",
     "Boundary counts (0, negative, the length, one more) and nested or empty lists are where these break; the tests do not call most of the module.",
     ["src/binary/init/list_module.rs", "src/binary/init/mod.rs"],
     [("the list module", "src/binary/init/list_module.rs")],
     "All lists up to a length times all counts times all functions of the module against the reference; all tuples from mixed pools for kinds and errors; folds with non-commutative functions; print-wrapped arguments for evaluation counts.",
     "Exhaustive over the pools and shapes.")

prop("C10", "Tables behave as finite maps",
     "Every table function behaves as on a finite map from names to values: inserting, removing, looking up, listing, and combining tables give the map that the definition gives, for every table and key. A table given to a function is never changed by it.",
     ["inputs"], "every table function on every pair (and triples) of all tables over three keys with several values, and keys of every kind",
     "Which side wins in a union, or what happens to absent keys and to values that are None, needs all overlaps of two tables; the tests try none.",
     ["src/binary/init/dict_module.rs", "src/binary/init/mod.rs"],
     [("the dict module", "src/binary/init/dict_module.rs"), ("insert, keys, vals, len, @", "src/binary/init/mod.rs")],
     "All 54 tables over three keys, pairwise and with all kinds of keys and other values, against a finite-map reference.",
     "Exhaustive over the pools.")

prop("C11", "Text functions compute what they are documented to compute",
     "Every text function gives the documented result on every text, including empty, multi-line, blank and multi-byte text, and reports an index that is not in the text. Splitting at a separator and joining with it gives the text back, and no function cuts a character in two.",
     ["inputs"], "every text function on every text up to a length over an alphabet with multi-byte letters, blanks and line ends; pairs and triples of texts for functions of two and three",
     "The tests call few of these and never with multi-byte text, an empty separator or an index at the end.",
     ["src/binary/init/string_module.rs", "src/binary/init/mod.rs"],
     [("the string module", "src/binary/init/string_module.rs")],
     "All texts up to a length over the alphabet for unary functions, all pairs/triples of shorter texts for the others, all indices, all shifts: compared with reference functions over sequences of characters.",
     "Exhaustive over the texts; lengths of non-ASCII text are left open between characters and columns.")

prop("C12", "Functions over functions compose as defined",
     "Mapping, filtering, reducing, applying, composing, flipping and currying work for every function, list and number of arguments as their definitions say: a function called with its arguments one at a time, in groups or all at once gives the same result. Variables of the caller never leak into them, whatever their names.",
     ["inputs", "configurations"], "every combination of function, list, and value from pools, called one argument at a time, in groups and all at once, from environments whose variables clash with parameter names",
     "Partial application and hygiene only show in particular groupings of the arguments and particular variable names.",
     ["src/binary/init/fn_module.rs", "src/expr.rs"],
     [("curry", "src/binary/init/fn_module.rs: curry_env"), ("map, filter, reduce and their partial forms", "src/binary/init/fn_module.rs")],
     "Every function of the module over pools of functions, lists and values, with all groupings of arguments, in a plain environment and one whose variables are called like the parameters of the library; results equal the reference's.",
     "Exhaustive over the pools.")

prop("C13", "Mathematical functions are right over the whole range of numbers",
     "Every mathematical function gives the mathematically right result (floats to within rounding) for every integer and float, or reports an error when there is none or it does not fit; no function wraps around silently.",
     ["inputs"], "every math function on all small integers, powers of two and neighbours, both ends of the range, and fractions, huge, tiny and non-finite floats; all pairs for functions of two",
     "Overflow, negative and non-finite cases are not sampled by any test.",
     ["src/binary/init/math_module.rs"],
     [("the math module", "src/binary/init/math_module.rs"), ("overflow checks", "src/binary/init/math_module.rs: checked")],
     "Every function on every number of the pool (all pairs for functions of two), against exact integer references and the elementary functions of the Rust standard library.",
     "Exhaustive over the pools; a relative tolerance of 1e-7 on floats; std's elementary functions are trusted.")

prop("C07", "Runaway recursion ends in an error, and ordinary depth works",
     "A program that recurses without end, through macros, functions, evaluation, mapping, sorting, included code or any other way by which code runs code, ends with an error that the user sees: it neither exhausts the stack nor kills the shell, and the shell works as before afterwards. Recursion to an ordinary depth (a hundred levels by any of these ways) gives its result, in any thread.",
     ["programs"], "every way for code to run code, alone and alternating in pairs and triples, without end and to every ordinary depth",
     "The tests do not recurse; a single path that does not count its depth crashes the shell, and only when entered through that path.",
     ["src/expr.rs", "src/binary/init/*.rs", "src/bin.rs"],
     [("evaluation depth and stack bound", "src/expr.rs: Evaluation, MAX_RECURSION_DEPTH"), ("builtins that call back", "src/binary/init/*.rs")],
     "Every cycle of 1-3 steps from the set of ways by which code runs code is made into a program that recurses without end, run in a child process with the stack of the shell and in a thread, and must end with an error and leave an environment in which a probe program still works. The same cycles with a counter must reach ordinary depths (5, 20, 60) and give the right result; named macros and the calls of the library count down from hundreds, as far as every one of them reaches with room to spare; and a line that is refused again and again goes on working.",
     "Exhaustive over the cycles up to the bound.")

prop("C14", "File operations do what they say, and only that",
     "Every builtin that reads or changes files (copying, moving, removing, making directories, reading, writing, appending, listing, globbing, canonical paths, head and tail, redirections) changes exactly the files its arguments name, in the way it says; it gives the documented result, and when it fails it says so and leaves every other file untouched.",
     ["histories"], "every reachable state of a small file tree and every operation with every arguments in each, with links and with an injected failure at each system call",
     "The tests never touch files; losing data needs particular trees: a directory moved into itself, an existing target, a dangling link, links in a circle, a name with a star in it, a full disk half way.",
     ["src/binary/init/fs_module.rs", "src/binary/init/operator_module.rs"],
     [("copy, move, remove", "src/binary/init/fs_module.rs: copy_path, move_path, remove_path"), ("paths relative to the shell's directory", "src/binary/init/fs_module.rs: join, canonicalize")],
     "Explicit-state search: all trees reachable from a set of roots by operations up to a depth are enumerated on a model of a file system (`spec/files.rs`); in every state every operation is run by the implementation on a real scratch tree as an unprivileged user; result, error or not, and the whole tree afterwards must be the model's. Directories without permission, links (dangling, in circles, to what an operation is about to replace), and names that mean something to patterns or programs, or are not text, have spaces of their own; and in one more every call of the system fails in turn.",
     "Exhaustive over the bounded states and operations; the model is compared with the implementation on every transition.")

prop("C15", "The working directory is one consistent place",
     "Relative paths, redirections and programs started by the shell all refer to the current directory as last changed, by whatever way: directly, in macros, loops, evaluated or included code, or while arguments are evaluated; functions, imports and evaluations with their own scope start in their caller's directory and leave the caller's directory as it was. A change to a directory that does not exist is an error and changes nothing.",
     ["histories"], "every history of up to the bound of statements that move, write by relative names, and run programs",
     "Needs histories of moves through different scopes; the tests have none.",
     ["src/binary/init/fs_module.rs", "src/binary/init/sys_module.rs", "src/binary/init/os_module.rs", "src/env.rs", "src/expr.rs"],
     [("the CWD binding", "src/env.rs: get_cwd, set_cwd"), ("functions inherit it", "src/expr.rs: eval_mut, Lambda"), ("cd", "src/binary/init/os_module.rs")],
     "All sequences of statements up to a length are run on a real scratch tree; after each statement the result, the shell's directory, where a stand-in program and a pipeline report to run, and the files written by relative names in every directory must be those of a small model of scopes and directories.",
     "Exhaustive to the bounded length.")

prop("C16", "Programs get exactly the arguments and environment written",
     "A program started from the shell gets exactly the arguments written: each text is one argument, unchanged whatever characters it has, lists are spread, nothing is passed for None, and numbers and truth values as they are printed; it gets the shell's variables as its environment. This holds in every way to start a program, and a program that cannot be started is reported as not found, not permitted or failed.",
     ["inputs"], "every tuple of arguments up to the bound in every way to start a program, every pair of variables of every kind",
     "Starting programs is not tested at all.",
     ["src/expr.rs", "src/binary/init/mod.rs"],
     [("application of a symbol or text", "src/expr.rs: eval_mut, Apply"), ("environment of programs", "src/expr.rs: bindings")],
     "A stand-in program that prints its arguments, directory or variables in hexadecimal is run with every tuple of arguments from a pool of every kind of value, in each of 17 ways (as symbol, text, path, quoted, alias, variable, in a function, macro, loop, ...), with every pair of variables set, removed and set again, with names that cannot be run, with many and long arguments, and after every history of definitions, removals, loops and calls that change what the variables are between two runs.",
     "Exhaustive over the pools up to the bounded number of arguments.")

prop("C17", "Pipelines pass on exactly what each stage gives",
     "In a pipeline each program reads exactly what the stage before wrote, a function or macro is applied to it as a text (or bytes, when it is not text), the last program's output is shown and the value of the last stage is the result. Nothing is lost or duplicated, nothing hangs however much is written or however little is read, and programs in a pipeline get the same arguments as alone.",
     ["programs", "schedules"], "every pipeline of up to four stages from programs that read all, some or none of their input, write little, much, nothing or binary data, and from functions and builtins",
     "Pipelines are not tested; deadlocks and lost data need a stage that writes more than a pipe holds next to one that does not read.",
     ["src/binary/init/operator_module.rs"],
     [("one stage at a time with buffered output", "src/binary/init/operator_module.rs: pipe_builtin"), ("which expressions are programs", "src/binary/init/operator_module.rs: expr_to_command")],
     "All pipelines over the stage vocabulary up to the bound are run with stand-in programs under a time-out, and output and result are compared with a model of the stages. All tuples of up to two arguments are given to a program in five positions of a pipeline; long pipelines, contents of every byte, and the variables and directory that programs at each place of a pipeline see have spaces of their own.",
     "Exhaustive over the stage words; programs whose output exceeds a pipe's capacity and programs that exit without reading are included, so a deadlock shows as a time-out.")

prop("C18", "Errors are caught where, and as what, the program says",
     "Trying an expression gives its value when it succeeds, without running the handler; when it fails, wherever inside it and in whatever way, what it did before remains and the handler is applied once to a table of exactly the documented code of that kind of error, the message the shell would have reported, and the expression tried. What the handler does, returns or fails with is the outcome.",
     ["programs", "faults"], "every program up to a size of trying, failing, handling, printing and assigning; every kind of error in every place with every handler",
     "The tests try no failing expression: which kind of error an operation reports, through which construct, and what a handler then sees, needs the product of the three.",
     ["src/binary/init/err_module.rs", "src/error.rs", "src/expr.rs"],
     [("try", "src/binary/init/err_module.rs: try_builtin"), ("codes and messages", "src/error.rs: code, Display"), ("errors of programs that cannot be started", "src/expr.rs: eval_mut, Apply")],
     "All terms up to a size over trying (function, macro, other handlers), failing, printing, assigning, calling and looping run in the implementation and the reference evaluator. Every source of every kind of error in every place with every handler is run as `err@try` and, by the definition, as the expression followed by the handler on the table of code, message and expression; value, output and variables must be equal. Tries nested to a depth, and repeated very many times in one program, must give what one gives.",
     "Exhaustive to the term size and over the product of sources, places and handlers.")

prop("C19", "Widgets are rectangles of the size asked for",
     "A widget has exactly the width and height asked for, with borders, its title in the middle of the upper one, and the words of its text in order, broken only where they do not fit; a widget that cannot have that size is refused. All this as a terminal shows it: wide characters take two columns, styles none. Widgets joined side by side or on top of each other are the composition of their rectangles, and widgets whose sizes do not match are refused.",
     ["inputs"], "every text up to a length in several sizes, every size with pools of titles and texts, every tree of joins up to a size",
     "Off-by-one widths show only for particular parities of title and width, lines that end exactly at the border, or text longer than the widget; no test makes a widget.",
     ["src/binary/init/widget_module.rs"],
     [("drawing a widget", "src/binary/init/widget_module.rs: create"), ("joining", "src/binary/init/widget_module.rs: joinx, joiny")],
     "All texts up to a length over letters (one of two bytes), blanks and line ends in five sizes, long texts in wide and tall widgets, and all sizes around and beyond the possible ones with pools of titles and texts, are judged by a reference that measures the rectangle and reads its border, title and words; all trees of up to four widgets, plain and styled, are compared with the composition of grids of characters.",
     "Texts with wide, combining and styled parts are measured in columns by a reference of its own. Exhaustive over the texts, sizes and trees.")

prop("C20", "Styled text shows its text in its style, and nothing else",
     "Text in a style or with a link shows, on a terminal, exactly that text with exactly the styles around it, and what follows it is unaffected; without its styles it is the text again, whatever escape sequences it has. Text filled into a number of columns keeps its words in order, breaks no word that fits, joins no lines, and is no wider.",
     ["inputs"], "every style and link nested up to three deep, beside other text, and every sequence of texts and escape sequences up to a length; every text up to a length filled into each of several widths",
     "A style that is not reset shows only in what follows it, and losing text when stripping needs an escape sequence other than a colour; the tests style nothing.",
     ["src/binary/init/fmt_module.rs", "src/bin.rs"],
     [("the fmt module", "src/binary/init/fmt_module.rs"), ("stripping", "src/bin.rs: strip_ansi_escapes")],
     "The result of every nesting of styles and links is fed to a terminal model (`spec/term.rs`), which gives the style of every character: these must be the styles around it, and the terminal must be in its initial state afterwards. Stripping must give the texts of every sequence of pieces. Filling is judged by a reference that reads the words back.",
     "Exhaustive over the pools and lengths. How text looks after a style inside another has ended is left open.")

prop("C24", "Log messages are shown exactly when their level is enabled",
     "A message of a level is shown, with its level's tag in the level's colour on each line, exactly when the level in force at that time enables it; otherwise nothing is shown and its arguments are not evaluated. Setting, disabling and asking for the level behave as one variable that only a valid setting changes.",
     ["histories"], "every history of up to the bound of setting, disabling, asking and logging at every level with arguments that print and assign",
     "Needs sequences of level changes and messages for all pairs of levels; the tests log nothing.",
     ["src/binary/init/log_module.rs"],
     [("the level", "src/binary/init/log_module.rs: LOG_LEVEL, is_log_level_enabled"), ("messages", "src/binary/init/log_module.rs: info, warn, debug, error, trace")],
     "All histories over 33 operations up to a length are run by the implementation and a model with one variable; after every operation its value, what it prints (as a terminal shows it), the colour of the tag and whether arguments were evaluated must agree. All texts up to a length are logged at every level.",
     "Exhaustive to the bounded length.")

prop("C30", "Console operations act on the screen as they say",
     "Moving, saving, restoring, hiding and showing the cursor, writing at a position, clearing, setting the title and switching screens have, in every sequence, exactly that effect on a terminal: writing puts each line of a text below the one before at the column given and leaves the cursor where it was. A position that is not a number is refused and nothing is printed.",
     ["histories"], "every history of up to the bound of console operations on a small screen",
     "Rows and columns swapped, or an effect on the cursor that only the next operation shows, need sequences of operations on a screen; there is no test.",
     ["src/binary/init/console_module.rs"],
     [("the console module", "src/binary/init/console_module.rs")],
     "Everything the operations print is fed to a terminal model (`spec/term.rs`); its state (contents, cursor, saved cursor, title, visibility, screen) must be, after every operation of every history, that of a model of what the operations say.",
     "Exhaustive to the bounded length, on a screen of 20 x 10. Reading keys needs a terminal and is left out.")

prop("C21", "Texts of data are read as what they say",
     "A text of JSON or TOML is read as exactly the value that it denotes: every key, order, nesting, escape and number, numbers as the closest ones there are, and a text that is not valid is an error, never a part of the value or a guess. The text of a program is read as that program, unevaluated.",
     ["inputs"], "every text over token, string and number alphabets up to the bound, decimals of up to 40 digits, nesting to 2000 levels, every TOML literal in every place and every sequence of TOML lines up to the bound",
     "The tests parse no data: wrong escapes, surrogates, numbers off by one in the last place or tables reopened later are not sampled.",
     ["src/binary/init/parse_module.rs", "src/binary/init/sys_module.rs"],
     [("JSON values", "src/binary/init/parse_module.rs: json_to_expr, parse_json"), ("TOML values", "src/binary/init/parse_module.rs: parse_toml"), ("programs", "src/binary/init/parse_module.rs: parse_expr; sys_module.rs: parse")],
     "Every text of the spaces is given to `parse@json`, `parse@toml`, `parse@expr` and `sys@parse`; the result, a value or an error, must be that of a reference reader of JSON written from RFC 8259, of a reference of TOML's tables and literals, and of the reference parser (`spec/data.rs`, `spec/parse.rs`).",
     "Exhaustive over the alphabets to the bounded lengths. Numbers of more than 18 digits may be off in the last binary place.")

prop("C22", "What is shown and offered while typing fits the text",
     "While a line is typed, what is shown of it is always exactly its text, each token in the colour of its kind and errors marked; a hint is the rest of a line typed before that begins with this one; completions begin with what is before the cursor, replace exactly that, and name a variable or an existing file. None of these fails or panics for any text and any place of the cursor.",
     ["inputs", "histories"], "every text over the alphabet and every sequence of tokens up to the bound, every cursor position, histories of earlier lines, directories with many kinds of names",
     "There is no test of the editor; a slice at a byte that is not a character's start needs multi-byte text before a particular cursor.",
     ["src/bin.rs"],
     [("highlighting", "src/bin.rs: SyntaxHighlighter"), ("hints and completions", "src/bin.rs: DuneHelper, Completer, Hinter"), ("incomplete lines", "src/bin.rs: validate")],
     "The editor's real helper is called with every text at every position. The highlighted text is fed to a terminal model (`spec/term.rs`), which must show the text with the colours that the reference lexer's tokens give; hints and completions are compared with references over the histories and the files of real scratch directories.",
     "Exhaustive over the texts up to the bounded lengths; names with special characters outside quotes are left open.")

prop("C23", "An interactive session carries on through every line",
     "In a session each complete line is run once, in order, in one environment; a line that is not complete is continued by the next ones, an error is reported and changes nothing else, what a line evaluates to is reported, and the history has every line typed, so that a later session has them too. The prompts are what the shell's own functions say, and no mistake in those ends the session.",
     ["histories"], "every session of up to the bound of lines from a vocabulary with continuations, errors and definitions; every division of programs into lines; every set of own prompts and reports",
     "Needs histories of lines: an error between two halves of a line, a prompt that fails after a line that worked; no test runs a session.",
     ["src/bin.rs"],
     [("the loop", "src/bin.rs: Repl::run"), ("history", "src/bin.rs: new_editor, run"), ("prompts and reports", "src/bin.rs")],
     "The real shell is run with every sequence of lines at its input, and its output, errors and history file are compared with a model of a session over the reference parser and evaluator. Its loop is also run in process with scripted lines, with every combination of the user's own prompt and report functions.",
     "Exhaustive to the bounded number of lines.")

prop("C25", "The shell starts, and ends, as it was asked to",
     "For every combination of a script, texts to execute, interactive mode, own prelude and answer to the question whether to make one, the shell runs exactly the prelude, script, texts and lines that are asked for, in that order and in one environment, reports each error, carries on where it should and asks for nothing else. It never overwrites a prelude that exists. This holds in every directory it is started in and with any home, those that are missing or whose names are not text included.",
     ["configurations"], "every combination of five choices: 3985 ways to start, with preludes that are missing, wrong, unreadable or a directory; and 350 of homes, directories (missing, removed, unreadable, of odd names) and ways",
     "The tests do not start the shell; an option that is ignored beside another needs that pair.",
     ["src/bin.rs", "src/.default-dune-prelude", "src/.intro-dune-prelude"],
     [("options and order", "src/bin.rs: run"), ("the prelude", "src/bin.rs: run")],
     "The real shell is started in every way, in a home of its own as an unprivileged user, also on a terminal with its default prelude; output, errors, and the prelude file afterwards are compared with a model of starting.",
     "Exhaustive over the enumerated choices. The introduction's text and the exit status after a reported error are left open.")

prop("C26", "Chance gives every outcome there should be, and no other",
     "Whatever numbers the generator draws, a random integer is in the range asked for, its lower end included and its upper end not; a choice is a member of the list; and a shuffled list is a rearrangement of the list, which itself does not change. Each possible outcome can come, and as often as any other; where there is no outcome, and for other arguments, there is an error.",
     ["inputs", "schedules"], "every tuple of draws on an even grid over all that the generator can draw, for ranges at both ends of the integers, lists of up to 24 members and all orders of up to five",
     "Tests of chance see a few draws: an end that is never reached, a bias, or a panic for one draw in 2^32 is out of their reach.",
     ["src/binary/init/rand_module.rs"],
     [("int, choose, shuffle", "src/binary/init/rand_module.rs")],
     "The generator is replaced by one whose numbers the check chooses. All tuples of draws on a grid are enumerated for each range or list; the outcomes are counted: each expected one must occur, within a quarter as often as every other, and no other may occur.",
     "Exhaustive over the grid of draws; rand's own generator and its mapping of draws to ranges are executed, its quality is trusted.")

prop("C27", "An interrupt stops the line, and only that",
     "An interrupt, at whatever moment it comes, ends what the current line does with an error at most, and never the session, a lost or repeated line, a deadlock, or a line that was not being run. The next line works as if nothing had happened, whether interrupts come while waiting, evaluating, running a program or in between.",
     ["schedules"], "every interleaving, up to a bound of preemptions, of the session's loop with one and with two interrupts; real signals to the real shell at every step of a session",
     "A race between the handler and the loop's lock shows in one schedule of thousands; no test sends a signal.",
     ["src/bin.rs"],
     [("the interrupt handler and the editor's lock", "src/bin.rs: Repl::run, ctrlc handler")],
     "The session's loop runs under a controlled scheduler (shuttle's primitives through a guarded hook) with interrupts as threads; all schedules up to a bound are enumerated depth first, and each must read the same lines, give the same results and leave no lock held. The real shell gets SIGINT at every step of sessions.",
     "Exhaustive up to the preemption bound within the time budget, which the evidence reports; real signals cover the moments between steps, not every instruction.")

prop("C28", "The clock is read once and right, and sleeping lasts as long as asked",
     "The current time is one moment's year, month, day, hour, time and date in the local zone, right for every moment and zone, and never a mixture of two moments. Sleeping lasts as many milliseconds as asked for, not at all for a negative number, and refuses what is not a number.",
     ["inputs", "schedules"], "every day until the year 2101 at ten times of day in ten zones, each second of eight days, a clock that goes on between any two looks at it, and about 3050 lengths of sleep",
     "A test runs at the moment it runs: noon and midnight, leap days, the ends of years and a clock that goes on meanwhile are not sampled.",
     ["src/binary/init/time_module.rs"],
     [("now, sleep", "src/binary/init/time_module.rs")],
     "The system's clock and its sleep are replaced by scripted ones in the checking process. Every moment of the spaces is given, also with a clock that advances at each look, and the result must be that of one moment looked at, by a calendar written for this check; every length of sleep is compared with what the system was asked for.",
     "Exhaustive over the enumerated moments, zones and lengths; moments before 1970 are left out.")

prop("C29", "Lists and tables are shown whole",
     "A list or table is shown with every member, key and value in order, nested ones included, in frames whose walls meet; a list is in a frame just where the frame fits the room there is, and in brackets elsewhere. This holds for every width of the terminal, and without one.",
     ["inputs"], "every value over pools of members up to three levels deep in 15 widths; lists of nine kinds of members of every length in every width up to 140, alone and within tables",
     "A frame torn by wrapping needs a list just too wide for the room left by its key; the tests show no list.",
     ["src/expr.rs"],
     [("drawing", "src/expr.rs: impl Display for Expression")],
     "Every drawing is read back by a reference that finds its frames, walls and cells and compares each cell with the member it should show, recursively; frames of lists must fit. The real shell prints lists and tables on terminals of eight widths and elsewhere.",
     "Exhaustive over the pools and widths. Blanks and ends of lines within a cell are not compared, as long texts are wrapped.")

prop("C31", "A program in files is the program in one",
     "Including a file does exactly what its text would do in its place: the value, the output, the variables, the directory and the errors; importing it does the same in a scope of its own, and leaves the caller's variables and directory alone. A file is found from the current directory, and one that is missing, cannot be read or is no program is an error that changes nothing.",
     ["programs", "histories"], "every file of up to the bound of statements, that includes or imports another, in twelve places of a program; every name from every directory of a tree; every walk of moves and runs up to the bound; files that include each other in circles",
     "The tests include no files; which scope or directory a nested file sees needs two files and a history of moves.",
     ["src/binary/init/sys_module.rs"],
     [("include, import", "src/binary/init/sys_module.rs")],
     "Every program in files is run and compared with the same program with the files' texts in place of their inclusion (or evaluated in a scope of its own): value, kind of error, output and all variables must agree. Names are resolved by the operating system, walks by a small model of scopes and directories.",
     "Exhaustive over the vocabulary to the bounded sizes; the program in one file is trusted to be evaluated right (C02, C05).")

prop("C32", "The shell's own scripts do what they promise, whenever and wherever they run",
     "The default prelude and the introduction start without an error on every terminal, with or without the user's secrets. Their calendar is right for every month, with only the given day marked; leap years, lengths of months and days of the week are right for all dates; the welcome shows the present time, date, part of the day (night until six, morning until ten, day until six in the evening) and month. The shrew says any text whole, in a box, on any width. The helpers (get, concat, join, open, use, include, `~`, `$`) give what the programs they abbreviate give. `help` prints its pages and the help of every builtin. ssh and scp are run with exactly the user, host and paths given; `cat` and `ls` run their replacements just where those are installed; the weather is asked for by city, units and key, and shown with its figures and its picture, or as unavailable. Reports of values go on while the introduction asks for a star, once. The introduction shows its pages in order; `exit` and `quit` end the shell.",
     ["inputs", "configurations"], "every month of 429 years with a day marked and every day of 28 years; 400 moments; 60 sayings on 15 widths; every helper on pools of values; both scripts on every width from 1 to 200; 1700 programs and 1000 reports of the weather; 160 ways to start the real shell",
     "The scripts are code that no test runs; a leap year, a month of six weeks, a width of one word or the hour of midnight is wrong for a few inputs of thousands.",
     ["src/.default-dune-prelude", "src/.intro-dune-prelude"],
     [("calendars", "src/.default-dune-prelude: make-calendar, day-of-week, days-in-month, is-leapyear"), ("screens", "src/.default-dune-prelude: welcomebanner, dashboard, shrewsay"), ("weather", "src/.default-dune-prelude: reload-weather-api, get-weather-ascii"), ("introduction", "src/.intro-dune-prelude: intro, report, help"), ("help", "src/binary/init/mod.rs: help")],
     "The scripts are evaluated by the implementation, with a scripted clock, a chosen width and stand-ins for the programs they run; every call of the spaces is enumerated and its drawing, value, output or run program is compared with an oracle written for this check (a calendar by counting days; the programs that the helpers abbreviate). The real shell is started with both scripts on terminals of several widths.",
     "Exhaustive over the enumerated calls. The evaluator itself is what C02 to C13 check; random pictures are not compared; exit statuses given to the prelude's `exit` are its author's choice and left open.")

prop("C33", "An environment is a chain of scopes of its own",
     "To a program that uses the library, a name is what the nearest scope of an environment defines, and the directory that of the nearest `CWD`, or `/`. Defining, removing, moving and evaluating change the nearest scope only: never the ones above it, a copy, or an environment that is its parent or child. What was hidden is there again when what hid it is removed.",
     ["histories"], "every history of up to 4 of 22 operations on two environments, and every chain of up to 9 scopes of which some define a name; longer ones in the thorough check",
     "Two environments that share something they should not show it only after a certain sequence of operations on both; the tests use one environment.",
     ["src/env.rs", "src/expr.rs"],
     [("scopes", "src/env.rs: Environment"), ("evaluation in a scope", "src/expr.rs: Expression::eval_mut")],
     "Every history is run on two real environments and on scopes in a list; after each operation every name, whether it is defined, the directory and the environment's own scope must agree in both.",
     "Exhaustive over the histories to the bounded length.")

prop("C34", "What is typed is what is read",
     "Whatever reads a line (the prompt, `input`, `console@keyboard@read-line`, `read-password`) gets exactly the next line that was typed or that comes from a pipe: nothing is lost, read twice or mixed, whoever read before. A key that is read is the value that has the key's name. A password is not shown, and what is typed after it is. At the prompt, the statement that runs is the line as it was edited: without what was erased, as it was when it is recalled or a hint is accepted, and not at all when it is interrupted, with all unfinished lines before it; the end of input on an empty line ends the shell. Where there is no keyboard, or what comes is not text, that is an error of the statement, and the shell goes on.",
     ["inputs", "histories"], "every text of up to 3 of 9 pieces (bytes that are not text among them) read by every mixture of two ways; every key and every pair of kinds of keys; every session of up to 3 of 10 lines in which statements read what is typed next; every sequence of up to 4 of 10 keys at the prompt; one more of each in the thorough check",
     "The tests read nothing. Who reads which line, or what is left of a line after an interrupt, depends on the sequence of all that was typed before.",
     ["src/bin.rs", "src/binary/init/console_module.rs", "src/binary/init/mod.rs"],
     [("reading lines", "src/bin.rs: readline, repl; src/binary/init/mod.rs: input"), ("keys and passwords", "src/binary/init/console_module.rs: keyboard")],
     "The real shell runs at a real terminal (a pseudo-terminal), where each key is typed as soon as the one before is taken. What its statements log, what the terminal shows and how the shell ends must be what a model of the edited line, the history and the shell says; the statements themselves are evaluated in this process.",
     "Exhaustive to the bounded lengths. Keys are typed when the shell is ready for them; how the line is drawn while it is typed is not compared. Values of control keys that have no name are left open.")
