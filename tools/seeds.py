"""Planted bugs: each breaks a property, compiles, and passes the existing tests (see seed.py)."""
SEEDS = {}

HEAD = r'''#!/bin/bash
# Exit 0 when the shell behaves as the property says. Run with cwd at the repository, after its build.
sh="$PWD/target/debug/dunesh"
d=$(mktemp -d) || exit 3
trap 'cd /; rm -rf -- "$d"' EXIT
export HOME="$d"
cd "$d" || exit 3
'''


def script(program, expected):
    """A demonstration: run a program, compare what it prints."""
    return HEAD + f'''cat > s.dune <<'EOF_PROGRAM'
{program}
EOF_PROGRAM
cat > want <<'EOF_WANT'
{expected}
EOF_WANT
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
if ! cmp -s want got; then echo "expected:"; cat want; echo "got:"; head -c 600 got; exit 1; fi
'''


def seed(id, property, edits, demo, needs, what, **extra):
    SEEDS[id] = dict(property=property, edits=[(f if f.startswith("src") else "src/" + f, a, b) for f, a, b in edits], demo=demo, needs=needs, what=what, extra=extra)


# ---- C01
seed("lex-comment-bytes", "C01",
     [("tokenizer.rs", """            .take_while(|&c| !matches!(c, '\\r' | '\\n'))
            .map(|c| c.len_utf8())
            .sum();""", """            .take_while(|&c| !matches!(c, '\\r' | '\\n'))
            .count();""")],
     script('println "a"; # naïve comments x\nprintln "b"', "a\nb"),
     "a comment with a multi-byte character", "the end of the comment is lexed as program text")
seed("lex-escape-hex", "C01",
     [("tokenizer.rs", """            if char::try_from(code_point).is_ok() {
                rest
            } else {""", """            if code_point < 0xd800 || code_point > 0xdfff {
                rest
            } else {""")],
     script('println "before"', "before").replace("want; echo \"got", "want; echo \"got") + r'''printf 'println "\\u{fffff}"; println "ok"' > s.dune; printf '\U000fffff\nok\n' > want
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null; cmp want got || exit 1
timeout 60 "$sh" -x 'println "\u{d8000}"' < /dev/null > got 2>&1 || exit 1
''',
     "nothing (equivalent)", "nothing: not kept")
del SEEDS["lex-escape-hex"]
seed("lex-keyword-order", "C01",
     [("tokenizer.rs", """        keyword_tag("//"),
        keyword_tag("<<"),
        keyword_tag(">>"),
        keyword_tag(">>>"),""", """        keyword_tag("//"),
        punctuation_tag("<<"),
        punctuation_tag(">>"),
        keyword_tag(">>>"),""")],
     script('let <<- = x -> x + 1; println (<<- 2)', "3"),
     "a symbol that begins with << or >>", "a user-defined operator such as <<- is split in two")

# ---- C02
seed("parse-or-right", "C02",
     [("parser.rs", """    let (input, mut list) =
        many0(pair(alt((text("*"), text("//"), text("%"))), expr_parser))(input)?;

    if list.is_empty() {
        return Ok((input, head));
    }

    list.reverse();
""", """    let (input, mut list) =
        many0(pair(alt((text("*"), text("//"), text("%"))), expr_parser))(input)?;

    if list.is_empty() {
        return Ok((input, head));
    }

    // from the left
    if list.iter().any(|(op, _)| op.text(input) != "%") {
        list.reverse();
    }
""")],
     script("println (100 % 30 % 7); println (2 * 9 % 4)", "3\n2"),
     "two or more % in a row with nothing else at their level", "a % b % c is grouped from the wrong side")
seed("parse-not-range", "C02",
     [("parser.rs", """    let (input, to) = parse_expression_prec_four(input).map_err(|_| {
        SyntaxError::unrecoverable(
            input.get_str_slice(),
            "a valid range expression",
            None,
            Some("try writing an expression like `0 to 10`"),
        )
    })?;

    Ok((
        input,
        Expression::Apply(
            Box::new(Expression::Symbol("to".to_string())),
            vec![from, to],
        ),
    ))""", """    let (input, to) = parse_expression_prec_three(input).map_err(|_| {
        SyntaxError::unrecoverable(
            input.get_str_slice(),
            "a valid range expression",
            None,
            Some("try writing an expression like `0 to 10`"),
        )
    })?;

    Ok((
        input,
        Expression::Apply(
            Box::new(Expression::Symbol("to".to_string())),
            vec![from, to],
        ),
    ))""")],
     script("for i in 0 to 1 + 2 { print i \"\" }; println \"\"", None or "0 1 2 \n").replace("0 1 2 \n\n", "0 1 2 \n"),
     "a sum as the end of the range of a for loop", "the loop is refused")

# ---- C03
seed("parse-unquote-panic", "C03",
     [("parser.rs", """            Some(expr) => Expression::Group(Box::new(expr)),
            None => Expression::None,
        }),
    );
""", """            Some(expr) => Expression::Group(Box::new(expr)),
            None => Expression::None,
        }),
    );
    if !input.is_empty() {
        let (before, _) = input.str.to_string().split_at(input[0].range.start() + 1);
    }
""")],
     "", "", "")
del SEEDS["parse-unquote-panic"]

# ---- C05 / C06
seed("eval-loop-parent", "C05",
     [("expr.rs", """                        for item in items {
                            env.define(&name, item);
                            results.push(body.clone().eval_mut(env, depth + 1)?);
                        }""", """                        for item in items {
                            env.define(&name, item);
                            match body.clone().eval_mut(env, depth + 1)? {
                                Self::List(inner) if matches!(&*body, Self::Do(v) if matches!(v[..], [Self::For(..)])) => results.extend(inner),
                                x => results.push(x),
                            }
                        }""")],
     script("let r = for i in 0 to 2 { for j in 0 to 2 { i + j } }; println (len r)", "2"),
     "a loop whose body is directly a loop", "the lists are flattened")
seed("macro-restores", "C06",
     [("expr.rs", """                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        env.define(&param, x);
                        self = Self::Apply(
                            Box::new(body.eval_mut(env, depth + 1)?),
                            args[1..].to_vec(),
                        );""", """                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        let mut scope = env.clone();
                        scope.define(&param, x);
                        self = Self::Apply(
                            Box::new(body.eval_mut(&mut scope, depth + 1)?),
                            args[1..].to_vec(),
                        );""")],
     script("let m = x ~> { let y = x + 1; z ~> y }; m 1; println y; m 5 0; println y", "2\n6"),
     "a macro called with two arguments", "its assignments do not reach the caller")

# ---- C08..C13
seed("eq-numbers", "C08",
     [("expr.rs", """            (Self::Float(m), Self::Integer(n)) => Self::Float(m - n as f64),""",
       """            (Self::Float(m), Self::Integer(n)) => Self::Float((m as Int - n) as f64),""")],
     script("println (2.5 - 1)", "1.5"),
     "a float with a fraction minus an integer", "the fraction is lost")
seed("foldr-flip", "C09",
     [("binary/init/list_module.rs", """        for item in list.into_iter().rev() {
            acc = Expression::Apply(Box::new(f.clone()), vec![item, acc]).eval(env)?;
        }""", """        let mut items = list.into_iter().rev();
        if let Some(item) = items.next() {
            acc = Expression::Apply(Box::new(f.clone()), vec![item, acc]).eval(env)?;
        }
        for item in items {
            acc = Expression::Apply(Box::new(f.clone()), vec![item, Expression::Quote(Box::new(acc))]).eval(env)?;
        }""")],
     script("println (list@foldr (x -> y -> x - y) 0 [10, 3, 1])", "8"),
     "nothing (equivalent)", "")
del SEEDS["foldr-flip"]
seed("chunk-tail", "C09",
     [("binary/init/list_module.rs", """            if !chunk.is_empty() {
                result.push(Expression::List(chunk));
            }""", """            if chunk.len() > 1 || (n == 2 && !chunk.is_empty()) {
                result.push(Expression::List(chunk));
            }""")],
     script("println (len (list@chunk 3 [1, 2, 3, 4])); println (len (list@chunk 2 [1, 2, 3]))", "2\n2"),
     "a chunk size over 2 and exactly one element left", "the last element is lost")
seed("split-at-negative", "C09",
     [("binary/init/list_module.rs", """            let taken = list.iter().take(n as usize).cloned().collect();
            let dropped = list.into_iter().skip(n as usize).collect();""", """            let taken = list.iter().take(n as usize).cloned().collect();
            let dropped = list.into_iter().skip(n.max(0) as usize).collect();""")],
     script("let r = list@split-at (0 - 1) [1, 2]; println (len r@0); println (len r@1)", "2\n0"),
     "a negative index", "all elements are in both halves")
seed("intersect-values", "C10",
     [("binary/init/dict_module.rs", """                    for (key, value) in map1 {
                        if map2.contains_key(&key) {
                            map.insert(key, value);
                        }
                    }""", """                    for (key, value) in map2 {
                        if map1.contains_key(&key) {
                            map.insert(key, value);
                        }
                    }""")],
     script('println (dict@intersect {a = 1, b = 2} {b = 3})@b'.replace("println (", "println ((").replace(")@b", ")@b)"), "2"),
     "maps with different values under one key", "the intersection has the values of the second map")
seed("split-at-boundary", "C11",
     [("binary/init/string_module.rs", "                            let offset = c as u8 - base;", "                            let offset = c as u8 % 32 - 1;"),
      ("binary/init/string_module.rs", "let shifted_offset = (offset + i.rem_euclid(26) as u8) % 26;", "let shifted_offset = (offset + (i % 26 + 26) as u8) % 26;")],
     script("println (string@caesar \"abz\" 1); println (string@caesar \"a\" (0 - 53)); println 1", "bca\nz\n1"),
     "nothing (equivalent)", "")
del SEEDS["split-at-boundary"]
seed("title-expand", "C11",
     [("binary/init/string_module.rs", """                            title.extend(c.to_lowercase());
                        }
                        if c.is_whitespace() {
                            capitalize = true;
                        }
                    }
                    Ok(Expression::String(title))""", """                            title.extend(c.to_lowercase());
                        }
                        if c.is_ascii_whitespace() || c == '\\u{a0}' {
                            capitalize = true;
                        }
                    }
                    Ok(Expression::String(title))""")],
     script("println (string@to-title \"one\u2003two\")", "One\u2003Two"),
     "a white-space character outside of ASCII", "the word after it is not capitalised")

# ---- C14
seed("copy-into-link", "C14",
     [("binary/init/fs_module.rs", """    } else if std::fs::remove_file(path).is_err() {
        return Err(Error::CustomError(format!(
            "could not remove file {}",
            path.display()
        )));
    }""", """    } else if path.exists() && std::fs::remove_file(path).is_err() {
        return Err(Error::CustomError(format!(
            "could not remove file {}",
            path.display()
        )));
    }""")],
     HEAD + r'''ln -s nowhere dangling
timeout 60 "$sh" -x 'fs@rm "dangling"' > got 2>&1 < /dev/null
[ ! -L dangling ] || { echo "the link is still there"; exit 1; }
timeout 60 "$sh" -x 'fs@rm "missing"' > got 2>&1 < /dev/null
grep -q "could not remove" got || { cat got; exit 1; }
''', "a dangling link, or a missing file", "nothing is removed and success is reported")
seed("head-negative", "C14",
     [("binary/init/fs_module.rs", """            match std::fs::OpenOptions::new().append(true).open(&path) {
                Ok(mut file) => {
                    let contents = args[1].eval(env)?;""", """            match std::fs::OpenOptions::new().write(true).open(&path) {
                Ok(mut file) => {
                    let contents = args[1].eval(env)?;
                    let _ = std::io::Seek::seek(&mut file, std::io::SeekFrom::End(0));""")],
     HEAD + r'''printf 'a' > f
timeout 60 "$sh" -x 'fs@append "f" ({fs@append "f" "b"; "c"})' > got 2>&1 < /dev/null
[ "$(cat f)" = abc ] || { echo "expected: abc, got: $(cat f)"; exit 1; }
''', "the contents' own evaluation appends to the file", "nothing (the seek is after it)")
del SEEDS["head-negative"]
seed("append-creates", "C14",
     [("binary/init/fs_module.rs", """            match std::fs::OpenOptions::new().append(true).open(&path) {""", """            match std::fs::OpenOptions::new().append(true).create(path.extension().is_some()).open(&path) {""")],
     HEAD + r'''mkdir d
timeout 60 "$sh" -x 'fs@append "d/x.txt" "text"' > got 2>&1 < /dev/null
[ ! -e d/x.txt ] || { echo "created"; exit 1; }
''', "appending to a missing file whose name has an extension", "the file is created, where it should be an error")

# ---- C15
seed("cwd-second-arg", "C15",
     [("expr.rs", "                    tmp_env.set_cwd(env.get_cwd());\n                    for symbol", "                    if !captured.is_defined(\"CWD\") {\n                        tmp_env.set_cwd(env.get_cwd());\n                    }\n                    for symbol")],
     script("println 1", "1"), "nothing: functions get the directory when they are called", "")
del SEEDS["cwd-second-arg"]
seed("cd-dotdot", "C15",
     [("binary/init/os_module.rs", "env.set_cwd(new_cwd.into_os_string().into_string().unwrap());", "env.set_cwd(new_cwd.clone().into_os_string().into_string().unwrap());\n            if new_cwd.parent().is_none() {\n                env.undefine(\"CWD\");\n            }")],
     script("println 1", "1"), "", "")
del SEEDS["cd-dotdot"]

# ---- C16
seed("args-bytes", "C16",
     [("expr.rs", """                            .filter(|(_, s)| s.len() <= 1024)
                            .collect::<BTreeMap<String, String>>();""", """                            .filter(|(k, s)| k.len() + s.len() < 1024)
                            .collect::<BTreeMap<String, String>>();""")],
     HEAD + r'''cat > s.dune <<'EOF'
let LONGVARIABLE = "x" * 1020;
"/bin/sh" "-c" "echo ${#LONGVARIABLE}"
EOF
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
[ "$(cat got)" = 1020 ] || { head -c 300 got; exit 1; }
''', "a variable of nearly 1024 characters", "the program does not get it")
# ---- C17
seed("pipe-lossy", "C17",
     [("binary/init/operator_module.rs", "                            buf = output.stdout.clone();\n", "                            buf = String::from_utf8_lossy(&output.stdout).into_owned().into_bytes();\n")],
     HEAD + r'''cat > s.dune <<'EOF'
"printf" "a\\377b" | "cat" ()
EOF
timeout 60 "$sh" s.dune < /dev/null > got 2>&1
[ "$(od -An -tx1 got | tr -d ' \n')" = 61ff62 ] || { od -An -tx1 got; exit 1; }
''', "a program that writes what is not UTF-8, piped into a program", "the bytes are replaced")


def session(lines, want, prelude="let prompt = cwd -> \"\";", contains=True):
    """A demonstration: a session with these lines at the input; what it prints contains `want`."""
    return HEAD + f'''cat > "$HOME/.dune-prelude" <<'EOF_PROGRAM'
{prelude}
EOF_PROGRAM
cat > lines <<'EOF_LINES'
{lines}
EOF_LINES
timeout 60 "$sh" < lines > got 2>&1
[ $? = 0 ] || {{ echo "exit status"; head -c 600 got; exit 1; }}
cat > want <<'EOF_WANT'
{want}
EOF_WANT
while IFS= read -r w; do
    grep -qF -- "$w" got || {{ echo "expected: $w"; echo "got:"; head -c 900 got; exit 1; }}
done < want
'''


# ---- C03
seed("error-after-width", "C03",
     [("error.rs", """        let before_len = line_before.chars().take(max_width).count().min(max_width);
""",
       """        let before_len = line_before.len().min(max_width);
""")],
     HEAD + r'''python3 - <<'E'
open("s.dune", "w").write('echo "%s" ) rest' % ("é" * 40))
E
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
grep -q 'rest' got || { cat got; exit 1; }
''',
     "an error after text that is not ASCII", "the end of the line is cut off in the diagnosis")

# ---- C04
seed("index-signed", "C04",
     [("expr.rs", "(Self::List(list), Self::Integer(n)) if list.len() > n as usize => &list[n as usize],",
       "(Self::List(list), Self::Integer(n)) if (list.len() as Int) > n => &list[n as usize],")],
     script("let l = [1, 2]; println (l@(0 - 1)); println \"on\"", "None\non").replace("println (l@(0 - 1))", "println (str (l@(0 - 1)))"),
     "a negative index", "the shell panics")
seed("sleep-seconds", "C04",
     [("binary/init/time_module.rs", "Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),",
       "Expression::Float(n) => thread::sleep(Duration::from_secs_f64(n.max(0.0) / 1000.0)),")],
     HEAD + r'''cat > s.dune <<'E'
println "start"; time@sleep (0.0 - (1.0 // 0.0)); time@sleep (0.0 // 0.0); println "slept"; time@sleep (1.0 // 0.0)
E
timeout 5 "$sh" s.dune > got 2>&1 < /dev/null
[ $? = 124 ] || { cat got; exit 1; }
grep -q slept got
''',
     "sleeping for an infinite number of milliseconds", "the shell panics")

# ---- C07
seed("macro-endless", "C07",
     [("expr.rs", """                    Self::Macro(param, body) if args.len() == 1 => {
                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        env.define(&param, x);
                        self = *body;
                    }""", """                    Self::Macro(param, body) if args.len() == 1 => {
                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        env.define(&param, x);
                        self = match *body {
                            Self::Do(_) => *body,
                            _ => {
                                self = *body;
                                continue;
                            }
                        };
                    }""")],
     script('let f = x ~> f (x + 1); println (err@try (f 0) (e -> e@code))', "5"),
     "a macro whose whole body is a call to itself", "the recursion never ends")

# ---- C12
seed("reduce-partial", "C12",
     [("binary/init/fn_module.rs", "for item in list { let acc = f acc item } acc }", "for item in list { let acc = f item acc } acc }")],
     script('let sub = x -> y -> x - y; let r = fn@reduce sub 10; println (r [1, 2]); println (fn@reduce sub 10 [1, 2])', "7\n7"),
     "reduce given its list later, with a function that is not commutative", "the arguments are swapped")
seed("curry-order", "C12",
     [("binary/init/fn_module.rs", """    for i in (0..args).rev() {
        result = Expression::Lambda(
            format!("arg{}", i),
            Box::new(result),
            Environment::default(),
        )
        .eval(env)?;
    }
    Ok(result)""", """    for i in 0..args {
        result = Expression::Lambda(
            format!("arg{}", i),
            Box::new(result),
            Environment::default(),
        )
        .eval(env)?;
    }
    Ok(result)""")],
     script('println (string@split-at 2 "abcdef")', "x"),
     "-", "-")
del SEEDS["curry-order"]

# ---- C13
seed("trunc-huge", "C13",
     [("binary/init/math_module.rs", """                Expression::Float(f) => Ok(f.trunc().into()),""",
       """                Expression::Float(f) => Ok((f as Int as f64).into()),""")],
     script('println ((math@trunc 100000000000000000000.0) == 100000000000000000000.0); println (math@trunc 2.5)', "True\n2"),
     "a number larger than every integer", "the largest integer instead of the number")
seed("iseven-wide", "C13",
     [("binary/init/math_module.rs", """                Expression::Integer(i) => i % 2 == 0,""",
       """                Expression::Integer(i) => i as f64 % 2.0 == 0.0,""")],
     script('println (math@iseven 9007199254740993); println (math@iseven 4)', "False\nTrue"),
     "an odd number beyond 2^53", "it counts as even")

# ---- C15
seed("cwd-before-argument", "C15",
     [("expr.rs", """                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        new_env.set_cwd(env.get_cwd());
                        new_env.define(&param, x);
                        return body.eval_mut(&mut new_env, depth + 1);""", """                        new_env.set_cwd(env.get_cwd());
                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        new_env.define(&param, x);
                        return body.eval_mut(&mut new_env, depth + 1);""")],
     HEAD + r'''mkdir a; d2=$(pwd -P); cat > s.dune <<'E'
let f = x -> CWD; println (f (os@cd "a")); println CWD
E
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
printf '%s/a\n%s/a\n' "$d2" "$d2" > want; cmp -s want got || { cat got; exit 1; }
''',
     "a function called with an argument that changes the directory", "the function runs in the directory before")

# ---- C18
seed("try-handler-early", "C18",
     [("binary/init/err_module.rs", """    match args[0].eval(env) {
        Err(err) => {
            let handler = args[1].clone();
""", """    let handler = args[1].eval(env)?;
    match args[0].eval(env) {
        Err(err) => {
""")],
     script('println (err@try 1 (1 // 0)); println (err@try (1 // 0) (e -> 2))', "1\n2"),
     "a handler that itself fails, beside an expression that does not", "the handler's error although there was none to handle")

# ---- C19
seed("title-bottom", "C19",
     [("binary/init/widget_module.rs", '"─".repeat(title_len),', '"─".repeat(title.chars().count()),')],
     script('println (widget@create "日" "x" 8 3)', "┌──日──┐\n x      \n└──────┘"),
     "a title with characters that take two columns", "the lower border is shorter than the widget")
seed("joinx-first-height", "C19",
     [("binary/init/widget_module.rs", "height = string_args[0].len();", "height = string_args[i].len();")],
     script('println (err@try (widget@joinx (widget@create "a" "x" 5 3) (widget@create "b" "x" 5 4)) (e -> "refused"))', "refused"),
     "widgets of different heights", "lines of the higher one are lost, or a panic")

# ---- C21
seed("toml-whole-floats", "C21",
     [("binary/init/parse_module.rs", "toml::Value::Float(n) => Expression::Float(n),",
       "toml::Value::Float(n) if n.fract() != 0.0 => Expression::Float(n),\n        toml::Value::Float(n) => Expression::Integer(n as i64),")],
     script('println ((parse@toml "a = 3.0")@a // 2)', "1.5"),
     "a float that is a whole number", "it becomes an integer")
seed("json-short-trim", "C21",
     [("binary/init/parse_module.rs", "JsonValue::Short(s) => Expression::String(s.to_string()),",
       "JsonValue::Short(s) => Expression::String(s.split_whitespace().collect::<Vec<_>>().join(\" \")),")],
     script('println ("<" + (parse@json "\\"a  b \\"") + ">")', "<a  b >"),
     "a short text with blanks at its ends or several together", "blanks are lost")

# ---- C22
seed("highlight-escapes", "C22",
     [("bin.rs", "                        last_end = range.end();\n", "                        last_end = range.start();\n")],
     HEAD + r'''cat > run.py <<'E'
import os, pty, re, select, sys, time
pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.argv[1], [sys.argv[1]])
out = b""
def read(t):
    global out
    end = time.time() + t
    while time.time() < end:
        r, _, _ = select.select([fd], [], [], 0.1)
        if r:
            try: b = os.read(fd, 65536)
            except OSError: return
            if b"\x1b[6n" in b: os.write(fd, b"\x1b[1;1R")
            out += b
open(os.environ["HOME"] + "/.dune-prelude", "w").write('let prompt = cwd -> "> ";')
read(2)
out = b""
os.write(fd, b'"\\qxyz\\wu"')
read(2)
os.kill(pid, 9)
text = re.sub(rb"\x1b\[[0-9;?]*[A-Za-z]", b"", out)
sys.exit(0 if text.rstrip().endswith(b'"\\qxyz\\wu"') and b"\\q\\q" not in text else 1)
E
printf 'let prompt = cwd -> "> ";' > "$HOME/.dune-prelude"
TERM=xterm timeout 60 python3 run.py "$sh" || exit 1
''',
     "a string with two wrong escapes", "parts of the line are shown twice while it is typed")
seed("hint-trim", "C22",
     [("bin.rs", "if let Some(rest) = cmd.strip_prefix(line) {", "if let Some(rest) = cmd.strip_prefix(line.trim()) {")],
     HEAD + r'''cat > run.py <<'E'
import os, pty, re, select, sys, time
pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.argv[1], [sys.argv[1]])
out = b""
def read(t):
    global out
    end = time.time() + t
    while time.time() < end:
        r, _, _ = select.select([fd], [], [], 0.1)
        if r:
            try: b = os.read(fd, 65536)
            except OSError: return
            if b"\x1b[6n" in b: os.write(fd, b"\x1b[1;1R")
            out += b
read(2)
out = b""
os.write(fd, b'head  ')
read(2)
os.kill(pid, 9)
text = out.split(b"head  ")[-1]
text = re.sub(rb"\x1b\[[0-9;?]*[A-Za-z]", b"", text)
out2 = out
# move to the end and take the hint with the right arrow, then see the line: none is to be offered
sys.exit(0 if b"\x1b[1m" not in out.replace(b"\x1b[1m\x1b[", b"") else 1)
E
printf 'let prompt = cwd -> "> ";' > "$HOME/.dune-prelude"
TERM=xterm timeout 60 python3 run.py "$sh" || exit 1
''',
     "blanks at the end of the line", "a hint is offered that does not continue the line")
del SEEDS["hint-trim"]

# ---- C23
seed("empty-line-stuck", "C23",
     [("bin.rs", "                if line.is_empty() {\n", "                if text.is_empty() {\n")],
     session('let a = [1\n\nprintln "went on"\n', "went on", prelude='let prompt = cwd -> ""; let incomplete_prompt = cwd -> "";'),
     "a line with a mistake, and then an empty one to give it up", "the session never gets out of the mistake")
seed("session-error-lines", "C23",
     [("bin.rs", """                    Err(e) => {
                        eprintln!("{}", e)
                    }
                }
                lines = vec![];""", """                    Err(e) => {
                        eprintln!("{}", e);
                        continue;
                    }
                }
                lines = vec![];""")],
     session('println "one"; 1 // 0\nprintln "two"', "two").replace('done < want', 'done < want\n[ "$(grep -c one got)" = 1 ] || { cat got; exit 1; }'),
     "a line after one that failed", "the failed line is run again with it")

# ---- C24
seed("warn-prefix", "C24",
     [("binary/init/log_module.rs", """            let prefix = "\\x1b[93m[WARN]\\x1b[m ";
            for (i, arg) in args.iter().enumerate() {
                let x = arg.clone().eval(env)?.to_string();
                // Split into lines and print each line with a green `[INFO]` prefix.
                let lines = x.split('\\n').collect::<Vec<&str>>();
                if lines.len() > 1 {
                    for (i, line) in lines.iter().enumerate() {
                        if i < lines.len() - 1 {
                            println!("{}{}", prefix, line);
                        } else if !line.is_empty() {
                            print!("{}{}", prefix, line);
                        }
                    }
                } else {
                    if last_was_newline {""", """            let prefix = "\\x1b[93m[WARN]\\x1b[m ";
            for (i, arg) in args.iter().enumerate() {
                let x = arg.clone().eval(env)?.to_string();
                // Split into lines and print each line with a green `[INFO]` prefix.
                let lines = x.split('\\n').collect::<Vec<&str>>();
                if lines.len() > 1 {
                    for (i, line) in lines.iter().enumerate() {
                        if i < lines.len() - 1 {
                            println!("{}{}", prefix, line);
                        } else if !line.is_empty() {
                            print!("{}{}", prefix, line);
                        }
                    }
                } else {
                    if last_was_newline && i == 0 {""")],
     HEAD + r'''printf 'log@set-level 5; log@warn "a\\n" "b"; log@info "a\\n" "b"' > s.dune
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
[ "$(grep -c WARN got)" = 2 ] && [ "$(grep -c INFO got)" = 2 ] || { cat got; exit 1; }
''',
     "a warning of several parts, one of which ends a line", "the next line has no prefix")
seed("log-level-equal", "C24",
     [("binary/init/log_module.rs", """            if !is_log_level_enabled(TRACE) {""", """            if !is_log_level_enabled(DEBUG) {""")],
     script('log@set-level log@level@debug; log@trace "no"; println (log@enabled? log@level@trace)', "False"),
     "the level of debugging messages", "tracing messages are shown")

# ---- C25
seed("file-then-exec", "C25",
     [("bin.rs", """        if !matches.is_present("interactive") && !matches.is_present("exec") {
            return Ok(());
        }""", """        if !matches.is_present("interactive") {
            return Ok(());
        }""")],
     HEAD + r'''printf 'let a = 1; println "file"' > s.dune
timeout 60 "$sh" s.dune -x 'println (a + 1)' > got 2>&1 < /dev/null
printf 'file\n2\n' > want; cmp -s want got || { cat got; exit 1; }
''',
     "a script and a text to execute together", "the text is ignored")

# ---- C26
seed("choose-last", "C26",
     [("binary/init/rand_module.rs", "let n = Uniform::new(0, list.len());", "let n = Uniform::new(0, list.len().max(2) - 1);")],
     HEAD + r'''cat > s.dune <<'E'
let seen = {}; for i in 0 to 400 { let c = rand@choose [1, 2, 3]; println c }
E
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
for k in 1 2 3; do grep -qx $k got || { sort got | uniq -c; exit 1; }; done
''',
     "the last member of the list", "it is never chosen")
seed("rand-int-one", "C26",
     [("binary/init/rand_module.rs", "let n = Uniform::new(l, h);", "let n = Uniform::new_inclusive(l, h);")],
     HEAD + r'''cat > s.dune <<'E'
for i in 0 to 400 { println (rand@int 0 2) }
E
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
if grep -qx 2 got; then sort got | uniq -c; exit 1; fi
for k in 0 1; do grep -qx $k got || exit 1; done
''',
     "nothing but chance", "the end that is excluded comes up")

# ---- C28
seed("minutes-unpadded", "C28",
     [("binary/init/time_module.rs", 'format("%-I:%M %p")', 'format("%-I:%-M %p")')],
     HEAD + r'''m=$((10#$(date -u +%M)))
# A zone in which it is now five minutes past some hour.
o=$((m - 5)); if [ $o -lt 0 ]; then o=$((o + 60)); fi
export TZ="XXX+0:$(printf %02d $o)"
printf 'println (time@now ())@time@str' > s.dune
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
grep -Eq '^[0-9]+:0[56] [AP]M$' got || { cat got; exit 1; }
''',
     "a minute below ten", "12:5 PM for five minutes past twelve")

# ---- C29
seed("list-brackets-display", "C29",
     [("expr.rs", """            Self::List(exprs) => write!(
                f,
                "[{}]",
                exprs
                    .iter()
                    .map(|e| format!("{:?}", e))""", """            Self::List(exprs) => write!(
                f,
                "[{}]",
                exprs
                    .iter()
                    .map(|e| format!("{}", e))""")],
     script('println [["one", "two, three", "four"] * 8, 1]' .replace("[[", "[([").replace("* 8", "* 12)"), "x"),
     "a list too wide for a frame", "its texts are shown without their quotes")
SEEDS["list-brackets-display"]["demo"] = HEAD + r'''cat > s.dune <<'E'
println (["one, two"] * 20)
E
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
[ "$(grep -o '"one, two"' got | wc -l)" = 20 ] || { cat got; exit 1; }
'''

# ---- C30
seed("write-blank-lines", "C30",
     [("binary/init/console_module.rs", "for (y_offset, line) in content.lines().enumerate() {",
       "for (y_offset, line) in content.lines().filter(|line| !line.is_empty()).enumerate() {")],
     HEAD + r'''printf 'console@write 1 1 "a\\n\\nb"' > s.dune
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
printf '\033[3;1H' > w; grep -qF "$(cat w)" got || { od -c got; exit 1; }
''',
     "a text with a blank line", "what follows is written one row too high")

# ---- C31
seed("include-process-dir", "C31",
     [("binary/init/sys_module.rs", """        String::from("include") => Expression::builtin("include", |args, env| {
            super::check_exact_args_len("include", &args, 1)?;

            let cwd = PathBuf::from(env.get_cwd());
            let path = cwd.join(args[0].eval(env)?.to_string());
""", """        String::from("include") => Expression::builtin("include", |args, env| {
            super::check_exact_args_len("include", &args, 1)?;

            let path = PathBuf::from(args[0].eval(env)?.to_string());
""")],
     HEAD + r'''mkdir a; printf 'println "inner"' > a/x.dune; printf 'sys@cd "a"; sys@include "x.dune"; println CWD' > s.dune
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
printf 'inner\n%s/a\n' "$(pwd -P)" > want; cmp -s want got || { cat got; exit 1; }
''',
     "a change of directory that the process does not follow, and then a file", "the file is looked for elsewhere")
seed("import-scope", "C31",
     [("binary/init/sys_module.rs", """                    let mut new_env = env.clone();
                    expr.eval(&mut new_env)
                } else {""", """                    let mut new_env = env.clone();
                    let result = expr.eval(&mut new_env);
                    env.set_cwd(new_env.get_cwd());
                    result
                } else {""")],
     HEAD + r'''mkdir a; printf 'sys@cd "a"' > x.dune; printf 'sys@import "x.dune"; println CWD' > s.dune
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
printf '%s\n' "$(pwd -P)" > want; cmp -s want got || { cat got; exit 1; }
''',
     "an imported file that changes the directory", "the importing program goes on elsewhere")

# ---- C20
seed("bold-one-line", "C20",
     [("binary/init/fmt_module.rs", r'Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())',
       r'Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?.to_string().replace("\r\n", "\x1b[m\r\n")).into())')],
     HEAD + r"""cat > s.dune <<'E'
print (fmt@bold "one\r\ntwo")
E
timeout 60 "$sh" s.dune > got 2>&1 < /dev/null
python3 - <<'E'
import re, sys
t = open("got", newline="").read()
bold = False
shown = {}
for esc, ch in re.findall(r"\x1b\[([0-9;]*)m|(.)", t, re.S):
    if not ch:
        for c in (esc or "0").split(";"):
            bold = True if c == "1" else False if c in ("0", "", "22") else bold
    else:
        shown.setdefault(ch, []).append(bold)
sys.exit(0 if all(all(v) for k, v in shown.items() if k.isalpha()) and "t" in shown else 1)
E
[ $? = 0 ] || { cat -v got; exit 1; }
""",
     "a text of several lines with both characters at their ends", "only its first line has the style")

# ---- C27
PTY = r"""cat > typist.py <<'E'
import os, pty, select, sys, time, re
def run(sh, steps, limit=30):
    # steps: (text to wait for, keys to send)
    pid, fd = pty.fork()
    if pid == 0:
        os.environ["TERM"] = "xterm"
        os.execv(sh, [sh])
    out, at, t0 = "", 0, time.time()
    for want, keys in steps:
        while want not in out[at:]:
            if time.time() - t0 > limit:
                os.kill(pid, 9)
                return out
            if select.select([fd], [], [], 0.2)[0]:
                try:
                    data = os.read(fd, 4096)
                except OSError:
                    return out
                out += data.decode(errors="replace")
                # the shell asks where the cursor is
                for _ in range(data.count(b"\x1b[6n")):
                    os.write(fd, b"\x1b[1;1R")
        at = len(out)
        os.write(fd, keys.encode())
    while time.time() - t0 < limit:
        if select.select([fd], [], [], 0.2)[0]:
            try:
                data = os.read(fd, 4096)
            except OSError:
                break
            if not data:
                break
            out += data.decode(errors="replace")
            for _ in range(data.count(b"\x1b[6n")):
                os.write(fd, b"\x1b[1;1R")
    try:
        os.kill(pid, 9)
    except OSError:
        pass
    return out
E
"""
seed("interrupt-unfinished", "C27",
     [("bin.rs", "                return String::new();", "                return String::from(\"\\n\");")],
     HEAD + PTY + r"""echo 'let prompt = cwd -> "ready> "; let incomplete_prompt = cwd -> "more> ";' > "$HOME/.dune-prelude"
cat > t.py <<'E'
import sys
from typist import run
out = run(sys.argv[1], [("ready> ", "println (1 +\r"), ("more> ", "\x03"), ("> ", "println (40 + 2)\r"), ("\n", "\r"), ("> ", "println (str 40) + \"z\"\r"), ("> ", "\x04")], 15)
sys.stdout.write(out)
E
python3 t.py "$sh" > got 2>&1
tr -d '\r' < got | grep -q '^42$' || { cat -v got | tail -20; exit 1; }
""",
     "an interrupt while a statement of several lines is unfinished", "the unfinished lines stay, and the next line is taken as a part of them")

# ---- C32
seed("leap-centuries", "C32",
     [(".default-dune-prelude", "    if year % 4 == 0 && year % 100 != 0 {", "    if year % 4 == 0 {")],
     HEAD + r"""cp "$OLDPWD/src/.default-dune-prelude" "$HOME/.dune-prelude"
# without a terminal, the prelude ends with a question
printf '%s\n' n 'println "days:" (days-in-month 2 1900) (days-in-month 2 2000) (days-in-month 2 2023) (days-in-month 2 2024)' > lines
timeout 60 "$sh" < lines > got 2>&1
grep -q 'days: 28 29 28 29' got || { tail -5 got; exit 1; }
""",
     "a century that is no leap year", "February has 29 days in the calendar")
seed("weekday-february", "C32",
     [(".intro-dune-prelude", "    if m < 3 {", "    if m < 2 {")],
     HEAD + r"""cp "$OLDPWD/src/.intro-dune-prelude" "$HOME/.dune-prelude"
# without a terminal, the prelude ends with a question
printf '%s\n' n 'println "days:" (day-of-week 1 1 2024) (day-of-week 2 29 2024) (day-of-week 3 1 2024) (day-of-week 2 1 2023)' > lines
timeout 60 "$sh" < lines > got 2>&1
grep -q 'days: 1 4 5 3' got || { tail -5 got; exit 1; }
""",
     "a day in February", "the calendar of February starts on the wrong day of the week")

# ---- C34
seed("line-trimmed", "C34",
     [("binary/init/console_module.rs", "                Ok(Expression::String(buffer))", "                Ok(Expression::String(buffer.trim_end_matches(|c| c == '\\n' || c == '\\r').to_string()))")],
     HEAD + r"""echo 'let a = console@keyboard@read-line (); let b = console@keyboard@read-line (); let c = console@keyboard@read-line (); println "<" + a + b + c + ">"' > s.dune
printf 'one \r\n\nlast' | timeout 60 "$sh" s.dune > got 2>&1
printf '<one \r\n\nlast>\n' > want
cmp -s want got || { cat -A got | head; exit 1; }
""",
     "a line that is empty, or ends with a carriage return", "an empty line can not be told from the end of input, and lines lose their ends")
seed("answer-trimmed", "C34",
     [("bin.rs", "            Ok(line) => return line,", "            Ok(line) => return if prompt.is_empty() { line.trim().to_string() } else { line },")],
     HEAD + r"""echo 'println ("<" + (input "") + ">") ("<" + (input "? ") + ">")' > s.dune
printf '  one \n  two \n' | timeout 60 "$sh" s.dune 2>/dev/null | grep -q -F '<  one > <  two >' || exit 1
""",
     "an answer with blanks around it to a question without a prompt", "the blanks are lost")

# ---- C33
seed("undefine-parent", "C33",
     [("env.rs", "        self.bindings.remove(name);", "        if self.bindings.remove(name).is_none() {\n            if let Some(parent) = &mut self.parent {\n                parent.undefine(name)\n            }\n        }")],
     HEAD + r"""cat > t.rs <<'E'
use dune::{Environment, Expression};
fn main() {
    let mut outer = Environment::new();
    outer.define("x", Expression::Integer(1));
    let mut inner = Environment::new();
    inner.set_parent(outer);
    inner.define("x", Expression::Integer(2));
    inner.undefine("x");
    inner.undefine("x");
    assert_eq!(inner.get("x"), Some(Expression::Integer(1)));
}
E
r="$OLDPWD/target/debug"
RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}" RUSTUP_TOOLCHAIN=stable rustc --edition 2021 t.rs -o t --extern dune="$(ls -t "$r"/libdune.rlib "$r"/deps/libdune-*.rlib 2>/dev/null | head -1)" -L dependency="$r/deps" > log 2>&1 || { head -20 log; exit 1; }
./t > got 2>&1 || { head -5 got; exit 1; }
""",
     "removing a name that an outer scope defines", "the name is removed from the outer scope")

# ---- C25
seed("exit-clamped", "C25",
     [("binary/init/os_module.rs", "                    std::process::exit(n as i32);", "                    std::process::exit((n as i32).clamp(0, 127));")],
     HEAD + r"""for n in 0 1 127 128 200 255; do
  echo "exit $n" > s.dune
  timeout 60 "$sh" s.dune > got 2>&1
  c=$?
  [ $c = $n ] || { echo "exit $n is $c"; exit 1; }
done
""",
     "an exit status of 128 or more", "the shell ends with another status")
seed("variables-remembered", "C16",
     [("expr.rs", """                        let bindings = env
                            .bindings
                            .clone()
                            .into_iter()
                            .map(|(k, v)| (k, v.to_string()))""",
       """                        // Programs in a row mostly have the same variables.
                        thread_local! {
                            static LAST: std::cell::RefCell<Option<BTreeMap<String, Expression>>> = std::cell::RefCell::new(None);
                        }
                        let last = LAST.with(|last| last.borrow().clone());
                        let bindings = match last {
                            Some(last) if last.keys().eq(env.bindings.keys()) && last.get("CWD") == env.bindings.get("CWD") => last,
                            _ => env.bindings.clone(),
                        };
                        LAST.with(|last| *last.borrow_mut() = Some(bindings.clone()));
                        let bindings = bindings
                            .into_iter()
                            .map(|(k, v)| (k, v.to_string()))""")],
     HEAD + r"""echo '{let V = "one"; "sh" "-c" "echo $V"; let V = "two"; "sh" "-c" "echo $V"}' > s.dune
timeout 60 "$sh" s.dune > got 2>&1
printf 'one\ntwo\n' > want
cmp -s want got || { head -5 got; exit 1; }
""",
     "a variable that is changed between two programs, with no other made in between", "the second program sees the old value")
seed("file-remembered", "C31",
     [("binary/init/sys_module.rs", """                if let Ok(expr) = crate::parse(&contents) {
                    expr.eval(env)""",
       """                // A library that many files include is parsed once.
                thread_local! {
                    static PARSED: std::cell::RefCell<std::collections::HashMap<(PathBuf, usize), Expression>> = Default::default();
                }
                let key = (canon_path.clone(), contents.len());
                let known = PARSED.with(|parsed| parsed.borrow().get(&key).cloned());
                if let Some(expr) = known.map_or_else(|| crate::parse(&contents).ok(), Some) {
                    PARSED.with(|parsed| parsed.borrow_mut().insert(key, expr.clone()));
                    expr.eval(env)""")],
     HEAD + r"""cat > s.dune <<'E'
{
    fs@write "f" "let x = 1";
    sys@include "f";
    println x;
    fs@write "f" "let x = 2";
    sys@include "f";
    println x;
}
E
timeout 60 "$sh" s.dune > got 2>&1
printf '1\n2\n' > want
cmp -s want got || { head -5 got; exit 1; }
""",
     "a file that is rewritten with a text of the same length between two inclusions", "what the file was before is run again")
seed("names-below", "C14",
     [("binary/init/fs_module.rs", "            let file_name_osstring = entry.file_name();\n            if let Ok(file_name) = file_name_osstring.into_string() {\n                if path.is_dir() {", "            let file_name_osstring = entry.file_name();\n            let Ok(file_name) = file_name_osstring.into_string() else {\n                break;\n            };\n            {\n                if path.is_dir() {")],
     HEAD + r"""mkdir d
for n in a b c e f g h i j; do : > "d/$n"; : > "$(printf 'd/%s\377' $n)"; done
echo 'println (len (fs@tree "d"))' > s.dune
timeout 60 "$sh" s.dune > got 2>&1
[ "$(cat got)" = 11 ] || { head -5 got; exit 1; }
""",
     "a directory with a name that is not text", "the tree of the directory is without what comes after that name")
