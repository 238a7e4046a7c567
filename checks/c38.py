#!/usr/bin/env python3
"""C38: the gray command reports the outcome in its exit status.

The real command is run in good and bad situations of every subcommand; the
monitor compares status, streams and files left with what was asked.  Programs
run through it report the arguments and input they received."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build_cli, main, pmap, run, clean_env  # noqa: E402

ECHO = '''import @os
import @strconv
do main() {
    mut a [string] = os.args()
    for i in range(1, len(a)) {
        println("${len(a[i])}:${a[i]};")
    }
    println("end")
}
'''
STATUS = '''import @os
import @strconv
do main() {
    mut a [string] = os.args()
    eprintln("to err")
    print("no newline")
    mut n, _ = strconv.to_int(a[1])
    exit(n)
}
'''
LINES = '''do main() {
    mut n int = 0
    loop {
        mut s string = input()
        if s == "stop" { break }
        n = n + 1
        println("${n}<${s}>")
        eprintln("e${n}")
    }
}
'''
GOOD = 'do main() {\n    println("hello")\n}\n'
BADT = 'do main() {\n    mut x int = "s"\n    println(x)\n}\n'
WARN = 'do main() {\n    mut unused int = 1\n    println("w")\n}\n'
HOSTILE = ["", " ", "a b", "'", '"', "$HOME", "`id`", ";true", "--", "-o", "-q", "--quiet", "-c", "-h", "--help", "version", "build", "check", "run", "x.gray", "-", "--fmt", "\\", "a\nb", "é☃", "*", "%s%d", "x" * 5000, "~", "&", "|", "--no-color", "-v", "=", "--x=y"]


def check(c):
    root = build_cli()
    gray = os.path.join(root, "gray")
    home = os.path.join(c.work, "home")
    os.makedirs(os.path.join(home, ".gray"))
    env = clean_env({"HOME": home, "NO_COLOR": "1", "HTTPS_PROXY": "http://127.0.0.1:9", "https_proxy": "http://127.0.0.1:9"})
    d = os.path.join(c.work, "p")
    os.makedirs(d)

    def put(name, text):
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    for n, t in (("echo.gray", ECHO), ("status.gray", STATUS), ("lines.gray", LINES), ("good.gray", GOOD), ("badt.gray", BADT), ("warn.gray", WARN), ("note.txt", "x"), ("syn.gray", "do main( {\n"), ("panic.gray", 'do main() {\n    println("before")\n    panic("stop here")\n}\n'), ("flood.gray", 'do main() {\n    for i in range(0, 60000) { println("line ${i}") }\n}\n'),
                 ("proj/main.gray", GOOD), ("proj/other.gray", "do f() -> int {\n    return 1\n}\n"), ("badproj/main.gray", BADT), ("docs.gray", '#doc("Adds one.")\ndo inc(n int) -> int {\n    return n + 1\n}\ndo main() {\n    println(inc(1))\n}\n'), ("unf.gray", 'do main() {\n    println("open)\n}\n'), ("have/x", "keep")):
        put(n, t)
    os.makedirs(os.path.join(d, "empty"))
    run([gray, "check", "good.gray"], timeout=60, env=env, cwd=d)

    def go(args, stdin=b"", e=None):
        return run([gray] + args, timeout=120, env=e or env, cwd=d, stdin=stdin)

    # --- what the program run gets and gives ---
    rng = c.rng
    jobs = [["echo.gray"], ["echo.gray", "--"]] + [["echo.gray", "--", a] for a in HOSTILE]
    for _ in range(c.scale(12, 120)):
        jobs.append(["echo.gray", "--"] + [rng.choice(HOSTILE) for _ in range(rng.randrange(2, 9))])
    jobs.append(["echo.gray", "--"] + ["n%d" % i for i in range(1500)])
    jobs += [["echo.gray", "a", "b c"], ["echo.gray", "-q", "all", "--", "-q", "z"], ["echo.gray", "--no-color", "--", "v"]]
    for args, r in zip(jobs, pmap(go, jobs)):
        sent = args[args.index("--") + 1:] if "--" in args else [a for a in args[1:]]
        want = "".join("%d:%s;\n" % (len(a.encode()), a) for a in sent) + "end\n"
        c.case("args|%d|%s" % (len(sent), sent[0][:12] if sent else ""), nontrivial=bool(sent))
        if r.rc != 0 or r.out != want.encode() or r.timeout:
            c.violation("a program run with %s receives other arguments" % repr(sent[:6])[:120], {"main.gray": ECHO}, "%s\nwanted %r" % (r.brief(), want[:500]))
    codes = [0, 1, 2, 3, 7, 42, 77, 100, 125, 126, 127, 128, 137, 200, 254, 255]
    for n, r in zip(codes, pmap(lambda n: go(["status.gray", "--", str(n)]), codes)):
        c.case("status|%d" % n)
        if r.rc != n or r.out != b"no newline" or r.err != b"to err\n":
            c.violation("a program that exits with %d ends gray with %s" % (n, r.rc), {"main.gray": STATUS}, r.brief())
    for k in (0, 1, 5, 3000):
        data = b"".join(b"l %d \xc3\xa9\n" % i for i in range(k)) + b"stop\nunread\n"
        r = go(["lines.gray"], data)
        want = b"".join(b"%d<l %d \xc3\xa9>\n" % (i + 1, i) for i in range(k))
        c.case("stdin|%d" % k)
        if r.rc != 0 or r.out != want or r.err != b"".join(b"e%d\n" % (i + 1) for i in range(k)):
            c.violation("a program run with %d lines of input reads or writes something else" % k, {"main.gray": LINES}, r.brief()[:2000])
    r = go(["flood.gray"])
    c.case("stdout|flood")
    if r.rc != 0 or r.out != b"".join(b"line %d\n" % i for i in range(60000)):
        c.violation("long output of a program does not come through", {}, r.brief()[:800])
    r = go(["panic.gray"])
    c.case("panic")
    if r.rc == 0 or r.out != b"before\n" or b"stop here" not in r.err:
        c.violation("a panicking program does not fail", {}, r.brief())
    # a pending update notice does not get into the output of programs
    os.makedirs(os.path.join(home, "n", ".gray"), exist_ok=True)
    nenv = dict(env, HOME=os.path.join(home, "n"))
    with open(os.path.join(home, "n", ".gray", "update_check"), "w") as f:
        f.write('{"last_check":"%s","latest_version":"v99.0.0"}' % time.strftime("%Y-%m-%d"))
    r = go(["good.gray"], e=nenv)
    c.case("notice")
    c.count("update notices shown", b"99.0.0" in r.err)
    if r.rc != 0 or r.out != b"hello\n":
        c.violation("an update notice gets into the program's output", {}, r.brief())

    # --- every subcommand, good and bad ---
    def exists(n):
        return lambda: os.path.exists(os.path.join(d, n))

    def absent(n):
        return lambda: not os.path.exists(os.path.join(d, n))

    T = [  # args, succeeds, effect
        (["build", "good.gray", "-o", "b1"], True, exists("b1")), (["build", "good.gray"], True, exists("good")), (["build", "badt.gray", "-o", "b2"], False, absent("b2")), (["build", "syn.gray", "-o", "b3"], False, absent("b3")), (["build", "none.gray", "-o", "b4"], False, absent("b4")), (["build"], False, None), (["build", "good.gray", "warn.gray"], False, None), (["build", "note.txt"], False, None), (["build", "good.gray", "--nope"], False, None),
        (["build", "good.gray", "-o", "nodir/x"], False, None), (["build", "good.gray", "-o", "empty"], False, None), (["build", "good.gray", "--emit-c", "-o", "e1.c"], True, exists("e1.c")), (["build", "good.gray", "--emit-c"], True, exists("good.c")), (["build", "good.gray", "--emit-c", "-o", "nodir/e.c"], False, None), (["build", "badt.gray", "--emit-c", "-o", "e2.c"], False, absent("e2.c")), (["build", "warn.gray", "-o", "b5"], True, exists("b5")), (["build", "warn.gray", "-q", "all", "-o", "b6"], True, exists("b6")),
        (["build", "good.gray", "--time", "-o", "b7"], True, exists("b7")), (["build", "good.gray", "-o"], False, None), (["build", "have"], False, None), (["build", "have/x"], False, None),
        (["check", "good.gray"], True, None), (["check", "badt.gray"], False, None), (["check", "syn.gray"], False, None), (["check", "warn.gray"], True, None), (["check", "warn.gray", "-q", "all"], True, None), (["check", "badt.gray", "-q", "all"], False, None), (["check", "none.gray"], False, None), (["check", "proj"], True, None), (["check", "badproj"], False, None), (["check", "empty"], False, None), (["check"], False, None), (["check", "note.txt"], False, None), (["check", "good.gray", "badt.gray"], False, None), (["check", "good.gray", "--zz"], False, None), (["check", "nodir"], False, None),
        (["good.gray"], True, None), (["badt.gray"], False, None), (["none.gray"], False, None), (["syn.gray"], False, None), (["nosuchcommand"], False, None), (["--nosuchflag"], False, None), (["-Z"], False, None), (["buildd", "good.gray"], False, None), ([], True, None), (["--help"], True, None), (["help"], True, None), (["help", "build"], True, None), (["build", "--help"], True, None),
        (["fmt"], False, None), (["fmt", "none.gray"], False, None), (["fmt", "nodir"], False, None), (["fmt", "nodir/..."], False, None), (["fmt", "note.txt"], False, None), (["fmt", "unf.gray"], False, None), (["fmt", "--check", "unf.gray"], False, None), (["fmt", "--check", "good.gray"], True, None), (["fmt", "good.gray"], True, None), (["fmt", "good.gray", "none.gray"], False, None), (["fmt", "--check", "none.gray", "good.gray"], False, None),
        (["doc", "docs.gray", "-o", "D1.md"], True, exists("D1.md")), (["doc", "docs.gray"], True, exists("DOCS.md")), (["doc"], False, None), (["doc", "none.gray", "-o", "D2.md"], False, absent("D2.md")), (["doc", "nodir"], False, None), (["doc", "nodir/...", "-o", "D5.md"], False, None), (["doc", "docs.gray", "-o", "have/x/y.md"], False, None), (["doc", "docs.gray", "-o", "empty"], False, None), (["doc", "docs.gray", "none.gray", "-o", "D3.md"], False, None), (["doc", "docs.gray", "-o", "deep/er/D4.md"], True, exists("deep/er/D4.md")),
        (["new", "fresh"], True, exists("fresh/main.gray")), (["new", "have"], False, lambda: open(os.path.join(d, "have/x")).read() == "keep"), (["new", "fresh2", "-t", "nosuch"], False, absent("fresh2/main.gray")), (["new", "fresh3", "-t", "cli"], True, exists("fresh3")), (["new", "fresh4", "-t", "lib"], True, exists("fresh4")), (["new", "fresh5", "-t", "multi"], True, exists("fresh5")), (["new", "fresh6", "-t", "server", "-s", "minimal"], True, exists("fresh6")), (["new", "fresh7", "-t", "server", "-s", "nosuch"], False, absent("fresh7/main.gray")), (["new", "fresh8", "-t", "client", "-c"], True, exists("fresh8")), (["new", "a", "b", "c"], False, absent("a")), (["new", "fresh9", "--zz"], False, absent("fresh9")), (["new", "note.txt"], False, None),
        (["man"], True, None), (["man", "println"], True, None), (["man", "println()"], True, None), (["man", "math"], True, None), (["man", "math.sqrt"], True, None), (["man", "builtins"], True, None), (["man", "keywords"], True, None), (["man", "nosuchname"], False, None), (["man", "math.nosuch"], False, None), (["man", "nosuch.sqrt"], False, None), (["man", ""], False, None),
        (["version"], True, None), (["report"], True, None), (["watch", "none.gray"], False, None), (["watch", "nodir"], False, None), (["watch"], False, None), (["watch", "note.txt"], False, None), (["watch", "empty"], False, None),
        (["update"], False, None), (["install"], False, None), (["install", "1.2.3"], False, None), (["install", "nonsense"], False, None), (["install", "../../x"], False, None), (["update", "http://example.com/x"], False, None), (["update", "--nope"], False, None), (["install", "1.2.3", "4.5.6"], False, None),
    ]
    for args, ok, effect in T:
        r = go(args)
        key = " ".join(args)
        cell = "cmd|" + key
        c.case("cmd|%s|%s" % (key, ok))
        if r.timeout:
            c.violation("gray %s does not end" % key, {}, r.brief(), known=c.known_cell(cell))
        elif (r.rc == 0) != ok:
            c.violation("gray %s ends with %s" % (key, r.rc), {}, r.brief(), known=c.known_cell(cell))
        elif not ok and not r.err.strip():
            c.violation("gray %s fails without a message on standard error" % key, {}, r.brief(), known=c.known_cell(cell))
        elif r.rc not in (0, 1):
            c.violation("gray %s ends with %s" % (key, r.rc), {}, r.brief(), known=c.known_cell(cell))
        if effect and not effect():
            c.violation("gray %s ends with %s but its effect on the files is not that" % (key, r.rc), {}, r.brief(), known=c.known_cell(cell))


if __name__ == "__main__":
    main(check, "C38", "status, streams and files of every subcommand and of programs run through gray agree with what was asked")
