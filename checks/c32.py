#!/usr/bin/env python3
"""C32: the compiler ends in order on any source.

The compiler and its formatter, built with AddressSanitizer and
UndefinedBehaviorSanitizer, read mutated and generated sources.  Every run must
end by itself with status 0 or 1; a refusal names at least one coded error; a
second run says the same."""
import glob
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build, main, pmap, run, clean_env, SAN_ENV, REPO  # noqa: E402

TOKEN = re.compile(rb'"(?:[^"\\\n]|\\.)*"|`[^`]*`|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_][A-Za-z0-9_]*|[0-9][0-9A-Za-z_.]*|//[^\n]*|/\*.*?\*/|\s+|->|&&|\|\||==|!=|<=|>=|\+\+|--|[-+*/%]=|.', re.S)
POOL = [b"do", b"mut", b"const", b"struct", b"enum", b"if", b"or", b"otherwise", b"when", b"is", b"default", b"for", b"for_each", b"in", b"not_in", b"range", b"while", b"loop", b"break", b"continue", b"return", b"ensure", b"or_return", b"import", b"using", b"new", b"nil", b"true", b"cast",
        b"int", b"uint", b"string", b"float", b"bool", b"char", b"byte", b"i8", b"u256", b"func", b"Error", b"main", b"x", b"_", b"(", b")", b"{", b"}", b"[", b"]", b",", b":", b".", b"..", b"->", b"=", b"==", b"!", b"+", b"-", b"*", b"/", b"%", b"&", b"&&", b"||", b"^", b"?", b"#", b"@", b"$", b"${", b"()",
        b"\"", b"'", b"`", b"\\", b"//", b"/*", b"*/", b"\n", b";", b"0", b"1", b"-1", b"9223372036854775807", b"99999999999999999999999999", b"0x", b"0b2", b"1e9", b"1.5.2", b"1_", b"''", b"'ab'", b"\"${\"", b"\"${x\"", b"\"\\q\"", b"#strict", b"#flags", b"#json", b"#doc", b"@math", b"[int]", b"[int,3]", b"[string:int]", b"^int", b"func(int)->int", b"\x00", b"\xff", b"\xc3\xa9", b"\r"]

HAND = [
    b"", b"\n", b"\x00", b"\xef\xbb\xbfdo main() { println(1) }\n", b"do main() {\r\n    println(1)\r\n}\r\n", b"do main()", b"do main() {", b"do", b"import", b"import @", b"import \"", b"const", b"mut x", b"const X struct {", b"const X enum {", b"//", b"/*", b"/* /* */", b"\"", b"\"\\", b"'", b"`", b"#", b"#strict", b"@", b"$",
    b"do main() { println(\"${\") }", b"do main() { println(\"${${${1}}}\") }", b"do main() { println(\"${\"${\"${1}\"}\"}\") }", b"do main() { println('\\') }", b"do main() { println(\"\\x\") }", b"do main() { println(\"\\u{110000}\") }", b"do main() { println(\"\\u{\") }",
    b"do f(?) { }\ndo main() { }", b"do f(a ?, b ?) -> ? { return f(a, b) }\ndo main() { mut _ = f(1, 2) }", b"do f(a ?) -> ? { return f(f(a)) }\ndo main() { mut _ = f(1) }", b"const A struct {\n a A\n}\ndo main() { }", b"const A struct {\n a [A]\n}\ndo main() { mut a A = A{a: {}} }", b"const A enum {\n A(A)\n}\ndo main() { }", b"const X int = X\ndo main() { }", b"const X int = Y\nconst Y int = X\ndo main() { }",
    b"do main() { mut a [int,-1] = {} }", b"do main() { mut a [int,99999999999999999999] = {} }", b"do main() { mut a [int,0] = {} }", b"do main() { mut m [[int]:int] = {:} }", b"do main() { mut p ^^^^int = nil }", b"do main() { mut p ^ = nil }", b"do main() { mut a [] = {} }", b"do main() { mut a [ = {} }", b"do main() { mut a [int: = {} }", b"do f(f func(func(func(int)->int)->int)->int) { }\ndo main() { }",
    b"do main() { when { } }", b"do main() { when 1 { is } }", b"do main() { when 1 { is 1, { } } }", b"do main() { when 1 { is range() { } } }", b"do main() { for i in range() { } }", b"do main() { for i in { } }", b"do main() { for_each in x { } }", b"do main() { if { } }", b"do main() { while { } }", b"do main() { or { } }", b"do main() { return return }", b"do main() { x = = 1 }", b"do main() { f(,) }", b"do main() { f(a: ) }", b"do main() { cast() }", b"do main() { cast(1) }", b"do main() { new() }", b"do main() { addr() }", b"do main() { ref() }", b"do main() { len() }", b"do main() { println() }", b"do main() { panic() }", b"do main() { error() }", b"do main() { type_of() }", b"do main() { assert() }", b"do main() { copy() }",
    b"do main() { math.() }", b"do main() { .A }", b"do main() { mut x Shape = .A(1) }", b"do main() { A.B.C.D.E() }", b"do main() { a[0][1][2][3].b.c[4]() }", b"do main() { ()() }", b"do main() { ()x }", b"do main() { -(-(-(-(-1)))) }", b"do main() { !!!!!!!true }", b"do main() { x++++ }", b"do main() { ++x }", b"import @math, @math\ndo main() { }", b"import @math as math as m\ndo main() { }", b"import \"./\"\ndo main() { }", b"import \"/dev/null\"\ndo main() { }", b"using\ndo main() { }",
]


HAND += [b"do main() { mut " + b", ".join(b"v%d%s" % (i, b" int" if i % 2 else b"") for i in range(k)) + b" = f() }\n" for k in (2, 15, 16, 17, 18, 40, 300)]
HAND += [b"do f() -> (" + b", ".join([b"int"] * k) + b") { return " + b", ".join([b"1"] * k) + b" }\ndo main() { mut a = f() or_return " + b", ".join([b"1"] * k) + b" }\n" for k in (2, 15, 16, 17, 18, 40, 300)]
HAND += [b"do main() { " + w + b" " + b", ".join(b"v%d" % i for i in range(k)) + t + b" }\n" for k in (9, 17, 33, 65, 129, 257) for w, t in ((b"", b" = 1"), (b"mut", b" int"), (b"f(", b")"), (b"when 1 { is", b" { println(1) } }"), (b"return", b""), (b"using", b""), (b"for_each", b" in x { }"), (b"mut x [string:[", b"]] = {:}"))]
HAND += [b"import " + b", ".join(b"@m%d" % i for i in range(k)) + b"\ndo main() { }\n" for k in (63, 64, 65, 300)]
HAND += [b"const E enum {\n" + b"\n".join(b" A%d(%s)" % (i, b", ".join([b"int"] * k)) for i in range(3)) + b"\n}\ndo main() { }\n" for k in (1, 9, 17, 33, 65)]
HAND += [b"do g(" + b", ".join(b"a%d ?" % i for i in range(k)) + b") -> ? { return a0 }\ndo main() { mut _ = g(" + b", ".join([b"1"] * k) + b") }\n" for k in (1, 9, 17, 33, 65)]
HAND += [b"do g(f func(" + b", ".join([b"int"] * k) + b") -> int) { }\ndo h(" + b", ".join(b"a%d int" % i for i in range(k)) + b") -> int { return 1 }\ndo main() { g(()h) }\n" for k in (1, 9, 17, 33, 65)]


def deep(rng):
    n = rng.choice([20, 60, 120, 180, 240, 300, 1000, 5000, 30000])
    kind = rng.randrange(17)
    body = {
        0: b"println(" + b"(" * n + b"1" + b")" * n + b")", 1: b"println(" + b"-" * n + b"1)", 2: b"println(1" + b" + 1" * n + b")", 3: b"if true { " * n + b"println(1)" + b" }" * n, 4: b"mut a " + b"[" * n + b"int" + b"]" * n + b" = {}", 5: b"mut p " + b"^" * n + b"int = nil",
        6: b"println(" + b"f(" * n + b"1" + b")" * n + b")", 7: b"mut a [int] = " + b"{" * n + b"1" + b"}" * n, 8: b"println(\"" + b"${1}" * n + b"\")", 9: b"mut " + b"v" * n + b" int = 1", 10: b"println(" + b"1" * n + b")", 11: b"println(\"" + b"s" * n * 4 + b"\")", 12: b"when 1 { " + b"".join(b"is %d { println(1) } " % i for i in range(n)) + b"default { println(2) } }",
        13: b"println(a" + b"[0]" * n + b")", 14: b"println(a" + b".b" * n + b")", 15: b"mut a [int] = {" + b"1, " * n + b"1}\n    println(len(a))",
        16: b"if n0() == 1 { println(1) }" + b" or n0() == 2 { println(2) }" * n,
    }[kind]
    pre = b"do f(n int) -> int { return n }\n"
    if rng.random() < 0.3:
        k = min(n, 3000)
        pre += {0: b"".join(b"do f%d() { println(%d) }\n" % (i, i) for i in range(k)), 1: b"const S struct {\n" + b"".join(b"    f%d int\n" % i for i in range(k)) + b"}\n", 2: b"const E enum {\n" + b"".join(b"    M%d\n" % i for i in range(k)) + b"}\n", 3: b"do many(" + b", ".join(b"a%d int" % i for i in range(k)) + b") { println(1) }\n",
                4: b"".join(b"mut g%d int = %d\n" % (i, i) for i in range(k)), 5: b"import " + b", ".join([b"@math"] * k) + b"\n", 6: b"do res() -> (" + b", ".join([b"int"] * min(k, 300)) + b") { return " + b", ".join([b"1"] * min(k, 300)) + b" }\n"}[rng.randrange(7)]
    return pre + b"do main() {\n    " + body + b"\n}\n", "generated/%d" % kind


def mutate(rng, texts, src):
    toks = TOKEN.findall(src)
    k = rng.randrange(12)
    if not toks:
        return src, "empty"
    if k == 0:
        return src[:rng.randrange(len(src) + 1)], "truncate"
    if k == 1:
        i = rng.randrange(len(src)) if src else 0
        return src[:i] + bytes([rng.randrange(256)]) + src[i + 1:], "byte"
    if k == 2:
        i = rng.randrange(len(src)) if src else 0
        return src[:i] + src[i:i + rng.randrange(1, 200)] * 2 + src[i:], "repeat bytes"
    sig = [i for i, t in enumerate(toks) if not t.isspace()]
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        i = rng.choice(sig)
        if k in (3, 4):
            toks[i] = rng.choice(POOL)
        elif k == 5:
            toks[i] = b""
        elif k == 6:
            toks[i] = toks[i] + b" " + rng.choice(POOL)
        elif k == 7:
            j = rng.choice(sig)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 8:
            toks[i] = toks[i] + b" " + toks[i]
        elif k == 9:
            toks[i] = toks[rng.choice(sig)]
        elif k == 10:
            other = rng.choice(texts).split(b"\n")
            j = rng.randrange(len(other))
            toks[i] = toks[i] + b"\n" + b"\n".join(other[j:j + rng.choice([1, 2, 5])]) + b"\n"
        else:
            toks[i:i + rng.randrange(2, 12)] = []
            sig = [q for q in range(len(toks)) if toks[q] and not toks[q].isspace()] or [0]
            if not toks:
                break
    return b"".join(toks), ("", "", "", "replace", "replace", "delete", "insert", "swap", "double", "copy", "splice", "delete run")[k]


def check(c):
    tree = build("grayc-asan")
    texts = []
    for path in sorted(glob.glob(os.path.join(REPO, "integration-tests", "**", "*.gray"), recursive=True)) + sorted(glob.glob(os.path.join(REPO, "examples", "**", "*.gray"), recursive=True)):
        with open(path, "rb") as f:
            b = f.read()
        if b and len(b) < 12000:
            texts.append(b)
    env = clean_env(dict(SAN_ENV))
    env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + ":detect_stack_use_after_return=0"
    jobs = [("hand/%d" % i, t) for i, t in enumerate(HAND)]
    for i in range(c.scale(80, 1500)):
        t, key = deep(c.rng)
        jobs.append((key, t))
    for i in range(c.scale(3000, 90000)):
        t, key = mutate(c.rng, texts, c.rng.choice(texts))
        jobs.append((key, t))
    for i, t in enumerate(texts):
        if c.thorough or i % 12 == 0:
            jobs.append(("corpus", t))
    modes = [("check",), ("build", "-c", "-o", "OUT", "-q"), ("--fmt",), ("check", "-q")]

    def one(item):
        i, (key, text) = item
        path = os.path.join(c.work, "m%d.gray" % i)
        with open(path, "wb") as f:
            f.write(text)
        res = []
        use = [0, 1] if i % 2 else [0, 2]
        if key.startswith("hand"):
            use = [0, 1, 2]
        for m in use:
            mode = modes[m]
            args = [a.replace("OUT", path + ".c") for a in mode[1:]]
            if mode[0] == "--fmt":
                with open(path, "wb") as f:
                    f.write(text)
            r = run([tree.grayc, mode[0], path] + args, timeout=120, env=env, cwd=c.work)
            res.append((mode[0], r))
        again = None
        if i % 7 == 0:
            with open(path, "wb") as f:
                f.write(text)
            again = run([tree.grayc, "check", path], timeout=120, env=env, cwd=c.work)
        for p in (path, path + ".c"):
            if os.path.exists(p):
                os.unlink(p)
        return key, text, res, again

    codes = {}
    for key, text, res, again in pmap(one, list(enumerate(jobs))):
        first = res[0][1]
        for mode, r in res:
            c.case("%s|%s|%d" % (mode, key, r.rc if r.rc is not None else -9), nontrivial=True)
            msg = (r.out + r.err).decode(errors="replace")
            for e in re.findall(r"(?:error|warning)\[([EWP]\d+)\]", msg):
                codes[e] = codes.get(e, 0) + 1
            bad = None
            if r.timeout:
                bad = "%s does not end within 120 s" % mode
            elif r.sanitizer:
                bad = "%s: %s" % (mode, r.sanitizer)
            elif r.rc not in (0, 1) or r.crashed:
                bad = "%s ends with status %s" % (mode, r.rc)
            elif r.rc == 1 and mode != "--fmt" and "error" not in msg:
                bad = "%s refuses without a word" % mode
            elif "internal compiler error" in msg or "internal error" in msg.lower():
                bad = "%s reports an internal error: %s" % (mode, " ".join(msg.split())[:160])
            elif r.rc == 0 and mode in ("check", "build") and re.search(r"error\[E\d+\]", msg):
                bad = "%s succeeds after printing an error" % mode
            elif mode == "build" and first.rc != r.rc and not first.timeout and first.rc in (0, 1):
                bad = "check ends with %s and build with %s: %s" % (first.rc, r.rc, " ".join(msg.split())[:160])
            if bad:
                where = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) [^ ]*grayc/src", msg)
                cell = "%s|%s" % (re.sub(r"0x[0-9a-f]+|\d+", "N", bad.split(":")[0]), where.group(1) if where else "")
                if os.environ.get("SUITE_DEBUG"):
                    print("CELL", cell)
                c.violation("%s (%s)" % (bad, key), {"main.gray": text}, msg[-3000:], known=c.known_cell(cell))
        if again is not None and not again.timeout and not first.timeout:
            c.count("repeats")
            if (again.rc, again.out, again.err) != (first.rc, first.out, first.err) and not again.sanitizer and not first.sanitizer:
                c.violation("two runs of check differ (%s)" % key, {"main.gray": text}, first.brief() + "\n" + again.brief())
    for e in sorted(codes):
        c.seen("diagnostic codes", e)


if __name__ == "__main__":
    main(check, "C32", "on any source the compiler and formatter end with status 0 or 1, without sanitizer reports, naming an error when they refuse")
