#!/usr/bin/env python3
"""C37: formatting keeps the program and is stable.

The formatter runs on sources whose layout was scrambled and which were given
hostile lines (quotes, braces and backticks in comments, strings, characters
and raw strings).  A small independent scanner of the language's literals and
comments says what each result must be."""
import glob
import os
import random
import stat
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build, build_cli, main, pmap, run, clean_env, REPO  # noqa: E402


def scan(src):
    """-> (class of each byte, first byte outside which something is unfinished).

    Classes: c code, / comment, s literal text (kept byte for byte), B outermost braces."""
    out = bytearray(b"c" * len(src))
    i, n = 0, len(src)
    while i < n:
        ch = src[i:i + 1]
        j = i + 1
        k = b"c"
        if src[i:i + 2] == b"//":
            j = src.find(b"\n", i)
            j = n if j < 0 else j
            k = b"/"
        elif src[i:i + 2] == b"/*":
            j = src.find(b"*/", i + 2)
            if j < 0:
                return None
            j += 2
            k = b"/"
        elif ch == b"`":
            j = src.find(b"`", i + 1)
            if j < 0:
                return None
            j += 1
            k = b"s"
        elif ch == b"'":
            j = i + 1
            j += 2 if src[j:j + 1] == b"\\" else 1
            j = src.find(b"'", j)
            if j < 0:
                return None
            j += 1
            k = b"s"
        elif ch == b'"':
            depth = 0
            while j < n:
                if src[j:j + 1] == b"\\":
                    j += 2
                    continue
                if src[j:j + 2] == b"${":
                    depth += 1
                    j += 2
                    continue
                q = src[j:j + 1]
                if q == b"{" and depth:
                    depth += 1
                elif q == b"}" and depth:
                    depth -= 1
                elif q == b'"' and not depth:
                    break
                elif q == b"\n" and not depth:
                    return None
                j += 1
            if j >= n:
                return None
            j += 1
            k = b"s"
        elif ch in b"{}":
            k = b"B"
        out[i:j] = k * (j - i)
        i = j
    return bytes(out)


BL = b" \t\r"


def expected(src):
    """The formatted text of the source."""
    cls = scan(src)
    if cls is None:
        return None
    out, blank, depth, pos = [], 0, 0, 0
    lines = src.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    first_depth = 0
    for line in lines:
        a, b = pos, pos + len(line)
        pos = b + 1
        from_text = a > 0 and cls[a - 1:a] == b"s" and src[a - 1:a] == b"\n"
        into_text = b < len(src) and cls[b:b + 1] == b"s"
        lo, hi = a, b
        if not from_text:
            while lo < hi and src[lo] in BL:
                lo += 1
        if not into_text:
            while hi > lo and src[hi - 1] in BL:
                hi -= 1
        ind = first_depth
        # the depth of the line is that of its first token; a line of comments only follows the last line with tokens
        started = False
        for q in range(a, b):
            if cls[q:q + 1] == b"/" or (cls[q:q + 1] == b"c" and src[q] in BL):
                continue
            if cls[q:q + 1] == b"s" and from_text and not started and b"s" == cls[a:q + 1][-1:] and all(x == ord("s") for x in cls[a:q + 1]):
                continue  # still the literal begun on an earlier line
            t = src[q:q + 1] if cls[q:q + 1] == b"B" else b""
            if t == b"}":
                depth = max(0, depth - 1)
            if not started:
                ind = depth
                started = True
            if t == b"{":
                depth += 1
        first_depth = ind
        if lo == hi and not from_text and not into_text:
            blank += 1
            continue
        out += [b""] * min(blank, 2)
        blank = 0
        out.append((b"" if from_text else b" " * (4 * ind)) + src[lo:hi])
    return b"".join(x + b"\n" for x in out)


SNIPS = [b'// don\'t "quote', b"// a ` tick", b"/* \" ` ' { } */", b"// } } {{{", b"/*\n   one {\n     \"two\n\n\n\n   `three\n*/", b"println('\"')", b"println('`')", b"println('{')", b"println('}')", b"println('\\'')", b'println("// not a comment")', b'println("a ` b")', b'println("{ } }")', b'println("/* no */")',
         b'println("x ${"}"} y")', b'println("q \\" {")', b"println(`raw { text\n   kept   \n\t\ttabs\t\n\n\n\n\nend }`)", b"println(`// raw`)", b"println(`\"`)", b"println(`a`) // `", b"println(`a\n  `)   ", b"println(`\n`) /* ` */", b'println("${len("a { b")}")', b"if true { println(1) }", b"if true {\nprintln(1) } otherwise {\nprintln(2)\n}", b"println(`x\n` )\nprintln(`\n y`)", b"println(\"\xc3\xa9 \xe2\x98\x83\")", b"// \xc3\xa9   "]


def scramble(rng, src):
    """Same program, other layout."""
    cls = scan(src)
    out = []
    pos = 0
    for line in src.split(b"\n"):
        a, b = pos, pos + len(line)
        pos = b + 1
        from_text = a > 0 and cls[a - 1:a] == b"s"
        into_text = b < len(src) and cls[b:b + 1] == b"s"
        in_comment = b < len(src) and cls[b:b + 1] == b"/"
        t = line
        if not from_text:
            t = t.lstrip(BL)
            r = rng.random()
            t = (b" " * rng.randrange(12) if r < 0.5 else b"\t" * rng.randrange(4) if r < 0.7 else b" \t " if r < 0.8 else b"") + t
        if not into_text:
            t = t.rstrip(BL) + rng.choice([b"", b"", b" ", b"\t", b"   \t", b"\r"])
        out.append(t)
        if not into_text and not in_comment and rng.random() < 0.15:
            out += [rng.choice([b"", b"", b"  ", b"\t", b"\r"]) for _ in range(rng.randrange(1, 7))]
    return b"\n".join(out) + rng.choice([b"", b"\n", b"\n\n\n", b"  \n\t\n"])


def insert(rng, src):
    """Adds statements and comments after lines that open a function body, and comments at the top level."""
    lines = src.split(b"\n")
    out = []
    hit = False
    for ln in lines:
        out.append(ln)
        if ln.startswith(b"do main()") and ln.rstrip().endswith(b"{") and not hit:
            hit = True
            out += [rng.choice(SNIPS) for _ in range(rng.randrange(1, 6))]
    return b"\n".join([rng.choice([s for s in SNIPS if s[:1] == b"/"])] + out + [rng.choice([s for s in SNIPS if s[:1] == b"/"])] + [b""])


BAD = [b"do main() {\n  println(\"open)\n}\n   x\n", b"do main() {\n  println('a)\n }\n", b"do main() {\n     println(`open)\n}\n\n\n\n\n", b"/* open\n   do main() { }\n", b"do main() {\n      println(\"bad \\q\")\n      println(1)\n}\n", b"do main() {\n   println(1) \x01\n}\n", b"do main() {\n   println(1)\x00\n   println(2)\n}\n", b"do main() {\n      mut x = 0x\n   println(1)   \n}\n", b"do main() {\n   println('ab')   \n}\n", b"\x00\x00  \n"]


def check(c):
    tree = build("plain")
    rng = c.rng
    texts = []
    for path in sorted(glob.glob(os.path.join(REPO, "integration-tests", "**", "*.gray"), recursive=True)):
        with open(path, "rb") as f:
            b = f.read()
        if b and len(b) < 30000 and b"\x00" not in b and scan(b) is not None:
            texts.append((path, b))
    env = clean_env({})
    jobs = []
    for path, b in texts:
        if "/pass/" in path or c.thorough or rng.random() < 0.2:
            jobs.append(("as is", b))
    for i in range(c.scale(700, 9000)):
        path, b = rng.choice(texts)
        r = random.Random("%d:%d" % (c.seed, i))
        if r.random() < 0.7:
            b = insert(r, b)
            if scan(b) is None:
                continue
        jobs.append(("scrambled", scramble(r, b)))
    for s in SNIPS:
        jobs.append(("snippet", b"do main() {\n" + s + b"\n  println(3)\n}\n"))
        jobs.append(("snippet", b"do main() {\n  println(3)\n}\n" + (s if s[:1] == b"/" else b"")))
    jobs += [("small", t) for t in (b"", b"\n", b"\n\n\n\n", b"   ", b"x", b"}\n}\n}\n", b"{\n{\n{\n", b"do main() { }", b"do main() {\r\n println(1)\r\n}\r\n", b"} {\n}\n{ }\n", b"}\n}\n{\nx\n}\ny\n", b"`a", )]

    def fmt(path):
        return run([tree.grayc, "--fmt", path], timeout=60, env=env, cwd=c.work)

    def one(item):
        i, (kind, src) = item
        path = os.path.join(c.work, "f%d.gray" % i)
        with open(path, "wb") as f:
            f.write(src)
        r = fmt(path)
        with open(path, "rb") as f:
            once = f.read()
        r2 = fmt(path)
        with open(path, "rb") as f:
            twice = f.read()
        os.unlink(path)
        return kind, src, r, once, r2, twice

    for kind, src, r, once, r2, twice in pmap(one, list(enumerate(jobs))):
        c.case("%s|%d|%s" % (kind, r.rc if r.rc is not None else -9, len(src) // 400), nontrivial=once != src)
        files = {"main.gray": src, "formatted.gray": once}
        want = expected(src)
        if r.timeout or r.crashed or r.rc not in (0, 1):
            c.violation("the formatter ends with %s" % r.rc, files, r.brief())
        elif r.rc == 1:
            c.count("refused")
            if once != src:
                c.violation("a file the formatter refuses is changed", files, r.brief())
            elif want is not None and not any(x < 32 and x not in (9, 10, 13) for x in src) and kind != "as is" and kind != "small" and b"\\" not in src:
                c.count("refused though scannable")
        else:
            c.count("formatted")
            if want is None:
                c.violation("a source with an unfinished literal is formatted", files, r.brief())
            elif once != want:
                c.violation("formatting does not give the same text in the standard layout", dict(files, **{"expected.gray": want}), "")
            if twice != once or r2.rc != 0:
                c.violation("formatting twice is not formatting once", dict(files, **{"again.gray": twice}), r2.brief())

    # sources nobody can format stay as they are
    for i, b in enumerate(BAD):
        path = os.path.join(c.work, "bad%d.gray" % i)
        with open(path, "wb") as f:
            f.write(b)
        r = fmt(path)
        with open(path, "rb") as f:
            now = f.read()
        c.case("bad|%d" % i)
        if now != b:
            c.violation("a source that cannot be read is changed", {"main.gray": b, "formatted.gray": now}, r.brief())
        if r.rc != 1 or not r.err:
            c.violation("a source that cannot be read is not reported", {"main.gray": b}, r.brief())

    # failing writes leave the file, permissions and links are kept
    big = b"do main() {\n" + b"  println(1)\n" * 3000 + b"}\n"
    for mode, limit in ((0o644, 4096), (0o600, 30000), (0o755, None), (0o640, None)):
        d = os.path.join(c.work, "w%o" % mode)
        os.makedirs(d)
        path = os.path.join(d, "a.gray")
        with open(path, "wb") as f:
            f.write(big)
        os.chmod(path, mode)
        os.symlink("a.gray", os.path.join(d, "link.gray"))
        r = run([tree.grayc, "--fmt", os.path.join(d, "link.gray")], timeout=60, env=env, cwd=d, limit_fsize=limit)
        with open(path, "rb") as f:
            now = f.read()
        c.case("write|%o" % mode)
        if limit:
            if now != big:
                c.violation("a failed write loses the source (%d of %d bytes left)" % (len(now), len(big)), {}, r.brief())
            if r.rc == 0:
                c.violation("a failed write is not reported", {}, r.brief())
        else:
            if now != expected(big) or r.rc != 0:
                c.violation("a source behind a link is not formatted", {}, r.brief())
        if stat.S_IMODE(os.stat(path).st_mode) != mode or not os.path.islink(os.path.join(d, "link.gray")) or sorted(os.listdir(d)) != ["a.gray", "link.gray"]:
            c.violation("formatting changes the file's permissions, its link or its folder", {}, "%o %s" % (os.stat(path).st_mode, os.listdir(d)))

    # the output of formatted programs
    runnable = [t for t in texts if "/pass/core/" in t[0] and b"import \"" not in t[1] and b"os.args" not in t[1] and b"here()" not in t[1]]
    pick = rng.sample(runnable, min(len(runnable), c.scale(24, 200)))

    def behave(item):
        i, (path, b) = item
        r = random.Random("%d:b%d" % (c.seed, i))
        outs = []
        for which, src in (("a", b), ("b", scramble(r, b))):
            p = os.path.join(c.work, "r%d%s.gray" % (i, which))
            with open(p, "wb") as f:
                f.write(src)
            if which == "b":
                fmt(p)
            binp = p[:-5]
            res = run([tree.grayc, "build", p, "-o", binp, "-q"], timeout=120, env=env, cwd=c.work)
            x = run([binp], timeout=30, env=env, cwd=c.work) if os.path.exists(binp) else res
            if os.path.exists(binp):
                os.unlink(binp)
            outs.append((res.rc, x.rc, x.out))
        return path, b, outs

    for path, b, outs in pmap(behave, list(enumerate(pick))):
        c.case("behaves|" + os.path.basename(path))
        if outs[0] != outs[1] and b"random" not in b and b"time" not in b and b"uuid" not in b and b"addr" not in b:
            c.violation("the formatted program of %s behaves differently" % os.path.basename(path), {"main.gray": b}, repr(outs)[:3000])

    # the command: check mode says what write mode does
    cli = os.path.join(build_cli(), "gray")
    home = os.path.join(c.work, "home")
    os.makedirs(home)
    cenv = clean_env({"HOME": home, "XDG_CACHE_HOME": os.path.join(home, "c"), "TMPDIR": home, "NO_COLOR": "1"})
    for k in range(c.scale(8, 60)):
        r = random.Random("%d:t%d" % (c.seed, k))
        top = os.path.join(c.work, "p%d" % k)
        files = {}
        for i in range(r.randrange(1, 9)):
            sub = r.choice(["", "sub", "sub/deep", "other"])
            name = os.path.join(sub, "f%d.%s" % (i, r.choice(["gray", "gray", "gray", "txt"])))
            b = r.choice(texts)[1] if r.random() < 0.75 else r.choice(BAD + [b"do main() {\n   println(1) \n}\n"] * 9)
            if r.random() < 0.4 and expected(b) is not None:
                b = expected(b)
            os.makedirs(os.path.join(top, sub), exist_ok=True)
            with open(os.path.join(top, name), "wb") as f:
                f.write(b)
            files[name] = b
        what = r.choice(["./...", "...", ".", "files", "sub/...", "missing"])
        gray = sorted(n for n in files if n.endswith(".gray"))
        if what in ("./...", "..."):
            args, sel = [what], gray
        elif what == ".":
            args, sel = ["."], [n for n in gray if "/" not in n]
        elif what == "sub/...":
            args, sel = [what], [n for n in gray if n.startswith("sub/")]
            if not os.path.isdir(os.path.join(top, "sub")):
                sel = None
        elif what == "files":
            sel = gray
            args = gray + gray[:1]
        else:
            args, sel = gray + ["none.gray"], None
        if not args:
            continue
        ck = run([cli, "fmt", "--check"] + args, timeout=120, env=cenv, cwd=top)
        now = {n: open(os.path.join(top, n), "rb").read() for n in files}
        if now != files:
            c.violation("fmt --check changes a file", files, ck.brief())
        wr = run([cli, "fmt"] + args, timeout=120, env=cenv, cwd=top)
        now = {n: open(os.path.join(top, n), "rb").read() for n in files}
        changed = sorted(n for n in files if now[n] != files[n])
        would = sorted(os.path.relpath(ln[14:].decode(), os.path.realpath(top)) for ln in ck.out.split(b"\n") if ln.startswith(b"would format: "))
        did = sorted(os.path.relpath(ln[11:].decode(), os.path.realpath(top)) for ln in wr.out.split(b"\n") if ln.startswith(b"formatted: "))
        c.case("tree|%s|%d changed|%d" % (what, len(changed), ck.rc if ck.rc is not None else -9))
        blame = {n.replace("/", "_"): b for n, b in files.items()}
        detail = "%s\n%s\n%s" % (args, ck.brief(), wr.brief())
        if would != changed or did != changed:
            c.violation("fmt --check names %s, fmt names %s and changes %s" % (would, did, changed), blame, detail)
        refused = [n for n in (sel or []) if files[n] in BAD]
        if sel is None:
            if ck.rc == 0 or wr.rc == 0:
                c.violation("fmt succeeds on a path that does not exist", blame, detail)
        else:
            if (ck.rc != 0) != bool(changed or refused) or (wr.rc != 0) != bool(refused):
                c.violation("fmt --check ends with %s and fmt with %s; %d files change, %d cannot be formatted" % (ck.rc, wr.rc, len(changed), len(refused)), blame, detail)
            if refused and (not ck.err or not wr.err):
                c.violation("fmt does not report a file it cannot format", blame, detail)
        again = run([cli, "fmt", "--check"] + args, timeout=120, env=cenv, cwd=top)
        if sel is not None and (again.rc != 0) != bool(refused):
            c.violation("fmt --check is not content with what fmt wrote", blame, again.brief())


if __name__ == "__main__":
    main(check, "C37", "the formatted text is the same program in the standard layout, formatting again changes nothing, unreadable sources and failed writes leave the file, check mode agrees")
