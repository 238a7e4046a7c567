"""C25: path functions follow their definitions on all paths.

Oracle: Python's posixpath where the documentation defines the same function, with the documented differences; for every
path also the laws relating the functions (join(dirname, basename) denotes the same path; normalize is idempotent and
agrees with the operating system's reading of the path on a link-free tree)."""
import sys, os, posixpath
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *


def norm(p):
    """'.'-free, '..'-resolved, single separators; '//' is not special"""
    if p == "":
        return "."
    ab = p.startswith("/")
    out = []
    for s in p.split("/"):
        if s in ("", "."):
            continue
        if s == "..":
            if out and out[-1] != "..":
                out.pop()
            elif not ab:
                out.append(s)
        else:
            out.append(s)
    return ("/" if ab else "") + "/".join(out) or "."


def dirname(p):
    q = p.rstrip("/")
    if q == "":
        return "/" if p else "."
    if "/" not in q:
        return "."
    d = q[:q.rindex("/")]
    return d.rstrip("/") or "/"


def basename(p):
    q = p.rstrip("/")
    if q == "":
        return "/" if p else "."
    return q[q.rindex("/") + 1:] if "/" in q else q


def extension(p):
    b = p[p.rfind("/") + 1:]
    i = b.rfind(".")
    if i <= 0 or i == len(b) - 1:
        return ""
    return b[i:]


def join(parts):
    if not parts:
        return "."
    r = ""
    for s in parts:
        if s == "":
            continue
        if s.startswith("/") or r == "":
            r = s
        else:
            r += s if r.endswith("/") else "/" + s
    return r


def squash(p):
    while "//" in p:
        p = p.replace("//", "/")
    return p if p == "/" else p.rstrip("/")


def check(c):
    rng = c.rng
    s = Suite(c, "io, arrays", "", per=20)
    segs = ["a", "b", "usr", "..", ".", "", "x.txt", ".hid", "a.b.c", "d.", "..x", "...", "é.ü", "sp ace", "-", "~", "*", "a" * 300, "\x01", "a\nb.c", "$x", "%s", "%n.d"]
    paths = ["", "/", "//", "///", ".", "..", "./", "../", "/.", "/..", "/../..", "a/..", "a/../..", "../a", "a/./b", "a//b", "/a/", "a/", "a/b/", "/a//", "//a", "a.txt", ".txt", "a.", "a..b", ".a.b", "a.b/c", "a.b/.c", "/a.b/", "..", "...", "a/...", "a/..b", "a/b/../../c", "/a/b/../../..", "./.", "./..", "a/./../b/."]
    for n in (255, 256, 257, 300, 1000):
        paths += ["../" * n + "x", "a/" * n, "/" + "b/" * n + "../" * (n - 1), "./" * n, "a/../" * n + "z", "/" * n]
    while len(paths) < c.scale(700, 12000):
        p = "/".join(rng.choice(segs) for _ in range(rng.randrange(0, 7)))
        paths.append(rng.choice(["", "", "/", "//", "./", "../"]) + p + rng.choice(["", "", "", "/", "//"]))
    body = 'mut p string = S(0)\nprintln("[${io.normalize(p)}]")\nprintln("[${io.dirname(p)}]")\nprintln("[${io.basename(p)}]")\nprintln("[${io.extension(p)}]")\nprintln(io.is_absolute(p))\nprintln("[${io.normalize(io.normalize(p))}]")\nprintln("[${io.normalize(io.path_join({io.dirname(p), io.basename(p)}))}]")'

    def one(p):
        def f(r):
            if r.rc:
                return False
            t = r.text
            want_tail = f"]\n[{extension(p)}]\n{str(p.startswith('/')).lower()}\n[{norm(p)}]\n[{norm(p) if p else '.'}]\n"
            head = f"[{norm(p)}]\n["
            if not t.startswith(head) or not t.endswith(want_tail):
                return False
            mid = t[len(head):-len(want_tail)]
            d, sep, b = mid.rpartition("]\n[")
            b2 = basename(p)
            if not mid.endswith("]\n[" + b2):
                return False
            d = mid[:-len("]\n[" + b2)]
            return squash(d) == squash(dirname(p)) and (squash(d) != "" or d == "/")
        f.__doc__ = f"normalize {norm(p)!r:.80} dirname {dirname(p)!r:.80} basename {basename(p)!r:.80} extension {extension(p)!r}"
        return f
    for p in paths:
        # dirname/basename of paths ending in . or .. name the entry textually, so the join law is about the text
        s.add("path functions", body, one(p), [p])
    jb = 'mut a [string] = {}\nfor i in range(0, N()) { arrays.append(a, S(i)) }\nprintln("[${io.path_join(a)}]")'
    joins = [[], [""], ["", ""], ["a"], ["/"], ["", "a"], ["a", ""], ["", "", "a", "b"], ["/", "a"], ["a", "/b"], ["a/", "b"], ["a//", "b"], ["a", "b", "/c", "d"], ["/home", "user", "docs"], ["a/b", "/abs"], ["a", "", "b"], ["", "/a"], [".", "a"], ["..", ".."]]
    while len(joins) < c.scale(500, 8000):
        joins.append([rng.choice(segs + ["/", "/a", "b/", "/c/", "x/y"]) for _ in range(rng.randrange(0, 6))])
    for j in joins:
        s.add("path_join", jb, f"[{join(j)}]\n", j, key=repr(j)[:200])
    # the operating system agrees: a path and its normal form open the same file on a tree without links
    tree = c.work + "/tree"
    os.makedirs(tree + "/a/b/usr/x.txt")
    os.makedirs(tree + "/b/a/usr")
    os.makedirs(tree + "/usr/b/a")
    for d, _, _ in os.walk(tree):
        open(d + "/f", "w").write(os.path.relpath(d, tree))
    osb = 'mut p string = S(0)\nmut r, e = io.read_file(p)\nmut r2, e2 = io.read_file(io.normalize(p))\nmut r3, e3 = io.read_file(io.path_join({io.dirname(p), io.basename(p)}))\nif e != nil { println("ERR") } otherwise { println("${r} ${r == r2 && e2 == nil} ${r == r3 && e3 == nil}") }'
    t = Suite(c, "io, arrays", "", per=20)
    n = 0
    for _ in range(20000):
        p = "/".join(rng.choice(["a", "b", "usr", "..", ".", "", "a", "b"]) for _ in range(rng.randrange(0, 7)))
        p = (p + "/" if p else "") + "f"
        if p.startswith("/"):
            continue
        q = os.path.join(tree, p)
        rel = os.path.relpath(os.path.realpath(q), tree)
        if os.path.exists(q) and not rel.startswith(".."):
            t.add("path denotes the same file", osb, f"{open(q).read()} true true\n", [p])
            n += 1
            if n >= c.scale(150, 3000):
                break
    s.run((("plain", 1), ("asan", 6)))
    t.run((("plain", 1), ("asan", 6)), cwd=tree)


if __name__ == "__main__":
    main(check, "C25", "normalize, dirname, basename, extension, is_absolute and path_join are run on separator- and dot-heavy paths of up to thousands of segments and compared with a model; laws between them and the operating system's reading of the same paths are checked too.")
