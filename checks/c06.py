#!/usr/bin/env python3
"""C06: scope-local memory is reclaimed when the scope ends.

Each program allocates in one kind of scope and leaves it in one way, a given
number of times; the monitor compares the peak resident memory of few and of
many repetitions, as the kernel accounts it."""
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Gray, main, pmap, clean_env  # noqa: E402

HEAD = '''import @os, @strconv, @strings, @arrays, @maps, @json, @encoding, @crypto, @regex, @bytes, @fmt, @csv, @math
const Rec struct {
    name string
    list [int]
}
const Sh enum {
    NONE
    TEXT(string)
}
do big(n int) -> string {
    return strings.repeat("abcdefgh", 512 + n % 7)
}
do nums(n int) -> [int] {
    mut a [int] = {}
    for i in range(0, 300) { arrays.append(a, i + n) }
    return a
}
do table(n int) -> map[string:int] {
    mut m map[string:int] = {:}
    for i in range(0, 60) { m["key${i}"] = n }
    return m
}
do rec(n int) -> Rec {
    return Rec{name: big(n), list: nums(n)}
}
do pair(n int) -> (string, int) {
    mut s string = big(n)
    return s, n
}
do risky(n int) -> (string, Error) {
    mut s string = big(n)
    if n % 2 == 0 { return s, error("even ${n}") }
    return s, nil
}
do shape(n int) -> Sh {
    return Sh.TEXT(big(n))
}
do note(s string) {
    if len(s) == 1 { println(s) }
}
'''
# allocations: statement text using n, with T as a fresh name prefix
ALLOC = {
    "interpolation": 'mut T string = "${big(n)}-${n}-${big(n)}"\nif len(T) == 3 { println(T) }',
    "function result": 'mut T string = big(n)\nif len(T) == 3 { println(T) }',
    "array": 'mut T [int] = nums(n)\nif len(T) == 3 { println(T) }',
    "array grown": 'mut T [string] = {}\nfor q in range(0, 80) { arrays.append(T, "item ${q} of ${n}") }\nif len(T) == 3 { println(T) }',
    "map": 'mut T map[string:int] = table(n)\nif len(T) == 3 { println(len(T)) }',
    "struct": 'mut T Rec = rec(n)\nif len(T.list) == 3 { println(T) }',
    "nested array": 'mut T [[int]] = {nums(n), nums(n + 1)}\nif len(T) == 3 { println(T) }',
    "tagged enum": 'mut T Sh = shape(n)\nwhen T {\n    is Sh.TEXT(t) { if len(t) == 3 { println(t) } }\n    default { println("none") }\n}',
    "several results": 'mut T, Tk = pair(n)\nif len(T) == Tk * 100000 + 3 { println(T) }',
    "discarded": 'mut _ = big(n)',
    "argument": 'note(big(n))',
    "split": 'mut T [string] = strings.split(big(n), "d")\nif len(T) == 3 { println(T) }',
    "replace": 'mut T string = strings.replace(big(n), "ab", "xyz")\nif len(T) == 3 { println(T) }',
    "upper": 'mut T string = strings.to_upper(big(n))\nif len(T) == 3 { println(T) }',
    "digest": 'mut T string = crypto.sha256(big(n))\nif len(T) == 3 { println(T) }',
    "base64": 'mut T string = encoding.base64_encode(big(n))\nif len(T) == 3 { println(T) }',
    "sorted copy": 'mut T [int] = arrays.reverse(nums(n))\nif len(T) == 3 { println(T) }',
    "keys": 'mut T [string] = maps.get_keys(table(n))\nif len(T) == 3 { println(T) }',
    "copy": 'mut T Rec = copy(rec(n))\nif len(T.list) == 3 { println(T) }',
    "error": 'mut T, Te = risky(n)\nif Te != nil {\n    if len(Te.message) == 1 { println(T) }\n}',
}
SHAPES = {
    "for": 'for n in range(0, N) {\n@\n}',
    "while": 'mut n int = 0\nwhile n < N {\n@\nn = n + 1\n}',
    "loop": 'mut n int = 0\nloop {\nif n >= N { break }\n@\nn = n + 1\n}',
    "for_each": 'mut idx [int] = {}\nfor q in range(0, N) { arrays.append(idx, q) }\nfor_each n in idx {\n@\n}',
    "for continue": 'for n in range(0, N) {\n@\nif n >= 0 { continue }\nprintln("x")\n}',
    "for break": 'for n in range(0, N) {\nfor k in range(0, 3) {\n@\nif k == 0 { break }\n}\n}',
    "loop break": 'for n in range(0, N) {\nloop {\n@\nbreak\n}\n}',
    "while continue": 'mut n int = 0\nwhile n < N {\n@\nn = n + 1\nif n > 0 { continue }\nprintln("x")\n}',
    "if": 'mut n int = 0\nwhile n < N {\nif n >= 0 {\n@\n}\nn = n + 1\n}',
    "otherwise": 'for n in range(0, N) {\nif n < 0 { println(1) }\nor n < -1 { println(2) }\notherwise {\n@\n}\n}',
    "when": 'for n in range(0, N) {\nwhen n % 3 {\n    is 0 {\n@\n}\n    is 1, 2 {\n@2\n}\n    default { println("x") }\n}\n}',
    "void function": 'for n in range(0, N) { work(n) }',
    "int function": 'mut total int = 0\nfor n in range(0, N) { total = total + value(n) }\nif total == 1 { println(total) }',
    "early return": 'mut total int = 0\nfor n in range(0, N) { total = total + early(n) }\nif total == 1 { println(total) }',
    "string function": 'for n in range(0, N) {\nmut s string = text(n)\nif len(s) == 1 { println(s) }\n}',
    "or_return": 'for n in range(0, N) {\nmut v, e = through(n)\nif e != nil {\nif v == "zz" { println(v) }\n}\n}',
    "ensure": 'for n in range(0, N) { cleaned(n) }',
    "recursion": 'for n in range(0, N / 10) { deep(n, 10) }',
    "method": 'mut r Box = Box{k: 1}\nfor n in range(0, N) { r.work(n) }',
    "while in void function": 'drive(N)',
    "reference parameter": 'mut total int = 0\nfor n in range(0, N) { addup(total, n) }\nif total == 1 { println(total) }',
    "function value": 'const f func = ()value\nmut total int = 0\nfor n in range(0, N) { total = total + f(n) }\nif total == 1 { println(total) }',
    "condition": 'for n in range(0, N) {\nif len(big(n)) == 3 { println(n) }\n}',
    "while condition": 'mut n int = 0\nwhile len(big(n)) > 3 {\nn = n + 1\nif n >= N { break }\n@\n}',
}
FUNCS = {
    "void function": 'do work(n int) {\n@\n}',
    "int function": 'do value(n int) -> int {\n@\nreturn n\n}',
    "function value": 'do value(n int) -> int {\n@\nreturn n\n}',
    "early return": 'do early(n int) -> int {\nfor k in range(0, 5) {\n@\nif k == 1 {\nif n > 0 { return n }\n}\n}\nreturn 0\n}',
    "string function": 'do text(n int) -> string {\n@\nreturn "t${n}"\n}',
    "or_return": 'do through(n int) -> (string, Error) {\n@\nmut s = risky(n) or_return "no"\nreturn s, nil\n}',
    "ensure": 'do fin() {\nmut s string = big(1)\nif len(s) == 1 { println(s) }\n}\ndo cleaned(n int) {\nensure fin()\n@\nif n > 3 { return }\n}',
    "recursion": 'do deep(n int, d int) {\n@\nif d > 0 { deep(n, d - 1) }\n}',
    "method": 'const Box struct {\n    k int\n    do work(b Box, n int) {\n@\n}\n}',
    "while in void function": 'do drive(N int) {\nmut n int = 0\nwhile n < N {\n@\nn = n + 1\n}\n}',
    "reference parameter": 'do addup(&tot int, n int) {\n@\ntot = tot + 1\n}',
}
def sub(a, tag):
    return re.sub(r"\bT(?=[ek]?\b)", tag, a)


FEW, LIMIT = 400, 4 << 20


def source(shape, alloc):
    def fill(text, tag):
        a = ALLOC[alloc]
        return text.replace("@2", sub(a, tag + "2")).replace("@", sub(a, tag))
    f = fill(FUNCS.get(shape, ""), "tq")
    body = fill(SHAPES[shape], "tv")
    return HEAD + f + "\ndo main() {\nmut args [string] = os.args()\nmut N, _ = strconv.to_int(args[1])\n" + body + "\nprintln(\"done ${N}\")\n}\n"


def peak(binary, n, env):
    p = subprocess.Popen([binary, str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env)
    out = p.stdout.read()
    _, status, ru = os.wait4(p.pid, 0)
    p.returncode = status
    return status, out, ru.ru_maxrss * 1024


def check(c):
    g = Gray(c, "plain")
    env = clean_env({})
    many = c.scale(12000, 60000)
    pairs = []
    shapes, allocs = sorted(SHAPES), sorted(ALLOC)
    for s in shapes:
        for a in allocs:
            pairs.append((s, a))

    def one(k):
        s, a = pairs[k]
        src = source(s, a)
        b, res = g.compile(src, name="m%d" % k, flags=["-q"])
        if not b:
            return s, a, src, res, None, None
        lo = peak(b, FEW, env)
        hi = peak(b, many, env)
        os.unlink(b)
        return s, a, src, res, lo, hi

    for s, a, src, res, lo, hi in pmap(one, range(len(pairs))):
        key = "%s|%s" % (s, a)
        c.case(key, nontrivial=bool(lo))
        if lo is None:
            c.count("not compiled")
            if os.environ.get("SUITE_DEBUG"):
                print("NOT COMPILED", key, str(res.brief())[:600])
            c.violation("a program of the matrix is not accepted: %s" % key, {"main.gray": src}, res.brief())
            continue
        if lo[0] or hi[0] or b"done" not in hi[1]:
            c.violation("a program of the matrix ends with %s, %s: %s" % (lo[0], hi[0], key), {"main.gray": src}, repr(hi[1][-500:]))
            continue
        c.count("repetitions", many + FEW)
        grown = hi[2] - lo[2]
        c.seen("growth in MB", grown >> 20)
        if os.environ.get("SUITE_DEBUG") and grown > LIMIT:
            print("GREW", key, grown)
        if grown > LIMIT:
            c.violation("%s in %s: %d repetitions take %d MB more than %d" % (a, s, many, grown >> 20, FEW), {"main.gray": src}, "peak %d and %d bytes" % (lo[2], hi[2]), known=c.known_cell(key))


if __name__ == "__main__":
    main(check, "C06", "peak memory of many repetitions of a scope is that of few")
