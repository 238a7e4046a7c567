#!/usr/bin/env python3
"""C08: operands are evaluated once, left to right, with short-circuit.

Every operand prints its own mark when it is evaluated, so a program's output is the trace of
evaluations followed by the value; the trace must be the one §12.3 of the standard prescribes.
Directed forms (each operator, call form, literal and statement) and random expression trees."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main
from suite import Suite, P, Exit

DECLS = r'''
mut total int = 0
mut trail [int] = {}
do t(n int) -> int {
    print("${n} ")
    return n
}
do u(k int) -> uint {
    print("u${k} ")
    return cast(k, uint)
}
do n8(n int) -> i8 {
    print("n${n} ")
    return cast(n, i8)
}
do w128(n int) -> i128 {
    print("w${n} ")
    return cast(n, i128)
}
do fl(x float) -> float {
    print("f${x} ")
    return x
}
do s(x string) -> string {
    print("s${x} ")
    return x
}
do c(n int) -> char {
    print("c${n} ")
    return cast(n, char)
}
do b(k int, v bool) -> bool {
    print("b${k} ")
    return v
}
do arr(k int) -> [int] {
    print("a${k} ")
    return {k, k + 1, k + 2}
}
do mp(k int) -> [string:int] {
    print("m${k} ")
    return {"k": k, "j": k + 1}
}
do pt(k int) -> Pt {
    print("p${k} ")
    return Pt{x: k, y: k * 10}
}
do err(k int, bad bool) -> (int, Error) {
    print("e${k} ")
    if bad { return 0, error("bad") }
    return k, nil
}
do three(a int, b2 int, c2 int) -> int { return a + b2 * 10 + c2 * 100 }
do deflt(a int, b2 int = 7, c2 int = 8) -> int { return a + b2 * 10 + c2 * 100 }
do mixed(x float, y string, z [int], w Pt, v bool) -> string { return "${x}|${y}|${z[0]}|${w.x}|${v}" }
do nar(a i8, b2 i16, c2 i32) -> int { return cast(a, int) + cast(b2, int) + cast(c2, int) }
do gen(a ?, b2 ?) -> ? { return b2 }
do void3(a int, b2 int, c2 int) { println("void ${a} ${b2} ${c2}") }
do pair(a int, b2 int) -> (int, int) { return a, b2 }
do tick() -> int {
    total = total + 1
    return total
}
do setto(&x int, v int) -> int {
    x = v
    return v
}
do pop(&x [int]) -> int {
    mut v int = x[len(x) - 1]
    arrays.remove_at(x, len(x) - 1)
    return v
}
do push(v int) -> int {
    arrays.append(trail, v)
    return len(trail)
}
do through(f func(int, int, int) -> int, a int) -> int { return f(t(a), t(a + 1), t(a + 2)) }
const Pt struct {
    x int
    y int
    do sum(p Pt, a int, b2 int) -> int { return p.x + p.y + a * 100 + b2 * 1000 }
    do make(a int, b2 int) -> Pt { return Pt{x: a, y: b2} }
    do add(&p Pt, a int, b2 int) -> int {
        p.x = p.x + a
        p.y = p.y + b2
        return p.x + p.y
    }
}
const Box struct {
    f func(int, int, int) -> int
}
const Big struct {
    a int
    b string
    c float
    d [int]
    e Pt
    f bool
}
const Shape enum {
    POINT
    LINE(int, int)
    TRI(int, string, float)
}
'''

L = []


def add(group, body, want):
    L.append((group, body, want))


# --- operators: each mark once, left before right, operands before the operation
for op, a, b, r in (("+", 7, 3, 10), ("-", 7, 3, 4), ("*", 7, 3, 21), ("/", 7, 3, 2), ("%", 7, 3, 1),
                    ("==", 7, 3, "false"), ("!=", 7, 3, "true"), ("<", 7, 3, "false"), (">", 7, 3, "true"), ("<=", 7, 3, "false"), (">=", 7, 3, "true"),
                    ("bit_and", 7, 3, 3), ("bit_or", 5, 3, 7), ("bit_xor", 7, 3, 4), ("bit_shift_left", 7, 3, 56), ("bit_shift_right", 7, 1, 3)):
    add("operator/int " + op, "println(t(%d) %s t(%d))" % (a, op, b), "%d %d %s\n" % (a, b, r))
    if op in ("+", "-", "*", "/", "%", "==", "<", ">="):
        add("operator/uint " + op, "println(u(%d) %s u(%d))" % (a, op, b), "u%d u%d %s\n" % (a, b, r))
        add("operator/i8 " + op, "println(n8(%d) %s n8(%d))" % (a, op, b), "n%d n%d %s\n" % (a, b, r))
        add("operator/i128 " + op, "println(w128(%d) %s w128(%d))" % (a, op, b), "w%d w%d %s\n" % (a, b, r))
for op, r in (("+", "3.5"), ("-", "1.5"), ("*", "2.5"), ("/", "2.5"), ("<", "false"), ("==", "false"), (">=", "true")):
    add("operator/float " + op, "println(fl(2.5) %s fl(1.0))" % op, "f2.5 f1.0 %s\n" % r)
for op, r in (("==", "false"), ("!=", "true"), ("<", "true"), (">", "false")):
    if op in ("==", "!="):
        add("operator/string " + op, 'println(s("p") %s s("q"))' % op, "sp sq %s\n" % r)
    add("operator/char " + op, "println(c(65) %s c(66))" % op, "c65 c66 %s\n" % r)
add("operator/bool", "println(b(1, true) == b(2, false))\n    println(b(3, true) != b(4, false))", "b1 b2 false\nb3 b4 true\n")
add("operator/in", "println(t(2) in arr(1))\n    println(t(9) in arr(1))\n    println(t(2) not_in arr(1))", "2 a1 true\n9 a1 false\n2 a1 false\n")
add("operator/prefix", "println(-t(4) + -t(5))\n    println(!b(1, true) == !b(2, true))", "4 5 -9\nb1 b2 true\n")
add("operator/mixed", "println(t(1) + fl(2.5))\n    println(fl(1.5) * t(2))", "1 f2.5 3.5\nf1.5 2 3.0\n")

# --- short circuit
for i in range(16):
    p, q, r, x = bool(i & 1), bool(i & 2), bool(i & 4), bool(i & 8)
    B = lambda k, v: "b(%d, %s)" % (k, str(v).lower())

    def tr(e, out):
        if e[0] == "v":
            out.append("b%d " % e[1])
            return e[2]
        if e[0] == "&&":
            return tr(e[1], out) and tr(e[2], out)
        if e[0] == "||":
            return tr(e[1], out) or tr(e[2], out)
        return not tr(e[1], out)

    def show(e):
        if e[0] == "v":
            return B(e[1], e[2])
        if e[0] == "!":
            return "!(" + show(e[1]) + ")"
        return "(" + show(e[1]) + " " + e[0] + " " + show(e[2]) + ")"
    V = [("v", k + 1, v) for k, v in enumerate((p, q, r, x))]
    for e in ([("&&", V[0], V[1])] if i < 4 else []) + ([("||", V[0], V[1])] if i < 4 else []) + ([("&&", ("||", V[0], V[1]), V[2]), ("||", ("&&", V[0], V[1]), V[2])] if i < 8 else []) + [
            ("||", ("&&", V[0], V[1]), ("&&", V[2], V[3])), ("&&", ("!", ("||", V[0], V[1])), ("||", V[2], ("!", V[3])))]:
        o = []
        v = tr(e, o)
        add("short circuit", "println(%s)" % show(e), "".join(o) + str(v).lower() + "\n")
        add("short circuit/if", "if %s { println(1) } otherwise { println(0) }" % show(e), "".join(o) + "%d\n" % v)
add("short circuit/guard", "mut a [int] = {1}\n    mut k int = len(a)\n    println(k < len(a) && a[k] == 1)\n    println(k >= len(a) || a[k] == 1)", "false\ntrue\n")
add("short circuit/nil", "mut _, e = err(1, true)\n    println(e != nil && e.message == \"bad\")", "e1 true\n")
add("short circuit/precedence", "println(b(1, true) || b(2, true) && b(3, false))\n    println(b(1, false) || b(2, true) && b(3, false))\n    println(t(1) < t(2) && t(3) < t(2) || t(4) == t(4))", "b1 true\nb1 b2 b3 false\n1 2 3 2 4 4 true\n")

# --- calls
add("call/function", "println(three(t(1), t(2), t(3)))", "1 2 3 321\n")
add("call/void", "void3(t(1), t(2), t(3))", "1 2 3 void 1 2 3\n")
add("call/types", 'println(mixed(fl(1.5), s("q"), arr(4), pt(5), b(6, true)))', "f1.5 sq a4 p5 b6 1.5|q|4|5|true\n")
add("call/narrowed", "println(nar(n8(1), n8(2), n8(3)))", "n1 n2 n3 6\n")
add("call/generic", 'println(gen(t(1), t(2)))\n    println(gen(s("a"), s("b")))', "1 2 2\nsa sb b\n")
add("call/nested", "println(three(t(1), three(t(2), t(3), t(4)), t(5)))", "1 2 3 4 5 %d\n" % (1 + (2 + 30 + 400) * 10 + 500))
add("call/default", "println(deflt(t(1), t(2)))\n    println(deflt(t(1)))", "1 2 821\n1 871\n")
add("call/named", "println(three(c2: t(1), a: t(2), b2: t(3)))\n    println(deflt(c2: t(4), a: t(5)))\n    println(deflt(t(1), c2: t(2), b2: t(3)))", "1 2 3 132\n4 5 475\n1 2 3 231\n")
add("call/method", "mut p = Pt{x: 1, y: 2}\n    println(p.sum(t(3), t(4)))\n    println(Pt.sum(pt(5), t(6), t(7)))\n    println(p.add(t(1), t(2)))\n    println(Pt.make(t(8), t(9)))", "3 4 4303\np5 6 7 7655\n1 2 6\n8 9 Pt{x: 8, y: 9}\n")
add("call/reference", "const f = ()three\n    println(f(t(1), t(2), t(3)))\n    println(through(f, 4))\n    println(()three(t(7), t(8), t(9)))\n    const w = Box{f: ()three}\n    println(w.f(t(2), t(3), t(4)))\n    mut fs [func] = {()three}\n    println(fs[0](t(1), t(5), t(6)))", "1 2 3 321\n4 5 6 654\n7 8 9 987\n2 3 4 432\n1 5 6 651\n")
add("call/multiple values", "mut x, y = pair(t(1), t(2))\n    println(x * 10 + y)", "1 2 12\n")
add("call/or_return", "mut v, e = err(t(3), b(1, false))\n    println(v)", "3 b1 e3 3\n")
add("call/library", 'println(math.max(t(3), t(4)))\n    println(strings.replace(s("aba"), s("b"), s("c")))\n    println(strings.slice(s("hello"), t(1), t(3)))\n    println(strings.repeat(s("x"), t(3)))\n    println(math.clamp(t(9), t(1), t(5)))', "3 4 4\nsaba sb sc aca\nshello 1 3 el\nsx 3 xxx\n9 1 5 5\n")
add("call/arguments before the call", "println(three(tick(), tick(), tick()))\n    println(total)", "321\n3\n")
add("call/once", "println(pt(4).x)\n    mut q = pt(5)\n    println(q.x + q.y)\n    println(len(arr(3)))\n    println(arr(3)[1])\n    mut m = mp(2)\n    println(m[\"j\"])", "p4 4\np5 55\na3 3\na3 4\nm2 3\n")
add("call/print", 'println("${t(1)}")\n    print(t(2))\n    println("")\n    println(pt(3))\n    println(arr(4))\n    println(mp(5))\n    eprintln(t(6))', '1 1\n2 2\np3 Pt{x: 3, y: 30}\na4 {4, 5, 6}\nm5 {"k": 5, "j": 6}\n6 ')
add("call/cast", "println(cast(t(65), char))\n    println(cast(fl(2.9), int))\n    println(cast(t(5), i8))\n    println(cast(t(300), i128))", "65 A\nf2.9 2\n5 5\n300 300\n")

# --- literals, interpolation, indexing
add("literal/array", "mut a [int] = {t(1), t(2), t(3), t(4)}\n    println(a)\n    mut bs [[int]] = {{t(1), t(2)}, {t(3)}}\n    println(bs)\n    mut ps [Pt] = {pt(1), pt(2)}\n    println(len(ps))\n    mut ss [string] = {s(\"a\"), s(\"b\")}\n    println(ss)", "1 2 3 4 {1, 2, 3, 4}\n1 2 3 {{1, 2}, {3}}\np1 p2 2\nsa sb {\"a\", \"b\"}\n")
add("literal/map", 'mut m [string:int] = {s("a"): t(1), s("b"): t(2)}\n    println(m)\n    mut k [int:string] = {t(1): s("x"), t(2): s("y")}\n    println(k)', 'sa 1 sb 2 {"a": 1, "b": 2}\n1 sx 2 sy {1: "x", 2: "y"}\n')
add("literal/struct", 'mut p = Pt{x: t(1), y: t(2)}\n    println(p)\n    mut q = Pt{y: t(1), x: t(2)}\n    println(q)\n    mut g = Big{f: b(1, true), e: pt(2), d: arr(3), c: fl(4.5), b: s("z"), a: t(6)}\n    println(g)', '1 2 Pt{x: 1, y: 2}\n1 2 Pt{x: 2, y: 1}\nb1 p2 a3 f4.5 sz 6 Big{a: 6, b: "z", c: 4.5, d: {3, 4, 5}, e: Pt{x: 2, y: 20}, f: true}\n')
add("literal/enum", 'mut l = Shape.LINE(t(1), t(2))\n    mut m = Shape.TRI(t(3), s("q"), fl(1.5))\n    when m {\n        is Shape.TRI(x, y, z) { println("${x}${y}${z}") }\n        default { println("no") }\n    }', "1 2 3 sq f1.5 3q1.5\n")
add("interpolation", 'println("${t(1)}-${s("b")}-${fl(2.5)}-${t(4)}-${b(5, true)}")\n    println("${t(1) + t(2)}${t(3)}")\n    mut x string = "<${three(t(1), t(2), t(3))}>"\n    println(x)', "1 sb f2.5 4 b5 1-b-2.5-4-true\n1 2 3 33\n1 2 3 <321>\n")
add("index", 'mut a [int] = {10, 20, 30}\n    println(a[t(0)] + a[t(1)] * a[t(2)])\n    println(arr(5)[t(1)])\n    mut g [[int]] = {{1, 2}, {3, 4}}\n    println(g[t(1)][t(0)])\n    mut m [string:int] = {"a": 1, "b": 2}\n    println(m[s("a")] - m[s("b")])', "0 1 2 610\na5 1 6\n1 0 3\nsa sb -1\n")

# --- reads of a variable a later operand changes keep their value
add("sequence/global", "println(total + tick())\n    println(tick() + total)\n    println(total * 10 + tick() * total)\n    println(three(total, tick(), total))", "1\n4\n%d\n%d\n" % (2 * 10 + 3 * 3, 3 + 40 + 400))
add("sequence/local", "mut x int = 1\n    println(x + setto(x, 5))\n    println(setto(x, 7) + x)\n    println(three(x, setto(x, 2), x))\n    println(\"${x}${setto(x, 9)}${x}\")", "6\n14\n%d\n299\n" % (7 + 20 + 200))
add("sequence/array", "println(push(5) * 10 + push(6))\n    println(len(trail) * 10 + push(7))\n    println(trail[0] + setto(trail[0], 9) + trail[0])\n    mut a [int] = {1, 2, 3}\n    println(pop(a) * 100 + pop(a) * 10 + pop(a))", "12\n23\n23\n321\n")
add("sequence/struct", "mut p = Pt{x: 1, y: 2}\n    println(p.x + p.add(10, 20) + p.x)\n    println(Pt{x: p.x, y: p.add(1, 1)})\n    println(p.y == p.add(0, 1))", "%d\nPt{x: 11, y: 35}\nfalse\n" % (1 + 33 + 11))
add("sequence/comparison", "println(tick() < tick())\n    println(tick() > tick())\n    println(tick() == tick())\n    println(total == tick())\n    println(tick() == total)", "true\nfalse\nfalse\nfalse\ntrue\n")
add("sequence/return", "mut x, y = both()\n    println(x * 10 + y)", "12\n")

# --- statements: the target and every part of the statement once
add("statement/compound", "mut a [int] = {1, 2, 3}\n    a[t(1)] += t(5)\n    println(a)\n    a[t(2)] -= 1\n    a[t(0)] *= 7\n    println(a)\n    a[t(0)] /= 2\n    a[t(1)] %= 4\n    println(a)\n    a[t(1)]++\n    a[t(0)]--\n    println(a)", "1 5 {1, 7, 3}\n2 0 {7, 7, 2}\n0 1 {3, 3, 2}\n1 0 {2, 4, 2}\n")
add("statement/compound nested", 'mut g [[int]] = {{1, 2}, {3, 4}}\n    g[t(1)][t(0)] += t(5)\n    println(g)\n    g[t(0)][t(1)]++\n    println(g)\n    mut ps [Pt] = {Pt{x: 1, y: 1}, Pt{x: 2, y: 2}}\n    ps[t(1)].x += t(5)\n    println(ps[1].x)\n    ps[t(0)].y++\n    println(ps[0].y)', "1 0 5 {{1, 2}, {8, 4}}\n0 1 {{1, 3}, {8, 4}}\n1 5 7\n0 2\n")
add("statement/compound map", 'mut m [string:int] = {"a": 1}\n    m[s("a")] += t(5)\n    println(m)\n    m[s("a")]++\n    println(m)\n    mut mm [string:[int]] = {"k": {1, 2}}\n    mm[s("k")][t(1)] += t(3)\n    println(mm)', 'sa 5 {"a": 6}\nsa {"a": 7}\nsk 1 3 {"k": {1, 5}}\n')
add("statement/compound wide", "mut a [i128] = {1, 2}\n    a[t(1)] += w128(5)\n    println(a)\n    mut n [i8] = {1, 2}\n    n[t(0)] += n8(4)\n    println(n)\n    mut fs [float] = {1.5}\n    fs[t(0)] *= fl(2.0)\n    println(fs)\n    mut us [uint] = {1}\n    us[t(0)] += u(4)\n    println(us)", "1 w5 {1, 7}\n0 n4 {5, 2}\n0 f2.0 {3.0}\n0 u4 {5}\n")
add("statement/compound effects", "total = 5\n    total += tick()\n    println(total)\n    mut x int = 1\n    x += setto(x, 10)\n    println(x >= 11)", "")
add("statement/assign once", "mut a [int] = {1, 2, 3}\n    a[tick()] = 9\n    println(a)\n    println(total)\n    mut m [string:int] = {\"z\": 0}\n    m[s(\"q\")] = 4\n    println(m)\n    mut g [[int]] = {{1}, {2}}\n    g[t(1)][t(0)] = 7\n    println(g)", '{1, 9, 3}\n1\nsq {"z": 0, "q": 4}\n1 0 {{1}, {7}}\n')
add("statement/if", "if t(1) == t(2) { println(0) } or t(3) == t(3) { println(t(4)) } or t(5) == t(5) { println(0) } otherwise { println(0) }", "1 2 3 3 4 4\n")
add("statement/when", "when t(3) {\n        is 1, 2 { println(\"a\") }\n        is 3 { println(\"b\") }\n        default { println(\"c\") }\n    }\n    when s(\"q\") {\n        is \"p\" { println(1) }\n        default { println(2) }\n    }\n    when t(15) {\n        is range(1, 10) { println(1) }\n        is range(10, 20) { println(2) }\n        default { println(3) }\n    }", "3 b\nsq 2\n15 2\n")
add("statement/while", "mut k int = 0\n    while t(k) < 3 { k++ }\n    println(k)", "0 1 2 3 3\n")
add("statement/for_each", "for_each x in arr(1) { print(\"x${x} \") }\n    println(\"\")\n    for_each k, v in mp(1) { print(\"${k}${v} \") }\n    println(\"\")\n    for_each ch in s(\"ab\") { print(\"${ch} \") }\n    println(\"\")", "a1 x1 x2 x3 \nm1 k1 j2 \nsab a b \n")
add("statement/for", "for i in range(t(0), 3) { print(\"i${i} \") }\n    println(\"\")\n    for i in range(t(5)) { print(\"i\") }\n    println(\"\")", "0 i0 i1 i2 \n5 iiiii\n")
add("statement/for bound once", "for i in range(t(0), t(3), t(1)) { print(\"i${i} \") }\n    println(\"\")", "0 3 1 i0 i1 i2 \n")
add("statement/for bound kept", "mut n int = 3\n    mut k int = 0\n    for i in range(0, n) {\n        n = 5\n        k++\n    }\n    println(k)", "3\n")
add("statement/return", "println(ret(1))\n    println(ret(5))", "1 2 3\n5 11\n")
add("statement/declare", "mut x int, y int = pair(t(1), t(2))\n    println(x + y)\n    mut z int = t(3) + t(4)\n    println(z)", "1 2 3\n3 4 7\n")
add("statement/error printed once", "mut _, e = err(t(2), true)\n    println(e)\n    println(fail(3))", "")
DECLS += r'''
do both() -> (int, int) { return tick(), tick() }
do ret(k int) -> int {
    if t(k) > 3 { return k * 2 + 1 }
    return t(k + 1) + k
}
do fail(k int) -> Error {
    print("F${k} ")
    return error("x${k}")
}
'''


def ERRLINES(r):
    return r.rc == 0 and r.out.count(b"F3") == 1 and r.out.startswith(b"2 e2 ")


def COMPOUND(r):
    """whether the old value is read before or after the right operand is not said; the call happens once"""
    return r.rc == 0 and r.out in (b"11\ntrue\n", b"12\ntrue\n")


# --- random expression trees
class Gen:
    def __init__(self, rng):
        self.rng, self.k = rng, 0

    def mark(self):
        self.k += 1
        return self.k

    def int_(self, d):
        """-> (source, evaluator(trace) -> value)"""
        r = self.rng
        c = r.randrange(12) if d > 0 else r.randrange(2)
        if c <= 0:
            n = r.randint(0, 9)
            return str(n), lambda tr: n
        if c <= 2 or d <= 0:
            n = self.mark()
            return "t(%d)" % n, lambda tr: (tr.append("%d " % n), n)[1]
        if c <= 6:
            a, fa = self.int_(d - 1)
            b, fb = self.int_(d - 1)
            op = r.choice("+-*")

            def ev(tr):
                x = fa(tr)
                y = fb(tr)
                return x + y if op == "+" else x - y if op == "-" else x * y
            return "(%s %s %s)" % (a, op, b), ev
        if c <= 8:
            parts = [self.int_(d - 1) for _ in range(3)]

            def ev3(tr):
                x, y, z = [f(tr) for _, f in parts]
                return x + y * 10 + z * 100
            if r.random() < .3:
                order = r.sample(range(3), 3)
                names = ["a", "b2", "c2"]

                def evn(tr):
                    v = {}
                    for i in order:
                        v[i] = parts[i][1](tr)
                    return v[0] + v[1] * 10 + v[2] * 100
                return "three(%s)" % ", ".join("%s: %s" % (names[i], parts[i][0]) for i in order), evn
            f = r.choice(["three", "fr", "w.f", "()three"])
            return "%s(%s)" % (f, ", ".join(p[0] for p in parts)), ev3
        if c == 9:
            e, fe = self.bool_(d - 1)
            return "one(%s)" % e, lambda tr: int(fe(tr))
        if c == 10:
            a, fa = self.int_(d - 1)
            b, fb = self.int_(d - 1)
            return "math.max(%s, %s)" % (a, b), lambda tr: max([fa(tr), fb(tr)])
        a, fa = self.int_(d - 1)
        b, fb = self.int_(d - 1)

        def evs(tr):
            x = fa(tr)
            y = fb(tr)
            return x * 3 + y
        return "mk(%s, %s)" % (a, b), evs

    def bool_(self, d):
        r = self.rng
        c = r.randrange(5) if d > 0 else 0
        if c == 0:
            n, v = self.mark(), r.random() < .5
            return "b(%d, %s)" % (n, str(v).lower()), lambda tr: (tr.append("b%d " % n), v)[1]
        if c <= 2:
            a, fa = self.bool_(d - 1)
            b, fb = self.bool_(d - 1)
            if r.random() < .5:
                return "(%s && %s)" % (a, b), lambda tr: fa(tr) and fb(tr)
            return "(%s || %s)" % (a, b), lambda tr: fa(tr) or fb(tr)
        a, fa = self.int_(d - 1)
        b, fb = self.int_(d - 1)
        op = r.choice(["<", "==", ">=", "!="])

        def ev(tr):
            x = fa(tr)
            y = fb(tr)
            return {"<": x < y, "==": x == y, ">=": x >= y, "!=": x != y}[op]
        return "(%s %s %s)" % (a, op, b), ev


DECLS += r'''
do one(v bool) -> int {
    if v { return 1 }
    return 0
}
do mk(a int, b2 int) -> int {
    mut p = Pt{x: a, y: b2}
    return p.x * 3 + p.y
}
'''


def check(c):
    s = Suite(c, "@arrays, @strings, @math", DECLS, 40, compile_fail="violation")
    for g, body, want in L:
        if g == "statement/compound effects":
            want = COMPOUND
        elif g == "statement/error printed once":
            want = ERRLINES
        s.add(g, "    " + body + "\n", want, key=body[:60])
    for k in range(c.scale(120, 1200)):
        g = Gen(c.rng)
        e, f = g.int_(c.rng.randint(2, 5))
        tr = []
        v = f(tr)
        if abs(v) > 2 ** 60 or len(e) > 3000:
            continue
        form = c.rng.randrange(4)
        pre = "    const fr = ()three\n    const w = Box{f: ()three}\n"
        if form == 0:
            body = pre + "    println(%s)\n" % e
        elif form == 1:
            body = pre + "    mut v int = %s\n    println(v)\n" % e
        elif form == 2:
            body = pre + "    mut a [int] = {0, %s}\n    println(a[1])\n" % e
        else:
            body = pre + "    mut a [int] = {0}\n    a[0] = %s\n    println(a[0])\n" % e
        s.add("tree", body, "".join(tr) + "%d\n" % v, key="tree %d" % k)
    s.run((("plain", 1), ("asan", 4)))


if __name__ == "__main__":
    main(check, "C08", "the trace of evaluated operands equals the one the standard prescribes")
