#!/usr/bin/env python3
"""C33: every ill-typed program is rejected, whatever position the fault is in.

The matrix crosses faulty expressions, statements and declarations with the
positions a program can put them in.  The compiler is run on each cell; a cell
it accepts is a violation.  The same positions filled with a correct construct
are the control: they must be accepted, so that what is rejected is the fault
and not the position."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build, main, pmap, run, clean_env, SAN_ENV  # noqa: E402

PRELUDE = """import @arrays, @maps, @strings, @math, @threads, @channels, @os, @io, @strconv
const LIMIT int = 10
mut counter int = 0
const Point struct {
    x int
    y int
    do total(p Point) -> int { return p.x + p.y }
    do scale(&p Point, k int) { p.x = p.x * k }
}
const Node struct {
    v int
    next ^Node
    tags [string]
}
const Color enum {
    RED
    GREEN
    BLUE
}
const Fruit enum {
    APPLE
    PEAR
}
const Shape enum {
    DOT
    CIRCLE(float)
    LABEL(string, int)
}
do gi() -> int { return 1 }
do gs() -> string { return "s" }
do gf() -> float { return 1.5 }
do gb() -> bool { return true }
do gc() -> char { return 'c' }
do gu() -> uint { return cast(1, uint) }
do gi8() -> i8 { return cast(1, i8) }
do gai() -> [int] { return {1, 2} }
do gas() -> [string] { return {"a"} }
do gmi() -> [string:int] { return {"a": 1} }
do gms() -> [int:string] { return {1: "a"} }
do gp() -> Point { return Point{x: 1, y: 2} }
do gn() -> Node { return Node{v: 1, next: nil, tags: {"a"}} }
do gcol() -> Color { return Color.RED }
do gfr() -> Fruit { return Fruit.PEAR }
do gsh() -> Shape { return Shape.DOT }
do gpp() -> ^Point { return new(Point) }
do gpn() -> ^Node { return new(Node) }
do two() -> (int, string) { return 1, "a" }
do may(n int) -> (int, Error) {
    if n > 5 { return 0, error("big") }
    return n, nil
}
do nothing() { counter = counter + 1 }
do add(a int, b int) -> int { return a + b }
do bump(&n int) -> int {
    n = n + 1
    return n
}
do apply(f func(int) -> int, n int) -> int { return f(n) }
do inc(n int) -> int { return n + 1 }
do strlen(s string) -> int { return len(s) }
do same(a ?, b ?) -> ? { return a }
"""

# type -> (spelling, an expression of it)
TYPES = {
    "int": ("int", "gi()"), "string": ("string", "gs()"), "float": ("float", "gf()"), "bool": ("bool", "gb()"), "char": ("char", "gc()"),
    "[int]": ("[int]", "gai()"), "[string]": ("[string]", "gas()"), "[string:int]": ("[string:int]", "gmi()"), "[int:string]": ("[int:string]", "gms()"),
    "Point": ("Point", "gp()"), "Node": ("Node", "gn()"), "Color": ("Color", "gcol()"), "Fruit": ("Fruit", "gfr()"), "Shape": ("Shape", "gsh()"),
    "^Point": ("^Point", "gpp()"), "^Node": ("^Node", "gpn()"),
}
# implicit conversions the standard gives (value of the first where the second is wanted)
ALLOWED = {("int", "float"), ("char", "int"), ("int", "char"), ("Color", "int"), ("Fruit", "int")}

# --- positions an expression of type T can stand in: (key, declarations, body) with {T} type and {E} expression
TYPED = [
    ("declaration", "", "mut v {T} = {E}\n    use(v)"),
    ("assignment", "", "mut v {T} = {G}\n    v = {E}\n    use(v)"),
    ("argument", "do take(v {T}) -> int { return 1 }", "println(take({E}))"),
    ("second argument", "do take(k int, v {T}) -> int { return k }", "println(take(1, {E}))"),
    ("named argument", "do take(k int, v {T}) -> int { return k }", "println(take(1, v: {E}))"),
    ("method argument", "const Q struct {\n    n int\n    do take(q Q, v {T}) -> int { return q.n }\n}", "mut q = Q{n: 1}\n    println(q.take({E}))"),
    ("static method argument", "const Q struct {\n    n int\n    do take(q Q, v {T}) -> int { return q.n }\n}", "mut q = Q{n: 1}\n    println(Q.take(q, {E}))"),
    ("function value argument", "do take(v {T}) -> int { return 1 }", "const f func({T}) -> int = ()take\n    println(f({E}))"),
    ("return", "do ret() -> {T} { return {E} }", "use(ret())"),
    ("second return", "do ret() -> (int, {T}) { return 1, {E} }", "mut a, b = ret()\n    println(a)\n    use(b)"),
    ("return in a branch", "do ret(n int) -> {T} {\n    if n > 1 {\n        while n > 2 { return {E} }\n    }\n    return {G}\n}", "use(ret(1))"),
    ("named return", "do ret() -> (n int, v {T}) {\n    mut n int = 1\n    mut v {T} = {E}\n    return n, v\n}", "mut a, b = ret()\n    println(a)\n    use(b)"),
    ("method return", "const Q struct {\n    n int\n    do ret(q Q) -> {T} { return {E} }\n}", "mut q = Q{n: 1}\n    use(q.ret())"),
    ("field", "const Q struct {\n    n int\n    v {T}\n}", "mut q = Q{n: 1, v: {E}}\n    println(q.n)"),
    ("field assignment", "const Q struct {\n    n int\n    v {T}\n}", "mut q = Q{n: 1, v: {G}}\n    q.v = {E}\n    println(q.n)"),
    ("nested field", "const Q struct {\n    n int\n    v {T}\n}\nconst R struct {\n    q Q\n}", "mut r = R{q: Q{n: 1, v: {E}}}\n    println(r.q.n)"),
    ("nested field assignment", "const Q struct {\n    n int\n    v {T}\n}\nconst R struct {\n    q Q\n}", "mut r = R{q: Q{n: 1, v: {G}}}\n    r.q.v = {E}\n    println(r.q.n)"),
    ("field through a pointer", "const Q struct {\n    n int\n    v {T}\n}", "mut p ^Q = new(Q)\n    p.v = {E}\n    println(p.n)"),
    ("array element", "", "mut a [{T}] = {{G}, {E}}\n    println(len(a))"),
    ("element assignment", "", "mut a [{T}] = {{G}}\n    a[0] = {E}\n    println(len(a))"),
    ("append", "", "mut a [{T}] = {{G}}\n    arrays.append(a, {E})\n    println(len(a))"),
    ("insert", "", "mut a [{T}] = {{G}}\n    arrays.insert_at(a, 0, {E})\n    println(len(a))"),
    ("map value", "", "mut m [string:{T}] = {\"k\": {E}}\n    println(len(m))"),
    ("map assignment", "", "mut m [string:{T}] = {\"k\": {G}}\n    m[\"k\"] = {E}\n    println(len(m))"),
    ("array in a map", "", "mut m [string:[{T}]] = {\"k\": {{G}}}\n    m[\"k\"] = {{E}}\n    println(len(m))"),
    ("struct in an array", "const Q struct {\n    v {T}\n}", "mut a [Q] = {Q{v: {G}}}\n    a[0] = Q{v: {E}}\n    println(len(a))"),
    ("field of an element", "const Q struct {\n    v {T}\n}", "mut a [Q] = {Q{v: {G}}}\n    a[0].v = {E}\n    println(len(a))"),
    ("enum payload", "const Sh enum {\n    A(int, {T})\n    B\n}", "mut s Sh = Sh.A(1, {E})\n    when s {\n        is Sh.A(k, w) {\n            println(k)\n            use(w)\n        }\n        default { println(0) }\n    }"),
    ("global", "mut glob {T} = {G2}", "glob = {E}\n    use(glob)"),
    ("or_return value", "do orr(n int) -> ({T}, Error) {\n    mut k = may(n) or_return {E}, error(\"x\")\n    println(k)\n    return {G}, nil\n}", "mut v, e = orr(1)\n    use(v)\n    println(e == nil)"),
    ("function result", "do wrong(n int) -> {S} { return {E} }\ndo call(f func(int) -> {T}) -> {T} { return f(1) }", "use(call(()wrong))"),
    ("reference argument", "do change(&v {T}) -> int { return 1 }", "mut w {S} = {E}\n    println(change(w))"),
]
ZERO = {"int": "0", "string": '"a"', "float": "0.5", "bool": "true", "char": "'a'", "[int]": "{1}", "[string]": '{"a"}', "[string:int]": '{"a": 1}', "[int:string]": '{1: "a"}'}

# --- positions for an int expression (faulty expressions of any sort)
EXPR = [
    ("declaration", "", "mut v int = {E}\n    println(v)"), ("inferred declaration", "", "mut v = {E}\n    println(v)"),
    ("assignment", "", "mut v int = 1\n    v = {E}\n    println(v)"), ("compound", "", "mut v int = 1\n    v += {E}\n    println(v)"),
    ("argument", "", "println(add(1, {E}))"), ("nested argument", "", "println(add(add(1, {E}), 2))"), ("printed", "", "println({E})"), ("error print", "", "eprintln({E})"),
    ("left operand", "", "println({E} + 1)"), ("right operand", "", "println(1 + {E})"), ("grouped", "", "println((2 * ({E})) - 1)"), ("negated", "", "println(-({E}))"),
    ("compared", "", "println({E} == 1)"), ("logical operand", "", "println(gb() && {E} > 0)"), ("logical right", "", "println(gb() || ({E} > 0 && gb()))"), ("inverted", "", "println(!({E} > 0))"),
    ("if condition", "", "if {E} > 0 { println(1) }"), ("or condition", "", "if gb() { println(1) } or {E} > 0 { println(2) }"), ("while condition", "", "while {E} > 5 { println(1) }"),
    ("range start", "", "for i in range({E}, 9) { println(i) }"), ("range end", "", "for i in range(0, {E}) { println(i) }"), ("range step", "", "for i in range(0, 9, {E}) { println(i) }"),
    ("when subject", "", "when {E} {\n        is 1 { println(1) }\n        default { println(2) }\n    }"), ("index", "", "mut a [int] = {1, 2}\n    println(a[{E}])"), ("assigned index", "", "mut a [int] = {1, 2}\n    a[{E}] = 5\n    println(a)"),
    ("array element", "", "mut a [int] = {1, {E}}\n    println(a)"), ("nested array element", "", "mut a [[int]] = {{1}, {2, {E}}}\n    println(a)"), ("map value", "", "mut m [string:int] = {\"a\": {E}}\n    println(m)"), ("map key", "", "mut m [int:int] = {{E}: 1}\n    println(m)"),
    ("field", "", "mut p = Point{x: 1, y: {E}}\n    println(p)"), ("field assignment", "", "mut p = Point{x: 1, y: 2}\n    p.y = {E}\n    println(p)"), ("interpolated", "", "println(\"v ${{E}}\")"), ("interpolated operand", "", "println(\"v ${1 + {E}} w\")"),
    ("cast", "", "println(cast({E}, float))"), ("library argument", "", "println(math.abs({E}))"), ("method argument", "", "mut p = Point{x: 1, y: 2}\n    p.scale({E})\n    println(p)"),
    ("enum payload", "", "mut s Shape = Shape.LABEL(\"a\", {E})\n    when s {\n        is Shape.LABEL(t, n) { println(\"${t}${n}\") }\n        default { println(0) }\n    }"),
    ("return", "do r() -> int { return {E} }", "println(r())"), ("second return", "do r() -> (string, int) { return \"a\", {E} }", "mut a, b = r()\n    println(a)\n    println(b)"),
    ("ensure argument", "do fin(n int) { println(n) }", "ensure fin({E})\n    println(1)"), ("function value call", "", "const f func(int) -> int = ()inc\n    println(f({E}))"), ("callback argument", "", "println(apply(()inc, {E}))"),
    ("generic argument", "", "println(same({E}, 1))"), ("or_return", "do r(n int) -> (int, Error) {\n    mut k = may({E}) or_return\n    return k, nil\n}", "mut v, e = r(1)\n    println(v)\n    println(e == nil)"),
    ("named argument", "", "println(add(a: 1, b: {E}))"), ("discarded", "", "mut _ = add(1, {E})\n    println(1)"), ("in operand", "", "println({E} in gai())"),
    ("default parameter", "do d(n int = {E}) -> int { return n }", "println(d())"),
    ("method body", "const Q struct {\n    n int\n    do m(q Q) -> int {\n        mut k int = {E}\n        return k + q.n\n    }\n}", "mut q = Q{n: 1}\n    println(q.m())"),
    ("uncalled function", "do never() -> int {\n    return {E}\n}", "println(1)"), ("generic body", "do g(v ?) -> int {\n    println(v)\n    return {E}\n}", "println(g(1))"),
    ("uncalled generic", "do g(v ?) -> int {\n    mut k int = {E}\n    return k\n}", "println(1)"),
    ("compound index", "", "mut a [int] = {1, 2}\n    a[{E}] += 1\n    println(a)"), ("append", "", "mut a [int] = {1}\n    arrays.append(a, {E})\n    println(a)"), ("for_each body", "", "for_each v in gai() { println(v + {E}) }"),
    ("when branch", "", "when gi() {\n        is 1 { println({E}) }\n        default { println(2) }\n    }"), ("when default", "", "when gi() {\n        is 1 { println(1) }\n        default { println({E}) }\n    }"), ("when pattern", "", "when gcol() {\n        is Color.RED { println({E}) }\n        default { println(2) }\n    }"),
    ("error message", "do e() -> (int, Error) { return 1, error(\"x${{E}}\") }", "mut a, b = e()\n    println(a)\n    println(b == nil)"), ("panic message", "", "if !gb() { panic(\"x${{E}}\") }\n    println(1)"), ("assert", "", "assert({E} > 0, \"m\")\n    println(1)"),
]
# faulty expressions standing where an int is wanted
BAD = [
    ("undefined variable", "nowhere"), ("undefined function", "nofunc()"), ("undefined function with arguments", "nofunc(1, 2)"), ("string for int", "gs()"), ("int plus string", "gi() + gs()"), ("string minus string", "gs() - gs()"),
    ("bool plus int", "gb() + 1"), ("negated string", "-gs()"), ("negated bool", "-gb()"), ("struct arithmetic", "gp() + gp()"), ("array arithmetic", "gai() * 2"), ("map arithmetic", "gmi() - 1"),
    ("modulo of strings", "gs() % 2"), ("bitwise string", "gi() bit_and gs()"), ("bitwise float", "gi() bit_or gf()"), ("missing argument", "add(1)"), ("extra argument", "add(1, 2, 3)"), ("argument type", "add(1, gs())"), ("first argument type", "add(gs(), 1)"), ("no arguments", "inc()"),
    ("unknown field", "gp().nofield"), ("unknown method", "gp().nomethod()"), ("field of int", "gi().x"), ("index of int", "gi()[0]"), ("string index", "gai()[gs()]"), ("float index", "gai()[gf()]"), ("bool index", "gai()[gb()]"),
    ("map key type", "gmi()[1]"), ("map key type 2", "gms()[gs()]"), ("unknown enum member", "Color.PURPLE"), ("unknown module", "nomod.f(1)"), ("unknown library function", "math.nofunc(1)"), ("unknown constant", "math.NOCONST"),
    ("library argument type", "math.abs(gs())"), ("library argument count", "math.max(1)"), ("len of int", "len(gi())"), ("len of struct", "len(gp())"), ("void value", "nothing()"), ("two values", "two()"), ("fallible pair", "two() + 1"),
    ("string to int cast", "cast(gs(), int)"), ("cast to unknown", "cast(1, Nowhere)"), ("unknown struct", "Nowhere{x: 1}.x"), ("nil", "nil"), ("struct for int", "gp()"), ("array for int", "gai()"), ("map for int", "gmi()"), ("pointer for int", "gpp()"), ("function for int", "()inc"),
    ("struct method type", "Point.total(gi())"), ("method count", "Point.total(gp(), 1)"), ("callback type", "apply(()strlen, 1)"), ("callback value", "apply(1, 1)"), ("unknown callback", "apply(()nofunc, 1)"), ("literal as reference", "bump(1)"), ("constant as reference", "bump(LIMIT)"), ("call as reference", "bump(gi())"),
    ("deref of int", "gi()^"), ("type as value", "Point"), ("enum type as value", "Color"), ("module as value", "math"), ("unknown named argument", "add(a: 1, z: 2)"), ("repeated named argument", "add(a: 1, a: 2)"), ("unused import member", "strings.len(1)"),
    ("division of strings", "gs() / gs()"), ("in needs a collection", "cast(1 in gi(), int)"), ("logical operand", "cast(1 && 2, int)"), ("not of an int", "cast(!gi(), int)"), ("string order", "cast(gp() < gp(), int)"), ("mixed comparison", "cast(gi() == gs(), int)"), ("struct comparison", "cast(gp() == gi(), int)"), ("call of an int", "counter()"), ("payload count", "Shape.CIRCLE()"), ("enum for int operand", "gcol() + gs()"),
    ("field of nil", "nil.x"), ("float modulo string", "gf() % gs()"), ("interpolated struct", "len(\"${gp()}\")"), ("interpolated void", "len(\"${nothing()}\")"), ("wrong element", "len({1, gs()})"),
]
# --- faulty statements, and the blocks they can stand in
STATEMENTS = [
    ("assign constant", "LIMIT = 5"), ("compound constant", "LIMIT += 1"), ("step constant", "LIMIT++"), ("assign local constant", "const k int = 1\n{I}k = 2"), ("assign parameter", "arg = 2"), ("step parameter", "arg++"), ("compound parameter", "arg += 1"),
    ("parameter field", "parg.x = 1"), ("parameter element", "aarg[0] = 1"), ("parameter map", "marg[\"a\"] = 1"), ("parameter append", "arrays.append(aarg, 1)"), ("parameter by reference", "mut _ = bump(arg)"), ("parameter mutating method", "parg.scale(2)"),
    ("constant field", "const cp Point = Point{x: 1, y: 2}\n{I}cp.x = 5"), ("constant element", "const ca [int, 2] = {1, 2}\n{I}ca[0] = 5"), ("constant by reference", "const cq int = 1\n{I}mut _ = bump(cq)"), ("constant method", "const cp Point = Point{x: 1, y: 2}\n{I}cp.scale(2)"),
    ("undefined target", "nowhere = 1"), ("undefined element", "nowhere[0] = 1"), ("undefined field", "mut fp = gp()\n{I}fp.z = 1"), ("redeclared", "mut dup int = 1\n{I}mut dup int = 2\n{I}println(dup)"), ("string step", "mut st string = gs()\n{I}st++"), ("bool step", "mut sb bool = gb()\n{I}sb--"),
    ("string minus assign", "mut st string = gs()\n{I}st -= gs()"), ("compound type", "mut ci int = 1\n{I}ci += gs()"), ("compound bool", "mut cb bool = true\n{I}cb += 1"), ("string condition", "if gs() { println(1) }"), 
    ("for over array", "for i in gai() { println(i) }"), ("for_each over int", "for_each v in gi() { println(v) }"), ("for_each over struct", "for_each v in gp() { println(v) }"), ("range of strings", "for i in range(gs(), 3) { println(i) }"), ("range of floats", "for i in range(0, gf()) { println(i) }"),
    ("unused value", "gi()"), ("unused pair", "two()"), ("unused method value", "mut up = gp()\n{I}up.total()"), ("unused library value", "math.abs(1)"), ("count of names", "mut a1, b1, c1 = two()\n{I}println(a1)"), ("one name for two", "mut a1 = two()\n{I}println(a1)"), ("names for one", "mut a1, b1 = gi()\n{I}println(a1)"),
    ("names type", "mut a1 string, b1 int = two()\n{I}println(a1)\n{I}println(b1)"), ("void declaration", "mut v1 = nothing()\n{I}println(1)"), ("nil declaration", "mut v1 = nil\n{I}println(1)"), ("unknown type", "mut v1 Nowhere = 1\n{I}println(1)"), ("unknown element type", "mut v1 [Nowhere] = {}\n{I}println(1)"), ("unknown value type", "mut v1 [string:Nowhere] = {:}\n{I}println(1)"), ("unknown pointer type", "mut v1 ^Nowhere = nil\n{I}println(1)"),
    ("when type", "when gi() {\n{I}    is \"a\" { println(1) }\n{I}    default { println(2) }\n{I}}"), ("when string type", "when gs() {\n{I}    is 1 { println(1) }\n{I}    default { println(2) }\n{I}}"), ("when other enum", "when gcol() {\n{I}    is Fruit.PEAR { println(1) }\n{I}    default { println(2) }\n{I}}"), ("when unknown member", "when gcol() {\n{I}    is Color.NONE { println(1) }\n{I}    default { println(2) }\n{I}}"),
    ("when duplicate", "when gi() {\n{I}    is 1 { println(1) }\n{I}    is 1 { println(3) }\n{I}    default { println(2) }\n{I}}"), ("when duplicate member", "when gcol() {\n{I}    is Color.RED { println(1) }\n{I}    is Color.RED { println(3) }\n{I}    default { println(2) }\n{I}}"), ("strict when", "#strict\n{I}when gcol() {\n{I}    is Color.RED { println(1) }\n{I}}"), ("payload names", "when gsh() {\n{I}    is Shape.LABEL(t) { println(t) }\n{I}    default { println(2) }\n{I}}"),
    ("payload unknown", "when gsh() {\n{I}    is Shape.NOPE(t) { println(t) }\n{I}    default { println(2) }\n{I}}"), ("duplicate map key", "mut dm [string:int] = {\"a\": 1, \"a\": 2}\n{I}println(dm)"), ("missing struct type field", "mut sp = Point{x: 1, zz: 2}\n{I}println(sp)"), ("repeated field", "mut sp = Point{x: 1, x: 2}\n{I}println(sp)"), ("fixed size", "mut fa [int, 2] = {1, 2, 3}\n{I}println(fa)"),
    ("dangling address", "mut dp ^int = addr(5)\n{I}println(1)"), ("pointer type", "mut pv ^Point = new(Node)\n{I}println(pv == nil)"), ("pointer arithmetic", "mut pv ^Point = new(Point)\n{I}pv = pv + 1"), ("nil int", "mut ni int = nil\n{I}println(ni)"), ("nil string", "mut ns string = nil\n{I}println(ns)"), ("nil struct", "mut np Point = nil\n{I}println(np)"),
    ("or_return without error", "mut ov = gi() or_return\n{I}println(ov)"), ("ensure value", "ensure 5"), ("function in variable", "mut fv = inc\n{I}println(1)"), ("function value type", "const fv func(string) -> int = ()inc\n{I}println(1)"), ("mutable function value", "mut fv func(int) -> int = ()inc\n{I}println(1)"), ("assign to call", "gi() = 5"), ("assign to literal", "5 = 5"), ("assign to expression", "gi() + 1 = 5"), ("assign to enum", "Color.RED = 5"), ("assign to function", "inc = 5"), ("assign to library", "math.PI = 3.0"),
    ("println count", "println(1, 2)"), ("assert type", "assert(1, \"m\")"), ("error type", "mut er = error(5)\n{I}println(er == nil)"), ("loop variable", "for lv in range(0, 3) { lv = 5 }"), ("for_each constant target", "for_each lv in gai() { lv = gs() }"), ("unreachable else type", "if gb() { println(1) } otherwise { mut z int = gs() }"), ("return from main", "return 5"), ("type name variable", "mut int = 5\n{I}println(1)"), ("literal overflow", "mut ov i8 = 300\n{I}println(ov)"), ("negative unsigned", "mut nu uint = -1\n{I}println(nu)"), ("literal division", "println(5 / 0)"),
    ("array of mixed", "mut am [int] = {1, \"a\"}\n{I}println(am)"), ("map of mixed", "mut mm [string:int] = {\"a\": 1, \"b\": \"c\"}\n{I}println(mm)"), ("map key mixed", "mut mm [string:int] = {\"a\": 1, 2: 2}\n{I}println(mm)"), ("array for map", "mut mm [string:int] = {1, 2}\n{I}println(mm)"), ("map for array", "mut mm [int] = {\"a\": 1}\n{I}println(mm)"), ("break outside", None), ("continue outside", None),
]
CONTROL_STATEMENT = "println(LIMIT)"
BLOCKS = [
    ("body", "{X}"), ("if", "if gb() {\n        {X}\n    }"), ("or", "if gb() {\n        println(1)\n    } or gi() > 1 {\n        {X}\n    }"), ("otherwise", "if gb() {\n        println(1)\n    } otherwise {\n        {X}\n    }"),
    ("while", "while gi() > 5 {\n        {X}\n    }"), ("for", "for q in range(0, 2) {\n        {X}\n        println(q)\n    }"), ("for_each", "for_each q in gai() {\n        {X}\n        println(q)\n    }"), ("for_each map", "for_each qk, qv in gmi() {\n        {X}\n        println(qk)\n        println(qv)\n    }"),
    ("loop", "loop {\n        {X}\n        break\n    }"), ("when", "when gi() {\n        is 1 {\n        {X}\n        }\n        default { println(2) }\n    }"), ("when default", "when gi() {\n        is 1 { println(1) }\n        default {\n        {X}\n        }\n    }"), ("when payload", "when gsh() {\n        is Shape.CIRCLE(r9) {\n        {X}\n        println(r9)\n        }\n        default { println(2) }\n    }"),
    ("deep", "if gb() {\n        for q in range(0, 2) {\n            when q {\n                is 1 {\n        {X}\n                }\n                default { println(q) }\n            }\n        }\n    }"),
]
# where the function with the block sits
HOSTS = [
    ("function", "do host(arg int, parg Point, aarg [int], marg [string:int]) {\n    println(arg)\n    {B}\n}", "host(1, gp(), gai(), gmi())"),
    ("method", "const Host struct {\n    n int\n    do host(h Host, arg int, parg Point, aarg [int], marg [string:int]) {\n    println(arg)\n    {B}\n    }\n}", "mut h = Host{n: 1}\n    h.host(1, gp(), gai(), gmi())"),
    ("uncalled function", "do host(arg int, parg Point, aarg [int], marg [string:int]) {\n    println(arg)\n    {B}\n}", "println(1)"),
    ("generic function", "do host(gen ?, arg int, parg Point, aarg [int], marg [string:int]) {\n    println(gen)\n    println(arg)\n    {B}\n}", "host(\"g\", 1, gp(), gai(), gmi())"),
    ("function with a value", "do host(arg int, parg Point, aarg [int], marg [string:int]) -> int {\n    println(arg)\n    {B}\n    return 1\n}", "println(host(1, gp(), gai(), gmi()))"),
]
# --- faulty declarations (whole-program)
DECLS = [
    ("duplicate function", "do inc(n int) -> int { return n }"), ("duplicate struct", "const Point struct {\n    a int\n}"), ("duplicate enum", "const Color enum {\n    A\n}"), ("duplicate constant", "const LIMIT int = 2"), ("duplicate field", "const Q struct {\n    a int\n    a string\n}"), ("duplicate member", "const Q enum {\n    A\n    A\n}"),
    ("duplicate parameter", "do q(a int, a int) -> int { return a }"), ("duplicate method", "const Q struct {\n    a int\n    do m(q Q) -> int { return 1 }\n    do m(q Q) -> int { return 2 }\n}"), ("unknown field type", "const Q struct {\n    a Nowhere\n}"), ("unknown parameter type", "do q(a Nowhere) -> int { return 1 }"), ("unknown result type", "do q() -> Nowhere { return 1 }"),
    ("unknown array type", "do q(a [Nowhere]) -> int { return 1 }"), ("unknown map type", "do q(a [string:Nowhere]) -> int { return 1 }"), ("unknown payload type", "const Q enum {\n    A(Nowhere)\n}"), ("unknown pointer type", "const Q struct {\n    a ^Nowhere\n}"), ("unknown function type", "do q(f func(Nowhere) -> int) -> int { return 1 }"), ("unknown global type", "mut qq Nowhere = 1"),
    ("recursive struct", "const Q struct {\n    q Q\n}"), ("mutually recursive structs", "const Q struct {\n    r R\n}\nconst R struct {\n    q Q\n}"), ("missing return", "do q(n int) -> int {\n    if n > 1 { return 1 }\n}"), ("missing return in while", "do q(n int) -> int {\n    while n > 1 { return 1 }\n}"), ("missing return in when", "do q(n int) -> int {\n    when n {\n        is 1 { return 1 }\n        default { println(2) }\n    }\n}"),
    ("missing return in for", "do q(n int) -> int {\n    for i in range(0, n) { return i }\n}"), ("missing return in for_each", "do q(n int) -> int {\n    for_each v in gai() { return v }\n}"), ("no return", "do q() -> int {\n    println(1)\n}"), ("empty body", "do q() -> int {\n}"), ("value from void", "do q() { return 5 }"), ("no value", "do q() -> int { return }"), ("too many values", "do q() -> int { return 1, 2 }"), ("too few values", "do q() -> (int, string) { return 1 }"),
    ("swapped values", "do q() -> (int, string) { return \"a\", 1 }"), ("missing return in method", "const Q struct {\n    a int\n    do m(q Q) -> int { println(1) }\n}"), ("loop with break", "do q() -> int {\n    loop {\n        break\n    }\n}"), ("global string for int", "mut qq int = \"a\""), ("global bool for int", "mut qq int = true"), ("global array", "mut qq [int] = {\"a\"}"), ("constant undefined", "const QQ int = NOWHERE"), ("default type", "do q(a int = \"x\") -> int { return a }"), ("default before required", "do q(a int = 1, b int) -> int { return a }"),
    ("reference default", "do q(&a int = 1) -> int { return a }"), ("enum mixed values", "const Q enum {\n    A = 1\n    B = \"x\"\n}"), ("unknown import", "import @nowhere"), ("unknown using", "using nowhere"), ("main twice", "do main() { println(1) }"), ("type named as library function", "const int struct {\n    a int\n}"), ("statement at top level", "println(1)"), ("break in function", "do q() { break }"), ("continue in function", "do q() { continue }"), ("break in when", "do q(n int) {\n    when n {\n        is 1 { break }\n        default { println(1) }\n    }\n}"),
    ("break in if", "do q() {\n    if gb() { break }\n}"), ("nested function", "do q() {\n    do r() { println(1) }\n}"), ("struct in function", "do q() {\n    const R struct {\n        a int\n    }\n}"), ("or_return in void", "do q() {\n    mut k = may(1) or_return\n    println(k)\n}"), ("or_return in int", "do q() -> int {\n    mut k = may(1) or_return\n    return k\n}"), ("ensure in loop", "do q() {\n    while gb() { ensure nothing() }\n}"),
    ("unknown attribute", "#nowhere\ndo q() { println(1) }"), ("self import", "import \"./nosuchfile.gray\""), ("payload in int enum", "const Q enum {\n    A = 1\n    B(int)\n}"), ("function named as type", "do Point() { println(1) }"), ("constant array", "const QA [int] = {1, 2}"), ("mut function", "mut q = do() { println(1) }"),
]


# any printable value may stand here: being of another type than int is no fault
ANY = {"printed", "error print", "interpolated", "inferred declaration", "error message", "panic message", "when branch", "when default", "when pattern"}
VALUES = {"string for int", "array for int", "map for int", "struct for int", "pointer for int", "nil"}


def fill(text, **kw):
    for k, v in kw.items():
        text = text.replace("{%s}" % k, v)
    return text


def program(decls, body):
    return PRELUDE + decls + "\ndo keepv(v ?) -> int { return 1 }\ndo main() {\n    " + fill(body) + "\n}\n"


def use(text):
    """use(x) keeps a variable used without printing it"""
    return re.sub(r"(?m)^( *)use\(", r"\1mut _ = keepv(", text)


def cells(c):
    """(rule, position, faulty?, source)"""
    out = []
    for key, decls, body in TYPED:
        for t, (spell, good) in TYPES.items():
            if key == "or_return value" and t == "^Point":
                pass
            if key == "global" and t not in ZERO:
                continue
            for s, (sspell, e) in TYPES.items():
                if (s, t) in ALLOWED:
                    continue
                kw = dict(T=spell, S=sspell, E=e, G2=ZERO.get(t, ""))
                # {G} before {E}: a good value of the wanted type
                d = fill(decls.replace("{G}", good), **kw)
                b = use(fill(body.replace("{G}", good), **kw))
                out.append(("%s for %s" % (s, t), key, s != t, program(d, b)))
    for key, decls, body in EXPR:
        for rule, e in [("control", "gi()" if key != "default parameter" else "5")] + BAD:
            if key in ANY and rule in VALUES:
                continue
            out.append((rule, "expression: " + key, rule != "control", program(fill(decls, E=e), fill(body, E=e))))
    for rule, stmt in [("control", CONTROL_STATEMENT)] + STATEMENTS:
        for bkey, block in BLOCKS:
            if stmt is None:
                if "loop" in bkey or bkey in ("while", "for", "for_each", "for_each map", "deep"):
                    continue
                stmt2 = rule.split()[0]
            else:
                stmt2 = stmt.replace("{I}", "        ")
            for hkey, host, call in HOSTS:
                if rule == "return from main" and hkey == "function with a value":
                    continue
                out.append((rule, "statement: %s in %s" % (bkey, hkey), rule != "control", program(fill(host, B=fill(block, X=stmt2)), call)))
    out.append(("control", "declaration", False, program("", "println(1)")))
    for rule, d in DECLS:
        out.append((rule, "declaration", True, program(d, "println(1)")))
    return out


def check(c):
    tree = build("plain")
    allc = cells(c)
    controls = [x for x in allc if not x[2]]
    bad = [x for x in allc if x[2]]
    if not c.thorough:
        keep = [x for x in bad if x[1] == "declaration"]
        rest = [x for x in bad if x[1] != "declaration"]
        c.rng.shuffle(rest)
        bad = keep + rest[:c.scale(6000, 10 ** 9)]
    import tempfile
    work = tempfile.mkdtemp(dir=c.work)

    def one(item):
        i, (rule, pos, faulty, src) = item
        path = os.path.join(work, "p%d.gray" % i)
        with open(path, "w") as f:
            f.write(src)
        r = run([tree.grayc, "check", path, "--no-color"], timeout=30, env=clean_env())
        os.unlink(path)
        return rule, pos, faulty, src, r

    holes = {}
    refused = {}
    codes = set()
    for rule, pos, faulty, src, r in pmap(one, list(enumerate(controls + bad))):
        c.case("%s|%s" % (rule, pos), nontrivial=faulty)
        if r.timeout or r.rc not in (0, 1) or r.crashed:
            c.violation("%s in %s: compiler ended with %s" % (rule, pos, r.brief()), {"main.gray": src}, "")
            continue
        text = (r.out + r.err).decode(errors="replace")
        found = re.findall(r"error\[(E\d+)\]", text)
        codes.update(found)
        if faulty and r.rc == 0:
            holes.setdefault(rule, []).append((pos, src))
        elif faulty and not found:
            c.violation("%s in %s: rejected without naming an error" % (rule, pos), {"main.gray": src}, text)
        elif not faulty and r.rc != 0:
            refused.setdefault(rule, []).append((pos, src, text))
    for x in sorted(codes):
        c.seen("codes", x)
    byp = {}
    for rule, lst in sorted(refused.items()):
        for pos, src, text in lst:
            k = c.known_cell("control|%s|%s" % (rule, pos)) or c.known_cell("control|%s" % pos)
            if k:
                c.finding(k)
            else:
                byp.setdefault(pos, []).append((rule, src, text))
    for pos, lst in sorted(byp.items()):
        c.violation("a correct program is refused: %s (%s): %s" % (pos, ", ".join(r for r, _, _ in lst[:4]), " ".join(re.findall(r"error.*", lst[0][2]))[:200]), {"main.gray": lst[0][1]}, lst[0][2])
    if os.environ.get("SUITE_DEBUG"):
        by = {}
        for rule, lst in holes.items():
            for pos, _ in lst:
                by.setdefault(pos, []).append(rule)
        for pos, rules in sorted(by.items()):
            print("HOLE position %s: %d: %s" % (pos, len(rules), "; ".join(sorted(rules))))
        for rule, lst in sorted(holes.items()):
            print("HOLE rule %s: %d" % (rule, len(lst)))
    for rule, lst in sorted(holes.items()):
        fresh = []
        for pos, src in lst:
            k = c.known_cell("%s|%s" % (rule, pos)) or c.known_cell(rule)
            if k:
                c.finding(k)
            else:
                fresh.append((pos, src))
        if fresh:
            c.violation("accepted: %s, in %d positions: %s" % (rule, len(fresh), "; ".join(p for p, _ in fresh[:8])), {"main.gray": fresh[0][1]}, "compiled without an error")


if __name__ == "__main__":
    main(check, "C33", "a program that breaks a rule of the standard is rejected with a coded error in every position")
