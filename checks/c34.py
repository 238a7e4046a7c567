"""C34: an accepted program builds, and builds to the same behaviour in every mode.

Every type crossed with every form a value of that type can take part in (declared, assigned, passed, returned, stored in
fields, elements, map entries, enum payloads, pointers, globals, defaults, ensure/or_return, loops, closures over
functions, generics, ...).  Whatever the compiler accepts must also get through the C compiler and print what the value
renders to, in plain, optimised and sanitized builds alike; `check`, `build` and the emission of C must agree on what is
accepted.  A rejected combination is counted, not judged (C33 judges rejections)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

HEAD = """
const Pt struct {
    n int
    s string
}
const Deep struct {
    p Pt
    a [string]
    m map[string:int]
}
const Color enum {
    RED
    GREEN
    BLUE
}
const Shape enum {
    CIRCLE(float)
    LABEL(string)
}
do twice(n int) -> int { return n * 2 }
do thrice(n int) -> int { return n * 3 }
do failing(n int) -> (int, Error) {
    if n > 5 { return 0, error("too big") }
    return n, nil
}
"""
# name -> (type, value a, its rendering, value b, its rendering, body of the rendering function, extra setup)
T = {}
def t(name, typ, a, ra, b, rb, show='return "${v}"'): T[name] = (typ, a, ra, b, rb, show)
for n, hi in (("i8", 127), ("i16", 32767), ("i32", 2147483647), ("i64", 9223372036854775807), ("int", 9223372036854775807)):
    t(n, n, str(hi), str(hi), "-7" if n in ("int", "i64") else f"cast(-7, {n})", "-7")
for n, hi in (("u8", 255), ("u16", 65535), ("u32", 4294967295), ("u64", 0), ("uint", 0), ("byte", 200)):
    t(n, n, f"cast({hi or 9}, {n})", str(hi or 9), f"cast(3, {n})", "3")
for n in ("i128", "u128", "i256", "u256"):
    t(n, n, f"cast(1234567890123, {n})", "1234567890123", f"cast(7, {n})", "7")
t("float", "float", "2.5", "2.5", "-0.25", "-0.25")
t("f32", "f32", "cast(1.5, f32)", "1.5", "cast(0.25, f32)", "0.25")
t("f64", "f64", "1.5", "1.5", "0.25", "0.25")
t("bool", "bool", "true", "true", "false", "false")
t("char", "char", "'x'", "x", "'é'", "é")
t("string", "string", '"abc"', "abc", '"é${len("xy")}"', "é2")
t("struct", "Pt", 'Pt{n: 1, s: "a"}', "1a", 'Pt{n: 2, s: "b"}', "2b", 'return "${v.n}${v.s}"')
t("deep", "Deep", 'Deep{p: Pt{n: 1, s: "q"}, a: {"x", "y"}, m: {"k": 4}}', "q2 4", 'Deep{p: Pt{n: 2, s: "r"}, a: {"z"}, m: {"k": 5}}', "r1 5",
  'return "${v.p.s}${len(v.a)} ${v.m["k"]}"')
t("enum", "Color", "Color.GREEN", "1", "Color.BLUE", "2",
  'when v {\n is Color.RED { return "0" }\n is Color.GREEN { return "1" }\n is Color.BLUE { return "2" }\n }\n return "?"')
t("tagged", "Shape", 'Shape.LABEL("hi")', "Lhi", "Shape.CIRCLE(1.5)", "C1.5",
  'when v {\n is Shape.CIRCLE(r) { return "C${r}" }\n is Shape.LABEL(q) { return "L${q}" }\n }\n return "?"')
t("ints", "[int]", "{1, 2}", "{1, 2}", "{7}", "{7}")
t("bytes", "[byte]", "{1, 2}", "{1, 2}", "{7}", "{7}")
t("floats", "[float]", "{1.5, 2.0}", "{1.5, 2.0}", "{7.25}", "{7.25}")
t("bools", "[bool]", "{true, false}", "{true, false}", "{true}", "{true}")
t("strs", "[string]", '{"a", "b"}', '{"a", "b"}', '{"c"}', '{"c"}')
t("grid", "[[int]]", "{{1, 2}, {3}}", "{{1, 2}, {3}}", "{{7}}", "{{7}}")
t("sgrid", "[[string]]", '{{"a"}, {"b", "c"}}', "1-b", '{{"z"}, {"y"}}', "1-y", 'return "${len(v[0])}-${v[1][0]}"')
t("structs", "[Pt]", '{Pt{n: 1, s: "a"}}', "1a", '{Pt{n: 2, s: "b"}}', "2b", 'return "${v[0].n}${v[0].s}"')
t("shapes", "[Shape]", '{Shape.LABEL("a")}', "1", '{Shape.LABEL("b"), Shape.CIRCLE(2.0)}', "2", 'return "${len(v)}"')
t("map", "map[string:int]", '{"k": 1}', '{"k": 1}', '{"j": 2, "l": 3}', '{"j": 2, "l": 3}')
t("imap", "map[int:string]", '{1: "a"}', '{1: "a"}', '{2: "b"}', '{2: "b"}')
t("mapmap", "map[string:map[string:int]]", '{"k": {"j": 1}}', "1", '{"k": {"j": 2}}', "2", 'return "${v["k"]["j"]}"')
t("maparr", "map[string:[int]]", '{"k": {1, 2}}', "2", '{"k": {1}}', "1", 'return "${len(v["k"])}"')
t("mapst", "map[string:Pt]", '{"k": Pt{n: 1, s: "a"}}', "1", '{"k": Pt{n: 2, s: "b"}}', "2", 'return "${v["k"].n}"')
t("wides", "[i128]", "{cast(1, i128), cast(2, i128)}", "2", "{cast(5, i128)}", "5", 'return "${v[len(v) - 1]}"')
t("empty_map", "map[string:int]", "{}", "{:}", '{"j": 2}', '{"j": 2}')
t("empty_arr", "[string]", "{}", "{}", '{"j"}', '{"j"}')

# form -> (file-scope text, body of the case); <T> the type, <A>/<B> the values, <S> the rendering call, <n> a unique name
F = {
 "declare": ("", "mut x <T> = <A>\nprintln(<S>(x))", "a"),
 "const": ("", "const x <T> = <A>\nprintln(<S>(x))", "a"),
 "assign": ("", "mut x <T> = <A>\nx = <B>\nprintln(<S>(x))", "b"),
 "copy": ("", "mut x <T> = <A>\nmut y <T> = x\nx = <B>\nprintln(<S>(y))\nprintln(<S>(x))", "ab"),
 "infer": ("", "mut x <T> = <A>\nmut y = x\nprintln(<S>(y))", "a"),
 "global": ("mut g<n> <T> = <A>\n", "println(<S>(g<n>))\ng<n> = <B>\nprintln(<S>(g<n>))", "ab"),
 "global const": ("const h<n> <T> = <A>\n", "println(<S>(h<n>))", "a"),
 "argument": ("", "println(<S>(<A>))", "a"),
 "return": ("do r<n>(k int) -> <T> {\n if k > 3 { return <A> }\n return <B>\n}\n", "println(<S>(r<n>(I(0))))\nprintln(<S>(r<n>(9)))", "ba"),
 "named value": ("do r<n>(k int) -> <T> {\n mut x <T> = <A>\n if k > 3 { x = <B> }\n return x\n}\n", "println(<S>(r<n>(I(0))))\nprintln(<S>(r<n>(9)))", "ab"),
 "two results": ("do r<n>() -> (<T>, int) { return <A>, 4 }\n", "mut x, y = r<n>()\nprintln(<S>(x))\nif y != 4 { println(y) }", "a"),
 "result and error": ("do r<n>(k int) -> (<T>, Error) {\n if k > 3 { return <A>, nil }\n return <B>, error(\"no\")\n}\n",
    "mut x, e = r<n>(9)\nprintln(<S>(x))\nif e != nil { println(e.message) }\nmut y, f = r<n>(I(0))\nprintln(<S>(y))\nif f == nil { println(\"none\") }", "ab"),
 "or_return": ("do r<n>(k int) -> (<T>, Error) {\n if k > 3 { return <A>, nil }\n return <B>, error(\"no\")\n}\n"
    "do q<n>(k int) -> (<T>, Error) {\n mut x = r<n>(k) or_return\n return x, nil\n}\n", "mut x, e = q<n>(9)\nprintln(<S>(x))\nif e != nil { println(e.message) }", "a"),
 "default": ("do r<n>(k int, v <T> = <A>) -> string { return <S>(v) }\n", "println(r<n>(1))\nprintln(r<n>(1, <B>))", "ab"),
 "named argument": ("do r<n>(k int, v <T>) -> string { return <S>(v) }\n", "println(r<n>(k: 1, v: <B>))", "b"),
 "mutable parameter": ("do r<n>(&v <T>) { v = <B> }\n", "mut x <T> = <A>\nr<n>(x)\nprintln(<S>(x))", "b"),
 "field": ("const S<n> struct {\n k int\n v <T>\n}\n", "mut x S<n> = S<n>{k: 1, v: <A>}\nprintln(<S>(x.v))\nx.v = <B>\nprintln(<S>(x.v))", "ab"),
 "field default": ("const S<n> struct {\n k int\n v <T>\n}\n", "mut x S<n> = S<n>{k: 1}\nx.v = <B>\nprintln(<S>(x.v))", "b"),
 "nested field": ("const S<n> struct {\n v <T>\n}\nconst O<n> struct {\n i S<n>\n}\n",
    "mut x O<n> = O<n>{i: S<n>{v: <A>}}\nmut y O<n> = x\nx.i.v = <B>\nprintln(<S>(y.i.v))\nprintln(<S>(x.i.v))", "ab"),
 "pointer field": ("const S<n> struct {\n v <T>\n}\n", "mut x S<n> = S<n>{v: <A>}\nmut p ^S<n> = addr(x)\nprintln(<S>(p^.v))\np^.v = <B>\nprintln(<S>(x.v))", "ab"),
 "pointer auto field": ("const S<n> struct {\n v <T>\n}\n", "mut x S<n> = S<n>{v: <A>}\nmut p = addr(x)\np.v = <B>\nprintln(<S>(p.v))", "b"),
 "pointer": ("", "mut x <T> = <A>\nmut p ^<T> = addr(x)\nprintln(<S>(p^))\np^ = <B>\nprintln(<S>(x))", "ab"),
 "new": ("const S<n> struct {\n v <T>\n}\n", "mut p = new(S<n>)\np^.v = <A>\nprintln(<S>(p^.v))", "a"),
 "method": ("const S<n> struct {\n v <T>\n do get(s S<n>) -> <T> { return s.v }\n do put(&s S<n>, v <T>) { s.v = v }\n}\n",
    "mut x S<n> = S<n>{v: <A>}\nprintln(<S>(x.get()))\nx.put(<B>)\nprintln(<S>(x.get()))", "ab"),
 "element": ("", "mut x [<T>] = {<A>, <B>}\nprintln(<S>(x[0]))\nx[0] = <B>\nprintln(<S>(x[0]))", "ab"),
 "append": ("", "mut x [<T>] = {}\narrays.append(x, <A>)\narrays.insert_at(x, 0, <B>)\nprintln(<S>(x[0]))\nprintln(<S>(x[1]))", "ba"),
 "array function": ("", "mut x [<T>] = {<A>, <B>}\nx = arrays.reverse(x)\nprintln(<S>(x[0]))\nmut y [<T>] = arrays.slice(x, 1, 2)\nprintln(<S>(y[0]))", "ba"),
 "pop": ("", "mut x [<T>] = {<A>, <B>}\narrays.remove_at(x, 0)\nprintln(<S>(x[0]))", "b"),
 "fixed array": ("", "const x [<T>, 2] = {<A>, <B>}\nprintln(<S>(x[1]))", "b"),
 "for_each": ("", "mut x [<T>] = {<A>, <B>}\nfor_each v in x { println(<S>(v)) }", "ab"),
 "map value": ("", "mut x map[string:<T>] = {\"k\": <A>}\nprintln(<S>(x[\"k\"]))\nx[\"k\"] = <B>\nprintln(<S>(x[\"k\"]))", "ab"),
 "map key": ("", "mut x map[<T>:int] = {<A>: 1}\nx[<B>] = 2\nprintln(\"${x[<A>]}${x[<B>]}\")", "=12"),
 "map values": ("", "mut x map[string:<T>] = {\"k\": <A>}\nmut y [<T>] = maps.get_values(x)\nprintln(<S>(y[0]))", "a"),
 "map each": ("", "mut x map[string:<T>] = {\"k\": <A>}\nfor_each k, v in x { println(<S>(v)) }", "a"),
 "payload": ("const E<n> enum {\n ONE(<T>)\n TWO(int, <T>)\n}\n",
    "mut x E<n> = E<n>.TWO(3, <A>)\nwhen x {\n is E<n>.ONE(q) { println(<S>(q)) }\n is E<n>.TWO(i, q) { println(<S>(q)) }\n}\n"
    "x = E<n>.ONE(<B>)\nwhen x {\n is E<n>.ONE(q) { println(<S>(q)) }\n default { println(\"?\") }\n}", "ab"),
 "equal": ("", "mut x <T> = <A>\nmut y <T> = <B>\nprintln(\"${x == x} ${x == y} ${x != y}\")", "=true false true"),
 "less": ("", "mut x <T> = <A>\nmut y <T> = <B>\nprintln(\"${x < y || y < x}\")", "=true"),
 "interpolate": ("", "mut x <T> = <A>\nmut s string = \"[${x}]\"\nprintln(\"${len(s) > 0}\")", "=true"),
 "print": ("", "mut x <T> = <A>\neprintln(x)\nprintln(1)", "=1"),
 "typeof": ("", "mut x <T> = <A>\nprintln(\"${len(type_of(x)) > 0}\")", "=true"),
 "size_of": ("", "println(\"${size_of(<T>) > 0}\")", "=true"),
 "copy builtin": ("", "mut x <T> = <A>\nmut y <T> = copy(x)\nx = <B>\nprintln(<S>(y))", "a"),
 "generic": ("do r<n>(v ?) -> ? { return v }\n", "mut x <T> = <A>\nmut y <T> = r<n>(x)\nprintln(<S>(y))", "a"),
 "generic pair": ("do r<n>(v ?, w ?) -> ? {\n if I0() > 5 { return w }\n return v\n}\n", "mut x <T> = <A>\nprintln(<S>(r<n>(x, <B>)))", "a"),
 "function value": ("do r<n>(v <T>) -> string { return <S>(v) }\n", "const f func = ()r<n>\nprintln(f(<A>))", "a"),
 "function parameter": ("do r<n>(v <T>) -> string { return <S>(v) }\ndo ap<n>(f func(<T>) -> string, v <T>) -> string { return f(v) }\n",
    "println(ap<n>(()r<n>, <A>))", "a"),
 "if value": ("", "mut x <T> = <A>\nif I(0) > 3 {\n x = <B>\n} otherwise {\n x = <A>\n}\nprintln(<S>(x))", "a"),
 "loop value": ("", "mut x <T> = <A>\nfor i in range(0, 3) {\n mut y <T> = <B>\n x = y\n}\nprintln(<S>(x))", "b"),
 "ensure": ("do cl<n>(v <T>) { println(<S>(v)) }\ndo r<n>() {\n mut x <T> = <A>\n ensure cl<n>(x)\n println(\"body\")\n}\n", "r<n>()", "=body\n{a}"),
 "recursion": ("do r<n>(k int, v <T>) -> <T> {\n if k == 0 { return v }\n return r<n>(k - 1, v)\n}\n", "println(<S>(r<n>(4, <A>)))", "a"),
 "mem init": ("", "mut ar = mem.arena(512)\nmut x <T> = <A>\nmut p = mem.alloc(ar, x)\nprintln(\"ok\")\nmem.destroy(ar)", "=ok"),
 "mem field": ("const S<n> struct {\n v <T>\n}\n", "mut ar = mem.arena(512)\nmut p = mem.init(ar, S<n>)\np^.v = <A>\nprintln(<S>(p^.v))\nmem.destroy(ar)", "a"),
 "array of structs": ("const S<n> struct {\n v <T>\n}\n", "mut x [S<n>] = {S<n>{v: <A>}}\nx[0].v = <B>\nprintln(<S>(x[0].v))", "b"),
 "map of structs": ("const S<n> struct {\n v <T>\n}\n", "mut x map[string:S<n>] = {\"k\": S<n>{v: <A>}}\nx[\"k\"].v = <B>\nprintln(<S>(x[\"k\"].v))", "b"),
 "field of array": ("const S<n> struct {\n v [<T>]\n}\n", "mut x S<n> = S<n>{v: {<A>}}\nx.v[0] = <B>\narrays.append(x.v, <A>)\nprintln(<S>(x.v[0]))\nprintln(<S>(x.v[1]))", "ba"),
 "field of map": ("const S<n> struct {\n v map[string:<T>]\n}\n", "mut x S<n> = S<n>{v: {}}\nx.v[\"k\"] = <B>\nprintln(<S>(x.v[\"k\"]))", "b"),
 "array of arrays": ("", "mut x [[<T>]] = {{<A>}, {<B>}}\nx[0] = x[1]\nprintln(<S>(x[0][0]))", "b"),
 "map of arrays": ("", "mut x map[string:[<T>]] = {\"k\": {<A>}}\nx[\"k\"] = {<B>}\nprintln(<S>(x[\"k\"][0]))", "b"),
 "discard": ("do r<n>() -> (<T>, int) { return <A>, 4 }\n", "mut _, y = r<n>()\nprintln(\"${y}\")", "=4"),
}

def check(c):
    head = HEAD + "do I0() -> int { return len(os.args()) - len(os.args()) }\n"
    for name, (typ, a, ra, b, rb, show) in T.items(): head += f"do sh_{name}(v {typ}) -> string {{\n {show}\n}}\n"
    s = Suite(c, "@arrays, @maps, @mem", head, per=10, compile_fail="c")
    k = 0
    for name, (typ, a, ra, b, rb, show) in T.items():
        for form, (decl, body, want) in F.items():
            k += 1
            f = lambda x: (x.replace("<T>", typ).replace("<A>", a).replace("<B>", b).replace("<S>", "sh_" + name).replace("<n>", f"n{k}x"))
            out = want[1:].replace("{a}", ra) + "\n" if want[0] == "=" else "".join({"a": ra, "b": rb}[x] + "\n" for x in want)
            s.add(f"{form} of {name}", "\n".join("    " + l for l in f(body).split("\n")), out, args=("0",), decls=f(decl), key=form)
    s.run((("plain", 1), ("asan", 4 if c.tier == "quick" else 1)))

if __name__ == "__main__":
    main(check, "C34", "every accepted program builds and behaves the same in every build mode")
