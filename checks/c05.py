"""C05: a value that outlives its scope keeps its contents.

For every type of value x every way of storing it outside x every kind of scope, a program builds the value inside the
scope from runtime input, stores it, leaves the scope, churns the arenas with allocations of the same sizes, and then
renders the stored value completely.  The oracle is the rendering predicted from the input; under AddressSanitizer the
reclaimed arena memory is poisoned, so any reference into it is reported even when the bytes happen to survive."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

DECLS = """
const Pt struct {
    n int
    s string
}
const Deep struct {
    p Pt
    a [string]
    m map[string:int]
}
const Node struct {
    v int
    s string
    next ^Node
}
const Shape enum {
    CIRCLE(float)
    LABEL(string)
    PAIR(string, int)
}
do w(n int, k int) -> string {
    return "w${n}-${k}-abcdefghijklmnopqrstuvwxyz"
}
do churn() {
    mut keep [string] = {}
    for i in range(0, 60) {
        mut t string = strings.repeat("#", 20 + i)
        arrays.append(keep, t)
        mut q [int] = {-1, -2, -3, -4, -5, -6}
        q[0] = i
        mut mm map[string:int] = {"zzzz": i}
        mm["yyyy"] = q[0]
    }
    if len(keep) != 60 { panic("churn") }
}
do mk_string(n int) -> string { return w(n, 0) }
do sh_string(v string) -> string { return v }
do mk_ints(n int) -> [int] {
    mut a [int] = {}
    for i in range(0, 5) { arrays.append(a, n * 10 + i) }
    return a
}
do sh_ints(v [int]) -> string { return "${v}" }
do mk_strs(n int) -> [string] {
    mut a [string] = {}
    for i in range(0, 4) { arrays.append(a, w(n, i)) }
    return a
}
do sh_strs(v [string]) -> string { return strings.join(v, "|") }
do mk_grid(n int) -> [[string]] {
    mut a [[string]] = {}
    for i in range(0, 3) { arrays.append(a, mk_strs(n + i)) }
    return a
}
do sh_grid(v [[string]]) -> string {
    mut o string = ""
    for_each r in v { o = "${o}<${sh_strs(r)}>" }
    return o
}
do mk_msi(n int) -> map[string:int] {
    mut m map[string:int] = {:}
    for i in range(0, 9) { m[w(n, i)] = n + i }
    return m
}
do sh_msi(v map[string:int]) -> string {
    mut o string = ""
    for_each k, x in v { o = "${o}${k}=${x};" }
    return o
}
do mk_mis(n int) -> map[int:string] {
    mut m map[int:string] = {:}
    for i in range(0, 9) { m[n + i] = w(n, i) }
    return m
}
do sh_mis(v map[int:string]) -> string {
    mut o string = ""
    for_each k, x in v { o = "${o}${k}=${x};" }
    return o
}
do mk_pt(n int) -> Pt { return Pt{n: n, s: w(n, 1)} }
do sh_pt(v Pt) -> string { return "${v.n}/${v.s}" }
do mk_pts(n int) -> [Pt] {
    mut a [Pt] = {}
    for i in range(0, 3) { arrays.append(a, mk_pt(n + i)) }
    return a
}
do sh_pts(v [Pt]) -> string {
    mut o string = ""
    for_each p in v { o = "${o}${sh_pt(p)};" }
    return o
}
do mk_mpt(n int) -> map[string:Pt] {
    mut m map[string:Pt] = {:}
    for i in range(0, 3) { m[w(n, i)] = mk_pt(n + i) }
    return m
}
do sh_mpt(v map[string:Pt]) -> string {
    mut o string = ""
    for_each k, p in v { o = "${o}${k}:${sh_pt(p)};" }
    return o
}
do mk_deep(n int) -> Deep { return Deep{p: mk_pt(n), a: mk_strs(n), m: mk_msi(n)} }
do sh_deep(v Deep) -> string { return "${sh_pt(v.p)} ${sh_strs(v.a)} ${sh_msi(v.m)}" }
do mk_node(n int) -> ^Node {
    mut h ^Node = nil
    for i in range(0, 4) {
        mut x ^Node = new(Node)
        x.v = n + i
        x.s = w(n, i)
        x.next = h
        h = x
    }
    return h
}
do sh_node(v ^Node) -> string {
    mut o string = ""
    mut p ^Node = v
    while p != nil {
        o = "${o}${p.v}:${p.s};"
        p = p.next
    }
    return o
}
do mk_shape(n int) -> Shape {
    if n % 2 == 0 { return Shape.LABEL(w(n, 2)) }
    return Shape.PAIR(w(n, 3), n)
}
do sh_shape(v Shape) -> string {
    mut o string = "?"
    when v {
        is Shape.CIRCLE(r) { o = "c${r}" }
        is Shape.LABEL(s) { o = "l${s}" }
        is Shape.PAIR(s, k) { o = "p${s}/${k}" }
    }
    return o
}
do mk_wide(n int) -> i256 {
    mut x i256 = 1
    for i in range(0, 30) { x = x * 100 }
    return x + cast(n, i256)
}
do sh_wide(v i256) -> string { return "${v}" }
do mk_wides(n int) -> [i256] {
    mut a [i256] = {}
    for i in range(0, 3) { arrays.append(a, mk_wide(n + i)) }
    return a
}
do sh_wides(v [i256]) -> string { return "${v}" }
"""


def w(n, k):
    return f"w{n}-{k}-abcdefghijklmnopqrstuvwxyz"


def strs(n):
    return "|".join(w(n, i) for i in range(4))


def pt(n):
    return f"{n}/{w(n, 1)}"


def msi(n):
    return "".join(f"{w(n, i)}={n + i};" for i in range(9))


TYPES = {
    "string": ("string", '""', lambda n: w(n, 0)),
    "ints": ("[int]", "{}", lambda n: "{" + ", ".join(str(n * 10 + i) for i in range(5)) + "}"),
    "strs": ("[string]", "{}", strs),
    "grid": ("[[string]]", "{}", lambda n: "".join(f"<{strs(n + i)}>" for i in range(3))),
    "msi": ("map[string:int]", "{:}", msi),
    "mis": ("map[int:string]", "{:}", lambda n: "".join(f"{n + i}={w(n, i)};" for i in range(9))),
    "pt": ("Pt", 'Pt{n: 0, s: ""}', pt),
    "pts": ("[Pt]", "{}", lambda n: "".join(pt(n + i) + ";" for i in range(3))),
    "mpt": ("map[string:Pt]", "{:}", lambda n: "".join(f"{w(n, i)}:{pt(n + i)};" for i in range(3))),
    "deep": ("Deep", 'Deep{p: Pt{n: 0, s: ""}, a: {}, m: {:}}', lambda n: f"{pt(n)} {strs(n)} {msi(n)}"),
    "node": ("^Node", "nil", lambda n: "".join(f"{n + i}:{w(n, i)};" for i in range(3, -1, -1))),
    "shape": ("Shape", 'Shape.LABEL("")', lambda n: f"l{w(n, 2)}" if n % 2 == 0 else f"p{w(n, 3)}/{n}"),
    "wide": ("i256", "0", lambda n: str(10 ** 60 + n)),
    "wides": ("[i256]", "{}", lambda n: "{" + ", ".join(str(10 ** 60 + n + i) for i in range(3)) + "}"),
}

# store forms: name -> (declarations at file scope, setup, store (uses V: an expression in scope), read expression)
def stores(k):
    T, init, _ = TYPES[k]
    H = f"H_{k}"
    hd = f"const {H} struct {{\n    pad int\n    v {T}\n}}\n"
    hh = hd + f"const HH_{k} struct {{\n    pad string\n    h {H}\n}}\n"
    mkh = f"{H}{{pad: 1, v: {init}}}"
    arr = f"mut a [{T}] = {{}}\n    arrays.append(a, out)"
    s = {
        "var": ("", "", "out = V", "out"),
        "field": (hd, f"mut h {H} = {mkh}", "h.v = V", "h.v"),
        "struct literal": (hd, f"mut h {H} = {mkh}", f"h = {H}{{pad: 2, v: V}}", "h.v"),
        "nested field": (hh, f"mut h HH_{k} = HH_{k}{{pad: \"p\", h: {mkh}}}", "h.h.v = V", "h.h.v"),
        "nested literal": (hh, f"mut h HH_{k} = HH_{k}{{pad: \"p\", h: {mkh}}}", f"h = HH_{k}{{pad: \"q\", h: {H}{{pad: 3, v: V}}}}", "h.h.v"),
        "append": ("", f"mut a [{T}] = {{}}", "arrays.append(a, V)", "a[0]"),
        "prepend": ("", f"mut a [{T}] = {{}}", "arrays.prepend(a, V)", "a[0]"),
        "insert_at": ("", arr, "arrays.insert_at(a, 0, V)", "a[0]"),
        "element": ("", arr, "a[0] = V", "a[0]"),
        "array literal": ("", arr, "a = {V}", "a[0]"),
        "fill": ("", f"mut a [{T}] = {{}}", "arrays.fill(a, V, 3)", "a[2]"),
        "map entry": ("", f"mut m map[string:{T}] = {{:}}", 'm["key"] = V', 'm["key"]'),
        "map literal": ("", f"mut m map[string:{T}] = {{:}}", 'm = {"key": V}', 'm["key"]'),
        "map dynamic key": ("", f"mut m map[string:{T}] = {{:}}", "m[w(I(0), 7)] = V", "m[w(I(0), 7)]"),
        "pointer target": ("", f"mut p ^{T} = addr(out)", "p^ = V", "out"),
        "heap struct": (hd, f"mut p ^{H} = new({H})", "p.v = V", "p.v"),
        "heap whole": (hd, f"mut p ^{H} = new({H})", f"p^ = {H}{{pad: 4, v: V}}", "p.v"),
        "global": (f"mut G_{k} {T} = {init}\n", "", f"G_{k} = V", f"G_{k}"),
        "global field": (hd + f"mut GH_{k} {H} = {mkh}\n", "", f"GH_{k}.v = V", f"GH_{k}.v"),
        "& parameter": (f"do put_{k}(&x {T}, y {T}) {{ x = y }}\n", "", f"put_{k}(out, V)", "out"),
        "& append": (f"do putA_{k}(&x [{T}], y {T}) {{ arrays.append(x, y) }}\n", f"mut a [{T}] = {{}}", f"putA_{k}(a, V)", "a[0]"),
        "& field": (hd + f"do putF_{k}(&x {H}, n int) {{\n    if n != 0 {{\n        mut z {T} = mk_{k}(n)\n        x.v = z\n    }}\n}}\n",
                    f"mut h {H} = {mkh}", f"putF_{k}(h, I(0))", "h.v"),
        "& element": (hd + f"do putE_{k}(&x [{H}], y {T}) {{ x[0].v = y }}\n", f"mut a [{H}] = {{}}\n    arrays.append(a, {mkh})", f"putE_{k}(a, V)", "a[0].v"),
        "element field": (hd, f"mut a [{H}] = {{}}\n    arrays.append(a, {mkh})", "a[0].v = V", "a[0].v"),
        "map value whole": (hd, f"mut m map[int:{H}] = {{:}}", f"m[5] = {H}{{pad: 5, v: V}}", "m[5].v"),
        "identity call": (f"do same_{k}(x {T}) -> {T} {{ return x }}\n", "", f"out = same_{k}(V)", "out"),
        "return nested": (f"do rn_{k}(n int) -> {T} {{\n    for i in range(0, 3) {{\n        if i == 1 {{\n            mut z {T} = mk_{k}(n)\n            mut y {T} = z\n            return y\n        }}\n    }}\n    mut d {T} = {init}\n    return d\n}}\n",
                          "", f"out = rn_{k}(I(0))", "out"),
        "two returns": (f"do tw_{k}(n int) -> ({T}, int) {{\n    if n != 0 {{\n        mut z {T} = mk_{k}(n)\n        return z, n\n    }}\n    mut d {T} = {init}\n    return d, 0\n}}\n",
                        "", f"mut z_, _ = tw_{k}(I(0))\n        out = z_", "out"),
        "copy": ("", "", f"mut c_ {T} = V\n        out = copy(c_)", "out"),
        "func ref": (f"do fr_{k}(n int) -> {T} {{\n    mut z {T} = mk_{k}(n)\n    return z\n}}\n", f"const f func = ()fr_{k}", f"mut q_ {T} = f(I(0))\n        out = q_", "out"),
        "via array of arrays": ("", f"mut a [[{T}]] = {{}}", f"mut r_ [{T}] = {{V}}\n        arrays.append(a, r_)", "a[0][0]"),
        "map of arrays": ("", f"mut m map[string:[{T}]] = {{:}}", f"mut r_ [{T}] = {{V}}\n        m[\"k\"] = r_", 'm["k"][0]'),
    }
    if k == "node":
        for x in ("func ref", "pointer target", "copy", "fill", "map entry", "map literal", "map dynamic key", "& parameter", "array literal",
                  "via array of arrays", "map of arrays", "heap whole"):
            pass
    return s


SCOPES = {
    "if": "if I(0) > 0 {\n        BODY\n    }",
    "else": "if I(0) <= 0 {\n    } otherwise {\n        BODY\n    }",
    "or": "if I(0) <= 0 {\n    } or I(0) > 0 {\n        BODY\n    }",
    "when": "when I(0) % 1 {\n        is 0 {\n        BODY\n        }\n        default { }\n    }",
    "for": "for i_ in range(0, 3) {\n        BODY\n    }",
    "for_each": "mut l_ [int] = {1, 2, 3}\n    for_each e_ in l_ {\n        BODY\n    }",
    "while": "mut n_ int = 0\n    while n_ < 3 {\n        BODY\n        n_ += 1\n    }",
    "loop": "loop {\n        BODY\n        break\n    }",
    "loop continue": "mut n_ int = 0\n    while n_ < 2 {\n        n_ += 1\n        BODY\n        continue\n    }",
    "for if": "for i_ in range(0, 3) {\n        if i_ == 1 {\n        BODY\n        }\n        churn()\n    }",
    "while for break": "mut n_ int = 0\n    while n_ < 2 {\n        n_ += 1\n        for i_ in range(0, 2) {\n        BODY\n        break\n        }\n    }",
    "if if": "if I(0) > 0 {\n        mut pre_ string = w(I(0), 9)\n        if len(pre_) > 0 {\n        BODY\n        }\n        churn()\n    }",
    "for_each map": "mut mm_ map[string:int] = {\"a\": 1, \"b\": 2}\n    for_each kk_, vv_ in mm_ {\n        BODY\n    }",
    "for when": "for i_ in range(0, 2) {\n        when i_ {\n        is 1 {\n        BODY\n        }\n        default { }\n        }\n    }",
}
VALUES = {
    "local": lambda k: f"mut t_ {TYPES[k][0]} = mk_{k}(I(0))\n        ",
    "call": lambda k: "",
}
SINGLE = {"append", "& append", "via array of arrays"}


def check(c):
    s = Suite(c, "@arrays, @strings, @maps", DECLS, per=40, compile_fail="c")
    n = 0
    names = list(SCOPES)
    for k in TYPES:
        T, init, model = TYPES[k]
        for sn, (decl, setup, store, read) in stores(k).items():
            todo = names if c.thorough else sorted({names[(n * 5 + j * 7) % len(names)] for j in range(2)})
            for sc in todo:
                for vn in (("local", "call") if c.thorough else (("local", "call")[(n // 2) % 2],)):
                    n += 1
                    v = "t_" if vn == "local" else f"mk_{k}(I(0))"
                    body = VALUES[vn](k) + store.replace("V", v) if "V" in store else store
                    if "V" not in store:
                        body = store
                    arg = 3 + n % 5
                    text = f"mut out {T} = {init}\n    {setup}\n    " + SCOPES[sc].replace("BODY", body) + \
                        f"\n    churn()\n    println(sh_{k}({read}))\n    println(sh_{k}(out))" 
                    if read != "out":
                        text = text[:text.rindex("\n    println")] + f"\n    if len(sh_{k}(out)) > 99999 {{ println(\"never\") }}"
                        exp = model(arg) + "\n"
                    else:
                        exp = (model(arg) + "\n") * 2
                    s.add(f"{sn}/{k}", text, exp, [arg], key=f"{sc}/{vn}", decls=decl)
                    c.seen("scopes", sc)
                    c.seen("stores", sn)
    extra(s)
    s.run((("asan", 1), ("plain", 4)))


def extra(s):
    """Values accumulated across iterations, errors, and references handed back through several frames."""
    acc = [
        ("string accumulated", 'mut o string = ""\n    for i in range(0, I(0)) {\n        o = "${o}${w(i, 0)},"\n    }\n    churn()\n    println(o)',
         lambda n: "".join(w(i, 0) + "," for i in range(n))),
        ("interpolated into array", 'mut o [string] = {}\n    for i in range(0, I(0)) {\n        arrays.append(o, "${i}:${w(i, 1)}")\n    }\n    churn()\n    println(strings.join(o, ","))',
         lambda n: ",".join(f"{i}:{w(i, 1)}" for i in range(n))),
        ("map of arrays grown", 'mut o map[string:[string]] = {:}\n    for i in range(0, I(0)) {\n        mut kk string = "k${i % 3}"\n        if !(kk in o) {\n            o[kk] = {}\n        }\n        mut cur [string] = o[kk]\n        arrays.append(cur, w(i, 2))\n        o[kk] = cur\n    }\n    churn()\n    for_each k, v in o { println("${k} ${strings.join(v, ",")}") }',
         lambda n: None),
        ("list built backwards", 'mut h ^Node = nil\n    for i in range(0, I(0)) {\n        mut x ^Node = new(Node)\n        x.v = i\n        x.s = "s${i}"\n        x.next = h\n        h = x\n    }\n    churn()\n    println(sh_node(h))',
         lambda n: "".join(f"{i}:s{i};" for i in range(n - 1, -1, -1))),
        ("split then keep one", 'mut o string = ""\n    for i in range(0, I(0)) {\n        mut ps [string] = strings.split("a${i},b${i},c${i}", ",")\n        if i == 2 { o = ps[1] }\n    }\n    churn()\n    println(o)', lambda n: "b2"),
        ("for_each element kept", 'mut o string = ""\n    for_each x in mk_strs(I(0)) {\n        if strings.contains(x, "-2-") { o = x }\n    }\n    churn()\n    println(o)', lambda n: w(n, 2)),
        ("for_each struct kept", 'mut o Pt = Pt{n: 0, s: ""}\n    for_each x in mk_pts(I(0)) { o = x }\n    churn()\n    println(sh_pt(o))', lambda n: pt(n + 2)),
        ("map key kept", 'mut o string = ""\n    for_each k, v in mk_msi(I(0)) { o = k }\n    churn()\n    println(o)', lambda n: w(n, 8)),
        ("when payload kept", 'mut o string = ""\n    for i in range(0, 2) {\n        mut sh Shape = mk_shape(I(0))\n        when sh {\n            is Shape.CIRCLE(r) { o = "c${r}" }\n            is Shape.LABEL(t) { o = t }\n            is Shape.PAIR(t, q) { o = t }\n        }\n    }\n    churn()\n    println(o)', lambda n: w(n, 2) if n % 2 == 0 else w(n, 3)),
        ("error kept", 'mut o string = ""\n    mut er Error = nil\n    for i in range(0, 2) {\n        mut v, e = bad(I(0))\n        if e != nil {\n            er = e\n            o = e.message\n        }\n    }\n    churn()\n    println("${o} ${er.message}")', lambda n: f"{w(n, 4)} {w(n, 4)}"),
        ("error through or_return", 'mut v, e = chain(I(0))\n    churn()\n    if e != nil { println(e.message) }', lambda n: w(n, 4)),
        ("recursion result", 'mut o [string] = {}\n    rec(o, I(0))\n    churn()\n    println(strings.join(o, ","))', lambda n: ",".join(f"r{i}" for i in range(n, 0, -1))),
        ("recursive return", 'mut o string = cat(I(0))\n    churn()\n    println(o)', lambda n: "".join(f"<{i}" for i in range(n, 0, -1))),
        ("matrix rows", 'mut g [[int]] = {}\n    for i in range(0, I(0)) {\n        mut r [int] = {}\n        for j in range(0, 3) { arrays.append(r, i * j) }\n        arrays.append(g, r)\n    }\n    churn()\n    println(g)', None),
        ("ensure writes global", 'ens(I(0))\n    churn()\n    println(GE)', lambda n: w(n, 6)),
        ("struct copied then original dropped", 'mut o Deep = mk_deep(1)\n    if I(0) > 0 {\n        mut q Deep = mk_deep(I(0))\n        o = q\n        q.p.s = "gone"\n        arrays.clear(q.a)\n    }\n    churn()\n    println(sh_pt(o.p))', pt),
    ]
    d = """
mut GE string = ""
do bad(n int) -> (int, Error) {
    if n > 0 {
        mut m string = w(n, 4)
        return 0, error(m)
    }
    return n, nil
}
do chain(n int) -> (int, Error) {
    for i in range(0, 2) {
        mut v = bad(n) or_return
        if v > 100 { return v, nil }
    }
    return 0, nil
}
do rec(&o [string], n int) {
    if n == 0 { return }
    mut t string = "r${n}"
    arrays.append(o, t)
    rec(o, n - 1)
}
do cat(n int) -> string {
    if n == 0 { return "" }
    mut t string = "<${n}"
    mut r string = cat(n - 1)
    return "${t}${r}"
}
do setge(n int) { GE = w(n, 6) }
do ens(n int) {
    ensure setge(n)
    if n > 0 {
        mut q string = w(n, 5)
        GE = q
        return
    }
}
"""
    s.decls += d
    for name, body, model in acc:
        for n in (3, 4, 7):
            if name == "map of arrays grown":
                exp = "".join(f"k{r} {','.join(w(i, 2) for i in range(n) if i % 3 == r)}\n" for r in range(3))
            elif name == "matrix rows":
                exp = "{" + ", ".join("{" + ", ".join(str(i * j) for j in range(3)) + "}" for i in range(n)) + "}\n"
            else:
                exp = model(n) + "\n"
            s.add(name, body, exp, [n], key=str(n))


if __name__ == "__main__":
    main(check, "C05", "after every scope exit the stored value renders exactly as built, and no reclaimed arena byte is read (poisoned under ASan)")
