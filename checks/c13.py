"""C13: maps behave as finite partial functions for every key and value type.

Random operation histories (argv) run on maps held in locals, struct fields and reference parameters for every key type and
every value type; the whole map is printed after every step (for_each as a set, get_keys/get_values in insertion order) and
a Python dict predicts every line, or the panic.  Further families: mutation while iterating, nested maps, growth and
tombstone churn over thousands of keys, early exits from loops over maps."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c12 import types, INTS, SHARED

OPS = 16


def combos(quick):
    T = {t.id: t for t in types()}
    keys = list(INTS) + ["float", "bool", "char", "string"]
    out = [(T[k], T["int"]) for k in keys] + [(T[k], T["string"]) for k in ("int", "i16", "u64", "float", "i128")]
    out += [(T["string"], v) for v in T.values()] + [(T["int"], T[v]) for v in ("Pt", "bool", "u8", "maps", "ints", "float")]
    seen, r = set(), []
    for k, v in out:
        if (k.id, v.id) not in seen:
            seen.add((k.id, v.id))
            r.append((k, v))
    return r


def decls(k, v):
    n = f"{k.id}_{v.id}"
    m = f"map[{k.name}:{v.name}]"
    ks = "\n".join(f"    mut k{i} {k.name} = {l}\n    arrays.append(r, k{i})" for i, l in enumerate(k.lits))
    vs = "\n".join(f"    mut v{i} {v.name} = {l}\n    arrays.append(r, v{i})" for i, l in enumerate(v.lits))
    return n, m, f"""
const H_{n} struct {{
    a {m}
    b {m}
}}
do ks_{n}() -> [{k.name}] {{
    mut r [{k.name}] = {{}}
{ks}
    return r
}}
do vs_{n}() -> [{v.name}] {{
    mut r [{v.name}] = {{}}
{vs}
    return r
}}
do one_{n}(x {v.name}) {{ println("={v.sx}") }}
do show_{n}(a {m}) {{
    print("M ${{len(a)}}")
    for_each k, x in a {{ print("|${{k}}:{v.sx}") }}
    println("")
    print("K")
    mut ka [{k.name}] = maps.get_keys(a)
    for_each k in ka {{ print("|${{k}}") }}
    println("")
    print("V")
    mut va [{v.name}] = maps.get_values(a)
    for_each x in va {{ print("|{v.sx}") }}
    println("")
}}
do take_{n}(a {m}, k {k.name}, v {v.name}) {{
    mut c {m} = a
    c[k] = v
    show_{n}(c)
}}
do step_{n}(&a {m}, &b {m}, op int, k {k.name}, v {v.name}) {{
    when op {{
{arms(n, m, k, v, "a", "b")}
        default {{ println("?") }}
    }}
}}
do go_{n}(&h H_{n}, ka [{k.name}], va [{v.name}], q int, n int) {{
    if q >= n {{ return }}
    mut k {k.name} = ka[I(q * 3 + 1)]
    mut v {v.name} = va[I(q * 3 + 2)]
    step_{n}(h.a, h.b, I(q * 3), k, v)
    show_{n}(h.a)
    show_{n}(h.b)
    go_{n}(h, ka, va, q + 1, n)
}}
"""


def arms(n, m, k, v, a, b):
    ops = [f"{a}[k] = v", f"maps.remove_key({a}, k)", f"maps.clear({a})", f"one_{n}({a}[k])",
           f'println("${{maps.has_key({a}, k)}} ${{k in {a}}} ${{k not_in {a}}}")', f"one_{n}(maps.get_or_default({a}, k, v))",
           f'println("${{len({b})}} ${{maps.is_empty({a})}}")', f"{b} = {a}", f"{a} = maps.merge({a}, {b})", f"{b}[k] = v",
           f"\n            mut t {m} = copy({a})\n            t[k] = v\n            show_{n}(t)\n        ", f"take_{n}({a}, k, v)",
           f"\n            mut t {m} = {a}\n            {a} = {b}\n            {b} = t\n        ",
           f"\n            mut t {m} = {{k: v}}\n            {b} = maps.merge(t, {a})\n        "]
    if v.prim:
        ops += [f"println(maps.contains_value({a}, v))", f"println(maps.is_equal({a}, {b}))"]
    else:
        ops += ["println(1)"] * 2
    return "\n".join(f"        is {i} {{ {o} }}" for i, o in enumerate(ops))


def form(n, m, k, v, f):
    pre = f"mut ka [{k.name}] = ks_{n}()\n    mut va [{v.name}] = vs_{n}()\n    mut n int = N() / 3\n    "
    loop = f"for q in range(0, n) {{\n        mut op int = I(q * 3)\n        mut k {k.name} = ka[I(q * 3 + 1)]\n        mut v {v.name} = va[I(q * 3 + 2)]\n        %s\n    }}\n"
    if f == "param":
        return pre + f"mut a {m} = {{:}}\n    mut b {m} = {{:}}\n    " + loop % f"step_{n}(a, b, op, k, v)\n        show_{n}(a)\n        show_{n}(b)"
    if f == "field":
        return pre + f"mut h H_{n} = H_{n}{{a: {{:}}, b: {{:}}}}\n    go_{n}(h, ka, va, 0, n)"
    a, b = ("a", "b") if f == "local" else ("h.a", "h.b")
    d = f"mut a {m} = {{:}}\n    mut b {m} = {{:}}\n    " if f == "local" else f"mut h H_{n} = H_{n}{{a: {{:}}, b: {{:}}}}\n    "
    body = "when op {\n" + arms(n, m, k, v, a, b) + '\n        default { println("?") }\n        }\n'
    return pre + d + loop % (body + f"        show_{n}({a})\n        show_{n}({b})")


class Maps:
    """Lines starting with M compare as sets of entries (iteration order is unspecified), every other line exactly."""
    def __init__(self, text, code=None):
        self.text, self.code = text, code

    def norm(self, t):
        out = []
        for l in t.split("\n"):
            if l.startswith("M "):
                p = l.split("|")
                l = p[0] + "|" + "|".join(sorted(p[1:]))
            out.append(l)
        return "\n".join(out)

    def __call__(self, r):
        if self.code:
            if not (r.rc == 1 and r.panic == self.code):
                return False
        elif r.rc != 0:
            return False
        return self.norm(r.text) == self.norm(self.text)

    @property
    def __doc__(self):
        return (f"panic {self.code} after " if self.code else "") + self.text[-600:]


def history(rng, k, v, n, hostile):
    a, b, out, args = {}, {}, [], []
    SK, SV = k.shows, v.shows
    nk = len(k) if rng.random() < .6 else min(len(k), 3)

    def dump(x):
        out.append(f"M {len(x)}" + "".join(f"|{SK[y]}:{SV[z]}" for y, z in x.items()) + "\n")
        out.append("K" + "".join("|" + SK[y] for y in x) + "\n")
        out.append("V" + "".join("|" + SV[z] for z in x.values()) + "\n")
    B = lambda z: "true" if z else "false"
    for s in range(n):
        op = rng.choices(range(OPS), [12, 6, 1, 4, 3, 3, 1, 2, 2, 3, 2, 2, 1, 1, 2, 2])[0]
        ki, vi = rng.randrange(nk), rng.randrange(len(v))
        if op == 3 and ki not in a and not (hostile and s == n - 1):
            if not a: op = 0
            else: ki = rng.choice(list(a))
        if hostile and s == n - 1:
            op = 3
        args += [op, ki, vi]
        if op == 0: a[ki] = vi
        elif op == 1: a.pop(ki, None)
        elif op == 2: a = {}
        elif op == 3:
            if ki not in a: return args, Maps("".join(out), "P0081")
            out.append("=" + SV[a[ki]] + "\n")
        elif op == 4: out.append(f"{B(ki in a)} {B(ki in a)} {B(ki not in a)}\n")
        elif op == 5: out.append("=" + SV[a.get(ki, vi)] + "\n")
        elif op == 6: out.append(f"{len(b)} {B(not a)}\n")
        elif op == 7: b = dict(a)
        elif op == 8: a = {**a, **b}
        elif op == 9: b[ki] = vi
        elif op == 10: dump({**a, ki: vi})
        elif op == 11: dump({**a, ki: vi})
        elif op == 12: a, b = b, a
        elif op == 13: b = {ki: vi, **a}
        elif not v.prim: out.append("1\n")
        elif op == 14: out.append(B(vi in a.values()) + "\n")
        elif op == 15: out.append(B(a == b) + "\n")
        dump(a)
        dump(b)
    return args, Maps("".join(out))


DECL2 = """
const HM struct {
    m map[string:int]
    l [map[string:int]]
    n map[string:map[string:int]]
}
do ch(&m map[string:int], how int, k string) {
    when how {
        is 0 { m[k] = 1 }
        is 1 { maps.remove_key(m, "b") }
        is 2 { maps.clear(m) }
        default { }
    }
}
do early(&m map[string:int], stop string) -> int {
    for_each k, v in m {
        if k == stop { return v }
    }
    return -1
}
do fails(m map[string:int]) -> (int, Error) {
    for_each k, v in m {
        mut x = strconv.to_int(k) or_return -7, error("bad ${v}")
        if x > 100 { return x, nil }
    }
    return 0, nil
}
"""


def mutation(s):
    """for_each over a map: the map named by the loop may not change until the loop ends, and may again afterwards."""
    tgt = {"local": ("mut m map[string:int] = {\"a\": 1, \"b\": 2, \"c\": 3}", "m"),
           "field": ("mut h HM = HM{m: {\"a\": 1, \"b\": 2, \"c\": 3}, l: {}, n: {:}}", "h.m"),
           "pointer": ("mut p ^HM = new(HM)\n    p^.m = {\"a\": 1, \"b\": 2, \"c\": 3}", "p^.m")}
    act = {"insert": '{m}["zz"] = 1', "remove": 'maps.remove_key({m}, "b")', "clear": "maps.clear({m})", "by reference insert": 'ch({m}, 0, "q")',
           "by reference remove": 'ch({m}, 1, "b")', "by reference clear": 'ch({m}, 2, "q")'}
    heads = {"kv": "for_each k, v in {m}", "k": "for_each k in {m}", "v": "for_each _, v in {m}"}
    for tn, (d, m) in tgt.items():
        for an, a in act.items():
            for hn, h in heads.items():
                h_, a_ = h.format(m=m), a.format(m=m)
                s.add(f"mutation while iterating {tn}", f"{d}\n    println(1)\n    {h_} {{\n        {a_}\n    }}\n    println(2)", P("P0035", "1\n"), key=f"{an} {hn}")
                s.add(f"mutation in nested loop {tn}", f"{d}\n    {h_} {{\n        for_each z in {m} {{ if z == \"none\" {{ println(z) }} }}\n        if {m}[\"c\"] == 3 {{ {a_} }}\n    }}\n    println(2)", P("P0035", ""), key=f"{an} {hn}")
                end = {"insert": "4", "remove": "2", "clear": "0", "by reference insert": "4", "by reference remove": "2", "by reference clear": "0"}[an]
                s.add(f"mutation after break {tn}", f"{d}\n    {h_} {{ break }}\n    {h_} {{ continue }}\n    {a_}\n    println(len({m}))", end + "\n", key=f"{an} {hn}")
    for an, a in list(act.items()):
        end = {"insert": "4", "remove": "2", "clear": "0"}[an.split()[-1]]
        s.add("mutation after return", f"mut m map[string:int] = {{\"a\": 1, \"b\": 2, \"c\": 3}}\n    println(early(m, \"b\"))\n    {a.format(m='m')}\n    println(len(m))", f"2\n{end}\n", key=an)
        s.add("mutation of another map", f"mut m map[string:int] = {{\"a\": 1, \"b\": 2, \"c\": 3}}\n    mut o map[string:int] = copy(m)\n    for_each k in o {{\n        {a.format(m='m')}\n        if k == \"none\" {{ println(k) }}\n    }}\n    println(len(m))", f"{end}\n", key=an)
    s.add("mutation after return", 'mut m map[string:int] = {"x": 1, "b": 2}\n    mut r, e = fails(m)\n    println("${r} ${e.message}")\n    m["q"] = 1\n    println(len(m))', "-7 bad 1\n3\n", key="or_return")
    s.add("read while iterating", 'mut m map[string:int] = {"a": 1, "b": 2}\n    mut t int = 0\n    for_each k in m {\n        for_each j, w in m { t += m[k] * w }\n        t += len(maps.get_keys(m))\n    }\n    println(t)', "13\n")


def churn(s, rng, n):
    """Insert, overwrite and delete thousands of keys; checks the count, a content checksum and membership of every key."""
    body = """mut m map[KT:int] = {:}
    mut seed int = I(0)
    mut n int = I(1)
    mut span int = I(2)
    mut sum int = 0
    for q in range(0, n) {
        seed = (seed * 1103515245 + 12345) % 2147483648
        mut k KT = CONV
        when (seed / 65536) % 4 {
            is 0 {
                if k in m { sum -= m[k] }
                maps.remove_key(m, k)
            }
            default {
                if maps.has_key(m, k) { sum -= m[k] }
                m[k] = q
                sum += q
            }
        }
    }
    mut t int = 0
    mut c int = 0
    for_each k, v in m {
        t += v
        if m[k] == v { c++ }
    }
    println("${len(m)} ${sum} ${t} ${c} ${len(maps.get_keys(m))} ${len(maps.get_values(m))}")"""

    def model(seed, n, span):
        m = {}
        for q in range(n):
            seed = (seed * 1103515245 + 12345) % 2147483648
            k = (seed // 4) % span
            if (seed // 65536) % 4 == 0: m.pop(k, None)
            else: m[k] = q
        t = sum(m.values())
        return f"{len(m)} {t} {t} {len(m)} {len(m)} {len(m)}\n"
    conv = {"int": "(seed / 4) % span", "string": '"key ${(seed / 4) % span}"', "i128": "cast((seed / 4) % span, i128)", "float": "cast((seed / 4) % span, float)",
            "u16": "cast((seed / 4) % span, u16)", "u256": "cast((seed / 4) % span, u256)"}
    for kt, cv in conv.items():
        b = body.replace("KT", kt).replace("CONV", cv)
        for span in (1, 3, 8, 9, 60, 900, 5000):
            for _ in range(n):
                e = rng.randrange(1 << 31)
                s.add(f"churn {kt}", b, model(e, 4000, span), [e, 4000, span])


def misc(s):
    D = 'mut h HM = HM{m: {"a": 1}, l: {{"k": 1}}, n: {"o": {"i": 1}}}\n    '
    A = lambda g, b, e: s.add(g, b, e)
    A("nested map", D + 'h.n["p"] = {"z": 5}\n    h.n["o"]["j"] = 2\n    println(h.n["o"]["j"] + h.n["p"]["z"])\n    println(len(h.n["o"]))', "7\n2\n")
    A("nested map", D + 'mut c map[string:int] = h.n["o"]\n    c["new"] = 9\n    println(len(h.n["o"]))', "1\n")
    A("nested map", D + 'println(h.n["missing"]["x"])', P("P0081", ""))
    A("nested map", D + 'println(h.n["o"]["x"])', P("P0081", ""))
    A("nested map", D + 'maps.remove_key(h.n["o"], "i")\n    println(len(h.n["o"]))', "0\n")
    A("nested map", D + 'for_each k, v in h.n { println("${k} ${v["i"]}") }', "o 1\n")
    A("map in array", D + 'h.l[0]["k"] += 4\n    arrays.append(h.l, {"k": 7})\n    println("${h.l[0]["k"]} ${h.l[1]["k"]} ${len(h.l)}")', "5 7 2\n")
    A("map in array", D + 'for_each m in h.l { for_each k, v in m { println("${k}${v}") } }', "k1\n")
    for op, r in (("+= 5", 12), ("-= 5", 2), ("*= 3", 21), ("/= 2", 3), ("%= 4", 3)):
        A("compound assignment", f'mut m map[string:int] = {{"a": 7, "b": 1}}\n    m["a"] {op}\n    println("${{m["a"]}} ${{m["b"]}} ${{len(m)}}")', f"{r} 1 2\n")
        A("compound assignment missing key", f'mut m map[string:int] = {{"a": 7}}\n    println(0)\n    m["z"] {op}\n    println(m)', P("P0081", "0\n"))
    A("compound assignment", 'mut m map[string:int] = {"a": 7}\n    m["a"]++\n    m["a"]++\n    m["a"]--\n    println(m["a"])', "8\n")
    A("compound assignment", 'mut m map[int:float] = {1: 0.5}\n    m[1] += 2\n    println(m[1])', "2.5\n")
    A("compound overflow", 'mut m map[int:u8] = {1: 250}\n    println(0)\n    m[1] += 6\n    println(m[1])', P(("P0015", "P0079"), "0\n"))
    A("literal", 'mut k string = "a"\n    mut m map[string:int] = {"a": 1, "b": 2, k: 3}\n    println("${len(m)} ${m["a"]}")', ("2 3\n",))
    A("float keys", "mut z float = 0.0\n    mut m map[float:int] = {0.0: 1}\n    m[-z] = 2\n    println(\"${len(m)} ${m[0.0]}\")", "1 2\n")
    A("float values", "mut a map[float:float] = {1.5: 0.0}\n    mut z float = 0.0\n    mut b map[float:float] = {1.5: -z}\n    println(\"${maps.is_equal(a, b)} ${maps.contains_value(b, 0.0)}\")", "true true\n")
    A("string keys by content", 'mut k string = "ab"\n    mut m map[string:string] = {"ab": "xy", "c": "d"}\n    mut w string = "x"\n    println("${m["${"a"}b"]} ${maps.contains_value(m, "${w}y")} ${maps.has_key(m, k)}")', "xy true true\n")
    A("string keys with NUL", 'mut b string = strings.from_chars({\'a\', \'\\0\', \'b\'})\n    mut c string = strings.from_chars({\'a\', \'\\0\', \'c\'})\n    mut m map[string:int] = {:}\n    m[b] = 1\n    m[c] = 2\n    m["a"] = 3\n    println("${len(m)} ${m[b]} ${m[c]} ${m["a"]}")', "3 1 2 3\n")
    A("long string keys", 'mut a string = strings.repeat("k", 5000)\n    mut m map[string:int] = {:}\n    m[a] = 1\n    m["${a}1"] = 2\n    m["${a}2"] = 3\n    println("${len(m)} ${m[a]} ${m["${a}2"]}")', "3 1 3\n")
    A("get_keys is a copy", 'mut m map[string:int] = {"a": 1}\n    mut k [string] = maps.get_keys(m)\n    arrays.append(k, "q")\n    k[0] = "w"\n    println("${len(m)} ${m["a"]}")', "1 1\n")
    A("merge leaves its arguments", 'mut a map[string:int] = {"a": 1, "c": 4}\n    mut b map[string:int] = {"a": 2, "b": 3}\n    mut c map[string:int] = maps.merge(a, b)\n    c["a"] = 9\n    println("${a["a"]} ${b["a"]} ${len(a)} ${len(b)} ${len(c)}")', "1 2 2 2 3\n")
    A("return and pass", 'mut m map[string:int] = mk("a", 3)\n    m["z"] = 1\n    println("${m["a"]} ${len(m)} ${len(mk("b", 1))} ${mk("c", 8)["c"]}")', "3 2 1 8\n")
    A("struct values", 'mut m map[string:Pt] = {"a": Pt{x: 1, s: "q"}}\n    m["a"].x = 5\n    mut p Pt = m["a"]\n    p.x = 7\n    println("${m["a"].x} ${m["a"].s}")', "5 q\n")
    A("missing struct field", 'mut m map[string:Pt] = {:}\n    println(0)\n    println(m["a"].x)', P("P0081", "0\n"))
    A("array values", 'mut m map[string:[int]] = {"a": {1, 2}}\n    m["a"][1] = 9\n    arrays.append(m["a"], 4)\n    println("${m["a"][1]} ${len(m["a"])}")', "9 3\n")


def check(c):
    s = Suite(c, "@maps, @arrays, @strings", SHARED + DECL2 + 'do mk(k string, v int) -> map[string:int] {\n    mut m map[string:int] = {k: v}\n    return m\n}\n', per=10)
    rng = c.rng
    forms = ("param", "field", "local", "fieldlocal")
    for k, v in combos(not c.thorough):
        n, m, d = decls(k, v)
        use = forms if c.thorough else rng.sample(forms, 2)
        for f in use:
            b = form(n, m, k, v, f)
            for h in range(c.scale(5, 40)):
                args, exp = history(rng, k, v, rng.choice((4, 10, 25, 60 if c.thorough else 30)), h % 3 == 1)
                s.add(f"history {f}:{k.id}:{v.id}", b, exp, args, decls=d)
    mutation(s)
    churn(s, rng, c.scale(1, 5))
    misc(s)
    s.run((("plain", 1), ("asan", c.scale(4, 1))))


if __name__ == "__main__":
    main(check, "C13", "a map agrees with a finite partial function after every operation of every history")
