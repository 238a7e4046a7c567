"""C12: arrays behave as sequences for every element type.

One interpreter body per element type executes random operation histories (operations arrive through argv) on arrays held
in locals, struct fields and reference parameters, printing the whole state after every step; a Python list model predicts
every line or the panic.  Value-dependent functions (search, sort, extrema, sums, equality, duplicates) and the
higher-order and reshaping ones are driven per element type over random index lists."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

INTS = {"int": (-(1 << 63), (1 << 63) - 1), "uint": (0, (1 << 64) - 1), "i8": (-128, 127), "i16": (-32768, 32767),
        "i32": (-(1 << 31), (1 << 31) - 1), "i64": (-(1 << 63), (1 << 63) - 1), "u8": (0, 255), "u16": (0, 65535),
        "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "byte": (0, 255),
        "i128": (-(1 << 127), (1 << 127) - 1), "u128": (0, (1 << 128) - 1), "i256": (-(1 << 255), (1 << 255) - 1), "u256": (0, (1 << 256) - 1)}
SHARED = """
const Pt struct {
    x int
    s string
}
const Color enum {
    RED
    GREEN
    BLUE
}
"""


class T:
    def __init__(self, name, lits, shows, sx="${x}", order=None, num=None, prim=True, key=None):
        self.name, self.lits, self.shows, self.sx, self.num, self.prim = name, lits, shows, sx, num, prim
        self.order = order                      # sort keys, or None when not orderable
        self.id = key or name

    def __len__(self):
        return len(self.lits)


def types():
    out = []
    for n, (lo, hi) in INTS.items():
        v = [0, 1, 7, hi, lo if lo else 2, hi - 1, lo + 5, 100]
        v = [100 if x == 0 and i else x for i, x in enumerate(v)]
        v[-1] = 3 if n != "int" else -256
        seen, w = set(), []
        for x in v:
            while x in seen:
                x = x + 9 if x + 9 <= hi else x - 9
            seen.add(x)
            w.append(x)
        lits = [f"{x}" if x >= 0 else ("-9223372036854775807 - 1" if x == -(1 << 63) else f"{x}") for x in w]
        if n in ("i128", "i256"):
            w = [0, 1, -1, 1 << 70, -(1 << 70), (1 << 64) - 1, 5, -9]
            lits = [str(x) for x in w]
        out.append(T(n, lits, [str(x) for x in w], order=w, num=w))
    fl = [0.5, -1.5, 2.25, 1000.5, -0.25, 3.75, 0.125, -8.5]
    for n in ("float", "f32", "f64"):
        out.append(T(n, [repr(x) for x in fl], [repr(x) for x in fl], order=fl, num=fl))
    out.append(T("bool", ["true", "false"], ["true", "false"]))
    ch = "azAZ09_~"
    out.append(T("char", [f"'{x}'" for x in ch], list(ch), order=[ord(x) for x in ch]))
    st = ["", "a", "ab", "hello world, a longer text", "b", "B", "zz", "\u00e9t\u00e9"]
    out.append(T("string", [lit(x) for x in st], st, order=[x.encode() for x in st]))
    out.append(T("Color", ["Color.RED", "Color.GREEN", "Color.BLUE"], ["0", "1", "2"]))
    pts = [(1, "a"), (2, "bb"), (-3, ""), (4, "dddd")]
    out.append(T("Pt", [f"Pt{{x: {a}, s: {lit(b)}}}" for a, b in pts], [f"{a}/{b}" for a, b in pts], "${x.x}/${x.s}", prim=False))
    out.append(T("[int]", ["{1}", "{2, 3}", "{4, 5, 6}"], ["{1}", "{2, 3}", "{4, 5, 6}"], "${x}", prim=False, key="ints"))
    out.append(T("[string]", ['{"a"}', '{"b", "cc"}', '{"", "ddd", "e"}'], ["a", "b,cc", ",ddd,e"], '${strings.join(x, ",")}', prim=False, key="strs"))
    out.append(T("map[string:int]", ['{"k": 1}', '{"k": 2, "m": 3}', '{"k": -5}'], ["1", "2", "-5"], '${x["k"]}', prim=False, key="maps"))
    return out


def decls(t):
    k, n = t.id, t.name
    vals = "\n".join(f"    mut v{i} {n} = {l}\n    arrays.append(r, v{i})" for i, l in enumerate(t.lits))
    step = f"""
do step_{k}(&a [{n}], &b [{n}], op int, i int, j int, v {n}) {{
    when op {{
        is 0 {{ arrays.append(a, v) }}
        is 1 {{ arrays.insert_at(a, i, v) }}
        is 2 {{ arrays.prepend(a, v) }}
        is 3 {{ arrays.remove_at(a, i) }}
        is 4 {{ a[i] = v }}
        is 5 {{ show1_{k}(arrays.remove_first(a)) }}
        is 6 {{ show1_{k}(arrays.remove_last(a)) }}
        is 7 {{ arrays.clear(a) }}
        is 8 {{ b = a }}
        is 9 {{ a = arrays.reverse(a) }}
        is 10 {{ a = arrays.slice(a, i, j) }}
        is 11 {{ a = arrays.concat(a, b) }}
        is 12 {{ show1_{k}(arrays.get_first(a)) }}
        is 13 {{ show1_{k}(arrays.get_last(a)) }}
        is 14 {{ show1_{k}(a[i]) }}
        is 15 {{
            mut t [{n}] = a
            a = b
            b = t
        }}
        is 16 {{ arrays.append(b, v) }}
        is 17 {{
            mut t [{n}] = copy(a)
            arrays.append(t, v)
            show_{k}(t)
        }}
        is 18 {{ take_{k}(a, v) }}
        is 19 {{ println("${{arrays.is_empty(a)}} ${{len(b)}}") }}
        default {{ println("?") }}
    }}
}}
"""
    go = f"""
do go_{k}(&h H_{k}, p [{n}], q int, n int) {{
    if q >= n {{ return }}
    mut v {n} = p[I(q * 4 + 3)]
    step_{k}(h.a, h.b, I(q * 4), I(q * 4 + 1), I(q * 4 + 2), v)
    show_{k}(h.a)
    show_{k}(h.b)
    go_{k}(h, p, q + 1, n)
}}
"""
    return f"""
const H_{k} struct {{
    a [{n}]
    b [{n}]
}}
do vals_{k}() -> [{n}] {{
    mut r [{n}] = {{}}
{vals}
    return r
}}
do show1_{k}(x {n}) {{ println("={t.sx}") }}
do show_{k}(a [{n}]) {{
    print(len(a))
    for_each x in a {{ print("|{t.sx}") }}
    println("")
}}
do take_{k}(a [{n}], v {n}) {{
    mut c [{n}] = a
    arrays.append(c, v)
    if len(c) > 1 {{ c[0] = v }}
    show_{k}(c)
}}
do build_{k}(from int, to int) -> [{n}] {{
    mut p [{n}] = vals_{k}()
    mut r [{n}] = {{}}
    for q in range(from, to) {{ arrays.append(r, p[I(q)]) }}
    return r
}}
{step}{go}
""" + f"do idf_{k}(x {n}) -> {n} {{ return x }}\ndo pred_{k}(x {n}) -> bool {{ return len(\"{t.sx}\") > 1 }}\ndo last_{k}(x {n}, y {n}) -> {n} {{ return y }}\n"


# every form runs the argv history: n triples (op, i, j, value index)
def form(t, f):
    k, n = t.id, t.name
    pre = f"mut p [{n}] = vals_{k}()\n    mut n int = N() / 4\n    "
    loop = "for q in range(0, n) {\n        mut op int = I(q * 4)\n        mut i int = I(q * 4 + 1)\n        mut j int = I(q * 4 + 2)\n        mut v " + n + " = p[I(q * 4 + 3)]\n        %s\n    }\n"
    if f == "param":
        return pre + f"mut a [{n}] = {{}}\n    mut b [{n}] = {{}}\n    " + loop % f"step_{k}(a, b, op, i, j, v)\n        show_{k}(a)\n        show_{k}(b)"
    if f == "field":
        # recursion instead of a loop: references to members inside a loop are a property of C05
        return pre + f"mut h H_{k} = H_{k}{{a: {{}}, b: {{}}}}\n    go_{k}(h, p, 0, n)"
    a, b = ("a", "b") if f == "local" else ("h.a", "h.b")
    decl = f"mut a [{n}] = {{}}\n    mut b [{n}] = {{}}\n    " if f == "local" else f"mut h H_{k} = H_{k}{{a: {{}}, b: {{}}}}\n    "
    ops = [f"arrays.append({a}, v)", f"arrays.insert_at({a}, i, v)", f"arrays.prepend({a}, v)", f"arrays.remove_at({a}, i)", f"{a}[i] = v",
           f"show1_{k}(arrays.remove_first({a}))", f"show1_{k}(arrays.remove_last({a}))", f"arrays.clear({a})", f"{b} = {a}",
           f"{a} = arrays.reverse({a})", f"{a} = arrays.slice({a}, i, j)", f"{a} = arrays.concat({a}, {b})",
           f"show1_{k}(arrays.get_first({a}))", f"show1_{k}(arrays.get_last({a}))", f"show1_{k}({a}[i])",
           f"\n            mut t [{n}] = {a}\n            {a} = {b}\n            {b} = t\n        ", f"arrays.append({b}, v)",
           f"\n            mut t [{n}] = copy({a})\n            arrays.append(t, v)\n            show_{k}(t)\n        ", f"take_{k}({a}, v)",
           f'println("${{arrays.is_empty({a})}} ${{len({b})}}")']
    body = "when op {\n" + "\n".join(f"        is {i} {{ {o} }}" for i, o in enumerate(ops)) + '\n        default { println("?") }\n        }\n'
    return pre + decl + loop % (body + f"        show_{k}({a})\n        show_{k}({b})")


FORMS = ("param", "field", "local", "fieldlocal")
NOPS = 20


def history(rng, t, n, hostile):
    """-> (args, expectation)"""
    a, b, out, args = [], [], [], []
    S = t.shows

    def dump(x):
        out.append(str(len(x)) + "".join("|" + S[y] for y in x) + "\n")
    wgt = [8, 5, 3, 3, 5, 2, 2, 1, 3, 2, 2, 2, 2, 2, 3, 2, 3, 2, 2, 1]
    for s in range(n):
        op = rng.choices(range(NOPS), wgt)[0]
        if len(a) + len(b) > 60 and op == 11:
            op = 7
        v = rng.randrange(len(t))
        L = len(a)
        i, j = rng.randrange(0, L + 1), rng.randrange(0, L + 2)
        last = s == n - 1
        if op in (3, 4, 14):
            i = rng.randrange(L) if L else 0
        if last and hostile:
            op = rng.choice([1, 3, 4, 5, 6, 12, 13, 14])
            i = rng.choice([-1, L, L + 1, 1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63), 1 << 32, 0 if not L else L]) if op != 1 else \
                rng.choice([-1, L + 1, 1 << 33, -(1 << 62), (1 << 32) + (L and 1)])
        elif L == 0 and op in (3, 4, 5, 6, 12, 13, 14):
            op = 0
        if op == 10:
            i, j = rng.choice([i, 0, -3, L]), rng.choice([j, L, L + 5])
        args += [op, i, j, v]
        p = None
        if op == 0: a = a + [v]
        elif op == 1:
            if not 0 <= i <= L: p = "P0043"
            else: a = a[:i] + [v] + a[i:]
        elif op == 2: a = [v] + a
        elif op == 3:
            if not 0 <= i < L: p = "P0044"
            else: a = a[:i] + a[i + 1:]
        elif op == 4:
            if not 0 <= i < L: p = ("P0033", "P0003", "P0004", "P0002", "P0012", "P0005")
            else: a = a[:i] + [v] + a[i + 1:]
        elif op in (5, 6, 12, 13):
            if not L: p = {5: "P0047", 6: "P0048", 12: "P0045", 13: "P0046"}[op]
            else:
                out.append("=" + S[a[0] if op in (5, 12) else a[-1]] + "\n")
                if op == 5: a = a[1:]
                if op == 6: a = a[:-1]
        elif op == 7: a = []
        elif op == 8: b = list(a)
        elif op == 9: a = a[::-1]
        elif op == 10:
            lo, hi = max(i, 0), min(j, L)
            a = a[lo:hi] if lo < hi else []
        elif op == 11: a = a + b
        elif op == 14:
            if not 0 <= i < L: p = ("P0033", "P0003", "P0004", "P0002", "P0012", "P0005")
            else: out.append("=" + S[a[i]] + "\n")
        elif op == 15: a, b = b, a
        elif op == 16: b = b + [v]
        elif op == 17: dump(a + [v])
        elif op == 18:
            c = a + [v]
            if len(c) > 1: c[0] = v
            dump(c)
        elif op == 19: out.append(f"{'true' if not a else 'false'} {len(b)}\n")
        if p:
            return args, P(None, "".join(out))
        dump(a)
        dump(b)
    return args, "".join(out)


def dump(t, x):
    return str(len(x)) + "".join("|" + t.shows[y] for y in x) + "\n"


def check(c):
    rng = c.rng
    TS = types()
    s = Suite(c, "@arrays, @strings", SHARED, per=12)
    D = {t.id: decls(t) for t in TS}
    for t in TS:
        for f in FORMS:
            body = form(t, f)
            for h in range(c.scale(6, 60)):
                args, exp = history(rng, t, c.scale(rng.choice((5, 12, 25)), 40), h % 2)
                s.add(f"history {f}:{t.id}", body, exp, args, decls=D[t.id])

    def many(group, t, body, model, n, lens=(0, 1, 2, 3, 5, 9, 17), extra=None, dup=False):
        """argv = value indices of the array, then `extra` arguments read by the body at the end."""
        for q in range(n):
            L = rng.choice(lens)
            if q == 0: L = 0
            x = [rng.randrange(len(t)) for _ in range(L)]
            e = extra(x) if extra else []
            exp = model(x, *e)
            if exp is None:
                continue
            s.add(f"{group}:{t.id}", body, exp, x + e, decls=D[t.id])
    nq = c.scale(6, 40)
    B = lambda z: "true" if z else "false"
    for t in TS:
        k, n = t.id, t.name
        arr = f"mut p [{n}] = vals_{k}()\n    mut a [{n}] = build_{k}(0, N())\n    "
        arr1 = f"mut p [{n}] = vals_{k}()\n    mut a [{n}] = build_{k}(0, N() - 1)\n    mut v {n} = p[I(N() - 1)]\n    "
        pick = lambda x: [rng.choice(x) if x and rng.random() < .6 else rng.randrange(len(t))]
        if t.prim:
            many("contains", t, arr1 + "println(arrays.contains(a, v))", lambda x, v: B(v in x) + "\n", nq, extra=pick)
            many("index_of", t, arr1 + "println(arrays.index_of(a, v))", lambda x, v: f"{x.index(v) if v in x else -1}\n", nq, extra=pick)
            many("count", t, arr1 + "println(arrays.count(a, v))", lambda x, v: f"{x.count(v)}\n", nq, extra=pick)
            many("in", t, arr1 + "println(v in a)", lambda x, v: B(v in x) + "\n", nq, extra=pick)
            many("not_in", t, arr1 + "println(v not_in a)", lambda x, v: B(v not in x) + "\n", nq, extra=pick)

            def rem(x, v):
                y = list(x)
                if v in y: y.remove(v)
                return dump(t, y)
            many("remove", t, arr1 + f"arrays.remove(a, v)\n    show_{k}(a)", rem, nq, extra=pick)
            many("deduplicate", t, arr + f"mut d [{n}] = arrays.deduplicate(a)\n    show_{k}(d)\n    show_{k}(a)",
                 lambda x: dump(t, list(dict.fromkeys(x))) + dump(t, x), nq)
            if n == "string":
                # equal contents in distinct storage
                many("deduplicate distinct", t, arr + f"mut e [{n}] = {{}}\n    for_each y in a {{ arrays.append(e, \"${{y}}!\") }}\n    mut d [{n}] = arrays.deduplicate(e)\n    show_{k}(d)",
                     lambda x: f"{len(set(x))}" + "".join("|" + t.shows[y] + "!" for y in dict.fromkeys(x)) + "\n", nq)
            for q in range(nq * 2):
                L = rng.choice((0, 1, 2, 4, 8))
                x = [rng.randrange(len(t)) for _ in range(L)]
                y = list(x)
                if rng.random() < .6 and y:
                    y[rng.randrange(L)] = rng.randrange(len(t))
                if rng.random() < .2: y = y[:-1]
                if rng.random() < .1: y = y + [0]
                s.add(f"is_equal:{k}", f"mut m int = I(0)\n    mut a [{n}] = build_{k}(1, 1 + m)\n    mut b [{n}] = build_{k}(1 + m, N())\n    println(arrays.is_equal(a, b))",
                      B(x == y) + "\n", [L] + x + y, decls=D[k])
        if t.order:
            o = t.order
            for nm, rv in (("sort_asc", False), ("sort_desc", True)):
                many(nm, t, arr + f"arrays.{nm}(a)\n    show_{k}(a)", lambda x: dump(t, sorted(x, key=lambda z: o[z], reverse=rv)), nq, (0, 1, 2, 3, 7, 20, 60))
            if t.num:
                for nm, fn in (("get_min", min), ("get_max", max)):
                    many(nm, t, arr + f"println(arrays.{nm}(a))", lambda x: t.shows[fn(x, key=lambda z: o[z])] + "\n" if x else None, nq)

                def total(x):
                    z = sum((t.num[y] for y in x), 0)
                    if k in ("float", "f32", "f64"):
                        return tuple({f"{float(z)}\n", f"{float(z):g}\n"})
                    lo, hi = INTS[n]
                    acc = 0
                    for y in x:
                        acc += t.num[y]
                        if not lo <= acc <= hi:
                            return P() if not lo <= z <= hi else None
                    return f"{z}\n"
                many("get_sum", t, arr + "println(arrays.get_sum(a))", total, nq, (0, 1, 2, 3, 4))
        deep = k == "maps"      # [[map[..]]] is not a type the grammar accepts
        # fill: the reference says fill, the manual page says append; from an empty array both agree
        many("fill", t, f"mut p [{n}] = vals_{k}()\n    mut a [{n}] = {{}}\n    arrays.fill(a, p[I(0)], I(1))\n    show_{k}(a)",
             lambda x, v, m: dump(t, [v] * max(m, 0)), 4, (0,), lambda x: [rng.randrange(len(t)), rng.choice((0, 1, 3, 40, -1))])
        if not deep: many("split_every", t, arr1.replace(f"    mut v {n} = p[I(N() - 1)]\n", "    mut z int = I(N() - 1)\n").replace("p[I", "p[I") +
             f"mut r [{'[' + n + ']'}] = arrays.split_every(a, z)\n    print(len(r))\n    println(\"\")\n    for_each y in r {{ show_{k}(y) }}",
             lambda x, z: f"{-(-len(x) // z)}\n" + "".join(dump(t, x[i:i + z]) for i in range(0, len(x), z)), nq,
             extra=lambda x: [rng.choice((1, 2, 3, 5, 100))])
        if not deep: many("pair", t, f"mut h int = N() / 2\n    mut a [{n}] = build_{k}(0, h)\n    mut b [{n}] = build_{k}(h, N())\n    mut r [[{n}]] = arrays.pair(a, b)\n    for_each y in r {{ show_{k}(y) }}",
             lambda x: "".join(dump(t, [x[i], x[len(x) // 2 + i]]) for i in range(len(x) // 2)), nq)
        if not deep: many("flatten", t, f"mut h int = N() / 2\n    mut a [[{n}]] = {{}}\n    arrays.append(a, build_{k}(0, h))\n    arrays.append(a, build_{k}(0, 0))\n    arrays.append(a, build_{k}(h, N()))\n    mut r [{n}] = arrays.flatten(a)\n    show_{k}(r)",
             lambda x: dump(t, x), nq)
        # a value read as an element, stored, passed, iterated with index and via nested arrays
        if not deep: many("nested", t, f"mut a [[{n}]] = {{}}\n    for q in range(0, N()) {{\n        mut r [{n}] = build_{k}(0, q + 1)\n        arrays.append(a, r)\n    }}\n    for_each y in a {{ show_{k}(y) }}\n    if len(a) > 1 {{\n        a[1][0] = a[0][0]\n        a[0] = a[1]\n        arrays.append(a[1], a[0][0])\n        show_{k}(a[0])\n        show_{k}(a[1])\n    }}",
             lambda x: "".join(dump(t, x[:i + 1]) for i in range(len(x))) + (dump(t, x[:2]) + dump(t, x[:2] + x[:1]) if len(x) > 1 else ""), nq)
        many("map filter any all", t, arr + f"mut m [{n}] = arrays.map(a, ()idf_{k})\n    show_{k}(m)\n    mut f [{n}] = arrays.filter(a, ()pred_{k})\n    show_{k}(f)\n    println(\"${{arrays.any(a, ()pred_{k})}} ${{arrays.all(a, ()pred_{k})}}\")",
             lambda x: dump(t, x) + (lambda f: dump(t, f) + f"{B(f)} {B(len(f) == len(x))}\n")([y for y in x if len(t.shows[y].encode() if k != 'char' else t.shows[y]) > 1]), nq)
        many("reduce", t, arr + f"show1_{k}(arrays.reduce(a, p[0], ()last_{k}))", lambda x: "=" + t.shows[x[-1] if x else 0] + "\n", nq)

    # modification during iteration, and iteration itself
    MOD = {"arrays.append(a, 9)": 1, "arrays.insert_at(a, 0, 9)": 1, "arrays.prepend(a, 9)": 1, "arrays.remove_at(a, 0)": 1, "arrays.remove(a, 1)": 1,
           "arrays.clear(a)": 1, "arrays.sort_asc(a)": 1, "arrays.sort_desc(a)": 1, "mut z int = arrays.remove_first(a)": 1, "mut z int = arrays.remove_last(a)": 1,
           "arrays.fill(a, 9, 2)": 1, "a[0] = 9": 1, "a[0] += 9": 1, "a[0]++": 1}
    for m in MOD:
        for fm, (pre, post) in {"local": ("mut a [int] = {1, 2, 3}\n    for_each x in a {\n        println(x)\n        ", "\n    }"),
                                "nested loop": ("mut a [int] = {1, 2, 3}\n    for_each x in a {\n        println(x)\n        for q in range(0, 1) {\n            ", "\n        }\n    }"),
                                "branch": ("mut a [int] = {1, 2, 3}\n    for_each x in a {\n        println(x)\n        if x == 1 {\n            ", "\n        }\n    }"),
                                "through reference": (f"mut a [int] = {{1, 2, 3}}\n    for_each x in a {{\n        println(x)\n        modref(a)\n", "\n    }")}.items():
            body = pre + ("" if fm == "through reference" else m) + post
            d = "do modref(&a [int]) {\n    " + m + "\n}\n" if fm == "through reference" else ""
            s.add(f"iterate modify {fm}:{m}", body, P("P0034", "1\n"), (), key=m, decls=d)
    for m in MOD:
        if m == "arrays.remove(a, 1)":
            m = "arrays.remove(a, 2)"
        s.add(f"iterate modify after break:{m}", f"mut a [int] = {{1, 2, 3}}\n    for_each x in a {{\n        if x == 2 {{ break }}\n    }}\n    {m}\n    println(len(a))",
              lambda r: r.rc == 0, (), key=m)
        s.add(f"iterate modify after return:{m}", f"mut a [int] = {{1, 2, 3}}\n    println(first(a))\n    {m}\n    println(len(a))",
              lambda r: r.rc == 0, (), key=m, decls="do first(&a [int]) -> int {\n    for_each x in a {\n        if x == 2 { return x }\n    }\n    return 0\n}\n")
        s.add(f"iterate modify copy:{m}", f"mut o [int] = {{1, 2, 3}}\n    for_each x in o {{\n        mut a [int] = o\n        {m}\n        print(len(a))\n    }}\n    println(o)",
              lambda r: r.rc == 0 and r.text.endswith("{1, 2, 3}\n"), (), key=m)
    s.run((("plain", 1), ("asan", c.scale(5, 1))))


if __name__ == "__main__":
    main(check, "C12", "case = one executed history or call on one element type; nontrivial when distinct (group, arguments)")
