"""C09: calls bind, default, name and return values as declared.

Random signatures (types, defaults, `&`, named and grouped parameters) are called through every route the language has
(free function, module-struct function, instance, reference, typed func parameter, container and field of references,
generic); the callee reports what it received, the caller what came back and what became of its own variables, and
everything is compared with the binding rules of the standard."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from suite import Suite, P

# type -> [(expression, what println shows)]
T = {
    "int": [("5", "5"), ("-9223372036854775807", "-9223372036854775807"), ("0", "0"), ("77", "77"), ("9223372036854775807", "9223372036854775807")],
    "uint": [("cast(7, uint)", "7"), ("cast(9223372036854775807, uint)", "9223372036854775807"), ("cast(0, uint)", "0")],
    "i8": [("cast(-128, i8)", "-128"), ("cast(127, i8)", "127"), ("cast(3, i8)", "3")], "u8": [("cast(255, u8)", "255"), ("cast(1, u8)", "1"), ("cast(0, u8)", "0")],
    "i16": [("cast(-32768, i16)", "-32768"), ("cast(1234, i16)", "1234")], "u16": [("cast(65535, u16)", "65535"), ("cast(9, u16)", "9")],
    "i32": [("cast(-2147483648, i32)", "-2147483648"), ("cast(88, i32)", "88")], "u32": [("cast(4294967295, u32)", "4294967295"), ("cast(2, u32)", "2")],
    "byte": [("cast(200, byte)", "200"), ("cast(0, byte)", "0")],
    "i128": [("cast(12345678901234567, i128)", "12345678901234567"), ("cast(-1, i128)", "-1")], "u256": [("cast(99, u256)", "99"), ("cast(0, u256)", "0")],
    "float": [("2.5", "2.5"), ("-0.25", "-0.25"), ("0.0", "0.0"), ("1000000.5", "1000000.5")],
    "bool": [("true", "true"), ("false", "false")], "char": [("'q'", "q"), ("'Z'", "Z")],
    "string": [('"plain"', "plain"), ('""', ""), ('"héy"', "héy"), ('"a\\nb"', "a\nb")],
    "[int]": [("{1, 2, 3}", "{1, 2, 3}"), ("{}", "{}"), ("{-4}", "{-4}")], "[string]": [('{"a", "b"}', '{"a", "b"}'), ('{""}', '{""}')],
    "[[int]]": [("{{1}, {2, 3}}", "{{1}, {2, 3}}"), ("{{9}}", "{{9}}")], "[Box]": [('{Box{n: 1, s: "x"}}', '{Box{n: 1, s: "x"}}')],
    "[float]": [("{1.5, 2.25}", "{1.5, 2.25}"), ("{}", "{}")],
    "[string:int]": [('{"k": 4}', '{"k": 4}'), ('{"z": -1}', '{"z": -1}')], "[int:[string]]": [('{1: {"u", "v"}}', '{1: {"u", "v"}}')],
    "Box": [('Box{n: 3, s: "in"}', 'Box{n: 3, s: "in"}'), ('Box{n: -1, s: ""}', 'Box{n: -1, s: ""}')],
    "Nest": [('Nest{b: Box{n: 8, s: "nb"}, l: {4, 5}}', 'Nest{b: Box{n: 8, s: "nb"}, l: {4, 5}}')],
    "Col": [("Col.RED", "0"), ("Col.BLUE", "7")],
}
DEF = """const Col enum {
    RED
    BLUE = 7
}
const Box struct {
    n int
    s string
}
const Nest struct {
    b Box
    l [int]
}
"""
PRIM = ["int", "float", "string", "bool", "char"]
NARROW = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "byte": (0, 255), "uint": (0, 2**64 - 1)}


def other(rng, t, v):
    o = [x for x in T[t] if x != v]
    return rng.choice(o) if o else v


class Sig:
    def __init__(self, rng, n, allow_mut=True, first=None):
        self.p = []                                   # (name, type, default or None, mut)
        pool = ["a", "b2", "count", "double", "value", "x_1", "item", "int32_t_", "val", "self", "long", "g", "result", "tmp", "_u", "argv"]
        rng.shuffle(pool)
        types = list(T)
        ndef = rng.choice((0, 0, 1, 2, n))
        for i in range(n):
            t = rng.choice(types) if rng.random() < .6 else rng.choice(PRIM)
            d = None
            if i >= n - ndef:
                t = rng.choice(PRIM)
                d = rng.choice(T[t])
            m = allow_mut and d is None and rng.random() < .3
            self.p.append((pool[i % len(pool)] + ("" if i < len(pool) else str(i)), t, d, m))

    def text(self, rng):
        """parameter list, grouping neighbours of one type now and then"""
        out, i = [], 0
        while i < len(self.p):
            g = [i]
            if self.p[i][2] is None and rng.random() < .6:
                while g[-1] + 1 < len(self.p) and self.p[g[-1] + 1][1] == self.p[i][1] and self.p[g[-1] + 1][2] is None:
                    g.append(g[-1] + 1)
            names = ", ".join(("&" if self.p[j][3] else "") + self.p[j][0] for j in g)
            out.append(names + " " + self.p[i][1] + (" = " + self.p[i][2][0] if self.p[i][2] else ""))
            i = g[-1] + 1
        return ", ".join(out)


def args_for(rng, sig, body, want_names, skip=0):
    """argument text for parameters skip.., what each receives, and the caller variables behind `&` arguments"""
    recv, pos, named, refs = [None] * len(sig.p), [], [], []
    stop = rng.randrange(skip, len(sig.p) + 1) if want_names else len(sig.p)
    missing = False
    for i in range(skip, len(sig.p)):
        n, t, d, m = sig.p[i]
        v = rng.choice(T[t])
        if d is not None and (missing or rng.random() < .4) and (i < stop and all(q[2] is not None for q in sig.p[i:]) or i >= stop):
            recv[i] = d[1]
            missing = True
            if i < stop:
                stop = i                              # everything after is defaulted or named
            if want_names and rng.random() < .3:
                pass
            continue
        if missing and not want_names:
            recv[i] = d[1]
            continue
        recv[i] = v[1]
        if m:
            kind = rng.choice(("var", "var", "field", "elem", "value", "deep"))
            if t in ("[[int]]", "[Box]", "[int:[string]]", "Nest", "[string:int]", "[float]", "[int]", "[string]") and kind in ("elem", "value"):
                kind = "var"
            k = len(body)
            if kind == "var":
                body.append("    mut c%d %s = %s\n" % (k, t, v[0]))
                e = "c%d" % k
            elif kind == "field":
                body.append("    mut c%d = HOLD_%s{pre: 1, v: %s, post: 2}\n" % (k, tid(t), v[0]))
                e = "c%d.v" % k
            elif kind == "deep":
                body.append("    mut c%d = DEEP_%s{z: 3, h: HOLD_%s{pre: 1, v: %s, post: 2}}\n" % (k, tid(t), tid(t), v[0]))
                e = "c%d.h.v" % k
            elif kind == "elem":
                o = other(rng, t, v)
                body.append("    mut c%d [%s] = {%s, %s, %s}\n" % (k, t, o[0], v[0], o[0]))
                e = "c%d[1]" % k
            else:
                o = other(rng, t, v)
                body.append('    mut c%d [string:%s] = {"o": %s, "k": %s}\n' % (k, t, o[0], v[0]))
                e = 'c%d["k"]' % k
            refs.append((i, e, kind))
        else:
            e = v[0]
            if t.startswith("[") or rng.random() < .5:
                k = len(body)
                body.append("    mut c%d %s = %s\n" % (k, t, v[0]))
                e = "c%d" % k
                refs.append((i, e, "imm"))
        if i < stop:
            pos.append(e)
        else:
            named.append("%s: %s" % (n, e))
    rng.shuffle(named)
    return ", ".join(pos + named), recv, refs


def tid(t):
    return "".join(ch if ch.isalnum() else "_" for ch in t)


def holds():
    return "".join("const HOLD_%s struct {\n    pre int\n    v %s\n    post int\n}\nconst DEEP_%s struct {\n    z int\n    h HOLD_%s\n}\n" % (tid(t), t, tid(t), tid(t)) for t in T)


def signatures(c, s, n):
    for k in range(n):
        rng = random.Random(c.seed * 7919 + k)
        route = rng.choice(("free", "free", "static", "instance", "instance&", "instance^"))
        sig = Sig(rng, rng.choice((1, 2, 3, 3, 4, 6, 9)))
        rets = [rng.choice(list(T)) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)))]
        rv = [rng.choice(T[t]) for t in rets]
        named = len(rets) > 1 and rng.random() < .4 or len(rets) == 1 and rng.random() < .2
        used = {p[0] for p in sig.p}
        rn = ["r_%d" % i for i in range(len(rets))]
        shape = "" if not rets else " -> " + (("(" + ", ".join("%s %s" % z for z in zip(rn, rets)) + ")") if named else rets[0] if len(rets) == 1 else "(" + ", ".join(rets) + ")")
        fb, show = "", []
        news = {}
        for i, (pn, t, d, m) in enumerate(sig.p):
            fb += "    println(%s)\n" % pn
            if m:
                news[i] = other(rng, t, None)
                fb += "    %s = %s\n" % (pn, news[i][0])
            elif rng.random() < .5:
                o = other(rng, t, None)
                fb += "    mut loc%d %s = %s\n    loc%d = %s\n    println(loc%d)\n" % (i, t, pn, i, o[0], i)
                show.append((i, o[1]))
        for i, (t, v) in enumerate(zip(rets, rv)):
            fb += "    mut r_%d %s = %s\n" % (i, t, v[0])
        if rets:
            fb += "    return " + ", ".join(rn) + "\n"
        d, body = "", []
        head = "do fn%d(%s)%s {\n%s}\n"
        recvlines = []
        if route == "free":
            d = head % (k, sig.text(rng), shape, fb)
            callee = "fn%d" % k
        else:
            first = {"static": "", "instance": "me Own%d" % k, "instance&": "&me Own%d" % k, "instance^": "me ^Own%d" % k}[route]
            ownfb = "" if route == "static" else "    println(me.id)\n" + ("    me.id = 71\n" if route != "instance" else "")
            params = ", ".join(x for x in (first, sig.text(rng)) if x)
            m = head % (k, params, shape, ownfb + fb)
            d = "const Own%d struct {\n    id int\n" % k + "".join("    " + ln + "\n" for ln in m.rstrip("\n").split("\n")) + "}\n"
            if route == "static":
                callee = "Own%d.fn%d" % (k, k)
            else:
                body.append("    mut own = %s\n" % ("new(Own%d)" % k if route == "instance^" else "Own%d{id: 17}" % k) + ("    own.id = 17\n" if route == "instance^" else ""))
                callee = "own.fn%d" % k
        want_names = rng.random() < .5
        at, recv, refs = args_for(rng, sig, body, want_names)
        static_form = route in ("instance", "instance&") and rng.random() < .3
        if static_form:
            callee = "Own%d.fn%d" % (k, k)
            at = ", ".join(x for x in ("own", at) if x) if not (want_names and rng.random() < .0) else at
        out = "17\n" if route.startswith("instance") else ""
        shown = dict(show)
        for i in range(len(sig.p)):
            out += recv[i] + "\n"
            if i in shown:
                out += shown[i] + "\n"
        call = "%s(%s)" % (callee, at)
        keep = [i for i in range(len(rets)) if rng.random() < .85]
        if not rets:
            body.append("    %s\n" % call)
        elif len(rets) == 1 and rng.random() < .3:
            body.append("    println(%s)\n" % call)
            out += rv[0][1] + "\n"
            keep = []
        elif len(rets) > 1 and rng.random() < .25:
            body.append("    mut %s = %s\n" % (", ".join("q%d %s" % (i, rets[i]) for i in range(len(rets))), call))
            keep = list(range(len(rets)))
        else:
            if not keep:
                body.append("    _ = %s\n" % call if len(rets) == 1 else "    mut %s = %s\n" % (", ".join("_" if i else "q0" for i in range(len(rets))), call))
                if len(rets) > 1:
                    keep = [0]
            else:
                body.append("    mut %s = %s\n" % (", ".join("q%d" % i if i in keep else "_" for i in range(len(rets))), call))
        for i in keep:
            body.append("    println(q%d)\n" % i)
            out += rv[i][1] + "\n"
        for i, e, kind in refs:
            val = news[i][1] if i in news and kind != "imm" else recv[i]
            if "[" in e:                               # neighbours stay
                base = e.split("[")[0]
                body.append("    println(%s)\n" % e)
            else:
                body.append("    println(%s)\n" % e)
            out += val + "\n"
            if kind in ("field", "deep"):
                b = e[:-2]
                body.append("    println(%s.pre + %s.post)\n" % (b, b))
                out += "3\n"
        if route != "free" and route != "static":
            body.append("    println(own.id)\n")
            out += "17\n" if route == "instance" else "71\n"
        s.add("signature/" + route, "".join(body).strip(), out, key="%d parameters, %d results%s" % (len(sig.p), len(rets), ", named arguments" if want_names else ""), decls=d)


def returns(c, s):
    """every type through every route a value can return by"""
    for k, (t, vals) in enumerate(sorted(T.items())):
        a, b = vals[0], vals[-1]
        n = tid(t)
        d = ("do id_%s(x %s) -> %s {\n    return x\n}\n" % (n, t, t)
             + "do gen_%s(x ?) -> ? {\n    return x\n}\n" % n
             + "do viafn_%s(f func(%s) -> %s, x %s) -> %s {\n    return f(x)\n}\n" % (n, t, t, t, t)
             + "do pair_%s(x %s, y %s) -> (%s, %s) {\n    return y, x\n}\n" % (n, t, t, t, t)
             + "do err_%s(x %s, bad bool) -> (%s, Error) {\n    if bad { return x, error(\"no\") }\n    return x, nil\n}\n" % (n, t, t)
             + "do both_%s(x %s) -> (%s, int) {\n    mut _, q = pair_%s(x, %s)\n    return q, 5\n}\n" % (n, t, t, n, b[0])
             + "do deep_%s(x %s, n int) -> %s {\n    if n == 0 { return x }\n    return deep_%s(x, n - 1)\n}\n" % (n, t, t, n)
             + "do loc_%s() -> %s {\n    for i in range(0, 3) {\n        if i == 1 {\n            mut v %s = %s\n            return v\n        }\n    }\n    return %s\n}\n" % (n, t, t, a[0], b[0])
             + "do set_%s(&x %s, v %s) {\n    x = v\n}\n" % (n, t, t)
             + "do fwd_%s(&x %s, v %s) {\n    set_%s(x, v)\n}\n" % (n, t, t, n)
             + "do two_%s(&x, &y %s) {\n    mut t %s = x\n    x = y\n    y = t\n}\n" % (n, t, t)
             + "const Fn_%s struct {\n    f func(%s) -> %s\n    k int\n}\n" % (n, t, t)
             + "const Me_%s struct {\n    v %s\n    do get(m Me_%s) -> %s {\n        return m.v\n    }\n    do put(&m Me_%s, v %s) {\n        m.v = v\n    }\n    do swap(&m Me_%s, v %s) -> %s {\n        mut o %s = m.v\n        m.v = v\n        return o\n    }\n}\n" % (n, t, n, t, n, t, n, t, t, t))
        V = "    mut a %s = %s\n    mut b %s = %s\n" % (t, a[0], t, b[0])
        A, B = a[1] + "\n", b[1] + "\n"
        def R(group, body, want):
            s.add("route/" + group, V + body, want, key=t, decls=d)
        R("function", "    mut r = id_%s(a)\n    println(r)\n    println(id_%s(id_%s(b)))\n" % (n, n, n), A + B)
        R("literal argument", "    println(id_%s(%s))\n" % (n, a[0]), A)
        R("generic", "    mut r = gen_%s(a)\n    println(r)\n    println(gen_%s(b))\n" % (n, n), A + B)
        R("reference", "    const f = ()id_%s\n    mut r = f(a)\n    println(r)\n    println(f(b))\n    println(()id_%s(a))\n" % (n, n), A + B + A)
        R("typed reference", "    const f func(%s) -> %s = ref(id_%s)\n    mut r %s = f(a)\n    println(r)\n" % (t, t, n, t), A)
        R("func parameter", "    println(viafn_%s(()id_%s, a))\n    const f = ()id_%s\n    println(viafn_%s(f, b))\n" % (n, n, n, n), A + B)
        R("func field", "    const w = Fn_%s{f: ()id_%s, k: 2}\n    mut r = w.f(a)\n    println(r)\n    println(w.f(b))\n" % (n, n), A + B)
        R("func array", "    const fs [func, 2] = {()id_%s, ()loc_%s}\n    mut r %s = fs[0](a)\n    println(r)\n" % (n, n, t), A)
        R("func map", "    mut m [string:func] = {:}\n    m[\"k\"] = ()id_%s\n    mut r %s = m[\"k\"](a)\n    println(r)\n" % (n, t), A)
        R("two results", "    mut p, q = pair_%s(a, b)\n    println(p)\n    println(q)\n    println(a)\n    println(b)\n" % n, B + A + A + B)
        R("result and error", "    mut p, e = err_%s(a, false)\n    println(p)\n    println(e == nil)\n    mut q, e2 = err_%s(b, true)\n    println(q)\n    println(e2 == nil)\n" % (n, n), A + "true\n" + B + "false\n")
        R("results passed on", "    mut p, q = both_%s(a)\n    println(p)\n    println(q)\n" % n, A + "5\n")
        R("deep recursion", "    mut r = deep_%s(a, 200)\n    println(r)\n" % n, A)
        R("local of a nested scope", "    mut r = loc_%s()\n    println(r)\n" % n, A)
        R("& parameter", "    set_%s(a, b)\n    println(a)\n    println(b)\n    fwd_%s(b, %s)\n    println(b)\n" % (n, n, a[0]), B + B + A)
        R("& swap", "    two_%s(a, b)\n    println(a)\n    println(b)\n" % n, B + A)
        R("method", "    mut m = Me_%s{v: a}\n    mut r = m.get()\n    println(r)\n    m.put(b)\n    println(m.v)\n    println(r)\n    mut o = m.swap(a)\n    println(o)\n    println(m.v)\n    println(Me_%s.get(m))\n" % (n, n), A + B + A + B + A + A)
        # the value returned, passed and kept are independent of each other
        grow = {"[int]": "arrays.append(a, 42)", "[string]": 'arrays.append(a, "w")', "[float]": "arrays.append(a, 4.5)", "[[int]]": "arrays.append(a[0], 6)", "[string:int]": 'a["new"] = 3', "Box": "a.n = 500", "Nest": "a.b.n = 500", "[Box]": "a[0].n = 500", "string": 'a = "changed"', "int": "a = 1234567"}.get(t)
        if grow:
            R("independence", "    mut r = id_%s(a)\n    mut g = gen_%s(a)\n    mut p, q = pair_%s(a, a)\n    const f = ()id_%s\n    mut h = f(a)\n    %s\n    println(r)\n    println(g)\n    println(p)\n    println(q)\n    println(h)\n    mut keep = id_%s(r)\n    %s\n    println(keep)\n" % (n, n, n, n, grow, n, grow.replace("a", "r", 1) if not grow.startswith("arrays") else grow.replace("(a", "(r")), A * 6)


UNSIGNED = ("u8", "u16", "u32", "byte", "uint", "u64")


def narrowing(c, s):
    """a value that does not fit the parameter never arrives changed: every route panics"""
    for t, (lo, hi) in NARROW.items():
        if t == "uint":
            vals = [-1, 5]
        else:
            vals = [lo, hi, lo - 1, hi + 1]
        d = ("do take_%s(x %s) -> %s {\n    return x\n}\n" % (t, t, t) + "do back_%s(x int) -> %s {\n    return x\n}\n" % (t, t)
             + "const Tk_%s struct {\n    z int\n    do take(m Tk_%s, x %s) -> %s {\n        return x\n    }\n    do make(x %s) -> %s {\n        return x\n    }\n}\n" % (t, t, t, t, t, t)
             + "do opt_%s(k int, x %s, w string = \"w\") -> %s {\n    return x\n}\n" % (t, t, t)
             + "do call_%s(f func(%s) -> %s, v int) -> %s {\n    return f(v)\n}\n" % (t, t, t, t)
             + "do mult_%s(x int) -> (int, %s) {\n    return 1, x\n}\n" % (t, t)
             + "const Ff_%s struct {\n    f func(%s) -> %s\n}\n" % (t, t, t))
        for v in vals:
            ok = lo <= v <= hi
            want = "%d\n" % v if ok else P(("P0018", "P0019"), "")
            for route, call in (("function", "println(take_%s(v))" % t), ("method", "mut m = Tk_%s{z: 1}\n    println(m.take(v))" % t), ("static", "println(Tk_%s.make(v))" % t),
                                ("named", "println(opt_%s(x: v, k: 1))" % t), ("reference", "const f = ()take_%s\n    println(f(v))" % t), ("func parameter", "println(call_%s(()take_%s, v))" % (t, t)),
                                ("func field", "const w = Ff_%s{f: ()take_%s}\n    println(w.f(v))" % (t, t)), ("inline reference", "println(()take_%s(v))" % t),
                                ("return", "println(back_%s(v))" % t), ("multiple return", "mut _, q = mult_%s(v)\n    println(q)" % t)):
                # a signed value for an unsigned parameter of a named function is a compile-time error
                if (t in UNSIGNED) and route in ("function", "method", "static", "named", "inline reference"): continue
                s.add("narrow/" + route, "    mut v int = I(0)\n    " + call + "\n", want, args=[v], key=t + (" fits" if ok else " does not fit"), decls=d)


def misc(c, s):
    d = """do greet(name string = "World") -> string {
    return "Hello, ${name}!"
}
do connect(host string, port int = 8080, verbose bool = false) -> string {
    return "${host}:${port}:${verbose}"
}
do ident(x ?) -> ? {
    return x
}
do first(a ?, b ?) -> ? {
    return a
}
do second(a ?, b ?) -> ? {
    return b
}
do head(arr [?]) -> ? {
    return arr[0]
}
do keep(x ?, n int) -> ? {
    if n == 0 { return x }
    return keep(x, n - 1)
}
do look(m [string:?], k string) -> ? {
    return m[k]
}
const Pt struct {
    x int
    y string
    do mk(x int, y string = "dy") -> Pt {
        return Pt{x: x, y: y}
    }
    do mv(&p Pt, dx int = 10, tag string = "t") -> int {
        p.x = p.x + dx
        p.y = tag
        return p.x
    }
}
const Sq struct {
    w float
}
do make(T <?>) -> ^? {
    return new(T)
}
do blank(T <?>) -> ? {
    return T{}
}
do dbl(n int) -> int { return n * 2 }
do trp(n int) -> int { return n * 3 }
do pick(w int, f func(int) -> int, g func(int) -> int) -> int {
    if w == 0 { return f(10) }
    return g(10)
}
do each(arr [int], f func(int)) {
    for_each v in arr { f(v) }
}
do show(n int) { println("v${n}") }
do none() -> int { return 31 }
do run0(f func() -> int) -> int { return f() }
do both(a int, b string, f func(int, string) -> bool) -> bool { return f(a, b) }
do longer(n int, t string) -> bool { return len(t) > n }
do even(n int) -> bool {
    if n == 0 { return true }
    return odd(n - 1)
}
do odd(n int) -> bool {
    if n == 0 { return false }
    return even(n - 1)
}
do inc(&x int) { x = x + 1 }
do inc2(&x int) {
    inc(x)
    inc(x)
}
do grow(&a [int], v int) { arrays.append(a, v) }
do grow2(&a [int], v int) {
    grow(a, v)
    grow(a, v + 1)
}
do keyed(&m [string:int], k string, v int) { m[k] = v }
do alias2(&a [int], &b [int]) {
    arrays.append(a, 1)
    arrays.append(b, 2)
}
do sw(&a, &b int) {
    mut t int = a
    a = b
    b = t
}
mut total int = 100
do bump(n int = 3) -> int {
    total = total + n
    return total
}
do ptr(p ^Pt) { p.x = 99 }
do mixed(a int, &b string, c float, &d int, &e [int]) -> string {
    b = "${b}+${a}"
    d = d + a
    arrays.append(e, d)
    return "${c}"
}
do through(f func(int, &string, float, &int, &[int]) -> string, &b string, &d int, &e [int]) -> string {
    return f(3, b, 1.5, d, e)
}
const Hold struct {
    f func(int, &string, float, &int, &[int]) -> string
    g func(&float) -> float
    h func(string) -> [string]
    k func([int], int) -> [int]
}
do halve(&x float) -> float {
    x = x / 2.0
    return x * 10.0
}
do split_up(s string) -> [string] { return {s, "${s}${s}"} }
do pushed(a [int], v int) -> [int] {
    mut r [int] = {}
    for_each x in a { arrays.append(r, x + v) }
    return r
}
do my__pair(a int, b string) -> (string, int) { return b, a }
do __two(a ?, n int) -> (int, string) { return n + 1, "${a}" }
do gen__pair(a ?, n int) -> (?, int) { return a, n + 1 }
do also(a ?, n int) -> (int, string) {
    mut p, q = my__pair(n, "z")
    mut r, t = __two(a, q)
    return r, "${p}${t}"
}
do in_turn(a ?, n int) -> int {
    if n == 0 { return 1 }
    mut k, _ = __two(a, n)
    return k + in_turn(a, n - 1)
}
const Vp struct {
    n int
    do by_value(v Vp, k int) -> int { return v.n * 10 + k }
    do by_ref(&v Vp, k int) -> int {
        v.n = v.n + k
        return v.n
    }
    do by_ptr(v ^Vp, k int) -> int {
        v.n = v.n + k
        return v.n * 100
    }
}
do late(x int) -> int { return helper(x) + 1 }
do helper(x int) -> int { return x * 10 }
"""
    L = [
        ("default", 'println(greet())\n    println(greet("Al"))\n    println(greet(name: "N"))', "Hello, World!\nHello, Al!\nHello, N!\n"),
        ("default", 'println(connect("h"))\n    println(connect("h", 1))\n    println(connect("h", 1, true))', "h:8080:false\nh:1:false\nh:1:true\n"),
        ("named", 'println(connect(host: "h", verbose: true))\n    println(connect(verbose: true, host: "h"))\n    println(connect("h", verbose: true))\n    println(connect("h", port: 2))\n    println(connect(port: 5, host: "z"))', "h:8080:true\nh:8080:true\nh:8080:true\nh:2:false\nz:5:false\n"),
        ("named struct", 'println(Pt.mk(y: "n", x: 4))\n    println(Pt.mk(x: 4))\n    println(Pt.mk(1))', 'Pt{x: 4, y: "n"}\nPt{x: 4, y: "dy"}\nPt{x: 1, y: "dy"}\n'),
        ("named instance", 'mut p = Pt.mk(1)\n    println(p.mv(tag: "k"))\n    println(p)\n    println(p.mv(2))\n    println(p)\n    println(p.mv())\n    println(Pt.mv(p, dx: 1))\n    println(p)', '11\nPt{x: 11, y: "k"}\n13\nPt{x: 13, y: "t"}\n23\n24\nPt{x: 24, y: "t"}\n'),
        ("generic", 'println(first(1, 2))\n    println(second("a", "b"))\n    println(ident(2.5))\n    println(ident(\'c\'))\n    println(ident(true))\n    println(ident(ident("n")))', "1\nb\n2.5\nc\ntrue\nn\n"),
        ("generic array", 'mut a [string] = {"p", "q"}\n    println(head(a))\n    println(head({7, 8}))', 'p\n7\n'),
        ("generic recursion", 'println(keep("r", 5))\n    println(keep(9, 5))\n    println(keep(Pt.mk(3), 2).x)' if 0 else 'println(keep("r", 5))\n    println(keep(9, 5))\n    mut q = keep(Pt.mk(3), 2)\n    println(q.x)', "r\n9\n3\n"),
        ("generic map", 'mut m [string:int] = {"k": 6}\n    println(look(m, "k"))\n    mut n [string:string] = {"k": "v"}\n    println(look(n, "k"))', "6\nv\n"),
        ("type parameter", 'mut p = make(Pt)\n    p.x = 6\n    println(p.x)\n    mut q = make(Sq)\n    q.w = 2.5\n    println(q.w)\n    mut s = blank(Pt)\n    println(s)\n    mut t = blank(Sq)\n    println(t)', '6\n2.5\nPt{x: 0, y: ""}\nSq{w: 0.0}\n'),
        ("references", 'const f = ()dbl\n    const g = ref(trp)\n    println(f(5))\n    println(g(5))\n    println(()trp(4))\n    println(pick(0, f, g))\n    println(pick(1, f, g))\n    println(pick(0, ()trp, ()dbl))', "10\n15\n12\n20\n30\n30\n"),
        ("references equal", 'const f = ()dbl\n    const g = ()dbl\n    const h = ()trp\n    println(f == g)\n    println(f != h)\n    println(f == h)', "true\ntrue\nfalse\n"),
        ("references in containers", 'mut a [func] = {}\n    arrays.append(a, ()dbl)\n    arrays.append(a, ()trp)\n    println(a[0](5))\n    println(a[1](5))\n    const fs [func, 2] = {()trp, ()dbl}\n    println(fs[0](1))\n    println(fs[1](1))\n    mut m map[string:func] = {:}\n    m["d"] = ()dbl\n    m["t"] = ()trp\n    println(m["t"](2))\n    println(m["d"](2))\n    m["d"] = ()trp\n    println(m["d"](2))', "10\n15\n3\n2\n6\n4\n6\n"),
        ("void reference", "each({1, 2, 3}, ()show)\n    println(run0(()none))\n    println(both(2, \"abc\", ()longer))\n    println(both(3, \"abc\", ()longer))", "v1\nv2\nv3\n31\ntrue\nfalse\n"),
        ("mutual recursion", "println(even(10))\n    println(odd(7))\n    println(even(7))\n    println(late(4))", "true\ntrue\nfalse\n41\n"),
        ("& chain", "mut x int = 5\n    inc2(x)\n    println(x)\n    mut a [int] = {1}\n    grow2(a, 7)\n    println(a)\n    mut m [string:int] = {:}\n    keyed(m, \"k\", 4)\n    println(m)", '7\n{1, 7, 8}\n{"k": 4}\n'),
        ("& same variable twice", "mut x int = 5\n    mut y int = 6\n    sw(x, y)\n    println(x)\n    println(y)\n    sw(x, x)\n    println(x)", "6\n5\n6\n"),
        ("& same array twice", "mut a [int] = {9}\n    alias2(a, a)\n    println(a)", "{9, 1, 2}\n"),
        ("& element", "mut a [int] = {1, 2, 3}\n    inc(a[1])\n    println(a)\n    mut g [[int]] = {{1}, {2}}\n    grow(g[1], 5)\n    println(g)\n    inc(g[0][0])\n    println(g)\n    mut m [string:int] = {\"k\": 4}\n    inc(m[\"k\"])\n    println(m)\n    sw(a[0], a[2])\n    println(a)", '{1, 3, 3}\n{{1}, {2, 5}}\n{{2}, {2, 5}}\n{"k": 5}\n{3, 3, 1}\n'),
        ("& loop variable element", "mut a [int] = {1, 2, 3}\n    for i in range(0, 3) { inc(a[i]) }\n    println(a)", "{2, 3, 4}\n"),
        ("default per call", "println(bump())\n    println(bump(1))\n    println(bump())\n    println(total)", "103\n104\n107\n107\n"),
        ("pointer argument", "mut p = Pt.mk(1)\n    ptr(addr(p))\n    println(p.x)\n    mut n = new(Pt)\n    ptr(n)\n    println(n.x)", "99\n99\n"),
        ("reference with & parameters", 'mut b string = "s"\n    mut d int = 5\n    mut e [int] = {1}\n    const f = ()mixed\n    println(f(2, b, 0.5, d, e))\n    println("${b} ${d}")\n    println(e)\n    println(through(f, b, d, e))\n    println(through(()mixed, b, d, e))\n    println("${b} ${d}")\n    println(e)', '0.5\ns+2 7\n{1, 7}\n1.5\n1.5\ns+2+3+3 13\n{1, 7, 10, 13}\n'),
        ("func fields", 'const w = Hold{f: ()mixed, g: ()halve, h: ()split_up, k: ()pushed}\n    mut b string = "q"\n    mut d int = 1\n    mut e [int] = {}\n    mut x float = 5.0\n    println(w.f(4, b, 2.5, d, e))\n    println("${b} ${d}")\n    println(e)\n    println(w.g(x))\n    println(x)\n    println(w.h("ab"))\n    println(w.k({1, 2}, 5))', '2.5\nq+4 5\n{5}\n25.0\n2.5\n{"ab", "abab"}\n{6, 7}\n'),
        ("underscored names", 'mut a, b = my__pair(4, "w")\n    println("${a}${b}")\n    mut c, d = __two("t", 6)\n    println("${c}${d}")\n    mut e, f = __two(2.5, 7)\n    println("${e}${f}")\n    mut g, h = gen__pair("u", 8)\n    println("${g}${h}")\n    mut i, j = gen__pair(1.5, 9)\n    println("${i}${j}")\n    mut k, l = also("v", 3)\n    println("${k}${l}")\n    mut m, n = also(4, 30)\n    println("${m}${n}")\n    println(in_turn("s", 3))\n    println(in_turn(2, 4))', "w4\n7t\n82.5\nu9\n1.510\n4zv\n31z4\n10\n15\n"),
        ("receivers", 'mut v = Vp{n: 1}\n    mut p = new(Vp)\n    p.n = 2\n    println(v.by_value(3))\n    println(v.by_ref(3))\n    println(v.n)\n    println(p.by_ptr(1))\n    println(p.n)\n    mut q = addr(v)\n    println(q.by_ptr(6))\n    println(v.n)', "13\n4\n4\n300\n3\n1000\n10\n"),
        ("no such element", "mut a [int] = {1}\n    inc(a[I(0)])\n    println(a)", P(("P0033", "P0003", "P0004", "P0005", "P0017", "P0009", "P0002"))),
    ]
    for g, b, w in L:
        s.add("call/" + g, "    " + b + "\n", w, args=[7] if "no such" in g else [], key=g, decls=d)


REJECT = [
    ("required after default", "do f(a int = 1, b int) -> int {\n    return a + b\n}\ndo main() {\n    println(f(1, 2))\n}\n"),
    ("positional after named", "do f(a int, b int) -> int {\n    return a + b\n}\ndo main() {\n    println(f(a: 1, 2))\n}\n"),
    ("unknown name", "do f(a int, b int) -> int {\n    return a + b\n}\ndo main() {\n    println(f(a: 1, c: 2))\n}\n"),
    ("given twice", "do f(a int, b int = 2) -> int {\n    return a + b\n}\ndo main() {\n    println(f(1, a: 2))\n}\n"),
    ("named twice", "do f(a int, b int = 2) -> int {\n    return a + b\n}\ndo main() {\n    println(f(a: 1, a: 2))\n}\n"),
    ("missing required", "do f(a int, b int) -> int {\n    return a + b\n}\ndo main() {\n    println(f(b: 2))\n}\n"),
    ("too few", "do f(a int, b int) -> int {\n    return a + b\n}\ndo main() {\n    println(f(1))\n}\n"),
    ("too many", "do f(a int, b int) -> int {\n    return a + b\n}\ndo main() {\n    println(f(1, 2, 3))\n}\n"),
    ("too many with defaults", "do f(a int = 1, b int = 2) -> int {\n    return a + b\n}\ndo main() {\n    println(f(1, 2, 3))\n}\n"),
    ("immutable parameter assigned", "do f(a int) {\n    a = 2\n}\ndo main() {\n    f(1)\n}\n"),
    ("immutable parameter incremented", "do f(a int) {\n    a++\n}\ndo main() {\n    f(1)\n}\n"),
    ("immutable array element", "do f(a [int]) {\n    a[0] = 2\n}\ndo main() {\n    f({1})\n}\n"),
    ("immutable array append", "import @arrays\ndo f(a [int]) {\n    arrays.append(a, 2)\n}\ndo main() {\n    f({1})\n}\n"),
    ("immutable map entry", "do f(a [string:int]) {\n    a[\"k\"] = 2\n}\ndo main() {\n    f({\"k\": 1})\n}\n"),
    ("immutable struct field", "const B struct {\n    n int\n}\ndo f(a B) {\n    a.n = 2\n}\ndo main() {\n    f(B{n: 1})\n}\n"),
    ("immutable passed as &", "do g(&x int) { x = 1 }\ndo f(a int) {\n    g(a)\n}\ndo main() {\n    f(1)\n}\n"),
    ("const passed as &", "do g(&x int) { x = 1 }\ndo main() {\n    const c int = 4\n    g(c)\n}\n"),
    ("literal passed as &", "do g(&x int) { x = 1 }\ndo main() {\n    g(4)\n}\n"),
    ("expression passed as &", "do g(&x int) { x = 1 }\ndo main() {\n    mut a int = 1\n    g(a + 1)\n}\n"),
    ("type through &", "do g(&x int) { x = 1 }\ndo main() {\n    mut a float = 1.5\n    g(a)\n}\n"),
    ("narrow through &", "do g(&x int) { x = 1 }\ndo main() {\n    mut a i8 = 1\n    g(a)\n}\n"),
    ("mut reference", "do d(n int) -> int { return n }\ndo main() {\n    mut f = ()d\n    println(f(1))\n}\n"),
    ("reference to builtin", "do main() {\n    const f = ()println\n    f(1)\n}\n"),
    ("reference to a variable", "do d(n int) -> int { return n }\ndo main() {\n    const f = ()d\n    println(()f(5))\n}\n"),
    ("signature mismatch", "do d(n string) -> int { return 1 }\ndo ap(f func(int) -> int) -> int { return f(1) }\ndo main() {\n    println(ap(()d))\n}\n"),
    ("return mismatch through reference", "do d(n int) -> string { return \"s\" }\ndo ap(f func(int) -> int) -> int { return f(1) }\ndo main() {\n    println(ap(()d))\n}\n"),
    ("generic conflict", "do pf(a ?, b ?) -> ? {\n    return a\n}\ndo main() {\n    println(pf(1, \"h\"))\n}\n"),
    ("generic conflict in arrays", "do pf(a [?], b ?) -> ? {\n    return b\n}\ndo main() {\n    println(pf({1}, \"h\"))\n}\n"),
    ("too many variables", "do f() -> (int, int) {\n    return 1, 2\n}\ndo main() {\n    mut a, b, c = f()\n    println(a + b + c)\n}\n"),
    ("too few variables", "do f() -> (int, int) {\n    return 1, 2\n}\ndo main() {\n    mut a = f()\n    println(a)\n}\n"),
    ("wrong second type", "do f() -> (int, int) {\n    return 1, \"s\"\n}\ndo main() {\n    mut a, b = f()\n    println(a + b)\n}\n"),
    ("wrong third type", "do f() -> (int, int, string) {\n    return 1, 2, 3\n}\ndo main() {\n    mut a, b, c = f()\n    println(a + b)\n    println(c)\n}\n"),
    ("missing return value", "do f() -> (int, int) {\n    return 1\n}\ndo main() {\n    mut a, b = f()\n    println(a + b)\n}\n"),
    ("void result used", "do f() { println(1) }\ndo main() {\n    mut a = f()\n    println(a)\n}\n"),
    ("result dropped", "do f() -> int { return 1 }\ndo main() {\n    f()\n}\n"),
    ("wrong argument type", "do f(a int) -> int { return a }\ndo main() {\n    println(f(\"s\"))\n}\n"),
    ("wrong named type", "do f(a int, b string) -> int { return a }\ndo main() {\n    println(f(b: 3, a: 1))\n}\n"),
    ("wrong default type", "do f(a int = \"s\") -> int { return a }\ndo main() {\n    println(f())\n}\n"),
    ("wrong method argument", "const B struct {\n    n int\n    do m(b B, k int) -> int { return k }\n}\ndo main() {\n    mut b = B{n: 1}\n    println(b.m(\"s\"))\n}\n"),
    ("named builtin", "do main() {\n    println(value: \"h\")\n}\n"),
    ("mixed type parameter", "do bad(T <?>, x int) -> ^? {\n    return new(T)\n}\ndo main() {\n    mut p = bad(int, 1)\n}\n"),
    ("array element type", "do f(a [int]) -> int { return len(a) }\ndo main() {\n    mut s [string] = {\"a\"}\n    println(f(s))\n}\n"),
    ("map value type", "do f(a [string:int]) -> int { return len(a) }\ndo main() {\n    mut s [string:string] = {\"a\": \"b\"}\n    println(f(s))\n}\n"),
    ("struct type", "const A struct {\n    n int\n}\nconst B struct {\n    n int\n}\ndo f(a A) -> int { return a.n }\ndo main() {\n    println(f(B{n: 1}))\n}\n"),
]


def rejects(c):
    g = Gray(c, "plain")
    def one(x):
        b, r = g.compile(x[1], name="rj", flags=["-q"])
        return x, b, r
    for x, b, r in pmap(one, REJECT):
        c.case(("rejected", x[0]), True)
        c.seen("operations", "reject/" + x[0])
        if b or r.rc == 0 or "error[E" not in r.etext + r.text:
            k = c.known_cell("reject|" + x[0])
            c.violation("an invalid call is accepted: %s" % x[0] if b else "an invalid call is not diagnosed: %s: %s" % (x[0], (r.etext + r.text)[:200]), {"main.gray": x[1]}, r.brief(), known=k)


def check(c):
    s = Suite(c, "@arrays", DEF + holds(), per=24, timeout=20)
    signatures(c, s, c.scale(170, 3000))
    returns(c, s)
    narrowing(c, s)
    misc(c, s)
    s.run((("plain", 1), ("asan", c.scale(8, 1))))
    rejects(c)


if __name__ == "__main__":
    main(check, "C09", "a function whose parameters, results and the caller's variables were all reported and matched the binding rules")
