"""C11: enums keep their values and `when` takes exactly the matching branch.

Random enums of every shape and random `when` statements over every subject type are generated; for every value of the
subject the branch taken, the payload bound and the value printed are compared with a reference match."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from suite import Suite, P

WORDS = ["red", "GREEN", "blue1", "Half", "up_down", "X", "y2", "double", "int32", "struct_", "zero", "tag", "data", "EOF", "NULL", "stdin", "main", "errno", "long", "auto", "default_", "printf", "unix", "linux", "true_", "INT_MAX"]
PAY = {  # type: (value text, shown)
    "int": [("5", "5"), ("-9223372036854775807", "-9223372036854775807"), ("0", "0")],
    "uint": [("cast(7, uint)", "7")], "i8": [("cast(-8, i8)", "-8")], "u32": [("cast(4000000000, u32)", "4000000000")],
    "float": [("2.5", "2.5"), ("-0.25", "-0.25")], "bool": [("true", "true"), ("false", "false")], "string": [('"héy"', "héy"), ('""', "")], "char": [("'q'", "q")],
    "byte": [("cast(200, byte)", "200")], "[int]": [("{1, 2, 3}", "{1, 2, 3}"), ("{}", "{}")], "[string]": [('{"a", "b"}', '{"a", "b"}')], "[string:int]": [('{"k": 4}', '{"k": 4}')],
    "i128": [("cast(12345678901234567, i128)", "12345678901234567")], "u256": [("cast(99, u256)", "99")], "Box": [('Box{n: 3, s: "in"}', "3 in")],
}
BOX = "const Box struct {\n    n int\n    s string\n}\n"


def names(rng, n):
    w = WORDS[:]
    rng.shuffle(w)
    return (w + ["V%d" % i for i in range(n)])[:n]


class Enum:
    def __init__(self, rng, name, kind):
        self.name, self.kind, self.rng = name, kind, rng
        n = rng.choice((1, 2, 3, 5, 9))
        if kind == "flags":
            n = rng.choice((1, 3, 8, 33, 62))
        self.names = names(rng, n)
        self.values, self.pay = [], []
        nxt, used, text = 0, set(), ""
        for i, v in enumerate(self.names):
            if kind == "int":
                e = None
                if rng.random() < .4:
                    while True:
                        e = rng.choice((rng.randrange(-50, 200), rng.randrange(-2**31, 2**31), rng.randrange(-2**53, 2**53)))
                        if e not in used:
                            break
                elif nxt in used:
                    e = max(used) + 1
                k = nxt if e is None else e
                self.values.append(k)
                used.add(k)
                nxt = k + 1
                text += "    %s%s\n" % (v, "" if e is None else " = %d" % e)
            elif kind == "auto":
                self.values.append(i)
                text += "    %s\n" % v
            elif kind == "flags":
                self.values.append(1 << i)
                text += "    %s\n" % v
            elif kind == "string":
                s = rng.choice(('v%d' % i, 'two words %d' % i, 'é%d' % i, 'q"%d"' % i, "tab\t%d" % i, "back\\%d" % i, "nl\n%d" % i, "$%d" % i, "100%% %d" % i, "??/%d" % i, "\x01f%d" % i, "%s%d"))
                while s in used:
                    s += "+"
                used.add(s)
                self.values.append(s)
                lit_ = "".join({"\n": "\\n", "\t": "\\t", "\\": "\\\\", '"': '\\"', "$": "\\$", "\x01": "\\x01"}.get(ch, ch) for ch in s)
                text += '    %s = "%s"\n' % (v, lit_)
            else:
                p = [] if rng.random() < .3 and i else [rng.choice(list(PAY)) for _ in range(rng.choice((1, 1, 2, 3, 4)))]
                self.pay.append(p)
                text += "    %s%s\n" % (v, "(%s)" % ", ".join(p) if p else "")
        self.decl = ("#flags\n" if kind == "flags" else "") + "const %s enum {\n%s}\n" % (name, text)

    def build(self, i):
        """(expression text, shown payload)"""
        if self.kind != "tagged":
            return "%s.%s" % (self.name, self.names[i]), None
        vs = [self.rng.choice(PAY[t]) for t in self.pay[i]]
        return "%s.%s%s" % (self.name, self.names[i], "(%s)" % ", ".join(a for a, _ in vs) if vs else ""), [b for _, b in vs]


def show_binding(t, b):
    return "${%s.n} ${%s.s}" % (b, b) if t == "Box" else "${%s}" % b


def when_text(rng, e, subject, ind, strict=False):
    """A when over enum e; returns (text, {member: branch text or None})"""
    idx = list(range(len(e.names)))
    rng.shuffle(idx)
    left = idx[:]
    cases, taken, k = "", {}, 0
    p = "    " * ind
    while left and (strict or len(cases) == 0 or rng.random() < .75):
        g = [left.pop()]
        sel = (lambda i: "." + e.names[i]) if rng.random() < .4 else (lambda i: e.name + "." + e.names[i])
        if e.kind == "tagged" and e.pay[g[0]]:
            bs = ["b%d_%d" % (k, j) for j in range(len(e.pay[g[0]]))]
            if rng.random() < .2:
                bs[0] = rng.choice(("double", "int32_t_", "tag", "data", "val", "printf", "g", "err"))
            pat = "%s(%s)" % (sel(g[0]), ", ".join(bs))
            body = "B%d %s" % (k, " | ".join(show_binding(t, b) for t, b in zip(e.pay[g[0]], bs)))
            taken[g[0]] = ("B%d" % k, True)
        else:
            while left and rng.random() < .4 and not (e.kind == "tagged" and e.pay[left[-1]]):
                g.append(left.pop())
            pat = ", ".join(sel(i) for i in g)
            body = "B%d" % k
            for i in g:
                taken[i] = (body, False)
        cases += p + "is %s {\n" % pat + p + '    println("%s")\n' % body + p + "}\n"
        k += 1
    default = not strict and (left or rng.random() < .3)
    if default and not strict:
        cases += p + 'default { println("D") }\n'
    return (p + "#strict\n" if strict else "") + p + "when %s {\n" % subject + cases + p + "}\n", taken, "D" if default else None


def enums(c, s, n):
    for k in range(n):
        rng = random.Random(c.seed * 31337 + k)
        kind = rng.choice(("int", "auto", "flags", "string", "tagged", "tagged", "tagged"))
        name = "En%d" % k
        e = Enum(rng, name, kind)
        strict = rng.random() < .4
        w, taken, dflt = when_text(rng, e, "SUBJ", 1, strict)
        group = "enum/" + kind
        d = (BOX if any("Box" in p for p in e.pay) else "") + e.decl
        d += "const Hold%d struct {\n    tagx int\n    e %s\n    after int\n}\n" % (k, name)
        d += "do match%d(v %s) {\n%s}\n" % (k, name, w.replace("SUBJ", "v"))
        d += "do pass%d(v %s) -> %s {\n    return v\n}\n" % (k, name, name)
        d += "do direct%d(v %s) {\n%s}\n" % (k, name, w.replace("SUBJ", "pass%d(v)" % k))
        d += "do held%d(v %s) {\n    mut h = Hold%d{tagx: 1, e: v, after: 9}\n%s}\n" % (k, name, k, w.replace("SUBJ", "h.e"))
        d += "do listed%d(v %s) {\n    mut a [%s] = {v, v}\n%s    for_each x in a {\n%s    }\n}\n" % (k, name, name, w.replace("SUBJ", "a[1]"), w.replace("SUBJ", "x"))
        d += 'do mapped%d(v %s) {\n    mut m [string:%s] = {"k": v}\n    m["z"] = m["k"]\n%s}\n' % (k, name, name, w.replace("SUBJ", 'm["z"]'))
        d += "do changed%d(v %s) {\n    mut t %s = v\n%s}\n" % (k, name, name, w.replace("SUBJ", "t"))
        for i in (range(len(e.names)) if len(e.names) < 10 else rng.sample(range(len(e.names)), 6) + [len(e.names) - 1]):
            expr, shown = e.build(i)
            br = taken.get(i)
            out = "" if br is None and dflt is None else dflt + "\n" if br is None else (br[0] + " " + " | ".join(shown) if br[1] else br[0]) + "\n"
            fs = [("match", 1), ("direct", 1), ("held", 1), ("listed", 3), ("mapped", 1), ("changed", 1)]
            body = "    mut v %s = %s\n" % (name, expr) + "".join("    %s%d(v)\n" % (f, k) for f, _ in fs) + "    match%d(%s)\n" % (k, expr)
            want = out * (sum(x for _, x in fs) + 1)
            if kind not in ("tagged",):
                val = e.values[i]
                body += '    println(v)\n    println("[${v}]")\n    mut l [%s] = {v}\n    println(l[0] == v)\n' % name
                want += "%s\n[%s]\ntrue\n" % (val, val)
                body += "    println(v == %s.%s)\n    println(v != %s)\n" % (name, e.names[0], expr)
                want += "%s\nfalse\n" % str(i == 0).lower()
                if kind != "string":
                    body += "    println(cast(v, int))\n    mut w %s = cast(%d, %s)\n    match%d(w)\n    println(w == v)\n" % (name, val, name, k)
                    want += "%d\n%strue\n" % (val, out)
                else:
                    body += '    println(len("${v}"))\n'
                    want += "%d\n" % len(val.encode())
                body += "    mut m [%s:int] = {v: 5}\n    println(m[%s])\n    println(m[v])\n" % (name, expr)
                want += "5\n5\n"
            s.add(group, body, want, key="%s %s" % (kind, "strict" if strict else "default" if dflt else "partial"), decls=d)


LITS = {"int": lambda r: (lambda v: (str(v), v))(r.choice((0, 1, -1, 7, r.randrange(-30, 30), 2**62, -2**62))), "uint": lambda r: (lambda v: ("cast(%d, uint)" % v, v))(r.choice((0, 1, 7, 2**63 - 1, r.randrange(30)))),
        "i8": lambda r: (lambda v: ("cast(%d, i8)" % v, v))(r.choice((-128, 127, r.randrange(-9, 9)))), "u16": lambda r: (lambda v: ("cast(%d, u16)" % v, v))(r.choice((65535, r.randrange(9)))),
        "string": lambda r: (lambda v: ('"%s"' % v, v))(r.choice(("", "a", "ab", "abc", "b", "é", "A"))), "bool": lambda r: (lambda v: (str(v).lower(), v))(r.random() < .5),
        "char": lambda r: (lambda v: ("'%s'" % v, v))(r.choice("abcxyz09 ")), "byte": lambda r: (lambda v: ("cast(%d, byte)" % v, v))(r.choice((0, 255, r.randrange(9))))}


def plain_whens(c, s, n):
    for k in range(n):
        rng = random.Random(c.seed * 7001 + k)
        t = rng.choice(list(LITS) + ["int"] * 4)
        used, cases, arms, p = set(), [], "", "    "
        for b in range(rng.randrange(1, 6)):
            pats, tests = [], []
            ranged = t in ("int", "uint", "i8", "u16") and rng.random() < .5
            for _ in range(rng.choice((1, 1, 2, 3))):
                if ranged:
                    lo = rng.randrange(0 if t[0] == "u" else -25, 20)
                    hi = lo + rng.randrange(0, 25)
                    step = rng.choice((None, None, 1, 2, 3, 7))
                    if rng.random() < .15 and t[0] != "u":
                        step = -rng.choice((1, 2, 3))
                        pats.append("range(%d, %d, %d)" % (hi, lo, step))
                        tests.append(lambda v, a=hi, z=lo, st=step: v in range(a, z, st))
                    else:
                        pats.append("range(%d, %d%s)" % (lo, hi, ", %d" % step if step else ""))
                        tests.append(lambda v, a=lo, z=hi, st=step: v in range(a, z, st or 1))
                else:
                    l, v = LITS[t](rng)
                    if (t, v) in used:
                        continue
                    used.add((t, v))
                    pats.append(l)
                    tests.append(lambda x, v=v: x == v)
            if pats:
                arms += p + "is %s { println(\"B%d\") }\n" % (", ".join(pats), b)
                cases.append(("B%d" % b, tests))
        if not cases:
            continue
        dflt = rng.random() < .6
        if dflt:
            arms += p + 'default { println("D") }\n'
        d = "do w%d(v %s) {\n    when v {\n%s    }\n}\n" % (k, t, arms)
        vals = [LITS[t](rng) for _ in range(6)]
        if t == "int":
            vals += [(str(i), i) for i in range(-30, 50, 3)]
        body, want = "", ""
        for l, v in vals:
            body += "    w%d(%s)\n" % (k, l)
            want += next((b + "\n" for b, ts in cases if any(f(v) for f in ts)), "D\n" if dflt else "")
        s.add("when/" + t, body + '    println("end")', want + "end\n", key=t, decls=d)
    d = '''do loud(k int) -> int {
    println("eval ${k}")
    return k
}
mut calls int = 0
do next() -> int {
    calls += 1
    return calls
}
'''
    s.add("when/once", '    when next() {\n        is 5 { println("five") }\n        is 2 { println("two") }\n        is 1 { println("one") }\n        default { println("none") }\n    }\n    println(calls)', "one\n1\n", decls=d, key="subject once")
    s.add("when/once", '    when loud(3) {\n        is loud(1) { println("a") }\n        is loud(3), loud(4) { println("b") }\n        is loud(5) { println("c") }\n        default { println("d") }\n    }', "eval 3\neval 1\neval 3\nb\n", decls=d, key="values in order until one matches")
    s.add("when/control", '    mut t string = ""\n    for i in range(0, 10) {\n        when i {\n            is 2 { continue }\n            is 7 { break }\n            default { t = "${t}${i}" }\n        }\n    }\n    println(t)', "013456\n", key="break and continue")
    s.add("when/control", '    mut x int = 1\n    when x {\n        is 1 { x = 2 }\n        is 2 { x = 3 }\n        default { x = 4 }\n    }\n    println(x)', "2\n", key="one branch only")
    s.add("when/control", '    mut x int = 1\n    when x {\n        is 1 {\n            mut x string = "inner"\n            when len(x) {\n                is 5 { println("five ${x}") }\n                default { println("other") }\n            }\n        }\n        default { println("d") }\n    }\n    println(x)', "five inner\n1\n", key="nested")
    s.add("when/control", '    mut n int = 0\n    while n < 3 {\n        when true {\n            is n == 1 { println("one") }\n            is false { println("other ${n}") }\n            default { println("d ${n}") }\n        }\n        n += 1\n    }', "other 0\n".replace("other", "d") + "one\nd 2\n", key="bool subject")


REJECT = [
    ("uncovered", "const E enum {\n    A\n    B\n    C\n}\ndo main() {\n    mut e E = E.A\n    #strict\n    when e {\n        is E.A { println(1) }\n        is E.C { println(2) }\n    }\n}\n", "E3056"),
    ("uncovered tagged", "const E enum {\n    A(int)\n    B(string)\n    C\n}\ndo main() {\n    mut e E = E.C\n    #strict\n    when e {\n        is E.A(x) { println(x) }\n        is .C { println(2) }\n    }\n}\n", "E3056"),
    ("uncovered string", 'const E enum {\n    A = "a"\n    B = "b"\n}\ndo main() {\n    mut e E = E.A\n    #strict\n    when e {\n        is E.A { println(1) }\n    }\n}\n', "E3056"),
    ("uncovered nested", "const E enum {\n    A\n    B\n}\ndo f(e E) {\n    for i in range(0, 2) {\n        if i == 1 {\n            #strict\n            when e {\n                is .B { println(1) }\n            }\n        }\n    }\n}\ndo main() {\n    f(E.A)\n}\n", "E3056"),
    ("uncovered call", "const E enum {\n    A\n    B\n}\ndo f() -> E { return E.A }\ndo main() {\n    #strict\n    when f() {\n        is .B { println(1) }\n    }\n}\n", "E3056"),
    ("uncovered field", "const E enum {\n    A\n    B\n}\nconst S struct {\n    e E\n}\ndo main() {\n    mut s = S{e: E.B}\n    #strict\n    when s.e {\n        is .B { println(1) }\n    }\n}\n", "E3056"),
    ("unknown member", "const E enum {\n    A\n    B\n}\ndo main() {\n    mut e E = E.A\n    when e {\n        is E.Z { println(1) }\n        default { println(2) }\n    }\n}\n", "E3047"),
    ("other enum", "const E enum {\n    A\n    B\n}\nconst F enum {\n    A\n    B\n}\ndo main() {\n    mut e E = E.A\n    when e {\n        is F.A { println(1) }\n        default { println(2) }\n    }\n}\n", None),
    ("string for int", 'do main() {\n    mut e int = 1\n    when e {\n        is "1" { println(1) }\n        default { println(2) }\n    }\n}\n', None),
    ("binding count", "const E enum {\n    A(int, int)\n    B\n}\ndo main() {\n    mut e E = E.B\n    when e {\n        is E.A(x) { println(x) }\n        default { println(2) }\n    }\n}\n", None),
    ("payload missing", "const E enum {\n    A(int, int)\n    B\n}\ndo main() {\n    mut e E = E.A(1)\n    when e {\n        is E.B { println(1) }\n        default { println(2) }\n    }\n}\n", None),
    ("payload type", 'const E enum {\n    A(int)\n    B\n}\ndo main() {\n    mut e E = E.A("x")\n    when e {\n        is E.B { println(1) }\n        default { println(2) }\n    }\n}\n', None),
    ("duplicate value", "do main() {\n    mut e int = 1\n    when e {\n        is 1 { println(1) }\n        is 1 { println(2) }\n        default { println(2) }\n    }\n}\n", None),
    ("duplicate enum value", "const E enum {\n    A = 1\n    B = 1\n}\ndo main() {\n    println(E.A)\n}\n", "E3033"),
    ("duplicate implied value", "const E enum {\n    A = 1\n    B = 0\n    C\n}\ndo main() {\n    println(E.A)\n}\n", "E3033"),
    ("assign int", "const E enum {\n    A\n    B\n}\ndo main() {\n    mut e E = 1\n    println(e)\n}\n", None),
    ("assign other", "const E enum {\n    A\n    B\n}\nconst F enum {\n    C\n}\ndo main() {\n    mut e E = F.C\n    println(e)\n}\n", None),
    ("compare other", "const E enum {\n    A\n    B\n}\nconst F enum {\n    C\n}\ndo main() {\n    mut e E = E.A\n    println(e == F.C)\n}\n", None),
    ("enum arithmetic", "const E enum {\n    A\n    B\n}\ndo main() {\n    mut e E = E.A\n    println(e + 1)\n}\n", None),
    ("array subject", "do main() {\n    mut a [int] = {1}\n    when a {\n        is a { println(1) }\n        default { println(2) }\n    }\n}\n", None),
]
ACCEPT = ["const E enum {\n    A\n    B\n}\ndo main() {\n    mut e E = E.A\n    #strict\n    when e {\n        is E.B, .A { println(1) }\n    }\n}\n",
          "const E enum {\n    A\n    B\n}\ndo main() {\n    mut e E = E.A\n    #strict\n    when e {\n        is E.B { println(1) }\n        default { println(2) }\n    }\n}\n",
          "const E enum {\n    A(int)\n    B\n}\ndo main() {\n    mut e E = E.A(2)\n    #strict\n    when e {\n        is E.B { println(1) }\n        is .A(x) { println(x) }\n    }\n}\n"]


def check(c):
    s = Suite(c, "@strings", "", 10)
    enums(c, s, c.scale(110, 2500))
    plain_whens(c, s, c.scale(150, 3000))
    s.run((("plain", 1), ("asan", 3)))
    g = Gray(c, "plain")
    for name, src, code in REJECT:
        b, r = g.compile(src, name="rej" + re.sub(r"\W", "", name))
        c.case("reject/" + name)
        if b:
            c.violation("%s is accepted" % name, {"main.gray": src}, known=c.known_cell("reject/" + name))
        elif "error[" not in r.etext or (code and code not in r.etext):
            c.violation("%s: expected %s, reported %s" % (name, code, r.etext[:300]), {"main.gray": src}, known=c.known_cell("reject/" + name))
    for i, src in enumerate(ACCEPT):
        b, r = g.compile(src, name="acc%d" % i)
        c.case("accept/%d" % i)
        if not b:
            c.violation("an exhaustive #strict when is rejected: " + r.etext[:300], {"main.gray": src})


if __name__ == "__main__":
    main(check, "C11", "every branch taken, payload bound and value printed equals the reference match; uncovered #strict whens and mistyped cases are rejected")
