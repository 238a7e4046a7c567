"""C10: ensure runs on every exit, or_return propagates errors.

Generated functions (any nesting of blocks, returns, or_returns and ensures) print a trace of everything they do; the trace
and the returned value must equal those of a reference execution of the same function, for every exit of every function."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from suite import Suite, P

BASE = '''const P struct {
    a int
    s string
    m [string:int]
}
mut g int = 1
do ev(s string) { println(s) }
do tv(tag string, v int) -> int {
    println("value ${tag} ${v}")
    return v
}
do bump(k int, x int) {
    g = (g * 3 + k + x) % 10007
    println("bump ${k} ${x} ${g}")
}
do bumpv(k int) -> int {
    g = (g * 3 + k) % 10007
    println("bumpv ${k} ${g}")
    return g
}
do grow(&a [int], k int) {
    arrays.append(a, k)
    println("grow ${len(a)}")
}
do risky(fail bool, k int) -> (int, Error) {
    println("risky ${fail} ${k}")
    if fail { return 7, error("risk ${k}") }
    return k * 2, nil
}
do riskys(fail bool, k int) -> (string, Error) {
    ensure ev("riskys ${k}")
    if fail { return "half", error("risks ${k}") }
    return "<${k}>", nil
}
do show_error(e Error) -> string {
    if e == nil { return "none" }
    return e.message
}
'''
RET = {"void": "", "int": "-> int ", "string": "-> string ", "array": "-> [int] ", "struct": "-> P ", "pair": "-> (int, string) ",
       "ierr": "-> (int, Error) ", "serr": "-> (string, Error) ", "aerr": "-> ([int], Error) ", "perr": "-> (P, Error) ", "merr": "-> ([string:int], Error) ", "err": "-> Error "}
ZERO = {"ierr": "0", "serr": "", "aerr": "{}", "perr": "0  {:}", "merr": "{:}"}


class Leave(Exception):
    pass


class Brk(Exception):
    pass


class Fn:
    """A random function: source text and a reference execution."""
    def __init__(self, rng, name, callees):
        self.rng, self.name, self.callees = rng, name, callees
        self.kind = rng.choice(list(RET))
        self.exits, self.nens, self.uid = 0, 0, 0
        self.body = self.block(0, True)
        self.final = None if self.kind == "void" and rng.random() < .5 else self.ret()

    def fresh(self):
        self.uid += 1
        return self.uid

    def ret(self):
        return (self.rng.choice(("x", "g", "tv", "bumpv", "const")), self.rng.random() < .3)

    def block(self, depth, top=False):
        r, out = self.rng, []
        if not top and r.random() < .4:
            out.append(("shadow", r.randrange(100, 200)))
        for _ in range(r.randrange(2, 7) if top else r.randrange(1, 4)):
            k = r.choice(("ev", "set", "exit", "exit", "block", "block", "or", "call") + (("ens",) * 5 if top else ()))
            if k == "ev": out.append(("ev", self.fresh()))
            elif k == "set": out.append(("set", r.choice("xy"), r.randrange(1000)))
            elif k == "exit":
                self.exits += 1
                out.append(("exit", self.exits, self.ret()))
            elif k == "block" and depth < 3:
                out.append(("block", r.choice(("if", "else", "or", "for", "each", "while", "loop", "when")), self.block(depth + 1)))
            elif k == "or" and self.kind.endswith("err") and self.kind != "err":
                self.exits += 1
                out.append(("or", self.exits, r.choice(("risky", "riskys")), self.fresh(), r.choice(("bare", "value", "own"))))
            elif k == "ens":
                self.nens += 1
                out.append(("ens", r.choice(("ev", "bump", "grow", "nested")), self.nens))
            elif k == "call" and self.callees:
                out.append(("call", r.choice(self.callees), r.randrange(0, 5)))
        return out

    # ---- source
    def value(self, k):
        return {"x": "x + y", "g": "g", "tv": 'tv("%s", x)' % self.name, "bumpv": "bumpv(x)", "const": "42"}[k]

    def ret_text(self, how):
        k, fail = how
        v = self.value(k)
        e = 'error("%s fails ${x}")' % self.name if fail else "nil"
        return {"void": "return", "int": "return " + v, "string": 'return "s${%s}"' % v if '"' not in v else "return tvs(x)", "array": "return {x, %s}" % v, "struct": 'return P{a: %s, s: "p${y}", m: {"k": x}}' % v,
                "pair": 'return %s, "q${x}"' % v, "ierr": "return %s, %s" % (v, e), "serr": 'return "t${x}", %s' % e, "aerr": "return {%s, x, y}, %s" % (v, e), "perr": 'return P{a: %s, s: "r", m: {:}}, %s' % (v, e),
                "merr": 'return {"m": %s}, %s' % (v, e), "err": "return " + e}[self.kind]

    def zero_text(self, v):
        return {"ierr": str(v), "serr": '"f%d"' % v, "aerr": "{%d, 2}" % v, "perr": 'P{a: %d, s: "z", m: {:}}' % v, "merr": '{"f": %d}' % v}[self.kind]

    def text(self, stmts, ind):
        p, out = "    " * ind, ""
        for s in stmts:
            if s[0] == "ev": out += p + 'ev("%s at %d ${x} ${y}")\n' % (self.name, s[1])
            elif s[0] == "shadow": out += p + "mut x int = %d\n" % s[1] + p + "x += 1\n"
            elif s[0] == "set": out += p + "%s = %d\n" % (s[1], s[2])
            elif s[0] == "exit": out += p + "if n == %d { %s }\n" % (s[1], self.ret_text(s[2]))
            elif s[0] == "ens":
                out += p + "ensure " + {"ev": 'ev("%s ensures %d ${x} ${y} ${n}")' % (self.name, s[2]), "bump": "bump(%d, x)" % s[2], "grow": "grow(acc, %d)" % s[2],
                                        "nested": 'ev("%s last ${tv("late%d", y)}")' % (self.name, s[2])}[s[1]].replace('${tv("late%d", y)}' % s[2], "${len(acc)}") + "\n"
            elif s[0] == "or":
                tail = {"bare": "", "value": " " + self.zero_text(s[3]), "own": " " + self.zero_text(s[3]) + ', error("own ${x}")'}[s[4]]
                out += p + "mut o%d = %s(n == %d, x) or_return%s\n" % (s[3], s[2], s[1], tail) + p + 'ev("%s got ${o%d}")\n' % (self.name, s[3])
            elif s[0] == "call": out += p + "run_%s(%d)\n" % (s[1].name, s[2])
            else:
                b = self.text(s[2], ind + 1)
                i = self.fresh()
                out += {"if": p + "if n >= 0 {\n" + b + p + "}\n", "else": p + "if n < 0 {\n" + p + '    ev("no")\n' + p + "} else {\n" + b + p + "}\n",
                        "or": p + "if n < 0 {\n" + p + '    ev("no")\n' + p + "} or n >= 0 {\n" + b + p + "}\n",
                        "for": p + "for i%d in range(0, 2) {\n" % i + b + p + "}\n", "each": p + "for_each e%d in [int]{5, 6} {\n".replace("[int]{5, 6}", "two") % i + b + p + "}\n",
                        "while": p + "mut w%d int = 0\n" % i + p + "while w%d < 2 {\n" % i + p + "    w%d += 1\n" % i + b + p + "}\n",
                        "loop": p + "loop {\n" + b + p + "    break\n" + p + "}\n", "when": p + "when n >= 0 {\n" + p + "is true {\n" + b + p + "}\n" + p + 'default { ev("no") }\n' + p + "}\n"}[s[1]]
        return out

    def source(self):
        self.uid = 1000
        b = self.text(self.body, 1)
        out = "do %s(n int) %s{\n    mut x int = 1\n    mut y int = 2\n    mut acc [int] = {}\n    mut two [int] = {5, 6}\n" % (self.name, RET[self.kind]) + b
        out += ("    " + self.ret_text(self.final) + "\n" if self.final else "") + "}\n"
        sh = {"void": "    %s(n)\n", "int": "    println(%s(n))\n", "string": "    println(%s(n))\n", "array": "    println(%s(n))\n", "struct": '    mut p = %s(n)\n    println("${p.a} ${p.s} ${p.m}")\n',
              "pair": '    mut a, b = %s(n)\n    println("${a} ${b}")\n', "ierr": '    mut a, e = %s(n)\n    println("${a} ${show_error(e)}")\n', "serr": '    mut a, e = %s(n)\n    println("${a} ${show_error(e)}")\n',
              "aerr": '    mut a, e = %s(n)\n    arrays.append(a, 9)\n    println("${a} ${show_error(e)}")\n', "perr": '    mut p, e = %s(n)\n    p.m["new"] = 4\n    println("${p.a} ${p.s} ${p.m} ${show_error(e)}")\n',
              "merr": '    mut m, e = %s(n)\n    m["new"] = 4\n    println("${m} ${show_error(e)}")\n', "err": "    mut e = %s(n)\n    println(show_error(e))\n"}[self.kind] % self.name
        return out + "do run_%s(n int) {\n%s}\n" % (self.name, sh)

    # ---- reference execution
    def run(self, n, st):
        """st: {"g": int, "out": [...]}; prints what run_<name>(n) prints."""
        sc, acc, ens = [{"x": 1, "y": 2}], [], []
        out = st["out"]
        def get(v):
            for s in reversed(sc):
                if v in s: return s[v]
        def put(v, k):
            for s in reversed(sc):
                if v in s:
                    s[v] = k
                    return
        def bumpv(k):
            st["g"] = (st["g"] * 3 + k) % 10007
            out.append("bumpv %d %d" % (k, st["g"]))
            return st["g"]
        def val(k):
            if k == "x": return get("x") + get("y")
            if k == "g": return st["g"]
            if k == "const": return 42
            if k == "bumpv": return bumpv(get("x"))
            out.append("value %s %d" % (self.name, get("x")))
            return get("x")
        def result(how):
            k, fail = how
            K = self.kind
            if K == "void": return None
            x, y = get("x"), get("y")
            if K == "err": return self.name + " fails %d" % x if fail else None
            if K == "serr": return ("t%d" % x, self.name + " fails %d" % x if fail else None)
            v = val(k)
            e = self.name + " fails %d" % x if fail else None
            return {"int": v, "string": "s%d" % v, "array": [x, v], "struct": (v, "p%d" % y, {"k": x}), "pair": (v, "q%d" % x), "ierr": (v, e), "aerr": ([v, x, y], e),
                    "perr": ((v, "r", {}), e), "merr": ({"m": v}, e)}[K]
        def execute(stmts):
            for s in stmts:
                if s[0] == "ev": out.append("%s at %d %d %d" % (self.name, s[1], get("x"), get("y")))
                elif s[0] == "shadow": sc[-1]["x"] = s[1] + 1
                elif s[0] == "set": put(s[1], s[2])
                elif s[0] == "exit":
                    if n == s[1]: raise Leave(result(s[2]))
                elif s[0] == "ens": ens.append(s)
                elif s[0] == "or":
                    x = get("x")
                    if s[2] == "risky": out.append("risky %s %d" % (str(n == s[1]).lower(), x))
                    else: out.append("riskys %d" % x)
                    if n == s[1]:
                        e = ("risk %d" if s[2] == "risky" else "risks %d") % x
                        if s[4] == "own": e = "own %d" % x
                        z = {"ierr": 0, "serr": "", "aerr": [], "perr": (0, "", {}), "merr": {}}[self.kind]
                        if s[4] != "bare":
                            z = {"ierr": s[3], "serr": "f%d" % s[3], "aerr": [s[3], 2], "perr": (s[3], "z", {}), "merr": {"f": s[3]}}[self.kind]
                        raise Leave((z, e))
                    out.append("%s got %s" % (self.name, x * 2 if s[2] == "risky" else "<%d>" % x))
                elif s[0] == "call": s[1].run(s[2], st)
                else:
                    for _ in range(2 if s[1] in ("for", "each", "while") else 1):
                        sc.append({})
                        try:
                            execute(s[2])
                        finally:
                            if not sys.exc_info()[0]: sc.pop()
        ret = None
        try:
            execute(self.body)
            if self.final: ret = result(self.final)
        except Leave as e:
            ret = e.args[0]
        del sc[1:]
        for s in reversed(ens):
            if s[1] == "ev": out.append("%s ensures %d %d %d %d" % (self.name, s[2], get("x"), get("y"), n))
            elif s[1] == "bump":
                st["g"] = (st["g"] * 3 + s[2] + get("x")) % 10007
                out.append("bump %d %d %d" % (s[2], get("x"), st["g"]))
            elif s[1] == "grow":
                acc.append(s[2])
                out.append("grow %d" % len(acc))
            else: out.append("%s last %d" % (self.name, len(acc)))
        out.append(self.display(ret))
        if self.kind == "void": out.pop()

    def display(self, r):
        K = self.kind
        ar = lambda a: "{" + ", ".join(map(str, a)) + "}"
        mp = lambda m: "{" + ", ".join('"%s": %d' % kv for kv in m.items()) + "}" if m else "{:}"
        no = lambda e: "none" if e is None else e
        if K == "void": return ""
        if K == "err": return no(r)
        if K in ("int", "string"): return str(r)
        if K == "array": return ar(r)
        if K == "struct": return "%d %s %s" % (r[0], r[1], mp(r[2]))
        if K == "pair": return "%d %s" % r
        if K in ("ierr", "serr"): return "%s %s" % (r[0], no(r[1]))
        if K == "aerr": return "%s %s" % (ar(r[0] + [9]), no(r[1]))
        if K == "perr": return "%d %s %s %s" % (r[0][0], r[0][1], mp({**r[0][2], "new": 4}), no(r[1]))
        return "%s %s" % (mp({**r[0], "new": 4}), no(r[1]))


TVS = '''do tvs(x int) -> string {
    println("value %s ${x}")
    return "s${x}"
}
'''


def generated(c, n):
    """n programs of a few functions, every exit of every function."""
    jobs = []
    for i in range(n):
        rng = random.Random(c.seed * 7919 + i)
        fns = []
        for j in range(4):
            fns.append(Fn(rng, "f%d" % j, fns[:]))
        src = "import @arrays\n" + BASE
        st = {"g": 1, "out": []}
        src_main = "do main() {\n"
        for f in fns:
            t = f.source()
            if "tvs(x)" in t:
                t = t.replace("tvs(x)", "tvs_%s(x)" % f.name)
                src += TVS.replace("tvs", "tvs_" + f.name).replace("%s", f.name)
            src += t
            for e in range(0, f.exits + 2):
                src_main += '    println("-- %s %d")\n    run_%s(%d)\n' % (f.name, e, f.name, e)
                st["out"].append("-- %s %d" % (f.name, e))
                f.run(e, st)
                c.case("exit/%s/%d-%d" % (f.kind, f.nens, e > 0))
                c.count("exits")
        jobs.append((i, src + src_main + "}\n", "\n".join(st["out"]) + "\n"))
    gs = {v: Gray(c, v) for v in ("plain", "asan")}
    def one(job):
        i, src, want = job
        for v in (("plain", "asan") if i % 4 == 0 else ("plain",)):
            b, r = gs[v].compile(src, name="gen%d%s" % (i, v))
            if not b:
                return c.violation("generated program does not build: %s" % (r.text + r.etext)[:600], {"main.gray": src})
            r = gs[v].run(b, timeout=60)
            c.count("trace_events", r.text.count("\n"))
            if r.sanitizer:
                return c.violation("generated program: " + r.sanitizer[:800], {"main.gray": src})
            if r.rc != 0 or r.text != want:
                a, w = r.text.split("\n"), want.split("\n")
                k = next((k for k, (x, y) in enumerate(zip(a, w)) if x != y), min(len(a), len(w)))
                sec = [x for x in w[:k + 1] if x.startswith("--")][-1:]
                return c.violation("%s: line %d of the trace is %r, expected %r (status %s)" % (sec, k, a[k:k + 1], w[k:k + 1], r.rc), {"main.gray": src, "expected": want, "got": r.text})
    pmap(one, jobs)


TYPES = [  # type, a value, how to show v, zero shown
    ("int", "5", "${v}", "0"), ("i8", "cast(5, i8)", "${v}", "0"), ("u16", "cast(5, u16)", "${v}", "0"), ("uint", "cast(5, uint)", "${v}", "0"),
    ("i128", "cast(5, i128)", "${v}", "0"), ("u128", "cast(5, u128)", "${v}", "0"), ("i256", "cast(5, i256)", "${v}", "0"), ("u256", "cast(5, u256)", "${v}", "0"),
    ("float", "2.5", "${v}", "0.0"), ("f32", "cast(2.5, f32)", "${v}", "0.0"), ("bool", "true", "${v}", "false"), ("string", '"hey"', "[${v}]", "[]"), ("char", "'c'", "${cast(v, int)}", "0"),
    ("byte", "cast(7, byte)", "${v}", "0"), ("[int]", "{1, 2}", "${v}", "{}"), ("[string]", '{"a"}', "${v}", "{}"), ("[[int]]", "{{1}, {2, 3}}", "${v}", "{}"), ("[string:int]", '{"a": 1}', "${v}", "{:}"),
    ("[string:[int]]", '{"a": {1}}', "${v}", "{:}"), ("Rec", 'Rec{n: 3, s: "x", a: {4}, m: {"q": 1}, w: cast(9, i256)}', "${v.n} ${v.s} ${v.a} ${v.m} ${v.w}", "0  {} {:} 0"),
    ("Col", "Col.GREEN", "${cast(v, int)}", "0"), ("Tag", 'Tag.WORD("zz")', "${show_tag(v)}", "num 0"), ("^Rec", None, None, None), ("[Rec]", '{Rec{n: 1, s: "k", a: {}, m: {:}, w: cast(0, i256)}}', "${len(v)}", "0")]


def types(s):
    decls = '''const Rec struct {
    n int
    s string
    a [int]
    m [string:int]
    w i256
}
const Col enum {
    RED
    GREEN
}
const Tag enum {
    NUM(int)
    WORD(string)
}
do show_tag(t Tag) -> string {
    mut r string = "?"
    when t {
        is Tag.NUM(n) { r = "num ${n}" }
        is Tag.WORD(w) { r = "word ${w}" }
        default { r = "none" }
    }
    return r
}
do shown(e Error) -> string {
    if e == nil { return "none" }
    return e.message
}
'''
    for i, (t, val, show, zero) in enumerate(TYPES):
        if val is None or show is None:
            continue
        d = decls + '''do make%d(fail bool) -> (%s, Error) {
    if fail { return %s, error("no %s") }
    return %s, nil
}
do direct%d(fail bool) -> (%s, Error) {
    mut v = make%d(fail) or_return
    return v, nil
}
do twice%d(fail bool) -> (%s, Error) {
    mut w = direct%d(fail) or_return
    mut v = direct%d(!fail) or_return w
    return v, nil
}
do inloop%d(fail bool) -> (int, Error) {
    mut total int = 0
    for i in range(0, 3) {
        mut v = make%d(fail && i == 1) or_return total
        total += 10
        println("%s")
    }
    return total, nil
}
do dropped%d(fail bool) -> Error {
    _ = make%d(fail) or_return
    println("kept")
    return nil
}
''' % (i, t, val, t, val, i, t, i, i, t, i, i, i, i, show, i, i)
        ok = show.replace("${v}", "@") if False else None
        def line(kind):
            return '    mut v, e = %s%d(%s)\n    println("%s ${shown(e)}")\n' % (kind[0], i, kind[1], show)
        vals = {"int": "5", "i8": "5", "u16": "5", "uint": "5", "i128": "5", "u128": "5", "i256": "5", "u256": "5", "float": "2.5", "f32": "2.5", "bool": "true", "string": "[hey]", "char": "99", "byte": "7",
                "[int]": "{1, 2}", "[string]": '{"a"}', "[[int]]": "{{1}, {2, 3}}", "[string:int]": '{"a": 1}', "[string:[int]]": '{"a": {1}}', "Rec": '3 x {4} {"q": 1} 9', "Col": "1", "Tag": "word zz", "[Rec]": "1"}[t]
        s.add("or_return/" + t, '    mut v, e = direct%d(false)\n    println("%s ${shown(e)}")' % (i, show), "%s none\n" % vals, key="success", decls=d)
        s.add("or_return/" + t, '    mut v, e = direct%d(true)\n    println("%s ${shown(e)}")' % (i, show), "%s no %s\n" % (zero, t), key="failure", decls=d)
        s.add("or_return/" + t, '    mut v, e = twice%d(false)\n    println("%s ${shown(e)}")' % (i, show), "%s no %s\n" % (vals, t), key="fallback", decls=d)
        s.add("or_return/" + t, '    mut v, e = inloop%d(false)\n    println("${v} ${shown(e)}")\n    mut v2, e2 = inloop%d(true)\n    println("${v2} ${shown(e2)}")' % (i, i),
              (vals + "\n") * 3 + "30 none\n" + vals + "\n10 no %s\n" % t, key="loop", decls=d)
        extra = {"[int]": "arrays.append(v, 8)\n    println(v)", "[string]": 'arrays.append(v, "z")\n    println(v)', "[[int]]": "arrays.append(v, {8})\n    println(v)", "[string:int]": 'v["k"] = 1\n    println(v)',
                 "[string:[int]]": 'v["k"] = {1}\n    println(v)', "Rec": 'v.m["k"] = 1\n    arrays.append(v.a, 6)\n    println("${v.m} ${v.a}")',
                 "[Rec]": 'arrays.append(v, Rec{n: 6, s: "", a: {}, m: {:}, w: cast(0, i256)})\n    println(v[0].n)'}.get(t)
        want = {"[int]": "{8}", "[string]": '{"z"}', "[[int]]": "{{8}}", "[string:int]": '{"k": 1}', "[string:[int]]": '{"k": {1}}', "Rec": '{"k": 1} {6}', "[Rec]": "6"}.get(t)
        if extra:
            s.add("or_return/" + t, "    mut v, e = direct%d(true)\n    println(shown(e))\n    %s" % (i, extra), "no %s\n%s\n" % (t, want), key="zero value in use", decls=d)
    lib = '''do shown(e Error) -> string {
    if e == nil { return "none" }
    return e.message
}
do num(t string) -> (int, Error) {
    mut v = strconv.to_int(t) or_return
    return v, nil
}
do real(t string) -> (float, Error) {
    mut v = strconv.to_float(t) or_return -1.0
    return v, nil
}
do sum(ts [string]) -> (int, Error) {
    mut total int = 0
    for_each t in ts {
        mut v = num(t) or_return total
        total += v
    }
    return total, nil
}
do read(path string) -> (string, Error) {
    mut v = io.read_file(path) or_return "none", error("cannot read")
    return v, nil
}
'''
    for args, want in ((("12",), "12 true"), (("x",), "0 false"), (("",), "0 false")):
        s.add("or_return/library", '    mut v, e = num(S(0))\n    println("${v} ${e == nil}")', want + "\n", args=args, decls=lib, key="to_int " + args[0])
    s.add("or_return/library", '    mut v, e = real("2.5")\n    println("${v} ${e == nil}")\n    mut v2, e2 = real("zz")\n    println("${v2} ${e2 == nil}")', "2.5 true\n-1.0 false\n", decls=lib, key="to_float")
    s.add("or_return/library", '    mut a [string] = {"1", "20", "300"}\n    mut v, e = sum(a)\n    println("${v} ${e == nil}")\n    a[2] = "q"\n    mut v2, e2 = sum(a)\n    println("${v2} ${e2 == nil}")', "321 true\n21 false\n", decls=lib, key="sum")
    s.add("or_return/library", '    mut v, e = read("/no/such/file")\n    println("${v} ${e.message}")', "none cannot read\n", decls=lib, key="read_file")


def ensures(s):
    d = '''const Acc struct {
    n int
    do close(a Acc) { println("close ${a.n}") }
    do work(a Acc, k int) -> int {
        ensure Acc.close(a)
        if k > 1 { return k }
        println("work")
        return a.n
    }
}
mut trail string = ""
do note(t string) { trail = "${trail}${t}," }
do many(n int) -> int {
''' + "".join('    ensure note("%d")\n    if n == %d { return n }\n' % (i, i) for i in range(1, 21)) + '''    return 0
}
do rec(n int) -> int {
    ensure note("r${n}")
    if n == 0 { return 0 }
    return rec(n - 1) + 1
}
do gen(x ?) -> ? {
    ensure note("g${x}")
    return x
}
do voids(n int) {
    ensure note("v1")
    if n == 1 { return }
    ensure note("v2")
    for i in range(0, 5) {
        for j in range(0, 5) {
            if i * j == n { return }
        }
    }
    note("end")
}
do later(n int) -> string {
    if n == 0 { return "early" }
    mut t string = "t${n}"
    ensure note(t)
    t = "${t}!"
    return t
}
do keep(&a [int]) -> int {
    ensure arrays.clear(a)
    return len(a)
}
do local() -> [int] {
    mut a [int] = {1, 2, 3}
    ensure arrays.clear(a)
    return a
}
do locked(m sync.Mutex, n int) -> int {
    sync.lock(m)
    ensure sync.unlock(m)
    if n == 1 { return 10 }
    return 20
}
do named(n int) -> (r int) {
    ensure note("n")
    mut r int = n * 2
    return r
}
do crash(n int) -> int {
    ensure note("c")
    ensure println("crash cleanup")
    mut a [int] = {1}
    return a[n]
}
'''
    add = lambda key, body, want: s.add("ensure/" + key, body, want, decls=d, key=key)
    add("method", "    mut a Acc = Acc{n: 4}\n    println(Acc.work(a, 0))\n    println(Acc.work(a, 9))", "work\nclose 4\n4\nclose 4\n9\n")
    for n in (1, 2, 10, 19, 20, 0):
        k = n or 20
        add("many", '    trail = ""\n    println(many(%d))\n    println(trail)' % n, "%d\n%s\n" % (n, "".join("%d," % i for i in range(k, 0, -1))))
    add("recursion", "    println(rec(4))\n    println(trail)", "4\nr0,r1,r2,r3,r4,\n")
    add("deep recursion", "    println(rec(500))\n    println(len(trail))", "500\n%d\n" % len("".join("r%d," % i for i in range(501))))
    add("generic", '    println(gen(5))\n    println(gen("s"))\n    println(gen(true))\n    println(trail)', "5\ns\ntrue\ng5,gs,gtrue,\n")
    add("void", "    voids(1)\n    println(trail)", "v1,\n")
    add("void", "    voids(6)\n    println(trail)", "v2,v1,\n")
    add("void", "    voids(99)\n    println(trail)", "end,v2,v1,\n")
    add("not reached", "    println(later(0))\n    println(trail)\n    println(later(3))\n    println(trail)", "early\n\nt3!\nt3!,\n")
    add("return value first", "    mut a [int] = {1, 2}\n    println(keep(a))\n    println(a)\n    println(local())", "2\n{}\n{1, 2, 3}\n")
    add("mutex", "    mut m = sync.mutex()\n    println(locked(m, 1))\n    println(locked(m, 2))\n    println(locked(m, 1))", "10\n20\n10\n")
    add("named return", "    println(named(4))\n    println(trail)", "8\nn,\n")
    add("panic", "    println(crash(3))", P(None, out=""))
    add("in main", '    mut k int = 1\n    println("body ${k}")', "body 1\n")


def check(c):
    s = Suite(c, "@arrays, @sync, @io", "", 12)
    types(s)
    ensures(s)
    s.run((("plain", 1), ("asan", 2)))
    generated(c, c.scale(60, 1500))
    g = Gray(c, "plain")
    for body, want in (('do bye(s string) { println(s) }\ndo main() {\n    mut x int = 1\n    ensure bye("a${x}")\n    ensure bye("b${x}")\n    x = 2\n    println("main")\n}\n', "main\nb2\na2\n"),):
        b, r = g.compile(body, name="mainens")
        r = g.run(b) if b else r
        c.case("ensure/main")
        if not b or r.text != want:
            c.violation("ensure in main: %r" % r.text, {"main.gray": body})


if __name__ == "__main__":
    main(check, "C10", "for every generated function and exit the printed trace and returned value equal the reference execution; or_return and ensure matrices match")
