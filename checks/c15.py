"""C15: a runtime fault always stops the program with a panic.

Fault kinds x expression positions x scopes.  Every fault is provoked with values the compiler cannot know, after output
that was not flushed; the monitor decides exit status 1, the panic code, file and line of the fault, that everything
printed before it arrives and that nothing after it executes."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

DECLS = r'''
const Node struct {
    v int
    next ^Node
    name string
}
const Pair struct {
    a int
    b int
    do total(p Pair, k int) -> int { return p.a + k }
}
const Sign enum {
    NEG
    ZERO
    POS
}
const Shape enum {
    DOT
    BOX(int)
}
mut sink int = 0
do arg(i int) -> int {
    mut v [string] = os.args()
    mut x, _ = strconv.to_int(v[i])
    return x
}
do z() -> int { return arg(2) }
do big() -> int { return 9223372036854775807 - z() }
do small() -> int { return -9223372036854775807 - 1 + z() }
do take(v int) -> int { return v }
do take2(a int, b int) -> int { return a - b }
do named(a int, b int = 3) -> int { return a * 2 + b }
do bump(&v int) { v = v + 1 }
do pairs() -> (int, int) { return 1 + z(), 2 }
do fails() -> (int, Error) {
    if z() == 0 { return 0, error("no") }
    return 1, nil
}
do cleanup() { println("AFTER cleanup") }
do forever(n int) -> int { return forever(n + 1) + 1 }
do mutual_a(n int) -> int { return mutual_b(n + 1) }
do mutual_b(n int) -> int { return mutual_a(n) + 1 }
do generic(x ?) -> ? { return x }
'''
LOCALS = r'''mut a [int] = {1, 2, 3}
mut e [int] = {}
mut n [[int]] = {{1, 2}, {3}}
mut m [string:int] = {"k": 1}
mut im [int:string] = {1: "one"}
mut s string = "abc"
mut p ^Node = nil
mut q ^Node = new(Node)
mut f1 float = 1.0e0
mut five int = 5 + z()
mut minus int = -1 - z()
mut zero int = z()
mut v int = 0
mut w8 i8 = cast(100 + z(), i8)
mut u8v u8 = cast(200 + z(), u8)
mut uv uint = cast(2 + z(), uint)
mut i16v i16 = cast(30000 + z(), i16)
mut u64v u64 = cast(5 + z(), u64)
mut wide i128 = cast(big(), i128)
mut k string = "nope"
mut done bool = false
mut sh Shape = Shape.DOT
'''.replace("1.0e0", "1.0")

# int-valued expressions that fault: (name, expression, code)
EXPR = [
    ("div0", "(10 / zero)", "P0078"), ("mod0", "(10 % zero)", "P0078"), ("add", "(big() + 1)", "P0004"), ("sub", "(small() - 1)", "P0005"),
    ("mul", "(big() * 2)", "P0006"), ("neg", "(-small())", "P0007"), ("min-div", "(small() / minus)", ("P0079", "P0006", "P0007")),
    ("index-high", "a[five]", "P0033"), ("index-neg", "a[minus]", "P0033"), ("index-len", "a[len(a)]", "P0033"), ("index-empty", "e[zero]", "P0033"),
    ("nested-inner", "n[1][five]", "P0033"), ("nested-outer", "n[five][0]", "P0033"), ("missing-key", "m[k]", "P0081"),
    ("missing-int-key", "len(im[five])", "P0081"), ("nil-field", "p.v", "P0080"), ("nil-deref", "p^.v", "P0080"), ("nil-chain", "q.next.v", "P0080"),
    ("cast-i8", "cast(cast(five * 100, i8), int)", "P0018"), ("cast-u8", "cast(cast(minus, u8), int)", "P0019"), ("cast-i32", "cast(cast(big(), i32), int)", "P0018"),
    ("cast-uint", "cast(cast(minus, uint), int)", "P0019"), ("u8-add", "cast(u8v + u8v, int)", "P0015"), ("i8-add", "cast(w8 + w8, int)", "P0011"),
    ("i8-sub", "cast(cast(minus, i8) * w8 - w8, int)", "P0012"), ("i16-mul", "cast(i16v * i16v, int)", "P0013"), ("uint-sub", "cast(uv - cast(five, uint), int)", "P0009"),
    ("u64-sub", "cast(u64v - cast(five + 5, u64), int)", ("P0016", "P0009")), ("float-int", "cast(cast(big(), float) * 4.0, int)", "P0020"),
    ("nan-int", "cast((f1 - f1) / (f1 - f1), int)", ("P0020", "P0078")), ("shift", "(1 bit_shift_left (five * 13))", "P0092"), ("shift-neg", "(1 bit_shift_right minus)", "P0092"),
    ("wide-cast", "cast(wide * wide, int)", ("P0093",)), ("wide-mul", "cast(wide * wide * wide * wide, int)", "P0023"),
    ("call-inside", "take(a[five])", "P0033"), ("generic-inside", "generic(a[five])", "P0033"), ("float-div0", "cast(f1 / cast(zero, float), int)", ("P0078", "P0020")),
    ("cond-inside", "take2(1, take(10 / zero))", "P0078"), ("first-empty", "arrays.get_first(e)", "P0045"), ("recursion", "forever(0)", "P0003"),
    ("mutual", "mutual_a(0)", "P0003"), ("string-index", "cast(s[five], int)", "P0082"), ("char-at", "cast(strings.char_at(s, five), int)", None), ("to-char", "cast(to_char(s, five), int)", "P0050"),
]
# library misuse without a place in the program
UNLOCATED = {"first-empty", "char-at", "to-char"}
OTHER_LINE = {"recursion", "mutual", "string-cast"}
CONTEXT = [
    ("print", "println({E})"), ("interpolated", "println(\"v ${{E}}\")"), ("declare", "mut x int = {E}\nsink = x"), ("assign", "v = {E}"),
    ("compound", "v += {E}"), ("if", "if {E} > 0 { println(\"AFTER then\") }"), ("while", "as_long_as {E} > 0 { println(\"AFTER body\") }"),
    ("for-end", "for i in range(0, {E}) { println(\"AFTER body\") }"), ("argument", "sink = take({E})"), ("second-argument", "sink = take2(1, {E})"),
    ("named-argument", "sink = named(a: 1, b: {E})"), ("array-literal", "mut b [int] = {1, {E}}\nsink = len(b)"),
    ("map-literal", "mut b [string:int] = {\"x\": {E}}\nsink = len(b)"), ("struct-literal", "mut b Pair = Pair{a: 1, b: {E}}\nsink = b.a"),
    ("index", "a[{E}] = 1"), ("index-read", "sink = a[{E}]"), ("when", "when {E} {\nis 1 { println(\"AFTER one\") }\ndefault { println(\"AFTER default\") }\n}"),
    ("and", "if five == 5 && {E} > 0 { println(\"AFTER and\") }"), ("or", "if five != 5 || {E} > 0 { println(\"AFTER or\") }"),
    ("left-operand", "sink = {E} * 2"), ("right-operand", "sink = 3 - {E}"), ("negated", "done = !({E} > 1)"),
    ("in-loop", "for i in range(0, 3) {\nif i == 2 { sink = {E} }\n}"), ("in-branch", "if five != 5 { println(\"no\") } otherwise { sink = {E} }"),
    ("when-branch", "when five {\nis 5 { sink = {E} }\ndefault { println(\"no\") }\n}"), ("method", "mut b Pair = Pair{a: 1, b: 2}\nsink = Pair.total(b, {E})"),
    ("append", "arrays.append(a, {E})"), ("field", "q.v = {E}"), ("element", "m[\"z\"] = {E}"), ("return-two", "mut x, y = take2(1, 1), 2\nsink = x + y + {E}"),
    ("tagged", "sh = Shape.BOX({E})"), ("string-conversion", "s = \"${to_string({E})}\""), ("reference", "mut r int = {E}\nbump(r)"), ("ensure", "ensure cleanup()\nsink = {E}"),
    ("cast", "sink = cast(cast({E}, float), int)"), ("in-range", "if {E} in range(0, 10) { println(\"AFTER in\") }"), ("not-in", "done = {E} not_in a"),
    ("fallback", "sink = take_fallback({E})"), ("length", "sink = len(strings.repeat(\"x\", {E}))"), ("loop", "loop {\nsink = {E}\nbreak\n}"),
]
CONTEXT = [x for x in CONTEXT if x[0] not in ("return-two", "fallback")]
# statements that fault: (name, body, code, located)
STMT = [
    ("write-high", "a[five] = 1", "P0033"), ("write-neg", "a[minus] = 1", "P0033"), ("compound-index", "a[five] += 1", "P0033"), ("compound-neg", "a[minus] -= 1", "P0033"),
    ("incr-index", "a[five]++", "P0033"), ("nested-write", "n[1][five] = 3", "P0033"), ("nested-write-outer", "n[five][0] = 3", "P0033"), ("compound-key", "m[k] += 1", "P0081"),
    ("incr-key", "m[k]++", "P0081"), ("nil-write", "p.v = 1", "P0080"), ("nil-compound", "p.v += 1", "P0080"), ("nil-string-write", "p.name = \"x\"", "P0080"),
    ("nil-chain-write", "q.next.v = 4", "P0080"), ("incr-max", "v = big()\nv++", "P0004"), ("decr-min", "v = small()\nv--", "P0005"),
    ("u8-incr", "u8v = cast(255 + zero, u8)\nu8v++", "P0015"), ("u8-decr", "u8v = cast(zero, u8)\nu8v--", "P0016"), ("i8-compound", "w8 += w8", "P0011"),
    ("uint-decr", "uv = cast(zero, uint)\nuv--", "P0009"), ("uint-compound", "uv -= cast(five, uint)", "P0009"), ("div-compound", "v /= zero", "P0078"), ("mod-compound", "v %= zero", "P0078"),
    ("mul-compound", "v = big()\nv *= 3", "P0006"), ("field-overflow", "q.v = big()\nq.v += 1", "P0004"), ("element-overflow", "a[1] = big()\na[1] += 1", "P0004"),
    ("map-overflow", "m[\"k\"] = big()\nm[\"k\"] += 1", "P0004"), ("assert", "assert(zero == 1)", "P0075"), ("assert-message", "assert(zero == 1, \"because\")", "P0075"),
    ("panic", "panic(\"own words\")", "P0076"), ("array-loop", "for_each x in a {\nif x == 2 { arrays.append(a, 9) }\n}", "P0034"),
    ("map-loop", "for_each key, val in m { m[\"new\"] = 3 }", "P0035"), ("step-zero", "for i in range(0, 10, zero) { println(\"AFTER body\") }", "P0090"),
    ("nil-loop", "for i in range(0, 3) {\nif i == 1 { p.v = i }\n}", "P0080"), ("ref-nil", "mut r ^int = nil\nr^ = 3", "P0080"), ("ref-nil-read", "mut r ^int = nil\nsink = r^ + 1", "P0080"),
    ("when-index", "when a[five] {\nis 1 { println(\"AFTER one\") }\ndefault { println(\"AFTER\") }\n}", "P0033"),
    ("deep-loop", "for i in range(0, 2) {\nfor j in range(0, 2) {\nas_long_as !done {\nsink = a[five + i + j]\n}\n}\n}", "P0033"),
    ("ensure-kept", "ensure cleanup()\nensure cleanup()\na[five] = 1", "P0033"),
]
# misuse of library functions: (name, body, code)
LIB = [
    ("insert_at", "arrays.insert_at(a, five, 1)", "P0043"), ("insert_at-neg", "arrays.insert_at(a, minus, 1)", "P0043"), ("remove_at", "arrays.remove_at(a, five)", "P0044"),
    ("get_first", "println(arrays.get_first(e))", "P0045"), ("get_last", "println(arrays.get_last(e))", "P0046"), ("remove_first", "println(arrays.remove_first(e))", "P0047"),
    ("remove_last", "println(arrays.remove_last(e))", "P0048"), ("to_char-neg", "println(to_char(s, minus))", "P0049"), ("to_char", "println(to_char(s, five))", "P0050"),
    ("random_hex", "println(crypto.random_hex(minus))", "P0051"), ("arena-size", "mut ar = mem.arena(big())\nmem.destroy(ar)", "P0061"), ("arena-twice", "mut ar = mem.arena(1024)\nmem.destroy(ar)\nmem.destroy(ar)", "P0002"),
    ("arena-dead", "mut ar = mem.arena(1024)\nmem.destroy(ar)\nmut pp ^int = mem.alloc(ar, five)\nsink = pp^", "P0001"),
    ("sample", "println(random.sample(a, five))", "P0062"), ("sample-neg", "println(random.sample(a, minus))", "P0063"), ("sqrt", "println(math.sqrt(cast(minus, float)))", "P0064"),
    ("log", "println(math.log(cast(zero, float)))", "P0065"), ("log2", "println(math.log2(cast(minus, float)))", "P0066"), ("log10", "println(math.log10(cast(zero, float)))", "P0067"),
    ("asin", "println(math.asin(cast(five, float)))", "P0068"), ("acos", "println(math.acos(cast(five, float)))", "P0069"), ("factorial", "println(math.factorial(minus))", "P0070"),
    ("repeat-neg", "println(strings.repeat(s, minus))", "P0072"), ("repeat-big", "println(len(strings.repeat(s, big())))", "P0073"), ("uuid", "println(uuid.parse(s))", "P0074"),
    ("sleep", "sleep_ms(minus)", "P0083"), ("sleep-s", "sleep_s(minus)", "P0083"), ("to-int", "println(cast_text(s))", None), ("delete-dir", "println(io.delete_file(\".\"))", "P0077"),
    ("read-dir", "println(io.read_file(\".\"))", "P0086"), ("write-dir", "println(io.write_file(\".\", \"x\"))", "P0087"), ("append-dir", "println(io.append_file(\".\", \"x\"))", "P0088"),
    ("copy-dir", "println(io.copy_file(\".\", \"y\"))", "P0089"), ("base64-length", "println(encoding.base64_decode(\"abc${zero}x\"))", None),
    ("hex-odd", "println(encoding.hex_decode(s))", "P0040"), ("hex-char", "println(encoding.hex_decode(\"zz\"))", "P0041"), ("base64-len", "println(encoding.base64_decode(s))", "P0036"),
    ("base64-char", "println(encoding.base64_decode(\"ab*c\"))", "P0039"), ("url", "println(encoding.url_decode(\"%zz\"))", "P0042"),
]
LIB = [x for x in LIB if x[2]]


def program(cases, imports):
    """-> source, {case number: line of the fault}"""
    lines = ["import " + imports] + DECLS.strip("\n").split("\n")
    at = {}
    for i, (name, body, code, loc) in enumerate(cases):
        lines.append(f"do case_{i}() {{")
        lines += ["    " + x for x in LOCALS.strip().split("\n")]
        lines += ['    println("BEFORE")', '    print("partial")']
        for x in body.split("\n"):
            lines.append("    " + x)
            if "@" in x:
                pass
        at[i] = (len(lines) - body.count("\n"), len(lines))
        lines += ['    println("AFTER")', "    sink = v + minus + five + len(a) + len(e) + len(n) + len(m) + len(im) + len(s) + cast(w8, int) + cast(u8v, int)",
                  "    if p == nil && done && q != nil && len(k) == 0 && uv == u64v && f1 > 1.0 && i16v == cast(3, i16) && wide == cast(4, i128) { println(sink) }", "}"]
    lines += ["do main() {", "    mut sel int = arg(1)", "    when sel {"] + [f"        is {i} {{ case_{i}() }}" for i in range(len(cases))] + ["        default { }", "    }", '    println("AFTER main")', "}"]
    return "\n".join(lines) + "\n", at


IMP = "@os, @strconv, @arrays, @strings, @maps, @math, @random, @crypto, @encoding, @uuid, @io, @mem"


def check(c):
    rng = c.rng
    cases = []
    for en, e, code in EXPR:
        ctx = CONTEXT
        if not c.thorough and en not in ("index-high", "div0", "missing-key"):
            ctx = [CONTEXT[0]] + rng.sample(CONTEXT[1:], 9)
        for cn, t in ctx:
            if cn == "interpolated" and '"' in e:
                continue
            cases.append((f"{en} in {cn}", t.replace("{E}", e), code, en not in UNLOCATED and (en not in OTHER_LINE or "any")))
    cases += [(n, b, code, True) for n, b, code in STMT] + [(n, b, code, False) for n, b, code in LIB]
    opts = [("plain", None), ("asan", None)] + ([("plain", "-O0"), ("plain", "-O2")] if c.thorough else [])
    for vi, (variant, opt) in enumerate(opts):
        g = Gray(c, variant, opt)
        sel = cases if vi == 0 or c.thorough else rng.sample(cases, 90)
        groups = [sel[i:i + 30] for i in range(0, len(sel), 30)]
        built = []

        def comp(grp):
            src, at = program(grp, IMP)
            b, r = g.compile(src, "f")
            if b:
                return [(grp, src, at, b, r)]
            if len(grp) == 1:
                return [(grp, src, at, None, r)]
            h = len(grp) // 2
            return comp(grp[:h]) + comp(grp[h:])
        for part in pmap(comp, groups):
            built += part
        jobs = []
        for grp, src, at, b, r in built:
            if not b:
                name, body, code, loc = grp[0]
                c.case(("uncompiled", name))
                c.count("uncompiled")
                m = re.search(r"error\[(E\d+)\].*", r.etext + r.text)
                if m:
                    if os.environ.get("VERIF_DEBUG"):
                        print("UNCOMPILED", name, m.group(0)[:150])
                elif not c.finding(c.known_cell(f"build|{name}")):
                    c.violation(f"{name}: accepted but does not build: {(r.text + r.etext)[-300:]}", {"main.gray": src})
                continue
            jobs += [(grp[i], src, at[i], b, i) for i in range(len(grp))]
        for (cs, src, at, b, i), r in zip(jobs, pmap(lambda j: g.run(j[3], [str(j[4]), "0"], timeout=60, cwd=c.work), jobs)):
            name, body, code, loc = cs
            c.case((variant, opt, name))
            c.count("faults_" + variant)
            bad = None
            if r.timeout or r.sanitizer or r.rc != 1:
                bad = f"rc={r.rc}{' timeout' if r.timeout else ''} {(r.sanitizer or "")[:300] or (r.text[-80:] + r.etext[-200:])!r}"
            elif r.text != "BEFORE\npartial":
                bad = f"output {r.text[-120:]!r}"
            else:
                m = re.search(r"panic\[(P\d+)\](?: at (\S+):(\d+))?: ?", r.etext)
                codes = code if isinstance(code, tuple) else (code,)
                if not m:
                    bad = f"no panic message: {r.etext[-200:]!r}"
                elif code and m.group(1) not in codes:
                    bad = f"panic {m.group(1)} instead of {code}: {r.etext[-200:]!r}"
                elif not r.etext[m.end():].strip():
                    bad = "the panic has no message"
                elif loc and (not m.group(2) or os.path.basename(m.group(2)) != "f.gray"):
                    bad = None if c.finding(c.known_cell("nolocation|" + m.group(1))) else f"no location in {r.etext[-200:]!r}"
                elif loc is True and not at[0] <= int(m.group(3)) <= at[1]:
                    bad = f"reported at line {m.group(3)}, the fault is in lines {at[0]}..{at[1]}"
                elif r.etext.count("panic[") != 1:
                    bad = f"more than one panic: {r.etext!r}"
                c.seen("codes", m.group(1) if m else "")
            if bad and not c.finding(c.known_cell(name)):
                c.violation(f"{name} ({variant} {opt or ''}): {bad}", {"main.gray": src}, detail={"body": body, "stderr": r.etext[-3000:]})
    modules(c)


def modules(c):
    """The location names the file the fault is in, also for imported modules."""
    g = Gray(c, "plain")
    src = {"main.gray": 'import lib"./lib.gray"\nimport @os\ndo main() {\n    println("BEFORE")\n    mut a [string] = os.args()\n    mut v int = lib.pick(len(a) + 5)\n    println("AFTER ${v}")\n}\n',
           "lib.gray": 'do pick(i int) -> int {\n    mut a [int] = {1, 2}\n\n    return a[0] / (i - 6)\n}\n'}
    b, r = g.compile(src, "m")
    if not b:
        src["main.gray"] = src["main.gray"].replace('import lib"./lib.gray"', 'import "./lib.gray"')
        b, r = g.compile(src, "m")
    if not b:
        c.violation("the two-file program does not build: " + r.brief()["stderr"][:300], src)
        return
    r = g.run(b, [], timeout=30)
    c.case("module")
    if r.rc != 1 or r.text != "BEFORE\n" or not re.search(r"panic\[P0078\] at \S*lib\.gray:4:", r.etext):
        if not c.finding(c.known_cell("module")):
            c.violation(f"fault in lib.gray line 4: rc={r.rc} {r.text!r} {r.etext[-200:]!r}", src)


if __name__ == "__main__":
    main(check, "C15", "every provoked fault ends with status 1, its code and location, the earlier output intact and nothing after it")
