"""C18: JSON parsing and encoding are correct and mutually inverse.

Oracle: Python's json (strict RFC 8259 grammar enforced with a small tokenizer for what Python accepts beyond it).
Documents are generated, mutated byte by byte, nested up to the limit; decoded values, re-encoded values and #json
structs (scalars, nested structs, arrays of structs) are compared with the oracle, under ASan/UBSan for a share."""
import sys, os, json, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

TYPES = """
#json
const Pt struct {
    x int
    y float
}
#json
const Rec struct {
    name string
    n int
    u uint
    f float
    ok bool
}
#json
const Deep struct {
    id int
    p Pt
    r Rec
}
#json
const Many struct {
    title string
    pts [Pt]
    recs [Rec]
}
do show_rec(r Rec) {
    println(r.name)
    println("${r.n} ${r.u} ${r.ok}")
    println(r.f)
}
"""


def strict(text):
    """Is text (bytes) a JSON document?  Written against RFC 8259, not with a library."""
    s, i, n = text, 0, len(text)

    def ws(i):
        while i < n and s[i] in b" \t\r\n":
            i += 1
        return i
    num = re.compile(rb"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?")
    strre = re.compile(rb'"(?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*"')
    stack = []          # closers
    i = ws(i)
    state = "value"
    while True:
        if state == "value":
            i = ws(i)
            if i >= n:
                return False
            ch = s[i:i + 1]
            if ch == b"{":
                i = ws(i + 1)
                if s[i:i + 1] == b"}":
                    i += 1
                    state = "after"
                else:
                    stack.append("}")
                    state = "key"
            elif ch == b"[":
                i = ws(i + 1)
                if s[i:i + 1] == b"]":
                    i += 1
                    state = "after"
                else:
                    stack.append("]")
            elif ch == b'"':
                m = strre.match(s, i)
                if not m:
                    return False
                i = m.end()
                state = "after"
            else:
                for w in (b"true", b"false", b"null"):
                    if s.startswith(w, i):
                        i += len(w)
                        break
                else:
                    m = num.match(s, i)
                    if not m:
                        return False
                    i = m.end()
                state = "after"
        elif state == "key":
            i = ws(i)
            m = strre.match(s, i)
            if not m:
                return False
            i = ws(m.end())
            if s[i:i + 1] != b":":
                return False
            i += 1
            state = "value"
        else:
            i = ws(i)
            if not stack:
                return i == n
            if s[i:i + 1] == b",":
                i += 1
                state = "key" if stack[-1] == "}" else "value"
            elif s[i:i + 1] == stack[-1].encode():
                stack.pop()
                i += 1
            else:
                return False


class Gen:
    def __init__(self, rng):
        self.r = rng

    def text(self):
        r = self.r
        return "".join(r.choice(["a", "B", "7", " ", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", "é", "ß", "漢", "😀", "{", "}", "[", "]", ",", ":", "\u2028", "\ufeff", "null", "\\n"]) for _ in range(r.choice([0, 1, 2, 3, 5, 9])))

    def string(self, t=None):
        """a JSON spelling of t with arbitrary legal escapes"""
        r = self.r
        t = self.text() if t is None else t
        out = []
        for ch in t:
            o = ord(ch)
            short = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f", "/": "\\/"}
            if ch in short and (ch != "/" or r.random() < .5) and r.random() < .8:
                out.append(short[ch])
            elif o < 32 or ch in '"\\' or r.random() < .2:
                u = o
                if o > 0xffff:
                    u -= 0x10000
                    esc = f"\\u{0xd800 + (u >> 10):04x}\\u{0xdc00 + (u & 0x3ff):04x}"
                else:
                    esc = f"\\u{o:04x}"
                out.append(esc if r.random() < .5 else esc[:1] + "u" + esc[2:].upper().replace("\\U", "\\u"))
            else:
                out.append(ch)
        return '"' + "".join(out) + '"'

    def num(self):
        r = self.r
        return r.choice([str(r.randint(-10 ** r.choice([1, 3, 9, 18]), 10 ** r.choice([1, 3, 9, 18]))), "0", "-0", "0.5", "1e5", "1E+5", "-2.5e-3", "123456789012345678901234567890", "0e0", repr(r.uniform(-1e6, 1e6))])

    def ws(self):
        return "".join(self.r.choice(" \t\n\r") for _ in range(self.r.choice([0, 0, 0, 1, 2])))

    def value(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            return r.choice([self.string, self.num, lambda: r.choice(["true", "false", "null"])])()
        w = self.ws
        if k < .72:
            return "[" + ",".join(w() + self.value(d - 1) + w() for _ in range(r.randrange(0, 4))) + (w() if r.random() < .1 else "") + "]"
        return "{" + ",".join(w() + self.string() + w() + ":" + w() + self.value(d - 1) + w() for _ in range(r.randrange(0, 4))) + "}"

    def obj(self, d):
        n = self.r.randrange(0, 5)
        keys = []
        while len(keys) < n:
            k = self.text() + self.r.choice("abcdefgh")
            if k not in keys:
                keys.append(k)
        items = [(k, self.value(d)) for k in keys]
        w = self.ws
        return w() + "{" + ",".join(w() + self.string(k) + w() + ":" + w() + v + w() for k, v in items) + "}" + w(), items

    def mutate(self, t):
        b = bytearray(t.encode())
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(5)
            p = r.randrange(len(b) + 1)
            if k == 0 and b:
                del b[p:p + r.choice([1, 1, 2, 5])]
            elif k == 1:
                b[p:p] = r.choice([b",", b"}", b"]", b"{", b"[", b":", b'"', b"\\", b"0", b"-", b".", b"e", b"\x0b", b"\x0c", b"\n", b"+", b"x", b"'", b"\xc2\xa0", b"nul", b"true", b"//", b"1"])
            elif k == 2 and p < len(b):
                b[p] = r.choice(b',}]{[:"\\0-.eE tfn\x1f\x0c')
            elif k == 3:
                b = b[:p]
            else:
                b += r.choice([b",", b" x", b"}", b"]", b"1", b"{}", b" \t"])
        b = bytes(x for x in b if x)     # arguments cannot hold NUL
        return b


FIXED = [b"", b" ", b"{}", b"[]", b"null", b"nul", b"nulll", b"true", b"truefalse", b"0", b"00", b"01", b"-", b"-0", b"-01", b"1.", b".5", b"1.5", b"1e", b"1e+", b"1e5", b"1E-5", b"+1", b"1e5.5", b"0x10", b"NaN", b"Infinity", b"-Infinity", b'"', b'""', b'"\\"', b'"\\x"', b'"\\u12"', b'"\\u123g"', b'"\\u1234"', b'"a\nb"', b'"a\tb"', b'"\x7f"', b"'a'", b"[1,]", b"[,1]", b"[1 2]", b"[1,2", b"1,2", b"{1:2}", b'{"a"}', b'{"a":}', b'{"a":1,}', b'{,"a":1}', b'{"a":1 "b":2}', b'{"a":1}}', b"[[]", b"[]]", b"{}{}", b"[] []", b"\x0b1", b"1\x0c", b"\xc2\xa01", b"\xef\xbb\xbf1", b"[1]//c", b"/*c*/1", b'{"a":{"b":[{}]}}', b"\t\n\r 1 \t\n\r", b'{"a":1,"a":2}', b'{"":0}', b"tru", b"fals", b"True", b"[true,false,null]", b'["\\/"]', b'"\\\\"', b'"\\u0041"', b'"\\uD83D\\uDE00"']


def check(c):
    rng = c.rng
    g = Gen(rng)
    valid = 'println(json.is_valid(S(0)))'
    decode = 'mut m, e = json.decode(S(0))\nif e != nil { println("ERR") } otherwise {\n    println(len(m))\n    for k in range(1, N()) { if has_key(m, S(k)) { println("[${m[S(k)]}]") } otherwise { println("absent") } }\n}'.replace("has_key(m,", "maps.has_key(m,")
    s = Suite(c, "json, maps, strings, arrays", TYPES, per=40)
    tf = lambda b: "true\n" if b else "false\n"
    for b in FIXED:
        s.add("is_valid", valid, tf(strict(b)), [b])
    for d in (1, 2, 50, 255, 400):
        for o, cl in (("[", "]"), ('{"a":', "}")):
            s.add("is_valid depth", valid, "true\n", [o * d + "1" + cl * d], key=f"{o}{d}")
            s.add("is_valid depth", valid, "false\n", [o * d + "1" + cl * (d - 1)], key=f"{o}{d}-")
            s.add("is_valid depth", valid, "false\n", [o * d + "1" + cl * (d + 1)], key=f"{o}{d}+")
    for _ in range(c.scale(300, 6000)):
        t = g.ws() + g.value(rng.choice([1, 2, 3, 5])) + g.ws()
        assert strict(t.encode()), t
        s.add("is_valid generated", valid, "true\n", [t])
        for _ in range(3):
            b = g.mutate(t)
            s.add("is_valid mutated", valid, tf(strict(b)), [b])

    def scalar(v):
        """what decode() must show for the JSON text v: strings their value, anything else its own text"""
        return json.loads(v) if v.startswith('"') else v
    for _ in range(c.scale(250, 5000)):
        t, items = g.obj(rng.choice([0, 1, 2, 3]))
        keys = [k for k, _ in items]
        exp = f"{len(items)}\n" + "".join(f"[{scalar(v)}]\n" for _, v in items)
        s.add("decode", decode, exp, [t] + keys)
        b = g.mutate(t)
        if not strict(b):
            s.add("decode rejects", decode, "ERR\n", [b])
    for b in (b'[1,2]', b'"a"', b'5', b'', b'{"a":1', b'{"a" 1}'):
        s.add("decode rejects", decode, "ERR\n", [b])

    # --- encoding: parsed by the oracle, compared as values
    def same(want):
        def f(r):
            if r.rc:
                return False
            b = r.out[:-1] if r.out.endswith(b"\n") else r.out
            if not strict(b):
                return False
            got = json.loads(b)
            return eq(got, want)
        return f

    def eq(a, b):
        if isinstance(b, float) and isinstance(a, (int, float)) and not isinstance(a, bool):
            return float(a) == b
        if type(a) is not type(b):
            return False
        if isinstance(b, list):
            return len(a) == len(b) and all(map(eq, a, b))
        if isinstance(b, dict):
            return set(a) == set(b) and all(eq(a[k], b[k]) for k in b)
        return a == b
    ints = [0, 1, -1, 10 ** 18, -2 ** 63, 2 ** 63 - 1, 2 ** 53 + 1]
    floats = [0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, 123456789.123456789, 1 / 3, 2.0 ** 60, 100.0, 1e15, 1e16, 1234567.0]
    floats += [rng.uniform(-1, 1) * 10.0 ** rng.randrange(-20, 20) for _ in range(c.scale(40, 400))]
    strs = ["", "plain", "\"", "\\", "\n\r\t\b\f", "\x01\x1f\x7f", "é漢😀", "a/b", "{\"x\":1}", "\\u0041", "\u2028"] + [g.text() for _ in range(c.scale(60, 600))]
    for fn in ("encode", "stringify"):
        for x in ints:
            s.add("encode int", f"mut x int = I(0)\nprintln(json.{fn}(x))", same(x), [x])
        for x in floats:
            s.add("encode float", f"mut x float = F(0)\nprintln(json.{fn}(x))", same(x), [repr(x)])
        for x in strs:
            s.add("encode string", f"mut x string = S(0)\nprintln(json.{fn}(x))", same(x), [x])
        for x in (True, False):
            s.add("encode bool", f"mut x bool = {str(x).lower()}\nprintln(json.{fn}(x))", same(x), key=fn + str(x))
        for t, lo, hi in (("u8", 0, 255), ("i8", -128, 127), ("i16", -2 ** 15, 2 ** 15 - 1), ("u16", 0, 65535), ("i32", -2 ** 31, 2 ** 31 - 1), ("u32", 0, 2 ** 32 - 1), ("i64", -2 ** 63, 2 ** 63 - 1)):
            for x in (lo, hi, 1):
                s.add("encode sized", f"mut x {t} = cast(I(0), {t})\nprintln(json.{fn}(x))", same(x), [x])
            s.add("encode sized array", f"mut a [{t}] = {{}}\nfor i in range(0, N()) {{ arrays.append(a, cast(I(i), {t})) }}\nprintln(json.{fn}(a))", same([lo, hi, 1, 0]), [lo, hi, 1, 0])
        for x in (0, 1, 2 ** 63, 2 ** 64 - 1):
            s.add("encode uint", f"mut x uint = U(0)\nprintln(json.{fn}(x))", same(x), [x])
        s.add("encode uint array", f"mut a [uint] = {{U(0), U(1)}}\nprintln(json.{fn}(a))", same([2 ** 64 - 1, 5]), [2 ** 64 - 1, 5])
        s.add("encode f32", f"mut x f32 = cast(F(0), f32)\nprintln(json.{fn}(x))", lambda r: not r.rc and abs(float(r.text) - 1.5) < 1e-6, ["1.5"])
        fill = {"int": ("I(i)", ints), "float": ("F(i)", floats[:12]), "string": ("S(i)", strs[:30]), "bool": ("S(i) == \"1\"", None)}
        for t, (e, vals) in fill.items():
            for n in (0, 1, 4):
                v = [rng.choice(vals) for _ in range(n)] if vals else [rng.random() < .5 for _ in range(n)]
                args = [repr(x) if t == "float" else ("1" if x else "0") if t == "bool" else x for x in v]
                s.add(f"encode [{t}]", f"mut a [{t}] = {{}}\nfor i in range(0, N()) {{ arrays.append(a, {e}) }}\nprintln(json.{fn}(a))", same(v), args, key=f"{fn} {args!r}")
                ks = [g.text() + str(i) for i in range(n)]
                e2 = e.replace("(i)", "(2 * i + 1)")
                mixed = [y for k, x in zip(ks, args) for y in (k, x)]
                s.add(f"encode [string:{t}]", f"mut m [string:{t}] = {{:}}\nfor i in range(0, N() / 2) {{ m[S(2 * i)] = {e2} }}\nprintln(json.{fn}(m))", same(dict(zip(ks, v))), mixed, key=f"{fn} {mixed!r}")
        s.add("encode nested", f"mut a [[int]] = {{{{I(0), I(1)}}, {{I(2)}}}}\nprintln(json.{fn}(a))", same([[1, -2], [3]]), [1, -2, 3], key=fn)
        s.add("encode nested", f"mut a [[string]] = {{{{S(0)}}, {{S(1), S(2)}}}}\nprintln(json.{fn}(a))", same([["\""], ["b\\", "é"]]), ["\"", "b\\", "é"], key=fn + "s")
        s.add("encode nested", f"mut m [string:[int]] = {{\"k\": {{I(0), I(1)}}, \"e\": {{I(2)}}}}\nprintln(json.{fn}(m))", same({"k": [1, 2], "e": [3]}), [1, 2, 3], key=fn + "m")
    s.add("encode int-keyed", "mut m [int:string] = {1: S(0), -2: S(1)}\nprintln(json.encode(m))", same({"1": "\"", "-2": "x"}), ["\"", "x"])

    # --- encode then decode gives the map back
    for _ in range(c.scale(40, 800)):
        kv = {}
        for _ in range(rng.randrange(1, 5)):
            kv[g.text() + rng.choice("abc")] = g.text()
        args = [y for k, v in kv.items() for y in (k, v)]
        s.add("encode/decode", "mut m [string:string] = {:}\nfor i in range(0, N() / 2) { m[S(2 * i)] = S(2 * i + 1) }\nmut d, e = json.decode(json.encode(m))\nprintln(e == nil)\nprintln(maps.is_equal(m, d))",
              "true\ntrue\n", args)
    # --- pretty_print
    for ind in (0, 1, 2, 4, 8):
        for _ in range(c.scale(8, 60)):
            kv = {g.text() + str(i): g.text() for i in range(rng.randrange(0, 4))}
            args = [ind] + [y for k, v in kv.items() for y in (k, v)]

            def pp(r, kv=kv, ind=ind):
                t = r.text[:-1]
                if not same(kv)(Result0(r)) or r.rc:
                    return False
                if not kv:
                    return True
                ls = t.split("\n")
                if ind == 0:
                    return True
                return len(ls) == len(kv) + 2 and all(l.startswith(" " * ind + '"') for l in ls[1:-1])
            s.add("pretty_print", "mut m [string:string] = {:}\nfor i in range(0, (N() - 1) / 2) { m[S(2 * i + 1)] = S(2 * i + 2) }\nprintln(json.pretty_print(m, I(0)))", pp, args)
    for t, e, v in (("int", "I(i)", [1, -5]), ("float", "F(i)", [0.1, 1e20]), ("bool", "S(i) == \"true\"", [True, False])):
        s.add("pretty_print typed", f"mut m [string:{t}] = {{:}}\nfor i in range(0, N()) {{ m[\"k${{i}}\"] = {e} }}\nprintln(json.pretty_print(m, 2))", same({f"k{i}": x for i, x in enumerate(v)}), [str(x).lower() for x in v])

    # --- #json structs
    def fnum(x):
        return "%s" % (int(x) if x == int(x) and abs(x) < 1e15 else repr(x))

    def rec():
        return {"name": g.text(), "n": rng.choice(ints), "u": rng.choice([0, 7, 2 ** 64 - 1]), "f": rng.choice(floats), "ok": rng.random() < .5}

    def spell(o):
        if isinstance(o, dict):
            it = list(o.items())
            if rng.random() < .4:
                rng.shuffle(it)
            if rng.random() < .3:
                it.insert(rng.randrange(len(it) + 1), ("extra\"", {"z": [1, "}", {"name": "no"}]}))
            return g.ws() + "{" + ",".join(g.ws() + g.string(k) + g.ws() + ":" + spell(v) for k, v in it) + "}" + g.ws()
        if isinstance(o, list):
            return g.ws() + "[" + ",".join(spell(v) for v in o) + g.ws() + "]"
        if isinstance(o, str):
            return g.ws() + g.string(o)
        if isinstance(o, bool):
            return str(o).lower()
        return g.ws() + (repr(o) if isinstance(o, float) else str(o))
    pt = lambda: {"x": rng.choice(ints), "y": rng.choice(floats)}
    for _ in range(c.scale(60, 1500)):
        r = rec()
        t = spell(r)
        s.add("struct parse/stringify", "mut r Rec = json.parse(S(0))\nprintln(json.stringify(r))", same(r), [t])
        s.add("struct fields", "mut r Rec = json.parse(S(0))\nprintln(r.name)\nprintln(\"${r.n} ${r.u} ${r.ok}\")\nprintln(r.f == F(1))", f"{r['name']}\n{r['n']} {r['u']} {str(r['ok']).lower()}\ntrue\n", [t, repr(r["f"])])
        d = {"id": rng.choice(ints), "p": pt(), "r": rec()}
        s.add("nested struct", "mut d Deep = json.parse(S(0))\nprintln(json.stringify(d))", same(d), [spell(d)])
        m = {"title": g.text(), "pts": [pt() for _ in range(rng.randrange(0, 4))], "recs": [rec() for _ in range(rng.randrange(0, 3))]}
        s.add("struct with arrays", "mut d Many = json.parse(S(0))\nprintln(json.stringify(d))", same(m), [spell(m)])
        s.add("struct with arrays", "mut d Many = json.parse(S(0))\nprintln(\"${len(d.pts)} ${len(d.recs)}\")\nmut e Many = json.parse(json.stringify(d))\nprintln(json.stringify(e) == json.stringify(d))", f"{len(m['pts'])} {len(m['recs'])}\ntrue\n", [spell(m)])
        a = [pt() for _ in range(rng.randrange(0, 4))]
        s.add("array of structs", "mut a [Pt] = json.parse(S(0))\nprintln(json.stringify(a))", same(a), [spell(a)])
    s.run((("plain", 1), ("asan", 12)))


def Result0(r):
    return r


if __name__ == "__main__":
    main(check, "C18", "json.is_valid, decode, encode, stringify, pretty_print and #json parse are run on generated, mutated and hostile documents and values; verdicts and values are compared with an independent strict JSON reader.")
