"""C16: printing and formatting render every value as specified.

Random values of random types (scalars of every width, strings, enums, arrays, maps, structs, pointers, nil, errors, and
nestings) are rendered by print, println, eprint, eprintln and interpolation and compared with a reference renderer;
float text must read back; literals are generated from escape pieces; format strings from flags, widths and precisions."""
import sys, os, re, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

DECL = """
const Col enum {
    RED
    GREEN
    BLUE
}
const Num enum {
    LOW = -5
    MID = 40
    HIGH = 4000000000
}
const Word enum {
    ONE = "one"
    TWO = "two words"
}
const Tag enum {
    NONE
    VAL(int)
}
"""
ENUMS = {"Col": [("RED", 0), ("GREEN", 1), ("BLUE", 2)], "Num": [("LOW", -5), ("MID", 40), ("HIGH", 4000000000)],
         "Word": [("ONE", "one"), ("TWO", "two words")]}
INTS = {"int": (-2**63, 2**63 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "uint": (0, 2**64 - 1), "byte": (0, 255)}
WIDE = {"i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1), "i256": (-2**255, 2**255 - 1), "u256": (0, 2**256 - 1)}


def ftext(x):
    if x != x: return "nan"
    if x in (float("inf"), float("-inf")): return "inf" if x > 0 else "-inf"
    for p in (15, 16, 17):
        s = "%.*g" % (p, x)
        if float(s) == x: break
    return s if any(ch in s for ch in ".en") else s + ".0"


def slit(rng, b):
    """A string literal denoting the bytes b, spelled with random escapes."""
    out = ""
    i = 0
    while i < len(b):
        ch = b[i]
        names = {10: "\\n", 13: "\\r", 9: "\\t", 92: "\\\\", 34: '\\"', 36: "\\$"}
        if ch >= 0x80:
            n = 2 if ch < 0xE0 else 3 if ch < 0xF0 else 4
            try:
                t = b[i:i + n].decode()
                if len(t) == 1 and rng.random() < .7:
                    out += t
                    i += n
                    continue
            except UnicodeDecodeError:
                pass
            out += "\\x%02x" % ch
        elif ch in names:
            out += names[ch] if rng.random() < .8 or ch in (92, 34, 36) else "\\x%02X" % ch
        elif ch < 32 or ch == 127 or rng.random() < .1:
            out += rng.choice(("\\x%02x", "\\x%02X")) % ch
        else:
            out += chr(ch)
        i += 1
    return '"' + out + '"'


def rbytes(rng, nul=True):
    k = rng.random()
    n = rng.choice((0, 1, 1, 2, 3, 5, 9, 20))
    if k < .5:
        a = [b"a", b"B", b" ", b"%d", b"%s", b"\n", b"\t", b"\\", b'"', b"$", b"{", b"}", b"?", b"/", b"'", b"0", b"f", b"9", b"n", b"x41"]
    elif k < .75:
        a = ["\u00e9".encode(), "\u65e5".encode(), "\U0001f600".encode(), b"z"]
    else:
        a = [bytes([x]) for x in range(0 if nul else 1, 256)]
    return b"".join(rng.choice(a) for _ in range(n)).replace(b"${", b"$ {")


class T:
    """A random type: name, declaration text, value generator giving (literal, rendering at top level, in a container)."""


class Gen:
    def __init__(self, rng):
        self.rng, self.decls, self.n = rng, [], 0

    def typ(self, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < .45:
            return r.choice(["int", "string", "float", "bool", "char", r.choice([x for x in INTS if x != "i64"]), r.choice(list(INTS)[:3]), "f32", "f64", "Col", "Num",
                             "Word", r.choice(list(WIDE))])
        if k < .65:
            e = self.typ(d - 1)
            return ("arr", e if isinstance(e, str) or e[0] != "map" else e[2])
        if k < .8:
            return ("map", r.choice(["int", "string", "string", "char", "bool", "u8", "uint"]), self.typ(d - 1))
        self.n += 1
        nm = f"Rec{r.randrange(10**9)}"
        fs = [(f"f{i}" if r.random() < .8 else r.choice(["name", "register", "value", "short", "struct_", "double", "auto_", "union"]) + str(i) * r.randrange(2),
               self.typ(d - 1)) for i in range(r.randrange(1, 5))]
        seen, keep = set(), []
        for f in fs:
            if f[0] not in seen:
                seen.add(f[0])
                keep.append(f)
        self.decls.append(f"const {nm} struct {{\n" + "\n".join(f"    {f} {self.name(t)}" for f, t in keep) + "\n}")
        return ("rec", nm, keep)

    def name(self, t):
        if isinstance(t, str): return t
        if t[0] == "arr": return f"[{self.name(t[1])}]"
        if t[0] == "map": return f"[{t[1]}:{self.name(t[2])}]"
        return t[1]

    def val(self, t, lit=True):
        """(literal, rendering, rendering inside a container) - renderings are bytes"""
        r = self.rng
        if isinstance(t, str):
            if t in INTS or t in WIDE:
                lo, hi = (INTS.get(t) or WIDE[t])
                v = r.choice((lo, hi, 0, 1, r.randrange(lo, hi + 1), r.randrange(max(lo, -100), min(hi, 100))))
                if t in ("int", "i64"):
                    v = max(v, -2**63 + 1)
                    return str(v), str(v).encode(), str(v).encode()
                if t in WIDE:
                    v = max(min(v, 2**62), -2**62)
                    return f"cast({v}, {t})", str(v).encode(), str(v).encode()
                return (f"cast({v}, {t})" if v < 2**63 else f"cast(\"\", {t})"), str(v).encode(), str(v).encode()
            if t in ("float", "f64"):
                x = r.choice((0.0, 1.0, -1.5, 0.1, 123456789.125, 1e15, 1e16, -2.5e-5, r.uniform(-1e6, 1e6), float(r.randrange(-10**9, 10**9)), r.random()))
                s = "%.17f" % x
                x = float(s)
                b = ftext(x).encode()
                return (f"cast({s}, f64)" if t == "f64" else s), b, b
            if t == "f32":
                x = r.choice((0.1, 1.5, -2.25, 3.0, r.uniform(-1e3, 1e3)))
                s = "%.9f" % x
                x = struct.unpack("f", struct.pack("f", float(s)))[0]
                b = ftext(x).encode()
                return f"cast({s}, f32)", b, b
            if t == "bool":
                v = r.choice(("true", "false"))
                return v, v.encode(), v.encode()
            if t == "char":
                cp = r.choice((r.randrange(32, 127), r.randrange(32, 127), 0xE9, 0x65E5, 0x1F600, 10))
                b = chr(cp).encode()
                return f"cast({cp}, char)", b, b"'" + b + b"'"
            if t == "string":
                b = rbytes(r)
                return slit(r, b), b, b'"' + b + b'"'
            m, v = r.choice(ENUMS[t])
            b = str(v).encode()
            return f"{t}.{m}", b, b'"' + b + b'"' if isinstance(v, str) else b
        if t[0] == "arr":
            vs = [self.val(t[1]) for _ in range(r.choice((0, 1, 2, 3)))]
            b = b"{" + b", ".join(v[2] for v in vs) + b"}"
            return "{" + ", ".join(v[0] for v in vs) + "}", b, b
        if t[0] == "map":
            seen, es = set(), []
            for _ in range(r.choice((0, 1, 2, 3))):
                k, v = self.val(t[1]), self.val(t[2])
                if k[1] not in seen:
                    seen.add(k[1])
                    es.append((k, v))
            b = b"{" + b", ".join(k[2] + b": " + v[2] for k, v in es) + b"}" if es else b"{:}"
            return ("{" + ", ".join(f"{k[0]}: {v[0]}" for k, v in es) + "}") if es else "{:}", b, b
        vs = [(f, self.val(ft)) for f, ft in t[2]]
        b = t[1].encode() + b"{" + b", ".join(f.encode() + b": " + v[2] for f, v in vs) + b"}"
        return f"{t[1]}{{" + ", ".join(f"{f}: {v[0]}" for f, v in vs) + "}", b, b


def flat(t):
    """nested literals the language accepts: an empty map only as a whole value"""
    return t


def nm_map_empty(t, lit):
    """a map literal whose first value is an empty array is not typed by the compiler (rejected, not misprinted)"""
    return not isinstance(t, str) and "{}" in lit and lit != "{}"


def values(c, s):
    rng = c.rng
    for i in range(c.scale(260, 3000)):
        g = Gen(rng)
        t = g.typ(rng.choice((0, 0, 1, 1, 2, 3)))
        lit, top, inner = g.val(t)
        if '""' in lit and "cast(\"\"" in lit: continue
        if "{:}" in lit and lit != "{:}" or nm_map_empty(t, lit): continue
        nm = g.name(t)
        decls = "\n".join(g.decls)
        kind = t if isinstance(t, str) else t[0]
        c.seen("printed_types", nm if not g.decls else kind)
        how = rng.randrange(5)
        pre = f"mut v {nm} = {lit}\n"
        if how == 0: s.add(f"println {kind}", pre + "println(v)", top + b"\n", decls=decls)
        elif how == 1: s.add(f"print {kind}", pre + 'print(v)\nprint("|")\nprint(v)', top + b"|" + top, decls=decls)
        elif how == 2:
            def ok(r, top=top):
                """the same rendering on standard error only"""
                return r.rc == 0 and r.out == b"" and r.err == top + b"\n" + top
            s.add(f"eprintln {kind}", pre + "eprintln(v)\neprint(v)", ok, decls=decls)
        elif how == 3:
            if isinstance(t, str) or t[0] != "rec":
                s.add(f"interpolation {kind}", pre + 'mut t string = "<${v}|${v}>"\nprintln(t)\nprintln(len(t))', b"<" + top + b"|" + top + b">\n" + str(2 * len(top) + 3).encode() + b"\n", decls=decls)
        else:
            s.add(f"println in function {kind}", "show_it(" + "v)", b"", decls=decls) if False else \
                s.add(f"println parenthesised copy {kind}", pre + f"mut w {nm} = copy(v)\nprintln(w)" if not isinstance(t, str) else pre + "println(v)", top + b"\n", decls=decls)


def floats(c, s):
    rng = c.rng
    body = "mut x float = cast(I(0), float)\nmut k int = I(1)\nfor i in range(0, 1100) {\n if k > 0 { x = x * 2.0\n k = k - 1 }\n or k < 0 { x = x / 2.0\n k = k + 1 }\n otherwise { break }\n}\nprintln(x)\nprint(\"${x}\")\neprint(x)\nmut a [float] = {x}\nprint(a)"
    for _ in range(c.scale(120, 2000)):
        x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0] if rng.random() < .5 else rng.choice((
            rng.uniform(-1, 1) * 10**rng.randrange(-20, 20), rng.randrange(10**6) / 1000, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308,
            float(rng.randrange(2**60)), 1e15 - 0.5, 1e22, 0.1 + 0.2, 0.0))
        if x != x or x in (float("inf"), float("-inf")): continue
        n, d = x.as_integer_ratio()
        k = 0
        while n and n % 2 == 0 and abs(n) >= 2**53:
            n //= 2
            k += 1
        k -= d.bit_length() - 1
        b = ftext(x).encode()

        def ok(r, b=b, x=x):
            """the shortest text of at most 17 digits that reads back as the value"""
            return r.rc == 0 and r.out == b + b"\n" + b + b"{" + b + b"}" and r.err == b and float(b) == x
        s.add("float text", body, ok, [n, k], repr(x))
    for body, e in (("mut z float = 0.0\nmut x float = F(0)\nprintln(x)", None),):
        for a, t in (("inf", "inf"), ("-inf", "-inf"), ("nan", "nan"), ("-0.0", "-0.0")):
            s.add("special floats", body, (t + "\n", "-nan\n") if a == "nan" else t + "\n", [a])
    f32 = "mut x float = F(0)\nmut y f32 = cast(x, f32)\nprintln(y)\nprint(\"${y}\")"
    for _ in range(c.scale(30, 300)):
        x = rng.choice((0.1, 1e10, 3.4e38, 1e-40, 16777217.0, rng.uniform(-1e5, 1e5)))
        y = struct.unpack("f", struct.pack("f", x))[0]
        s.add("f32 text", f32, f"{ftext(y)}\n{ftext(y)}", [repr(x)])


def scalars(c, s):
    rng = c.rng
    for t, (lo, hi) in INTS.items():
        fn = "U" if t in ("u64", "uint") else "I"
        body = f"mut x {t} = cast({fn}(0), {t})\nprintln(x)\nprint(\"<${{x}}>\")\nmut a [{t}] = {{x, x}}\nprintln(a)\nmut m [int:{t}] = {{1: x}}\nprintln(m)\neprint(x)\nprint(string(x))"
        for v in {lo, hi, 0, 1, lo + 1, hi - 1, hi // 2} | {rng.randrange(lo, hi + 1) for _ in range(c.scale(3, 30))}:
            def ok(r, v=v):
                """decimal in every position"""
                return r.rc == 0 and r.text == f"{v}\n<{v}>{{{v}, {v}}}\n{{1: {v}}}\n{v}" and r.etext == str(v)
            s.add(f"integer text {t}", body, ok, [v])
    for cp in [0, 1, 9, 10, 31, 32, 65, 127, 128, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF] + [rng.randrange(32, 0xD800) for _ in range(10)]:
        b = chr(cp).encode()
        s.add("char text", "mut x char = cast(I(0), char)\nprint(x)\nprint(\"<${x}>\")\nmut a [char] = {x}\nprint(a)\nprint(len(\"${x}\"))",
              b + b"<" + b + b">{'" + b + b"'}" + str(len(b)).encode(), [cp])
    for body, e in (("println()", "\n"), ("mut e Error = error(\"b\\n%s\")\nprintln(e)\nprintln(\"${e}\")", "b\n%s\nb\n%s\n"),
                    ("mut e Error = nil\nprintln(e)\nprint(\"${e}\")", "nil\nnil"), ("mut p ^int = nil\nprintln(p)", "nil\n"),
                    ("println(\"%d %s %n\")", "%d %s %n\n"), ("print(\"%\")", "%"), ("println(1 == 1)\nprintln(1 > 2)", "true\nfalse\n"),
                    ("mut a [[int]] = {{}, {1}}\nprintln(a)", "{{}, {1}}\n"), ("const a [int, 3] = {1, 2, 3}\nprintln(a)", "{1, 2, 3}\n"),
                    ("mut t [Tag] = {Tag.NONE, Tag.VAL(4)}\nprintln(t)", "{Tag{...}, Tag{...}}\n"),
                    ("println(Col.BLUE)\nprintln(Num.HIGH)\nprintln(Word.TWO)\nprint(\"${Num.LOW}${Word.ONE}\")", "2\n4000000000\ntwo words\n-5one")):
        s.add("fixed renderings", body, e)


def literals(c, s):
    rng = c.rng
    for _ in range(c.scale(130, 1500)):
        b = rbytes(rng)
        s.add("string literal", f"mut t string = {slit(rng, b)}\nprint(t)\nprintln(len(t))", b + str(len(b)).encode() + b"\n")
    for _ in range(c.scale(40, 400)):
        parts = [rbytes(rng, False) for _ in range(3)]
        n, w = rng.randrange(-99, 99), rbytes(rng, False)
        l = [slit(rng, p)[1:-1] for p in parts]
        e = parts[0] + str(n).encode() + parts[1] + w + parts[2]
        s.add("interpolated literal", f"mut n int = I(0)\nmut w string = {slit(rng, w)}\nmut t string = \"{l[0]}${{n}}{l[1]}${{w}}{l[2]}\"\nprint(t)\nprint(len(t))",
              e + str(len(e)).encode(), [n])
    for _ in range(c.scale(40, 300)):
        t = "".join(rng.choice(["\\n", "\\", "${x}", '"', "a", "\n", "'", "%d", "\\x41", "{", "é", "  ", "//", "/*", "\\$", "?", "\t", "\\0", "\\x00"]) for _ in range(rng.randrange(8)))
        s.add("raw string", f"mut t string = `{t}`\nprint(t)\nprint(len(t))", t.encode() + str(len(t.encode())).encode())
    for spell, cp in (("'\\n'", 10), ("'\\t'", 9), ("'\\r'", 13), ("'\\\\'", 92), ("'\\''", 39), ("'\"'", 34), ("' '", 32), ("'$'", 36), ("'~'", 126), ("'%'", 37), ("'0'", 48)):
        s.add("char literal", f"mut x char = {spell}\nprintln(cast(x, int))", f"{cp}\n", key=spell)
    for _ in range(c.scale(40, 300)):
        v = rng.choice((0, 1, rng.randrange(2**8), rng.randrange(2**32), rng.randrange(2**63), 2**63 - 1))
        f = rng.choice(("%d", "0x%x", "0x%X", "0o%o", "0b"))
        t = f % v if f != "0b" else "0b" + bin(v)[2:]
        head, digs = (t[:2], t[2:]) if f != "%d" else ("", t)
        out = digs[0]
        for ch in digs[1:]:
            out += ("_" if rng.random() < .2 else "") + ch
        s.add("integer literal", f"mut x int = {head + out}\nprintln(x)", f"{v}\n")
    for _ in range(c.scale(20, 200)):
        a, b = str(rng.randrange(10**rng.randrange(1, 9))), str(rng.randrange(10**rng.randrange(1, 9)))
        us = "_".join(a) if rng.random() < .3 else a
        s.add("float literal", f"mut x float = {us}.{b}\nprintln(x)", ftext(float(a + "." + b)) + "\n")


def fmtmod(c, s):
    rng = c.rng
    kinds = []
    for _ in range(c.scale(200, 2500)):
        fs, args, decl, want = "", [], "", b""
        for i in range(rng.choice((1, 1, 2, 3))):
            lit = rng.choice(("", "a", " = ", "%%", "[", "]", "\\n", "\\t", "\\\"", "\\\\", "é", "100%% "))
            fs += lit
            want += lit.replace("%%", "%").replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').replace("\\\\", "\\").encode()
            sp = rng.choice("ddiuxXofegGEscb")
            fl = "".join(ch for ch in "-+0 #" if rng.random() < .2)
            w = rng.choice(("", "", "5", "12", "1", "30"))
            p = ""
            if sp in "fegGE" and rng.random() < .6: p = "." + str(rng.choice((0, 1, 2, 3, 10)))
            if sp in "sdx" and rng.random() < .3: p = "." + str(rng.choice((0, 1, 2, 3, 10)))
            if sp in "scb": fl = fl if fl == "-" else ""
            if sp in "di": fl = fl.replace("#", "")
            if sp in "u": fl = fl.replace("#", "").replace("+", "").replace(" ", "")
            if sp in "xXo": fl = fl.replace("+", "").replace(" ", "")
            if sp in "fegGE": fl = fl.replace("#", "")
            n = f"a{len(args)}"
            if sp in "di":
                t = rng.choice(("int", "int", "i8", "i16", "i32", "i64"))
                lo, hi = INTS[t]
                v = rng.choice((lo + 1, hi, 0, 1, rng.randrange(lo + 1, hi)))
                decl += f"mut {n} {t} = cast({v}, {t})\n"
                txt = f"%{fl}{w}{p}d" % v
                if p == ".0" and v == 0:
                    txt = ("+" if "+" in fl else " " if " " in fl else "").rjust(int(w or 0)) if "-" not in fl else ("+" if "+" in fl else " " if " " in fl else "").ljust(int(w or 0))
                if p and "0" in fl:   # a precision makes C ignore the 0 flag
                    txt = f"%{fl.replace('0', '')}{w}{p}d" % v if not (p == ".0" and v == 0) else txt
            elif sp in "uxXo":
                t = rng.choice(("uint", "u8", "u32", "u64", "byte") if sp == "u" else ("int", "uint", "u16", "u32", "i64", "byte"))
                lo, hi = INTS[t]
                v = rng.choice((0, 1, min(hi, 2**63 - 1), rng.randrange(0, min(hi, 2**63 - 1)), -5 if lo < 0 else 7))
                decl += f"mut {n} {t} = cast({v}, {t})\n"
                u = v % 2**64
                d = "%d" % u if sp == "u" else "%x" % u if sp == "x" else "%X" % u if sp == "X" else "%o" % u
                if p: d = d.rjust(int(p[1:]), "0") if not (p == ".0" and u == 0) else ""
                if "#" in fl and sp in "xX" and u: pre = "0" + sp
                else: pre = ""
                if "#" in fl and sp == "o" and not d.startswith("0"): d = "0" + d
                W = int(w or 0)
                if "-" in fl: txt = (pre + d).ljust(W)
                elif "0" in fl and not p: txt = pre + d.rjust(W - len(pre), "0")
                else: txt = (pre + d).rjust(W)
            elif sp in "fegGE":
                t = rng.choice(("float", "float", "f32"))
                v = rng.choice((0.0, 1.0, -1.5, 3.14159, 123456.789, 0.00001234, 1e10 + .5, rng.uniform(-1e4, 1e4)))
                lit = "%.12f" % v
                v = float(lit)
                if t == "f32": v = struct.unpack("f", struct.pack("f", v))[0]
                decl += f"mut {n} {t} = cast({lit}, {t})\n" if t == "f32" else f"mut {n} float = {lit}\n"
                txt = f"%{fl}{w}{p}{sp}" % v
            elif sp == "s":
                v = rng.choice(("", "abc", "x", "hello world", "%d", "a\\\"b"))
                decl += f"mut {n} string = \"{v}\"\n"
                txt = f"%{fl}{w}{p}s" % v.replace('\\"', '"')
            elif sp == "b":
                v = rng.choice(("true", "false"))
                decl += f"mut {n} bool = {v}\n"
                txt = f"%{fl}{w}s" % v
            else:
                cp = rng.choice((65, 97, 48, 126, 233, 0x65E5))
                if cp > 127: w = ""
                decl += f"mut {n} char = cast({cp}, char)\n"
                txt = f"%{fl}{w}s" % chr(cp)
            fs += f"%{fl}{w}{p}{sp}"
            want += txt.encode()
            args.append(n)
        fn = rng.choice(("printf", "printfln", "eprintf", "eprintfln", "sprintf", "sprintfln", "format"))
        full = want + (b"\n" if fn.endswith("ln") else b"")
        call = f'fmt.{fn}("{fs}", {", ".join(args)})'
        if fn.startswith("e"):
            def ok(r, full=full):
                """the formatted text on standard error"""
                return r.rc == 0 and r.out == b"" and r.err == full
            s.add("fmt." + fn, decl + call, ok, key=fs)
            c.count("format_strings")
        elif fn.startswith("p"):
            s.add("fmt." + fn, decl + call, full, key=fs)
        else:
            s.add("fmt." + fn, decl + f"mut r_ string = {call}\nprint(r_)\nprint(len(r_))", full + str(len(full)).encode(), key=fs)
    for _ in range(c.scale(120, 1200)):
        b = rng.choice((b"", b"a", b"hello", "é".encode(), "日本".encode(), b"0123456789"))
        w = rng.choice((0, -1, -2**40, 1, 2, 3, 5, 6, 10, 11, 40, 300, len(b)))
        ch = rng.choice("* 0x.-")
        for fn in ("pad_left", "pad_right", "center"):
            n = max(0, w - len(b))
            e = ch.encode() * n + b if fn == "pad_left" else b + ch.encode() * n if fn == "pad_right" else ch.encode() * (n // 2) + b + ch.encode() * (n - n // 2)
            s.add("fmt." + fn, f"mut p string = fmt.{fn}({slit(rng, b)}, I(0), '{ch}')\nprint(p)\nprint(len(p))", e + str(len(e)).encode(), [w])
    for v in [0, 1, -1, 2**63 - 1, -2**63, 255, 256, -256] + [rng.randrange(-2**63, 2**63) >> rng.randrange(60) for _ in range(c.scale(15, 200))]:
        u = v % 2**64
        s.add("fmt.int_to", "println(fmt.int_to_hex(I(0)))\nprintln(fmt.int_to_binary(I(0)))\nprintln(fmt.int_to_octal(I(0)))\nprintln(len(fmt.int_to_hex(I(0))) + len(fmt.int_to_octal(I(0))))",
              f"{u:x}\n{u:b}\n{u:o}\n{len('%x' % u) + len('%o' % u)}\n", [v])
    for _ in range(c.scale(60, 600)):
        x = rng.choice((0.0, 0.5, 1.5, 2.5, -0.125, 1e300, 1.7976931348623157e308, 5e-324, rng.uniform(-1e3, 1e3), 0.1, 1e22))
        d = rng.choice((0, 1, 2, 3, 10, 17, 50, 100, 340))
        e = "%.*f" % (d, x)
        s.add("fmt.float_fixed", "mut t string = fmt.float_fixed(F(0), I(1))\nprintln(t)\nprintln(len(t))", f"{e}\n{len(e)}\n", [repr(x), d])
        e = "%e" % x
        s.add("fmt.float_sci", "mut t string = fmt.float_sci(F(0))\nprintln(t)\nprintln(len(t))", f"{e}\n{len(e)}\n", [repr(x)])


def check(c):
    s = Suite(c, "fmt", DECL, per=40, timeout=30)
    values(c, s)
    floats(c, s)
    scalars(c, s)
    literals(c, s)
    fmtmod(c, s)
    s.run((("plain", 1), ("asan", 6)))


if __name__ == "__main__":
    main(check, "C16", "every printed or formatted value equals the reference rendering of its type")
