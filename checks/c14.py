"""C14: string functions and operators agree with byte-sequence semantics.

Every function of @strings and every string operator is driven, many calls per process, with random inputs over small
alphabets (so matches repeat and overlap), UTF-8 text, whitespace, invalid UTF-8 and embedded NULs; a Python model over
bytes predicts the whole output."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

# \x01 in an argument stands for a NUL byte, \x02 marks an empty argument
DECL = """
do Z(i int) -> string {
    mut s string = S(i)
    if s == "\\x02" { return "" }
    mut cs [char] = strings.to_chars(s)
    mut r [char] = {}
    for_each c in cs {
        mut k char = c
        if cast(c, int) == 1 { k = cast(0, char) }
        arrays.append(r, k)
    }
    return strings.from_chars(r)
}
do show(s string) {
    print(len(s))
    print(":")
    println(s)
}
do B(b bool) { if b { print("1") } otherwise { print("0") } }
const Word struct {
    w string
}
"""
WS = b" \t\n\r\x0b\x0c"


def enc(b):
    return b.replace(b"\x00", b"\x01") if b else b"\x02"


def gen(rng, big=False):
    k = rng.random()
    n = rng.choice((0, 1, 1, 2, 3, 4, 5, 8, 12, 20, 40)) if not big else rng.choice((300, 1000, 3000))
    if k < .35: a = [b"a", b"b"]
    elif k < .5: a = [b"a"]
    elif k < .65: a = [b" ", b"\t", b"x", b"\n", b"\r", b"Y", b"\x0b", b"\x0c"]
    elif k < .78: a = ["\u00e9".encode(), "\u65e5".encode(), b"a", "\U0001f600".encode(), b"Z", "\u00c9".encode()]
    elif k < .86: a = [b"\x00", b"a", b"\xff", b"\x00b", b"\x80"]
    elif k < .93: a = [bytes([x]) for x in range(32, 127)]
    else: a = [bytes([x]) for x in range(256) if x not in (1, 2)]
    return b"".join(rng.choice(a) for _ in range(n))


def sub(rng, s):
    """Often a substring of s."""
    if s and rng.random() < .7:
        i = rng.randrange(len(s))
        return s[i:i + rng.choice((1, 1, 2, 3, 5, len(s)))]
    k = gen(rng)
    return k[:rng.choice((1, 2, 3, 40))]


def count(s, t):
    return s.count(t)


def show(x):
    return str(len(x)).encode() + b":" + x + b"\n"


def chars(b):
    """Codepoints as to_char/char_count see them: a malformed byte is one U+FFFD."""
    out, i = [], 0
    while i < len(b):
        c = b[i]
        n = 1 if c < 0x80 else 2 if c & 0xE0 == 0xC0 else 3 if c & 0xF0 == 0xE0 else 4 if c & 0xF8 == 0xF0 else 0
        if n == 1:
            out.append(c)
            i += 1
            continue
        w = b[i:i + n]
        if n and len(w) == n and all(x & 0xC0 == 0x80 for x in w[1:]):
            v = c & (0x7F >> n)
            for x in w[1:]: v = v << 6 | x & 0x3F
            out.append(v)
            i += n
        else:
            out.append(0xFFFD)
            i += 1
    return out


def fns():
    tf = lambda z: b"1" if z else b"0"
    one = {
        "to_upper": ("show(strings.to_upper(a))", lambda s: show(bytes(c - 32 if 97 <= c <= 122 else c for c in s))),
        "to_lower": ("show(strings.to_lower(a))", lambda s: show(bytes(c + 32 if 65 <= c <= 90 else c for c in s))),
        "trim": ("show(strings.trim(a))", lambda s: show(s.strip(WS))),
        "trim_left": ("show(strings.trim_left(a))", lambda s: show(s.lstrip(WS))),
        "trim_right": ("show(strings.trim_right(a))", lambda s: show(s.rstrip(WS))),
        "reverse": ("show(strings.reverse(a))", lambda s: show(s[::-1])),
        "is_empty": ("B(strings.is_empty(a))", lambda s: tf(not s)),
        "len": ("print(\"${len(a)} \")", lambda s: b"%d " % len(s)),
        "to_chars": ("mut cs [char] = strings.to_chars(a)\n        print(len(cs))\n        for_each c in cs { print(\" ${cast(c, int)}\") }\n        println(\"\")",
                     lambda s: b"%d" % len(s) + b"".join(b" %d" % x for x in s) + b"\n"),
        "from_chars round trip": ("show(strings.from_chars(strings.to_chars(a)))", show),
        "for_each": ("for_each c in a { print(\" ${cast(c, int)}\") }\n        println(\"\")", lambda s: b"".join(b" %d" % x for x in s) + b"\n"),
        "for_each index": ("for_each i, c in a { print(\" ${i}=${cast(c, int)}\") }\n        println(\"\")", lambda s: b"".join(b" %d=%d" % x for x in enumerate(s)) + b"\n"),
        "index": ("for i in range(0, len(a)) { print(\" ${cast(a[i], int)} ${cast(strings.char_at(a, i), int)}\") }\n        println(\"\")", lambda s: b"".join(b" %d %d" % (x, x) for x in s) + b"\n"),
        "char_count": ("print(\" ${char_count(a)}\")\n        for i in range(0, char_count(a)) { print(\" ${cast(to_char(a, i), int)}\") }\n        println(\"\")",
                       lambda s: b" %d" % len(chars(s)) + b"".join(b" %d" % x for x in chars(s)) + b"\n"),
        "copy": ("mut b string = copy(a)\n        mut w Word = Word{w: a}\n        mut v Word = copy(w)\n        show(b)\n        show(v.w)\n        B(b == a)\n        B(b != v.w)", lambda s: show(s) * 2 + b"10"),
        "interpolate": ("show(\"<${a}|${a}>\")", lambda s: show(b"<" + s + b"|" + s + b">")),
        "when": ("when a {\n            is \"\" { print(\"E\") }\n            is \"a\", \"b\" { print(\"L\") }\n            is \"aa\" { print(\"D\") }\n            default { print(\"?\") }\n        }",
                 lambda s: {b"": b"E", b"a": b"L", b"b": b"L", b"aa": b"D"}.get(s, b"?")),
    }
    two = {
        "contains": ("B(strings.contains(a, b))", lambda s, t: tf(t in s)),
        "in": ("B(b in a)\n        B(b not_in a)\n        B(b !in a)", lambda s, t: b"100" if t in s else b"011"),
        "starts_with": ("B(strings.starts_with(a, b))", lambda s, t: tf(s.startswith(t))),
        "ends_with": ("B(strings.ends_with(a, b))", lambda s, t: tf(s.endswith(t))),
        "index_of": ("print(\"${strings.index_of(a, b)} \")", lambda s, t: b"%d " % s.find(t)),
        "last_index_of": ("print(\"${strings.last_index_of(a, b)} \")", lambda s, t: b"%d " % s.rfind(t)),
        "count": ("print(\"${strings.count(a, b)} \")", lambda s, t: b"%d " % s.count(t) if t else None),
        "remove_prefix": ("show(strings.remove_prefix(a, b))", lambda s, t: show(s.removeprefix(t))),
        "remove_suffix": ("show(strings.remove_suffix(a, b))", lambda s, t: show(s.removesuffix(t))),
        "split": ("mut p [string] = strings.split(a, b)\n        print(len(p))\n        for_each x in p { print(\"|${len(x)}=${x}\") }\n        println(\"\")",
                  lambda s, t: (b"%d" % len(s.split(t)) + b"".join(b"|%d=" % len(x) + x for x in s.split(t)) + b"\n") if t else None),
        "split join": ("show(strings.join(strings.split(a, b), b))", lambda s, t: show(s) if t else None),
        "==": ("B(a == b)\n        B(a != b)\n        B(b == a)", lambda s, t: b"101" if s == t else b"010"),
        "concat by interpolation": ("show(\"${a}${b}\")", lambda s, t: show(s + t)),
        "join two": ("mut p [string] = {a, b, a}\n        show(strings.join(p, b))", lambda s, t: show(t.join([s, t, s]))),
        "as map key": ("mut m map[string:int] = {:}\n        m[a] = 1\n        m[b] = 2\n        print(\"${len(m)}${m[a]} \")", lambda s, t: b"12 " if s == t else b"21 "),
        "in struct": ("mut w Word = Word{w: a}\n        w.w = \"${w.w}${b}\"\n        show(w.w)", lambda s, t: show(s + t)),
    }
    three = {
        "replace": ("show(strings.replace(a, b, c))", lambda s, t, u: show(s.replace(t, u)) if t else None),
        "join": ("mut p [string] = {a, b, a, b}\n        show(strings.join(p, c))", lambda s, t, u: show(u.join([s, t, s, t]))),
        "replace inverse": ("show(strings.join(strings.split(a, b), c))", lambda s, t, u: show(u.join(s.split(t))) if t else None),
    }
    return one, two, three


def check(c):
    s = Suite(c, "@strings, @arrays, @bytes", DECL, per=14)
    rng = c.rng
    one, two, three = fns()
    NP = c.scale(24, 60)

    def batch(ar):
        L = []
        for q in range(NP):
            a = gen(rng, q == 0)
            t = sub(rng, a)
            u = rng.choice((b"", b"x", b"ab", sub(rng, a), gen(rng)))
            L.append((a, t, u)[:ar])
        return L
    for ar, fs in ((1, one), (2, two), (3, three)):
        names = "abc"[:ar]
        for f, (body, model) in fs.items():
            code = f"for q in range(0, N() / {ar}) {{\n        " + "\n        ".join(f"mut {x} string = Z(q * {ar} + {i})" for i, x in enumerate(names)) + f"\n        {body}\n    }}"
            for _ in range(c.scale(8, 60)):
                L = [x for x in batch(ar) if model(*x) is not None]
                s.add(f, code, b"".join(model(*x) for x in L), [enc(y) for x in L for y in x], key=repr(L)[:200])
    # slices, repeat, indexing: index arguments are hostile
    for _ in range(c.scale(60, 600)):
        a = gen(rng)
        n = len(a)
        i, j = (rng.choice((0, 1, -1, n, n - 1, n + 1, rng.randrange(n + 1), 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 31) - 1, (1 << 63) - 1, -(1 << 63), -(1 << 32) + 1)) for _ in "xy")
        lo, hi = max(i, 0), min(j, n)
        s.add("slice", "show(strings.slice(Z(0), I(1), I(2)))", show(a[lo:hi] if lo < hi else b""), [enc(a), i, j])
        s.add("char_at", "print(\"${cast(strings.char_at(Z(0), I(1)), int)}\")", (b"%d" % a[i]) if 0 <= i < n else P("P0082", ""), [enc(a), i])
        s.add("[i]", "mut t string = Z(0)\n    print(\"${cast(t[I(1)], int)}\")", (b"%d" % a[i]) if 0 <= i < n else P(None, ""), [enc(a), i])
        cs = chars(a)
        s.add("to_char", "print(cast(to_char(Z(0), I(1)), int))", (b"%d" % cs[i]) if 0 <= i < len(cs) else P(("P0049", "P0050"), ""), [enc(a), i])
        k = rng.choice((0, 1, 2, 3, 17, 300, -1, -(1 << 63), (1 << 63) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 60, 1 << 61, 1 << 62, (1 << 62) + 1, 1 << 33))
        s.add("repeat", "show(strings.repeat(Z(0), I(1)))", P("P0072", "") if k < 0 else show(a * k) if n * k < 1 << 20 else P("P0073", ""), [enc(a), k])
    for n in (2, 4, 8, 16, 32, 64, 3, 5):
        for k in ((1 << 64) // n, (1 << 64) // n + 1, (1 << 63) // n, (1 << 63) // n + 1, (1 << 32) // n, (1 << 31) // n + 1):
            if k < 1 << 63:
                s.add("repeat", "show(strings.repeat(Z(0), I(1)))", P("P0073", ""), [b"a" * n, k])
    s.add("replace", "mut a string = strings.repeat(\"ab\", 40000)\n    mut b string = strings.repeat(\"x\", 60000)\n    show(strings.replace(a, \"a\", b))", P("P0071", ""))
    s.add("join", "mut b string = strings.repeat(\"x\", 65536)\n    mut p [string] = {}\n    for i in range(0, 40000) { arrays.append(p, b) }\n    show(strings.join(p, \",\"))", P(None, ""))
    s.add("join", "mut p [string] = {}\n    show(strings.join(p, \"zz\"))\n    p = {\"q\"}\n    show(strings.join(p, \"zz\"))", b"0:\n1:q\n")
    # classification over every byte and some wide characters
    cls = {"is_alpha": lambda x: chr(x).isalpha(), "is_digit": lambda x: chr(x).isdigit(), "is_alnum": lambda x: chr(x).isalnum(),
           "is_whitespace": lambda x: x in (32, 9, 10, 13), "is_upper": lambda x: chr(x).isupper(), "is_lower": lambda x: chr(x).islower()}
    wide = [128, 161, 193, 225, 255, 256, 256 + 65, 256 + 97, 256 + 48, 256 + 32, 65 + 65536, 0x4e00, 0x1f600, 0x10FFFF]
    for f, m in cls.items():
        dom = [x for x in range(0, 128) if x not in (11, 12)]
        s.add(f, f"for q in range(0, 128) {{ if q != 11 && q != 12 {{ B(strings.{f}(cast(q, char))) }} }}", "".join("1" if m(x) else "0" for x in dom))
        s.add(f, f"B(strings.{f}(cast(I(0), char)))" if False else f"for q in range(0, N()) {{ B(strings.{f}(cast(I(q), char))) }}", "0" * len(wide), wide)
    for x in range(3, 256):
        if x % 5 == 0 or c.thorough:
            a = gen(rng)
            s.add("char in", "mut k char = cast(I(1), char)\n    B(k in Z(0))\n    B(k not_in Z(0))", b"10" if x in a else b"01", [enc(a), x])
    for x in (256 + 65, 65536 + 97, 0x4e00 | 0x61):
        s.add("char in", "mut k char = cast(I(1), char)\n    B(k in Z(0))\n    B(k not_in Z(0))", b"01", [b"Aa", x])
    # literals
    for src, val in (("\\n\\r\\t\\\\\\\"", b"\n\r\t\\\""), ("\\x48\\x0a\\x7f", b"H\n\x7f"), ("\\xff\\xc3\\xa9", b"\xff\xc3\xa9"), ("a\\${b}{c}", b"a${b}{c}"), ("{b}{c}$", b"{b}{c}$"), ("\u65e5\u672c", "\u65e5\u672c".encode()),
                     ("%d %s %%", b"%d %s %%"), ("??/ ??= /* x */ // y", b"??/ ??= /* x */ // y"), ("\\x41BC", b"ABC"), ("\\x0aF", b"\nF"), ("\\x001", b"\x001"), ("'", b"'"), ("\\x5cn", b"\\n"), ("\\x22", b'"')):
        s.add("literal", f'show("{src}")', show(val), key=src)
        s.add("literal variable", f'mut a string = "{src}"\n    mut b [string] = {{"{src}", "q"}}\n    show(a)\n    show(b[0])\n    show("<${{a}}{src}>")', show(val) * 2 + show(b"<" + val + val + b">"), key=src)
        s.add("literal equal", f'mut a string = "{src}"\n    B(a == "{src}")\n    B(len(a) == {len(val)})\n    when a {{\n        is "{src}" {{ print("y") }}\n        default {{ print("n") }}\n    }}', "11y", key=src)
    for raw in ("\\n ${x} \\x41", "C:\\Users\\t", '"quoted" \'c\'', "line1\nline2\n  line3", "%d \\\\ $", "\t tab", "", "\u65e5", "// no comment /* */", "a\\"):
        s.add("raw literal", f"show(`{raw}`)", show(raw.encode()), key=raw)
    s.run((("plain", 1), ("asan", c.scale(4, 1))))


if __name__ == "__main__":
    main(check, "C14", "case = one process running a batch of calls (or one hostile call); nontrivial when distinct (function, inputs)")
