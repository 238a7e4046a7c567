"""C17: strconv parses and prints numbers exactly.

Numerals are generated at the boundaries of each type and base, mutated with signs, spaces, prefixes, junk, NULs and
length; an exact Python parser of the documented grammar predicts value or error, in both the error-returning and the
panicking form.  Printed numbers are read back."""
import sys, os, re, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
# \x01 in an argument stands for NUL; \x02 alone is the empty string
DECL = """
do Z(i int) -> string {
    mut s string = S(i)
    if s == "\\x02" { return "" }
    mut cs [char] = strings.to_chars(s)
    mut r [char] = {}
    for_each c in cs {
        mut k char = c
        if cast(c, int) == 1 { k = cast(0, char) }
        arrays.append(r, k)
    }
    return strings.from_chars(r)
}
do idf(v float) -> float { return v }
do rb(v float) {
    mut s string = strconv.from_float(v)
    mut w, e = strconv.to_float(s)
    mut back bool = false
    if e == nil { if w == v { back = true } }
    println("${s} ${back}")
}
"""


def num(n, b):
    if n < 0:
        return "-" + num(-n, b)
    s = ""
    while True:
        s = DIG[n % b] + s
        n //= b
        if not n:
            return s


def parse_int(s, b, lo, hi, neg=True):
    """Value, None (error) or '?' (not specified: prefixes)."""
    if not 2 <= b <= 36:
        return None
    if re.fullmatch(r"[+-]?0[xXbBoO].*", s, re.S) and all(ch.lower() in DIG for ch in s.lstrip("+-")):
        ok = all(DIG.index(ch.lower()) < b for ch in s.lstrip("+-"))
        if not ok:
            return "?"
    m = re.fullmatch(r"([+-]?)([0-9a-zA-Z]+)", s)
    if not m or (m.group(1) == "-" and not neg):
        return None
    if any(DIG.index(ch.lower()) >= b for ch in m.group(2)):
        return None
    v = 0
    for ch in m.group(2):
        v = v * b + DIG.index(ch.lower())
    if m.group(1) == "-":
        v = -v
    return v if lo <= v <= hi else None


def mutate(rng, s):
    k = rng.randrange(16)
    if k == 0: return "+" + s
    if k == 1: return "-" + s
    if k == 2: return " " + s
    if k == 3: return s + " "
    if k == 4: return s + rng.choice("gz_.,'xL%")
    if k == 5: i = rng.randrange(len(s) + 1); return s[:i] + rng.choice(" _.-+eg:/@[`{") + s[i:]
    if k == 6: return s.replace("-", "") .rjust(rng.choice((20, 62, 63, 64, 65, 80, 200)), "0")
    if k == 7: return s + "\x01" + rng.choice(("", "7", "junk"))
    if k == 8: return "\t" + s
    if k == 9: return s.upper()
    if k == 10: return "--" + s
    if k == 11: return s + s
    if k == 12: return "+-" + s
    if k == 13: return "0" * 70 + s.lstrip("-") + rng.choice(("", "x", " "))
    if k == 14: return s + "\n"
    return rng.choice(("", "+", "-", ".", "0x", "e5", "\u0665", "1 2", "\uff11"))


def arg(s):
    return s.encode() if s else b"\x02"


def ints(c, s):
    rng = c.rng
    for name, lo, hi, neg in (("to_int", -2**63, 2**63 - 1, True), ("to_uint", 0, 2**64 - 1, False)):
        two = f'mut v, e = strconv.{name}(Z(0), I(1))\nif e != nil {{ println("E")\n return }}\nprintln(v)'
        one = f'println(strconv.{name}(Z(0), I(1)))'
        dflt = f'mut v, e = strconv.{name}(Z(0))\nif e != nil {{ println("E ${{v}}")\n return }}\nprintln(v)'
        for t in range(c.scale(260, 4000)):
            b = rng.choice((2, 8, 10, 10, 10, 16, 36, rng.randrange(2, 37), rng.randrange(2, 37)))
            base = rng.choice((lo, hi, 0, 1, -1, hi // b, lo // b, rng.randrange(lo, hi), rng.randrange(lo, hi) >> rng.randrange(64)))
            n = base + rng.choice((0, 0, 1, -1, 2, rng.randrange(-40, 40)))
            if rng.random() < .08: n *= rng.choice((10, 2, b, 2**64))
            txt = num(n, b)
            if rng.random() < .5: txt = mutate(rng, txt)
            if rng.random() < .04: b = rng.choice((0, 1, 37, -1, 100, -10, 2**31, 2**32 + 10, -2**63))
            real = txt.replace("\x01", "\0")
            e = parse_int(real, b, lo, hi, neg)
            c.count("numerals_with_value" if isinstance(e, int) else "numerals_rejected")
            bk = "" if 2 <= b <= 36 else " bad base"
            if e == "?":
                continue
            if b == 10 and rng.random() < .4:
                s.add(name + " default base", dflt, f"{e}\n" if e is not None else "E 0\n", [arg(txt)], repr(txt))
            s.add(name + " error form" + bk, two, f"{e}\n" if e is not None else "E\n", [arg(txt), b], f"{txt!r} base {b}")
            if rng.random() < .35:
                s.add(name + " panicking form" + bk, one, f"{e}\n" if e is not None else P(
                    ({"to_int": "P0054", "to_uint": "P0056"}[name]) if bk else {"to_int": ("P0055",), "to_uint": ("P0057", "P0058")}[name]),
                      [arg(txt), b], f"{txt!r} base {b}")
    for n in [2**63 - 1, -2**63, 0, -1, 10] + [rng.randrange(-2**63, 2**63) for _ in range(c.scale(12, 100))]:
        s.add("from_int", "mut x int = I(0)\nmut t string = strconv.from_int(x)\nprintln(t)\nprintln(len(t))\nmut w, e = strconv.to_int(t)\nprintln(w == x)",
              f"{n}\n{len(str(n))}\ntrue\n", [n])
    for n in [2**64 - 1, 2**63, 0, 1] + [rng.randrange(2**64) for _ in range(c.scale(12, 100))]:
        s.add("from_uint", "mut x uint = U(0)\nmut t string = strconv.from_uint(x)\nprintln(t)\nprintln(len(t))\nmut w, e = strconv.to_uint(t)\nprintln(w == x)",
              f"{n}\n{len(str(n))}\ntrue\n", [n])


FLOAT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf|infinity|nan)", re.I)


def floats(c, s):
    rng = c.rng

    def r64():
        k = rng.random()
        if k < .3: return struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
        if k < .5: return rng.randrange(10**rng.randrange(1, 18)) / 10**rng.randrange(0, 17)
        if k < .6: return float(rng.randrange(2**63)) * rng.choice((1, -1))
        if k < .7: return struct.unpack("<d", struct.pack("<Q", rng.randrange(1, 2**52)))[0]
        if k < .8: return rng.choice((0.0, -0.0, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.1 + 0.2, 1/3, 1e22, 1e23, 9007199254740993.0))
        return rng.uniform(-1, 1) * 10 ** rng.randrange(-30, 30)
    two = 'mut v, e = strconv.to_float(Z(0))\nif e != nil { println("E")\n return }\nmut r float = {R}\nprintln(v == r)\nprintln(v != v)'.replace("{R}", "v")
    # value identity is checked by comparing the parsed number with exact power-of-two arithmetic on its integer mantissa
    exact = """mut v, e = strconv.to_float(Z(0))
if e != nil { println("E")
 return }
mut r float = cast(I(1), float)
mut k int = I(2)
for i in range(0, 2000) {
    if k > 0 { r = r * 2.0
 k = k - 1 }
    or k < 0 { r = r / 2.0
 k = k + 1 }
    otherwise { break }
}
println(v == r)
mut t string = "${v}"
println(strings.starts_with(t, "-"))"""
    one = exact.replace("mut v, e = strconv.to_float(Z(0))\nif e != nil { println(\"E\")\n return }", "mut v float = idf(strconv.to_float(Z(0)))")
    for t in range(c.scale(260, 3000)):
        x = r64()
        if x != x: continue
        f = rng.choice(("%r", "%.17g", "%.20e", "%f", "%.3f", "%g"))
        txt = f % x if x not in (float("inf"), float("-inf")) else rng.choice(("inf", "Infinity", "INF", "-inf", "+infinity"))
        if rng.random() < .4:
            txt = mutate(rng, txt)
        if rng.random() < .05:
            txt = rng.choice(("0x10", "0x1p4", "1e400", "-1e400", "1e-400", "nan(1)", "nan", "1e", "1e+", "1.2.3", ".", "1e5.5", "inff", "infinit", "NaN", "1_000",
                              "1,5", "1d5", "1f", "0x", "0x.8", "1e99999999999", "0." + "0" * 70 + "1", "1" * 70, "1" + "0" * 62 + "e-62"))
        real = txt.replace("\x01", "\0")
        m = FLOAT.fullmatch(real)
        v = None
        if m and real.isascii():
            v = float(real)
            if v in (float("inf"), float("-inf")) and "inf" not in real.lower():
                v = None
        g = "to_float error form"
        if v is None:
            s.add(g, exact, "E\n", [arg(txt), 0, 0], repr(txt))
            if rng.random() < .3:
                s.add("to_float panicking form", one, P("P0059"), [arg(txt), 0, 0], repr(txt))
            c.count("numerals_rejected")
            continue
        c.count("numerals_with_value")
        if v != v or v in (float("inf"), float("-inf")):
            s.add(g, 'mut v, e = strconv.to_float(Z(0))\nif e != nil { println("E")\n return }\nprintln(v != v)\nprintln(v > 1.0e308)\nprintln(v < -1.0e308)',
                  "%s\n%s\n%s\n" % tuple(str(q).lower() for q in (v != v, v > 1e308, v < -1e308)), [arg(txt)], repr(txt))
            continue
        n, d = v.as_integer_ratio()
        k = 0
        while n and n % 2 == 0 and abs(n) >= 2**53:
            n //= 2; k += 1
        k -= d.bit_length() - 1
        if rng.random() < .3:
            s.add("to_float panicking form", one, f"true\n{str(str(v)[0] == '-').lower()}\n", [arg(txt), n, k], repr(txt))
        else:
            s.add(g, exact, f"true\n{str(str(v)[0] == '-').lower()}\n", [arg(txt), n, k], repr(txt))
    for t in range(c.scale(90, 1000)):
        x = r64()
        if x != x or x in (float("inf"), float("-inf")): continue

        def ok(r, x=x):
            """reads back as the same value, in the shortest form"""
            w = r.text.split()
            if r.rc or len(w) != 2 or w[1] != "true" or float(w[0]) != x: return False
            nd = len(re.sub(r"e.*|[-.]", "", repr(x)).strip("0") or "0")
            return len(re.sub(r"e.*|[-.]", "", w[0]).strip("0") or "0") <= max(nd, 6)
        s.add("from_float", "rb(strconv.to_float(S(0)))", ok, [repr(x)])


def rest(c, s):
    rng = c.rng
    words = ["true", "false", "TRUE", "False", "tRuE", "1", "0", "yes", "no", "", "t", "f", "true ", " true", "truee", "tru", "falsey", "fals", "nil",
             "true\x01", "\x01true", "false\x01", "on"]
    for w in words:
        real = w.replace("\x01", "\0")
        v = {"true": "true", "false": "false"}.get(real.lower())
        s.add("to_bool", 'mut v, e = strconv.to_bool(Z(0))\nif e != nil { println("E")\n return }\nprintln(v)', (v or "E") + "\n", [arg(w)])
        s.add("to_bool panicking", 'println(strconv.to_bool(Z(0)))', v + "\n" if v else P("P0060"), [arg(w)])
    s.add("from_bool", "println(strconv.from_bool(S(0) == S(0)))\nprintln(strconv.from_bool(S(0) != S(0)))", "true\nfalse\n", ["x"])
    for t in range(c.scale(150, 1500)):
        k = rng.random()
        if k < .5: w = mutate(rng, rng.choice((str(rng.randrange(-10**6, 10**6)), "%.3f" % rng.uniform(-99, 99), "5", "-7", "0.5", ".5", "5.")))
        elif k < .8: w = "".join(rng.choice("0123456789+-. ex") for _ in range(rng.randrange(7)))
        else: w = rng.choice(("+5", "-5.", "+.", "-.5", "1e5", "0x1", " 1", "1 ", "++1", "1-", "1..2", "9" * 300, "\u0663"))
        real = w.replace("\x01", "\0")
        n = re.fullmatch(r"[+-]?[0-9]*\.?[0-9]*", real) is not None and re.search("[0-9]", real) is not None
        i = re.fullmatch(r"[+-]?[0-9]+", real) is not None
        s.add("is_numeric", "println(strconv.is_numeric(Z(0)))", str(n).lower() + "\n", [arg(w)])
        s.add("is_integer", "println(strconv.is_integer(Z(0)))", str(i).lower() + "\n", [arg(w)])
    for cn, v in (("BASE_2", 2), ("BASE_8", 8), ("BASE_10", 10), ("BASE_16", 16), ("BASE_36", 36)):
        s.add("constants", f'println(strconv.{cn})\nprintln(strconv.to_int("11", strconv.{cn}))', f"{v}\n{v + 1}\n", key=cn)


def check(c):
    s = Suite(c, "strings, arrays", DECL)
    ints(c, s)
    floats(c, s)
    rest(c, s)
    s.run((("plain", 1), ("asan", 3)))


if __name__ == "__main__":
    main(check, "C17", "parsing accepts exactly the documented numerals with their exact value; printing reads back to the same value")
