"""C03: numeric conversions keep the value or panic.

Every (source type, target type, conversion form, operand form) pair is compiled; boundary-biased values reach it through
argv and the printed result (or the panic) is compared with exact arithmetic."""
import sys, os, struct, re
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

R = {"int": (-(1 << 63), (1 << 63) - 1), "uint": (0, (1 << 64) - 1), "char": (0, 0x10FFFF), "byte": (0, 255)}
for w in (8, 16, 32, 64):
    R[f"i{w}"] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    R[f"u{w}"] = (0, (1 << w) - 1)
FL = ("float", "f32", "f64")
DECLS = """
const Box_T struct {
    v T
}
do id_T(x T) -> T { return x }
"""
EXTRA = """
const HostA enum {
    A
    B
    C
}
"""


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def exact_f32(v):
    """Correctly rounded integer -> binary32."""
    if v == 0:
        return 0.0
    a, s = abs(v), -1 if v < 0 else 1
    e = max(a.bit_length() - 24, 0)
    q, r = a >> e, a & ((1 << e) - 1)
    if e and (r > (1 << (e - 1)) or (r == (1 << (e - 1)) and q & 1)):
        q += 1
    return float(s * (q << e))


def values(c, T, n):
    r = c.rng
    if T in FL:
        spec = [0.0, -0.0, 0.5, -0.5, 0.999999, -0.999999, 1.0, -1.0, 1.5, 2.5, -2.5, 126.9, 127.5, 128.0, -128.0, -128.9, -129.0,
                255.0, 255.9, 256.0, 32767.5, 32768.0, -32768.0, -32769.0, 65535.7, 65536.0, 2147483647.0, 2147483647.9,
                2147483648.0, -2147483648.0, -2147483648.9, -2147483649.0, 4294967295.0, 4294967295.5, 4294967296.0,
                9007199254740993.0, 9223372036854774784.0, 9223372036854775807.0, -9223372036854775808.0,
                -9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0, 1e19, -1e19, 1e30, -1e30, 1e300,
                float("inf"), float("-inf"), float("nan"), 2.3e-308, 1114111.0, 1e-10, -1e-10]
        spec = r.sample(spec, min(len(spec), max(4, n - 4)))
        return spec + [r.uniform(-1, 1) * 10 ** r.randrange(0, 22) for _ in range(n - len(spec))]
    lo, hi = R[T]
    pts = {0, 1, -1, 2, lo, hi, lo + 1, hi - 1}
    for t, (a, b) in R.items():
        pts |= {a, b, a - 1, b + 1}
    pts |= {(1 << 53) + 1, (1 << 24) + 1, (1 << 53) - 1, (1 << 62) + 1, 65, 0x20AC, 0x1F600}
    pts = sorted(x for x in pts if lo <= x <= hi)
    out = r.sample(pts, min(len(pts), max(4, n - 3))) + [r.randrange(lo, hi + 1) for _ in range(3)]
    return out


def load(T, i):
    """Gray expression reading argument i as T (in range by construction)."""
    if T == "float":
        return f"F({i})"
    if T in ("f64", "f32"):
        return f"cast(F({i}), {T})"
    if T == "int":
        return f"I({i})"
    if T == "uint":
        return f"U({i})"
    if T == "u64":
        return f"cast(U({i}), u64)"
    if T == "char":
        return f"char(I({i}))"
    return f"cast(I({i}), {T})"


FORMS = {   # operand forms
    "local": "mut a S = LD\n    RESULT(a)",
    "field": "mut b_ Box_S = Box_S{v: LD}\n    RESULT(b_.v)",
    "element": "mut l_ [S] = {LD, LD}\n    RESULT(l_[1])",
    "mapval": "mut m_ [string:S] = {\"k\": LD}\n    RESULT(m_[\"k\"])",
    "call": "RESULT(id_S(LD))",
    "direct": "RESULT((LD))",
    "pointer": "mut q_ ^Box_S = new(Box_S)\n    q_.v = LD\n    RESULT(q_.v)",
}


def expect(v, S, T):
    """-> (expected exact integer | None to panic) or float expected."""
    if T in FL:
        if S in FL:
            x = f32(v) if S == "f32" else v
            return ("f", {f32(x)} if T == "f32" else {x})
        return ("f", {f32(float(v)), exact_f32(v)} if T == "f32" else {float(v)})
    if S in FL:
        x = f32(v) if S == "f32" else v
        if x != x or x in (float("inf"), float("-inf")):
            return ("i", None)
        t = int(x)
        if T == "char":
            return ("i", t) if 0 <= t <= 0x10FFFF else ("c", t)
        if R[T][0] <= t <= R[T][1]:
            return ("i0", t) if (t == 0 and x < 0 and R[T][0] == 0) else ("i", t)
        return ("i", None)
    if T == "char":
        return ("i", v) if 0 <= v <= 0x10FFFF else ("c", v)
    return ("i", v if R[T][0] <= v <= R[T][1] else None)


def exp_of(v, S, T):
    k, e = expect(v, S, T)
    if k == "f":
        if v != v:
            return "nan\n"
        return None
    if k == "i0":
        return ("0\n", P())
    if k == "c":     # not a code point: the value is kept or the program stops
        return (f"{e}\n", P()) if -(1 << 31) <= e < (1 << 31) else P()
    return P() if e is None else f"{e}\n"


def check(c):
    nv = c.scale(10, 60)
    types = ["int", "i8", "i16", "i32", "i64", "uint", "u8", "u16", "u32", "u64", "byte", "char", "float", "f32", "f64"]
    decls = EXTRA + "\n".join(DECLS.replace("T", t) for t in types) + "\n" + "\n".join(
        f"do ret_{t}(x int) -> {t} {{ return x }}\ndo take_{t}(x {t}) -> {t} {{ return x }}" for t in FL) + "\n" + \
        "\n".join(f"do nret_{t}(x int) -> {t} {{ return x }}\ndo two_{t}(x int) -> ({t}, int) {{ return x, 1 }}" for t in types if t not in FL and t != "char" and t[0] in "bi")
    s = Suite(c, decls=decls, compile_fail="c", per=70)
    ctors = {"int", "uint", "float", "char", "byte"}
    fnames = list(FORMS)

    def add(S, T, ff, conv, sink, vals):
        """conv: 'cast'|'ctor'; sink: how the converted value is observed."""
        exp_conv = f"cast(@, {T})" if conv == "cast" else f"{T}(@)"
        for v in vals:
            k, e = expect(v, S, T)
            args = [repr(v) if isinstance(v, float) else v]
            if k == "f":
                if v != v:
                    obs = "mut r_ float = cast(CONV, float)\n    println(r_ == r_)"
                    ex = "false\n"
                else:
                    obs = "mut r_ float = cast(CONV, float)\n    println(r_ == F(1) || r_ == F(2))"
                    L = sorted(e)
                    args += [repr(L[0]), repr(L[-1])]
                    ex = "true\n"
                if T in ("float", "f64"):
                    obs = obs.replace("cast(CONV, float)", "CONV")
            else:
                ex = exp_of(v, S, T)
                obs = {"print": "println(CONV)", "decl": f"mut r_ {T} = CONV\n    println(r_)",
                       "interp": 'println("${CONV}")', "arr": f"mut r_ [{T}] = {{CONV}}\n    println(r_[0])"}[sink]
                if T == "char":
                    obs = obs.replace("println(CONV)", "println(int(CONV))").replace("println(r_)", "println(int(r_))")
                    obs = obs.replace("${CONV}", "${int(CONV)}").replace("r_[0]", "int(r_[0])")
            body = re.sub(r"RESULT\((.*)\)$", lambda m: obs.replace("CONV", exp_conv.replace("@", m.group(1))),
                          FORMS[ff].replace("LD", load(S, 0)).replace("S]", S + "]").replace("_S", "_" + S).replace("a S ", f"a {S} "),
                          flags=re.M)
            s.add(f"{conv} {S}->{T}", body, ex, args, key=f"{ff} {sink} {v}")

    n = 0
    for S in types:
        for T in types:
            for conv in ("cast", "ctor"):
                if conv == "ctor" and T not in ctors:
                    continue
                sel = [fnames[n % len(fnames)], fnames[(n * 5 + 3) % len(fnames)]] if not c.thorough else fnames
                for ff in sel:
                    sink = ("print", "decl", "interp", "arr")[(n + len(ff)) % 4]
                    add(S, T, ff, conv, sink, values(c, S, nv))
                    n += 1
    # array casts: every element under the rule; the panic must come whichever element is bad
    ints = [t for t in types if t not in ("char",)]
    for S in ints:
        for T in ints:
            for pos in range(3):
                for v in values(c, S, 3 if not c.thorough else 10)[:c.scale(3, 10)]:
                    k, e = expect(v, S, T)
                    if k == "f" and (v != v):
                        continue
                    argv = [0 if S not in FL else "0.0"] * 3
                    argv[pos] = repr(v) if isinstance(v, float) else v
                    body = f"mut l_ [{S}] = {{{load(S, 0)}, {load(S, 1)}, {load(S, 2)}}}\n    mut o_ [{T}] = cast(l_, [{T}])\n    "
                    if k == "f":
                        L = sorted(e)
                        body += f"mut r_ float = o_[{pos}]\n    println(r_ == F(3) || r_ == F(4))\n    println(len(o_))" if T != "f32" else \
                            f"mut r_ float = cast(o_[{pos}], float)\n    println(r_ == F(3) || r_ == F(4))\n    println(len(o_))"
                        argv += [repr(L[0]), repr(L[-1])]
                        ex = "true\n3\n"
                    else:
                        body += f"println(o_[{pos}])\n    println(len(o_))"
                        ex = exp_of(v, S, T)
                        ex = tuple(x if isinstance(x, P) else x + "3\n" for x in (ex if isinstance(ex, tuple) else (ex,)))
                    s.add(f"array cast [{S}]->[{T}]", body, ex, argv, key=f"pos {pos} {v}")
    # implicit int -> float promotion, every position
    prom = {"decl": "mut f T = VAL\n    PR(f)", "assign": "mut f T = 0.5\n    f = VAL\n    PR(f)", "arg": "PR(take_T(VAL))",
            "mapval": "mut m [string:T] = {\"a\": VAL}\n    PR(m[\"a\"])", "return": "PR(ret_T(VAL))",
            "field": "mut b Box_T = Box_T{v: VAL}\n    PR(b.v)",
            "mapset": "mut m [string:T] = {\"b\": VAL}\n    m[\"a\"] = VAL\n    PR(m[\"a\"])"}
    for T in FL:
        for nm, b in prom.items():
            for v in values(c, "int", c.scale(6, 40)):
                L = sorted(expect(v, "int", T)[1] | ({float(v)} if nm.startswith("map") else set()))   # containers may keep more precision
                body = re.sub(r"PR\((.*)\)$", lambda m: f"println({m.group(1)} == F(1) || {m.group(1)} == F(2))" if T != "f32" else
                              f"mut z_ float = cast({m.group(1)}, float)\n    println(z_ == F(1) || z_ == F(2))", b.replace("VAL", "I(0)").replace("_T", "_" + T)
                              .replace(" T ", f" {T} ").replace(":T]", f":{T}]"), flags=re.M)
                s.add(f"promotion int->{T} {nm}", body, "true\n", [v, repr(L[0]), repr(L[-1])], key=str(v))
    # implicit narrowing of an int value into a sized slot, where the compiler accepts it: value or panic
    nar = {"decl": "mut f T = I(0)\n    println(f)", "assign": "mut f T = 0\n    f = I(0)\n    println(f)", "arg": "println(id_T(I(0)))",
           "field": "mut b Box_T = Box_T{v: I(0)}\n    println(b.v)", "fieldset": "mut b Box_T = Box_T{v: cast(0, T)}\n    b.v = I(0)\n    println(b.v)",
           "elem": "mut l [T] = {I(0)}\n    println(l[0])", "elemset": "mut l [T] = {0}\n    l[0] = I(0)\n    println(l[0])",
           "mapval": "mut m [string:T] = {\"a\": I(0)}\n    println(m[\"a\"])", "mapset": "mut m [string:T] = {\"b\": 0}\n    m[\"a\"] = I(0)\n    println(m[\"a\"])",
           "return": "println(nret_T(I(0)))", "multi": "mut f T, g int = two_T(I(0))\n    println(f)", "elems": "mut l [T] = {1, 2, I(0)}\n    println(l[2])",
           "ptr": "mut q ^Box_T = new(Box_T)\n    q.v = I(0)\n    println(q.v)", "ptr2": "mut q ^Box_T = new(Box_T)\n    q^.v = I(0)\n    println(q.v)",
           "nested": "mut l [[T]] = {{1}}\n    l[0][0] = I(0)\n    println(l[0][0])",
           "uint decl": "mut f T = U(0)\n    println(f)", "uint assign": "mut f T = 0\n    f = U(0)\n    println(f)", "uint arg": "println(id_T(U(0)))",
           "named": "println(id_T(x: I(0)))"}
    for T in [t for t in types if t not in FL and t not in ("char", "int")]:
        for nm, b in nar.items():
            S = "uint" if "uint" in nm else "int"
            for v in values(c, S, 5)[:c.scale(5, 12)]:
                s.add(f"implicit {S}->{T} {nm}", re.sub(r"\bT\b", T, b).replace("_T", "_" + T), exp_of(v, S, T), [v], key=str(v))
    # strings
    sv = ["0", "1", "-1", "+5", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
          "18446744073709551615", "18446744073709551616", "255", "256", "-0", "", " ", "abc", "12abc", "12 abc", "1 2", "0x10", "1e3",
          "1_000", "--1", "+-1", "1.0", "1.5", ".5", "5.", "1e400", "-1e400", "1e-400", "nan", "inf", " 42", "42 ", "\t7", "7\n",
          "0" * 70 + "12", "1" * 70, "9" * 400, "1." + "0" * 80 + "9", "0." + "3" * 90, "1e", "e1", "1e+", "0b1", "٣", "1\x01", "∞"]
    sv += ["".join(c.rng.choice("0123456789+-. eEx") for _ in range(c.rng.randrange(1, 26))) for _ in range(c.scale(40, 800))]
    for T in ("int", "uint", "byte"):
        for t in sv:
            m = re.fullmatch(r"(\s*)([+-]?[0-9]+)(\s*)", t, re.A)
            if not m:
                ex = P()
            else:
                v = int(m.group(2))
                ok = R[T][0] <= v <= R[T][1]
                ex = P() if not ok else f"{v}\n" if not m.group(1) and not m.group(3) and not (T != "int" and "-" in t) else (f"{v}\n", P())
            s.add(f"{T}(string)", f"println({T}(S(0)))", ex, [t.encode()], key=repr(t))
    for t in sv:
        m = re.fullmatch(r"\s*([+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?)\s*", t, re.A)
        if m:
            s.add("float(string)", "println(float(S(0)) == F(1))", ("true\n",) if t == m.group(1) and "inf" not in repr(float(t)) else ("true\n", P()),
                  [t.encode(), repr(float(m.group(1)))], key=repr(t))
        elif not re.search(r"inf|nan|0[xX]", t, re.I):
            s.add("float(string)", "println(float(S(0)) == 0.5)", P(), [t.encode()], key=repr(t))
    # bool, string and enum forms
    for S in [t for t in types if t not in FL]:
        for v in values(c, S, 4):
            if S != "char":
                s.add(f"cast {S}->string", f"mut a {S} = {load(S, 0)}\n    mut t string = cast(a, string)\n    println(t)\n    println(string(a) == t)", f"{v}\ntrue\n", [v], key=str(v))
            s.add(f"cast {S}->bool", f"mut a {S} = {load(S, 0)}\n    println(cast(a, bool))", "true\n" if v else "false\n", [v], key=str(v))
    for b in ("true", "false"):
        for T in types:
            if T not in FL and T != "char":
                s.add(f"cast bool->{T}", f"mut b bool = S(0) == \"true\"\n    println(cast(b, {T}))", f"{int(b == 'true')}\n", [b], key=b)
        s.add("cast bool->string", "mut b bool = S(0) == \"true\"\n    println(cast(b, string))\n    println(string(b))", f"{b}\n{b}\n", [b], key=b)
    for cp in (65, 0x7F, 0x80, 0xE9, 0x20AC, 0x1F600, 10):
        s.add("cast char->string", "mut ch char = char(I(0))\n    mut t string = cast(ch, string)\n    println(t)\n    println(len(t))",
              chr(cp) + "\n" + f"{len(chr(cp).encode())}\n", [cp], key=str(cp))
    for i, nm in enumerate(("A", "B", "C")):
        s.add("cast enum<->int", "mut e HostA = cast(I(0), HostA)\n    println(e == HostA." + nm + ")\n    println(cast(e, int))", f"true\n{i}\n", [i], key=nm)
    s.run((("plain", 1), ("asan", c.scale(7, 3))))


if __name__ == "__main__":
    main(check, "C03", "every conversion form of every numeric type pair on boundary-biased values")
