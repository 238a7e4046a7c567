"""C02: 128- and 256-bit integers compute exactly or panic.

Operands reach the program as hex text decoded by the binary module; every operation form of the four wide types is
executed on limb-boundary-biased operands and its printed result compared with Python integers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

TY = {"i128": (-(1 << 127), (1 << 127) - 1, 128), "u128": (0, (1 << 128) - 1, 128),
      "i256": (-(1 << 255), (1 << 255) - 1, 256), "u256": (0, (1 << 256) - 1, 256)}
NARROW = {"int": (-(1 << 63), (1 << 63) - 1), "uint": (0, (1 << 64) - 1), "i32": (-(1 << 31), (1 << 31) - 1),
          "u8": (0, 255), "i8": (-128, 127), "u32": (0, (1 << 32) - 1), "i16": (-(1 << 15), (1 << 15) - 1),
          "u16": (0, 65535), "i64": (-(1 << 63), (1 << 63) - 1), "u64": (0, (1 << 64) - 1), "byte": (0, 255)}
PAN = P()


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def calc(op, a, b, T):
    lo, hi, w = TY[T]
    if op in "/%" and b == 0:
        return PAN
    if op == "%" and a == lo and b == -1:
        return ("0\n", PAN)
    r = {"+": a + b, "-": a - b, "*": a * b}.get(op)
    if r is None:
        r = tdiv(a, b) if op == "/" else a - b * tdiv(a, b)
    return f"{r}\n" if lo <= r <= hi else PAN


def hx(v, T):
    w = TY[T][2]
    return format(v % (1 << w), f"0{w // 4}x")


def operands(c, T, n):
    lo, hi, w = TY[T]
    r = c.rng
    spec = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, 10, hi // 2, hi // 2 + 1}
    for k in (31, 32, 63, 64, 65, 95, 96, 127, 128, 191, 192):
        if k < w:
            for d in (-1, 0, 1):
                spec |= {(1 << k) + d, -(1 << k) + d}
    # limbs of all ones, zero middle limbs
    for pat in range(1 << (w // 64)):
        v = sum((((1 << 64) - 1) << (64 * i)) for i in range(w // 64) if pat >> i & 1)
        spec |= {v, v - (1 << w)}
    for k in range(1, 78, 7):
        spec |= {10 ** k, -(10 ** k), 10 ** k - 1}
    spec = sorted(x for x in spec if lo <= x <= hi)

    def one():
        k = r.random()
        if k < 0.45:
            return r.choice(spec)
        if k < 0.75:    # limb-structured
            v = 0
            for i in range(w // 64):
                v |= r.choice([0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, r.getrandbits(64), r.getrandbits(8), (1 << 32) - 1, 1 << 32]) << (64 * i)
            if lo < 0 and v > hi:
                v -= 1 << w
            return v
        v = r.getrandbits(r.randrange(1, w + 1))
        if lo < 0 and r.random() < .5:
            v = -v
        return min(hi, max(lo, v))
    out = []
    for _ in range(n):
        a, b = one(), one()
        if r.random() < .15:
            b = a
        if r.random() < .1 and b:
            q = r.getrandbits(r.randrange(1, w))      # near-multiples: quotient estimation
            a = min(hi, max(lo, q * b + r.choice([-1, 0, 1])))
        out.append((a, b))
    return out


def crit(op, T):
    lo, hi, w = TY[T]
    h = 1 << (w // 2)
    L = [(hi, 1), (lo, 1), (hi, hi), (lo, lo), (hi, lo), (lo, hi), (h, h), (h - 1, h + 1), (h - 1, h - 1), (hi, 2), (hi // 2 + 1, 2),
         (lo, 2), (hi, 0), (lo, 0), (0, hi), (hi // 3, 3), (hi // 3 + 1, 3), (h // 2, h)]
    if lo < 0:
        L += [(lo, -1), (-1, lo), (hi, -1), (lo + 1, -1), (-1, -1), (-7, 2), (7, -2), (-7, -2), (0, lo), (lo // 2, 2), (-h, h // 2), (-h, h)]
    return L


def decls(T):
    ops = (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("mod", "%"))
    s = [f"do X(i int) -> {T} {{\n    mut b [byte] = bytes.from_hex(S(i))\n    return binary.decode_{T}_be(b)\n}}",
         f"mut gA {T} = 1", f"mut gB {T} = 1",
         f"const Bx struct {{\n    f {T}\n    g {T}\n}}", f"const Ot struct {{\n    b Bx\n}}",
         f"do idt(x {T}) -> {T} {{ return x }}", f"do two(x, y {T}) -> ({T}, {T}) {{ return x, y }}"]
    for n, o in ops:
        s.append(f"do r{n}(x, y {T}) -> {T} {{ return x {o} y }}\ndo b{n}(&x {T}, y {T}) {{ x {o}= y }}")
    return "\n".join(s)


def forms(T):
    lo, hi, w = TY[T]
    A, B = "mut a = X(0)\n    mut b = X(1)\n    ", ""
    F = []
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("mod", "%")):
        m = lambda a, b, op=op: calc(op, a, b, T)
        F += [(f"var{op}", A + f"println(a {op} b)", m), (f"decl{op}", A + f"mut r {T} = a {op} b\n    println(r)", m),
              (f"assign{op}", A + f"mut r {T} = a\n    r = r {op} b\n    println(r)", m),
              (f"ret{op}", A + f"println(r{n}(a, b))", m), (f"call{op}", A + f"println(idt(a) {op} idt(b))", m),
              (f"field{op}", A + f"mut s = Bx{{f: a, g: b}}\n    println(s.f {op} s.g)", m),
              (f"elem{op}", A + f"mut v [{T}] = {{a, b}}\n    println(v[0] {op} v[1])", m),
              (f"mapval{op}", A + f"mut m map[string:{T}] = {{\"a\": a, \"b\": b}}\n    println(m[\"a\"] {op} m[\"b\"])", m),
              (f"deref{op}", A + f"mut p = addr(a)\n    mut q = addr(b)\n    println(p^ {op} q^)", m),
              (f"interp{op}", A + f"println(\"${{a {op} b}}\")", m), (f"arg{op}", A + f"println(idt(a {op} b))", m),
              (f"slit{op}", A + f"mut s = Bx{{f: a {op} b, g: b}}\n    println(s.f)", m),
              (f"alit{op}", A + f"mut v [{T}] = {{a {op} b}}\n    println(v[0])", m),
              (f"global{op}", A + f"gA = a\n    gB = b\n    println(gA {op} gB)", m),
              (f"feach{op}", A + f"mut v [{T}] = {{a}}\n    for_each e in v {{ println(e {op} b) }}", m),
              (f"infer{op}", A + f"mut r = a {op} b\n    println(r)", m), (f"paren{op}", A + f"println(((a) {op} (b)))", m),
              (f"mret{op}", f"mut x, y = two(X(0), X(1))\n    println(x {op} y)", m),
              (f"ifassign{op}", A + f"mut r {T} = a\n    if r == a {{ r {op}= b }}\n    println(r)", m),
              (f"cmp-var{op}", A + f"a {op}= b\n    println(a)", m),
              (f"cmp-field{op}", A + f"mut s = Bx{{f: a, g: b}}\n    s.f {op}= b\n    println(s.f)", m),
              (f"cmp-elem{op}", A + f"mut v [{T}] = {{b, a}}\n    v[1] {op}= b\n    println(v[1])", m),
              (f"cmp-map{op}", A + f"mut v map[string:{T}] = {{\"k\": a}}\n    v[\"k\"] {op}= b\n    println(v[\"k\"])", m),
              (f"cmp-deref{op}", A + f"mut p = addr(a)\n    p^ {op}= b\n    println(a)", m),
              (f"cmp-ref{op}", A + f"b{n}(a, b)\n    println(a)", m),
              (f"cmp-global{op}", A + f"gA = a\n    gA {op}= b\n    println(gA)", m),
              (f"cmp-pfield{op}", A + f"mut h = new(Bx)\n    h.f = a\n    h.f {op}= b\n    println(h.f)", m),
              (f"cmp-nested{op}", A + f"mut o = Ot{{b: Bx{{f: a, g: b}}}}\n    o.b.f {op}= b\n    println(o.b.f)", m),
              (f"lit{op}", A + f"mut r {T} = a {op} 7\n    println(r)", lambda a, b, op=op: calc(op, a, 7, T)),
              (f"litl{op}", A + f"mut r {T} = 7 {op} b\n    println(r)", lambda a, b, op=op: calc(op, 7, b, T)),
              (f"int{op}", A + f"mut k int = 5\n    println(a {op} k)", lambda a, b, op=op: calc(op, a, 5, T)),
              ]
        if op in "+-*":
            def nest(a, b, op=op):
                r = calc(op, a, b, T)
                return r if isinstance(r, P) else calc("-", int(r), a, T)
            F.append((f"nest{op}", A + f"println((a {op} b) - a)", nest))
    for n, f in (("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b),
                 ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b)):
        g = lambda a, b, f=f: "1\n" if f(a, b) else "0\n"
        F += [(f"rel{n}", A + f"if a {n} b {{ println(1) }} otherwise {{ println(0) }}", g),
              (f"relf{n}", A + f"mut s = Bx{{f: a, g: b}}\n    if s.f {n} s.g {{ println(1) }} otherwise {{ println(0) }}", g),
              (f"rele{n}", A + f"mut v [{T}] = {{a, b}}\n    mut t = v[0] {n} v[1]\n    if t {{ println(1) }} otherwise {{ println(0) }}", g),
              (f"rell{n}", A + f"if a {n} 3 {{ println(1) }} otherwise {{ println(0) }}", lambda a, b, f=f: "1\n" if f(a, 3) else "0\n")]
    for op, d in (("++", 1), ("--", -1)):
        m = lambda a, b, d=d: f"{a + d}\n" if lo <= a + d <= hi else PAN
        F += [(f"inc-var{op}", A + f"a{op}\n    println(a)", m),
              (f"inc-field{op}", A + f"mut s = Bx{{f: a, g: b}}\n    s.f{op}\n    println(s.f)", m),
              (f"inc-elem{op}", A + f"mut v [{T}] = {{b, a}}\n    v[1]{op}\n    println(v[1])", m),
              (f"inc-map{op}", A + f"mut v map[string:{T}] = {{\"k\": a}}\n    v[\"k\"]{op}\n    println(v[\"k\"])", m),
              (f"inc-pfield{op}", A + f"mut h = new(Bx)\n    h.f = a\n    h.f{op}\n    println(h.f)", m)]
    if lo < 0:
        m = lambda a, b: f"{-a}\n" if -a <= hi else PAN
        F += [("neg", A + "println(-a)", m), ("neg-decl", A + f"mut r {T} = -a\n    println(r)", m),
              ("neg-field", A + "mut s = Bx{f: a, g: b}\n    println(-s.f)", m)]
    F += [("print", A + "println(a)", lambda a, b: f"{a}\n"), ("print-nn", A + "print(a)", lambda a, b: f"{a}"),
          ("string", A + "mut s string = string(a)\n    println(s)", lambda a, b: f"{a}\n"),
          ("print-arr", A + f"mut v [{T}] = {{a, b}}\n    println(v)", lambda a, b: f"{{{a}, {b}}}\n"),
          ("print-struct", A + "mut s = Bx{f: a, g: b}\n    println(s.f)\n    println(\"${s.g}\")", lambda a, b: f"{a}\n{b}\n"),
          ("roundtrip", A + f"println(bytes.to_hex(binary.encode_{T}_le(a)))",
           lambda a, b: (a % (1 << w)).to_bytes(w // 8, "little").hex() + "\n"),
          ("roundtrip-be", A + f"println(bytes.to_hex(binary.encode_{T}_be(a)))",
           lambda a, b: (a % (1 << w)).to_bytes(w // 8, "big").hex() + "\n")]
    F += [("alit-int", A + f"mut v [{T}] = {{5, 7}}\n    v[0] = v[1] + b\n    println(v)", lambda a, b: f"{{{b + 7}, 7}}\n" if b + 7 <= hi else PAN),
          ("mlit-int", A + f"mut v map[string:{T}] = {{\"x\": 5, \"y\": a}}\n    v[\"z\"] = 9\n    for_each k, e in v {{ println(\"${{k}}${{e}}\") }}\n    println(v)",
           lambda a, b: f"x5\ny{a}\nz9\n{{\"x\": 5, \"y\": {a}, \"z\": 9}}\n"),
          ("mkey", A + f"mut v map[{T}:int] = {{5: 1, a: 2}}\n    v[b] = 3\n    v[5] += 1\n    for_each k, e in v {{ println(\"${{k}}:${{e}}\") }}\n    println(v[b])",
           lambda a, b: mkey(a, b)),
          ("slit-int", A + f"mut s = Bx{{f: {T}(5), g: {T}(7)}}\n    s.f += b\n    println(s.f)", lambda a, b: f"{b + 5}\n" if b + 5 <= hi else PAN),
          ("feach-arr", A + f"mut v [{T}] = {{a, b, a}}\n    for_each e in v {{ println(\"${{e}}\") }}", lambda a, b: f"{a}\n{b}\n{a}\n"),
          ("copy-arr", A + f"mut v [{T}] = {{a, b}}\n    mut w = copy(v)\n    w[0] = b\n    println(v[0])\n    println(w[0])", lambda a, b: f"{a}\n{b}\n"),
          ("hexlit", A + f"mut v {T} = 0x{{HEX}}\n    println(v)".replace("{HEX}", "7f" + "ab" * (w // 8 - 1)), lambda a, b: f"{int('7f' + 'ab' * (w // 8 - 1), 16)}\n"),
          ("shadow", A + "if a == a { mut b = 3\n    println(b + 1) }\n    println(b)", lambda a, b: f"4\n{b}\n")]
    for N, (nl, nh) in NARROW.items():
        F.append((f"cast-{N}", A + f"mut r = cast(a, {N})\n    println(r)", lambda a, b, nl=nl, nh=nh: f"{a}\n" if nl <= a <= nh else PAN))
    for N in ("int", "uint"):
        nl, nh = NARROW[N]
        F.append((f"conv-{N}", A + f"mut r {N} = {N}(a)\n    println(r)", lambda a, b, nl=nl, nh=nh: f"{a}\n" if nl <= a <= nh else PAN))
    for W, (wl, wh, _) in TY.items():
        if W != T:
            m = lambda a, b, wl=wl, wh=wh: f"{a}\n" if wl <= a <= wh else PAN
            F += [(f"cast-{W}", A + f"mut r {W} = cast(a, {W})\n    println(r)", m), (f"conv-{W}", A + f"mut r {W} = {W}(a)\n    println(r)", m)]
    return F


def mkey(a, b):
    d = {5: 1}
    d[a] = 2
    d[b] = 3
    d[5] += 1
    return "".join(f"{k}:{v}\n" for k, v in d.items()) + f"{d[b]}\n"


def check(c):
    suites = []
    for T, (lo, hi, w) in TY.items():
        s = Suite(c, "bytes, binary", decls(T), per=45)
        base = operands(c, T, 400)
        for n, body, m in forms(T):
            k = c.scale(5, 80)
            cr = crit(n, T)
            if not c.thorough and not n.startswith(("var", "rel", "neg", "inc-var")):
                cr = c.rng.sample(cr, 7)
            pairs = cr + c.rng.sample(base, min(len(base), k)) if not n.startswith(("print", "round", "cast", "conv")) else \
                c.rng.sample(base, k * 3) + cr[:6]
            if n.startswith(("cast", "conv")):
                t = n.split("-")[1]
                l2, h2 = (NARROW.get(t) or TY[t])[:2]
                pairs += [(v, 0) for v in (l2, l2 - 1, h2, h2 + 1, -1, 0) if lo <= v <= hi]
            for a, b in pairs:
                s.add(f"{T} {n}", body, m(a, b), [hx(a, T), hx(b, T)], key=f"{a} {b}")
        suites.append(s)
    # literals of every magnitude, in declarations, arguments and comparisons
    lits = Suite(c, "", "\n".join(f"do id_{T}(x {T}) -> {T} {{ return x }}" for T in TY), per=60)
    for T, (lo, hi, w) in TY.items():
        vs = [v for v, _ in operands(c, T, c.scale(40, 300))] + [lo, hi, lo + 1, hi - 1, 0]
        for v in vs:
            if v < 0 and v == lo:
                pass
            lits.add(f"{T} literal", f"mut x {T} = {v}\n    println(x)", f"{v}\n", key=str(v))
            if abs(v) < (1 << 63):
                lits.add(f"{T} literal-arg", f"println(id_{T}({T}({v})))", f"{v}\n" if v >= 0 or lo < 0 else PAN, key=str(v))
    suites.append(lits)
    for W, (lo, hi, w) in TY.items():
        s = Suite(c, "", per=30)
        for N, (nl, nh) in NARROW.items():
            get = {"int": "I(0)", "uint": "U(0)"}.get(N) or (f"cast(U(0), {N})" if nh > (1 << 62) and nl == 0 else f"cast(I(0), {N})")
            for v in sorted({nl, nh, 0, 1, max(nl, -1), nh - 1, nl + 1}):
                ok = lo <= v
                s.add(f"{N} to {W} call", f"mut x = {get}\n    mut y = {W}(x)\n    println(y)", f"{v}\n" if ok else PAN, [v])
                s.add(f"{N} to {W} cast", f"mut x = {get}\n    mut y = cast(x, {W})\n    println(y)", f"{v}\n" if ok else PAN, [v])
        suites.append(s)
    for s in suites:
        s.run((("plain", 1), ("asan", c.scale(10, 3))))


if __name__ == "__main__":
    main(check, "C02", "an evaluation is one executed operation of one form of one wide type (or one conversion or literal) whose printed "
     "result or panic was compared with exact integers; distinct counts distinct (form, type, operands)")
