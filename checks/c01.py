"""C01: fixed-width integer arithmetic is exact or panics.

Monitor: every operation form of every fixed-width type is compiled once into a
driver that reads operands at run time; an independent big-integer model decides
what each executed operation must print, or that it must panic."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

TYPES = {}
for n, w in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("int", 64)):
    TYPES[n] = (-(1 << (w - 1)), (1 << (w - 1)) - 1, w, True)
for n, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("uint", 64), ("byte", 8)):
    TYPES[n] = (0, (1 << w) - 1, w, False)

PANIC = "panic"


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b, lo, hi):
    """Exact result, PANIC, or a tuple of allowed outcomes."""
    if a is PANIC or b is PANIC:
        return PANIC
    if op in "/%" and b == 0:
        return PANIC
    if op == "%" and a == lo and b == -1:
        return (0, PANIC)       # mathematically 0; the compiler documents a panic
    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
         "/": lambda: tdiv(a, b), "%": lambda: a - b * tdiv(a, b)}[op]()
    return r if lo <= r <= hi else PANIC


def forms(T):
    """[(name, gray body using a,b : T, model(a,b) -> outcome)]"""
    lo, hi, w, signed = TYPES[T]
    F = []
    for op in "+-*/%":
        A = lambda a, b, op=op: arith(op, a, b, lo, hi)
        lits = [7, 100] if hi < 200 else [7, 251]
        L = lits[0]
        F += [
            (f"var{op}", f"println(a {op} b)", A),
            (f"decl{op}", f"mut r {T} = a {op} b\n    println(r)", A),
            (f"assign{op}", f"mut r {T} = a\n    r = r {op} b\n    println(r)", A),
            (f"field{op}", f"mut s = Bx{{f: a, g: b}}\n    println(s.f {op} s.g)", A),
            (f"elem{op}", f"mut v [{T}] = {{a, b}}\n    println(v[0] {op} v[1])", A),
            (f"mapval{op}", f"mut m map[string:{T}] = {{\"a\": a, \"b\": b}}\n    println(m[\"a\"] {op} m[\"b\"])", A),
            (f"call{op}", f"println(idt(a) {op} idt(b))", A),
            (f"deref{op}", f"mut x {T} = a\n    mut y {T} = b\n    mut p = addr(x)\n    mut q = addr(y)\n    println(p^ {op} q^)", A),
            (f"litr{op}", f"mut r {T} = a {op} {L}\n    println(r)", lambda a, b, op=op, L=L: arith(op, a, L, lo, hi)),
            (f"litl{op}", f"mut r {T} = {L} {op} a\n    println(r)", lambda a, b, op=op, L=L: arith(op, L, a, lo, hi)),
            (f"const{op}", f"const k {T} = {L}\n    println(a {op} k)", lambda a, b, op=op, L=L: arith(op, a, L, lo, hi)),
            (f"interp{op}", f"println(\"${{a {op} b}}\")", A),
            (f"arg{op}", f"println(idt(a {op} b))", A),
            (f"ret{op}", f"println(ret{ {'+':'add','-':'sub','*':'mul','/':'div','%':'mod'}[op]}(a, b))", A),
            (f"slit{op}", f"mut s = Bx{{f: a {op} b, g: b}}\n    println(s.f)", A),
            (f"alit{op}", f"mut v [{T}] = {{a {op} b}}\n    println(v[0])", A),
            (f"cond{op}", f"mut z {T} = b\n    if a {op} z == a {{ println(1) }} otherwise {{ println(0) }}",
             lambda a, b, op=op: (lambda r: r if r is PANIC or isinstance(r, tuple) and PANIC in r and False
                                  else ((tuple(PANIC if x is PANIC else int(x == a) for x in r)) if isinstance(r, tuple)
                                        else int(r == a)))(arith(op, a, b, lo, hi))),
        ]
        F += [
            (f"global{op}", f"gA = a\n    gB = b\n    println(gA {op} gB)", A),
            (f"gassign{op}", f"gA = a\n    gA {op}= b\n    println(gA)", A),
            (f"feach{op}", f"mut v [{T}] = {{a}}\n    for_each e in v {{ println(e {op} b) }}", A),
            (f"feachm{op}", f"mut m map[string:{T}] = {{\"k\": a}}\n    for_each k, e in m {{ println(e {op} b) }}", A),
            (f"loop{op}", f"mut r {T} = a\n    for i in range(0, 1) {{ r = r {op} b }}\n    println(r)", A),
            (f"ifassign{op}", f"mut r {T} = a\n    if r == a {{ r {op}= b }}\n    println(r)", A),
            (f"mret{op}", f"mut x, y = two(a, b)\n    println(x {op} y)", A),
            (f"cdecl{op}", f"const r {T} = a {op} b\n    println(r)", A),
            (f"infer{op}", f"mut r = a {op} b\n    println(r)", A),
            (f"ptrfield{op}", f"mut h = new(Bx)\n    h.f = a\n    h.g = b\n    println(h.f {op} h.g)", A),
            (f"whenv{op}", f"mut z {T} = a {op} b\n    when z {{ is 1 {{ println(1) }} default {{ println(z) }} }}", A),
            (f"paren{op}", f"println(((a) {op} (b)))", A),
            (f"method{op}", f"mut s = Bx{{f: a, g: b}}\n    println(s.{ {'+':'add','-':'sub','*':'mul','/':'div','%':'mod'}[op]}())", A),
            (f"fref{op}", f"const f = ()ret{ {'+':'add','-':'sub','*':'mul','/':'div','%':'mod'}[op]}\n    println(f(a, b))", A),
        ]
        for op2 in "+-*":
            def N(a, b, op=op, op2=op2):
                r = arith(op, a, b, lo, hi)
                if isinstance(r, tuple):
                    return tuple(PANIC if x is PANIC else arith(op2, x, a, lo, hi) for x in r)
                return arith(op2, r, a, lo, hi)
            F.append((f"nest{op}{op2}", f"println((a {op} b) {op2} a)", N))
        # compound assignment on every kind of target
        T1 = {
            "var": (f"mut x {T} = a", "x", "x"),
            "field": ("mut s = Bx{f: a, g: b}", "s.f", "s.f"),
            "elem": (f"mut v [{T}] = {{b, a, b}}", "v[1]", "v[1]"),
            "mapval": (f"mut m map[string:{T}] = {{\"k\": a, \"o\": b}}", 'm["k"]', 'm["k"]'),
            "imapval": (f"mut m map[int:{T}] = {{3: a, 4: b}}", 'm[3]', 'm[3]'),
            "deref": (f"mut x {T} = a\n    mut p = addr(x)", "p^", "x"),
            "pfield": ("mut h = new(Bx)\n    h.f = a", "h.f", "h.f"),
            "pdfield": ("mut h = new(Bx)\n    h.f = a", "h^.f", "h.f"),
            "nested": ("mut o = Ot{b: Bx{f: a, g: b}}", "o.b.f", "o.b.f"),
            "sarr": (f"mut o = Ot{{v: {{a, b}}}}", "o.v[0]", "o.v[0]"),
            "selem": ("mut v [Bx] = {Bx{f: b, g: b}, Bx{f: a, g: b}}", "v[1].f", "v[1].f"),
            "elem2": (f"mut v [[{T}]] = {{{{b}}, {{b, a}}}}", "v[1][1]", "v[1][1]"),
        }
        for tn, (setup, tgt, rd) in T1.items():
            F.append((f"cmp-{tn}{op}=", f"{setup}\n    {tgt} {op}= b\n    println({rd})", A))
        F.append((f"cmp-ref{op}=", f"mut x {T} = a\n    by{ {'+':'add','-':'sub','*':'mul','/':'div','%':'mod'}[op]}(x, b)\n    println(x)", A))
    for op, s in (("++", 1), ("--", -1)):
        def I(a, b, s=s):
            r = a + s
            return r if lo <= r <= hi else PANIC
        for tn, setup, tgt, rd in (("var", f"mut x {T} = a", "x", "x"), ("field", "mut s = Bx{f: a, g: b}", "s.f", "s.f"),
                                   ("elem", f"mut v [{T}] = {{b, a, b}}", "v[1]", "v[1]"),
                                   ("mapval", f"mut m map[string:{T}] = {{\"k\": a}}", 'm["k"]', 'm["k"]'),
                                   ("pfield", "mut h = new(Bx)\n    h.f = a", "h.f", "h.f"),
                                   ("nested", "mut o = Ot{b: Bx{f: a, g: b}}", "o.b.f", "o.b.f")):
            F.append((f"inc-{tn}{op}", f"{setup}\n    {tgt}{op}\n    println({rd})", I))
    if signed:
        neg = lambda a, b: -a if -a <= hi else PANIC
        F += [("neg", "println(-a)", neg), ("negdecl", f"mut r {T} = -a\n    println(r)", neg),
              ("negfield", "mut s = Bx{f: a, g: b}\n    println(-s.f)", neg),
              ("negparen", "println(-(a + b))", lambda a, b: (lambda r: PANIC if r is PANIC else (-r if lo <= -r <= hi else PANIC))(arith("+", a, b, lo, hi)))]
    for op, f in (("bit_and", lambda a, b: a & b), ("bit_or", lambda a, b: a | b), ("bit_xor", lambda a, b: a ^ b)):
        F += [(op, f"println(a {op} b)", f), (op + "-decl", f"mut r {T} = a {op} b\n    println(r)", f)]
    bn = (lambda a, b: ~a) if signed else (lambda a, b: hi - a)
    F += [("bit_not-decl", f"mut r {T} = bit_not a\n    println(r)", bn), ("bit_not", "println(bit_not a)", bn),
          ("bit_not-cmp", "if (bit_not a) == b { println(1) } otherwise { println(0) }", lambda a, b: int(bn(a, b) == b))]
    for op, f in (("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b),
                  (">=", lambda a, b: a >= b), ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b)):
        F.append((f"rel{op}", f"if a {op} b {{ println(1) }} otherwise {{ println(0) }}", lambda a, b, f=f: int(f(a, b))))
        F.append((f"relfield{op}", f"mut s = Bx{{f: a, g: b}}\n    if s.f {op} s.g {{ println(1) }} otherwise {{ println(0) }}", lambda a, b, f=f: int(f(a, b))))

    def shr(a, b):
        return a >> b if 0 <= b < w else (PANIC if not 0 <= b < 64 else "any")
    F.append(("shr", "println(a bit_shift_right b)", shr))
    F.append(("shr-decl", f"mut r {T} = a bit_shift_right b\n    println(r)", shr))

    def shl(a, b):
        if not 0 <= b < 64:
            return PANIC
        if b >= w or a < 0:
            return "any"
        r = a << b
        # bits shifted out of the type: the value is taken modulo 2^w (same type as operands), or panics
        m = r & ((1 << w) - 1)
        if signed and m > hi:
            m -= 1 << w
        return r if lo <= r <= hi else (m, PANIC)
    F.append(("shl", "println(a bit_shift_left b)", shl))
    F.append(("shl-decl", f"mut r {T} = a bit_shift_left b\n    println(r)", shl))
    return F


def program(T):
    lo, hi, w, signed = TYPES[T]
    F = forms(T)
    ops = (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("mod", "%"))
    meths = "".join(f"    do {n}(s Bx) -> {T} {{ return s.f {op} s.g }}\n" for n, op in ops)
    out = ["import @os, @strconv", f"mut gA {T} = 1\nmut gB {T} = 1", f"const Bx struct {{\n    f {T}\n    g {T}\n{meths}}}",
           f"do two(x, y {T}) -> ({T}, {T}) {{ return x, y }}",
           f"const Ot struct {{\n    b Bx\n    v [{T}]\n}}",
           f"do idt(x {T}) -> {T} {{ return x }}"]
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("mod", "%")):
        out.append(f"do ret{n}(x, y {T}) -> {T} {{ return x {op} y }}")
        out.append(f"do by{n}(&x {T}, y {T}) {{ x {op}= y }}")
    for i, (n, body, m) in enumerate(F):
        out.append(f"do t{i}(a, b {T}) {{\n    {body}\n}}")
    if T in ("u64", "uint"):
        conv = "mut n, _ = strconv.to_uint(s)\n    return n" if T == "uint" else "mut n, _ = strconv.to_uint(s)\n    return cast(n, u64)"
    elif T in ("int",):
        conv = "mut n, _ = strconv.to_int(s)\n    return n"
    else:
        conv = f"mut n, _ = strconv.to_int(s)\n    return cast(n, {T})"
    out.append(f"do conv(s string) -> {T} {{\n    {conv}\n}}")
    out.append("do disp(k int, a, b %s) {\n    when k {" % T)
    for i in range(len(F)):
        out.append(f"        is {i} {{ t{i}(a, b) }}")
    out.append('        default { println("no such case") }\n    }\n}')
    out.append("""do main() {
    mut args [string] = os.args()
    mut i int = 1
    as_long_as i + 2 < len(args) {
        mut k, _ = strconv.to_int(args[i])
        disp(k, conv(args[i + 1]), conv(args[i + 2]))
        i = i + 3
    }
}""")
    return "\n".join(out) + "\n", F


def critical(name, T):
    """Operand pairs at which this operation's checks decide."""
    lo, hi, w, signed = TYPES[T]
    h = 1 << (w // 2)
    add = [(hi, 1), (hi - 1, 1), (1, hi), (hi, hi), (lo, lo), (hi // 2, hi // 2 + 1), (hi // 2 + 1, hi // 2 + 1), (0, hi)]
    sub = [(lo, 1), (lo + 1, 1), (lo, hi), (hi, hi), (0, 1), (1, 0), (hi, lo), (5, 6)]
    mul = [(h, h), (h - 1, h - 1), (hi, 2), (hi // 2, 2), (hi // 2 + 1, 2), (2, hi // 2 + 1), (0, hi), (hi, 1),
           (hi, hi), (h, h - 1), (h // 2, h), (1 << (w - 2), 4)]
    div = [(hi, 0), (0, 0), (lo, 1), (hi, 1), (7, 2), (hi, hi), (hi - 1, hi), (hi, 3), (hi, 2)]
    if signed:
        add += [(lo, -1), (-1, lo), (lo + 1, -1), (hi, lo), (lo, hi), (-1, 1)]
        sub += [(hi, -1), (hi - 1, -1), (0, lo), (-1, hi), (-2, hi), (lo, lo), (-1, lo)]
        mul += [(lo, -1), (-1, lo), (lo, 1), (lo // 2, 2), (-h, h // 2), (-h, h), (-h, -h), (hi, -1), (lo, lo), (-3, hi // 3 + 1)]
        div += [(lo, -1), (lo + 1, -1), (lo, lo), (-7, 2), (7, -2), (-7, -2), (hi, -1), (lo, 2), (-1, lo), (lo, 0), (-1, 2)]
    else:
        mul += [((hi + 1) // 2, 1), (3, hi // 3), (3, hi // 3 + 1)]
        div += [(hi // 2 + 1, 2), (hi, hi // 2 + 1)]
    body = name.replace("->", "")
    for ch, L in (("+", add), ("-", sub), ("*", mul), ("/", div), ("%", div)):
        if ch in body[2:]:
            if name.startswith("inc-"):
                return [(hi, 0), (hi - 1, 0), (lo, 0), (lo + 1, 0), (0, 0)]
            return L
    if name.startswith("neg"):
        return [(lo, 0), (hi, 0), (lo + 1, 0), (0, 0), (5, 0), (lo + 1, -1), (lo // 2, lo // 2)]
    return [(lo, hi), (hi, lo), (lo, lo), (hi, hi), (0, hi), (hi // 2 + 1, hi // 2), (hi // 3, hi // 5)]


def values(c, T, n):
    lo, hi, w, signed = TYPES[T]
    s = int((hi) ** 0.5)
    base = {lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, 0, 1, 2, 3, 7, s, s + 1, 10, min(hi, 100)}
    if signed:
        base |= {-1, -2, -3, -7, lo // 2, lo // 2 - 1, -s, -s - 1}
    base = sorted(x for x in base if lo <= x <= hi)
    r = c.rng

    def one():
        k = r.random()
        if k < 0.55:
            return r.choice(base)
        if k < 0.8:
            b = r.randrange(1, w)
            v = r.getrandbits(b)
            if signed and r.random() < 0.5:
                v = -v
            return min(hi, max(lo, v))
        return r.randint(lo, hi)
    return [(one(), one()) for _ in range(n)]


def mixed(c, g):
    """Operands of two different types: if the compiler accepts the expression its value is exact or it panics."""
    pairs = [(a, b) for a in TYPES for b in TYPES if a != b]
    OPS = ["+", "-", "*", "/", "%"]
    RELS = ["<", ">", "<=", ">=", "==", "!="]

    def prog(T1, T2, ops):
        out = ["import @os, @strconv"]
        for T in {T1, T2, "int"}:
            if T in ("u64", "uint"):
                body = "mut n, _ = strconv.to_uint(s)\n    return " + ("n" if T == "uint" else "cast(n, u64)")
            else:
                body = "mut n, _ = strconv.to_int(s)\n    return " + ("n" if T == "int" else f"cast(n, {T})")
            out.append(f"do conv_{T}(s string) -> {T} {{\n    {body}\n}}")
        for i, op in enumerate(ops):
            if op in RELS:
                out.append(f"do f{i}(a {T1}, b {T2}) {{ if a {op} b {{ println(1) }} otherwise {{ println(0) }} }}")
            else:
                out.append(f"do f{i}(a {T1}, b {T2}) {{ println(a {op} b) }}")
        out.append("do main() {\n    mut args [string] = os.args()\n    when conv_int(args[1]) {")
        out += [f"        is {i} {{ f{i}(conv_{T1}(args[2]), conv_{T2}(args[3])) }}" for i in range(len(ops))]
        out.append("        default { }\n    }\n}")
        return "\n".join(out) + "\n"

    def comp(pr):
        T1, T2 = pr
        ops = OPS + RELS
        b, r = g.compile(prog(T1, T2, ops), name="mx", flags=["-q"])
        if b:
            return pr, ops, b
        good = []
        for op in ops:      # which operators does the checker accept for this pair?
            b, r = g.compile(prog(T1, T2, [op]), name="mx", flags=["-q"])
            if b:
                good.append(op)
            elif "error[E" not in r.etext:
                c.count("accepted_but_not_compiled")
        b, r = g.compile(prog(T1, T2, good), name="mx", flags=["-q"]) if good else (None, None)
        return pr, good, b
    jobs = []
    for (T1, T2), ops, b in pmap(comp, pairs):
        c.count("mixed_pairs_accepted" if b else "mixed_pairs_rejected")
        if not b:
            continue
        lo1, hi1, w1, _ = TYPES[T1]
        lo2, hi2, w2, _ = TYPES[T2]
        v1 = sorted({lo1, hi1, 0, 1, 2, max(lo1, -1), hi1 // 2 + 1})
        v2 = sorted({lo2, hi2, 0, 1, 2, max(lo2, -1), hi2 // 2 + 1})
        for i, op in enumerate(ops):
            for x, y in c.rng.sample([(x, y) for x in v1 for y in v2], c.scale(12, 40)):
                jobs.append((b, T1, T2, op, x, y, [b, str(i), str(x), str(y)]))
    bad = {}
    for (b, T1, T2, op, x, y, cmd), r in zip(jobs, run_batch([j[-1] for j in jobs])):
        c.case(("mixed", T1, op, T2, x, y))
        if op in RELS:
            want = int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op])
        else:
            want = arith(op, x, y, -(1 << 200), 1 << 200)
        got = r.text.strip() if r.rc == 0 else (PANIC if r.rc == 1 and r.panic else f"died rc={r.rc}")
        if not (got == str(want) or (got == PANIC and op not in RELS)):
            bad.setdefault(op, []).append((T1, T2, x, y, want, got))
    for op, L in sorted(bad.items()):
        cells = sorted({f"mixed {a} {op} {b}" for a, b, *_ in L})
        unk = [l for l in L if not c.known_cell(f"mixed {l[0]} {op} {l[1]}")]
        for l in L:
            k = c.known_cell(f"mixed {l[0]} {op} {l[1]}")
            if k:
                c.finding(k)
        if unk:
            T1, T2, x, y, want, got = unk[0]
            c.violation(f"mixed operands: {x} ({T1}) {op} {y} ({T2}): exact {want}, observed {got}; pairs: {cells[:40]}",
                        {"main.gray": prog(T1, T2, [op])}, unk[:40])


def check(c):
    per = c.scale(3, 60)
    plain, asan = Gray(c, "plain"), Gray(c, "asan")
    mixed(c, plain)
    jobs = [(T, g) for T in TYPES for g in ((plain, asan) if T in ("int", "i8", "u32", "uint", "i32") or c.thorough else (plain,))]

    def comp(j):
        T, g = j
        src, F = program(T)
        b, r = g.compile(src, name=f"{T}", flags=["-q"])
        return T, g, src, F, b, r
    builds = pmap(comp, jobs)
    cases = {}
    for T in TYPES:
        _, F = program(T)
        lo, hi, w, signed = TYPES[T]
        L = []
        for i, (n, body, m) in enumerate(F):
            if n.startswith(("shl", "shr")):
                amts = [0, 1, 2, w - 1, w // 2, min(63, hi), min(64, hi), c.rng.randrange(0, w)] + ([-1] if signed else [])
                vs = [(a, b) for a in (1, hi, lo, hi // 3) for b in amts]
            else:
                vs = [(a, b) for a, b in critical(n, T) if lo <= a <= hi and lo <= b <= hi] + values(c, T, per)
            L += [(i, n, a, b, m(a, b)) for a, b in vs]
        c.rng.shuffle(L)
        cases[T] = L

    runs = []
    for T, g, src, F, b, r in builds:
        if not b:
            c.violation(f"the {T} arithmetic driver does not compile ({g.variant}): {r.etext[-800:]} {r.text[-800:]}", {"main.gray": src})
            continue
        L = cases[T] if g.variant == "plain" else cases[T][:len(cases[T]) // c.scale(8, 3)]
        batch = []
        for x in L:
            batch.append(x)
            outc = x[4]
            stop = outc is PANIC or outc == "any" or isinstance(outc, tuple)
            if stop or len(batch) >= 40:
                runs.append((T, g, src, b, batch)); batch = []
        if batch:
            runs.append((T, g, src, b, batch))

    bad = {}
    cmds = []
    for T, g, src, b, batch in runs:
        args = [b]
        for i, n, x, y, o in batch:
            args += [str(i), str(x), str(y)]
        cmds.append(args)
    for (T, g, src, b, batch), r in zip(runs, run_batch(cmds)):
        lines = r.text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        for pos, (i, n, x, y, o) in enumerate(batch):
            got = lines[pos] if pos < len(lines) else None
            if got is None:
                got = PANIC if (r.rc == 1 and r.panic) else f"died rc={r.rc}"
            if r.sanitizer and pos == len(lines):
                got = "sanitizer report"
            c.case((T, n, x, y))
            c.count("operations_panicked" if got is PANIC else "operations_exact")
            c.seen("forms", n)
            if o == "any":
                ok = got is PANIC or got.lstrip("-").isdigit()
            else:
                allowed = o if isinstance(o, tuple) else (o,)
                ok = any(got == a if a is PANIC else got == str(a) for a in allowed)
            if not ok and g.variant == "asan" and o == "any":
                ok = True
            if not ok:
                key = (T, n)
                bad.setdefault(key, []).append((g.variant, x, y, o, got, src, r))
            if got is PANIC or got.startswith(("died", "sani")):
                break
        if len(c.samples) < 6:
            i, n, x, y, o = batch[-1]
            c.sample(f"{T} {n} a={x} b={y} -> model {o}")
    # one report per (operation form): the forms are call sites of the language
    byform = {}
    for (T, n), L in bad.items():
        byform.setdefault(n, []).append((T, L))
    for n, TL in sorted(byform.items()):
        T, L = TL[0]
        v, x, y, o, got, src, r = L[0]
        c.violation(f"{n} on {','.join(t for t, _ in TL)}: e.g. {T} a={x} b={y} ({v}): expected {o}, observed {got}",
                    {"main.gray": src}, {"run": r.brief(), "all": [(t, [(l[0], l[1], l[2], str(l[3]), l[4]) for l in LL[:6]]) for t, LL in TL]})


if __name__ == "__main__":
    main(check, "C01", "every (type, operation form, operand pair) executed; non-trivial = distinct triple with both "
         "operands inside the type's range, chosen from boundary values and random magnitudes")
