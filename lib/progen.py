"""Random well-typed Grayscale programs with a reference interpreter.

A program is generated and interpreted from the same construction: every generated expression is a pair (source text,
evaluator), every statement a pair (source lines, executor), so the expected standard output (or panic) is computed
independently of the compiler.  Value semantics: composites are copied when stored, passed or returned; & parameters and
pointers alias."""
import re


class Panic(Exception):
    def __init__(self, *codes):
        self.codes = codes


class Fuel(Exception): pass
class Brk(Exception): pass
class Cont(Exception): pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


IR = {"int": (-(1 << 63), (1 << 63) - 1), "uint": (0, (1 << 64) - 1), "i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535),
      "i32": (-(1 << 31), (1 << 31) - 1), "u32": (0, (1 << 32) - 1), "i64": (-(1 << 63), (1 << 63) - 1), "u64": (0, (1 << 64) - 1)}
ARITH = tuple(f"P{i:04d}" for i in range(1, 30)) + ("P0078", "P0079")


def dc(v):
    """Copy of a composite value; pointers stay shared."""
    if isinstance(v, list): return [dc(x) for x in v]
    if isinstance(v, dict): return {k: dc(x) for k, x in v.items()}
    if isinstance(v, tuple): return tuple(dc(x) for x in v)
    return v


class Ptr:
    def __init__(self, v): self.v = v


def ffmt(x):
    r = repr(float(x))
    return r


def fmt(t, v):
    if t == "bool": return "true" if v else "false"
    if t == "float": return ffmt(v)
    return str(v)


class Gen:
    def __init__(self, rng, **feat):
        self.r = rng
        self.f = dict(effects=False, funcs=5, depth=3, stmts=7, narrow=True, tags=True, ensure=False, multi=True, ptr=True, fn=True, named=True, panics=.012)
        self.f.update(feat)
        self.n = 0
        self.structs = {}       # name -> [(field, type, default src/val or None)]
        self.enums = {}         # name -> [variants]
        self.tags = {}          # name -> [(variant, [payload types])]
        self.funcs = []         # dicts
        self.calls_left = 0
        self.refs = set()
        self.nocall = False     # file-scope initializers
        self.nob = 0            # no braces allowed in the expression being built (conditions, interpolations)
        self.kw_else, self.kw_while = rng.choice(("otherwise", "else")), rng.choice(("as_long_as", "while"))

    def name(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def ch(self, *x): return self.r.choice(x)
    def p(self, q): return self.r.random() < q

    # ---------- types
    def decls(self):
        r = self.r
        for _ in range(r.randint(1, 2)):
            self.enums[self.name("En")] = [self.name("V").upper() for _ in range(r.randint(2, 5))]
        for _ in range(r.randint(1, 3)):
            f = []
            for _ in range(r.randint(1, 5)):
                t = self.type(1)
                d = None
                if t in ("int", "string", "bool") and self.p(.25):
                    d = self.lit(t)
                f.append((self.name("f"), t, d))
            self.structs[self.name("St")] = f
        if self.f["tags"]:
            for _ in range(r.randint(1, 2)):
                vs = []
                for i in range(r.randint(2, 4)):
                    k = r.choice((0, 1, 1, 2)) if i else 1
                    vs.append((self.name("T").upper(), [self.type(2) for _ in range(k)]))
                self.tags[self.name("Tg")] = vs

    def type(self, lvl=0, local=False):
        """lvl 0 anything, 1 inside struct, 2 payload/element."""
        r = self.r
        base = ["int", "int", "int", "string", "string", "bool", "float", "uint"] + ([r.choice(list(IR))] if self.f["narrow"] else [])
        k = r.random()
        if k < .62 or lvl == 3: return r.choice(base)
        if k < .7 and self.enums: return ("en", r.choice(list(self.enums)))
        if k < .8 and self.structs: return ("st", r.choice(list(self.structs)))
        if k < .86 and self.tags and lvl == 0: return ("tag", r.choice(list(self.tags)))
        if k < .95 and lvl < 2: return ("arr", self.type(2))
        if lvl < 2: return ("map", self.type(3))
        return r.choice(base)

    def tsrc(self, t):
        if isinstance(t, str): return t
        if t[0] == "arr": return f"[{self.tsrc(t[1])}]"
        if t[0] == "map": return f"map[string:{self.tsrc(t[1])}]"
        if t[0] == "ptr": return f"^{t[1]}"
        return t[1]

    def zero(self, t, top=True):
        if t in IR: return 0
        if t == "float": return 0.0
        if t == "bool": return False
        if t == "string": return ""
        if t[0] == "arr": return []
        if t[0] == "map": return {}
        if t[0] == "st": return {f: (d[1](None) if d and top else self.zero(ft, False)) for f, ft, d in self.structs[t[1]]}
        if t[0] == "en": return 0

    # ---------- expressions: (src, eval(env)); env maps name -> [value]
    def lit(self, t, lvl=0):
        r = self.r
        if t in IR:
            lo, hi = IR[t]
            v = r.choice((0, 1, 2, 3, 5, 7, 10, r.randint(0, 60), r.randint(0, 120))) if not self.p(self.f["panics"]) else r.choice((hi, hi - 1) if t not in ("uint", "u64") else (1 << 32, 1 << 40))
            if lo < 0 and self.p(.2): v = -min(v, 100)
            v = max(lo, min(hi, v, (1 << 63) - 1))
            if t in ("uint", "u64") and v > 1000: return f"cast({v}, {t})", lambda e: v   # a bare literal is an int
            return str(v), lambda e: v
        if t == "float":
            v = r.choice((0.0, 0.5, 1.25, -2.5, 3.0, 10.75, 0.125, -0.25))
            return repr(v), lambda e: v
        if t == "bool":
            v = self.p(.5)
            return ("true" if v else "false"), lambda e: v
        if t == "string":
            v = r.choice(("", "a", "bc", "hello", "x y", "Zz9", "\u00e9", "100%", "tab\\t", "q"))
            w = v.replace("\\t", "\t")
            return f'"{v}"', lambda e: w
        if t[0] == "en":
            vs = self.enums[t[1]]
            i = r.randrange(len(vs))
            return f"{t[1]}.{vs[i]}", lambda e: i
        if t[0] == "tag":
            vn, ts = r.choice(self.tags[t[1]])
            a = [self.arg(x) for x in ts]
            return f"{t[1]}.{vn}" + (f"({', '.join(x for x, _ in a)})" if a else ""), lambda e: (vn, tuple(dc(g(e)) for _, g in a))
        if t[0] == "st":
            fs = [x for x in self.structs[t[1]] if self.p(.8)]
            a = [(f, self.arg(ft)) for f, ft, _ in fs]
            def ev(e):
                v = self.zero(t)
                for f, (_, g) in a: v[f] = dc(g(e))
                return v
            return f"{t[1]}{{{', '.join(f'{f}: {s}' for f, (s, _) in a)}}}", ev
        raise Exception(t)

    def arrlit(self, t, n=None):
        a = [self.expr(t[1], 1) for _ in range(self.r.randint(0, 4) if n is None else n)]
        return "{" + ", ".join(s for s, _ in a) + "}", lambda e: [dc(g(e)) for _, g in a]

    def maplit(self, t):
        ks = self.r.sample(["a", "b", "c", "dd"], self.r.randint(0, 3))
        a = [(k, self.expr(t[1], 1)) for k in ks]
        return ("{" + ", ".join(f'"{k}": {s}' for k, (s, _) in a) + "}" if a else "{:}"), lambda e: {k: dc(g(e)) for k, (_, g) in a}

    def vars_of(self, t, mutable=False):
        out = []
        for sc in self.scopes:
            for n, (vt, m) in sc.items():
                if vt == t and (m or not mutable): out.append(n)
        return out

    def paths(self, t, mutable=False):
        """(src, get, set) of every place of type t reachable without calls."""
        out = []
        for sc in self.scopes:
            for n, (vt, m) in sc.items():
                if mutable and not m: continue
                if vt == t:
                    out.append((n, lambda e, n=n: e[n][0], lambda e, v, n=n: e[n].__setitem__(0, v)))
                if vt[0] == "st" or vt[0] == "ptr":
                    for f, ft, _ in self.structs[vt[1]]:
                        if ft != t: continue
                        if vt[0] == "st":
                            out.append((f"{n}.{f}", lambda e, n=n, f=f: e[n][0][f], lambda e, v, n=n, f=f: e[n][0].__setitem__(f, v)))
                        else:
                            out.append((self.ch(f"{n}.{f}", f"{n}^.{f}"), lambda e, n=n, f=f: e[n][0].v[f], lambda e, v, n=n, f=f: e[n][0].v.__setitem__(f, v)))
        return out

    def ret_fn(self, t):
        L = [f for f in self.funcs if f["ret"] == [t] and not (f["impure"] and not self.f["effects"]) and not any(m or (self.nob and self.composite(pt)) for _, pt, m, _ in f["params"])]
        return self.r.choice(L) if L else None

    def arg(self, t, d=1):
        """An expression of exactly type t (arguments and fields do not convert integer literals)."""
        if t in IR and t != "int":
            L = self.paths(t)
            if L and self.p(.6):
                x, g, _ = self.r.choice(L)
                if self.p(.3):
                    q = self.r.choice(L)
                    op = self.ch("+", "*")
                    return f"({x} {op} {q[0]})", lambda e: self.chk(t, (lambda a, b: a + b if op == "+" else a * b)(g(e), q[1](e)))
                return x, g
            x, g = self.lit(t)
            return f"cast({x}, {t})", g
        return self.expr(t, d)

    def lit_needs_var(self, t):
        return t[0] == "ptr" or isinstance(t, tuple) and t[0] in ("arr", "map") and t[1] not in ("int", "string", "bool", "float")

    def call(self, f, refs=None):
        """Arguments (positional, named, defaulted) for f; & parameters take places from the caller."""
        args, evs = [], []
        ps = f["params"]
        named = self.f["named"] and self.p(.2) and not any(m for _, _, m, _ in ps) and f.get("self") is None
        cut = len(ps)
        while cut and ps[cut - 1][3] is not None and self.p(.4): cut -= 1
        split = self.r.randint(0, cut) if named else cut
        for i, (pn, pt, m, d) in enumerate(ps):
            if i >= cut:
                evs.append(lambda e, d=d: [d[1](None)])
            elif not m and self.lit_needs_var(pt):
                L = self.paths(pt)
                if not L: return None
                x, g, _ = self.r.choice(L)
                args.append(x)
                evs.append(lambda e, g=g: [dc(g(e))])
            elif m:
                L = self.paths(pt, True)
                if self.f.get("simple_refs"): L = [x for x in L if "." not in x[0] and "^" not in x[0]]
                used = [a for a in args]
                L = [x for x in L if x[0] not in used and x[0].split(".")[0].rstrip("^") not in [u.split(".")[0].rstrip("^") for u in used]]
                if not L: return None
                s, g, st = self.r.choice(L)
                args.append(s)
                evs.append(("ref", s, g, st))
            else:
                s, g = self.arg(pt)
                args.append(s)
                evs.append(lambda e, g=g: [dc(g(e))])
        out = args[:split]
        nm = [f"{ps[i][0]}: {args[i]}" for i in range(split, cut)]
        order = list(range(split)) + list(range(split, cut))
        if named:
            z = list(zip(nm, range(split, cut)))
            self.r.shuffle(z)
            nm = [a for a, _ in z]
            order = list(range(split)) + [i for _, i in z]
        src = f"{f['name']}({', '.join(out + nm)})"

        def ev(e):
            vals = {}
            for i in order + list(range(cut, len(ps))):
                x = evs[i]
                if isinstance(x, tuple):
                    vals[i] = ("ref", x[2], x[3], e)
                else:
                    vals[i] = x(e)
            return self.run_fn(f, [vals[i] for i in range(len(ps))])
        return src, ev

    def run_fn(self, f, vals):
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 60: raise Fuel()
        env = {}
        backs = []
        for (pn, pt, m, d), v in zip(f["params"], vals):
            if isinstance(v, tuple) and v[0] == "ref":
                _, g, st, e = v
                env[pn] = RefCell(g, st, e)
            else:
                env[pn] = v
        try:
            r = None
            try:
                for s in f["body"]: s(env)
            except Ret as x:
                r = x.v
            for s in reversed(env.get("#ensure", [])): s()
            return r
        finally:
            self.depth -= 1

    def expr(self, t, d=0):
        """d: nesting depth."""
        r = self.r
        if d > self.f["depth"] or self.p(.22):
            L = self.paths(t)
            if L and self.p(.75):
                s, g, _ = r.choice(L)
                return s, g
            if isinstance(t, str) or t[0] in ("en", "st", "tag"): return self.lit(t)
        if isinstance(t, tuple) and t[0] in ("arr", "map"):
            L = self.paths(t)
            # literals need an annotated context: a variable, parameter or field is; keep to places and calls elsewhere
            f = self.usable_fn(t)
            if f and self.p(.3):
                c = self.call(f)
                if c: return c
            if L and self.p(.6):
                s, g, _ = r.choice(L)
                return s, g
            return self.arrlit(t) if t[0] == "arr" else self.maplit(t)
        f = self.usable_fn(t)
        if f and self.p(.2):
            c = self.call(f)
            if c: return c
        if t in IR: return self.intexpr(t, d)
        if t == "float":
            k = r.random()
            if k < .6:
                a, b = self.expr("float", d + 1), self.expr("float", d + 1)
                op = self.ch("+", "-", "*")
                return f"({a[0]} {op} {b[0]})", lambda e: self.fl({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op](*self.two(a, b, e)))
            a = self.expr("int", d + 1)
            return f"cast({a[0]}, float)", lambda e: float(a[1](e))
        if t == "bool":
            return self.boolexpr(d)
        if t == "string":
            k = r.random()
            if k < .45:
                parts = []
                for _ in range(r.randint(1, 3)):
                    if self.p(.4):
                        s = r.choice(("-", "a", " ", "=", "x%", "("))
                        parts.append((s, lambda e, s=s: s))
                    else:
                        pt = r.choice(("int", "string", "bool", "float", "uint"))
                        a = self.nobrace(self.expr, pt, d + 1)
                        if '"' in a[0]: a = (lambda L: (L[0][0], L[0][1]) if L else None)([x for x in self.paths(pt)])
                        if a is None or '"' in a[0]: continue
                        parts.append(("${" + a[0] + "}", lambda e, a=a, pt=pt: fmt(pt, a[1](e))))
                if parts:
                    return '"' + "".join(s for s, _ in parts) + '"', lambda e: self.cap("".join([g(e) for _, g in parts]))
            if self.nocall: return self.lit(t)
            if k < .6:
                a = self.expr("string", d + 1)
                return f"strings.to_upper({a[0]})", lambda e: "".join(c.upper() if c.isascii() else c for c in a[1](e))
            if k < .72:
                a, b, c = self.expr("string", d + 1), r.randint(0, 2), r.randint(0, 4)
                return f"strings.slice({a[0]}, {b}, {c})", lambda e: self.bslice(a[1](e), b, c)
            return self.lit(t)
        if t[0] == "en" and self.p(.2):
            n = len(self.enums[t[1]])
        return self.lit(t)

    def usable_fn(self, t):
        if not self.f["effects"]:
            if self.calls_left <= 0: return None
        f = self.ret_fn(t)
        if f and not self.f["effects"]: self.calls_left -= 1
        return f

    def bslice(self, s, b, c):
        x = s.encode("utf-8", "surrogateescape")[b:max(b, c)]
        return x.decode("utf-8", "surrogateescape")

    def cap(self, s):
        if len(s) > 2000: raise Fuel()
        return s

    def fl(self, x):
        if abs(x) > 1e9 or (x != 0 and abs(x) < 1e-3): raise Fuel()
        return x + 0.0 if x else 0.0 if str(x)[0] != "-" else x

    def two(self, a, b, e):
        x = a[1](e)
        return x, b[1](e)

    def chk(self, t, v, *codes):
        lo, hi = IR[t]
        if not lo <= v <= hi: raise Panic(*ARITH)
        return v

    def intexpr(self, t, d):
        s, g = self.intexpr0(t, d)
        if not re.search(r"[a-zA-Z]", s):
            try:
                g(None)
            except Panic:       # constant expressions that fail are compile-time errors
                return self.lit(t)
        return s, g

    def nobrace(self, f, *a):
        self.nob += 1
        try: return f(*a)
        finally: self.nob -= 1

    def cond(self, d=0): return self.nobrace(self.boolexpr, d)

    def composite(self, t):
        return isinstance(t, tuple) and t[0] in ("arr", "map", "st", "tag")

    def intexpr0(self, t, d):
        r = self.r
        k = r.random()
        if k < .5:
            op = self.ch("+", "+", "-", "*")
            a = self.expr(t, d + 1)
            b = self.expr(t, d + 1) if self.p(.5) else self.lit(t)
            if t in ("uint", "u64"):      # an operation on bare literals is an int one
                if a[0][0] == "(" and not re.search(r"[a-zA-Z]", a[0]): a = self.lit(t)
                if b[0][0] == "(" and not re.search(r"[a-zA-Z]", b[0]): b = self.lit(t)
            F = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
            return f"({a[0]} {op} {b[0]})", lambda e: self.chk(t, F(*self.two(a, b, e)))
        if k < .68:
            op = self.ch("/", "%")
            a = self.expr(t, d + 1)
            if self.p(.9):
                m = r.randint(1, 20)
                b = (str(m), lambda e: m)
            else:
                L = self.paths(t)
                if not L: return self.lit(t)
                b = self.r.choice(L)
            def ev(e):
                x, y = self.two(a, b, e)
                if y == 0: raise Panic("P0078", "P0001", "P0002", "P0004", "P0005", "P0006", *ARITH)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return self.chk(t, q) if op == "/" else x - y * q
            return f"({a[0]} {op} {b[0]})", ev
        if t == "int":
            k = r.random()
            if k < .25:
                arrs = [(s, g) for T in self.arr_types() for s, g, _ in self.paths(T)]
                if arrs:
                    s, g = r.choice(arrs)
                    return f"len({s})", lambda e: len(g(e))
            if k < .4:
                a = self.expr("string", d + 1)
                return f"len({a[0]})", lambda e: len(a[1](e).encode("utf-8", "surrogateescape"))
            if k < .55:
                L = [(s, g) for s, g, _ in self.paths(("arr", "int"))]
                if L:
                    s, g = r.choice(L)
                    i = r.randint(0, 1)
                    def ev(e):
                        v = g(e)
                        if i >= len(v): raise Panic("P0033")
                        return v[i]
                    if self.p(.7):
                        return f"at({s}, {i})", lambda e: (lambda v: v[i] if i < len(v) else -1)(g(e))
                    return f"{s}[{i}]", ev
            if k < .65:
                a = self.expr("int", d + 1)
                return f"-({a[0]})", lambda e: self.chk("int", -a[1](e))
            if k < .75 and self.enums:
                en = r.choice(list(self.enums))
                a = self.expr(("en", en), d + 1)
                return f"cast({a[0]}, int)", lambda e: a[1](e)
            if k < .85:
                nt = r.choice(list(IR))
                if nt != "int":
                    a = self.expr(nt, d + 1)
                    return f"cast({a[0]}, int)", lambda e: self.chk("int", a[1](e))
        L = self.paths(t)
        if L and self.p(.6):
            s, g, _ = r.choice(L)
            return s, g
        return self.lit(t)

    def arr_types(self):
        return sorted({vt for sc in self.scopes for vt, _ in sc.values() if vt[0] in ("arr", "map")}, key=str)

    def boolexpr(self, d):
        r = self.r
        k = r.random()
        if k < .4:
            t = r.choice(("int", "int", "float", "uint", "u8") if self.f["narrow"] else ("int", "float"))
            a, b = self.expr(t, d + 1), self.expr(t, d + 1)
            op = self.ch("<", ">", "<=", ">=", "==", "!=")
            F = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[op]
            return f"({a[0]} {op} {b[0]})", lambda e: F(*self.two(a, b, e))
        if k < .6:
            a, b = self.boolexpr(d + 1) if d < 3 else self.lit("bool"), self.boolexpr(d + 1) if d < 3 else self.lit("bool")
            if self.p(.5):
                return f"({a[0]} && {b[0]})", lambda e: bool(a[1](e)) and b[1](e)
            return f"({a[0]} || {b[0]})", lambda e: bool(a[1](e)) or b[1](e)
        if k < .7:
            a = self.expr("bool", d + 1)
            return f"!({a[0]})", lambda e: not a[1](e)
        if k < .8:
            a, b = self.expr("string", d + 1), self.expr("string", d + 1)
            eq = self.p(.5)
            return f"({a[0]} {'==' if eq else '!='} {b[0]})", lambda e: (lambda x, y: (x == y) == eq)(*self.two(a, b, e))
        if k < .86 and self.enums:
            t = ("en", r.choice(list(self.enums)))
            L = self.paths(t)
            if L:
                s, g, _ = r.choice(L)
                b = self.lit(t)
                return f"({s} == {b[0]})", lambda e: g(e) == b[1](e)
        if k < .93:
            a = self.expr("int", d + 1)
            lo, w = r.randint(-3, 5), r.randint(1, 12)
            return f"({a[0]} in range({lo}, {lo + w}))", lambda e: lo <= a[1](e) < lo + w
        L = self.paths(("map", "int"))
        if L:
            s, g, _ = r.choice(L)
            q = self.ch("a", "b", "zz")
            return f'("{q}" in {s})', lambda e: q in g(e)
        return self.lit("bool")

    # ---------- statements: (lines, exec(env))
    def out(self, s):
        self.stdout.append(s)
        if len(self.stdout) > 4000: raise Fuel()

    def fresh(self, t, m=True):
        n = self.name("v")
        self.scopes[-1][n] = (t, m)
        return n

    def start(self):
        self.calls_left = 1 if self.p(.5) else 0

    def stmt(self, lvl, loop, f):
        self.sn = getattr(self, "sn", 0) + 1
        n = self.sn
        l, x = self.stmt0(lvl, loop, f)
        return ([], lambda e: None) if n in self.f.get("drop", ()) else (l, x)

    def stmt0(self, lvl, loop, f):
        r = self.r
        self.start()
        k = r.random()
        if k < .22: return self.decl(lvl)
        if k < .42: return self.assign()
        if k < .54: return self.printst()
        if k < .62: return self.callst()
        if lvl >= 3: return self.printst()
        if k < .74: return self.ifst(lvl, loop, f)
        if k < .85: return self.loopst(lvl, f)
        if k < .93: return self.whenst(lvl, loop, f)
        if k < .96 and loop:
            c, g = self.cond(1)
            b = self.p(.5)
            def ex(e):
                if g(e): raise (Brk() if b else Cont())
            return [f"if {c} {{ {'break' if b else 'continue'} }}"], ex
        if f is not None and f["ret"] and lvl > 0 and self.p(.7):
            c, g = self.cond(1)
            s, ex = self.retst(f)
            def ex2(e):
                if g(e): ex(e)
            return [f"if {c} {{"] + ["    " + x for x in s] + ["}"], ex2
        return self.assign()

    def block(self, lvl, loop, f, n=None):
        self.scopes.append({})
        lines, exs = [], []
        for _ in range(n or self.r.randint(1, 3)):
            l, x = self.stmt(lvl, loop, f)
            lines += l
            exs.append(x)
        sc = self.scopes.pop()
        def ex(e):
            self.fuel -= 1
            if self.fuel < 0: raise Fuel()
            for x in exs: x(e)
        return ["    " + x for x in lines], ex

    def decl(self, lvl):
        r = self.r
        if self.f["ptr"] and self.p(.1) and self.structs:
            sn = r.choice(list(self.structs))
            L = self.vars_of(("ptr", sn))
            n = self.name("v")
            if L and self.p(.5):
                q = r.choice(L)
                src, g = q, lambda e: e[q][0]
            else:
                src, g = f"new({sn})", lambda e: Ptr(self.zero(("st", sn)))
            self.scopes[-1][n] = (("ptr", sn), True)
            def ex(e): e[n] = [g(e)]
            return [f"mut {n} ^{sn} = {src}"], ex
        t = self.type()
        s, g = self.expr(t)
        m = self.p(.85) or isinstance(t, tuple)
        if not isinstance(t, str) or "(" in s or not m: ann = " " + self.tsrc(t)
        else: ann = " " + self.tsrc(t) if t not in ("bool", "string") or self.p(.5) else ""
        if "(" in s and not m: m = True
        n = self.fresh(t, m)
        def ex(e): e[n] = [dc(g(e))]
        return [f"{'mut' if m else 'const'} {n}{ann} = {s}"], ex

    def assign(self):
        r = self.r
        places = []
        for sc in self.scopes:
            for n, (vt, m) in sc.items():
                if not m: continue
                ts = {vt} | ({ft for _, ft, _ in self.structs[vt[1]]} if vt[0] in ("st", "ptr") else set())
                for t in ts:
                    if t[0] != "ptr": places.append(t)
        if not places: return self.printst()
        t = r.choice(sorted(set(places), key=str))
        L = self.paths(t, True)
        s, g, st = r.choice(L)
        if isinstance(t, tuple) and t[0] == "arr":
            k = r.random()
            a = self.expr(t[1], 1)
            if k < .6:
                def ex(e):
                    v = dc(a[1](e))
                    x = g(e)
                    if len(x) > 200: raise Fuel()
                    x.append(v)
                return [f"arrays.append({s}, {a[0]})"], ex
            if k < .8:
                i = r.randint(0, 1)
                def ex(e):
                    v = dc(a[1](e))
                    x = g(e)
                    if i >= len(x): return
                    x[i] = v
                # the value is evaluated only when stored
                def ex2(e):
                    if len(g(e)) > i: g(e)[i] = dc(a[1](e))
                return [f"if len({s}) > {i} {{ {s}[{i}] = {a[0]} }}"], ex2
        if isinstance(t, tuple) and t[0] == "map" and self.p(.7):
            a = self.expr(t[1], 1)
            k = r.choice(("a", "b", "c"))
            def ex(e): g(e)[k] = dc(a[1](e))
            return [f'{s}["{k}"] = {a[0]}'], ex
        if t in IR and self.p(.5):
            k = r.random()
            if k < .3 and "." not in s and "^" not in s:
                up = self.p(.6)
                def ex(e): st(e, self.chk(t, g(e) + (1 if up else -1)))
                return [f"{s}{'++' if up else '--'}"], ex
            op = self.ch("+", "-", "*", "%")
            if op == "%":
                m = r.randint(1, 30)
                a = (str(m), lambda e: m)
            else: a = self.expr(t, 1)
            def ex(e):
                x, y = self.two((0, g), a, e)
                if op == "%":
                    q = abs(x) % abs(y)
                    v = -q if x < 0 else q
                else: v = {"+": x + y, "-": x - y, "*": x * y}[op]
                st(e, self.chk(t, v))
            return [f"{s} {op}= {a[0]}"], ex
        a = self.expr(t)
        def ex(e): st(e, dc(a[1](e)))
        return [f"{s} = {a[0]}"], ex

    def show(self, t, s):
        """Expressions that print a place of type t completely: [(src, eval(v))]."""
        if isinstance(t, str):
            return f"${{{s}}}", lambda v: fmt(t, v)
        if t[0] == "en": return f"${{cast({s}, int)}}", lambda v: str(v)
        if t[0] == "arr": return f"${{len({s})}}", lambda v: str(len(v))
        if t[0] == "map": return f"${{len({s})}}", lambda v: str(len(v))
        if t[0] in ("st", "ptr"):
            p = [(f, self.show(ft, f"{s}.{f}")) for f, ft, _ in self.structs[t[1]]]
            return "{" + " ".join(x for _, (x, _) in p) + "}", lambda v: "{" + " ".join(g((v.v if isinstance(v, Ptr) else v)[f]) for f, (_, g) in p) + "}"
        return "tag", lambda v: "tag"

    def dump(self, n, t):
        """Statements printing the whole value of variable n."""
        get = lambda e: e[n][0]
        if t[0] == "arr":
            x = self.name("x")
            s, g = self.show(t[1], x)
            def ex(e):
                for v in get(e): self.out("," + g(v))
                self.out("\n")
            return [f'for_each {x} in {n} {{ print(",{s}") }}', 'println("")'], ex
        if t[0] == "map":
            ks = ["a", "b", "c", "dd"]
            s, g = self.show(t[1], "X")
            lines, L = [], []
            for k in ks:
                q = s.replace("X", f"{n}[KEY]")
                x = self.name("x")
                s2, g2 = self.show(t[1], x)
                lines += [f'if maps.has_key({n}, "{k}") {{', f'    mut {x} {self.tsrc(t[1])} = {n}["{k}"]', f'    print("{k}={s2};")', "}"]
                L.append((k, g2))
            def ex(e):
                v = get(e)
                for k, g2 in L:
                    if k in v: self.out(f"{k}={g2(v[k])};")
                self.out("\n")
            return lines + ['println("")'], ex
        if t[0] == "tag":
            lines, tab = [f"when {n} {{"], {}
            for vn, ts in self.tags[t[1]]:
                b = [self.name("b") for _ in ts]
                sh = [self.show(x, y) for x, y in zip(ts, b)]
                tab[vn] = [g for _, g in sh]
                lines.append(f"    is {t[1]}.{vn}{'(' + ', '.join(b) + ')' if b else ''} {{ println(\"{vn} {' '.join(s for s, _ in sh)}\") }}")
            lines.append("    default { println(\"none\") }\n}")
            def ex(e):
                vn, pl = get(e)
                self.out(vn + " " + " ".join(g(v) for g, v in zip(tab[vn], pl)) + "\n")
            return lines, ex
        s, g = self.show(t, n)
        return [f'println("{n} {s}")'], lambda e: self.out(n + " " + g(get(e)) + "\n")

    def printst(self):
        r = self.r
        vs = [(n, vt) for sc in self.scopes for n, (vt, _) in sc.items()]
        if vs and self.p(.6):
            n, t = r.choice(vs)
            return self.dump(n, t)
        t = r.choice(("int", "string", "bool", "float", "uint"))
        s, g = self.expr(t)
        return [f"println({s})"], lambda e: self.out(fmt(t, g(e)) + "\n")

    def callst(self):
        L = [f for f in self.funcs]
        if not L: return self.printst()
        f = self.r.choice(L)
        if self.calls_left <= 0 and not self.f["effects"]: self.calls_left = 0
        c = self.call(f)
        if not c: return self.printst()
        s, g = c
        if not f["ret"]: return [s], lambda e: g(e)
        if len(f["ret"]) == 1:
            n = self.fresh(f["ret"][0])
            def ex(e): e[n] = [dc(g(e))]
            return [f"mut {n} {self.tsrc(f['ret'][0])} = {s}"], ex
        ns = [self.fresh(t) for t in f["ret"]]
        def ex(e):
            for n, v in zip(ns, g(e)): e[n] = [dc(v)]
        return [f"mut {', '.join(ns)} = {s}"], ex

    def ifst(self, lvl, loop, f):
        arms = []
        for _ in range(self.r.randint(1, 3)):
            self.start()
            c = self.cond(0)
            arms.append((c, self.block(lvl + 1, loop, f)))
        els = self.block(lvl + 1, loop, f) if self.p(.6) else None
        lines = []
        for i, ((c, _), (b, _)) in enumerate(arms):
            lines += [("if " if i == 0 else "} or ") + c + " {"] + b
        if els: lines += ["} " + self.kw_else + " {"] + els[0]
        def ex(e):
            for (_, g), (_, b) in arms:
                if g(e): return b(e)
            if els: els[1](e)
        return lines + ["}"], ex

    def loopbody(self, b, e):
        self.fuel -= 1
        if self.fuel < 0: raise Fuel()
        try: b(e)
        except Cont: pass

    def own(self):
        """Local variables nothing else aliases."""
        return {n for sc in self.scopes[1:] for n, (t, _) in sc.items() if t[0] != "ptr" and n not in self.refs}

    def loopst(self, lvl, f):
        r = self.r
        k = r.random()
        self.scopes.append({})
        if k < .45:
            n = self.name("ix")
            a = r.randint(-2, 4)
            c = a + r.randint(0, 5)
            st = r.choice((None, 1, 2, 3, -1))
            if st == -1: a, c = c, a
            self.scopes[-1][n] = ("int", False)
            b = self.block(lvl + 1, True, f)
            self.scopes.pop()
            def ex(e):
                for i in range(a, c, st or 1):
                    e[n] = [i]
                    try: self.loopbody(b[1], e)
                    except Brk: break
            return [f"for {n} in range({a}, {c}{', ' + str(st) if st else ''}) {{"] + b[0] + ["}"], ex
        if k < .7:
            ts = [vt for vt in self.arr_types() if vt[0] == "arr"]
            if ts:
                t = r.choice(sorted(ts, key=str))
                # the array iterated is not changed by the body, nor by functions it calls
                here = [x for x in self.paths(t) if x[0].split(".")[0] in self.own()]
                if not here:
                    self.scopes.pop()
                    return self.printst()
                s, g, _ = r.choice(here)
                n, ix = self.name("x"), self.name("ix")
                useix = self.p(.4)
                self.scopes[-1][n] = (t[1], False)
                if useix: self.scopes[-1][ix] = ("int", False)
                # the array iterated is not changed by the body: hide every array of that type
                hid = []
                root = s.split(".")[0].rstrip("^")
                for sc in self.scopes:
                    for q in list(sc):
                        if q == root:
                            hid.append((sc, q, sc.pop(q)))
                b = self.block(lvl + 1, True, f)
                for sc, q, v in hid: sc[q] = v
                self.scopes.pop()
                def ex(e):
                    for i, v in enumerate(list(g(e))):
                        e[n], e[ix] = [dc(v)], [i]
                        try: self.loopbody(b[1], e)
                        except Brk: break
                return [f"for_each {ix + ', ' if useix else ''}{n} in {s} {{"] + b[0] + ["}"], ex
        n = self.name("w")
        lim = r.randint(1, 6)
        self.scopes.pop()
        self.scopes[-1][n] = ("int", False)
        inf = self.p(.3)
        b = self.block(lvl + 1, True, f)
        def ex(e):
            e[n] = [0]
            while inf or e[n][0] < lim:
                e[n][0] += 1
                if inf and e[n][0] > lim: break
                try: self.loopbody(b[1], e)
                except Brk: break
        if inf:
            return [f"mut {n} int = 0", "loop {", f"    {n}++", f"    if {n} > {lim} {{ break }}"] + b[0] + ["}"], ex
        return [f"mut {n} int = 0", f"{self.kw_while} {n} < {lim} {{", f"    {n} += 1"] + b[0] + ["}"], ex

    def whenst(self, lvl, loop, f):
        r = self.r
        k = r.random()
        tg = [(n, vt) for sc in self.scopes for n, (vt, _) in sc.items() if vt[0] == "tag"]
        if tg and k < .4:
            n, t = r.choice(tg)
            lines, tab = [f"when {n} {{"], {}
            vs = self.tags[t[1]]
            for vn, ts in vs:
                if self.p(.25): continue
                b = [self.name("b") for _ in ts]
                self.scopes.append({x: (ty, False) for x, ty in zip(b, ts)})
                bl = self.block(lvl + 1, loop, f)
                self.scopes.pop()
                tab[vn] = (b, bl[1])
                pre = t[1] if self.p(.6) else ""
                lines += [f"    is {pre}.{vn}{'(' + ', '.join(b) + ')' if b else ''} {{"] + ["    " + x for x in bl[0]] + ["    }"]
            d = self.block(lvl + 1, loop, f)
            lines += ["    default {"] + ["    " + x for x in d[0]] + ["    }", "}"]
            def ex(e):
                vn, pl = e[n][0]
                if vn in tab:
                    b, bl = tab[vn]
                    for x, v in zip(b, pl): e[x] = [dc(v)]
                    bl(e)
                else: d[1](e)
            return lines, ex
        t = r.choice(["int", "string"] + [("en", x) for x in self.enums])
        s, g = self.nobrace(self.expr, t)
        if t == "int":
            s, g = f"({s}) % 7", (lambda g: lambda e: (lambda x: abs(x) % 7 * (1 if x >= 0 else -1))(g(e)))(g)
            pool = list(range(-3, 7))
        elif t == "string": pool = ["", "a", "bc", "hello", "q"]
        else: pool = list(range(len(self.enums[t[1]])))
        r.shuffle(pool)
        lines, arms = [f"when {s} {{"], []
        while pool and len(arms) < 4 and self.p(.85):
            m = [pool.pop() for _ in range(min(len(pool), r.choice((1, 1, 2))))]
            txt = [str(x) if t == "int" else f'"{x}"' if t == "string" else f"{self.ch(t[1], '')}.{self.enums[t[1]][x]}" for x in m]
            test = set(m)
            if t == "int" and self.p(.25):
                lo = r.randint(-3, 4)
                hi = lo + r.randint(1, 3)
                txt, test = [f"range({lo}, {hi})"], set(range(lo, hi))
            bl = self.block(lvl + 1, loop, f)
            arms.append((test, bl[1]))
            lines += [f"    is {', '.join(txt)} {{"] + ["    " + x for x in bl[0]] + ["    }"]
        d = self.block(lvl + 1, loop, f)
        lines += ["    default {"] + ["    " + x for x in d[0]] + ["    }", "}"]
        if not arms: return d[0] and ["if true {"] + d[0] + ["}"], d[1]
        def ex(e):
            v = g(e)
            for test, bl in arms:
                if v in test: return bl(e)
            d[1](e)
        return lines, ex

    def retst(self, f):
        self.start()
        a = [self.retval(t) for t in f["ret"]]
        def ex(e):
            v = [dc(g(e)) for _, g in a]
            raise Ret(v[0] if len(v) == 1 else v)
        return ["return " + ", ".join(s for s, _ in a)], ex

    def retval(self, t):
        if isinstance(t, tuple) and t[0] in ("arr", "map"):
            L = self.paths(t)
            if L:
                s, g, _ = self.r.choice(L)
                return s, g
        return self.expr(t, 1)

    # ---------- functions and program
    def function(self, i):
        r = self.r
        ps = []
        for _ in range(r.randint(0, 4)):
            t = self.type()
            m = self.p(.25) and t[0] != "ptr"
            ps.append([self.name("p"), t, m, None])
        if ps and not any(m for _, _, m, _ in ps):
            for q in reversed(ps):
                if q[1] in ("int", "string", "bool") and self.p(.4): q[3] = self.lit(q[1])
                else: break
        nret = r.choice((0, 1, 1, 1, 2, 3)) if self.f["multi"] else r.choice((0, 1, 1))
        f = dict(name=self.name("fn"), params=[tuple(p) for p in ps], ret=[self.type() for _ in range(nret)], body=[])
        if nret > 1 and any(t[0] == "tag" for t in f["ret"]): f["ret"] = ["int"] * nret
        self.scopes = [dict(self.globals), {p[0]: (p[1], p[2]) for p in ps}]
        self.refs = {p[0] for p in ps if p[2]}
        lines = []
        if self.f["effects"]:
            lines.append(f'println("in {f["name"]}")')
            f["body"].append(lambda e: self.out(f"in {f['name']}\n"))
        for t in f["ret"]:
            if isinstance(t, tuple) and t[0] in ("arr", "map") or t[0] == "tag":
                n = self.name("v")
                self.calls_left = 0
                s, g = (self.arrlit(t) if t[0] == "arr" else self.maplit(t)) if t[0] != "tag" else self.lit(t)
                self.scopes[-1][n] = (t, True)
                lines.append(f"mut {n} {self.tsrc(t)} = {s}")
                f["body"].append(lambda e, n=n, g=g: e.__setitem__(n, [g(e)]))
        for _ in range(r.randint(1, self.f["stmts"])):
            l, x = self.stmt(0, False, f)
            lines += l
            f["body"].append(x)
        if f["ret"]:
            l, x = self.retst(f)
            lines += l
            f["body"].append(x)
        sig = ", ".join(f"{'&' if m else ''}{n} {self.tsrc(t)}" + (f" = {d[0]}" if d else "") for n, t, m, d in ps)
        ret = "" if not nret else " -> " + (self.tsrc(f["ret"][0]) if nret == 1 else "(" + ", ".join(map(self.tsrc, f["ret"])) + ")")
        f["impure"] = any(re.search(r"(^|[^\w.])(g\d+\b(\.|\[|\s*([-+*/%]?=[^=]|\+\+|--))|\w+\.\w+\(g\d+\b|(addr|ref)\(g)", x) or any(h["name"] + "(" in x and (h["impure"] or any(m for _, _, m, _ in h["params"])) for h in self.funcs) for x in lines)
        self.funcs.append(f)
        return [f"do {f['name']}({sig}){ret} {{"] + ["    " + x for x in lines] + ["}"]

    def program(self):
        """-> (source, stdout, panic codes or None) or None when the execution is too long."""
        self.decls()
        self.globals = {}
        self.scopes = [{}]
        src = ["import @strings, @arrays, @maps", "do at(a [int], i int) -> int {\n    if i >= len(a) { return -1 }\n    return a[i]\n}"]
        for n, vs in self.enums.items():
            src.append(f"const {n} enum {{\n" + "\n".join("    " + v for v in vs) + "\n}")
        for n, vs in self.tags.items():
            src.append(f"const {n} enum {{\n" + "\n".join(f"    {v}" + (f"({', '.join(map(self.tsrc, ts))})" if ts else "") for v, ts in vs) + "\n}")
        for n, fs in self.structs.items():
            src.append(f"const {n} struct {{\n" + "\n".join(f"    {f} {self.tsrc(t)}" + (f" = {d[0]}" if d else "") for f, t, d in fs) + "\n}")
        ginit = []
        for _ in range(self.r.randint(0, 3)):
            t = self.type()
            if t[0] in ("tag", "st"): continue
            n = self.name("g")
            self.nocall = True
            s, g = (self.arrlit(t) if t[0] == "arr" else self.maplit(t)) if t[0] in ("arr", "map") else self.lit(t)
            self.nocall = False
            self.globals[n] = (t, True)
            src.append(f"mut {n} {self.tsrc(t)} = {s}")
            ginit.append((n, g))
        body = []
        for i in range(self.f["funcs"]):
            body += self.function(i)
        self.scopes = [dict(self.globals), {}]
        self.refs = set()
        lines, exs = [], []
        for _ in range(self.f["stmts"] + 4):
            l, x = self.stmt(0, False, None)
            lines += l
            exs.append(x)
        for sc in list(self.scopes):
            for n, (t, _) in list(sc.items()):
                l, x = self.dump(n, t)
                self.sn += 1
                if self.sn in self.f.get("drop", ()): continue
                lines += l
                exs.append(x)
        src += body + ["do main() {"] + ["    " + x for x in lines] + ["}"]
        self.stdout, self.fuel, self.depth = [], 20000, 0
        G = {}
        env = Env(G)
        self.G = G
        codes = None
        try:
            for n, g in ginit: G[n] = [g(env)]
            for x in exs: x(env)
        except Panic as p:
            codes = p.codes
        except (Fuel, RecursionError, OverflowError):
            return None
        return "\n".join(src) + "\n", "".join(self.stdout), codes


class Env(dict):
    """Locals over the shared globals."""
    def __init__(self, g):
        super().__init__()
        self.g = g

    def __missing__(self, k):
        return self.g[k]


class RefCell:
    """A & parameter: reads and writes go to the caller's place."""
    def __init__(self, get, set_, env):
        self.get, self.set_, self.env = get, set_, env

    def __getitem__(self, i): return self.get(self.env)
    def __setitem__(self, i, v): self.set_(self.env, v)


_run = Gen.run_fn


def run_fn(self, f, vals):
    self.depth += 1
    self.fuel -= 1
    if self.depth > 60 or self.fuel < 0: raise Fuel()
    env = Env(self.G)
    for (pn, pt, m, d), v in zip(f["params"], vals):
        env[pn] = RefCell(v[1], v[2], v[3]) if isinstance(v, tuple) and v and v[0] == "ref" else v
    try:
        try:
            for s in f["body"]: s(env)
        except Ret as x:
            return x.v
        return None
    finally:
        self.depth -= 1


Gen.run_fn = run_fn
