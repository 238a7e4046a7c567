"""C42: values in user-created arenas keep their contents until the arena is reset or destroyed.

Random histories of create / init / alloc / field write / append / reset / usage / destroy over several arenas of
different sizes.  Allocations and writes happen at top level, in blocks, in loops and in functions that take the arena
or the pointer, always from values built at run time, with the scope arenas churned in between.  The oracle is a model
of the live contents: every live value is printed in full again and again and must read as last written; usage must
grow by at least what was allocated, not move for other arenas, and be zero after a reset.  Under AddressSanitizer the
arena's reclaimed and never-allocated bytes are poisoned, so overlap and use of freed memory are reported even where
the bytes agree.  Destroyed arenas must panic on allocation and on a second destroy; a program that allocates far more
than its address-space limit through resets, destroys or scopes must still run."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

DECLS = """
const Pt struct {
    n int
    s string
    a [string]
    m map[string:int]
    w i128
    b bool
    f float
}
const Node struct {
    v int
    s string
    next ^Node
}
const Shape enum {
    CIRCLE(float)
    LABEL(string)
    PAIR(string, int)
}
const Small struct {
    a byte
    b i16
    c bool
}
do w(n int) -> string { return "w${n}-abcdefghijklmnop" }
do churn() {
    mut keep [string] = {}
    for i in range(0, 50) {
        arrays.append(keep, strings.repeat("#", 15 + i))
        mut q [int] = {-1, -2, -3}
        q[0] = i
    }
    if len(keep) != 50 { panic("churn") }
}
do put(p ^Pt, n int) {
    p^.n = n
    p^.s = w(n)
    p^.a = {w(n), w(n + 1)}
    p^.m = {w(n): n}
    p^.w = cast(n, i128)
    p^.f = 1.5
}
do mkpt(a mem.Arena, n int) -> ^Pt {
    mut v Pt = Pt{n: n, s: w(n), a: {w(n)}, m: {w(n): n}, w: cast(n, i128), b: true, f: 0.5}
    mut p = mem.alloc(a, v)
    return p
}
do mknode(a mem.Arena, n int, next ^Node) -> ^Node {
    mut p = mem.init(a, Node)
    p^.v = n
    p^.s = w(n)
    p^.next = next
    return p
}
do mkstr(a mem.Arena, n int) -> string { return mem.alloc(a, w(n)) }
do mkarr(a mem.Arena, n int) -> [string] {
    mut v [string] = {w(n), w(n + 1), w(n + 2)}
    return mem.alloc(a, v)
}
do mkarena(n int) -> mem.Arena { return mem.arena(n) }
do done(a mem.Arena) { mem.destroy(a) }
do use1(a mem.Arena) -> int {
    mut p = mem.init(a, Node)
    p^.v = 3
    return p^.v
}
do clear(a mem.Arena) { mem.reset(a) }
do shpt(p ^Pt) -> string { return "${p^.n} ${p^.s} ${p^.a} ${p^.m} ${p^.w} ${p^.b} ${p^.f}" }
do shlist(h ^Node) -> string {
    mut out string = ""
    mut p ^Node = h
    as_long_as p != nil {
        out = "${out}/${p^.v}:${p^.s}"
        p = p^.next
    }
    return out
}
do shshape(e ^Shape) -> string {
    when e^ {
        is Shape.CIRCLE(r) { return "c${r}" }
        is Shape.LABEL(t) { return "l${t}" }
        is Shape.PAIR(t, n) { return "p${t},${n}" }
        default { return "?" }
    }
}
do clrpt(p ^Pt) {
    p^.s = ""
    p^.a = {}
    p^.m = {}
}
"""

def W(n): return "w%d-abcdefghijklmnop" % n
def arr(l): return "{" + ", ".join('"%s"' % x for x in l) + "}"
def mp(d): return "{" + ", ".join('"%s": %d' % kv for kv in d.items()) + "}" if d else "{:}"

class Hist:
    """One random history: the program text and the output its model predicts."""
    def __init__(s, rng, steps):
        s.r, s.out, s.body, s.events = rng, [], [], {}
        s.args, s.nar = [], rng.randint(1, 3)
        s.slots, s.live = {}, {}
        s.vn = 0
        for a in range(s.nar):
            size = rng.choice([-5, 0, 1, 8, 64, 200, 1000, 4096, 20000])
            s.body.append(f"    mut a{a} = {rng.choice(['mkarena', 'mem.arena'])}({size if size >= 0 else '(0 - %d)' % -size})")
        s.arena_live = [True] * s.nar
        s.body.append("    mut none ^Node = nil")
        for k, t, z in (("pt", "^Pt", "nil"), ("nd", "^Node", "nil"), ("st", "string", '""'), ("ar", "[string]", "{}"),
                        ("in", "^int", "nil"), ("wi", "^i256", "nil"), ("sh", "^Shape", "nil"), ("sm", "^Small", "nil")):
            for i in range(2):
                s.body.append(f"    mut {k}{i} {t} = {z}")
        for _ in range(steps): s.step()
        s.show()
        for a in range(s.nar):
            if s.arena_live[a]: s.body.append(f"    mem.destroy(a{a})")

    def ev(s, k): s.events[k] = s.events.get(k, 0) + 1

    def num(s):
        """An integer only known at run time."""
        n = s.r.randint(0, 999)
        s.args.append(str(n))
        return n, f"I({len(s.args) - 1})"

    def block(s, lines):
        k = s.r.randrange(4)
        if k == 0: return lines
        if k == 1: return ["if I(0) >= 0 {"] + lines + ["}"]
        s.vn += 1
        if k == 2: return [f"for q{s.vn} in range(0, 1) {{"] + lines + ["}"]
        return [f"mut z{s.vn} int = 0", f"as_long_as z{s.vn} < 1 {{", f"z{s.vn} += 1"] + lines + ["}"]

    def emit(s, lines):
        for l in s.block(lines): s.body.append("    " + l)

    def step(s):
        alive = [a for a in range(s.nar) if s.arena_live[a]]
        ops = ["alloc"] * 8 + ["write"] * 6 + ["churn"] * 3 + ["show"] * 2 + ["usage"] * 2 + ["reset"]
        op = s.r.choice(ops)
        if op == "reset" and s.r.random() < 0.3 and len(alive) > 1: op = "destroy"
        a = s.r.choice(alive)
        s.ev(op)
        getattr(s, "do_" + op)(a)

    def do_churn(s, a): s.body.append("    churn()")
    def do_show(s, a): s.show()

    def do_alloc(s, a):
        k = s.r.choice(["pt", "nd", "st", "ar", "in", "wi", "sh", "sm"])
        v = f"{k}{s.r.randrange(2)}"
        n, e = s.num()
        s.ev("alloc " + k)
        s.vn += 1
        u = f"tv{s.vn}"
        val = None
        if k == "pt":
            f = s.r.randrange(3)
            if f == 0: pre, val = [f"{v} = mem.init(a{a}, Pt)"], dict(n=0, s="", a=[], m={}, w=0, b=False, f="0.0")
            elif f == 1:
                pre = [f"{v} = mkpt(a{a}, {e})"]
                val = dict(n=n, s=W(n), a=[W(n)], m={W(n): n}, w=n, b=True, f="0.5")
            else:
                pre = [f"{v} = mem.init(a{a}, Pt)", f"put({v}, {e})"]
                val = dict(n=n, s=W(n), a=[W(n), W(n + 1)], m={W(n): n}, w=n, b=False, f="1.5")
            size = 64
        elif k == "nd":
            old = s.live.get(v)
            if old and old[0] == a and s.r.random() < 0.7:
                pre, val = [f"{v} = mknode(a{a}, {e}, {v})"], [[n, W(n)]] + old[1]
            else:
                pre, val = [f"{v} = mknode(a{a}, {e}, none)"], [[n, W(n)]]
            size = 32
        elif k == "st":
            pre, val = [s.r.choice([f"{v} = mkstr(a{a}, {e})", f"{v} = mem.alloc(a{a}, w({e}))",
                                    f'{v} = mem.alloc(a{a}, "w${{{e}}}-abcdefghijklmnop")'])], W(n)
            size = len(W(n))
        elif k == "ar":
            pre, val = [s.r.choice([f"{v} = mkarr(a{a}, {e})",
                                    f"{v} = mem.alloc(a{a}, {{w({e}), w({e} + 1), w({e} + 2)}})"])], [W(n), W(n + 1), W(n + 2)]
            size = 48
        elif k == "in":
            if s.r.random() < 0.5: pre, val = [f"{v} = mem.init(a{a}, int)"], 0
            else: pre, val = [f"{v} = mem.alloc(a{a}, {e})"], n
            size = 8
        elif k == "wi":
            if s.r.random() < 0.5: pre, val = [f"{v} = mem.init(a{a}, i256)"], 0
            else: pre, val = [f"mut {u} i256 = cast({e}, i256)", f"{v} = mem.alloc(a{a}, {u})"], n
            size = 32
        elif k == "sm":
            pre, val = [f"{v} = mem.init(a{a}, Small)"], [0, 0, False]
            size = 4
        else:
            f = s.r.randrange(3)
            pre = [f"{v} = mem.alloc(a{a}, " + ["Shape.CIRCLE(2.5)", f"Shape.LABEL(w({e}))", f"Shape.PAIR(w({e}), {e})"][f] + ")"]
            val = ["c2.5", "l" + W(n), f"p{W(n)},{n}"][f]
            size = 24
        before = []
        measure = s.r.random() < 0.5
        if measure:
            for x in range(s.nar):
                if s.arena_live[x]: before.append(x)
            pre = [f"mut b{x}_{u} int = mem.usage(a{x})" for x in before] + pre
            post = [f"if mem.usage(a{a}) < b{a}_{u} + {size} {{ println(\"usage of {v} grew too little\") }}"]
            post += [f"if mem.usage(a{x}) != b{x}_{u} {{ println(\"usage of another arena moved\") }}" for x in before if x != a]
            pre += post
            s.ev("usage compared")
        s.emit(pre)
        s.live[v] = [a, val]

    def do_write(s, a):
        vs = [v for v in sorted(s.live) if v[:2] not in ("st", "sh")]
        if not vs: return
        v = s.r.choice(vs)
        k, val = v[:2], s.live[v][1]
        n, e = s.num()
        s.ev("write " + k)
        if k == "pt":
            f = s.r.randrange(8)
            if f == 0: val["n"] = n; st = [f"{v}^.n = {e}"]
            elif f == 1: val["s"] = W(n); st = [f"{v}^.s = w({e})"]
            elif f == 2: val["a"] = val["a"] + [W(n)]; st = [f"arrays.append({v}^.a, w({e}))"]
            elif f == 3: val["m"] = dict(val["m"]); val["m"][W(n)] = n + 1; st = [f"{v}^.m[w({e})] = {e} + 1"]
            elif f == 4: val["w"] += 7; st = [f"{v}^.w += 7"]
            elif f == 5: val["b"] = not val["b"]; st = [f"{v}^.b = !{v}^.b"]
            elif f == 6:
                val.update(n=n, s=W(n), a=[W(n), W(n + 1)], m={W(n): n}, w=n, f="1.5"); st = [f"put({v}, {e})"]
            else:
                val.update(s="", a=[], m={}); st = [f"clrpt({v})"]
        elif k == "nd":
            val[0] = [n, "x" + W(n)]
            st = [f"{v}^.v = {e}", f'{v}^.s = "x${{w({e})}}"']
        elif k == "ar":
            if s.r.random() < 0.5: val.append(W(n)); st = [f"arrays.append({v}, w({e}))"]
            else: val[1] = W(n); st = [f"{v}[1] = w({e})"]
        elif k == "in":
            if s.r.random() < 0.5: s.live[v][1] = val + n; st = [f"{v}^ += {e}"]
            else: s.live[v][1] = 0; st = [f"mem.zero({v}, 8)"]
        elif k == "wi":
            f = s.r.randrange(3)
            if f == 0: s.live[v][1] = val * 3 + n; st = [f"{v}^ = {v}^ * 3 + cast({e}, i256)"]
            elif f == 1: s.live[v][1] = int.from_bytes(b"\x01" * 32, "little"); st = [f"mem.fill({v}, 1, 32)"]
            else: s.live[v][1] = 5; st = [f"{v}^ = 5"]
            if s.live[v][1] > 10 ** 70: s.live[v][1] = 5; st = [f"{v}^ = 5"]
        else:
            s.live[v][1] = [n % 256, n, True]
            st = [f"{v}^.a = cast({e} % 256, byte)", f"{v}^.b = cast({e}, i16)", f"{v}^.c = true"]
        s.emit(st)
        # a list head is shared by every list that was built on it; keep one owner only
        if k == "nd": pass

    def do_usage(s, a):
        s.body.append(f'    println("${{mem.usage(a{a}) >= 0}}")')
        s.out.append("true")

    def forget(s, a):
        s.live = {v: x for v, x in s.live.items() if x[0] != a}

    def do_reset(s, a):
        s.emit([s.r.choice([f"mem.reset(a{a})", f"clear(a{a})"])])
        s.body.append(f'    println("${{mem.usage(a{a})}}")')
        s.out.append("0")
        s.forget(a)

    def do_destroy(s, a):
        s.emit([f"done(a{a})"])
        s.arena_live[a] = False
        s.forget(a)

    def show(s):
        for v in sorted(s.live):
            val, k = s.live[v][1], v[:2]
            b = lambda x: "true" if x else "false"
            if k == "pt":
                e = f"shpt({v})"
                o = f"{val['n']} {val['s']} {arr(val['a'])} {mp(val['m'])} {val['w']} {b(val['b'])} {val['f']}"
            elif k == "nd": e, o = f"shlist({v})", "".join("/%d:%s" % (x[0], x[1]) for x in val)
            elif k == "st": e, o = v, val
            elif k == "ar": e, o = f'strings.join({v}, ",")', ",".join(val)
            elif k in ("in", "wi"): e, o = f'"${{{v}^}}"', str(val)
            elif k == "sh": e, o = f"shshape({v})", val
            else: e, o = f'"${{{v}^.a}} ${{{v}^.b}} ${{{v}^.c}}"', "%d %d %s" % (val[0], val[1], b(val[2]))
            s.body.append(f"    println({e})")
            s.out.append(o)

PANICS = [
    ("alloc after destroy", "P0001", ["mut a = mem.arena(100)", "done(a)", 'println("x")', "mut v int = use1(a)", "println(v)"]),
    ("value after destroy", "P0001", ["mut a = mem.arena(100)", "if I(0) >= 0 { mem.destroy(a) }", 'println("x")', "mut s string = mkstr(a, 4)", "println(s)"]),
    ("array after destroy", "P0001", ["mut a = mem.arena(100)", "done(a)", 'println("x")', "mut s [string] = mkarr(a, 4)", "println(len(s))"]),
    ("struct after destroy", "P0001", ["mut a = mem.arena(100)", "done(a)", 'println("x")', "mut p = mkpt(a, 4)", "println(p^.s)"]),
    ("destroy twice through a function", "P0002", ["mut a = mem.arena(100)", "done(a)", 'println("x")', "done(a)", 'println("y")']),
    ("destroy twice under conditions", "P0002", ["mut a = mem.arena(100)", "if I(0) >= 0 { mem.destroy(a) }", 'println("x")', "done(a)", 'println("y")']),
    ("destroy after reset and destroy", "P0002", ["mut a = mem.arena(5000)", "mem.reset(a)", "done(a)", 'println("x")', "done(a)"]),
    ("destroyed by its copy", "P0002", ["mut a = mem.arena(10)", "mut b = a", "done(b)", 'println("x")', "done(a)"]),
]

# (name, program body): each allocates well over 1 GB in total and must fit in the address-space limit
CHURN = [
    ("reset", "mut a = mem.arena(4096)\nfor i in range(0, {n}) {{\n mut p = mkpt(a, i)\n mut s string = mem.alloc(a, strings.repeat(\"z\", 3000))\n"
              " if p^.n != i || len(s) != 3000 {{ panic(\"bad\") }}\n mem.reset(a)\n}}\nprintln(\"${{mem.usage(a)}}\")"),
    ("reset large blocks", "mut a = mem.arena(16)\nmut b = mem.arena(100000)\nfor i in range(0, {n}) {{\n"
              " mut s string = mem.alloc(a, strings.repeat(\"z\", 100 + i % 5000))\n mut t string = mem.alloc(b, s)\n"
              " if len(t) != len(s) {{ panic(\"bad\") }}\n if i % 7 == 0 {{ mem.reset(a) }}\n if i % 5 == 0 {{ mem.reset(b) }}\n}}\n"
              "mem.reset(a)\nprintln(\"${{mem.usage(a)}}\")"),
    ("create and destroy", "for i in range(0, {n}) {{\n mut a = mem.arena(4000)\n mut s string = mem.alloc(a, strings.repeat(\"z\", 9000))\n"
              " if len(s) != 9000 {{ panic(\"bad\") }}\n mem.destroy(a)\n}}\nprintln(\"0\")"),
    ("lists", "mut a = mem.arena(1000)\nfor i in range(0, {m}) {{\n mut h ^Node = nil\n for j in range(0, 100) {{ h = mknode(a, j, h) }}\n"
              " if h^.v != 99 {{ panic(\"bad\") }}\n mem.reset(a)\n}}\nprintln(\"${{mem.usage(a)}}\")"),
]

def check(c):
    s = Suite(c, "@mem, @strings, @arrays", DECLS, per=6)
    ev = {}
    for i in range(c.scale(110, 1500)):
        h = Hist(c.rng, c.rng.choice([15, 30, 60]))
        for k, n in h.events.items(): ev[k] = ev.get(k, 0) + n
        s.add(f"history of {h.nar}", "\n".join(shift(h.body)), "".join(o + "\n" for o in h.out),
              args=tuple(["0"] + h.args), key=str(i))
    for name, code, body in PANICS:
        s.add("panic " + name, "\n".join("    " + l for l in body), P(code, "x\n"), args=("0",), key=code)
    s.add("panic too large", "    mut a = mem.arena(I(0))\n    mem.destroy(a)\n    println(\"made\")", P("P0061", ""), args=("1073741825",))
    s.add("largest arena", "    mut a = mem.arena(I(0))\n    mem.destroy(a)\n    println(\"made\")", "made\n", args=("1073741824",))
    s.run((("plain", 1), ("asan", 1)))
    for k, n in ev.items(): c.count(k, n)

    g = Gray(c, "plain")
    def one(item):
        name, body = item
        n = c.scale(150000, 600000)
        src = "import @mem, @strings, @arrays\n" + DECLS + "\ndo main() {\n" + body.format(n=n, m=n // 6) + "\n}\n"
        binary, r = g.compile(src, "churn_" + name.replace(" ", "_"))
        if not binary: return name, src, r, None
        return name, src, r, run([binary], timeout=120, limit_as=300 << 20)
    for name, src, r, x in pmap(one, CHURN, workers=4):
        c.case("bounded " + name)
        if x is None or x.rc != 0 or x.out != b"0\n":
            c.violation(f"arena memory is not reused: {name}", {"prog.gray": src}, (x or r).brief(), known=c.known_cell("bounded|" + name))
        else: c.count("programs bounded in memory")

def shift(body):
    """I(0) is the always-zero argument; the history's own numbers follow it."""
    import re
    return [re.sub(r"I\((\d+)\)", lambda m: "I(%d)" % (int(m.group(1)) + 1), l.replace("I(0) >= 0", "I(~) >= 0")).replace("I(~)", "I(0)")
            if "I(" in l else l for l in body]

if __name__ == "__main__":
    main(check, "C42", "values in a user arena keep their contents until reset or destroy; destroyed arenas panic; reset memory is reused")
