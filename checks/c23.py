"""C23: random values stay in range and UUIDs are well formed.

Monitors read every value drawn: range membership, coverage of small ranges (failure probability < 1e-12), permutation
and sub-multiset checks, equality of sequences under one seed (and inequality across seeds), UUID layout, uniqueness
and time order, also when drawn from several threads at once."""
import sys, os, re, struct, time
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

DECLS = """
const Pt struct {
    x int
    s string
}
do ids(k int) {
    for i in range(0, 400) { println(uuid.to_string(uuid.generate())) }
}
"""


def check(c):
    rng = c.rng
    s = Suite(c, "random, arrays, strings, uuid, threads, maps", DECLS)
    N = c.scale(4000, 40000)

    def vals(r):
        return r.text.split("\n")[:-1] if r.rc == 0 else None

    def within(conv, ok, want=None, n=None):
        def f(r):
            v = vals(r)
            if v is None or len(v) != (n or N):
                return False
            xs = [conv(x) for x in v]
            c.count("draws", len(xs))
            return all(map(ok, xs)) and (want is None or set(xs) == set(want)) and (want is not None or len(set(xs)) > len(xs) // 2)
        return f
    seeds = [None, 0, 1, -1, 2 ** 31, 2 ** 63 - 1] + [rng.getrandbits(40) for _ in range(c.scale(2, 20))]
    for sd in seeds:
        pre = "" if sd is None else f"random.seed(I(0))\n"
        a0 = [] if sd is None else [sd]
        k = len(a0)
        k_ = f"seed {sd}"

        def draw(e, n=None):
            return pre + f"for i in range(0, {n or N}) {{ println({e}) }}"
        for hi in (1, 2, 3, 7, 10, 100, 256):
            s.add("rand_int(max)", draw(f"random.rand_int(I({k}))"), within(int, lambda x, h=hi: 0 <= x < h, range(hi), N), a0 + [hi], key=f"{k_} {hi}")
        for lo, hi in ((0, 1), (-3, 4), (-1, 0), (100, 110), (-2 ** 63, -2 ** 63 + 5), (2 ** 63 - 6, 2 ** 63 - 1), (2 ** 40, 2 ** 40 + 9), (2 ** 31 - 3, 2 ** 31 + 3)):
            s.add("rand_int(min,max)", draw(f"random.rand_int(I({k}), I({k + 1}))"), within(int, lambda x, l=lo, h=hi: l <= x < h, range(lo, hi)), a0 + [lo, hi], key=f"{k_} {lo} {hi}")
        for lo, hi in ((0, 2 ** 31 - 1), (0, 2 ** 31), (0, 2 ** 31 + 1), (0, 2 ** 32), (0, 2 ** 32 + 7), (0, 2 ** 33), (0, 2 ** 63 - 1), (-2 ** 31, 2 ** 31), (-2 ** 63, 2 ** 63 - 1), (-2 ** 63, 0), (-2 ** 62, 2 ** 62 + 5), (-10, 2 ** 31), (10 ** 12, 10 ** 13)):
            third = (hi - lo) // 3

            def wide(r, lo=lo, hi=hi, third=third):
                v = vals(r)
                if v is None or len(v) != N:
                    return False
                xs = [int(x) for x in v]
                c.count("draws", len(xs))
                b = Counter(min(2, (x - lo) // third) for x in xs)
                return all(lo <= x < hi for x in xs) and all(b[t] > N // 6 for t in (0, 1, 2)) and len(set(xs)) > N * .99 and {x & 1 for x in xs} == {0, 1}
            s.add("rand_int wide", draw(f"random.rand_int(I({k}), I({k + 1}))"), wide, a0 + [lo, hi], key=f"{k_} {lo} {hi}")
            if lo == 0:
                s.add("rand_int wide", draw(f"random.rand_int(I({k}))"), wide, a0 + [hi], key=f"{k_} {hi}")
        s.add("rand_bool", draw("random.rand_bool()"), within(str, lambda x: x in ("true", "false"), ("true", "false")), a0, key=k_)
        s.add("rand_byte", draw("cast(random.rand_byte(), int)", 12000), within(int, lambda x: 0 <= x < 256, range(256), 12000), a0, key=k_)
        s.add("rand_char", draw("cast(random.rand_char(), int)"), within(int, lambda x: 32 <= x < 127, range(32, 127)), a0, key=k_)
        for lo, hi in (("a", "e"), ("A", "Z"), ("x", "x"), ("0", "1"), (" ", "~")):
            s.add("rand_char(min,max)", draw(f"cast(random.rand_char('{lo}', '{hi}'), int)"), within(int, lambda x, l=lo, h=hi: ord(l) <= x <= ord(h), range(ord(lo), ord(hi) + 1)), a0, key=f"{k_} {lo}{hi}")
        s.add("rand_float", draw("random.rand_float()"), within(float, lambda x: 0 <= x < 1), a0, key=k_)
        for lo, hi in ((0.0, 1.0), (-5.5, 5.5), (1e300, 1.7e308), (-1.7e308, 1.7e308), (1.0, 1.0000001), (-1e-300, 1e-300)):
            s.add("rand_float(min,max)", pre + f"for i in range(0, {N}) {{\n mut x float = random.rand_float(F({k}), F({k + 1}))\n if x < F({k}) || x >= F({k + 1}) {{ println(\"OUT\") }} otherwise {{ println(x) }} }}",
                  within(float, lambda x, l=lo, h=hi: l * (1 - 1e-12 if l > 0 else 1 + 1e-12) <= x <= h * (1 + 1e-12)), a0 + [repr(lo), repr(hi)], key=f"{k_} {lo} {hi}")
        s.add("rand_float narrow", pre + f"mut bad int = 0\nfor i in range(0, {N}) {{\n mut x float = random.rand_float(F({k}), F({k + 1}))\n if x < F({k}) || x >= F({k + 1}) {{ bad += 1 }} }}\nprintln(bad)", "0\n", a0 + ["1.0", "1.0000000000000002"], key=k_)
        # shuffle / sample / choice
        for n in (0, 1, 2, 5, 40):
            src = [str(rng.randrange(0, 30)) for _ in range(n)]
            body = pre + f"mut a [string] = {{}}\nfor i in range({k}, N()) {{ arrays.append(a, S(i)) }}\nfor t in range(0, 60) {{ mut b [string] = random.shuffle(a)\n println(b) }}\nprintln(a)"

            def shuf(r, src=src, n=n):
                v = vals(r)
                if v is None or len(v) != 61:
                    return False
                rows = [re.findall(r'"(\d+)"', x) for x in v]
                c.count("shuffles", 60)
                distinct = len({tuple(x) for x in rows[:60]})
                return all(Counter(x) == Counter(src) for x in rows) and rows[60] == src and (n < 40 or distinct > 50)
            s.add("shuffle", body, shuf, a0 + src, key=f"{k_} {n}")
            for take in sorted({0, min(1, n), n // 2, n}):
                body = pre + f"mut a [string] = {{}}\nfor i in range({k + 1}, N()) {{ arrays.append(a, S(i)) }}\nfor t in range(0, 40) {{ mut b [string] = random.sample(a, I({k}))\n println(b) }}\nprintln(a)"

                def samp(r, src=src, take=take):
                    v = vals(r)
                    if v is None or len(v) != 41:
                        return False
                    rows = [re.findall(r'"(\d+)"', x) for x in v]
                    return all(len(x) == take and not Counter(x) - Counter(src) for x in rows[:40]) and rows[40] == src
                s.add("sample", body, samp, a0 + [take] + src, key=f"{k_} {n} {take}")
    sh = "mut cnt [string:int] = {:}\nfor t in range(0, 3000) { mut b [int] = random.shuffle({1, 2, 3})\n println(b) }"
    s.add("shuffle reaches every order", "random.seed(I(0))\nmut a [int] = {1, 2, 3}\nfor t in range(0, 3000) { println(random.shuffle(a)) }",
          lambda r: r.rc == 0 and len(set(r.text.split())) >= 3 and len(set(r.text.strip().split("\n"))) == 6 and min(Counter(r.text.strip().split("\n")).values()) > 250, [3])
    s.add("sample reaches every subset", "random.seed(I(0))\nmut a [int] = {1, 2, 3, 4}\nfor t in range(0, 3000) { println(random.sample(a, 2)) }",
          lambda r: r.rc == 0 and len(set(r.text.strip().split("\n"))) == 12, [3])
    for n in (6, 7, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1):
        s.add("sample too many", "mut a [int] = {1, 2, 3, 4, 5}\nprintln(len(random.sample(a, I(0))))", P("P0062", ""), [n])
    for n in (-1, -2 ** 32, -2 ** 63):
        s.add("sample negative", "mut a [int] = {1, 2, 3, 4, 5}\nprintln(len(random.sample(a, I(0))))", P("P0063", ""), [n])
    for t, lits, outs in (("int", "1, -2, 9223372036854775807", {"1", "-2", "9223372036854775807"}), ("u8", "cast(1, u8), cast(255, u8)", {"1", "255"}), ("i16", "cast(-5, i16), cast(7, i16)", {"-5", "7"}),
                          ("u32", "cast(4294967295, u32), cast(7, u32)", {"4294967295", "7"}), ("i128", "cast(5, i128), cast(-6, i128)", {"5", "-6"}), ("float", "1.5, 2.5", {"1.5", "2.5"}), ("f32", "cast(1.5, f32), cast(2.5, f32)", {"1.5", "2.5"}),
                          ("bool", "true, false", {"true", "false"}), ("string", "\"a\", \"b\"", {"a", "b"}), ("char", "'a', 'b'", {"a", "b"}), ("[int]", "{1, 2}, {3}", {"{1, 2}", "{3}"}),
                          ("Pt", "Pt{x: 1, s: \"q\"}, Pt{x: 2, s: \"r\"}", {'Pt{x: 1, s: "q"}', 'Pt{x: 2, s: "r"}'}), ("[string:int]", "{\"a\": 1}, {\"b\": 2}", {'{"a": 1}', '{"b": 2}'})):
        s.add(f"choice [{t}]", f"mut a [{t}] = {{{lits}}}\nfor i in range(0, 120) {{ println(random.choice(a)) }}", lambda r, o=outs: r.rc == 0 and set(r.text.split("\n")[:-1]) == o, key=t)
        s.add(f"shuffle [{t}]", f"mut a [{t}] = {{{lits}}}\nmut b [{t}] = random.shuffle(a)\nprintln(len(b))\nfor i in range(0, len(b)) {{ println(b[i]) }}", lambda r, o=outs: r.rc == 0 and set(r.text.split("\n")[1:-1]) == o and r.text.startswith(f"{len(o)}\n"), key=t)
    s.add("choice of empty", "mut a [int] = {}\nprintln(random.choice(a))", P(None, ""))
    # determinism under a seed
    mix = "random.seed(I(0))\nfor i in range(0, 50) {\n println(random.rand_int(1000000))\n println(random.rand_float())\n println(random.rand_char())\n println(random.rand_int(I(1), I(2)))\n mut a [int] = {1, 2, 3, 4, 5, 6}\n println(random.shuffle(a))\n println(random.choice(a))\n println(random.rand_bool())\n}"
    outs = {}

    def same(sd):
        def f(r):
            if r.rc:
                return False
            return outs.setdefault(sd, r.text) == r.text
        return f
    for sd in [0, 1, 2, 12345, -7]:
        for rep in range(3):
            s.add("seed reproduces", mix, same(sd), [sd, -2 ** 40, 2 ** 50], key=f"{sd} {rep}")
    s.add("reseeding restarts", "random.seed(I(0))\nmut a int = random.rand_int(1000000000)\nmut b int = random.rand_int(1000000000)\nrandom.seed(I(0))\nprintln(a == random.rand_int(1000000000) && b == random.rand_int(1000000000))", "true\n", [42])

    # uuid
    u4 = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$")
    u7 = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-7[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$")
    seen = set()

    def uu(rx, ordered=False, lines=True):
        def f(r):
            v = vals(r) if lines else re.findall("[0-9a-zA-Z-]{36}", r.text) if r.rc == 0 else None
            if not v or not lines and len(v) != 1600:
                return False
            c.count("uuids", len(v))
            ok = all(rx.match(x) for x in v) and len(set(v)) == len(v) and not (set(v) & seen)
            seen.update(v)
            if ordered:
                ts = [int(x[:8] + x[9:13], 16) for x in v]
                ok = ok and ts == sorted(ts) and abs(ts[0] / 1000 - time.time()) < 3600
            else:   # every free nibble takes every value
                for p in range(36):
                    if p not in (8, 13, 14, 18, 19, 23):
                        ok = ok and len({x[p] for x in v}) == 16
                ok = ok and {x[19] for x in v} == set("89ab")
            return ok
        return f
    for k in range(c.scale(2, 10)):
        for fn in ("generate", "generate_random", "generate_hyphenated"):
            s.add("uuid v4", f"for i in range(0, 1500) {{ println(uuid.to_string(uuid.{fn}())) }}", uu(u4), key=f"{fn} {k}")
        s.add("uuid v7", "for i in range(0, 1500) { println(uuid.to_string(uuid.generate_time_ordered())) }", uu(u7, True), key=str(k))
        s.add("uuid v4 with a fixed random seed", "random.seed(1)\nfor i in range(0, 1500) { println(uuid.to_string(uuid.generate())) }", uu(u4), key=str(k))
        s.add("uuid from threads", "mut a = threads.spawn(()ids, 1)\nmut b = threads.spawn(()ids, 2)\nmut d = threads.spawn(()ids, 3)\nids(4)\nthreads.join(a)\nthreads.join(b)\nthreads.join(d)", uu(u4, lines=False), key=str(k))
    s.add("uuid compact", "mut u UUID = uuid.generate()\nprintln(uuid.to_string(u))\nprintln(uuid.generate_compact(u))", lambda r: r.rc == 0 and u4.match(r.text.split("\n")[0]) and r.text.split("\n")[1] == r.text.split("\n")[0].replace("-", ""))
    s.add("uuid nil", "println(uuid.to_string(uuid.NIL_UUID))", "00000000-0000-0000-0000-000000000000\n")
    good = re.compile(r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}\Z")
    texts = ["", "x", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", "0" * 36, "-" * 36, "g0000000-0000-0000-0000-000000000000", "00000000-0000-0000-0000-00000000000", "00000000-0000-0000-0000-0000000000000", "{00000000-0000-0000-0000-000000000000}", "000000000-000-0000-0000-000000000000", "00000000-0000-0000-0000-00000000000\n", "é0000000-0000-0000-0000-0000000000"]
    for _ in range(c.scale(150, 3000)):
        t = list("%08x-%04x-%04x-%04x-%012x" % (rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(48)))
        if rng.random() < .3:
            t = [x.upper() if rng.random() < .5 else x for x in t]
        if rng.random() < .6:
            p = rng.randrange(36)
            t[p:p + rng.choice([0, 1, 1])] = rng.choice(["-", "g", "G", "/", ":", "@", "`", "f", "F", "0", " ", "", "\x7f", "é"])
        texts.append("".join(t))
    for t in texts:
        ok = bool(good.match(t))
        s.add("uuid is_valid", "println(uuid.is_valid(S(0)))", f"{str(ok).lower()}\n", [t])
        s.add("uuid parse", "println(uuid.to_string(uuid.parse(S(0))))", t.lower() + "\n" if ok else P(None, ""), [t])
    s.run((("plain", 1), ("asan", 16)))


if __name__ == "__main__":
    main(check, "C23", "Every random function is drawn thousands of times per range and seed, UUIDs are generated from one and several threads; each value is monitored for range, coverage, permutation, reproducibility, layout and uniqueness.")
