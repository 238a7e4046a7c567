"""C22: math functions return mathematically correct results.

Exact functions are compared with exact arithmetic in Python, transcendental ones with libm to a few units in the last
place; domain errors and overflow must panic.  Arguments are run-time values at the boundaries of every numeric type."""
import sys, os, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *
IMAX, IMIN, UMAX = (1 << 63) - 1, -(1 << 63), (1 << 64) - 1
OVER = (P("P0006"), P("P0004"), P("P0005"), P("P0007"), P("P0008"), P("P0009"))


def approx(v, rel=4e-15, absol=0.0):
    def t(r):
        if r.rc != 0:
            return False
        s = r.text.strip()
        try:
            x = float(s.replace("Inf", "inf").replace("NaN", "nan"))
        except ValueError:
            return False
        if math.isnan(v):
            return math.isnan(x)
        if math.isinf(v) or math.isinf(x):
            return x == v
        return abs(x - v) <= rel * abs(v) + absol
    t.want = v
    return t


def prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def f32(v):
    return struct.unpack("f", struct.pack("f", v))[0]


def check(c):
    rng = c.rng
    suite = Suite(c, "math", "")

    class s:
        @staticmethod
        def add(g, body, e, args=(), key=None):
            suite.add(g, body, e + "\n" if isinstance(e, str) else e, args, key)
    ints = [0, 1, -1, 2, -2, 3, 7, 10, -10, 63, 64, 127, 128, -128, 255, 1000, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, IMAX, IMAX - 1, IMIN, IMIN + 1]
    ints += [rng.randrange(-100, 100) for _ in range(6)] + [rng.randrange(IMIN, IMAX) for _ in range(c.scale(6, 40))]
    for a in ints:
        A = (str(a),)
        s.add("abs", "println(math.abs(I(0)))", str(abs(a)) if a > IMIN else OVER, A, "int")
        s.add("neg", "println(math.neg(I(0)))", str(-a) if a > IMIN else OVER, A, "int")
        s.add("sign", "println(math.sign(I(0)))", str((a > 0) - (a < 0)), A, "int")
        s.add("even", "println(\"${math.is_even(I(0))} ${math.is_odd(I(0))}\")", f"{str(a % 2 == 0).lower()} {str(a % 2 == 1).lower()}", A, "int")
    pairs = [(a, b) for a in ints for b in ints]
    for a, b in rng.sample(pairs, c.scale(160, 600)) + [(IMIN, IMIN), (IMIN, 0), (0, IMIN), (IMIN, -1), (0, 0), (IMIN, 6), (6, IMIN)]:
        A = (str(a), str(b))
        s.add("minmax", "println(\"${math.min(I(0), I(1))} ${math.max(I(0), I(1))}\")", f"{min(a, b)} {max(a, b)}", A, "int")
        g = math.gcd(a, b)
        s.add("gcd", "println(math.gcd(I(0), I(1)))", str(g) if g <= IMAX else OVER, A, "int")
        l = math.lcm(a, b)
        s.add("lcm", "println(math.lcm(I(0), I(1)))", str(l) if l <= IMAX else OVER, A, "big" if l > IMAX else "int")
        x = rng.choice(ints)
        lo, hi = min(a, b), max(a, b)
        s.add("clamp", "println(math.clamp(I(0), I(1), I(2)))", str(min(max(x, lo), hi)), (str(x), str(lo), str(hi)), "int")
    for _ in range(c.scale(60, 400)):
        a, b = rng.randrange(-5000, 5000), rng.randrange(-5000, 5000)
        s.add("gcd", "println(\"${math.gcd(I(0), I(1))} ${math.lcm(I(0), I(1))}\")", f"{math.gcd(a, b)} {math.lcm(a, b)}", (str(a), str(b)), "small")
    us = [0, 1, 2, 255, 2 ** 32, IMAX, IMAX + 1, UMAX - 1, UMAX] + [rng.randrange(UMAX) for _ in range(4)]
    for a in us:
        s.add("abs", "println(math.abs(U(0)))", str(a), (str(a),), "uint")
        s.add("sign", "println(math.sign(U(0)))", str(int(a > 0)), (str(a),), "uint")
        for b in us:
            s.add("minmax", "println(\"${math.min(U(0), U(1))} ${math.max(U(0), U(1))}\")", f"{min(a, b)} {max(a, b)}", (str(a), str(b)), "uint")
        lo, hi = sorted((rng.choice(us), rng.choice(us)))
        s.add("clamp", "println(math.clamp(U(0), U(1), U(2)))", str(min(max(a, lo), hi)), (str(a), str(lo), str(hi)), "uint")
    for w in (8, 16, 32, 64):
        for sg in "iu":
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg == "i" else (0, (1 << w) - 1)
            t = f"{sg}{w}"
            R = "I" if sg == "i" else "U"
            for a in (lo, lo + 1, 0, 1, hi, rng.randrange(lo, hi)):
                b = rng.randrange(lo, hi + 1)
                s.add("sized", f"mut a {t} = cast({R}(0), {t})\nmut b {t} = cast({R}(1), {t})\nmut m {t} = math.min(a, b)\nmut x {t} = math.max(a, b)\nprintln(\"${{m}} ${{x}} ${{math.sign(a)}}\")",
                      f"{min(a, b)} {max(a, b)} {(a > 0) - (a < 0)}", (str(a), str(b)), t)
                if a > lo or sg == "u":
                    s.add("sized", f"mut a {t} = cast({R}(0), {t})\nmut m {t} = math.abs(a)\nprintln(m)", str(abs(a)), (str(a),), t + "abs")
                s.add("sized", f"mut a {t} = cast({R}(0), {t})\nprintln(math.sqrt(a))", approx(math.sqrt(a)) if a >= 0 else P("P0064"), (str(a),), t + "sqrt")
                s.add("sized", f"mut a {t} = cast({R}(0), {t})\nprintln(\"${{math.floor(a) == cast(a, float)}} ${{math.round(a) == cast(a, float)}}\")", "true true", (str(a),), t + "floor")
    for n in range(-3, 30):
        e = P("P0070") if n < 0 else str(math.factorial(n)) if n <= 20 else OVER
        s.add("factorial", "println(math.factorial(I(0)))", e, (str(n),), "over" if n > 20 else "n")
    for n in (IMIN, IMAX, 100, 170, 66):
        s.add("factorial", "println(math.factorial(I(0)))", P("P0070") if n < 0 else OVER, (str(n),), "over")
    pr = list(range(-3, 130)) + [IMIN, 2 ** 31 - 1, 25, 49, 121, 169, 7919 * 7919, 1000003 * 1000033, 999983 ** 2, 2 ** 32, 2 ** 32 + 15, 4294967291, 561, 1105, 3215031751, IMAX, IMAX - 1, 9223372036854775783, 3037000493 ** 2]
    pr += [rng.randrange(10 ** 6) for _ in range(c.scale(30, 400))] + [rng.randrange(10 ** 11) | 1 for _ in range(c.scale(8, 40))]
    for n in pr:
        s.add("prime", "println(math.is_prime(I(0)))", str(prime(n)).lower(), (str(n),), "big" if n > 2 ** 40 else "n")
    fl = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, 2.0 ** 52 + 0.5, 4503599627370497.0, 1e300, -1e300, 5e-324, 1e-10, 0.1, 3.0, 10.0, 100.0, 709.0, -745.0, math.pi, math.pi / 2, 1e6, 0.9999999999999999, -0.9999999999999999]
    fl += [rng.uniform(-5, 5) for _ in range(c.scale(6, 60))] + [rng.uniform(-1e6, 1e6) for _ in range(c.scale(4, 40))]

    def rnd(x):
        return math.copysign(math.floor(abs(x)) + (abs(x) - math.floor(abs(x)) >= .5), x)
    un = {"floor": math.floor, "ceil": math.ceil, "round": rnd, "trunc": math.trunc, "abs": abs, "neg": lambda x: -x}
    for x in fl:
        A = (repr(x),)
        for f, o in un.items():
            s.add(f, f"println(math.{f}(F(0)))", approx(float(o(x)), 0.0), A, "float")
        s.add("sign", "println(math.sign(F(0)))", str((x > 0) - (x < 0)), A, "float")
        for f in ("sqrt", "log", "log2", "log10"):
            bad = x < 0 if f == "sqrt" else x <= 0
            e = P({"sqrt": "P0064", "log": "P0065", "log2": "P0066", "log10": "P0067"}[f]) if bad else approx(getattr(math, f)(x))
            s.add(f, f"println(math.{f}(F(0)))", e, A, "dom" if bad else "float")
        for f in ("asin", "acos"):
            bad = abs(x) > 1
            s.add(f, f"println(math.{f}(F(0)))", P("P0068" if f == "asin" else "P0069") if bad else approx(getattr(math, f)(x)), A, "dom" if bad else "float")
        for f in ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "exp", "exp2", "cbrt"):
            try:
                v = getattr(math, f)(x)
            except OverflowError:
                v = math.inf if x > 0 or f == "cosh" else -math.inf
            s.add(f, f"println(math.{f}(F(0)))", approx(v, 1e-14, 1e-320), A, "float")
        s.add("deg", "println(math.deg_to_rad(F(0)))", approx(math.radians(x), 1e-14, 1e-320), A, "deg_to_rad")
        if abs(x) < 1e290:
            s.add("deg", "println(math.rad_to_deg(F(0)))", approx(math.degrees(x), 1e-14, 1e-320), A, "rad_to_deg")
        s.add("class", "println(\"${math.is_nan(F(0))} ${math.is_infinite(F(0))} ${math.is_finite(F(0))}\")", "false false true", A, "finite")
    for x, y in [(rng.choice(fl), rng.choice(fl)) for _ in range(c.scale(60, 500))]:
        A = (repr(x), repr(y))
        s.add("minmax", "println(math.min(F(0), F(1)))", approx(min(x, y), 0.0), A, "fmin")
        s.add("minmax", "println(math.max(F(0), F(1)))", approx(max(x, y), 0.0), A, "fmax")
        s.add("atan2", "println(math.atan2(F(0), F(1)))", approx(math.atan2(x, y), 1e-14), A, "float")
        s.add("hypot", "println(math.hypot(F(0), F(1)))", approx(math.hypot(x, y), 1e-14), A, "float")
        try:
            p = math.pow(x, y)
        except (OverflowError, ValueError):
            p = None
        if p is not None:
            s.add("pow", "println(math.pow(F(0), F(1)))", approx(p, 1e-13, 1e-320), A, "float")
        if x > 0 and y > 0 and y != 1:
            s.add("log_base", "println(math.log_base(F(0), F(1)))", approx(math.log(x) / math.log(y), 1e-13, 1e-300), A, "float")
        z, t = rng.uniform(-10, 10), rng.uniform(0, 1)
        if abs(x) < 1e100 and abs(y) < 1e100:
            s.add("lerp", "println(math.lerp(F(0), F(1), F(2)))", approx(x + (y - x) * t, 1e-13, 1e-13 * (abs(x) + abs(y))), A + (repr(t),), "float")
            s.add("distance", "println(math.distance(F(0), F(1), F(2), F(3)))", approx(math.hypot(y - x, t - z), 1e-13, 1e-13), (repr(x), repr(z), repr(y), repr(t)), "float")
        lo, hi = min(x, y), max(x, y)
        s.add("clamp", "println(math.clamp(F(0), F(1), F(2)))", approx(min(max(z, lo), hi), 0.0), (repr(z), repr(lo), repr(hi)), "float")
    for a, x in [(rng.randrange(-9, 9), rng.uniform(-9, 9)) for _ in range(c.scale(12, 60))] + [(2, 2.5), (3, 2.5), (-1, -0.5)]:
        A = (str(a), repr(x))
        for f, o in (("min", min), ("max", max)):
            s.add("mixed", f"println(math.{f}(I(0), F(1)) == {'F(1)' if o(a, x) == x else 'cast(I(0), float)'})", "true", A, f + "if")
            s.add("mixed", f"println(math.{f}(F(1), I(0)) == {'F(1)' if o(a, x) == x else 'cast(I(0), float)'})", "true", A, f + "fi")
        s.add("mixed", "println(math.hypot(I(0), F(1)))", approx(math.hypot(a, x), 1e-14), A, "hypot")
        s.add("mixed", "println(math.lerp(I(0), 10, F(1)))", approx(a + (10 - a) * x, 1e-13, 1e-13), A, "lerp")
    for b, e in [(2, 10), (10, 18), (-2, 63), (7, 0), (0, 0), (2, -3), (3, 33)]:
        s.add("pow", "println(math.pow(I(0), I(1)))", approx(float(b) ** e), (str(b), str(e)), "int")
    s.add("class", "println(\"${math.is_nan(math.INF)} ${math.is_infinite(math.INF)} ${math.is_finite(math.INF)} ${math.is_infinite(math.NEG_INF)} ${math.NEG_INF < -1.0}\")", "false true false true true", (), "inf")
    s.add("class", "mut n float = math.INF - math.INF\nprintln(\"${math.is_nan(n)} ${math.is_infinite(n)} ${math.is_finite(n)} ${n == n}\")", "true false false false", (), "nan")
    s.add("class", "mut n float = math.INF - math.INF\nprintln(math.sqrt(n))", lambda r: r.rc in (0, 1), (), "nansqrt")
    for n, v in (("PI", math.pi), ("E", math.e), ("PHI", (1 + 5 ** .5) / 2), ("SQRT2", 2 ** .5), ("LN2", math.log(2)), ("LN10", math.log(10)), ("TAU", math.tau), ("INF", math.inf), ("NEG_INF", -math.inf)):
        s.add("const", f"println(math.{n})", approx(v, 2.3e-16), (), n)
    s.add("const", "println(\"${math.EPSILON > 0.0} ${1.0 + math.EPSILON > 1.0} ${math.EPSILON < 0.00001}\")", "true true true", (), "EPSILON")
    for f in ("sqrt", "log", "sin", "floor", "exp", "cbrt", "atan"):
        x = abs(rng.uniform(.1, 20))
        s.add("f32", f"mut x f32 = cast(F(0), f32)\nprintln(math.{f}(x))", approx(float(getattr(math, f)(f32(x))), 1e-13), (repr(x),), f)
    suite.run((("plain", 1), ("asan", 3)))


if __name__ == "__main__":
    main(check, "C22", "math functions agree with exact arithmetic or libm on every argument tried")
