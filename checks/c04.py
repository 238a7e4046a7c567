"""C04: programs and library calls never corrupt memory.

lib/calls.txt lists every call of a pure library function (185 functions, 402 combinations of argument types).  Each is
compiled once into a driver that takes its arguments at run time and runs under ASan + UBSan with arena poisoning, on
hostile arguments: extreme and negative integers, empty, huge, malformed and non-UTF-8 strings, format directives,
infinities and denormals, empty and long arrays and maps, arguments that alias each other, and random mixes.  Results
are used again afterwards (copied, measured) with the scope's memory churned.  Violation: any sanitizer report, signal,
hang, or an exit that is neither a normal end nor a panic.  What calls compute is judged by C12-C23; here only that they
end defined."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *
from vlib import run_batch, VERIF

K = {"S": "string", "I": "int", "F": "float", "B": "bool", "C": "char", "AS": "[string]", "AI": "[int]", "AB": "[byte]", "AF": "[float]",
     "MS": "map[string:int]", "MT": "map[string:string]", "MI": "map[int:string]", "GI": "[[int]]", "GS": "[[string]]"}
HELP = """import @arrays, @strings, @strconv, @os
do S(i int) -> string {
    mut a [string] = os.args()
    if i + 2 < len(a) { return a[i + 2] }
    return ""
}
do toi(s string) -> int {
    mut v, e = strconv.to_int(s)
    if e != nil { return 0 }
    return v
}
do tof(s string) -> float {
    mut v, e = strconv.to_float(s)
    if e != nil { return 0.0 }
    return v
}
do parts(i int) -> [string] {
    mut s string = S(i)
    mut none [string] = {}
    if len(s) == 0 { return none }
    return strings.split(s, ",")
}
do mk_S(i int) -> string { return S(i) }
do mk_I(i int) -> int { return toi(S(i)) }
do mk_F(i int) -> float {
    mut s string = S(i)
    if s == "inf" { return tof("1e308") * 10.0 }
    if s == "-inf" { return 0.0 - tof("1e308") * 10.0 }
    if s == "nan" { return (tof("1e308") * 10.0) - (tof("1e308") * 10.0) }
    return tof(s)
}
do mk_B(i int) -> bool { return S(i) == "true" }
do mk_C(i int) -> char { return cast(toi(S(i)), char) }
do mk_AS(i int) -> [string] { return parts(i) }
do mk_AI(i int) -> [int] {
    mut a [int] = {}
    mut p [string] = parts(i)
    for_each s in p { arrays.append(a, toi(s)) }
    return a
}
do mk_AB(i int) -> [byte] {
    mut a [byte] = {}
    mut p [string] = parts(i)
    for_each s in p { arrays.append(a, cast((toi(s) % 128 + 128) % 256, byte)) }
    return a
}
do mk_AF(i int) -> [float] {
    mut a [float] = {}
    mut p [string] = parts(i)
    for_each s in p { arrays.append(a, tof(s)) }
    return a
}
do mk_MS(i int) -> map[string:int] {
    mut m map[string:int] = {:}
    mut p [string] = parts(i)
    for_each s in p { m[s] = toi(s) }
    return m
}
do mk_MT(i int) -> map[string:string] {
    mut m map[string:string] = {:}
    mut p [string] = parts(i)
    for_each s in p { m[s] = s }
    return m
}
do mk_MI(i int) -> map[int:string] {
    mut m map[int:string] = {:}
    mut p [string] = parts(i)
    for_each s in p { m[toi(s)] = s }
    return m
}
do mk_GI(i int) -> [[int]] {
    mut g [[int]] = {}
    mut p [string] = parts(i)
    for_each s in p {
        mut r [int] = {}
        mut n int = toi(s) % 5
        for j in range(0, 3) { if j < n { arrays.append(r, j) } }
        arrays.append(g, r)
    }
    return g
}
do mk_GS(i int) -> [[string]] {
    mut g [[string]] = {}
    mut p [string] = parts(i)
    for_each s in p {
        mut r [string] = {}
        if len(s) > 1 { arrays.append(r, s) }
        if len(s) > 2 { arrays.append(r, "") }
        arrays.append(g, r)
    }
    return g
}
do churn() {
    mut keep [string] = {}
    for i in range(0, 40) { arrays.append(keep, strings.repeat("#", 10 + i)) }
    if len(keep) != 40 { panic("churn") }
}
"""
INTS = ["0", "1", "-1", "2", "7", "-2", "64", "255", "256", "1000", "100000", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "4294967295", "4294967297", "4611686018427387904", "9223372036854775807", "-9223372036854775808", "-9223372036854775807"]
FLOATS = ["0", "-0.0", "1.5", "-1.5", "1e308", "-1e308", "5e-324", "1e19", "-1e19", "9.3e18", "inf", "-inf", "nan", "0.1", "1e-300", "170.5", "1e15"]
STRS = ["", "a", "ab", "é", "日本語", b"\xff\xfe", b"a\xc3", b"\xe2\x82", b"\xf0\x9f\x98", "%s%n%d%p", "%999999999d", "%.*f", "\\", "(", "[", "{", "[a-", "(a*)*b", "a{1,99999}", "(?P<",
        '{"a":', "[[[[", '"\\u12', '"\\ud800"', "[1,2", '{"a":1,}', "nul", "a,b\n\"c", '"', "0x", "-", "+", "1e999", "-9223372036854775809", "99999999999999999999", "   ", "\t\n\r", "=", "====",
        "AAA=", "A", "zz", "%", "%4", "%zz", "a\nb", "../../x", "2024-13-45T99:99:99Z", "%Y-%m-%d %H", "x" * 300, "," * 50, "a" * 5000, "[" * 3000, "(" * 500, '{"a":' * 800,
        "é" * 1500, "00000000-0000-0000-0000-000000000000", "g" * 36, "1,2,3", "0.1.2", "😀😀", "\x01\x7f", "true", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa!"]
LISTS = ["", "0", "1", "-1,5,3", "9223372036854775807,1", "-9223372036854775808,-1", "a,b,a", ",", ",,,", "1,1,1,1", "é,日本,x", ",".join(str(i * 7919 % 401) for i in range(300)),
         "x" * 200 + "," + "y" * 200, "255,254,0,128", "1.5,-0.0,1e308,1e308"]

def arg(rng, k):
    if k == "I": return rng.choice(INTS) if rng.random() < 0.8 else str(rng.randint(-300, 300))
    if k == "F": return rng.choice(FLOATS)
    if k == "B": return rng.choice(["true", "false"])
    if k == "C": return rng.choice(["0", "65", "233", "128512", "1114111", "10", "37", "48"])
    if k == "S":
        r = rng.random()
        if r < 0.8: return rng.choice(STRS)
        if r < 0.9: return "".join(rng.choice("ab(){}[]\\.*+?|^$-0123,:\"'%é ") for _ in range(rng.randint(1, 40)))
        return bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 30)))
    return rng.choice(LISTS)

def check(c):
    mods = {}
    for line in open(os.path.join(VERIF, "lib", "calls.txt")):
        name, types, form = line.split()
        mods.setdefault(name.split(".")[0], []).append((name, [] if types == "-" else types.split("."), int(form)))
    g = Gray(c, "asan")
    progs = []
    for m, calls in mods.items():
        for i in range(0, len(calls), 60): progs.append((m, calls[i:i + 60]))

    def source(m, calls):
        src = HELP + ("" if m in ("arrays", "strings", "strconv") else f"import @{m}\n")
        for k, (name, types, form) in enumerate(calls):
            args = ", ".join(f"q{i}" for i in range(len(types)))
            body = "".join(f"    mut q{i} {K[t]} = mk_{t}({i})\n" for i, t in enumerate(types))
            # every collection argument is also reachable through a copy while the call runs
            call = f"{name}({args})"
            body += [f"    mut r = {call}\n    churn()\n    mut r2 = r\n    mut keep = {{r, r2}}\n    if len(keep) != 2 {{ println(\"\") }}\n",
                     f"    {call}\n    churn()\n",
                     f"    mut r, e = {call}\n    churn()\n    mut r2 = r\n    if e != nil {{ println(e.message) }}\n    mut keep = {{r, r2}}\n    if len(keep) != 2 {{ println(\"\") }}\n"][form]
            for i, t in enumerate(types):
                if t[0] in "AMG": body += f"    println(\"${{len(q{i})}}\")\n"
            src += f"do f{k}() {{\n{body}}}\n"
        src += "do main() {\n    mut sel int = toi(S(-1))\n" + "".join(f"    if sel == {k} {{ f{k}() }}\n" for k in range(len(calls)))
        return src + "    println(\"end\")\n}\n"

    def comp(item):
        m, calls = item
        while True:
            b, r = g.compile(source(m, calls), "c04" + m)
            if b: return [(b, m, calls)]
            if len(calls) == 1:
                simple = source(m, calls).replace("    mut keep = {r, r2}\n    if len(keep) != 2 { println(\"\") }\n", "").replace("    mut r2 = r\n", "")
                b, r = g.compile(simple, "c04" + m)
                if b: return [(b, m, calls)]
                c.count("calls not compiled")
                if os.environ.get("SUITE_DEBUG"): print("UNCOMPILED", calls[0], (r.out + r.err).decode(errors="replace")[:400])
                return []
            h = len(calls) // 2
            return comp((m, calls[:h])) + comp((m, calls[h:]))

    jobs, meta = [], []
    n = c.scale(8, 120)
    for built in pmap(comp, progs):
        for b, m, calls in built:
            for k, (name, types, form) in enumerate(calls):
                for i in range(n if types else 1):
                    args = [arg(c.rng, t) for t in types]
                    if i == 0 and len(types) > 1 and len(set(types)) == 1: args = [args[0]] * len(args)
                    jobs.append([b, str(k)] + args)
                    meta.append((name, types, args))
    env = {"ASAN_OPTIONS": __import__("vlib").SAN_ENV["ASAN_OPTIONS"] + ":max_allocation_size_mb=1500:hard_rss_limit_mb=4000"}
    bad = {}
    for (name, types, args), job, r in zip(meta, jobs, run_batch(jobs, cwd=c.work, env=env, timeout=60)):
        c.case(name + "/" + ".".join(types))
        out_of_memory = b"out of memory" in r.err or b"exceeds maximum" in r.err or b"out of memory" in r.out or (r.rc == 1 and r.err.startswith(b"Grayscale runtime: "))
        if r.sanitizer and "requested allocation size" not in r.sanitizer and "rss limit" not in r.etext: why = "sanitizer report"
        elif r.timeout: why = "hangs"
        elif r.crashed and not r.sanitizer and b"rss limit" not in r.err: why = "killed by a signal"
        elif r.rc == 0 and r.out.rstrip().endswith(b"end"): c.count("calls that returned"); continue
        elif r.panic: c.count("calls that panicked"); c.seen("panic codes", r.panic); continue
        elif out_of_memory: c.count("calls out of memory"); continue
        elif "requested allocation size" in (r.sanitizer or "") or b"rss limit" in r.err: c.count("calls beyond the memory bound"); continue
        else: why = "ends neither normally nor with a panic"
        bad.setdefault((name, why), []).append((types, args, r))
    for (name, why), l in sorted(bad.items()):
        types, args, r = l[0]
        show = ", ".join(repr(a)[:60] for a in args)
        c.violation(f"{name}({show}) {why}; {len(l)} cases", {"call.txt": f"{name} {types} {args!r}\n"}, r.brief(), known=c.known_cell(f"{name}|{why}"))

if __name__ == "__main__":
    main(check, "C04", "no library call, whatever its arguments, corrupts memory or dies by a signal")
