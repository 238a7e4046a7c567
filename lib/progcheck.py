"""Observed executions of random well-typed programs, judged against the reference interpretation they were built with."""
import random
from vlib import *
from progen import Gen

NEGZERO = re.compile(rb"(?<![\w.])-0\.0(?![\d])")
FEATURES = [("struct literal", r"\bSt\d+\{"), ("tagged enum", r"\bTg\d+\."), ("enum", r"\bEn\d+\."), ("map", r"map\["), ("nested array", r"\[\["),
            ("pointer", r"\^St"), ("new", r"\bnew\("), ("& parameter", r"\(&p|, &p"), ("multi return", r"-> \("), ("named argument", r"\bp\d+: "),
            ("for range", r"\bfor \w+ in range"), ("for_each", r"for_each"), ("while", r"\b(while|as_long_as) "), ("loop", r"\bloop \{"), ("when", r"\bwhen "),
            ("break", r"\bbreak\b"), ("continue", r"\bcontinue\b"), ("interpolation", r"\$\{"), ("cast", r"cast\("), ("in range", r"\) in range|\w in range\("),
            ("append", r"arrays\.append"), ("early return", r"\n {8,}return"), ("global", r"^mut g\d+"), ("default field", r"\n    f\d+ \S+ = "),
            ("default parameter", r"p\d+ \S+ = ")]


def norm(b):
    # gcc folds 0.0 - (double)0 to -0.0 whatever the program was compiled from: the sign of zero is not compared
    return NEGZERO.sub(b"0.0", b)


def run_programs(c, tag, n, variant="plain", opt=None, timeout=20, minimal=None, **feat):
    """Generates n programs from the check's seed and judges one execution of each."""
    g = Gray(c, variant, opt)
    label = f"{tag} {variant}{' ' + opt if opt else ''}"

    def one(i):
        r = Gen(random.Random(f"{tag}:{c.seed}:{i}"), **feat).program()
        if not r:
            return i, None, None, None, None
        src, out, codes = r
        b, res = g.compile(src, name=f"p{tag}{i}", flags=["-q"])
        if not b:
            return i, src, out, codes, res
        x = run([b], timeout=timeout, env=SAN_ENV)
        os.unlink(b)
        return i, src, out, codes, x

    for i, src, out, codes, x in pmap(one, range(n)):
        if src is None:
            c.count(f"{label}: dropped (too long)")
            continue
        want = norm(out.encode("utf-8", "surrogateescape"))
        if x.panic and codes and x.panic in codes and norm(x.out) == want:
            c.count(f"{label}: stopped by the expected panic")
            c.seen("panic codes", x.panic)
        elif x.rc == 0 and codes is None and norm(x.out) == want and not x.sanitizer and not x.timeout:
            c.count(f"{label}: ran to the end")
        else:
            if x.text.startswith("gray") or "error[" in x.etext + x.text and not x.panic or "C compilation failed" in x.etext + x.text:
                what = f"generated program {label} {i} does not build: " + (x.etext + x.text)[:500]
            else:
                a, b = norm(x.out).split(b"\n"), want.split(b"\n")
                k = next((k for k, (p, q) in enumerate(zip(a + [None], b + [None])) if p != q), len(a))
                what = (f"generated program {label} {i}: rc={x.rc} panic={x.panic} {(x.sanitizer or x.etext)[-300:]!r}; expected "
                        + (f"one of {codes[:4]}… after " if codes else "") + f"output line {k + 1}: got {a[k:k + 1]!r} want {b[k:k + 1]!r}"
                        + (" (time limit)" if x.timeout else ""))
            c.violation(what, {"main.gray": src, "expected.txt": out, "expected_panic.txt": " ".join(codes or ("none",))}, x.brief())
            continue
        c.case(f"{tag}{i}", nontrivial=len(want) > 40)
        c.count("output lines compared", want.count(b"\n"))
        c.count("program lines executed over", src.count("\n"))
        for name, rx in FEATURES:
            if re.search(rx, src, re.M):
                c.count("programs with " + name)
        c.sample(f"{label} #{i}: {src.count(chr(10))} lines, {want.count(10)} output lines, " + ("ends" if codes is None else f"panics {x.panic}"))
