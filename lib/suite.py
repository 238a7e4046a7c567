"""A suite of observed executions: statement bodies compiled into drivers (one function per distinct body, many per
program), each case run in its own process with its own arguments, and every result judged by an oracle."""
import re
from vlib import *


class P:
    """Expected panic (optionally: code, text printed before, regex on the message)."""
    def __init__(self, code=None, out=None, msg=None):
        self.code, self.out, self.msg = code, out, msg

    def __repr__(self):
        return f"panic({self.code or ''})"

    def ok(self, r):
        if r.rc != 1 or not r.panic:
            return False
        if self.code and r.panic not in (self.code if isinstance(self.code, tuple) else (self.code,)):
            return False
        if self.out is not None and r.text != self.out:
            return False
        return not self.msg or re.search(self.msg, r.etext) is not None


PRELUDE = """do S(i int) -> string {
    mut a [string] = os.args()
    return a[i + 2]
}
do I(i int) -> int {
    mut v, e = strconv.to_int(S(i))
    if e != nil { panic("bad int argument") }
    return v
}
do U(i int) -> uint {
    mut v, e = strconv.to_uint(S(i))
    if e != nil { panic("bad uint argument") }
    return v
}
do F(i int) -> float {
    mut v, e = strconv.to_float(S(i))
    if e != nil { panic("bad float argument") }
    return v
}
do N() -> int {
    return len(os.args()) - 2
}
"""


class Exit:
    """Expected exit status and exact output."""
    def __init__(self, rc, out, err=None):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return f"exit {self.rc} after {self.out[-80:]!r}"

    def ok(self, r):
        return r.rc == self.rc and r.text == self.out and (self.err is None or r.etext == self.err)


def outcome(r):
    if r.timeout:
        return "no end within the time limit"
    if r.sanitizer:
        return "sanitizer report: " + r.sanitizer[:300]
    if r.rc != 0:
        return (f"panic {r.panic} (rc {r.rc}) " if r.panic else f"died rc={r.rc} ") + r.etext[-200:] + " after " + repr(r.text[-120:])
    return repr(r.text)


def judge(exp, r):
    """None when the observed execution satisfies the expectation."""
    if isinstance(exp, Exit):
        return not r.timeout and not r.sanitizer and exp.ok(r)
    if r.timeout or r.sanitizer or r.crashed:
        return False
    if isinstance(exp, (tuple, list)):
        return any(judge(e, r) for e in exp)
    if isinstance(exp, P):
        return exp.ok(r)
    if callable(exp):
        return bool(exp(r))
    b = exp if isinstance(exp, bytes) else str(exp).encode()
    return r.rc == 0 and r.out == b


class Suite:
    def __init__(self, c, imports="", decls="", per=60, compile_fail="violation", timeout=20, nomain=False):
        self.c, self.decls, self.per = c, decls, per
        self.imports = sorted({x.strip() for x in imports.replace("@", "").split(",") if x.strip()} | {"os", "strconv"})
        self.bodies, self.index, self.cases = [], {}, []
        self.compile_fail, self.timeout = compile_fail, timeout
        self.uncompiled = {}

    def add(self, group, body, expect, args=(), key=None, stdin=b"", nontrivial=True, decls=""):
        k = (body, decls)
        if k not in self.index:
            self.index[k] = len(self.bodies)
            self.bodies.append((body, decls, group))
        self.cases.append((group, self.index[k], [a if isinstance(a, bytes) else str(a) for a in args], expect,
                           key if key is not None else " ".join(map(repr, args)) or body, stdin, nontrivial))

    def source(self, idx):
        out = ["import " + ", ".join("@" + m for m in self.imports), PRELUDE, self.decls]
        seen = set()
        for k in idx:
            d = self.bodies[k][1]
            if d and d not in seen:
                seen.add(d)
                out.append(d)
        for n, k in enumerate(idx):
            out.append(f"do case_{n}() {{\n    {self.bodies[k][0]}\n}}")
        out.append("do main() {\n    mut argv_ [string] = os.args()\n    mut sel_, _ = strconv.to_int(argv_[1])\n    when sel_ {")
        out += [f"        is {n} {{ case_{n}() }}" for n in range(len(idx))]
        out.append("        default { }\n    }\n}")
        return "\n".join(out) + "\n"

    def build(self, g, idx):
        """-> {body index: (binary, selector)}; bodies that do not compile are isolated."""
        b, r = g.compile(self.source(idx), name="su", flags=["-q"])
        if b:
            return {k: (b, n) for n, k in enumerate(idx)}
        if len(idx) == 1:
            self.uncompiled[idx[0]] = r
            return {}
        h = len(idx) // 2
        res = self.build(g, idx[:h])
        res.update(self.build(g, idx[h:]))
        return res

    def chunks(self):
        return [list(range(i, min(i + self.per, len(self.bodies)))) for i in range(0, len(self.bodies), self.per)]

    def run(self, variants=(("plain", 1), ("asan", 8)), cwd=None, env=None, opt=None):
        """variants: (name, k): every k-th case is run in that variant.  Returns per-case results of the first."""
        c = self.c
        first = None
        b, r = Gray(c, "plain").compile(self.source([]), name="decls", flags=["-q"])
        if not b:
            c.violation("the declarations shared by every case do not compile: " + (r.etext + r.text)[:600],
                        {"main.gray": self.source([])}, r.brief())
            return []
        for vi, (v, step) in enumerate(variants):
            g = Gray(c, v, opt)
            use = self.cases if step == 1 else self.cases[c.seed % step::step]
            need = sorted({x[1] for x in use} - set(self.uncompiled))
            per = self.per if v == "plain" else max(8, self.per // 2)
            per = max(4, min(per, -(-len(need) // NCPU)))
            ch = [need[i:i + per] for i in range(0, len(need), per)]
            where = {}
            for d in pmap(lambda ix: self.build(g, ix), ch):
                where.update(d)
            use = [x for x in use if x[1] in where]
            jobs = []
            for x in use:
                b, n = where[x[1]]
                cmd = [b, str(n)] + x[2]
                jobs.append((cmd, x[5]) if x[5] else cmd)
            res = run_batch(jobs, cwd=cwd or c.work, env=env, timeout=self.timeout)
            if first is None:
                first = list(zip(use, res))
            bad = {}
            for x, r in zip(use, res):
                group, bi, args, exp, key, sin, nt = x
                c.case((group, key) if nt else None, nt)
                c.seen("operations", group)
                if r.panic:
                    c.count("executions_panicked")
                else:
                    c.count("executions_completed")
                if not judge(exp, r):
                    bad.setdefault(group, []).append((x, r))
                elif len(c.samples) < 6 and c.rng.random() < 0.02:
                    c.sample(f"{group} {str(key)[:80]} -> {str(exp)[:80]!r}")
            self.report(bad, v)
        self.report_uncompiled()
        return first

    def report(self, bad, v):
        c = self.c
        for group, L in sorted(bad.items()):
            unk = []
            for x, r in L:
                k = c.known_cell(f"{group}|{x[4]}") or c.known_cell(group)
                if not (k and c.finding(k)):
                    unk.append((x, r))
            if unk:
                unk.sort(key=lambda z: (sum(map(len, z[0][2])), len(self.bodies[z[0][1]][0])))
                x, r = unk[0]
                exp = x[3] if not callable(x[3]) or isinstance(x[3], P) else (getattr(x[3], "__doc__", None) or "as specified")
                c.violation(f"{group} ({v}) [{x[4]}]: expected {exp!r}, observed {outcome(r)}; {len(unk)} cases fail"
                            f" ({', '.join(str(y[4])[:60] for y, _ in unk[1:6])})",
                            {"main.gray": self.source([x[1]]), "args.txt": "0 " + " ".join(map(repr, x[2]))},
                            dict(result=r.brief(), expected=str(exp)[:4000], args=[repr(a) for a in x[2]]))

    def report_uncompiled(self):
        c = self.c
        by = {}
        for k, r in sorted(self.uncompiled.items()):
            body, d, group = self.bodies[k]
            c.count("bodies_not_compiled")
            if os.environ.get("SUITE_DEBUG"):
                print("UNCOMPILED", group, "|", body, "|", (r.etext + r.text)[:300].replace("\n", " "))
            if self.compile_fail == "ignore" or self.compile_fail == "c" and "error[E" in r.etext + r.text:
                c.count("bodies_rejected_with_diagnostics")
                continue
            kf = c.known_cell(group + "|compile")
            if kf and c.finding(kf):
                continue
            m = re.search(r"(error\[E\d+\]: .*|error: .*|ERROR: .*)", r.etext + r.text)
            by.setdefault(re.sub(r"'[^']*'|[0-9]+", "_", m.group(1)) if m else "?", []).append((k, r, group, m.group(1) if m else r.etext[-300:]))
        for _, L in sorted(by.items()):
            k, r, group, m = L[0]
            c.violation(f"{group}: does not compile: {m}; {len(L)} forms: {', '.join(sorted({x[2] for x in L}))[:700]}",
                        {"main.gray": self.source([k])}, r.brief())
        self.uncompiled = {}
