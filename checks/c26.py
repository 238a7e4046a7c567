"""C26: process and environment functions report what happened.

A recorder child (built here) writes down what it received and produces prescribed output, status or signal; the monitor
compares that record with what the program passed and what the program says it got back.  Faults in pipe, fork, select
and read are injected through an interposed library."""
import sys, os, hashlib, shutil, socket, platform, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

REC = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
extern char **environ;
static void hex(const char *s) { for (; *s; s++) printf("%02x", (unsigned char)*s); }
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "--args")) { printf("%d", argc - 2); for (int i = 2; i < argc; i++) { printf(" <"); hex(argv[i]); printf(">"); } return 0; }
    if (argc > 1 && !strcmp(argv[1], "--env")) { const char *v = getenv(argv[2]); if (!v) printf("unset"); else { printf("set "); hex(v); } return 0; }
    if (argc > 1 && !strcmp(argv[1], "--ppid")) { printf("%d", (int)getppid()); return 0; }
    if (argc > 1 && !strcmp(argv[1], "--cwd")) { char b[8192]; if (getcwd(b, sizeof b)) hex(b); return 0; }
    if (argc > 1 && !strcmp(argv[1], "--stdin")) { int n = 0, c; while ((c = getchar()) != EOF) n++; printf("%d", n); return 0; }
    if (argc > 4 && !strcmp(argv[1], "--emit")) {   /* --emit outbytes errbytes status */
        long o = atol(argv[2]), e = atol(argv[3]); int st = atoi(argv[4]);
        struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
        long i = 0, j = 0;
        while (i < o || j < e) {
            for (long k = 0; k < 3000 && i < o; k++, i++) putchar((int)(unsigned char)(i * 7 + i / 253));
            fflush(stdout);
            for (long k = 0; k < 5000 && j < e; k++, j++) fputc((int)(unsigned char)(j * 11 + j / 255 + 1), stderr);
            fflush(stderr);
        }
        if (st >= 1000) { signal(st - 1000, SIG_DFL); raise(st - 1000); }
        return st;
    }
    return 99;
}
'''
OUT = lambda n: bytes((i * 7 + i // 253) & 255 for i in range(n))
ERR = lambda n: bytes((i * 11 + i // 255 + 1) & 255 for i in range(n))
sha = lambda b: hashlib.sha256(b).hexdigest()


def check(c):
    rng = c.rng
    rec = c.work + "/rec order"
    open(c.work + "/rec.c", "w").write(REC)
    subprocess.run(["gcc", "-O1", "-w", "-o", rec, c.work + "/rec.c"], check=True)
    bindir = c.work + "/bin"
    os.mkdir(bindir)
    shutil.copy(rec, bindir + "/recorder-on-path")
    fso = c.work + "/faults.so"
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", fso, os.path.join(VERIF, "lib/faults.c"), "-ldl"], check=True)
    hx = lambda x: (x if isinstance(x, bytes) else x.encode()).hex()
    decls = """
do hx(s string) -> string { return encoding.hex_encode(s) }
do worker(k int) {
    mut n int = 20000 + k * 1000
    mut code, o, e, ok = os.exec(S(0), {"--emit", "${n}", "${k}", "${k}"})
    println("T${k} ${code} ${len(o)} ${len(e)} ${ok} ${crypto.sha256(o)}.")
}
do deep(n int, code int) {
    if n == 0 {
        println("leaving")
        exit(code)
    }
    deep(n - 1, code)
    println("unreachable")
}
"""
    s = Suite(c, "os, arrays, strings, encoding, crypto, io, threads", decls, per=12)
    weird = ["", " ", "a b", "\"q\"", "'", "$HOME", "`id`", "*", "?", "~", "a\nb", "\t", "\\", "\\n", "é漢😀", "-", "--", "-n", ";", "&&", "|", ">x", "#", "%s%n", "${x}", "a" * 5000, "=", "a=b", b"\xff\xfe"]
    argb = 'mut a [string] = {"--args"}\nfor i in range(1, N()) { arrays.append(a, S(i)) }\nmut code, o, e, ok = os.exec(S(0), a)\nprintln("${code} ${ok} [${o}] [${e}]")'
    lists = [[]] + [[w] for w in weird] + [[rng.choice(weird) for _ in range(rng.randrange(0, 8))] for _ in range(c.scale(60, 800))] + [[str(i) for i in range(700)], ["x" * 60000, "y"], [""] * 40]
    for L in lists:
        s.add("exec argument vector", argb, f"0 true [{len(L)}" + "".join(f" <{hx(x)}>" for x in L) + "] []\n", [rec] + L, key=repr(L)[:200])
    emit = 'mut code, o, e, ok = os.exec(S(0), {"--emit", S(1), S(2), S(3)})\nprintln("${code} ${len(o)} ${len(e)} ${ok}")\nprintln(crypto.sha256(o))\nprintln(crypto.sha256(e))'

    def want(o, e, st):
        code = 128 + st - 1000 if st >= 1000 else st & 255
        return f"{code} {o} {e} true\n{sha(OUT(o))}\n{sha(ERR(e))}\n"
    sizes = [(0, 0), (1, 0), (0, 1), (1, 1), (4095, 4097), (4096, 4096), (4097, 4095), (8192, 0), (0, 8193), (65536, 0), (65537, 65537), (0, 70000), (200000, 3), (300000, 300000), (1500000, 10)] + [(rng.randrange(0, 40000), rng.randrange(0, 40000)) for _ in range(c.scale(6, 80))]
    for o, e in sizes:
        s.add("exec output", emit, want(o, e, 0), [rec, o, e, 0])
    for st in (list(range(256)) if c.thorough else [0, 1, 2, 63, 64, 77, 100, 125, 126, 127, 128, 129, 137, 200, 254, 255]):
        s.add("exec status", emit, want(3, 5, st), [rec, 3, 5, st])
    for sig in (1, 2, 6, 9, 11, 13, 15):
        s.add("exec signal", emit, want(10, 20, 1000 + sig), [rec, 10, 20, 1000 + sig])
    nolaunch = 'mut code, o, e, ok = os.exec(S(0), {"x"})\nprintln("${len(o)} ${len(e)} ${ok}")'
    os.makedirs(c.work + "/dir")
    open(c.work + "/plainfile", "w").write("#!/bin/sh\necho hi\n")
    for cmd in ("/nonexistent/cmd", "no-such-command-anywhere", c.work + "/dir", c.work + "/plainfile", "", c.work + "/plainfile/x"):
        s.add("exec cannot launch", nolaunch, "0 0 false\n", [cmd])
    s.add("exec searches PATH", argb, "0 true [1 <61>] []\n", ["recorder-on-path", "a"])
    s.add("exec of a shell", 'mut code, o, e, ok = os.exec("sh", {"-c", S(0)})\nprintln("${code} ${ok} ${o}|${e}")', "127 true one\n|two\n\n", ["echo one; echo two >&2; exit 127"])
    s.add("exec of a shell", 'mut code, o, e, ok = os.exec("sh", {"-c", S(0)})\nprintln("${code} ${ok} ${o}|${e}")', "0 true |\n", ["exit 0"])
    s.add("exec leaves stdout in order", 'println("before")\nmut code, o, e, ok = os.exec(S(0), {"--args"})\nprintln("after ${o}")', "before\nafter 0\n", [rec])
    s.add("exec repeated", 'mut bad int = 0\nfor i in range(0, 120) {\n mut code, o, e, ok = os.exec(S(0), {"--emit", "${i * 50}", "${i}", "${i}"})\n if code != i || len(o) != i * 50 || len(e) != i || !ok { bad += 1 }\n}\nprintln(bad)', "0\n", [rec])
    s.add("exec does not leak descriptors", 'for i in range(0, 40) {\n mut code, o, e, ok = os.exec(S(0), {"--args"})\n mut c2, o2, e2, ok2 = os.exec("/nonexistent", {"x"})\n}\nmut l, err = io.list_dir("/proc/self/fd")\nprintln(len(l) < 12)', "true\n", [rec])
    for rep in range(c.scale(2, 20)):
        s.add("exec from threads", "mut a = threads.spawn(()worker, 1)\nmut b = threads.spawn(()worker, 2)\nmut d = threads.spawn(()worker, 3)\nworker(4)\nthreads.join(a)\nthreads.join(b)\nthreads.join(d)",
              lambda r: r.rc == 0 and all(f"T{k} {k} {20000 + k * 1000} {k} true {sha(OUT(20000 + k * 1000))}." in r.text for k in (1, 2, 3, 4)), [rec], key=str(rep))
    # program arguments
    for L in lists[:40]:
        s.add("program arguments", 'mut a [string] = os.args()\nmut o string = ""\nfor i in range(2, len(a)) { o = "${o} <${hx(a[i])}>" }\nprintln("${len(a) - 2}${o}")', f"{len(L)}" + "".join(f" <{hx(x)}>" for x in L) + "\n", L, key=repr(L)[:200])
    # environment
    envb = 'println("[${os.get_env(S(0))}]")\nos.set_env(S(0), S(1))\nprintln("[${hx(os.get_env(S(0)))}]")\nmut c1, o1, e1, k1 = os.exec(S(2), {"--env", S(0)})\nprintln(o1)\nos.set_env(S(0), "second")\nprintln(os.get_env(S(0)))\nos.unset_env(S(0))\nprintln("[${os.get_env(S(0))}]")\nmut c2, o2, e2, k2 = os.exec(S(2), {"--env", S(0)})\nprintln(o2)'
    for n in ("VERIF_X", "x", "VERIF_É", "A" * 300, "VERIF.DOT", "VERIF-DASH", "1NUM"):
        for v in weird[:22] + ["z" * 50000]:
            s.add("environment", envb, f"[]\n[{hx(v)}]\nset {hx(v)}\nsecond\n[]\nunset\n", [n, v, rec], key=f"{n[:10]} {v!r:.60}")
    given = {"VERIF_G1": "given one", "VERIF_G2": "", "VERIF_G3": "é\n\t$x", "VERIF_G4": "w" * 20000}
    for k, v in given.items():
        s.add("environment given", "println(hx(os.get_env(S(0))))\nmut c1, o1, e1, k1 = os.exec(S(1), {\"--env\", S(0)})\nprintln(o1)\nos.unset_env(S(0))\nprintln(\"[${os.get_env(S(0))}]\")\nmut c2, o2, e2, k2 = os.exec(S(1), {\"--env\", S(0)})\nprintln(o2)", f"{hx(v)}\nset {hx(v)}\n[]\nunset\n", [k, rec])
    s.add("environment missing", 'println("[${os.get_env("VERIF_NO_SUCH")}]")', "[]\n")
    s.add("environment many", 'for i in range(0, 300) { os.set_env("VERIF_M${i}", "v${i}") }\nmut bad int = 0\nfor i in range(0, 300) { if os.get_env("VERIF_M${i}") != "v${i}" { bad += 1 } }\nfor i in range(0, 300) { if i % 3 == 0 { os.unset_env("VERIF_M${i}") } }\nfor i in range(0, 300) {\n mut w string = os.get_env("VERIF_M${i}")\n if i % 3 == 0 && w != "" { bad += 1 }\n if i % 3 != 0 && w != "v${i}" { bad += 1 }\n}\nprintln(bad)', "0\n")
    s.add("environment value kept", 'os.set_env("VERIF_K", "first")\nmut a string = os.get_env("VERIF_K")\nos.set_env("VERIF_K", "other value that is longer")\nos.unset_env("VERIF_K")\nprintln(a)', "first\n")
    # facts
    s.add("pid", 'mut c1, o1, e1, k1 = os.exec(S(0), {"--ppid"})\nprintln(o1 == "${os.pid()}")', "true\n", [rec])
    s.add("current_dir", 'mut c1, o1, e1, k1 = os.exec(S(0), {"--cwd"})\nprintln(o1 == hx(os.current_dir()))\nprintln(os.current_dir())', f"true\n{os.path.realpath(c.work)}\n", [rec])
    s.add("hostname", "println(os.hostname())", socket.gethostname() + "\n")
    s.add("current_os", "println(os.current_os())\nprintln(os.current_os() == os.LINUX)", "1\ntrue\n")
    s.add("arch", "println(os.arch())", {"x86_64": "x86_64", "aarch64": "arm64"}.get(platform.machine(), platform.machine()) + "\n")
    # exit
    for n in list(range(0, 256, 1 if c.thorough else 17)) + [1, 2, 3, 255, 256, 257, 511, -1, -2, 1000]:
        s.add("exit status", 'println("out")\nexit(I(0))\nprintln("unreachable")', Exit(n & 255, "out\n", ""), [n])
    for n in (0, 3, 200):
        s.add("exit from a deep call", "deep(50, I(0))", Exit(n, "leaving\n"), [n])
        s.add("exit from loops", "for i in range(0, 5) {\n for_each x in {1, 2, 3} {\n if i == 2 && x == 2 { exit(I(0)) }\n println(\"${i}${x}\")\n }\n}", Exit(n, "01\n02\n03\n11\n12\n13\n21\n"), [n])
    s.add("exit keeps all output", "for i in range(0, 20000) { println(i) }\nexit(7)", lambda r: r.rc == 7 and r.text == "".join(f"{i}\n" for i in range(20000)))
    s.add("normal end", "println(1)", lambda r: r.rc == 0 and r.text == "1\n")
    if c.thorough:
        s.add("exec output", emit, want(60000000, 10, 0), [rec, 60000000, 10, 0])
        s.add("exec output too large is not reported as a result", 'mut code, o, e, ok = os.exec(S(0), {"--emit", S(1), S(2), S(3)})\nprintln(ok == false || len(o) == I(1))', "true\n", [rec, 70000000, 10, 0])
    s.run((("plain", 1), ("asan", 10)), cwd=c.work, env={**given, "PATH": bindir + ":" + os.environ.get("PATH", "/usr/bin:/bin")})
    # faults
    t = Suite(c, "os, io, crypto", "", per=8)
    fb = 'mut x bool = io.file_exists("ARM")\nmut code, o, e, ok = os.exec(S(0), {"--emit", S(1), S(2), S(3)})\nx = io.file_exists("DISARM")\nprintln("${ok} ${code} ${len(o)} ${len(e)} ${crypto.sha256(o)}")'

    def faulty(r):
        if r.rc:
            return False
        w = r.text.split()
        return w[:4] == ["false", "0", "0", "0"] or w == ["true", "9", "30000", "20000", sha(OUT(30000))]
    EINTR, EMFILE, EAGAIN = 4, 24, 11
    t.add("exec under faults", fb, faulty, [rec, 30000, 20000, 9])
    b, _ = Gray(c, "plain").compile(t.source([0]), name="flt", flags=["-q"])
    if not b:
        c.violation("the fault driver does not compile", {"main.gray": t.source([0])}, _.brief())
        return
    jobs = [(f"{fn}:{n}:{e}") for fn, e, top in (("pipe", EMFILE, 5), ("fork", EAGAIN, 2), ("select", EINTR, 8), ("read", EINTR, 8)) for n in range(1, top)]

    def go(spec):
        log = c.work + "/log" + spec.replace(":", "_")
        r = run([b, "0", rec, "30000", "20000", "9"], cwd=c.work, env={"LD_PRELOAD": fso, "FAULT": spec, "FAULT_LOG": log}, timeout=60)
        return spec, r, os.path.exists(log)
    for spec, r, fired in pmap(go, jobs):
        c.case(("exec under faults", spec), fired)
        c.count("faults_injected", int(fired))
        ok = faulty(r) and not r.timeout and (not spec.endswith(f":{EINTR}") or r.text.startswith("true"))
        k = c.known_cell("exec under faults|" + spec)
        if not ok and not (k and c.finding(k)):
            c.violation(f"exec under faults: with {spec} (fired {fired}) the program reports {outcome(r)[:200]}", {"main.gray": t.source([0])}, r.brief())


if __name__ == "__main__":
    main(check, "C26", "os.exec, os.args, environment functions and exit are run with hostile arguments, large binary output on both streams, every kind of status, concurrent callers and injected faults; a recording child and the parent's own observations are the oracle.")
