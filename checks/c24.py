"""C24: file operations have exactly the documented effect.

Histories of io calls run in a scratch directory (as an unprivileged user) against the same history carried out by the
operating system through Python in a twin directory: every result, every error and the final trees (bytes, links,
sentinels outside the working directory) must agree.  Faults (file-size limit, /dev/full, failing libc calls through an
interposed library) are injected per call: an operation that reports success must have had its whole effect, a read
that reports success must return all the bytes."""
import sys, os, glob, shutil, stat, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *

DRIVER = r'''import @io, @os, @strings, @strconv, @encoding, @arrays, @bytes
do H(s string) -> string {
    return encoding.hex_decode(s)
}
do B(s string) -> [byte] {
    return bytes.from_hex(s)
}
do show(op string, ok bool, failed bool) {
    if ok == failed { println("${op} INCONSISTENT ${ok} ${failed}") }
    otherwise { println("${op} ${ok}") }
}
do list(op string, a [string], failed bool) {
    if failed { println("${op} err ${len(a)}") }
    otherwise {
        mut out string = "${op} ok"
        for_each x in a { out = "${out} <${encoding.hex_encode(x)}>" }
        println(out)
    }
}
do step(op string, p string, q string) {
    when op {
        is "write" { mut r, e = io.write_file(p, H(q))
            show(op, r, e != nil) }
        is "append" { mut r, e = io.append_file(p, H(q))
            show(op, r, e != nil) }
        is "writeb" { mut r, e = io.write_bytes(p, B(q))
            show(op, r, e != nil) }
        is "appendb" { mut r, e = io.append_bytes(p, B(q))
            show(op, r, e != nil) }
        is "read" { mut r, e = io.read_file(p)
            if e != nil { println("${op} err ${len(r)}") } otherwise { println("${op} ok ${encoding.hex_encode(r)}") } }
        is "readb" { mut r, e = io.read_bytes(p)
            if e != nil { println("${op} err ${len(r)}") } otherwise { println("${op} ok ${bytes.to_hex(r)}") } }
        is "lines" { mut r, e = io.read_lines(p)
            if e != nil { println("${op} err ${len(r)}") } otherwise {
                mut out string = "${op} ok"
                for_each x in r { out = "${out} <${encoding.hex_encode(x)}>" }
                println(out)
            } }
        is "exists" { println("${op} ${io.file_exists(p)} ${io.is_file(p)} ${io.is_directory(p)}") }
        is "size" { mut r, e = io.file_size(p)
            if e != nil { println("${op} err ${r}") } otherwise { println("${op} ok ${r}") } }
        is "delete" { mut r, e = io.delete_file(p)
            show(op, r, e != nil) }
        is "rename" { mut r, e = io.rename_file(p, q)
            show(op, r, e != nil) }
        is "copy" { mut r, e = io.copy_file(p, q)
            show(op, r, e != nil) }
        is "move" { mut r, e = io.move_file(p, q)
            show(op, r, e != nil) }
        is "list" { mut r, e = io.list_dir(p)
            list(op, r, e != nil) }
        is "walk" { mut r, e = io.walk(p)
            list(op, r, e != nil) }
        is "glob" { mut r, e = io.glob(p)
            list(op, r, e != nil) }
        is "mkdir" { mut r, e = io.make_dir(p)
            show(op, r, e != nil) }
        is "mkdirs" { mut r, e = io.make_dir_all(p)
            show(op, r, e != nil) }
        is "rmdir" { mut r, e = io.remove_dir(p)
            show(op, r, e != nil) }
        is "rmall" { mut r, e = io.remove_dir_all(p)
            show(op, r, e != nil) }
        is "arm" { mut _ = io.file_exists("ARM") }
        is "disarm" { mut _ = io.file_exists("DISARM") }
        is "temps" {
            mut n, _ = strconv.to_int(p)
            for i in range(0, n) {
                mut f, e = io.temp_file()
                if e != nil { println("temp err") } otherwise {
                    mut w, we = io.write_file(f, "x${i}")
                    mut r, re = io.read_file(f)
                    println("F ${encoding.hex_encode(f)} ${io.is_file(f)} ${w} ${r}")
                }
                mut d, de = io.temp_dir()
                if de != nil { println("temp err") } otherwise {
                    mut w, we = io.make_dir_all(io.path_join({d, "a", "b"}))
                    mut w2, we2 = io.write_file(io.path_join({d, "a", "f"}), "y")
                    println("D ${encoding.hex_encode(d)} ${io.is_directory(d)} ${w} ${w2}")
                }
            }
        }
        is "exec" { mut c, o, x, ok = os.exec(p, {q})
            println("${op} ${c} ${ok}") }
        is "ln" { mut c, o, x, ok = os.exec("ln", {"-s", q, p})
            println("${op} ${ok}") }
        is "exit" { mut n, _ = strconv.to_int(p)
            exit(n) }
        is "panic" { panic("asked") }
        default { panic("bad op ${op}") }
    }
}
do main() {
    mut a [string] = os.args()
    mut i int = 1
    as_long_as i < len(a) {
        step(a[i], a[i + 1], a[i + 2])
        i += 3
    }
}
'''


def h(b):
    return b.hex()


class Model:
    """the same operations, by the operating system through Python, in directory d"""
    def __init__(self, d):
        self.d = d

    def p(self, x):
        if not x:
            raise FileNotFoundError(x)
        return os.path.join(self.d, x) if not x.startswith("/") else x

    def step(self, op, a, b):
        try:
            return getattr(self, "op_" + op)(a, b)
        except OSError:
            if op in ("read", "readb", "lines", "list", "walk", "glob"):
                return f"{op} err 0"
            if op == "size":
                return "size err -1"
            return f"{op} false"

    def put(self, a, b, mode):
        with open(self.p(a), mode) as f:
            f.write(bytes.fromhex(b))

    def op_write(self, a, b): self.put(a, b, "wb"); return "write true"
    def op_writeb(self, a, b): self.put(a, b, "wb"); return "writeb true"
    def op_append(self, a, b): self.put(a, b, "ab"); return "append true"
    def op_appendb(self, a, b): self.put(a, b, "ab"); return "appendb true"
    def op_read(self, a, b): return "read ok " + h(open(self.p(a), "rb").read())
    def op_readb(self, a, b): return "readb ok " + h(open(self.p(a), "rb").read())

    def op_lines(self, a, b):
        t = open(self.p(a), "rb").read()
        L = t.split(b"\n")
        if L[-1] == b"":
            L.pop()
        return "lines ok" + "".join(f" <{h(x[:-1] if x.endswith(b'\r') else x)}>" for x in L)

    def op_exists(self, a, b):
        f = lambda x: str(x).lower()
        q = self.p(a or "no such name")
        return f"exists {f(os.path.exists(q))} {f(os.path.isfile(q))} {f(os.path.isdir(q))}"

    def op_size(self, a, b): return f"size ok {os.stat(self.p(a)).st_size}"
    def op_delete(self, a, b): os.unlink(self.p(a)); return "delete true"
    def op_rename(self, a, b): os.rename(self.p(a), self.p(b)); return "rename true"

    def op_copy(self, a, b):
        s, d = self.p(a), self.p(b)
        if os.path.isdir(s):
            return "copy false"
        data = open(s, "rb").read()
        if os.path.exists(d) and os.path.samefile(s, d):
            return "copy false"
        with open(d, "wb") as f:
            f.write(data)
        return "copy true"

    def op_move(self, a, b): os.rename(self.p(a), self.p(b)); return "move true"

    def names(self, op, L):
        return " ".join([op, "ok"] + sorted(f"<{h(os.fsencode(x))}>" for x in L))

    def op_list(self, a, b): return self.names("list", os.listdir(self.p(a)))

    def op_walk(self, a, b):
        out = []
        root = self.p(a)
        if not os.path.isdir(root):
            return "walk err 0"

        def bad(e): raise e
        for d, ds, fs in os.walk(root, onerror=bad):
            rel = os.path.relpath(d, root)
            out += [x if rel == "." else rel + "/" + x for x in ds + fs]
        return self.names("walk", out)

    def op_glob(self, a, b):
        n = len(self.d) + 1
        return self.names("glob", [x[n:] for x in glob.glob(glob.escape(self.d) + "/" + a)])

    def op_mkdir(self, a, b): os.mkdir(self.p(a)); return "mkdir true"

    def op_mkdirs(self, a, b):
        if a == "":
            return "mkdirs false"
        os.makedirs(self.p(a), exist_ok=True)
        return "mkdirs true"

    def op_rmdir(self, a, b): os.rmdir(self.p(a)); return "rmdir true"

    def op_rmall(self, a, b):
        q = self.p(a)
        if os.path.islink(q) or not os.path.isdir(q):
            return "rmall false"
        shutil.rmtree(q)
        return "rmall true"

    def op_ln(self, a, b):
        return "ln true"


def lines_of(r):
    """output lines, directory listings in name order (their order is not specified)"""
    out = []
    for x in r.text.split("\n")[:-1]:
        w = x.split(" ")
        if w[0] in ("list", "walk", "glob") and w[1:2] == ["ok"]:
            w[2:] = sorted(w[2:])
        out.append(" ".join(w))
    return out


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            q = os.path.join(d, x)
            st = os.lstat(q)
            r = os.path.relpath(q, root)
            out[r] = ("link", os.readlink(q)) if stat.S_ISLNK(st.st_mode) else ("dir",) if stat.S_ISDIR(st.st_mode) else ("file", open(q, "rb").read()) if stat.S_ISREG(st.st_mode) else ("other",)
    return out


NAMES = ["a", "b.txt", "sp ace", "ü.é", "-dash", ".hid", "star*", "q?", "[x]", "d1", "d2", "d1/a", "d1/b.txt", "d1/in", "d1/in/deep", "d2/x", "n/o/t", "lf", "ld", "lx", "ll", "ld/a", "ld/in", "d1/", "./a", "d1//a", "d1/../a", "", "ld/new", "d2/d1", "w1", "w2/w3/w4/", "out"]


def setup(root, extra=False):
    """work dir root/w with files, links inside and to a sentinel tree outside the working directory"""
    w = root + "/w"
    os.makedirs(w + "/d1/in/deep")
    os.makedirs(w + "/d2")
    os.makedirs(root + "/out/keep")
    open(root + "/out/keep/s", "wb").write(b"sentinel")
    open(root + "/out/t", "wb").write(b"outside")
    open(w + "/a", "wb").write(b"first\nsecond\r\nthird")
    open(w + "/d1/a", "wb").write(bytes(range(256)))
    open(w + "/d1/in/z", "wb").write(b"z")
    os.symlink("d1/a", w + "/lf")
    os.symlink("d1", w + "/ld")
    os.symlink("nowhere", w + "/lx")
    os.symlink("ll", w + "/ll")
    os.symlink("../out", w + "/out")
    os.symlink("..", w + "/d1/up")
    os.symlink("../../out", w + "/d1/in/esc")
    for d, ds, fs in os.walk(root):
        for x in [d] + [os.path.join(d, f) for f in fs]:
            os.chown(x, 65534, 65534, follow_symlinks=False)


def check(c):
    rng = c.rng
    os.chmod(c.work, 0o711)
    try:
        unpriv = run(["true"], unpriv=True).rc == 0
    except Exception:       # no right to switch user here: the scratch trees still contain everything
        unpriv = False
    c.counters["unprivileged_user"] = int(unpriv)
    progs = {}
    for v in ("plain", "asan"):
        b, r = Gray(c, v).compile(DRIVER, name="io_" + v, flags=["-q"])
        if not b:
            c.violation("the io driver does not compile: " + (r.etext + r.text)[:600], {"main.gray": DRIVER}, r.brief())
            return
        q = c.work + "/drv_" + v
        shutil.copy(b, q)
        os.chmod(q, 0o755)
        progs[v] = q
    fso = c.work + "/faults.so"
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", fso, os.path.join(VERIF, "lib/faults.c"), "-ldl"], check=True)
    os.chmod(fso, 0o755)
    n_ = [0]

    def fresh():
        n_[0] += 1
        return f"{c.work}/r{n_[0]}"

    def execute(v, root, ops, **kw):
        env = dict(SAN_ENV)
        env.update(kw.pop("env", {}))
        return run([progs[v]] + [x for o in ops for x in o], cwd=root + "/w", env=env, timeout=60, unpriv=kw.pop('unpriv', unpriv), **kw)

    def fail(group, msg, ops, r, extra=""):
        k = c.known_cell(group)
        if k and c.finding(k):
            return
        c.violation(f"{group}: {msg}", {"driver.gray": DRIVER, "ops.txt": "\n".join(map(repr, ops)) + "\n" + extra}, r.brief() if r else None)

    # --- histories against the twin
    data = [b"", b"x", b"line\n", b"a\r\nb\n\nc", b"\x00\x01\xff\x00", bytes(range(256)) * 20, b"y" * 8191, b"y" * 8192, b"z" * 8193, b"q" * 20000, "ünï\n".encode(), b"\n", b"\r\n", b"no newline at end", b"k" * 4096, b"k" * 4095]
    KINDS = ["write", "append", "writeb", "appendb", "read", "readb", "lines", "exists", "size", "delete", "rename", "copy", "move", "list", "walk", "glob", "mkdir", "mkdirs", "rmdir", "rmall"]
    GLOBS = ["*", "d1/*", "*.txt", "[a-b]*", "?", "d?/*", "nope*", "d1/[!a]*", "star[*]", "*/*", "l*"]
    hist = []
    for k in range(c.scale(160, 4000)):
        ops = []
        for _ in range(rng.choice([1, 3, 8, 16])):
            op = rng.choice(KINDS)
            a, b = rng.choice(NAMES), rng.choice(NAMES)
            if op in ("write", "append", "writeb", "appendb"):
                b = h(rng.choice(data))
            if op == "glob":
                a = rng.choice(GLOBS)
            if op in ("rmall", "walk", "list") and a in ("", "d1/../a"):
                a = "d1"
            ops.append((op, a, b))
        hist.append(ops)
    for op in KINDS:        # every operation on every name once
        for a in NAMES:
            if op == "glob" or (op in ("rmall",) and a == ""):
                continue
            for b in ([rng.choice(NAMES) for _ in range(2)] + [a] if op in ("rename", "copy", "move") else [h(rng.choice(data))]):
                hist.append([(op, a, b)])
    for g in GLOBS:
        hist.append([("glob", g, "")])
    hist.append([("write", "big", h(os.urandom(40000))), ("copy", "big", "big2"), ("append", "big2", h(b"tail")), ("read", "big2", ""), ("move", "big2", "d1/big"), ("readb", "d1/big", "")])
    for n in (1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 30000):
        blob = bytes((i * 7 + i // 251) & 255 for i in range(n))
        hist.append([("write", "s", h(blob)), ("read", "s", ""), ("readb", "s", ""), ("size", "s", ""), ("copy", "s", "s2"), ("readb", "s2", ""), ("appendb", "s2", h(blob)), ("read", "s2", ""), ("lines", "s2", ""), ("write", "s2", h(b"short")), ("read", "s2", "")])
    for t in (b"", b"\n", b"a", b"a\n", b"a\n\n", b"\r\n", b"a\r\n\r\nb\r\n", b"\ra\r\r\nb", b"a\x00b\nc", b"x" * 5000 + b"\n" + b"y" * 5000):
        hist.append([("write", "t", h(t)), ("lines", "t", "")])

    def one(job):
        i, ops = job
        v = "asan" if i % 10 == c.seed % 10 else "plain"
        A, B = f"{c.work}/hA{i}", f"{c.work}/hB{i}"
        setup(A)
        setup(B)
        r = execute(v, A, ops)
        m = Model(B + "/w")
        want = [m.step(*o) for o in ops]
        sa, sb = snapshot(A), snapshot(B)
        shutil.rmtree(A, ignore_errors=True)
        shutil.rmtree(B, ignore_errors=True)
        return i, v, ops, r, want, sa, sb
    for i, v, ops, r, want, sa, sb in pmap(one, list(enumerate(hist))):
        for o in ops:
            c.seen("operations", o[0])
        c.case(("history", repr(ops)))
        c.count("operations_compared", len(ops))
        got = lines_of(r)
        if r.timeout or r.sanitizer or r.rc != 0 or got != want:
            j = next((j for j in range(max(len(got), len(want))) if j >= len(got) or j >= len(want) or got[j] != want[j]), 0)
            op = ops[j] if j < len(ops) else ops[-1]
            fail("history " + op[0], f"step {j} {op!r:.120}: expected {want[j] if j < len(want) else None!r:.160}, observed {got[j] if j < len(got) else outcome(r)!r:.300} ({v})", ops[:j + 1], r)
        elif sa != sb:
            diff = [k for k in sorted(set(sa) | set(sb)) if sa.get(k) != sb.get(k)]
            fail("effect " + ops[-1][0], f"after {[o[:2] for o in ops]!r:.200} the trees differ at {diff[:5]}: expected {str(sb.get(diff[0]))[:80]}, observed {str(sa.get(diff[0]))[:80]} ({v})", ops, r)
        else:
            c.count("trees_equal")
            if len(c.samples) < 8 and len(ops) > 3:
                c.sample(f"history {[o[:2] for o in ops]} -> {want}"[:300])

    # --- special files and permissions
    def special(group, ops, want, prep=None, after=None, **kw):
        root = fresh()
        setup(root)
        if prep:
            prep(root + "/w")
        r = execute("plain", root, ops, **kw)
        c.case((group, repr(ops) + repr(kw)[:60]))
        c.seen("operations", group)
        got = lines_of(r)
        if r.rc != 0 or r.timeout or (got != want if isinstance(want, list) else not want(got)):
            fail(group, f"{ops!r:.200}: expected {want if isinstance(want, list) else 'as specified'!r:.200}, observed {got!r:.300} {outcome(r) if r.rc else ''}", ops, r)
        elif after and not after(root):
            fail(group, f"{ops!r:.200}: wrong effect on the file system", ops, r)
        shutil.rmtree(root, ignore_errors=True)
    pv = open("/proc/version", "rb").read()
    special("read /proc", [("read", "/proc/version", ""), ("readb", "/proc/version", ""), ("lines", "/proc/version", "")], ["read ok " + h(pv), "readb ok " + h(pv), "lines ok <" + h(pv[:-1]) + ">"])
    special("read device", [("read", "/dev/null", ""), ("write", "/dev/null", h(b"x" * 100)), ("exists", "/dev/null", "")], ["read ok ", "write true", "exists true false false"])
    special("read stdin", [("read", "/dev/stdin", "")], ["read ok " + h(b"piped \x00 bytes" * 3000)], unpriv=False, stdin=b"piped \x00 bytes" * 3000)
    for op in ("write", "append", "writeb", "appendb"):
        for n in (1, 100, 4096, 100000 // 2):
            special("full device", [(op, "/dev/full", h(b"x" * n))], [f"{op} false"])
        special("full device, nothing to write", [(op, "/dev/full", "")], lambda g: g in ([f"{op} true"], [f"{op} false"]))
    special("full device", [("copy", "a", "/dev/full"), ("copy", "d1/a", "/dev/full")], ["copy false", "copy false"])

    def locked(w):
        os.chmod(w + "/a", 0)
        os.mkdir(w + "/noread")
        os.mkdir(w + "/ro")
        open(w + "/ro/f", "w").write("keep")
        os.mkdir(w + "/tree")
        os.mkdir(w + "/tree/closed")
        open(w + "/tree/closed/f", "w").write("keep")
        for x in ("noread", "tree/closed"):
            os.chmod(w + "/" + x, 0)
        os.chmod(w + "/ro", 0o555)
        os.chmod(w + "/tree", 0o777)
        for x in ("ro", "ro/f", "noread", "tree"):
            os.chown(w + "/" + x, 65534, 65534)
    keep = lambda root: open(root + "/w/ro/f").read() == "keep" and open(root + "/w/tree/closed/f").read() == "keep"
    if unpriv:
        special("permissions", [("read", "a", ""), ("readb", "a", ""), ("lines", "a", ""), ("write", "a", h(b"q")), ("append", "a", h(b"q")), ("copy", "a", "a2"), ("copy", "d1/a", "a"), ("exists", "a2", ""), ("list", "noread", ""), ("walk", "noread", ""), ("walk", "tree", ""), ("mkdir", "ro/x", ""), ("mkdirs", "ro/x/y", ""), ("write", "ro/g", h(b"z")), ("delete", "ro/f", ""), ("rename", "ro/f", "f"), ("move", "ro/f", "f"), ("exists", "f", ""), ("rmall", "ro", ""), ("rmall", "tree", ""), ("size", "noread/x", "")],
            ["read err 0", "readb err 0", "lines err 0", "write false", "append false", "copy false", "copy false", "exists false false false", "list err 0", "walk err 0", "walk err 0", "mkdir false", "mkdirs false", "write false", "delete false", "rename false", "move false", "exists false false false", "rmall false", "rmall false", "size err -1"], prep=locked, after=keep)
    # --- a file-size limit in the middle of a write
    for op in ("write", "append", "writeb", "appendb"):
        for n in (999, 1000, 1001, 5000, 20000):
            special("file size limit", [(op, "new", h(b"m" * n))], [f"{op} " + ("true" if n <= 1000 else "false")], limit_fsize=1000, after=lambda root, n=n: n > 1000 or open(root + "/w/new", "rb").read() == b"m" * n)
    special("file size limit", [("write", "new", h(b"m" * 900)), ("append", "new", h(b"n" * 200)), ("append", "d1/a", h(b"n" * 800))], ["write true", "append false", "append false"], limit_fsize=1000)

    def bigsrc(w):
        open(w + "/bigsrc", "wb").write(b"m" * 30000)
        os.chown(w + "/bigsrc", 65534, 65534)
    special("file size limit", [("copy", "bigsrc", "bigdst")], ["copy false"], prep=bigsrc, limit_fsize=10000, after=lambda root: open(root + "/w/bigsrc", "rb").read() == b"m" * 30000)
    # --- temporary files vanish however the program ends
    for n in (1, 3, c.scale(150, 400)):
        for end in ([], [("exit", "3", "")], [("panic", "", "")]):
            root = fresh()
            setup(root)
            r = execute("plain", root, [("temps", str(n), "")] + end)
            rows = [x.split() for x in r.text.split("\n") if x[:2] in ("F ", "D ")]
            paths = [bytes.fromhex(x[1]).decode() for x in rows]
            ok = len(rows) == 2 * n and len(set(paths)) == 2 * n and all(x[2:] == (["true", "true", f"x{i // 2}"] if x[0] == "F" else ["true", "true", "true"]) for i, x in enumerate(rows))
            left = [x for x in paths if os.path.lexists(x)]
            c.case(("temp files", f"{n} {end}"))
            c.count("temporary_paths", len(paths))
            for x in left:
                if x.startswith("/tmp/gray_"):
                    shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.unlink(x)
            if not ok:
                fail("temp files", f"{n} temporary files and directories are not all usable and distinct: {outcome(r)[:300]}", [("temps", n)] + end, r)
            elif left:
                fail("temp files", f"{len(left)} of {2 * n} temporary paths remain after the program ended ({end or 'return'}): {left[:3]}", [("temps", n)] + end, r)
            shutil.rmtree(root, ignore_errors=True)
    # a link inside a temporary directory must not lead the clean-up outside
    root = fresh()
    setup(root)
    src = 'import @io, @os\ndo main() {\n mut d, e = io.temp_dir()\n mut c, o, x, ok = os.exec("ln", {"-s", os.args()[1], io.path_join({d, "link"})})\n mut k, ke = io.make_dir(io.path_join({d, "sub"}))\n println("${c} ${k}")\n println(d)\n}\n'
    b, r = Gray(c, "plain").compile(src, name="tmplink", flags=["-q"])
    if not b:
        c.violation("the temp-dir program does not compile: " + r.etext[:300], {"main.gray": src}, r.brief())
    else:
        os.chmod(os.path.dirname(b), 0o755)
        os.chmod(b, 0o755)
        r = run([b, root + "/out"], cwd=root + "/w", env=SAN_ENV, unpriv=unpriv)
        c.case(("temp dir with link", ""))
        d = r.text.strip().split("\n")[-1]
        if not r.text.startswith("0 true\n") or not os.path.exists(root + "/out/keep/s") or not os.path.exists(root + "/out/t") or os.path.lexists(d):
            fail("temp dir with link", f"clean-up of a temporary directory holding a link: sentinel kept={os.path.exists(root + '/out/keep/s')}, directory removed={not os.path.lexists(d)}; {outcome(r)[:200]}", [], r)
    shutil.rmtree(root, ignore_errors=True)

    # --- failing calls: success reported means the effect is complete
    EIO, ENOSPC, EXDEV, EINTR, EACCES, EMFILE = 5, 28, 18, 4, 13, 24
    blob = bytes((i * 5) & 255 for i in range(9000))
    T = []      # (ops while armed, functions to fail, judge(before, after, lines) -> bool)
    ident = lambda s, keys: {k: v for k, v in s.items() if k not in keys}

    def wr(op, name, final):
        def j(s0, s1, L):
            rest = ident(s0, {name}) == ident(s1, {name})
            return rest and (L[0] == f"{op} false" or L[0] == f"{op} true" and s1.get(name) == ("file", final))
        return j
    for op in ("write", "writeb"):
        T.append(([(op, "a", h(blob))], ("fopen", "fwrite", "fclose", "open", "write", "fdopen", "stat", "fstat"), wr(op, "w/a", blob)))
        T.append(([(op, "newf", h(b"tiny"))], ("fopen", "fwrite", "fclose"), wr(op, "w/newf", b"tiny")))
    for op in ("append", "appendb"):
        T.append(([(op, "a", h(blob))], ("fopen", "fwrite", "fclose", "open", "fdopen"), wr(op, "w/a", b"first\nsecond\r\nthird" + blob)))

    def rd(s0, s1, L):
        return s0 == s1 and (L[0].split()[1:] == ["err", "0"] or L[0].startswith("read") and L[0].split()[1:] == ["ok", h(bytes(range(256)))])
    for op in ("read", "readb"):
        T.append(([(op, "d1/a", "")], ("fopen", "fread", "fseek", "stat", "fstat", "open", "read"), rd))
    T.append(([("lines", "a", "")], ("fopen", "fread", "fseek"), lambda s0, s1, L: s0 == s1 and L[0] in ("lines err 0", f"lines ok <{h(b'first')}> <{h(b'second')}> <{h(b'third')}>")))

    def cp(s0, s1, L):
        return ident(s0, {"w/cp"}) == ident(s1, {"w/cp"}) and (L[0] == "copy false" or s1.get("w/cp") == s0["w/d1/a"])
    T.append(([("copy", "d1/a", "cp")], ("fopen", "fread", "fwrite", "fclose", "open", "fdopen", "stat"), cp))

    def mv(s0, s1, L):
        return ident(s0, {"w/a", "w/mv"}) == ident(s1, {"w/a", "w/mv"}) and (
            L[0] == "move true" and s1.get("w/mv") == s0["w/a"] and "w/a" not in s1 or L[0] == "move false" and s1.get("w/a") == s0["w/a"])
    T.append(([("move", "a", "mv")], ("rename",), mv))
    for extra in ("fopen", "fread", "fwrite", "fclose", "open", "fdopen", "unlink"):
        T.append(([("move", "a", "mv")], ("rename:1:18," + extra,), mv))

    def gone(op, name):
        return lambda s0, s1, L: ident(s0, {name}) == ident(s1, {name}) and (L[0] == f"{op} true" and name not in s1 or L[0] == f"{op} false" and s0.get(name) == s1.get(name))
    T.append(([("delete", "a", "")], ("unlink",), gone("delete", "w/a")))
    T.append(([("rmdir", "d2", "")], ("rmdir",), gone("rmdir", "w/d2")))
    T.append(([("rename", "a", "r2")], ("rename",), lambda s0, s1, L: L[0] == "rename false" and s0 == s1 or L[0] == "rename true" and s1.get("w/r2") == s0["w/a"] and "w/a" not in s1))
    T.append(([("mkdir", "k", "")], ("mkdir",), lambda s0, s1, L: L[0] == "mkdir false" and s0 == s1 or L[0] == "mkdir true" and s1.get("w/k") == ("dir",)))
    T.append(([("mkdirs", "k/l/m", "")], ("mkdir",), lambda s0, s1, L: L[0] == "mkdirs true" and s1.get("w/k/l/m") == ("dir",) or L[0] == "mkdirs false"))
    T.append(([("rmall", "d1", "")], ("opendir", "readdir", "unlink", "rmdir", "lstat"), lambda s0, s1, L: (L[0] == "rmall true" and not any(k == "w/d1" or k.startswith("w/d1/") for k in s1) or L[0] == "rmall false") and {k: v for k, v in s0.items() if not k.startswith("w/d1")} == {k: v for k, v in s1.items() if not k.startswith("w/d1")}))
    lst = Model("")
    T.append(([("list", "d1", "")], ("opendir", "readdir"), lambda s0, s1, L: s0 == s1 and L[0] in ("list err 0", lst.names("list", ["a", "in", "up"]))))
    T.append(([("walk", "d1", "")], ("opendir", "readdir"), lambda s0, s1, L: s0 == s1 and L[0] in ("walk err 0", lst.names("walk", ["a", "in", "up", "in/deep", "in/z", "in/esc"]))))
    jobs = []
    for ops, fns, j in T:
        for fn in fns:
            pre, f = fn.rsplit(",", 1) if "," in fn else ("", fn)
            for nth in range(1, c.scale(5, 12)):
                for e in ((EIO, EXDEV) if f == "rename" else (EIO,) if not c.thorough else (EIO, ENOSPC, EACCES, EMFILE)):
                    jobs.append((ops, (pre + "," if pre else "") + f"{f}:{nth}:{e}", j))

    def fault(job):
        i, (ops, spec, j) = job
        root = f"{c.work}/f{i}"
        setup(root)
        s0 = snapshot(root)
        log = root + "/log"
        r = execute("plain", root, [("arm", "", "")] + ops + [("disarm", "", "")], env={"LD_PRELOAD": fso, "FAULT": spec, "FAULT_LOG": log})
        fired = open(log).read().split() if os.path.exists(log) else []
        if fired:
            os.unlink(log)
        s1 = snapshot(root)
        shutil.rmtree(root, ignore_errors=True)
        return ops, spec, j, r, fired, s0, s1
    os.chmod(c.work, 0o711)
    for ops, spec, j, r, fired, s0, s1 in pmap(fault, list(enumerate(jobs))):
        c.case(("fault", ops[0][0] + " " + spec), bool(fired))
        c.count("faults_injected", len(fired))
        for f in fired:
            c.seen("fault_points", ops[0][0] + " " + f)
        L = lines_of(r)
        if r.timeout or r.rc != 0 or len(L) != len(ops) or not j(s0, s1, L):
            fail(f"fault in {ops[0][0]}", f"with {spec} (fired {fired}): reported {L!r:.200}{'' if r.rc == 0 else ' ' + outcome(r)[:200]} but the effect is not that", ops, r, "FAULT=" + spec)


if __name__ == "__main__":
    main(check, "C24", "io calls run as an unprivileged user in scratch trees: random and exhaustive histories are compared with the operating system's own behaviour in a twin tree, and faults injected into libc calls, file-size limits and full devices must never yield a reported success without its whole effect.")
