#!/usr/bin/env python3
"""C39: compiler extraction and concurrent builds do not interfere.

Processes of the real command start together on an empty, a damaged or a
half-extracted home, are killed while extracting, and build programs of the
same name at the same time.  The monitor compares the extracted tree with what
the binary carries, each product with its own source, and the files left."""
import glob
import hashlib
import os
import shutil
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build_cli, go_env, main, pmap, run, clean_env  # noqa: E402


def prog(word):
    return 'do main() {\n    println("%s")\n}\n' % word


def tree(top):
    out = {}
    for base, _, names in os.walk(top):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, top)] = hashlib.sha256(f.read()).hexdigest()
    return out


def carried(root):
    """What the binary built in root has to extract."""
    t = tree(os.path.join(root, "internal/grayc/runtime"))
    return {k: v for k, v in t.items() if k in ("grayc", "libgrayrt.a") or k.startswith("src/")}


def check(c):
    root = build_cli()
    gray = os.path.join(root, "gray")
    rng = c.rng
    want = carried(root)
    c.count("files carried", len(want))

    def env_of(home, extra=None):
        e = clean_env({"HOME": home, "NO_COLOR": "1"})
        e.update(extra or {})
        return e

    def dirs_of(home):
        return sorted(glob.glob(os.path.join(home, ".gray", "runtime", "*")))

    def judge(home, what, binaries=((gray, want),), leftovers=False):
        """The extracted trees are complete and there is one for each binary."""
        have = dirs_of(home)
        if len(have) != len(binaries):
            c.violation("%s: %d extracted compilers for %d versions" % (what, len(have), len(binaries)), {}, repr(have))
            return
        for _, need in binaries:
            ok = None
            for d in have:
                t = tree(d)
                if all(t.get(k) == v for k, v in need.items()):
                    ok = d
                    extra = sorted(set(t) - set(need))
                    if extra and not leftovers:
                        c.violation("%s: files left in the extracted compiler" % what, {}, repr(extra[:8]))
                    if not os.access(os.path.join(d, "grayc"), os.X_OK):
                        c.violation("%s: the extracted compiler cannot be executed" % what, {}, d)
            if not ok:
                diff = {d: sorted(k for k, v in need.items() if tree(d).get(k) != v)[:6] for d in have}
                c.violation("%s: no extracted compiler is the one the binary carries" % what, {}, repr(diff))

    def crowd(home, jobs, what, extra=None):
        """Starts all jobs (binary, args, cwd, expected output or None) together."""
        ps = []
        for b, args, cwd, exp in jobs:
            ps.append((subprocess.Popen([b] + args, cwd=cwd, env=env_of(home, extra), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE), args, exp))
        for p, args, exp in ps:
            try:
                out, err = p.communicate(timeout=240)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                err += b"(timeout)"
            c.count("processes")
            if p.returncode != 0 or (exp is not None and out != exp):
                c.violation("%s: one of %d processes at the same time fails or gives another program's result" % (what, len(jobs)), {}, "%s\nstatus %s\n%r\n%r\nwanted %r" % (args, p.returncode, out[-800:], err[-1500:], exp))

    def folders(tag, n, name="main.gray"):
        res = []
        for i in range(n):
            d = os.path.join(c.work, "%s-%d" % (tag, i))
            os.makedirs(d)
            word = "%s %d %d" % (tag, i, rng.randrange(10 ** 9))
            with open(os.path.join(d, name), "w") as f:
                f.write(prog(word))
            res.append((d, word))
        return res

    mark = "c39x%d" % os.getpid()

    def stray():
        return sorted(p for p in glob.glob("/tmp/gray_*") if mark in p or p.startswith("/tmp/gray_run_"))

    before = set(glob.glob("/tmp/gray_*"))
    # first use by a crowd, running and building programs of the same name
    for k in range(c.scale(5, 40)):
        home = os.path.join(c.work, "h%d" % k)
        os.makedirs(home)
        fs = folders("first%d" % k, 12, mark + ".gray")
        jobs = []
        for i, (d, word) in enumerate(fs):
            if i % 3 == 0:
                jobs.append((gray, [mark + ".gray"], d, (word + "\n").encode()))
            elif i % 3 == 1:
                jobs.append((gray, ["build", mark + ".gray"], d, None))
            else:
                jobs.append((gray, ["check", mark + ".gray"], d, None))
        crowd(home, jobs, "first use")
        c.case("first use|%d" % k)
        judge(home, "first use by %d processes" % len(jobs))
        for i, (d, word) in enumerate(fs):
            if i % 3 == 1:
                r = run([os.path.join(d, mark)], timeout=20, env=env_of(home))
                if r.out != (word + "\n").encode():
                    c.violation("a program built beside others of its name is another one", {}, "%s wanted %s" % (r.brief(), word))
            if sorted(os.listdir(d)) != sorted([mark + ".gray"] + ([mark] if i % 3 == 1 else [])):
                c.violation("a build leaves other files beside the source", {}, repr(os.listdir(d)))
    home = os.path.join(c.work, "h0")

    # builds of the same name at the same time, warm, with -o into another folder, --emit-c, and refused programs
    for k in range(c.scale(4, 40)):
        fs = folders("warm%d" % k, 16, mark + ".gray")
        jobs = []
        for i, (d, word) in enumerate(fs):
            jobs.append((gray, ["build", mark + ".gray"] if i % 2 else ["build", mark + ".gray", "--emit-c"], d, None))
        crowd(home, jobs, "builds of the same name")
        c.case("same name|%d" % k)
        for i, (d, word) in enumerate(fs):
            if i % 2:
                r = run([os.path.join(d, mark)], timeout=20, env=env_of(home))
                if r.out != (word + "\n").encode():
                    c.violation("a program built beside others of its name is another one", {}, "%s wanted %s" % (r.brief(), word))
            else:
                with open(os.path.join(d, mark + ".c")) as f:
                    if '"%s' % word not in f.read():
                        c.violation("C emitted beside others of its name is another program's", {}, word)
    bad = folders("bad", 1, mark + ".gray")[0][0]
    with open(os.path.join(bad, mark + ".gray"), "w") as f:
        f.write("do main() { mut x int = \"s\" }\n")
    for args in (["build", mark + ".gray"], [mark + ".gray"], ["check", mark + ".gray"], ["build", mark + ".gray", "--emit-c"]):
        r = run([gray] + args, timeout=60, env=env_of(home), cwd=bad)
        c.case("refused|" + args[0])
        if r.rc == 0 or os.listdir(bad) != [mark + ".gray"]:
            c.violation("a refused build leaves files", {}, repr(os.listdir(bad)))
    left = [p for p in glob.glob("/tmp/gray_*") if p not in before and (mark in p)]
    if left:
        c.violation("builds leave files in the temporary folder", {}, repr(left[:6]))

    # damaged extractions are not used
    base = dirs_of(home)[0]
    names = sorted(want)
    heavy = ["grayc", "libgrayrt.a", "src/runtime/runtime.h"]
    for k in range(c.scale(26, 200)):
        h = os.path.join(c.work, "d%d" % k)
        os.makedirs(os.path.join(h, ".gray", "runtime"))
        dst = os.path.join(h, ".gray", "runtime", os.path.basename(base))
        shutil.copytree(base, dst)
        victim = heavy[k % 3] if k < 18 else rng.choice(names)
        p = os.path.join(dst, victim)
        with open(p, "rb") as f:
            data = f.read()
        how = ("truncated", "flipped", "removed", "emptied", "longer", "zeroed")[(k // 3) % 6 if k < 18 else rng.randrange(6)]
        if how == "removed":
            os.unlink(p)
        else:
            i = rng.randrange(len(data)) if data else 0
            new = {"truncated": data[:i], "flipped": data[:i] + bytes([data[i] ^ 0x55]) + data[i + 1:] if data else b"", "emptied": b"", "longer": data + b"#error x\n", "zeroed": b"\0" * len(data)}[how]
            with open(p, "wb") as f:
                f.write(new)
        d, word = folders("dam%d" % k, 1)[0]
        r = run([gray, "main.gray"], timeout=120, env=env_of(h), cwd=d)
        c.case("damaged|%s|%s" % (how, victim))
        if r.rc != 0 or r.out != (word + "\n").encode():
            c.violation("with %s %s in the extracted compiler a program does not run" % (how, victim), {}, r.brief())
        judge(h, "after %s was %s" % (victim, how))
        shutil.rmtree(h)
    h = os.path.join(c.work, "noexec")
    shutil.copytree(os.path.join(c.work, "h0"), h)
    os.chmod(os.path.join(dirs_of(h)[0], "grayc"), 0o644)
    d, word = folders("noexec", 1)[0]
    r = run([gray, "main.gray"], timeout=120, env=env_of(h), cwd=d)
    c.case("damaged|not executable")
    if r.out != (word + "\n").encode():
        c.violation("an extracted compiler that lost its permission is used", {}, r.brief())

    # killed while extracting; then used by several processes
    for k in range(c.scale(24, 300)):
        h = os.path.join(c.work, "k%d" % k)
        os.makedirs(h)
        d, word = folders("kill%d" % k, 1)[0]
        for _ in range(1 + k % 2):
            p = subprocess.Popen([gray, "check", "main.gray"], cwd=d, env=env_of(h), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            time.sleep(0.001 + rng.random() * 0.009)
            p.send_signal(signal.SIGKILL)
            p.wait()
        n = sum(len(tree(x)) for x in dirs_of(h))
        c.seen("files extracted when killed", n)
        crowd(h, [(gray, ["main.gray"], d, (word + "\n").encode()) for _ in range(3)], "after a kill")
        c.case("killed|%s" % ("none" if n == 0 else "all" if n >= len(want) else "part"))
        judge(h, "after a kill", leftovers=True)
        shutil.rmtree(h)

    # a disk that fills up while extracting: reported or used whole
    for limit in (1000, 100000, 300000, 1500000):
        h = os.path.join(c.work, "full%d" % limit)
        os.makedirs(h)
        d, word = folders("full%d" % limit, 1)[0]
        r = run([gray, "check", "main.gray"], timeout=60, env=env_of(h), cwd=d, limit_fsize=limit)
        c.case("full|%d|%s" % (limit, r.rc == 0))
        r2 = run([gray, "main.gray"], timeout=60, env=env_of(h), cwd=d)
        if r2.out != (word + "\n").encode():
            c.violation("after a failed extraction programs do not run", {}, r.brief() + r2.brief())
        judge(h, "after a failed extraction")
        shutil.rmtree(h)

    # an upgrade that changes nothing but a header: each version uses its own
    root2 = os.path.join(c.work, "v2")
    shutil.copytree(root, root2, symlinks=True)
    for hd in ("internal/grayc/runtime/src/runtime/runtime.h", "internal/grayc/runtime/src/stdlib/strings.h"):
        with open(os.path.join(root2, hd), "a") as f:
            f.write("\n#define GRAY_SECOND_VERSION 1\n")
    gray2 = os.path.join(root2, "gray")
    r = run(["go", "build", "-o", gray2, "./cli"], timeout=600, env=go_env({"PATH": os.environ.get("PATH", ""), "HOME": "/root"}), cwd=root2)
    if r.rc != 0:
        raise RuntimeError("second version: " + r.brief())
    want2 = carried(root2)
    for k in range(c.scale(3, 25)):
        h = os.path.join(c.work, "u%d" % k)
        os.makedirs(h)
        fs = folders("up%d" % k, 10, mark + ".gray")
        if k % 3 == 1:
            run([gray, "check", mark + ".gray"], timeout=60, env=env_of(h), cwd=fs[0][0])
        elif k % 3 == 2:
            run([gray2, "check", mark + ".gray"], timeout=60, env=env_of(h), cwd=fs[0][0])
        crowd(h, [((gray, gray2)[i % 2], [mark + ".gray"], d, (word + "\n").encode()) for i, (d, word) in enumerate(fs)], "two versions")
        c.case("upgrade|%d" % k)
        judge(h, "two versions", ((gray, want), (gray2, want2)))
        for b, need in ((gray, want), (gray2, want2)):
            r = run([b, "build", mark + ".gray", "-o", "v", "-v"], timeout=60, env=env_of(h), cwd=fs[0][0])
            at = [x.split("'")[1] for x in r.etext.split("-isystem ")[1:2]] if "-isystem '" in r.etext else []
            used = os.path.join(at[0], "..") if at else None
            if r.rc != 0 or not used or tree(used).get("src/runtime/runtime.h") != need["src/runtime/runtime.h"]:
                c.violation("a version of gray uses another version's runtime headers", {}, "%s\n%s" % (used, r.brief()))
        shutil.rmtree(h)


if __name__ == "__main__":
    main(check, "C39", "every process at the same time gets its own program's result, extracted compilers are those the binaries carry, and nothing is left behind")
