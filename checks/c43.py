#!/usr/bin/env python3
"""C43: same source and input, same bytes out.

Every source is compiled in several worlds that differ in folder, environment,
locale, time zone, heap contents and creation order of its files; the monitor
compares the C emitted and the diagnostics byte for byte.  Deterministic
programs run in such worlds must give the same output."""
import glob
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build, main, pmap, run, clean_env, REPO  # noqa: E402
from progen import Gen  # noqa: E402

WORLDS = [
    {}, {"MALLOC_PERTURB_": "165"}, {"MALLOC_PERTURB_": "90", "LANG": "de_DE.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "Asia/Tokyo"}, {"LC_ALL": "POSIX", "TZ": "America/New_York", "PAD": "x" * 30000, "HOME": "/nonexistent", "TERM": "xterm-256color", "COLUMNS": "20"}, {"MALLOC_ARENA_": "1", "MALLOC_TOP_PAD_": "1000000", "MALLOC_MMAP_THRESHOLD_": "1000", "TMPDIR": "/nonexistent", "USER": "other"},
]
UNSURE = re.compile(rb"@(random|time|uuid|threads|os|channels|sync|atomic|net|http|server|crypto|mem|io)\b|addr\(|new\(|here\(|\bref\(|import c\"|sleep_")


def check(c):
    tree = build("plain")
    rng = c.rng
    corpus = sorted(glob.glob(os.path.join(REPO, "integration-tests", "**", "*.gray"), recursive=True))
    worlds = []
    for i, w in enumerate(WORLDS):
        d = os.path.join(c.work, "w%d" % i + "/deeper" * i)
        os.makedirs(d)
        worlds.append((d, clean_env(dict({"NO_COLOR": "1"}, **w))))
    # the repository's own sources, each with the files around it, copied in different orders
    roots = sorted(os.listdir(os.path.join(REPO, "integration-tests")))
    for i, (d, _) in enumerate(worlds):
        names = [p for p in corpus]
        random.Random(i).shuffle(names)
        extra = [p for p in glob.glob(os.path.join(REPO, "integration-tests", "**", "*"), recursive=True) if os.path.isfile(p) and not p.endswith((".gray", ".sh")) and os.path.getsize(p) < 200000]
        for p in names + extra:
            q = os.path.join(d, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
    rel = [os.path.relpath(p, REPO) for p in corpus]
    gen = []
    for k in range(c.scale(60, 900)):
        r = Gen(random.Random("c43:%d:%d" % (c.seed, k))).program()
        if not r:
            continue
        name = "gen%d.gray" % k
        for d, _ in worlds:
            with open(os.path.join(d, name), "wb" if isinstance(r[0], bytes) else "w") as f:
                f.write(r[0])
        gen.append(name)
    if not c.thorough:
        rel = [p for i, p in enumerate(rel) if i % 2 == c.seed % 2]
    rel += gen

    def compiled(item):
        i, name = item
        outs = []
        for d, env in worlds:
            out = "out%d.c" % i
            r = run([tree.grayc, "build", name, "-c", "-o", out, "--no-color"], timeout=60, env=env, cwd=d)
            p = os.path.join(d, out)
            text = b""
            if os.path.exists(p):
                with open(p, "rb") as f:
                    text = f.read()
                os.unlink(p)
            outs.append((r.rc, r.out, r.err, text))
        return name, outs

    for name, outs in pmap(compiled, list(enumerate(rel))):
        c.case("compile|%s|%s" % ("generated" if name in gen else name, outs[0][0]))
        c.count("bytes of C compared", len(outs[0][3]))
        for i, o in enumerate(outs[1:], 1):
            for what, a, b in (("status", outs[0][0], o[0]), ("output", outs[0][1], o[1]), ("diagnostics", outs[0][2], o[2]), ("C", outs[0][3], o[3])):
                if a != b:
                    with open(os.path.join(worlds[0][0], name), "rb") as f:
                        src = f.read()
                    line = ""
                    if isinstance(a, bytes):
                        for x, y in zip(a.split(b"\n"), b.split(b"\n")):
                            if x != y:
                                line = "%r\n%r" % (x[:300], y[:300])
                                break
                    c.violation("the %s for %s differs in another world (%d)" % (what, name, i), {"main.gray": src}, "%r\n%s" % (WORLDS[i], line), known=c.known_cell("compile|" + name))
                    break

    # running
    runs = []
    for name in rel:
        with open(os.path.join(worlds[0][0], name), "rb") as f:
            b = f.read()
        if name in gen or ("/pass/" in name and not UNSURE.search(b) and b"do main" in b and b"input(" not in b):
            runs.append(name)
    runs = [n for i, n in enumerate(sorted(runs)) if c.thorough or i % 4 == 0]

    def ran(item):
        i, name = item
        d = worlds[0][0]
        binp = os.path.join(c.work, "b%d" % i)
        r = run([tree.grayc, "build", name, "-o", binp, "-q"], timeout=120, env=worlds[0][1], cwd=d)
        if not os.path.exists(binp):
            return name, None
        outs = []
        for j, (d, env) in enumerate(worlds):
            x = run([binp], timeout=40, env=env, cwd=d)
            outs.append((x.rc, x.out, x.err))
        os.unlink(binp)
        return name, outs

    for name, outs in pmap(ran, list(enumerate(runs))):
        if outs is None:
            c.count("not built")
            continue
        c.case("run|%s" % ("generated" if name in gen else name))
        if any(o != outs[0] for o in outs):
            i = [k for k, o in enumerate(outs) if o != outs[0]][0]
            with open(os.path.join(worlds[0][0], name), "rb") as f:
                src = f.read()
            c.violation("the program %s gives other output in another world (%d)" % (name, i), {"main.gray": src}, "%r\n%r\n%r" % (WORLDS[i], outs[0], outs[i]), known=c.known_cell("run|" + name))


if __name__ == "__main__":
    main(check, "C43", "C, diagnostics and program output are the same bytes in every folder, environment, locale, time zone and heap state")
