"""Shared machinery: builds /repo's working tree in several instrumented
variants, compiles and runs Grayscale programs, collects observations and
writes evidence.  Python standard library only."""
import atexit, concurrent.futures.thread, fcntl, hashlib, json, os, random, re, shutil
import resource, signal, subprocess, sys, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
NCPU = min(8, os.cpu_count() or 4)
NO_SQLITE_MK = os.path.join(VERIF, "lib", "no-sqlite.mk")

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=1:"
                    "symbolize=1:print_summary=1:color=never",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98:color=never",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=0:history_size=4:color=never",
}
SAN_RE = re.compile(r"(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|"
                    r"ERROR: LeakSanitizer|ERROR: ThreadSanitizer|UndefinedBehaviorSanitizer)")


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CC", "CFLAGS", "MAKEFILES", "GRAY_RUNTIME",
                        "GRAY_COMPILER_PATH", "NO_COLOR")}
    env["LANG"] = env["LC_ALL"] = "C.UTF-8"
    env.setdefault("HOME", "/root")
    if extra:
        env.update(extra)
    return env


# --------------------------------------------------------------------------
# Running processes

class Result:
    __slots__ = ("rc", "out", "err", "timeout", "cmd", "maxrss")

    def __init__(self, rc, out, err, timeout, cmd, maxrss=0):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd
        self.maxrss = maxrss

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")

    @property
    def etext(self):
        return self.err.decode("utf-8", "replace")

    @property
    def sanitizer(self):
        t = self.etext + self.text
        m = SAN_RE.search(t)
        return t[max(0, m.start() - 200):m.start() + 2500] if m else None

    @property
    def panic(self):
        m = re.search(r"panic\[(P\d{4})\]", self.etext)
        if m:
            return m.group(1)
        return "P????" if re.search(r"^panic\b", self.etext, re.M) else None

    @property
    def crashed(self):
        return self.rc is not None and (self.rc < 0 or self.rc >= 126)

    def brief(self):
        return {"cmd": self.cmd if isinstance(self.cmd, str) else " ".join(map(str, self.cmd)),
                "rc": self.rc, "timeout": self.timeout,
                "stdout": self.text[-3000:], "stderr": self.etext[-3000:]}


def run(cmd, cwd=None, env=None, stdin=b"", timeout=60, limit_as=None, raw_env=None, unpriv=False, limit_fsize=None):
    """Runs a command; kills its whole process group on timeout."""
    e = raw_env if raw_env is not None else clean_env(env)

    def pre():
        os.setsid()
        if limit_fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit_fsize, limit_fsize))
        if unpriv:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    if isinstance(stdin, str):
        stdin = stdin.encode()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Result(p.returncode, out, err, False, cmd)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Result(None, out, err, True, cmd)


def pmap(fn, items, workers=NCPU):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def _runner():
    src = os.path.join(VERIF, "lib", "runner.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(CACHE, f"runner-{h}")
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = f"{exe}.{os.getpid()}"
        subprocess.run(["cc", "-O2", "-w", "-o", tmp, src], check=True, env=clean_env())
        os.replace(tmp, exe)
    return exe


def _bytes(x):
    return x if isinstance(x, bytes) else os.fsencode(str(x))


def run_batch(jobs, cwd=None, env=None, timeout=60, workers=NCPU, san=True):
    """jobs: (cmd list) or (cmd list, stdin bytes).  Returns Results in order; much faster than run() for
    thousands of short processes.  Children share cwd and environment."""
    jobs = [(j, b"") if isinstance(j, list) else j for j in jobs]
    if not jobs:
        return []
    buf = []
    for cmd, sin in jobs:
        sin = _bytes(sin)
        buf.append(b"%d %d\n" % (len(cmd), len(sin)))
        for a in cmd:
            a = _bytes(a)
            buf.append(b"%d\n" % len(a))
            buf.append(a)
        buf.append(sin)
        buf.append(b"\n")
    e = clean_env({**(SAN_ENV if san else {}), **(env or {})})
    p = subprocess.run([_runner(), str(workers), str(timeout)], input=b"".join(buf), stdout=subprocess.PIPE,
                       cwd=cwd or "/tmp", env=e)
    o, i, res = p.stdout, 0, [None] * len(jobs)
    while i < len(o):
        j = o.index(b"\n", i)
        k, st, to, ol, el = map(int, o[i:j].split())
        i = j + 1
        res[k] = Result(None if to else st, o[i:i + ol], o[i + ol:i + ol + el], bool(to), jobs[k][0])
        i += ol + el
    if any(r is None for r in res):
        raise RuntimeError("runner lost results")
    return res


# --------------------------------------------------------------------------
# Building the tree under test

def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        root = os.path.join(REPO, root)
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn[:] = sorted(x for x in dn if x not in (".git",))
                files += [os.path.join(d, f) for f in fn]
        for f in sorted(files):
            if f.endswith((".o", ".d", ".a")) or os.path.basename(f) in ("grayc", "gray"):
                continue
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()[:20]


COMMON_RT = "-std=c11 -D_POSIX_C_SOURCE=200809L -Wno-unused-parameter"
VARIANTS = {
    # name: (compiler CFLAGS or None, runtime CFLAGS or None, extra flags for generated programs)
    "plain": ("-O1", "-O2", ""),
    "asan": (None, "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                   "-fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined -DGRAY_VERIF -DGRAY_VERIF_ASAN",
             "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined"),
    "count": (None, "-O2 -DGRAY_VERIF", ""),
    "tsan": (None, "-O1 -g -fno-omit-frame-pointer -fsanitize=thread", "-O1 -g -fsanitize=thread"),
    "grayc-asan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                   "-fno-sanitize-recover=undefined", None, ""),
}


class Tree:
    """A built variant: .grayc (compiler), .rt (runtime dir), .bindir (cc wrapper)."""
    def __init__(self, root, variant):
        self.root, self.variant = root, variant
        self.grayc = os.path.join(root, "grayc")
        self.rt = os.path.join(root, "src")
        self.bindir = os.path.join(root, "bin")


def _prune_cache(keep):
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE)]
    except OSError:
        return
    ents = [e for e in ents if os.path.isdir(e) and e != keep and not e.endswith(".lock")]
    ents.sort(key=lambda e: os.path.getmtime(e))
    for e in ents[:-24]:
        shutil.rmtree(e, ignore_errors=True)


class BuildError(Exception):
    pass


def build(variant):
    cf, rf, pf = VARIANTS[variant]
    key = tree_hash(["grayc/src", "grayc/Makefile"], repr(VARIANTS[variant]) + variant + "3")
    root = os.path.join(CACHE, f"{variant}-{key}")
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, f"{variant}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(root, "ok")):
            os.utime(root)
            return Tree(root, variant)
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "grayc"), root, symlinks=True,
                        ignore=shutil.ignore_patterns("*.o", "*.d", "*.a", "tests"))
        for f in ("grayc", "libgrayrt.a"):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                os.unlink(p)
        env = clean_env({"MAKEFILES": NO_SQLITE_MK})
        cmds = []
        if cf is not None:
            flags = f'-std=c11 -D_POSIX_C_SOURCE=200809L -w -DGRAY_VERSION=\\"verif\\" {cf}'
            ld = "-lm " + (" ".join(x for x in cf.split() if x.startswith("-fsan")))
            cmds.append(["make", "-s", f"-j{NCPU}", "-C", root, f"CFLAGS={flags}", f"LDFLAGS={ld}", "grayc"])
        if rf is not None:
            cmds.append(["make", "-s", f"-j{NCPU}", "-C", root, f"RT_CFLAGS={COMMON_RT} -w {rf}", "libgrayrt.a"])
        for c in cmds:
            r = run(c, env=env, timeout=800)
            if r.rc != 0:
                raise BuildError(f"build {variant} failed: {r.brief()}")
        os.makedirs(os.path.join(root, "bin"), exist_ok=True)
        wrapper = os.path.join(root, "bin", "cc")
        with open(wrapper, "w") as f:
            f.write("#!/bin/sh\nexec /usr/bin/cc \"$@\" %s\n" % pf)
        os.chmod(wrapper, 0o755)
        open(os.path.join(root, "ok"), "w").close()
        _prune_cache(root)
    return Tree(root, variant)


def build_many(*variants):
    return pmap(build, variants)


def build_cli():
    """Builds the Go CLI `gray` with the embedded compiler from the working tree, in a scratch copy."""
    key = tree_hash(["grayc/src", "grayc/Makefile", "cli", "internal/grayc/embedded.go",
                     "internal/grayc/grayc.go", "Makefile", "go.mod", "go.sum"], "cli3")
    root = os.path.join(CACHE, f"cli-{key}")
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "cli.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(root, "ok")):
            shutil.rmtree(root, ignore_errors=True)
            shutil.copytree(REPO, root, symlinks=True,
                            ignore=lambda d, n: [x for x in n if x == ".git" or x.endswith((".o", ".d", ".a"))
                                                 or (d == REPO and x in ("integration-tests", "images", "gray"))])
            shutil.rmtree(os.path.join(root, "internal/grayc/runtime"), ignore_errors=True)
            for f in ("gray", "grayc/grayc"):
                p = os.path.join(root, f)
                if os.path.isfile(p):
                    os.unlink(p)
            env = go_env({"MAKEFILES": NO_SQLITE_MK})
            for c in (["make", "-s", "stubs"], ["make", "-s", f"-j{NCPU}", "build", "VERSION=v9.9.9"]):
                r = run(c, cwd=root, env=env, timeout=800)
                if r.rc != 0:
                    raise BuildError(f"build cli failed: {r.brief()}")
            open(os.path.join(root, "ok"), "w").close()
            _prune_cache(root)
    return root


def go_env(extra=None):
    e = {"GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
         "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": ""}
    if extra:
        e.update(extra)
    return e


# --------------------------------------------------------------------------
# Compiling and running Grayscale programs

_uniq = [0]


class Gray:
    """Compiles programs with one compiler tree and the runtime of another."""
    def __init__(self, check, variant="plain", opt=None):
        self.check = check
        self.cc_tree = build("plain")
        self.tree = build(variant) if variant != "plain" else self.cc_tree
        self.opt = opt
        self.variant = variant

    def env(self):
        e = {"GRAY_RUNTIME": self.tree.rt, "PATH": self.tree.bindir + ":" + os.environ.get("PATH", "/usr/bin:/bin")}
        return e

    def compile(self, src, name=None, dir=None, flags=(), timeout=240):
        """src: text, or dict of relative path -> text with main.gray as entry.  Returns (binary, Result)."""
        _uniq[0] += 1
        d = dir or tempfile.mkdtemp(prefix=(name or "p"), dir=self.check.work)
        if isinstance(src, dict):
            for k, v in src.items():
                p = os.path.join(d, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v if isinstance(v, bytes) else v.encode())
            entry = os.path.join(d, "main.gray")
        else:
            entry = os.path.join(d, (name or "p") + ".gray")
            with open(entry, "wb") as f:
                f.write(src if isinstance(src, bytes) else src.encode())
        # the emitted C goes to /tmp/gray_<basename>.c: keep the basename unique
        out = os.path.join(d, f"vb{os.getpid()}_{_uniq[0]}_{os.path.basename(d)}")
        fl = list(flags)
        if self.opt:
            fl.append(self.opt)
        r = run([self.cc_tree.grayc, "build", entry, "-o", out] + fl, cwd=d, env=self.env(), timeout=timeout)
        if r.rc != 0:
            leftover = "/tmp/gray_%s.c" % os.path.basename(out)
            if os.path.exists(leftover):
                try:
                    os.replace(leftover, os.path.join(d, "generated.c"))
                except OSError:
                    try:
                        shutil.move(leftover, os.path.join(d, "generated.c"))
                    except OSError:
                        pass
        return (out if r.rc == 0 and os.path.exists(out) else None), r

    def run(self, binary, args=(), **kw):
        env = dict(SAN_ENV)
        env.update(kw.pop("env", None) or {})
        kw.setdefault("cwd", os.path.dirname(binary))
        return run([binary] + list(args), env=env, **kw)


# --------------------------------------------------------------------------
# The check: counts, violations, evidence

class Check:
    def __init__(self, pid, rule, level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}:{self.seed}")
        self.work = tempfile.mkdtemp(prefix=f"vrf-{pid}-")
        atexit.register(self._cleanup)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.known = self._load_known()
        self.replay_dir = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def _cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.work)
            return
        shutil.rmtree(self.work, ignore_errors=True)

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        return {e["id"]: e for e in json.load(open(p))["findings"]
                if e["property"] == self.pid and e["status"] == "open"}

    def case(self, key=None, nontrivial=True, n=1):
        self.evaluations += n
        if key is not None and nontrivial:
            self.distinct.add(key if isinstance(key, (str, bytes, int, tuple)) else repr(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, name, value):
        self.counters.setdefault(name, set()).add(value)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def known_cell(self, cell):
        """The listed finding (id) that names this exact failing cell, if any."""
        for fid, e in self.known.items():
            if cell in e.get("cells", ()):
                return fid
        return None

    def finding(self, fid, what=""):
        """A pinned probe of a listed known finding failed as recorded."""
        if fid not in self.known:
            return False
        if fid not in self.known_hit:
            self.known_hit.append(fid)
            print(f"KNOWN-FINDING: property={self.pid} {fid}: {self.known[fid]['what']}")
        return True

    def violation(self, what, files=None, detail=None, known=None):
        """Reports a violation (or a listed finding when `known` names one)."""
        if known and self.finding(known):
            return
        n = len(self.violations)
        d = os.path.join(self.replay_dir, f"{n:03d}")
        if n < 25:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write(what + "\n")
                if detail is not None:
                    f.write(detail if isinstance(detail, str) else json.dumps(detail, indent=1, default=str))
                    f.write("\n")
            for k, v in (files or {}).items():
                p = os.path.join(d, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v if isinstance(v, bytes) else str(v).encode())
        self.violations.append({"what": what[:500], "replay": d})
        if n < 25:
            print(f"VIOLATION property={self.pid} replay={d}")
            print("  " + what[:400].replace("\n", "\n  "))
            sys.stdout.flush()

    def finish(self):
        for fid in self.known:
            if fid not in self.known_hit:
                print(f"note: listed finding {fid} was not reproduced in this run")
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        for k, v in self.counters.items():
            cov[k] = (len(v) if isinstance(v, set) else v)
            if isinstance(v, set) and len(v) <= 60:
                cov[k + "_values"] = sorted(map(str, v))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations), "known_findings": self.known_hit}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} [{self.tier}] evaluations={self.evaluations} distinct={len(self.distinct)} "
              f"violations={len(self.violations)} known={len(self.known_hit)} {ev['wall_s']}s")
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def main(fn, pid, rule, level="exploration"):
    """Runs a check function; an unexpected error of the tree (it does not build) is a violation only
    when the tree itself is at fault, otherwise the exception propagates (exit 2)."""
    c = Check(pid, rule, level)
    try:
        fn(c)
    except BuildError as e:
        print(f"{pid}: the tree does not build: {e}", file=sys.stderr)
        sys.exit(3)
    c.finish()


def lit(s):
    """A Grayscale string literal denoting the given text or bytes (no NUL)."""
    b = s.encode() if isinstance(s, str) else s
    out = []
    for ch in b:
        if ch == 0x22:
            out.append('\\"')
        elif ch == 0x5C:
            out.append("\\\\")
        elif ch == 10:
            out.append("\\n")
        elif ch == 13:
            out.append("\\r")
        elif ch == 9:
            out.append("\\t")
        elif ch == 0x24:
            out.append("\\x24")
        elif 32 <= ch < 127:
            out.append(chr(ch))
        else:
            out.append("\\x%02x" % ch)
    return '"' + "".join(out) + '"'
