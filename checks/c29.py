"""C29: threads run once, join once, and do not corrupt each other.

Jobs covering the library run first alone, then from many threads at once, in every order and with jitter; the monitor
compares each job's digest with the single-threaded one.  ThreadSanitizer and AddressSanitizer (with visible arenas) watch
the same executions.  Life-cycle scenarios (spawn, join, detach, is_alive, panic, output) have their own oracles."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

IMPORTS = "import @os, @strconv, @strings, @arrays, @maps, @threads, @sync, @atomic, @channels, @json, @encoding, @crypto, @regex, @csv, @time, @uuid, @random, @math, @io, @fmt, @bytes, @binary\n"

JOBS = {
    "strings": r'''mut s string = "alpha,beta,gamma,${k}"
    mut p [string] = strings.split(s, ",")
    mut o string = ""
    for i in range(0, 20) { o = "${o}${strings.to_upper(p[i % 4])}-${strings.reverse(p[(i + 1) % 4])}|" }
    return "${len(o)} ${strings.replace(o, "A", "aa")} ${strings.index_of(o, "ATEB")}"''',
    "arrays": r'''mut a [int] = {}
    for i in range(0, 300) { arrays.append(a, (i * 7919 + k * 31) % 1009) }
    arrays.sort_asc(a)
    mut t int = 0
    for i in range(0, len(a)) { t = (t * 31 + a[i]) % 1000003 }
    mut b [string] = {}
    for i in range(0, 50) { arrays.append(b, "v${a[i]}") }
    return "${t} ${b[0]} ${b[49]} ${arrays.contains(b, "v5")} ${len(arrays.deduplicate(a))}"''',
    "maps": r'''mut m [string:int] = {:}
    for i in range(0, 200) { m["k${(i * 37 + k) % 113}"] = i * k }
    mut t int = 0
    mut ks [string] = maps.get_keys(m)
    for_each x in ks { t += m[x] + len(x) }
    maps.remove_key(m, "k5")
    return "${t} ${len(m)} ${maps.has_key(m, "k5")} ${ks[3]}"''',
    "nested": r'''mut m [string:[int]] = {:}
    for i in range(0, 60) {
        mut key string = "n${i % 7}"
        if !maps.has_key(m, key) { m[key] = {} }
        mut v [int] = m[key]
        arrays.append(v, i * k)
        m[key] = v
    }
    mut o string = ""
    mut ks [string] = maps.get_keys(m)
    for_each x in ks { o = "${o}${x}:${len(m[x])}:${m[x][2]} " }
    return o''',
    "structs": r'''mut a [Rec] = {}
    for i in range(0, 80) { arrays.append(a, Rec{id: i, name: "r${i}-${k}", w: cast(i, float) / 4.0}) }
    mut t float = 0.0
    mut o string = ""
    for_each r in a { t += r.w
        if r.id % 16 == 3 { o = "${o}${r.name}," } }
    return "${t} ${o} ${a[7].name}"''',
    "json": r'''mut s string = json.stringify(JRec{id: k, name: "x\"y${k}", w: 1.5})
    mut o string = s
    for i in range(0, 10) {
        mut r, e2 = json.decode("{\"id\": \"${k}\", \"n\": \"v${i}\"}")
        if e2 != nil { return "error2" }
        o = "${o}${r["id"]}${r["n"]}"
    }
    return o''',
    "encoding": r'''mut o string = ""
    for i in range(0, 20) {
        mut h string = encoding.hex_encode("payload ${i} ${k}")
        mut b string = encoding.base64_encode(h)
        mut d = encoding.base64_decode(b)
        o = "${encoding.hex_encode(encoding.url_encode(d))}${len(o)}"
    }
    return o''',
    "crypto": r'''mut o string = "seed ${k}"
    for i in range(0, 30) { o = "${crypto.sha256(o)}${crypto.md5(o)}" }
    return o''',
    "regex": r'''mut o string = ""
    for i in range(0, 12) {
        mut t string = "id=${i * k + 12} name=n${k}"
        mut r, e = regex.replace("[0-9]+", t, "<#>")
        if e != nil { return "error" }
        mut m, e2 = regex.find("n[0-9]+", t)
        if e2 != nil { return "error" }
        o = "${o}${r}${m}"
    }
    return o''',
    "csv": r'''mut rows [[string]] = csv.parse("a,b,c\n1,\"x,${k}\",3\n4,5,6\n")
    mut o string = ""
    for_each r in rows { o = "${o}${len(r)}${r[1]};" }
    return o''',
    "time": r'''mut o string = ""
    for i in range(0, 20) {
        mut t int = 86400 * (i * 97 + k) + 3723 * i
        o = "${o}${time.format("YYYY-MM-DD HH:mm:ss", t)} ${time.weekday(t)} ${time.year(t)};"
    }
    return o''',
    "math": r'''mut t float = 0.0
    for i in range(1, 200) { t += math.sqrt(cast(i * k + 1, float)) * math.sin(cast(i, float)) }
    return "${t} ${math.gcd(k * 360, 84)} ${math.pow(2.0, 10.0)}"''',
    "strconv": r'''mut o string = ""
    for i in range(0, 40) {
        mut v, e = strconv.to_int("${i * k - 7}")
        if e != nil { return "error" }
        mut f, e2 = strconv.to_float("${v}.25")
        if e2 != nil { return "error" }
        mut _, bad = strconv.to_int("x${i}")
        if bad == nil { return "accepted" }
        o = "${o}${v}:${f}:${strconv.from_int(i * k)} "
    }
    return o''',
    "fmt": r'''mut o string = ""
    for i in range(0, 30) { o = "${o}${fmt.sprintf("%05d|%-6s|%.3f", i * k, "a${i}", cast(i, float) / 7.0)}" }
    return o''',
    "bytes": r'''mut b [byte] = bytes.from_string("payload ${k}")
    mut o string = bytes.to_hex(b)
    for i in range(0, 10) { o = "${o}${bytes.to_base64(b)}" }
    return o''',
    "io": r'''mut p string = "job_${k}.txt"
    mut o string = ""
    for i in range(0, 5) {
        mut _, e = io.write_file(p, "line ${i}\nmore ${k}\n")
        if e != nil { return "error write" }
        mut _, e2 = io.append_file(p, "tail ${i}")
        if e2 != nil { return "error append" }
        mut s, e3 = io.read_file(p)
        if e3 != nil { return "error read" }
        o = "${o}${len(s)}${s}"
    }
    mut _, e4 = io.delete_file(p)
    if e4 != nil { return "error delete" }
    return o''',
    "wide": r'''mut a i128 = cast(k, i128) * cast(1000000007, i128)
    mut b u256 = cast(7, u256)
    for i in range(0, 20) { a = a * cast(3, i128) - cast(i, i128)
        b = b * cast(5, u256) + cast(i, u256) }
    return "${a} ${b}"''',
    "recursion": r'''return "${fib(15 + k % 3)} ${deep(6000)}"''',
    "errors": r'''mut o string = ""
    for i in range(0, 20) {
        mut v, e = half(i * k)
        if e != nil { o = "${o}E" } otherwise { o = "${o}${v}" }
    }
    return o''',
    "pointers": r'''mut o int = 0
    for i in range(0, 50) {
        mut p ^Rec = new(Rec)
        p.id = i * k
        p.name = "heap ${i}"
        o += p.id + len(p.name)
    }
    return "${o}"''',
    "env": r'''mut o string = ""
    for i in range(0, 10) { o = "${o}${os.get_env("JOBVAR")}" }
    return o''',
    "random": r'''mut ok bool = true
    for i in range(0, 60) {
        mut v int = random.rand_int(3, 9)
        if v < 3 || v >= 9 { ok = false }
        mut f float = random.rand_float()
        if f < 0.0 || f >= 1.0 { ok = false }
        if !uuid.is_valid(uuid.to_string(uuid.generate())) { ok = false }
    }
    return "${ok}"''',
    "channel": r'''mut c = channels.open(4)
    mut t int = 0
    for i in range(0, 40) { channels.send(c, i * k)
        if i % 3 == 2 { t += channels.receive(c)
            t += channels.receive(c)
            t += channels.receive(c) } }
    channels.close(c)
    return "${t} ${channels.receive(c)}"''',
}

DECLS = r'''
#json
const JRec struct {
    id int
    name string
    w float
}
const Rec struct {
    id int
    name string
    w float
}
mut results [string] = {}
mut todo [int] = {}
mut rounds int = 0
mut seed int = 0
mut mu [sync.Mutex] = {}
mut lines [string] = {}
mut go int = 0
do arg(i int) -> int {
    mut v [string] = os.args()
    mut x, _ = strconv.to_int(v[i])
    return x
}
do fib(n int) -> int {
    if n < 2 { return n }
    return fib(n - 1) + fib(n - 2)
}
do deep(n int) -> int {
    if n == 0 { return 0 }
    return deep(n - 1) + 1
}
do half(n int) -> (int, Error) {
    if n % 2 == 1 { return 0, error("odd ${n}") }
    return n / 2, nil
}
'''


def digest_prog(jobs):
    names = list(jobs)
    out = [IMPORTS, DECLS]
    for i, n in enumerate(names):
        out.append(f"do job_{i}(k int) -> string {{\n    {jobs[n]}\n}}")
    out.append("do dispatch(j int, k int) -> string {\n    when j {")
    out += [f"        is {i} {{ return job_{i}(k) }}" for i in range(len(names))]
    out.append('        default { return "?" }\n    }\n    return "?"\n}')
    out.append(r'''
do worker(t int) {
    mut x int = seed * 31 + t * 577 + 11
    mut bad int = 0
    loop { if atomic.load(addr(go)) == 1 { break } }
    for r in range(0, rounds) {
        x = (x * 1103515245 + 12345) % 2147483648
        mut j int = todo[((x / 65536) + r) % len(todo)]
        if x % 5 == 0 { threads.yield() }
        mut s string = dispatch(j, t + 1)
        if s != results[j * 64 + t] { bad += 1
            sync.lock(mu[0])
            println("DIFF job=${j} thread=${t} got=${s}")
            sync.unlock(mu[0]) }
    }
    println("T ${t} ${bad} ${rounds}")
}
do main() {
    mut n int = arg(1)
    rounds = arg(2)
    seed = arg(3)
    mut a [string] = os.args()
    for i in range(4, len(a)) { arrays.append(todo, arg(i)) }
    mut zero string = ""
    for i in range(0, NRES) { arrays.append(results, zero) }
    for_each j in todo { for t in range(0, n) { results[j * 64 + t] = dispatch(j, t + 1) } }
    for_each j in todo { println("J ${j} ${results[j * 64]}") }
    arrays.append(mu, sync.mutex())
    mut ts [threads.Thread] = {}
    for t in range(0, n) { arrays.append(ts, threads.spawn(()worker, t)) }
    atomic.store(addr(go), 1)
    for_each t in ts { threads.join(t) }
    println("live ${threads.thread_count()}")
}'''.replace("NRES", str(len(names) * 64)))
    return "\n".join(out) + "\n"


LIFE = r'''import @os, @strconv, @strings, @arrays, @threads, @sync, @atomic
mut got [int] = {}
mut slots [int] = {}
mut names [string] = {}
mut mu [sync.Mutex] = {}
mut m [string:int] = {:}
mut go int = 0
mut fin int = 0
mut seed int = 0
mut depth int = 0
mut ids [int] = {}
do arg(i int) -> int {
    mut v [string] = os.args()
    mut x, _ = strconv.to_int(v[i])
    return x
}
do gate() { loop { if atomic.load(addr(go)) == 1 { break } } }
do once(k int) {
    sync.lock(mu[0])
    arrays.append(got, k)
    sync.unlock(mu[0])
}
do noarg() {
    sync.lock(mu[0])
    arrays.append(got, 4242)
    sync.unlock(mu[0])
}
do slot(k int) {
    mut x int = seed + k * 77
    x = (x * 1103515245 + 12345) % 2147483648
    if x % 3 == 0 { threads.sleep(x % 4) }
    slots[k] = k * k + 1
    sync.lock(mu[0])
    names[k] = "name ${k} of ${x}"
    m["key ${k}"] = k
    ensure sync.unlock(mu[0])
}
do quick(k int) { mut _ = atomic.add(addr(fin), 1) }
do slow(k int) {
    threads.sleep(k)
    mut _ = atomic.add(addr(fin), 1)
}
do gated(k int) {
    gate()
    mut _ = atomic.add(addr(fin), 1)
}
do down(n int) -> int {
    if n <= 0 {
        mut _ = atomic.add(addr(depth), 1)
        gate()
        return 0
    }
    return down(n - 1) + 1
}
do diver(k int) {
    mut v int = down(k)
    println("dived ${v}")
}
do ident(k int) {
    if threads.get_id() != threads.current() { println("ids differ") }
    sync.lock(mu[0])
    arrays.append(ids, threads.get_id())
    sync.unlock(mu[0])
    gate()
}
do spawner(k int) {
    if k <= 0 { mut _ = atomic.add(addr(fin), 1)
        return }
    mut a = threads.spawn(()spawner, k - 1)
    mut b = threads.spawn(()spawner, k - 1)
    threads.join(a)
    threads.join(b)
}
do printer(k int) {
    gate()
    mut w string = strings.repeat("${k}", 30)
    for i in range(0, 40) {
        println("<${w}>")
        println(k * 1111111)
        println(true)
        println(cast(233, char))
        mut arr [int] = {k, k, k, k, k}
        println(arr)
        println(cast(k, float) + 0.5)
    }
}
do eprinter(k int) {
    gate()
    mut w string = strings.repeat("${k}", 30)
    for i in range(0, 40) {
        eprintln("<${w}>")
        eprintln(k * 1111111)
    }
}
do bad_index(k int) {
    threads.sleep(2)
    mut a [int] = {1}
    println(a[k])
}
do forever(k int) { loop { threads.sleep(1) } }
do main() {
    mut what string = os.args()[1]
    seed = arg(3)
    mut n int = arg(2)
    arrays.append(mu, sync.mutex())
    mut ts [threads.Thread] = {}
    if what == "once" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()once, k * 3 - 5))
            arrays.append(ts, threads.spawn(()noarg)) }
        arrays.append(ts, threads.spawn(()once, 9223372036854775807))
        arrays.append(ts, threads.spawn(()once, -9223372036854775807))
        for_each t in ts { threads.join(t) }
        arrays.sort_asc(got)
        println(got)
    } or what == "join" {
        for k in range(0, n) { arrays.append(slots, 0)
            arrays.append(names, "") }
        for k in range(0, n) { arrays.append(ts, threads.spawn(()slot, k)) }
        for k in range(0, n) {
            threads.join(ts[k])
            if slots[k] != k * k + 1 { println("join returned before thread ${k} finished") }
        }
        mut t int = 0
        for k in range(0, n) { if !strings.starts_with(names[k], "name ${k} of ") { println("name ${k}: ${names[k]}") }
            t += m["key ${k}"] }
        println("${t} ${len(m)} ${threads.thread_count()}")
    } or what == "alive" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()gated, k)) }
        mut live int = 0
        for_each t in ts { if threads.is_alive(t) { live += 1 } }
        println("${live} ${threads.thread_count()}")
        atomic.store(addr(go), 1)
        for_each t in ts { loop { if !threads.is_alive(t) { break }
            threads.yield() } }
        println(atomic.load(addr(fin)))
        for_each t in ts { threads.join(t) }
        println(threads.thread_count())
    } or what == "detach" {
        for k in range(0, n) {
            mut t = threads.spawn(()quick, k)
            if (k * 7 + seed) % 4 == 0 { threads.yield() }
            or (k * 7 + seed) % 4 == 1 { mut s int = 0
                for i in range(0, (k * 37) % 4000) { s += i }
                if s < 0 { println("no") } }
            or (k * 7 + seed) % 16 == 2 { threads.sleep(1) }
            threads.detach(t)
            if k % 50 == 49 { loop { if atomic.load(addr(fin)) == k + 1 { break }
                threads.yield() } }
        }
        loop { if atomic.load(addr(fin)) == n && threads.thread_count() == 0 { break }
            threads.yield() }
        println("${atomic.load(addr(fin))} ${threads.thread_count()}")
    } or what == "depth" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()diver, seed)) }
        loop { if atomic.load(addr(depth)) == n { break }
            threads.yield() }
        mut d int = down_main(seed)
        atomic.store(addr(go), 1)
        for_each t in ts { threads.join(t) }
        println("main ${d}")
    } or what == "overdeep" {
        mut t = threads.spawn(()diver, 10050)
        threads.join(t)
    } or what == "ids" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()ident, k)) }
        loop { sync.lock(mu[0])
            mut have int = len(ids)
            sync.unlock(mu[0])
            if have == n { break } }
        arrays.append(ids, threads.get_id())
        atomic.store(addr(go), 1)
        for_each t in ts { threads.join(t) }
        println("${len(arrays.deduplicate(ids))}")
    } or what == "tree" {
        spawner(n)
        println("${fin} ${threads.thread_count()}")
    } or what == "print" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()printer, k)) }
        atomic.store(addr(go), 1)
        for_each t in ts { threads.join(t) }
    } or what == "eprint" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()eprinter, k)) }
        atomic.store(addr(go), 1)
        for_each t in ts { threads.join(t) }
    } or what == "panic" {
        println("before")
        for k in range(0, n) { arrays.append(ts, threads.spawn(()forever, k)) }
        arrays.append(ts, threads.spawn(()bad_index, 7))
        for_each t in ts { threads.join(t) }
        println("after")
    } or what == "many" {
        for k in range(0, n) { arrays.append(ts, threads.spawn(()gated, k)) }
        atomic.store(addr(go), 1)
        for_each t in ts { threads.join(t) }
        println(fin)
    } or what == "sleep" {
        mut t = threads.spawn(()slow, n)
        threads.join(t)
        println("slept ${fin}")
    }
}
do down_main(n int) -> int {
    if n <= 0 { return 0 }
    return down_main(n - 1) + 1
}
'''


def life_expect(what, n, seed):
    if what == "once":
        v = sorted([k * 3 - 5 for k in range(n)] + [4242] * n + [2 ** 63 - 1, -2 ** 63 + 1])
        return "{" + ", ".join(map(str, v)) + "}\n"
    if what == "join":
        return f"{sum(range(n))} {n} 0\n"
    if what == "alive":
        return f"{n} {n}\n{n}\n0\n"
    if what == "detach":
        return f"{n} 0\n"
    if what == "depth":
        return f"dived {seed}\n" * n + f"main {seed}\n"
    if what == "ids":
        return f"{n + 1}\n"
    if what == "tree":
        return f"{2 ** n} 0\n"
    if what == "many":
        return f"{n}\n"
    if what == "sleep":
        return "slept 1\n"


def judge_life(what, n, seed, r):
    if r.timeout:
        return "no end within the time limit"
    if r.sanitizer:
        return "sanitizer: " + r.sanitizer[:500]
    if what == "panic":
        return None if r.rc == 1 and r.panic == "P0033" and r.text == "before\n" else f"rc={r.rc} {r.text[-80:]!r} {r.etext[-160:]!r}"
    if what == "overdeep":
        return None if r.rc == 1 and r.panic == "P0003" else f"rc={r.rc} {r.text[-80:]!r} {r.etext[-160:]!r}"
    if r.rc != 0:
        return f"rc={r.rc} {r.text[-80:]!r} {r.etext[-200:]!r}"
    if what in ("print", "eprint"):
        want = {}
        for k in range(n):
            ls = [f"<{str(k) * 30}>", str(k * 1111111)]
            if what == "print":
                ls += ["true", "é", "{" + ", ".join([str(k)] * 5) + "}", f"{k}.5"]
            for x in ls:
                want[x] = want.get(x, 0) + 40
        have = {}
        for x in (r.text if what == "print" else r.etext).split("\n")[:-1]:
            have[x] = have.get(x, 0) + 1
        if have != want:
            odd = [x for x in set(have) | set(want) if have.get(x) != want.get(x)]
            return f"lines torn or lost: {odd[:4]}"
        return None
    e = life_expect(what, n, seed)
    return None if r.text == e else f"expected {e[:200]!r}, got {r.text[:200]!r}"


def check(c):
    rng = c.rng
    vs = {v: Gray(c, v) for v in ("plain", "tsan", "asan")}
    names = list(JOBS)
    src = {"life": LIFE, "jobs": digest_prog(JOBS)}
    bins = {}
    todo = [(v, n) for v in vs for n in src]
    for k, (b, r) in zip(todo, pmap(lambda k: vs[k[0]].compile(src[k[1]], k[1] + k[0]), todo)):
        if not b:
            c.violation(f"the {k[1]} workload does not compile for {k[0]}: {r.brief()}", {"main.gray": src[k[1]]})
            return
        bins[k] = b
    jobs = []
    # each job against itself under every monitor, then mixtures
    for v in vs:
        for j in range(len(names)):
            jobs.append((v, "jobs", [rng.choice([3, 4, 6]), 3 if v != "plain" else 20, rng.randrange(1, 10 ** 6), j]))
    for i in range(c.scale(15, 400)):
        v = ("plain", "tsan", "asan")[i % 3]
        sel = rng.sample(range(len(names)), rng.randint(2, 8))
        jobs.append((v, "jobs", [rng.choice([4, 8, 12]), 6 if v != "plain" else 30, rng.randrange(1, 10 ** 6)] + sel))
    for i in range(c.scale(1, 20)):
        for v in vs:
            h = v == "plain"
            jobs += [(v, "life", x) for x in (
                ("once", rng.randint(1, 20), 1), ("join", rng.randint(1, 30), rng.randrange(10 ** 6)), ("alive", rng.randint(1, 20), 1),
                ("detach", 2000 if h else 400, rng.randrange(100)), ("ids", rng.randint(1, 30), 1),
                ("tree", rng.randint(0, 6), 1), ("print", rng.randint(2, 9), 1), ("eprint", rng.randint(2, 9), 1), ("panic", rng.randint(0, 6), 1),
                ("many", 200, 1), ("sleep", rng.choice([0, 1, 30, -5]), 1))]
        jobs += [("plain", "life", ("detach", 3000, rng.randrange(100))), ("plain", "life", ("depth", rng.randint(1, 6), rng.choice([3000, 6000, 9000]))),
                 ("plain", "life", ("overdeep", 1, 1))]
    rng.shuffle(jobs)
    bad_runs = 0

    def one(j):
        v, name, a = j
        return vs[v].run(bins[v, name], [str(x) for x in a], timeout=100, env={"JOBVAR": "value"}, cwd=tempfile.mkdtemp(dir=c.work))
    results = (x for i in range(0, len(jobs), 24) if bad_runs < 3 for x in zip(jobs[i:i + 24], pmap(one, jobs[i:i + 24], 6)))
    ref = {}
    for j, r in results:
        v, name, a = j
        c.case((v, name, tuple(a)))
        bad = None
        if name == "life":
            c.count(f"life_{a[0]}_{v}")
            bad = judge_life(a[0], a[1], a[2], r)
        else:
            n, rounds = a[0], a[1]
            if r.timeout:
                bad = "no end within the time limit"
            elif r.sanitizer or r.rc != 0:
                bad = f"rc={r.rc} {(r.sanitizer or "")[:500] or r.etext[-300:]}"
            else:
                diffs = re.findall(r"^DIFF job=(\d+) thread=(\d+) got=(.*)$", r.text, re.M)
                if diffs:
                    bad = f"job {names[int(diffs[0][0])]} gave another result in a thread: {diffs[0][2][:120]}"
                elif sorted(re.findall(r"^T (\d+) 0 (\d+)$", r.text, re.M)) != sorted((str(t), str(rounds)) for t in range(n)) or not r.text.endswith("live 0\n"):
                    bad = f"the threads did not all report once: {r.text[-200:]!r}"
                for k, d in re.findall(r"^J (\d+) (.*)$", r.text, re.M):
                    if ref.setdefault(k, d) != d and not bad:
                        bad = f"job {names[int(k)]} alone gave {d[:100]!r}, elsewhere {ref[k][:100]!r}"
                    if "error" in d or d in ("false", "?"):
                        bad = bad or f"job {names[int(k)]} alone failed: {d[:100]}"
                c.count("thread_job_rounds", n * rounds)
                for k in a[3:]:
                    c.count(f"job_{names[k]}_{v}")
        if bad:
            bad_runs += 1
            c.violation(f"{name} {' '.join(map(str, a))} ({v}): {bad}", {"main.gray": src[name]},
                        detail={"args": list(map(str, a)), "output": r.text[-4000:], "stderr": r.etext[-6000:]})
    # no resources for another thread: reported, not a crash
    for lim in (1 << 30, 3 << 29):
        r = run([bins["plain", "life"], "many", "3000", "1"], limit_as=lim, timeout=100, cwd=c.work)
        c.case(("spawn-limit", lim))
        if r.rc != 1 or r.crashed:
            c.violation(f"3000 threads within {lim >> 20} MB of address space: rc={r.rc} {r.text[-80:]!r} {r.etext[-200:]!r}", {"main.gray": LIFE})


if __name__ == "__main__":
    main(check, "C29", "each thread body runs once with its argument, joins wait, results equal the single-threaded ones, no race, no torn line")
