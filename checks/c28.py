"""C28: locks exclude and atomics are linearizable.

Threads contend for mutexes and spinlocks around unsynchronised data and perform random atomic operations whose returned
values are recorded; offline checkers decide exclusion, visibility, ticket uniqueness, the existence of one total order and
the forbidden outcomes of litmus tests.  ThreadSanitizer watches the mutex-protected data."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

HEAD = r'''import @os, @strconv, @strings, @arrays, @threads, @sync, @atomic
mut mus [sync.Mutex] = {}
mut sps [atomic.SpinLock] = {}
mut n int = 0
mut per int = 0
mut seed int = 0
mut kind int = 0
mut go int = 0
mut inside [int] = {0, 0, 0}
mut a [int] = {0, 0, 0}
mut b [int] = {0, 0, 0}
mut trues int = 0
mut word int = 0
mut word2 int = 0
mut tok string = ""
mut ready int = 0
mut fin int = 0
mut r1 int = 0
mut r2 int = 0
mut px int = 0
mut py int = 0
do arg(i int) -> int {
    mut v [string] = os.args()
    mut x, _ = strconv.to_int(v[i])
    return x
}
do jitter(&x int) {
    x = (x * 1103515245 + 12345) % 2147483648
    mut r int = (x / 65536) % 64
    if r < 6 { threads.yield() }
    or r < 8 && seed % 3 == 0 { threads.sleep(0) }
    or r < 9 && seed % 3 == 1 { threads.sleep(1) }
    or r < 20 { mut s int = 0
        for k in range(0, r * 10) { s += k }
        if s < 0 { println("no") } }
}
do start() {
    mut _ = atomic.add(addr(ready), 1)
    loop { if atomic.load(addr(go)) == 1 { break } }
}
'''

LOCKS = HEAD + r'''
do take(l int) {
    if kind == 0 { sync.lock(mus[l]) }
    or kind == 1 { atomic.spin_lock(sps[l]) }
    or kind == 2 { loop { mut ok bool = sync.try_lock(mus[l])
        if ok { break }
        threads.yield() } }
    otherwise { loop { mut ok bool = atomic.spin_trylock(sps[l])
        if ok { break }
        threads.yield() } }
}
do drop(l int) {
    if kind == 0 || kind == 2 { sync.unlock(mus[l]) }
    otherwise { atomic.spin_unlock(sps[l]) }
}
do worker(t int) {
    mut x int = seed * 71 + t * 977 + 5
    mut bad int = 0
    start()
    for i in range(0, per) {
        mut l int = (x / 7) % 3
        jitter(x)
        take(l)
        if inside[l] != 0 { bad += 1 }
        inside[l] = t + 1
        mut v int = a[l]
        if b[l] != v { bad += 1 }
        if i % 3 == 0 { jitter(x) }
        a[l] = v + 1
        if i % 4 == 0 { jitter(x) }
        b[l] = v + 1
        if inside[l] != t + 1 { bad += 1 }
        inside[l] = 0
        drop(l)
    }
    if bad != 0 { println("BAD ${t} ${bad}") }
}
do main() {
    kind = arg(1)
    n = arg(2)
    per = arg(3)
    seed = arg(4)
    for k in range(0, 3) { arrays.append(mus, sync.mutex())
        arrays.append(sps, atomic.spinlock()) }
    mut ts [threads.Thread] = {}
    for t in range(0, n) { arrays.append(ts, threads.spawn(()worker, t)) }
    loop { if atomic.load(addr(ready)) == n { break } }
    atomic.store(addr(go), 1)
    for_each t in ts { threads.join(t) }
    println("${a[0] + a[1] + a[2]} ${b[0] + b[1] + b[2]}")
    for k in range(0, 3) { sync.destroy(mus[k]) }
}
'''

# try-lock tells the truth: held by another thread, held by this one, free, free again; one lock does not affect another
TRY = HEAD + r'''
do prober(k int) {
    mut m0 bool = sync.try_lock(mus[0])
    mut m1 bool = sync.try_lock(mus[1])
    mut s0 bool = atomic.spin_trylock(sps[0])
    mut s1 bool = atomic.spin_trylock(sps[1])
    println("${k} ${m0} ${m1} ${s0} ${s1}")
    if m0 { sync.unlock(mus[0]) }
    if m1 { sync.unlock(mus[1]) }
    if s0 { atomic.spin_unlock(sps[0]) }
    if s1 { atomic.spin_unlock(sps[1]) }
}
do probe(k int) {
    mut t = threads.spawn(()prober, k)
    threads.join(t)
}
do racer(k int) {
    start()
    mut ok bool = false
    if kind == 0 { ok = sync.try_lock(mus[2]) } otherwise { ok = atomic.spin_trylock(sps[2]) }
    if ok { mut _ = atomic.add(addr(trues), 1) }
}
do waiter(k int) {
    if kind == 0 { sync.lock(mus[0]) } otherwise { atomic.spin_lock(sps[0]) }
    atomic.store(addr(fin), 1)
    if kind == 0 { sync.unlock(mus[0]) } otherwise { atomic.spin_unlock(sps[0]) }
}
do main() {
    kind = arg(1)
    n = arg(2)
    for k in range(0, 3) { arrays.append(mus, sync.mutex())
        arrays.append(sps, atomic.spinlock()) }
    probe(0)
    sync.lock(mus[0])
    probe(1)
    atomic.spin_lock(sps[1])
    probe(2)
    println("${sync.try_lock(mus[1])} ${atomic.spin_trylock(sps[0])}")
    probe(3)
    println("${atomic.spin_trylock(sps[0])} ${atomic.spin_trylock(sps[1])}")
    sync.unlock(mus[0])
    sync.unlock(mus[1])
    atomic.spin_unlock(sps[1])
    probe(4)
    atomic.spin_unlock(sps[0])
    probe(5)
    // several threads race for one free lock: exactly one may get it
    mut ts [threads.Thread] = {}
    for t in range(0, n) { arrays.append(ts, threads.spawn(()racer, t)) }
    loop { if atomic.load(addr(ready)) == n { break } }
    atomic.store(addr(go), 1)
    for_each t in ts { threads.join(t) }
    println("winners ${trues}")
    // a waiter gets in only after the unlock
    if kind == 0 { sync.lock(mus[0]) } otherwise { atomic.spin_lock(sps[0]) }
    mut w = threads.spawn(()waiter, 0)
    threads.sleep(arg(3))
    println("early ${atomic.load(addr(fin))}")
    if kind == 0 { sync.unlock(mus[0]) } otherwise { atomic.spin_unlock(sps[0]) }
    threads.join(w)
    println("late ${atomic.load(addr(fin))}")
}
'''

# every thread records what its atomic operations returned
ATOM = HEAD + r'''
do worker(t int) {
    mut x int = seed * 31 + t * 577 + 11
    mut got [int] = {}
    mut mine int = 1 bit_shift_left (t + 20)
    mut bad int = 0
    mut on bool = false
    start()
    for i in range(0, per) {
        if kind == 0 { arrays.append(got, atomic.add(addr(word), 1)) }
        or kind == 1 { arrays.append(got, atomic.sub(addr(word), 1)) }
        or kind == 2 { arrays.append(got, atomic.exchange(addr(word), (t + 1) * 10000000000 + i)) }
        or kind == 3 {
            loop {
                mut v int = atomic.load(addr(word))
                mut ok bool = atomic.cas(addr(word), v, v + 3)
                if ok { arrays.append(got, v)
                    break }
            }
        }
        or kind == 4 {
            mut p int = 0
            if on { p = atomic.and(addr(word), -1 - mine) } otherwise { p = atomic.or(addr(word), mine) }
            mut had bool = (p bit_and mine) != 0
            if had != on { bad += 1 }
            on = !on
        }
        or kind == 5 {
            mut p int = atomic.xor(addr(word), mine)
            mut had bool = (p bit_and mine) != 0
            if had != on { bad += 1 }
            on = !on
        }
        or kind == 6 {
            // deltas wider than 32 bits; the previous values must form one chain
            mut d int = 4294967296 * (t + 1) + i * 17 + 1
            arrays.append(got, atomic.add(addr(word), d))
            arrays.append(got, d)
        }
        or kind == 7 {
            // the same word: readers only ever see values some thread stored, each thread's own in order
            atomic.store(addr(word), (t + 1) * 10000000000 + i)
            arrays.append(got, atomic.load(addr(word)))
        }
        otherwise { mut p int = atomic.add(addr(word), 1)
            mut q int = atomic.sub(addr(word), 1)
            if p < 0 || p >= n || q < 1 || q > n { bad += 1 } }
        if i % 5 == 0 { jitter(x) }
    }
    mut line string = "T ${t} ${bad}"
    for_each v in got { line = "${line} ${v}" }
    println(line)
}
do main() {
    kind = arg(1)
    n = arg(2)
    per = arg(3)
    seed = arg(4)
    word = arg(5)
    mut ts [threads.Thread] = {}
    for t in range(0, n) { arrays.append(ts, threads.spawn(()worker, t)) }
    loop { if atomic.load(addr(ready)) == n { break } }
    atomic.store(addr(go), 1)
    for_each t in ts { threads.join(t) }
    println("W ${word}")
}
'''

# store buffering: with sequentially consistent operations at least one side sees the other's store.  Message passing:
# data published before an atomic flag is visible to whoever saw the flag.
LITMUS = HEAD + r'''
do left(k int) {
    start()
    for i in range(1, per + 1) {
        if kind == 0 { atomic.store(addr(word), i)
            r1 = atomic.load(addr(word2)) }
        or kind == 1 { px = i
            atomic.fence()
            r1 = py }
        otherwise { px = i
            py = i
            atomic.store(addr(word), i) }
        mut _ = atomic.add(addr(fin), 1)
        loop { if atomic.load(addr(fin)) >= 2 * i { break } }
        if kind < 2 && r1 < i && r2 < i { println("SB ${i} ${r1} ${r2}") }
        _ = atomic.add(addr(ready), 1)
        loop { if atomic.load(addr(ready)) >= 2 * i + 2 { break } }
    }
}
do right(k int) {
    start()
    for i in range(1, per + 1) {
        if kind == 0 { atomic.store(addr(word2), i)
            r2 = atomic.load(addr(word)) }
        or kind == 1 { py = i
            atomic.fence()
            r2 = px }
        otherwise {
            loop { if atomic.load(addr(word)) == i { break } }
            if px != i || py != i { println("MP ${i} ${px} ${py}") } }
        mut _ = atomic.add(addr(fin), 1)
        loop { if atomic.load(addr(fin)) >= 2 * i { break } }
        _ = atomic.add(addr(ready), 1)
        loop { if atomic.load(addr(ready)) >= 2 * i + 2 { break } }
    }
}
do main() {
    kind = arg(1)
    per = arg(2)
    mut t = threads.spawn(()left, 0)
    mut u = threads.spawn(()right, 0)
    loop { if atomic.load(addr(ready)) == 2 { break } }
    atomic.store(addr(go), 1)
    threads.join(t)
    threads.join(u)
    println("END")
}
'''

SCRIPT = r'''import @os, @strconv, @strings, @atomic
do main() {
    mut a [string] = os.args()
    mut w int = 0
    mut guard int = 77
    for i in range(1, len(a)) {
        mut f [string] = strings.split(a[i], ":")
        mut p, _ = strconv.to_int(f[1])
        mut q, _ = strconv.to_int(f[2])
        if f[0] == "st" { atomic.store(addr(w), p) }
        or f[0] == "ld" { println(atomic.load(addr(w))) }
        or f[0] == "add" { println(atomic.add(addr(w), p)) }
        or f[0] == "sub" { println(atomic.sub(addr(w), p)) }
        or f[0] == "xchg" { println(atomic.exchange(addr(w), p)) }
        or f[0] == "and" { println(atomic.and(addr(w), p)) }
        or f[0] == "or" { println(atomic.or(addr(w), p)) }
        or f[0] == "xor" { println(atomic.xor(addr(w), p)) }
        or f[0] == "cas" { println(atomic.cas(addr(w), p, q)) }
        otherwise { println("?") }
    }
    println("${w} ${guard}")
}
'''
M = 1 << 64
wrap = lambda v: (v + (1 << 63)) % M - (1 << 63)


def script(rng):
    w, ops, out = 0, [], []
    for _ in range(rng.randint(5, 120)):
        op = rng.choice("st ld add sub xchg and or xor cas cas".split())
        v = lambda: rng.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 32, 2 ** 31, -2 ** 31, rng.randrange(-2 ** 63, 2 ** 63), w])
        p, q = v(), v()
        if op == "cas" and rng.random() < .3:
            p = wrap(w ^ (1 << rng.randrange(64)))
        ops.append(f"{op}:{p}:{q}")
        if op != "st" and op != "cas":
            out.append(str(w))
        if op == "cas":
            out.append("true" if p == w else "false")
            w = q if p == w else w
        else:
            w = wrap({"st": p, "ld": w, "add": w + p, "sub": w - p, "xchg": p, "and": w & p, "or": w | p, "xor": w ^ p}[op])
    return ops, "\n".join(out + [f"{w} 77", ""])


def judge_atom(c, p, r):
    kind, n, per, seed, w0 = p
    th, final = {}, None
    for ln in r.text.split("\n")[:-1]:
        f = ln.split(" ")
        if f[0] == "T":
            th[int(f[1])] = (int(f[2]), list(map(int, f[3:])))
        elif f[0] == "W":
            final = int(f[1])
        else:
            return "unexpected line " + ln
    if len(th) != n or final is None:
        return "a thread did not report"
    if any(b for b, _ in th.values()):
        return "a returned previous value is impossible: " + str({t: b for t, (b, _) in th.items() if b})
    N = n * per
    allv = [v for _, g in th.values() for v in g]
    if kind in (0, 1, 3):
        d = {0: 1, 1: -1, 3: 3}[kind]
        if sorted(allv, key=lambda v: v * d) != [w0 + d * i for i in range(N)] or final != w0 + d * N:
            dup = len(allv) - len(set(allv))
            return f"{N} updates from {w0}: {dup} repeated previous values, final {final}"
        for t, (_, g) in th.items():
            if any((y - x) * d <= 0 for x, y in zip(g, g[1:])):
                return f"thread {t} saw the counter go backwards"
        # how mixed was the order?
        owner = sorted((v * d, t) for t, (_, g) in th.items() for v in g)
        c.count("interleavings_switches", sum(1 for x, y in zip(owner, owner[1:]) if x[1] != y[1]))
    elif kind == 2:
        want = sorted([w0] + [(t + 1) * 10 ** 10 + i for t in range(n) for i in range(per)])
        if sorted(allv + [final]) != want:
            return "exchange lost or duplicated a value"
    elif kind == 6:
        nxt = {}
        for _, g in th.values():
            for v, d in zip(g[::2], g[1::2]):
                if v in nxt:
                    return f"two additions returned the same previous value {v}"
                nxt[v] = wrap(v + d)
        v, k = w0, 0
        while v in nxt:
            v, k = nxt.pop(v), k + 1
        if k != N or v != final:
            return f"the previous values form no single order ({k} of {N} reachable)"
    elif kind == 7:
        for t, (_, g) in th.items():
            last = {}
            for i, v in enumerate(g):
                o, s = v // 10 ** 10 - 1, v % 10 ** 10
                if not (0 <= o < n and 0 <= s < per) or (o == t and s != i) or s < last.get(o, -1):
                    return f"thread {t} loaded {v} after {last}"
                last[o] = s
        if final % 10 ** 10 != per - 1:
            return f"the final value {final} is not any thread's last store"
    elif kind in (4, 5):
        want = w0
        for t in range(n):
            if per % 2:
                want = (want | 1 << (t + 20)) if kind == 4 else want ^ (1 << (t + 20))
        if final != want:
            return f"final {final}, expected {want}"
    elif final != w0:
        return f"final {final}, expected {w0}"
    return None


def check(c):
    rng = c.rng
    vs = {v: Gray(c, v) for v in ("plain", "tsan", "asan")}
    src = {"locks": LOCKS, "try": TRY, "atom": ATOM, "litmus": LITMUS, "script": SCRIPT}
    bins = {}

    def comp(k):
        v, n = k
        return vs[v].compile(src[n], n + v)
    want = [("plain", n) for n in src] + [("tsan", "locks"), ("tsan", "try"), ("asan", "locks"), ("asan", "script"), ("tsan", "atom")]
    for k, (b, r) in zip(want, pmap(comp, want)):
        if not b:
            c.violation(f"the {k[1]} workload does not compile for {k[0]}: {r.brief()}", {"main.gray": src[k[1]]})
            return
        bins[k] = b
    jobs = []
    for i in range(c.scale(60, 600)):
        ops, exp = script(rng)
        jobs.append((("plain", "plain", "asan")[i % 3], "script", ops, exp))
    for i in range(c.scale(60, 800)):
        v = rng.choice(["plain"] * 3 + ["tsan", "asan"])
        kind = rng.choice([0, 2]) if v == "tsan" else rng.randrange(4)
        jobs.append((v, "locks", (kind, rng.choice([2, 3, 4, 8, 8, 16]), rng.choice([50, 300, 1000]) if v == "plain" else 60, rng.randrange(1, 10 ** 6)), None))
    for kind in (0, 1):
        for v in ("plain", "tsan") if kind == 0 else ("plain",):
            for n in range(c.scale(6, 100)):
                jobs.append((v, "try", (kind, rng.randint(2, 12), rng.choice([0, 1, 10])), None))
    for kind in range(9):
        for i in range(c.scale(7, 80)):
            jobs.append(("plain", "atom", (kind, rng.choice([2, 4, 8, 8]), rng.choice([200, 500, 1500]), rng.randrange(1, 10 ** 6),
                                           0 if kind in (4, 5, 7, 8) else rng.choice([0, 0, -5, 2 ** 40, -2 ** 33])), None))
    for kind in range(3):
        jobs += [("plain", "litmus", (kind, c.scale(20000, 400000)), None) for _ in range(2)]
    rng.shuffle(jobs)
    jobs.sort(key=lambda j: j[1] == "litmus")
    bad_runs = 0

    def one(j):
        v, name, p, exp = j
        return vs[v].run(bins[v, name], [str(x) for x in p], timeout=40)
    results = (x for i in range(0, len(jobs), 8) if bad_runs < 3 for x in zip(jobs[i:i + 8], pmap(one, jobs[i:i + 8], 2)))
    for j, r in results:
        v, name, p, exp = j
        c.case((v, name, tuple(p)))
        c.count(f"runs_{name}_{v}")
        bad = None
        if r.timeout:
            bad = "no end within the time limit"
        elif r.sanitizer or r.rc != 0:
            bad = f"rc={r.rc} {(r.sanitizer or "")[:300] or r.etext[-200:]}"
        elif name == "script":
            bad = None if r.text == exp else f"expected {exp[-120:]!r}, got {r.text[-120:]!r}"
        elif name == "locks":
            t = p[1] * p[2]
            c.count("critical_sections", t)
            bad = None if r.text == f"{t} {t}\n" else f"{t} critical sections, observed {r.text[:200]!r}"
        elif name == "try":
            exp = ("0 true true true true\n1 false true true true\n2 false true true false\ntrue true\n3 false false false false\n"
                   "false false\n4 true true false true\n5 true true true true\nwinners 1\nearly 0\nlate 1\n")
            bad = None if r.text == exp else f"expected {exp!r}, got {r.text!r}"
        elif name == "atom":
            c.count(f"atomic_ops_kind{p[0]}", p[1] * p[2])
            bad = judge_atom(c, p, r)
        else:
            c.count("litmus_rounds", p[1])
            bad = None if r.text == "END\n" else f"forbidden outcome {r.text[:120]!r}"
        if bad:
            bad_runs += 1
            c.violation(f"{name} {' '.join(map(str, p))[:200]} ({v}): {bad}", {"main.gray": src[name]},
                        detail={"args": list(map(str, p)), "output": r.text[-4000:], "stderr": r.etext[-4000:]})


if __name__ == "__main__":
    main(check, "C28", "no two threads inside one lock, try-lock truthful, atomic results explained by one total order, no race on locked data")
