"""C27: channels deliver every message once and in order.

Producers, consumers and closers run as real threads with per-operation jitter drawn from the seed.  Every completed
operation is logged with a begin and an end tick (a shared atomic clock); the offline checker decides conservation,
per-sender order, real-time FIFO order, the capacity bound, close semantics and termination.  A single-threaded model
decides the functional behaviour, ThreadSanitizer and AddressSanitizer the memory accesses."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PROG = r'''import @os, @strconv, @arrays, @threads, @channels, @atomic
mut chs [channels.Channel] = {}
mut mode int = 0
mut per int = 0
mut cap int = 0
mut seed int = 0
mut logging int = 0
mut clock int = 0
mut sent int = 0
mut started int = 0
mut left int = 0
mut consumers int = 0
mut producers int = 0
mut stop int = 0
do arg(i int) -> int {
    mut a [string] = os.args()
    mut v, _ = strconv.to_int(a[i])
    return v
}
do jitter(&x int) {
    x = (x * 1103515245 + 12345) % 2147483648
    mut r int = (x / 65536) % 64
    if r < 10 { threads.yield() }
    or r < 12 && seed % 3 == 0 { threads.sleep(0) }
    or r < 13 && seed % 3 == 1 { threads.sleep(1) }
    or r < 24 { mut s int = 0
        for k in range(0, r * 20) { s += k }
        if s < 0 { println("no") } }
}
do tick() -> int {
    if logging == 0 { return 0 }
    return atomic.add(addr(clock), 1)
}
do producer(p int) {
    mut x int = seed * 977 + p * 131 + 7
    for i in range(0, per) {
        jitter(x)
        mut v int = (p + 1) * 1000000 + i
        mut b int = tick()
        mut ok bool = true
        if mode == 2 {
            loop {
                mut t bool = channels.try_send(chs[0], v)
                if t { break }
                if atomic.load(addr(stop)) == 1 { ok = false
                    break }
                jitter(x)
                b = tick()
            }
        } otherwise { channels.send(chs[0], v) }
        if mode != 3 {
            mut s int = atomic.add(addr(sent), 1) + 1
            mut r int = atomic.load(addr(started))
            if s - r > cap { println("OVER ${s} ${r}") }
        }
        mut e int = tick()
        if ok { println("S ${p} ${v} ${b} ${e}") }
    }
    println("P ${p} done")
}
do consumer(k int) {
    mut x int = seed * 1013 + k * 89 + 3
    mut n int = 0
    mut quota int = (producers * per) / consumers
    if k < (producers * per) % consumers { quota += 1 }
    loop {
        if (mode == 0 || mode == 5) && n >= quota { break }
        jitter(x)
        mut _ = atomic.add(addr(started), 1)
        mut b int = tick()
        mut v int = 0
        if mode == 2 {
            mut got, ok = channels.try_receive(chs[0])
            if !ok {
                if got != 0 { println("GHOST ${got}") }
                _ = atomic.sub(addr(started), 1)
                if atomic.load(addr(left)) <= 0 { break }
                continue
            }
            v = got
            _ = atomic.sub(addr(left), 1)
        } otherwise { v = channels.receive(chs[0]) }
        mut e int = tick()
        if v == 0 && mode != 0 { break }
        println("R ${k} ${v} ${b} ${e}")
        n += 1
        if mode == 3 && n >= cap { break }
    }
    println("C ${k} done")
}
do stage(k int) {
    loop {
        mut v int = channels.receive(chs[k])
        if v == 0 { break }
        channels.send(chs[k + 1], v * 2 + 1)
    }
    channels.close(chs[k + 1])
    println("C ${k} done")
}
do main() {
    mode = arg(1)
    producers = arg(2)
    consumers = arg(3)
    cap = arg(4)
    per = arg(5)
    seed = arg(6)
    logging = arg(7)
    left = producers * per
    mut ts [threads.Thread] = {}
    if mode == 4 {
        // a pipeline of stages over channels of different capacities
        for k in range(0, consumers + 1) { arrays.append(chs, channels.open(1 + (seed + k) % 3)) }
        for k in range(0, consumers) { arrays.append(ts, threads.spawn(()stage, k)) }
        arrays.append(ts, threads.spawn(()feeder))
        loop {
            mut v int = channels.receive(chs[consumers])
            if v == 0 { break }
            println("F ${v}")
        }
        for_each t in ts { threads.join(t) }
        println("END")
        return_early()
    } otherwise {
        arrays.append(chs, channels.open(cap))
        for k in range(0, consumers) { arrays.append(ts, threads.spawn(()consumer, k)) }
        mut ps [threads.Thread] = {}
        for p in range(0, producers) { arrays.append(ps, threads.spawn(()producer, p)) }
        if mode == 1 {
            for_each t in ps { threads.join(t) }
            channels.close(chs[0])
            for_each t in ts { threads.join(t) }
        } or mode == 3 {
            // close while senders are blocked on a full channel, then drain
            for_each t in ts { threads.join(t) }
            threads.sleep(arg(8))
            println("CLOSE ${tick()}")
            channels.close(chs[0])
            mut after bool = channels.try_send(chs[0], 77)
            channels.send(chs[0], 78)
            for_each t in ps { threads.join(t) }
            println("TRY ${after}")
            loop {
                mut v int = channels.receive(chs[0])
                if v == 0 { break }
                println("R 99 ${v} 0 0")
            }
            mut z, ok = channels.try_receive(chs[0])
            println("DRAINED ${z} ${ok}")
        } or mode == 5 {
            // everything received while further receivers wait: only close lets them go
            for_each t in ts { threads.join(t) }
            for_each t in ps { threads.join(t) }
            mut ws [threads.Thread] = {}
            for k in range(0, 4) { arrays.append(ws, threads.spawn(()waiter, k)) }
            threads.sleep(arg(8))
            channels.close(chs[0])
            channels.close(chs[0])
            for_each t in ws { threads.join(t) }
        } otherwise {
            for_each t in ps { threads.join(t) }
            for_each t in ts { threads.join(t) }
        }
        println("END")
    }
}
do return_early() { }
do waiter(k int) {
    mut v int = channels.receive(chs[0])
    println("W ${k} ${v}")
}
do feeder() {
    for i in range(0, per) { channels.send(chs[0], i + 1) }
    channels.close(chs[0])
}
'''

# a scripted, single-threaded use of several channels
SCRIPT = r'''import @os, @strconv, @strings, @arrays, @channels
do main() {
    mut a [string] = os.args()
    mut chs [channels.Channel] = {}
    for i in range(1, len(a)) {
        mut f [string] = strings.split(a[i], ":")
        mut c, _ = strconv.to_int(f[1])
        mut v, _ = strconv.to_int(f[2])
        if f[0] == "o" { arrays.append(chs, channels.open(v)) }
        or f[0] == "s" { channels.send(chs[c], v) }
        or f[0] == "t" { println(channels.try_send(chs[c], v)) }
        or f[0] == "r" { println(channels.receive(chs[c])) }
        or f[0] == "T" { mut g, ok = channels.try_receive(chs[c])
            println("${g} ${ok}") }
        or f[0] == "c" { channels.close(chs[c]) }
    }
}
'''


def script(rng):
    """A script that never blocks, and the output a FIFO model predicts."""
    ops, out, chans = [], [], []
    for _ in range(rng.randint(1, 4)):
        cap = rng.choice([0, -3, 1, 1, 2, 3, 5, 8, 64])
        ops.append(f"o:0:{cap}")
        chans.append([max(cap, 1), [], False])
    phase = rng.random()
    for i in range(rng.randint(20, 200)):
        if rng.random() < 0.05:
            phase = rng.random()
        k = rng.randrange(len(chans))
        cap, q, closed = chans[k]
        v = rng.choice([i, -i, 2 ** 63 - 1, -2 ** 63, 0, rng.randrange(-2 ** 40, 2 ** 40)])
        if rng.random() < phase:
            if len(q) < cap or closed:
                op = rng.choice("st")
            else:
                op = "t"
        else:
            op = rng.choice("rT") if q or closed else "T"
        if rng.random() < 0.01:
            op = "c"
        ops.append(f"{op}:{k}:{v}")
        if op in "st":
            ok = not closed and len(q) < cap
            if ok:
                q.append(v)
            if op == "t":
                out.append("true" if ok else "false")
        elif op == "r":
            out.append(str(q.pop(0)) if q else "0")
        elif op == "T":
            out.append(f"{q.pop(0)} true" if q else "0 false")
        else:
            chans[k][2] = True
    return ops, "\n".join(out) + ("\n" if out else "")


def judge(c, p, r):
    """p = (mode, producers, consumers, cap, per, seed, logging, delay) -> complaint or None"""
    mode, P, C, cap, per, seed, log, delay = p
    if r.timeout:
        return "not every sender and receiver came back: no end within the time limit"
    if r.sanitizer:
        return "sanitizer: " + r.sanitizer[:400]
    if r.rc != 0:
        return f"ended with rc={r.rc} {r.etext[-200:]}"
    sends, recvs, order, done, closed_at = {}, {}, {}, set(), None
    final, waits, drained, tried = [], [], None, None
    for ln in r.text.split("\n")[:-1]:
        f = ln.split(" ")
        if f[0] == "S":
            sends[int(f[2])] = (int(f[3]), int(f[4]))
        elif f[0] == "R":
            v = int(f[2])
            if v in recvs:
                return f"value {v} was received twice"
            recvs[v] = (int(f[3]), int(f[4]))
            order.setdefault(f[1], []).append(v)
        elif f[0] in "PC":
            done.add(f[0] + f[1])
        elif f[0] == "F":
            final.append(int(f[1]))
        elif f[0] == "W":
            waits.append(int(f[2]))
        elif f[0] == "OVER":
            return f"more than {cap} values were accepted and not yet taken: {ln}"
        elif f[0] == "CLOSE":
            closed_at = int(f[1])
        elif f[0] == "DRAINED":
            drained = ln
        elif f[0] == "TRY":
            tried = f[1]
        elif f[0] != "END":
            return f"unexpected line {ln!r}"
    if mode == 4:
        want = []
        for i in range(per):
            v = i + 1
            for _ in range(C):
                v = v * 2 + 1
            want.append(v)
        return None if final == want else f"the pipeline delivered {final[:12]}… instead of {want[:12]}…"
    if mode == 3:
        if tried != "false":
            return "try_send on a closed channel returned " + str(tried)
        if drained != "DRAINED 0 false":
            return "a drained, closed channel answers " + str(drained)
        per_p = {}
        for v in recvs:
            per_p.setdefault(v // 1000000, []).append(v % 1000000)
        for s, vs in per_p.items():
            if not 1 <= s <= P or sorted(vs) != list(range(len(vs))):
                return f"sender {s}: received sequence numbers {sorted(vs)[:20]}"
        if len(order.get("99", [])) > cap:
            return f"{len(order['99'])} values were held by a channel of capacity {cap}"
        if log:
            lost = [v for v, (b, e) in sends.items() if e < closed_at and v not in recvs]
            if lost:
                return f"sent before the close and never delivered: {lost[:5]}"
    else:
        want = {(s + 1) * 1000000 + i for s in range(P) for i in range(per)}
        if set(recvs) != want:
            return f"lost {sorted(want - set(recvs))[:5]}, invented {sorted(set(recvs) - want)[:5]}"
    for k, vs in order.items():
        last = {}
        for v in vs:
            if last.get(v // 1000000, -1) >= v:
                return f"receiver {k} saw {v} after {last[v // 1000000]}"
            last[v // 1000000] = v
    if waits and (len(waits) != 4 or any(waits)):
        return f"waiting receivers got {waits} at the close"
    if len(done) != P + C:
        return f"finished: {sorted(done)}"
    if log and mode in (0, 1, 2):
        # values are numbered by sends: A fully sent before B began, then B fully received before A's receive began
        for v in recvs:
            if v in sends and recvs[v][1] < sends[v][0]:
                return f"{v} was received before it was sent"
        xs = sorted((v for v in recvs if v in sends), key=lambda v: sends[v][0])
        for i, b in enumerate(xs):
            for a in xs[:i]:
                if sends[a][1] < sends[b][0] and recvs[b][1] < recvs[a][0]:
                    return f"{a} was sent entirely before {b} but received entirely after it"
    c.seen("orders", hash(tuple(tuple(v) for v in order.values())))
    return None


def check(c):
    rng = c.rng
    vs = {v: Gray(c, v) for v in ("plain", "tsan", "asan")}
    jobs = []
    bins = {}
    for v, g in vs.items():
        for name, src in (("chan", PROG), ("script", SCRIPT)):
            b, r = g.compile(src, name + v)
            if not b:
                c.violation(f"the {name} workload does not compile for {v}: {r.brief()}", {"main.gray": src})
                return
            bins[v, name] = b
    for i in range(c.scale(60, 600)):
        ops, want = script(rng)
        jobs.append((("plain", "plain", "asan")[i % 3], "script", ops, want))
    n = c.scale(150, 2000)
    for i in range(n):
        mode = rng.choice([0, 0, 1, 1, 2, 3, 3, 4, 5])
        P, C = rng.randint(1, 6), rng.randint(1, 6)
        cap = rng.choice([1, 1, 2, 3, 4, 7, 50])
        v = rng.choice(["plain"] * 4 + ["tsan"] * 2 + ["asan"])
        per = rng.choice([1, 3, 20, 60] + ([150] if v == "plain" else []))
        if mode == 3 and P * per <= 2 * C * cap:
            per = 2 * C * cap // P + 2
        if mode == 2:
            per = min(per, 40)
        log = rng.random() < 0.6 and P * per <= 400
        jobs.append((v, "chan", (mode, P, C, cap, per, rng.randrange(1, 10 ** 6), int(log), rng.choice([0, 2, 15])), None))
    # bursts without logging: many short runs, most likely to lose a wake-up
    for i in range(c.scale(60, 600)):
        jobs.append(("plain", "chan", (rng.choice([0, 1, 5]), rng.randint(2, 8), rng.randint(2, 8), rng.choice([1, 1, 2]),
                                       rng.choice([200, 500]), 3 * rng.randrange(1, 10 ** 6) + 2, 0, 1), None))

    def one(j):
        v, name, p, want = j
        return vs[v].run(bins[v, name], [str(x) for x in p], timeout=45)
    bad_runs = 0
    rng.shuffle(jobs)
    results = (x for i in range(0, len(jobs), 24) if bad_runs < 3 for x in zip(jobs[i:i + 24], pmap(one, jobs[i:i + 24], 6)))
    for j, r in results:
        v, name, p, want = j
        c.case((v, name, tuple(p)), True)
        c.count(f"runs_{name}_{v}")
        if name == "script":
            bad = None if r.rc == 0 and not r.sanitizer and r.text == want else f"expected {want[-160:]!r}, got rc={r.rc} {r.text[-160:]!r} {r.etext[-200:]}"
        else:
            c.count("events", r.text.count("\n"))
            c.count(f"mode_{p[0]}")
            bad = judge(c, p, r)
        if bad:
            bad_runs += 1
            c.violation(f"{name} {' '.join(map(str, p))[:200]} ({v}): {bad}", {"main.gray": SCRIPT if name == "script" else PROG},
                        detail={"args": list(map(str, p)), "output": r.text[-4000:], "stderr": r.etext[-4000:]})
    # an impossible capacity is a reported error, not a crash
    g = vs["plain"]
    for cap in (2 ** 62, 2 ** 61, 2 ** 63 - 1, 1 << 45):
        r = g.run(bins["plain", "script"], [f"o:0:{cap}", "t:0:5", "T:0:0"], timeout=60)
        c.case(("cap", cap))
        if not (r.rc == 1 and "panic" in r.etext) and not (r.rc == 0 and r.text == "true\n5 true\n"):
            c.violation(f"channels.open({cap}): rc={r.rc} {r.text[-100:]!r} {r.etext[-200:]}", {"main.gray": SCRIPT})


if __name__ == "__main__":
    main(check, "C27", "every value sent is received exactly once, in order, within the capacity; close wakes everyone; no run hangs or races")
