"""C21: time functions compute calendar facts correctly.

The oracle is an independent proleptic-Gregorian calculation plus Python's zoneinfo for local zones; timestamps sit on
leap days, year and century ends, daylight-saving changes, negative and far years.  Clock reads are bracketed by the
host's clock and must never run backwards; concurrent threads must each get the answer for their own timestamp."""
import sys, os, time, datetime, zoneinfo
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *
DAYS = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MONS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def civil(days):
    days += 719468
    era = days // 146097
    doe = days - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return y + (m <= 2), m, d


def parts(ts, zone):
    off = 0
    if zone != "UTC":
        off = int(datetime.datetime.fromtimestamp(ts, zoneinfo.ZoneInfo(zone)).utcoffset().total_seconds())
    t = ts + off
    days, sec = divmod(t, 86400)
    y, m, d = civil(days)
    yday = days - days_from(y, 1, 1)
    return y, m, d, sec // 3600, sec // 60 % 60, sec % 60, (days + 4) % 7, yday


def days_from(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


THREADS = """
do work(id int) {
    mut ok int = 0
    mut ts int = (id * 365 + 200) * 86400 + id * 3600
    for k in range(0, 3000) {
        if time.year(ts) == 1970 + id && time.hour(ts) == id && strings.starts_with(time.date(ts), "${1970 + id}-") { ok += 1 }
    }
    println("w${id} ${ok}")
}
"""


def check(c):
    rng = c.rng
    body = "mut t int = I(0)\nprintln(\"${time.year(t)} ${time.month(t)} ${time.day(t)} ${time.hour(t)} ${time.minute(t)} ${time.second(t)} ${time.weekday(t)}\")\nprintln(time.date(t))\nprintln(time.to_clock(t))"

    def fmtcases(p):
        y, m, d, H, M, S, w, j = p
        h12 = H % 12 or 12
        return {"%Y": str(y), "%m": f"{m:02}", "%d": f"{d:02}", "%H": f"{H:02}", "%M": f"{M:02}", "%S": f"{S:02}",
                "%%": "%", "%j": f"{j + 1:03}", "%a": DAYS[w][:3], "%A": DAYS[w], "%b": MONS[m - 1][:3], "%B": MONS[m - 1],
                "%I": f"{h12:02}", "%p": "AM" if H < 12 else "PM", "%y": f"{y % 100:02}", "%e": f"{d:2}",
                "%F": f"{y}-{m:02}-{d:02}", "%T": f"{H:02}:{M:02}:{S:02}", "%u": str(w or 7), "%w": str(w), "%n": "\n", "%t": "\t", "%R": f"{H:02}:{M:02}", "%D": f"{m:02}/{d:02}/{y % 100:02}"}

    base = [0, 1, -1, 59, 60, 3599, 3600, 86399, 86400, -86400, -86401, 951782399, 951782400, 951868800, 1078012799, 1078099200, 4107542400, 4107456000, -2203891200, -2203977600, 1000000000, 1234567890, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 253402300799, 1735689599, 1735689600, 1704067199]
    for y in (1600, 1700, 1900, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9999):
        for m, d in ((1, 1), (2, 28), (3, 1), (12, 31)):
            base += [days_from(y, m, d) * 86400, days_from(y, m, d) * 86400 + 86399, days_from(y, m, d) * 86400 - 1]
        if y % 4 == 0 and (y % 100 or y % 400 == 0):
            base.append(days_from(y, 2, 29) * 86400 + 43200)
    base += [rng.randrange(-10 ** 10, 10 ** 11) for _ in range(c.scale(60, 800))]
    zones = ["UTC"] + [z for z in ("America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/Dublin", "Pacific/Apia", "America/Sao_Paulo", "Asia/Kathmandu")
                       if os.path.exists("/usr/share/zoneinfo/" + z)]
    for zi, zone in enumerate(zones):
        s = Suite(c, "time, strings, arrays, threads", THREADS)
        stamps = list(base) if zone == "UTC" else []
        if zone != "UTC":
            z = zoneinfo.ZoneInfo(zone)
            for y in range(1975, 2030):     # both sides of every offset change
                t, end, step = days_from(y, 1, 1) * 86400, days_from(y + 1, 1, 1) * 86400, 86400 * 7
                o = lambda q: datetime.datetime.fromtimestamp(q, z).utcoffset()
                while t < end:
                    if o(t) != o(t + step):
                        lo, hi = t, t + step
                        while hi - lo > 1:
                            mid = (lo + hi) // 2
                            lo, hi = (mid, hi) if o(mid) == o(t) else (lo, mid)
                        stamps += [lo, hi, lo - 3600, hi + 3599]
                    t += step
            stamps = rng.sample(stamps, min(len(stamps), c.scale(30, 300))) + [rng.randrange(0, 2 * 10 ** 9) for _ in range(c.scale(10, 100))]
        far = [] if zone != "UTC" else [10 ** 12, 10 ** 13, 10 ** 15, -10 ** 12, 67767976233532799, -67768040609740800]
        for t in stamps + far:
            p = parts(t, zone)
            y, m, d, H, M, S, w, j = p
            k = f"{zone}" + ("-far" if t in far else "")
            ys = (f"{y:04}", str(y)) if y < 1000 else (str(y),)
            s.add("parts", body, tuple(f"{y} {m} {d} {H} {M} {S} {w}\n{yy}-{m:02}-{d:02}\n{H:02}:{M:02}:{S:02}\n" for yy in ys), (str(t),), k)
            s.add("iso", "println(time.to_iso(I(0)))", lambda r, a=tuple(f"{yy}-{m:02}-{d:02}T{H:02}:{M:02}:{S:02}" for yy in ys): r.rc == 0 and r.text.strip()[:len(a[-1])] in a or r.text.strip()[:len(a[0])] in a, (str(t),), k)
            if 1000 <= y <= 9999:
                fc = fmtcases(p)
                f = "".join(rng.choice(("", " ", "x", "é", "/", "T")) + rng.choice(list(fc)) for _ in range(rng.randrange(0, 9))) + rng.choice(("", "end"))
                e, i = "", 0
                while i < len(f):
                    if f[i] == "%":
                        e += fc[f[i:i + 2]]
                        i += 2
                    else:
                        e += f[i]
                        i += 1
                s.add("format", "print(time.format(S(1), I(0)))", e, (str(t), f), zone)
        if zone == "UTC":
            for n in (50, 500, 511, 512, 2000, 5000, 30000):
                s.add("format", f"mut f string = strings.repeat(S(1), {n})\nmut r string = time.format(f, I(0))\nprintln(\"${{len(r)}} ${{r == strings.repeat(S(2), {n})}}\")", f"{n * 13} true\n", ("1700000000", "%Y|%B", "2023|November"), "long")
            for t in (1 << 62, (1 << 63) - 1, -(1 << 63), 10 ** 18, -10 ** 18, 67768036191676800, -67768040609740801):
                for f in ("year", "month", "day", "hour", "minute", "second", "weekday", "date", "to_iso", "to_clock"):
                    s.add("range", f"println(time.{f}(I(0)))", lambda r: r.rc == 1 and r.panic, (str(t),), "huge")
                s.add("range", "println(time.format(\"%H\", I(0)))", lambda r: r.rc == 1 and r.panic, (str(t),), "huge")
            for _ in range(c.scale(30, 200)):
                a, b = rng.choice(base), rng.choice(base)
                s.add("diff", "println(time.diff(I(0), I(1)))", f"{b - a}\n", (str(a), str(b)), "n")
            s.add("diff", "println(time.diff(I(0), I(1)))", P("P0005"), (str(-(1 << 63)), "1"), "over")

            def clock(r, t0=time.time()):
                if r.rc:
                    return False
                a, ms, ns, b, mono, back, el = map(int, r.text.split())
                t1 = time.time()
                return int(t0) <= a <= b <= t1 + 1 and a * 1000 <= ms <= b * 1000 + 999 and ms * 10 ** 6 <= ns and ns // 10 ** 9 <= b and mono > 0 and back == 0 and el >= 25
            s.add("clock", """mut a int = time.now()
mut ms int = time.now_ms()
mut ns int = time.now_ns()
mut b int = time.now()
mut t0 int = time.tick()
mut back int = 0
mut prev int = t0
for k in range(0, 20000) {
    mut n int = time.tick()
    if n < prev { back += 1 }
    prev = n
}
sleep_ms(25)
println("${a} ${ms} ${ns} ${b} ${prev - t0} ${back} ${time.elapsed_ms(t0)}")""", clock, (), "now")
            n = 8
            s.add("threads", "\n".join(f"mut t{k} = threads.spawn(()work, {k})" for k in range(n)) + "\n" + "\n".join(f"threads.join(t{k})" for k in range(n)),
                  lambda r: r.rc == 0 and sorted(r.text.split("\n")[:-1]) == [f"w{k} 3000" for k in range(8)], tuple("x" * 8), "race")
        s.run((("plain", 1), ("asan", c.scale(8, 2))), env={"TZ": zone})


if __name__ == "__main__":
    main(check, "C21", "calendar functions agree with an independent calendar for every timestamp and zone tried; clocks never run backwards")
