"""C30: the HTTP server answers every request correctly and survives any input.

A Gray server program runs on a loopback port (plain, AddressSanitizer and ThreadSanitizer builds).  Its handlers describe
the request they received in hexadecimal, so the monitor compares every field with what the client put on the wire, in
whatever segments.  Hostile byte streams, disconnects and idle connections are interleaved with well-formed requests; after
them the monitor looks at liveness, at the process's descriptors and threads, and at the sanitizers' reports."""
import sys, os, re, resource, socket, struct, time, threading, subprocess, signal, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SRC = r'''import @server, @encoding, @strings, @strconv, @os, @maps, @arrays
do hx(s string) -> string { return encoding.hex_encode(s) }
do describe(who string, req HttpRequest) -> string {
    mut out string = "${who} ${hx(req.method)} ${hx(req.path)} ${hx(req.body)}"
    for_each k, v in req.query { out = "${out} q:${hx(k)}=${hx(v)}" }
    for_each k, v in req.params { out = "${out} p:${hx(k)}=${hx(v)}" }
    for_each k, v in req.headers { out = "${out} h:${hx(k)}=${hx(v)}" }
    return out
}
do root(req HttpRequest) -> HttpResponse { return server.text(200, describe("root", req)) }
do item(req HttpRequest) -> HttpResponse { return server.text(200, describe("item", req)) }
do put_item(req HttpRequest) -> HttpResponse { return server.json(201, describe("put_item", req)) }
do lit(req HttpRequest) -> HttpResponse { return server.html(202, describe("lit", req)) }
do xb(req HttpRequest) -> HttpResponse { return server.text(200, describe("xb", req)) }
do yc(req HttpRequest) -> HttpResponse { return server.text(200, describe("yc", req)) }
do two(req HttpRequest) -> HttpResponse { return server.text(200, describe("two", req)) }
do raw(req HttpRequest) -> HttpResponse { return server.html(200, req.body) }
do sized(req HttpRequest) -> HttpResponse {
    mut n, err = strconv.to_int(req.params["n"])
    if err != nil { return server.text(400, "bad n") }
    return server.text(200, strings.repeat("0123456789abcde\n", n))
}
do status(req HttpRequest) -> HttpResponse {
    mut n, _ = strconv.to_int(req.params["s"])
    return server.text(n, "status ${n}")
}
do go_away(req HttpRequest) -> HttpResponse {
    mut n, _ = strconv.to_int(req.params["s"])
    return server.redirect(n, "/target?from=${req.params["s"]}")
}
do busy(req HttpRequest) -> HttpResponse {
    mut parts [string] = {}
    for i in range(0, 200) { arrays.append(parts, "${req.params["k"]}-${i}") }
    sleep_ms(5)
    mut t string = strings.join(parts, ",")
    return server.text(200, "${t}|${parts[199]}|${req.body}")
}
do injected(req HttpRequest) -> HttpResponse { return server.redirect(302, req.body) }
do main() {
    mut r = server.add_router()
    mut a [string] = os.args()
    mut port, _ = strconv.to_int(a[1])
    if a[2] != "-" { server.cors(r, a[2]) }
    server.add_route(r, "GET", "/", ()root)
    server.add_route(r, "GET", "/a/lit", ()lit)
    server.add_route(r, "GET", "/a/:x/b", ()xb)
    server.add_route(r, "GET", "/a/:y/c", ()yc)
    server.add_route(r, "GET", "/items/:id", ()item)
    server.add_route(r, "POST", "/items/:id", ()put_item)
    server.add_route(r, "PUT", "/items/:id", ()put_item)
    server.add_route(r, "DELETE", "/items/:id", ()item)
    server.add_route(r, "PATCH", "/items/:id", ()put_item)
    server.add_route(r, "GET", "/u/:user/p/:post", ()two)
    server.add_route(r, "POST", "/raw", ()raw)
    server.add_route(r, "GET", "/sized/:n", ()sized)
    server.add_route(r, "GET", "/status/:s", ()status)
    server.add_route(r, "GET", "/go/:s", ()go_away)
    server.add_route(r, "POST", "/busy/:k", ()busy)
    server.add_route(r, "POST", "/injected", ()injected)
    server.add_route(r, "OPTIONS", "/items/:id", ()item)
    server.add_route(r, "GET", "/nest/:a/:b/:c/end", ()two)
    server.listen(r, port)
}
'''
ROUTES = [("GET", "/", "root", 200, "text/plain"), ("GET", "/a/lit", "lit", 202, "text/html"),
          ("GET", "/a/:x/b", "xb", 200, "text/plain"), ("GET", "/a/:y/c", "yc", 200, "text/plain"),
          ("GET", "/items/:id", "item", 200, "text/plain"), ("POST", "/items/:id", "put_item", 201, "application/json"),
          ("PUT", "/items/:id", "put_item", 201, "application/json"), ("DELETE", "/items/:id", "item", 200, "text/plain"),
          ("PATCH", "/items/:id", "put_item", 201, "application/json"), ("GET", "/u/:user/p/:post", "two", 200, "text/plain"),
          ("OPTIONS", "/items/:id", "item", 200, "text/plain"), ("GET", "/nest/:a/:b/:c/end", "two", 200, "text/plain")]
PATIENCE = 60     # seconds without any progress that count as a hang


SHORT = r'''#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/socket.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdatomic.h>
static atomic_uint ns, nr;
ssize_t send(int fd, const void *p, size_t n, int f) {
    static ssize_t (*real)(int, const void *, size_t, int);
    if (!real) real = (ssize_t (*)(int, const void *, size_t, int))dlsym(RTLD_NEXT, "send");
    unsigned k = atomic_fetch_add(&ns, 1);
    if (k % 5 == 3) { errno = EINTR; return -1; }
    size_t m = 1 + (k * 7919u) % 6000;
    return real(fd, p, n < m ? n : m, f);
}
ssize_t recv(int fd, void *p, size_t n, int f) {
    static ssize_t (*real)(int, void *, size_t, int);
    if (!real) real = (ssize_t (*)(int, void *, size_t, int))dlsym(RTLD_NEXT, "recv");
    unsigned k = atomic_fetch_add(&nr, 1);
    if (k % 5 == 2) { errno = EINTR; return -1; }
    size_t m = 1 + (k * 7919u) % 3000;
    return real(fd, p, n < m ? n : m, f);
}
'''


def hx(b):
    return b.hex()


class Req:
    def __init__(self, method, path, query=(), headers=(), body=None, clen=True, eol=b"\r\n"):
        self.method, self.path, self.query, self.body = method, path, list(query), body
        self.headers = list(headers)
        if body is not None and clen:
            self.headers.insert(random.Random(len(body)).randrange(len(self.headers) + 1), (b"Content-Length", b"%d" % len(body)))
        q = b"&".join(k if v is None else k + b"=" + v for k, v in self.query)
        self.wire = method + b" " + path + (b"?" + q if self.query else b"") + b" HTTP/1.1" + eol
        for k, v in self.headers:
            self.wire += k + b": " + v + eol
        self.wire += eol + (body or b"")

    def expected(self):
        """(status, content type, body) by the documented routing rules, first registered route first."""
        segs = self.path.split(b"/")
        if len(segs) > 2 and segs[-1] == b"":
            segs = segs[:-1]        # a single trailing slash is accepted
        for m, pat, who, st, ct in ROUTES:
            ps = pat.encode().split(b"/")
            if m.encode() != self.method or len(ps) != len(segs):
                continue
            params = []
            for a, b in zip(ps, segs):
                if a.startswith(b":") and b:
                    params.append((a[1:], b))
                elif a != b:
                    break
            else:
                out = "%s %s %s %s" % (who, hx(self.method), hx(self.path), hx(self.body or b""))
                for tag, kvs in (("q", [(k, v or b"") for k, v in self.query]), ("p", params), ("h", self.headers)):
                    d = {}
                    for k, v in kvs:
                        d[k] = v
                    for k, v in d.items():
                        out += " %s:%s=%s" % (tag, hx(k), hx(v))
                return st, ct, out.encode()
        return 404, "text/plain", b"Not Found"


def exchange(port, segments, pause=0.0, half_close=False, rcvbuf=None, deadline=PATIENCE):
    """Send the segments one by one, read to the end.  Returns (bytes, how it ended)."""
    s = socket.socket()
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    s.settimeout(deadline)
    out, connected = b"", False
    try:
        s.connect(("127.0.0.1", port))
        try:
            for i, seg in enumerate(segments):
                if pause and i:
                    time.sleep(pause)
                s.sendall(seg)
            if half_close:
                s.shutdown(socket.SHUT_WR)
        except socket.timeout:
            raise
        except OSError:         # reset by the server
            pass
        connected = True
        while True:
            d = s.recv(65536)
            if not d:
                return out, "closed"
            out += d
    except socket.timeout:
        return out, "hang"
    except OSError as e:
        return out, "reset" if connected else "refused:%s" % e
    finally:
        s.close()


def parse(resp):
    """(status, reason line, [(header, value)], body), or None if this is no HTTP response."""
    head, sep, body = resp.partition(b"\r\n\r\n")
    if not sep:
        return None
    lines = head.split(b"\r\n")
    m = re.fullmatch(rb"HTTP/1\.1 (\d{3}) ([\x20-\x7e]+)", lines[0])
    if not m:
        return None
    hs = []
    for l in lines[1:]:
        k, s, v = l.partition(b": ")
        if not s or not re.fullmatch(rb"[A-Za-z-]+", k) or b"\n" in v or b"\r" in v:
            return None
        hs.append((k.decode(), v))
    return int(m.group(1)), lines[0], hs, body


def problem(resp, how, want, cors=None):
    """None, or what is wrong with this response to a well-formed request."""
    if how != "closed":
        return "the connection ended with '%s' after %d response bytes" % (how, len(resp))
    p = parse(resp)
    if not p:
        return "not a well-formed HTTP response: %r" % resp[:300]
    st, line, hs, body = p
    d = dict(hs)
    if len(d) != len(hs):
        return "repeated response headers: %r" % hs
    wst, wct, wbody = want
    loc = None
    if wct and wct.startswith("location "):
        loc, wct = wct[9:], None
    if st != wst:
        return "status %d, expected %d (%r)" % (st, wst, resp[:200])
    exp = {"Content-Length": b"%d" % len(wbody), "Connection": b"close"}
    if wct:
        exp["Content-Type"] = wct.encode()
    if loc is not None:
        exp["Location"] = loc.encode()
    if cors:
        exp.update({"Access-Control-Allow-Origin": cors.encode(),
                    "Access-Control-Allow-Methods": b"GET, POST, PUT, DELETE, PATCH, OPTIONS",
                    "Access-Control-Allow-Headers": b"Content-Type, Authorization"})
    for k, v in exp.items():
        if d.get(k) != v:
            return "header %s is %r, expected %r" % (k, d.get(k), v)
    extra = set(d) - set(exp) - {"Date", "Server"}
    if extra:
        return "unexpected headers %r" % sorted(extra)
    if body != wbody:
        n = next((i for i, (a, b) in enumerate(zip(body, wbody)) if a != b), min(len(body), len(wbody)))
        return "body differs at byte %d: got %d bytes ...%r, expected %d bytes ...%r" % (
            n, len(body), body[max(0, n - 40):n + 40], len(wbody), wbody[max(0, n - 40):n + 40])
    return None


class Server:
    def __init__(self, c, g, binary, cors="-", preload=None):
        self.c, self.variant, self.cors = c, g.variant, None if cors == "-" else cors
        for _ in range(20):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                self.port = s.getsockname()[1]
            self.log = os.path.join(c.work, "server-%s-%d.log" % (g.variant, self.port))
            self.f = open(self.log, "wb")
            self.p = subprocess.Popen([binary, str(self.port), cors], stdout=self.f, stderr=self.f, stdin=subprocess.DEVNULL,
                                      env=clean_env({**SAN_ENV, **({"LD_PRELOAD": preload} if preload else {})}), cwd=c.work)
            for _ in range(600):
                if b"listening" in open(self.log, "rb").read() or self.p.poll() is not None:
                    break
                time.sleep(0.05)
            if self.p.poll() is None or b"failed to listen" not in open(self.log, "rb").read():
                return

    def dead(self):
        return self.p.poll() is not None

    def usage(self):
        try:
            return (len(os.listdir("/proc/%d/fd" % self.p.pid)), len(os.listdir("/proc/%d/task" % self.p.pid)))
        except OSError:
            return None

    def stop(self):
        rc = self.p.poll()
        if rc is None:
            self.p.send_signal(signal.SIGTERM)
            self.p.wait()
        self.f.close()
        log = open(self.log, "rb").read().decode("utf-8", "replace")
        return rc, log


def segmentations(rng, wire, how):
    n = len(wire)
    if how == "whole":
        return [wire]
    if how == "bytes":
        return [wire[i:i + 1] for i in range(n)]
    if how == "head-body":
        i = wire.index(b"\r\n\r\n") + 4 if b"\r\n\r\n" in wire else n // 2
        return [x for x in (wire[:i], wire[i:]) if x]
    if how == "crlf":      # cut inside every line end
        cuts = [i + 1 for i in range(min(n, 4000)) if wire[i:i + 2] == b"\r\n"]
    else:
        cuts = sorted({rng.randrange(1, n) for _ in range(rng.randrange(1, 9))}) if n > 1 else []
    return [wire[a:b] for a, b in zip([0] + cuts, cuts + [n]) if a < b]


TOK = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def word(rng, lo, hi, alpha=TOK):
    return bytes(rng.choice(alpha) for _ in range(rng.randrange(lo, hi + 1)))


def good_request(rng, c):
    PATHC = TOK + b"-._~%!$'()*+,;=@:"
    seg = lambda: word(rng, 1, rng.choice((3, 12, 60)), PATHC)
    kind = rng.randrange(14)
    if rng.random() < .2:
        pat = rng.choice(ROUTES)[1].encode()
        path = re.sub(rb":[a-z]+", lambda m: seg().replace(b"/", b""), pat)
        near = rng.choice((lambda p, i: p[:i] + rng.choice((b"%", b"*", b"_", b":", b"x", b".")) + p[i + 1:], lambda p, i: p[:i] + p[i + 1:],
                           lambda p, i: p + rng.choice((b"x", b"/x", b"//", b"/:id", b"%2f")), lambda p, i: p[:i] + p[i:i + 1].upper() + p[i + 1:],
                           lambda p, i: p[:i]))(path, rng.randrange(1, len(path)) if len(path) > 1 else 1)
        return Req(rng.choice((b"GET", b"GET", b"POST", b"get", b"GETX", b"HEAD", b"PROPFIND")), near or b"/", headers=[(b"Host", b"h")])
    method = rng.choice((b"GET", b"GET", b"GET", b"POST", b"PUT", b"DELETE", b"PATCH", b"OPTIONS"))
    path = {0: b"/", 1: b"/a/lit", 2: b"/a/" + seg() + b"/b", 3: b"/a/" + seg() + b"/c", 4: b"/u/" + seg() + b"/p/" + seg(),
            5: b"/nest/" + seg() + b"/" + seg() + b"/" + seg() + b"/end", 6: b"/" + seg(), 7: b"/items/", 8: b"/items/" + seg() + b"/",
            9: b"/a//b", 10: b"/items/" + seg() + b"/" + seg(), 11: b"/a/lit/b"}.get(kind, b"/items/" + seg())
    QC = TOK + b"-._~%+/:@!$'()*,;"
    query = []
    for _ in range(rng.choice((0, 0, 1, 2, 5, 30))):
        query.append((word(rng, 1, 8, QC), rng.choice((word(rng, 0, 12, QC + b"=?"), word(rng, 1, 5, QC), None))))
    headers = [(b"Host", b"127.0.0.1")]
    HV = bytes(range(0x21, 0x7f))
    for i in range(rng.choice((0, 1, 3, 10, 40))):
        v = word(rng, 0, rng.choice((5, 30, 200)), HV)
        if len(v) > 3 and rng.random() < .3:
            v = v[:2] + rng.choice((b" ", b"  ", b"\t", b": ")) + v[2:]
        if rng.random() < .1:
            v = v + bytes([0xe9, 0x80, 0xff]) + b"z"
        headers.append((b"X-" + word(rng, 1, 10) + b"-%d" % i, v))
    body = None
    if method in (b"POST", b"PUT", b"PATCH") and rng.random() < .85:
        n = rng.choice((0, 1, 2, 17, 300, 4096, rng.randrange(0, 20000)))
        body = rng.choice((lambda: bytes(rng.randrange(256) for _ in range(n)),
                           lambda: (b"GET /items/evil HTTP/1.1\r\nX: y\r\n\r\n" * (n // 34 + 1))[:n],
                           lambda: bytes(n)))()
    return Req(method, path, query, headers, body, eol=b"\r\n")


def hostile(rng):
    """(name, bytes, half_close) that is no complete well-formed request."""
    g = b"GET /items/1 HTTP/1.1\r\nHost: x\r\n\r\n"
    out = [("empty", b"", True), ("nothing but line ends", b"\r\n\r\n\r\n", True), ("no version", b"GET /items/1\r\n\r\n", False),
           ("no target", b"GET\r\n\r\n", False), ("empty target", b"GET  HTTP/1.1\r\n\r\n", False), ("no method", b" /items/1 HTTP/1.1\r\n\r\n", False),
           ("binary", bytes(range(256)) * 4 + b"\r\n\r\n", True), ("NULs", bytes(5000), True), ("NULs and an end", b"GET / HTTP/1.1\r\n" + bytes(50) + b"\r\n\r\n", False),
           ("NUL in the path", b"GET /items/1\0x HTTP/1.1\r\n\r\n", False), ("NUL in a header", b"GET /items/1 HTTP/1.1\r\nA: b\0c\r\n\r\n", False),
           ("header without a colon", b"GET /items/1 HTTP/1.1\r\nnonsense\r\n\r\n", False), ("header without a name", b"GET /items/1 HTTP/1.1\r\n: v\r\n\r\n", False),
           ("space before the colon", b"GET /items/1 HTTP/1.1\r\nContent-Length : 5\r\n\r\nhello", False),
           ("length not a number", b"POST /items/1 HTTP/1.1\r\nContent-Length: abc\r\n\r\nhello", False),
           ("negative length", b"POST /items/1 HTTP/1.1\r\nContent-Length: -5\r\n\r\nhello", False),
           ("signed length", b"POST /items/1 HTTP/1.1\r\nContent-Length: +5\r\n\r\nhello", False),
           ("hexadecimal length", b"POST /items/1 HTTP/1.1\r\nContent-Length: 0x5\r\n\r\nhello", False),
           ("empty length", b"POST /items/1 HTTP/1.1\r\nContent-Length: \r\n\r\nhello", True),
           ("huge length", b"POST /items/1 HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\nhello", False),
           ("length of 2^32", b"POST /items/1 HTTP/1.1\r\nContent-Length: 4294967296\r\n\r\nhello", True),
           ("length of 2^64 + 5", b"POST /items/1 HTTP/1.1\r\nContent-Length: 18446744073709551621\r\n\r\nhello", True),
           ("two lengths", b"POST /items/1 HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello!", False),
           ("body cut short", b"POST /items/1 HTTP/1.1\r\nContent-Length: 500\r\n\r\nhello", True),
           ("no version number", b"GET /items/1 XTTP/1.1\r\n\r\n", False),
           ("long method", b"G" * 5000 + b" /items/1 HTTP/1.1\r\n\r\n", False), ("16-byte method", b"GETGETGETGETGETG /items/1 HTTP/1.1\r\n\r\n", False),
           ("long path", b"GET /items/" + b"x" * 3000 + b" HTTP/1.1\r\n\r\n", False), ("path at the limit", b"GET /" + b"x" * 2047 + b" HTTP/1.1\r\n\r\n", False),
           ("endless path", b"GET /" + b"x" * 300000, True), ("endless header", b"GET /items/1 HTTP/1.1\r\nA: " + b"y" * 300000, True),
           ("endless headers", b"GET /items/1 HTTP/1.1\r\n" + b"A: b\r\n" * 60000, True), ("TLS hello", bytes.fromhex("16030100b0010000ac0303") + bytes(165), True),
           ("redirect target with line breaks", Req(b"POST", b"/injected", body=b"/x\r\nSet-Cookie: a=b").wire, False),
           ("redirect target with a bare newline", Req(b"POST", b"/injected", body=b"/x\nX-Evil: 1").wire, False)]
    for i in range(1, len(g) - 1):
        out.append(("cut after %d bytes" % i, g[:i], True))
    return out


def check(c):
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    if soft < 8192:
        resource.setrlimit(resource.RLIMIT_NOFILE, (8192 if hard == resource.RLIM_INFINITY else min(hard, 8192), hard))
    gs = {v: Gray(c, v) for v in ("plain", "asan", "tsan")}
    bins = {}
    for v, g in gs.items():
        b, r = g.compile(SRC, name="srv%s" % v)
        if not b:
            c.violation("the server program does not build: " + r.brief(), {"main.gray": SRC})
            return
        bins[v] = b
    lock = threading.Lock()
    bad = []

    def fail(srv, what, wire):
        with lock:
            bad.append((srv.variant, what, wire if isinstance(wire, bytes) else b"|".join(wire)))

    def one(srv, rng, req, want, seg, **kw):
        segs = segmentations(rng, req.wire, seg)
        resp, how = exchange(srv.port, segs, pause=0.002 if len(segs) < 60 else 0, **kw)
        p = problem(resp, how, want, srv.cors)
        with lock:
            c.case("%s/%s/%s/%d" % (srv.variant, req.method.decode("latin1"), seg, want[0]), len(req.wire) > 40)
            c.count("requests"), c.count("segments", len(segs)), c.count("response_bytes", len(resp))
        if p:
            fail(srv, "%s %s sent %s: %s" % (req.method.decode("latin1"), req.path[:60].decode("latin1"), seg, p), req.wire)

    def alive(srv, after):
        q = Req(b"GET", b"/items/probe", headers=[(b"Host", b"x")])
        resp, how = exchange(srv.port, [q.wire])
        p = problem(resp, how, q.expected(), srv.cors)
        if p or srv.dead():
            fail(srv, "after '%s' an ordinary request fails: %s%s" % (after, p, " (the server process ended)" if srv.dead() else ""), q.wire)

    def session(srv, k, n, seed):
        T0 = time.time()
        phase = lambda name: os.environ.get("VERIF_DEBUG") and print(srv.variant, name, round(time.time() - T0, 1), flush=True)
        rng = random.Random(seed)
        SEG = ("whole", "whole", "bytes", "head-body", "crlf", "random", "random")
        # 1. well-formed requests, many segmentations, several clients at once
        reqs = [(good_request(rng, c), rng.choice(SEG)) for _ in range(n)]
        pmap(lambda q: one(srv, random.Random(len(q[0].wire)), q[0], q[0].expected(), q[1] if len(q[0].wire) < 3000 or q[1] != "bytes" else "random"), reqs, workers=k)
        phase(1)
        # 2. big and binary bodies both ways, statuses, redirects
        big = []
        for size in (65000, 65535, 65536, 65537, 70000, 131072, 300001):
            body = rng.randbytes(size)
            big.append((Req(b"POST", b"/raw", body=body), (200, "text/html", body), "head-body"))
            big.append((Req(b"POST", b"/raw", body=body), (200, "text/html", body), "random"))
        for m in (0, 1, 4000, 4095, 4096, 4097, 9000, 100000):
            big.append((Req(b"GET", b"/sized/%d" % m), (200, "text/plain", b"0123456789abcde\n" * m), "whole"))
        for st in (200, 201, 400, 401, 403, 404, 405, 409, 410, 418, 422, 429, 500, 501, 502, 503, 599, 300, 302):
            big.append((Req(b"GET", b"/status/%d" % st), (st, "text/plain", b"status %d" % st), "random"))
        for st in (301, 302, 303, 307, 308):
            big.append((Req(b"GET", b"/go/%d" % st), (st, "location /target?from=%d" % st, b""), "random"))
        pmap(lambda q: one(srv, random.Random(7), q[0], q[1], q[2]), big, workers=k)
        phase(2)
        # 3. concurrent handlers do not see each other's data
        def busy(i):
            body = b"body-%d-" % i + rng_word[i]
            key = b"k%d" % i
            want = ",".join("k%d-%d" % (i, j) for j in range(200)) + "|k%d-199|" % i
            one(srv, random.Random(i), Req(b"POST", b"/busy/" + key, body=body), (200, "text/plain", want.encode() + body), "random")
        rng_word = [word(rng, 1, 3000) for _ in range(n // 2)]
        pmap(busy, range(n // 2), workers=16)
        alive(srv, "concurrent requests")
        base = srv.usage()
        phase(3)
        # 4. idle and slow clients do not stop the others
        idle = []
        for i in range(24):
            s = socket.create_connection(("127.0.0.1", srv.port))
            s.sendall((b"", b"GET /items/1 HT", b"POST /raw HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc")[i % 3])
            idle.append(s)
        alive(srv, "idle connections")
        phase(4)
        # 5. hostile byte streams
        hs = hostile(rng)
        def attack(h):
            name, wire, half = h
            resp, how = exchange(srv.port, segmentations(random.Random(len(wire)), wire, random.Random(name).choice(("whole", "random"))) if wire else [], half_close=half)
            with lock:
                c.case("%s/hostile/%s/%s" % (srv.variant, name.split(" after")[0], how), True)
                c.count("hostile_streams")
            if how == "hang":
                fail(srv, "'%s': neither an answer nor a closed connection" % name, wire)
            elif how.startswith("refused"):
                fail(srv, "'%s': %s" % (name, how), wire)
            elif resp:
                p = parse(resp)
                if not p and how == "closed":
                    fail(srv, "'%s' gets no well-formed response: %r" % (name, resp[:200]), wire)
                elif p and p[0] < 400:
                    fail(srv, "'%s' is answered as a good request: %r" % (name, resp[:200]), wire)
                elif p and any(k.lower() in ("set-cookie", "x-evil") for k, _ in p[2]):
                    fail(srv, "'%s' injects a response header: %r" % (name, resp[:300]), wire)
        pmap(attack, hs, workers=k)
        alive(srv, "hostile requests")
        phase(5)
        # 6. mutated requests: no verdict on the answer, only that it is one and that the server lives
        def mutated(i):
            r2 = random.Random(seed * 1000 + i)
            w = bytearray(good_request(r2, c).wire[:6000])
            for _ in range(r2.randrange(1, 8)):
                j = r2.randrange(len(w))
                op = r2.randrange(4)
                if op == 0: w[j] = r2.randrange(256)
                elif op == 1: del w[j:j + r2.randrange(1, 20)]
                elif op == 2: w[j:j] = r2.choice((b"\r\n", b"\0", b" ", b":", b"\n\n", b"%00", b"\xff" * 9, b"?&=&", b"\r\n\r\n"))
                else: w[j:j] = w[:r2.randrange(1, 40)]
                if not w: w = bytearray(b"x")
            resp, how = exchange(srv.port, segmentations(r2, bytes(w), "random"), half_close=True)
            with lock:
                c.case("%s/mutated/%s/%s" % (srv.variant, how, resp[9:12].decode("latin1")), True)
                c.count("mutated_streams")
            if how == "hang" or how.startswith("refused"):
                fail(srv, "a mutated request: %s" % how, bytes(w))
            elif resp and how == "closed" and not parse(resp):
                fail(srv, "a mutated request gets no well-formed response: %r" % resp[:200], bytes(w))
        pmap(mutated, range(n * 2), workers=k)
        alive(srv, "mutated requests")
        phase(6)
        # 7. clients that vanish: reset while the response is being written, or before it is
        for i in range(max(12, n // 6)):
            s = socket.create_connection(("127.0.0.1", srv.port))
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            s.sendall((Req(b"GET", b"/sized/60000").wire, Req(b"POST", b"/busy/z", body=b"q").wire, b"GET /it")[i % 3])
            if i % 2 and i % 3 != 2:
                s.recv(100)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
            c.count("resets")
            if srv.dead():
                fail(srv, "the server process ended after a client reset its connection", b"")
                break
        alive(srv, "reset connections")
        phase(7)
        # 8. slow readers get the whole response
        q = Req(b"GET", b"/sized/30000")
        one(srv, rng, q, (200, "text/plain", b"0123456789abcde\n" * 30000), "whole", rcvbuf=4096)
        phase(8)
        # 9. pipelined extra bytes do not disturb the first request
        q = Req(b"POST", b"/items/7", body=b"hello")
        resp, how = exchange(srv.port, [q.wire + b"GET / HTTP/1.1\r\n\r\n" * 50])
        p = parse(resp)
        want = q.expected()
        if how == "closed" and (not p or p[0] != want[0] or not p[3].startswith(want[2])):
            fail(srv, "a request followed by more bytes is not answered as itself: %r" % resp[:300], q.wire)
        for s in idle:
            s.close()
        phase(9)
        # 10. connections and threads are released
        t0 = time.time()
        while time.time() - t0 < PATIENCE:
            u = srv.usage()
            if u is None or (u[0] <= base[0] and u[1] <= base[1]):
                break
            time.sleep(0.05)
        else:
            fail(srv, "descriptors/threads %s before the hostile clients, %s a minute after the last one left" % (base, u), b"")
        alive(srv, "everything")
        # 11. a long run of requests does not accumulate memory
        if srv.variant == "plain" and srv.cors is None:
            def load():
                q = Req(b"POST", b"/items/9", body=b"m" * 20000)
                pmap(lambda i: one(srv, random.Random(i), q, q.expected(), "whole"), range(400), workers=4)
                for l in open("/proc/%d/status" % srv.p.pid):
                    if l.startswith("VmRSS"):
                        return int(l.split()[1])
            first, second = load(), load()
            c.sample("resident memory after 400 and after 800 equal requests: %d KB, %d KB" % (first, second))
            if second - first > 10000:
                fail(srv, "400 equal requests grew the process from %d to %d KB" % (first, second), b"")
            crowd = []
            for i in range(1100):
                try:
                    crowd.append(socket.create_connection(("127.0.0.1", srv.port), timeout=PATIENCE))
                except OSError:
                    break
            c.count("simultaneous_connections", len(crowd))
            resp, how = exchange(srv.port, [Req(b"GET", b"/items/1").wire])
            p = parse(resp)
            if how == "hang" or srv.dead() or (how == "closed" and (not p or p[0] not in (200, 503))):
                fail(srv, "with %d connections open: %s %r" % (len(crowd), how, resp[:200]), b"")
            for s in crowd:
                s.close()
            t0 = time.time()
            while time.time() - t0 < PATIENCE and (srv.usage() or (0, 0))[1] > base[1] + 2:
                time.sleep(0.05)
            alive(srv, "%d simultaneous connections" % len(crowd))
        c.count("usage_checks")

    so = os.path.join(c.work, "short.so")
    open(c.work + "/short.c", "w").write(SHORT)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, c.work + "/short.c", "-ldl"], check=True)
    plans = [("plain", "-", c.scale(500, 5000)), ("plain", "https://example.org:8443", c.scale(100, 1000)),
             ("asan", "-", c.scale(200, 3000)), ("tsan", "*", c.scale(80, 800)),
             ("plain", "null", c.scale(80, 800))]
    servers = []
    for i, (v, cors, n) in enumerate(plans):
        srv = Server(c, gs[v], bins[v], cors, so if cors == "null" else None)
        if srv.dead():
            c.violation("%s server: it does not start: %r" % (v, open(srv.log, "rb").read()[-1500:]), {"main.gray": SRC})
            return
        servers.append((srv, n, c.seed * 100 + i))
    try:
        ths = [threading.Thread(target=lambda a=a: guarded(a)) for a in servers]
        errs = []
        def guarded(a):
            try:
                session(a[0], 4 if a[0].variant != "plain" else 8, a[1], a[2])
            except Exception as e:
                errs.append((a[0], e))
        for t in ths: t.start()
        for t in ths: t.join()
    finally:
        ends = [(s[0],) + s[0].stop() for s in servers]
    for srv, rc, log in ends:
        r = Result(0, log.encode(), b"", False, [])
        if r.sanitizer:
            c.violation("%s server: %s" % (srv.variant, r.sanitizer[:1500]), {"main.gray": SRC, "server.log": log})
        elif rc is not None:
            c.violation("%s server: the process ended with status %s: %s" % (srv.variant, rc, log[-500:]), {"main.gray": SRC, "server.log": log})
        c.case("end/%s/%s" % (srv.variant, srv.cors), True)
    for i, (v, what, wire) in enumerate(bad):
        if i < 12:
            c.violation("%s server: %s" % (v, what), {"main.gray": SRC, "request.bin": wire})
        else:
            c.count("further_failures")
    for srv, e in errs:
        if not bad and srv.p.returncode in (None, -signal.SIGTERM):
            raise e
        c.violation("%s server: the session could not go on: %r" % (srv.variant, e), {"main.gray": SRC})


if __name__ == "__main__":
    main(check, "C30", "every well-formed request, in any segmentation, is answered by its route's handler with all fields intact and the "
         "response byte-exact; hostile or aborted connections never get a success response, never hang, leak or stop the server; no sanitizer report")
