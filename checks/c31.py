"""C31: the HTTP client and the sockets deliver exactly the bytes exchanged.

Scripted peers on the loopback interface record every byte a Gray program sends and answer with prescribed bytes in
prescribed segments, stop early, reset, or say nothing.  The monitor compares the wire with what the program asked for, and
the program's results with what the peer did.  The program runs plain, with AddressSanitizer, and with short and interrupted
transfers injected into send and recv."""
import sys, os, re, socket, struct, subprocess, threading, time, random, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from c30 import SHORT, TOK, word

PATIENCE = 60

CLIENT = r'''import @http, @encoding, @strings, @strconv, @os, @io, @maps
do hx(s string) -> string { return encoding.hex_encode(s) }
do un(s string) -> string { return encoding.hex_decode(s) }
do show(i int, r HttpResponse, err Error) {
    if err != nil {
        println("${i} error ${r.status} ${hx(err.message)}")
    } else {
        mut out string = "${i} ok ${r.status} ${hx(r.body)}"
        for_each k, v in r.headers { out = "${out} ${hx(k)}=${hx(v)}" }
        println(out)
    }
}
do main() {
    mut a [string] = os.args()
    mut text, err = io.read_file(a[1])
    if err != nil { println("no script") }
    mut lines [string] = strings.split(text, "\n")
    for i in range(0, len(lines)) {
        mut f [string] = strings.split(lines[i], " ")
        mut hs [string:string] = {:}
        for j in range(3, len(f)) {
            mut kv [string] = strings.split(f[j], "=")
            hs[un(kv[0])] = un(kv[1])
        }
        mut url string = un(f[1])
        mut body string = un(f[2])
        if f[0] == "GET" {
            mut r, e = http.get(url, hs)
            show(i, r, e)
        } or f[0] == "POST" {
            mut r, e = http.post(url, body, hs)
            show(i, r, e)
        } or f[0] == "PUT" {
            mut r, e = http.put(url, body, hs)
            show(i, r, e)
        } or f[0] == "PATCH" {
            mut r, e = http.patch(url, body, hs)
            show(i, r, e)
        } or f[0] == "DELETE" {
            mut r, e = http.delete(url, hs)
            show(i, r, e)
        } else {
            mut r, e = http.head(url, hs)
            show(i, r, e)
        }
    }
    println("end")
}
'''

SOCK = r'''import @net, @encoding, @strings, @strconv, @os, @io, @bytes
do hx(s string) -> string { return encoding.hex_encode(s) }
do pattern(n int) -> string {
    mut unit string = "0123456789abcdefghijklmnopqrstuvwxyz-${n}-"
    mut s string = strings.repeat(unit, n / len(unit) + 1)
    return strings.slice(s, 0, n)
}
do number(s string) -> int {
    mut n, _ = strconv.to_int(s)
    return n
}
do step(sock net.Socket, f [string]) {
    if f[0] == "send" {
        mut n, e = net.send(sock, encoding.hex_decode(f[1]))
        println("send ${n} ${e == nil}")
    } or f[0] == "flood" {
        mut n, e = net.send(sock, pattern(number(f[1])))
        println("send ${n} ${e == nil}")
    } or f[0] == "recv" {
        mut s, e = net.receive(sock, number(f[1]))
        println("recv ${hx(s)} ${e == nil}")
    } or f[0] == "drain" {
        mut total int = 0
        mut sum int = 7
        mut more bool = true
        while more {
            mut s, e = net.receive(sock, number(f[1]))
            if e != nil {
                more = false
            } else {
                total += len(s)
                mut b [byte] = bytes.from_string(s)
                for_each x in b { sum = (sum * 31 + cast(x, int)) % 1000000007 }
            }
        }
        println("drain ${total} ${sum}")
    } or f[0] == "timeout" {
        net.set_timeout(sock, number(f[1]))
        println("timeout")
    } or f[0] == "sleep" {
        sleep_ms(number(f[1]))
        println("sleep")
    } or f[0] == "close" {
        net.close(sock)
        println("close")
    }
}
do main() {
    mut a [string] = os.args()
    mut text, err = io.read_file(a[1])
    if err != nil { println("no script") }
    mut lines [string] = strings.split(text, "\n")
    mut k int = 0
    while k < len(lines) {
        mut f [string] = strings.split(lines[k], " ")
        k += 1
        if f[0] == "connect" {
            mut s, e = net.connect(encoding.hex_decode(f[1]), number(f[2]))
            println("connect ${e == nil}")
            mut more bool = true
            while more && k < len(lines) {
                mut g [string] = strings.split(lines[k], " ")
                k += 1
                if g[0] == "done" { more = false } else { step(s, g) }
            }
        } or f[0] == "resolve" {
            mut s, e = net.resolve(encoding.hex_decode(f[1]))
            println("resolve ${s} ${e == nil}")
        } or f[0] == "listen" {
            mut l, e = net.listen(encoding.hex_decode(f[1]), number(f[2]))
            println("listen ${e == nil}")
            if e == nil {
                mut s, e2 = net.accept(l)
                println("accept ${e2 == nil}")
                mut more bool = true
                while more && k < len(lines) {
                    mut g [string] = strings.split(lines[k], " ")
                    k += 1
                    if g[0] == "done" { more = false } else { step(s, g) }
                }
                net.close(l)
            }
        }
    }
    println("end")
}
'''


HELD = []


def refusing():
    """A port that refuses connections for as long as the check runs: bound, never listening."""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    HELD.append(s)
    return s.getsockname()[1]


def hx(b):
    return (b if isinstance(b, bytes) else b.encode("latin1")).hex()


def unhex(s):
    return bytes.fromhex(s)


class Case:
    """One client call and what the peer does with it."""
    def __init__(self, name, method=b"GET", url=None, path=b"", body=b"", headers=(), segments=(), end="close", want=None, connects=True,
                 hold=False, wire_path=None):
        self.name, self.method, self.url, self.path, self.body, self.headers = name, method, url, path, body, list(headers)
        self.segments, self.end, self.want, self.connects, self.wire_path = list(segments), end, want, connects, wire_path
        self.got = None       # bytes the peer received
        self.conns = 0


class Peer:
    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.cases, self.stray, self.stop = {}, [], False
        self.lock = threading.Lock()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            try:
                k, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(k,), daemon=True).start()

    def serve(self, k):
        k.settimeout(PATIENCE)
        k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        data = b""
        try:
            while b"\r\n\r\n" not in data:
                d = k.recv(65536)
                if not d:
                    break
                data += d
            head, _, rest = data.partition(b"\r\n\r\n")
            m = re.search(rb"(?i)\r\nContent-Length: *(\d+)", head)
            need = int(m.group(1)) if m else 0
            m = re.match(rb"\S+ /?\??(\d+)", head)
            c = self.cases.get(int(m.group(1))) if m else None
            if c is None:
                with self.lock:
                    self.stray.append(data[:300])
                k.close()
                return
            if c.end == "early":          # answer before reading the body
                need = 0
            while len(rest) < need:
                d = k.recv(65536)
                if not d:
                    break
                rest += d
            with self.lock:
                c.got, c.conns = head + b"\r\n\r\n" + rest, c.conns + 1
            for i, seg in enumerate(c.segments):
                if i and len(c.segments) < 80:
                    time.sleep(0.001)
                k.sendall(seg)
            if c.end == "reset":
                time.sleep(0.01)
                k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif c.end == "hold":         # the client has everything and is the one to close
                k.recv(1)
            elif c.end == "early":
                k.shutdown(socket.SHUT_WR)
                while k.recv(65536):
                    pass
        except OSError:
            pass
        finally:
            k.close()


def cut(rng, b, how):
    if how == "whole" or len(b) < 2:
        return [b]
    if how == "bytes" and len(b) < 3000:
        return [b[i:i + 1] for i in range(len(b))]
    if how == "lines" and b.count(b"\r\n") < 60:
        return [x for x in re.split(rb"(?<=\r)(?=\n)", b) if x]
    cuts = sorted({rng.randrange(1, len(b)) for _ in range(rng.randrange(1, 9))})
    return [b[x:y] for x, y in zip([0] + cuts, cuts + [len(b)])]


def chunked(rng, body, ext=False, lf=b"\r\n", trailer=b""):
    out, i = b"", 0
    while i < len(body):
        n = rng.choice((1, 2, 15, 16, 255, 4096, 65536, 100000, len(body)))
        part = body[i:i + n]
        size = b"%x" % len(part)
        if ext:
            size = rng.choice((size.upper(), b"00" + size, size + b";name=value", size + b" "))
        out += size + lf + part + lf
        i += n
    return out + b"0" + lf + trailer + lf


def responses(rng, n):
    """Well-formed responses."""
    HV = bytes(range(0x21, 0x7f))
    big = [65535, 65536, 65537, 131072, 300000, 1048575, 1048576, 1048577, 3000000]
    out = []
    for i in range(n):
        size = big[i] if i < len(big) else rng.choice((0, 1, 2, 10, 100, 4095, 4096, 5000, rng.randrange(0, 90000)))
        body = rng.choice((lambda: rng.randbytes(size), lambda: (b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\n0\r\n\r\n" * (size // 40 + 1))[:size], lambda: bytes(size)))()
        st = rng.choice((200, 200, 200, 201, 202, 206, 301, 400, 401, 404, 418, 500, 503, 599))
        hs = [(b"X-" + word(rng, 1, 9) + b"-%d" % j, word(rng, 0, rng.choice((4, 40, 300)), HV)) for j in range(rng.choice((0, 1, 4, 30)))]
        hs = [(k, v if len(v) < 3 or rng.random() < .7 else v[:1] + rng.choice((b" ", b": ", b"\t", b"; ")) + v[1:]) for k, v in hs]
        framing = rng.choice(("length", "length", "chunked", "chunked", "close", "nobody"))
        method, end, pre, reason = b"GET", "close", b"", rng.choice((b" OK", b" Some Reason: x", b" ", b""))
        wire = body
        if framing == "length":
            hs.insert(rng.randrange(len(hs) + 1), (rng.choice((b"Content-Length", b"content-length", b"CONTENT-LENGTH")), b"%d" % len(body)))
            end = rng.choice(("close", "hold"))
        elif framing == "chunked":
            hs.insert(rng.randrange(len(hs) + 1), (rng.choice((b"Transfer-Encoding", b"transfer-encoding")), rng.choice((b"chunked", b"Chunked"))))
            wire = chunked(rng, body, rng.random() < .4, trailer=rng.choice((b"", b"", b"X-T: y\r\n", b"A: b\r\nC: d\r\n")))
            end = rng.choice(("close", "hold"))
        elif framing == "nobody":
            kind = rng.randrange(3)
            if kind == 0:
                method = b"HEAD"
                hs.append((b"Content-Length", b"%d" % (len(body) + 5)))
            else:
                st = 204 if kind == 1 else 304
            body = wire = b""
            end = rng.choice(("close", "hold"))
        if rng.random() < .1:
            pre = rng.choice((b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n", b"HTTP/1.1 100 Continue\r\n\r\n" * 3))
        if framing != "nobody" and rng.random() < .5:
            method = rng.choice((b"POST", b"PUT", b"PATCH", b"DELETE"))
        raw = pre + rng.choice((b"HTTP/1.1 ", b"HTTP/1.1 ", b"HTTP/1.0 ")) + b"%d" % st + reason + b"\r\n"
        for k, v in hs:
            pad = rng.choice((b" ", b" ", b"", b"   ", b"\t"))
            raw += k + b":" + pad + v + rng.choice((b"", b"", b" ")) + b"\r\n"
        raw += b"\r\n" + wire
        hw = "whole" if len(raw) > 2000000 else rng.choice(("whole", "bytes", "lines", "random", "random"))
        reqbody = b""
        if method in (b"POST", b"PUT", b"PATCH"):
            reqbody = rng.choice((lambda: b"", lambda: rng.randbytes(rng.randrange(1, 3000)), lambda: rng.randbytes(rng.choice((70000, 400000))), lambda: b"a=1&b=2"))()
        rh = []
        for j in range(rng.choice((0, 1, 3, 12))):
            rh.append((b"X-Req-" + word(rng, 1, 6) + b"%d" % j, word(rng, 1, rng.choice((5, 50, 2000)), HV + b"  ").strip() or b"v"))
        if rng.random() < .3:
            rh.append(rng.choice(((b"Content-Type", b"application/json"), (b"content-type", b"text/x"), (b"User-Agent", b"me/1"), (b"Accept", b"*/*"),
                                  (b"Authorization", b"Basic Zm9vOmJhcg=="), (b"Host", b"other.example"), (b"Connection", b"close"))))
        path = word(rng, 0, rng.choice((0, 5, 50)), TOK + b"/-._~%!$&'()*+,;=:@?")
        want = dict(status=st, body=body, headers={k: v.strip() for k, v in hs})
        out.append(Case("good/%s/%s/%s" % (framing, hw, end), method, None, path and rng.choice((b"/", b"?", b"-")) + path, reqbody, rh, cut(rng, raw, hw), end, want))
    # longer paths and headers than any fixed buffer
    ok = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"
    w = dict(status=200, body=b"ok", headers={b"Content-Length": b"2"})
    for k in (240, 255, 256, 2000, 2030, 2046, 2047, 2048, 4000, 4096, 5000, 100000):
        out.append(Case("good/path of %d" % k, path=b"/" + b"p" * k, segments=[ok], want=w))
        out.append(Case("good/header of %d" % k, headers=[(b"X-Long", b"h" * k)], segments=[ok], want=w))
        out.append(Case("good/many headers of %d" % k, method=b"POST", body=b"z" * k, headers=[(b"X-%d" % j, b"h" * (k // 10)) for j in range(10)], segments=[ok], want=w))
    out.append(Case("good/LF line ends", segments=[b"HTTP/1.1 200 OK\nA: b\nContent-Length: 2\n\nok"], want=dict(status=200, body=b"ok", headers={b"A": b"b", b"Content-Length": b"2"})))
    out.append(Case("good/extra bytes after the body", segments=[ok + b"surplus"], end="close", want=w))
    out.append(Case("good/answered before the body was read", method=b"POST", body=b"q" * 2000000, segments=[b"HTTP/1.1 413 Too Large\r\nContent-Length: 3\r\n\r\nbig"], end="early",
                    want=dict(status=413, body=b"big", headers={b"Content-Length": b"3"})))
    for url, wp in ((b"http://127.0.0.1:PORT?IDX&a=1", b"/?IDX&a=1"), (b"http://127.0.0.1:PORT/IDX#fragment", b"/IDX"), (b"http://localhost:PORT/IDX", b"/IDX"),
                    (b"http://127.0.0.1:PORT/IDX?a=http://b:99/c", b"/IDX?a=http://b:99/c"), (b"http://127.0.0.1:PORT/IDX/a:b", b"/IDX/a:b")):
        out.append(Case("good/url " + url.decode(), url=url, segments=[ok], want=w, wire_path=wp))
    return out


def hostile(rng, thorough):
    ok = b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\nX: y\r\n\r\n0123456789"
    ch = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nabcd\r\n3\r\nxyz\r\n0\r\n\r\n"
    out = []
    H = b"HTTP/1.1 200 OK\r\n"
    for name, w in (("length", ok), ("chunked", ch)):
        for i in range(len(w)):
            if thorough or i % 3 == 0 or i > len(w) - 6:
                out.append(Case("bad/%s cut" % name, segments=[w[:i]] if i else []))
                if i % 4 == 0:
                    out.append(Case("bad/%s reset" % name, segments=[w[:i]] if i else [], end="reset"))
    bad = {"no status line": b"hello world, this is not HTTP\r\n\r\n", "only line ends": b"\r\n\r\n\r\n", "NULs": bytes(500), "binary": bytes(range(256)) * 8,
           "no status": b"HTTP/1.1\r\n\r\nbody", "status of letters": b"HTTP/1.1 abc OK\r\n\r\nbody", "status of two digits": b"HTTP/1.1 99 OK\r\n\r\nbody",
           "negative status": b"HTTP/1.1 -200 OK\r\n\r\nbody", "status of four digits": b"HTTP/1.1 2000 OK\r\n\r\nbody", "huge status": b"HTTP/1.1 99999999999999999999 OK\r\n\r\nb",
           "header without a colon": H + b"nonsense\r\n\r\nbody", "NUL in a header": H + b"A: b\0c\r\nContent-Length: 2\r\n\r\nok",
           "negative length": H + b"Content-Length: -5\r\n\r\nbody", "length of letters": H + b"Content-Length: ten\r\n\r\nbody", "hex length": H + b"Content-Length: 0x4\r\n\r\nbody",
           "empty length": H + b"Content-Length:\r\n\r\nbody", "length 2^64+4": H + b"Content-Length: 18446744073709551620\r\n\r\nbody", "length 2^32+4": H + b"Content-Length: 4294967300\r\n\r\nbody",
           "length 2^31": H + b"Content-Length: 2147483648\r\n\r\nbody", "two lengths": H + b"Content-Length: 4\r\nContent-Length: 3\r\n\r\nbody",
           "length too long": H + b"Content-Length: 5\r\n\r\nbody", "chunk size of letters": H + b"Transfer-Encoding: chunked\r\n\r\nxyz\r\nbody\r\n0\r\n\r\n",
           "negative chunk size": H + b"Transfer-Encoding: chunked\r\n\r\n-4\r\nbody\r\n0\r\n\r\n", "chunk size 2^64": H + b"Transfer-Encoding: chunked\r\n\r\n10000000000000004\r\nbody\r\n0\r\n\r\n",
           "chunk size 2^63": H + b"Transfer-Encoding: chunked\r\n\r\n8000000000000000\r\nbody\r\n0\r\n\r\n", "chunk longer than announced": H + b"Transfer-Encoding: chunked\r\n\r\n3\r\nbody\r\n0\r\n\r\n",
           "chunk without size": H + b"Transfer-Encoding: chunked\r\n\r\n\r\nbody\r\n0\r\n\r\n", "no last chunk": H + b"Transfer-Encoding: chunked\r\n\r\n4\r\nbody\r\n",
           "endless header": H + b"A: " + b"x" * 3000000, "endless headers": H + b"A: b\r\n" * 400000, "endless status": b"HTTP/1.1 200 " + b"O" * 3000000,
           "endless interim": b"HTTP/1.1 100 Continue\r\n\r\n" * 5000, "endless chunk size": H + b"Transfer-Encoding: chunked\r\n\r\n" + b"0" * 3000000}
    for name, w in bad.items():
        out.append(Case("bad/" + name, segments=cut(rng, w, rng.choice(("whole", "random")))))
    for i in range(400 if thorough else 60):       # mutated responses: no verdict on the result
        w = bytearray(rng.choice((ok, ch, H + b"A: b\r\nC: d\r\n\r\nto the end")))
        for _ in range(rng.randrange(1, 6)):
            j = rng.randrange(len(w) or 1)
            op = rng.randrange(3)
            if op == 0 and w: w[j] = rng.randrange(256)
            elif op == 1: del w[j:j + rng.randrange(1, 12)]
            else: w[j:j] = rng.choice((b"\r\n", b"\0", b":", b"\n\n", b"\xff\xfe", b"HTTP/1.1 ", b"fffffff", b"Content-Length: 3\r\n"))
        out.append(Case("mutated", segments=cut(rng, bytes(w), "random"), want="any", end=rng.choice(("close", "close", "reset"))))
    # calls that must not reach a peer
    for u in (b"", b"http://", b"http:///x", b"http://:80/", b"https://127.0.0.1:PORT/IDX", b"ftp://127.0.0.1:PORT/IDX", b"127.0.0.1:PORT/IDX", b"HTTP//127.0.0.1:PORT/IDX",
              b"http://127.0.0.1:0/IDX", b"http://127.0.0.1:65536/IDX", b"http://127.0.0.1:BIGPORT/IDX", b"http://127.0.0.1:-1/IDX", b"http://127.0.0.1:abc/IDX", b"http://127.0.0.1:PORTx/IDX",
              b"http://127.0.0.1:PORT/IDX HTTP/1.1\r\nX-Evil: 1\r\n\r\n", b"http://127.0.0.1:PORT/IDX\r\nX-Evil: 1", b"http://127.0.0.1:PORT/IDX\nX-Evil: 1",
              b"http://127.0.0.1:PORT/IDX a", b"http://127.0.0.1\r\nX-Evil: 1:PORT/IDX", b"http://127.0.0.1 :PORT/IDX", b"http://" + b"h" * 400 + b":PORT/IDX",
              b"http://no-such-host.invalid:PORT/IDX", b"http://127.0.0.1\0:PORT/IDX"):
        out.append(Case("refused/url %s" % u[:40].decode("latin1"), url=u, connects=False))
    for k, v in ((b"X", b"a\r\nX-Evil: 1"), (b"X", b"a\nX-Evil: 1"), (b"X\r\nX-Evil", b"1"), (b"X: a\r\nX-Evil", b"1"), (b"X", b"a\r\n\r\nGET /evil HTTP/1.1"), (b"", b"v"), (b"A B", b"v")):
        out.append(Case("refused/header %r %r" % (k, v), headers=[(k, v)], connects=False))
    out.append(Case("refused/closed port", url=b"http://127.0.0.1:CLOSED/IDX", connects=False))
    return out


def http_session(c, g, binary, cases, tag, env, prefix=()):
    peer = Peer()
    closed = refusing()
    big = 65536 + peer.port
    lines = []
    for i, k in enumerate(cases):
        peer.cases[i] = k
        sub = lambda b: b.replace(b"BIGPORT", b"%d" % big).replace(b"PORT", b"%d" % peer.port).replace(b"CLOSED", b"%d" % closed).replace(b"IDX", b"%d" % i)
        url = sub(k.url) if k.url is not None else b"http://127.0.0.1:%d/%d%s" % (peer.port, i, k.path)
        k.wire_path = sub(k.wire_path) if k.wire_path else (b"/%d%s" % (i, k.path)).split(b"#")[0]
        lines.append(" ".join([k.method.decode(), hx(url), hx(k.body)] + ["%s=%s" % (hx(a), hx(b)) for a, b in k.headers]))
    script = os.path.join(c.work, "script-" + tag)
    open(script, "w").write("\n".join(lines))
    r = run(list(prefix) + [binary, script], env={**SAN_ENV, **env}, timeout=240, cwd=c.work)
    peer.s.close()
    files = {"main.gray": CLIENT, "script": "\n".join(lines)}
    if r.sanitizer:
        return c.violation("%s client: %s" % (tag, r.sanitizer[:1500]), files)
    if r.timeout or r.rc != 0 or not r.text.endswith("end\n"):
        n = r.text.count("\n")
        return c.violation("%s client: %s while doing call %d (%s): %s" % (tag, "hang" if r.timeout else "status %s" % r.rc, n, cases[min(n, len(cases) - 1)].name, r.etext[-600:]), files)
    outs = r.text.split("\n")
    for i, k in enumerate(cases):
        p = verdict(k, outs[i].split(" "), i, peer.port)
        c.case("%s/%s" % (tag, k.name), True)
        c.count("calls"), c.count("request_bytes", len(k.got or b"")), c.count("response_segments", len(k.segments))
        if p:
            c.violation("%s client, %s, call %d (%s): %s" % (tag, k.method.decode(), i, k.name, p),
                        {"main.gray": CLIENT, "script": lines[i], "response.bin": b"".join(k.segments), "output": outs[i], "request.bin": k.got or b""})
    if peer.stray:
        c.violation("%s client: a request nobody asked for reached the peer: %r" % (tag, peer.stray[0]), files)


def verdict(k, f, i, port):
    if f[0] != str(i) or len(f) < 4:
        return "no result line: %r" % (f[:4],)
    failed = f[1] == "error"
    if not k.connects:
        if k.conns:
            return "a request was sent: %r" % (k.got or b"")[:300]
        return None if failed else "no error is reported: %r" % f[:4]
    if k.conns != 1 and not (k.want != "any" and k.want is None):
        return "the peer saw %d requests" % k.conns
    if k.got is not None and k.end != "early":       # what was sent
        head, _, body = k.got.partition(b"\r\n\r\n")
        ls = head.split(b"\r\n")
        if ls[0] != k.method + b" " + k.wire_path + b" HTTP/1.1":
            return "request line %r, expected path %r" % (ls[0][:300], k.wire_path[:300])
        names = [l.partition(b":")[0].strip().lower() for l in ls[1:]]
        if len(set(names)) != len(names):
            return "a request header is repeated: %r" % ls[1:][:20]
        hs = {l.partition(b":")[0]: l.partition(b":")[2].strip() for l in ls[1:]}
        low = {a.lower(): b for a, b in hs.items()}
        for a, b in k.headers:
            if hs.get(a) != b:
                return "header %r arrives as %r, not %r" % (a, (hs.get(a) or b"missing")[:100], b[:100])
        if b"host" not in [a.lower() for a, _ in k.headers] and low.get(b"host") not in (b"127.0.0.1:%d" % port, b"localhost:%d" % port):
            return "Host is %r" % low.get(b"host")
        if body != k.body:
            return "body of %d bytes arrives as %d bytes" % (len(k.body), len(body))
        if k.body and low.get(b"content-length") != b"%d" % len(k.body):
            return "Content-Length %r for %d bytes" % (low.get(b"content-length"), len(k.body))
        extra = set(low) - {a.lower() for a, _ in k.headers} - {b"host", b"content-length", b"content-type", b"connection", b"user-agent", b"accept"}
        if extra:
            return "unexpected request headers %r" % extra
    if k.want == "any":
        return None
    if k.want is None:
        return None if failed else "the malformed or incomplete response is reported as a success: %r" % " ".join(f)[:300]
    if failed:
        return "reported as an error: %r" % unhex(f[3])[:200]
    if int(f[2]) != k.want["status"]:
        return "status %s, the peer sent %d" % (f[2], k.want["status"])
    body = unhex(f[3])
    if body != k.want["body"]:
        return "body of %d bytes, the peer sent %d; first difference at %d" % (len(body), len(k.want["body"]),
            next((j for j, (a, b) in enumerate(zip(body, k.want["body"])) if a != b), min(len(body), len(k.want["body"]))))
    hs = {unhex(x.split("=")[0]): unhex(x.split("=")[1]) for x in f[4:]}
    if hs != k.want["headers"]:
        d = {a: (hs.get(a), k.want["headers"].get(a)) for a in set(hs) | set(k.want["headers"]) if hs.get(a) != k.want["headers"].get(a)}
        return "headers differ (got, sent): %r" % repr(d)[:400]
    return None


# ---- sockets

def gsum(b):
    s = 7
    for x in b:
        s = (s * 31 + x) % 1000000007
    return s


def pattern(n):
    u = b"0123456789abcdefghijklmnopqrstuvwxyz-%d-" % n
    return (u * (n // len(u) + 1))[:n]


def sock_program(c, binary, lines, env, peer_fn, tag, name, listen_port=None):
    """Runs the program with the script; peer_fn(conn) is the other side.  Returns (output lines, Result, peer's result)."""
    res = {}
    script = os.path.join(c.work, "sock-%s-%s" % (tag, re.sub(r"\W", "_", name)))
    srv = None
    if listen_port is None:
        srv = socket.socket()
        srv.bind(("127.0.0.1", 0))
        srv.listen(8)
        port = srv.getsockname()[1]
    else:
        port = listen_port
    open(script, "w").write("\n".join(lines).replace("PORT", str(port)))
    def other():
        try:
            if srv:
                srv.settimeout(PATIENCE)
                k, _ = srv.accept()
            else:
                t0 = time.time()
                while True:
                    try:
                        k = socket.create_connection(("127.0.0.1", port), timeout=PATIENCE)
                        break
                    except OSError:
                        if time.time() - t0 > PATIENCE:
                            raise
                        time.sleep(0.01)
            k.settimeout(PATIENCE)
            res["v"] = peer_fn(k)
            k.close()
        except Exception as e:
            res["e"] = e
    t = threading.Thread(target=other, daemon=True)
    if peer_fn:
        t.start()
    r = run([binary, script], env={**SAN_ENV, **env}, timeout=300, cwd=c.work)
    if peer_fn:
        t.join(5 if r.rc != 0 else PATIENCE)
    if srv:
        srv.close()
    return r.text.split("\n"), r, res


def read_all(k):
    out = b""
    while True:
        d = k.recv(65536)
        if not d:
            return out
        out += d


def sock_session(c, g, binary, tag, env, rng, n):
    def bad(name, what, lines, r):
        c.violation("%s sockets, %s: %s" % (tag, name, what), {"main.gray": SOCK, "script": "\n".join(lines), "output": r.text[:4000], "stderr": r.etext[:2000]})

    def scenario(name, lines, peer_fn, judge, listen_port=None):
        out, r, res = sock_program(c, binary, lines, env, peer_fn, tag, name, listen_port)
        c.case("%s/socket/%s" % (tag, name.split("#")[0]), True)
        c.count("socket_scenarios")
        if r.sanitizer:
            return bad(name, r.sanitizer[:1200], lines, r)
        if r.timeout or r.rc != 0 or out[-2:] != ["end", ""]:
            return bad(name, "hang" if r.timeout else "status %s: %s" % (r.rc, r.etext[-400:]), lines, r)
        try:
            p = judge(out, res.get("v"))
        except Exception as e:
            p = "unexpected output (%r)" % e
        if p:
            bad(name, p + (" [peer: %r]" % res["e"] if "e" in res else ""), lines, r)

    L = hx("127.0.0.1")
    jobs = []
    add = lambda *a, **k: jobs.append((a, k))
    for i in range(n):      # bytes sent arrive, in order, all of them
        parts = [rng.choice((lambda: rng.randbytes(rng.randrange(1, 400)), lambda: bytes(rng.randrange(1, 50)), lambda: "é\0\r\n".encode() * 7))() for _ in range(rng.randrange(1, 12))]
        def judge(out, got, parts=parts):
            if got != b"".join(parts):
                return "sent %r..., arrived %r..." % (b"".join(parts)[:80], (got or b"")[:80])
            for o, p in zip(out[1:], parts):
                if o != "send %d true" % len(p):
                    return "sending %d bytes says %r" % (len(p), o)
        add("send#%d" % i, ["connect %s PORT" % L] + ["send " + hx(p) for p in parts] + ["close", "done"], read_all, judge)
        data = rng.randbytes(rng.randrange(1, 5000))
        sizes = [rng.choice((1, 2, 3, 10, 100, 1000, 100000, 5000000)) for _ in range(30)]
        def peer(k, data=data, rng=random.Random(i)):
            j = 0
            while j < len(data):
                m = rng.choice((1, 5, 100, 3000))
                k.sendall(data[j:j + m])
                j += m
            k.shutdown(socket.SHUT_WR)
            return read_all(k)
        def judge(out, got, data=data, sizes=sizes):
            pos = 0
            for o, s in zip(out[1:], sizes):
                w, h, ok = o.split(" ")
                b = unhex(h)
                if len(b) > s:
                    return "receive(%d) returned %d bytes" % (s, len(b))
                if (ok == "true") != (len(b) > 0):
                    return "receive says %s with %d bytes" % (ok, len(b))
                if not b and pos < len(data):
                    return "receive reports the end after %d of %d bytes" % (pos, len(data))
                if data[pos:pos + len(b)] != b:
                    return "received bytes differ at %d" % pos
                pos += len(b)
            if out[31] != "drain %d %d" % (len(data) - pos, gsum(data[pos:])):
                return "the rest of the stream (%d bytes): %r" % (len(data) - pos, out[31])
        add("receive#%d" % i, ["connect %s PORT" % L] + ["recv %d" % s for s in sizes] + ["drain 777", "close", "done"], peer, judge)
    for size in (200000, 3000000):
        def slow(k):
            time.sleep(0.3)
            return read_all(k)
        add("flood of %d to a slow reader" % size, ["connect %s PORT" % L, "flood %d" % size, "close", "done"], slow,
            lambda out, got, size=size: None if out[1] == "send %d true" % size and got == pattern(size) else "%r, %d bytes arrived" % (out[1], len(got or b"")))
        add("drain %d" % size, ["connect %s PORT" % L, "drain 65536", "close", "done"], lambda k, size=size: k.sendall(pattern(size)),
            lambda out, got, size=size: None if out[1] == "drain %d %d" % (size, gsum(pattern(size))) else "%r, %d bytes were sent" % (out[1], size))
    # time-outs: an error, and the stream goes on afterwards
    begun = []
    def silent(k):
        k.recv(1)              # the program timed out twice and says so
        begun.append(time.time() - t_start[0])
        k.sendall(b"l")
        return read_all(k)
    t_start = [time.time()]
    def judge_timeout(out, got):
        if out[1:7] != ["timeout", "recv  false", "recv  false", "send 1 true", "timeout", "recv %s true" % hx("l")]:
            return repr(out)
        return "two receives with a time-out of 150 ms gave up after %d ms" % (begun[0] * 1000) if begun[0] < 0.29 else None
    add("timeout", ["connect %s PORT" % L, "timeout 150", "recv 10", "recv 10", "send 61", "timeout 20000", "recv 10", "close", "done"], silent,
        judge_timeout)
    def stuck(k):
        time.sleep(1.0)
        return read_all(k)
    def judge_stuck(out, got):
        n = int(out[2].split(" ")[1])
        if out[2].endswith("true") and n == 30000000:
            return "30 MB were reported sent to a peer that did not read them in time" if len(got) != n else None
        return None if n < 0 or n == len(got) else "%d bytes reported sent, %d arrived" % (n, len(got))
    add("send timeout", ["connect %s PORT" % L, "timeout 200", "flood 30000000", "close", "done"], stuck, judge_stuck)
    # closed, reset and absent peers
    add("closed by the peer", ["connect %s PORT" % L, "recv 10", "recv 10", "close", "done"], lambda k: k.sendall(b"h"),
        lambda out, got: None if out[1:3] == ["recv %s true" % hx("h"), "recv  false"] else repr(out))
    def reset(k):
        k.recv(1)
        k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    add("reset by the peer", ["connect %s PORT" % L, "send 61", "sleep 300", "send 62", "sleep 50", "send 63", "send 64", "recv 10", "close", "done"], reset,
        lambda out, got: None if out[1] == "send 1 true" and out[6].endswith("false") and out[7] == "recv  false" and out[8] == "close" else repr(out))
    closed = refusing()
    for name, host, port in (("refused", "127.0.0.1", closed), ("port 0", "127.0.0.1", 0), ("port 65536+", "127.0.0.1", None), ("port -1", "127.0.0.1", -1), ("port 2^32+", "127.0.0.1", "wrap"),
                             ("unknown host", "no-such-host.invalid", 80), ("empty host", "", closed), ("long host", "h" * 300, 80), ("NUL in the host", "127.0.0.1\0x", "real"),
                             ("host cut to an address", "127.0.0.1" + " " * 300, "real")):
        def judge(out, got):
            return None if out[0:6] == ["connect false", "send -1 false", "recv  false", "timeout", "close", "end"] else repr(out)
        p = {None: "PLUS", "wrap": "WRAP", "real": "REAL"}.get(port, port)
        add("connect: " + name, ["connect %s %s" % (hx(host), p), "send 61", "recv 10", "timeout 5", "close", "done"], None, judge)
    add("receive of nothing", ["connect %s PORT" % L, "recv 0", "recv -1", "recv -9223372036854775808", "recv 5", "send ", "close", "done"], lambda k: (k.sendall(b"1"), read_all(k))[1],
        lambda out, got: None if out[1:5] == ["recv  false"] * 3 + ["recv %s true" % hx("1")] and out[5].startswith("send 0") else repr(out))
    # listening
    ports = random.Random()
    def lp():       # a free port outside the range the kernel hands out
        while True:
            with socket.socket() as s:
                p = ports.randrange(10000, 32000)
                try:
                    s.bind(("127.0.0.1", p))
                    return p
                except OSError:
                    pass
    for i in range(max(1, n // 3)):
        data = rng.randbytes(3000)
        add("listen#%d" % i, ["listen %s PORT" % L, "flood 50000", "recv 3000", "drain 100", "close", "done"],
            lambda k, data=data: (k.sendall(data), k.shutdown(socket.SHUT_WR), read_all(k))[2],
            lambda out, got, data=data: None if out[:3] == ["listen true", "accept true", "send 50000 true"] and got == pattern(50000) and data.startswith(unhex(out[3].split(" ")[1])) and
            out[4] == (lambda rest: "drain %d %d" % (len(rest), gsum(rest)))(data[len(unhex(out[3].split(" ")[1])):]) else repr(out)[:500], listen_port=lp())
    busy = socket.socket()
    busy.bind(("127.0.0.1", 0))
    busy.listen(1)
    for host, port in (("127.0.0.1", busy.getsockname()[1]), ("127.0.0.1", 65536 + lp()), ("127.0.0.1", -5), ("999.1.1.1", lp()), ("not an address", lp()), ("", lp()), ("1" * 300, lp()), ("8.8.8.8", lp())):
        add("listen: %s %s" % (host[:12], "in use" if port == busy.getsockname()[1] else port if port < 0 else "bad"), ["listen %s %d" % (hx(host), port)], None,
            lambda out, got: None if out[0] == "listen false" else repr(out))
    add("resolve", ["resolve " + hx("127.0.0.1"), "resolve " + hx("localhost"), "resolve " + hx("no-such-host.invalid"), "resolve ", "resolve " + hx("x" * 300), "resolve " + hx("127.0.0.1\0evil")], None,
        lambda out, got: None if out[0] == "resolve 127.0.0.1 true" and out[1].startswith("resolve 127.") and out[2:6] == ["resolve  false"] * 4 else repr(out))

    live = socket.socket()
    live.bind(("127.0.0.1", 0))
    live.listen(64)
    lport = live.getsockname()[1]
    for a, k in jobs:
        a[1][:] = [x.replace("PLUS", str(65536 + lport)).replace("WRAP", str((1 << 32) + lport)).replace("REAL", str(lport)) for x in a[1]]
    jobs.sort(key=lambda j: j[0][0] != "timeout")
    t_start[0] = time.time()
    pmap(lambda j: scenario(*j[0], **j[1]), jobs, workers=6)
    busy.close(), live.close()


def check(c):
    gs = {v: Gray(c, v) for v in ("plain", "asan")}
    bins = {}
    for v, g in gs.items():
        for nm, src in (("client", CLIENT), ("sock", SOCK.replace("encoding_bytes(s)", "bytes.from_string(s)").replace("@time", "@bytes"))):
            b, r = g.compile(src, name=nm + v)
            if not b:
                c.violation("the %s program does not build: %s" % (nm, r.brief()), {"main.gray": src})
                return
            bins[v, nm] = b
    so = os.path.join(c.work, "short.so")
    open(c.work + "/short.c", "w").write(SHORT)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, c.work + "/short.c", "-ldl"], check=True)
    mk = lambda k, n: (lambda rng: responses(rng, n) + hostile(rng, c.thorough))(random.Random(c.seed * 1000 + k))
    jobs = [("plain", "plain", {}, mk(1, c.scale(150, 1500)), ["bash", "-c", "ulimit -n 40; exec \"$@\"", "x"]),
            ("asan", "asan", {}, mk(2, c.scale(120, 1200)), []),
            ("short", "plain", {"LD_PRELOAD": so}, mk(3, c.scale(60, 600)), [])]
    # a peer that never answers, and one that stops in the middle: errors after the client's time-out
    quiet = [Case("quiet/no answer", end="hold"), Case("quiet/half a header", segments=[b"HTTP/1.1 200 OK\r\nA: b"], end="hold"),
             Case("quiet/half a body", segments=[b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\n01234"], end="hold"),
             Case("quiet/half a chunk", segments=[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n01"], end="hold")]
    work = [lambda j=j: http_session(c, gs[j[1]], bins[j[1], "client"], j[3], j[0], j[2], j[4]) for j in jobs]
    work += [lambda k=k, i=i: http_session(c, gs["plain"], bins["plain", "client"], [k], "quiet%d" % i, {}) for i, k in enumerate(quiet)]
    work += [lambda: sock_session(c, gs["plain"], bins["plain", "sock"], "plain", {}, random.Random(c.seed + 7), c.scale(6, 60)),
             lambda: sock_session(c, gs["asan"], bins["asan", "sock"], "asan", {}, random.Random(c.seed + 8), c.scale(3, 40)),
             lambda: sock_session(c, gs["plain"], bins["plain", "sock"], "short", {"LD_PRELOAD": so}, random.Random(c.seed + 9), c.scale(3, 40))]
    errs = []
    def guarded(f):
        try:
            f()
        except Exception as e:
            import traceback
            errs.append(traceback.format_exc())
    ts = [threading.Thread(target=guarded, args=(f,)) for f in work]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs:
        raise RuntimeError(errs[0])


if __name__ == "__main__":
    main(check, "C31", "every request reaches the peer with the given method, path, headers and body; every complete well-formed response is returned "
         "byte-exact; every other peer behaviour is an error; no call crashes, hangs or leaks; no sanitizer report")
