"""C19: encodings, digests, byte packing and CSV compute their definitions.

Python's base64, hashlib, struct, int.to_bytes and urllib, and a small CSV model, are the oracle; inputs are random
byte strings with NULs and high bytes, every length around block boundaries, malformed text, and tables of awkward
fields."""
import sys, os, base64, hashlib, struct, re
from urllib.parse import quote
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from suite import *
# Text enters programs as hex digits, decoded here without the library under test
DECL = """
do nib(k char) -> int {
    mut v int = cast(k, int)
    if v >= 97 { return v - 87 }
    return v - 48
}
do H(i int) -> string {
    mut s string = S(i)
    mut cs [char] = strings.to_chars(s)
    mut r [char] = {}
    for k in range(0, len(cs) / 2) {
        arrays.append(r, cast(nib(cs[2 * k]) * 16 + nib(cs[2 * k + 1]), char))
    }
    return strings.from_chars(r)
}
do B(i int) -> [byte] {
    mut s string = S(i)
    mut cs [char] = strings.to_chars(s)
    mut r [byte] = {}
    for k in range(0, len(cs) / 2) {
        arrays.append(r, cast(nib(cs[2 * k]) * 16 + nib(cs[2 * k + 1]), byte))
    }
    return r
}
do L(n int) -> string {
    mut r [char] = {}
    for k in range(0, n) { arrays.append(r, cast(k * 7 % 251, char)) }
    return strings.from_chars(r)
}
do T(i int) -> [[string]] {
    mut rows [[string]] = {}
    mut s string = S(i)
    if s == "none" { return rows }
    mut ls [string] = strings.split(s, "/")
    for_each l in ls {
        mut row [string] = {}
        mut fs [string] = strings.split(l, ",")
        for_each f in fs {
            mut cs [char] = strings.to_chars(f)
            mut r [char] = {}
            for k in range(0, len(cs) / 2) {
                arrays.append(r, cast(nib(cs[2 * k]) * 16 + nib(cs[2 * k + 1]), char))
            }
            arrays.append(row, strings.from_chars(r))
        }
        arrays.append(rows, row)
    }
    return rows
}
do showt(rows [[string]]) {
    println(len(rows))
    for_each row in rows {
        mut r [string] = row
        mut parts [string] = {}
        for_each f in r { arrays.append(parts, "<${f}>") }
        println(strings.join(parts, "|"))
    }
}
"""


def hx(b):
    return b.hex()


def nb(b):
    """println of a [byte]."""
    return "{" + ", ".join(str(x) for x in b) + "}"


def csv_parse(t):
    rows, i, n = [], 0, len(t)
    while i < n:
        row = []
        more = t[i] not in "\r\n"
        while more:
            f = ""
            if i < n and t[i] == '"':
                i += 1
                while i < n:
                    if t[i] == '"':
                        if i + 1 < n and t[i + 1] == '"':
                            i += 1
                        else:
                            break
                    f += t[i]
                    i += 1
                i += 1
                if i < n and t[i] not in ",\r\n":
                    return None
            else:
                while i < n and t[i] not in ",\r\n":
                    f += t[i]
                    i += 1
                if '"' in f:
                    return None     # not well-formed
            row.append(f)
            more = i < n and t[i] == ","
            if more:
                i += 1
        rows.append(row)
        if t[i:i + 2] == "\r\n":
            i += 2
        elif i < n:
            i += 1
    return rows


def csv_show(rows):
    return "".join([str(len(rows)) + "\n"] + ["|".join("<" + f + ">" for f in r) + "\n" for r in rows])


def tab(rows):
    return "/".join(",".join(f.encode("latin1").hex() for f in r) for r in rows) if rows else "none"


URL_SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")


def check(c):
    rng = c.rng
    suite = Suite(c, "encoding, crypto, bytes, binary, csv, strings, arrays, io", DECL)

    class s:
        @staticmethod
        def add(g, body, e, *a):
            def nl(x):
                return x + "\n" if isinstance(x, str) and not x.endswith("\n") else x
            suite.add(g, body, tuple(map(nl, e)) if type(e) is tuple else nl(e), *a)
    raws = [bytes(rng.randrange(256) for _ in range(n)) for n in list(range(0, 12)) + [47, 48, 49, 100, 1000]]
    raws += [b"\0", b"\0\0\0", b"a\0", b"\xff" * 3, b"\xff" * 4, bytes(range(256)), b"hello world", "héllo €".encode()]
    raws += [bytes(rng.randrange(256) for _ in range(rng.randrange(1, 70))) for _ in range(c.scale(40, 400))]
    for r in raws:
        b64 = base64.b64encode(r).decode()
        k = f"len{len(r)}"
        s.add("base64_encode", "println(encoding.base64_encode(H(0)))", b64, (hx(r),), k)
        s.add("base64_decode", "println(encoding.hex_encode(encoding.base64_decode(S(0))))", hx(r), (b64,), k)
        s.add("hex_encode", "println(encoding.hex_encode(H(0)))", hx(r), (hx(r),), k)
        s.add("hex_decode", "mut d string = encoding.hex_decode(S(0))\nprintln(\"${len(d)} ${d == H(0)}\")",
              (lambda res: res.rc == 0 and res.text.endswith(" true\n")), (hx(r),), k)
        s.add("hex_decode", "println(encoding.hex_encode(encoding.hex_decode(strings.to_upper(S(0)))))", hx(r), (hx(r),), k + "up")
        s.add("url", "println(encoding.hex_encode(encoding.url_decode(encoding.url_encode(H(0)))))", hx(r), (hx(r),), k)
        q = "".join(chr(x) if chr(x) in URL_SAFE else "%%%02X" % x for x in r)
        s.add("url_encode", "println(strings.to_upper(encoding.url_encode(H(0))))", q.upper(), (hx(r),), k)
        s.add("url_decode", "println(encoding.hex_encode(encoding.url_decode(S(0))))", hx(r), (q,), k)
        s.add("url_decode", "println(encoding.hex_encode(encoding.url_decode(S(0))))", hx(r), ("".join("%%%02x" % x for x in r),), k + "low")
        s.add("sha256", "println(crypto.sha256(H(0)))", hashlib.sha256(r).hexdigest(), (hx(r),), k)
        s.add("md5", "println(crypto.md5(H(0)))", hashlib.md5(r).hexdigest(), (hx(r),), k)
        s.add("bytes", "println(bytes.to_hex(bytes.from_string(H(0))))\nprintln(len(bytes.from_string(H(0))))", hx(r) + f"\n{len(r)}", (hx(r),), "from_string" + k)
        s.add("bytes", "println(encoding.hex_encode(bytes.to_string(B(0))))", hx(r), (hx(r),), "to_string" + k)
        s.add("bytes", "println(bytes.to_hex(B(0)))\nprintln(\"x${bytes.to_base64(B(0))}\")", hx(r) + "\nx" + b64, (hx(r),), "to" + k)
        s.add("bytes", "println(bytes.from_hex(S(0)))", nb(r), (hx(r),), "from_hex" + k)
        s.add("bytes", "println(bytes.from_base64(S(0)))", nb(r), (b64,), "from_base64" + k)
    # every length across block boundaries, and big inputs
    for n in list(range(0, 200)) + [255, 256, 257, 511, 512, 1023, 1024, 65536, 1000003][:c.scale(7, 9)]:
        d = bytes(k * 7 % 251 for k in range(n))
        s.add("digest-len", f"println(crypto.sha256(L({n})))\nprintln(crypto.md5(L({n})))", hashlib.sha256(d).hexdigest() + "\n" + hashlib.md5(d).hexdigest(), (), str(n))
    # malformed
    PAD = ("P0037", "P0038", "P0039")
    bad64 = [("A", "P0036"), ("AAAAA", "P0036"), ("AAA", "P0036"), ("AA=A", PAD), ("=AAA", PAD),
             ("AA==AAAA", PAD), ("A===", PAD), ("====", PAD), ("AA A", "P0039"),
             ("AA-_", "P0039"), ("AAAA\nAA", ("P0036", "P0039")), ("A\u00e9A", "P0039"), ("AA*=", "P0039"), ("A*==", "P0039")]
    for t, code in bad64:
        e = tuple(P(x) for x in code) if isinstance(code, tuple) else P(code)
        s.add("base64-bad", "println(encoding.base64_decode(S(0)))", e, (t,), t)
        s.add("bytes-bad", "println(bytes.from_base64(S(0)))", e, (t,), "64" + t)
    for _ in range(c.scale(40, 300)):
        g = base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randrange(3, 30)))).decode()
        i = rng.randrange(len(g) - 2)
        x = rng.choice("!#$%&'()*,-.:;<>?@[]^_`{|}~ \t\x7f\x01")
        s.add("base64-bad", "println(encoding.base64_decode(S(0)))", P("P0039") if "=" != g[i] else (P("P0037"), P("P0038"), P("P0039")), (g[:i] + x + g[i + 1:],), "rand")
        h = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20))).hex()
        i = rng.randrange(len(h))
        x = rng.choice("gGzZ/:@`[ -x")
        s.add("hex-bad", "println(encoding.hex_decode(S(0)))", P("P0041"), (h[:i] + x + h[i + 1:],), "rand")
        s.add("bytes-bad", "println(bytes.from_hex(S(0)))", P("P0041"), (h[:i] + x + h[i + 1:],), "hex")
        s.add("hex-bad", "println(encoding.hex_decode(S(0)))", P("P0040"), (h[:-1],), "odd")
        s.add("bytes-bad", "println(bytes.from_hex(S(0)))", P("P0040"), (h[:-1],), "hexodd")
        u = quote(bytes(rng.randrange(128, 256) for _ in range(rng.randrange(2, 6))))
        i = rng.randrange(len(u) // 3) * 3 + rng.choice((1, 2))
        s.add("url-bad", "println(encoding.url_decode(S(0)))", P("P0042"), (u[:i] + rng.choice("gG %-x/:@`") + u[i + 1:],), "rand")
    # binary packing
    cells = []
    for w in (8, 16, 32, 64, 128, 256):
        for sg in "iu":
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg == "i" else (0, (1 << w) - 1)
            vs = {lo, hi, 0, 1, hi >> 1, lo + 1, 0x0102030405060708090a0b0c0d0e0f10 & hi >> 1, hi - 1, 0x80 & hi, 0xff & hi, (1 << w // 2) & hi}
            if sg == "i":
                vs |= {-1, -2, -128, -(1 << w // 2 - 1)}
            vs |= {rng.randrange(lo, hi + 1) for _ in range(c.scale(4, 30))}
            for v in sorted(vs):
                for e in (("",) if w == 8 else ("_le", "_be")):
                    cells.append((w, sg, v, e))
    for w, sg, v, e in cells:
        enc = v.to_bytes(w // 8, "big" if e == "_be" else "little", signed=sg == "i")
        t = f"{sg}{w}"
        k = f"{t}{e}"
        # the value enters as two arguments that the program folds together, so it is not a literal
        s.add("binary-decode", f"mut b [byte] = B(0)\nmut v {t} = binary.decode_{k}(b)\nprintln(v)", str(v), (enc.hex(),), k)
        s.add("binary-round", f"mut b [byte] = B(0)\nmut v {t} = binary.decode_{k}(b)\nmut o [byte] = binary.encode_{k}(v)\nprintln(bytes.to_hex(o))", enc.hex(), (enc.hex(),), k)
        s.add("binary-print", f"println(binary.decode_{k}(B(0)))", str(v), (enc.hex(),), k)
        s.add("binary-extra", f"mut b [byte] = B(0)\nmut v {t} = binary.decode_{k}(b)\nprintln(v)", str(v), (enc.hex() + "a5ff00",), k)
        if w <= 64:
            src = "cast(I(1), %s)" % t if sg == "i" else "cast(U(1), %s)" % t
            s.add("binary-encode", f"mut o [byte] = binary.encode_{k}({src})\nprintln(o)", nb(enc), (enc.hex(), str(v)), k)
    for w in (16, 32, 64, 128, 256):
        for sg in "iu":
            for e in ("_le", "_be"):
                for n in (0, 1, w // 8 - 1):
                    t = f"{sg}{w}"
                    s.add("binary-short", f"mut b [byte] = B(0)\nmut v {t} = binary.decode_{t}{e}(b)\nprintln(v)", P("P0033"), ("5a" * n,), f"{t}{e}{n}")
    for t in ("i8", "u8"):
        s.add("binary-short", f"mut b [byte] = B(0)\nmut v {t} = binary.decode_{t}(b)\nprintln(v)", P("P0033"), ("",), t)
    fs = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, 2.0 ** -126, 3.4028234663852886e38, 1e-45] + [rng.uniform(-1e6, 1e6) for _ in range(c.scale(10, 100))]
    for v in fs:
        for e, o in (("_le", "<"), ("_be", ">")):
            b8 = struct.pack(o + "d", v)
            s.add("binary-f64", f"println(bytes.to_hex(binary.encode_f64{e}(F(0))))", b8.hex(), (repr(v),), e)
            s.add("binary-f64", f"mut b [byte] = B(1)\nmut v float = binary.decode_f64{e}(b)\nprintln(\"${{v == F(0)}}\")\nprintln(bytes.to_hex(binary.encode_f64{e}(v)))", "true\n" + b8.hex(), (repr(v), b8.hex()), e)
            try:
                b4 = struct.pack(o + "f", v)
            except OverflowError:
                continue
            s.add("binary-f32", f"println(bytes.to_hex(binary.encode_f32{e}(cast(F(0), f32))))", b4.hex(), (repr(v),), e)
            s.add("binary-f32", f"mut b [byte] = B(1)\nmut v f32 = binary.decode_f32{e}(b)\nprintln(bytes.to_hex(binary.encode_f32{e}(v)))", b4.hex(), (repr(v), b4.hex()), e)
    for n in (0, 1, 3):
        s.add("binary-short", "mut b [byte] = B(0)\nmut v f32 = binary.decode_f32_le(b)\nprintln(v)", P("P0033"), ("5a" * n,), f"f32{n}")
        s.add("binary-short", "mut b [byte] = B(0)\nmut v float = binary.decode_f64_be(b)\nprintln(v)", P("P0033"), ("5a" * (2 * n + 1),), f"f64{n}")
    # CSV
    texts = ["", "a", "a,b", "a,b\n", "a,b\n1,2\n", "a,b\r\n1,2\r\n", ",", ",,\n", "a,\n", ",a", '"a"', '"a,b",c', '"a""b"', '"a\nb",c\n', '""', '"",""\n', '"a",', '"""",x', '"a\r\nb"', '"unterminated', 'a,"b', '"",']
    alpha = ["a", "b", ",", ",", "\n", '"', "\r\n", " ", "x y", "\u00e9", '""']
    for _ in range(c.scale(300, 3000)):
        texts.append("".join(rng.choice(alpha) for _ in range(rng.randrange(0, 12))))
    fields = ["", "a", "a b", " lead", "x,y", 'q"q', '"', '""', "nl\nx", "cr\r\ny", "\u00e9", ",", "0", "end\n", "\n", '"q"', "a" * 300]
    def table(w):
        return [[rng.choice(fields) for _ in range(w or rng.randrange(1, 5))] for _ in range(rng.randrange(1, 6))]
    for _ in range(c.scale(100, 1000)):      # well-formed texts with quoting chosen at random
        t = table(0)
        eol = rng.choice(("\n", "\r\n"))
        texts.append(eol.join(",".join(('"' + f.replace('"', '""') + '"') if (f == "" and len(r) == 1) or any(x in f for x in ',"\r\n') or rng.random() < .3 else f for f in r) for r in t) + rng.choice(("", eol)))
    for t in dict.fromkeys(texts):
        m = csv_parse(t)
        enc = t.encode()
        if m is None:
            s.add("csv-malformed", "showt(csv.parse(H(0)))", lambda r: r.rc == 0, (enc.hex(),), "any")
            continue
        e = csv_show(m)
        # blank lines: one row without fields, or skipped
        alt = csv_show([r for r in m if r])
        alt2 = csv_show([r or [""] for r in m])
        s.add("csv-parse", "showt(csv.parse(H(0)))", (e, alt, alt2), (enc.hex(),), "quoted" if '"' in t else "plain")
    tabs = [[["a", "b"], ["1", "2"]], [[""]], [["", ""]], [["a", ""]], [["", "a"]], [], [["a"]], [["x" * 5000, "y"]]] + [table(rng.choice((0, 2, 3))) for _ in range(c.scale(150, 1500))]
    for t in tabs:
        t8 = [[f.encode().decode("latin1") for f in r] for r in t]
        s.add("csv-round", "showt(csv.parse(csv.encode(T(0))))", csv_show(t), (tab(t8),), "t")
        # what is written must also be CSV to another reader
        s.add("csv-encode", "print(csv.encode(T(0)))", lambda r, t=t: r.rc == 0 and csv_parse(r.out.decode()) == t, (tab(t8),), "t")
        if t:
            s.add("csv-headers", "println(len(csv.headers(T(0))))\nshowt({csv.headers(T(0))})", f"{len(t[0])}\n" + csv_show(t[:1]), (tab(t8),), "t")
    s.add("csv-headers", "println(len(csv.headers(csv.parse(\"\"))))", "0", (), "empty")
    for i, t in enumerate(tabs[:c.scale(40, 200)]):
        t8 = [[f.encode().decode("latin1") for f in r] for r in t]
        f = f"\"{c.work}/t{i}_${{os.pid()}}.csv\""
        s.add("csv-file", f"mut p string = {f}\nmut ok, e = csv.write_file(p, T(0))\nprintln(\"${{ok}} ${{e == nil}}\")\nmut rows, e2 = csv.read_file(p)\nprintln(\"${{e2 == nil}}\")\nshowt(rows)\nmut raw, e3 = io.read_file(p)\nprintln(\"${{raw == csv.encode(T(0))}} ${{e3 == nil}}\")\nmut _, _ = io.delete_file(p)",
              "true true\ntrue\n" + csv_show(t) + "true true", (tab(t8),), "t")
    s.add("csv-file", f"mut rows, e = csv.read_file(\"{c.work}/absent/none.csv\")\nprintln(\"${{len(rows)}} ${{e == nil}}\")", "0 false", (), "absent")
    s.add("csv-file", f"mut ok, e = csv.write_file(\"{c.work}/absent/none.csv\", T(0))\nprintln(\"${{ok}} ${{e == nil}}\")", "false false", ("61",), "unwritable")
    suite.run((("plain", 1), ("asan", c.scale(4, 1))))


if __name__ == "__main__":
    main(check, "C19", "codecs, digests, packing and CSV agree with reference implementations on every input tried")
