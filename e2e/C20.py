# C20 against the running server: random requests; every answered request must leave exactly one line from which the values can be read back
import sys, os, time, urllib.parse; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng; log = env.dir + "/access.log"
FIELDS = ["m", "{X}i", "U", "r", "s", "q", "{Y}e", "V", "{X}o", "f", "v", "u", "h", "{Referer}i"]
srv = Server(env, '''accesslog "file:%s"; accesslog.format "%s";
docroot "/nowhere"; env.set "Y" => "%%{req.header[Y]}"; header.add "X" => "%%{req.header[Z]}";
if req.path =^ "/s404" { respond 404 => "x"; } respond 200 => "ok";
''' % (log, " ".join('\\"%%%s\\"' % f for f in FIELDS)), modules=("accesslog",))
def unesc(b):
    """the value of an escaped field, or None"""
    if re.search(rb"[^ -~]", b): return None
    o = bytearray(); i = 0
    while i < len(b):
        c = b[i:i + 1]
        if c == b'"': return None
        if c != b"\\": o += c; i += 1; continue
        m = re.match(rb'\\(?:(["\\])|([bnrtv])|x([0-9A-F]{2}))', b[i:])
        if not m: return None
        o += m.group(1) or ({b"b": b"\b", b"n": b"\n", b"r": b"\r", b"t": b"\t", b"v": b"\v"}[m.group(2)] if m.group(2) else bytes([int(m.group(3), 16)])); i += m.end()
    return bytes(o)
def rbytes(n, url=False):
    k = rng.randrange(4); a = [i for i in range(256) if i not in (0, 10, 13, 127) and i >= 32]
    if k == 0: a = [34, 92, 120, 110, 65, 48]
    elif k == 1: a = list(range(128, 256)) + [34]
    elif k == 2: a = list(range(33, 127))
    if url: a = [x for x in a if 33 <= x <= 126 and x not in (35, 63, 37, 32)] or [97]
    return bytes(rng.choice(a) for _ in range(n))
pos = 0; rule = "requests with quotes, backslashes, controls or bytes above 0x7f in logged values"
def newlines(want):
    """the lines written since the last call, after at least `want` of them or 4 s"""
    global pos
    end = time.time() + 10
    while True:
        try: b = open(log, "rb").read()[pos:]
        except OSError: b = b""
        if (b.count(b"\n") >= want and (not b or b.endswith(b"\n"))) or time.time() > end: break
        time.sleep(0.02)
    pos += len(b); return b
while env.more():
    n = rng.randint(1, 8); raw = b""; exp = []
    for _ in range(n):
        kind = rng.randrange(6); path = b"/" + rng.choice([b"", b"s404"]) + rbytes(rng.randrange(12), True).replace(b"/", b"-").replace(b".", b"-")
        enc = path
        if rng.random() < .6:
            extra = bytes(rng.choice([34, 92, 0x41, 0xc3, 0xe2, 0xf2, 0x20, 0x7e, 0x27]) for _ in range(rng.randint(1, 5)))
            path += extra; enc += b"".join(b"%%%02x" % c for c in extra)
        q = rng.choice([b"", rbytes(rng.randint(1, 15), True), b'a="\\', b"%22%0a"])
        tgt = enc + (b"?" + q if q else b""); v = lambda: rbytes(rng.randint(1, 20)).strip() or b"v"
        x, y, z, ref = (v() if rng.random() < .6 else None for _ in range(4)); host = rng.choice([b"h", b"a.example.org", b"127.0.0.1", b"h:80"])
        meth = rng.choice([b"GET", b"GET", b"GET", b"HEAD", b"OPTIONS", b"DELETE"])
        if b"\xff" in tgt or b"\xfe" in tgt: continue
        r = meth + b" " + tgt + b" HTTP/1.1\r\nHost: " + host + b"\r\n"
        for nme, val in ((b"X", x), (b"Y", y), (b"Z", z), (b"Referer", ref)):
            if val is not None: r += nme + b": " + val + b"\r\n"
        raw += r + b"\r\n"; exp.append((meth, x, path, b"%s %s HTTP/1.1" % (meth, tgt), q, y, z, host, ref))
    if not exp: continue
    env.case = "requests %r" % raw; s = srv.connect(20); s.sendall(raw); rd = Reader(s); sts = []
    try:
        for e in exp:
            sts.append(rd.response(e[0] == b"HEAD")[1])
            if sts[-1] == 400: break
    except Dead as e: env.fail("no response: %s" % e)
    s.close(); env.evals += len(sts)
    want = [i for i, st in enumerate(sts) if st != 400]
    b = newlines(len(want)); lines = b.split(b"\n"); env.sample(repr(b[:300]))
    if lines.pop() != b"": env.fail("unfinished line %r" % b[-200:])
    if len(lines) != len(want): env.fail("%d lines for %d answered requests: %r" % (len(lines), len(want), b[:1000]))
    for i, l in zip(want, lines):
        meth, x, path, first, q, y, z, host, ref = exp[i]
        m = re.fullmatch(rb'"((?:[^"\\]|\\.)*)"' + rb' "((?:[^"\\]|\\.)*)"' * (len(FIELDS) - 1), l, re.S)
        if not m: env.fail("a line that can't be split into its fields (forged by the client): %r" % l)
        g = dict(zip(FIELDS, (unesc(f) for f in m.groups())))
        bad = [f for f in FIELDS if g[f] is None]
        if bad: env.fail("field %s is not escaped: %r" % (bad[0], l))
        st = sts[i]
        want1 = {"m": meth, "s": b"%d" % st, "r": first, "V": host.split(b":")[0], "{X}i": x or b"-", "{Referer}i": ref or b"-"}
        if g["q"] not in (q or b"-", q): env.fail("query string %r logged as %r" % (q, g["q"]))
        if st in (200, 404): want1["{Y}e"] = y or b""; want1["{X}o"] = z or b"-"
        for f, w in want1.items():
            if g[f] != w and not (f == "{Y}e" and not w and g[f] in (b"-", b"")): env.fail("%%%s: %r logged as %r in %r" % (f, w, g[f], l))
        if g["U"] != path: env.fail("path %r logged as %r" % (path, g["U"]))
        if re.search(rb'[^ !#-\[\]-~]', b"".join(w for w in exp[i][1:] if w)): env.nontriv += 1
env.done(rule)
