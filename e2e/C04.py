# C04 against the running server: bodies of static files with and without Range
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
www = os.path.join(env.dir, "www"); os.makedirs(www)
files = {}
for i, n in enumerate([0, 1, 2, 10, 1000, 70000, 300001]):
    d = bytes(rng.randrange(256) for _ in range(n)); name = "f%d.bin" % i; open(os.path.join(www, name), "wb").write(d); files[name] = d
os.mkdir(os.path.join(www, "dir"))
srv = Server(env, 'mime_types (".bin" => "x/y"); if req.header["X-NoRange"] == "1" { static.range_requests false; } docroot "%s"; static;' % www)
def ref(h, limit):
    """-> list of ranges | 'all' | 'none' (well-formed headers only)"""
    out = []
    for p in h[6:].split(","):
        p = p.strip(" \t")
        if not p: continue
        a, b = p.split("-"); a, b = a.strip(), b.strip()
        if a == "": x, y = limit - int(b), limit - 1
        else: x, y = int(a), int(b) if b else limit - 1
        y = min(y, limit - 1); x = max(x, 0)
        if x <= y: out.append((x, y))
    return out
while env.more():
    name = rng.choice(list(files)); data = files[name]; n = len(data)
    kind = rng.randrange(10); hdr = None; want = None; norange = rng.randrange(12) == 0
    num = lambda: str(rng.choice([0, 1, 2, n - 1, n, n + 1, n // 2, rng.randrange(n + 2), 99999999999]) if rng.randrange(6) else max(0, rng.randrange(-3, n + 5))).replace("-", "")
    if kind >= 2:
        specs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
            t = rng.randrange(4)
            specs.append(num() + "-" + num() if t < 2 else num() + "-" if t == 2 else "-" + num())
        hdr = "bytes=" + rng.choice([",", ", ", " ,"]).join(specs) + rng.choice(["", "", "", ",", " "]); want = ref(hdr, n)
    elif kind == 1:
        hdr = rng.choice(["bytes=0-1x", "octets=0-1", "bytes=a-b", "bytes=0-0,x", "bytes=1-99999999999999999999", "bytes=--1", "Bytes=0-1"]); want = "all"
    if norange or hdr is None: want = "all"
    head = rng.randrange(6) == 0; ver = rng.choice(["1.1", "1.1", "1.0"])
    req = "%s /%s HTTP/%s\r\nHost: x\r\n%s%sConnection: close\r\n\r\n" % ("HEAD" if head else "GET", name, ver, "Range: %s\r\n" % hdr if hdr is not None else "", "X-NoRange: 1\r\n" if norange else "")
    env.case = "file of %d bytes, request %r" % (n, req); env.evals += 1
    if env.evals % 501 == 1: env.sample(env.case)
    try: v, st, hs, body, fr, cl = one(srv, req.encode(), head)
    except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
    srv.check()
    clen = get1(hs, "Content-Length")
    if want == "all":
        if st != 200 or get(hs, "Content-Range"): env.fail("status %d %r instead of the whole file" % (st, hs))
        if not head and body != data: env.fail("body differs from the file (%d bytes)" % len(body))
        if head and clen is not None and int(clen) != n: env.fail("HEAD: content-length %s" % clen)
    elif not want:
        if st != 416 or get(hs, "Content-Range") != ["bytes */%d" % n]: env.fail("status %d %r, %d bytes; expected 416" % (st, hs, len(body)))
    else:
        env.nontriv += 1
        if st != 206: env.fail("status %d, expected 206" % st)
        ct = get1(hs, "Content-Type") or ""
        m = re.fullmatch(r"multipart/byteranges; boundary=(\S+)", ct)
        if len(want) == 1 and not m:
            if get(hs, "Content-Range") != ["bytes %d-%d/%d" % (want[0] + (n,))]: env.fail("content-range %r, expected %r" % (get(hs, "Content-Range"), want))
            if not head and body != data[want[0][0]:want[0][1] + 1]: env.fail("body is not bytes %d-%d" % want[0])
            if ct != "x/y": env.fail("content-type %r" % ct)
        else:
            if not m: env.fail("%d ranges but content-type %r" % (len(want), ct))
            if get(hs, "Content-Range"): env.fail("multipart with content-range header")
            if not head:
                e = b"".join(("\r\n--%s\r\nContent-Type: x/y\r\nContent-Range: bytes %d-%d/%d\r\n\r\n" % (m.group(1), a, b, n)).encode() + data[a:b + 1] for a, b in want) + ("\r\n--%s--\r\n" % m.group(1)).encode()
                if body != e: env.fail("multipart body differs (%d bytes, expected %d): %r" % (len(body), len(e), body[:300]))
    if rng.randrange(40) == 0:
        for p, exp in (("/dir", None), ("/missing", 404), ("/../www/f1.bin", 404)):
            v, st, hs, body, fr, cl = one(srv, ("GET %s HTTP/1.0\r\n\r\n" % p).encode())
            if exp and st != exp: env.case = p; env.fail("status %d for %s" % (st, p))
            if st in (200, 206): env.case = p; env.fail("%s was served" % p)
env.done("random static files and Range headers against the running server; non-trivial: 206 responses")
