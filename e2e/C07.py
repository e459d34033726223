# C07 against the running server: framing of responses (own, proxy and scgi backends), keep-alive, pipelining
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
plans = {}; seen = {}
class Backend(threading.Thread):
    def __init__(self, path, kind):
        super().__init__(daemon=True); self.kind = kind
        self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.l.bind(path); self.l.listen(50); self.start()
    def run(self):
        while True:
            c, _ = self.l.accept(); threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        try:
            c.settimeout(20); b = b""
            def need(f):
                nonlocal b
                while f() is None:
                    d = c.recv(65536)
                    if not d: raise OSError
                    b += d
                return f()
            if self.kind == "proxy":
                i = need(lambda: b.find(b"\r\n\r\n") if b"\r\n\r\n" in b else None)
                head = b[:i].decode("latin1").split("\r\n"); b = b[i+4:]
                uri = head[0].split(" ")[1]; cl = [h.split(":")[1] for h in head if h.lower().startswith("content-length:")]
                n = int(cl[0]) if cl else 0
            else:
                i = need(lambda: b.find(b":") if b":" in b else None)
                ln = int(b[:i]); need(lambda: 1 if len(b) >= i + 2 + ln else None)
                h = b[i+1:i+1+ln].split(b"\0"); d = dict(zip(h[0:-1:2], h[1::2])); b = b[i+2+ln:]
                uri = d[b"REQUEST_URI"].decode(); n = int(d[b"CONTENT_LENGTH"] or 0)
            need(lambda: 1 if len(b) >= n else None)
            key = uri.rsplit("/", 1)[1]
            seen[key] = b[:n]
            for piece in plans[key]:
                if piece is None: time.sleep(0.004)
                else: c.sendall(piece)
            c.shutdown(socket.SHUT_WR)
            if not rng.randrange(4): time.sleep(0.002)
        except OSError: pass
        finally: c.close()
Backend(os.path.join(env.dir, "p.sock"), "proxy"); Backend(os.path.join(env.dir, "s.sock"), "scgi")
www = os.path.join(env.dir, "www"); os.makedirs(www); blob = bytes(rng.randrange(256) for _ in range(200001)); open(os.path.join(www, "f.bin"), "wb").write(blob)
ST = [200, 201, 204, 205, 206, 301, 304, 400, 403, 404, 416, 418, 499, 500, 503, 599]
conf = 'if req.path =^ "/p/" { proxy "unix:%s/p.sock"; } else if req.path =^ "/s/" { scgi "unix:%s/s.sock"; } else if req.path == "/f.bin" { docroot "%s"; static; }\n' % (env.dir, env.dir, www)
for st in ST:
    conf += 'else if req.path == "/r%d" { respond %d => "body of %d"; } else if req.path == "/e%d" { respond %d; }\n' % (st, st, st, st, st)
srv = Server(env, conf.replace("}\nelse", "} else"), modules=("proxy", "scgi"))
NOBODY = (204, 205, 304)
class X: pass
cnt = 0
def cut(b):
    """random pieces, some with pauses between"""
    out = []
    while b:
        n = rng.choice([1, 2, 5, 50, 1000, 40000, len(b)]); out.append(b[:n]); b = b[n:]
        if rng.randrange(3) == 0 and len(out) < 6: out.append(None)
        if len(out) > 8: out.append(b); b = b""
    return out
def mk():
    """-> request bytes, expectation"""
    global cnt; cnt += 1; e = X()
    v11 = rng.randrange(4) != 0; head = rng.randrange(6) == 0; e.head, e.v11 = head, v11
    body = None; e.key = None; e.expect100 = False; e.partial = False; e.any = False; e.err = False; e.dt = 1
    meth = "HEAD" if head else rng.choice(["GET", "GET", "POST"])
    k = rng.randrange(10)
    if k <= 1: e.status = rng.choice(ST); path = "/r%d" % e.status; e.body = b"body of %d" % e.status
    elif k == 2: e.status = rng.choice(ST); path = "/e%d" % e.status; e.body = b"" if not 400 <= e.status < 600 else None
    elif k == 3: e.status, path, e.body = (200, "/f.bin", blob) if meth != "POST" else (405, "/f.bin", None)
    else:
        proxy = k <= 7; key = "k%d" % cnt; e.key = key; path = ("/p/" if proxy else "/s/") + key
        e.status = rng.choice([200, 200, 200, 200, 204, 205, 304, 404, 500, 700, 999, 302])
        n = rng.choice([0, 1, 10, 4096, 65536, 100000]); data = (b"%d|" % cnt * (n // 2 + 1))[:n]; n = len(data); e.body = data
        if 400 <= e.status < 600 and not data: e.body = None
        nobody = head or e.status in (204, 304)
        ver = rng.choice([b"HTTP/1.1", b"HTTP/1.0"]); hs = [b"Content-Type: a/b"]; fr = rng.choice(["len", "chunked", "close"])
        if proxy: first = ver + b" %d X" % e.status
        else: first = b"Status: %d" % e.status
        if rng.randrange(5) == 0: hs.append(b"Connection: " + rng.choice([b"close", b"keep-alive", b"foo"]))
        if rng.randrange(8) == 0: hs.append(b"Date: Mon, 01 Jan 2001 00:00:00 GMT")
        if rng.randrange(8) == 0: hs.append(b"Server: b")
        sent = data
        bad = rng.randrange(12)
        if fr == "len":
            if proxy and bad == 0 and n: sent = data[:rng.randrange(n)]; e.partial = True
            if proxy and bad == 1: sent = data + b"HTTP/1.1 200 Excess\r\nContent-Length: 0\r\n\r\n"
            hs.append(b"Content-Length: %d" % n)
            if proxy and bad == 3: hs.append(rng.choice([b"content-length: %d" % (n + 3), b"content-length: +%d" % n, b"content-length: -1", b"content-length: 12a", b"content-length: 9223372036854775808"])); e.err = True
            if not proxy and bad == 0 and n > 3: hs[-1] = b"Content-Length: %d" % rng.randrange(n + 50); e.any = True
        elif fr == "chunked":
            hs.append(b"Transfer-Encoding: chunked"); s = b""; d = data
            if bad == 2: hs.append(b"Content-Length: 3")
            while d: c = rng.choice([1, 7, 5000, len(d)]); c = min(c, len(d)); s += b"%x\r\n" % c + d[:c] + b"\r\n"; d = d[c:]; \
                     s = s + b"%x\r\n" % len(d) + d + b"\r\n" if len(s) > 2000 and d else s; d = b"" if len(s) > 2000 else d
            s += b"0\r\n\r\n"; sent = s
            if bad == 0: sent = s[:rng.randrange(max(1, len(s) - 4))]; e.partial = True
        elif proxy and ver == b"HTTP/1.0" and b"Connection: keep-alive" in hs: hs.remove(b"Connection: keep-alive")
        if nobody: sent = b""
        if e.status == 205 and e.partial: e.any = True
        if nobody or e.status == 205: e.partial = False
        if bad == 5 and not e.err and e.status not in (204, 205, 304): first = rng.choice([b"Status: 7", b"Status: 1000", b"Status: 12345"]) if not proxy else ver + b" 099 X"; e.status = 500; e.body = None; e.partial = False
        if e.err: e.partial = True
        if head and fr != "len": e.any = False
        raw = first + b"\r\n" + b"\r\n".join(hs) + b"\r\n\r\n"
        if rng.randrange(6) == 0 and proxy: raw = ver + b" 100 Continue\r\n\r\n" + raw
        plans[key] = cut(raw + sent) if rng.randrange(3) else [raw + sent]
        e.hs = hs
    req = "%s %s HTTP/1.%d\r\nHost: h\r\n" % (meth, path, v11); e.close = not v11
    c = rng.randrange(8)
    if c == 0: req += "Connection: close\r\n"; e.close = True
    elif c <= 3 and not v11: req += "Connection: keep-alive\r\n"; e.close = False
    e.rb = b""
    if meth == "POST":
        e.rb = b"%d=" % cnt * rng.choice([0, 1, 30, 5000])
        if v11 and rng.randrange(8) == 0: req += "Expect: 100-continue\r\n"; e.expect100 = True
        if v11 and rng.randrange(3) == 0:
            req += "Transfer-Encoding: chunked\r\n"; body = b""; d = e.rb
            while d: n = rng.choice([1, 10, len(d)]); n = min(n, len(d)) if len(body) < 500 else len(d); body += b"%x\r\n" % n + d[:n] + b"\r\n"; d = d[n:]
            body += b"0\r\n\r\n"
        else: req += "Content-Length: %d\r\n" % len(e.rb); body = e.rb
    e.req = req.encode() + b"\r\n" + (body or b""); e.meth = meth; e.path = path
    return e
def describe(es): return " ||| ".join("%r backend=%r" % (e.req[:300], [p and p[:200] for p in plans.get(e.key, [])][:6]) for e in es)
def check(e, r):
    ver, status, hs, body, framing, closes = r
    if e.partial and (framing != "close" or e.err): env.fail("backend response was cut short, but the client got a complete one (%s, %d bytes)" % (framing, len(body)))
    if ver != ("HTTP/1.1" if e.v11 else "HTTP/1.0"): env.fail("version %s of the response to %s: %d %r %r" % (ver, e.path, status, hs, body[:50]))
    if not e.partial and status != e.status: env.fail("status %d, expected %d" % (status, e.status))
    nob = e.head or status in NOBODY
    if status in (204, 205) and any(v != "0" for v in get(hs, "content-length")): env.fail("content-length with status %d" % status)
    if e.any or e.partial: pass
    elif nob:
        if body: env.fail("body %r where none is allowed" % body[:50])
        cl = get1(hs, "content-length")
        if e.head and cl is not None and not (e.key and status >= 400) and e.body is not None and status == e.status and status not in NOBODY and int(cl) != len(e.body): env.fail("HEAD announces %s bytes, GET has %d" % (cl, len(e.body)))
    elif e.body is None:
        if status >= 400 and not (e.key and not body) and (b"%d" % status not in body or b"</html>\n" != body[-8:]): env.fail("not an error page: %r" % body[:200])
    elif body != e.body: env.fail("body differs: %d bytes, expected %d; %r" % (len(body), len(e.body), body[:60]))
    if len(get(hs, "date")) != 1: env.fail("%d date headers" % len(get(hs, "date")))
    if len(get(hs, "server")) != 1: env.fail("%d server headers" % len(get(hs, "server")))
    co = get(hs, "connection")
    if len(co) > 1 or (co and co[0] not in ("close", "keep-alive")): env.fail("connection header %r" % co)
    if e.close and not closes: env.fail("client does not want keep-alive, response does not announce the close")
    if e.v11 and not e.close and closes and status == e.status and status < 400: env.fail("keep-alive refused without reason: %r" % hs)
    if e.key and e.key in seen and seen[e.key] != e.rb: env.fail("backend got another request body")
    if framing != "length" or nob: env.nontriv += 1
    return closes
while env.more():
    es = [mk() for _ in range(rng.choice([1, 2, 3, 5]))]
    for e in es[:-1]:
        if e.expect100: e.expect100 = False; e.req = e.req.replace(b"Expect: 100-continue\r\n", b"")
    env.case = describe(es)
    s = srv.connect(20); rd = Reader(s); raw = b"".join(e.req for e in es)
    def send():
        try:
            if rng.randrange(2): s.sendall(raw)
            else:
                i = 0; k = 0
                while i < len(raw):
                    n = rng.choice([1, 3, 100, 5000, len(raw)]); s.sendall(raw[i:i+n]); i += n; k += 1
                    if k > 8: n = len(raw); s.sendall(raw[i:]); break
                    if rng.randrange(3) == 0: time.sleep(0.001)
        except OSError: pass
    t = threading.Thread(target=send, daemon=True); t.start()
    closed = cutoff = False; fragile = False # fragile: a response may be complete before its request body was read, the server closes then
    for e in es:
        env.evals += 1
        try:
            if e.expect100:
                v, st, h = rd.head()
                if st != 100 or h: env.fail("no 100 continue")
            r = rd.response(e.head)
        except Dead as x:
            if e.partial or e.any or (fragile and "closed inside a line: b''" in str(x)): cutoff = True; break
            env.fail("bad framing for %s %s: %s" % (e.meth, e.path, x))
        except socket.timeout: env.fail("no complete response to %s %s within 20 s" % (e.meth, e.path))
        if check(e, r): closed = True; break
        if e.rb and not e.key: fragile = True
    if closed:
        try: extra = rd.rest()
        except socket.timeout: env.fail("connection announced to close stays open")
        if extra and not e.any: env.fail("bytes behind the last response: %r" % extra[:100])
    elif not cutoff:
        # nothing but the next response may follow
        s.settimeout(0.0)
        try: x = s.recv(100)
        except (BlockingIOError, socket.timeout): x = None
        except OSError: x = b""
        if rd.b or x: env.fail("bytes behind the last response: %r" % (rd.b + (x or b""))[:100])
    t.join(); s.close(); env.sample(env.case[:200])
    for e in es: plans.pop(e.key, None); seen.pop(e.key, None)
# requests whose body is not complete when the response is: the rest must never be taken for a request
    if rng.randrange(10) == 0:
        sm = b"GET /r418 HTTP/1.1\r\nHost: x\r\nX: a\r\n\r\n"; v = rng.randrange(3)
        if v == 0: h, b = b"Content-Length: %d\r\n" % len(sm), sm
        elif v == 1: h, b = b"Transfer-Encoding: chunked\r\n", b"%x\r\n" % len(sm) + sm + b"\r\n0\r\n\r\n"
        else: h, b = b"Content-Length: %d\r\n" % (len(sm) + 40), sm
        p = rng.choice([b"/r200", b"/e404", b"/f.bin"]); cutat = 0 if v != 1 or rng.randrange(2) else 4
        env.case = "POST %s with %r, body %r sent after the response" % (p, h, b); env.evals += 1; env.nontriv += 1
        s = srv.connect(20); rd = Reader(s)
        try:
            s.sendall(b"POST " + p + b" HTTP/1.1\r\nHost: a\r\n" + h + b"\r\n" + b[:cutat]); r = rd.response()
            try: s.sendall(b[cutat:])
            except OSError: pass
            s.settimeout(0.3)
            try: x = rd.response()
            except (Dead, socket.timeout, OSError): x = None
            if x: env.fail("the request body was answered as a request (status %d)" % x[1])
        except Dead as x: env.fail(str(x))
        s.close()
env.done("non-length framing or bodyless")
