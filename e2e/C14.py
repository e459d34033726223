# C14 against the running server: what FastCGI, SCGI and HTTP backends get, and FastCGI responses however they are cut into records
import sys, os, re, struct; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
plans, seen = {}, {}; ev = threading.Condition()
class Bad(Exception): pass
class Backend(threading.Thread):
    def __init__(self, path, kind):
        super().__init__(daemon=True); self.kind = kind
        self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.l.bind(path); self.l.listen(50); self.start()
    def run(self):
        while True:
            c, _ = self.l.accept(); threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        key = None
        try:
            c.settimeout(20); b = b""
            def need(n):
                nonlocal b
                while len(b) < n:
                    d = c.recv(65536)
                    if not d: raise Bad("connection closed after %r" % b[-200:])
                    b += d
            def take(n):
                nonlocal b
                need(n); r, b = b[:n], b[n:]; return r
            def until(t):
                nonlocal b
                while t not in b: need(len(b) + 1)
                r, b = b.split(t, 1); return r
            X = {"kind": self.kind}
            if self.kind == "http":
                head = until(b"\r\n\r\n").split(b"\r\n"); X["line"] = head[0]; X["headers"] = [tuple(h.split(b": ", 1)) for h in head[1:]]
                uri = head[0].split(b" ")[1]; cl = [v for k, v in X["headers"] if k.lower() == b"content-length"]
                if len(cl) > 1: raise Bad("several content-length %r" % cl)
                X["body"] = take(int(cl[0])) if cl else b""
            elif self.kind == "scgi":
                n = until(b":")
                if not re.fullmatch(rb"[1-9][0-9]*", n): raise Bad("netstring length %r" % n)
                h = take(int(n))
                if take(1) != b",": raise Bad("netstring not ended by ','")
                if h[-1:] != b"\0": raise Bad("headers do not end with NUL")
                h = h[:-1].split(b"\0")
                if len(h) % 2: raise Bad("odd number of strings %r" % h)
                X["env"] = list(zip(h[::2], h[1::2])); uri = dict(X["env"])[b"REQUEST_URI"]
                if X["env"][0][0] != b"CONTENT_LENGTH": raise Bad("first variable is %r" % (X["env"][0],))
                if X["env"].count((b"SCGI", b"1")) != 1: raise Bad("no SCGI=1")
                X["env"].remove((b"SCGI", b"1")); X["body"] = take(int(X["env"][0][1]))
            else:
                def rec():
                    h = take(8); ver, t, rid, n, p, z = struct.unpack(">BBHHBB", h)
                    if ver != 1 or rid != 1 or z: raise Bad("record header %r" % h)
                    d = take(n); take(p)
                    if (n + p) % 8: raise Bad("record of %d bytes padded with %d" % (n, p))
                    return t, d
                t, d = rec()
                if t != 1 or d[:2] != b"\0\1" or len(d) != 8: raise Bad("not a begin request record: %r" % d)
                X["keep"] = d[2] & 1; par = b""; bo = b""
                while True:
                    t, d = rec()
                    if t != 4: raise Bad("record type %d among params" % t)
                    if not d: break
                    par += d
                i = 0; X["env"] = []
                def ln():
                    nonlocal i
                    if par[i] < 128: i += 1; return par[i - 1]
                    i += 4; return struct.unpack(">I", par[i-4:i])[0] & 0x7fffffff
                while i < len(par):
                    a = ln(); v = ln(); X["env"].append((par[i:i+a], par[i+a:i+a+v])); i += a + v
                    if i > len(par): raise Bad("params cut short")
                uri = dict(X["env"])[b"REQUEST_URI"]
                while True:
                    t, d = rec()
                    if t != 5: raise Bad("record type %d in the body" % t)
                    if not d: break
                    bo += d
                X["body"] = bo
            if b: raise Bad("bytes behind the request: %r" % b[:100])
            key = re.search(rb"/(k\d+)", uri).group(1).decode()
            with ev: seen[key] = X; ev.notify_all()
            for piece in plans[key]:
                if piece is None: time.sleep(0.002)
                else: c.sendall(piece)
            c.shutdown(socket.SHUT_WR)
            c.settimeout(0.5)
            try:
                x = c.recv(100)
                if x: raise Bad("bytes behind the request: %r" % x)
            except socket.timeout: pass
        except Bad as e:
            with ev: seen["bad"] = str(e); ev.notify_all()
        except OSError: pass
        finally: c.close()
for k, n in (("http", "h"), ("scgi", "s"), ("fcgi", "f")): Backend(os.path.join(env.dir, n + ".sock"), k)
www = os.path.join(env.dir, "www"); os.makedirs(www)
D = env.dir; port = free_port()
srv = Server(env, ('docroot "%s"; if req.header["X-Buffer"] == "0" { buffer_request_body false; } env.set "VP_FIX" => "fixed"; env.set "HTTP_X_SECRET" => "mine"; if req.path =^ "/i/" { env.set "VP_EMPTY" => ""; env.set "REMOTE_ADDR" => "9.9.9.9"; }\n'
  'if req.query =~ "h=1" { proxy "unix:%s/h.sock"; } else if req.query =~ "h=2" { scgi "unix:%s/s.sock"; } else { fastcgi "unix:%s/f.sock"; }') % (www, D, D, D), modules=("proxy", "scgi", "fastcgi"), tcp=("127.0.0.1", port))
def rec(t, d, pad=None, rid=1):
    p = rng.choice([0, 0, -len(d) % 8, rng.randrange(256)]) if pad is None else pad
    return struct.pack(">BBHHBB", 1, t, rid, len(d), p, 0) + d + bytes(p)
def cut(b):
    out = []
    while b:
        n = rng.choice([1, 2, 5, 8, 50, 1000, 40000, len(b)]); out.append(b[:n]); b = b[n:]
        if rng.randrange(3) == 0 and len(out) < 6: out.append(None)
        if len(out) > 12: out.append(b); b = b""
    return out
cnt = 0
NAMES = ["X-A", "x-a", "X_A", "Accept", "Content-Type", "CONTENT_TYPE", "Cookie", "X-Secret", "x_secret", "Proxy-Connection", "TE", "X-Forwarded-For", "X-Forwarded-Proto", "X1-", "-y", "Vp-Fix", "If-None-Match", "User-Agent", "Connection"]
while env.more():
    cnt += 1; key = "k%d" % cnt; kind = rng.choice(["http", "scgi", "fcgi", "fcgi"]); h = {"http": 1, "scgi": 2, "fcgi": 3}[kind]
    v11 = rng.randrange(4) != 0; inf = rng.randrange(3) == 0
    path = ("/i/" if inf else "/") + key + rng.choice(["", "/a b".replace(" ", "%20"), "/%41%2f..%2fx", "//x/./y", "/x;y=1"]); q = "h=%d" % h + rng.choice(["", "&a=%20b", "&x=/../?y", "&c=\"'"])
    tgt = path + "?" + q; meth = rng.choice(["GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE"])
    hs = []
    for _ in range(rng.randrange(6)):
        n = rng.choice(NAMES); v = rng.choice(["", "v", "a, b", "x" * 200, "caf\xe9", '"q; r"', "1.2.3.4"])
        if n.lower() == "connection": v = rng.choice(["close", "keep-alive", "upgrade", "close, upgrade", "foo"])
        hs.append((n, v))
    if rng.randrange(25) == 0:  # variables of more than 64 KiB
        q += "&l=" + "q" * rng.choice([7000, 7900]); tgt = path + "?" + q; total = rng.choice([3000, 12000, 30000, 50300])
        while total > 0: n = min(total, rng.choice([127, 128, 129, 4000, 15000])); hs.append(("X-Long", "l" * n)); total -= n
    body = None; chunked = False; nobuf = rng.randrange(5) == 0
    if nobuf: hs.append(("X-Buffer", "0"))
    if meth not in ("GET", "HEAD"):
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 8, 300]))) * rng.choice([1, 1, 30, 300])
        chunked = v11 and rng.randrange(3) == 0 and (kind == "fcgi" or not nobuf)
        hs.append(("Transfer-Encoding", "chunked") if chunked else ("Content-Length", str(len(body))))
    hs.insert(rng.randrange(len(hs) + 1), ("Host", rng.choice(["h", "h:80", "Ex.org", "[::1]:8080"])))
    wire = "%s %s HTTP/1.%d\r\n%s\r\n" % (meth, tgt, v11, "".join("%s:%s%s\r\n" % (n, rng.choice([" ", ""]), v) for n, v in hs))
    wire = wire.encode("latin1")
    if chunked:
        d = body
        while d: n = min(len(d), rng.choice([1, 10, 70000])); n = len(d) if len(wire) > 3000 else n; wire += b"%x\r\n" % n + d[:n] + b"\r\n"; d = d[n:]
        wire += b"0\r\n\r\n"
    elif body: wire += body
    # the answer
    n = rng.choice([0, 1, 10, 4096, 65535, 65536, 150000]); data = (b"%d|" % cnt * (n // 2 + 1))[:n]; broken = False; framed = rng.randrange(2)
    hd = b"Status: 200\r\nContent-Type: a/b\r\n" + (b"Content-Length: %d\r\n" % n if framed else b"") + b"\r\n"
    if kind == "http": plan = b"HTTP/1.1 200 OK\r\n" + hd.split(b"\r\n", 1)[1] + (data if meth != "HEAD" else b"")
    elif kind == "scgi": plan = hd + (data if meth != "HEAD" else b"")
    else:
        out = hd + (data if meth != "HEAD" else b""); plan = b""; k = 0
        while out:
            m = rng.choice([1, 7, 8, 100, 5000, 65535]) if k < 12 else 65535; k += 1; plan += rec(6, out[:m]); out = out[m:]
            if rng.randrange(5) == 0: plan += rec(7, b"stderr text %d\n" % cnt)
            if rng.randrange(9) == 0: plan += rec(rng.choice([10, 11, 77]), b"x" * rng.choice([0, 1, 8, 300]))
        if rng.randrange(3) == 0: plan += rec(7, b"")
        f = rng.randrange(8)
        if f == 0 and meth != "HEAD":
            broken = True
            plan = rng.choice([plan[:-1], plan, plan[:rng.randrange(len(plan))], plan + b"\2" + rec(6, b"")[1:] + rec(3, bytes(8)), plan + rec(3, bytes(4) + bytes([rng.choice([1, 2, 3])]) + bytes(3)), plan + rec(3, bytes(7))])
        elif f == 1: plan += rec(6, b"")  # stdout closed, connection ends without end request
        elif f == 2: plan += rec(3, bytes(8))
        else: plan += rec(6, b"") + rec(3, bytes([0, 0, 0, rng.choice([0, 1])]) + bytes(4))
    plans[key] = cut(plan) if rng.randrange(3) else [plan]
    env.case = "broken=%r request %r, backend %s answers %r" % (broken, wire[:400], kind, [p and p[:60] for p in plans[key]][:10] + ["...", plan[-60:]]); env.evals += 1
    src = "127.0.0.%d" % rng.randrange(1, 250); s = socket.socket(socket.AF_INET, socket.SOCK_STREAM); s.settimeout(20); s.bind((src, 0)); s.connect(("127.0.0.1", port)); sport = s.getsockname()[1]
    complete = True
    try:
        for p in cut(wire) if rng.randrange(2) else [wire]:
            if p is None: time.sleep(0.001)
            else: s.sendall(p)
        ver, st, rh, rb, fr, cl = Reader(s).response(meth == "HEAD")
    except Dead as e: complete = False; err = str(e)
    except socket.timeout: env.fail("no complete response within 20 s (backend %s)" % ("misbehaves" if broken else "is fine"))
    except OSError as e: complete = False; err = str(e)
    s.close(); srv.check()
    if "bad" in seen: env.fail("malformed request to the backend: " + seen["bad"])
    if not broken:
        if not complete: env.fail(err)
        if st != 200 or rb != (data if meth != "HEAD" else b""): env.fail("status %d, body of %d bytes, expected %d: %r" % (st, len(rb), len(data), rb[:200]))
        if get(rh, "Content-Type") != ["a/b"]: env.fail("headers of the backend lost: %r" % rh)
    elif complete and st == 200 and (fr != "close" or framed) and not (framed and rb == data): env.fail("response of the backend was cut short, the client got a complete one (%s, %d bytes)" % (fr, len(rb)))
    elif complete and st == 200 and not data.startswith(rb): env.fail("bytes of other records in the body")
    with ev:
        if key not in seen and not broken: ev.wait(2)
        X = seen.get(key)
    if X is None:
        if broken: continue
        env.fail("backend got no (complete) request")
    if X["body"] != (body or b""): env.fail("backend got a body of %d bytes, client sent %d" % (len(X["body"]), len(body or b"")))
    L = lambda s: s.encode("latin1")
    hs = [(a, b.strip(" ")) for a, b in hs]
    if kind == "http":
        env.nontriv += 1
        if X["line"] != L("%s %s HTTP/1.%d" % (meth, tgt, v11)): env.fail("request line %r" % X["line"])
        drop = ("content-length", "transfer-encoding", "te", "connection", "proxy-connection", "x-forwarded-proto", "x-forwarded-for")
        want = [(L(a), L(b)) for a, b in hs if a.lower() not in drop] + [(b"X-Forwarded-For", L(src)), (b"X-Forwarded-Proto", b"http")]
        if meth not in ("GET", "HEAD"): want.append((b"Content-Length", b"%d" % len(body)))
        if v11: want.append((b"Connection", b"close"))
        got = [tuple(x) if len(x) == 2 else (x[0].rstrip(b":"), b"") for x in X["headers"]]
        up = sum(1 for a, b in hs if a.lower() == "connection" for t in b.split(",") if t.strip().lower() == "upgrade")
        for _ in range(up): want.append((b"Connection", b"Upgrade"))
        if sorted(got) != sorted(want): env.fail("headers for the backend: unexpected %r, missing %r" % ([x for x in got if x not in want], [x for x in want if x not in got]))
        if [x for x in got if x[0] not in (b"Connection", b"Content-Length")] != [x for x in want if x[0] not in (b"Connection", b"Content-Length")]: env.fail("order of headers: %r" % got)
    else:
        env.nontriv += 1
        dec = re.sub(r"%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), path); segs = []
        for x in dec.split("/")[1:]:
            if x == "..": segs and segs.pop()
            elif x not in ("", "."): segs.append(x)
        sp = "/" + "/".join(segs); host = [b for a, b in hs if a == "Host"][0]; host = host[:host.index("]") + 1] if host[0] == "[" else host.split(":")[0]
        want = {"REQUEST_METHOD": meth, "REQUEST_URI": tgt, "QUERY_STRING": q, "SCRIPT_NAME": sp, "PATH_INFO": "", "SERVER_PROTOCOL": "HTTP/1.%d" % v11, "GATEWAY_INTERFACE": "CGI/1.1", "SERVER_NAME": host.lower(),
                "SERVER_PORT": str(port), "SERVER_ADDR": "127.0.0.1", "REMOTE_ADDR": "9.9.9.9" if inf else src, "REMOTE_PORT": str(sport), "DOCUMENT_ROOT": www, "SCRIPT_FILENAME": www + sp, "REQUEST_SCHEME": "http", "REDIRECT_STATUS": "200", "VP_FIX": "fixed", "HTTP_X_SECRET": "mine"}
        if inf: want["VP_EMPTY"] = ""
        if not chunked: want["CONTENT_LENGTH"] = str(len(body or b""))
        elif kind == "scgi" or not nobuf or any(a == b"CONTENT_LENGTH" for a, _ in X["env"]): want["CONTENT_LENGTH"] = str(len(body))
        got = [(a.decode("latin1"), b.decode("latin1")) for a, b in X["env"]]
        for k, v in want.items():
            vs = [b for a, b in got if a == k]
            if k == "SERVER_NAME": vs = [x.lower() for x in vs]
            if k in ("DOCUMENT_ROOT", "SCRIPT_FILENAME"): vs = [x.replace("//", "/") for x in vs]
            if vs != [v]: env.fail("variable %s is %r, expected %r once" % (k, vs, v))
        hv = sorted((("HTTP_" if a.lower() != "content-type" else "") + re.sub("[^A-Z0-9]", "_", a.upper()), b) for a, b in hs)
        hv = [x for x in hv if x[0] != "HTTP_X_SECRET"]
        gv = sorted(x for x in got if x[0] not in want and x[0] != "SERVER_SOFTWARE")
        if gv != hv: env.fail("variables from headers: unexpected %r, missing %r" % ([x for x in gv if x not in hv], [x for x in hv if x not in gv] or "(order/count)"))
    if env.evals % 301 == 1: env.sample(env.case)
    plans.pop(key, None); seen.pop(key, None)
env.done("random requests to FastCGI, SCGI and HTTP backends and FastCGI responses in random records; non-trivial: request compared in full")
