# C18 against the running server: random histories of requests that are held by a backend, finished or aborted; bursts for the rate limits
import sys, os, threading, socket, time; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng; port = free_port()
held = {}; lock = threading.Lock()
l = socket.socket(socket.AF_UNIX); l.bind(env.dir + "/b.sock"); l.listen(200)
def serve(c):
    try:
        c.settimeout(30); b = b""
        while b"\r\n\r\n" not in b:
            d = c.recv(65536)
            if not d: c.close(); return
            b += d
        i = int(re.search(rb"(?i)x-id: *(\d+)", b).group(1))
        with lock: held[i] = c
    except OSError: c.close()
def accept():
    while True:
        c, _ = l.accept(); threading.Thread(target=serve, args=(c,), daemon=True).start()
threading.Thread(target=accept, daemon=True).start()
N = {k: rng.randint(1, 4) for k in ("con", "ip", "act", "b1", "b2", "two", "req", "reqip")}
N["req"] += 3; N["reqip"] += 2
conf = ('if req.path == "/con" { limit.con %(con)d; } if req.path == "/ip" { limit.con_ip %(ip)d; } if req.path == "/act" { limit.con_ip (%(act)d, { respond 429 => "busy"; }); }\n'
  'if req.path == "/both" { limit.con %(b1)d; limit.con_ip %(b2)d; } if req.path == "/two" { limit.con (%(two)d, { if req.header["X-N"] =~ "1" { respond 429 => "two"; } else { respond 503 => "x"; } }); }\n'
  'if req.path == "/req" { limit.req %(req)d; respond 200 => "ok"; } if req.path == "/reqip" { limit.req_ip (%(reqip)d, { respond 429 => "slow"; }); respond 200 => "ok"; }\n') % N
srv = Server(env, conf + 'proxy "unix:%s/b.sock";' % env.dir, modules=("limit", "proxy"), tcp=("127.0.0.1", port))
IPS = ["127.0.0.1", "127.0.0.2", "127.1.2.3", "127.0.0.3"]
active = {}   # id -> (path, ip, socket, reader)
ids = [0]; log = []
def full(path, ip):
    a = list(active.values())
    n = sum(1 for p, i, *_ in a if p == path); k = sum(1 for p, i, *_ in a if p == path and i == ip)
    return {"/con": n >= N["con"], "/ip": k >= N["ip"], "/act": k >= N["act"], "/both": n >= N["b1"] or k >= N["b2"], "/two": n >= N["two"], "/free": False}[path]
def attempt(path, ip, old):
    """-> (admitted, id, socket, reader, status)"""
    ids[0] += 1; i = ids[0]
    s = old
    if s is None: s = srv.connect(10, tcp=True, src=ip)
    try: s.settimeout(15); s.sendall(b"GET %s HTTP/1.1\r\nHost: x\r\nX-Id: %d\r\nX-N: 1\r\n\r\n" % (path.encode(), i))
    except OSError:
        if old is None: raise
        s.close(); return attempt(path, ip, None)   # an idle connection may be closed by the server at any time
    end = time.time() + 15
    while True:
        with lock: got = i in held
        if got: s.settimeout(20); return True, i, s, None
        s.settimeout(0.003)
        try: d = s.recv(1, socket.MSG_PEEK)
        except socket.timeout: d = None
        except OSError as e:
            srv.check()
            if old is not None: s.close(); return attempt(path, ip, None)
            env.fail("connection lost: %s" % e)
        if d == b"":
            srv.check()
            if old is not None: s.close(); return attempt(path, ip, None)
            env.fail("the server closed the connection without an answer")
        if d is not None:
            s.settimeout(10); v, st, hs, body, fr, cl = Reader(s).response(False); return False, i, s, st
        if time.time() > end: srv.check(); env.fail("no answer")
pool = {ip: [] for ip in IPS}
def opn():
    path = rng.choice(["/con", "/ip", "/ip", "/act", "/both", "/both", "/two", "/free"]); ip = rng.choice(IPS); f = full(path, ip)
    deadline = time.time() + 5
    while True:
        old = pool[ip].pop() if pool[ip] and rng.random() < .6 else None
        log.append("open %s %s" % (path, ip)); env.case = "limits %r, history: %s" % (N, "; ".join(log[-60:])); env.evals += 1
        ok, i, s, st = attempt(path, ip, old)
        if ok:
            log[-1] += " -> %d" % i
            if f: env.fail("request admitted although the limit is reached (active: %r)" % sorted((p, x) for p, x, *_ in active.values()))
            active[i] = (path, ip, s); return
        if st != (429 if path in ("/act", "/two") else 503): env.fail("status %d for a refused request" % st)
        log[-1] += " -> refused"; pool[ip].append(s); env.nontriv += 1
        if f: return
        if time.time() > deadline: env.fail("request still refused 5 s after a place became free (active: %r)" % sorted((p, x) for p, x, *_ in active.values()))
        time.sleep(0.03)   # a place given back a moment ago
def end(i, how):
    path, ip, s = active.pop(i); log.append("%s %d" % (how, i))
    with lock: c = held.pop(i)
    if how == "finish":
        c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok"); c.close()
        try: v, st, hs, body, fr, cl = Reader(s).response(False)
        except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
        if st != 200 or body != b"ok": env.fail("status %d body %r" % (st, body))
        if rng.random() < .6: pool[ip].append(s)
        else: s.close()
    elif how == "abort": s.close(); time.sleep(0.002); c.close()
    elif how == "lost":
        c.close()
        try: Reader(s).response(False)
        except (Dead, OSError): pass
        s.close()
last = 0
def burst():
    for path, n, bad, ips in (("/req", N["req"], 503, IPS[:1]), ("/reqip", N["reqip"], 429, rng.sample(IPS, 2))):
        for ip in ips:
            k = n + rng.choice([0, 1, 5, 10]) if rng.random() < .8 else n - 1
            s = srv.connect(10, tcp=True, src=ip); env.evals += 1; env.case = "limits %r: %d requests for %s at once from %s" % (N, k, path, ip)
            t0 = time.time(); s.sendall(b"GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % path.encode() * k); r = Reader(s); sts = []
            try:
                for _ in range(k): sts.append(r.response(False)[1])
            except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
            t1 = time.time(); s.close(); ok = sts.count(200)
            if any(x not in (200, bad) for x in sts): env.fail("statuses %r" % sts)
            if t1 - t0 > 0.5: continue
            crossed = int(t0 - .1) != int(t1 + .1)
            if ok != min(n, k) and not (path == "/req" and crossed and min(n, k) <= ok <= min(2 * n, k)): env.fail("%d of %d requests within %.2f s admitted, limit %d: %r" % (ok, k, t1 - t0, n, sts))
            if k > n: env.nontriv += 1
while env.more():
    if time.time() - last > 2.4: burst(); last = time.time()
    k = rng.random()
    if active and (k < .42 or len(active) > 25): end(rng.choice(sorted(active)), rng.choice(["finish", "finish", "finish", "abort", "lost"]))
    else: opn()
    if len(log) % 10 == 0: env.sample(env.case[-400:])
for i in sorted(active): end(i, "abort")
for path, n in (("/con", N["con"]), ("/two", N["two"])):
    for _ in range(n):
        deadline = time.time() + 5
        while True:
            ok, i, s, st = attempt(path, IPS[0], None)
            if ok: active[i] = (path, IPS[0], s); break
            if time.time() > deadline: env.case = "limits %r, history: %s" % (N, "; ".join(log[-60:])); env.fail("after all requests ended only %d places for %s are left" % (len(active), path))
            s.close(); time.sleep(0.05)
env.done("random histories of requests held by a backend, finished, aborted or failed, admitted exactly as long as places are free; bursts against the rate limits; non-trivial: refused requests")
