# C16 against the running server: auth.plain, auth.htpasswd, auth.htdigest with random user files, credentials and file changes
import sys, os, base64, hashlib, time; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
def md5(b): return hashlib.md5(b).digest()
def apr1(pw, salt):
    """the apr1 algorithm, from its description"""
    d = md5(pw + salt + pw); m = pw + b"$apr1$" + salt + d * (len(pw) // 16) + d[:len(pw) % 16]; i = len(pw)
    while i: m += b"\0" if i & 1 else pw[:1]; i >>= 1
    d = md5(m)
    for i in range(1000):
        d = md5((pw if i & 1 else d) + (salt if i % 3 else b"") + (pw if i % 7 else b"") + (d if i & 1 else pw))
    A = b"./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; out = b""
    for a, b, c in ((0, 6, 12), (1, 7, 13), (2, 8, 14), (3, 9, 15), (4, 10, 5)):
        v = d[a] << 16 | d[b] << 8 | d[c]
        for _ in range(4): out += A[v & 63:(v & 63) + 1]; v >>= 6
    v = d[11]
    for _ in range(2): out += A[v & 63:(v & 63) + 1]; v >>= 6
    return b"$apr1$" + salt + b"$" + out
# crypt(3) results (DES uses only the first 8 bytes)
CRYPT = [(b"abc", b"abFZSxKKdq5s6"), (b"abc", b"$1$sa$ij19SPwT3UR.C.F9AIipf0"), (b"abc", b"$6$salt$i1etou/cjGIhaFRAAe9Ovyu8VW7eoR4C1h8EpVn8PpPcvBVwfsaYgJRGnPhBZyT5Z3JenrlmY/p02tjS7Gl0w/")]
def word(lo, hi, extra=b""):
    return bytes(rng.choice(b"abcAB019-_. $" + extra) for _ in range(rng.randint(lo, hi)))
USERS = [b"alice", b"bob", b"al", b"alice2", b"", b"x y", b"\xc3\xa9ve", b"Alice"]
REALMS = [b"realm", b"realm2", b"rea", b"other realm", b"Realm"]
KIND = ["plain", "htpasswd", "htdigest"]
def mkfile(kind):
    """-> file content, {(realm, user): predicate on password}, known passwords"""
    lines, tab, pws = [], {}, []
    for u in rng.sample(USERS, rng.randint(1, 5)) + ([rng.choice(USERS)] if rng.random() < .3 else []):
        for realm in (rng.sample(REALMS, rng.randint(1, 3)) if kind == "htdigest" else [None]):
            pw = rng.choice([b"secret", b"", word(1, 20), word(15, 33), word(1, 6, b":"), b"p:w", b"a" * 16])
            if kind == "plain": l = pw; f = (lambda x, pw=pw: x == pw)
            elif kind == "htdigest": l = hashlib.md5(u + b":" + realm + b":" + pw).hexdigest().encode(); f = (lambda x, pw=pw: x == pw)
            else:
                k = rng.randrange(6); f = (lambda x, pw=pw: x == pw)
                if k == 0: l = b""; f = lambda x: False
                elif k == 1: l = b"{SHA}" + base64.b64encode(hashlib.sha1(pw).digest())
                elif k == 2: pw, l = rng.choice(CRYPT); f = (lambda x, pw=pw: x == pw)
                elif k == 3: l = rng.choice([b"*", b"!", b"x", b"$apr1$", b"{SHA}", b"$9$ab$cd", b"{SHA}" + base64.b64encode(hashlib.sha1(pw).digest())[:-1], apr1(pw, b"ab")[:-1]]); f = lambda x: False
                else: salt = word(1, 8).replace(b"$", b"a").replace(b" ", b"b"); l = apr1(pw, salt)
            pws.append((u, realm, pw)); tab[realm, u] = f
            lines.append(u + b":" + (realm + b":" if realm is not None else b"") + l)
    nl = rng.choice([b"\n", b"\r\n", b"\n\n"])
    return nl.join(lines) + (nl if rng.random() < .7 else b""), tab, pws
N = 30; conf = ""; files = []
for i in range(N):
    kind = KIND[i % 3]; c, tab, pws = mkfile(kind); p = os.path.join(env.dir, "users%d" % i); open(p, "wb").write(c)
    realm = rng.choice(REALMS); ttl = 1 if i >= N - 6 else rng.choice([0, 3600])
    files.append([kind, c, tab, pws, p, realm, ttl])
    conf += 'if req.path == "/%d" { auth.%s ["method" => "basic", "realm" => "%s", "file" => "%s", "ttl" => %d]; }\n' % (i, kind, realm.decode(), p, ttl)
conf += 'if req.path == "/d" { auth.deny; }\nrespond 200 => "ok [%{req.env[REMOTE_USER]}] [%{req.env[AUTH_TYPE]}]";'
srv = Server(env, conf, modules=("auth",))
def b64(b): return base64.b64encode(b)
def one_case(s, r, i, stale=None):
    kind, c, tab, pws, p, realm, ttl = files[i]
    u, _, pw = rng.choice(pws); mode = rng.randrange(14)
    if kind == "htdigest" and rng.random() < .6: u, _, pw = rng.choice([x for x in pws if x[1] == realm] or pws)
    cred = None; hdr = b""
    if mode == 0: pass
    elif mode == 1: cred = (u, rng.choice([pw + b"x", pw[:-1], pw.upper(), b"", b"secret", word(0, 9), rng.choice(pws)[2]]))
    elif mode == 2: cred = (rng.choice(USERS), pw)
    elif mode == 3: hdr = b"Authorization: Basic " + b64(rng.choice([u + b":" + pw + b"\0", u + b":" + pw + b"\0x", u + b"\0:" + pw, u + b"\0x:" + pw, b"\0" + u + b":" + pw])) + b"\r\n"
    elif mode == 4: hdr = b"Authorization: " + rng.choice([b"Basic", b"Basic ", b"Digest " + b64(u + b":" + pw), b"Basic\t" + b64(b"zz:" + word(5, 9)), b"Basic " + b64(u), b"Basic " + b64(u + pw.replace(b":", b"")), b"Basic =", b"Basic A", b"Bearer x"]) + b"\r\n"
    elif mode == 5 and kind == "htdigest": cred = (u + b":" + realm, pw)
    elif mode == 6: hdr = b"Authorization: Basic " + b64(u + b":" + pw) + b"\r\nAuthorization: Basic " + b64(b"nobody:" + word(3, 5)) + b"\r\n"
    else: cred = (u, pw)
    if cred is not None and b":" in cred[0]: a, b = (cred[0] + b":" + cred[1]).split(b":", 1); cred = (a, b)
    if cred is not None: hdr = b"Authorization: Basic " + b64(cred[0] + b":" + cred[1]) + b"\r\n"
    key = (realm if kind == "htdigest" else None); f = cred and tab.get((key, cred[0]))
    exp = bool(f and f(cred[1]))
    env.case = "auth.%s realm %r, user file:\n%r\ncredentials %r, header %r" % (kind, realm, c, cred, hdr); env.evals += 1; env.sample(env.case)
    try: s.sendall(b"GET /%d HTTP/1.1\r\nHost: x\r\n%s\r\n" % (i, hdr)); v, st, hs, body, fr, cl = r.response()
    except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
    if mode == 6 and st == 200: env.fail("two Authorization headers, the last one wrong: let in")
    if mode == 6: return cl
    if st != (200 if exp else 401): env.fail("status %d, expected %d" % (st, 200 if exp else 401))
    if exp:
        env.nontriv += 1
        if body != b"ok [" + cred[0] + b"] [Basic]": env.fail("page %r" % body)
    else:
        if b"ok" in body: env.fail("page content sent with status 401")
        if get(hs, "WWW-Authenticate") != ['Basic realm="%s"' % realm.decode()]: env.fail("WWW-Authenticate %r" % get(hs, "WWW-Authenticate"))
    return cl
last = time.time(); settled = True
while env.more():
    s = srv.connect(); r = Reader(s)
    for _ in range(20):
        if rng.random() < .03: # auth.deny
            env.case = "GET /d"; s.sendall(b"GET /d HTTP/1.1\r\nHost: x\r\n\r\n"); st = r.response()[1]
            if st != 403: env.fail("auth.deny: status %d" % st)
            continue
        if one_case(s, r, rng.randrange(N - 6 if not settled else N)): break
    s.close()
    if settled and time.time() - last > 2.5: # new user files: followed within ttl (1 s) and the checks behind it
        for i in range(N - 6, N):
            c, tab, pws = mkfile(files[i][0])
            if rng.random() < .3: bad = rng.choice([b"nocolon\n" + c, c.rstrip(b"\r\n") + b"\nnocolon\n", b"\n" + c]); open(files[i][4], "wb").write(bad); continue # broken file: the old users stay
            open(files[i][4], "wb").write(c); files[i][1:4] = [c, tab, pws]
        settled = False; last = time.time()
    if not settled and time.time() - last > 1.2: # trigger the check of the files (answers may still be old)
        for i in range(N - 6, N):
            s = srv.connect(); s.sendall(b"GET /%d HTTP/1.1\r\nHost: x\r\n\r\n" % i); Reader(s).response(); s.close()
        if time.time() - last > 2.4: settled = True; last = time.time()
env.done("requests with right, wrong, malformed and ambiguous credentials against random user files, some rewritten while the server runs; non-trivial: let in")
