# C19 against the running server: random bodies, splits, options and Accept-Encoding values; what the client decodes is compared with what the backend sent
import sys, os, threading, socket, time, zlib, bz2; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
plan = {}; lock = threading.Lock()   # id -> (pieces, framing, extra headers, status, cut)
l = socket.socket(socket.AF_UNIX); l.bind(env.dir + "/b.sock"); l.listen(200)
def serve(c):
    try:
        c.settimeout(30); b = b""
        while b"\r\n\r\n" not in b:
            d = c.recv(65536)
            if not d: c.close(); return
            b += d
        i = int(re.search(rb"(?i)x-id: *(\d+)", b).group(1)); head = b.startswith(b"HEAD ")
        with lock: pieces, fr, extra, st, cut = plan[i]
        n = sum(map(len, pieces))
        h = b"HTTP/1.1 %d X\r\nConnection: close\r\n" % st + extra
        if fr == "cl": h += b"Content-Length: %d\r\n" % (n + (rng.choice([1, 100, 5000]) if cut else 0))
        if fr == "ch": h += b"Transfer-Encoding: chunked\r\n"
        c.sendall(h + b"\r\n")
        if not head:
            for p in pieces:
                if not p: time.sleep(0.004); continue
                c.sendall(b"%x\r\n" % len(p) + p + b"\r\n" if fr == "ch" else p)
            if fr == "ch" and not cut: c.sendall(b"0\r\n\r\n")
            if fr == "ch" and cut == 2: c.sendall(b"40\r\nabc")
        c.close()
    except OSError: c.close()
def accept():
    while True:
        c, _ = l.accept(); threading.Thread(target=serve, args=(c,), daemon=True).start()
threading.Thread(target=accept, daemon=True).start()
os.mkdir(env.dir + "/d"); files = {}
def blob(n):
    k = rng.randrange(4)
    if k == 0: return rng.randbytes(n)
    if k == 1: return bytes([rng.randrange(256)]) * n
    if k == 2:
        w = [rng.randbytes(rng.randint(1, 30)) for _ in range(20)]; o = b"".join(rng.choice(w) for _ in range(n // 8 + 2)); return (o * (n // max(1, len(o)) + 1))[:n]
    h = n // 2; return rng.randbytes(h) + b"a" * (n - h)
def size(): return rng.choice([0, 1, 2, 10, rng.randrange(300), rng.randrange(5000), rng.choice([4094, 4095, 4096, 4097, 16384, 16385, 65536, 65537]), rng.randrange(300000)])
for k in range(6):
    files["f%d" % k] = blob(10 * k if k < 2 else size() if k < 5 else rng.choice([1 << 20, 3 << 20]))
    open(env.dir + "/d/f%d" % k, "wb").write(files["f%d" % k])
CFG = {}
conf = ""
for k in range(7):
    encs = ["bzip2", "x-bzip2", "gzip", "x-gzip", "deflate"] if k < 2 else rng.sample(["bzip2", "x-bzip2", "gzip", "x-gzip", "deflate", "compress"], rng.randint(1, 4))
    opts = []
    if k >= 2: opts.append('"encodings" => "%s"' % rng.choice([",", ", "]).join(encs))
    if k != 0:
        opts.append('"blocksize" => %d' % rng.choice([1, 2, 7, 100, 4096, 16384, 65536, 1000003]) ) if rng.random() < .7 else None
        opts.append('"output-buffer" => %d' % rng.choice([1, 2, 9, 10, 11, 13, 64, 1000, 4096, 200000])) if rng.random() < .7 else None
        opts.append('"compression-level" => %d' % rng.randint(1, 9)) if rng.random() < .5 else None
    CFG[k] = (encs, opts)
    conf += 'if req.path =^ "/%d/" { deflate%s; }\n' % (k, " [%s]" % ", ".join(opts) if opts else "")
srv = Server(env, 'if req.path =~ "^/[0-9]/f" { alias ' + "[" + ", ".join('"/%d" => "%s/d"' % (k, env.dir) for k in CFG) + ']; static; } else { proxy "unix:%s/b.sock"; }\n' % env.dir + conf, modules=("deflate", "proxy"))
NAMES = ["bzip2", "x-bzip2", "gzip", "x-gzip", "deflate"]
def ae():
    """-> (header lines, {accepted names}, {named and not refused plainly})"""
    lines = []; ok = set()
    for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2])):
        el = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
            n = rng.choice(NAMES + ["gzip", "deflate", "bzip2", "br", "identity", "gzipp", "xgzip", "x-gzip2", "mygzip", "zstd", "compress", "deflate64", "*", "gzi"])
            w = rng.choice([n] * 4 + [n.upper(), n.capitalize()])
            q = rng.choice(["", "", "", ";q=0", ";q=0.0", ";q=0.000", "; q=0", ";q=1", ";q=0.5", ";q=1.0", ";q=0.001", " ;q=0.000", ";Q=0"])
            z = "" if not q else q.split("=")[1]
            if not q or float(z) > 0: ok.add(n)
            el.append(w + q)
        lines.append("Accept-Encoding: " + rng.choice([", ", ",", ",\t", " , "]).join(el) + "\r\n")
    return "".join(lines).encode(), ok
def decode(enc, b):
    """-> (data, complete)"""
    if enc in ("gzip", "x-gzip"): d = zlib.decompressobj(31)
    elif enc == "deflate": d = zlib.decompressobj(-15)
    elif enc in ("bzip2", "x-bzip2"): d = bz2.BZ2Decompressor()
    else: return None, False
    try: o = d.decompress(b)
    except Exception as e: return None, False
    return o, d.eof and not d.unused_data
ids = 0
def sh(b, n=60): return repr(b[:n]) + ("... (%d bytes)" % len(b) if len(b) > n else "")
while env.more():
    env.evals += 1; ids += 1
    k = rng.randrange(7); lines, ok = ae()
    head = rng.random() < .1; http10 = rng.random() < .1; static = rng.random() < .25; cut = 0; extra = b""; st = 200; own = None; etag = None
    small = any('"blocksize"' in o and int(o.split()[-1]) < 4096 or '"output-buffer"' in o and int(o.split()[-1]) < 500 for o in CFG[k][1])
    if rng.random() < .02 and not small:   # a file that shrinks while it is sent
        data = rng.randbytes(6 << 20); m = rng.choice([0, 1, 10000, 70000]); open(env.dir + "/d/fm", "wb").write(data)
        env.case = "%r while a file of 6 MB gets truncated to %d, options %s" % (lines, m, CFG[k])
        s = srv.connect(60); s.sendall(b"GET /%d/fm HTTP/1.1\r\nHost: x\r\n" % k + lines + b"\r\n"); rd = Reader(s)
        first = s.recv(1000); time.sleep(0.02); os.truncate(env.dir + "/d/fm", m); rd.b = first
        try: v, rst, hs, rb, fram, clean = rd.response(False)
        except Exception: rst = 0
        s.close(); os.unlink(env.dir + "/d/fm")
        if rst:
            if get(hs, "content-encoding"): rb, complete = decode(get(hs, "content-encoding")[0], rb)
            if rb != data: env.fail("the response for the truncated file looks complete with %d bytes" % len(rb or b""))
        if not srv.alive(): env.fail("the server died")
        env.nontriv += 1; continue
    if rng.random() < .04:   # a file that shrinks while its old size is still cached
        n = rng.choice([100, 5000, 200000]); m = rng.choice([0, 1, n // 2, n - 1]); name = "ft%d" % ids; open(env.dir + "/d/" + name, "wb").write(blob(n))
        env.case = "%r while the file of %d bytes gets truncated to %d, options %s" % (lines, n, m, CFG[k])
        for rnd in range(3):
            s = srv.connect(20); s.sendall(b"GET /%d/%s HTTP/1.1\r\nHost: x\r\n" % (k, name.encode()) + lines + b"\r\n")
            try: v, rst, hs, rb, fram, clean = Reader(s).response(False)
            except Exception: rst = 0
            s.close()
            if rnd == 0: os.truncate(env.dir + "/d/" + name, m)
            elif rst == 200:
                data = rb
                if get(hs, "content-encoding"):
                    data, complete = decode(get(hs, "content-encoding")[0], rb)
                    if not complete: env.fail("a broken encoded response looks complete")
                if len(data) != m: env.fail("the response for the truncated file looks complete with %d bytes" % len(data))
        os.unlink(env.dir + "/d/" + name)
        if not srv.alive(): env.fail("the server died")
        env.nontriv += 1; continue
    if static:
        name = rng.choice([x for x in files if not small or len(files[x]) < 20000] or ["f0"]); body = files[name]; path = "/%d/%s" % (k, name); desc = "static file of %d bytes" % len(body)
    else:
        body = blob(min(size(), 20000 if small else 1 << 30)); path = "/%d/b" % k; pieces = []; rest = body
        while rest:
            n = rng.choice([len(rest), 1 + rng.randrange(len(rest)), 1 + rng.randrange(min(len(rest), 5000))]) if len(pieces) < 30 else len(rest)
            pieces.append(rest[:n]); rest = rest[n:]
            if rng.random() < .3: pieces.append(b"")
        fr = rng.choice(["cl", "ch", "eof"])
        if rng.random() < .15 and fr != "eof" and not head: cut = 1 if fr == "cl" else rng.choice([1, 2])
        if rng.random() < .1: extra += b"Content-Encoding: own\r\n"; own = True
        if rng.random() < .2: etag = rng.choice([b'"abc"', b'W/"x"', b'"%d"' % ids]); extra += b"ETag: " + etag + b"\r\n"
        if rng.random() < .1: st = rng.choice([404, 500, 206, 403]) if body else 206
        with lock: plan[ids] = (pieces, fr, extra, st, cut)
        desc = "backend response %d %s%s, %d bytes in %d pieces%s" % (st, fr, " with " + repr(extra) if extra else "", len(body), len(pieces), ", aborted" if cut else "")
    raw = ("%s %s HTTP/1.%d\r\nHost: x\r\nX-Id: %d\r\n" % ("HEAD" if head else "GET", path, 0 if http10 else 1, ids)).encode() + lines + b"\r\n"
    what = "%s with options %s, %s" % (repr(raw), CFG[k], desc)
    env.case = what; env.sample(what[:300])
    s = srv.connect(20); s.sendall(raw)
    try: v, rst, hs, rb, fram, clean = Reader(s).response(head)
    except Exception as e:
        if cut: env.nontriv += 1; s.close(); continue   # the response is visibly incomplete
        env.fail("no complete response: %r" % (e,))
    s.close()
    ce = get(hs, "content-encoding")
    if rst != st:
        if cut and rst >= 500: continue
        env.fail("status %d" % rst)
    ver = "response %s" % (hs,)
    if own:
        if ce != ["own"] or (not head and not cut and rb != body): env.fail("an already encoded response was changed: %s, body %s" % (hs, sh(rb)))
        continue
    if len(ce) > 1: env.fail("several Content-Encoding: %s" % ce)
    if ce:
        env.nontriv += 1; e = ce[0]
        if e not in ok and "*" not in ok: env.fail("encoded with %s, which the client does not accept" % e)
        if e not in CFG[k][0]: env.fail("encoded with %s, which is not enabled" % e)
        if st == 206: env.fail("a partial response was encoded")
        if get(hs, "vary") and not any("accept-encoding" in x.lower() for x in get(hs, "vary")) or not get(hs, "vary"): env.fail("encoded without Vary: " + ver)
        if etag and get(hs, "etag") == [etag.decode()]: env.fail("the encoded variant has the entity tag of the original: " + ver)
        if head:
            continue
        d, complete = decode(e, rb)
        if cut:
            if complete or fram == "chunked": env.fail("the aborted response looks complete to the client (%s framing)" % fram)
            continue
        if not complete: env.fail("the body does not decode as %s: %s" % (e, sh(rb)))
        if d != body: env.fail("decoded %s instead of %s" % (sh(d), sh(body)))
    else:
        want = [n for n in NAMES if n in ok and n in CFG[k][0]]
        if want and st == 200 and not cut: env.fail("not encoded although %s is accepted and enabled: %s" % (want, ver))
        if head: continue
        if cut:
            if fram != "close": env.fail("the aborted response looks complete (%s framing)" % fram)
            continue
        if rb != body: env.fail("body %s instead of %s" % (sh(rb), sh(body)))
env.done("responses that were compressed, or aborted by the backend")
