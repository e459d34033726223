# C08 against the running server: validators of static files and conditional requests
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
from email.utils import formatdate
import itertools
env = Env(); rng = env.rng
www = os.path.join(env.dir, "www"); os.makedirs(www)
srv = Server(env, '''mime_types (".bin" => "x/y");
if req.header["X-Use"] == "inode" { etag.use [["inode"]]; } else if req.header["X-Use"] == "size" { etag.use [["size"]]; } else if req.header["X-Use"] == "mtime" { etag.use [["mtime"]]; }
else if req.header["X-Use"] == "none" { etag.use [[]]; } else if req.header["X-Use"] == "sm" { etag.use ["size", "mtime"]; }
docroot "%s"; static; if req.header["X-Deflate"] == "1" { deflate; }''' % www, modules=("deflate",), setup="stat_cache.ttl 1;")
seq = itertools.count()
def fresh(size, mtime, old=None):
    """a new file name (or an existing file, so the inode can be kept)"""
    p = old or os.path.join(www, "f%d.bin" % next(seq))
    with open(p, "r+b" if old else "wb") as f: f.truncate(0); f.write(bytes((i * 7 + size) & 255 for i in range(size)))
    os.utime(p, (mtime, mtime)); return p
def ask(path, hdr, head=False, method=None):
    req = "%s /%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n%s\r\n" % (method or ("HEAD" if head else "GET"), os.path.basename(path), "".join("%s: %s\r\n" % h for h in hdr))
    env.case = "file of %d bytes, mtime %d: request %r" % (os.stat(path).st_size, os.stat(path).st_mtime, req); env.evals += 1
    try: r = one(srv, req.encode(), head)
    except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
    srv.check(); return r
SETS = {"": "ism", "inode": "i", "size": "s", "mtime": "m", "none": "", "sm": "sm"}
while env.more():
    mt = rng.choice([0, 1, 86399, 951782400, 951868799, 1700000000, rng.randrange(1 << 31), rng.randrange(1 << 33)])
    size = rng.choice([0, 1, 5, 1000, rng.randrange(5000)]); use = rng.choice(list(SETS)); U = [("X-Use", use)] if use else []
    p = fresh(size, mt)
    v, st, hs, body, fr, cl = ask(p, U)
    tag, lm = get(hs, "ETag"), get(hs, "Last-Modified")
    if st != 200: env.fail("status %d" % st)
    if lm != [formatdate(mt, usegmt=True)]: env.fail("Last-Modified %r" % lm)
    if (use == "none") != (not tag): env.fail("ETag %r with etag.use %r" % (tag, use))
    if tag and (len(tag) != 1 or not re.fullmatch(r'"[^"]+"', tag[0])): env.fail("ETag %r" % tag)
    v, st, hs2, b2, _, _ = ask(p, U, head=rng.random() < .5)
    if get(hs2, "ETag") != tag or get(hs2, "Last-Modified") != lm: env.fail("validators of an unchanged file changed: %r, %r" % (tag, get(hs2, "ETag")))
    # conditional requests
    for _ in range(rng.randrange(2, 8)):
        other = '"%d"' % rng.randrange(1 << 32)
        if tag and other == tag[0]: continue
        inm, ims, rinm, rims = [], [], None, None
        k = rng.randrange(9)
        if tag is None or not tag:
            if k < 3: inm = [other]  # no tags: not considered
        elif k == 0: inm = [tag[0]]; rinm = True
        elif k == 1: inm = [other + ", " + tag[0]]; rinm = True
        elif k == 2: inm = [other, tag[0]]; rinm = True
        elif k == 3: inm = [rng.choice([other, '"x"', "", '""', tag[0][:-2] + '"', other + ", " + '"y"'])]; rinm = tag[0] in inm[0]
        elif k == 4: inm = [other, '"z"']; rinm = False
        elif k == 5: inm = ["W/" + tag[0]]; rinm = True
        k = rng.randrange(9)
        far = lambda d: formatdate(max(0, mt + d), usegmt=True)
        if k == 0: ims = [lm[0]]; rims = True
        elif k == 1: d = rng.choice([1, 59, 60, 3600, 86400, 40000000]); ims = [far(d)]; rims = True
        elif k == 2: d = -rng.choice([1, 60, 3600, 86400, 40000000]); ims = [far(d)]; rims = mt + d < 0 and mt <= 0
        elif k == 3: ims = [lm[0], lm[0]]; rims = False
        elif k == 4: ims = [rng.choice(["nonsense", lm[0] + "x", lm[0][:-4], "0", lm[0][:10], "x" * 40])]; rims = False
        elif k == 5: ims = [lm[0] + "; length=%d" % size]; rims = True
        hdr = [("If-None-Match", x) for x in inm] + [("If-Modified-Since", x) for x in ims]; rng.shuffle(hdr)
        if len(inm) > 1: hdr.sort(key=lambda h: h[0])
        hdr = [(k.lower() if rng.random() < .2 else k, x) for k, x in hdr]
        want = rinm is not False and rims is not False and (rinm is True or rims is True)
        head = rng.random() < .2
        v, st, hs, b, fr, cl = ask(p, U + hdr, head)
        if st != (304 if want else 200): env.fail("status %d, expected %d (etag %r, last-modified %r)" % (st, 304 if want else 200, tag, lm))
        if st == 200 and not head and b != body: env.fail("body differs")
        if get(hs, "ETag") != tag or get(hs, "Last-Modified") != lm: env.fail("%d with validators %r %r, the file has %r %r" % (st, get(hs, "ETag"), get(hs, "Last-Modified"), tag, lm))
        env.nontriv += want
        if env.evals % 97 == 0: env.sample(env.case)
    # another version of the file: one attribute differs
    sel = SETS[use]
    q = fresh(size, mt)          # other inode
    t2 = get(ask(q, U)[2], "ETag")
    if sel and (t2 == tag) != ("i" not in sel): env.fail("etag.use %r: another file of the same size and mtime has etag %r, first %r" % (use, t2, tag))
    q = fresh(size + 1, mt); t3 = get(ask(q, U)[2], "ETag")
    if sel and "i" not in sel and (t3 == tag) != ("s" not in sel): env.fail("etag.use %r: size %d has etag %r, size %d has %r" % (use, size, tag, size + 1, t3))
    q = fresh(size, mt + 1); t4 = get(ask(q, U)[2], "ETag")
    if sel and "i" not in sel and (t4 == tag) != ("m" not in sel): env.fail("etag.use %r: mtime %d has etag %r, mtime %d has %r" % (use, mt, tag, mt + 1, t4))
    # compressed variant: its own tag, 304 only for that one
    if size and use != "none":
        D = U + [("X-Deflate", "1"), ("Accept-Encoding", "gzip")]
        v, st, hs, b, _, _ = ask(p, D); dt = get(hs, "ETag")
        if get(hs, "Content-Encoding"):
            if not dt or dt == tag: env.fail("compressed response has etag %r, the plain one %r" % (dt, tag))
            v, st, hs, b, _, _ = ask(p, D + [("If-None-Match", dt[0])])
            if st != 304: env.fail("status %d for the tag of the compressed variant %r" % (st, dt))
            for inm, rinm in (([dt[0]], True), (['"1"', dt[0]], True), (['"1"'], False), ([tag[0]], None), ([], None)):
                for ims, rims in (([lm[0]], True), ([formatdate(mt + 60, usegmt=True)], True), ([formatdate(mt - 86400, usegmt=True)] if mt > 86400 else ["x"], False), (["nonsense"], False), ([], None)):
                    if rng.random() < .6: continue
                    # the plain file is asked first: 304 if all its conditions hold, then the compressed variant
                    r1 = True if inm == [tag[0]] else False if inm else None
                    plain = r1 is not False and rims is not False and (r1 or rims)
                    r2 = False if inm == [tag[0]] else rinm
                    want = plain or (r2 is not False and rims is not False and (r2 or rims))
                    h = [("If-None-Match", x) for x in inm] + [("If-Modified-Since", x) for x in ims]
                    v, st, hs, b, _, _ = ask(p, D + h)
                    if st != (304 if want else 200): env.fail("status %d, expected %d for the compressed variant (etag %r, plain %r, last-modified %r)" % (st, 304 if want else 200, dt, tag, lm))
            v, st, hs, b, _, _ = ask(p, D + [("If-None-Match", '"1"')])
            if st != 200: env.fail("status %d for a wrong tag, compressed variant" % st)
            v, st, hs, b, _, _ = ask(p, U + [("If-None-Match", dt[0])])
            if st != 200: env.fail("status %d: plain variant for the tag of the compressed one" % st)
    for f in os.listdir(www): os.unlink(os.path.join(www, f))
env.done("random files, validators and conditional requests against the running server; non-trivial: 304 responses")
