# C17 against the running server: random action trees (if / else / and / or / not, nested blocks, map) are run exactly as configured
import sys, os, re, ipaddress; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
port = free_port()
www = os.path.join(env.dir, "www"); os.makedirs(www + "/d/e"); open(www + "/f", "w").write("12345"); open(www + "/d/g", "w").write(""); open(www + "/big", "wb").truncate((3 << 30) + 5)
def cq(b): return '"' + b.replace("\\", "\\\\").replace('"', '\\"') + '"'
STR = ["", "a", "b", "ab", "ba", "aa", "/a", "/ab", "/", "/d", "/f", "/d/e", "5", "10", "GET", "POST", "http", "x.com", "a.x.com", "127.0.0.1", "10.1.2.3"]
RX = ["^/(a)(b)?", "(a)|(b)", "(b+)$", "^$", "^(.)(.*)$", "x", "[0-9]+", "(.)", "^/d", r"\.com$", "^(GET|HEAD)$", "(a)(a)?(b)?"]
NETS = ["127.0.0.0/8", "127.0.0.1", "127.1.0.0/16", "127.1.2.0/23", "10.0.0.0/8", "0.0.0.0/0", "::/0", "::1", "128.0.0.0/1", "127.1.2.3/32", "fe80::/10"]
SVARS = ["req.path", "req.host", "req.query", "req.method", 'req.header["X-A"]', 'req.env["K"]', "req.scheme", "req.remoteip", "req.localip", "req.raw_path", 'request.header["x-b"]', "phys.path", "phys.docroot", 'resp.header["R"]']
IVARS = ["req.length", "req.localport", "phys.size", "req.remoteport", "resp.status"]
BVARS = ["req.is_handled", "phys.exists", "phys.is_dir", "phys.is_file"]
ids = [0]
def nid(): ids[0] += 1; return ids[0]
def gcond(depth, resp):
    """-> (text, tree); tree: ("and"|"or", l, r) | ("not", t) | ("c", var, op, value)"""
    k = rng.random()
    if depth > 0 and k < .35:
        # a flat chain without parentheses: and binds stronger than or
        n = rng.randint(2, 4); parts = []; ops = [rng.choice(["and", "or"]) for _ in range(n - 1)]
        for _ in range(n):
            t, tr = gcond(depth - 1, resp)
            if tr[0] in ("and", "or"): t = "(" + t + ")"
            parts.append((t, tr))
        txt = parts[0][0]
        for o, p in zip(ops, parts[1:]): txt += " %s %s" % (o, p[0])
        groups = [[parts[0][1]]]
        for o, p in zip(ops, parts[1:]):
            if o == "and": groups[-1].append(p[1])
            else: groups.append([p[1]])
        def fold(o, l):
            r = l[0]
            for x in l[1:]: r = (o, r, x)
            return r
        return txt, fold("or", [fold("and", g) for g in groups])
    if depth > 0 and k < .45:
        t, tr = gcond(depth - 1, resp)
        return "!(%s)" % t, ("not", tr)
    k = rng.randrange(10)
    sv = [v for v in SVARS if resp or not v.startswith("resp")]; iv = [v for v in IVARS if resp or not v.startswith("resp")]
    if k < 3: v = rng.choice(sv); o = rng.choice(["==", "!=", "=^", "!^", "=$", "!$"]); x = rng.choice(STR); return "%s %s %s" % (v, o, cq(x)), ("c", v, o, x)
    if k < 6: v = rng.choice(sv); o = rng.choice(["=~", "!~"]); x = rng.choice(RX); return "%s %s %s" % (v, o, cq(x)), ("c", v, o, x)
    if k == 6: v = rng.choice(iv + ["req.query"]); o = rng.choice(["==", "!=", "<", "<=", ">", ">="] if v != "req.query" else ["<", ">=", ">", "<="]); x = rng.choice([0, 1, 5, 10, 200, 404, port, -1, -10, -0, 2147483648, 1000000000000]); return "%s %s %d" % (v, o, x), ("c", v, o, x)
    if k == 7: v = rng.choice(["req.remoteip", "req.remoteip", "req.localip", "req.query"]); o = rng.choice(["=/", "!/"]); x = rng.choice(NETS); return "%s %s %s" % (v, o, cq(x)), ("c", v, o, x)
    if k == 8: v = rng.choice(iv); o = rng.choice(["==", "=^", "!$", "=~"]); x = rng.choice(["5", "1", "0", "-1", "200"]); return "%s %s %s" % (v, o, cq(x)), ("c", v, o, x)
    v = rng.choice(BVARS + sv); n = rng.random() < .4
    return ("!" if n else "") + v, ("not", ("c", v, "bool", True)) if n else ("c", v, "bool", True)
blocks = [] # (name, actions)
def gblock(depth, resp, budget):
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(14)
        if depth > 0 and k < 5:
            branches = []
            for _ in range(rng.choice([1, 1, 2, 3])): t, tr = gcond(2, resp); branches.append((t, tr, gblock(depth - 1, resp, budget) if rng.random() < .9 else []))
            out.append(("if", branches, gblock(depth - 1, resp, budget) if rng.random() < .6 else None))
        elif depth > 0 and k == 5:
            keys = rng.sample(STR, rng.randint(1, 5)); ents = []
            while keys:
                n = min(len(keys), rng.choice([1, 1, 2, 3])); ents.append((keys[:n], gblock(depth - 1, resp, budget))); keys = keys[n:]
            out.append(("map", rng.choice(["req.path", "req.query", "req.header[X-A]", "req.method"]), ents, gblock(depth - 1, resp, budget) if rng.random() < .5 else None))
        elif k == 6 and blocks: out.append(("call", rng.randrange(len(blocks))))
        elif k == 7: out.append(("env", rng.choice(["a", "b", "%1", "%0", "%2%1", "x%{req.query}"])))
        elif k == 8 and rng.random() < .4: out.append(("respond", rng.choice([200, 201, 403, 410]), "r%d" % nid()))
        elif k == 9 and resp: out.append(("status", rng.choice([200, 202, 404, 500])))
        elif k == 10: out.append(("envrm",) if rng.random() < .3 else ("renv", rng.choice(["a", "b", "ab"])))
        else: out.append(("t", nid()))
    return out
def text(acts):
    o = ""
    for a in acts:
        if a[0] == "if":
            o += " else ".join("if %s { %s }" % (t, text(b)) for t, tr, b in a[1]) + (" else { %s }" % text(a[2]) if a[2] is not None else "") + "\n"
        elif a[0] == "map":
            es = ["%s => { %s }" % ("(" + ", ".join(map(cq, ks)) + ")" if len(ks) > 1 else cq(ks[0]), text(b)) for ks, b in a[2]]
            if a[3] is not None: es.insert(rng.randrange(len(es) + 1), "default => { %s }" % text(a[3]))
            o += 'map "%%{%s}" => [%s];\n' % (a[1], ", ".join(es) + ("," if len(es) == 1 else ""))
        elif a[0] == "call": o += "blk%d; " % a[1]
        elif a[0] == "env": o += 'env.set "K" => "%s"; ' % a[1]
        elif a[0] == "envrm": o += 'env.remove "K"; '
        elif a[0] == "renv": o += 'env.add "K" => "%s"; ' % a[1]
        elif a[0] == "respond": o += 'respond %d => "%s"; ' % (a[1], a[2])
        elif a[0] == "status": o += "set_status %d; " % a[1]
        else: o += 'header.add "T" => "%d:%%0:%%2:%%1"; ' % a[1]
    return o
class M: pass
def value(m, v):
    if v.startswith("resp.header"): return ""
    if v == "req.path": return m.path
    if v == "req.raw_path": return m.raw
    if v == "req.query": return m.query
    if v == "req.host": return m.host
    if v == "req.method": return m.method
    if v == "req.scheme": return "http"
    if v == "req.remoteip": return m.ip
    if v == "req.localip": return "127.0.0.1"
    if "X-A" in v: return m.xa
    if "x-b" in v: return ", ".join(m.xb)
    if v.startswith("req.env"): return m.env.get("K", "")
    if v == "phys.path": return m.ppath
    if v == "phys.docroot": return www
    if v == "req.length": return m.length
    if v == "req.localport": return port
    if v == "req.remoteport": return m.rport
    if v == "resp.status": return m.status
    p = m.ppath; ex = os.path.exists(p)
    if v == "phys.size": return os.stat(p).st_size if ex else -1
    if v == "req.is_handled": return m.handled
    if v == "phys.exists": return ex
    if v == "phys.is_dir": return os.path.isdir(p)
    if v == "phys.is_file": return os.path.isfile(p)
    raise KeyError(v)
def strtoll(s): r = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", s); return int(r.group(1)) if r else 0
def check(m, c):
    """-> (result, regex match pushed or None)"""
    _, v, o, x = c; val = value(m, v)
    if o == "bool": return bool(val), None
    if o in ("=/", "!/"):
        try: r = ipaddress.ip_address(val) in ipaddress.ip_network(x, strict=False)
        except ValueError: r = False
        return r if o == "=/" else not r, None
    if isinstance(x, int):
        if isinstance(val, str): val = strtoll(val)
        return {"==": val == x, "!=": val != x, "<": val < x, "<=": val <= x, ">": val > x, ">=": val >= x}[o], None
    if not isinstance(val, str): val = str(val)
    if o in ("=~", "!~"): mm = re.search(x, val); return bool(mm) == (o == "=~"), mm
    r = val == x if o in ("==", "!=") else val.startswith(x) if o[1] == "^" else val.endswith(x)
    return r if o[0] == "=" else not r, None
def decide(m, tr, pos, neg, stack):
    """walk the condition; captures stay visible for whatever runs inside"""
    if tr[0] == "not": return decide(m, tr[1], neg, pos, stack)
    if tr[0] == "and": return decide(m, tr[1], lambda s: decide(m, tr[2], pos, neg, s), neg, stack)
    if tr[0] == "or": return decide(m, tr[1], pos, lambda s: decide(m, tr[2], pos, neg, s), stack)
    r, mm = check(m, tr); m.conds += 1
    if mm: stack = stack + [mm]
    return (pos if r else neg)(stack)
def grp(stack, k):
    if not stack: return ""
    mm = stack[-1]
    return (mm.group(k) or "") if k <= (mm.re.groups) else ""
def run(m, acts, stack):
    for a in acts:
        if a[0] == "if":
            def chain(i, s):
                if i == len(a[1]): return run(m, a[2], s) if a[2] is not None else None
                t, tr, b = a[1][i]
                return decide(m, tr, lambda s2: run(m, b, s2), lambda s2: chain(i + 1, s2), s)
            chain(0, stack)
        elif a[0] == "map":
            k = value(m, a[1].replace("[", '["').replace("]", '"]')); hit = [b for ks, b in a[2] if k in ks]
            if hit: run(m, hit[-1], stack)
            elif a[3] is not None: run(m, a[3], stack)
        elif a[0] == "call": run(m, blocks[a[1]], stack)
        elif a[0] == "env": m.env["K"] = re.sub(r"%(\d)|%\{req.query\}", lambda g: grp(stack, int(g.group(1))) if g.group(1) else m.query, a[1])
        elif a[0] == "envrm": m.env.pop("K", None)
        elif a[0] == "renv": m.env.setdefault("K", a[1])
        elif a[0] == "respond":
            if not m.handled: m.handled = True; m.status = a[1]; m.body = a[2]
        elif a[0] == "status": m.status = a[1]
        else: m.trace.append("%d:%s:%s:%s" % (a[1], grp(stack, 0), grp(stack, 2), grp(stack, 1)))
progs = []
for i in range(40):
    if i % 10 == 3: blocks.append(gblock(1, False, 0))
    p1 = gblock(3, False, 0); fin = [("respond", 200, "fin")]; p2 = gblock(2, True, 0)
    progs.append(p1 + fin + p2)
conf = 'docroot "%s";\n' % www
bl = "".join("blk%d = { %s };\n" % (i, text(b)) for i, b in enumerate(blocks))
conf = bl + conf + "".join('if req.header["X-N"] == "%d" {\n%s\n}\n' % (i, text(p)) for i, p in enumerate(progs))
srv = Server(env, conf, tcp=("127.0.0.1", port))
while env.more():
    n = rng.randrange(len(progs)); m = M(); m.path = rng.choice(["/a", "/ab", "/", "/d", "/f", "/d/e", "/d/g", "/big", "/aab", "/nope", "/ba/a.com"]); q = rng.choice(["", "", "a", "b", "ab", "5", "10", "-1", "-10", "10.1.2.3", "127.1.2.3", "::1", "-3x"]); m.query = q
    m.raw = m.path + ("?" + q if q else ""); m.host = rng.choice(["x.com", "a.x.com", "localhost", "a"]); m.method = rng.choice(["GET", "POST"]); m.xa = rng.choice(STR[:8]); m.xb = rng.choice([[], ["a"], ["b", "a"], ["ab", "x", "5"]])
    m.ip = rng.choice(["127.0.0.1", "127.1.2.3", "127.1.3.255", "127.1.4.0", "127.200.0.5"]); bodyb = b"z" * (0 if m.method == "GET" else rng.choice([0, 1, 5, 10, 11])); m.length = len(bodyb)
    m.env = {}; m.handled = False; m.status = 0; m.trace = []; m.conds = 0; m.body = None; m.ppath = www + m.path
    raw = "%s %s HTTP/1.1\r\nHost: %s\r\nX-N: %d\r\nX-A: %s\r\nConnection: close\r\n%s%s\r\n" % (m.method, m.raw, m.host, n, m.xa, "".join("X-B: %s\r\n" % x for x in m.xb), "Content-Length: %d\r\n" % m.length if m.method == "POST" else "")
    env.case = "request %r from %s, configuration:\n" % (raw, m.ip) + bl + text(progs[n]); env.evals += 1
    try:
        s = srv.connect(10, tcp=True, src=m.ip); m.rport = s.getsockname()[1]
        try: s.sendall(raw.encode() + bodyb); v, st, hs, body, fr, cl = Reader(s).response(False)
        finally: s.close()
    except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
    run(m, progs[n], [])
    got = [x.strip() for x in get(hs, "T")]; want = [x.strip() for x in m.trace]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b), 0)
        env.fail("actions run: %r, expected: %r (first difference at %d)" % (got, want, k))
    if st != m.status or body != m.body.encode(): env.fail("status %d body %r, expected %d %r" % (st, body, m.status, m.body))
    env.nontriv += m.conds; env.sample(env.case[:500])
env.done("random trees of conditions and actions run against random requests, compared with a model; non-trivial: conditions evaluated")
