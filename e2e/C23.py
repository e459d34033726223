# C23 against the running server: patterns, rewrite, redirect, vhost maps, docroot, alias, userdir with random rules and requests
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
from urllib.parse import quote_from_bytes, unquote_to_bytes
env = Env(); rng = env.rng
def cq(b): return b'"' + b.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'
def lit(b): return b"".join(b"\\" + bytes([c]) if c in b"\\$%?" else bytes([c]) for c in b)
VARS = {b"req.path": "path", b"req.host": "host", b"req.query": "query", b"req.header[X-V]": "xv", b"req.scheme": "scheme", b"req.env[NOPE]": "none", b"req.method": "method"}
def rrange():
    k = rng.randrange(6); a, b = rng.randrange(6), rng.randrange(6); big = rng.choice([17, 4294967295, 4294967294])
    if k == 0: return b"[%d]" % a, a, a
    if k == 1: return b"[%d-%d]" % (a, b), a, b
    if k == 2: return b"[%d-]" % a, a, 1 << 32
    if k == 3: return b"[-%d]" % a, 1 << 32, a
    if k == 4: return b"[%d-%d]" % (a, big), a, big
    return b"[%d-%d]" % (big, a), big, a
def pattern(first, chars, n=None, q=True, vars=True):
    """-> text, evaluator(nth, prev, vars)"""
    text, ev = lit(first), [("lit", first)]
    for _ in range(rng.randint(0, 4) if n is None else n):
        k = rng.randrange(8)
        if k < 3: w = bytes(rng.choice(chars) for _ in range(rng.randint(1, 4))); text += lit(w); ev.append(("lit", w))
        elif k < 5:
            t = rng.choice(["nth", "prev"]); a = rng.randrange(10); text += (b"$" if t == "nth" else b"%") + b"%d" % a; ev.append((t, a, a))
        elif k == 5: t = rng.choice(["nth", "prev"]); s, a, b = rrange(); text += (b"$" if t == "nth" else b"%") + s; ev.append((t, a, b))
        elif vars: v = rng.choice(list(VARS)); e = rng.random() < .4; text += b"%{" + (b"enc:" if e else b"") + v + b"}"; ev.append(("var", v, e))
    def f(nth, prev, vs):
        o = b""
        for e in ev:
            if e[0] == "lit": o += e[1]
            elif e[0] == "var": v = vs[VARS[e[1]]]; o += enc(v) if e[2] else v
            else: o += (nth if e[0] == "nth" else prev)(e[1], e[2])
        return o
    return text, f
SAFE = b"/"
def enc(b): return re.sub(r"%..", lambda m: m.group(0).lower(), quote_from_bytes(b, safe="/")).encode()
def canon(b): return unquote_to_bytes(b)
def caps(m):
    g = [] if m is None else [m.group(0)] + list(m.groups())
    def f(a, b):
        if not g: return b""
        r = range(a, min(b, len(g) - 1) + 1) if a <= b else range(min(a, len(g) - 1), b - 1, -1)
        return b"".join(g[i] or b"" for i in r if i < len(g))
    return f
def hostcaps(host):
    l = [x for x in host.split(b".") if x]
    def f(a, b):
        if not host: return b""
        if a == 0 or b == 0: return host
        if not l: return b""
        to, fr = min(a, len(l)), min(b, len(l)) # read from the last label
        idx = range(fr, to + 1) if fr <= to else range(fr, to - 1, -1)
        return b".".join(l[len(l) - i] for i in idx)
    return f
def simp(p):
    p = p.lstrip(b" ") # li_path_simplify skips leading spaces
    if not p.startswith(b"/"): p = b"/" + p
    out, segs = [], p.split(b"/")[1:]
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s in (b"", b"."): out += [b""] if last else []
        elif s == b"..":
            if out: out.pop()
            if last: out.append(b"")
        else: out.append(s)
    return b"/" + b"/".join(out)
REG = [b"^/([a-z]*)/([a-z]*)(x)?", b"(b+)(c*)", b"^/a", b"([^/]*)$", b"(a)|(b)|(c)", b"^/(.)(.)?(.)?", b"/(x y)/(.*)", b"^(.*)/([^/]+)/([^/]*)$", b"$.^", b"[A-Z]+"]
N = 60; conf = b""; acts = []
roots = []
for i, d in enumerate(["r/com/x.a", "r/com/b", "r/org", "r/localhost", "r/default"]): p = os.path.join(env.dir, d); os.makedirs(p); roots.append(p)
base = env.dir.encode()
def rule(kind):
    if kind == "redirect":
        t = rng.randrange(4); first = [b"http://h/", b"/", b"?", b"./"][t]; tx, f = pattern(b"abc/?&=%$\\", b"") if False else pattern(b"", b"abc/?&=%$")
        text = first + tx; g = lambda n, p, v, t=t, f=f: (b"http://h/" if t == 0 else b"/" if t == 1 else b"?" if t == 2 else b"") + f(n, p, v)
        if t == 2: text = b"?" + tx
        return text, (t, g)
    if kind == "rewrite":
        tx, f = pattern(rng.choice([b"/", b"/n/", b"", b"/a/../"]), b"abc/. %$"); q = None
        if rng.random() < .5: t2, q = pattern(b"", b"ab=&/?", vars=True); tx += b"?" + t2
        return tx, (f, q)
    tx, f = pattern(b"/r/", b"ab/", vars=False)
    return tx, (f, None)
for i in range(N):
    kind = ["rewrite", "redirect", "docroot", "alias", "userdir", "map", "map_regex"][i % 7]; cond = rng.choice([None, rng.choice(REG)]); body = b""
    if kind in ("rewrite", "redirect"):
        rules = [(rng.choice(REG), ) + rule(kind) for _ in range(rng.choice([1, 1, 2, 4]))]
        if rng.random() < .2: rules = rules[:1]; rules[0] = (None,) + rules[0][1:]; body = kind.encode() + b" " + cq(rules[0][1]) + b";"
        elif len(rules) == 1: body = kind.encode() + b" " + cq(rules[0][0]) + b" => " + cq(rules[0][1]) + b";"
        else: body = kind.encode() + b" [" + b", ".join(cq(r[0]) + b" => " + cq(r[1]) for r in rules) + b"];"
    elif kind == "docroot":
        rules = []
        for _ in range(rng.choice([1, 2, 3])):
            s, fe = rng.choice([(b"$1/$[2-]", None), (b"$0", None), (b"$1", None), (b"$2", None), (b"$[2-1]", None), (b"$[0-3]", None), (b"%1", None), (b"$[-2]", None), (b"$1/$[2-3]/%0", None), (b"default", None)])
            rules.append(s)
        body = b"docroot " + (b"(" + b", ".join(cq(base + b"/r/" + r) for r in rules) + b")" if len(rules) > 1 else cq(base + b"/r/" + rules[0])) + b";"
    elif kind == "alias":
        rules = [(rng.choice([b"/a", b"/a/", b"/a/b", b"/", b"/x y", b""]), rng.choice([b"/al/$0", b"/al/$1/%1", b"/z", b"/al/$[2-]", b"/al/%0"])) for _ in range(rng.choice([1, 2, 3]))]
        body = b"docroot \"/dr\"; alias [" + b", ".join(cq(a) + b" => " + cq(b) for a, b in rules) + b"];" if len(rules) > 1 else b"docroot \"/dr\"; alias " + cq(rules[0][0]) + b" => " + cq(rules[0][1]) + b";"
    elif kind == "userdir": rules = rng.choice([b"/usr/web", b"/usr/web/", b"/u/*/", b"/u/$1/$1$2/*", b"/u/$1", b"/u/$9/x", b"/u/$0*$a", b"/*", b"/u/*/$2"]); body = b"docroot \"/dr\"; userdir " + cq(rules) + b";"
    elif kind == "map": rules = [(h, b"m%d" % j) for j, h in enumerate(rng.sample([b"x.com", b"www.x.com", b"localhost", b"a", b"1.2.3.4", b"[::1]"], 3))]; dflt = rng.random() < .5; body = b"vhost.map [" + b", ".join(cq(h) + b" => { respond 200 => \"" + v + b"\"; }" for h, v in rules) + (b", default => { respond 200 => \"dflt\"; }" if dflt else b"") + b"];"; rules = (rules, dflt)
    else: rules = [(h, b"m%d" % j) for j, h in enumerate(rng.sample([rb"^x\.", rb"com$", rb"^(www\.)?x\.com$", rb"o", rb"^$", rb"[0-9]"], 3))]; dflt = rng.random() < .5; body = b"vhost.map_regex [" + b", ".join(cq(h) + b" => { respond 200 => \"" + v + b"\"; }" for h, v in rules) + (b", default => { respond 200 => \"dflt\"; }" if dflt else b"") + b"];"; rules = (rules, dflt)
    if cond: body = b"if req.path =~ " + cq(cond) + b" { " + body + b" }"
    acts.append((kind, cond, rules, body)); conf += b'if req.header["X-N"] == "%d" { %s }\n' % (i, body)
conf += b'respond 200 => "%{req.path}|%{req.query}|%{req.raw_path}|%{phys.docroot}|%{phys.path}";'
class S2(Server): pass
import builtins
srv = Server(env, conf.decode("latin-1"), modules=("rewrite", "redirect", "vhost", "userdir"))
def docpat(s, nth, prev):
    o, k = b"", 0
    for m in re.finditer(rb"\$\[(\d*)-?(\d*)\]|([$%])(\d)|[^$%]+", s):
        t = m.group(0)
        if m.group(3): o += (nth if m.group(3) == b"$" else prev)(int(m.group(4)), int(m.group(4)))
        elif t.startswith(b"$["): a, b = t[2:-1].split(b"-"); o += nth(int(a) if a else 1 << 32, int(b) if b else 1 << 32)
        else: o += t
    return o
HOSTS = [b"x.com", b"www.x.com", b"b.com", b"x.a.com", b"localhost", b"A", b"X.Com", b"x.org", b"1.2.3.4", b"[::1]", b"x.com:8080", b"x.com.", b"...a", b"..com", b"a..b.com", b"x.com..", b".", b"..", b"a.b.c.d.e.f.com", b".com", b"...org:1"]
def expect(kind, cond, rules, path, query, host, vs):
    """-> ('page', path, query, docroot, phys) | ('redirect', location) | ('text', t)"""
    prev = caps(None); docroot = phys = b""
    m = None
    if cond:
        m = re.search(cond, path)
        if not m: return "page", path, query, b"", b""
        prev = caps(m)
    if kind == "rewrite":
        for rx, tx, (f, q) in rules:
            mm = re.search(rx, path) if rx is not None else None
            if rx is not None and not mm: continue
            np = simp(f(caps(mm), prev, vs)); nq = q(caps(mm), prev, vs) if q else query
            return "page", np, nq, b"", b""
    elif kind == "redirect":
        for rx, tx, (t, f) in rules:
            mm = re.search(rx, path) if rx is not None else None
            if rx is not None and not mm: continue
            l = f(caps(mm), prev, vs); a = b"http://" + vs["auth"]
            return "redirect", l if t == 0 else a + l if t == 1 else a + path + l if t == 2 else a + path[:path.rindex(b"/") + 1] + l
    elif kind == "docroot":
        for i, s in enumerate(rules):
            docroot = docpat(base + b"/r/" + s, hostcaps(host), prev)
            if i == len(rules) - 1 or os.path.exists(docroot): break
        if b"/../" in docroot + b"/" or not docroot.startswith(base + b"/r/"): env.fail("model: docroot %r" % docroot)
        phys = docroot + path
    elif kind == "alias":
        docroot = b"/dr"; phys = docroot + path
        for a, b in rules:
            a = a[:-1] if a.endswith(b"/") else a
            if path == a or path.startswith(a + b"/"): docroot = docpat(b, hostcaps(host), prev); phys = docroot + path[len(a):]; break
    elif kind == "userdir":
        docroot = b"/dr"; phys = docroot + path; um = re.match(rb"/~([A-Za-z0-9_-]+)(/.*|$)", path)
        if um:
            u, rest = um.groups(); o = b""; had = False
            for t in re.finditer(rb"\*|\$([1-9])|.", rules):
                if t.group(0) == b"*": o += u; had = True
                elif t.group(1): k = int(t.group(1)); o += u[k - 1:k]
                else: o += t.group(0)
            if not had: o += (b"" if o.endswith(b"/") else b"/") + u
            docroot = o if o.endswith(b"/") else o + b"/"; phys = docroot + rest; path = rest or b"/"
    elif kind == "map":
        for h, v in rules[0]:
            if h == host: return "text", v
        if rules[1]: return "text", b"dflt"
    else:
        for h, v in rules[0]:
            if re.search(h, host): return "text", v
        if rules[1]: return "text", b"dflt"
    return "page", path, query, docroot, phys
while env.more():
    s = srv.connect(); r = Reader(s)
    for _ in range(30):
        i = rng.randrange(N); kind, cond, rules, body = acts[i]
        segs = [rng.choice([b"a", b"b", b"bb", b"bbc", b"x y", b"abc", b"x", b"\xc3\xa9", b"A", b"1.2", b"a&b", b"c+"]) for _ in range(rng.randint(0, 4))]
        if kind == "userdir" and rng.random() < .8: segs.insert(0, b"~" + rng.choice([b"alice", b"b", b"", b"a_-9", b"a.b", b"root", b"x y", b"al\xc3\xa9", b"bo"]))
        path = b"/" + b"/".join(segs) + (b"/" if segs and rng.random() < .3 else b""); query = rng.choice([b"", b"", b"a=b", b"a=b&c?d/e", b"%41"])
        h = rng.choice(HOSTS); host = re.sub(rb":\d+$", b"", h).lower().rstrip(b".")
        xv = rng.choice([b"", b"v", b"a b/c", b"\xe9%&"])
        vs = {"path": path, "host": host, "query": query, "xv": xv, "scheme": b"http", "none": b"", "method": b"GET", "auth": h.lower()}
        raw = quote_from_bytes(path, safe="/~&+").encode() + (b"?" + query if query else b"")
        req = b"GET %s HTTP/1.1\r\nHost: %s\r\nX-N: %d\r\n%s\r\n" % (raw, h, i, b"X-V: " + xv + b"\r\n" if xv else b"")
        env.case = "%s\nrequest %r" % (body.decode("latin-1"), req); env.evals += 1; env.sample(env.case)
        try: s.sendall(req); v, st, hs, page, fr, cl = r.response()
        except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
        if st == 400 and not host: break
        e = expect(kind, cond, rules, path, query, host, vs)
        if e[0] == "redirect":
            env.nontriv += 1; loc = [x.encode("latin-1") for x in get(hs, "Location")]
            if st != 301 or [canon(x) for x in loc] != [canon(e[1].rstrip(b" \t"))] : env.fail("status %d Location %r, expected %r" % (st, loc, e[1]))
        elif e[0] == "text":
            env.nontriv += 1
            if st != 200 or page != e[1]: env.fail("status %d %r, expected %r" % (st, page, e[1]))
        else:
            env.nontriv += kind != "map" and kind != "map_regex"
            if st != 200 or page.count(b"|") < 4: env.fail("status %d %r, expected %r" % (st, page[:300], e))
            p, q, rw, d, ph = page.split(b"|")
            if (p, q, d, ph) != e[1:]: env.fail("path, query, docroot, physical path are\n%r, expected\n%r" % ((p, q, d, ph), e[1:]))
            if kind == "rewrite" and unquote_to_bytes(rw.split(b"?")[0]) != p: env.fail("raw path %r does not belong to path %r" % (rw, p))
            if kind == "rewrite" and (rw.split(b"?", 1)[1] if b"?" in rw else b"") != q: env.fail("raw path %r does not belong to query %r" % (rw, q))
        if cl: break
    s.close()
env.done("requests through random rewrite / redirect / docroot / alias / userdir / vhost rules, compared with a model of the documented pattern language; non-trivial: a rule applied")
