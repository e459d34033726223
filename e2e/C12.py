# C12 against the running server: directory listings, directory redirects, rewritten urls
import sys, os, re, urllib.parse; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
www = os.path.join(env.dir, "www").encode(); os.makedirs(www)
AL = [b"<", b">", b'"', b"'", b"&", b"%", b"%41", b"#", b"?", b" ", b";", b":", b"+", b"=", b"a", b"B", b"<xss>", b'"onx=', b"&lt;", b"\xc3\xa4", b"\xff", b"\x80", b"\\", b"`", b"{", b"|", b"~", b"^", b"[", b"]", b"(", b"!", b"*", b"@", b"$", b",", b".", b"..", b"-", b"_", b"\n", b"\x01", b"\x7f", b"\t"]
def name(ctl=True):
    while True:
        n = b"".join(rng.choice(AL if ctl else AL[:-4]) for _ in range(rng.randrange(1, 7)))
        if n not in (b".", b".."): return n
opts = [("", {}), ('("hide-dotfiles" => false, "hide-tildefiles" => false)', {"dot": 0, "tilde": 0}), ('("hide-directories" => true, "include-header" => true, "hide-header" => true)', {"dirs": 0, "ih": 1, "hh": 1}),
        ('("exclude-suffix" => [".bak", "x"], "exclude-prefix" => ["pre", "<"], "include-readme" => false)', {"suf": (b".bak", b"x"), "pre": (b"pre", b"<"), "ir": 0}), ('("hide-readme" => true, "encode-readme" => false)', {"hr": 1, "er": 0})]
lst = lambda l: "[" + ", ".join('"%s"' % x.decode() for x in l) + "]"
for _ in range(4): # random exclusions; the names below contain exact matches, shorter and longer ones
    suf, pre = ([bytes(rng.choice(b"abcx.-~") for _ in range(rng.randrange(1, 5))) for _ in range(rng.randrange(2, 4))] for _ in "12")
    o = {k: int(rng.random() < .5) for k in ("dot", "tilde", "dirs", "ih", "hh", "ir", "hr")}; b = lambda v: "true" if v else "false"
    opts.append(('("exclude-suffix" => %s, "exclude-prefix" => %s, "hide-dotfiles" => %s, "hide-tildefiles" => %s, "hide-directories" => %s, "include-header" => %s, "hide-header" => %s, "include-readme" => %s, "hide-readme" => %s)' % (lst(suf), lst(pre), b(o["dot"]), b(o["tilde"]), b(not o["dirs"]), b(o["ih"]), b(o["hh"]), b(o["ir"]), b(o["hr"])), dict(o, suf=tuple(suf), pre=tuple(pre))))
dirs = {} # url path bytes -> (fs path, options, {name: content|None})
for i, (t, o) in enumerate(opts):
    base = os.path.join(www, b"o%d" % i); os.mkdir(base); todo = [(base, b"/o%d/" % i)]
    for _ in range(4): n = name(False); p = os.path.join(base, n); os.path.exists(p) or (os.mkdir(p), todo.append((p, b"/o%d/" % i + n + b"/")))
    for p, u in todo:
        ents = {}
        near = [n for x in o.get("suf", ()) + o.get("pre", ()) for k in range(len(x) + 1) for n in (x[:k], x[k:], x[:k] + b"q", b"q" + x[k:], x + x[:k])]
        for n in [n for n in rng.sample(near, min(len(near), 25)) if n not in (b"", b".", b"..") and b"/" not in n] + [name() for _ in range(rng.randrange(2, 14))] + [b".dot", b"tilde~", b"f.bak", b"prefix", b"abx", b"plain.txt"] + rng.sample([b"HEADER.txt", b"README.txt"], rng.randrange(3)):
            f = os.path.join(p, n)
            if os.path.exists(f): continue
            c = b"content of " + n + b" <xss>&\"'" ; open(f, "wb").write(c)
        for n in os.listdir(p): f = os.path.join(p, n); ents[n] = None if os.path.isdir(f) else open(f, "rb").read()
        dirs[u] = (p, o, ents)
conf = 'docroot "%s"; mime_types (".txt" => "text/plain"); static; ' % www.decode() + "".join('if req.path =^ "/o%d" { dirlist %s; } ' % (i, t) for i, (t, o) in enumerate(opts))
srv = Server(env, conf, modules=["dirlist"])
unh = lambda s: re.sub(rb"&#x([0-9a-f]{2});", lambda m: bytes([int(m.group(1), 16)]), s)
quote = lambda b: urllib.parse.quote_from_bytes(b, safe="/")
def ask(path, extra=""):
    req = "GET %s HTTP/1.1\r\nHost: h.example\r\nConnection: close\r\n%s\r\n" % (path, extra); env.case += " -> " + repr(req)
    try: return one(srv, req.encode())
    except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
while env.more():
    u = rng.choice(list(dirs)); p, o, ents = dirs[u]; env.case = "directory %r" % u; env.evals += 1
    v, st, hs, body, fr, cl = ask(quote(u))
    if st != 200: env.fail("status %d for a listing" % st)
    if get1(hs, "Content-Type") != "text/html; charset=utf-8": env.fail("content type %r" % hs)
    rest = body
    for c, inc, enc in ((ents.get(b"HEADER.txt"), o.get("ih", 0), 1), (ents.get(b"README.txt"), o.get("ir", 1), o.get("er", 1))):
        if not inc or c is None: continue
        blk = re.search(rb"<pre>([^<>]*)</pre>", rest) if enc else re.search(re.escape(c), rest)
        if not blk or (enc and unh(blk.group(1)) != c): env.fail("included file missing or not encoded")
        rest = rest[:blk.start()] + rest[blk.end():]
    if b"<pre>" in rest or b"<xss" in rest or b'"onx=' in rest: env.fail("unencoded name or not requested file in the page: %r" % rest[max(0, rest.find(b"<xss") - 80):][:300])
    for tag in (rb"<title>Index of ([^<>]*)</title>", rb'<h2 id="title">Index of ([^<>]*)</h2>'):
        m = re.search(tag, rest)
        if not m or unh(m.group(1)) != u: env.fail("path in the page is %r" % (m and m.group(1)))
    rows = re.findall(rb'<tr group="(\d)"><td><a href="([^"<>]*)">([^<>"\']*)</a></td><td class="modified" val="(-?\d+)">([^<>"]*)</td><td class="size" val="(\d+)">([^<>"]*)</td><td class="type">([^<>"]*)</td></tr>\n', rest)
    if len(rows) != len(re.findall(rb"<tr ", rest)) - 1 or len(rows) != len(re.findall(rb"<a ", rest)): env.fail("page structure broken")
    want = {}
    for n, c in ents.items():
        if o.get("dot", 1) and n.startswith(b"."): continue
        if o.get("tilde", 1) and n.endswith(b"~"): continue
        if n.endswith(tuple(o.get("suf", ()))) and o.get("suf") or o.get("pre") and n.startswith(o["pre"]): continue
        if c is None and not o.get("dirs", 1): continue
        if c is not None and (n == b"HEADER.txt" and o.get("hh") or n == b"README.txt" and o.get("hr")): continue
        want[n] = c
    got = {}
    for g, href, text, mt, md, sz, szt, ty in rows:
        if href == b"../" and g == b"0": continue
        if not re.fullmatch(rb"(?:[A-Za-z0-9!()*._-]|%[0-9a-f]{2})+/?", href): env.fail("link %r not encoded" % href)
        n = urllib.parse.unquote_to_bytes(href)
        if g == b"1":
            if not n.endswith(b"/"): env.fail("directory link %r" % href)
            n = n[:-1]
        if unh(text) != n: env.fail("link %r but text %r" % (href, text))
        if n in got: env.fail("entry %r twice" % n)
        got[n] = g
        if n not in want: env.fail("entry %r listed" % n)
        if (g == b"1") != (want[n] is None) or (want[n] is not None and int(sz) != len(want[n])): env.fail("type or size of %r" % n)
    if set(got) != set(want): env.fail("missing entries %r" % (set(want) - set(got)))
    env.sample(env.case); env.nontriv += len(got)
    n = rng.choice(list(got))
    if not re.search(rb"[\x00-\x1f\x7f]", n):
        if want[n] is not None:
            href = [r[1] for r in rows if urllib.parse.unquote_to_bytes(r[1]) == n][0]
            v, st, hs, body, fr, cl = ask(quote(u) + href.decode())
            if st != 200 or body != want[n]: env.fail("the link of %r yields status %d %r" % (n, st, body[:100]))
        else:
            q = rng.choice(["", "?a=b", "?x=%22%3c&y=1", "?"])
            v, st, hs, body, fr, cl = ask(quote(u + n) + q)
            loc = get(hs, "Location")
            m = loc and re.fullmatch(r"http://h\.example((?:[A-Za-z0-9!()*./_-]|%%[0-9a-f]{2})*)%s" % re.escape(q if q != "?" else ""), loc[0])
            if st not in (301, 302) or len(loc) != 1 or not m or urllib.parse.unquote_to_bytes(m.group(1)) != u + n + b"/": env.fail("redirect of directory: %d %r" % (st, loc))
env.done("random directory trees with markup in names: listing parsed and compared with the directory, links followed; non-trivial: listed entries")
