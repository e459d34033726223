"""Runs the real server (worker binary built from /repo's sources) in a scratch directory and talks to it.
Exit status of a program using this: 0 clean, 1 failing input found, 2 no verdict (server could not be started)."""
import os, sys, time, random, socket, subprocess, signal, json, re, threading

class Dead(Exception): pass

class Env:
    def __init__(self):
        self.seed, self.secs, self.exe, self.mods, self.dir = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
        self.rng = random.Random(self.seed); self.t0 = time.time()
        self.procs = []; self.evals = self.nontriv = 0; self.samples = []; self.case = ""
    def more(self, frac=1.0): return time.time() - self.t0 < self.secs * frac
    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(str(s)[:600])
    def fail(self, msg):
        print("FAILING INPUT: %s" % msg); print("case: %s" % self.case[:6000])
        for p in self.procs: print(p.tail())
        self.stop(); sys.stdout.flush(); os._exit(1)
    def giveup(self, msg):
        print("no verdict: " + msg)
        for p in self.procs: print(p.tail())
        self.stop(); sys.stdout.flush(); os._exit(2)
    def stop(self):
        for p in self.procs: p.stop()
    def done(self, rule):
        for p in self.procs: p.check()
        self.stop()
        print("VPSTAT " + json.dumps({"evaluations": self.evals, "distinct_nontrivial": self.nontriv, "rule": rule, "samples": self.samples})); sys.stdout.flush(); os._exit(0)

class Server:
    """conf: text of the configuration below the setup block; setup: extra setup lines"""
    def __init__(self, env, conf, modules=(), setup="", tcp=None, name="srv", workers=1):
        self.env, self.name = env, name
        d = env.dir; self.sock = os.path.join(d, name + ".sock"); self.log = os.path.join(d, name + ".log")
        self.addr = None
        lst = 'listen "unix:%s";' % self.sock
        if tcp: self.addr = tcp; lst += ' listen "%s:%d";' % tcp
        text = 'setup {\n module_load [%s];\n %s\n workers %d;\n log [default => "stderr:", "debug" => ""];\n %s\n}\n%s\n' % (", ".join('"mod_%s"' % m for m in modules), lst, workers, setup, conf)
        if not modules: text = text.replace(" module_load [];\n", "")
        cp = os.path.join(d, name + ".conf"); open(cp, "w").write(text)
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", G_SLICE="always-malloc")
        self.lf = open(self.log, "wb")
        self.p = subprocess.Popen([env.exe, "-c", cp, "-m", env.mods], stdin=subprocess.DEVNULL, stdout=self.lf, stderr=self.lf, env=e, cwd=d)
        env.procs.append(self)
        for _ in range(400):
            if self.p.poll() is not None: env.giveup("server did not start (exit %s)" % self.p.returncode)
            try: s = self.connect(); s.close(); break
            except OSError: time.sleep(0.05)
        else: env.giveup("server does not listen")
    def tail(self):
        try: return open(self.log, "rb").read()[-1200:].decode("utf-8", "replace")
        except OSError: return ""
    def alive(self): return self.p.poll() is None
    def check(self):
        if not self.alive():
            t = open(self.log, "rb").read().decode("utf-8", "replace")
            m = re.search(r"(ERROR: AddressSanitizer|runtime error).*(\n.*){0,25}", t)
            self.env.procs.remove(self)
            self.env.fail("the server process died (exit %s) %s" % (self.p.returncode, m.group(0) if m else t[-2500:]))
    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
    def connect(self, timeout=10, tcp=False, src=None):
        if tcp:
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM); s.settimeout(timeout)
            if src: s.bind((src, 0))
            s.connect(self.addr)
        else:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); s.settimeout(timeout); s.connect(self.sock)
        return s

def free_port(host="127.0.0.1"):
    s = socket.socket(); s.bind((host, 0)); p = s.getsockname()[1]; s.close(); return p

class Reader:
    """strict HTTP/1.x response reader"""
    def __init__(self, sock): self.s, self.b, self.eof = sock, b"", False
    def fill(self):
        try: d = self.s.recv(65536)
        except (ConnectionResetError, BrokenPipeError): d = b""
        if not d: self.eof = True
        self.b += d
    def line(self):
        while b"\n" not in self.b:
            if self.eof: raise Dead("connection closed inside a line: %r" % self.b[:200])
            self.fill()
        l, self.b = self.b.split(b"\n", 1)
        if not l.endswith(b"\r"): raise Dead("line without CR: %r" % l[:200])
        return l[:-1]
    def exact(self, n):
        while len(self.b) < n:
            if self.eof: raise Dead("connection closed after %d of %d bytes" % (len(self.b), n))
            self.fill()
        r, self.b = self.b[:n], self.b[n:]
        return r
    def rest(self):
        while not self.eof: self.fill()
        r, self.b = self.b, b""
        return r
    def head(self):
        st = self.line()
        m = re.fullmatch(rb"(HTTP/1\.[01]) (\d{3}) ?(.*)", st)
        if not m: raise Dead("bad status line %r" % st[:200])
        hs = []
        while True:
            l = self.line()
            if not l: break
            k, sep, v = l.partition(b":")
            if not sep or not re.fullmatch(rb"[!#$%&'*+.^_`|~0-9A-Za-z-]+", k): raise Dead("bad header line %r" % l[:300])
            hs.append((k.decode("latin1"), v.strip(b" \t").decode("latin1")))
        return m.group(1).decode(), int(m.group(2)), hs
    def response(self, head_request=False):
        """-> (version, status, headers, body, framing, closes)"""
        ver, status, hs = self.head()
        low = lambda n: [v for k, v in hs if k.lower() == n]
        te, cl, co = low("transfer-encoding"), low("content-length"), [v.lower() for v in low("connection")]
        closes = "close" in co or (ver == "HTTP/1.0" and "keep-alive" not in co)
        if te and cl: raise Dead("both Transfer-Encoding %r and Content-Length %r" % (te, cl))
        if len(cl) > 1 or (cl and not re.fullmatch(r"\d+", cl[0])): raise Dead("bad Content-Length %r" % cl)
        if te and te != ["chunked"]: raise Dead("bad Transfer-Encoding %r" % te)
        if te and ver == "HTTP/1.0": raise Dead("chunked response to a HTTP/1.0 client")
        if head_request or status in (204, 304) or status < 200: return ver, status, hs, b"", "none", closes
        if te:
            body = b""
            while True:
                l = self.line()
                if not re.fullmatch(rb"[0-9a-fA-F]+", l): raise Dead("bad chunk length %r" % l[:100])
                n = int(l, 16)
                if n == 0: break
                body += self.exact(n)
                if self.exact(2) != b"\r\n": raise Dead("chunk data not followed by CRLF")
            while self.line(): pass
            return ver, status, hs, body, "chunked", closes
        if cl: return ver, status, hs, self.exact(int(cl[0])), "length", closes
        return ver, status, hs, self.rest(), "close", True

def get(hs, name): return [v for k, v in hs if k.lower() == name.lower()]
def get1(hs, name):
    v = get(hs, name); return v[0] if v else None
def one(srv, raw, head_request=False, timeout=10, src=None):
    """one request on its own connection"""
    s = srv.connect(timeout, tcp=src is not None, src=src)
    try:
        s.sendall(raw); r = Reader(s).response(head_request)
    finally: s.close()
    return r
