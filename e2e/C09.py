# C09 against the running server: access.check and address conditions, clients from many loopback addresses
import sys, os, ipaddress; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from e2e import *
env = Env(); rng = env.rng
def net():
    a = "127.%d.%d.%d" % (rng.choice([0, 0, 1, 2, 128]), rng.choice([0, 0, 1, 255]), rng.choice([1, 2, 3, 254])); l = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32, 32, None])
    if l is None: return a, ipaddress.ip_network(a + "/32")
    return "%s/%d" % (a, l), ipaddress.ip_network("%s/%d" % (a, l), strict=False)
def rules():
    """-> config text, decision function"""
    tab = {ipaddress.ip_network("0.0.0.0/0"): False}; parts = []
    for kind in rng.choice([["allow"], ["deny"], ["allow", "deny"], ["deny", "allow"]]):
        l = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            if rng.randrange(5) == 0: t, n = "all", ipaddress.ip_network("0.0.0.0/0")
            elif rng.randrange(8) == 0: l.append(rng.choice(["::1", "::/0", "fe80::/10"])); continue
            else: t, n = net()
            l.append(t); tab[n] = kind == "allow"
        parts.append('"%s" => [%s]' % (kind, ", ".join('"%s"' % x for x in l)))
    def dec(ip):
        a = ipaddress.ip_address(ip); best = max((n for n in tab if a in n), key=lambda n: n.prefixlen)
        return tab[best]
    return "access.check [%s];" % ", ".join(parts), dec
N = 40; R = [rules() for _ in range(N)]; C = [net() for _ in range(N)]; ops = [rng.choice(["=/", "!/"]) for _ in range(N)]
conf = 'if req.path == "/deny" { access.deny; }\n'
for i in range(N):
    conf += 'if req.path == "/a%d" { %s }\n' % (i, R[i][0])
    conf += 'if req.path == "/c%d" { if req.remoteip %s "%s" { respond 200 => "in"; } else { respond 200 => "out"; } }\n' % (i, ops[i], C[i][0])
conf += 'respond 200 => "ok %{req.remoteip}";'
try: srv = Server(env, conf, modules=["access"], tcp=("127.0.0.1", free_port()))
except Exception as e: env.giveup(repr(e))
while env.more():
    ip = "127.%d.%d.%d" % (rng.choice([0, 0, 1, 2, 3, 128, 255]), rng.choice([0, 0, 1, 2, 255]), rng.choice([1, 2, 3, 4, 253, 254]))
    s = srv.connect(tcp=True, src=ip); r = Reader(s)
    for _ in range(12):
        i = rng.randrange(N); k = rng.randrange(10); path = "/deny" if k == 9 else "/c%d" % i if k > 6 else "/a%d" % i
        env.case = "client %s, GET %s; %s; %s %s" % (ip, path, R[i][0], ops[i], C[i][0]); env.evals += 1; env.sample(env.case)
        try: s.sendall(("GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % path).encode()); v, st, hs, body, fr, cl = r.response()
        except (Dead, OSError) as e: srv.check(); env.fail("bad response: %s" % e)
        if k == 9: exp = (403, None)
        elif k > 6: exp = (200, b"in" if (ipaddress.ip_address(ip) in C[i][1]) == (ops[i] == "=/") else b"out")
        else: exp = (200, ("ok " + ip).encode()) if R[i][1](ip) else (403, None)
        if st == 403: env.nontriv += 1
        if st != exp[0] or (exp[1] is not None and body != exp[1]): env.fail("status %d %r, expected %r" % (st, body[:80], exp))
        if cl: break
    s.close()
env.done("requests from loopback addresses against random allow/deny lists and address conditions; non-trivial: refused requests")
