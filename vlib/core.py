"""Driver shared by all checks.

A check = list of proof units (CBMC contract proofs over the real /repo source)
        + one native program (the same property as executable contract, run on the real
          code compiled with gcc/ASan and linked with the real glib).

Decision:
  every unit PROVED and native clean                  -> exit 0, level as registered
  native finds a failing input                        -> VIOLATION (replayed input), exit 1
  unit has a FAILED obligation, native finds nothing  -> VIOLATION ... no-failing-input-found
  unit UNDECIDED (timeout, annotation no longer fits, -> bounded re-check of that unit; a
     missing stub, function renamed)                     failure there is a VIOLATION, a pass is
                                                         reported as bounded, never as proved
"""
import threading, os, sys, json, time, subprocess, tempfile, shutil, re, importlib, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4

def pkg(*names):
    out = subprocess.run(["pkg-config", "--cflags"] + list(names), capture_output=True, text=True).stdout.split()
    return out

GLIB_CFLAGS = pkg("glib-2.0", "gthread-2.0", "gmodule-2.0", "lua5.1") or [
    "-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-I/usr/include/lua5.1"]
DEFS = ["-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-D_LARGE_FILES"]
# our committed config.h comes first: the checks do not depend on /repo/_build
INCS = ["-I" + os.path.join(VERIF, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + REPO]

def run(cmd, timeout, cwd=None, mem_gb=None, env=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        rc = "timeout"
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t0


INTERNAL = re.compile(r"loop_invariant|loop_assigns|loop_decreases|loop_step_unwinding|decreases clause|loop invariant|\.assigns\.|is assignable|^\w+\.\d+$")

class Unit:
    """One function-level proof: harness file + entry point."""
    def __init__(self, name, src, entry, functions, loops=False, unwind=None, unwindset=(), solver="sat",
                 checks=(), defines=(), ragel=(), nobody=(), trusted=(), timeout=300, bounded=None, mem_gb=10,
                 tiers=("quick", "thorough"), is_bounded=None, vacuity=1, extra=(), replace=()):
        self.name, self.src, self.entry, self.functions = name, src, entry, list(functions)
        self.loops, self.unwind, self.unwindset, self.solver = loops, unwind, list(unwindset), solver
        self.checks, self.defines, self.ragel = list(checks), list(defines), list(ragel)
        self.nobody, self.trusted, self.timeout = set(nobody), list(trusted), timeout
        self.replace = list(replace)    # (callee, contract stub): calls are checked against the contract, not the body
        self.bounded = bounded          # dict(defines=[], unwind=, unwindset=[]) fallback configuration
        self.is_bounded = is_bounded    # text of the bound if the unit is a bounded check from the start
        self.mem_gb, self.tiers, self.vacuity, self.extra = mem_gb, tiers, vacuity, list(extra)


class Result:
    def __init__(self, unit, mode):
        self.unit, self.mode = unit, mode
        self.status = "undecided"   # proved / failed / undecided
        self.reason = ""
        self.obligations = 0
        self.discharged = 0
        self.failed = []            # (name, description, location)
        self.solver_s = 0.0
        self.wall = 0.0
        self.cmd = ""
        self.nobody = []
        self.log = ""


def ragel(work, rl):
    """rl: path, or (path, style): the verifier reads the table driven output (one loop) of the same grammar"""
    style = "-T0" if "config_parser" in rl else "-G2"
    sub = ""
    if isinstance(rl, tuple):
        rl, style = rl; sub = style.strip("-") + "_"
    dst = os.path.join(work, sub + os.path.basename(rl)[:-3] + ".c")
    if not os.path.exists(dst):
        tmp = dst + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, o, e, _ = run(["ragel", "-C", style, "-o", tmp, os.path.join(REPO, rl)], 120)
        if rc != 0:
            return None
        # keep #line-free text: the generated C is what runs
        os.rename(tmp, dst)
    return dst


def cbmc_unit(unit, work, mode="proof"):
    """mode: proof | bounded (annotations off, everything unwound)"""
    r = Result(unit, mode)
    t0 = time.time()
    tag = re.sub(r"[^A-Za-z0-9_]", "_", unit.name) + "_" + mode
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    cfg = unit.bounded if mode == "bounded" else None
    if mode == "bounded" and cfg is None:
        r.reason = "no bounded configuration"
        return r
    for rl in unit.ragel:
        if ragel(work, rl) is None:
            r.reason = "ragel failed on %s" % (rl,)
            return r
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    defs = ["-DVP_CBMC=1"] + (["-DLI_VERIFY=1"] if unit.loops and mode == "proof" else []) + \
           (["-DVP_BOUNDED=1"] if mode == "bounded" else []) + \
           list(unit.defines) + (list(cfg.get("defines", [])) if cfg else [])
    cc = ["goto-cc", "-std=gnu99", "-D__NO_INLINE__", "-DG_DISABLE_CAST_CHECKS"] + DEFS + defs + \
         ["-I" + os.path.join(VERIF, "cbmc", "include"), "-I" + work] + INCS + GLIB_CFLAGS + \
         ["--function", unit.entry, os.path.join(VERIF, "cbmc", unit.src), "-o", a]
    rc, o, e, _ = run(cc, 120)
    if rc != 0:
        r.reason = "does not compile under the contract harness: " + (o + e)[-1500:]
        r.wall = time.time() - t0
        return r
    for old, new in unit.replace:
        rc, o, e, _ = run(["goto-instrument", "--replace-calls", "%s:%s" % (old, new), a, b], 120)
        if rc == 0: a, b = b, a + "x"
    rc, o, e, _ = run(["goto-instrument", "--drop-unused-functions", a, b], 120)
    if rc != 0:
        r.reason = "goto-instrument: " + (o + e)[-800:]
        return r
    cur = b
    if unit.loops and mode == "proof":
        c = os.path.join(d, "c.gb")
        rc, o, e, _ = run(["goto-instrument", "--apply-loop-contracts", b, c], 300)
        if rc != 0:
            r.reason = "loop contracts not applicable: " + (o + e)[-1500:]
            r.wall = time.time() - t0
            return r
        cur = c
    # which reachable functions have no body?
    cmd = ["cbmc", cur, "--json-ui", "--no-standard-checks", "--verbosity", "8"]
    cmd += unit.checks + unit.extra
    uw = cfg.get("unwind") if cfg else unit.unwind
    us = list(cfg.get("unwindset", [])) if cfg else list(unit.unwindset)
    if uw: cmd += ["--unwind", str(uw)]
    for x in us: cmd += ["--unwindset", x]
    cmd += ["--unwinding-assertions"]
    solver = unit.solver
    if solver == "cadical": cmd += ["--sat-solver", "cadical"]
    elif solver == "z3": cmd += ["--z3"]
    elif solver == "cvc5": cmd += ["--cvc5"]
    r.cmd = " ".join(cc) + " && goto-instrument ... && " + " ".join(cmd)
    rc, o, e, w = run(cmd, (cfg or {}).get("timeout", unit.timeout), mem_gb=unit.mem_gb)
    r.wall = time.time() - t0
    r.log = o[-200000:]
    if rc == "timeout":
        r.reason = "solver timeout after %ds" % unit.timeout
        return r
    try:
        js = json.loads(o)
    except Exception:
        r.reason = "cbmc output not parseable (rc=%s): %s" % (rc, (o + e)[-500:])
        return r
    props = None
    for x in js:
        if "result" in x: props = x["result"]
        m = x.get("messageText", "")
        k = re.search(r"no body for (?:callee|function) '?([A-Za-z0-9_.$]+)'?", m)
        if k: r.nobody.append(k.group(1))
        k = re.search(r"Runtime decision procedure: ([0-9.]+)s", m) 
        if k: r.solver_s += float(k.group(1))
    if props is None:
        r.reason = "cbmc gave no result (rc=%s): %s" % (rc, "; ".join(x.get("messageText", "") for x in js if x.get("messageType") == "ERROR")[:600])
        return r
    extra_nb = sorted(set(r.nobody) - unit.nobody)
    vac_ok, unw_fail = 0, []
    for p in props:
        desc, name, st = p.get("description", ""), p["property"], p["status"]
        if desc.startswith("VACUITY"):
            if st == "FAILURE": vac_ok += 1
            continue
        if "malloc_may_fail" in name or name.startswith("malloc."):
            continue
        if "unwind" in name.split(".")[-2:] or desc.startswith("unwinding assertion") or ".unwind." in name or ".recursion" in name:
            if st != "SUCCESS": unw_fail.append(name)
            r.obligations += 1
            r.discharged += st == "SUCCESS"
            continue
        r.obligations += 1
        if st == "SUCCESS":
            r.discharged += 1
        elif st == "FAILURE":
            l = p.get("sourceLocation", {})
            r.failed.append((name, desc, "%s:%s %s" % (l.get("file", "?"), l.get("line", "?"), l.get("function", ""))))
        else:
            r.reason = "obligation %s: %s" % (name, st)
    if r.obligations == 0:
        r.reason = "no obligations generated"
    elif extra_nb:
        r.reason = "functions without contract/model reached: " + ", ".join(extra_nb)
    elif unw_fail:
        r.reason = "loop without (applicable) contract or bound exceeded: " + ", ".join(unw_fail[:5])
    elif vac_ok < unit.vacuity:
        r.reason = "vacuity guard: only %d of %d cover points reachable" % (vac_ok, unit.vacuity)
    elif r.failed:
        r.status = "failed"
    elif r.discharged == r.obligations and not r.reason:
        r.status = "proved"
    return r


# ---------------------------------------------------------------- native
COMMON = "angel_connection angel_data buffer encoding events fetch idlist jobqueue memcached mempool module profiler radix sys_memory sys_socket tasklet utils value value_impl waitqueue".split()
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,vptr,nonnull-attribute", "-fno-sanitize-recover=undefined"]

def native_sources(which):
    """all library sources of the tree; globbed, so new files are picked up"""
    import glob
    c = sorted(glob.glob(os.path.join(REPO, "src/common/*.c"))) 
    rl = ["src/common/ip_parsers.rl"]
    m = []
    if "main" in which:
        m = [x for x in sorted(glob.glob(os.path.join(REPO, "src/main/*.c")))
             if os.path.basename(x) not in ("lighttpd_worker.c", "subrequest_lua.c")]
        rl += ["src/main/http_range_parser.rl", "src/main/http_request_parser.rl", "src/main/http_response_parser.rl",
               "src/main/url_parser.rl", "src/main/config_parser.rl"]
    return c + m, rl

def build_native(work, prog, which=("common",), extra_src=(), cflags=(), ldflags=(), exclude=()):
    d = os.path.join(work, "native")
    os.makedirs(d, exist_ok=True)
    srcs, rls = native_sources(which)
    gen = []
    for rl in rls:
        g = ragel(work, rl)
        if g is None: return None, "ragel failed on " + rl
        gen.append(g)
    progs = [os.path.join(VERIF, "native", prog)]
    objs, err = _compile(work, [x for x in list(srcs) + gen + list(extra_src) if os.path.basename(x) not in exclude and os.path.basename(x) != "value_impl.c"], cflags)
    if not objs: return None, err
    po, err = _compile(work, progs, list(cflags) + (["-DVN_NOLOG=1"] if "main" in which else []))
    if not po: return None, err
    exe = os.path.join(d, "prog")
    libs = subprocess.run(["pkg-config", "--libs", "glib-2.0", "gthread-2.0", "gmodule-2.0", "lua5.1"], capture_output=True, text=True).stdout.split()
    rc, o, e, _ = run(["gcc"] + SAN + objs + po + ["-o", exe, "-rdynamic"] + libs + ["-Wl,--wrap=li_log_write,--wrap=li_log_split_lines,--wrap=li_log_split_lines_" if "main" in which else "-lev", "-lev", "-lcrypt", "-lm", "-lunwind", "-lpthread", "-ldl"] + list(ldflags), 300)
    if rc != 0:
        return None, "linking: " + (o + e)[-2000:]
    return exe, ""


def _compile(work, srcs, cflags=()):
    """sources -> objects (shared between the native program and the server of one check)"""
    d = os.path.join(work, "native"); os.makedirs(d, exist_ok=True)
    cc = ["gcc", "-std=gnu99", "-O1", "-g", "-w", "-fPIC", "-fno-omit-frame-pointer", "-DVP_NATIVE=1"] + SAN + DEFS + list(cflags) + \
         ["-I" + os.path.join(VERIF, "native"), "-I" + os.path.join(VERIF, "cbmc", "include"), "-I" + work] + INCS + GLIB_CFLAGS
    tag = hashlib.sha1(" ".join(cflags).encode()).hexdigest()[:6] if cflags else ""
    todo = [(s, os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, "/")) + tag + ".o")) for s in srcs]
    def comp(x):
        if os.path.exists(x[1]): return x, (0, "", "", 0)
        return x, run(cc + ["-c", x[0], "-o", x[1]], 300)
    with ThreadPoolExecutor(NCPU) as ex:
        for (s, obj), (rc, o, e, _) in ex.map(comp, todo):
            if rc != 0: return None, "compiling %s: %s" % (s, (o + e)[-2000:])
    return [x[1] for x in todo], ""


MODULES = {"fastcgi": ["mod_fastcgi.c", "fastcgi_stream.c"], "scgi": ["mod_scgi.c"], "proxy": ["mod_proxy.c"]}
MODLIBS = {"deflate": ["-lz", "-lbz2"]}
LIBS = ["-lev", "-lcrypt", "-lm", "-lunwind", "-lpthread", "-ldl"]

def build_server(work, modules=()):
    """the real worker, linked from /repo's sources, plus the requested modules -> (exe, moddir, error)"""
    srcs, rls = native_sources(("common", "main"))
    gen = []
    for rl in rls:
        g = ragel(work, rl)
        if g is None: return None, None, "ragel failed on " + rl
        gen.append(g)
    srcs = [s for s in srcs if os.path.basename(s) != "value_impl.c"] + gen + [os.path.join(REPO, "src/main/lighttpd_worker.c")]
    objs, err = _compile(work, srcs)
    if not objs: return None, None, err
    exe = os.path.join(work, "lighttpd2-worker")
    libs = subprocess.run(["pkg-config", "--libs", "glib-2.0", "gthread-2.0", "gmodule-2.0", "lua5.1"], capture_output=True, text=True).stdout.split()
    rc, o, e, _ = run(["gcc"] + SAN + objs + ["-o", exe, "-rdynamic"] + libs + LIBS, 300)
    if rc != 0: return None, None, "linking server: " + (o + e)[-2000:]
    md = os.path.join(work, "modules"); os.makedirs(md, exist_ok=True)
    for m in modules:
        ms = [os.path.join(REPO, "src/modules", x) for x in MODULES.get(m, ["mod_%s.c" % m])]
        objs, err = _compile(work, ms)
        if not objs: return None, None, err
        rc, o, e, _ = run(["gcc", "-shared"] + SAN + objs + ["-o", os.path.join(md, "libmod_%s.so" % m)] + libs + MODLIBS.get(m, []), 300)
        if rc != 0: return None, None, "linking mod_%s: %s" % (m, (o + e)[-2000:])
    return exe, md, ""


def write_evidence(prop, tier, seed, level, coverage, assumptions, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    sys.path.insert(0, os.path.join(VERIF, "props"))
    sys.path.insert(0, os.path.join(VERIF, "vlib"))
    mod = importlib.import_module(pid)
    units = [u for u in mod.UNITS if tier in u.tiers]
    base = os.path.join(VERIF, ".work")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    try:
        rc = _main(pid, mod, units, tier, seed, work, t0)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    return rc


def _main(pid, mod, units, tier, seed, work, t0):
    nat = getattr(mod, "NATIVE", None)
    results, native = {}, None
    exes = {}
    def do_native(seed=seed, mult=1):
        if not nat: return None
        if "x" in exes: exe, err = exes["x"]
        else: exe, err = exes["x"] = build_native(
                                work, nat["prog"], nat.get("which", ("common",)), 
                                [os.path.join(REPO, s) for s in nat.get("extra", ())], nat.get("cflags", ()), nat.get("ldflags", ()), nat.get("exclude", ()))
        if exe is None:
            return {"status": "build", "msg": err}
        secs = nat.get("seconds", {}).get(tier, 15 if tier == "quick" else 180)
        if mult > 1: secs = min(60, secs * mult)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1", 
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", G_SLICE="always-malloc",
                   VP_SCRATCH=os.path.join(work, "scratch"))
        os.makedirs(os.path.join(work, "scratch"), exist_ok=True)
        args = [exe, str(seed), str(secs)]
        rc, o, e, w = run(args, secs * 4 + 120, cwd=os.path.join(work, "scratch"), env=env)
        d = {"status": "ok" if rc == 0 else ("timeout" if rc == "timeout" else "fail"), "rc": rc, "out": o[-8000:], "err": e[-8000:], "wall": w, "args": args}
        m = re.findall(r"^VPSTAT (.*)$", o, re.M)
        d["stat"] = json.loads(m[-1]) if m else {}
        return d
    e2e = getattr(mod, "E2E", None)
    def do_e2e(seed=seed, mult=1):
        if "s" not in exes: exes["s"] = build_server(work, e2e.get("modules", ()))
        exe, md, err = exes["s"]
        if exe is None: return {"status": "build", "msg": err}
        secs = e2e.get("seconds", {}).get(tier, 15 if tier == "quick" else 180)
        if mult > 1: secs = min(45, secs * mult)
        sc = os.path.join(work, "e2e-%d" % seed); os.makedirs(sc, exist_ok=True)
        args = [sys.executable, os.path.join(VERIF, "e2e", e2e["prog"]), str(seed), str(secs), exe, md, sc]
        rc, o, e, w = run(args, secs * 4 + 150, cwd=sc, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        d = {"status": "ok" if rc == 0 else ("timeout" if rc == "timeout" else "fail" if rc == 1 else "build"), "rc": rc, "out": o[-8000:], "err": e[-8000:], "wall": w, "args": ["e2e", str(seed)], "msg": (o + e)[-3000:]}
        m = re.findall(r"^VPSTAT (.*)$", o, re.M)
        d["stat"] = json.loads(m[-1]) if m else {}
        return d
    do_native1 = do_native
    def do_native(*a):
        r = do_native1(*a)
        if not e2e or (r and r["status"] in ("fail", "timeout")): return r
        x = do_e2e(*a)
        if x["status"] == "build" and r: # no verdict from the running server
            r["msg"] = x["msg"]; print("server run without verdict:\n" + x["msg"]); return r
        if r and r.get("stat"): x.setdefault("stat", {})["native"] = r["stat"]
        return x
    # bound parallelism; the native build uses all cores for a few seconds
    with ThreadPoolExecutor(NCPU) as ex:
        fn = ex.submit(do_native)
        fu = {u.name: ex.submit(cbmc_unit, u, work) for u in units}
        for k, f in fu.items(): results[k] = f.result()
        native = fn.result()
    # A failed loop annotation (invariant base/step, assigns, decreases) says that the annotation no longer
    # fits the loop; whether the *contract* of the function still holds is then decided by unwinding the
    # real loops (annotations off), up to the stated bound, and by the executable contracts.
    internal = [r for r in results.values() if r.status == "failed" and r.unit.bounded and
                any(INTERNAL.search(f[0]) or INTERNAL.search(f[1]) for f in r.failed)]
    undecided = [r for r in results.values() if r.status == "undecided"]
    bounded = {}
    if undecided or internal:
        with ThreadPoolExecutor(NCPU) as ex:
            fb = {r.unit.name: ex.submit(cbmc_unit, r.unit, work, "bounded") for r in undecided + internal if r.unit.bounded}
            for k, f in fb.items(): bounded[k] = f.result()
    for r in internal:
        if bounded[r.unit.name].status == "proved":
            r.status = "refit"
            r.reason = "loop annotation no longer fits the loop; contract re-checked by unwinding (bounded)"
    failed = [r for r in list(results.values()) + list(bounded.values()) if r.status == "failed"]
    if failed and native and native["status"] == "ok":
        # an obligation failed: search longer for an input that shows it on the running code
        for k in range(1, 4):
            n2 = do_native(seed + 7919 * k, 3)
            if n2 and n2["status"] in ("fail", "timeout"):
                native = n2
                break
    for r in results.values():
        print("unit %-34s %-9s obligations %d/%d  %.1fs %s" % (r.unit.name, r.status if not r.unit.is_bounded or r.status != "proved" else "bounded-ok", r.discharged, r.obligations, r.wall, r.reason[:600]))
        for f in r.failed[:12]: print("   failed obligation %s: %s (%s)" % f)
    for r in bounded.values():
        print("bounded re-check %-24s %-9s %d/%d %.1fs %s" % (r.unit.name, r.status, r.discharged, r.obligations, r.wall, r.reason[:300]))
        for f in r.failed[:12]: print("   failed obligation %s: %s (%s)" % f)
    nat_bad = False
    if native:
        print("native %s %s" % (native["status"], json.dumps(native.get("stat", {}))[:400]))
        if native["status"] == "build": print(native["msg"])
        if native["status"] == "fail":
            nat_bad = True
            print(native["out"][-1500:]); print(native["err"][-2500:])
        if native["status"] == "timeout":
            # a run that normally ends within its budget: the code under test does not terminate
            nat_bad = True
            print("native run did not terminate"); print(native["out"][-1500:])
    proved = [r for r in results.values() if r.status == "proved" and not r.unit.is_bounded]
    bnd = [r for r in results.values() if r.status == "proved" and r.unit.is_bounded] + [r for r in bounded.values() if r.status == "proved"]
    ob = sum(r.obligations for r in results.values() if not r.unit.is_bounded)
    di = sum(r.discharged for r in results.values() if not r.unit.is_bounded)
    all_proved = len(proved) + len([r for r in results.values() if r.status == "proved" and r.unit.is_bounded]) == len(results) and results
    level = mod.LEVEL if all_proved else "other"
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "python3 check.py %s  (per unit: goto-cc on the real source, goto-instrument --apply-loop-contracts, cbmc 6.11)" % pid,
        "trusted_base": sorted(set(sum([r.unit.trusted for r in results.values()], []))) + [
            "CBMC 6.11 (goto-cc front end, loop contract instrumentation, bit-precise C semantics), its SAT back end MiniSat / z3 4.8.12"],
        "functions_under_contract": sorted(set(sum([r.unit.functions for r in proved], []))),
        "functions_bounded_only": sorted(set(sum([r.unit.functions for r in bnd], []))),
        "units": [{"unit": r.unit.name, "functions": r.unit.functions, "mode": r.mode if not r.unit.is_bounded else "bounded: " + r.unit.is_bounded,
                   "status": r.status, "obligations": r.obligations, "discharged": r.discharged,
                   "back_end": r.unit.solver, "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 2), "reason": r.reason[:300]}
                  for r in list(results.values()) + list(bounded.values())],
        "solver_s": round(sum(r.solver_s for r in list(results.values()) + list(bounded.values())), 2),
    }
    if not all_proved:
        cov["explanation"] = "not every obligation was discharged for all inputs on this run; see units (bounded re-checks are not counted as proved)"
    if native and native.get("stat"):
        cov["executable_contract_runs"] = native["stat"]
    nviol = len(failed) + (1 if nat_bad else 0)
    write_evidence(pid, tier, seed, level, cov, list(mod.ASSUMPTIONS), time.time() - t0, nviol)
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                print("KNOWN-FINDING: " + line[len("known: "):])
    if nat_bad or failed:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%d.txt" % (pid, os.getpid()))
        with open(rp, "w") as f:
            if nat_bad:
                f.write("failing input on the real code (property %s), seed %s\nre-run: VERIF_SEED=%s python3 check.py %s\n\n%s\n%s\n" % (pid, native["args"][1], native["args"][1], pid, native["out"], native["err"]))
            for r in failed:
                f.write("\nunit %s (%s): failed obligations\n" % (r.unit.name, r.mode))
                for x in r.failed: f.write("  %s: %s (%s)\n" % x)
                f.write("verifier command: %s\n" % r.cmd)
                f.write("verifier output (tail):\n%s\n" % r.log[-20000:])
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if nat_bad else " no-failing-input-found"))
        return 1
    # nothing failed; was anything decided at all?
    nat_ok = bool(native) and native["status"] == "ok"
    if nat_ok or all_proved: return 0
    if any(r.status == "proved" for r in list(results.values()) + list(bounded.values())): return 0
    print("UNDECIDED: neither the verifier nor the executable contracts could be applied")
    return 2
