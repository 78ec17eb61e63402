"""Shared machinery: build the code under test, run drivers, run TLC, report.

No oracle lives here: every accept/reject decision is taken by TLC on a TLA+ specification."""
import os, sys, json, hashlib, subprocess, re, shutil, time, fcntl, random, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_NPROC", 0)) or os.cpu_count() or 4
CXXFLAGS = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

class CheckError(Exception):
    pass

# ---------------------------------------------------------------- build
def _walk(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out

def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def _headers():
    return _walk(os.path.join(REPO, "include"), (".h", ".icc", ".hh", ".hpp")) + \
        _walk(os.path.join(REPO, "src"), (".h",)) + [os.path.join(REPO, "cmake/GearConfig.h.cmake.in"), os.path.join(REPO, "CMakeLists.txt")]

def build_lib():
    """Compile /repo's current sources into one static library; objects are cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hdrs = _headers()
        srcs = []
        for d in ("gearsurf", "gearimpl", "gearxml"):
            dd = os.path.join(REPO, "src", d)
            srcs += [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith(".cc")]
        hh = _hash(hdrs, " ".join(CXXFLAGS))
        libhash = _hash(srcs, hh)
        inc = os.path.join(BUILD, "inc-" + hh)
        os.makedirs(os.path.join(inc, "gear"), exist_ok=True)
        top = open(os.path.join(REPO, "CMakeLists.txt")).read()
        cfg = open(os.path.join(REPO, "cmake/GearConfig.h.cmake.in")).read()
        for v in ("MAJOR", "MINOR", "PATCH"):
            m = re.search(r"_VERSION_%s +([0-9]+)" % v, top)
            val = m.group(1) if m else "0"
            cfg = cfg.replace("@GEAR_VERSION_%s@" % v, val)
            cfg = cfg.replace("${GEAR_VERSION_%s}" % v, val)
        cfg = re.sub(r"#cmakedefine.*", "", cfg)
        with open(os.path.join(inc, "gear", "GearConfig.h"), "w") as f:
            f.write(cfg)
        incs = ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include", "gear")]
        lib = os.path.join(BUILD, "lib-%s.a" % libhash)
        if not os.path.exists(lib):
            _gc()
            od = os.path.join(BUILD, "obj-" + libhash)
            os.makedirs(od, exist_ok=True)
            cache = os.path.join(BUILD, "ocache"); os.makedirs(cache, exist_ok=True)
            def cc(s):
                oh = _hash([s], hh)
                o = os.path.join(cache, os.path.basename(s)[:-3] + "-" + oh + ".o")
                if not os.path.exists(o):
                    r = subprocess.run(["g++", *CXXFLAGS, *incs, "-c", s, "-o", o + ".tmp"], capture_output=True, text=True)
                    if r.returncode:
                        return s, r.stderr
                    os.rename(o + ".tmp", o)
                return o, None
            with ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(cc, srcs))
            errs = [r for r in res if r[1]]
            if errs:
                raise CheckError("compilation failed: %s\n%s" % (errs[0][0], errs[0][1][:3000]))
            subprocess.run(["ar", "crs", lib + ".tmp"] + [r[0] for r in res], check=True)
            os.rename(lib + ".tmp", lib)
            shutil.rmtree(od, ignore_errors=True)
        return lib, incs, libhash

def _gc():
    """keep the build directory small"""
    try:
        ents = []
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if f.startswith(("lib-", "drv-", "obj-", "inc-")):
                ents.append((os.path.getmtime(p), p))
        c = os.path.join(BUILD, "ocache")
        if os.path.isdir(c):
            for f in os.listdir(c):
                p = os.path.join(c, f); ents.append((os.path.getmtime(p), p))
        now = time.time()
        for m, p in ents:
            if now - m > 6 * 3600:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    except OSError:
        pass

def build_driver(name):
    lib, incs, libhash = build_lib()
    src = os.path.join(VERIF, "drivers", name + ".cc")
    # "// sources: a.cc b.cc" names sources of /repo outside the default library
    extra = [os.path.join(REPO, f) for l in open(src) if l.startswith("// sources:") for f in l.split(":", 1)[1].split()]
    more = ["-I" + os.path.join(VERIF, d) for l in open(src) if l.startswith("// include:") for d in l.split(":", 1)[1].split()]
    dh = _hash([src] + extra + _walk(os.path.join(VERIF, "drivers"), (".h",)), libhash)
    exe = os.path.join(BUILD, "drv-%s-%s" % (name, dh))
    with open(os.path.join(BUILD, ".lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            # objects of the driver and of sources outside the library, cached by content
            cache = os.path.join(BUILD, "ocache"); dirs = ["-I" + os.path.join(VERIF, "drivers"), *more]
            hh = _hash(_headers() + _walk(os.path.join(VERIF, "drivers"), (".h",)), " ".join(CXXFLAGS + dirs))
            def cc(s):
                o = os.path.join(cache, "%s-%s.o" % (os.path.basename(s)[:-3], _hash([s], hh)))
                if not os.path.exists(o):
                    r = subprocess.run(["g++", *CXXFLAGS, *incs, *dirs, "-c", s, "-o", o + ".tmp%d" % os.getpid()], capture_output=True, text=True)
                    if r.returncode: raise CheckError("driver %s does not compile against the code:\n%s" % (name, r.stderr[:4000]))
                    os.rename(o + ".tmp%d" % os.getpid(), o)
                return o
            with ThreadPoolExecutor(NPROC) as ex: objs = list(ex.map(cc, [src] + extra))
            r = subprocess.run(["g++", *CXXFLAGS, *objs, lib, "-lCLHEP", "-o", exe + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("driver %s does not compile against the code:\n%s" % (name, r.stderr[:4000]))
            os.rename(exe + ".tmp", exe)
    return exe

# ---------------------------------------------------------------- drivers
def _esc(t):
    t = str(t)
    return t.replace("%", "%25").replace("\t", "%09").replace("\n", "%0A").replace("\r", "%0D")

def run_driver(exe, histories, to_tokens, cwd=None, timeout=600):
    """histories: list of lists of commands (dicts with 'op' and arbitrary argument fields).
    to_tokens(cmd) -> token list for the driver. Returns list of histories of events (command + 'r')."""
    # memory is freshly poisoned with 165 (0xa5), so what was never initialised never reads as zero
    env = dict(os.environ, LC_ALL="C", UBSAN_OPTIONS="print_stacktrace=0",
               ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=1048576:free_fill_byte=90:max_free_fill_size=4096")
    todo = list(range(len(histories)))
    results = [None] * len(histories)
    pos = 0
    hangs = deaths = 0
    # batches: one process handles many histories until it dies
    while pos < len(todo):
        if hangs >= 3 or deaths >= 60:   # enough rejected observations; running the rest would only repeat them
            for h in todo[pos:]: results[h] = []
            break
        lines = []
        for h in todo[pos:]:
            lines.append("reset")
            for c in histories[h]:
                lines.append("\t".join(_esc(t) for t in to_tokens(c)))
        data = ("\n".join(lines) + "\n").encode("latin-1", "replace")
        try:
            p = subprocess.run([exe], input=data, capture_output=True, cwd=cwd, env=env, timeout=timeout)
            outs = p.stdout.decode("latin-1").splitlines()
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            outs = (e.stdout or b"").decode("latin-1").splitlines(); rc = -14
        if rc == -14: hangs += 1
        elif rc != 0 and deaths < 3:
            why = [l for l in p.stderr.decode("latin-1").splitlines() if "ERROR: Addr" in l or "runtime error" in l or "ssertion" in l or l.startswith("    #")][:8]
            if why: print("driver died (rc %s):\n  %s" % (rc, "\n  ".join(why)), file=sys.stderr)
        if rc != 0: deaths += 1
        k = 0
        crashed = False
        while pos < len(todo):
            h = todo[pos]
            evs = []
            if k >= len(outs):   # died in reset
                if rc == 0 or k == 0:
                    raise CheckError("driver stopped without answering (rc %s)" % rc)
                # blame the reset (destruction) on the previous history
                if pos > 0 and results[todo[pos-1]] is not None:
                    results[todo[pos-1]].append({"op": "destroy_all", "r": {"x": "CRASH%d" % rc}})
                    crashed = True
                    break
                raise CheckError("driver cannot start (rc %s)" % rc)
            k += 1
            dead = False
            for c in histories[h]:
                if k < len(outs):
                    try:
                        r = json.loads(outs[k])
                    except ValueError:
                        r = {"x": "GARBLED"}
                    k += 1
                    evs.append(dict(c, r=r))
                else:
                    evs.append(dict(c, r={"x": "CRASH%d" % rc})); dead = True
                    break
            results[h] = evs
            pos += 1
            if dead:
                crashed = True
                break
        if not crashed and pos >= len(todo) and rc != 0 and results:
            # all answers given, died on exit
            results[todo[-1]].append({"op": "destroy_all", "r": {"x": "CRASH%d" % rc}})
    return results

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, args=(), timeout=800, heap="1500m", workers=1, cwd=None):
    dc = os.environ.get("VERIF_DEV_MCCACHE")    # development only: several runs over the same specification
    if dc and "TRACE" not in (env or {}):
        h = hashlib.sha256(repr((module, cfg, env, list(args))).encode())
        for f in _walk(SPECS, (".tla", ".cfg")): h.update(open(f, "rb").read())
        f = os.path.join(dc, h.hexdigest()[:20])
        if not os.path.exists(f):
            r = _tlc(module, cfg, env, args, timeout, heap, workers, cwd)
            json.dump(r, open(f + ".%d" % os.getpid(), "w")); os.rename(f + ".%d" % os.getpid(), f)
        return json.load(open(f))
    return _tlc(module, cfg, env, args, timeout, heap, workers, cwd)
def _tlc(module, cfg, env, args, timeout, heap, workers, cwd):
    md = tempfile.mkdtemp(prefix="tlc", dir=_tmp())
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *args, module]
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd or SPECS, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timeout on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr

_TMP = None
def _tmp():
    global _TMP
    if _TMP is None:
        import atexit
        os.makedirs(BUILD, exist_ok=True)
        _TMP = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
        atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP

def scratch():
    return tempfile.mkdtemp(prefix="w", dir=_tmp())

def validate(trace_module, evs_by_hist, chunks=None, env=None):
    """Validate event histories against specs/<trace_module>.tla. Returns (bad list [(hist,idx)], stats)."""
    flat = sum(len(h) for h in evs_by_hist)
    if chunks is None:
        chunks = max(1, min(NPROC - 1, flat // 1500 + 1))
    # distribute histories
    parts = [[] for _ in range(chunks)]
    size = [0] * chunks
    for hi, h in sorted(enumerate(evs_by_hist), key=lambda t: -len(t[1])):
        k = size.index(min(size)); parts[k].append(hi); size[k] += len(h) + 1
    def one(part):
        if not part:
            return [], 0
        f = os.path.join(scratch(), "trace.ndjson")
        index = []
        with open(f, "w") as fh:
            for hi in part:
                fh.write(json.dumps({"op": "reset"}) + "\n"); index.append((hi, -1))
                for k, e in enumerate(evs_by_hist[hi]):
                    fh.write(json.dumps(e) + "\n"); index.append((hi, k))
        ee = {"TRACE": f}; ee.update(env or {})
        rc, out = tlc(trace_module + ".tla", trace_module + ".cfg", env=ee)
        m = re.search(r'<<"DIAM", (\d+), (\d+)>>', out)
        b = re.findall(r'<<\s*"BAD",\s*<<([^>]*)>>\s*>>', out)
        ev = re.findall(r"^/\\ i = (\d+)", out, re.M)
        if "Attempted to" in out and "Error:" in out and ev and "OutOfMemory" not in out:
            # the specification cannot even interpret the observed value (wrong type, missing field, not a number):
            # such an observation is rejected
            i = min(int(ev[-1]), len(index))
            return [index[i - 1]], 0
        if not m:
            raise CheckError("TLC failed on %s:\n%s" % (trace_module, _tail(out)))
        diam, n = int(m.group(1)), int(m.group(2))
        if n != len(index):
            raise CheckError("trace length mismatch")
        if diam != n + 1 or not b:
            i = min(diam - 1, n - 1)
            raise CheckError("TLC stopped at event %d %s of %s:\n%s" % (diam, json.dumps(evs_by_hist[index[i][0]][index[i][1]])[:600] if i < n else "", trace_module, _tail(out)))
        bad = [int(x) for x in b[-1].replace("\n", " ").split(",") if x.strip()]
        ms = re.search(r"(\d+) states generated, (\d+) distinct", out)
        os.unlink(f)
        return [index[x - 1] for x in bad], int(ms.group(1)) if ms else 0
    with ThreadPoolExecutor(max(1, min(chunks, NPROC - 1))) as ex:
        res = list(ex.map(one, parts))
    bad = sorted(set(b for r in res for b in r[0]))
    return bad, {"trace_states": sum(r[1] for r in res), "events": flat}

def _tail(out, n=40):
    ls = [l for l in out.splitlines() if l.strip()]
    # prefer the error part
    for i, l in enumerate(ls):
        if l.startswith("Error:"):
            return "\n".join(ls[i:i + n])[:3000]
    return "\n".join(ls[-n:])[:3000]

def model_check(module, cfg, timeout=600, workers=None, env=None, args=(), heap="6g"):
    """Exhaustive check of a specification; raises CheckError if the specification itself is wrong."""
    rc, out = tlc(module + ".tla", cfg, env=env, timeout=timeout, workers=workers or NPROC, heap=heap, args=args)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if rc != 0 or not m or "Error:" in out:
        raise CheckError("model check of %s/%s failed rc=%s:\n%s" % (module, cfg, rc, _tail(out)))
    g, d = (int(x.replace(",", "")) for x in m[-1])
    return {"generated": g, "distinct": d}, out

def behaviours(module, cfg, seed=None, simulate=None, depth=None, timeout=600, env=None):
    """Behaviours of the specification printed as JSON by the generator module: a list of command lists.
    simulate=None: one behaviour per transition of the whole (bounded) state graph."""
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed or 1)]
    rc, out = tlc(module + ".tla", cfg, env=env, timeout=timeout, args=args, workers=1, heap="4g")
    if "Error:" in out and not simulate:
        raise CheckError("behaviour generation %s failed:\n%s" % (module, _tail(out)))
    res = []
    for l in out.splitlines():
        if l.startswith('"HIST'):
            s = json.loads(l)
            res.append(json.loads(s[4:]))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st = {"generated": 0, "distinct": 0}
    if m:
        g, d = (int(x.replace(",", "")) for x in m[-1]); st = {"generated": g, "distinct": d}
    if not res:
        raise CheckError("no behaviours from %s:\n%s" % (module, _tail(out)))
    return res, st

# ---------------------------------------------------------------- reporting
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(l)
    return out
