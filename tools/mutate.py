#!/usr/bin/env python3
"""Development aid: sample small syntactic changes of the sources, run the checks that answer for the file, list the survivors.
usage: mutate.py OUT.jsonl WORKERS PERFILE SEED [file-regex]     (works on copies under /tmp/mw*, never on /repo)"""
import sys, os, re, random, subprocess, json, shutil, threading, queue
MAP = [("gearimpl/FixedPadSizeDiskLayout|gearimpl/FixedPadAngleDiskLayout|gearimpl/VersatileDiskRow|gearimpl/RectangularPadRow|FixedDiskLayoutBase", "P10 P09 P21 P11 P06"),
       ("TPCModuleImpl", "P13 P12 P14 P11 P06"), ("gearimpl/TPCParametersImpl", "P14 P11 P06"), ("gearimpl/Util", "P22"),
       ("gearimpl/FTD", "P18 P05 P22"), ("gearimpl/ZPlanar", "P16 P17 P18 P05"), ("gearimpl/SiPlanes|gearimpl/TrackerPlanes", "P18 P05 P22"),
       ("gearimpl/Calor|gearimpl/LayerLayout", "P15 P04"), ("gearimpl/GearMgrImpl", "P01 P03"), ("gearimpl/GearParam|ConstantB|SimpleMat", "P02 P03 P01"),
       ("MergeXML", "P08"), ("tinyxml", "P07 P08 P03"), ("gearxml/Calor", "P04 P07"), ("gearxml/(Si|FTD|ZPl|Tracker)", "P05 P07"),
       ("gearxml/(TPC|Fixed|Versa|Rect|PadRow)", "P06 P07"), ("gearxml/", "P03 P07 P05 P06 P01"), ("gearsurf|BoundaryRect|BoundaryTra|CoordinateSystem|MeasurementSurf", "P19"),
       ("Vector3D|Vectors", "P20"), ("MaterialMap", "P23"), ("geartgeo", "P24")]
SKIP = re.compile(r"FTDParametersImpl|XMLHandler\.h|gearcga|src/test|tinyxmlerror|CMake|geartgeo/.*\.h")
OPS = [(r"(?<![<=>!+\-*/&|])<(?![<=])(?=[^>]*$|[^>]*[;)&|])", "<="), (r"<=", "<"), (r"(?<![->=<])>(?![>=])(?=\s*[\w(\-])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w)\]]) ?\+ ?(?=[\w(])", " - "), (r"(?<=[\w)\]]) ?- ?(?=[\w(])", " + "), (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", " / "), (r"(?<=[\w)\]]) ?/ ?(?=[\w(])", " * "),
       (r"\+=", "-="), (r"-=", "+="), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"), (r"0\.5\b", "0.6"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bx\(\)", "y()"), (r"\by\(\)", "x()"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[3]"), (r"Min\b", "Max"), (r"Max\b", "Min"),
       (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfabs ?\(", "("), (r"!(?=[\w(])", ""), (r"\+\+", ""), (r"\bbreak ?;", ";"), (r"\bcontinue ?;", ";"), (r"2 ?\* ?M_PI", "M_PI"), (r"\bPhi\b", "R"),
       (r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if( true ) \2"), (r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if( false ) \2"),
       (r"^(\s*)[\w.\[\]>\-_]+ *[+\-]?= *[^=].*;\s*$", r"\1;"), (r"^(\s*)[\w.\->_:]+\s*\(.*\) ?;\s*$", r"\1;"), (r"first", "second"), (r"second", "first"), (r"[Ll]adder", "Sensitive")]
BASE = "/tmp/mwbase"
def files():
    out = []
    for d in ("src/gearimpl", "src/gearxml", "src/gearsurf", "src/geartgeo", "include/gear/gearimpl", "include/gear/gearsurf", "include/gearsurf", "include/gear/gearxml"):
        p = os.path.join(BASE, d)
        if os.path.isdir(p): out += [os.path.join(d, f) for f in sorted(os.listdir(p)) if f.endswith((".cc", ".h")) and not SKIP.search(os.path.join(d, f))]
    return out
def mutants(f):
    ls = open(os.path.join(BASE, f), errors="replace").read().split("\n"); out = []; com = False
    for i, l in enumerate(ls):
        s = l.strip()
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("/*") and "*/" not in s: com = True; continue
        if not s or s.startswith(("//", "*", "#", "using", "namespace", "/*", "class", "template")) or "cout" in s or s.startswith("virtual ~") or "cerr" in s: continue
        code = l.split("//")[0] if '"' not in l.split("//")[0] else l
        for a, b in OPS:
            for m in re.finditer(a, code):
                q = code[:m.start()].count('"')
                if q % 2: continue
                n = code[:m.start()] + m.expand(b) + code[m.end():] + l[len(code):]
                if n != l: out.append((i, l, n))
    return out
def checks(f):
    for r, c in MAP:
        if re.search(r, f): return c.split()
    return []
def main():
    out, W, K, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); rx = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
    os.makedirs("/tmp/mwcache", exist_ok=True); shutil.rmtree(BASE, ignore_errors=True); os.makedirs(BASE); subprocess.run("git -C /repo archive HEAD | tar x -C " + BASE, shell=True, check=True)
    rng = random.Random(seed); jobs = []
    for f in files():
        if not rx.search(f) or not checks(f): continue
        ms = mutants(f); rng.shuffle(ms); n = 0; seen = set()
        for m in ms:
            if (m[0]) in seen: continue
            seen.add(m[0]); jobs.append((f,) + m); n += 1
            if n >= min(K, 2 + len(ms) // 12): break
    rng.shuffle(jobs); print(len(jobs), "mutants", flush=True)
    q = queue.Queue(); [q.put(j) for j in jobs]; lock = threading.Lock()
    def work(w):
        d = "/tmp/mw%d" % w; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run("git -C /repo archive --prefix=repo/ HEAD | tar x -C %s; mkdir %s/verif; cd /verif && cp -a drivers specs lib run.py known_findings.txt %s/verif/ 2>/dev/null; cp -a *.json* %s/verif/" % (d, d, d, d), shell=True)
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_NPROC="3", VERIF_DEV_MCCACHE="/tmp/mwcache")
        while True:
            try: f, i, l, n = q.get_nowait()
            except queue.Empty: return
            p = os.path.join(d, "repo", f); t = open(p, errors="replace").read(); ls = t.split("\n"); assert ls[i] == l
            ls[i] = n; open(p, "w", errors="replace").write("\n".join(ls)); res = "survived"
            for c, sc in [(c, ".1") for c in checks(f)] + [(c, "1") for c in checks(f)]:
                try: r = subprocess.run(["python3", "run.py", c, "quick", "--dev"], cwd=d + "/verif", env=dict(env, VERIF_DEV_SCALE=sc), capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired: res = "timeout " + c; break
                if "does not compile" in r.stdout + r.stderr or "compilation failed" in r.stdout + r.stderr: res = "nocompile"; break
                if r.returncode == 1: res = "killed %s %s" % (c, sc); break
                if r.returncode: res = "error %s %s" % (c, (r.stdout + r.stderr)[-300:]); break
            open(p, "w", errors="replace").write(t)
            with lock: open(out, "a").write(json.dumps(dict(file=f, line=i + 1, old=l.strip(), new=n.strip(), res=res)) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
    for w in range(W): shutil.rmtree("/tmp/mw%d" % w, ignore_errors=True)
main()
